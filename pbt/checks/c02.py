"""C02: one ill-formed construct gives one error, that points at it."""

import logging
import re

from mau import Mau
from mau.message import LogMessageHandler, MauException
from mau.visitors.jinja_visitor import JinjaVisitor

from ..arms import Arm, Cfg, D, Root, Violation, composite, draw_env, run_case, st, sut
from ..docgen import Doc
from ..gen import SIMPLE

BLOCK = "§§§§"  # not a delimiter of the generated documents
OTHER = "¶¶¶¶"


class Bad(str):
    """A line of the ill-formed construct, and the part of it that is wrong."""

    core = None


def at(line, core):
    """The line, with its wrong part. The position of an undefined variable is exact."""
    line = Bad(line)
    line.core = next((x for x in EXACT if x in core), core)
    return line


# Wrong parts whose position is exact: variables and conditions.
EXACT = ["{nope}", "if:nope==1", "ifeval:nope!=1", "fault]"]


def columns(line):
    """The columns of the wrong part, and whether they are exact."""
    if line.core is None:
        return 0, len(line), False
    k = line.rindex(line.core)
    return k, k + len(line.core.removesuffix("]")), line.core in EXACT


# --------------------------------------------------------------------------
# Faults
# --------------------------------------------------------------------------

UNDEFINED = "nope' has not been defined"

# Inside text: (source, error)
INLINE = [
    ("{nope}", UNDEFINED), ("a {nope} b", UNDEFINED), ("*x {nope}*", UNDEFINED),
    ("[link]()", "Missing mandatory TARGET"), ("[header]()", "Missing mandatory ID"), ("[mailto]()", "Missing mandatory EMAIL"),
    ("[class]()", "Missing mandatory TEXT"), ("[image]()", "Missing mandatory URI"), ("[unicode]()", "Missing mandatory VALUE"),
    ("[raw]()", "Missing mandatory VALUE"), ("[footnote]()", "Missing mandatory NAME"), ("[header](nope)", "with id nope"),
    ("[header](nope, text)", "with id nope"), ("[footnote](nope)", UNDEFINED), ("[if:nope==1](a)", UNDEFINED),
    ("[ifeval:nope!=1](flag, flag)", UNDEFINED), ("[if:fault](a)", "Wrong condition syntax"), ("[ifeval:fault](a)", "Wrong condition syntax"), ("[if](a)", "must be in the form"),
    ("[ifx:fault==1](a)", "ifx.* not supported"), ("[if:fault==yes]()", "missing the mandatory value"),
    ("[ifeval:fault==yes](nope)", UNDEFINED), ("[link](target=a, b)", "Unnamed arguments after named"),
    ("[kbd](k=1, #tag)", "Unnamed arguments after named"), ("[kbd](*a, *b)", "Multiple nodes with prefix"),
    ("[kbd](@nope)", "Alias 'nope' cannot be found"), ("[link](u, {nope})", UNDEFINED), ("[kbd](k={nope})", UNDEFINED),
]

# Lists of arguments.
ARGS = [("{nope}", UNDEFINED), ("a, {nope}", UNDEFINED), ("a, k={nope}", UNDEFINED), ("k=1, b", "Unnamed arguments after named"),
        ("k=1, #t", "Unnamed arguments after named"), ("*a, *b", "Multiple nodes with prefix"), ("@nope", "Alias 'nope' cannot be found"),
        ("@source, @raw", "Multiple nodes with prefix")]


def wrap_inline(d, src):
    """The fault inside other inline markup."""
    for _ in range(d.weighted([(5, 0), (3, 1), (1, 2)])):
        k = d.int(0, 3)
        if k == 0 and "*" not in src:
            src = f"*w {src}*"
        elif k == 1 and "_" not in src:
            src = f"_{src}_"
        elif k == 2 and '"' not in src:
            src = f'[link](target, "x {src}")'
        elif k == 3 and '"' not in src:
            src = f'[class]("x {src} y", c1)'
    return src


def words(d):
    return " ".join(d.pick(SIMPLE) for _ in range(d.int(1, 3)))


def inline_fault(d):
    src, error = d.pick(INLINE)
    core = src
    src = wrap_inline(d, src)
    src = d.pick(["", words(d) + " "]) + src + d.pick(["", " " + words(d)])
    carrier = d.pick(["paragraph", "paragraph", "header", "list", "label", "label-list", "attached"])
    if src.startswith("[") and carrier == "paragraph":
        src = "w " + src
    if carrier == "paragraph":
        before = [words(d) for _ in range(d.int(0, 3))]
        lines = before + [Bad(src)] + [words(d) for _ in range(d.int(0, 2))]
    elif carrier == "header":
        lines = [Bad("=" * d.int(1, 4) + " " + src)]
    elif carrier == "list":
        level = 1
        lines = []
        for _ in range(d.int(0, 3)):
            lines.append(d.pick("*#") * level + " " + words(d))
            level = max(1, level + d.int(-1, 1))
        lines.append(Bad(d.pick("*#") * level + " " + src))
        lines += ["* " + words(d) for _ in range(d.int(0, 1))]
    elif carrier == "label":
        lines = [".first " + words(d), Bad(d.pick([". ", ".title ", ".role "]) + src), "[a, b=c]", words(d)]
        if d.chance(5):
            lines = lines[1:2] + [d.pick(["---", "= H", words(d), "* item", "<< custom:a"])]
    elif carrier == "label-list":
        lines = ["[x]", Bad(". " + src), "# " + words(d), "# " + words(d)]
    else:
        lines = [". " + words(d), "[a, k=v]", "@if fault==yes", "", "// comment", Bad("= " + src)]
    lines = [at(x, core) if isinstance(x, Bad) else x for x in lines]
    return lines, error, "inline-" + carrier


def args_fault(d):
    src, error = d.pick(ARGS)
    carrier = d.pick(["paragraph", "block", "list", "header", "include", "macro", "dropped"])
    if carrier == "include":
        return [at(f"<<{d.pick([' ', ''])}{d.pick(['custom', 'image', 'toc', 'mau', 'raw', 'blockgroup', 'footnotes'])}:{src}", src)], error, "args-include"
    if carrier == "macro":
        return [words(d), at(words(d) + f" [kbd]({src})", src)], error, "args-macro"
    if carrier == "dropped":
        return [at(f"[{src}]", src), "[other]", words(d)], error, "args-dropped"
    target = {"paragraph": [words(d)], "block": [BLOCK, words(d), BLOCK], "list": ["# " + words(d)], "header": ["== " + words(d)]}[carrier]
    return [". label"] * d.int(0, 1) + [at(f"[{src}]", src)] + [""] * d.int(0, 2) + target, error, "args-" + carrier


def block_fault(d):
    body = [words(d) if d.chance(7) else "" for _ in range(d.int(0, 3))]
    block = [Bad(BLOCK)] + [Bad(x) for x in body] + [Bad(BLOCK)]
    kind = d.pick(["engine", "delimiter", "footnote", "group"])
    if kind == "engine":
        return [d.pick(["[engine=nope]", "[a, engine=nope, k=v]"])] + [""] * d.int(0, 1) + block, "Engine 'nope' is not available", "engine"
    if kind == "delimiter":
        return ['[engine=source, marker_delimiter=""]'] + [BLOCK] + [Bad("x")] + [Bad(words(d)) for _ in range(d.int(0, 2))] + [Bad(BLOCK)], "marker delimiter", "marker-delimiter"
    first = [OTHER, words(d), OTHER]
    between = [""] * d.int(0, 2) + d.pick([[], [words(d), ""], ["= Header"]])
    args = "[footnote=dup]" if kind == "footnote" else "[group=dup, position=p]"
    error = "Footnote 'dup' has been already defined" if kind == "footnote" else "Position 'p' is already taken"
    if kind == "footnote" and d.chance(4):
        # The first definition is in a block that shares its footnotes.
        first = ["[isolate=false]", "££££", args] + first + ["££££"]
    else:
        first = [args] + first
    return first + between + [args] + block, error, "twice-" + kind


def header_twice(d):
    first = ["[name=dup]", "= " + words(d)]
    if d.chance(4):
        first = ["[isolate=false]", BLOCK] + first + [BLOCK]
    return first + [""] * d.int(0, 1) + d.pick([[], [words(d), ""]]) + ["[name=dup]", Bad("== " + words(d))], "Duplicate header id", "twice-header"


def list_fault(d):
    if d.chance(4):
        # A list ends with an empty line.
        items = [d.pick("*#") + " " + words(d) for _ in range(d.int(1, 3))] + ["// comment"] * d.int(0, 1)
        after = d.pick([[words(d)], ["= H"], ["---"], ["<< custom:a"], ["[a]", words(d)], [". label", words(d)], ["@if fault==yes", words(d)], [":x:1"], [BLOCK, "x", BLOCK]])
        guard = ["@if fault==" + d.pick(["yes", "no"])] * d.int(0, 1)
        return guard + items + [at(after[0], after[0])] + after[1:], "Wrong syntax encountered while processing the list", "list-followed"
    n = d.int(1, 3)
    start = d.pick(["x", "1.5", "", "1x", "AUTO"])
    if start == "":
        start = '""'
    return [f"[start={start}]"] + [""] * d.int(0, 1) + [Bad("# " + words(d)) for _ in range(n)], "start of the list", "list-start"


def include_fault(d):
    src, error = d.pick([
        ("mau:nope.mau", "'nope.mau' cannot be read"), ("raw:nope.txt", "'nope.txt' cannot be read"), ("mau:", "."), ("mau", "need to specify a URI"),
        ("image", "need to specify a URI"), ("raw", "need to specify a URI"), ("blockgroup", "need to specify a group"),
        ("blockgroup:nope", "group 'nope' does not exist"), ("mau:main.mau", "To avoid recursion"), ("mau:./main.mau", "To avoid recursion"),
        ("custom:", "Cannot parse token"), ("below", "Inline arguments are missing"), ("boxed", "both boxed and inline"), ('custom:"a', "Cannot parse token"),
        ("mau:pass_environment=false", "need to specify a URI"), ("image:alt_text=x", "need to specify a URI"),
    ])
    if src == "boxed":
        return ["[a, b]"] + ["", "// comment"][:d.int(0, 2)] + [Bad("<< custom:c")], error, "include-boxed"
    labels = [". label"] * d.int(0, 1) + ["@if fault==yes"] * d.int(0, 1)
    if src == "below":
        return labels + [Bad("<< " + d.pick(["custom:", "toc:", "mau:"])), words(d)], error, "include-below"
    return labels + [Bad("<< " + src)], error, "include-" + re.split(r"\W", src)[0]


def control_fault(d):
    src, error = d.pick([
        ("@if nope==1", UNDEFINED), ("@if nope!=1", UNDEFINED), ("@if", "requires a condition"), ("@foo fault==yes", "'foo' is not supported"),
        ("@if fault", "."), ("@if fault=a", "."), ("@if fault=={nope}", UNDEFINED), ("@if {nope}==1", UNDEFINED),
    ])
    # The condition is evaluated when the node is reached.
    target = d.pick([[words(d)], ["= H"], ["---"], ["* item"], ["<< custom:a"], [BLOCK, "x", BLOCK], ["", "[a]", ". label", "", words(d)]])
    return [at(src, src)] + target, error, "control"


def variable_fault(d):
    src, error = d.pick([(":x:", "'x' has no value"), (":x:{nope}", UNDEFINED), (":ns.x:a {nope} b", UNDEFINED), (":x", "Cannot parse token"),
                         (":a!b:c", "Cannot parse token"), (":-x", "Cannot parse token")])
    return [at(src, src)], error, "variable"


def unclosed(d):
    if d.chance(5):
        return [Bad(BLOCK)] + [words(d) for _ in range(d.int(0, 3))], "Unclosed block", "unclosed-block"
    return [Bad("////")] + [words(d) for _ in range(d.int(0, 3))], "Unclosed multiline comment", "unclosed-comment"


FAULTS = [(6, inline_fault), (3, args_fault), (3, block_fault), (1, header_twice), (1, list_fault), (3, include_fault), (2, control_fault), (1, variable_fault)]


# --------------------------------------------------------------------------
# Documents
# --------------------------------------------------------------------------


class Faulty(Doc):
    """A document with one fault somewhere."""

    def inject(self, at_end=False):
        d = self.d
        state = self.root
        if state.fault is not None or self.restricted or state.at_end != at_end:
            return
        if not d.chance(state.density + (4 if self is not state.top else 0)):
            return
        self.put()

    def put(self):
        d = self.d
        state = self.root
        lines, error, label = state.make(d)
        state.fault = (error, label)
        state.where = self.file
        state.depth = len(self.delims)
        self.emit("")
        self.emit(":fault:yes")
        for line in lines:
            self.emit(line)
        self.emit("")

    def step(self):
        self.inject()
        super().step()

    def finish(self):
        super().finish()
        self.inject(at_end=True)
        if self.root.top is self and self.root.fault is None:
            self.put()


DOCS = Cfg(max_nodes=6, weights=dict(paragraph=6, header=3, list=3, block=8, hr=1, raw=1, source=1, image=1, include=1, toc=1, footnotes=1,
                                     footnote=2, group=2, blockgroup=1, mau=5, rawfile=1, vardef=2, excluded=1), depth=3, max_lines=2)
QUIET = Cfg(max_nodes=5, noise=0, max_lines=1, weights=dict(paragraph=6, header=3, block=8, hr=1, include=1, footnote=2, mau=5), depth=3)
VISITOR = Cfg(max_nodes=6, weights=dict(paragraph=6, header=3, list=3, block=8, raw=1, source=1, include=1, toc=1, mau=5, rawfile=1, vardef=2,
                                        excluded=1), depth=3, macros=("link", "class", "mailto", "raw", "header"), max_lines=2)


def build(d, cfg, make, at_end=False):
    env, vars_ = draw_env(d, cfg)
    root = Root()
    root.fault = None
    root.make = make
    root.at_end = at_end
    root.density = d.pick([0, 0, 1, 3])
    doc = Faulty(d, cfg, root, vars_, cfg.depth)
    root.top = doc
    doc.fill(d.int(1, cfg.max_nodes))
    doc.finish()
    where = root.where
    lines = doc.lines if where == "main.mau" else root.sources[where]
    bad = [i for i, x in enumerate(lines) if isinstance(x, Bad)]
    assert bad
    error, label = root.fault
    return {"text": doc.text(), "env": env, "files": dict(root.files), "where": where, "lines": bad, "columns": [columns(lines[i]) for i in bad], "error": error,
            "labels": [label, f"depth-{root.depth}", "included" if where != "main.mau" else "main"], "whole": d.chance(3)}


def parser_faults(d):
    return build(d, DOCS, d.weighted(FAULTS))


def unclosed_faults(d):
    return build(d, QUIET, unclosed, at_end=True)


# Types of nodes without a template.
NO_TEMPLATE = {
    "horizontal-rule": [("---", True)],
    "include-image": [("<< image:a.png", True)],
    "macro-unicode": [("text [unicode](41) text", False), ("a *b [unicode](41)*", False)],
    "macro": [("x [kbd](a, b)", False), ("* item [kbd](a)", False)],
    "macro-image": [("= H [image](a.png)", False)],
}


def visitor_faults(d):
    type_ = d.pick(sorted(NO_TEMPLATE))
    src, own = d.pick(NO_TEMPLATE[type_])
    broken = d.chance(3)

    def make(d):
        lines = [at(src, re.search(r"\[.*\)|^[-<].*", src).group())]
        if src.startswith(("text", "a ", "x ")):
            lines = [words(d) for _ in range(d.int(0, 2))] + lines + [words(d) for _ in range(d.int(0, 1))]
        if own and d.chance(4):
            lines = [". label", "@if fault==yes"] + lines
        return lines, "Error rendering node with template" if broken else "Cannot find a suitable template", ("broken-" if broken else "template-") + type_

    case = build(d, VISITOR, make)
    case["missing"] = type_
    case["template"] = d.pick(["{{ nope.x }}", "{{ a.b.c }}", "{{ config.nope.x.y }}", "{% for i in nope.x %}{% endfor %}"]) if broken else None
    return case


TYPES = ["document", "paragraph", "paragraph-line", "text", "style", "verbatim", "header", "list", "list-item", "block", "raw", "raw-line", "source",
         "source-line", "source-marker", "include", "include-image", "include-mau", "include-raw", "toc", "toc-item", "footnotes", "footnotes-item",
         "footnote", "blockgroup", "blockgroup-item", "horizontal-rule", "label", "macro", "macro-link", "macro-class", "macro-header", "macro-image",
         "macro-unicode", "macro-raw", "macro-footnote"]


# --------------------------------------------------------------------------
# Oracle
# --------------------------------------------------------------------------


def place(message):
    """(file, line from 1) named by a message."""
    if hasattr(message, "position"):
        return message.source, message.position[0] + 1
    context = message.context
    if context is None:
        raise Violation(f"the error {message.text!r} has no position")
    # Parser errors count lines from 0 and are adjusted when shown; visitor errors are already adjusted.
    visitor = hasattr(message, "node_type")
    return context.source, context.start_line + (0 if visitor else 1)


def check_columns(case, message, bad, line, target):
    """The columns are inside of the wrong part of the line."""
    begin, end, exact = case["columns"][bad.index(line)]
    if hasattr(message, "position"):
        got = (message.position[1], message.position[1])
    else:
        context = message.context
        if context.end_line != context.start_line:
            lines = (case["text"] if case["where"] == "main.mau" else case["files"][case["where"]]).split("\n")
            last = context.end_line + (0 if hasattr(message, "node_type") else 1)
            if last not in bad or context.start_column != 0 or context.end_column > max(len(lines[n - 1]) for n in bad):
                raise Violation(f"{message.text!r}: the error is at {target} and the message says {context}")
            return
        got = (context.start_column, context.end_column)
    if not begin <= got[0] <= got[1] <= end:
        raise Violation(f"{message.text!r}: the error is at {target}, columns {begin} to {end}, and the message says {got}")
    if exact and (UNDEFINED in message.text or "Wrong condition" in message.text) and got != (begin, end):
        raise Violation(f"{message.text!r}: the error is at {target}, columns {begin} to {end}, and the message says {got}")


class Logger(logging.Logger):
    def __init__(self):
        super().__init__("verif", logging.DEBUG)
        self.lines = []

    def handle(self, record):
        self.lines.append(record.getMessage())


def run_whole(case, handler, visitor):
    """Through Mau.process."""
    out = sut.Outcome()
    out.handler = handler
    with sut.files_in_cwd(case["files"]), sut.limited():
        try:
            Mau(handler, sut.make_env(case["full_env"])).process(visitor, case["text"], "main.mau")
        except MauException as exc:
            out.error = exc
    return out


def check(case):
    visitor = sut.BaseVisitor
    env = dict(case["env"])
    if "missing" in case:
        visitor = JinjaVisitor
        env["mau.visitor.templates.custom"] = {t + ".j2": "x" if t != "paragraph" else "{{ content }}" for t in TYPES if t != case["missing"]}
        if case["template"]:
            env["mau.visitor.templates.custom"][case["missing"] + ".j2"] = case["template"]
    case = dict(case, full_env=env)
    if case["whole"]:
        out = run_whole(case, sut.Handler(), visitor)
    else:
        out = run_case(dict(case, env=env), visitor=visitor)
    bad = [n + 1 for n in case["lines"]]
    target = f"{case['where']}:{bad[0]}" + (f"-{bad[-1]}" if len(bad) > 1 else "")
    if out.ok:
        raise Violation(f"the construct at {target} is not rejected (expected: {case['error']})")
    messages = out.handler.messages
    if len(messages) != 1:
        raise Violation(f"{len(messages)} messages were sent: {[m.text for _, m in messages]}")
    message = messages[0][1]
    if out.error.message is not message:
        raise Violation(f"the message sent is {message!r}, that of the exception {out.error.message!r}")
    if not re.search(case["error"], message.text):
        raise Violation(f"the error of the construct at {target} is {message.text!r} instead of {case['error']!r}")
    source, line = place(message)
    if source != case["where"] or line not in bad:
        raise Violation(f"{message.text!r}: the error is at {target} and the message says {source}:{line}")
    check_columns(case, message, bad, line, target)
    # What a user sees.
    logger = Logger()
    run_whole(case, LogMessageHandler(logger), visitor)
    shown = [x for x in logger.lines if re.search(r"Context|Position|Source", x)]
    if not any(re.search(rf"{re.escape(source)}:{line},", x) for x in shown) and not (
            any(x.endswith(f"Source: {source}") for x in shown) and any(x.endswith(f"({line}, {message.position[1]})") for x in shown)):
        raise Violation(f"the log does not show {source}:{line}: {logger.lines[:6]}")
    count = sum(1 for x in logger.lines if re.search(r"(Lexer|Parser|Visitor) error", x))
    if count != 1:
        raise Violation(f"{count} errors are logged")
    return True, case["labels"]


def small_faults(d):
    return build(d, SMALL, d.weighted(FAULTS))


SMALL = Cfg(max_nodes=1, noise=0, max_lines=1, weights=dict(paragraph=1), depth=1)

ARMS = [
    Arm("small", composite(small_faults), check, 1500, rule="every case: a short document with one fault"),
    Arm("parser", composite(parser_faults), check, 1500, rule="every case: a valid document with one fault"),
    Arm("unclosed", composite(unclosed_faults), check, 500, rule="every case: a valid document with an unclosed block or comment at the end of one of its texts"),
    Arm("visitor", composite(visitor_faults), check, 500, rule="every case: a valid document with one node that has no template or a template that fails"),
]
