"""C14: a link to a header always resolves to the header with that name."""

import re

from ..arms import Arm, Cfg, D, Violation, composite, doc_arm, got_content, run_case, sut, walk
from ..gen import SIMPLE, quote_arg

# Headers whose name starts with "c" may have links in their text, and are
# always linked with a text (see known-findings.txt).
NAMES = ["n1", "n2", "a b", "été", "c1", "c2", "N1", "h-1.x", " n1", "n2 ", "a  b"]


def wrapped(d, link, number, headers=False):
    """A macro with a link (from the given function) in its text, or in one of its cases."""
    v = f"V{number()}"
    kind = d.pick(["class", "link", "true", "false", "eval", "both", "class-if", "style", "mailto"] + ["header"] * headers)
    if kind == "class":
        return f'[class]("{link(False)}", cls)'
    if kind == "link":
        return f'[link](http://a.b, "{link(False)}")'
    if kind == "mailto":
        return f'[mailto](a@b.org, "{link(False)}")'
    if kind == "header":
        return f'[name=H{v}]\n= T\n\n[header](H{v}, "{link(False)}")'
    if kind == "true":
        return f'[if:v1{d.pick(["==yes", "!=no"])}]("{link(False)}"{d.pick(["", ", other"])})'
    if kind == "false":
        return f'[if:v1{d.pick(["==no", "!=yes"])}](other, "{link(False)}")'
    if kind == "both":
        x, y = link(False), link(True)
        return f'[if:v1==yes]("{x}", "{y}")' if d.chance(5) else f'[if:v1==no]("{y}", "{x}")'
    if kind == "eval":
        x = link(False)
        good, bad = d.pick([("v1==yes", "v1==no"), ("v1!=no", "v1!=yes")])
        return f":{v}:{x}\n\n" + (f"[ifeval:{good}]({v}, v1)" if d.chance(5) else f"[ifeval:{bad}](v1, {v})")
    if kind == "class-if":
        return f'[class]("[if:v1==no](other, \\"{link(False)}\\")", cls)'
    return f'*[class]("{link(False)} x", cls)* _y_'


class Scope:
    def __init__(self):
        self.headers = {}  # name -> list of headers
        self.links = []  # (key, name, text or None)


class Gen:
    def __init__(self, d, faults):
        self.d = d
        self.faults = faults
        self.lines = []
        self.n = 0
        self.scopes = []
        self.files = {}
        self.labels = set()
        self.shown = []  # notes to mention

    def new_scope(self):
        s = Scope()
        self.scopes.append(s)
        return s

    def number(self):
        self.n += 1
        return self.n

    def link(self, scope, hidden=False):
        """The source of a link, preceded by its key."""
        d = self.d
        n = self.number()
        name = d.pick(NAMES)
        text = f"L{n}" if name[0] == "c" or d.chance(4) else None
        form = d.weighted([(5, "plain"), (2, "quoted"), (2, "named")])
        value = quote_arg(name) if form == "quoted" or name != name.strip() or " " in name and d.chance(5) else name
        if form == "named":
            value = f"header_id={value}"
        src = value
        if text is not None:
            if d.chance(2):
                # Hardly a text, but given.
                text = d.pick([" ", "-", "  "])
                markup = f'"{text}"'
            else:
                markup = d.pick([text, f"_{text}_", f'"{text}"', f"`{text}`"])
            src += d.pick([", ", ","]) + (f"text={markup}" if form == "named" or d.chance(2) else markup)
        if not hidden:
            scope.links.append([f"K{n}", name, text])
        link = f"K{n} [header]({src})"
        return d.pick([link, link, f"*{link}*", f"before _{link}_ after", f"`v`{link}"])

    def bare(self, scope, hidden):
        """A link that can be written inside of quotes."""
        d = self.d
        n = self.number()
        name = d.pick([x for x in NAMES if " " not in x and x[0] != "c"])
        text = f"L{n}" if d.chance(3) else None
        if not hidden:
            scope.links.append([f"K{n}", name, text])
        return f"K{n} [header]({name}{', ' + text if text else ''})"

    def header(self, scope, name=None, hidden=False):
        d = self.d
        n = self.number()
        named = name is not None or d.chance(7)
        if named and name is None:
            name = d.pick(NAMES)
            if name in scope.headers and not self.faults and not hidden:
                named = False
        text = f"H{n}"
        src = d.pick([text, text, f"*{text}* x", f"`{text}`"])
        if named and name[0] == "c" and d.chance(5):
            src += " " + self.link(scope, hidden)
        level = d.int(1, 4)
        args = []
        if named:
            args.append(f"name={d.pick([name, quote_arg(name)]) if name == name.strip() else quote_arg(name)}")
        if d.chance(3):
            args.append(f"internal_id={d.pick(NAMES)}")
        if d.chance(3):
            args = ["pos", "#tag"] + args
        if args:
            self.lines.append("[" + ", ".join(args) + "]")
        if d.chance(2):
            self.lines.append(f".{d.pick(['', 'role'])} {self.link(scope) if d.chance(5) and not named and not hidden else 'label'}")
        self.lines.append("=" * level + " " + src)
        if d.chance(3):
            self.lines.append("")
        if named and not hidden:
            scope.headers.setdefault(name, []).append(text)

    def fill(self, scope, depth, n):
        d = self.d
        for _ in range(n):
            k = d.weighted([(6, "header"), (6, "paragraph"), (2, "list"), (2, "label"), (1, "macro"), (1, "excluded"), (2, "shared"), (2, "isolated"), (2, "note"), (1, "group"), (1, "include")])
            if k == "header":
                self.header(scope)
                continue
            if k == "paragraph":
                self.lines += [self.link(scope) for _ in range(d.int(1, 2))] + [""]
            elif k == "list":
                self.lines += [f"{d.pick(['*', '#'])} {self.link(scope)}", f"** {self.link(scope)}", ""]
            elif k == "label":
                self.lines += [f". {self.link(scope)}", d.pick(["text", "---", "* item", "<< custom", "%%%%\n%%%%"]), ""]
            elif k == "macro":
                self.lines += [wrapped(d, lambda hidden: self.bare(scope, hidden), self.number), ""]
            elif k == "excluded":
                self.lines.append("@if v1==no")
                if d.chance(5):
                    self.header(scope, hidden=True)
                else:
                    self.lines += [self.link(scope, hidden=True), ""]
            elif depth == 0:
                self.lines.append("---")
                continue
            elif k == "include":
                name = f"f{self.number()}.mau"
                keep, self.lines = self.lines, []
                self.fill(self.new_scope(), 0, d.int(1, 4))
                self.files[name] = "\n".join(self.lines)
                self.lines = keep + [f"<< mau:{name}"]
            else:
                shared = k == "shared" or (k in ("note", "group") and d.chance(5))
                args = ["isolate=false"] if shared else []
                inner = scope if shared else self.new_scope()
                if k == "note":
                    note = f"fn{self.number()}"
                    args.append(f"footnote={note}")
                elif k == "group":
                    group = f"g{self.number()}"
                    args.append(f"group={group}, position=p")
                delim = "+" * 4 if depth == 2 else "~" * 4
                if args:
                    self.lines.append(f"[{', '.join(args)}]")
                self.lines.append(delim)
                self.fill(inner, depth - 1, d.int(1, 4))
                self.lines.append(delim)
                if k == "note":
                    # Footnotes of another scope cannot be mentioned here: done in place.
                    self.lines += [f"[footnote]({note})", ""]
                elif k == "group":
                    self.lines += [f"<< blockgroup:{group}", ""]
            self.labels.add(k)


def build(faults):
    def inner(d):
        g = Gen(d, faults)
        scope = g.new_scope()
        g.fill(scope, 2, d.int(1, 8))
        if not faults:
            complete(g, scope)
        return {"text": "\n".join(g.lines), "env": {"v1": "yes"}, "files": g.files,
                "scopes": [{"headers": s.headers, "links": s.links} for s in g.scopes], "labels": sorted(g.labels)}

    return inner


def complete(g, scope):
    """Define the missing names in the first scope, drop the links of the others."""
    missing = []
    for key, name, text in list(scope.links):
        if name not in scope.headers and name not in missing:
            missing.append(name)
    for name in missing:
        at = 0 if g.d.chance(3) else len(g.lines)
        keep, g.lines = g.lines, []
        g.lines.append("")
        # No link in their text: only simple ones.
        n = g.number()
        g.lines += [f"[name={quote_arg(name)}]", f"== H{n}", ""]
        scope.headers[name] = [f"H{n}"]
        new, g.lines = g.lines, keep
        g.lines[at:at] = new
    rest = {}
    for s in g.scopes[1:]:
        for key, name, text in s.links:
            if name not in s.headers:
                rest[key] = True
        s.links = [x for x in s.links if x[0] not in rest]
    if rest:
        def clean(text):
            return re.sub(r"(K\d+) \[header\]\([^)]*\)", lambda m: m.group(1) if m.group(1) in rest else m.group(0), text)

        g.lines = clean("\n".join(g.lines)).split("\n")
        g.files = {k: clean(v) for k, v in g.files.items()}


def faults_of(case):
    out = []
    for s in case["scopes"]:
        out += [f"{n!r} defined {len(h)} times" for n, h in s["headers"].items() if len(h) > 1]
        out += [f"link to the unknown {n!r}" for _, n, _ in s["links"] if n not in s["headers"]]
    return out


def flat(nodes):
    return "".join(n["value"] if n["_type"] in ("text", "verbatim") else flat(n.get("content", [])) for n in nodes)


def links(x, found):
    """Links with the key that precedes them, without those inside other links."""
    if isinstance(x, dict):
        for k, v in x.items():
            if not (x.get("_type") == "macro-header" and k == "header"):
                links(v, found)
    elif isinstance(x, list):
        for a, b in zip(x, x[1:]):
            if isinstance(b, dict) and b.get("_type") == "macro-header" and isinstance(a, dict) and a.get("_type") == "text":
                m = re.search(r"(K\d+) $", a["value"])
                if m:
                    found.setdefault(m.group(1), []).append(b)
        for v in x:
            links(v, found)


def flow_headers(x, out):
    if isinstance(x, dict):
        if x.get("_type") == "header":
            out.setdefault(re.search(r"H\d+", flat(x["content"])).group(), x)
        for k, v in x.items():
            if not (x.get("_type") == "macro-header" and k == "header"):
                flow_headers(v, out)
    elif isinstance(x, list):
        for v in x:
            flow_headers(v, out)


def check(case):
    out = run_case(case)
    faults = faults_of(case)
    if faults:
        if out.ok:
            raise Violation(f"accepted, but {faults[0]}")
        if len(out.handler.messages) != 1:
            raise Violation(f"{faults[0]}: {len(out.handler.messages)} messages")
        return True, case["labels"] + ["faulty", "duplicate" if "times" in faults[0] else "unknown"]
    if not out.ok:
        raise Violation(f"a valid document is rejected: {sut.error_text(out)}")
    content = got_content(out) or []
    found, headers = {}, {}
    links(content, found)
    flow_headers(content, headers)
    n = 0
    for s in case["scopes"]:
        for key, name, text in s["links"]:
            target = s["headers"][name][0]
            if key not in found:
                raise Violation(f"the link {key} to {name!r} is not in the output")
            for link in found[key]:
                n += 1
                check_link(link, key, name, text, target, headers)
    return n > 0, case["labels"] + ["valid"]


def simple(header):
    return "macro-header" not in {n["_type"] for n in walk(header)}


def check_link(link, key, name, text, target, headers):
    if link["target_name"] != name:
        raise Violation(f"the link {key} to {name!r} has the target {link['target_name']!r}")
    header = link["header"]
    if not isinstance(header, dict) or header.get("_type") != "header" or header.get("name") != name or \
            target not in flat(header["content"]):
        raise Violation(f"the link {key} to {name!r} ({target}) is rendered with the header {sut.brief(header)}")
    if target in headers:
        one, two = header, headers[target]
        if not simple(two):
            keys = ("level", "internal_id", "args", "kwargs", "tags", "labels")
            one, two = {k: one[k] for k in keys}, {k: two[k] for k in keys}
        sut.require_equal(two, one, f"the header of the link {key} differs from the one of the document")
    if text is not None:
        if flat(link["content"]) != text:
            raise Violation(f"the link {key} has the text {sut.brief(link['content'])}, written {text!r}")
    else:
        sut.require_equal(header["content"], link["content"], f"the link {key} without text differs from the text of the header")


def only_links(x):
    return [n for n in walk(x) if n["_type"] == "macro-header"] if x else []


CFG = Cfg(max_nodes=9, attach=3, macros=("header", "header", "class", "if"), inline_depth=2, isolate=6,
          weights={"header": 6, "block": 4, "toc": 1, "paragraph": 8, "list": 2, "footnote": 2, "footnotes": 1, "mau": 2, "excluded": 2, "group": 1, "blockgroup": 1})

ARMS = [
    Arm("scopes", composite(build(False)), check, 1600, rule="links by name before and after their headers in nested scopes (shared and isolated blocks, notes, groups, files), in paragraphs, headers, lists, labels and macros; non-trivial: there is a link"),
    Arm("faults", composite(build(True)), check, 2000, rule="the same with unknown and repeated names: accepted if and only if every scope defines each name once and all linked names"),
    doc_arm("documents", CFG, 500, ["macro-header"], "documents of the model with links to headers", project=only_links),
]
