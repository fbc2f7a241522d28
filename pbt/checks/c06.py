"""C06: the rendered document is exactly the sequence of its constructs."""

from mau.nodes.node import WrapperNode

from ..arms import Arm, Cfg, Root, Violation, accepted, doc_arm, doc_strategy, draw_doc, got_content, st, sut
from ..gen import SIMPLE

DROP = {"args", "kwargs", "tags", "internal_tags", "subtype", "labels", "classes"}


def structure(x):
    """Types, texts and nesting; no arguments and labels, and nothing that depends on references."""
    if isinstance(x, dict):
        if x.get("_type") in ("macro-footnote", "macro-header"):
            return {"_type": x["_type"]}
        if x.get("_type") in ("toc", "footnotes", "blockgroup"):
            return {"_type": x["_type"]}
        return {k: structure(v) for k, v in x.items() if k not in DROP}
    if isinstance(x, list):
        return [structure(i) for i in x]
    return x


CFG = Cfg(max_nodes=9, attach=3, macros=("link", "class", "footnote", "header", "custom"), inline_depth=1)
DENSE = Cfg(max_nodes=14, attach=2, macros=(), noise=1, inline_depth=0, variables=False, depth=2, refs=False,
            weights={"paragraph": 6, "header": 5, "list": 6, "block": 4, "hr": 4, "raw": 2, "source": 2, "image": 2,
                     "include": 2})
JOIN = Cfg(max_nodes=5, attach=3, macros=("link", "class", "custom"), variables=False, refs=False, cond=False,
           inline_depth=1, weights={"paragraph": 8, "header": 5, "list": 5, "block": 5, "hr": 2, "raw": 2, "source": 2,
                                    "image": 2, "include": 2, "mau": 1, "rawfile": 1})


@st.composite
def joined(draw):
    a, _ = draw_doc(draw, JOIN)
    root = Root()
    root.counter = 100  # the names of files are different
    b, _ = draw_doc(draw, JOIN, root=root)
    texts = [x.text().replace("start=auto", "start=2") for x in (a, b)]
    files = {**a.root.files, **b.root.files}
    return {"texts": texts, "files": files, "sep": draw(st.sampled_from(["\n\n", "\n\n\n", "\n \n", "\n// c\n\n"]))}


def check_joined(case):
    parts = []
    with sut.files_in_cwd(case["files"]):
        for text in case["texts"] + [case["sep"].join(case["texts"])]:
            out = sut.process(text)
            if not out.ok:
                raise Violation(f"a valid document is rejected: {sut.error_text(out)}")
            parts.append(got_content(out) or [])
    a, b, ab = parts
    sut.require_equal(a + b, ab, "the content of joined texts differs from the contents of the parts")
    return bool(a and b), ["joined"]


# Lines that look like a construct but are text.
LOOKALIKES = ["--", "-----", "--- x", " ---", "-- -", "*x", "#x", "*-bold", "a * x", "- x", "+ x", "=", "a = b", " = x", "a: b", ": a", ":: x",
              ": :", "< < toc", "<<", "<< Toc", "<<-", "a << toc", " << toc", "@", "@ if x==1", "@If x==1", "@1", " @if x==1", "a@if x", "[a", "a]", "[a] b", " [a]",
              "a [a]", "/ /", "/x", " // x", "a // x", "a //", ".", ".x", "..x", ".Title x", " . x", "a. b", "---- x", "x----", "-x--", "-----", "abab",
              "1111x", "....x", "1. x", "a) x", "> x", "| a | b |", "\tx", "\t* x", "é", "  text", "#", "*", "##", "#*", "# ", "....."]


@st.composite
def lookalike(draw):
    lines = []
    for _ in range(draw(st.integers(1, 4))):
        lines.append(draw(st.sampled_from(LOOKALIKES)))
    before = draw(st.sampled_from([[], [""], ["text", ""], ["= h"], ["---"], ["* a", ""]]))
    return {"lines": lines, "before": before}


def is_text(line):
    """The syntax reference, from the other side: no construct starts like this."""
    import re

    if re.match(r"^ *$", line) or line == "---" or line.startswith("//"):
        return False
    if len(line) == 4 and len(set(line)) == 1:
        return False
    for r in (r"@[a-z]", r"<< *[a-z0-9_#.]", r":[A-Za-z0-9_.+-]", r"\[.*\]$", r"\.", r" *[*#]+ +", r"=+ *[^= ]|==+$"):
        if re.match(r, line):
            return False
    return True


def flatten(node):
    if isinstance(node, dict):
        if "value" in node and node["_type"] in ("text", "verbatim", "macro-unicode"):
            return node["value"]
        return flatten(node.get("content", []))
    return "".join(flatten(i) for i in node)


def check_lookalike(case):
    lines = [x for x in case["lines"] if is_text(x)]
    if not lines:
        return False, []
    out = accepted({"text": "\n".join(case["before"] + lines)})
    content = got_content(out) or []
    extra = {(): 0, ("",): 0, ("text", ""): 1, ("= h",): 1, ("---",): 1, ("* a", ""): 1}[tuple(case["before"])]
    if len(content) != extra + 1 or content[extra]["_type"] != "paragraph":
        raise Violation(f"lines of text are not a single paragraph: {sut.brief(content[extra:])}")
    got = [flatten(x) for x in content[extra]["content"]]
    want = [x.rstrip(" ") for x in lines]
    if got != want:
        raise Violation(f"the lines of a paragraph are {got}, expected {want}")
    return True, ["lookalike"]


# A direct sequence of one-line constructs, with everything adjacent.
@st.composite
def adjacent(draw):
    kinds = draw(st.lists(st.sampled_from(["p", "h1", "h2", "hr", "ul", "ol", "b", "img", "inc", "v", "c", "mc", "blank", "lbl", "arg"]), min_size=1, max_size=14))
    out, want = [], []
    words = []
    open_par = False
    pending = False
    for i, k in enumerate(kinds):
        w = f"{draw(st.sampled_from(SIMPLE))}{i}"
        words.append(w)
        if k == "p":
            out.append(w)
            if open_par:
                want[-1][1].append(w)
            else:
                want.append(["paragraph", [w]])
                open_par = True
            pending = False
            continue
        if k in ("c", "mc") and open_par:
            out += ["// " + w] if k == "c" else ["////", w, "////"]
            continue
        open_par = False
        if k == "h1" or k == "h2":
            out.append(("=" if k == "h1" else "==") + " " + w)
            want.append(["header", [w]])
        elif k == "hr":
            out.append("---")
            want.append(["horizontal-rule", []])
        elif k in ("ul", "ol"):
            out += [("* " if k == "ul" else "# ") + w, ""]
            want.append(["list", [w]])
        elif k == "b":
            out += ["----", w, "----"]
            want.append(["block", [w]])
        elif k == "img":
            out.append(f"<< image:{w}" if not pending == "arg" else "---")
            want.append(["include-image", []] if not pending == "arg" else ["horizontal-rule", []])
        elif k == "inc":
            out.append("<< custom")
            want.append(["include", []])
        elif k == "v":
            out.append(f":x:{w}")
            continue
        elif k == "c":
            out.append("// " + w)
            continue
        elif k == "mc":
            out += ["////", w, "////"]
            continue
        elif k == "blank":
            out.append("")
            continue
        elif k == "lbl":
            out.append(f". {w}")
            pending = pending or "lbl"
            continue
        elif k == "arg":
            out.append(f"[{w}]")
            pending = "arg"
            continue
        pending = False
    if pending:
        out += ["", "end"]
        want.append(["paragraph", ["end"]])
    return {"text": "\n".join(out), "want": want}


def check_adjacent(case):
    out = accepted(case)
    content = got_content(out) or []
    got = []
    for n in content:
        if n["_type"] in ("horizontal-rule", "include-image", "include"):
            got.append([n["_type"], []])
        elif n["_type"] in ("paragraph",):
            got.append([n["_type"], [flatten(x) for x in n["content"]]])
        elif n["_type"] in ("list", "block"):
            got.append([n["_type"], [flatten(x) for x in n["content"]]])
        else:
            got.append([n["_type"], [flatten(n)]])
    sut.require_equal(case["want"], got, "constructs of the document")
    return len(case["want"]) > 1, ["adjacent"]


# The class of the document is part of the configuration.


class Article(WrapperNode):
    type = "wrapper"


def retype(x, old, new):
    """The data with documents of another type."""
    if isinstance(x, dict):
        return {k: new if k == "_type" and v == old else retype(v, old, new) for k, v in x.items()}
    if isinstance(x, list):
        return [retype(v, old, new) for v in x]
    return x


def check_wrapper(case):
    base = accepted(case)
    out = accepted({**case, "env": {**(case.get("env") or {}), "mau.parser.document_wrapper": Article}})
    if base.result:
        document = out.parser.output.document
        if type(document) is not Article:
            raise Violation(f"the document is {document!r}, the configured class is {Article}")
    sut.require_equal(retype(sut.canon(base.result), "document", "wrapper"), sut.canon(out.result), "with another class of document")
    return bool(base.result), case["labels"]


ARMS = [
    Arm("wrapper", doc_strategy(CFG), check_wrapper, 250, rule="documents of the full model with and without a class of document in the configuration: all the rest is the same; non-trivial: not empty"),
    doc_arm("documents", CFG, 900, ["paragraph", "header", "list", "block", "raw", "source"], "documents of the full model, structure only; "
            "non-trivial: has at least a construct", project=structure),
    doc_arm("dense", DENSE, 900, ["paragraph", "header", "list", "block"], "up to 14 adjacent constructs without references, structure only", project=structure),
    Arm("adjacent", adjacent, check_adjacent, 3000, rule="sequences of one-line constructs with nothing in between; non-trivial: two constructs or more"),
    Arm("joined", joined, check_joined, 600, rule="two documents joined by a blank line; non-trivial: both have content"),
    Arm("lookalike", lookalike, check_lookalike, 1500, rule="lines of text that resemble constructs; non-trivial: a line is left"),
]
ASSUMPTIONS = ["arguments, labels and references are covered by C10-C16, not compared here"]
