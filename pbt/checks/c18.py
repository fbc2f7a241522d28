"""C18: blocks contain exactly what their text means on its own."""

import re

from ..arms import Arm, Cfg, D, Root, Violation, accepted, doc_arm, doc_case, draw_doc, draw_env, got_content, composite, run_case, st, sut, walk
from ..docgen import Doc
from ..gen import SIMPLE, class_list, gen_args
from ..soup import text_soup

CHARS = list("-=*#+~$_a`:.[@<!]\"0%{\\é日/?&|;,'()^>x") + ["😀", "\u00a0", "\t"]


def delimiter(d, text, used=()):
    lines = set(text.split("\n"))
    # Four slashes begin a comment.
    free = [c for c in CHARS if c != "/" and c * 4 not in lines and c * 4 not in used]
    # Often a delimiter that looks like a line of the text.
    like = [c for c in free if any(x != c * 4 and x.strip(" ").startswith(c * 3) for x in lines)]
    return d.pick(like if like and d.chance(7) else free) * 4


def near(d, text):
    """Add lines that look like delimiters."""
    lines = text.split("\n")
    for _ in range(d.weighted([(5, 0), (3, 1), (2, 2)])):
        c = d.pick([c for c in CHARS if c not in "/[:{@<"])
        x = d.pick([c * 4 + " ", c * 4 + "   ", " " + c * 4, c * 5, c * 3, c * 8, c * 4 + "x", c * 4 + "\t", c * 3 + " "])
        lines.insert(d.int(0, len(lines)), x)
    return "\n".join(lines)


def wrap(d, text, depth, isolate=None):
    """(text in blocks, [attributes of each block from the outside])."""
    used = set()
    levels = []
    for _ in range(depth):
        delim = delimiter(d, text, used)
        used.add(delim)
        a = gen_args(d, maxu=2) if d.chance(5) else None
        classes = class_list(d) if d.chance(3) else []
        src = a["src"] if a else ""
        more = ([f'classes="{",".join(classes)}"'] if classes else []) + d.pick([[], [], ["engine=default"]])
        iso = isolate if isolate is not None else d.pick([None, None, "true", "false"])
        if iso:
            more.append(f"isolate={iso}")
        src = ", ".join(([src] if src else []) + more)
        label = d.pick([None, None, None, ".title A label", ". other"])
        lines = ([label] if label else []) + ([f"[{src}]"] if src else []) + [delim, text, delim]
        text = "\n".join(lines)
        want = {"args": a["args"], "kwargs": dict(a["kwargs"]), "tags": a["tags"], "internal_tags": a["itags"], "subtype": a["subtype"]} if a else {"args": [], "kwargs": {}, "tags": [], "internal_tags": [], "subtype": None}
        if iso:
            want["kwargs"]["isolate"] = iso
        want["classes"] = classes
        want["label"] = label is not None
        levels.insert(0, want)
    return text, levels


def unwrap(content, levels):
    for i, want in enumerate(levels):
        if len(content) != 1 or content[0]["_type"] != "block":
            raise Violation(f"block number {i}: found {sut.brief([n['_type'] for n in content])}")
        node = content[0]
        got = {k: node[k] for k in want if k != "label"}
        got["label"] = bool(node["labels"])
        sut.require_equal(want, got, f"attributes of block number {i}")
        content = node["content"]
    return content


DOCS = Cfg(max_nodes=6)


@st.composite
def alone(draw):
    d = D(draw)
    doc, env = draw_doc(draw, DOCS)
    case = doc_case(doc, env)
    inner = case["text"]
    depth = d.weighted([(4, 1), (3, 2), (2, 3), (1, 7)])
    before = []
    defined = {}
    for k, v in env.items():
        # Values can come from the environment or from definitions.
        if d.chance(5):
            before.append(f":{k}:{v}")
        else:
            defined[k] = v
    case["wrapped"], case["levels"] = wrap(d, inner, depth)
    case["wrapped"] = "\n".join(before + [case["wrapped"]])
    case["wrapped_env"] = defined
    return case


def check_alone(case):
    out = run_case(case)
    other = run_case(dict(case, text=case["wrapped"], env=case["wrapped_env"]))
    compare(case, out, other)
    sut.require_equal(case["expected"], got_content(out), "text alone differs from the model")
    return True, case["labels"] + [f"{len(case['levels'])} levels"]


def compare(case, out, other):
    if out.ok != other.ok:
        raise Violation(f"alone: {sut.error_text(out) or 'accepted'}; in blocks: {sut.error_text(other) or 'accepted'}")
    if not out.ok:
        # With isolate=false what is resolved at the end of the document comes later: another error can be the first.
        shared = any(level["kwargs"].get("isolate") == "false" for level in case["levels"])
        if not shared and sut.error_text(out) != sut.error_text(other):
            raise Violation(f"alone the error is {sut.error_text(out)!r}, in blocks {sut.error_text(other)!r}")
        return
    inner = unwrap(got_content(other) or [], case["levels"])
    sut.require_equal(got_content(out) or [], inner, "the content of the block differs from that of its text alone")


def soup(d):
    text = text_soup(d, 8)
    text = near(d, text.replace("\r", ""))
    wrapped, levels = wrap(d, text, d.int(1, 3))
    return {"text": text, "env": {"v1": "yes", "v2": "*b*"}, "files": {"f1.mau": "included", "f1.txt": "raw"}, "wrapped": wrapped, "levels": levels}


def check_soup(case):
    out = run_case(case)
    other = run_case(dict(case, text=case["wrapped"]))
    # A text that ends inside a comment or a block takes the delimiter.
    if not out.ok and re.search("(?i)unclosed|comment", sut.error_text(out) or ""):
        if other.ok:
            raise Violation(f"alone: {sut.error_text(out)}; in blocks: accepted")
        return True, ["unclosed"]
    # Trailing backslashes, definitions of reserved names...
    compare(case, out, other)
    return bool(case["text"].strip()), ["accepted" if out.ok else "rejected"]


# isolate=false: as if not in a block


class Steps(Doc):
    """A document that remembers where its constructs begin."""

    def step(self):
        if not hasattr(self, "marks"):
            self.marks = []
        self.marks.append(len(self.lines))
        super().step()


SHARED = Cfg(max_nodes=9, isolate=7, weights={"header": 6, "paragraph": 5, "toc": 2, "footnote": 3, "footnotes": 2, "block": 2, "hr": 1, "raw": 1, "vardef": 2, "include": 1, "excluded": 2, "mau": 1})


@st.composite
def shared(draw):
    d = D(draw)
    env, vars_ = draw_env(d, SHARED)
    doc = Steps(d, SHARED, Root(), vars_, 2)
    doc.fill(d.int(2, SHARED.max_nodes))
    marks = sorted(set(doc.marks + [len(doc.lines)]))
    doc.finish()
    case = doc_case(doc, env)
    lines = list(doc.lines)
    text = "\n".join(lines)
    # Wrap ranges of constructs, from the last to the first, some of them twice.
    used = set()
    count = 0
    end = len(marks) - 1
    while end > 0:
        begin = end - d.int(1, min(3, end))
        if d.chance(6):
            for _ in range(d.weighted([(4, 1), (1, 2)])):
                delim = delimiter(d, text, used)
                used.add(delim)
                chunk = lines[marks[begin]:marks[end]]
                args = d.pick(["isolate=false", "isolate=false, mark=1", "#t, isolate=false", "classes=c, isolate=false"])
                chunk = [f"[{args}]", delim, *chunk, delim]
                # Marks after this one are not used any more.
                lines[marks[begin]:marks[end]] = chunk
                marks[end] = marks[begin] + len(chunk)
                count += 1
        end = begin
    case["wrapped"] = "\n".join(lines)
    case["delims"] = sorted(used)
    case["count"] = count
    return case


def flatten(content, plain, count):
    """Replace the blocks that are not in the plain document with their content."""
    out = []
    for n in content or []:
        k = len(out)
        if n["_type"] == "block" and n["kwargs"].get("isolate") == "false" and not (k < len(plain) and plain[k]["_type"] == "block" and plain[k] == n):
            count[0] += 1
            inner = flatten(n["content"], plain[k:], count)
            out += inner
        else:
            out.append(n)
    return out


def check_shared(case):
    out = accepted(case)
    other = accepted(dict(case, text=case["wrapped"]))
    plain = got_content(out) or []
    count = [0]
    got = flatten(got_content(other), plain, count)
    sut.require_equal(plain, got, "a document differs when parts of it are in blocks with isolate=false")
    # A document with nothing in it has no table; an empty block is something.
    if out.result and other.result:
        sut.require_equal(toc(out), toc(other), "ToC of the document differs when parts are in blocks with isolate=false")
    return case["count"] > 0, case["labels"] + [f"{min(case['count'], 3)} blocks"]


def toc(out):
    with sut.limited():
        return sut.canon(sut.BaseVisitor(sut.Handler(), out.environment).visit(out.parser.output.toc))


# Isolated blocks do not change anything outside


ISOLATED = Cfg(max_nodes=6, variables=False, cond=False, weights={"header": 6, "paragraph": 5, "toc": 3, "footnote": 3, "footnotes": 2, "block": 1, "list": 3, "hr": 1, "group": 2, "blockgroup": 2})


@st.composite
def isolated(draw):
    d = D(draw)
    root = Root()
    outer = Steps(d, ISOLATED, root, {}, 2)
    outer.fill(d.int(1, 6))
    marks = sorted(set(outer.marks + [len(outer.lines)]))
    outer.finish()
    inner = Doc(d, ISOLATED, root, {}, 2)
    inner.fill(d.int(1, 4))
    inner.finish()
    at = d.pick(marks)
    text = "\n".join(inner.lines)
    wrapped, levels = wrap(d, text, d.int(1, 2), isolate=d.pick(["true", None, None]))
    if "isolate" in wrapped.replace(text, "") and any(x["kwargs"].get("isolate") == "false" for x in levels):
        for x in levels:
            if x["kwargs"].get("isolate") == "false":
                x["kwargs"]["isolate"] = "true"
        head, tail = wrapped.split(text)[0], wrapped[wrapped.rindex(text) + len(text):]
        wrapped = head.replace("isolate=false", "isolate=true") + text + tail
    lines = [*outer.lines[:at], "", *wrapped.split("\n"), "", *outer.lines[at:]]
    one = doc_case(outer, {})
    two = doc_case(inner, {})
    return {"text": "\n".join(lines), "env": {}, "files": dict(root.files), "outer": one["expected"] or [], "inner": two["expected"] or [], "levels": levels, "labels": sorted(root.labels)}


def check_isolated(case):
    out = accepted(case)
    content = got_content(out) or []
    outer = case["outer"]
    # The block is the first node that differs.
    k = 0
    while k < len(outer) and k < len(content) and outer[k] == content[k]:
        k += 1
    for at in range(k, -1, -1):
        if content[:at] + content[at + 1:] == outer and content[at]["_type"] == "block":
            break
    else:
        sut.require_equal(outer, content[:k] + content[k + 1:], "the document around an isolated block differs from the one without it")
        raise Violation("no block is found")
    inner = unwrap(content[at:at + 1], case["levels"])
    sut.require_equal(case["inner"], inner, "the content of an isolated block differs from its text alone")
    return True, case["labels"]


CFG = Cfg(max_nodes=6, depth=4, isolate=5, weights={"block": 10, "paragraph": 4, "header": 3, "list": 2, "toc": 1, "footnote": 2, "footnotes": 1, "group": 1, "blockgroup": 1, "vardef": 2, "excluded": 2})

ARMS = [
    Arm("alone", alone, check_alone, 500, rule="documents of the model, in up to 7 nested blocks with any delimiter, classes, arguments and labels, against the same text alone"),
    Arm("soup", composite(soup), check_soup, 2500, rule="mixtures of constructs, valid or not, in blocks and alone: same content or same error; non-trivial: not blank"),
    Arm("shared", shared, check_shared, 400, rule="documents with parts wrapped in blocks with isolate=false against the same document without those blocks; non-trivial: at least one"),
    Arm("isolated", isolated, check_isolated, 400, rule="a document in an isolated block inside of another document, with the same names: both are as alone"),
    doc_arm("documents", CFG, 250, ["block"], "documents of the model with nested blocks"),
]
