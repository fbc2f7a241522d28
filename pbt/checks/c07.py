"""C07: styles and verbatim nest as written, plain text is kept."""

from ..arms import Arm, Cfg, D, Violation, accepted, composite, doc_arm, got_content, st, sut
from ..gen import SIMPLE, Inline, word
from ..model import MN, merge_words, render_document

STYLE = {"_": "underscore", "*": "star", "^": "caret", "~": "tilde"}

HOST = {  # where the line of text is
    "paragraph": "{}",
    "second": "first line\n{}\nlast line",
    "header": "= {}",
    "list": "* {}",
    "block": "----\n{}\n----",
    "label": ". {}\n\ntext",
    "item": "* a\n** {}\n* b",
}


def host_text(host, src):
    return HOST[host].format(src) if "{}" in HOST[host] else src


def find(host, content):
    """The nodes of the line in the rendered document."""
    try:
        if host == "paragraph":
            return content[0]["content"][0]["content"]
        if host == "second":
            assert len(content[0]["content"]) == 3
            return content[0]["content"][1]["content"]
        if host == "header":
            return content[0]["content"]
        if host == "list":
            return content[0]["content"][0]["content"]
        if host == "item":
            return content[0]["content"][1]["content"][0]["content"]
        if host == "block":
            return content[0]["content"][0]["content"][0]["content"]
        return content[0]["labels"]["title"]["content"]
    except (IndexError, KeyError, TypeError, AssertionError):
        raise Violation(f"no line of text in {sut.brief(content)}") from None


def check(case):
    out = accepted({"text": HOST[case["host"]].replace("{}", case["src"])})
    got = find(case["host"], got_content(out))
    sut.require_equal(case["want"], got, f"nodes of the line {case['src']!r}")
    return case["nontrivial"], [case["host"]] + sorted(case.get("labels", []))


def safe(src, nodes):
    """Make the line text wherever it is put."""
    return "W" + src, [word("W", "W")] + nodes


def tree(d):
    inl = Inline(d, None, macros=(), variables=False, depth=d.int(1, 4))
    src, nodes = inl.sentence(inl.depth, maxn=5)
    src, nodes = safe(src, nodes)
    nodes = merge_words(nodes)
    kinds = {n.type for n in nodes}
    return {"host": d.pick(sorted(HOST)), "src": src, "want": render_document(nodes), "nontrivial": bool(kinds - {"text"}), "labels": kinds}


def unclosed(d):
    """A well formed line where other markers appear once, anywhere."""
    marks = list("_*^~")
    lone = [m for m in marks if d.chance(4)] + [m for m in "`$%" if d.chance(2)]
    if not lone:
        lone = [d.pick(marks)]
    usable = [m for m in marks if m not in lone]
    todo = list(lone)
    extra = ["[", "]", "(", ")", '"', "[x]", "(y)", "[a", "![b]", "] (", '"q"', ")(", "[]", "()", "[] (z)"]

    def seq(depth, forbidden, n):
        src, nodes = [], []
        for _ in range(d.int(1, n)):
            options = [(4, "word"), (2, "space"), (1, "bracket")]
            if todo:
                options.append((4, "lone"))
            if depth and usable:
                options.append((3, "style"))
            kind = d.weighted(options)
            if kind == "word":
                s, ns = d.pick(SIMPLE + ["é", "a.b", "1"]), None
            elif kind == "space":
                s, ns = " " * d.int(1, 3), None
            elif kind == "bracket":
                s, ns = d.pick(extra), None
                if src and src[-1].endswith("]") and s.startswith("("):
                    s = "x" + s
                if src and src[-1].endswith('"'):
                    s = "x" + s
            elif kind == "lone":
                s, ns = todo.pop(d.int(0, len(todo) - 1)), None
            else:
                m = d.pick(usable)
                if m == forbidden:
                    s, ns = "w", None
                else:
                    inner, content = seq(depth - 1, m, 3)
                    s, ns = m + inner + m, [MN("style", style=STYLE[m], content=merge_words(content))]
            if ns is None:
                ns = [word(s, s)]
            src.append(s)
            nodes += ns
        return "".join(src), nodes

    src, nodes = seq(2, None, 5)
    # Nothing is left out: the rest at the end.
    while todo:
        m = todo.pop()
        src += m
        nodes.append(word(m, m))
    src, nodes = safe(src, nodes)
    if src.endswith(" "):
        src += "."
        nodes.append(word(".", "."))
    return {"host": d.pick(sorted(HOST)), "src": src, "want": render_document(merge_words(nodes)), "nontrivial": True, "labels": ["lone " + m for m in lone]}


# The grammar of a line of text as a parsing expression grammar:
#   line  <- elem*              elem     <- escape / verbatim / escaped / style / any
#   style <- m (!m elem)* m     verbatim <- "`" (!"`" any)* "`"     escaped <- q (!q any)* q
class Ref:
    def __init__(self, s):
        self.s = s
        self.memo = {}

    def seq(self, i, stop):
        out = []
        while i < len(self.s) and self.s[i] != stop:
            n, i = self.elem(i)
            out.append(n)
        return out, i

    def elem(self, i):
        if i not in self.memo:
            self.memo[i] = self._elem(i)
        return self.memo[i]

    def _elem(self, i):
        s = self.s
        c = s[i]
        if c == "\\" and i + 1 < len(s):
            return ("w", s[i + 1]), i + 2
        if c in "`$%":
            j = s.find(c, i + 1)
            if j >= 0:
                return ("v" if c == "`" else "t", s[i + 1:j]), j + 1
        if c in STYLE:
            content, j = self.seq(i + 1, c)
            if j < len(s):
                return ("s", STYLE[c], content), j + 1
        return ("w", c), i + 1


def nodes_of(items):
    out = []
    for it in items:
        if it[0] == "w":
            out.append(word(it[1], it[1]))
        elif it[0] == "v":
            out.append(MN("verbatim", value=it[1]))
        elif it[0] == "t":
            out.append(MN("text", value=it[1]))
        else:
            out.append(MN("style", style=it[1], content=nodes_of(it[2])))
    return merge_words(out)


def markers(d):
    alphabet = d.pick(["*a", "*_ab ", "*_^~ab ", "*_`a ", "*$%a", "*_\\a", "*_^~`$%\\ab ()[]\""])
    out = []
    marks = 0
    for _ in range(d.int(1, d.weighted([(8, 14), (2, 40), (1, 100)]))):
        c = d.pick(alphabet)
        if c in STYLE:
            marks += 1
            if marks > 60:
                c = "x"
        if c == "\\":
            c = "\\" + d.pick("*_^~$%" if "`" not in alphabet else "*_^~")
        if c in "([" and out and out[-1].endswith("]"):
            c = "x"
        out.append(c)
    src = "W" + "".join(out)
    # Backslashes inside verbatim and escaped text are the subject of C08.
    if "\\" in src and any(m in src.replace("\\" + m, "") for m in "`$%"):
        src = src.replace("\\", "")
    if src.endswith(" "):
        src += "."
    items, _ = Ref(src).seq(0, None)
    return {"host": d.pick(sorted(HOST)), "src": src, "want": render_document(nodes_of(items)), "nontrivial": any(i[0] in "svt" for i in items), "labels": ["markers"]}


DOCS = Cfg(max_nodes=5, attach=3, macros=("link", "class"), inline_depth=3, refs=False,
           weights={"paragraph": 10, "header": 4, "list": 4, "block": 2, "vardef": 3})

ARMS = [
    Arm("tree", composite(tree), check, 2500, rule="a tree of styles, verbatim, escaped and plain text in a paragraph, header, list item, label or block; non-trivial: not only plain text"),
    Arm("unclosed", composite(unclosed), check, 2500, rule="a well formed line plus markers that appear once, lone brackets and quotes; always non-trivial"),
    Arm("markers", composite(markers), check, 6000, rule="strings of markers and letters against the grammar of a line; non-trivial: some marker is closed"),
    doc_arm("documents", DOCS, 250, ["paragraph", "header", "list"], "documents of the model with text in every place"),
]
ASSUMPTIONS = ["at most 60 style markers on a line in the arm markers (open markers are nested calls, and Python's recursion limit is a resource limit)"]
