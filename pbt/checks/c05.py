"""C05: comments, blank lines and trailing spaces change nothing."""

from ..arms import Arm, Cfg, D, Violation, accepted, composite, doc_case, draw_doc, got_content, run_case, st, sut
from ..docgen import Comment, Inclusion, Inner, Kept, Opening, Outer, Text
from ..gen import SPECIAL, WORDS
from ..soup import text_soup

DOCS = Cfg(max_nodes=7, max_lines=4)

LINES = ["", "// inner", "////x", "= Header", "§§§§", "----x", "[args", "[a, b=c]", ":v1:changed", "@if zz==1", "* item", "<< toc",
         "<< mau:nope.mau", ". label", "     ", "text {undefined} [footnote](nope)", "`", "\\", " ////", "//// ", "---"]


def blank(line):
    return line.strip(" ") == "" and not isinstance(line, Kept)


def comment_text(d):
    k = d.int(0, 3)
    if k == 0:
        return d.pick(LINES).replace("//", "")
    return "".join(d.pick(WORDS + SPECIAL + [" ", "  "]) for _ in range(d.int(0, 4)))


def single(d):
    text = d.pick(["//", "// ", "///", "////-", "//////"]) + comment_text(d)
    return Comment("//x" if text == "////" else text)


def multi(d):
    body = [d.pick(LINES) for _ in range(d.int(0, 3))]
    return [Opening("////")] + [Kept(x) for x in body] + [Kept("////")]


def blanks(d):
    return [" " * d.weighted([(4, 0), (1, 1), (1, 4), (1, 7)]) for _ in range(d.int(1, 2))]


def shrink(d, lines):
    """Remove comments and additional blank lines."""
    out = []
    i = 0
    while i < len(lines):
        line = lines[i]
        if isinstance(line, Comment) and d.chance(6):
            pass
        elif isinstance(line, Opening):
            j = i + 1
            while lines[j] != "////":
                j += 1
            if not d.chance(6):
                out += lines[i:j + 1]
            i = j
        elif blank(line) and out and blank(out[-1]) and d.chance(6):
            pass
        else:
            out.append(line)
        i += 1
    return out


def grow(d, lines, density, used):
    out = []
    for i in range(len(lines) + 1):
        here = lines[i] if i < len(lines) else None
        if not isinstance(here, Kept):
            for _ in range(2):
                if not d.chance(density):
                    break
                before = out[-1] if out else None
                free = before is None or here is None or blank(before) or blank(here) \
                    or isinstance(before, Inner) or isinstance(here, Outer)
                kind = d.weighted([(4, "single"), (3, "multi")] + ([(4, "blank")] if free else []))
                used.add(kind)
                if kind == "single":
                    out.append(single(d))
                elif kind == "multi":
                    out += multi(d)
                else:
                    out += blanks(d)
        if here is None:
            break
        if blank(here) and d.chance(density):
            here = " " * d.int(0, 5)
            used.add("spaces")
        elif isinstance(here, Text) and d.chance(density):
            here = Text(here + " " * d.int(1, 4))
            used.add("trailing")
        elif isinstance(here, Inclusion) and d.chance(density):
            here = Inclusion(here + " " * d.int(1, 4))
            used.add("trailing-include")
        out.append(here)
    return out


def transform(d, lines, used):
    if d.chance(4):
        before = len(lines)
        lines = shrink(d, lines)
        if len(lines) != before:
            used.add("removed")
    if d.chance(8):
        lines = grow(d, lines, d.pick([1, 3, 7]), used)
    return lines


@st.composite
def documents(draw):
    d = D(draw)
    doc, env = draw_doc(draw, DOCS)
    case = doc_case(doc, env)
    used = set()
    case["other"] = "\n".join(transform(d, doc.lines, used))
    files = dict(case["files"])
    for name, lines in doc.root.sources.items():
        if d.chance(7):
            files[name] = "\n".join(transform(d, lines, used))
    case["other_files"] = files
    case["used"] = sorted(used)
    return case


def check_documents(case):
    out = accepted(case)
    sut.require_equal(case["expected"], got_content(out), "the original differs from the model")
    other = run_case(dict(case, text=case["other"], files=case["other_files"]))
    if not other.ok:
        raise Violation(f"with different comments, blank lines and spaces the document is rejected: {sut.error_text(other)}")
    sut.require_equal(case["expected"], got_content(other), "with different comments, blank lines and spaces the document changes")
    same_toc(out, other)
    return bool(case["used"]), case["used"] + [x for x in case["labels"] if x in ("list", "paragraph", "raw", "source", "include-mau", "args", "labels")]


def toc(out):
    t = out.parser.output.toc
    with sut.limited():
        return sut.canon(sut.BaseVisitor(sut.Handler(), out.environment).visit(t)) if t is not None else None


def same_toc(out, other):
    sut.require_equal(toc(out), toc(other), "the table of contents changes")


# --------------------------------------------------------------------------
# Any text: accepted or rejected in the same way
# --------------------------------------------------------------------------

ENV = {"v1": "yes", "v2": "*b*", "flag": "true"}
FILES = {"f1.mau": "included\n\n= H", "f1.txt": "raw\nlines"}


def soup(d):
    text = text_soup(d, 9).replace("\r", "")
    for word in ("engine", "source", "raw", "////"):
        text = text.replace(word, "x")
    lines = text.split("\n")
    out = []
    count = 0
    for i, line in enumerate(lines):
        if d.chance(4):
            out.append(single(d))
            count += 1
        if blank(line) and d.chance(3):
            out.append(" " * d.int(0, 5))
            count += 1
        out.append(line)
    for side in (0, 1):
        if d.chance(5):
            extra = blanks(d) + ([single(d)] if d.chance(5) else [])
            out = extra + out if side == 0 else out + extra
            count += 1
    return {"text": text, "other": "\n".join(out), "env": ENV, "files": FILES, "count": count}


def check_soup(case):
    out = run_case(case)
    other = run_case(dict(case, text=case["other"]))
    if out.ok != other.ok:
        raise Violation(f"without comments and blank lines: {sut.error_text(out) or 'accepted'}; with: {sut.error_text(other) or 'accepted'}")
    if out.ok:
        sut.require_equal(got_content(out), got_content(other), "comments and blank lines change the document")
        same_toc(out, other)
    else:
        sut.require_equal(sut.error_text(out), sut.error_text(other), "comments and blank lines change the error")
    return case["count"] > 0, ["accepted" if out.ok else "rejected"]


ARMS = [
    Arm("documents", documents, check_documents, 2400, rule="a comment, blank line or trailing space was added or removed"),
    Arm("soup", composite(soup), check_soup, 3000, rule="a comment or blank line was added"),
]
