"""C08: escaped, verbatim and raw text reaches the output literally."""

import re

from ..arms import Arm, D, Violation, accepted, got_content, st, sut
from ..gen import SIMPLE, escape, p_escape
from ..soup import INLINE, LINES

# Any character but those that end a line of a text, and surrogates.
CHARS = st.characters(codec="utf-8", exclude_characters="\n")
SPECIAL = "*_^~`$%\\[](){}\"',=:#@.<>!|/-+ ab"


@st.composite
def line(draw, max_size=20):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return draw(st.text(alphabet=CHARS, max_size=max_size))
    if kind == 1:
        return draw(st.text(alphabet=SPECIAL, max_size=max_size))
    if kind == 2:
        return "".join(draw(st.lists(st.sampled_from(INLINE), max_size=5))).replace("\n", " ")
    return draw(st.sampled_from(LINES)) + draw(st.text(alphabet=SPECIAL, max_size=4))


def trim(s):
    """Trailing spaces of a text are not part of it."""
    return s.rstrip(" ")


HOSTS = {"paragraph": "{}", "lines": "first\n{}\nlast", "header": "= {}", "list": "* {}", "style": "W *x{}y*", "block": "====\n{}\n====", "label": ".role {}\ntext",
         "link": '[link](a, "x{}")', "class": '[class]("x{}", c)'}


def text_of(n):
    if isinstance(n, list):
        return "".join(text_of(i) for i in n)
    if n["_type"] == "text":
        return n["value"]
    raise Violation(f"a node {n['_type']} in literal text: {sut.brief(n)}")


@st.composite
def escaped(draw):
    d = D(draw)
    s = draw(line())
    host = draw(st.sampled_from(["paragraph", "lines", "header", "list", "style", "block", "label"]))
    mode = draw(st.sampled_from(["all", "min", "some", "dollar", "percent"]))
    if mode in ("dollar", "percent"):
        m = "$" if mode == "dollar" else "%"
        s = re.sub(r"[`\\]", "", s).replace(m, "")
        src = m + p_escape(s) + m
    else:
        if mode == "all":
            src = "".join("\\" + c if c in "~^_*`()[]\\\"$%{}" else c for c in s)
        elif mode == "min":
            src = "".join("\\" + c if c in "~^_*`[\\$%{}" else c for c in s)
        else:
            src = "".join("\\" + c if c in "~^_*`[\\$%{}" or (c in "()]\"" and d.chance(5)) else c for c in s)
    return {"text": s, "src": src, "host": host, "mode": mode}


def check_escaped(case):
    s, src, host = case["text"], case["src"], case["host"]
    # A first word makes the line text, a last one keeps trailing spaces.
    out = accepted({"text": HOSTS[host].replace("{}", "W" + src + "Z")})
    c = got_content(out)
    want = "W" + s + "Z"
    if host == "paragraph":
        got = c[0]["content"][0]["content"]
    elif host == "lines":
        got = c[0]["content"][1]["content"]
        if len(c[0]["content"]) != 3:
            raise Violation("the paragraph does not have three lines")
    elif host == "header":
        got = c[0]["content"]
    elif host == "list":
        got = c[0]["content"][0]["content"]
    elif host == "block":
        got = c[0]["content"][0]["content"][0]["content"]
    elif host == "label":
        got = c[0]["labels"]["role"]["content"]
    else:
        got = c[0]["content"][0]["content"]
        if [n["_type"] for n in got] != ["text", "style"]:
            raise Violation(f"text and a style expected, got {sut.brief(got)}")
        got = got[1]["content"]
        want = "x" + want + "y"
    if text_of(got) != want:
        raise Violation(f"escaped text {want!r} written as {src!r} is rendered as {text_of(got)!r}")
    if case["mode"] in ("all", "min", "some") and len(got) != 1:
        raise Violation(f"plain text is not a single node: {sut.brief(got)}")
    return bool(re.search(r"[~^_*`()\[\]\\\"$%{}]", src)), [host, case["mode"]]


def even_backslashes(s, end="`"):
    """Runs of backslashes before a marker or at the end cannot be odd in verbatim text."""
    return re.sub(r"\\+(?=" + re.escape(end) + r"|$)", lambda m: m.group() if len(m.group()) % 2 == 0 else m.group() + "\\", s)


@st.composite
def verbatim(draw):
    kind = draw(st.sampled_from(["verbatim", "raw", "raw-named", "verbatim-in-style", "verbatim-header", "raw-list"]))
    s = draw(line())
    before = draw(st.sampled_from(["W ", "W", "W`v`", "W*s*", "W\\`"]))
    after = draw(st.sampled_from(["", " Z", "Z", "`v`", "*s*"]))
    if kind.startswith("verbatim"):
        s = even_backslashes(s)
        src = "`" + s.replace("`", "\\`") + "`"
    else:
        # A raw macro is a list of arguments: quotes and backslashes as in C10. Variables are active, so braces are
        # escaped, and a backtick starts text without variables: no backticks here.
        s = re.sub(r"[`\\]", "", s)
        src = '[raw]("' if kind != "raw-named" else '[raw](value="'
        if kind != "raw-named" and s[:1] in ("#", "*", "@"):
            s = "x" + s
        src += p_escape(s.replace('"', '\\"')) + '")'
        before = before.replace("`v`", "")
    return {"text": s, "src": before + src + after, "kind": kind, "before": before, "after": after}


def check_verbatim(case):
    s, src, kind = case["text"], case["src"], case["kind"]
    wrap = {"verbatim": "{}", "raw": "{}", "raw-named": "{}", "verbatim-in-style": "W ^{}^", "verbatim-header": "= {}", "raw-list": "* {}"}[kind]
    out = accepted({"text": wrap.replace("{}", src)})
    c = got_content(out)
    if kind in ("verbatim-header",):
        got = c[0]["content"]
    else:
        got = c[0]["content"][0]["content"]
    if kind == "verbatim-in-style":
        if len(got) != 2 or got[1]["_type"] != "style":
            raise Violation(f"a style expected in {sut.brief(got)}")
        got = got[1]["content"]
    lead = {"W ": 1, "W": 1, "W`v`": 2, "W*s*": 2, "W\\`": 1}[case["before"]]
    tail = {"": 0, " Z": 1, "Z": 1, "`v`": 1, "*s*": 1}[case["after"]]
    type_ = "macro-raw" if kind.startswith("raw") else "verbatim"
    if len(got) != lead + tail + 1 or got[lead]["_type"] != type_:
        raise Violation(f"{type_} expected after {lead} and before {tail} nodes for {src!r}: {sut.brief(got)}")
    if got[lead]["value"] != s:
        raise Violation(f"{type_} text {s!r} written as {src!r} is rendered as {got[lead]['value']!r}")
    return bool(re.search(r"[^\w ]", s)), [kind]


@st.composite
def lines(draw):
    kind = draw(st.sampled_from(["raw", "raw", "source", "source-engine", "include", "include-boxed", "nested"]))
    content = draw(st.lists(line(), min_size=1, max_size=7))
    delim = draw(st.sampled_from(["----", "====", "++++", "````", "####", "aaaa", "::::"]))
    for _ in range(draw(st.integers(0, 2))):
        c = delim[0]
        content.insert(draw(st.integers(0, len(content))), draw(st.sampled_from([c * 4 + " ", c * 4 + "  ", " " + c * 4, c * 5, c * 3, c * 8, c * 4 + "x", c * 4 + "\t", c * 3 + " ", "&&&& ", "&&&&&"])))
    # A line equal to a delimiter ends the block; in source blocks markers are the subject of C19.
    content = ["x" + x if x in (delim, "&&&&") else x for x in content]
    if kind.startswith("include"):
        content = [x.replace("\r", "") for x in content]  # a line ending of text files
    if kind.startswith("source"):
        content = [re.sub(r":$", ": ", x) for x in content]
    return {"lines": content, "kind": kind, "delim": delim, "env": draw(st.sampled_from([{}, {"v1": "VALUE", "undef": "U"}]))}


def check_lines(case):
    kind, content, delim = case["kind"], case["lines"], case["delim"]
    body = "\n".join(content)
    files = {}
    if kind == "raw":
        text = f"[engine=raw]\n{delim}\n{body}\n{delim}\n"
    elif kind == "source":
        text = f"[@source, python]\n{delim}\n{body}\n{delim}"
    elif kind == "source-engine":
        text = f"text\n\n[engine=source]\n{delim}\n{body}\n{delim}\nafter"
    elif kind == "nested":
        text = f"&&&&\n[engine=raw]\n{delim}\n{body}\n{delim}\n&&&&\n"
    else:
        files["dir/some file.txt"] = body
        text = '<< raw:"dir/some file.txt"' if kind == "include" else '["dir/some file.txt"]\n<< raw'
    out = accepted({"text": text, "files": files, "env": case["env"]})
    c = got_content(out)
    if kind == "source-engine":
        if [n["_type"] for n in c] != ["paragraph", "source", "paragraph"]:
            raise Violation(f"unexpected content {[n['_type'] for n in c]}")
        c = c[1:2]
    if len(c) != 1:
        raise Violation(f"one node expected, got {sut.brief(c)}")
    node = c[0]
    if kind == "nested":
        node = node["content"][0]
    type_ = {"raw": "raw", "nested": "raw", "source": "source", "source-engine": "source"}.get(kind, "include-raw")
    if node["_type"] != type_:
        raise Violation(f"{type_} expected, got {node['_type']}")
    field = "line_content" if type_ == "source" else "value"
    got = [x[field] for x in node["content"]]
    if got != content:
        raise Violation(f"{type_}: written lines {content!r}, rendered lines {got!r}")
    return any(re.search(r"[^\w ]|^ | $|^$", x) for x in content), [kind]


ARMS = [
    Arm("escaped", escaped, check_escaped, 4000, rule="arbitrary text with its special characters escaped (all, only those needed, or between $ or %), in every place; non-trivial: has a special character"),
    Arm("verbatim", verbatim, check_verbatim, 4000, rule="arbitrary text as verbatim and as raw macro; non-trivial: not only letters"),
    Arm("lines", lines, check_lines, 4000, rule="arbitrary lines as content of raw blocks, source blocks and raw files; non-trivial: a line with special characters, indentation or blank"),
]
ASSUMPTIONS = ["text without line feeds on a line, no lone surrogates; no carriage returns in included files", "verbatim text cannot have an odd number of backslashes before a backtick or at the end",
               "raw macros: no backticks and backslashes (they are arguments, see C10)"]
