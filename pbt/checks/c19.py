"""C19: source blocks keep code, markers and highlights apart, line by line."""

from ..arms import Arm, Cfg, Violation, accepted, composite, doc_arm, got_content, sut, walk
from ..gen import SIMPLE, plain, quote_arg
from ..soup import INLINE, LINES

DELIMITERS = [":", ":", ":", "|", "#", "::", "--", "=!=", "<!", "*", "$", "é", " ", "//", "%%", ":|", "§", "()", "_", "0"]
PREFIXES = ["@", "@", "@", "!", "hl-", "@@", "#", "é", "*"]
STYLES = ["", "", "+", "-", "!", "x", "add", "custom", "a b", "++", "X", "@", "é"]
MARKERS = ["1", "2", "note", "x y", "+", "-", "été", "A1", "12", "a=b", "*", "m@x", "@"]
CODE = ["def f(x):", "x = {1: 2}", "    return a[1:2]", "// comment", "= not a header", "* no list", "[no, args]", "{undefined}", "\\{x\\}", "`tick`", "a:b:c", ":x:y", "@if a==b", "<< toc", "---", "////", "$var", "%s %d", '"""', "\t\ttab", "trailing   ",
        "", "", "   ", "std::cout << x;", "a ? b : c", "日本 😀", "|pipe|", "#!/bin/sh", "<b>&amp;</b>", ". label", "\\", "a\\", "::", ":", "@", ":@:", "|1|x", "\u00a0", "x\ty", "\x0c", "=" * 5, "--", "*b*", "_i_", "[link](x)", "'", "lambda: 0"]


def overlapping(line, delimiter):
    """Whether delimiters of several characters can be found in different ways."""
    n = sum(1 for i in range(len(line)) if line.startswith(delimiter, i))
    return n != line.count(delimiter)


def reference(line, delimiter, prefix, default, aliases):
    """(code, marker, highlight style) of a line."""
    if not line.endswith(delimiter):
        return line, None, None
    rest = line[:len(line) - len(delimiter)]
    at = rest.rfind(delimiter)
    if at < 0:
        return line, None, None
    mark = rest[at + len(delimiter):]
    if not mark:
        return line, None, None
    code = rest[:at]
    if mark.startswith(prefix):
        style = mark[len(prefix):] or default
        return code, None, aliases.get(style, style)
    return code, mark, None


def code_line(d):
    k = d.weighted([(5, "code"), (3, "plain"), (2, "syntax"), (1, "inline")])
    if k == "code":
        return d.pick(CODE)
    if k == "plain":
        return plain(d, 3)
    if k == "syntax":
        return d.pick(LINES)
    return "".join(d.pick(INLINE) for _ in range(d.int(1, 4)))


def build(d):
    delimiter = d.pick(DELIMITERS) if d.chance(6) else ":"
    prefix = d.pick(PREFIXES) if d.chance(5) else "@"
    default = d.pick(["default", "mark", "strong", "+", "q"]) if d.chance(5) else "default"
    env = {}
    aliases = {"+": "add", "-": "remove", "!": "important", "x": "error"}
    if d.chance(4):
        more = {k: d.pick(["plus", "red", "s1", "add"]) for k in d.pick([[], ["q"], ["+"], ["q", "custom"], ["X", "-"], ["++", "default"]])}
        env = {"mau": {"parser": {"source_highlight_style_aliases": more}}}
        aliases.update(more)
    lines = []
    for _ in range(d.weighted([(2, 1), (3, 2), (3, 4), (2, 7), (1, 25)])):
        code = code_line(d).replace("\n", " ")
        kind = d.weighted([(4, "none"), (4, "marker"), (4, "highlight"), (2, "half"), (1, "two")])
        if kind == "marker":
            line = code + delimiter + d.pick(MARKERS) + delimiter
        elif kind == "highlight":
            line = code + delimiter + prefix + d.pick(STYLES) + delimiter
        elif kind == "half":
            line = d.pick([code + delimiter, delimiter + code, code + delimiter * 2, code + delimiter + d.pick(MARKERS), delimiter + d.pick(MARKERS) + delimiter, code + delimiter + "1" + delimiter + " ", delimiter, delimiter * 2])
        elif kind == "two":
            line = code + delimiter + d.pick(MARKERS) + delimiter + d.pick(MARKERS) + delimiter
        else:
            line = code
        if overlapping(line, delimiter):
            line = "code"
        lines.append(line)
    used = set(lines)
    delim = d.pick([x for x in ["----", "++++", "****", "aaaa", "====", "::::", "    " [:0] + "____"] if x not in used])
    opts = []
    if delimiter != ":" or d.chance(2):
        opts.append(f"marker_delimiter={quote_arg(delimiter)}")
    if prefix != "@" or d.chance(1):
        opts.append(f"highlight_marker={quote_arg(prefix)}")
    if default != "default" or d.chance(1):
        opts.append(f"highlight_default_style={quote_arg(default)}")
    language = d.pick(["python", "html", "c++", "C#", "plain text"]) if d.chance(7) else None
    classes = d.pick([None, None, "one", "one,two"])
    if classes:
        opts.append(f"classes={quote_arg(classes)}")
    extra = d.pick([{}, {}, {"k": "v"}, {"id": "x", "title": "a, b"}])
    opts += [f"{k}={quote_arg(v)}" for k, v in extra.items()]
    # Any order among the named ones.
    for i in range(len(opts) - 1, 0, -1):
        j = i - d.int(0, i)
        opts[i], opts[j] = opts[j], opts[i]
    alias = d.chance(6)
    unnamed = ["@source"] if alias else []
    tags = d.pick([[], [], ["t1"], ["t1", "t2"]])
    subtype = d.pick([None, None, "sub"])
    if subtype:
        unnamed.append("*" + subtype)
    named_language = language and d.chance(3)
    if language and not named_language:
        unnamed.append(language)
    unnamed += ["#" + t for t in tags]
    if not alias:
        opts.append("engine=source")
    if named_language:
        opts.insert(d.int(0, len(opts)), f"language={quote_arg(language)}")
    return {"lines": lines, "delim": delim, "args": ", ".join(unnamed + opts), "env": env, "settings": [delimiter, prefix, default, aliases],
            "want": {"language": language or "text", "classes": classes.split(",") if classes else [], "kwargs": extra, "tags": tags, "subtype": subtype, "args": []},
            "around": d.pick([["", ""], ["text\n\n", "\ntext"], [". label\n", "\n---"], ["++ ++\n\n"[:0], "\n\n"]])}


def check(case):
    lines = case["lines"]
    text = case["around"][0] + f"[{case['args']}]\n{case['delim']}\n" + "\n".join(lines) + f"\n{case['delim']}" + case["around"][1]
    out = accepted({"text": text, "env": case["env"]})
    blocks = [n for n in got_content(out) if n["_type"] == "source"]
    if len(blocks) != 1:
        raise Violation(f"{len(blocks)} source blocks, expected one")
    node = blocks[0]
    sut.require_equal(case["want"], {k: node[k] for k in case["want"]}, "attributes of the block")
    if len(node["content"]) != len(lines):
        raise Violation(f"the block has {len(node['content'])} lines, written {len(lines)}")
    marked = plain_ = 0
    for i, (line, got) in enumerate(zip(lines, node["content"]), start=1):
        code, marker, style = reference(line, *case["settings"])
        marked += marker is not None or style is not None
        plain_ += marker is None and style is None
        seen = [got["line_number"], got["line_content"], (got["marker"] or {}).get("value"), got["highlight_style"]]
        if seen != [str(i), code, marker, style]:
            raise Violation(f"line {line!r} is rendered as [number, code, marker, style] {seen}, expected {[str(i), code, marker, style]}")
    return marked > 0, ["marked"] * bool(marked) + ["plain"] * bool(plain_) + [f"delimiter {case['settings'][0]}"]


def only_source(x):
    return [n for n in walk(x) if n["_type"] == "source"] if x else []


CFG = Cfg(max_nodes=6, attach=5, macros=(), isolate=5, weights={"source": 10, "paragraph": 2, "block": 3, "raw": 1, "vardef": 2, "excluded": 1, "mau": 1})

ARMS = [
    Arm("lines", composite(build), check, 5000, rule="any lines of code (also lines of Mau syntax) with markers, highlights and traps, any delimiter, prefix, default style and aliases; non-trivial: at least a marker or highlight"),
    doc_arm("documents", CFG, 400, ["source"], "documents of the model with source blocks", project=only_source),
]
