"""Positions: where the tokens and the nodes of a text must say they come from."""

import re

from .core import Violation

# Nodes that hold other nodes, without a text of their own.
UNPLACED = {"label", "footnote", "footnotes-item", "toc-item", "blockgroup-item"}
INLINE = {"text", "style", "verbatim"}
MARKS = {"underscore": "_", "star": "*", "caret": "^", "tilde": "~"}


def context(node):
    c = node["_context"]
    return (c["start_line"], c["start_column"], c["end_line"], c["end_column"])


def tokens(text, toks):
    """The tokens of a text are where they say, in order, and cover everything but spaces and comments."""
    lines = text.split("\n")
    last = (0, 0)
    covered = {}  # line -> spans
    for t in toks:
        c = t.context
        span = (c.start_line, c.start_column, c.end_line, c.end_column)
        what = f"token {t.type} {t.value!r} at {span}"
        if c.source != "main.mau":
            raise Violation(f"{what}: the source is {c.source!r}")
        if (c.start_line, c.start_column) < last:
            raise Violation(f"{what}: a previous token ends at {last}")
        if (c.end_line, c.end_column) < (c.start_line, c.start_column):
            raise Violation(f"{what}: it ends before its beginning")
        last = (c.end_line, c.end_column)
        if t.type.name == "EOF":
            if t is not toks[-1]:
                raise Violation(f"{what}: it is not the last one")
            continue
        if c.end_line >= len(lines):
            raise Violation(f"{what}: the text has {len(lines)} lines")
        found = cut(lines, span)
        if found != t.value:
            raise Violation(f"{what}: the source there is {found!r}")
        for n in range(c.start_line, c.end_line + 1):
            a = c.start_column if n == c.start_line else 0
            b = c.end_column if n == c.end_line else len(lines[n])
            covered.setdefault(n, []).append((a, b))
    n = 0
    comments = 0
    while n < len(lines):
        line = lines[n]
        if n not in covered:
            if line == "////":
                comments += 1
                end = n + 1
                while end < len(lines) and lines[end] != "////":
                    if end in covered:
                        raise Violation(f"line {end} {lines[end]!r} is in a comment and has a token")
                    end += 1
                n = end + 1
                continue
            if line.startswith("//"):
                comments += 1
            elif line.strip(" "):
                raise Violation(f"line {n} {line!r} has no token")
        else:
            pos = 0
            for a, b in covered[n]:
                if line[pos:a].strip():
                    raise Violation(f"line {n} {line!r}: no token for {line[pos:a]!r}")
                pos = b
            if line[pos:].strip():
                raise Violation(f"line {n} {line!r}: no token for {line[pos:]!r}")
        n += 1
    return comments


def cut(lines, span):
    a, b, c, d = span
    if a == c:
        return lines[a][b:d] if a < len(lines) and d <= len(lines[a]) else None
    return "\n".join([lines[a][b:], *lines[a + 1:c], lines[c][:d]])


def unescape(s):
    return re.sub(r"\\(.)", r"\1", s)


class Checker:
    """Nodes delimit the markup they come from.

    files: the lines of each source. The columns of lines with braces refer
    to the line after the replacement of variables, and those in the argument
    of a macro with escaped characters to the value of the argument: they are
    not checked."""

    def __init__(self, files):
        self.files = files
        self.seen = {}

    def count(self, what):
        self.seen[what] = self.seen.get(what, 0) + 1

    def node(self, node, path="", loose=False):
        t = node["_type"]
        here = f"{path}/{t}"
        children = [n for n in node.get("content") or [] if isinstance(n, dict)] if isinstance(node.get("content"), list) else []
        if t not in UNPLACED:
            self.place(node, children, here, loose)
        if t.startswith("macro"):
            a, b, e, f = context(node)
            s = self.files[node["_context"]["source"]][a][b:f]
            loose = loose or '\\"' in s or "\\," in s
        for k, v in node.items():
            if k not in ("parent", "_context"):
                self.value(v, here, loose and k == "content")

    def value(self, v, path, loose=False):
        if isinstance(v, dict):
            if "_type" in v:
                self.node(v, path, loose)
            else:
                for x in v.values():
                    self.value(x, path, loose)
        elif isinstance(v, list):
            for x in v:
                self.value(x, path, loose)

    def place(self, node, children, here, loose):
        c = node["_context"]
        span = context(node)
        lines = self.files.get(c["source"])
        what = f"{here} at {span} of {c['source']!r}"
        if lines is None:
            raise Violation(f"{what}: there is no such source")
        a, b, e, f = span
        if not (0 <= a <= e < max(len(lines), 1)) or b < 0:
            raise Violation(f"{what}: the source has {len(lines)} lines")
        t = node["_type"]
        if a != e:
            self.count("multi-line")
            if t in INLINE or t.startswith("macro") or t in ("header", "paragraph-line", "list-item", "horizontal-rule", "raw-line", "source-line", "source-marker", "include", "toc", "footnotes", "blockgroup") or t.startswith("include"):
                raise Violation(f"{what}: it is on a single line")
        if t in ("paragraph", "list", "document"):
            for n in children:
                k = context(n)
                if n["_type"] not in UNPLACED and n["_context"]["source"] == c["source"] and not (a <= k[0] and k[2] <= e):
                    raise Violation(f"{what}: {n['_type']} at {k} is not inside")
            # A node on several lines is the box of its first and last content.
            ends = [n for n in children[:1] + children[-1:] if n["_context"]["source"] == c["source"]]
            if a != e and node.get("main_node", True) and len(ends) == min(2, len(children[:1] + children[-1:])) and ends:
                want = (min(context(n)[1] for n in ends), max(context(n)[3] for n in ends))
                if (b, f) != want and "{" not in "".join(lines[a:e + 1]):
                    raise Violation(f"{what}: its content is in the columns {want}")
        if a != e:
            return
        line = lines[a]
        if "{" in line or "}" in line:
            self.count("braces")
            return
        if loose or "[if" in line and re.search(r'\\[",]', line):
            self.count("escaped argument")
            return
        if "[ifeval" in line and (t in INLINE or t.startswith("macro") or children):  # the value of a variable, that can have markup
            self.count("ifeval")
            return
        if not 0 <= b <= f <= len(line):
            raise Violation(f"{what}: the line is {line!r}")
        s = line[b:f]
        getattr(self, "t_" + t.replace("-", "_"), self.other)(node, children, s, (a, b, f), what + f" {s!r}")
        self.count(t)

    def other(self, node, children, s, at, what):
        if node["_type"].startswith("macro"):
            self.macro(node, children, s, at, what)

    def fail(self, what, why):
        raise Violation(f"{what}: {why}")

    def inside(self, children, at, begin, end, what, trailing=False):
        """The children cover exactly the given columns of the line."""
        line = at[0]
        pos = begin
        for n in children:
            k = context(n)
            if k[0] != line or k[2] != line:
                self.fail(what, f"{n['_type']} is at {k}")
            if k[1] != pos:
                self.fail(what, f"{n['_type']} at {k} does not begin at {pos}")
            pos = k[3]
        text = self.files[n["_context"]["source"]][line] if children else ""
        if children and re.fullmatch(r"[ \\]*\\", text[pos:end]):
            return  # a backslash at the end of a line gives nothing
        if children and pos != end:
            self.fail(what, f"the content ends at {pos} instead of {end}")

    def t_text(self, node, children, s, at, what):
        v = node["value"]
        if unescape(s) == v:
            return
        if s == v and "/macro-link/text" in what:  # the target itself
            return
        if "[if" in s:  # without a result
            return self.count("if")
        if len(s) >= 2 and s[0] == s[-1] and s[0] in "$%" and s[1:-1].replace("\\" + s[0], s[0]) == v:
            return
        self.fail(what, f"the value is {v!r}")

    def t_verbatim(self, node, children, s, at, what):
        if not (len(s) >= 2 and s[0] == s[-1] == "`" and s[1:-1].replace("\\`", "`") == node["value"]):
            self.fail(what, f"the value is {node['value']!r}")

    def t_style(self, node, children, s, at, what):
        m = MARKS[node["style"]]
        if not (len(s) >= 2 and s[0] == s[-1] == m):
            self.fail(what, f"the style is {node['style']!r}")
        self.content(children, at, at[1] + 1, at[2] - 1, s, what)

    def content(self, children, at, begin, end, s, what):
        if "[if" in s:  # replaced by its arguments
            self.count("if")
            return
        self.inside(children, at, begin, end, what)

    def t_paragraph_line(self, node, children, s, at, what):
        line = self.files[node["_context"]["source"]][at[0]]
        begin = 0
        if s != line:
            # What follows the type of an inclusion is a paragraph.
            m = re.match(r"<< *[a-z0-9_#.]+ *", line)
            if not m or m.end() != at[1] or line[m.end():] != s:
                self.fail(what, f"the line is {line!r}")
            begin = at[1]
        self.content(children, at, begin, len(line.rstrip(" ")), s, what)

    def t_header(self, node, children, s, at, what):
        m = re.match(r"=+ *", s)
        line = self.files[node["_context"]["source"]][at[0]]
        if not m or s != line:
            self.fail(what, "not a header")
        if len(m.group().rstrip()) != node["level"] and not m.group().rstrip(" ").startswith("=" * node["level"]):
            self.fail(what, f"the level is {node['level']}")
        if children and s[len(m.group()):].strip():
            self.content(children, at, len(m.group()), len(s.rstrip(" ")), s, what)

    def t_list_item(self, node, children, s, at, what):
        m = re.match(r"[*#]+ *", s)
        line = self.files[node["_context"]["source"]][at[0]]
        if not m or len(m.group().rstrip(" ")) != node["level"] or line.lstrip(" ") != s.lstrip(" ") or line[:at[1]].strip(" "):
            self.fail(what, f"the line is {line!r}")
        self.content(children, at, at[1] + len(m.group()), at[1] + len(s.rstrip(" ")), s, what)

    def t_horizontal_rule(self, node, children, s, at, what):
        if s != "---":
            self.fail(what, "not a rule")

    def t_raw_line(self, node, children, s, at, what):
        if "/include-raw/raw-line" in what:  # the lines of a file declare the inclusion
            return self.include(node, children, s, at, what, name="raw")
        if s != node["value"]:
            self.fail(what, f"the value is {node['value']!r}")

    def t_source_line(self, node, children, s, at, what):
        # A highlighted line includes the mark.
        if not (s.startswith(node["line_content"]) if node["highlight_style"] else s == node["line_content"]):
            self.fail(what, f"the content is {node['line_content']!r}")

    def t_source_marker(self, node, children, s, at, what):
        if node["value"] not in s:
            self.fail(what, f"the value is {node['value']!r}")

    def include(self, node, children, s, at, what, name=None):
        if not re.fullmatch(r"<< *" + re.escape(name or node["content_type"]), s):
            self.fail(what, "not the inclusion")

    def t_include_image(self, *a):
        self.include(*a, name="image")

    def t_include_raw(self, *a):
        self.include(*a, name="raw")

    def t_include_mau(self, *a):
        self.include(*a, name="mau")

    def t_toc(self, *a):
        self.include(*a, name="toc")

    def t_footnotes(self, *a):
        self.include(*a, name="footnotes")

    def t_blockgroup(self, *a):
        self.include(*a, name="blockgroup")

    def t_include(self, node, children, s, at, what):
        if not re.fullmatch(r"<< *[a-z0-9_#.]+", s):
            self.fail(what, "not the inclusion")

    def macro(self, node, children, s, at, what):
        t = node["_type"]
        names = {"macro-link": ("link", "mailto"), "macro-class": ("class",), "macro-image": ("image",), "macro-header": ("header",), "macro-footnote": ("footnote",), "macro-raw": ("raw",), "macro-unicode": ("unicode",), "macro": (node.get("name"),)}[t]
        if not any(s.startswith(f"[{n}](") for n in names) or s[-1] != ")":
            self.fail(what, "not the macro")
        inner = s[s.index("](") + 2:-1]
        if "[if" in inner:
            return
        for n in children:
            k = context(n)
            if t == "macro-header" and k[0] != at[0]:
                continue  # the text of the header
            if k[0] != at[0] or k[2] != at[0]:
                self.fail(what, f"{n['_type']} is at {k}")


def nodes(result, files):
    checker = Checker(files)
    checker.value(result, "")
    return checker.seen
