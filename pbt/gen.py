"""Generators of Mau documents together with what they mean.

Everything is drawn from Hypothesis. A document is generated as a tree and
written down in one of its many possible spellings; the tree is the expected
result. See DESIGN.md for the domain (what is left out and why).
"""

import re

from hypothesis import strategies as st

from .model import MN, Local, Scope, merge_words, no_args, render

_INTS = {}


def ints(a, b):
    key = (a, b)
    s = _INTS.get(key)
    if s is None:
        s = _INTS[key] = st.integers(a, b)
    return s


class D:
    """Thin layer over Hypothesis' draw."""

    __slots__ = ("draw",)

    def __init__(self, draw):
        self.draw = draw

    def int(self, a, b):
        return a if a == b else self.draw(ints(a, b))

    def pick(self, seq):
        n = len(seq)
        return seq[0] if n == 1 else seq[self.draw(ints(0, n - 1))]

    def chance(self, k, n=10):
        """True k times out of n; shrinks to False."""
        if k <= 0:
            return False
        return self.draw(ints(0, n - 1)) >= n - k

    def weighted(self, items):
        """items: list of (weight, value). Shrinks to the first."""
        total = sum(w for w, _ in items)
        x = self.draw(ints(0, total - 1))
        for w, v in items:
            if x < w:
                return v
            x -= w
        raise AssertionError


WORDS = ["a", "bc", "foo", "Bar", "x1", "42", "don't", "end.", "één", "日本", "x-y", "q/z", "a=b", "k,v",
         "C#", "@me", "e.g.", "w:q", "n+1", "<b>", "&amp;", "|", "ß", "//", "--", "é", "\u00a0nb", "tab\there", "😀"]
SIMPLE = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta"]
SPECIAL = list("~^_*`()[]\\\"$%{}")

STYLES = {"_": "underscore", "*": "star", "^": "caret", "~": "tilde"}

HAZARD = re.compile(
    r"^( *$|//|---$|(.)\2{3}$|@[a-z]|<<|:[A-Za-z0-9_.+\-]|\[.*\]$|\.| *[*#]+( |$)|=|    $)"
)


def word(value, surf=None):
    n = MN("word", value=value)
    n.surf = surf
    return n


# --------------------------------------------------------------------------
# Plain text
# --------------------------------------------------------------------------


def plain(d, maxn=4, special=True, words=WORDS):
    """A logical text without leading, trailing or double spaces."""
    n = d.int(1, maxn)
    out = []
    for i in range(n):
        if special and d.chance(3):
            k = d.int(1, 3)
            piece = "".join(d.pick(SPECIAL) for _ in range(k))
        else:
            piece = d.pick(words)
        if i and d.chance(7):
            out.append(" ")
        out.append(piece)
    return "".join(out)


def escape(d, s, in_macro=False, variables=True):
    """Write the text s so that it is rendered as exactly s."""
    out = []
    for c in s:
        if c in "~^_*[`$%":
            out.append("\\" + c)
        elif c == "\\":
            out.append("\\\\")
        elif c in "{}":
            if not variables:
                out.append(c)
            else:
                out.append("\\" + c)
        elif c in "()]" and not in_macro and d.chance(3):
            out.append("\\" + c)
        elif c == '"' and not in_macro and d.chance(3):
            out.append('\\"')
        else:
            out.append(c)
    return "".join(out)


# --------------------------------------------------------------------------
# Arguments
# --------------------------------------------------------------------------


def balanced_backslashes(v):
    """Backslash runs before a quote or the end must be of even length to be representable between quotes."""
    return not re.search(r'(?<!\\)(\\\\)*\\("|$)', v)


def class_list(d, n=2):
    """Classes, as written between commas."""
    out = [d.pick(SIMPLE) for _ in range(d.int(1, n))]
    if d.chance(1):
        out += [d.pick(["", " x", "x ", out[0]])]
    if len(out) > 1 and d.chance(1):
        out = [out[-1]] + out[:-1]
    return out


def name_arg(x, quoted=False):
    """A value that is trimmed if it is not quoted."""
    return quote_arg(x) if quoted or x != x.strip() else x


def quote_arg(v):
    return '"' + v.replace('"', '\\"') + '"'


def p_escape(v):
    """Protect braces from variable replacement (v has no backticks)."""
    return v.replace("{", "\\{").replace("}", "\\}")


ARG_WORDS = ["a", "val", "x1", "some text", "a.b", "k/v", "été", "日本", "http://x.y/z?q=1&r=2", "50%", "*", "it's",
             "x#y", "a@b.c", "1,2", "a=b", "(x)", "[y]", "$5", "~", "a_b", "<i>", "!", "?", ";", "-", "q:w"]


def arg_value(d, rich=True):
    """A value for an argument: not a tag, subtype or alias."""
    n = d.int(1, 3)
    parts = []
    for i in range(n):
        if rich and d.chance(3):
            parts.append(d.pick([",", '"', "=", ", ", "\\ ", "{", "}", "{x}", "'", '","', '=""', "  ", "\\n", "(", ")", "\\\\"]))
        else:
            parts.append(d.pick(ARG_WORDS))
    v = "".join(parts)
    while v and (v[0] in "#*@\""):
        v = v[1:]
    if not v or not balanced_backslashes(v) or re.search(r'\\[{}]', v):
        v = "v" + re.sub(r"\\", "", v)
    if rich and d.chance(1):
        v = " " * d.int(0, 2) + v + d.pick(["", " ", "\u00a0"])
    return v


def can_be_plain(v, macro=False, spaces=None):
    """Whether a value can be written without quotes (commas are escaped). spaces: those that are not part of a value."""
    if v == "" or v[0] == '"' or v != v.strip(spaces) or v[-1] == "\\":
        return False
    if re.match(r'[^\\=," ]+=', v):
        return False
    if "\\" in v:
        return False
    if macro and re.search(r'[()\[\]"`$%~^_*]', v):
        return False
    return True


def write_arg(d, v, macro=False):
    """A spelling of an argument value, before protection of braces."""
    if can_be_plain(v, macro) and not (macro and "," in v) and d.chance(6):
        return v.replace(",", "\\,")
    return quote_arg(v)


# --------------------------------------------------------------------------
# Inline content
# --------------------------------------------------------------------------


class Inline:
    """Configuration and state for the generation of inline content."""

    def __init__(self, d, doc=None, macros=(), special=True, variables=True, depth=2, verbatim=True,
                 escaped=True, styles=True, words=WORDS):
        self.d = d
        self.doc = doc  # Doc: for variables and references
        self.macros = macros
        self.special = special
        self.variables = variables
        self.depth = depth
        self.verbatim = verbatim
        self.escaped = escaped
        self.styles = styles
        self.words = words

    # Each function returns (source, nodes). Plain text gives nodes of type
    # "word", merged at the end of each level.

    def text(self, in_macro=False):
        d = self.d
        s = plain(d, 3, special=self.special, words=self.words)
        src = escape(d, s, in_macro)
        return src, [word(s, src)]

    def verbatim_(self, in_macro=False):
        d = self.d
        s = plain(d, 3, special=self.special, words=self.words)
        s = s.replace("`", "") if in_macro else s
        s = re.sub(r"\\+", lambda m: "\\" * (2 * len(m.group())), s) or "v"
        src = "`" + s.replace("`", "\\`") + "`"
        return src, [MN("verbatim", value=s, surf=src)]

    def escaped_(self, in_macro=False):
        d = self.d
        mark = d.pick("$%")
        s = plain(d, 3, special=self.special, words=self.words)
        s = s.replace("`", "'")
        s = re.sub(r"\\+", lambda m: "\\" * (2 * len(m.group())), s) or "v"
        # Braces are still variables, so they are escaped.
        src = mark + p_escape(s.replace(mark, "\\" + mark)) + mark
        return src, [MN("text", value=s, surf=src)]

    def style_(self, depth, forbidden, in_macro=False):
        d = self.d
        mark = d.pick([m for m in "_*^~" if m != forbidden])
        src, nodes = self.sentence(depth - 1, mark, in_macro, maxn=3)
        full = mark + src + mark
        return full, [MN("style", style=STYLES[mark], content=merge_words(nodes), surf=full)]

    def variable_(self, in_macro=False, forbidden=None):
        d = self.d
        names = [n for n, v in self.doc.vars.items() if v.usable and (not in_macro or v.simple)
                 and not any(x.type == "style" and x.f["style"] == STYLES.get(forbidden) for x in v.nodes)]
        if not names:
            return self.text(in_macro)
        name = d.pick(sorted(names))
        var = self.doc.vars[name]
        self.doc.label("variable-use")
        return "{" + name + "}", [clone(n) for n in var.nodes]

    def sentence(self, depth, forbidden=None, in_macro=False, maxn=4):
        d = self.d
        n = d.int(1, maxn)
        srcs = []
        nodes = []
        options = [(6, "text")]
        if self.verbatim:
            options.append((2, "verbatim"))
        if self.escaped and not in_macro:
            options.append((1, "escaped"))
        if self.styles and depth > 0:
            options.append((4, "style"))
        if self.macros and depth > 0 and in_macro < 2:
            options.append((4, "macro"))
        if self.variables and self.doc is not None and self.doc.vars:
            options.append((3, "variable"))
        for i in range(n):
            kind = d.weighted(options)
            if kind == "text":
                s, ns = self.text(in_macro)
            elif kind == "verbatim":
                s, ns = self.verbatim_(in_macro)
            elif kind == "escaped":
                s, ns = self.escaped_(in_macro)
            elif kind == "style":
                s, ns = self.style_(depth, forbidden, in_macro)
            elif kind == "variable":
                s, ns = self.variable_(in_macro, forbidden)
            else:
                s, ns = self.macro_(depth, in_macro)
            if i and d.chance(6):
                k = d.weighted([(5, 1), (1, 2), (1, 3)]) if not in_macro else 1
                srcs.append(" " * k)
                nodes.append(word(" " * k, " " * k))
            srcs.append(s)
            nodes.extend(ns)
        return "".join(srcs), nodes

    # Macros --------------------------------------------------------------

    def macro_text(self, depth, in_macro):
        """Content for the text of a macro: (argument source, nodes)."""
        src, nodes = self.sentence(max(depth - 1, 0), None, in_macro + 1, maxn=2)
        return src, merge_words(nodes)

    def margs(self, positional, named, in_macro, force_named=()):
        """Write the arguments of a macro. positional: list of (name, value source or None, is_text).

        Returns the source between parentheses. A value is given by position
        as long as all previous ones were."""
        d = self.d
        out = []
        by_position = True
        for name, value in positional:
            if value is None:
                by_position = False
                continue
            if value[:1] in ("#", "*", "@") or name in force_named or (by_position and d.chance(2)):
                by_position = False
            nested = in_macro >= 1
            if nested:
                w = value  # nested: plain only, the caller guarantees it is simple
            else:
                w = write_arg(d, value, macro=True)
            out.append(w if by_position else f"{name}={w}")
        sep = ", " if d.chance(7) else ","
        return sep.join(out + named)

    def simple_value(self):
        d = self.d
        return d.pick(SIMPLE + ["a/b", "x.html", "v1", "q?x"])

    def value(self, in_macro):
        """A value without markup for a macro."""
        d = self.d
        if in_macro:
            return self.simple_value()
        if d.chance(5):
            return self.simple_value()
        v = arg_value(d)
        v = re.sub(r"[{}`]", "", v)
        v = re.sub(r"\\+", "", v) or "v"
        while v[0] in '#*@"=':
            v = "u" + v[1:]
        return v

    def macro_(self, depth, in_macro=0):
        d = self.d
        kind = d.pick(list(self.macros))
        if kind in ("footnote", "header", "headertext") and not self.doc_has(kind):
            kind = "link"
        fn = getattr(self, "m_" + kind)
        src, node = fn(depth, in_macro)
        nodes = node if isinstance(node, list) else [node]
        if len(nodes) == 1 and nodes[0].surf is None and nodes[0].type.startswith("macro"):
            nodes[0].surf = src
        if self.doc is not None:
            self.doc.label("macro-" + kind)
        return src, nodes

    def doc_has(self, kind):
        if self.doc is None:
            return False
        refs = self.doc.refs
        return bool(refs.footnotes) if kind == "footnote" else bool(refs.headers)

    def text_arg(self, depth, in_macro):
        """(value source for margs, nodes) of a text argument. Nested macros use simple words."""
        if in_macro >= 1:
            w = self.d.pick(SIMPLE)
            return w, [MN("text", value=w, surf=w)]
        src, nodes = self.macro_text(depth, in_macro)
        return src, nodes

    def m_link(self, depth, in_macro):
        d = self.d
        target = self.value(in_macro)
        if d.chance(7):
            src, nodes = self.text_arg(depth, in_macro)
        else:
            src, nodes = None, [MN("text", value=target)]
        a = self.margs([("target", target), ("text", src)], [], in_macro)
        return f"[link]({a})", MN("macro-link", target=target, content=nodes)

    def m_mailto(self, depth, in_macro):
        d = self.d
        target = d.pick(["me@x.org", "a.b@c.d", "joe"])
        if d.chance(6):
            src, nodes = self.text_arg(depth, in_macro)
        else:
            src, nodes = None, [MN("text", value=target)]
        a = self.margs([("email", target), ("text", src)], [], in_macro)
        return f"[mailto]({a})", MN("macro-link", target="mailto:" + target, content=nodes)

    def m_class(self, depth, in_macro):
        d = self.d
        src, nodes = self.text_arg(depth, in_macro)
        classes = [self.simple_value() for _ in range(d.int(0, 3))]
        if src[:1] in ("#", "*", "@"):
            # A positional value with these prefixes is a tag, subtype or alias.
            a = ", ".join(classes + [f"text={quote_arg(src)}"])
            return f"[class]({a})", MN("macro-class", classes=classes, content=nodes)
        w = src if in_macro else write_arg(d, src, macro=True)
        return f"[class]({', '.join([w] + classes)})", MN("macro-class", classes=classes, content=nodes)

    def m_image(self, depth, in_macro):
        d = self.d
        uri = self.value(in_macro)
        alt = self.value(in_macro) if d.chance(6) else None
        width = d.pick(["10", "20%", "3em"]) if d.chance(5) else None
        height = d.pick(["10", "5em"]) if d.chance(5) else None
        if in_macro and width == "20%":
            width = "10"
        a = self.margs([("uri", uri), ("alt_text", alt), ("width", width), ("height", height)], [], in_macro)
        return f"[image]({a})", MN("macro-image", uri=uri, alt_text=alt, width=width, height=height)

    def m_unicode(self, depth, in_macro):
        v = self.d.pick(["1F30B", "263A", "e9", "41"])
        a = self.margs([("value", v)], [], in_macro)
        return f"[unicode]({a})", MN("macro-unicode", value=v)

    def m_raw(self, depth, in_macro):
        d = self.d
        if in_macro:
            v = d.pick(SIMPLE + ["<br>", "&nbsp;"])
        else:
            v = plain(d, 3, special=True, words=self.words)
            v = re.sub(r"[`{}\\]", "", v) or "r"
            if v[0] in "#*@":
                v = "r" + v
        a = self.margs([("value", v)], [], in_macro)
        return f"[raw]({a})", MN("macro-raw", value=v)

    def m_custom(self, depth, in_macro):
        d = self.d
        name = d.pick(["custom", "my-macro", "x1", "kbd", "a.b", "sup"])
        args = gen_args(d, simple=bool(in_macro), macro=True)
        src = args["src"]
        return f"[{name}]({src})", MN("macro", args=args, name=name)

    def m_footnote(self, depth, in_macro):
        d = self.d
        name = d.pick(self.doc.refs.footnotes)
        w = name if (in_macro or d.chance(7)) else quote_arg(name)
        a = w if d.chance(8) else f"name={w}"
        node = MN("macro-footnote", footnote=None)
        self.doc.refs.mention(node, name)
        return f"[footnote]({a})", node

    def m_header(self, depth, in_macro):
        d = self.d
        refs = self.doc.refs
        name = d.pick(refs.headers)
        if refs.text_required(name) or d.chance(4):
            return self._header_link(name, depth, in_macro, True)
        return self._header_link(name, depth, in_macro, False)

    def _header_link(self, name, depth, in_macro, with_text):
        node = MN("macro-header", target_name=name, header=None, content=[])
        src = None
        if with_text:
            src, node.f["content"] = self.text_arg(depth, in_macro)
            if not node.f["content"]:  # an if macro without a result: same as no text
                src, node.f["content"] = "x", [MN("text", value="x", surf="x")]
        self.doc.refs.link(node)
        a = self.margs([("header_id", name), ("text", src)], [], in_macro)
        return f"[header]({a})", node

    def m_if(self, depth, in_macro):
        d = self.d
        names = [n for n, v in self.doc.vars.items() if v.plain is not None] if self.doc else []
        if not names:
            return self.m_unicode(depth, in_macro)
        name = d.pick(sorted(names))
        value = self.doc.vars[name].plain
        op = d.pick(["==", "!="])
        other = d.pick(SIMPLE)
        if d.chance(5):
            other = value
        truth = (value == other) == (op == "==")
        tsrc, tnodes = self.text_arg(0, in_macro)
        fsrc, fnodes = (None, [])
        if d.chance(6):
            fsrc, fnodes = self.text_arg(0, in_macro)
        # Simple text only: it must be valid at any level.
        a = self.margs([("true_case", tsrc), ("false_case", fsrc)], [], in_macro)
        self.doc.label(f"if-{truth}")
        return f"[if:{name}{op}{other}]({a})", (tnodes if truth else fnodes)

    def m_ifeval(self, depth, in_macro):
        d = self.d
        names = [n for n, v in self.doc.vars.items() if v.plain is not None] if self.doc else []
        if not names:
            return self.m_unicode(depth, in_macro)
        name = d.pick(sorted(names))
        value = self.doc.vars[name].plain
        op = d.pick(["==", "!="])
        other = value if d.chance(5) else d.pick(SIMPLE)
        truth = (value == other) == (op == "==")
        t = d.pick(sorted(names))
        f = d.pick(sorted(names))
        result = self.doc.vars[t if truth else f].plain
        a = self.margs([("true_case", t), ("false_case", f)], [], in_macro)
        self.doc.label(f"ifeval-{truth}")
        return f"[ifeval:{name}{op}{other}]({a})", [MN("text", value=result)]


def clone(n):
    m = MN(n.type)
    m.args, m.kwargs, m.tags, m.itags, m.subtype = list(n.args), dict(n.kwargs), list(n.tags), list(n.itags), n.subtype
    m.f = {k: ([clone(i) for i in v] if isinstance(v, list) and v and isinstance(v[0], MN) else v)
           for k, v in n.f.items()}
    m.surf = None
    return m


# --------------------------------------------------------------------------
# Argument lists
# --------------------------------------------------------------------------

KEYS = ["key", "k1", "color", "data-x", "width", "A", "x.y", "été", "url"]


def gen_args(d, simple=False, macro=False, maxu=3, maxn=3, tags=True, keys=KEYS):
    """An argument list and one of its spellings.

    Returns a dictionary with args, kwargs, tags, itags, subtype and src. The
    source has braces protected."""
    res = no_args()
    parts = []

    def val():
        if simple:
            return d.pick(SIMPLE + ["v1", "x.y"])
        v = arg_value(d)
        if macro:
            v = re.sub(r"[`\\]", "", v) or "v"
            while v[0] in '#*@"=':
                v = "u" + v[1:]
        return v

    def write(v):
        if simple:
            return v
        return p_escape(write_arg(d, v, macro))

    entries = []
    for _ in range(d.int(0, maxu)):
        entries.append(("u", val()))
    if tags:
        for _ in range(d.weighted([(5, 0), (3, 1), (1, 2)])):
            entries.append(("t", d.pick(["tag1", "tag2", "t-3", "Big"])))
        if d.chance(2):
            entries.append(("i", d.pick(["note", "x1"])))
        if d.chance(3):
            entries.append(("s", d.pick(["sub", "other", "x-y"])))
    # Any order.
    for i in range(len(entries) - 1, 0, -1):
        j = i - d.int(0, i)
        entries[i], entries[j] = entries[j], entries[i]
    for kind, v in entries:
        if kind == "u":
            res["args"].append(v)
            parts.append(write(v))
        elif kind == "t":
            res["tags"].append(v)
            parts.append(("#" + v) if simple or d.chance(8) else f'"#{v}"')
        elif kind == "i":
            res["itags"].append(v)
            parts.append("#mau:" + v)
        else:
            res["subtype"] = v
            star = "*" + v
            parts.append('"' + star + '"' if (not simple and d.chance(2)) else star)
    for _ in range(d.weighted([(3, 0), (3, 1), (2, 2), (1, maxn)])):
        k = d.pick(keys)
        v = val()
        if k in res["kwargs"]:
            continue
        res["kwargs"][k] = v
        w = write(v)
        if not simple and w == v and "," not in v and d.chance(1):
            w = quote_arg(v)
        parts.append(f"{k}={w}")
    src = ""
    for i, p in enumerate(parts):
        if i:
            src += "," + " " * (d.weighted([(6, 1), (2, 0), (1, 3)]) if not macro else d.int(0, 1))
        src += p
    res["src"] = src
    return res
