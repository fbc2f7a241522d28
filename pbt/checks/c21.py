"""C21: macros carry the target, text and arguments they were written with."""

import re

from ..arms import Arm, Cfg, Root, Violation, accepted, composite, doc_arm, got_content, run_case, sut, walk
from ..docgen import Doc
from ..gen import HAZARD, SIMPLE, arg_value, gen_args, p_escape, write_arg
from ..model import merge_words, render

BASE = {"args": [], "kwargs": {}, "tags": [], "internal_tags": [], "subtype": None}

# name, type, parameters in order, those that are texts
MACROS = {
    "link": ("macro-link", ["target", "text"]),
    "mailto": ("macro-link", ["email", "text"]),
    "image": ("macro-image", ["uri", "alt_text", "width", "height"]),
    "class": ("macro-class", ["text"]),
    "unicode": ("macro-unicode", ["value"]),
    "raw": ("macro-raw", ["value"]),
    "header": ("macro-header", ["header_id", "text"]),
    "footnote": ("macro-footnote", ["name"]),
}
NAMES = ["custom", "kbd", "my-macro", "a.b", "x1", "linked", "Link", "raws", "iframe", "iff", "i", "notes", "été", "C", "ab", "unicode2", "headers", "classes"]


def value(d):
    """Any value without backslashes and backticks (they are special in a macro)."""
    v = arg_value(d) if d.chance(6) else d.pick(SIMPLE + ["http://a.b/c?d=e&f=g#h", "a (b)", "(", ")", "a) b", "[x](y)", "x, y", 'say "hi"', "*", "a*b*c", "_x_", "1F30B", "a=b", "=", " lead", "50%", "$5", "{v}", "日本", "[", "]", "](", "<b>", "'", ":", "//"])
    v = re.sub(r"[`\\]", "", v)
    while v and v[0] in "#*@\"":
        v = v[1:]
    return v or "v"


def quoted(v):
    return p_escape('"' + v.replace('"', '\\"') + '"')


def spell(d, v, forced=False):
    """A spelling of a value inside of a macro."""
    if forced or not v or d.chance(4):
        return quoted(v)
    k = d.int(0, 2)
    if k and re.search(r"[()]", v) and not re.search(r'[\[\]"$%~^_*,={} ]', v) and v == v.strip():
        # Closing brackets can be escaped as well.
        return v.replace(")", "\\)")
    return p_escape(write_arg(d, v, macro=True))


class Gen:
    def __init__(self, d):
        self.d = d
        self.doc = Doc(d, Cfg(variables=False, refs=False, macros=("link", "class", "raw", "custom", "unicode", "image", "mailto")), Root(), {}, 0)
        self.headers = []
        self.notes = []
        self.labels = set()

    def text(self):
        """(source, expected nodes) of a text argument."""
        src, nodes = self.inner()
        return src, render(nodes)

    def inner(self):
        from ..gen import Inline

        inl = Inline(self.d, self.doc, macros=self.doc.cfg.macros, special=True, variables=False, depth=2)
        src, nodes = inl.sentence(2, None, 1, maxn=3)
        return src, merge_words(nodes)

    def macro(self):
        d = self.d
        name = d.pick(sorted(MACROS) + ["custom", "custom"])
        self.labels.add(name)
        if name == "custom":
            return self.custom()
        type_, params = MACROS[name]
        values = {}
        content = None
        for i, p in enumerate(params):
            if i and not d.chance(6):
                continue
            if p == "text":
                src, content = self.text()
                values[p] = ("text", src)
            elif name == "header":
                n = d.pick(["h1", "h 2", "été", "h3"])
                self.headers.append(n)
                values[p] = ("value", n)
            elif name == "footnote":
                n = d.pick(["f1", "f 2", "été"])
                self.notes.append(n)
                values[p] = ("value", n)
            elif name == "unicode":
                values[p] = ("value", d.pick(["1F30B", "263A", "e9", "41", "0041"]))
            else:
                values[p] = ("value", "" if i and name == "image" and d.chance(2) else value(d))
        classes = [value(d) if d.chance(9) else "" for _ in range(d.int(0, 3))] if name == "class" else []
        src = self.arguments(params, values, classes)
        plain = {k: v for k, (kind, v) in values.items() if kind == "value"}
        node = {"_type": type_, **BASE}
        if name in ("link", "mailto"):
            target = plain[params[0]]
            node["content"] = content if content is not None else [self.words(target)]
            node["target"] = ("mailto:" if name == "mailto" else "") + target
        elif name == "image":
            node.update({p: plain.get(p) for p in params})
        elif name == "class":
            node.update(classes=classes, content=content)
        elif name in ("unicode", "raw"):
            node["value"] = plain["value"]
        elif name == "header":
            node.update(target_name=plain["header_id"], content=content if content is not None else [self.words("H " + plain["header_id"])], header="H " + plain["header_id"])
        else:
            node["footnote"] = plain["name"]
        return f"[{name}]({src})", node

    @staticmethod
    def words(v):
        return {"_type": "text", **BASE, "value": v}

    def arguments(self, params, values, unnamed):
        """By position as long as possible, then by name in any order."""
        d = self.d
        by_position, named = [], []
        positional = True
        for p in params:
            if p not in values:
                positional = False
                continue
            kind, v = values[p]
            if d.chance(3) or v[:1] in "#*@":
                positional = False
            if kind == "text":
                # The text of a macro is written as it is: its own escapes are for its syntax.
                w = '"' + v.replace('"', '\\"') + '"' if not simple_text(v) or d.chance(4) else v
            else:
                w = spell(d, v)
            (by_position if positional else named).append(w if positional else f"{p}={w}")
        if params == ["text"]:
            # Classes follow the text.
            by_position += [spell(d, c) for c in unnamed]
        for i in range(len(named) - 1, 0, -1):
            j = i - d.int(0, i)
            named[i], named[j] = named[j], named[i]
        out = ""
        for i, p in enumerate(by_position + named):
            out += ("," + " " * d.weighted([(6, 1), (2, 0), (1, 3)]) if i else "") + p
        return out

    def custom(self):
        d = self.d
        name = d.pick(NAMES)
        a = gen_args(d, macro=True)
        node = {"_type": "macro", "args": a["args"], "kwargs": a["kwargs"], "tags": a["tags"], "internal_tags": a["itags"], "subtype": a["subtype"], "name": name}
        return f"[{name}]({a['src']})", node


def simple_text(v):
    return bool(re.fullmatch(r"[A-Za-z0-9.+/-]+( [A-Za-z0-9.+/-]+)*", v))


def build(d):
    g = Gen(d)
    parts, nodes = [], []
    for i in range(d.int(1, 3)):
        if i:
            parts.append(d.pick([" and ", ", ", ". "]))
            nodes.append(Gen.words(parts[-1]))
        src, node = g.macro()
        form = d.weighted([(6, None), (1, "*"), (1, "_"), (1, "~")])
        if form and form not in src:
            parts.append(form + src + form)
            nodes.append({"_type": "style", **BASE, "style": {"*": "star", "_": "underscore", "~": "tilde"}[form], "content": [node]})
        else:
            parts.append(src)
            nodes.append(node)
    text = "Line " + "".join(parts)
    nodes.insert(0, Gen.words("Line "))
    place = d.weighted([(6, "paragraph"), (1, "header"), (1, "item"), (1, "label")])
    return {"line": text, "nodes": nodes, "headers": sorted(set(g.headers)), "notes": sorted(set(g.notes)), "place": place, "labels": sorted(g.labels)}


def check(case):
    start = {"paragraph": "", "header": "= ", "item": "* ", "label": ".role "}[case["place"]]
    text = start + case["line"] + ("\n---" if case["place"] == "label" else "\n\n")
    for h in case["headers"]:
        text += f'\n[name="{h}"]\n== H {h}\n'
    for f in case["notes"]:
        text += f'\n[footnote="{f}"]\n++++\nN {f}\n++++\n'
    node = got_content(accepted({"text": text, "env": {}}))[0]
    if case["place"] == "paragraph":
        content = node["content"][0]["content"]
    elif case["place"] == "label":
        content = node["labels"]["role"]["content"] if isinstance(node["labels"]["role"], dict) else node["labels"]["role"]
    elif case["place"] == "item":
        content = node["content"][0]["content"]
    else:
        content = node["content"]
    sut.require_equal(case["nodes"], simplify(content), f"macros of {case['line']!r}")
    return True, case["labels"] + [case["place"]]


def simplify(x):
    """Headers and footnotes are replaced by their text."""
    if isinstance(x, list):
        return [simplify(v) for v in x]
    if isinstance(x, dict):
        if x.get("_type") == "macro-header":
            return {**x, "header": x["header"]["content"][0]["value"], "content": simplify(x["content"])}
        if x.get("_type") == "macro-footnote":
            return {**x, "footnote": x["footnote"]["content"][0]["content"][0]["content"][0]["value"][2:]}
        return {k: simplify(v) for k, v in x.items()}
    return x


# The text of a macro is what it would be alone


PIECES = ["a", "word", " ", "*b*", "_i_", "*", "_", "^", "~", "~x~", "\\*", "\\_", ".", "(x)", "(", ")", "[", "]", "[x]", "`v`", "`*v*`", "#", "@", "=", ",", ", ", ":", "'", '"', "é", "日本", "!", "$a$", "%b%", "$", "%", "\\$",
          "[link](u)", "[link](u, t)", "[raw](r)", "[custom](k=v)", "[class](t, c)", "//", "--", "<b>", "{v1}", "{v2}", "\\{", "\\}", "\\\\"]


def texts(d):
    pieces = []
    marks = 0
    for _ in range(d.int(1, 6)):
        p = d.pick(PIECES)
        if p in "*_^~":
            marks += 1
            if marks > 20:
                continue
        pieces.append(p)
    text = "W" + "".join(pieces)
    return {"text": text.rstrip(" "), "macro": d.pick(["link", "mailto", "class", "header"]), "named": d.chance(3)}


def check_texts(case):
    text, macro = case["text"], case["macro"]
    # Escapes of quotes inside of verbatim are not considered: quotes are escaped once.
    env = {"v1": "one", "v2": "*two*"}
    alone = run_case({"text": text, "env": env})
    value = '"' + re.sub(r'\\*"', lambda m: "\\" + m.group(), text) + '"'
    src = ("text=" if case["named"] else "") + value
    target = {"link": "u", "mailto": "u", "header": "h", "class": None}[macro]
    args = src if target is None else (f"{target}, {src}")
    other = run_case({"text": f"[{macro}]({args})\n\n[name=h]\n= H", "env": env})
    if not alone.ok:
        if other.ok:
            raise Violation(f"the text {text!r} is rejected alone ({sut.error_text(alone)}) and accepted in a macro")
        return True, ["rejected"]
    if not other.ok:
        raise Violation(f"the text {text!r} is rejected in the macro {macro}: {sut.error_text(other)}")
    want = got_content(alone)[0]["content"][0]["content"]
    line = got_content(other)[0]["content"][0]["content"]
    if len(line) != 1 or not line[0]["_type"].startswith("macro-"):
        raise Violation(f"a {macro} macro with the text {text!r} is rendered as {sut.brief(line)}")
    sut.require_equal(want, line[0]["content"], f"the text {text!r} in a {macro} macro differs from the text alone")
    return True, ["accepted", macro]


# Missing values


def missing(d):
    name = d.pick(sorted(MACROS))
    params = MACROS[name][1]
    # Anything but the first parameter.
    rest = [f"{p}={d.pick(SIMPLE)}" for p in params[1:] if d.chance(5)]
    args = d.pick([[], ["#tag"], ["*sub"], ["#t1", "#t2"]]) + rest + d.pick([[], ["k=v"], [f"{params[0]}x=1"]])
    where = d.pick(["{}", "text {} text", "*{}*", "= {}", "* {}", "* a\n* {}", ". {}\ntext", '[class]("{}", c)', "++++\n{}\n++++", "[link](x, text=\"{}\")", "text\n{}\nother"])
    return {"macro": f"[{name}]({', '.join(args)})", "where": where, "name": name}


def check_missing(case):
    text = case["where"].replace("{}", case["macro"])
    out = run_case({"text": text, "env": {}})
    if out.ok:
        raise Violation(f"accepted without the mandatory value: {text!r}")
    if len(out.handler.messages) != 1:
        raise Violation(f"{len(out.handler.messages)} messages for {text!r}")
    if "mandatory" not in sut.error_text(out).lower():
        raise Violation(f"the error of {text!r} does not mention what is missing: {sut.error_text(out)!r}")
    return True, [case["name"]]


def only_macros(x):
    return [n for n in walk(x) if n["_type"].startswith("macro")] if x else []


CFG = Cfg(max_nodes=6, attach=3, inline_depth=3, weights={"paragraph": 10, "header": 2, "list": 2, "block": 1, "footnote": 2})

ARMS = [
    Arm("values", composite(build), check, 2500, rule="lines of macros with any values, positional or named in any order, quoted or escaped, in paragraphs, headers, items and labels"),
    Arm("texts", composite(texts), check_texts, 2500, rule="any text as the text of a macro against the same text alone"),
    Arm("missing", composite(missing), check_missing, 600, rule="built-in macros without their mandatory value, in any place"),
    doc_arm("documents", CFG, 400, ["macro-link", "macro-class", "macro-image", "macro-raw", "macro-unicode", "macro-custom", "macro-mailto"], "documents of the model with macros", project=only_macros),
]
