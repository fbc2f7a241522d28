"""C09: a variable always stands for its latest value."""

from ..arms import Arm, Cfg, D, Violation, composite, doc_arm, got_content, run_case, sut
from ..gen import SIMPLE

NAMES = ["v1", "v2", "a.b", "X-1", "n2", "p+q"]
ODD = ["v-", "v+", "v_1", "1", "_", "_x_", "a.b.c", "v1x", "call", ".b", "b.", "..", "1.2", "true", "__"]
VALUES = SIMPLE + ["*bold*", "a b", "_x_ y", "[link](http://a.b, text)", "*", "= h", "a, b=c", '"q, r"', "#tag", "k=v", "日本", "x*y", "$e$", "[", ")", "(x)", "//",
                   "----", "a|b", "42", "true", "@if", "[footnote](f)", "^", "~t~ %p%", "http://x.y/?q=1", "a:b:c", "'", "<b>", "&", " lead", "trail ", "a  b", "\t", "é" * 3, ""]


def value(d, env=False):
    v = "".join(d.pick(VALUES) for _ in range(d.int(1, 2)))
    if sum(v.count(m) for m in "*_^~") > 3:
        v = d.pick(SIMPLE)
    if not env:
        v = v.strip()
    return v or "x"


class Builder:
    """Two texts: with variables, and with their values."""

    def __init__(self, d, env):
        self.d = d
        self.now = dict(env)
        self.a, self.b = [], []
        self.uses = 0
        self.labels = set()

    def text(self, n=3, quotes=False):
        """A piece of text with variables: (with names, with values)."""
        d = self.d
        a, b = [], []
        for _ in range(d.int(1, n)):
            k = d.weighted([(5, "use"), (3, "word"), (1, "escaped"), (1, "verbatim"), (1, "brace")])
            if k == "use" and self.now:
                name = d.pick(sorted(self.now))
                a.append("{" + name + "}")
                b.append(self.now[name])
                self.uses += 1
            elif k == "escaped":
                x = "\\{" + d.pick(NAMES + ["undefined"]) + "\\}"
                a.append(x)
                b.append(x)
                self.labels.add("escaped braces")
            elif k == "verbatim" and not quotes:
                x = "`{" + d.pick(NAMES + ["undefined"]) + "}`"
                a.append(x)
                b.append(x)
                self.labels.add("verbatim")
            else:
                x = d.pick(["w", " ", " x ", "y", ", ", "."])
                a.append(x)
                b.append(x)
        return "".join(a), "".join(b)

    def emit(self, a, b=None):
        self.a.append(a)
        self.b.append(a if b is None else b)

    def step(self, depth):
        d = self.d
        k = d.pick(["paragraph", "header", "list", "label", "args", "include", "macro", "cond", "condmacro", "define", "define", "redefine", "flag", "block",
                    "hr", "quoted", "ifeval", "blockgroup", "definition-by-name"])
        self.labels.add(k)
        if k == "paragraph":
            for _ in range(d.int(1, 2)):
                x, y = self.text()
                self.emit("W " + x, "W " + y)
            self.emit("")
        elif k == "header":
            x, y = self.text()
            self.emit("= W" + x, "= W" + y)
        elif k == "list":
            for i in range(d.int(1, 3)):
                x, y = self.text()
                m = "*" * d.int(1, i + 1)
                self.emit(m + " W" + x, m + " W" + y)
            self.emit("")
        elif k == "label":
            x, y = self.text()
            self.emit(". W" + x, ". W" + y)
            self.emit("end", "end")
            self.emit("")
        elif k == "args":
            x, y = self.text()
            self.emit(f"[a,{x}]", f"[a,{y}]")
            self.emit("text")
            self.emit("")
        elif k == "quoted":
            x, y = self.text(quotes=True)
            self.emit(f'[k="{x}"]', f'[k="{y}"]')
            self.emit("---")
        elif k == "include":
            x, y = self.text(quotes=True)
            self.emit(f"<< custom:{x}", f"<< custom:{y}")
        elif k == "blockgroup":
            name = "g" + str(len(self.a))
            if self.now:
                v = d.pick(sorted(self.now))
                if self.now[v].isalnum():
                    self.emit(f"[group={{{v}}}{name}, position={{{v}}}]", f"[group={self.now[v]}{name}, position={self.now[v]}]")
                    self.emit("====")
                    self.emit("x")
                    self.emit("====")
                    self.emit(f"<< blockgroup:{{{v}}}{name}", f"<< blockgroup:{self.now[v]}{name}")
        elif k == "macro":
            x, y = self.text(2, quotes=True)
            m = d.pick(["[link](t, W{})", '[link]("{}", W)', "[custom](a, k={})", "[class](W{}, c)", "[unicode]({})", "[link]({})"])
            self.emit("W " + m.replace("{}", x), "W " + m.replace("{}", y))
            self.emit("")
        elif k == "cond":
            simple = [n for n in self.now if self.now[n].isalnum() and "_" not in n]
            if simple:
                n, m = d.pick(simple), d.pick(simple)
                op = d.pick(["==", "!="])
                self.emit(f"@if {n}{op}{{{m}}}", f"@if {n}{op}{self.now[m]}")
                self.emit("conditional")
                self.emit("")
                self.uses += 1
        elif k == "condmacro":
            simple = [n for n in self.now if self.now[n].isalnum() and "_" not in n]
            if simple:
                n, m = d.pick(simple), d.pick(simple)
                self.emit(f"W [if:{n}=={{{m}}}]({{{n}}}, no)", f"W [if:{n}=={self.now[m]}]({self.now[n]}, no)")
                self.emit("")
                self.uses += 1
        elif k == "ifeval":
            simple = [n for n in self.now if self.now[n].isalnum() and "_" not in n]
            if simple:
                n, m = d.pick(simple), d.pick(simple)
                self.emit(f"W [ifeval:{n}=={self.now[n]}]({m}, v1)", f"W {self.now[m]}")
                self.emit("")
                self.uses += 1
        elif k in ("define", "redefine"):
            # A name with a sign in front is one of a flag.
            plain = sorted(n for n in self.now if n[0] not in "+-")
            name = d.pick(plain) if k == "redefine" and plain else d.pick(NAMES if d.chance(8) else ODD)
            if d.chance(4) and self.now:
                x, y = self.text(2, quotes=True)
                x, y = "W" + x + "W", "W" + y + "W"
                if "\\" in y or "`" in y:
                    return
            else:
                x = y = value(d)
            self.emit(f":{name}:{x}", f":{name}:{y}")
            self.now[name] = y
        elif k == "definition-by-name":
            # The value of the variable is a piece of a name.
            simple = [n for n in self.now if self.now[n].isalnum() and "_" not in n]
            if simple:
                n = d.pick(simple)
                self.emit(f"<< custom:{{{n}}}={{{n}}}", f"<< custom:{self.now[n]}={self.now[n]}")
        elif k == "flag":
            name = d.pick(NAMES + ODD + ["-v", "+v", "--", "-v+", "+", "-v1", "+-x"])
            sign = d.pick("+-")
            v = "true" if sign == "+" else "false"
            self.emit(f":{sign}{name}:", f":{name}:{v}" if name[0] not in "+-" and d.chance(5) else None)
            self.now[name] = v
        elif k == "block" and depth:
            if d.chance(4):
                self.emit("[isolate=false]")
            delim = ["====", "++++"][depth - 1]
            self.emit(delim)
            for _ in range(d.int(1, 3)):
                self.step(depth - 1)
            self.emit(delim)
        else:
            self.emit("---")


def build(d):
    env = {}
    for n in ["v1", "a.b", "e1"]:
        if d.chance(6):
            env[n] = value(d, env=True)
    b = Builder(d, env)
    for _ in range(d.int(1, 7)):
        b.step(2)
    return {"with": "\n".join(b.a), "without": "\n".join(b.b), "env": env, "uses": b.uses, "labels": sorted(b.labels)}


def merge(x):
    """Adjacent text nodes as one: the result of ifeval is a node on its own."""
    if isinstance(x, dict):
        return {k: merge(v) for k, v in x.items()}
    if isinstance(x, list):
        out = []
        for i in map(merge, x):
            if out and isinstance(i, dict) and i.get("_type") == "text" and isinstance(out[-1], dict) and out[-1].get("_type") == "text":
                out[-1] = dict(out[-1], value=out[-1]["value"] + i["value"])
            else:
                out.append(i)
        return out
    return x


def check_subst(case):
    one = run_case({"text": case["with"], "env": case["env"]})
    two = run_case({"text": case["without"], "env": case["env"]})
    if one.ok != two.ok:
        bad = sut.error_text(one) or sut.error_text(two)
        raise Violation(f"with variables {'accepted' if one.ok else 'rejected'}, with their values {'accepted' if two.ok else 'rejected'}: {bad}")
    if one.ok:
        sut.require_equal(merge(got_content(two)), merge(got_content(one)), "replacing variables with their values changes the result (expected: with values)")
    return one.ok and case["uses"] > 0, case["labels"] + (["accepted"] if one.ok else ["both rejected"])


PLACES = {
    "paragraph": "W {} x", "line": "W\n{} x", "header": "= W {}", "list": "* W {}", "item": "* a\n** W {}", "label": ". W {}\ntext", "args": "[{}]\ntext", "named": "[k={}]\n---",
    "quoted": '["{}"]\ntext', "include": "<< custom:{}", "uri": "<< image:{}", "macro": "W [link]({})", "macro-text": "W [link](a, {})", "macro-named": "W [custom](k={})",
    "cond": "@if v1=={}\ntext", "definition": ":new:{}\ntext", "block": "====\nW {}\n====", "shared": "[isolate=false]\n====\nW {}\n====", "style": "W *{}*",
    "footnote": "W [footnote](a)\n\n[footnote=a]\n====\nW {}\n====", "nested": "====\n++++\n[{}]\ntext\n++++\n====", "case": "[if:v1==one]({}, no)", "cond-macro": "W [if:v1=={}](a)",
    "call": "<< custom:call:{}", "group": "[group=g, position=p]\n====\nW {}\n====\n\n<< blockgroup:g",
}
LITERAL_OK = [p for p in PLACES if p not in ("definition",)]


def undefined(d):
    place = d.pick(sorted(PLACES))
    kind = d.weighted([(5, "undefined"), (3, "escaped"), (3, "verbatim"), (2, "defined"), (2, "later"), (1, "other-scope")])
    name = d.pick(["undef", "v1x", "v", "a", "a.b.c", "v1.x", "Undefined", "v-1"])
    if kind == "undefined" and d.chance(5):
        # Names that are similar to those that exist.
        name = d.pick([" v1", "v1 ", " v1 ", "V1", "v1.", ".v1", "a.b ", "a. b", "a..b", "A.b", "v1v1", "vl", "v", "v_1", "v1-", "+v1", "-v1", "a/b", "a-b", "a.b.", "v1\u00a0", "v1:", ":v1", "v1\t"])
    env = {"v1": "one", "a.b": "two"}
    text = PLACES[place]
    if kind == "escaped":
        use = "\\{" + name + "\\}"
    elif kind == "verbatim":
        use = "`{" + name + "}`"
    else:
        use = "{" + name + "}"
    text = text.replace("{}", use)
    if kind == "defined":
        text = f":{name}:val\n\n" + text
    elif kind == "later":
        text += f"\n\n:{name}:val\n"
    elif kind == "other-scope":
        text = "\n".join([":other:" + name, "", text])
    return {"text": text, "env": env, "kind": kind, "place": place, "name": name}


def check_undefined(case):
    out = run_case(case)
    kind = case["kind"]
    if kind in ("undefined", "later", "other-scope"):
        if out.ok:
            raise Violation(f"the undefined variable {case['name']} is accepted: {sut.brief(got_content(out))}")
        if case["name"] not in sut.error_text(out):
            raise Violation(f"the error does not name the undefined variable {case['name']}: {sut.error_text(out)}")
    else:
        if not out.ok:
            raise Violation(f"{kind} braces are rejected: {sut.error_text(out)}")
        whole = repr(got_content(out))
        if kind == "defined":
            if "val" not in whole and case["place"] not in ("cond", "cond-macro", "definition"):
                raise Violation(f"the value of {case['name']} is not in the result: {whole[:500]}")
        elif case["place"] not in ("cond", "cond-macro", "definition", "macro", "call", "args", "named", "quoted", "include", "uri", "macro-named"):
            if "{" + case["name"] + "}" not in whole:
                raise Violation(f"{kind} braces are not kept: {whole[:500]}")
    return True, [kind, case["place"]]


CFG = Cfg(max_nodes=7, attach=4, cond=True, noise=3, macros=("link", "class", "custom", "if", "ifeval"), inline_depth=2, refs=False, args_vars=True,
          weights={"paragraph": 8, "header": 3, "list": 3, "block": 4, "vardef": 9, "mau": 1, "include": 1})

ARMS = [
    Arm("substitution", composite(build), check_subst, 4000, rule="a text with variables and the same text with values in their place (arbitrary values with markup, commas, quotes); non-trivial: accepted and has uses"),
    Arm("undefined", composite(undefined), check_undefined, 1500, rule="undefined, escaped, verbatim, defined-later names in every place; always non-trivial"),
    doc_arm("documents", CFG, 500, ["variable-use", "var-in-args", "redefinition", "var-of-var"], "documents of the model rich in variables; non-trivial: a variable is used or redefined"),
]
ASSUMPTIONS = ["values have no braces, backslashes, backticks or line feeds and are not empty: substitution would not be textual"]
