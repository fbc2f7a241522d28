"""C10: arguments arrive as written."""

import re

from ..arms import Arm, Cfg, D, Violation, accepted, composite, doc_arm, got_content, run_case, st, sut
from ..gen import ARG_WORDS, SIMPLE, balanced_backslashes, can_be_plain, p_escape, quote_arg

CHARS = st.characters(codec="utf-8", exclude_characters="\n")
SPECIAL = "\\\\,,\"\"==  {}[]()`'#*@:.ab|$%_^~<>/-"

# host: (text, position of the node, positional names of the node, named arguments the node takes away)
HOSTS = {
    "paragraph": "[{}]\ntext",
    "hr": "[{}]\n---",
    "header": "[{}]\n= header",
    "list": "[{}]\n* item",
    "block": "[{}]\n----\ntext\n----",
    "include": "<< custom:{}",
    "include-boxed": "[{}]\n<< custom",
    "spaced": "[{}]\n\n// comment\n\n. label\ntext",
    "nested": "====\n[{}]\ntext\n====",
    "toc": "<< toc:{}",
    "footnotes": "[{}]\n<< footnotes",
    "macro": "W [custom]({})",
}


def node_of(host, content):
    try:
        if host == "nested":
            return content[0]["content"][0]
        if host == "macro":
            return content[0]["content"][0]["content"][1]
        return content[0]
    except (IndexError, KeyError, TypeError):
        raise Violation(f"no node in {sut.brief(content)}") from None


@st.composite
def raw_value(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(st.sampled_from(ARG_WORDS + SIMPLE))
    if k == 1:
        return draw(st.text(alphabet=SPECIAL, min_size=0, max_size=10))
    if k == 2:
        return draw(st.text(alphabet=CHARS, max_size=10))
    return "".join(draw(st.lists(st.sampled_from([", ", '"', "=", "\\\\", "{v1}", "k=v", '","', "\t", "\u00a0", "[x]", "(y)", "`", " ", "#t", "*s", "@a", "x"]), max_size=5)))


def clean(v, macro, braces):
    """The values that can be written, see the assumptions."""
    if not braces:
        v = re.sub(r"[{}]", "", v)
    if macro:
        v = re.sub(r"[`\\]", "", v)
    if not balanced_backslashes(v) or re.search(r"\\[{}]", v):
        v = v.replace("\\", "")
    return v


@st.composite
def arguments(draw):
    d = D(draw)
    host = draw(st.sampled_from(sorted(HOSTS)))
    macro = host == "macro"
    ticks = draw(st.booleans()) and not macro
    entries, parts = [], []
    want = {"args": [], "kwargs": {}, "tags": [], "internal_tags": [], "subtype": None}
    has_subtype = False

    def val():
        v = draw(raw_value())
        return clean(v if ticks else v.replace("`", ""), macro, not ticks)

    def write(v, positional):
        if can_be_plain(v, macro, " " if positional else None) and not (macro and "," in v) and d.chance(5):
            return v.replace(",", "\\,")
        return quote_arg(v)

    for _ in range(d.int(0, 5)):
        kind = d.weighted([(5, "u"), (2, "t"), (1, "i"), (2, "s")])
        v = val()
        if kind == "u":
            if d.chance(1):
                v = d.pick(["x#t", " #t", " *s", "a@source", "mau:x", "=", "a=b"])
            if v[:1] in ("#", "*", "@"):
                v = "u" + v
            want["args"].append(v)
            parts.append(write(v, True))
        elif kind == "t":
            if d.chance(1):
                v = d.pick(["x-mau:y", "mau", " mau:z", "#mau:a", "Mau:b", "mau :c", "#", "*s", "@a"])
            if v.startswith("mau:"):
                v = "x" + v
            want["tags"].append(v)
            parts.append(write("#" + v, True))
        elif kind == "i":
            v = d.pick(["note", "x y", "0"])
            want["internal_tags"].append(v)
            parts.append(write("#mau:" + v, True))
        elif not has_subtype:
            has_subtype = True
            want["subtype"] = v
            parts.append(write("*" + v, True))
    keys = draw(st.lists(st.one_of(st.sampled_from(["key", "k1", "data-x", "été", "A.b", "a:b", "x/y"]),
                                   st.text(alphabet=st.characters(codec="utf-8", exclude_characters='\n\\=," {}`#*@[]()$%_^~'), min_size=1, max_size=4)),
                         max_size=4, unique=True))
    if macro:
        keys = [k for k in keys if re.fullmatch(r"[\w.:/\-]+", k) and "_" not in k]
    reserved = {"name", "internal_id", "start", "classes", "engine", "isolate", "footnote", "group", "position", "content", "url"}
    for k in keys:
        if k in reserved or not k.strip() or k != k.strip():
            continue
        v = val()
        want["kwargs"][k] = v
        parts.append(f"{k}=" + write(v, False))
    src = ""
    for i, p in enumerate(parts):
        if i:
            src += "," + (" " * d.weighted([(6, 1), (2, 0), (1, 3)]))
        src += p
    # Only what is not verbatim is subject to variables.
    src = src if ticks else p_escape(src)
    return {"src": src, "want": want, "host": host}


def check(case):
    src = case["src"]
    host = case["host"]
    if not src and (host.startswith("include") or host in ("toc", "footnotes")):
        return False, []
    out = accepted({"text": HOSTS[host].replace("{}", src), "env": {"v1": "VALUE"}})
    node = node_of(host, got_content(out))
    got = {k: node.get(k) for k in case["want"]}
    sut.require_equal(case["want"], got, f"arguments written as {src!r} on {host}")
    return bool(src), [host]


@st.composite
def configured(draw):
    """Values of the configuration: they are used as they are."""
    return draw(raw_value()) if draw(st.booleans()) else draw(st.sampled_from(["", " ", " x ", "x ", "\tx", '"q"', "a,b", "#t", "*s", "@tip", "k=v", "{v1}", "\\,", "`c`", "0", "false", "None"]))


EMPTY = ['""', "", '""']


def alias(d):
    """Aliases configured in the environment."""
    aliases = {}
    for n in ["tip", "note-1", "my_alias"]:
        if d.chance(7):
            a = {}
            if d.chance(7):
                a["args"] = {k: d.pick(SIMPLE + ["a, b", "x=y"]) if d.chance(7) else d.draw(configured()) for k in d.pick([["one"], ["two", "k"], ["k", "three", "x"], ["x"]])}
            if d.chance(6):
                a["names"] = d.pick([["one"], ["one", "two"], ["two", "one"], ["k", "three", "one"], []])
            if d.chance(6):
                a["subtype"] = d.pick(["warn", "info"]) if d.chance(8) else d.draw(configured()) or "w"
            if a:
                aliases[n] = a
    if not aliases:
        aliases["tip"] = {"subtype": "warn"}
    name = d.pick(sorted(aliases))
    host = d.pick(["paragraph", "hr", "header", "list", "block", "include", "include-boxed", "macro", "nested"])
    unnamed = [d.pick(SIMPLE + [""]) for _ in range(d.int(0, 4))]
    named = {k: d.pick(SIMPLE + ["", "", ""]) for k in ["one", "two", "three", "k", "x", "other"] if d.chance(3)}
    tags = [d.pick(["t1", "t2"]) for _ in range(d.weighted([(6, 0), (3, 1), (1, 2)]))]
    subtype = d.pick(["mine", "own", ""]) if d.chance(4) else None
    pos = list(unnamed)
    for x in ["#" + t for t in tags] + (["*" + subtype] if subtype is not None else []) + ["@" + name]:
        pos.insert(d.int(0, len(pos)), x)
    order = [p[1:] for p in pos if p.startswith("#")]
    src = ", ".join([x or '""' for x in pos] + [f"{k}={v or d.pick(EMPTY)}" for k, v in named.items()])
    a = aliases[name]
    kwargs = dict(a.get("args", {}))
    kwargs.update(named)
    free = [n for n in a.get("names", []) if n not in kwargs]
    for n, v in zip(free, unnamed):
        kwargs[n] = v
    rest = unnamed[len(free):]
    want = {"args": rest, "kwargs": kwargs, "tags": order, "internal_tags": [], "subtype": a.get("subtype") if subtype is None else subtype}
    return {"src": src, "host": host, "env": {"mau.parser.aliases": aliases, "v1": "x"}, "want": want,
            "labels": ["alias-" + k for k in a] + (["overrides"] if set(named) & set(a.get("args", {})) else [])}


def check_alias(case):
    out = accepted({"text": HOSTS[case["host"]].replace("{}", case["src"]), "env": case["env"]})
    node = node_of(case["host"], got_content(out))
    got = {k: node.get(k) for k in case["want"]}
    sut.require_equal(case["want"], got, f"arguments {case['src']!r} with aliases {case['env']['mau.parser.aliases']}")
    return True, [case["host"]] + case["labels"]


def wrong(d):
    """Not valid: unnamed after named, two subtypes, two aliases, an unknown alias."""
    kind = d.pick(["unnamed-after-named", "subtypes", "aliases", "unknown-alias", "ok"])
    parts = [d.pick(SIMPLE) for _ in range(d.int(0, 2))]
    named = [f"k{i}={d.pick(SIMPLE)}" for i in range(d.int(0, 2))]
    if kind == "unnamed-after-named":
        named = (named or ["k=v"]) + [d.pick(["late", "#late", "*late", '"late, x"'])]
    elif kind == "subtypes":
        parts += ["*one", "*two"] if d.chance(5) else ["*one", "x", "*one"]
    elif kind == "aliases":
        parts += ["@source", "@source"]
    elif kind == "unknown-alias":
        parts.insert(d.int(0, len(parts)), d.pick(["@unknown", "@", "@Source", "@source2"]))
    else:
        parts = parts or ["a"]
    host = d.pick(["paragraph", "hr", "header", "block", "include", "include-boxed", "macro", "nested", "toc"])
    return {"src": ", ".join(parts + named), "host": host, "kind": kind}


def check_wrong(case):
    out = run_case({"text": HOSTS[case["host"]].replace("{}", case["src"])})
    if case["kind"] == "ok":
        if not out.ok:
            raise Violation(f"valid arguments {case['src']!r} are rejected: {sut.error_text(out)}")
    elif out.ok:
        raise Violation(f"wrong arguments ({case['kind']}) {case['src']!r} are accepted on {case['host']}")
    return case["kind"] != "ok", [case["kind"]]


CFG = Cfg(max_nodes=6, attach=9, cond=False, macros=("custom",), inline_depth=1, refs=False, noise=3,
          weights={"paragraph": 5, "header": 3, "list": 3, "block": 3, "hr": 2, "raw": 2, "source": 3, "image": 2, "include": 3, "rawfile": 1, "mau": 1, "toc": 1, "vardef": 2,
                   "blockgroup": 1, "group": 1}, labels=False)

ARMS = [
    Arm("values", arguments, check, 7000, rule="argument lists with arbitrary values, quoted or not, in each kind of place; non-trivial: not empty"),
    Arm("alias", composite(alias), check_alias, 3000, rule="configured aliases with explicit arguments, against a reference of their meaning"),
    Arm("wrong", composite(wrong), check_wrong, 800, rule="argument lists that are not valid must be rejected; non-trivial: not the valid ones"),
    doc_arm("documents", CFG, 400, ["args", "macro-custom", "include", "include-image"], "documents of the model rich in arguments; non-trivial: has arguments"),
]
ASSUMPTIONS = ["values without line feeds; a backslash cannot end a value, precede a double quote or brace in it (not representable)",
               "a list of arguments has either braces or backticks (text between backticks is never subject to variables)",
               "macros: no backticks and backslashes in values"]
