"""C12: conditions keep or drop exactly the guarded content."""

from ..arms import Arm, Cfg, D, Root, Violation, accepted, composite, doc_arm, doc_case, draw_doc, got_content, run_case, st, sut
from ..gen import SIMPLE

VALUES = ["one", "two", "true", "false", "42", "a b", "x==y", "!=", "日本", "a  b", "One", "*", "[x]", "http://x.y", "=", "0", "on"]
SPACED = ["one ", "a b ", "two  ", "one\t", "\tone", "\u00a0", "", "TRUE", "1.0", "None"]
NODES = {
    "paragraph": "kept text\n", "header": "= kept", "list": "* kept\n* kept\n", "hr": "---", "block": "----\nkept\n----", "raw": "[engine=raw]\n----\nkept\n----",
    "source": "[@source]\n----\nkept\n----", "image": "<< image:kept", "include": "<< custom:kept", "toc": "<< toc", "labelled": ". label\n[a]\nkept\n", "olist": "# kept\n",
    "two lines": "kept\nkept\n", "footnotes": "<< footnotes", "mau": "<< mau:f.mau", "rawfile": "<< raw:f.txt",
}


def block_condition(d):
    """A condition on a node, with values of any kind."""
    # Only the environment can give values with spaces around.
    env = {n: d.pick(VALUES + SPACED) for n in ["v1", "ns.x", "my_flag", "A-b", "c++", "x.Y_9"] if d.chance(6)}
    lines = []
    current = dict(env)
    for _ in range(d.int(0, 3)):
        n = d.pick(["v1", "ns.x", "new", "my_flag", "a+b", "x-1.y"])
        v = d.pick(VALUES)
        form = d.pick(["value", "value", "+", "-"])
        if form == "value":
            lines.append(f":{n}:{v}")
        else:
            lines.append(f":{form}{n}:")
            v = "true" if form == "+" else "false"
        current[n] = v
        if d.chance(3):
            lines.append(d.pick(["", "before\n", "// c", "---"]))
    if not current:
        lines.append(":v1:one")
        current["v1"] = "one"
    n = d.pick(sorted(current))
    undefined = d.chance(1)
    op = d.pick(["==", "!="])
    value = current[n] if d.chance(5) else d.pick(VALUES)
    if d.chance(1):
        value = value + d.pick(["x", "=", " x", " " if value else "x"])
    truth = (current[n] == value) == (op == "==")
    if undefined:
        n = d.pick(["undef", n + "x", "ns", n + ".", "." + n, n + "-", "+" + n, "-" + n, n.upper(), n.replace(".", ".."), n[:-1] or "x", n.replace("-", "_")])
        undefined = n not in current
        if not undefined:
            truth = (current[n] == value) == (op == "==")
    sp1, sp2, sp3 = d.pick([" ", "  "]), d.pick(["", " ", "  "]), d.pick(["", " ", "  "])
    kind = d.pick(sorted(NODES))
    written = value
    holders = [k for k in current if current[k] == value]
    if holders and d.chance(2):
        written = "{" + d.pick(sorted(holders)) + "}"
    cond = f"@if{sp1}{n}{sp2}{op}{sp3}{written}"
    pre = [d.pick(["", "// c", ". label", "[arg]"]) for _ in range(d.int(0, 2))]
    if kind in ("raw", "source", "image", "include", "mau", "rawfile"):
        pre = [p for p in pre if p != "[arg]"]
    node = NODES[kind]
    i = d.int(0, len(pre))
    host = d.pick(["top", "top", "block"])
    guarded = "\n".join(pre[:i] + [cond] + pre[i:] + [node])
    without = "\n".join(pre + [node])
    head = "\n".join(lines)
    tail = d.pick(["", "\nafter\n", "\n= after", "\n# after\n", "\n[footnote](n)\n\n[footnote=n]\n====\nx\n====", "\n[header](h)\n\n[name=h]\n= H", "\n[x]\nafter"])

    def make(middle):
        if host == "block":
            middle = "++++\n" + middle + "\n++++"
        return head + "\n\n" + middle + "\n" + tail

    return {"env": env, "guarded": make(guarded), "reference": make(without if truth else ""), "undefined": undefined, "truth": truth, "kind": kind, "files": {"f.mau": "kept", "f.txt": "kept"},
            "cond": cond, "name": n}


def check_block(case):
    one = run_case({"text": case["guarded"], "env": case["env"], "files": case["files"]})
    if case["undefined"]:
        if one.ok:
            raise Violation(f"a condition on an undefined variable is accepted: {case['cond']}")
        if case["name"] not in sut.error_text(one):
            raise Violation(f"the error does not name the variable {case['name']}: {sut.error_text(one)}")
        return True, ["undefined"]
    two = run_case({"text": case["reference"], "env": case["env"], "files": case["files"]})
    for what, out in (("with the condition", one), ("without it", two)):
        if not out.ok:
            raise Violation(f"a valid document {what} is rejected: {sut.error_text(out)}")
    a, b = got_content(two) or [], got_content(one) or []
    sut.require_equal(a, b, f"condition {case['cond']!r} ({case['truth']}) on {case['kind']}: result different from the text without "
                      + ("the condition" if case["truth"] else "the node"))
    return True, [case["kind"], str(case["truth"])]


# A whole document where a node of any content, valid or not, is guarded by a false condition.
WILD = ["{undef}", "[footnote](nope)", "[header](nope)", "[link]()", "= h", "[name=dup]", ". label", "* item", "# item", "text", "", "<< toc", "<< footnotes", ":v1:changed", ":+flag:",
        "<< mau:missing", "<< blockgroup:nope", "[a, b=c, d]", "@if undef==x", "[footnote=n1]", "[group=g, position=p]", "*a*", "[name=h1]", "[start=auto]", "[footnote=fn0]", "[name=h0]"]
DOCS = Cfg(max_nodes=4, attach=3, macros=("link", "footnote", "header"), inline_depth=1, cond=False)


@st.composite
def removed(draw):
    d = D(draw)
    doc, env = draw_doc(draw, DOCS)
    env = dict(env, guard="one")
    lines = list(doc.lines)
    body = [d.pick(WILD) for _ in range(d.int(0, 5))]
    args = d.pick(["", "isolate=false", "footnote=fn0", "footnote=zz", "group=g1, position=left", "engine=raw", "engine=source", "classes=x", "engine=nope"])
    cond = d.pick(["guard==two", "guard!=one"])
    chunk = ["", f"@if {cond}"] + ([f"[{args}]"] if args else []) + ["&&&&"] + body + ["&&&&", ""]
    if args and d.chance(5):
        chunk[1], chunk[2] = chunk[2], chunk[1]
    # Where a paragraph might be broken: the beginning or the end.
    at_end = d.chance(5)
    text = "\n".join(lines + chunk) if at_end else "\n".join(chunk + lines)
    case = doc_case(doc, env)
    return {"text": text, "env": env, "files": case["files"], "expected": case["expected"], "labels": case["labels"]}


def check_removed(case):
    out = accepted(case)
    sut.require_equal(case["expected"], got_content(out), "an excluded node changes the rest of the document")
    return case["expected"] is not None, case["labels"]


# Inline conditions.


def inline(d):
    special = ["a:b", "http://x.y/z?q=1&r", "été", "a,b", "x=y", "==", "!=x", ":", "::", "#a", "@a", "-1", "a;b", "<b>", "it's", "|", "1.5", "", "OTHER", "日本"]
    env = {"v1": d.pick(["one", "two", "42"] + special), "ns.x": d.pick(["one", "two"]), "a+b": d.pick(["one", "two"]), "X.a-9": d.pick(["one", "two"]), "t": "alpha", "f": "beta", "rich": "*gamma* x"}
    op_name = d.pick(["if", "if", "if", "ifeval"])
    n = d.pick(["v1", "v1", "ns.x", "ns.x", "a+b", "X.a-9"])
    op = d.pick(["==", "!="])
    value = env[n] if d.chance(5) else d.pick(["one", "two", "42", "other"] + special)
    truth = (env[n] == value) == (op == "==")
    if op_name == "if":
        pool = ["plain", "two words", "x *bold*", "`verb`", "_a_ b", "[unicode](41)", "a, b", "(x)"]
        tc = d.pick(pool)
        fc = d.pick(pool) if d.chance(7) else None
        chosen = tc if truth else (fc or "")
    else:
        tc = d.pick(["t", "f", "rich", "v1"])
        fc = d.pick(["t", "f", "rich"]) if d.chance(7) else None
        chosen = env[tc] if truth else (env[fc] if fc else None)

    def w(x):
        return '"' + x + '"' if any(c in x for c in ",()") or d.chance(4) else x

    pos = d.chance(7)
    parts = [w(tc) if pos else "true_case=" + w(tc)]
    if fc is not None:
        parts.append(w(fc) if pos and d.chance(7) else "false_case=" + w(fc))
    kind = d.weighted([(9, "valid"), (1, "undefined"), (1, "no-case"), (1, "undefined-eval")])
    name = n
    if kind == "undefined":
        name = d.pick(["undef", "ns", "v1x"])
    elif kind == "no-case":
        parts = []
    elif kind == "undefined-eval":
        if op_name != "ifeval":
            kind = "valid"
        else:
            parts = ["nope", "nope2"]
    before, after = d.pick([("W ", " Z"), ("W", "Z"), ("W ", ""), ("*a* ", " *b*"), ("W", "")])
    macro = f"[{op_name}:{name}{op}{value}]({', '.join(parts)})"
    host = d.pick(["{}", "= {}", "* {}", ". {}\ntext", "----\n{}\n----", "a\n{}\nb", "W [link](t, \"x [if:v1==one](a,b) y\") {}"])
    if kind == "valid" and chosen is None:
        kind = "eval-missing"
    return {"text": host.replace("{}", before + macro + after), "reference": host.replace("{}", before + (chosen or "") + after), "env": env, "kind": kind, "macro": macro, "truth": truth, "op": op_name}


def merge(x):
    """Adjacent text nodes as one, without the spaces at the end of the whole text."""
    if isinstance(x, dict):
        return {k: merge(v) for k, v in x.items()}
    if isinstance(x, list):
        out = []
        for i in map(merge, x):
            if out and isinstance(i, dict) and i.get("_type") == "text" and isinstance(out[-1], dict) and out[-1].get("_type") == "text":
                out[-1] = dict(out[-1], value=out[-1]["value"] + i["value"])
            else:
                out.append(i)
        return out
    return x


def check_inline(case):
    out = run_case(case)
    if case["kind"] != "valid":
        if out.ok:
            raise Violation(f"{case['kind']}: {case['macro']} is accepted and gives {sut.brief(got_content(out))}")
        return True, [case["kind"]]
    ref = accepted({"text": case["reference"], "env": case["env"]})
    if not out.ok:
        raise Violation(f"{case['macro']} is rejected: {sut.error_text(out)}")
    a, b = merge(got_content(ref)), merge(got_content(out))
    sut.require_equal(strip_end(a), strip_end(b), f"{case['macro']} differs from the text of its case")
    return True, [case["op"], str(case["truth"])]


def strip_end(x):
    """Text that ends with spaces: the spaces may come from next to a macro without result."""
    if isinstance(x, dict):
        if x.get("_type") == "text":
            return dict(x, value=" ".join(x["value"].split(" ")).rstrip(" "))
        return {k: strip_end(v) for k, v in x.items() if k != "internal_id"}
    if isinstance(x, list):
        return [strip_end(i) for i in x]
    return x


CFG = Cfg(max_nodes=8, attach=4, cond=True, noise=3, macros=("if", "ifeval", "link", "footnote", "header"), inline_depth=1,
          weights={"paragraph": 6, "header": 3, "list": 4, "block": 3, "hr": 2, "raw": 1, "source": 1, "image": 1, "include": 1, "toc": 1, "footnotes": 1, "footnote": 1,
                   "group": 1, "blockgroup": 1, "vardef": 5, "excluded": 8})

ARMS = [
    Arm("block", composite(block_condition), check_block, 3500, rule="a guarded node of each kind compared with the text without condition or without node; undefined variables"),
    Arm("inline", composite(inline), check_inline, 2500, rule="inline if and ifeval in every place compared with the text of the case; missing cases and undefined variables"),
    Arm("removed", removed, check_removed, 800, rule="a document of the model plus an excluded block with arbitrary content; non-trivial: the document is not empty"),
    doc_arm("documents", CFG, 600, ["cond-True", "cond-False", "excluded-wild", "if-True", "if-False", "ifeval-True", "ifeval-False"], "documents of the model with conditions and excluded nodes"),
]
ASSUMPTIONS = ["labels and arguments of excluded nodes do not mention undefined names (known finding)", "the condition of an inline macro has no special characters (known finding for underscores)"]


def probe(case):
    """For known findings: the two texts must be equivalent."""
    check_inline(case)
