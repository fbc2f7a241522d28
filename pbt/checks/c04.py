"""C04: tokens and nodes carry the exact position of their source text."""

import re

from .. import positions
from ..arms import Arm, Cfg, Violation, composite, doc_case, draw_doc, run_case, st, sut
from ..gen import D
from ..model import place, render_placed
from ..soup import env_soup, inline_soup, lines_soup, text_soup

# Tokens


def soup(d):
    text = text_soup(d, 12)
    return {"text": text, "env": env_soup(d), "files": {n: text_soup(d, 4) for n in ("f1.mau", "f2.mau", "f1.txt")} if "<<" in text else {}}


def sources(case):
    files = {k: v.split("\n") for k, v in case["files"].items()}
    files["main.mau"] = case["text"].split("\n")
    return files


def check_tokens(case):
    out = run_case(case)
    if out.lexer is None:
        return False, ["not lexed"]
    comments = positions.tokens(case["text"], out.lexer.tokens)
    labels = ["accepted" if out.ok else "rejected"] + (["comments"] if comments else [])
    if out.ok and not re.search(r"\r|\x00|\x0b|\x0c|\x85|\u2028", case["text"] + "".join(case["files"].values())):
        labels += sorted(positions.nodes(out.result, sources(case)))
    return len(out.lexer.tokens) > 2, labels


def chars(d):
    alphabet = "ab *_~^`[](){}\\\"',=:#@.<>!|/-+$% \n\n\n\té日😀"
    text = "".join(d.pick(alphabet) for _ in range(d.int(0, 60)))
    return {"text": text, "env": {}, "files": {}}


def lex(case):
    out = sut.Outcome()
    mau = sut.Mau(sut.Handler(), sut.make_env({}))
    with sut.limited():
        try:
            return mau.run_lexer(mau.init_text_buffer(case["text"], "main.mau"))
        except sut.MauException:
            return None
        except Exception as exc:
            raise Violation(f"lexing raised {sut.describe(exc)}") from exc
    return out


def check_lexer(case):
    lexer = lex(case)
    if lexer is None:
        return False, ["rejected"]
    positions.tokens(case["text"], lexer.tokens)
    return len(lexer.tokens) > 2, []


# Documents of the model: lines of all the nodes, and columns.

DOCS = Cfg(max_nodes=7, depth=3, isolate=4)
STATIC = Cfg(max_nodes=7, depth=3, isolate=4, variables=False, cond=False)


@st.composite
def documents(draw):
    d = D(draw)
    doc, env = draw_doc(draw, DOCS if d.chance(5) else STATIC)
    case = doc_case(doc, env)
    place(doc.local.content)
    case["placed"] = render_placed(doc.local.content)
    del case["expected"]
    return case


def compare(want, got, path, seen):
    """The lines of nodes are as expected. False if the trees are different."""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return False
        at = want.get("_at")
        if "_type" in want:
            if got.get("_type") != want["_type"]:
                return False
            path = f"{path}/{want['_type']}"
            if at and want["_type"] not in positions.UNPLACED:
                c = got["_context"]
                have = [c["source"], c["start_line"], c["end_line"]]
                if have != at:
                    raise Violation(f"{path}: it is on lines {at[1]}-{at[2]} of {at[0]!r}, but declares {c}")
                seen[want["_type"]] = seen.get(want["_type"], 0) + 1
        return all(compare(v, got.get(k), path, seen) for k, v in want.items() if k != "_at")
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(compare(a, b, path, seen) for a, b in zip(want, got))
    return True


def check_documents(case):
    out = run_case(case)
    if not out.ok:
        return False, ["rejected"]  # decided by other properties
    positions.tokens(case["text"], out.lexer.tokens)
    seen = {}
    same = compare(case["placed"] or [], out.result.get("content", []) if out.result else [], "", seen)
    if not same:
        return False, ["differs"]
    seen2 = positions.nodes(out.result, sources(case))
    return sum(seen.values()) > 2, sorted(set(seen) | {k for k in seen2 if k in ("braces", "multi-line", "escaped argument", "if")})


# Nodes move with the text.


def unused(d, text):
    lines = text.split("\n")
    free = [x for x in ("----", "====", "++++", "^^^^", "éééé", "0000") if x not in lines]
    return d.pick(free or [x for x in (c * 4 for c in "123456789abcdefghijklm") if x not in lines])


def layout(d, text):
    """(text with lines before, and in blocks; lines before it)."""
    shift = 0
    for _ in range(d.int(0, 3)):
        delim = unused(d, text)
        args = d.pick([None, "[a]", "[isolate=false]", "[#t, k=v]"])
        before = ([args] if args else []) + [delim]
        before = [d.pick(["", "// c", " "]) for _ in range(d.int(0, 3))] + before
        shift += len(before)
        text = "\n".join(before + [text, delim] + ["" for _ in range(d.int(0, 2))])
    before = [d.pick(["", "// comment", "    ", ":other:value", "////\n = x\n////"]) for _ in range(d.int(0, 3))]
    text = "\n".join(before + [text])
    return text, shift + sum(b.count("\n") + 1 for b in before)


@st.composite
def moved(draw):
    d = D(draw)
    if d.chance(6):
        doc, env = draw_doc(draw, Cfg(max_nodes=4, depth=2))
        case = doc_case(doc, env)
        case = {"text": case["text"], "env": env, "files": case["files"]}
    else:
        case = soup(d)
        # It must not end inside a comment or a block.
    case["moved"], case["shift"] = layout(d, case["text"])
    case["file"] = d.pick([False, False, True])
    case["levels"] = 0
    return case


def strip(x, shift, name, source):
    """The data with lines moved back."""
    if isinstance(x, dict):
        if "start_line" in x and "end_column" in x:
            if x["source"] != name:
                return x
            return {**x, "start_line": x["start_line"] - shift, "end_line": x["end_line"] - shift, "source": source}
        return {k: strip(v, shift, name, source) for k, v in x.items() if k != "parent"}
    if isinstance(x, list):
        return [strip(i, shift, name, source) for i in x]
    return x


def innermost(content, text):
    return content


def check_moved(case):
    out = run_case(case)
    if not out.ok:
        return False, ["rejected"]
    want = strip(out.result.get("content", []) if out.result else [], 0, "main.mau", "main.mau")
    if case["file"]:
        files = {**case["files"], "whole.mau": case["moved"]}
        other = run_case({"text": "<< mau:whole.mau\n", "env": case["env"], "files": files})
        name = "whole.mau"
    else:
        other = run_case({"text": case["moved"], "env": case["env"], "files": case["files"]})
        name = "main.mau"
    if not other.ok:
        return False, ["cannot be moved"]
    got = strip(other.result.get("content", []) if other.result else [], case["shift"], name, "main.mau")
    # The blocks (and the inclusion) around the text are the first nodes.
    while got and not same(want, got) and isinstance(got[0].get("content"), list) and got[0]["_type"] in ("block", "include-mau"):
        got = got[0]["content"]
    if not same(want, got):
        return False, ["differs"]
    sut.require_equal(want, got, f"positions of {case['text']!r} change when it is moved by {case['shift']} lines")
    return bool(want), ["file" if case["file"] else "text"]


def same(a, b):
    return sut.canon(a) == sut.canon(b)


# Columns: the same inline text after prefixes of different widths.

HOSTS = [("", ""), ("= ", ""), ("==   ", ""), ("* ", ""), ("   ### ", ""), (".title ", "\n---"), (". ", "\n---"), ("word ", ""), ("*x* ", ""), ("`v` ", ""), ("[m](a, b=c) ", ""), ("\\* ", ""), ("$*$ ", ""), ("日 😀 ", ""), ("[link](a, \"b\") ", "")]


@st.composite
def columns(draw):
    d = D(draw)
    if d.chance(5):
        text = inline_soup(d, 8)
    else:
        from ..gen import Inline

        text = Inline(d, None, macros=("link", "class", "image", "custom", "unicode", "raw", "mailto"), variables=False, depth=2).sentence(2)[0]
    text = re.sub(r"[\r\n\x00\x0b\u2028{}]|\[if[^)]*\)?|\[(header|footnote)\]\([^)]*\)?", "", text)
    return {"text": text, "host": d.int(0, len(HOSTS) - 1)}


def spans(x, width):
    out = []

    def visit(n):
        if isinstance(n, dict) and "_type" in n:
            c = n["_context"]
            out.append((n["_type"], n.get("value"), c["start_column"] - width, c["end_column"] - width))
            for k, v in n.items():
                if k != "parent":
                    visit(v)
        elif isinstance(n, list):
            for i in n:
                visit(i)

    visit(x)
    return out


def check_columns(case):
    # The first word is the end of the prefix: the text is the same.
    text = "W[z]()" + case["text"]
    plain = run_case({"text": text, "env": {}, "files": {}})
    prefix, suffix = HOSTS[case["host"]]
    other = run_case({"text": prefix + text + suffix, "env": {}, "files": {}})
    if not plain.ok or not other.ok:
        return False, ["rejected"]
    a = plain.result.get("content", [])
    b = other.result.get("content", [])
    if len(a) != 1 or len(b) != 1 or a[0]["_type"] != "paragraph":
        return False, ["differs"]
    a = a[0]["content"][0]["content"]
    node = b[0]
    if node["_type"] == "paragraph":
        b = node["content"][0]["content"]
    elif node["_type"] == "list":
        b = node["content"][0]["content"]
    elif node["_type"] == "horizontal-rule":
        b = node["labels"].get("title", {}).get("content", [])
    else:
        b = node.get("content", [])

    def after(nodes):
        for i, n in enumerate(nodes):
            if n["_type"] == "macro" and n.get("name") == "z":
                return nodes[i:]
        return None

    a, b = after(a), after(b)
    if a is None or b is None or not same(a, b):
        return False, ["differs"]
    sut.require_equal(list(map(list, spans(a, 0))), list(map(list, spans(b, len(prefix)))), f"columns of {text!r} after {prefix!r}")
    return len(a) > 1, [prefix or "none"]


ARMS = [
    Arm("lexer", composite(chars), check_lexer, 2500, 60000, rule="characters of the syntax in any order: positions, order and coverage of the tokens; non-trivial: at least 3 tokens"),
    Arm("soup", composite(soup), check_tokens, 4000, rule="mixtures of constructs: tokens, and nodes against the source when accepted; non-trivial: at least 3 tokens"),
    Arm("documents", documents, check_documents, 1000, rule="documents of the model with nested blocks and included files: lines of all nodes as generated, columns against the source; non-trivial: at least 3 nodes placed"),
    Arm("moved", moved, check_moved, 1500, rule="the same text with lines before, in up to 3 blocks, or in an included file: positions move exactly; non-trivial: it has content"),
    Arm("columns", columns, check_columns, 4000, rule="the same inline text in paragraphs, headers, items, labels and after other inline text: columns move exactly; non-trivial: it has nodes"),
]
