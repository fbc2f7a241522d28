"""C01: any text is rendered or rejected with a Mau error, and processing ends."""

import re

from mau.visitors.jinja_visitor import JinjaVisitor
from mau.visitors.yaml_visitor import YamlVisitor

from ..arms import Arm, Cfg, D, Violation, composite, doc_case, draw_doc, st, sut
from ..soup import env_soup, text_soup

NODE_TYPES = ["document", "paragraph", "paragraph-line", "text", "style", "verbatim", "macro", "macro-link", "macro-class",
              "macro-header", "macro-footnote", "macro-image", "macro-unicode", "macro-raw", "header", "list", "list-item",
              "block", "raw", "raw-line", "source", "source-line", "source-marker", "horizontal-rule", "label", "toc",
              "toc-item", "footnote", "footnotes", "footnotes-item", "include", "include-image", "include-raw",
              "include-mau", "blockgroup", "blockgroup-item"]
TEMPLATES = {f"{t}.j2": "<" + t + ">{{ content }}{{ value }}" for t in NODE_TYPES}


def check(case):
    """Whatever the text, a result or a MauException with a message."""
    with sut.files_in_cwd(case["files"]):
        outs = []
        for visitor in case["visitors"]:
            env = dict(case["env"])
            cls = {"base": None, "yaml": YamlVisitor, "jinja": JinjaVisitor}[visitor]
            environment = sut.make_env(env)
            if visitor == "jinja":
                environment.dupdate({"mau.visitor.templates.custom": {k: v for k, v in TEMPLATES.items()}})
            kw = {"visitor": cls} if cls else {}
            out = sut.process(case["text"], environment=environment, **kw)
            outs.append(out)
            if not out.ok:
                message = getattr(out.error, "message", None)
                if not isinstance(getattr(message, "text", None), str) or not message.text.strip():
                    raise Violation(f"rejected without a message: {out.error!r}")
            elif visitor == "base":
                if not isinstance(out.result, dict):
                    raise Violation(f"the rendered result is {out.result!r}")
            elif not isinstance(out.result, (str, dict)):
                raise Violation(f"the rendered result is {out.result!r}")
    first = outs[0]
    labels = ["accepted" if first.ok else "rejected"]
    if not first.ok:
        labels.append("error: " + re.sub(r"'.*", "'...'", first.error.message.text, flags=re.S)[:40])
    return (first.ok and first.result != {}) or not first.ok, labels


def files(d):
    f = {}
    for name in ["f1.mau", "f2.mau", "main.mau"]:
        if d.chance(3):
            f[name] = text_soup(d, 4)
    if d.chance(2):
        f["f1.txt"] = text_soup(d, 3)
    return f


def visitors(d):
    return ["base"] + (["yaml"] if d.chance(2) else []) + (["jinja"] if d.chance(2) else [])


def config(d):
    """Options of the parser, valid and possibly empty."""
    env = {}
    if d.chance(2):
        env["mau.parser.aliases"] = d.pick([{}, {"nope": {}}, {"nope": {"args": {}}}, {"nope": {"names": []}}, {"nope": {"args": {"a": "x", "engine": "raw"}, "names": ["a", "b"], "subtype": "s"}},
                                            {"nope": {"args": {"engine": "source"}, "names": ["language"]}}, {"nope": {"subtype": "s"}, "other": {}}])
    if d.chance(2):
        env["mau.parser.source_highlight_style_aliases"] = d.pick([{}, {"x": "y"}, {"+": "y", "": "z"}])
    if d.chance(1):
        env["mau.visitor.templates.providers"] = d.pick([[], ["nope"]])
    if d.chance(1):
        env["mau.visitor.templates.custom"] = {}
    if d.chance(1):
        env["mau.visitor.templates.prefixes"] = d.pick([[], ["p"]])
    return env


def soup(d):
    text = text_soup(d)
    return {"text": text, "env": {**env_soup(d), **config(d)}, "files": files(d) if "<<" in text else {}, "visitors": visitors(d)}


ALPHABET = "ab *_~^`[](){}\\\"',=:#@.<>!|/-+$% \n\n\n\té日"


def chars(d):
    n = d.weighted([(4, 12), (3, 30), (2, 80)])
    out = []
    for _ in range(d.int(0, n)):
        c = d.pick(ALPHABET)
        out.append(c)
    return {"text": "".join(out), "env": env_soup(d), "files": {}, "visitors": ["base"]}


@st.composite
def unicode_text(draw):
    text = draw(st.text(alphabet=st.characters(codec="utf-8"), max_size=40))
    wrap = draw(st.sampled_from(["{}", "= {}", "* {}", "[{}]\ntext", "[link]({})", "`{}`", ":v:{}", ". {}\n\nx", "----\n{}\n----", "@if {}\nx",
                                 "<< {}", "<< custom:{}", "[engine=source]\n----\n{}\n----", "[if:{}](a,b)", "[{}](a)", "{{{}}}",
                                 "<< mau:{}", "<< raw:{}", ".{} x\ny"]))
    return {"text": wrap.format(text), "env": {"v": text[:5]} if text else {}, "files": {}, "visitors": ["base", "yaml"]}


def mutate(d, text):
    pieces = ["*", "_", "`", "\\", '"', "(", ")", "[", "]", "{", "}", "\n", "\n\n", " ", "=", ",", ":", "#", "@", "<", "/", "-", "----\n", "\n----", "////\n"]
    for _ in range(d.int(1, 4)):
        if not text:
            break
        op = d.pick(["delete", "insert", "truncate", "dup", "swap", "behead", "cutline"])
        i = d.int(0, len(text))
        j = min(len(text), i + d.int(1, 6))
        lines = text.split("\n")
        k = d.int(0, len(lines) - 1)
        if op == "delete":
            text = text[:i] + text[j:]
        elif op == "insert":
            text = text[:i] + d.pick(pieces) + text[i:]
        elif op == "truncate":
            text = text[:i]
        elif op == "behead":
            text = text[i:]
        elif op == "dup":
            lines.insert(k, lines[k])
            text = "\n".join(lines)
        elif op == "swap":
            m = d.int(0, len(lines) - 1)
            lines[k], lines[m] = lines[m], lines[k]
            text = "\n".join(lines)
        else:
            del lines[k]
            text = "\n".join(lines)
    return text


CFG = Cfg(max_nodes=5)


@st.composite
def mutated(draw):
    doc, env = draw_doc(draw, CFG)
    case = doc_case(doc, env)
    d = D(draw)
    files = dict(case["files"])
    if files and d.chance(3):
        k = d.pick(sorted(files))
        files[k] = mutate(d, files[k])
        text = case["text"]
    else:
        text = mutate(d, case["text"])
    if any(sum(line.count(c) for c in "*_~^") > 60 for line in text.split("\n")):
        text = text[:200]
    return {"text": text, "env": env, "files": files, "visitors": ["base"]}


def deep(d):
    """Deep but reasonable nesting."""
    kind = d.pick(["block", "style", "list", "macro", "include", "header", "isolate", "quotes", "long"])
    n = d.int(2, 40)
    files = {}
    if kind in ("block", "isolate"):
        n = d.int(2, 25)
        delims = [c * 4 for c in "-=#+~!@%&_<>;:?|$^'\"0123456789abcdefgh"][:n]
        text = ""
        for x in delims:
            text += ("[isolate=false]\n" if kind == "isolate" else "") + x + "\n"
        text += d.pick(["text", "= h", "[footnote](x)", "* a", ""]) + "\n"
        for x in reversed(delims):
            text += x + "\n"
    elif kind == "style":
        marks = [d.pick("*_~^")]
        while len(marks) < n:
            marks.append(d.pick([m for m in "*_~^" if m != marks[-1]]))
        # Well nested, so there is no backtracking.
        text = "".join(marks) + "x" + "".join(reversed(marks))
        if len(marks) > 40:
            text = "".join(marks[:40]) + "x" + "".join(reversed(marks[:40]))
    elif kind == "list":
        text = "\n".join(d.pick("*#") * (i + 1) + " item" for i in range(n)) + "\n"
        if d.chance(5):
            text += "\n".join("*" * i + " up" for i in range(n, 0, -1))
    elif kind == "macro":
        text = "[link](a, " * min(n, 6) + "x" + ")" * d.int(0, min(n, 6))
    elif kind == "include":
        n = d.int(2, 12)
        for i in range(n):
            files[f"f{i}.mau"] = f"level {i}\n\n<< mau:f{i + 1}.mau\n" if i + 1 < n else d.pick(["end", "<< mau:f0.mau", ""])
        text = "<< mau:f0.mau"
    elif kind == "header":
        text = "\n\n".join("=" * d.int(1, 60) + " h" for _ in range(n)) + "\n\n<< toc"
    elif kind == "quotes":
        text = '[link](' + '"' * n + ")" * d.int(0, 3)
    else:
        text = d.pick(["a ", "é", "`", "\\", "$", "{v1}", "(", "[", "a\n", "\n", "* x\n", "[a]\n", ". x\n", "// c\n", ":v1:a\n", "---\n"]) * d.int(50, 400)
    return {"text": text, "env": {"v1": "a"}, "files": files, "visitors": ["base", "yaml"]}


PUMP = [" ", "  ", " x", "x ", "a", "1", "0", ".", "..", ".a", "a.", "=", "#", "-", "/", "<", ">", "<<", "@", "!", ":", "::", ":a", "a:", "+", "[", "]", "(", ")", "{", "}", "[]", "()", "{}", "](", "{a}", "{v1}", "\\", "\\\\", '"', "'", ",", ", ", "a,", "a, ",
        ",,", "a=b,", "a=b, ", "=,", "#a,", "#a, ", "`", "`a`", "$", "$a$", "$a", "`a", "|", "&", "&&", "!=", "==", "a==b", "[link](a) ", "[link]", "[a](b", '"a",', '"a", ', "//", "\t", "é", "_x_ ", "*x* ", "\u00a0", "%", ";", "a\n", ". a\n",
        "* a\n", "  \n", "// a\n", "- ", "* ", "# "]
BEFORE = ["", "", "", " ", "x", "x ", "= ", "=", "* ", "*", "# ", ". ", ".a", ".", "[", '["', "[a=", "[#", "[*", "[@", ":v1:", ":", ":+", "@if ", "@if v1", "@if v1==", "@if v1 ", "<< ", "<<", "<< mau:", "<< mau:f1.mau, ", "<< raw:", "<< custom:", "<< custom:a=",
          "[link](", '[link]("', "[link](a, ", "[footnote](", "[if:v1==", "[if:v1==a](", "[if:", "[custom:", "[custom](a=", "`", "$", "{", "{v1", "\\", "---", "----", "----\n", "----\nx", "[engine=source]\n----\n", "[engine=source]\n----\ncode:", "[engine=source]\n----\ncode:@",
          "[engine=raw]\n----\n", "////\n", "//", "/", "text\n", "*x", "_", "~~", "'", '"', "![", "<", "-", "--"]
AFTER = ["", "", "x", " x", "x ", "\n", "!", ")", "](", "]", '"', '")', '"]', "]\ntext", "}", "`", ":", ":@:", ": x", "=", "==a", "\\", "*", "_", " *", "\n----", "\n////", "\ntext", "\n\ntext", ",", ", a=b", "/", "$", "é", ".", " ."]


def pump(d):
    """The same piece many times between two others: the time of backtracking grows quickly with the length."""
    text = ""
    for _ in range(d.weighted([(4, 1), (1, 2)])):
        n = d.weighted([(3, 33), (3, 60), (1, 150), (1, 7)]) + d.int(0, 7)
        a = d.pick(PUMP)
        if d.chance(2):
            a += d.pick(PUMP)
        middle = "".join(d.pick(["", a, d.pick(PUMP)]) for _ in range(n)) if d.chance(2) else a * n
        line = d.pick(BEFORE) + middle + d.pick(AFTER)
        text += line + d.pick(["\n", "\n\n", ""])
    # Open style markers are levels of nesting.
    lines = []
    for line in text.split("\n"):
        if sum(line.count(c) for c in "*_~^") > 60:
            seen = 0
            chars = []
            for c in line:
                seen += c in "*_~^"
                chars.append("x" if c in "*_~^" and seen > 60 else c)
            line = "".join(chars)
        lines.append(line)
    return {"text": "\n".join(lines), "env": {"v1": d.pick(["a", "a" * 40, " " * 40, "{v1}"])}, "files": {"f1.mau": "text", "f1.txt": "text"} if "<<" in text else {}, "visitors": ["base"]}


def references(d):
    """Headers and notes that mention each other, also in circles."""
    headers = [f"h{i}" for i in range(d.int(0, 4))]
    notes = [f"n{i}" for i in range(d.int(0 if headers else 1, 4))]

    def refs(n=1):
        out = []
        for _ in range(d.int(0, n)):
            if notes and d.chance(5):
                out.append(f"[footnote]({d.pick(notes)})")
            elif headers:
                name = d.pick(headers)
                out.append(f"[header]({name}" + d.pick([", x)", ")", ', "*x*")', ', "x `y`")']))
        return " ".join(out)

    parts = []
    for h in headers:
        label = f". L {refs()}\n" if d.chance(2) else ""
        parts.append(f"{label}[name={h}]\n{'=' * d.int(1, 3)} {h} {refs()}\n")
    for n in notes:
        shared = ", isolate=false" if d.chance(8) else ""
        parts.append(f"[footnote={n}{shared}]\n----\n{d.pick(['', '* ', '. '])}{n} {refs(2)}\n{d.pick(['', '---'])}\n----\n")
    parts += [f"text {refs(2)}\n" for _ in range(d.int(0, 2))]
    parts += [x + "\n" for x in ("<< toc", "<< footnotes") if d.chance(5)]
    for i in range(len(parts) - 1, 0, -1):
        j = d.int(0, i)
        parts[i], parts[j] = parts[j], parts[i]
    return {"text": "\n".join(parts), "env": {}, "files": {}, "visitors": d.pick([["base"], ["base", "yaml"], ["base", "jinja"]])}


# Arguments that have a meaning, and what uses them.
USED = [("start", "# a\n# b\n"), ("start", "* a\n## b\n"), ("name", "= H\n\n[header](h) [header]({})\n"), ("internal_id", "= H\n\n<< toc\n"), ("classes", "----\ntext\n----\n"),
        ("engine", "----\n text:1:\n----\n"), ("isolate", "----\n= H\n\n[footnote](f)\n----\n\n[footnote=f]\n----\ntext\n----\n"), ("footnote", "----\ntext\n----\n\nA [footnote]({}) b\n\n<< footnotes\n"),
        ("group=g, position", "----\ntext\n----\n\n[group=g]\n<< blockgroup\n"), ("position=p, group", "----\ntext\n----\n\n<< blockgroup:{}\n"), ("engine=source, language", "----\ncode\n----\n"),
        ("engine=source, marker_delimiter", "----\ncode\na:1:\nb|1|\nc|@|\nd||\ne:@x:\n----\n"), ("engine=source, highlight_marker", "----\ncode\na:1:\nb:@:\nc:@x:\nd:hh:\n----\n"),
        ("engine=source, highlight_default_style", "----\na:@:\n----\n"), ("uri", "<< image\n"), ("uri", "<< raw\n"), ("uri", "<< mau\n"), ("uri", "<< custom\n"), ("uri=a, alt_text", "<< image\n"), ("uri=a, classes", "<< image\n"),
        ("uri=f1.mau, pass_environment", "<< mau\n"), ("uri=f1.mau, call:v", "<< mau\n"), ("uri=f1.mau, call:", "<< mau\n"), ("tags", "<< toc\n"), ("", "<< footnotes\n"), ("", "---\n"), ("type", "text\n")]
MACROS = ["[link]({})", "[link](a, {})", "[link](target={})", "[mailto]({})", "[image]({})", "[image](a, {})", "[image](a, b, {}, {})", "[image](a, width={})", "[unicode]({})", "[unicode](1F30B, {})", "[raw]({})", "[class](a, {})", "[class]({}, a)", "[header]({}, a)",
          "[footnote]({})", "[custom]({}, k={})", "[if:v1=={}](a, b)", "[if:v1!={}](a)", "[ifeval:v1=={}](v1)", "[ifeval:v1=={}](a, v1)", "[control]({})"]
ODD = ["", " ", "0", "-0", "-1", "+5", "1_000", "1__0", "_1", " 7 ", "0x10", "1e3", "1.5", "inf", "nan", "\u00b2", "\u00bd", "\u0663", "\u2460", "\uff15", "\u4e00", "9" * 30, "9" * 5000, "00", "true", "False", "none", "None", "null", "auto", "AUTO", "default", "[", "]", "(", "\\", "'", '""', '" "', '"a', "a=b",
       "=", "*", "#", "@", "@a", "*x", "#x", ",", ",,", "a,b", "a, b", '"a,b"', '"a, b"', "::", ":", "|", "||", ".", "..", "*.*", ".*", "a|b", "(a", "a)", "[a", "a]", "{{", "{v1}", "{e}", "{s}", "\\{a\\}", "%s", "%", "{0}", "$1", "\\1", "\\g<0>", "../x", "/", ".", "~", "-", "--",
       "\u00e9", "\u200b", "\u00a0", "\u0301", "\U0001f600", "\t", "x" * 300, "D800", "110000", "1F30B", "U+1F30B", "FFFFFFFF", "zz", "10FFFF", "0", "DFFF"]


def values(d):
    """Every argument that has a meaning, with odd values of any kind."""
    parts, n = [], d.int(1, 3)
    for _ in range(n):
        value = d.pick(ODD)
        if d.chance(2):
            value = value + d.pick(ODD)
        if d.chance(5):
            name, text = d.pick(USED)
            if d.chance(8) and name:
                head = "[" + name + "=" + value + "]"
            elif d.chance(5):
                head = "[" + value + (", " + d.pick(ODD) if d.chance(3) else "") + "]"
            else:
                head = '[' + (name or "k") + '="' + value + '"]'
            parts.append(d.pick(["", "", "", ". label\n", "@if v1==" + value + "\n"]) + head + "\n" + text.replace("{}", value))
        else:
            parts.append("text " + d.pick(MACROS).replace("{}", value) + " after\n")
    env = {"v1": d.pick(ODD[:20] + ["a"]).replace("\t", " "), "e": "", "s": " "}
    return {"text": "\n".join(parts), "env": env, "files": {"f1.mau": "text {v}" if d.chance(2) else "text"}, "visitors": d.pick([["base"], ["base", "yaml"], ["base", "jinja"]])}


ARMS = [
    Arm("values", composite(values), check, 3000, rule="every argument that has a meaning with odd values (numbers of all kinds, other scripts, syntax); same rule"),
    Arm("soup", composite(soup), check, 6000, rule="lines mixed from pieces of syntax, valid or not; non-trivial: something was rendered or rejected"),
    Arm("chars", composite(chars), check, 5000, rule="strings over the special characters; same rule"),
    Arm("unicode", unicode_text, check, 2000, rule="arbitrary Unicode text inside each kind of construct; same rule"),
    Arm("mutated", mutated, check, 1200, rule="valid documents of the model after 1-4 random edits; same rule"),
    Arm("pump", composite(pump), check, 8000, rule="a piece of syntax repeated 7 to 157 times between two others; same rule"),
    Arm("references", composite(references), check, 1200, rule="headers and notes that mention each other and themselves in any graph; same rule"),
    Arm("deep", composite(deep), check, 600, rule="deep nesting of blocks, styles, lists, includes and long repetitions; same rule"),
]
ASSUMPTIONS = ["text is valid Unicode without lone surrogates", "nesting up to 40 levels (Python's recursion limit is a resource limit)",
               "at most 60 open style markers on a line (each is a level of nesting)"]
