"""C24: the output of the YAML visitor loads back to the data of the document."""

import yaml

from mau.visitors.yaml_visitor import YamlVisitor

from ..arms import Arm, Cfg, D, Violation, composite, doc_case, draw_doc, run_case, st, sut
from ..gen import quote_arg
from ..soup import env_soup, text_soup

# Texts that a YAML loader could take for something else, and characters that are special in YAML.
TRAPS = ["yes", "No", "null", "~", "true", "1", "-1", "1.5", "1e3", "1_000", "0x1F", "0o7", "017", ".inf", ".nan", "2001-01-01", "2001-01-01 10:00:00", "12:30:45", "=", "<<", "- a", "a: b", "a #b", "# c", "? x",
         ": x", "&a", "&a b", "*a", "!!str x", "!x", "|", ">", "|-", "'", '"', "''", "%YAML", "---", "...", "{a: b}", "[a]", "@x", "`x", "a\tb", "\ttab", " lead", "trail ", "  ", "\u00a0", "\u2028", "a\u2028b", "a\x85b", "\x85",
         "\x00", "a\x07", "\x1b[0m", "\x7f", "\ufeffbom", "\ufffe", "😀", "日本", "é", "a" * 100, "word " * 30, "x: 'y' \"z\"", "\\", "\\n", "a\\", "a\rb", "\r", "a\x0bb", "a\x0cb", "\x1c", "on: off", "?", "-", ".", "a:", ":", "NULL", "0b1", "+1", "1.", "190:20:30", "\u200b"]
CALLS = ("None", "True")


def line(s):
    """One line of text, as written between $ marks: no line breaks, markers escaped."""
    return s.replace("\n", " ")


def escaped(s):
    out = "".join("\\" + c if c in "\\~^_*[`$%{}" else c for c in s)
    return out


def arg(s):
    s = s.replace("{", "(").replace("}", ")")
    s = s.replace("\\", "/") or "v"
    return quote_arg(s if s[0] not in '#*@"' else "v" + s)


def build(d):
    """A document with the given strings in every place that accepts any characters."""
    used = []

    def trap():
        s = line(d.pick(TRAPS) if d.chance(8) else d.pick(TRAPS) + d.pick(TRAPS))
        used.append(s)
        return s

    lines = []
    for _ in range(d.int(1, 6)):
        kind = d.pick(["text", "args", "kwargs", "raw", "source", "label", "header", "list", "link", "verbatim", "include", "group", "footnote", "style", "class"])
        if kind == "text":
            lines += ["W" + escaped(trap()), ""]
        elif kind == "style":
            lines += ["W *" + escaped(trap()) + "*", ""]
        elif kind == "verbatim":
            lines += ["W `" + trap().replace("`", "'").replace("\\", "/") + "`", ""]
        elif kind == "args":
            lines += [f"[{arg(trap())}, {arg(trap())}, #t]", "text", ""]
        elif kind == "kwargs":
            k = trap()
            k = "".join(c for c in k if c not in '\\, "=\'#*@[]{}') or "k"
            lines += [f"[{k}={arg(trap())}]", "---"]
        elif kind == "raw":
            lines += ["[engine=raw]", "++++", trap(), "x", "++++", ""]
        elif kind == "source":
            lines += ["[@source]", "++++", trap() + ":" + "m:", trap(), "++++", ""]
        elif kind == "label":
            lines += [". W" + escaped(trap()), "---"]
        elif kind == "header":
            lines += ["= W" + escaped(trap())]
        elif kind == "list":
            lines += ["* W" + escaped(trap()), "# x", ""]
        elif kind == "link":
            lines += [f"W [link]({arg(''.join(c for c in trap() if c not in '()`'))})", ""]
        elif kind == "include":
            lines += [f"<< image:{arg(trap())}, {arg(trap())}", ""]
        elif kind == "group":
            g = arg(trap())
            lines += [f"[group=g{len(lines)}, position={g}]", "++++", "x", "++++", f"<< blockgroup:g{len(lines)}", ""]
        elif kind == "footnote":
            lines += [f"W [footnote](f{len(lines)})", "", f"[footnote=f{len(lines)}]", "++++", "W" + escaped(trap()), "++++", "<< footnotes", ""]
        elif kind == "class":
            lines += [f"[class](W, {arg(''.join(c for c in trap() if c not in '()`'))})", ""]
    return {"text": "\n".join(lines), "env": {}, "must": True}


def soup(d):
    return {"text": text_soup(d), "env": env_soup(d), "files": {"f1.mau": "included", "f1.txt": "raw"}, "must": False}


def strict(a, b, path="/"):
    """Equal, with the same types."""
    if type(a) is not type(b):
        raise Violation(f"at {path}: the data is {sut.brief(a)}, loaded {sut.brief(b)}")
    if isinstance(a, dict):
        if list(map(repr, sorted(a, key=repr))) != list(map(repr, sorted(b, key=repr))):
            raise Violation(f"at {path}: keys {sut.brief(sorted(a, key=repr))}, loaded {sut.brief(sorted(b, key=repr))}")
        for k in a:
            strict(a[k], b[k], f"{path}{k}/")
    elif isinstance(a, list):
        if len(a) != len(b):
            raise Violation(f"at {path}: {len(a)} elements, loaded {len(b)}")
        for i, (x, y) in enumerate(zip(a, b)):
            strict(x, y, f"{path}{i}/")
    elif a != b and not (a != a and b != b):
        raise Violation(f"at {path}: the data is {a!r}, loaded {b!r}")


class NoAliasLoader(yaml.SafeLoader):
    """The safe loader, which refuses anchors and aliases."""

    def compose_node(self, parent, index):
        event = self.peek_event()
        if isinstance(event, yaml.AliasEvent) or getattr(event, "anchor", None) is not None:
            raise Violation("the output has an anchor or an alias")
        return super().compose_node(parent, index)


def check_yaml(text, data, what):
    if not isinstance(text, str):
        raise Violation(f"{what}: the output is {sut.brief(text)}, not a string")
    try:
        loaded = yaml.load(text, Loader=NoAliasLoader)
    except yaml.YAMLError as exc:
        raise Violation(f"{what}: the output is not valid YAML: {exc}") from exc
    strict(data, loaded)


def check(case):
    with sut.files_in_cwd(case.get("files")):
        out = sut.process(case["text"], case["env"])
        if not out.ok:
            if case["must"]:
                raise Violation(f"a valid document is rejected: {sut.error_text(out)}")
            return False, ["rejected"]
        # The whole chain again, and the same document with the other visitor.
        again = sut.process(case["text"], case["env"], visitor=YamlVisitor)
    if not again.ok:
        raise Violation(f"rejected by the YAML visitor only: {sut.error_text(again)}")
    check_yaml(again.result, out.result, "document")
    with sut.limited():
        try:
            same = YamlVisitor(sut.Handler(), out.environment).process(out.parser.output.document)
            toc = YamlVisitor(sut.Handler(), out.environment).process(out.parser.output.toc)
            toc_data = sut.BaseVisitor(sut.Handler(), out.environment).process(out.parser.output.toc)
        except Violation:
            raise
        except Exception as exc:
            raise Violation(f"rendering raised {sut.describe(exc)}") from exc
    if same != again.result:  # otherwise it was just loaded
        check_yaml(same, out.result, "the same document")
    check_yaml(toc, toc_data, "table of contents")
    return out.result != {}, []


@st.composite
def documents(draw):
    doc, env = draw_doc(draw, Cfg(max_nodes=5, attach=5))
    return dict(doc_case(doc, env), must=True)


ARMS = [
    Arm("strings", composite(build), check, 1000, rule="strings special in YAML in every place of a document; non-trivial: the document is not empty"),
    Arm("documents", documents, check, 100, rule="documents of the model"),
    Arm("soup", composite(soup), check, 400, rule="arbitrary mixtures of syntax, when accepted"),
]
