"""C23: Jinja output is the composition of the templates over the node tree."""

import os
import shutil
import sys
import tempfile

import jinja2

from mau.environment.environment import Environment
from mau.visitors.jinja_visitor import JinjaVisitor

from ..arms import Arm, Cfg, D, Violation, composite, doc_case, draw_doc, st, sut
from .c22 import TYPES

# Composition ------------------------------------------------------------

FIELDS = ["_type", "args", "kwargs", "tags", "internal_tags", "subtype", "_context", "parent", "value", "style", "level", "internal_id", "name", "classes", "target", "uri", "alt_text", "width", "height", "target_name", "header",
          "public_id", "footnote", "footnotes", "entries", "plain_entries", "nested_entries", "position", "block_data", "block", "items", "ctype", "ordered", "main_node", "start", "line_number", "line_content", "highlight_style", "marker",
          "language", "role", "labels", "content"]
JOIN = {"document": "\n", "source": "\n", "paragraph": " "}
DATA = {("macro-header", "header"), ("toc-item", "header"), ("macro-footnote", "footnote"), ("footnotes-item", "footnote"), ("blockgroup-item", "block_data")}
# Children that are nodes even when there is none.
NODES = {("source-line", "marker"), ("blockgroup-item", "block")}


def bodies(d):
    """A template for each type. Some print everything, some only what has children."""
    out = {}
    for t in TYPES:
        kind = d.weighted([(5, "all"), (3, "some"), (1, "bare")])
        if kind == "bare":
            # The output of a node might be empty.
            out[t] = d.pick(["", "{{ content }}", "{{ line_content }}{{ value if value != 'a' }}{{ content }}"])
            continue
        fields = FIELDS if kind == "all" else [f for f in FIELDS if f in ("value", "content", "labels", "items", "nested_entries", "entries", "footnotes", "marker", "block", "header", "footnote") or d.chance(2)]
        if kind == "some" and d.chance(3):
            fields = list(reversed(fields))
        sep = d.pick(["|", ",", "/"])
        body = sep.join("{{ " + f + " }}" for f in fields)
        if d.chance(3):
            body += "{{ config.site.title }}{{ config.site.deep.x }}"
        if t == "document" and d.chance(5):
            body += "{{ config | tojson }}"
        if d.chance(2):
            body += "{% for k in kwargs %}{{ k }}={{ kwargs[k] }};{% endfor %}"
        out[t] = f"<{t}>{body}</{t}>"
    return out


@st.composite
def composition(draw):
    d = D(draw)
    doc, env = draw_doc(draw, Cfg(max_nodes=6, attach=4, inline_depth=2))
    case = doc_case(doc, env)
    case.pop("expected")
    join = {}
    if d.chance(3):
        join = {"block": "+", "header": "-", "list": "\n\n", "raw": "\n"}
        if d.chance(5):
            join = {t: d.pick(["", "", " ", "+", "\n"]) for t in ["document", "paragraph", "source", "block", "header", "list", "list-item", "paragraph-line", "toc", "footnotes", "blockgroup", "raw", "label", "style"] if d.chance(5)}
    case.update(templates=bodies(d), join=join, join_default=d.pick(["", "", ".", " | "] if join else ["", "", "", "."]), site={"title": d.pick(["T", "<t>", "x y"]), "deep": {"x": d.pick(["1", "v"])}})
    return case


class Renderer:
    """The reference: from the data of the base visitor to text."""

    def __init__(self, case, config):
        self.templates = {t: jinja2.Environment().from_string(b) for t, b in case["templates"].items()}
        self.join = {**JOIN, **case["join"]}
        self.default = case["join_default"]
        self.config = config

    def render(self, node):
        return self.templates[node["_type"]].render(config=self.config, **self.data(node))

    def data(self, node):
        kind = node["_type"]
        out = {}
        for k, v in node.items():
            if (kind, k) in DATA:
                out[k] = self.data(v) if v else {}
            elif (kind, k) in NODES:
                out[k] = self.render(v) if v else ""
            elif k in ("parent", "_context", "args", "kwargs", "tags", "internal_tags", "classes"):
                out[k] = v
            elif isinstance(v, list):
                out[k] = self.join.get(kind, self.default).join(self.render(x) for x in v)
            elif isinstance(v, dict):
                out[k] = {a: self.render(b) for a, b in v.items()}
            else:
                out[k] = v
        return out


def nested(flat):
    """The configuration, from its dotted names."""
    out = {}
    for name, value in flat.items():
        *parents, last = name.split(".")
        x = out
        for p in parents:
            if not isinstance(x.get(p), dict):
                x[p] = {}
            x = x[p]
        x[last] = value
    return out


def check_composition(case):
    class Visitor(JinjaVisitor):
        pass

    if case["join"]:
        Visitor.join_with = {**JinjaVisitor.join_with, **case["join"]}
    if case["join_default"]:
        Visitor.join_with_default = case["join_default"]
    templates = {"mau.visitor.templates.custom": {t + ".j2": b for t, b in case["templates"].items()}, "site": case["site"]}
    env = {**case["env"], **templates}
    with sut.files_in_cwd(case["files"]):
        base = sut.process(case["text"], {**env})
        out = sut.process(case["text"], {**env}, visitor=Visitor)
    for o in (base, out):
        if not o.ok:
            raise Violation(f"a valid document is rejected: {sut.error_text(o)}")
    ref = Renderer(case, nested(out.environment.asflatdict()))
    want = ref.render(base.result) if base.result else ""
    if out.result != want:
        raise Violation(f"the output differs from the composition: {first_difference(want, out.result)}")
    if base.result:
        # The table of contents of the document is rendered in the same way.
        with sut.limited():
            toc = base.parser.output.toc
            data = sut.BaseVisitor(sut.Handler(), base.environment).visit(toc)
            got = Visitor(sut.Handler(), out.environment).visit(out.parser.output.toc)
        if got != ref.render(data):
            raise Violation(f"the table of contents differs from the composition: {first_difference(ref.render(data), got)}")
    return bool(base.result), case["labels"]


def first_difference(a, b):
    if not isinstance(b, str):
        return f"expected {a[:200]!r}, got {b!r}"
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"expected ...{a[max(0, n - 60):n + 100]!r}, got ...{b[max(0, n - 60):n + 100]!r}"


# Sources of templates ---------------------------------------------------

PLUGINS = {}


def plugins():
    """Install template providers, as a package with entry points would."""
    if "verif_templates" in sys.modules:
        return sys.modules["verif_templates"]
    folder = tempfile.mkdtemp(prefix="plugins-", dir=os.getcwd())
    with open(os.path.join(folder, "verif_templates.py"), "w") as f:
        f.write("class A:\n    templates = {}\nclass B:\n    templates = {}\nclass C:\n    templates = {}\n")
    dist = os.path.join(folder, "verif_templates-1.0.dist-info")
    os.makedirs(dist)
    with open(os.path.join(dist, "METADATA"), "w") as f:
        f.write("Metadata-Version: 2.1\nName: verif-templates\nVersion: 1.0\n")
    with open(os.path.join(dist, "entry_points.txt"), "w") as f:
        f.write("[mau.templates]\nprov:A = verif_templates:A\nprov:B = verif_templates:B\nother = verif_templates:C\n")
    sys.path.append(folder)
    import verif_templates

    return verif_templates


NAMES = ["document", "paragraph", "paragraph-line", "text", "style", "style.style__star", "text.pt_style", "paragraph.sub", "paragraph.tg_t1", "paragraph.sub.tg_t1", "header", "document.pf_p1", "paragraph.pf_p1", "text.pf_p1"]
NEEDED = ["document", "paragraph", "paragraph-line", "text", "style", "header"]
TEXT = "word *bold* word\n\n[*sub]\nword\n\n[#t1]\nword\n\n[*sub, #t1]\nword\n\n= word"
SOURCES = ["default", "A", "B", "C", "dir0", "dir1", "dir2", "custom"]


def sources(d):
    contents = {s: [n for n in NAMES if d.chance(4)] for s in SOURCES}
    for n in NEEDED:
        contents[d.pick(SOURCES)].append(n)
    providers = [s for s in "ABC" if d.chance(6)]
    dirs = [s for s in ("dir0", "dir1", "dir2") if d.chance(6)]
    for x in (providers, dirs):
        if d.chance(4):
            x.reverse()
    return {"contents": {k: sorted(set(v)) for k, v in contents.items()}, "providers": providers, "dirs": dirs, "default": d.chance(6), "custom": d.chance(6), "split": d.chance(5), "absolute": d.chance(3),
            "prefixes": d.chance(4), "extension": d.pick([".j2", ".j2", ".html"]), "preprocess": d.chance(2), "missing": d.chance(1), "unknown": d.chance(1), "noise": [x for x in SOURCES if d.chance(2)]}


def body(source, name):
    kind = name.split(".")[0]
    return f"[{source}:{name}]" + ("{{ value }}" if kind == "text" else "{{ content }}")


def expected(case):
    table = {}
    use = (["default"] if case["default"] else []) + case["providers"] + case["dirs"] + (["custom"] if case["custom"] else [])
    for s in use:
        for n in case["contents"][s]:
            table[n] = s

    def one(names):
        """The first available."""
        names = ([n + ".pf_p1" for n in names] if case["prefixes"] else []) + names
        for n in names:
            if n in table:
                return f"[{table[n]}:{n}]"
        return None

    def para(names, content):
        return [one(names), one(["paragraph-line"])] + content

    def text(names=("text",)):
        return [one(list(names)), "word"]

    parts = [one(["document"])]
    parts += para(["paragraph"], [one(["text"]), "word ", one(["style.style__star", "style"]), one(["text.pt_style", "text"]), "bold", one(["text"]), " word"]) + ["\n"]
    parts += para(["paragraph.sub", "paragraph"], text()) + ["\n"]
    parts += para(["paragraph.tg_t1", "paragraph"], text()) + ["\n"]
    parts += para(["paragraph.sub.tg_t1", "paragraph.sub", "paragraph.tg_t1", "paragraph"], text()) + ["\n"]
    parts += [one(["header"])] + text()
    if any(p is None for p in parts):
        return None
    return "".join(parts)


def check_sources(case):
    module = plugins()
    ext = case["extension"]

    def named(source):
        flat = {n: body(source, n) for n in case["contents"][source]}
        # Names without the extension are not templates.
        noise = {"paragraph.pt_document": "no template", "header.pt_document.j3": "no template"} if source in case["noise"] else {}
        if case["split"] and source in "ABC":
            out = {}
            for n, b in flat.items():
                kind, _, rest = (n + ext).partition(".")
                out.setdefault(kind, {})[rest] = b
            return {**noise, **out}
        return {**noise, **{n + ext: b for n, b in flat.items()}}

    class Visitor(JinjaVisitor):
        extension = ext

    if case["default"]:
        Visitor.default_templates = Environment.from_dict(named("default"))
    if case["preprocess"]:
        Visitor.templates_preprocess = staticmethod(lambda text: text.replace("[", "[p-"))
    for p in "ABC":
        getattr(module, p).templates = named(p)
    made = []
    ids = {"A": "prov:A", "B": "prov:B", "C": "other"}
    env = {"mau.visitor.templates.providers": [ids[p] for p in case["providers"]] + (["prov:missing"] if case["unknown"] else [])}
    paths = []
    try:
        for folder in case["dirs"]:
            os.makedirs(folder, exist_ok=True)
            made.append(folder)
            for n in case["contents"][folder]:
                path = n + ext
                kind, _, rest = path.partition(".")
                if case["split"] and "." in n:
                    os.makedirs(os.path.join(folder, kind), exist_ok=True)
                    path = os.path.join(kind, rest)
                with open(os.path.join(folder, path), "w") as f:
                    f.write(body(folder, n))
            # Files with other extensions are not templates.
            with open(os.path.join(folder, "text.txt"), "w") as f:
                f.write("no template")
            with open(os.path.join(folder, "paragraph.j3"), "w") as f:
                f.write("no template")
            with open(os.path.join(folder, "image.png"), "wb") as f:
                f.write(b"\x89PNG\xff\xfe")
            paths.append(os.path.abspath(folder) if case["absolute"] else folder)
        if paths:
            env["mau.visitor.templates.paths"] = paths
        if case["custom"]:
            env["mau.visitor.templates.custom"] = named("custom")
        if case["prefixes"]:
            env["mau.visitor.templates.prefixes"] = ["p0", "p1"]
        if not env["mau.visitor.templates.providers"]:
            del env["mau.visitor.templates.providers"]
        out = sut.process(TEXT, env, visitor=Visitor)
    finally:
        for folder in made:
            shutil.rmtree(os.path.join(os.getcwd(), folder))
    want = expected(case)
    if case["preprocess"] and want:
        for folder in case["dirs"]:
            want = want.replace(f"[{folder}:", f"[p-{folder}:")
    if case["unknown"]:
        want = None
    if want is None:
        if out.ok:
            raise Violation(f"accepted without a template or with an unknown provider: {out.result!r}")
        return True, ["rejected"]
    if not out.ok:
        raise Violation(f"rejected: {sut.error_text(out)}")
    if out.result != want:
        raise Violation(f"sources {case['providers']}, {case['dirs']}: {first_difference(want, out.result)}")
    return True, ["rendered"]


ARMS = [
    Arm("composition", composition, check_composition, 300, rule="documents of the model with a template for each type, compared with a renderer of the data of the base visitor; non-trivial: not empty"),
    Arm("sources", composite(sources), check_sources, 1200, rule="the same names in the defaults of the visitor, three providers, three directories and the configuration, in any order"),
]
ASSUMPTIONS = ["single templates are rendered by Jinja itself, which is trusted"]
