"""The reference model: abstract nodes and the data a visitor must give for them.

This is written from the syntax reference and the observed behaviour of the
project, not from its code: documents are generated as trees (see gen.py), so
nothing is parsed here. The model only knows what the rendered data of a tree
is, and how references inside a scope are resolved.
"""

import hashlib
import re


class MN:
    """An abstract node."""

    __slots__ = ("type", "args", "kwargs", "tags", "itags", "subtype", "f", "surf", "span", "extra")

    def __init__(self, type_, args=None, surf=None, **fields):
        self.type = type_
        self.args = []
        self.kwargs = {}
        self.tags = []
        self.itags = []
        self.subtype = None
        if args is not None:
            self.set_args(args)
        self.f = fields
        self.surf = surf  # the source text of the node
        self.span = None  # (first line, last line) for block level nodes
        self.extra = {}

    def set_args(self, a):
        self.args = list(a["args"])
        self.kwargs = dict(a["kwargs"])
        self.tags = list(a["tags"])
        self.itags = list(a["itags"])
        self.subtype = a["subtype"]

    def base(self):
        data = self._base()
        if _placed[0] and "at" in self.extra:
            data["_at"] = list(self.extra["at"])
        return data

    def _base(self):
        return {
            "_type": self.type,
            "args": list(self.args),
            "kwargs": dict(self.kwargs),
            "tags": list(self.tags),
            "internal_tags": list(self.itags),
            "subtype": self.subtype,
        }


def no_args():
    return {"args": [], "kwargs": {}, "tags": [], "itags": [], "subtype": None}


class TooLarge(Exception):
    """The rendered data of a document is beyond the size considered."""


MAX_RENDERED = 20000
_budget = [MAX_RENDERED]
_placed = [False]  # whether to show where each node is


# The content of these nodes is not on the line of the node.
CONTAINERS = ("include-mau", "footnote", "toc", "footnotes", "blockgroup", "block", "raw", "source", "list", "paragraph")


def place(x, at=None, seen=None):
    """Assign (file, first line, last line) to each node, from the lines that
    the generator recorded. The content of a node without a record is on its line."""
    seen = set() if seen is None else seen
    if isinstance(x, list):
        for i in x:
            place(i, at, seen)
        return
    if isinstance(x, dict):
        return place(list(x.values()), at, seen)
    if not isinstance(x, MN) or id(x) in seen:
        return
    seen.add(id(x))
    if "line" in x.extra:
        doc = x.extra["doc"]
        base = 0
        file = doc.file
        while doc is not None and doc.file == file:
            base += doc.offset
            doc = doc.parent
        first, last = x.extra["line"]
        at = (file, first + base, last + base)
    elif x.type in CONTAINERS:
        at = None
    if at is not None:
        x.extra["at"] = at
    inner = None if x.type in CONTAINERS else at
    for k, v in x.f.items():
        if k == "content" and x.type == "macro-header" and x.f.get("header") is not None and v is x.f["header"].f["content"]:
            continue
        place(v, inner, seen)
    if x.type == "list" and "at" not in x.extra:
        lines = [n.extra["at"] for n in x.f["content"]]
        x.extra["at"] = (lines[0][0], lines[0][1], lines[-1][2])


def render_placed(content):
    """The data of a document, with the place of each node."""
    _placed[0] = True
    try:
        return render_document(content)
    finally:
        _placed[0] = False


def render_document(content):
    """The data of a whole document. References can make it exponentially
    large, in the model as in the code."""
    _budget[0] = MAX_RENDERED
    return render(content)


def render(x, linked=(), active=()):
    """The data of a node (or list, dict of nodes) without positions and parents.

    linked: headers reached through links; active: footnotes being shown. A
    header reached again through its own links is not shown again, a footnote
    shown inside itself has no content."""
    if isinstance(x, MN):
        _budget[0] -= 1
        if _budget[0] < 0:
            raise TooLarge
        data = x.base()
        if x.type == "footnote":
            for k, v in x.f.items():
                if k == "content" and any(x is n for n in active):
                    data[k] = []
                else:
                    data[k] = render(v, linked, active + (x,))
            return data
        for k, v in x.f.items():
            if x.type == "macro-header" and k == "header":
                if v is None or any(v is h for h in linked):
                    data[k] = {}
                else:
                    data[k] = render(v, linked + (v,), active)
            elif v is None and x.type == "macro-footnote":
                data[k] = {}
            elif x.type == "source-line" and k == "marker" and v is None:
                data[k] = {}
            else:
                data[k] = render(v, linked, active)
        return data
    if isinstance(x, list):
        return [render(i, linked, active) for i in x]
    if isinstance(x, dict):
        return {k: render(v, linked, active) for k, v in x.items()}
    return x


def merge_words(nodes):
    """Adjacent plain text is a single text node."""
    out = []
    for n in nodes:
        if n.type == "word":
            if out and out[-1].type == "word":
                prev = out[-1]
                w = MN("word", value=prev.f["value"] + n.f["value"])
                w.surf = (prev.surf or "") + (n.surf or "") if prev.surf is not None and n.surf is not None else None
                w.extra = dict(prev.extra)
                out[-1] = w
            else:
                out.append(n)
        else:
            out.append(n)
    res = []
    for n in out:
        if n.type == "word":
            t = MN("text", value=n.f["value"])
            t.surf = n.surf
            t.extra = n.extra
            res.append(t)
        else:
            res.append(n)
    return res


TEXT_VALUES = ("text", "word", "verbatim", "macro-unicode", "macro-raw", "value")


def plain_text(nodes):
    out = []
    for n in nodes:
        if n.type in TEXT_VALUES:
            out.append(n.f["value"])
        elif "content" in n.f:
            out.append(plain_text(n.f["content"]))
    return "".join(out)


def header_id(level, nodes):
    text = plain_text(nodes)
    slug = "".join(re.findall(r"[a-z0-9\-. ]+", text.lower()))
    slug = re.sub(r"[ _]+", "-", slug)
    digest = hashlib.md5(f"{level} {text}".encode("utf-8")).hexdigest()[:4]
    return f"{slug}-{digest}"


def nest(headers):
    """ToC entries: each header under the closest preceding one with a lower level."""
    roots = []
    stack = []  # (level, entries)
    for h in headers:
        item = MN("toc-item", header=h, entries=[])
        while stack and stack[-1][0] >= h.f["level"]:
            stack.pop()
        (stack[-1][1] if stack else roots).append(item)
        stack.append((h.f["level"], item.f["entries"]))
    return roots


class Scope:
    """What is shared by the content of a document, of an isolated block, or of an included file."""

    def __init__(self):
        self.headers = []
        self.named = {}
        self.links = []  # macro-header nodes
        self.tocs = []
        self.bodies = {}  # footnote name -> content
        self.mentions = []  # (macro node, name)
        self.notes = []  # footnotes nodes

    def finalise(self):
        footnotes = {}
        for number, (name, body) in enumerate(self.bodies.items(), start=1):
            footnotes[name] = MN("footnote", name=name, public_id=str(number), internal_id=name,
                                 content=body)
        for macro, name in self.mentions:
            macro.f["footnote"] = footnotes[name]
        for n in self.notes:
            n.f["footnotes"] = [MN("footnotes-item", footnote=f) for f in footnotes.values()]

        for h in self.headers:
            if h.f["internal_id"] is None:
                h.f["internal_id"] = header_id(h.f["level"], h.f["content"])
        for t in self.tocs:
            t.f["plain_entries"] = list(self.headers)
            t.f["nested_entries"] = nest(self.headers)

        for macro in self.links:
            header = self.named[macro.f["target_name"]]
            macro.f["header"] = header
            if not macro.f["content"]:
                macro.f["content"] = header.f["content"]


class Local:
    """What belongs to a single text (document, block or file), never shared."""

    def __init__(self):
        self.groups = {}
        self.group_nodes = []
        self.next_ordered = 1
        self.content = []

    def finalise(self):
        for n in self.group_nodes:
            n.f["items"] = {
                pos: MN("blockgroup-item", position=pos, block_data=b, block=b)
                for pos, b in self.groups[n.f["name"]].items()
            }
