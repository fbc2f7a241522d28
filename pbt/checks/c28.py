"""C28: parents of nodes, and copies."""

from ..arms import Arm, Cfg, D, Violation, accepted, composite, doc_strategy, run_case, st, sut, walk

BASE = ("_type", "args", "kwargs", "tags", "internal_tags", "subtype", "_context")

FULL = Cfg(max_nodes=8, weights=dict(paragraph=8, header=5, list=6, block=5, hr=2, raw=2, source=3, image=2, include=2,
                                     toc=2, footnotes=2, footnote=2, group=3, blockgroup=3, mau=2, rawfile=2,
                                     vardef=1, excluded=1), toc=True)


def base(x):
    return {k: x.get(k) for k in BASE}


NEVER = ("macro-footnote.footnote", "footnotes-item.footnote")  # a footnote is not shown in a single place
MACROS = ("macro-class", "macro-link", "macro-header")
REFERENCE = ("macro-header.header", "toc-item.header")  # shown also in its own place


class Walker:
    def __init__(self):
        self.labels = set()
        self.count = 0
        self.headers = []

    def rec(self, x, chain):
        """chain: [(node, key)] from the document."""
        if isinstance(x, dict) and "_type" in x:
            if chain:
                self.node(x, chain)
            for k, v in x.items():
                if k not in ("parent", "_context", "kwargs", "args", "tags", "internal_tags"):
                    self.rec(v, chain + [(x, k)])
        elif isinstance(x, dict):
            for v in x.values():
                self.rec(v, chain)
        elif isinstance(x, list):
            for v in x:
                self.rec(v, chain)

    def node(self, x, chain):
        container, key = chain[-1]
        where = f"{container['_type']}.{key}"
        parent = x.get("parent")
        if parent is None:
            raise Violation(f"{x['_type']} in {where} has no data about its parent")
        what = f"parent of the {x['_type']} in {where} at {x['_context']}"
        self.count += 1
        want = base(container)
        ctype = container["_type"]
        if where in NEVER:
            want = {}
        elif where == "source-line.marker" or (ctype in MACROS and key == "content"):
            if parent == {}:
                return
        elif where in REFERENCE:
            self.headers.append((x, what))
            return
        elif where == "paragraph-line.content":
            want = base(chain[-2][0])
        elif ctype in ("list", "list-item") and key == "content":
            i = len(chain) - 1
            while i > 0 and chain[i - 1][0]["_type"] in ("list", "list-item") and chain[i - 1][1] == "content":
                i -= 1
            want = base(chain[i][0])
            self.labels.add(f"list-depth-{min(len(chain) - i, 4)}")
        elif where == "toc-item.entries":
            i = len(chain) - 1
            while chain[i][0]["_type"] == "toc-item":
                i -= 1
            want = base(chain[i][0])
        elif where == "include-mau.content":
            if parent.get("_type") != "document" or parent["_context"]["source"] != x["_context"]["source"]:
                raise Violation(f"{what} is {sut.brief(parent)}, not the document of the file")
            return
        sut.require_equal(want, base(parent) if parent else {}, what)
        self.labels.add(where)


def check_parents(case):
    out = accepted(case)
    w = Walker()
    if out.result == {}:
        return False, []
    w.rec(out.result, [])
    # Headers shown in the table of contents or through links are those of the text.
    written = {}
    written_headers(out.result, written)
    for h, what in w.headers:
        pos = str(h["_context"])
        if pos not in written:
            continue  # in a block of a group, or in a footnote, that is not shown
        if h["parent"] not in written[pos]:
            raise Violation(f"{what} is {sut.brief(h['parent'])}, where the header is written it is {sut.brief(written[pos])}")
    return w.count > 3, sorted(w.labels)


def written_headers(x, res):
    """Parents of headers where these are written, not where they are mentioned."""
    if isinstance(x, dict) and "_type" in x:
        if x["_type"] == "header":
            res.setdefault(str(x["_context"]), []).append(x["parent"])
        for k, v in x.items():
            if f"{x['_type']}.{k}" not in REFERENCE + ("toc.plain_entries",) and k not in ("parent", "_context"):
                written_headers(v, res)
    elif isinstance(x, dict):
        for v in x.values():
            written_headers(v, res)
    elif isinstance(x, list):
        for v in x:
            written_headers(v, res)


# --------------------------------------------------------------------------
# Copies
# --------------------------------------------------------------------------


def is_node(x):
    from mau.nodes.node import Node

    return isinstance(x, Node)


LINKS = ("parent", "header", "footnote")  # references to other nodes, not parts of a node


def parts(node):
    """Nodes a node is made of."""
    for name, v in sorted(vars(node).items()):
        if name in LINKS:
            continue
        yield from values(v)


def values(v):
    if is_node(v):
        yield v
    elif isinstance(v, dict):
        for x in v.values():
            yield from values(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from values(x)


def tree(node, out=None):
    out = [] if out is None else out
    out.append(node)
    for p in parts(node):
        tree(p, out)
    return out


def show(node):
    """The data of a node, which shares nothing with the node (the lists of the arguments are those of the node)."""
    with sut.limited("rendering"):
        return frozen(sut.BaseVisitor(sut.Handler(), sut.make_env(None)).process(node))


def frozen(x):
    if isinstance(x, dict):
        return {k: frozen(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(map(frozen, x))
    return x


def change(node):
    """Change everything in a node, in place wherever this is possible. Returns the names of what was changed."""
    a = node.arguments
    a.unnamed_args.append("changed") if isinstance(a.unnamed_args, list) else None
    a.named_args["changed"] = "x"
    a.named_args.pop(next(iter(a.named_args)), None) if len(a.named_args) > 1 else None
    for seq in (a.tags, a.internal_tags):
        if isinstance(seq, list):
            seq.append("changed")
    a.subtype = "changed"
    try:
        node.info.context.source = "changed"
        node.info.context.start_position = (900, 900)
    except AttributeError:  # cannot be changed in place
        pass
    for name, v in sorted(vars(node).items()):
        if name in ("arguments", "info", "parent", "type"):
            continue
        if isinstance(v, list):
            if v and is_node(v[0]):
                v.reverse()
                v.append(v[0])
            else:
                v.append("changed")
        elif isinstance(v, dict):
            if v:
                k = next(iter(v))
                v["changed"] = v.pop(k)
        elif isinstance(v, str):
            setattr(node, name, v + "-changed")
        elif isinstance(v, bool):
            setattr(node, name, not v)
        elif isinstance(v, int):
            setattr(node, name, v + 7)
        elif name == "header" and is_node(v):
            setattr(node, name, None)


@st.composite
def copy_strategy(draw):
    case = draw(doc_strategy(FULL)())
    d = D(draw)
    case["pick"] = [d.int(0, 400) for _ in range(5)]
    case["reverse"] = d.chance(3)
    return case


EMPTY = ["[*s]\n. \n---\n", ".a \n= Header\n", ".a \n. \n.b text\n++++\ntext\n++++\n", "[engine=raw]\n++++\n++++\n", "[engine=source]\n++++\n++++\n", "++++\n++++\n", ".a \n[group=g, position=p]\n++++\n++++\n\n[group=g]\n<< blockgroup\n",
         "[group=g, position=\"\"]\n++++\n++++\n\n[group=g]\n. \n<< blockgroup\n", "[footnote=f]\n++++\n++++\n\nA [footnote](f) b\n\n. \n<< footnotes\n", ". \n<< toc\n", ".a \n<< footnotes\n", ". \n<< custom\n", "<< custom:\"\", a=\"\"\n", ".a \n* item\n** item\n\n",
         "[class](\"\") [link](\"\", \"\") [image](\"\", \"\", 0, 0)\n", "[class](text) `` ` ` [raw](\"\")\n", "[engine=source, marker_delimiter=|]\n++++\n|a|\n\n|@|\n++++\n", ".a \n<< image:a, \"\", \"\"\n", "[a=\"\", \"\"]\n. \ntext\n", "= Same\n\n= Same\n\n[tags=\"\"]\n<< toc\n"]


@st.composite
def empty_strategy(draw):
    """Nodes whose parts are empty."""
    d = D(draw)
    text = "\n".join(d.pick(EMPTY) for _ in range(d.int(1, 4)))
    return {"text": text, "env": {}, "files": {}, "pick": [d.int(0, 400) for _ in range(5)], "reverse": d.chance(3)}


def check_empty(case):
    if not run_case(case).ok:  # e.g. two footnotes of the same name
        return False, ["rejected"]
    return check_copies(case)


def check_copies(case):
    out = accepted(case)
    document = out.parser.output.document
    if document is None:
        return False, []
    nodes = tree(document)
    toc = out.parser.output.toc
    if toc is not None:
        nodes += tree(toc)
    # Footnotes are not shown in a single place, and can be copied as well.
    # One that mentions or lists itself renders in another way from its copy, that mentions the original.
    notes = {id(n.footnote): n.footnote for n in nodes if is_node(getattr(n, "footnote", None))}
    notes = {k: n for k, n in notes.items() if not {x.type for x in tree(n)} & {"macro-footnote", "footnotes", "macro-header", "toc"}}
    for note in notes.values():
        nodes += tree(note)
    labels = set()
    chosen = [document] + [nodes[p % len(nodes)] for p in case["pick"]] + list(notes.values())[:1]
    for node in chosen:
        before = show(node)
        whole = show(document)
        labels.add(node.type)
        with sut.limited("copying"):
            new = node.deepcopy(parent=node.parent)
            orphan = node.deepcopy()
        same_but_parents(before, show(new), f"a copy of a {node.type} differs")
        got = show(orphan)
        if got.get("parent") not in ({}, None):
            raise Violation(f"a copy of a {node.type} without a parent has the parent {sut.brief(got['parent'])}")
        same_but_parents(no_parents(before), no_parents(got), f"a copy of a {node.type} differs")
        old = {id(x) for x in tree(node)}
        for x in tree(new):
            if x is not new and id(x.parent) in old:
                raise Violation(f"in a copy of a {node.type} the parent of a {x.type} is a node of the original")
        shared = [x.type for x in tree(new) if id(x) in old]
        if shared:
            raise Violation(f"a copy of a {node.type} shares nodes with the original: {shared}")
        if case["reverse"]:
            # The copy must not be affected by changes of a copy of the original it was made from.
            changed, kept, kept_data = new, orphan, got
        else:
            changed, kept, kept_data = new, node, before
        for x in tree(changed):
            change(x)
        sut.require_equal(kept_data, show(kept), f"changing a copy of a {node.type} changed the original (or another copy)")
        sut.require_equal(whole, show(document), f"changing a copy of a {node.type} changed the document")
        if show_or_none(changed) == before:
            raise AssertionError("nothing was changed")
    return len(nodes) > 4, sorted(labels)


def show_or_none(node):
    try:
        return show(node)
    except Exception:
        return None


def same_but_parents(expected, got, what, container=None):
    """The same data. The parent of a node of a copy is either that of the
    original (as data) or the node that contains it: the copies of the lines of
    a paragraph and of items of a list are the parents of their text."""
    sut.require_equal(sut.canon(expected, ("parent",)), sut.canon(got, ("parent",)), what)
    both(expected, got, what, None)


def both(expected, got, what, container):
    if isinstance(got, dict) and "_type" in got:
        if container is not None and "parent" in got and got["parent"] not in (expected.get("parent"), base(container)):
            raise Violation(f"{what}: the parent of a {got['_type']} in a {container['_type']} is {sut.brief(got['parent'])}")
        for k in got:
            if k not in ("parent", "kwargs", "_context"):
                both(expected[k], got[k], what, got)
    elif isinstance(got, dict):
        for k in got:
            both(expected[k], got[k], what, container)
    elif isinstance(got, list):
        for a, b in zip(expected, got):
            both(a, b, what, container)


# --------------------------------------------------------------------------
# Copies shown in the document
# --------------------------------------------------------------------------

PLAIN = Cfg(max_nodes=9, toc=True, macros=("link", "class", "custom", "mailto", "image", "unicode", "raw", "footnote", "if"),
            weights=dict(paragraph=4, header=9, list=2, block=4, hr=1, raw=1, include=1, toc=4, footnotes=3, footnote=3,
                         group=2, blockgroup=2, mau=1, vardef=1, excluded=1))


def no_parents(x):
    return {k: v for k, v in x.items() if k != "parent"}


def prune(x):
    """Without the content of footnotes, not shown again inside themselves."""
    if isinstance(x, dict):
        return {k: prune(v) for k, v in x.items() if not (k == "content" and x.get("_type") == "footnote")}
    return [prune(v) for v in x] if isinstance(x, list) else x


def check_shown(case):
    """The headers of tables of contents and the footnotes of lists and mentions are those of the text."""
    out = accepted(case)
    if out.result == {}:
        return False, []
    written = {}
    collect(out.result, written)
    labels = set()
    footnotes = {}
    for n in walk(out.result):
        if n["_type"] == "toc":
            for h in n["plain_entries"]:
                pos = str(h["_context"])
                if pos not in written:
                    continue  # in a block of a group, or in a footnote, that is not shown
                same_but_parents(prune(no_parents(written[pos])), prune(no_parents(h)), "header in a plain table of contents")
                labels.add("plain")
        elif n["_type"] == "toc-item":
            h = n["header"]
            pos = str(h["_context"])
            if pos not in written:
                continue
            sut.require_equal(prune(written[pos]), prune(h), "header in a nested table of contents")
            labels.add("nested")
        elif n["_type"] == "footnote" and n["content"]:
            # The positions of the content identify the footnote.
            pos = str(n["content"][0]["_context"])
            if pos in footnotes:
                full, other = (footnotes[pos], n)
                if len(str(full)) == len(str(other)):
                    sut.require_equal(full, other, "footnote shown twice")
                    labels.add("footnote twice")
                elif len(str(full)) < len(str(other)):
                    footnotes[pos] = n
            else:
                footnotes[pos] = n
        elif n["_type"] == "blockgroup-item":
            sut.require_equal(n["block_data"], n["block"], "block of a group, as data and rendered")
            labels.add("group")
    return bool(labels), sorted(labels)


def collect(x, res):
    if isinstance(x, dict) and "_type" in x:
        if x["_type"] == "header":
            res.setdefault(str(x["_context"]), x)
        for k, v in x.items():
            if f"{x['_type']}.{k}" not in REFERENCE + ("toc.plain_entries",) and k not in ("parent", "_context"):
                collect(v, res)
    elif isinstance(x, dict):
        for v in x.values():
            collect(v, res)
    elif isinstance(x, list):
        for v in x:
            collect(v, res)


ARMS = [
    Arm("parents", doc_strategy(FULL), check_parents, 1200, rule="more than 3 nodes with a parent to be checked"),
    Arm("copies", copy_strategy, check_copies, 600, rule="documents of more than 4 nodes, at least 6 nodes copied and changed"),
    Arm("empty", empty_strategy, check_empty, 300, rule="nodes whose parts are empty (labels, blocks, values); documents of more than 4 nodes"),
    Arm("shown", doc_strategy(PLAIN), check_shown, 1000, rule="documents showing a header, footnote or block somewhere else"),
]
