"""C17: lists nest by the depth of the markers, ordered lists count correctly."""

from ..arms import Arm, Cfg, Violation, accepted, composite, doc_arm, got_content, run_case, sut, walk
from ..docgen import Doc, Root
from ..gen import SIMPLE
from ..model import merge_words, render


def marker(d, level):
    c = d.pick("*#")
    if level > 1 and d.chance(2):
        return c + "".join(d.pick("*#") for _ in range(level - 1))
    return c * level


def levels(d):
    """Items of one or more adjacent lists."""
    n = d.weighted([(1, 1), (2, 2), (3, 3), (3, 4), (3, 6), (2, 9), (1, 14)])
    doc = Doc(d, Cfg(macros=("link", "class"), variables=False), Root(), {}, 0)
    items = []
    level = d.weighted([(5, 1), (2, 2), (1, 3), (1, 7)])
    for i in range(n):
        if i:
            level = max(1, level + d.weighted([(3, 0), (3, 1), (3, -1), (1, 2), (2, -2), (1, 5), (1, -4)]))
        form = d.weighted([(5, "unique"), (2, "markup"), (1, "empty"), (1, "trap")])
        if form == "unique":
            src, nodes = f"item {i}", None
        elif form == "markup":
            src, nodes = doc.inline(maxn=2)
            nodes = render(merge_words(nodes))
        elif form == "empty":
            src, nodes = "", []
        else:
            src, nodes = d.pick(["= no header", "// no comment", "---", "[a]", ":a:b", "<< toc", ". x", "@if a==b", "# x", "*x", "1. x", "- x"]), None
        m = marker(d, level)
        line = " " * d.weighted([(7, 0), (1, 1), (1, 4), (1, 17)]) + m + " " * d.weighted([(7, 1), (1, 3)]) + src
        if len(line) == 4 and len(set(line)) == 1:
            line += "x"
            src, nodes = "x", None
        items.append({"marker": m, "src": src, "nodes": nodes, "line": line, "comment": d.chance(1)})
    return {"items": items, "before": d.pick(["", "text\n\n", "= H\n", "---\n", "[#tag]\n", ". label\n"]), "after": d.pick(["", "\n", "\n\ntext", "\n\n* other list"])}


def text_nodes(src):
    return [{"_type": "text", "args": [], "kwargs": {}, "tags": [], "internal_tags": [], "subtype": None, "value": src}]


def flatten(node, depth, out):
    """(depth, list identifier, ordered, item) of a rendered list, in order."""
    me = len(out), id(node)
    for x in node["content"]:
        if x["_type"] == "list-item":
            out.append((depth, me, node["ordered"], x))
        elif x["_type"] == "list":
            flatten(x, depth + 1, out)
        else:
            raise Violation(f"unexpected content of a list: {sut.brief(x)}")
        if x["_type"] == "list" and not x["content"]:
            raise Violation("a list is empty")


def check_levels(case):
    items = case["items"]
    lines = []
    for x in items:
        lines.append(x["line"])
        if x["comment"]:
            lines.append("// comment")
    out = accepted({"text": case["before"] + "\n".join(lines) + case["after"]})
    content = got_content(out)
    lists = [n for n in content if n["_type"] == "list"]
    if case["after"].endswith("other list"):
        last = lists.pop()
        sut.require_equal(text_nodes("other list"), last["content"][0]["content"], "list after a blank line")
    others = len(content) - len(lists) - (1 if case["after"].strip() else 0) - (1 if case["before"] in ("text\n\n", "= H\n", "---\n") else 0)
    if others:
        raise Violation(f"{others} other nodes: {sut.brief([n['_type'] for n in content])}")
    flat = []
    top = []
    for number, node in enumerate(lists):
        if node["main_node"] is not True:
            raise Violation("a list of the document is not a main one")
        before = len(flat)
        flatten(node, 0, flat)
        top += [number] * (len(flat) - before)
    depth = [len(x["marker"]) for x in items]
    if len(flat) != len(items):
        raise Violation(f"{len(flat)} items, written {len(items)}")
    start = 0  # first item of the current main list
    for i, x in enumerate(items):
        d_, list_, ordered, node = flat[i]
        if node["level"] != depth[i]:
            raise Violation(f"item {i} has the level {node['level']}, marker {x['marker']!r}")
        want = text_nodes(x["src"]) if x["nodes"] is None else x["nodes"]
        sut.require_equal(want, node["content"], f"content of item {i}, {x['line']!r}")
        # Items of the same list: same depth and none in between that is less deep.
        if i and depth[i] < depth[start]:
            start = i
        same = [j for j in range(i) if depth[j] == depth[i] and min(depth[j:i]) >= depth[i]]
        first = same[0] if same else i
        for j in range(i):
            if (flat[j][1] == list_) != (j in same):
                raise Violation(f"items {j} and {i} (markers {items[j]['marker']!r} and {x['marker']!r}) are {'' if flat[j][1] == list_ else 'not '}in the same list")
        if (top[i] == top[i - 1]) != (start != i) and i:
            raise Violation(f"item {i} is {'' if top[i] == top[i - 1] else 'not '}in the list of the previous item")
        if ordered != (items[first]["marker"][0] == "#"):
            raise Violation(f"the list of item {i} is {'' if ordered else 'not '}ordered, its first marker is {items[first]['marker']!r}")
        # Nesting: one list for each depth that is open.
        chain = set()
        low = depth[i]
        for j in range(i - 1, start - 1, -1):
            if depth[j] < low:
                low = depth[j]
                chain.add(low)
        if d_ != len(chain):
            raise Violation(f"item {i} is nested {d_} times, expected {len(chain)}")
    for node in lists:
        for n in walk(node):
            if n["_type"] == "list" and n is not node and (n["main_node"] or n["start"] != 1):
                raise Violation(f"a nested list has main_node {n['main_node']} and start {n['start']}")
    return len(set(depth)) > 1, [f"{min(len(lists), 4)} lists", f"{min(len(set(depth)), 5)} levels"]


# Numbers


class Gen:
    def __init__(self, d):
        self.d = d
        self.files = {}
        self.n = 0
        self.want = {}
        self.labels = set()

    def text(self, depth, n):
        """Lines of a text, which has its own count."""
        d = self.d
        lines = []
        following = 1
        for _ in range(n):
            k = d.weighted([(8, "list"), (2, "other"), (1, "excluded"), (2, "block"), (1, "include"), (1, "note"), (1, "group")])
            self.n += 1
            if k == "list":
                self.want[f"L{self.n}"], lines_, following = self.list(following)
                lines += lines_
            elif k == "excluded":
                lines += ["@if v1==no", f"[start={d.pick(['auto', '7', 'x'])}]", "# hidden", "# hidden", ""]
            elif k == "other" or depth == 0:
                lines += [d.pick(["text", "= H", "---", ". label of nothing\n---", "////\n# no\n////", ":x:y"]), ""]
            elif k == "include":
                name = f"f{self.n}.mau"
                self.files[name] = "\n".join(self.text(depth - 1, d.int(1, 3)))
                lines.append(f"<< mau:{name}")
            else:
                n_ = self.n
                args = {"block": [], "note": [f"footnote=n{n_}"], "group": [f"group=g{n_}, position=p"]}[k]
                if k == "block" and d.chance(5):
                    args.append("isolate=false")
                delim = "abcdefgh"[depth] * 4
                if args:
                    lines.append(f"[{', '.join(args)}]")
                lines += [delim, *self.text(depth - 1, d.int(1, 3)), delim]
                if k == "note":
                    lines += [f"[footnote](n{n_})", ""]
                elif k == "group":
                    lines.append(f"<< blockgroup:g{n_}")
            self.labels.add(k)
        return lines

    def list(self, following):
        d = self.d
        start = d.weighted([(3, None), (5, "auto"), (1, "1"), (1, "5"), (1, "0"), (1, "-2"), (1, "100")])
        ordered = d.chance(7)
        m = "#" if ordered else "*"
        count = d.int(1, 4)
        first = d.weighted([(7, 1), (1, 2)])
        lines = []
        args = [a for a in ["pos", "#tag"] if d.chance(1)]
        if start is not None:
            args.append(f"start={start}")
        if d.chance(1):
            args.append("k=v")
        if args:
            lines.append(f"[{', '.join(args)}]")
        name = f"L{self.n}"
        for i in range(count):
            lines.append(m * first + f" {name}" + d.pick(["", " text"]))
            for _ in range(d.weighted([(6, 0), (2, 1), (1, 3)])):
                lines.append(d.pick("*#") * (first + d.int(1, 2)) + " sub")
            m = d.pick("#*") if d.chance(1) else m
        value = following if start == "auto" else int(start or 1)
        if ordered:
            following = value + count
        lines.append("")
        return {"start": value, "ordered": ordered, "count": count}, lines, following


def numbers(d):
    g = Gen(d)
    lines = g.text(2, d.int(1, 7))
    return {"text": "\n".join(lines), "env": {"v1": "yes"}, "files": g.files, "want": g.want, "labels": sorted(g.labels)}


def check_numbers(case):
    out = run_case(case)
    if not out.ok:
        raise Violation(f"a valid document is rejected: {sut.error_text(out)}")
    found = {}
    for n in walk(got_content(out) or []):
        if n["_type"] == "list" and n["main_node"]:
            name = n["content"][0]["content"][0]["value"].split(" ")[0]
            found[name] = {"start": n["start"], "ordered": n["ordered"], "count": sum(1 for x in n["content"] if x["_type"] == "list-item")}
            if "start" in n["kwargs"] and f"start={n['kwargs']['start']}" not in case["text"] + "".join(case["files"].values()):
                raise Violation(f"the list {name} has the argument start={n['kwargs']['start']}")
    # Every list is shown: notes and groups are in the same text.
    sut.require_equal(case["want"], found, "lists")
    return len(found) > 1, case["labels"]


def only_lists(x):
    return [n for n in walk(x) if n["_type"] == "list"] if x else []


CFG = Cfg(max_nodes=7, attach=4, inline_depth=1, isolate=5, weights={"list": 10, "paragraph": 2, "header": 1, "block": 3, "mau": 1, "excluded": 1, "footnote": 1, "group": 1, "blockgroup": 1})

ARMS = [
    Arm("levels", composite(levels), check_levels, 4000, rule="sequences of items with markers of any depth, indentation and content; non-trivial: more than one level"),
    Arm("numbers", composite(numbers), check_numbers, 2500, rule="lists with and without start, in nested texts (blocks, notes, groups, files); non-trivial: two lists or more"),
    doc_arm("documents", CFG, 500, ["list"], "documents of the model with lists", project=only_lists),
]
