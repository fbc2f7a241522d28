"""C13: the ToC lists every header once, in order, nested by level."""

import re

from ..arms import Arm, Cfg, D, Violation, accepted, composite, doc_arm, got_content, run_case, sut, walk
from ..gen import SIMPLE, quote_arg


class Gen:
    """Headers at any level in nested scopes, with tables of contents anywhere.

    A scope is a list of headers; a text is a list of lines."""

    def __init__(self, d, lines):
        self.d = d
        self.lines = lines
        self.n = 0
        self.tocs = []  # (index in document order, scope)
        self.labels = set()

    def header(self, scope):
        d = self.d
        level = d.weighted([(4, 1), (4, 2), (4, 3), (2, 4), (1, 6), (1, 12)])
        self.n += 1
        text = f"T{self.n}" if d.chance(7) else d.pick(["same", "Same", "a b", "été 日本", "x_y", "A. B-c", "!!!"])
        src = text.replace("_", "\\_")
        form = d.weighted([(6, "plain"), (1, "style"), (1, "verbatim"), (1, "link"), (1, "note")])
        if form == "style":
            src = f"*{src}*"
        elif form == "verbatim":
            src = f"`{text}`"
        elif form == "link":
            src = f"[link](http://x, {src})" if "," not in src else src
        iid = d.pick(["my-id", "x y", f"id{self.n}", "", " x ", "a, b", "0", "same"]) if d.chance(2) else None
        args = []
        if iid is not None:
            args.append(f"internal_id={quote_arg(iid)}" if iid != iid.strip() or not iid or "," in iid else f"internal_id={iid}")
        if d.chance(2):
            args.append(f"name=n{self.n}")
        if d.chance(1):
            args = ["a1", "#tag"] + args
        if args:
            self.lines.append("[" + ", ".join(args) + "]")
        self.lines.append("=" * level + " " + src)
        if d.chance(4):
            self.lines.append("")
        scope.append({"level": level, "text": text, "iid": iid})

    def fill(self, scope, depth, n):
        d = self.d
        for _ in range(n):
            k = d.weighted([(8, "header"), (2, "toc"), (2, "text"), (2, "shared"), (2, "isolated"), (1, "excluded"), (1, "note"), (1, "group"), (1, "include"), (1, "list")])
            if k == "header":
                self.header(scope)
            elif k == "toc":
                self.lines.append("<< toc")
                self.tocs.append(scope)
            elif k == "text":
                self.lines += ["text", ""]
            elif k == "list":
                self.lines += ["* = item", ""]
            elif k == "excluded":
                self.labels.add(k)
                self.lines += ["@if v1==no", "= excluded"]
            elif depth == 0:
                self.lines.append("---")
            else:
                self.labels.add(k)
                delim = "=" * 4 if depth == 2 else "+" * 4
                if k == "shared":
                    inner = scope
                    self.lines.append("[isolate=false]")
                elif k == "note":
                    # The body of a footnote: not in the flow. A shared one has headers in this scope.
                    self.n += 1
                    inner = scope if d.chance(5) else []
                    self.lines.append(f"[footnote=n{self.n}{', isolate=false' if inner is scope else ''}]")
                elif k == "group":
                    self.n += 1
                    inner = scope if d.chance(5) else []
                    self.lines.append(f"[group=g{self.n}, position=p{', isolate=false' if inner is scope else ''}]")
                else:
                    inner = []
                before = len(self.tocs)
                self.lines.append(delim)
                self.fill(inner, depth - 1, d.int(0, 4))
                self.lines.append(delim)
                if k in ("note", "group"):
                    # Not shown in the document.
                    del self.tocs[before:]


def build(d):
    g = Gen(d, [])
    scope = []
    g.fill(scope, 2, d.int(1, 10))
    if d.chance(7):
        g.lines.append("<< toc")
        g.tocs.append(scope)
    return {"text": "\n".join(g.lines), "env": {"v1": "yes"}, "tocs": g.tocs, "scope": scope, "labels": sorted(g.labels), "files": {}, "empty": "internal_id=\"\"" in "\n".join(g.lines)}


def flat(nodes):
    out = []
    for n in nodes:
        if n["_type"] in ("text", "verbatim"):
            out.append(n["value"])
        elif "content" in n:
            out.append(flat(n["content"]))
    return "".join(out)


def nesting(headers):
    """Each header under the closest preceding one with a lower level."""
    parents = []
    for i, h in enumerate(headers):
        parents.append(next((j for j in range(i - 1, -1, -1) if headers[j]["level"] < h["level"]), None))
    return parents


def describe(header):
    return [header["level"], flat(header["content"])]


def check_toc(toc, scope, what, ids):
    want = [[h["level"], h["text"]] for h in scope]
    got = [describe(h) for h in toc["plain_entries"]]
    sut.require_equal(want, got, f"{what}: plain entries")
    order, parents = [], []

    def visit(entries, parent):
        for e in entries:
            k = len(order)
            order.append(e["header"])
            parents.append(parent)
            visit(e["entries"], k)

    visit(toc["nested_entries"], None)
    sut.require_equal(want, [describe(h) for h in order], f"{what}: nested entries, in order")
    sut.require_equal(nesting(scope), parents, f"{what}: nesting, by index of the entry")
    for h, a, b in zip(scope, toc["plain_entries"], order):
        if a["internal_id"] != b["internal_id"]:
            raise Violation(f"{what}: header {h['text']!r} has the ids {a['internal_id']!r} and {b['internal_id']!r}")
        check_id(h, a["internal_id"], ids, what)


def check_id(h, iid, ids, what):
    if not isinstance(iid, str) or not iid and h["iid"] != "":
        raise Violation(f"{what}: header {h['text']!r} has the id {iid!r}")
    if h["iid"] is not None:
        if iid != h["iid"]:
            raise Violation(f"{what}: header {h['text']!r} has the id {iid!r}, explicit {h['iid']!r}")
        return
    key = (h["level"], h["text"])
    if ids.setdefault(key, iid) != iid:
        raise Violation(f"{what}: two headers of level {h['level']} with text {h['text']!r} have the ids {iid!r} and {ids[key]!r}")




def check(case):
    out = accepted(case)
    content = out.result.get("content", []) if out.result else []
    ids = {}
    tocs = [n for n in walk(sut.canon(content)) if n["_type"] == "toc"]
    if len(tocs) != len(case["tocs"]):
        raise Violation(f"{len(tocs)} tables of contents, expected {len(case['tocs'])}")
    for i, (toc, scope) in enumerate(zip(tocs, case["tocs"])):
        check_toc(toc, scope, f"ToC number {i + 1}", ids)
    if out.result:
        with sut.limited():
            visitor = sut.BaseVisitor(sut.Handler(), out.environment)
            toc = sut.canon(visitor.visit(out.parser.output.toc))
        check_toc(toc, case["scope"], "ToC of the document", ids)
    # Headers of the flow: same ids as in the tables.
    for n in walk(sut.canon(content)):
        if n["_type"] == "header":
            key = (n["level"], flat(n["content"]))
            if not isinstance(n["internal_id"], str) or not n["internal_id"] and n["kwargs"].get("internal_id") != "" and not case["empty"]:
                raise Violation(f"header {key} has the id {n['internal_id']!r}")
    # An id depends on nothing else: compare with a document that has only this header.
    for (level, text), iid in list(ids.items())[:2]:
        src = re.sub(r"([_])", r"\\\1", text)
        alone = accepted({"text": "text before\n\n" + "=" * level + " " + src})
        got = got_content(alone)[1]["internal_id"]
        if got != iid:
            raise Violation(f"the id of a header of level {level} with text {text!r} is {iid!r} here and {got!r} on its own")
    return len(case["scope"]) > 1 or any(len(s) > 1 for s in case["tocs"]), case["labels"] + [f"{min(len(case['tocs']), 3)} tocs"]


def custom_ids(d):
    """A configured function for ids."""
    headers = [{"level": d.int(1, 4), "text": f"{d.pick(SIMPLE)}{i}", "iid": f"e{i}" if d.chance(3) else None} for i in range(d.int(1, 5))]
    return {"headers": headers}


def check_custom(case):
    text = "<< toc\n"
    for h in case["headers"]:
        text += (f"[internal_id={h['iid']}]\n" if h["iid"] else "") + "=" * h["level"] + " " + h["text"] + "\n"
    calls = []

    def function(node):
        calls.append(node)
        return f"custom-{node.level}-{node.content[0].value}"

    out = accepted({"text": text, "env": {"mau.parser.header_internal_id_function": function}})
    content = got_content(out)
    want = [h["iid"] or f"custom-{h['level']}-{h['text']}" for h in case["headers"]]
    for what, got in (("document", content[1:]), ("ToC", content[0]["plain_entries"])):
        if [h["internal_id"] for h in got] != want:
            raise Violation(f"ids in the {what} are {[h['internal_id'] for h in got]}, expected {want}")
    return True, ["explicit"] if any(h["iid"] for h in case["headers"]) else []


CFG = Cfg(max_nodes=10, attach=2, macros=("footnote", "header", "link"), inline_depth=1, toc=True, isolate=6,
          weights={"header": 10, "block": 4, "toc": 4, "paragraph": 2, "footnote": 2, "footnotes": 1, "mau": 2, "excluded": 2, "group": 1, "blockgroup": 1})


def only_headers(x):
    """Headers and tables of contents, wherever they are."""
    if isinstance(x, dict):
        if x.get("_type") == "header":
            return {"header": x["level"], "id": x["internal_id"], "content": [c.get("value", c.get("_type")) for c in x["content"]]}
        return {k: v for k, v in ((k, only_headers(v)) for k, v in x.items()) if v not in ({}, [], None)} if x.get("_type") != "toc" else \
            {"toc": [only_headers(i) for i in x["plain_entries"]], "nested": only_headers(x["nested_entries"])}
    if isinstance(x, list):
        return [y for y in map(only_headers, x) if y not in ({}, [], None)]
    return None


ARMS = [
    Arm("levels", composite(build), check, 2500, rule="sequences of headers of any level in nested scopes with tables of contents; non-trivial: a scope has two headers or more"),
    Arm("custom", composite(custom_ids), check_custom, 300, rule="a configured function for the ids"),
    doc_arm("documents", CFG, 500, ["header", "toc"], "documents of the model with headers and tables of contents", project=only_headers),
]
