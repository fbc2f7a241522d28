"""C22: the Jinja visitor uses the most specific matching template.

Documents have target nodes with known facts (type, subtype, tags, custom
fields, parent). Templates for the type of the targets are generated, each
with its own number as output; the numbers in the output, in order, must be
those of templates that the reference below selects."""

import re

from mau.visitors.jinja_visitor import JinjaVisitor

from ..arms import Arm, Violation, composite, sut

TYPES = ["document", "paragraph", "paragraph-line", "text", "verbatim", "style", "header", "label", "list", "list-item", "block", "raw", "raw-line", "source", "source-line", "source-marker", "horizontal-rule", "include",
         "include-image", "include-raw", "include-mau", "macro", "macro-link", "macro-class", "macro-image", "macro-raw", "macro-unicode", "macro-header", "macro-footnote", "footnote", "footnotes", "footnotes-item", "toc", "toc-item",
         "blockgroup", "blockgroup-item"]
PASS = "{{ content }}{% for r in labels %}{{ labels[r] }}{% endfor %}{{ nested_entries }}{{ entries }}{{ footnotes }}{{ block }}{{ marker }}{% for k in items %}{{ items[k] }}{% endfor %}"

SUBS = ["s1", "s2", "x-y"]
TAGS = ["t1", "t2", "big", "a9", "mid"]
PREFIXES = ["p1", "p2", "p-3"]


class Facts:
    def __init__(self, d):
        self.d = d
        self.targets = []
        self.lines = []

    def args(self, extra=()):
        """Random subtype and tags: (line, facts)."""
        d = self.d
        sub = d.pick(SUBS) if d.chance(6) else None
        tags = [t for t in TAGS if d.chance(4)]
        parts = (["*" + sub] if sub else []) + ["#" + t for t in tags] + (["#mau:" + d.pick(TAGS)] if d.chance(2) else []) + list(extra)
        return ("[" + ", ".join(parts) + "]") if parts else None, {"subtype": sub, "tags": tags}

    def inline_args(self):
        line, facts = self.args()
        return (line[1:-1] if line else ""), facts


def fact(type_, subtype=None, tags=(), custom=None, parent=None):
    return {"type": type_, "subtype": subtype, "tags": list(tags), "custom": custom or {}, "parent": parent}


BLOCKS = {"paragraph": ["word", ""], "header": ["= word"], "horizontal-rule": ["---"], "list": ["* word", ""], "include": None, "include-image": ["<< image"], "block": ["++++", "word", "++++"], "raw": ["++++", "word", "++++"],
          "source": ["++++", "word", "++++"]}


def build(d):
    f = Facts(d)
    kind = d.pick(["block-level", "block-level", "label", "style", "macro", "text", "list-item", "blockgroup-item", "raw-line", "source-line", "footnotes-item", "toc-item", "group-block", "paragraph-line"])
    n = d.int(1, 3)
    target_type = kind
    block_kind = d.pick(sorted(BLOCKS))
    lines = []
    for _ in range(n):
        # The container: the document, a block, or a block in a block.
        depth = d.weighted([(4, 0), (4, 1), (1, 2)])
        parent = fact("document")
        opened = []
        for k in range(depth):
            line, a = f.args(["isolate=false"] if d.chance(3) else [])
            if line:
                lines.append(line)
            delim = ["====", "****"][k]
            lines.append(delim)
            opened.append(delim)
            parent = fact("block", parent=parent, **a)
        if kind in ("block-level", "label"):
            bk = block_kind if kind == "block-level" else d.pick(sorted(BLOCKS))
            extra = {"raw": ["engine=raw"], "source": ["engine=source"], "include-image": ["uri=a.png"]}.get(bk, [])
            line, a = f.args(extra)
            node = fact(bk, parent=parent, **a)
            body = BLOCKS[bk]
            if bk == "include":
                ctype = d.pick(["c1", "c2", "s1"])
                node["custom"] = {"ctype": ctype}
                body = ["<< " + ctype]
            block = []
            if line:
                block.append(line)
            if kind == "label":
                for role in d.pick([["r1"], ["r2"], ["r1", "r2"], ["title"]]):
                    block.insert(d.int(0, len(block)), f".{role} word")
            if kind == "label":
                roles = [x.split()[0][1:] for x in block if x.startswith(".")]
                f.targets += [fact("label", custom={"role": r}, parent=node) for r in roles]
            else:
                f.targets.append(node)
                target_type = bk
            lines += block + body
        elif kind in ("style", "macro", "text", "paragraph-line"):
            where = d.pick(["paragraph", "paragraph", "header", "list-item", "label"])
            if kind == "paragraph-line":
                where = "paragraph"
            line, a = f.args()
            if where == "paragraph":
                inner = fact("paragraph", parent=parent, **a)
            elif where == "header":
                inner = fact("header", parent=parent, **a)
            elif where == "list-item":
                inner = fact("list", parent=parent, **a)  # the text of an item belongs to the list
            else:
                inner = fact("label", custom={"role": "r1"}, parent=fact("horizontal-rule", parent=parent, **a))
            if kind == "style":
                marks = [d.pick("_*^~") for _ in range(d.int(1, 3))]
                marks = [m for i, m in enumerate(marks) if not i or m != marks[i - 1]]
                src = "".join(marks) + "word" + "".join(reversed(marks))
                p = inner
                for m in marks:
                    p = fact("style", custom={"style": {"_": "underscore", "*": "star", "^": "caret", "~": "tilde"}[m]}, parent=p)
                    f.targets.append(p)
            elif kind == "macro":
                name = d.pick(["m1", "m2", "s1"])
                src_a, ma = f.inline_args()
                src = f"W [{name}]({src_a})"
                f.targets.append(fact("macro", custom={"name": name}, parent=inner, **ma))
            elif kind == "paragraph-line":
                src = "word\nother"
                f.targets += [fact("paragraph-line", parent=inner)] * 2
            else:
                src = "word"
                f.targets.append(fact("text", parent=inner))
            if line:
                lines.append(line)
            if where == "label":
                lines += [".r1 " + src, "---"]
            else:
                lines += [{"paragraph": "", "header": "= ", "list-item": "* "}[where] + src, ""]
        elif kind == "list-item":
            line, a = f.args()
            if line:
                lines.append(line)
            lines += ["* word", "** word", ""]
            main = fact("list", parent=parent, **a)
            f.targets += [fact("list-item", parent=main)] * 2
        elif kind in ("blockgroup-item", "group-block"):
            g = f"g{len(lines)}" if d.chance(5) else "g"
            if any(x.startswith(f"[group={g},") or f"group={g}," in x for x in lines):
                g = f"g{len(lines)}"
            pos = [p for p in ["left", "right"] if d.chance(6)] or ["left"]
            blocks = []
            for p in pos:
                line, a = f.args([f"group={g}", f"position={p}"])
                lines += [line, "++++", "word", "++++"]
                blocks.append(a)
            line, a = f.args([f"group={g}"])
            lines += [line, "<< blockgroup"]
            group = fact("blockgroup", custom={"name": g}, parent=parent, **a)
            for p, b in zip(pos, blocks):
                item = fact("blockgroup-item", custom={"position": p}, parent=group)
                f.targets.append(item if kind == "blockgroup-item" else fact("block", parent=item, **b))
            if kind == "group-block":
                target_type = "block"
        elif kind in ("raw-line", "source-line"):
            line, a = f.args(["engine=" + kind[:-5]])
            lines += [line, "++++", "word", "other", "++++"]
            f.targets += [fact(kind, parent=fact(kind[:-5], parent=parent, **a))] * 2
        elif kind == "footnotes-item":
            line, a = f.args()
            name = f"f{len(lines)}"
            if not opened:
                lines += [f"[footnote={name}, isolate=false]", "++++", "word", "++++"]
            if line:
                lines.append(line)
            lines.append("<< footnotes")
            f.targets.append(("footnotes", len(opened), fact("footnotes-item", parent=fact("footnotes", parent=parent, **a))))
        elif kind == "toc-item":
            line, a = f.args()
            lines.append(f"= H{len(lines)}")
            if line:
                lines.append(line)
            lines.append("<< toc")
            f.targets.append(("toc", len(opened), fact("toc-item", parent=fact("toc", parent=parent, **a))))
        for delim in reversed(opened):
            lines.append(delim)
        if len(f.targets) > 0 and kind in ("footnotes-item", "toc-item"):
            break  # a single one: the number of items depends on the others
    targets = []
    for t in f.targets:
        if isinstance(t, tuple):
            what, opened, node = t
            if what == "footnotes" and opened:
                continue
            targets.append(node)
        else:
            targets.append(t)
    # Blocks that contain other blocks are targets as well: in that case use no containers.
    if target_type == "block":
        targets = ordered_blocks(lines)
    templates = gen_templates(d, target_type, targets)
    prefixes = [p for p in PREFIXES if d.chance(4)]
    if d.chance(3):
        prefixes.reverse()
    return {"text": "\n".join(lines), "type": target_type, "targets": targets, "templates": templates, "prefixes": prefixes}


def ordered_blocks(lines):
    """Facts of all the blocks of a text made of blocks only, in the order they are shown."""
    out = []
    pending = None
    stack = []
    groups = {}
    document = fact("document")

    def top():
        return stack[-1][1] if stack else document

    def parse(line):
        parts = line[1:-1].split(", ")
        return {"subtype": next((p[1:] for p in parts if p.startswith("*")), None), "tags": [p[1:] for p in parts if p.startswith("#") and not p.startswith("#mau:")]}, dict(p.split("=") for p in parts if "=" in p)

    for line in lines:
        if line.startswith("["):
            pending = parse(line)
        elif len(line) == 4 and len(set(line)) == 1 and line != "word":
            if stack and stack[-1][0] == line:
                stack.pop()
                continue
            a, kw = pending or ({"subtype": None, "tags": []}, {})
            pending = None
            node = fact("block", parent=top(), **a)
            if "group" in kw:
                groups.setdefault((id(top()), kw["group"]), []).append((kw["position"], node))
            else:
                out.append(node)
            stack.append((line, node))
        elif line.startswith("<< blockgroup"):
            a, kw = pending
            pending = None
            group = fact("blockgroup", custom={"name": kw["group"]}, parent=top(), **a)
            for pos, node in groups[(id(top()), kw["group"])]:
                node["parent"] = fact("blockgroup-item", custom={"position": pos}, parent=group)
                out.append(node)
    return out


def gen_templates(d, type_, targets):
    """Sets of claims, most of which hold for some target."""
    out = []
    for _ in range(d.int(0, 8)):
        t = d.pick(targets) if targets else fact(type_)
        parent = t["parent"] or fact("none")
        claims = {}
        rich = d.int(1, 5)

        def value(real, others):
            if real is not None and d.chance(8):
                return real
            # Other values, also similar to the real one.
            similar = [real[:-1], real[1:], real + "1", "a" + real, real.upper(), real.capitalize()] if real else []
            return d.pick(others + [x for x in similar if x and x != real])

        if d.chance(rich):
            claims["subtype"] = value(t["subtype"], SUBS)
        if d.chance(rich):
            claims["tags"] = [x for x in TAGS if (x in t["tags"] and d.chance(7)) or d.chance(1)] + ([d.pick(["t", "t11", "T1", "bi", "1"])] if d.chance(1) else [])
        if d.chance(rich):
            claims["parent_type"] = value(parent["type"], ["document", "block", "list", "paragraph", "horizontal-rule"])
        if d.chance(rich):
            claims["parent_subtype"] = value(parent["subtype"], SUBS)
        if d.chance(rich) and (t["custom"] or d.chance(1)):
            claims["custom"] = {k: value(v, ["other", "r2", "c1", "m2", "star"]) for k, v in (t["custom"] or {"role": "x"}).items()}
        if d.chance(rich) and (parent["custom"] or d.chance(1)):
            claims["parent_custom"] = {k: value(v, ["other", "r1", "c1", "star"]) for k, v in (parent["custom"] or {"role": "x"}).items()}
        if d.chance(3):
            claims["prefix"] = d.pick(PREFIXES)
        parts = []
        for k, v in claims.items():
            if k == "subtype":
                parts.append(v)
            elif k == "tags":
                parts += ["tg_" + x for x in v]
            elif k == "parent_type":
                parts.append("pt_" + v)
            elif k == "parent_subtype":
                parts.append("pts_" + v)
            elif k == "custom":
                parts += [f"{a}__{b}" for a, b in v.items()]
            elif k == "parent_custom":
                parts += [f"pts_{a}__{b}" for a, b in v.items()]
            else:
                parts.append("pf_" + v)
        for i in range(len(parts) - 1, 0, -1):
            j = i - d.int(0, i)
            parts[i], parts[j] = parts[j], parts[i]
        name = ".".join([type_] + parts)
        if not any(x["name"] == name for x in out):
            out.append({"name": name, "claims": claims})
    if d.chance(6) and not any(x["name"] == type_ for x in out):
        out.insert(d.int(0, len(out)), {"name": type_, "claims": {}})
    return out


# The reference.


def matches(claims, node):
    parent = node["parent"]
    if claims.get("subtype") is not None and claims["subtype"] != node["subtype"]:
        return False
    if any(t not in node["tags"] for t in claims.get("tags", [])):
        return False
    if any(node["custom"].get(k) != v for k, v in claims.get("custom", {}).items()):
        return False
    if claims.get("parent_type") is not None and (parent is None or parent["type"] != claims["parent_type"]):
        return False
    if claims.get("parent_subtype") is not None and (parent is None or parent["subtype"] != claims["parent_subtype"]):
        return False
    return all(parent is not None and parent["custom"].get(k) == v for k, v in claims.get("parent_custom", {}).items())


def weight(claims):
    return (len(claims.get("custom", {})), "subtype" in claims, "prefix" in claims, "parent_type" in claims, len(claims.get("parent_custom", {})), "parent_subtype" in claims, len(claims.get("tags", [])))


def best(templates, prefixes, node):
    """The numbers of the templates that can be used for a node."""
    for prefix in prefixes + [None]:
        found = [(weight(t["claims"]), i) for i, t in enumerate(templates) if t["claims"].get("prefix") == prefix and matches(t["claims"], node)]
        if found:
            top = max(w for w, _ in found)
            return [i for w, i in found if w == top]
    return []


def check(case):
    custom = {t + ".j2": PASS for t in TYPES if t != case["type"]}
    for i, t in enumerate(case["templates"]):
        custom[t["name"] + ".j2"] = f"<{i}>" + PASS
    env = {"mau.visitor.templates.custom": custom}
    if case["prefixes"]:
        env["mau.visitor.templates.prefixes"] = list(case["prefixes"])
    want = [best(case["templates"], case["prefixes"], t) for t in case["targets"]]
    out = sut.process(case["text"], env, visitor=JinjaVisitor)
    labels = [case["type"], f"{len(case['templates'])} templates"]
    names = [t["name"] for t in case["templates"]]
    if any(not w for w in want):
        if out.ok:
            raise Violation(f"no template of {names} with prefixes {case['prefixes']} matches, but the document is rendered: {out.result!r}")
        return True, labels + ["none"]
    if not out.ok:
        raise Violation(f"templates {names} with prefixes {case['prefixes']}: the document is rejected: {sut.error_text(out)}")
    got = [int(x) for x in re.findall(r"<(\d+)>", out.result)]
    if len(got) != len(want):
        raise Violation(f"{len(want)} nodes of type {case['type']}, but {len(got)} templates in the output {out.result!r}")
    for node, w, g in zip(case["targets"], want, got):
        if g not in w:
            raise Violation(f"templates {names} with prefixes {case['prefixes']}: node {node} is rendered with {names[g]!r}, expected {[names[i] for i in w]}")
    return len(case["templates"]) > 1, labels


ARMS = [
    Arm("match", composite(build), check, 3000, rule="documents with one to three nodes of a type and up to nine templates for it; non-trivial: more than one template, or none that matches"),
]
ASSUMPTIONS = ["among templates with the same specificity any can be used", "values of claims have no dots and no double underscores"]
