"""C16: block groups collect each block at its position, outside of the flow."""

from ..arms import Arm, Cfg, Violation, accepted, composite, doc_arm, got_content, run_case, sut, walk
from ..gen import SIMPLE, name_arg

GROUPS = ["g1", "g2", "g 3", "g1 ", "été", "G1"]
POSITIONS = ["left", "right", "1", "p 2", "Left", "été", " left", "left ", "a_b", "p.1"]
CONTENTS = ["text {m}", "*bold* {m}\nline", "* item {m}\n** sub", "= Header {m}\n\ntext", "---", "", "// comment", ":x:{m}\n{{x}}", "[a=1]\n====\ninner {m}\n====", "<< custom:{m}", ". label {m}\nlabelled", "a {m}\n\nb\n\nc",
            "[footnote](f)\n\n[footnote=f]\n====\nnote {m}\n====", "<< toc\n\n= H {m}", "[group=g1, position=left]\n====\nin {m}\n====\n<< blockgroup:g1", "[name=h]\n= H {m}\n\n[header](h)"]


def block(d, n, group=None, position=None):
    """(arguments without the group, label, engine, content) of a block."""
    engine = d.weighted([(6, None), (1, "raw"), (1, "source")])
    m = f"M{n}"
    content = d.pick(CONTENTS).replace("{m}", m).replace("{{x}}", "{x}") if engine is None else d.pick([f"code {m}", f"= {m}\n\n* x", f"// {m}"])
    args = [x for x in ["pos", "#tag", "*sub", "k=v", 'other="a, b"', "classes=one", 'classes="one,two"'] if d.chance(2)]
    if len([a for a in args if a.startswith("classes")]) == 2:
        args.pop()
    args.sort(key=lambda a: "=" in a)
    if engine:
        args.append(f"engine={engine}")
    if engine is None and d.chance(2):
        args.append("isolate=false" if "name=h" not in content and "footnote" not in content and "toc" not in content else "isolate=true")
    return {"args": args, "label": d.pick([None, None, f". label {m}", f".role *{m}*"]), "content": content, "delim": d.pick(["++++", "****", "xxxx", "    x"[:0] + "~~~~"])}


def write(b, group=None, position=None, at=None):
    args = list(b["args"])
    if group is not None:
        args.append(f"group={group}")
    if position is not None:
        args.append(f"position={position}")
    if at is not None and group is not None and position is not None and len(args) > 2:
        args[-1], args[-2] = args[-2], args[-1]
    lines = []
    if b["label"]:
        lines.append(b["label"])
    if args:
        lines.append(f"[{', '.join(args)}]")
    lines.append(b["delim"])
    if b["content"]:
        lines.append(b["content"])
    lines.append(b["delim"])
    return "\n".join(lines)


def flow(d):
    parts = []
    used = set()
    n = 0
    blocks = []
    for _ in range(d.int(1, 7)):
        n += 1
        g, p = d.pick(GROUPS[:4]), d.pick(POSITIONS)
        if (g, p) in used:
            continue
        used.add((g, p))
        b = block(d, n)
        parts.append({"kind": "block", "group": g, "position": p, "block": b, "swap": d.chance(3)})
        blocks.append(g)
    for i in range(d.int(1, 5)):
        kind = d.weighted([(6, "use"), (2, "plain"), (1, "half")])
        if kind == "use":
            part = {"kind": "use", "group": d.pick(blocks), "spelling": d.int(0, 4), "label": d.pick([None, None, f". use M{i}"])}
        elif kind == "plain":
            part = {"kind": "plain", "text": d.pick(["text", "= Header", "---", "* item"])}
        else:
            part = {"kind": "half", "block": block(d, 100 + i), "which": d.pick(["group", "position"])}
        parts.insert(d.int(0, len(parts)), part)
    return {"parts": parts, "quoted": d.chance(4)}


def q(x, quoted):
    return name_arg(x, quoted)


def check_flow(case):
    text = []
    want = []
    groups = {}
    quoted = case["quoted"]
    for p in case["parts"]:
        if p["kind"] == "block":
            text.append(write(p["block"], q(p["group"], quoted), q(p["position"], quoted), p["swap"] or None))
            alone = got_content(accepted({"text": write(p["block"])}))
            if len(alone) != 1:
                raise Violation(f"a block alone is rendered as {len(alone)} nodes")
            node = alone[0]
            node["kwargs"].update({"group": p["group"], "position": p["position"]})
            groups.setdefault(p["group"], {})[p["position"]] = node
        elif p["kind"] == "plain":
            text.append(p["text"])
            want += got_content(accepted({"text": p["text"]}))
        elif p["kind"] == "half":
            text.append(write(p["block"], *(["g1", None] if p["which"] == "group" else [None, "left"])))
            node = got_content(accepted({"text": write(p["block"])}))[0]
            node["kwargs"][p["which"]] = "g1" if p["which"] == "group" else "left"
            want.append(node)
        else:
            g = q(p["group"], quoted)
            s = [f"<< blockgroup:{g}", f"<< blockgroup:group={g}", f"[{g}]\n<< blockgroup", f"<< blockgroup:{g}, #t, k=v", f"[#t, k=v, group={g}]\n<< blockgroup"][p["spelling"]]
            label = {}
            if p["label"]:
                s = p["label"] + "\n" + s
                label = got_content(accepted({"text": p["label"] + "\n---"}))[0]["labels"]
            text.append(s)
            more = p["spelling"] > 2
            want.append({"_type": "blockgroup", "args": [], "kwargs": {"k": "v"} if more else {}, "tags": ["t"] if more else [], "internal_tags": [], "subtype": None, "labels": label, "name": p["group"], "items": p["group"]})
    for node in want:
        if node["_type"] == "blockgroup":
            node["items"] = groups[node["items"]]
    out = accepted({"text": "\n\n".join(text)})
    got = got_content(out) or []
    for node in got:
        if node["_type"] != "blockgroup":
            continue
        items = {}
        for position, item in node["items"].items():
            if item["_type"] != "blockgroup-item" or item["position"] != position:
                raise Violation(f"at the position {position!r} there is {sut.brief(item)}")
            if "block_data" in item:
                sut.require_equal(item["block"], item["block_data"], f"data of the block at {position!r}")
            items[position] = item["block"]
        if list(items) != list(groups.get(node["name"], {})):
            raise Violation(f"the blocks of the group {node['name']!r} are {list(items)}, written as {list(groups[node['name']])}")
        node["items"] = items
    sut.require_equal(want, got, "document with groups")
    used = [p["group"] for p in case["parts"] if p["kind"] == "use"]
    return bool(used), ["used twice"] * (len(set(used)) < len(used)) + [f"{min(len(groups), 3)} groups"]


# Scopes of groups


class Gen:
    def __init__(self, d, faults):
        self.d = d
        self.faults = faults
        self.n = 0
        self.errors = []
        self.texts = []
        self.files = {}
        self.labels = set()

    def text(self, depth, kind="document"):
        """Lines of a text with its own groups."""
        d = self.d
        me = {"blocks": {}, "uses": []}
        self.texts.append(me)
        lines = []
        for _ in range(d.int(1, 5)):
            k = d.weighted([(6, "block"), (5, "use"), (2, "nested"), (1, "note"), (1, "include"), (1, "excluded"), (1, "text")])
            self.n += 1
            g, p = d.pick(["g1", "g1", "g2", "g2", "g1 ", "G1"]), d.pick(["left", "left", "right", "1", "p 2", "left ", "Left"])
            marker = f"M{self.n}"
            if k == "block":
                if p in me["blocks"].get(g, {}):
                    if not self.faults:
                        continue
                    self.errors.append("repeated")
                me["blocks"].setdefault(g, {})[p] = marker
                extra = d.pick(["", ", isolate=false", ", k=v", ", engine=raw"])
                lines.append(f"[group={name_arg(g)}, position={name_arg(p)}{extra}]")
                delim = "abcdefgh"[depth] * 4
                lines += [delim, marker]
                if "raw" not in extra and depth and d.chance(3):
                    lines += ["", *self.text(depth - 1)]
                    self.labels.add("in a group")
                lines.append(delim)
            elif k == "use":
                me["uses"].append((f"U{self.n}", g))
                lines += [f"<< blockgroup:group={name_arg(g)}, id=U{self.n}"]
            elif k == "excluded":
                lines += d.pick([["@if v1==no", f"[group={name_arg(g)}, position={name_arg(p)}]", "oooo", marker, "oooo"], ["@if v1==no", f"<< blockgroup:{name_arg(g)}"]])
            elif k == "text" or not depth:
                lines += ["text", ""]
            elif k == "include":
                name = f"f{self.n}.mau"
                self.files[name] = "\n".join(self.text(depth - 1, "file"))
                lines.append(f"<< mau:{name}")
            else:
                delim = "abcdefgh"[depth] * 4
                args = [a for a in ["isolate=false"] if d.chance(5)]
                if k == "note":
                    note = f"n{self.n}"
                    args.append(f"footnote={note}")
                if args:
                    lines.append(f"[{', '.join(args)}]")
                lines += [delim, *self.text(depth - 1), delim]
                if k == "note":
                    lines += [f"[footnote]({note})", ""]
                self.labels.add(k)
        for key, g in me["uses"]:
            if g not in me["blocks"]:
                if self.faults:
                    self.errors.append("missing")
                else:
                    self.n += 1
                    me["blocks"][g] = {"late": f"M{self.n}"}
                    lines += [f"[group={name_arg(g)}, position=late]", "zzzz", f"M{self.n}", "zzzz"]
        return lines


def scopes(faults):
    def inner(d):
        g = Gen(d, faults)
        lines = g.text(2)
        return {"text": "\n".join(lines), "env": {"v1": "yes"}, "files": g.files, "texts": g.texts, "errors": g.errors, "labels": sorted(g.labels)}

    return inner


def first_text(x):
    if isinstance(x, dict):
        if isinstance(x.get("value"), str):
            return x["value"]
        return first_text(x.get("content"))
    if isinstance(x, list):
        for v in x:
            t = first_text(v)
            if t:
                return t
    return None


def shown(x):
    """Markers that are outside of groups, in order."""
    if isinstance(x, dict):
        if x.get("_type") == "blockgroup":
            return
        if isinstance(x.get("value"), str):
            yield x["value"]
        for v in x.values():
            yield from shown(v)
    elif isinstance(x, list):
        for v in x:
            yield from shown(v)


def check_scopes(case):
    out = run_case(case)
    if case["errors"]:
        if out.ok:
            raise Violation(f"accepted with errors: {case['errors']}")
        if len(out.handler.messages) != 1:
            raise Violation(f"{len(out.handler.messages)} messages")
        return True, case["labels"] + ["faulty"] + case["errors"]
    if not out.ok:
        raise Violation(f"a valid document is rejected: {sut.error_text(out)}")
    content = got_content(out) or []
    found = {}
    for n in walk(content):
        if n["_type"] == "blockgroup":
            found[n["kwargs"]["id"]] = n
    k = 0
    markers = {m for t in case["texts"] for b in t["blocks"].values() for m in b.values()}
    for value in shown(content):
        if value in markers:
            raise Violation(f"the block with {value} of a group is in the flow")
    for t in case["texts"]:
        for key, g in t["uses"]:
            if key not in found:
                continue
            k += 1
            node = found[key]
            got = {p: first_text(i["block"]) for p, i in node["items"].items()}
            sut.require_equal(t["blocks"][g], got, f"blocks of the group {g!r} in {key}")
            if list(got) != list(t["blocks"][g]):
                raise Violation(f"the blocks of the group {g!r} are {list(got)}, written as {list(t['blocks'][g])}")
            if node["name"] != g:
                raise Violation(f"the name of the group {g!r} is {node['name']!r}")
    for key, g in case["texts"][0]["uses"]:
        if key not in found:
            raise Violation(f"the group {g!r} ({key}) is not in the output")
    return k > 0, case["labels"] + ["valid"]


def only_groups(x):
    return [n for n in walk(x) if n["_type"] == "blockgroup"] if x else []


CFG = Cfg(max_nodes=8, attach=5, macros=("link", "class", "footnote", "header"), inline_depth=1, isolate=5, max_lines=2,
          weights={"group": 8, "blockgroup": 5, "block": 2, "header": 2, "footnote": 1, "paragraph": 3, "list": 1, "mau": 1, "excluded": 2, "toc": 1})

ARMS = [
    Arm("flow", composite(flow), check_flow, 1300, rule="blocks of groups, inclusions of groups and other nodes in any order: each block is compared with the same block alone; non-trivial: a group is included"),
    Arm("scopes", composite(scopes(False)), check_scopes, 1300, rule="groups with the same names in nested texts (blocks, isolated or not, blocks of groups, notes, files)"),
    Arm("faults", composite(scopes(True)), check_scopes, 1300, rule="the same with repeated positions and missing groups: accepted if and only if there is none"),
    doc_arm("documents", CFG, 400, ["blockgroup", "group-block"], "documents of the model with groups", project=only_groups),
]
