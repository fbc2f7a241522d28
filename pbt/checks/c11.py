"""C11: arguments, labels and conditions attach to exactly the next node."""

from ..arms import Arm, Cfg, D, Violation, accepted, composite, doc_arm, got_content, run_case, sut

ROLES = ["", "title", "caption", "role-1", "x_y", "2", "note2", "2x", "-", "_", "a-1_b-2"]
KINDS = ["paragraph", "header", "hr", "list", "olist", "block", "shared", "raw", "source", "include", "image", "toc", "footnotes", "inline-include"]


class Gen:
    def __init__(self, d):
        self.d = d
        self.n = 0
        self.vars = {"v1": "one"}
        self.lines = []
        self.labels = set()

    def word(self):
        self.n += 1
        return f"w{self.n}"

    def noise(self):
        d = self.d
        for _ in range(d.weighted([(5, 0), (3, 1), (1, 2)])):
            k = d.pick(["", "", " ", "// comment", "////", "var"])
            if k == "////":
                self.lines += ["////", "[no]", ". no", "@if v1==none", "////"]
            elif k == "var":
                self.lines.append(d.pick([":other:one", ":other:two", ":+other:", ":-other:", ":+flag:ignored", ":-a.b-c:", ":other:{v1} x", ":a+b: spaces  ", ":mau.cfg.x:one", ":other:[no]", ":other:. no"]))
                self.labels.add("variable between")
            else:
                self.lines.append(k)

    def attach(self, boxed=True):
        """Write attachments in any order, and return what they mean."""
        d = self.d
        args, labels, cond = None, {}, True
        for _ in range(d.weighted([(2, 0), (3, 1), (3, 2), (2, 3), (2, 5), (1, 12)])):
            k = d.weighted([(3, "args" if boxed else "label"), (3, "label"), (1, "cond")])
            if k == "args":
                if args is not None:
                    self.labels.add("args twice")
                w, x = self.word(), self.word()
                form = d.pick(["u", "k", "t", "s", "all", "none"])
                args = {"args": [], "kwargs": {}, "tags": [], "internal_tags": [], "subtype": None}
                src = []
                if form in ("u", "all"):
                    args["args"].append(w)
                    src.append(w)
                if form in ("t", "all"):
                    args["tags"].append(w)
                    src.append("#" + w)
                if form in ("s", "all"):
                    args["subtype"] = x
                    src.append("*" + x)
                if form in ("k", "all"):
                    args["kwargs"]["key"] = x
                    src.append("key=" + x)
                self.lines.append("[" + ", ".join(src) + "]")
            elif k == "label":
                role = d.pick(ROLES)
                w = self.word()
                if (role or "title") in labels:
                    self.labels.add("label twice")
                labels[role or "title"] = w
                self.lines.append(f".{role} {w}")
            else:
                cond = d.chance(6)
                name = "v1"
                value = self.vars[name] if cond == d.chance(5) else "other"
                op = "==" if (value == self.vars[name]) == cond else "!="
                self.lines.append(f"@if {name}{op}{value}")
                self.labels.add("condition true" if cond else "condition false")
            self.noise()
        return args, labels, cond

    def sequence(self, depth, n):
        want = []
        for _ in range(n):
            want += self.node(depth)
            self.noise()
        if self.d.chance(3):
            # At the end of a text there is no next node.
            self.attach()
            self.labels.add("dangling")
        return want

    def node(self, depth):
        d = self.d
        kind = d.pick(KINDS)
        if kind in ("block", "shared") and depth == 0:
            kind = "hr"
        boxed = kind != "inline-include"
        if d.chance(2):
            # Never between a condition and its node.
            self.vars["v1"] = d.pick(["one", "two"])
            self.lines += ["", f":v1:{self.vars['v1']}"]
        extra = {}
        # Engines and isolation are arguments: they are the last ones.
        args, labels, cond = self.attach(boxed)
        self.labels.add(kind)
        empty = {"args": [], "kwargs": {}, "tags": [], "internal_tags": [], "subtype": None}
        want = {"type": kind, "labels": labels}
        if kind in ("raw", "source", "shared"):
            w = self.word()
            args = dict(empty, args=[w])
            self.lines.append({"raw": f"[{w}, engine=raw]", "source": f"[text, {w}, engine=source]", "shared": f"[{w}, isolate=false]"}[kind])
            if kind == "shared":
                args["kwargs"] = {"isolate": "false"}
            self.noise()
        w = self.word()
        want.update(args or empty)
        if kind == "image":
            if args is None:
                self.lines.append(f"<< image:{w}")
            else:
                # Boxed arguments: the first one is the uri.
                args = dict(empty, kwargs={"alt": w})
                want.update(args)
                self.lines += [f"[{w}, alt={w}]", "<< image"]
            extra["uri"] = w
        elif kind == "paragraph":
            self.lines += [w, ""]
        elif kind == "header":
            self.lines.append("= " + w)
        elif kind == "hr":
            self.lines.append("---")
        elif kind in ("list", "olist"):
            self.lines += [("* " if kind == "list" else "# ") + w, ""]
        elif kind in ("block", "shared"):
            delim = "=" * 4 if depth == 2 else "+" * 4
            self.lines.append(delim)
            before = dict(self.vars)
            inner = self.sequence(depth - 1, d.int(0, 3))
            if not cond:
                self.vars = before  # what is excluded has no effects
            self.lines.append(delim)
            extra["content"] = inner
        elif kind in ("raw", "source"):
            self.lines += ["----", w, "----"]
        elif kind == "include":
            self.lines.append("<< custom")
        elif kind == "inline-include":
            self.lines.append(f"<< custom:{w}, key={w}")
            want.update(dict(empty, args=[w], kwargs={"key": w}))
        else:
            self.lines.append("<< " + kind)
        want["extra"] = extra
        return [want] if cond else []


TYPES = {"hr": "horizontal-rule", "olist": "list", "shared": "block", "image": "include-image", "inline-include": "include"}


def build(d):
    g = Gen(d)
    want = g.sequence(2, d.int(1, 7))
    return {"text": "\n".join(g.lines), "env": {"v1": "one"}, "want": want, "labels": sorted(g.labels)}


def flat(nodes):
    return "".join(n.get("value", "") if n["_type"] == "text" else flat(n.get("content", [])) for n in nodes)


def compare(want, got, path):
    if len(want) != len(got) or any(TYPES.get(w["type"], w["type"]) != g["_type"] for w, g in zip(want, got)):
        raise Violation(f"{path or 'document'}: expected {[w['type'] for w in want]}, got {[g['_type'] for g in got]}")
    for i, (w, g) in enumerate(zip(want, got)):
        p = f"{path}[{i}] {w['type']}"
        for k in ("args", "kwargs", "tags", "internal_tags", "subtype"):
            if w[k] != g[k]:
                raise Violation(f"{p}: {k} are {g[k]}, expected {w[k]}")
        labels = {k: flat(v["content"]) for k, v in g["labels"].items()}
        if labels != w["labels"]:
            raise Violation(f"{p}: labels are {labels}, expected {w['labels']}")
        if "content" in w["extra"]:
            compare(w["extra"]["content"], g["content"], p)
        if "uri" in w["extra"] and w["extra"]["uri"] != g["uri"]:
            raise Violation(f"{p}: the uri is {g['uri']}, expected {w['extra']['uri']}")
        if w["type"] == "paragraph":
            for line in g["content"]:
                if line["args"] or line["kwargs"] or line["labels"]:
                    raise Violation(f"{p}: arguments or labels on a line")


def check(case):
    out = accepted(case)
    compare(case["want"], got_content(out) or [], "")
    interesting = {"args twice", "label twice", "condition true", "condition false", "variable between", "dangling"}
    return bool(interesting & set(case["labels"])), case["labels"]


# Both boxed and inline arguments of an include are an error; anything before is not.
def both(d):
    kind = d.pick(["custom", "image", "toc", "footnotes", "raw", "mau", "blockgroup"])
    boxed = d.chance(6)
    lines = []
    if boxed:
        lines.append("[boxed]")
        lines += [d.pick(["", "// c", ". label", ":v:x"]) for _ in range(d.int(0, 3))]
    else:
        # Arguments of a node before.
        lines += ["[boxed]", d.pick(["---", "text\n", "= h", "* a\n", "<< custom", "----\n----"])]
    lines.append(f"<< {kind}:f.txt" if kind != "blockgroup" else "<< blockgroup:g")
    if kind == "blockgroup":
        lines = ["[group=g, position=p]", "----", "x", "----"] + lines
    return {"text": "\n".join(lines), "files": {"f.txt": "x"}, "boxed": boxed, "kind": kind}


def check_both(case):
    out = run_case(case)
    if out.ok and case["boxed"]:
        raise Violation(f"an include of type {case['kind']} with boxed and inline arguments is accepted")
    if not out.ok and not case["boxed"]:
        raise Violation(f"an include of type {case['kind']} with inline arguments is rejected: {sut.error_text(out)}")
    return True, [case["kind"], "boxed" if case["boxed"] else "inline"]


CFG = Cfg(max_nodes=8, attach=8, cond=True, noise=6, macros=("link",), inline_depth=1, refs=False, labels=True,
          weights={"paragraph": 5, "header": 4, "list": 4, "block": 4, "hr": 4, "raw": 2, "source": 2, "image": 3, "include": 3, "rawfile": 1, "vardef": 3, "excluded": 4})

ARMS = [
    Arm("sequence", composite(build), check, 4000, rule="nodes of every kind with attachments in any order, repeated, dangling, with inert lines between; non-trivial: one of those"),
    Arm("includes", composite(both), check_both, 400, rule="includes with inline arguments with or without boxed arguments"),
    doc_arm("documents", CFG, 600, ["args", "labels", "cond-True", "cond-False", "args-overridden"], "documents of the model rich in attachments"),
]
