"""C15: footnotes are numbered in order, and mentions, lists and bodies agree."""

import re

from ..arms import Arm, Cfg, Violation, accepted, composite, doc_arm, got_content, run_case, sut, walk
from ..gen import SIMPLE, name_arg, quote_arg
from .c14 import wrapped

NAMES = ["a", "b", "c", "note 1", "été", "x-1.y", "A", " a", "b "]


class Gen:
    """Texts with scopes. A scope is {"bodies": [[name, id]], "mentions": [[key, name]], "lists": [id]}."""

    def __init__(self, d, faults):
        self.d = d
        self.faults = faults
        self.lines = []
        self.n = 0
        self.scopes = []
        self.files = {}
        self.labels = set()

    def new_scope(self):
        s = {"bodies": [], "mentions": [], "lists": []}
        self.scopes.append(s)
        return s

    def number(self):
        self.n += 1
        return self.n

    def mention(self, scope, hidden=False):
        d = self.d
        n = self.number()
        name = d.pick(NAMES)
        value = name_arg(name, d.chance(3))
        src = d.pick(["", "", "name="]) + value
        if not hidden:
            scope["mentions"].append([f"K{n}", name])
        link = f"K{n} [footnote]({src})"
        return d.pick([link, link, f"*{link}*", f"before _{link}_ after", f"`v`{link}"])

    def bare(self, scope, hidden):
        """A mention that can be written inside of quotes."""
        n = self.number()
        name = self.d.pick([x for x in NAMES if " " not in x])
        if not hidden:
            scope["mentions"].append([f"K{n}", name])
        return f"K{n} [footnote]({name})"

    def define(self, scope, depth, name=None, hidden=False):
        d = self.d
        names = NAMES if self.faults or hidden else [n for n in NAMES if n not in [b[0] for b in scope["bodies"]]]
        if name is None:
            if not names:
                return
            name = d.pick(names)
        n = self.number()
        args = [f"footnote={name_arg(name, d.chance(5))}"]
        kind = d.weighted([(4, "plain"), (2, "isolated"), (3, "shared")])
        if kind == "shared":
            args.append("isolate=false")
        for extra in ["#tag", "pos"]:
            if d.chance(2):
                args.insert(0, extra)
        if d.chance(2):
            args.append("key=value")
        self.lines.append(f"[{', '.join(args)}]")
        if d.chance(2):
            self.lines.append(". label of the note")
        delim = "!!!!"
        self.lines.append(delim)
        self.lines.append(f"B{n}")
        if not hidden:
            scope["bodies"].append([name, f"B{n}"])
        if kind == "shared":
            # Content in the same scope.
            self.lines += d.pick([[], ["", "* item"], ["MENTION"], ["", "---", "MENTION"]])
            if self.lines[-1] == "MENTION":
                self.lines[-1] = self.mention(scope, hidden)
        elif kind == "isolated" and not hidden:
            self.lines.append("")
            inner = self.new_scope()
            for _ in range(d.int(1, 2)):
                self.lines += [self.mention(inner), ""]
            for x in dict.fromkeys(m[1] for m in inner["mentions"]):
                m = self.number()
                inner["bodies"].append([x, f"B{m}"])
                self.lines += [f"[footnote={name_arg(x)}]", "****", f"B{m}", "****"]
        self.lines.append(delim)
        if d.chance(5):
            self.lines.append("")

    def fill(self, scope, depth, n):
        d = self.d
        for _ in range(n):
            k = d.weighted([(6, "define"), (6, "mention"), (3, "notes"), (2, "list"), (2, "header"), (2, "label"), (1, "excluded"), (2, "shared"), (2, "isolated"), (1, "group"), (1, "include"), (1, "class")])
            if k == "define":
                self.define(scope, depth)
                continue
            if k == "mention":
                self.lines += [self.mention(scope) for _ in range(d.int(1, 2))] + [""]
            elif k == "notes":
                i = f"F{self.number()}"
                scope["lists"].append(i)
                self.lines += d.pick([[f"<< footnotes:id={i}"], [f"[id={i}]", "<< footnotes"]]) + d.pick([[], [""]])
            elif k == "list":
                self.lines += [f"{d.pick(['*', '#'])} {self.mention(scope)}", f"** {self.mention(scope)}", ""]
            elif k == "header":
                self.lines += [f"{'=' * d.int(1, 3)} {self.mention(scope)}"]
            elif k == "label":
                self.lines += [f". {self.mention(scope)}", d.pick(["text", "---", "* item", "<< custom", "%%%%\n%%%%"]), ""]
            elif k == "class":
                self.lines += [wrapped(d, lambda hidden: self.bare(scope, hidden), self.number, headers=True), ""]
            elif k == "excluded":
                self.lines.append("@if v1==no")
                if d.chance(6):
                    self.define(scope, depth, hidden=True)
                else:
                    self.lines += [self.mention(scope, hidden=True), ""]
            elif depth == 0:
                self.lines.append("---")
                continue
            elif k == "include":
                name = f"f{self.number()}.mau"
                keep, self.lines = self.lines, []
                inner = self.new_scope()
                self.fill(inner, 0, d.int(1, 4))
                self.complete(inner)
                self.files[name] = "\n".join(self.lines)
                self.lines = keep + [f"<< mau:{name}"]
            else:
                shared = k == "shared" or (k == "group" and d.chance(5))
                args = ["isolate=false"] if shared else []
                inner = scope if shared else self.new_scope()
                if k == "group":
                    group = f"g{self.number()}"
                    args.append(f"group={group}, position=p")
                delim = "+" * 4 if depth == 2 else "~" * 4
                if args:
                    self.lines.append(f"[{', '.join(args)}]")
                self.lines.append(delim)
                self.fill(inner, depth - 1, d.int(1, 4))
                if not shared:
                    self.complete(inner)
                self.lines.append(delim)
                if k == "group":
                    self.lines += [f"<< blockgroup:{group}", ""]
            self.labels.add(k)

    def complete(self, scope):
        """Define what is mentioned (unless faults are wanted)."""
        if self.faults and self.d.chance(4):
            return
        while True:
            defined = [b[0] for b in scope["bodies"]]
            missing = [m[1] for m in scope["mentions"] if m[1] not in defined]
            if not missing:
                break
            self.lines.append("")
            self.define(scope, 0, missing[0])
        if self.d.chance(5):
            i = f"F{self.number()}"
            scope["lists"].append(i)
            self.lines += ["", f"<< footnotes:id={i}"]


def build(faults):
    def inner(d):
        g = Gen(d, faults)
        scope = g.new_scope()
        g.fill(scope, 2, d.int(1, 8))
        g.complete(scope)
        return {"text": "\n".join(g.lines), "env": {"v1": "yes"}, "files": g.files, "scopes": g.scopes, "labels": sorted(g.labels)}

    return inner


def faults_of(case):
    out = []
    for s in case["scopes"]:
        names = [b[0] for b in s["bodies"]]
        out += [f"{n!r} is defined twice" for n in set(names) if names.count(n) > 1]
        out += [f"the unknown {n!r} is mentioned" for _, n in s["mentions"] if n not in names]
    return out


def flat(nodes):
    return "".join(n["value"] if n["_type"] in ("text", "verbatim") else flat(n.get("content", [])) for n in nodes)


def mentions(x, found, bodies=()):
    """Mentions with the key that precedes them, and the notes they are in.
    Mentions inside of a note that is shown inside itself have no content."""
    if isinstance(x, dict):
        if x.get("_type") == "footnote":
            first = flat(x["content"])
            m = re.match(r"B\d+", first)
            bodies = bodies + ((m.group() if m else "empty"),)
        for v in x.values():
            mentions(v, found, bodies)
    elif isinstance(x, list):
        for a, b in zip(x, x[1:]):
            if isinstance(b, dict) and b.get("_type") == "macro-footnote" and isinstance(a, dict) and a.get("_type") == "text":
                m = re.search(r"(K\d+) $", a["value"])
                if m:
                    found.setdefault(m.group(1), []).append((b, bodies))
        for v in x:
            mentions(v, found, bodies)


def outside(x):
    """All the text that is not in a footnote."""
    if isinstance(x, dict):
        if x.get("_type") == "footnote":
            return
        if isinstance(x.get("value"), str):
            yield x["value"]
        for v in x.values():
            yield from outside(v)
    elif isinstance(x, list):
        for v in x:
            yield from outside(v)


def check(case):
    out = run_case(case)
    faults = faults_of(case)
    if faults:
        if out.ok:
            raise Violation(f"accepted, but {faults[0]}")
        if len(out.handler.messages) != 1:
            raise Violation(f"{faults[0]}: {len(out.handler.messages)} messages")
        return True, case["labels"] + ["faulty", "duplicate" if "twice" in faults[0] else "unknown"]
    if not out.ok:
        raise Violation(f"a valid document is rejected: {sut.error_text(out)}")
    content = got_content(out) or []
    for value in outside(content):
        if re.search(r"\bB\d+", value):
            raise Violation(f"the body of a footnote is in the flow: {value!r}")
    found = {}
    mentions(content, found)
    lists = {}
    for n in walk(content):
        if n["_type"] == "footnotes":
            lists.setdefault(n["kwargs"]["id"], []).append(n)
    total = 0
    for s in case["scopes"]:
        names = [b[0] for b in s["bodies"]]
        shown = {}
        for key, name in s["mentions"]:
            number = names.index(name)
            for macro, bodies in found.get(key, []):
                total += 1
                body = s["bodies"][number][1]
                check_note(macro["footnote"], name, number + 1, body, body in bodies, f"mention {key}", shown)
        for i in s["lists"]:
            for node in lists.get(i, []):
                total += 1
                items = [x["footnote"] for x in node["footnotes"]]
                if [x["name"] for x in items] != names:
                    raise Violation(f"the list {i} has the footnotes {[x['name'] for x in items]}, defined {names}")
                for k, note in enumerate(items):
                    check_note(note, names[k], k + 1, s["bodies"][k][1], None, f"list {i}", shown)
    # The ones in the flow of the document.
    first = case["scopes"][0]
    flow_keys = set(re.findall(r"K\d+", " ".join(outside(content))))
    for key, name in first["mentions"]:
        if key in flow_keys and key not in found:
            raise Violation(f"the mention {key} of {name!r} is not a footnote in the output")
    return total > 0, case["labels"] + ["valid"]


def check_note(note, name, number, body, inside, what, shown):
    if not isinstance(note, dict) or note.get("_type") != "footnote":
        raise Violation(f"{what}: the footnote {name!r} is {sut.brief(note)}")
    if note["name"] != name or note["public_id"] != str(number):
        raise Violation(f"{what}: footnote {note['name']!r} number {note['public_id']!r}, expected {name!r} number {number}")
    if inside:  # a note inside itself
        return
    if inside is None and not note["content"]:
        raise Violation(f"{what}: the footnote {name!r} has no content")
    text = flat(note["content"])
    if not re.match(body + r"(?!\d)", text):
        raise Violation(f"{what}: the footnote {name!r} has the content {text!r}, expected {body}")
    iid = shown.setdefault(("id", name), note["internal_id"])
    if note["internal_id"] != iid or not iid:
        raise Violation(f"{what}: the footnote {name!r} has the id {note['internal_id']!r} and {iid!r} elsewhere")
    if "footnote" not in {n["_type"] for c in note["content"] for n in walk(c)}:
        sut.require_equal(shown.setdefault(("content", name), note["content"]), note["content"], f"{what}: content of the footnote {name!r} differs from elsewhere")
    for (kind, other), value in shown.items():
        if kind == "id" and other != name and value == iid:
            raise Violation(f"the footnotes {name!r} and {other!r} have the same id {iid!r}")


def flow_case(d):
    """Mentions, definitions and lists in the flow of a document, completely."""
    n = d.int(1, 5)
    names = [f"{d.pick(NAMES)}{i}" for i in range(n)]
    parts = []
    bodies = {}
    for x in names:
        lines = [d.pick([f"text {x}", f"*bold* {x}", f"* item {x}", f"= H {x}", "---", "// comment", f":v:{x}\n{{v}}"]) for _ in range(d.int(0, 2))]
        bodies[x] = "\n\n".join(lines)
        parts.append(("body", x))
    for _ in range(d.int(1, 6)):
        parts.insert(d.int(0, len(parts)), d.pick([("mention", d.pick(names)), ("list", None)]))
    custom = d.chance(3)
    return {"bodies": bodies, "parts": parts, "custom": custom}


def check_flow(case):
    env = {}
    if case["custom"]:
        def function(footnote):
            return f"custom-{footnote.name}-{footnote.public_id}"

        env["mau.parser.footnote_unique_id_function"] = function
    text = ""
    for kind, name in case["parts"]:
        if kind == "body":
            text += f"[footnote={quote_arg(name)}]\n!!!!\n{case['bodies'][name]}\n!!!!\n"
        elif kind == "mention":
            text += f"[footnote]({name})\n\n"
        else:
            text += "<< footnotes\n"
    out = accepted({"text": text, "env": env})
    content = got_content(out) or []
    names = [n for k, n in case["parts"] if k == "body"]
    want = []
    for i, n in enumerate(names):
        alone = got_content(accepted({"text": case["bodies"][n], "env": {}}))
        data = {"_type": "footnote", "args": [], "kwargs": {}, "tags": [], "internal_tags": [], "subtype": None, "name": n, "public_id": str(i + 1), "content": alone or []}
        ids = [x["internal_id"] for x in walk(content) if x["_type"] == "footnote" and x["name"] == n]
        data["internal_id"] = f"custom-{n}-{i + 1}" if case["custom"] else (ids or [None])[0]
        want.append(data)
    ids = [w["internal_id"] for w in want if w["internal_id"] is not None]
    if len(set(ids)) != len(ids):
        raise Violation(f"the ids of the footnotes are not different: {ids}")
    k = 0
    for kind, name in case["parts"]:
        if kind == "body":
            continue
        if k >= len(content):
            raise Violation("mentions or lists are missing in the output")
        node = content[k]
        k += 1
        if kind == "mention":
            got = node["content"][0]["content"][0]["footnote"]
            sut.require_equal(want[names.index(name)], got, f"mention of {name!r}")
        else:
            sut.require_equal(want, [x["footnote"] for x in node["footnotes"]], "list of footnotes")
    if k != len(content):
        raise Violation(f"unexpected node in the flow: {sut.brief(content[k])}")
    return True, ["custom" if case["custom"] else "default"]


def only_notes(x):
    return [n for n in walk(x) if n["_type"] in ("macro-footnote", "footnotes")] if x else []


CFG = Cfg(max_nodes=9, attach=3, macros=("footnote", "footnote", "class", "if"), inline_depth=2, isolate=6,
          weights={"footnote": 6, "block": 4, "header": 1, "toc": 1, "paragraph": 8, "list": 2, "footnotes": 3, "mau": 2, "excluded": 2, "group": 1, "blockgroup": 1})

ARMS = [
    Arm("scopes", composite(build(False)), check, 1500, rule="footnotes defined, mentioned and listed anywhere in nested scopes (shared and isolated blocks, bodies of other notes, groups, files); non-trivial: a mention or a list is in the output"),
    Arm("faults", composite(build(True)), check, 1500, rule="the same with unknown and repeated names: accepted if and only if every scope defines each footnote once and all mentioned ones"),
    Arm("flow", composite(flow_case), check_flow, 1200, rule="definitions, mentions and lists in the flow: the content of each is compared with that of its text alone; default and configured ids"),
    doc_arm("documents", CFG, 400, ["macro-footnote", "footnotes"], "documents of the model with footnotes", project=only_notes),
]
