"""C29: debug tags report nodes to the message handler and change nothing else."""

import logging
from collections import Counter

from mau.message import LogMessageHandler
from mau.visitors.jinja_visitor import JinjaVisitor
from mau.visitors.yaml_visitor import YamlVisitor

from ..arms import Arm, Violation, composite, run_case, sut, walk
from ..sut import BaseVisitor
from .c03 import TEMPLATES

MARK, DEBUG, OTHER = "mau:XXXXX", "mau:debug", "mau:debux"  # the same length: positions do not change
SLOTS = ["", "#t", "#mau:XXXXX", "#mau:XXXXX, #t, *s", "#t, #mau:XXXXX", "#mau:other", "#debug"]
FILES = ("one.mau", "two.mau")
REFERENCES = {"header": ("macro-header", "toc-item"), "footnote": ("macro-footnote", "footnotes-item")}


# Each type has several templates that can match, for different tags, subtypes and prefixes.
CONFIG = {
    "mau.visitor.templates.custom": {
        "".join(n): f"({n[1]})" + t for k, t in TEMPLATES.items() if k.endswith(".j2")
        for n in [(k[:-3], "", ".j2"), (k[:-3], ".tg_t", ".j2"), (k[:-3], ".s", ".j2"), (k[:-3], ".pf_p", ".j2"), (k[:-3], ".s.tg_t", ".j2")] if n[1] != ".pf_p" or k in ("header.j2", "macro.j2")
    },
    "mau.visitor.templates.prefixes": ["p", "q"],
}


class Gen:
    def __init__(self, d):
        self.d = d
        self.files = {}
        self.n = 0
        self.groups = []
        self.labels = set()

    def slot(self, *other):
        """Arguments with tags, unnamed before named."""
        s = self.d.pick(SLOTS)
        args = [a for a in other if "=" not in a] + ([s] if s else []) + [a for a in other if "=" in a]
        return ", ".join(args)

    def args(self, lines, *other):
        a = self.slot(*other)
        if a:
            lines.append(f"[{a}]")

    def name(self):
        self.n += 1
        return f"n{self.n}"

    def text(self, depth=1):
        d = self.d
        kind = d.pick(["word", "word", "macro", "style", "two", "class", "verbatim"])
        if kind == "macro":
            self.labels.add("macro")
            a = self.slot("A")
            return f"[kbd]({a})"
        if kind == "verbatim":
            return "`#mau:debug`"
        if depth and kind == "style":
            return "*" + self.text(depth - 1) + "*"
        if depth and kind == "two":
            return self.text(depth - 1) + " " + self.text(depth - 1)
        if depth and kind == "class":
            inner = self.text(0)
            return f'[class]("{inner}", c1)'
        return d.pick(["word", "#mau:debug", "W é"])

    def title(self, lines):
        if self.d.chance(3):
            self.labels.add("label")
            lines.append(".title " + self.text())

    def nodes(self, depth, count, inner=False):
        d = self.d
        out = []
        for _ in range(d.int(1, count)):
            kinds = ["paragraph", "paragraph", "lines", "header", "hr", "list", "raw", "source", "toc", "footnotes",
                     "custom", "boxed", "image"]
            if depth:
                kinds += ["block", "block", "isolate", "include", "group", "group", "footnote"]
            kind = d.pick(kinds)
            self.labels.add(kind)
            lines = []
            self.title(lines)
            if kind in ("paragraph", "lines"):
                self.args(lines)
                lines.append("W " + self.text())
                if kind == "lines":
                    lines.append("V " + self.text())
            elif kind == "header":
                name = self.name()
                self.args(lines, f"name={name}")
                lines.append("=" * d.int(1, 3) + " W " + self.text())
                if d.chance(5):
                    lines += ["", f"Link [header]({name})" if d.chance(5) else f'Link [header]({name}, "see")']
            elif kind == "hr":
                self.args(lines)
                lines.append("---")
            elif kind == "list":
                self.args(lines)
                lines.append("* W " + self.text())
                if d.chance(5):
                    lines.append("** W " + self.text())
            elif kind == "raw":
                self.args(lines, "engine=raw")
                lines += ["++++", "#mau:debug", "", "text", "++++"]
            elif kind == "source":
                self.args(lines, "engine=source", *(["callouts=:"] if d.chance(1) else []))
                lines += ["++++", "a = 1", "b :1:", "++++"]
            elif kind in ("toc", "footnotes"):
                if d.chance(5):
                    self.args(lines)
                    lines.append(f"<< {kind}")
                else:
                    a = self.slot()
                    lines.append(f"<< {kind}:{a}" if a else f"<< {kind}")
            elif kind == "image":
                a = self.slot("/img.jpg")
                lines.append(f"<< image:{a}")
            elif kind == "custom":
                lines.append("<< custom:" + self.slot("A"))
            elif kind == "boxed":
                self.args(lines, "A")
                lines.append("<< custom")
            elif kind in ("block", "isolate"):
                self.args(lines, *(["isolate=true"] if kind == "isolate" else []))
                c = "*" if depth == 2 else "#"
                lines += [c * 4, *self.nodes(depth - 1, 3, True), c * 4]
            elif kind == "include":
                left = [f for f in FILES if f not in self.files]
                if not left or inner:
                    lines.append("W text")
                else:
                    self.files[left[0]] = ""
                    lines.append("<< mau:" + self.slot(left[0]))
                    self.files[left[0]] = "\n".join(self.nodes(depth - 1, 3, True)) + "\n"
            elif kind == "group":
                g = self.name()
                blocks = []
                for i in range(d.int(1, 3)):
                    self.args(blocks, f"group={g}", f"position=p{i}")
                    blocks += ["%%%%", "W " + self.text(), "%%%%", ""]
                self.groups.append(g)
                if d.chance(7):
                    lines.append("<< blockgroup:" + self.slot(f"group={g}"))
                    lines = blocks + lines
                else:
                    self.labels.add("hidden group")
                    lines = blocks + lines + ["W end"]
            elif kind == "footnote":
                name = self.name()
                lines.append(f"Note [footnote]({name})")
                if d.chance(5):
                    lines += ["", *self.nodes(0, 1, True)]
                lines.append("")
                self.args(lines, f"footnote={name}")
                lines += ["~~~~", "W " + self.text(), "~~~~"]
            out += [*lines, ""]
        return out


def build(d):
    g = Gen(d)
    lines = g.nodes(2, 5)
    return {"text": "\n".join(lines) + "\n", "files": g.files, "labels": sorted(g.labels)}


def key(t, context):
    return (t, context["source"], context["start_line"], context["start_column"], context["end_line"], context["end_column"])


def adjusted(context):
    """The position as messages show it: lines count from 1."""
    return {**context, "start_line": context["start_line"] + 1, "end_line": context["end_line"] + 1}


def message_key(message):
    c = message.context
    return key(message.node_type, c if isinstance(c, dict) else c.asdict())


def reported(out, what):
    for kind, message in out.handler.messages:
        if kind != "debug":
            raise Violation(f"{what}: a message of type {kind} for a valid document")
    return [m for _, m in out.handler.messages]


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append((record.levelno, record.getMessage()))


def with_tag(case, tag):
    return {**case, "text": case["text"].replace(MARK, tag), "files": {k: v.replace(MARK, tag) for k, v in case["files"].items()}}


def renamed(x):
    """The result with the other tag in the place of the debug one."""
    if isinstance(x, dict):
        return {k: ["debux" if t == "debug" else t for t in v] if k == "internal_tags" else renamed(v) for k, v in x.items()}
    return [renamed(v) for v in x] if isinstance(x, list) else x


def run(case, visitor):
    out = run_case({**case, "env": CONFIG}, visitor=visitor)
    if not out.ok:
        raise Violation(f"a valid document is rejected: {sut.error_text(out)}")
    return out


def tagged(result):
    """The rendered nodes that have the tag, and how many times each is shown. A header in a link or in a
    table of contents and a footnote in its link only give their data: they are reported in their own place."""
    found = {}
    counts = Counter()
    for n in walk(result):
        if "debug" in n.get("internal_tags", []):
            k = key(n["_type"], adjusted(n["_context"]))
            found.setdefault(k, []).append(n)
            counts[k] += 1
    return found, counts


def check(case):
    case, other = with_tag(case, DEBUG), with_tag(case, OTHER)
    out = run(case, BaseVisitor)
    messages = reported(out, "with the tag")
    found, counts = tagged(out.result)
    got = Counter(message_key(m) for m in messages)
    for k in got:
        if k not in found:
            raise Violation(f"a debug message for {k}, that is not a node shown with the tag")
    for k in found:
        if not got[k]:
            raise Violation(f"no debug message for {k}, shown with the tag")
        if got[k] > counts[k]:
            raise Violation(f"{got[k]} debug messages for {k}, shown {counts[k]} times")
    for m in messages:
        k = message_key(m)
        if not any(sut.diff(n, m.data) is None for n in found[k]):
            raise Violation(f"the message for {k} does not carry its data: {sut.diff(found[k][0], m.data)}")

    plain = run(other, BaseVisitor)
    if reported(plain, "without the tag"):
        raise Violation("a debug message for a document without debug tags")
    sut.require_equal(renamed(out.result), plain.result, "the debug tag changes the result")

    for visitor in (YamlVisitor, JinjaVisitor):
        name = visitor.__name__
        a, b = run(case, visitor), run(other, visitor)
        sets = {message_key(m) for m in reported(a, name)}
        if sets != set(found):
            odd = sorted(sets ^ set(found), key=str)
            raise Violation(f"{name} does not report the same nodes as the base visitor: {odd[0]}")
        if visitor is JinjaVisitor:
            templates(reported(a, name))
        if reported(b, name):
            raise Violation(f"{name}: a debug message for a document without debug tags")
        if not isinstance(a.result, str) or a.result.replace("debug", "debux") != b.result.replace("debug", "debux"):
            raise Violation(f"{name}: the debug tag changes the output")

    log(case, messages)
    return bool(messages), case["labels"] + sorted({"reported " + k[0] for k in found}) + (["several times"] if max(counts.values(), default=0) > 1 else [])


def templates(messages):
    """The message names the templates that match, the one that is used first."""
    for m in messages:
        t = m.data["_type"]
        sub, tag = m.data["subtype"] == "s", "t" in m.data["tags"]
        want = [t + ".pf_p"] if t in ("header", "macro") else []
        want += [n for n, ok in [(t + ".s.tg_t", sub and tag), (t + ".s", sub), (t + ".tg_t", tag), (t + "", True)] if ok]
        got = (m.additional_info or {}).get("Matching templates")
        if got is None or got[:1] != want[:1] or sorted(got) != sorted(want):
            raise Violation(f"the message for {message_key(m)} names the templates {got}, those that match are {want}")


def log(case, messages):
    """The handler of the command line writes the type of each reported node, at the given level."""
    for level in (None, logging.WARNING):
        logger = logging.Logger("verif")
        records = Records()
        logger.addHandler(records)
        handler = LogMessageHandler(logger) if level is None else LogMessageHandler(logger, debug_logging_level=level)
        with sut.files_in_cwd(case["files"]):
            out = sut.process(case["text"], CONFIG, handler=handler)
        if not out.ok:
            raise Violation("a valid document is rejected with the log handler")
        # Values can have line breaks, so lines are searched in the whole records.
        want = Counter(m.node_type for m in messages)
        got = Counter()
        for _, line in records.lines:
            if "Node type: " in line:
                got[line.split("Node type: ", 1)[1]] += 1
        if want != got:
            raise Violation(f"the log handler writes about {dict(got)} and not about {dict(want)}")
        if any(n != (level or logging.INFO) for n, _ in records.lines):
            raise Violation(f"debug messages are not logged at the level {level or logging.INFO}")


ARMS = [
    Arm("tags", composite(build), check, 400, 6000, rule="at least one node is reported"),
]
