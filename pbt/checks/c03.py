"""C03: output depends only on the text, the files and the configuration."""

import copy
import json
import os
import subprocess
import sys

from mau import Mau
from mau.message import MauException
from mau.visitors.jinja_visitor import JinjaVisitor
from mau.visitors.yaml_visitor import YamlVisitor

from .. import boot
from ..arms import Arm, Cfg, Violation, composite, doc_case, draw_doc, st, sut
from ..gen import D
from ..soup import env_soup, text_soup
from .c01 import NODE_TYPES

BaseVisitor = sut.BaseVisitor
VISITORS = {"base": BaseVisitor, "yaml": YamlVisitor, "jinja": JinjaVisitor}
PARTS = ("content", "value", "labels", "entries", "nested_entries", "footnotes", "items", "block", "marker", "args", "kwargs", "tags", "subtype", "name", "internal_id", "public_id", "parent", "_context", "call_args")
TEMPLATES = {f"{t}.j2": "<" + t + ">" + "".join("{{ %s }};" % p for p in PARTS) for t in NODE_TYPES}

# The configuration, a single object that all the documents share.
CONFIG = {
    "mau.parser.aliases": {"tip": {"args": {"one": "a"}, "names": ["two", "one", "k"], "subtype": "warn"}, "note": {"names": ["k"]}},
    "mau.parser.source_highlight_style_aliases": {"q1": "mark-x", "q2": "mark-plus"},
    "mau.visitor.templates.custom": TEMPLATES,
    "mau.visitor.templates.prefixes": ["p1", "p2"],
}

TAIL = ["[@tip]\nword\n", "[@tip, v1]\nword\n", "[@tip, v1, v2, k=v3]\n---\n", "[#t1, #t2, @note, a, *s]\n= A header\n", "[@tip, one=x]\n<< custom:\n", "word [custom](@tip, a, b) [m](#t, #u)\n", "[@footnote, fx]\n++++\nword\n++++\n\n[footnote](fx)\n",
        "[@source, python]\n++++\na = 1:q1:\nb\n++++\n", "[@source]\n++++\na = 1:q2:\nb:+:\n++++\n", "[@raw]\n++++\nword\n++++\n", "[@nope]\nword\n", "<< toc\n\n<< footnotes\n", "[@toc]\n", "= Same\n\n= Same\n", "[header](same)\n\n[name=same]\n= Target\n", "[start=auto]\n# word\n\n[start=auto]\n# word\n",
        ".title A label\n.other B\n[@block, group=g9, position=p]\n++++\nword\n++++\n\n<< blockgroup:g9\n", "[footnote](undefined)\n", "{undefined}\n", ":tv:word\n", "{tv}\n", "[group=g9, position=p]\n++++\nx\n++++\n", "[name=h9]\n= Header\n", "[header](h9)\n", "[footnote](f9)\n", "[footnote=f9]\n++++\nword\n++++\n"]

DOCS = Cfg(max_nodes=5, weights={"header": 6, "paragraph": 6, "list": 5, "toc": 2, "footnote": 3, "footnotes": 2, "block": 3, "group": 2, "blockgroup": 2, "vardef": 3, "mau": 2, "source": 2, "excluded": 2})
PLAIN = Cfg(max_nodes=5, variables=False, cond=False, weights={"header": 6, "paragraph": 6, "list": 5, "toc": 2, "footnote": 3, "footnotes": 2, "block": 3, "group": 2, "blockgroup": 2, "vardef": 0, "source": 2})


def document(draw, d):
    """A document of one of the three kinds."""
    kind = d.weighted([(4, "model"), (3, "tail"), (3, "soup")])
    if kind == "model":
        doc, env = draw_doc(draw, DOCS)
        case = doc_case(doc, env)
        return {"kind": kind, "text": case["text"], "env": env, "files": case["files"], "expected": case["expected"]}
    if kind == "tail":
        text = "\n".join(d.pick(TAIL) for _ in range(d.int(1, 4)))
        return {"kind": kind, "text": text, "env": {}, "files": {}}
    text = text_soup(d, 6)
    files = {n: text_soup(d, 3) for n in ("f1.mau", "f2.mau", "f1.txt")} if "<<" in text else {}
    return {"kind": kind, "text": text, "env": env_soup(d), "files": files}


class Run:
    """The processing of a document, in steps."""

    def __init__(self, doc, config, turn=0, again=()):
        self.doc = doc
        env = {**doc["env"], **config}
        keys = list(env)
        turn %= len(keys)
        keys = keys[turn:] + keys[:turn]
        self.env = sut.make_env({k: env[k] for k in keys})
        self.handler = sut.Handler()
        self.mau = Mau(self.handler, self.env)
        self.error = None
        self.results = []
        self.todo = ["lex", "parse", *again]
        self.visitor = None

    @property
    def done(self):
        return not self.todo or self.error is not None

    def step(self):
        todo = self.todo.pop(0)
        with sut.files_in_cwd(self.doc["files"]), sut.limited():
            try:
                if todo == "lex":
                    self.lexer = self.mau.run_lexer(self.mau.init_text_buffer(self.doc["text"], "main.mau"))
                elif todo == "parse":
                    self.parser = self.mau.run_parser(self.lexer.tokens)
                elif todo == "toc":
                    self.results.append((todo, BaseVisitor(sut.Handler(), self.env).visit(self.parser.output.toc)))
                elif todo == "same":
                    self.visitor = self.visitor or BaseVisitor(sut.Handler(), self.env)
                    self.results.append(("base", self.visitor.visit(self.parser.output.document)))
                else:
                    self.results.append((todo, self.mau.run_visitor(VISITORS[todo], self.parser.output.document)))
            except MauException as exc:
                self.error = exc
            except (Violation, sut.Timeout):
                raise
            except Exception as exc:
                raise Violation(f"{todo} raised {sut.describe(exc)}") from exc

    def finish(self):
        while not self.done:
            self.step()
        return self

    def outcome(self):
        """What can be observed, without the results."""
        return {
            "error": sut.error_text(self),
            "messages": [(kind, repr(m)) for kind, m in self.handler.messages],
            "calls": [str((c.caller_uri, c.callee_uri, dict(c.call_arguments))) for c in self.parser.output.include_calls] if hasattr(self, "parser") else None,
            "tokens": [repr((t.type, t.value, str(t.context))) for t in self.lexer.tokens] if hasattr(self, "lexer") else None,
            "variables": {k: v for k, v in self.env.asflatdict().items()},
        }


def alone(doc):
    """Outcome and result of each visitor, each on a separate processing."""
    want = {}
    for v in ("base", "toc", "yaml", "jinja"):
        run = Run(doc, copy.deepcopy(CONFIG), again=[v]).finish()
        want[v] = dict(run.results).get(v)
        if v == "base":
            outcome = run.outcome()
    return outcome, want


def compare(doc, run, outcome, want, what):
    sut.require_equal(outcome, run.outcome(), f"{what} of {doc['text']!r}")
    for i, (v, r) in enumerate(run.results):
        sut.require_equal(want[v], r, f"{what}: rendering {i} ({v}) of {doc['text']!r}")
        if v == "base" and "expected" in doc:
            if run.error is not None:
                raise Violation(f"a valid document is rejected: {sut.error_text(run)}")
            got = sut.canon(r.get("content")) if r else None
            sut.require_equal(doc["expected"], got, f"{what}: rendering differs from the model")


RENDERINGS = ["base", "same", "toc", "jinja", "yaml", "base", "same"]


@st.composite
def histories(draw):
    d = D(draw)
    docs = [document(draw, d) for _ in range(d.int(2, 3))]
    runs = []
    for _ in range(d.int(2, 5)):
        runs.append({"doc": d.int(0, len(docs) - 1), "turn": d.int(0, 5), "again": ["base"] + [d.pick(RENDERINGS) for _ in range(d.int(0, 3))]})
    schedule = [d.int(0, len(runs) - 1) for _ in range(d.weighted([(1, 0), (3, 8), (3, 16)]))]
    return {"docs": docs, "runs": runs, "schedule": schedule}


def check_history(case):
    config = copy.deepcopy(CONFIG)
    before = copy.deepcopy(config)
    docs = case["docs"]
    want = [alone(doc) for doc in docs]
    runs = [Run(docs[r["doc"]], config, r["turn"], r["again"]) for r in case["runs"]]
    for i in case["schedule"]:
        if not runs[i].done:
            runs[i].step()
    for run in runs:
        run.finish()
    sut.require_equal(before, config, "the configuration was modified")
    for r, run in zip(case["runs"], runs):
        compare(docs[r["doc"]], run, *want[r["doc"]], "processing in a history")
    for doc, w in zip(docs, want):
        after = alone(doc)
        sut.require_equal(list(w), list(after), f"processing alone after a history of {doc['text']!r}")
    labels = [docs[r["doc"]]["kind"] for r in case["runs"]]
    labels += ["interleaved" for a, b in zip(case["schedule"], case["schedule"][1:]) if a != b][:1]
    labels += ["error" for r in runs if r.error is not None][:1]
    repeated = len({r["doc"] for r in case["runs"]}) < len(case["runs"])
    if repeated:
        labels.append("repeated")
    return any(not r.error for r in runs) and ("interleaved" in labels or repeated), labels


# A Mau object is used for many documents


@st.composite
def reuse(draw):
    d = D(draw)
    docs = []
    for _ in range(d.int(2, 4)):
        if d.chance(7):
            doc, env = draw_doc(draw, PLAIN)
            case = doc_case(doc, env)
            docs.append({"text": case["text"], "files": case["files"], "expected": case["expected"]})
        else:
            # No variables are defined.
            parts = [p for p in TAIL if not p.startswith(":")]
            docs.append({"text": "\n".join(d.pick(parts) for _ in range(d.int(1, 4))), "files": {}})
    return {"docs": docs, "order": [d.int(0, len(docs) - 1) for _ in range(d.int(2, 5))], "visitor": d.pick(["base", "base", "yaml", "jinja"])}


def check_reuse(case):
    visitor = VISITORS[case["visitor"]]

    def process(mau, handler, doc):
        with sut.files_in_cwd(doc["files"]), sut.limited():
            handler.messages.clear()
            try:
                result, error = mau.process(visitor, doc["text"], "main.mau"), None
            except MauException as exc:
                result, error = None, exc.message.text
            except (Violation, sut.Timeout):
                raise
            except Exception as exc:
                raise Violation(f"processing raised {sut.describe(exc)}") from exc
        return result, error, [(k, repr(m)) for k, m in handler.messages]

    shared = sut.Handler()
    mau = Mau(shared, sut.make_env(CONFIG))
    seen = set()
    for i in case["order"]:
        doc = case["docs"][i]
        got = process(mau, shared, doc)
        fresh = sut.Handler()
        want = process(Mau(fresh, sut.make_env(copy.deepcopy(CONFIG))), fresh, doc)
        sut.require_equal(list(want), list(got), f"a Mau object that processed other documents gives another result for {doc['text']!r}")
        if "expected" in doc:
            if got[1]:
                raise Violation(f"a valid document is rejected: {got[1]}")
            if case["visitor"] == "base":
                sut.require_equal(doc["expected"], sut.canon(got[0].get("content")) if got[0] else None, "rendered document differs from the model")
        seen.add(got[1] is None)
    return True in seen, (["error"] if False in seen else []) + [case["visitor"]]


# Processings with different configurations

PIECES = {
    "paragraph": ("word\n", ["paragraph", "paragraph-line", "text"]),
    "header": ("= word\n", ["header", "text"]),
    "rule": ("---\n", ["horizontal-rule"]),
    "custom": ("<< custom\n", ["include"]),
    "style": ("word *word*\n", ["paragraph", "paragraph-line", "text", "style"]),
    "list": ("* word\n", ["list", "list-item", "text"]),
    "block": ("++++\nword\n++++\n", ["block", "paragraph", "paragraph-line", "text"]),
    "raw": ("[engine=raw]\n++++\nword\n++++\n", ["raw", "raw-line"]),
    "alias": ("[@al]\n---\n", ["horizontal-rule"]),
    "highlight": ("[@source]\n++++\nword:@hl:\n++++\n", ["source", "source-line"]),
    "variable": ("{var}\n", ["paragraph", "paragraph-line", "text"]),
    "define": (":var:word\n", []),
    "subtype": ("[*sub]\n---\n", ["horizontal-rule"]),
}
BODY = "{{ subtype }}{{ highlight_style }}{{ value }}{{ content }}"


class WithDefaults(JinjaVisitor):
    """All the configurations share its templates."""

    default_templates = sut.make_env({"document.j2": "<default:document>" + BODY, "paragraph-line.j2": "<default:paragraph-line>" + BODY})


def configurations(d):
    configs = []
    for i in range(d.int(2, 4)):
        kinds = sorted({t for _, types in PIECES.values() for t in types} | {"document"})
        configs.append({
            "templates": [t for t in kinds if d.chance(9)], "special": d.chance(3), "pf": d.chance(3), "prefixes": d.chance(4), "defaults": d.chance(4),
            "alias": d.chance(6), "highlight": d.chance(5), "variable": d.chance(6),
        })
    runs = [{"config": d.int(0, len(configs) - 1), "pieces": [d.pick(sorted(PIECES)) for _ in range(d.int(1, 4))], "call": d.chance(3)} for _ in range(d.int(2, 6))]
    return {"configs": configs, "runs": runs}


def expected_run(i, c, run):
    """The output with a configuration, None when it must be rejected."""
    mine = {t: f"<c{i}:{t}>" for t in c["templates"]}
    if c["defaults"]:
        for t in ("document", "paragraph-line"):
            mine.setdefault(t, f"<default:{t}>")
    variable = f"v{i}" if c["variable"] else None

    def node(t, *rest, sub="None"):
        mark = mine.get(t)
        if t == "horizontal-rule":
            if c["special"] and sub == f"s{i}":
                mark = f"<c{i}:special>"
            if c["pf"] and c["prefixes"]:
                mark = f"<c{i}:pf>"
        if mark is None:
            raise KeyError(t)
        return mark + (sub if t not in ("text", "raw-line", "source-line") else "None") + "".join(rest)

    out = []
    try:
        for p in run["pieces"]:
            if p == "define":
                variable = "word"
                continue
            text = lambda w="word": node("text", w)  # noqa: E731
            para = lambda *x: node("paragraph", node("paragraph-line", *x))  # noqa: E731
            if p == "paragraph":
                out.append(para(text()))
            elif p == "header":
                out.append(node("header", text()))
            elif p == "rule":
                out.append(node("horizontal-rule"))
            elif p == "custom":
                out.append(node("include"))
            elif p == "style":
                out.append(para(text("word "), node("style", text())))
            elif p == "list":
                out.append(node("list", node("list-item", text())))
            elif p == "block":
                out.append(node("block", para(text())))
            elif p == "raw":
                out.append(node("raw", node("raw-line", "word")))
            elif p == "alias":
                if not c["alias"]:
                    return None
                out.append(node("horizontal-rule", sub=f"s{i}"))
            elif p == "highlight":
                out.append(node("source", node("source-line", f"mark{i}" if c["highlight"] else "hl")))
            elif p == "subtype":
                out.append(node("horizontal-rule", sub="sub"))
            elif p == "variable":
                if variable is None:
                    return None
                out.append(para(text(variable)))
        if not out:
            return ""
        return node("document", "\n".join(out))
    except KeyError:
        return None


def configuration(i, c):
    templates = {t + ".j2": f"<c{i}:{t}>" + (BODY if t != "source-line" else BODY + "") for t in c["templates"]}
    if c["special"]:
        templates[f"horizontal-rule.s{i}.j2"] = f"<c{i}:special>" + BODY
    if c["pf"]:
        templates["horizontal-rule.pf_p1.j2"] = f"<c{i}:pf>" + BODY
    out = {"mau.visitor.templates.custom": templates}
    if c["prefixes"]:
        out["mau.visitor.templates.prefixes"] = ["p0", "p1"]
    if c["alias"]:
        out["mau.parser.aliases"] = {"al": {"subtype": f"s{i}"}}
    if c["highlight"]:
        out["mau.parser.source_highlight_style_aliases"] = {"hl": f"mark{i}"}
    if c["variable"]:
        out["var"] = f"v{i}"
    return out


def strip_none(text):
    return text.replace("None", "")


def check_configurations(case):
    labels = set()
    for run in case["runs"]:
        i = run["config"]
        c = case["configs"][i]
        text = "\n".join(PIECES[p][0] for p in run["pieces"])
        want = expected_run(i, c, run)
        out = sut.process(text, configuration(i, c), visitor=WithDefaults if c["defaults"] else JinjaVisitor)
        what = f"configuration {i}, document {text!r}"
        if want is None:
            if out.ok:
                raise Violation(f"{what}: accepted, with something that it does not have: {out.result!r}")
            labels.add("rejected")
            continue
        if not out.ok:
            raise Violation(f"{what}: rejected: {sut.error_text(out)}")
        got = out.result or ""
        if strip_none(got) != strip_none(want):
            raise Violation(f"{what}: expected {strip_none(want)!r}, got {strip_none(got)!r}")
        labels.add("rendered")
    return len({r["config"] for r in case["runs"]}) > 1, labels


# Files that change between processings

CHANGING = ["tpl/text.j2", "tpl/header/pt_document.j2", "tpl/horizontal-rule.j2", "tpl2/text.j2", "tpl2/list-item/pt_list.j2", "f1.mau", "f1.txt", "f2.mau"]
FILE_TEXT = "= word\n\n---\n\n* word\n\n<< mau:f1.mau\n\n<< raw:f1.txt\n"


def files_arm(d):
    """Versions of files; every run sees its own. Version 0 is a file that does not exist."""
    runs = []
    for _ in range(d.int(2, 5)):
        if runs and d.chance(8):
            run = dict(runs[-1])
            for _ in range(d.int(0, 2)):
                run[d.pick(CHANGING)] = d.int(0, 3)
        else:
            run = {f: d.int(0 if f.startswith("tpl") else 1, 3) for f in CHANGING}
        runs.append(run)
    return {"runs": runs, "directory": d.pick(["tpl", "tpl/", "./tpl"])}


def check_files(case):
    labels = set()
    for run in case["runs"]:
        files = {}
        mark = {t: f"<{t}>" for t in NODE_TYPES}
        for f, v in run.items():
            if not v:
                continue
            if f.startswith("tpl"):
                files[f] = f"<{f.split('/')[0]}:{v}>{{{{ content }}}}{{{{ value }}}}"
                t = f.split("/")[1].removesuffix(".j2")
                if not (f.startswith("tpl/") and run.get("tpl2/" + f[4:])):
                    mark[t] = f"<{f.split('/')[0]}:{v}>"
            else:
                files[f] = {"f1.mau": f"= inner{v}\n\n<< mau:f2.mau\n", "f2.mau": f"= deep{v}\n", "f1.txt": f"raw{v}"}[f]
        for directory in ("tpl", "tpl2"):
            files[directory + "/ignored.txt"] = "x"
        env = {
            "mau.visitor.templates.custom": {t + ".j2": f"<{t}>" + "{{ content }}{{ value }}" for t in NODE_TYPES if t not in ("text", "header", "horizontal-rule", "list-item")},
            "mau.visitor.templates.paths": [case["directory"], "tpl2"],
        }
        needed = {"text": ("tpl/text.j2", "tpl2/text.j2"), "header": ("tpl/header/pt_document.j2",), "horizontal-rule": ("tpl/horizontal-rule.j2",), "list-item": ("tpl2/list-item/pt_list.j2",)}
        missing = any(not any(run[f] for f in fs) for fs in needed.values())
        missing = missing or not run["f1.mau"] or not run["f2.mau"] or not run["f1.txt"]
        with sut.files_in_cwd(files):
            out = sut.process(FILE_TEXT, env, visitor=JinjaVisitor)
        if missing:
            if out.ok:
                raise Violation(f"accepted, with a file that is not there any more: {[f for f, v in run.items() if not v]}")
            labels.add("missing")
            continue
        if not out.ok:
            raise Violation(f"rejected, with all the files: {sut.error_text(out)}")
        m = mark
        word = m["text"] + "word"
        inc = "<include-mau>"
        deep = inc + m["header"] + m["text"] + f"deep{run['f2.mau']}"
        want = m["document"] + "\n".join([
            m["header"] + word, m["horizontal-rule"], m["list"] + m["list-item"] + word,
            inc + m["header"] + m["text"] + f"inner{run['f1.mau']}" + deep,
            m["include-raw"] + m["raw-line"] + f"raw{run['f1.txt']}"])
        if "".join(out.result.split("\n")) != "".join(want.split("\n")):
            raise Violation(f"with the files {run}: expected {want!r}, got {out.result!r}")
        labels.add("rendered")
    return len({str(r) for r in case["runs"]}) > 1, labels


# Interpreters with other hash seeds

CHILD = """
import sys, json
sys.path[:0] = [{repo!r}, {verif!r}]
from pbt.checks import c03
c03.child()
"""


def observe(doc):
    outcome, want = alone(doc)
    return json.loads(json.dumps([outcome, want], default=str))


def child():
    docs = json.load(sys.stdin)
    print(json.dumps([observe(d) for d in docs]))


def interpreter(docs, seed):
    p = subprocess.run([sys.executable, "-c", CHILD.format(repo=boot.REPO, verif=boot.VERIF)], input=json.dumps(docs).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300,
                       env={**os.environ, "PYTHONHASHSEED": str(seed), "PYTHONIOENCODING": "utf-8"})
    if p.returncode:
        err = p.stderr.decode(errors="replace")
        if "Violation" in err:
            raise Violation("in another interpreter: " + err[-600:])
        raise RuntimeError(err)
    return json.loads(p.stdout)


@st.composite
def seeds(draw):
    d = D(draw)
    docs = [document(draw, d) for _ in range(d.int(6, 12))]
    order = list(range(len(docs)))
    for i in range(len(order) - 1, 0, -1):
        j = d.int(0, i)
        order[i], order[j] = order[j], order[i]
    return {"docs": docs, "order": order, "seeds": [d.int(0, 4000000000), d.int(0, 4000000000)]}


def check_seeds(case):
    docs = case["docs"]
    here = [observe(d) for d in docs]
    one = interpreter(docs, case["seeds"][0])
    two = interpreter([docs[i] for i in case["order"]], case["seeds"][1])
    for i, doc in enumerate(docs):
        sut.require_equal(here[i], one[i], f"another interpreter (hash seed {case['seeds'][0]}) gives another result for {doc['text']!r}")
        sut.require_equal(here[i], two[case["order"].index(i)], f"another interpreter (hash seed {case['seeds'][1]}, another order) gives another result for {doc['text']!r}")
        if "expected" in doc:
            r = one[i][1]["base"]
            if r is None:
                raise Violation(f"a valid document is rejected: {one[i][0]['error']}")
            sut.require_equal(doc["expected"], sut.canon(r.get("content")) if r else None, "rendered document differs from the model")
    labels = [d["kind"] for d in docs]
    return any(h[0]["error"] is None for h in here), labels


ARMS = [
    Arm("histories", histories, check_history, 160, rule="2-3 documents (of the model, using aliases and names, arbitrary mixtures), processed 2-5 times with interleaved steps, configuration in another order, and repeated renderings with several visitors, against each document processed on its own before and after, and against the model; non-trivial: something is accepted, and interleaved or repeated"),
    Arm("configurations", composite(configurations), check_configurations, 1200, rule="2-6 documents processed with 2-4 configurations of different templates, prefixes, aliases, highlights and variables, against an interpreter: nothing of another configuration is used; non-trivial: two configurations are used"),
    Arm("files", composite(files_arm), check_files, 800, rule="2-5 processings of a document, between which template files in directories and included files are changed, added and removed, against the expected output; non-trivial: two of them have different files"),
    Arm("reuse", reuse, check_reuse, 250, rule="documents that define no variables, processed by a single Mau object, against fresh objects; non-trivial: at least one accepted"),
    Arm("seeds", seeds, check_seeds, 16, 200, rule="6-12 documents in two other interpreters, with other hash seeds and another order, against this one; non-trivial: at least one accepted"),
]
