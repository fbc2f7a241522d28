"""C20: included files render as if processed on their own with the given variables."""

import os
import posixpath

import hypothesis

from ..arms import Arm, Cfg, D, Root, Violation, accepted, composite, doc_arm, doc_case, draw_doc, draw_env, got_content, run_case, st, sut, walk
from ..docgen import Doc, Var
from ..gen import SIMPLE, quote_arg, word
from ..soup import env_soup, text_soup

# --------------------------------------------------------------------------
# Graphs of files
# --------------------------------------------------------------------------

FILES = ["main.mau", "a.mau", "b.mau", "sub/c.mau", "d d.txt", "sub/main.mau", "é.mau"]
VARS = ["v1", "v2", "ns.x", "a+b-C.1", "-x", "x-", "x"]
WRAPS = ["plain", "plain", "plain", "block", "shared", "note", "group", "nested"]


def alias(d, name):
    """Another way to write the path of a file."""
    return d.pick(["./" + name, "sub/../" + name, ".//" + name, "sub/.././" + name])


def graph(cyclic):
    def inner(d):
        names = FILES[:d.int(2, 6)]
        # Without loops each file includes only the following ones.
        files = {}
        for i, name in enumerate(names):
            targets = names if cyclic else names[i + 1:]
            items = []
            for _ in range(d.int(0 if i else 1, 4)):
                k = d.weighted([(4, "text"), (3, "def"), (6, "inc"), (1, "excluded"), (2, "guarded"), (1, "missing")])
                if k == "text":
                    items.append(["text", [d.pick(VARS + (["call:z", "z:call:z"] if i and d.chance(1) else [])) for _ in range(d.int(0, 2))] if d.chance(6) else []])
                elif k == "def":
                    items.append(["def", d.pick([v for v in VARS if v[0] != "-"]), d.pick(SIMPLE)])
                elif k == "missing":
                    if d.chance(1):
                        items.append(["inc", "missing.mau", "plain", {}, True])
                elif targets:
                    t = d.pick(targets)
                    if d.chance(2):
                        t = alias(d, t)
                    args = {d.pick(VARS + ["new", "call:z", "z:call:z"]): d.pick(SIMPLE + ["", "", ""]) for _ in range(d.weighted([(5, 0), (3, 1), (1, 2)]))}
                    if k == "inc":
                        items.append(["inc", t, d.pick(WRAPS), args, d.chance(7)])
                    elif k == "excluded":
                        items.append(["guarded", "v1", "never", t, args, True])
                    else:
                        items.append(["guarded", d.pick(VARS), d.pick(SIMPLE), t, args, d.chance(8)])
            files[name] = items
        env = {v: d.pick(SIMPLE) for v in VARS if d.chance(8)}
        expected, calls, error = interpret(files, env)
        number = [0]
        texts = {name: write(items, number) for name, items in files.items()}
        return {"text": texts.pop("main.mau"), "files": {**texts, **({"sub/x.txt": ""} if not any(x.startswith("sub/") for x in texts) else {})}, "env": env, "expected": expected, "calls": calls, "error": error}

    return inner


def write(items, number):
    lines = []
    for x in items:
        number[0] += 1
        n = number[0]
        if x[0] == "text":
            lines += [" ".join(["text"] + [f"{v}={{{v}}}" for v in x[1]]), ""]
        elif x[0] == "def":
            lines.append(f":{x[1]}:{x[2]}")
        elif x[0] == "guarded":
            lines += [f"@if {x[1]}=={x[2]}", include(x[3], x[4], x[5])]
        else:
            line = include(x[1], x[3], x[4])
            wrap = x[2]
            if wrap == "plain":
                lines.append(line)
            elif wrap == "block":
                lines += ["++++", line, "++++"]
            elif wrap == "shared":
                lines += ["[isolate=false]", "++++", line, "++++"]
            elif wrap == "nested":
                lines += ["++++", "****", line, "****", "++++"]
            elif wrap == "group":
                lines += [f"[group=g{n}, position=p]", "++++", line, "++++", f"<< blockgroup:g{n}"]
            else:
                lines += [f"[footnote=n{n}]", "++++", line, "++++", f"[footnote](n{n})", ""]
    return "\n".join(lines)


def include(uri, args, passing):
    parts = [quote_arg(uri) if " " in uri else uri]
    if not passing:
        parts.append("pass_environment=false")
    parts += [f"call:{k}=" + (v or '""') for k, v in args.items()]
    return "<< mau:" + ", ".join(parts)


class Fault(Exception):
    pass


def interpret(files, env):
    """What the inclusion of files means: (events, calls, error)."""
    steps = [0]
    calls = []
    # "main.mau" in another directory is another file.
    def run(name, uri, env, active):
        steps[0] += 1
        if steps[0] > 60:
            hypothesis.reject()
        events = []
        for x in files[name]:
            if x[0] == "text":
                for v in x[1]:
                    if v not in env:
                        raise Fault(f"undefined {v}")
                events.append(" ".join(["text"] + [f"{v}={env[v]}" for v in x[1]]))
                continue
            if x[0] == "def":
                env[x[1]] = x[2]
                continue
            if x[0] == "guarded":
                _, var, value, target, args, passing = x
                if var not in env:
                    raise Fault(f"undefined {var}")
                if env[var] != value:
                    continue
                wrap = "plain"
            else:
                _, target, wrap, args, passing = x
            real = posixpath.normpath(target)
            if real in active:
                raise Fault("loop")
            if real not in files:
                raise Fault("missing")
            calls.append([uri, target, args])
            inner = run(real, target, {**(env if passing else {}), **args}, active + (real,))
            event = [target, inner]
            if wrap in ("block", "shared", "group", "note"):
                event = [wrap, [event]]
            elif wrap == "nested":
                event = ["block", [["block", [event]]]]
            events.append(event)
        return events

    try:
        return run("main.mau", "main.mau", dict(env), ("main.mau",)), calls, None
    except Fault as exc:
        return None, None, str(exc)


def events(nodes):
    out = []
    for n in nodes or []:
        t = n["_type"]
        if t == "paragraph":
            first = n["content"][0]["content"][0]
            if first["_type"] == "macro-footnote":
                out.append(["note", events(first["footnote"]["content"])])
            else:
                out.append("".join(x["value"] for x in n["content"][0]["content"]))
        elif t == "include-mau":
            out.append([n["uri"], events(n["content"])])
        elif t == "block":
            out.append(["shared" if n["kwargs"].get("isolate") == "false" else "block", events(n["content"])])
        elif t == "blockgroup":
            out.append(["group", events(n["items"]["p"]["block"]["content"])])
        else:
            raise Violation(f"unexpected node {t}")
    return out


def check_graph(case):
    out = run_case(case)
    if case["error"]:
        if out.ok:
            raise Violation(f"accepted, expected an error: {case['error']}")
        if len(out.handler.messages) != 1:
            raise Violation(f"{len(out.handler.messages)} messages for {case['error']}")
        return True, ["error " + case["error"].split(" ")[0]]
    if not out.ok:
        raise Violation(f"a valid inclusion is rejected: {sut.error_text(out)}")
    sut.require_equal(case["expected"], events(got_content(out)), "content of the document with its inclusions")
    got = [[c.caller_uri, c.callee_uri, dict(c.call_arguments)] for c in out.parser.output.include_calls]
    sut.require_equal(sorted(case["calls"], key=str), sorted(got, key=str), "recorded calls")
    return bool(case["calls"]), [f"{min(len(case['calls']), 5)} calls"]


# --------------------------------------------------------------------------
# A file included and alone
# --------------------------------------------------------------------------


DOCS = Cfg(max_nodes=6)


@st.composite
def alone(draw):
    d = D(draw)
    passing = d.chance(6)
    env, vars_ = draw_env(d, DOCS)
    args = {d.pick(["v1", "new", "x.y", "flag"]): d.pick(SIMPLE) for _ in range(d.int(0, 2))}
    given = {**(env if passing else {}), **args}
    doc = Doc(d, DOCS, Root(), {k: Var(v, [word(v)], True, v) for k, v in given.items()}, DOCS.depth, file="inner.mau")
    doc.fill(d.int(1, DOCS.max_nodes))
    doc.finish()
    case = doc_case(doc, given)
    # Variables of the including document, by definition or from the environment.
    before, defined = [], {}
    for k, v in env.items():
        if d.chance(5):
            before.append(f":{k}:{v}")
        else:
            defined[k] = v
    line = include("inner.mau", args, passing)
    wrap = d.pick([None, None, "++++"])
    if wrap:
        line = f"{wrap}\n{line}\n{wrap}"
    use = " ".join(f"{{{k}}}" for k in sorted(env))
    case["main"] = "\n".join(before + [line, "", f"after {use}".strip()])
    case["main_env"] = defined
    case["after"] = " ".join(["after"] + [env[k] for k in sorted(env)])
    case["wrap"] = wrap
    case["main_calls"] = [{"caller": "main.mau", "callee": "inner.mau", "args": args}] + case["calls"]
    return case


def check_alone(case):
    with sut.files_in_cwd(case["files"]):
        out = sut.process(case["text"], case["env"], source="inner.mau")
    other = run_case({"text": case["main"], "env": case["main_env"], "files": {**case["files"], "inner.mau": case["text"]}})
    if not out.ok:
        raise Violation(f"a valid document is rejected: {sut.error_text(out)}")
    if not other.ok:
        raise Violation(f"a valid document is rejected when it is included: {sut.error_text(other)}")
    inner, after = split(got_content(other), case["wrap"])
    sut.require_equal(got_content(out) or [], inner["content"], "an included file differs from the same file alone")
    if after != case["after"]:
        raise Violation(f"after the inclusion the variables give {after!r}, expected {case['after']!r}")
    got = [{"caller": c.caller_uri, "callee": c.callee_uri, "args": dict(c.call_arguments)} for c in other.parser.output.include_calls]
    sut.require_equal(sorted(map(str, case["main_calls"])), sorted(map(str, got)), "recorded calls")
    return True, case["labels"]


def split(content, wrap):
    first, last = content[0], content[-1]
    if len(content) != 2:
        raise Violation(f"{len(content)} nodes, expected the inclusion and a paragraph")
    if wrap:
        if first["_type"] != "block" or len(first["content"]) != 1:
            raise Violation(f"unexpected node {sut.brief(first)}")
        first = first["content"][0]
    if first["_type"] != "include-mau":
        raise Violation(f"unexpected node {sut.brief(first)}")
    return first, "".join(x["value"] for x in last["content"][0]["content"])


def soup(d):
    env = env_soup(d)
    passing = d.chance(6)
    args = {"call": d.pick(SIMPLE)} if d.chance(3) else {}
    return {"text": text_soup(d, 8).replace("\r", ""), "env": env, "args": args, "passing": passing, "files": {"f1.mau": "included", "f1.txt": "raw", "f2.mau": "{undefined}"}}


def check_soup(case):
    given = {**(case["env"] if case["passing"] else {}), **case["args"]}
    with sut.files_in_cwd(case["files"]):
        out = sut.process(case["text"], given, source="inner.mau")
    line = include("inner.mau", case["args"], case["passing"])
    other = run_case({"text": f"{line}\n\nafter", "env": case["env"], "files": {**case["files"], "inner.mau": case["text"]}})
    if "main.mau" in case["text"]:
        # It leads back to the including document.
        return False, ["main"]
    if out.ok != other.ok:
        raise Violation(f"alone: {sut.error_text(out) or 'accepted'}; included: {sut.error_text(other) or 'accepted'}")
    if not out.ok:
        a, b = sut.error_text(out), sut.error_text(other)
        if a != b:
            raise Violation(f"alone the error is {a!r}, included {b!r}")
        return True, ["rejected"]
    inner, _ = split(got_content(other), None)
    sut.require_equal(got_content(out) or [], inner["content"], "an included file differs from the same file alone")
    return bool(case["text"].strip()), ["accepted"]


# Chains


def chain(d):
    n = d.int(1, 25)
    loop = d.chance(4)
    back = d.int(0, n)
    wrap = d.pick(["plain", "block", "shared", "mixed"])
    files = {}
    for i in range(n + 1):
        name = "main.mau" if i == 0 else f"f{i}.mau"
        if i < n:
            target = f"f{i + 1}.mau"
        elif loop:
            target = "main.mau" if back == 0 else f"f{back}.mau"
            if d.chance(5):
                target = alias(d, target).replace("sub/../", "./")
        else:
            target = None
        lines = [f"text {i}", ""]
        if target:
            block = wrap == "block" or wrap == "shared" or (wrap == "mixed" and d.chance(5))
            args = ["[isolate=false]"] if wrap == "shared" and block else []
            lines += args + ["====", f"<< mau:{target}", "===="] if block else [f"<< mau:{target}"]
        files[name] = "\n".join(lines)
    return {"text": files.pop("main.mau"), "files": files, "env": {}, "loop": loop, "n": n}


def check_chain(case):
    out = run_case(case)
    if case["loop"]:
        if out.ok:
            raise Violation("a loop of inclusions is accepted")
        if "cannot include" not in sut.error_text(out):
            raise Violation(f"a loop of inclusions gives the error {sut.error_text(out)!r}")
        return True, ["loop"]
    if not out.ok:
        raise Violation(f"a chain of {case['n']} inclusions is rejected: {sut.error_text(out)}")
    texts = [n["value"] for n in walk(got_content(out)) if n["_type"] == "text"]
    if texts != [f"text {i}" for i in range(case["n"] + 1)]:
        raise Violation(f"the texts of the chain are {texts}")
    if len(out.parser.output.include_calls) != case["n"]:
        raise Violation(f"{len(out.parser.output.include_calls)} calls, expected {case['n']}")
    return True, ["chain"]


def only_includes(x):
    return [n for n in walk(x) if n["_type"] in ("include-mau", "include-raw")] if x else []


CFG = Cfg(max_nodes=6, depth=4, attach=3, weights={"mau": 8, "paragraph": 3, "header": 2, "vardef": 4, "block": 3, "rawfile": 2, "excluded": 1, "footnote": 1, "group": 1, "blockgroup": 1})

ARMS = [
    Arm("graph", composite(graph(False)), check_graph, 1200, rule="graphs of files without loops, with definitions and uses of variables, call arguments, conditions, paths written in several ways, against an interpreter; non-trivial: a file is included"),
    Arm("cycles", composite(graph(True)), check_graph, 1200, rule="any graph of files, also with guarded inclusions: accepted if and only if no active file is included again"),
    Arm("chains", composite(chain), check_chain, 250, rule="chains up to 25 files with or without a loop at the end"),
    Arm("alone", alone, check_alone, 350, rule="documents of the model included and alone"),
    Arm("soup", composite(soup), check_soup, 1500, rule="mixtures of constructs, valid or not, included and alone: same content or same error"),
    doc_arm("documents", CFG, 250, ["include-mau"], "documents of the model with inclusions", project=only_includes),
]
