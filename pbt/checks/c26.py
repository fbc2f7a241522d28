"""C26: the command line renders exactly what the library renders, safely."""

import contextlib
import io
import logging
import os
import shutil
import subprocess
import sys
import tempfile

import yaml

from mau.visitors.jinja_visitor import JinjaVisitor
from mau.visitors.yaml_visitor import YamlVisitor

from .. import boot
from ..arms import Arm, Cfg, D, Violation, composite, doc_case, draw_doc, st, sut
from ..gen import SIMPLE
from ..soup import text_soup
from .c22 import PASS, TYPES

VISITORS = {"core:YamlVisitor": YamlVisitor, "core:JinjaVisitor": JinjaVisitor}
TEMPLATES = {t + ".j2": f"<{t}>{{{{ value }}}}" + PASS for t in TYPES}
TEMPLATES["document.j2"] += "|{{ (config.mau.cfg or {}).x }}|{{ config.x }}"
TEXTS = [":mau.cfg.x:new\n\n{mau.cfg.x}", "text\n\n:x:new\n:mau.cfg.x:*{x}*\n", "text", "= Header\n\ntext *bold*\n", "", "\n\n", "// only a comment", "{mau.envvars.v1} and {mau.envfiles.data.a}", "[@al]\ntext", "line\r\nother\rlast", "日本 é 😀", "{undefined}", "----\nunclosed", "[link]()", "<< mau:f1.mau", "<< raw:missing",
         "[footnote](nope)", "* a\n# b\n", "\ttab  ", "[a=b, c]\ntext", "[*sub]\n= x", "<< toc", "<< blockgroup:x", "a \x0c b", "\ufefftext", "{mau.cfg.x}", "{surrogate}", "W {mau.cfg.surrogate} Z", "x" * 5000]
NAMES = ["doc.mau", "doc.txt", "doc", "a b.mau", "dir/doc.mau", "x.mau.mau", "été.mau", "dir.mau/doc", "doc.yaml", "doc.j2", "-x.mau", "a=b.mau"]


def build(d):
    text = d.pick(TEXTS) if d.chance(6) else text_soup(d, 6)
    config = {}
    if d.chance(6):
        config = {"cfg": {"x": d.pick(SIMPLE)}, "parser": {"aliases": {"al": {"args": {"k": "from alias"}, "subtype": "s"}}}}
        if d.chance(2):
            config["cfg"]["surrogate"] = "\ud800"
    visitor = d.pick(sorted(VISITORS) + ["core:YamlVisitor"])
    if visitor == "core:JinjaVisitor" and d.chance(8):
        config["visitor"] = {"templates": {"custom": dict(TEMPLATES)}}
    case = {"text": text, "config": config or d.pick([None, None, {}]), "visitor": visitor, "name": d.pick(NAMES), "absolute": d.chance(2), "output": d.pick(["file", "file", "-", None, None, "input", "missing-dir", "dir/out"]),
            "old": d.pick([None, "old content"]), "variables": [[d.pick(["v1", "v2", "ns.k"]), d.pick(["a", "x=y", "", "*b*", "日本"])] for _ in range(d.int(0, 2))], "envfile": d.pick([None, None, {"a": "from file"}, {"b": 1}]),
            "flags": [f for f in ["--lexer-print-output", "--verbose", "--debug"] if d.chance(1)], "fault": None}
    # More environment files, also under the same name, and other namespaces.
    case["more"] = [[d.pick(["data", "more", "ns.k", None]), d.pick(["b.yaml", "a.yaml", "dir/c.d.yaml"]), d.pick([{"a": "A"}, {"a": "B"}, {"z": {"a": "C"}}, "plain", {}])] for _ in range(d.weighted([(5, 0), (2, 1), (3, 2), (1, 3)]))]
    case["files_ns"] = d.pick([None, None, None, "other", "a.b", "envvars"])
    case["vars_ns"] = d.pick([None, None, None, "mine", "x.y", "envfiles"])
    case["long"] = d.chance(2)
    if (case["more"] or case["files_ns"] or case["vars_ns"]) and d.chance(7):
        ns, vs = case["files_ns"] or "envfiles", case["vars_ns"] or "envvars"
        holders = [f"mau.{vs}.{k}" for k, _ in case["variables"]] + [f"mau.{ns}.{key_of(k, f)}" + {0: ""}.get(len(c) if isinstance(c, dict) else 0, "." + ".".join(path_of(c))) for k, f, c in case["more"]]
        case["text"] = "\n\n".join("{" + h + "}" for h in holders) or case["text"]
    if d.chance(2):
        case["fault"] = d.pick(["no-input", "no-visitor", "unknown-visitor", "bad-config", "no-config", "bad-envfile", "lexer-only", "binary-input"])
    return case


def key_of(key, filename):
    return key if key is not None else os.path.basename(filename).removesuffix(".yaml")


def path_of(content):
    """The names of the first value in a file."""
    out = []
    while isinstance(content, dict) and content:
        k = next(iter(content))
        out.append(k)
        content = content[k]
    return out


def names(case, folder):
    name = case["name"]
    path = os.path.join(folder, name)
    return path if case["absolute"] or name.startswith("-") else name


def extension(visitor):
    """The documented one: without the dot."""
    return {"core:YamlVisitor": "yaml", "core:JinjaVisitor": "j2"}[visitor]


def prepare(case, folder):
    """Files and arguments of the run: (argv, input, output or None)."""
    path = names(case, folder)
    full = os.path.join(folder, case["name"])
    os.makedirs(os.path.join(folder, "dir"), exist_ok=True)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    data = case["text"].encode()
    if case["fault"] == "binary-input":
        data = b"text \xff\xfe"
    if case["fault"] != "no-input":
        with open(full, "wb") as f:
            f.write(data)
    with open(os.path.join(folder, "f1.mau"), "w") as f:
        f.write("included")
    with open(os.path.join(folder, "f1.txt"), "w") as f:
        f.write("raw")
    if case.get("tpl"):
        os.makedirs(os.path.join(folder, "tpl"))
        for name, body in TEMPLATES.items():
            with open(os.path.join(folder, "tpl", name), "w", encoding="utf-8") as f:
                f.write("é" + body)
    argv = ["-i", path]
    if case["config"] is not None or case["fault"] in ("bad-config", "no-config"):
        with open(os.path.join(folder, "config.yaml"), "w") as f:
            f.write("a: [b" if case["fault"] == "bad-config" else yaml.safe_dump(case["config"]))
        argv += ["-c", "config.yaml" if case["fault"] != "no-config" else "nothere.yaml"]
    for k, v in case["variables"]:
        argv += ["-v", f"{k}={v}"]
    if case["envfile"] is not None or case["fault"] == "bad-envfile":
        with open(os.path.join(folder, "data.yaml"), "w") as f:
            f.write("a: [b" if case["fault"] == "bad-envfile" else yaml.safe_dump(case["envfile"]))
        argv += ["-e", "data=data.yaml"]
    written = {}
    for k, name, content in case.get("more", []):
        # The same file has the same content in a run.
        if name not in written:
            written[name] = content
            with open(os.path.join(folder, name), "w") as f:
                f.write(yaml.safe_dump(content))
        argv += ["-e", f"{k}={name}" if k is not None else name]
    if case.get("files_ns"):
        argv += ["--environment-files-namespace", case["files_ns"]]
    if case.get("vars_ns"):
        argv += ["--environment-variables-namespace", case["vars_ns"]]
    if case["fault"] == "unknown-visitor":
        argv += ["-t", "core:Nothing"]
    elif case["fault"] != "no-visitor":
        argv += ["-t", case["visitor"]]
    if case["fault"] == "lexer-only":
        argv.append("--lexer-only")
    if case.get("long"):
        long = {"-i": "--input-file", "-c": "--config-file", "-e": "--environment-file", "-v": "--environment-variable", "-t": "--visitor"}
        argv = [long.get(a, a) for a in argv]
    argv += case["flags"]
    stem = path[:-4] if path.endswith(".mau") else path
    out = {"file": "out.txt", "-": None, None: f"{stem}.{extension(case['visitor'])}", "input": path, "missing-dir": "nodir/out.txt", "dir/out": "dir/out"}[case["output"]]
    if case["output"]:
        argv += ["-o", {"-": "-"}.get(case["output"], out)]
    if out and case["old"] is not None and case["output"] not in ("input", "missing-dir"):
        with open(os.path.join(folder, out), "w") as f:
            f.write(case["old"])
    return argv, path, out


def snapshot(folder):
    found = {}
    for root, _, files in os.walk(folder):
        for name in files:
            p = os.path.join(root, name)
            with open(p, "rb") as f:
                found[os.path.relpath(p, folder)] = f.read()
    return found


def library(case, path):
    """What the library gives for the text with the same configuration."""
    text = case["text"].replace("\r\n", "\n").replace("\r", "\n")
    env = sut.Environment.from_dict(case["config"] or {}, "mau")
    files_ns, vars_ns = case.get("files_ns") or "envfiles", case.get("vars_ns") or "envvars"
    # A name given again is replaced as a whole.
    files, content = {}, {}
    if case["envfile"] is not None:
        files["data"] = case["envfile"]
    for k, name, value in case.get("more", []):
        files[key_of(k, name)] = content.setdefault(name, value)
    for k, v in files.items():
        env[f"mau.{files_ns}.{k}"] = v
    for k, v in dict(case["variables"]).items():
        env[f"mau.{vars_ns}.{k}"] = v
    return sut.process(text, environment=env, visitor=VISITORS[case["visitor"]], source=path)


@contextlib.contextmanager
def fresh_logging():
    root = logging.getLogger()
    handlers, level = root.handlers[:], root.level
    root.handlers[:] = []
    try:
        yield
    finally:
        root.handlers[:] = handlers
        root.setLevel(level)


def run_inside(argv):
    """The entry point of the command, in this process: (exit code, stdout, stderr)."""
    from mau.cli import main

    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["mau"] + argv
    code = 0
    try:
        with fresh_logging(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), sut.limited():
            try:
                main()
            except SystemExit as exc:
                code = exc.code if isinstance(exc.code, int) else (0 if exc.code is None else 1)
            except Violation:
                raise
            except Exception as exc:  # the interpreter prints a traceback and exits with 1
                code = 1
                err.write(f"{type(exc).__name__}: {exc}")
    finally:
        sys.argv = old
    return code, out.getvalue(), err.getvalue()


def run_outside(argv, **env):
    code = f"import sys; sys.path[:0] = [{boot.REPO!r}, {boot.VERIF!r}]; from pbt import boot; from mau.cli import main; sys.argv[0] = 'mau'; main()"
    p = subprocess.run([sys.executable, "-c", code] + argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=120, env={**os.environ, **env})
    return p.returncode, p.stdout.decode(), p.stderr.decode(errors="replace")


def run_ascii(argv):
    """The locale is not UTF-8."""
    return run_outside(argv, LC_ALL="C", LANG="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", PYTHONIOENCODING="")


def locales(d):
    """The encoding of files does not depend on the locale."""
    case = build(d)
    case.update(fault=None, flags=[], more=[], files_ns=None, vars_ns=None, output=d.pick(["file", None]), name=d.pick(["doc.mau", "doc.txt", "dir/doc.mau"]), variables=[["v1", "a"]])
    case["text"] = d.pick(["日本 é 😀\n\n", "= é\n\n", "", "<< raw:f1.txt\n\n", "{mau.envfiles.data.a}\n\n", "{mau.cfg.x}\n\n"]) + d.pick(["text", "*é*", "", "[@al, é]\n---", "<< toc"])
    case["envfile"] = d.pick([None, {"a": "é"}])
    case["config"] = {"cfg": {"x": d.pick(["日", "x"])}, "parser": {"aliases": {"al": {"args": {"k": "é"}, "subtype": "s"}}}}
    case["visitor"] = d.pick(sorted(VISITORS))
    if case["visitor"] == "core:JinjaVisitor":
        case["tpl"] = d.chance(6)
        case["config"]["visitor"] = {"templates": {"paths": ["tpl"]} if case["tpl"] else {"custom": {k: "é" + v for k, v in TEMPLATES.items()}}}
    return case


def check_with(runner):
    def check(case):
        old = os.getcwd()
        folder = tempfile.mkdtemp(prefix="cli-", dir=old)
        try:
            os.chdir(folder)
            return verify(case, folder, runner)
        finally:
            os.chdir(old)
            shutil.rmtree(folder)

    return check


def writable(text):
    try:
        text.encode()
        return True
    except UnicodeEncodeError:
        return False


def verify(case, folder, runner):
    argv, path, out = prepare(case, folder)
    expected = library(case, path) if not case["fault"] else None
    before = snapshot(folder)
    code, stdout, stderr = runner(argv)
    after = snapshot(folder)
    labels = [case["fault"] or "run", f"output {case['output']}"]
    what = " ".join(argv)
    if case["fault"] == "lexer-only":
        lexer_ok = library(case, path)
        if after != before:
            raise Violation(f"{what}: files were written: {changed(before, after)}")
        if code == 0 or lexer_ok.lexer is None or not hasattr(lexer_ok.lexer, "tokens"):
            return True, labels
        if lexer_ok.parser is not None:
            raise Violation(f"{what}: exit code {code}, but lexing works")
        return True, labels
    failed = case["fault"] or not expected.ok or case["output"] == "missing-dir" or (expected.ok and not writable(expected.result))
    if failed:
        if case["output"] == "-" and expected is not None and expected.ok and not writable(expected.result):
            return False, labels  # depends on the terminal
        if code == 0:
            raise Violation(f"{what}: exit code 0, but {case['fault'] or (expected.error and sut.error_text(expected)) or 'the output cannot be written'}")
        if after != before:
            raise Violation(f"{what} fails, but files were changed: {changed(before, after)}")
        log = stdout + stderr
        if not log.strip():
            raise Violation(f"{what} fails without any message")
        if expected is not None and not expected.ok and sut.error_text(expected) not in log:
            raise Violation(f"{what} fails, but the message is not in the log: {sut.error_text(expected)!r}, log {log[-500:]!r}")
        return True, labels + ["failed"]
    if code != 0:
        raise Violation(f"{what}: exit code {code}, output {stdout[-500:]!r} {stderr[-500:]!r}")
    want = expected.result + "\n"
    if out is None:
        if after != before:
            raise Violation(f"{what}: files were changed: {changed(before, after)}")
        if not case["flags"] and stdout != want:
            raise Violation(f"{what}: standard output is {stdout[-300:]!r}, expected {want[-300:]!r}")
        if not stdout.endswith(want):
            raise Violation(f"{what}: standard output does not end with the result: {stdout[-300:]!r}")
        return True, labels + ["stdout"]
    key = os.path.relpath(os.path.join(folder, out), folder)
    before[key] = want.encode()
    if after != before:
        raise Violation(f"{what}: files differ from what is expected: {changed(before, after)}")
    if not case["flags"] and want != "\n" and want in stdout:
        raise Violation(f"{what}: the result is also on the standard output")
    return True, labels + ["file"]


def changed(a, b):
    return sut.brief({k: (a.get(k, b"missing")[-200:], b.get(k, b"missing")[-200:]) for k in set(a) | set(b) if a.get(k) != b.get(k)}, 900)


@st.composite
def documents(draw):
    d = D(draw)
    doc, env = draw_doc(draw, Cfg(max_nodes=5, variables=False, cond=False))
    c = doc_case(doc, env)
    case = build(d)
    case.update(text=c["text"], fault=None, flags=[], files=c["files"])
    if case["config"] and case["visitor"] == "core:JinjaVisitor":
        case["config"]["visitor"] = {"templates": {"custom": dict(TEMPLATES)}}
    return case


def check_documents(case):
    # Files included by the document are in the same folder.
    def runner(argv):
        return run_inside(argv)

    old = os.getcwd()
    folder = tempfile.mkdtemp(prefix="cli-", dir=old)
    try:
        os.chdir(folder)
        for name, content in case["files"].items():
            if os.path.dirname(name):
                os.makedirs(os.path.dirname(name), exist_ok=True)
            with open(name, "w", newline="") as f:
                f.write(content)
        return verify(case, folder, runner)
    finally:
        os.chdir(old)
        shutil.rmtree(folder)


ARMS = [
    Arm("inside", composite(build), check_with(run_inside), 1600, rule="texts, valid or not, with configuration, environment files and variables, and all kinds of output, through the entry point; files before and after are compared"),
    Arm("process", composite(build), check_with(run_outside), 64, 800, rule="the same in a real process"),
    Arm("locale", composite(locales), check_with(run_ascii), 48, 600, rule="texts, configuration, environment files and templates with characters outside of ASCII, in a process whose locale is not UTF-8"),
    Arm("documents", documents, check_documents, 160, rule="documents of the model"),
]
