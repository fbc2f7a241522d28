"""C27: environment files and variables are loaded under their exact names."""

import os

import yaml

from mau import load_environment_files, load_environment_variables

from ..arms import Arm, Violation, composite, sut
from ..sut import Environment
from .c25 import flatten

try:
    from mau import ConfigurationError
except ImportError:  # pragma: no cover
    ConfigurationError = ()

KEYS = ["a", "key", "a-b", "K", "été", "x1", "ns.k", "ns.deep.k", "a_b", "mau", "with space"]
VALUES = ["", "v", "a=b", "=", "==x", " v ", "a,b", "{x}", "日本", "x\ny", "true", "1", '"q"', "key=value=", "a.b", "\t", "#", ": :"]
LEAVES = ["v", "", 1, 0, -2.5, True, False, None, ["a", 1, {"k": "v"}], [], "a\nb\n", "1", "yes", "日本", "a=b", {}, "x: y", " s "]
NAMESPACES = [None, None, "ns2", "a.b", "envfiles", "x"]


def entries(d, keys):
    return [(d.pick(keys), d.pick(VALUES)) for _ in range(d.int(0, 5))]


def existing(d):
    base = {"other": "kept", "mau.parser.x": "kept", "mau.other.a": "kept", "mau.envvars.old": "kept", "mau.envfiles.old": "kept", "mau.envvars.a": "before", "envvars.a": "kept"}
    return {k: v for k, v in base.items() if d.chance(5)}


def variables(d):
    calls = [{"entries": entries(d, KEYS), "namespace": d.pick(NAMESPACES)} for _ in range(d.int(1, 2))]
    return {"existing": existing(d), "calls": calls}


def conflict(flat):
    """A name that is also a namespace."""
    return any(o.startswith(k + ".") for k in flat for o in flat)


def compare(env, want):
    """want: flat, possibly with empty dictionaries."""
    sut.require_equal(want, dict(env.asflatdict()), "values in the environment")
    for k, v in want.items():
        got = env.get(k, "missing")
        if isinstance(got, Environment) and v == {}:
            # A namespace without variables.
            got = got.asdict()
        if got != v or type(got) is not type(v):
            raise Violation(f"{k!r} gives {got!r}, expected {v!r}")


def check_variables(case):
    env = Environment.from_dict(case["existing"])
    want = dict(case["existing"])
    for call in case["calls"]:
        args = [f"{k}={v}" for k, v in call["entries"]]
        prefix = f"mau.{call['namespace'] or 'envvars'}."
        want.update({prefix + k: v for k, v in call["entries"]})
        if call["namespace"] is None:
            load_environment_variables(env, args)
        else:
            load_environment_variables(env, args, call["namespace"])
    if conflict(want):
        return False, ["conflict"]
    compare(env, want)
    labels = []
    names = [k for k, _ in case["calls"][0]["entries"]]
    if len(set(names)) < len(names):
        labels.append("repeated")
    return any(c["entries"] for c in case["calls"]), labels


def data(d, depth=2):
    kind = d.weighted([(3, "dict"), (2, "leaf")]) if depth else "leaf"
    if kind == "leaf":
        return d.pick(LEAVES)
    return {d.pick(["a", "b", "key", "été", "x-y", "k1"]): data(d, depth - 1) for _ in range(d.int(0, 3))}


INVALID = ["{a: b", "a: b: c", "- a\nb: c", "key: [x", "\t- x\n", "a: 'x", "%YAML 9\n--- x: [", "!!python/object/apply:os.getcwd []", "{{", "@x"]
NAMES = ["a", "conf", "x-y", "a.b", "été", "with space", "nodot", "UP"]
KEYED = ["a=b", "=x", "x==", "k=v.w"]  # names with an equal sign need a key


def files(d):
    out, seen = [], set()
    for i in range(d.int(0, 4)):
        folder = d.pick(["", "dir/", "dir/sub.d/"])
        equal = d.chance(1)
        name = d.pick(KEYED if equal else NAMES) + d.pick([".yaml", ".yml", "", ".txt"])
        path = folder + name
        if path in seen:
            continue
        seen.add(path)
        kind = d.weighted([(12, "data"), (1, "invalid"), (1, "missing"), (1, "binary"), (1, "dir"), (1, "empty")])
        value = None
        if kind == "data":
            value = data(d)
        key = d.pick(["k", "k1", "ns.k", "a", "k.sub", "x-y"]) if equal or d.chance(5) else None
        out.append({"path": path, "kind": kind, "value": value, "key": key, "content": d.pick(INVALID) if kind == "invalid" else None,
                    "style": d.pick([None, None, False, True]), "absolute": d.chance(2)})
    return {"existing": existing(d), "files": out, "namespace": d.pick(NAMESPACES)}


def stem(path):
    """The name of the file, without its extension."""
    name = path.rsplit("/", 1)[-1]
    return name.rsplit(".", 1)[0] if "." in name[1:] else name


def check_files(case):
    env = Environment.from_dict(case["existing"])
    before = dict(case["existing"])
    args, made, dirs, bad = [], [], [], None
    loaded = {}
    try:
        for f in case["files"]:
            path = f["path"]
            if os.path.dirname(path):
                os.makedirs(os.path.dirname(path), exist_ok=True)
            if f["kind"] == "dir":
                os.makedirs(path)
                dirs.append(path)
            elif f["kind"] != "missing":
                made.append(path)
                content = b""
                if f["kind"] == "data":
                    content = yaml.safe_dump(f["value"], allow_unicode=True, default_flow_style=f["style"]).encode()
                elif f["kind"] == "invalid":
                    content = f["content"].encode()
                elif f["kind"] == "binary":
                    content = b"a: \xff\xfe"
                with open(path, "wb") as out:
                    out.write(content)
            key = f["key"] if f["key"] is not None else stem(path)
            shown = os.path.abspath(path) if f["absolute"] else path
            args.append(shown if f["key"] is None else f"{f['key']}={shown}")
            if f["kind"] in ("data", "empty"):
                loaded[key] = f["value"]
            elif bad is None:
                bad = f
        try:
            if case["namespace"] is None:
                load_environment_files(env, args)
            else:
                load_environment_files(env, args, case["namespace"])
        except ConfigurationError as exc:
            if bad is None:
                raise Violation(f"valid files are rejected: {exc!r}") from exc
            sut.require_equal(before, dict(env.asflatdict()), "the environment after an error")
            return True, ["error-" + bad["kind"]]
        except Exception as exc:
            raise Violation(f"loading files raised {sut.describe(exc)}, not a configuration error") from exc
        if bad is not None:
            raise Violation(f"a file that is {bad['kind']} is accepted: {bad['path']}")
    finally:
        for p in made:
            os.unlink(p)
        for p in dirs:
            os.rmdir(p)
    prefix = f"mau.{case['namespace'] or 'envfiles'}."
    want = dict(before)
    want.update(flatten({prefix + k: v for k, v in loaded.items()}))
    if conflict(want) or any(a.startswith(b + ".") for a in loaded for b in loaded):
        return False, ["conflict"]
    compare(env, want)
    return bool(loaded), [type(v).__name__ for v in loaded.values()] + (["keys"] if any(f["key"] for f in case["files"]) else [])


ARMS = [
    Arm("variables", composite(variables), check_variables, 4000, rule="key=value strings with any characters, in one or two calls; non-trivial: some entry, no name that is also a namespace"),
    Arm("files", composite(files), check_files, 3000, rule="YAML files with generated data, valid or not, given by path or key=path; non-trivial: some file is loaded, or is rejected"),
]
ASSUMPTIONS = ["keys of the data are strings without dots", "no name is both a value and a namespace"]
