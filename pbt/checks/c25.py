"""C25: an environment behaves as a nested dictionary with dotted names.

Stateful: sequences of operations on a pool of environments, each with a
model that is a plain dictionary from dotted names to values. Every
operation is followed by a comparison of the whole pool, so that a change
that reaches the wrong environment is seen at once."""

from ..arms import Arm, Violation, composite, sut
from ..sut import Environment

# The last part of a name is a leaf, the others are namespaces. No name is both
# (the environment keeps both, a nested dictionary cannot: known finding).
LEAVES = ["x", "y", "xy", "x-1", "É", "custom", "1"]
SPACES = ["a", "ab", "b", "a-b", "mau"]
VALUES = ["v", "", "other", None, 0, 1, True, False, {}, ["l"], "a.b", "日本"]


def name(d, depth=3):
    parts = [d.pick(SPACES) for _ in range(d.int(0, depth))]
    return ".".join(parts + [d.pick(LEAVES + ([""] if parts and d.chance(2) else []))])


def space(d, depth=2):
    return ".".join(d.pick(SPACES) for _ in range(d.int(1, depth)))


def source(d, flat):
    """One of the dictionaries, with dotted and nested keys, that hold these values."""
    out = {}
    for k, v in flat.items():
        parts = k.split(".")
        here = out
        while parts:
            n = d.int(1, len(parts))
            key, parts = ".".join(parts[:n]), parts[n:]
            if not parts:
                here[key] = dict(v) if isinstance(v, dict) else v
            else:
                here = here.setdefault(key, {})
    return out


def ops(d):
    out = []
    n = d.int(1, 10)
    for _ in range(n):
        kind = d.weighted([(5, "dupdate"), (4, "update"), (4, "set"), (2, "setdict"), (2, "new"), (3, "clone"), (3, "sub"), (3, "mutate-source"), (2, "mutate-nested"), (2, "mutate-flat")])
        op = {"op": kind, "i": d.int(0, 3), "j": d.int(0, 3)}
        if kind in ("dupdate", "new", "setdict"):
            op["flat"] = {name(d): d.pick(VALUES) for _ in range(d.int(1, 5))}
            op["source"] = source(d, op["flat"])
        if kind in ("dupdate", "update", "new", "clone"):
            op["namespace"] = d.pick([None, None, None, space(d), ""])
        if kind in ("update",):
            op["overwrite"] = d.pick([True, True, False, None])
        if kind == "set":
            op["name"], op["value"] = name(d), d.pick(VALUES)
        if kind in ("setdict", "sub"):
            op["name"] = space(d)
        if kind.startswith("mutate"):
            op["name"], op["value"] = name(d), "changed"
        out.append(op)
    return {"ops": out}


def nest(flat):
    out = {}
    for k, v in flat.items():
        *spaces, leaf = k.split(".")
        here = out
        for s in spaces:
            here = here.setdefault(s, {})
        here[leaf] = v
    return out


def settle(model):
    """An empty dictionary adds nothing to a namespace that has values."""
    for k in [k for k, v in model.items() if v == {} and isinstance(v, dict)]:
        if any(o.startswith(k + ".") for o in model):
            del model[k]


def put(nested, dotted, value):
    """Change the first level that has part of the name, deeply."""
    *spaces, leaf = dotted.split(".")
    here = nested
    for s in spaces:
        if isinstance(here.get(s), dict):
            here = here[s]
    for k in list(here):
        if here[k] == {}:
            here[k]["sneaky"] = value
        elif isinstance(here[k], dict):
            here[k]["new"] = value
        elif here[k] != value:
            here[k] = value
    here[leaf] = value


MISSING = object()


def same(a, b):
    return a == b and type(a) is type(b)


def compare(pool, step):
    for i, (env, model) in enumerate(pool):
        where = f"after {step}, environment {i}"
        sut.require_equal(nest(model), env.asdict(), f"{where}: nested view")
        sut.require_equal(model, dict(env.asflatdict()), f"{where}: flat view")
        spaces = set()
        for k, v in model.items():
            if not same(env[k], v):
                raise Violation(f"{where}: [{k!r}] gives {env[k]!r}, expected {v!r}")
            if v == {} and isinstance(v, dict):
                # A namespace without values.
                sub = env.get(k, "default")
                if not isinstance(sub, Environment) or sub.asdict() != {}:
                    raise Violation(f"{where}: get({k!r}) gives {sub!r}, expected an empty environment")
            elif not same(env.get(k, "default"), v):
                raise Violation(f"{where}: get({k!r}) gives {env.get(k, 'default')!r}, expected {v!r}")
            parts = k.split(".")
            spaces.update(".".join(parts[:n]) for n in range(1, len(parts)))
        for s in sorted(spaces):
            sub = env.get(s)
            if not isinstance(sub, Environment):
                raise Violation(f"{where}: get({s!r}) gives {sub!r}, not an environment")
            want = {k[len(s) + 1:]: v for k, v in model.items() if k.startswith(s + ".")}
            sut.require_equal(nest(want), sub.asdict(), f"{where}: sub-environment {s!r}")
        for k in ("zz", "a.zz", "zz.x", "ab.b.zz") + tuple(sorted(s + "x" for s in spaces)):
            if k in model or k in spaces:
                continue
            if env.get(k, MISSING) is not MISSING or env.get(k) is not None:
                raise Violation(f"{where}: get of {k!r}, that was never stored, gives {env.get(k)!r}")
            try:
                value = env[k]
            except KeyError:
                pass
            else:
                raise Violation(f"{where}: [{k!r}], that was never stored, gives {value!r}")


def check(case):
    pool = [(Environment(), {})]
    sources = []
    labels = set()
    for n, op in enumerate(case["ops"]):
        kind = op["op"]
        i, j = op["i"] % len(pool), op["j"] % len(pool)
        env, model = pool[i]
        labels.add(kind)
        step = f"operation {n} ({kind})"
        prefix = op.get("namespace") + "." if op.get("namespace") else ""
        if "source" in op:
            src = copy(op["source"])
            sources.append(src)
        if kind == "dupdate":
            if prefix:
                env.dupdate(src, op["namespace"])
            else:
                env.dupdate(src)
            model.update({prefix + k: v for k, v in op["flat"].items()})
        elif kind == "update":
            other, omodel = pool[j]
            kw = {} if op["overwrite"] is None else {"overwrite": op["overwrite"]}
            env.update(other, op["namespace"], **kw)
            for k, v in list(omodel.items()) or ([(prefix[:-1], {})] if prefix else []):
                if op["overwrite"] is not False or (prefix + k if omodel else k) not in model:
                    model[prefix + k if omodel else k] = v
        elif kind == "set":
            env[op["name"]] = copy(op["value"])
            model[op["name"]] = op["value"]
        elif kind == "setdict":
            env[op["name"]] = src
            model.update({op["name"] + "." + k: v for k, v in op["flat"].items()})
        elif kind == "new":
            new = Environment.from_dict(src, op["namespace"])
            add(pool, new, {prefix + k: v for k, v in op["flat"].items()})
        elif kind == "clone":
            new = Environment.from_environment(env, op["namespace"])
            add(pool, new, {prefix + k: v for k, v in model.items()} if model or not prefix else {prefix[:-1]: {}})
        elif kind == "sub":
            sub = env.get(op["name"])
            want = {k[len(op["name"]) + 1:]: v for k, v in model.items() if k.startswith(op["name"] + ".")}
            if want:
                if not isinstance(sub, Environment):
                    raise Violation(f"{step}: get({op['name']!r}) gives {sub!r}, not an environment")
                add(pool, sub, want)
        elif kind == "mutate-source":
            for s in sources:
                put(s, op["name"], op["value"])
        elif kind == "mutate-nested":
            put(env.asdict(), op["name"], op["value"])
        elif kind == "mutate-flat":
            put(env.asflatdict(), op["name"], op["value"])
        for _, m in pool:
            settle(m)
        compare(pool, step)
    return len(case["ops"]) > 2 and any(m for _, m in pool), labels


def add(pool, env, model):
    if len(pool) < 4:
        pool.append((env, model))
    else:
        pool[len(model) % 4] = (env, model)


def copy(x):
    if isinstance(x, dict):
        return {k: copy(v) for k, v in x.items()}
    return list(x) if isinstance(x, list) else x


def flatten(nested, prefix=""):
    out = {}
    for k, v in nested.items():
        out.update(flatten(v, prefix + k + ".") if isinstance(v, dict) and v else {prefix + k: v})
    return out


def both(case):
    """Probe: a name that is a value and a namespace."""
    env = Environment()
    for k, v in case["pairs"]:
        env[k] = v
    sut.require_equal(env.asflatdict(), flatten(env.asdict()), "flat and nested view")


ARMS = [
    Arm("operations", composite(ops), check, 5000, rule="up to 10 operations on up to 4 environments, all compared with dictionaries after each; non-trivial: more than two operations and some value stored"),
]
ASSUMPTIONS = ["no name is both a value and a namespace (known finding)", "values are opaque: only the dictionaries are copied"]
