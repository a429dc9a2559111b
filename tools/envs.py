"""Histories of operations on environments, run in the real code."""
import copy
import random

import maureal  # noqa: F401 (sets the path)
from mau.environment.environment import Environment

# Values of the specification that are not text in the real code.
VALUES = {"{}": {}, "list": ["x", "y"], "int": 7, "none": None, "no": False, "empty": "", "zero": 0}
ABSENT = object()


def value(v):
    return copy.deepcopy(VALUES[v]) if v in VALUES else v


def tree(t):
    if t[0] == "leaf":
        return value(t[1])
    return {k: tree(x) for k, x in t[1]}


def spec_tree(t):
    """A tree as exported by TLC."""
    return ["leaf", t["v"]] if t["leaf"] else ["dict", [[k, spec_tree(x)] for k, x in t["kids"]]]


def apply(envs, o):
    op, e, ns = o["op"], o["e"], o["ns"] or None
    d = tree(o["d"])
    before = copy.deepcopy(d)
    if op == "from":
        envs.append(Environment.from_dict(d, ns))
    elif e > len(envs) or op == "upd" and o["f"] > len(envs):
        return
    elif op == "dup":
        envs[e - 1].dupdate(d, ns)
    elif op == "set":
        envs[e - 1][o["key"]] = d
    elif op == "upd":
        envs[e - 1].update(envs[o["f"] - 1], ns, overwrite=o["ow"])
    elif op == "clone":
        envs.append(Environment.from_environment(envs[e - 1], ns))
    elif op == "sub":
        r = envs[e - 1].get(o["key"])
        if isinstance(r, Environment):
            envs.append(r)
    if d != before:
        raise AssertionError("the dictionary was modified")


def same(a, b):
    return type(a) is type(b) and a == b


def real_map(m):
    return {k: value(v) for k, v in m.items()} if m else {}


def real_nest(t):
    if isinstance(t, str):
        return value(t)
    return {k: real_nest(v) for k, v in t.items()} if t else {}


def check_env(env, seen, probes):
    flat = real_map(seen["flat"])
    if dict(env.asflatdict()) != flat:
        return f"contains {env.asflatdict()} instead of {flat}"
    for name, (kind, exp) in zip(probes, seen["reads"]):
        got = env.get(name, ABSENT)
        try:
            item = env[name]
        except KeyError:
            item = ABSENT
        if kind == "value":
            if not same(got, value(exp)) or not same(item, value(exp)):
                return f"{name!r} reads {got!r} and {item!r} instead of {value(exp)!r}"
        elif item is not ABSENT and not (kind == "names" and item == {}):
            return f"{name!r} is {item!r} instead of missing"
        elif kind == "names":
            if not isinstance(got, Environment) or dict(got.asflatdict()) != real_map(exp):
                return f"{name!r} reads {getattr(got, '_variables', got)!r} instead of {real_map(exp)}"
        elif got is not ABSENT:
            return f"{name!r} reads {got!r} instead of the default value"
        elif env.get(name) is not None:
            return f"{name!r} has the default {env.get(name)!r}"
    if seen["nested"]:
        nested = real_nest(seen["nested"][0])
        if env.asdict() != nested:
            return f"as a dictionary it is {env.asdict()} instead of {nested}"
        if dict(Environment.from_dict(env.asdict()).asflatdict()) != flat:
            return "flattening does not undo nesting"
    return None


def run(ops, seen, probes):
    """None or what is wrong."""
    envs = []
    try:
        for o in ops:
            apply(envs, o)
        if len(envs) != len(seen):
            return f"{len(envs)} environments instead of {len(seen)}"
        for j, (e, s) in enumerate(zip(envs, seen)):
            d = check_env(e, s, probes)
            if d:
                return f"environment {j + 1} " + d
        # reading changes nothing
        for j, (e, s) in enumerate(zip(envs, seen)):
            if dict(e.asflatdict()) != real_map(s["flat"]):
                return f"environment {j + 1} changed when another one was read"
    except Exception as exc:
        return f"{type(exc).__name__}: {exc}"
    return None


PROBES = ["a", "a.b", "a.bc", "a.b.c", "b", "ab", "x", "x.a", "x.a.a", "x.a.b", "a.a", "a.a.b", "", "c"]


def judge_hist(line):
    import tlc

    ops, seen = tlc.Tlc.decode(line)
    for o in ops:
        o["d"] = spec_tree(o["d"])
    d = run(ops, seen, PROBES)
    return d and {"case": {"ops": ops}, "what": d, "expected": seen}


def judge_case(job):
    case, seen = job
    d = run(case["ops"], seen, case["probes"])
    return d and {"case": case, "what": d, "expected": seen}


def random_case(seed):
    r = random.Random(seed)
    keys = ["a", "b", "ab", "a b", "k-1", "A", "\u00e9", "a"] * 3 + ["", ""]

    def name(n=3):
        return ".".join(r.choice(keys) for _ in range(r.randrange(1, n + 1)))

    def rtree(d=0):
        if d and r.random() < .6:
            return ["leaf", r.choice(["1", "2", "x y", "{}", "list", "int", "none", "no", "empty", "zero"])]
        n = r.choice([0, 1, 2, 3]) if d else r.choice([1, 2, 3, 3])
        ks = []
        for _ in range(n):
            k = name(2)
            if k not in ks:
                ks.append(k)
        return ["dict", [[k, rtree(d + 1)] for k in ks]]

    ops = [{"op": "from", "e": 0, "f": 0, "ns": r.choice(["", name(2)]), "d": rtree(), "key": "", "ow": True} for _ in range(2)]
    for _ in range(r.randrange(2, 12)):
        op = r.choice(["from", "dup", "dup", "set", "set", "set", "upd", "upd", "clone", "sub"])
        ops.append({"op": op, "e": r.randrange(1, 5), "f": r.randrange(1, 5), "ns": r.choice(["", "", name(2)]),
                    "d": rtree(op == "set") if op in ("from", "dup", "set") else ["dict", []],
                    "key": name(), "ow": r.random() < .5})
    probes = sorted({name() for _ in range(12)} | {"a", "b", "ab", "a.a", "a.b"})
    return {"ops": ops, "probes": probes}
