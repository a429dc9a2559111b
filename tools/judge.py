"""The pieces every check is made of: models explored by TLC and replayed in the real
code, and documents run in the real code and judged by the specification."""
import hashlib
import itertools
import json
import os
import random
import shutil
import sys
import tempfile
import time

import gen
import known
import maureal
import replay
import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROCS = int(os.environ.get("MAU_PROCS", "8"))
CHUNK = 20000
ENOUGH_SECONDS = 500


def pairs(x):
    """A function of the specification as a list of pairs."""
    return sorted(x.items()) if isinstance(x, dict) else []


def model_case(rec):
    """The case of a document exported by MauExplore."""
    text, (v, f, al, st, hid, fid) = rec[0], rec[1]
    return {"t": text, "v": pairs(v), "f": pairs(f), "al": [[a["n"], a["args"], a["names"], a["sub"]] for a in al],
            "st": st, "hid": hid, "fid": fid}


def record(c):
    """What the specification needs of a case."""
    return {**{k: c.get(k, []) for k in ("t", "v", "al", "f", "st")}, **{k: c.get(k, "") for k in ("hid", "fid")}}


# ---------------------------------------------------------------- views
def view_full(spec, real):
    """Everything but positions."""
    return replay.compare(spec, real, ctx=False, errpos=False)


def view_pos(spec, real):
    """Everything, positions included."""
    return replay.compare(spec, real)


def view_fail(spec, real):
    """No crash; one message of the right stage at the right place."""
    if real["r"] in ("crash", "messages", "malformed"):
        return f"{real['r']}: {real.get('why', '')}"
    if spec["r"] in ("lexer", "parser") and real["r"] in ("lexer", "parser"):
        return replay.compare(spec, real)
    return None


def view_place(case, real):
    """No crash; the error has a place in the text or in one of the files."""
    if real["r"] in ("crash", "messages", "malformed"):
        return f"{real['r']}: {real.get('why', '')}"
    if real["r"] in ("lexer", "parser"):
        for t in [case["t"]] + [f[1] for f in case.get("f", [])]:
            rows = t.split("\n")
            if 0 <= real["l"] < len(rows) and 0 <= real["c"] <= len(rows[real["l"]]):
                return None
        return f"error at {real['l'], real['c']}, which is not in the text"
    return None


def view_tokens(spec, real):
    if spec != real:
        if spec[0] == real[0] == "ok":
            for j, (a, b) in enumerate(itertools.zip_longest(spec[1], real[1])):
                if a != b:
                    return f"token {j}: {b} instead of {a}"
        return f"{real} instead of {spec}"
    return None


VIEWS = {f.__name__[5:]: f for f in (view_full, view_pos, view_fail, view_tokens)}


# ---------------------------------------------------------------- work of the processes
def judge_model(job):
    """A document exported by a model: run it and compare. (view, line) -> None or a violation."""
    view, line = job
    rec = tlc.Tlc.decode(line)
    case = model_case(rec)
    real = replay.outcome(case)
    d = VIEWS[view](rec[2], real)
    return d and {"case": case, "what": d, "expected": rec[2], "real": real}


def judge_tokens(job):
    _, line = job
    text, spec = tlc.Tlc.decode(line)
    real = maureal.tokens(text)
    d = view_tokens(spec, real)
    return d and {"case": {"t": text, "tokens": True}, "what": d, "expected": spec, "real": real}


def judge_pair(job):
    view, case, real, spec = job
    d = VIEWS[view](spec, real)
    return d and {"case": case, "what": d, "expected": spec, "real": real}


JUDGES = {"model": judge_model, "tokens": judge_tokens}


class Enough(Exception):
    pass


def swapped(o, x):
    """A result with a letter known by the specification instead of some characters."""
    if isinstance(o, str):
        return "".join("\u00e9" if ch in x else ch for ch in o) if x else o
    if isinstance(o, dict):
        return {swapped(k, x): swapped(v, x) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(swapped(v, x) for v in o)
    return o


class Run:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.level = level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.stages, self.samples, self.violations, self.assumptions = [], [], [], []
        self.known = []
        self.r = random.Random(f"{pid}/{self.seed}")
        self._pool = None

    @property
    def quick(self):
        return self.tier == "quick"

    @property
    def pool(self):
        if self._pool is None:
            self._pool = replay.Pool(PROCS)
        return self._pool

    def elapsed(self):
        return time.time() - self.t0

    def sample(self, x, n=6):
        if len(self.samples) < n:
            self.samples.append(x)

    def violation(self, v):
        self.violations.append(v)
        # what follows would not change the answer
        if len(self.violations) >= 200 or self.elapsed() > ENOUGH_SECONDS:
            raise Enough

    # ------------------------------------------------------------ stages
    def model(self, module, pieces=None, envs=None, sep=None, mn=0, mx=0, inv=(), props=(), view="full",
              judge="model", export="Export", every=1, consts=(), base='MainFile="main.mau"', label=None, spec="Spec"):
        """Explores a model with TLC; its finished states (one in `every`) are replayed."""
        t = time.time()
        cfg = [f"SPECIFICATION {spec}"] + [f"INVARIANT {i}" for i in (*inv, *((export,) if export else ()))]
        cfg += [f"PROPERTY {p}" for p in props]
        cfg += ["CONSTANTS"] + ([base] if base else [])
        cfg += [f"Pieces <- {pieces}"] if pieces else []
        cfg += [f"Envs <- {envs}"] if envs else []
        cfg += [f"Sep <- {sep}", f"MaxPieces = {mx}", f"MinPieces = {mn}"] if sep else []
        cfg += list(consts) + ["CHECK_DEADLOCK FALSE"]
        if not (base or pieces or consts):
            cfg.remove("CONSTANTS")
        T = tlc.Tlc(module, "\n".join(cfg) + "\n", workers=PROCS, timeout=800)
        n = done = 0
        chunk = []
        for line in T.lines():
            n += 1
            if every > 1 and self.r.randrange(every):
                continue
            chunk.append((view, line) if judge in JUDGES else line)
            if n % 997 == 1:
                self.sample(json.loads(json.loads(line.replace(tlc.STANDIN, "\u00e9"))[2:])[:2], 4)
            if len(chunk) >= CHUNK:
                done += self.judge_all(JUDGES.get(judge, judge), chunk)
                chunk = []
        done += self.judge_all(JUDGES.get(judge, judge), chunk)
        if T.violation:
            raise tlc.TlcError("the specification violates its own properties:\n" + T.violation)
        self.states += T.states
        self.transitions += T.transitions
        self.traces += done
        self.stages.append({"model": label or f"{module}/{pieces or ''}", "pieces": [mn, mx], "separator": sep, "invariants": list(inv) + list(props),
                            "states": T.states, "transitions": T.transitions, "behaviours": n, "replayed": done,
                            "wall_s": round(time.time() - t, 1)})

    def judge_all(self, judge, jobs):
        for v in self.pool.map(replay.Safely(judge), jobs):
            if v:
                self.violation(v)
        return len(jobs)

    def docs(self, n, view="full", cases=None, plain=None, swap=None, topic="random documents", **profile):
        """Documents run in the real code and judged by the specification."""
        t = time.time()
        if cases is None:
            cases = gen.cases(f"{self.pid}/{self.seed}/{topic}", n, **profile)
        real = list(self.pool.map(replay.outcome, cases))
        if swap:
            # what the specification does not know, in the result too
            real = [swapped(o, x) for o, x in zip(real, swap)]
        spec = self.spec(plain or cases)
        for v in self.pool.map(replay.Safely(judge_pair), [(view, c, o, s) for c, o, s in zip(cases, real, spec)]):
            if v:
                self.violation(v)
        self.traces += len(cases)
        counts = {}
        for o in spec:
            counts[o["r"]] = counts.get(o["r"], 0) + 1
        for c in cases[:2]:
            self.sample(c)
        self.stages.append({"documents": topic, "profile": profile, "judged": len(cases), "distinct": len({json.dumps(c) for c in cases}),
                            "outcomes": counts, "wall_s": round(time.time() - t, 1)})
        return cases, real, spec

    def places(self, cases, topic):
        """Documents that must be processed, whatever the result."""
        for c, o in zip(cases, self.pool.map(replay.outcome, cases)):
            d = view_place(c, o)
            if d:
                self.violation({"case": c, "what": d, "real": o})
        self.stages.append({"processed": topic, "documents": len(cases)})

    def findings(self):
        """The findings listed for the property that still fail."""
        for k in known.load(self.pid):
            what = known.fails(k)
            if what:
                self.known.append(f"{k['title']}: {what}")

    def spec(self, cases):
        """The outcomes of the specification for some cases."""
        return self.batch("MauBatch", [record(c) for c in cases],
                          'CONSTANT MainFile="main.mau"')

    def batch(self, module, records, consts=""):
        """What the specification reports for each record."""
        if not records:
            return []
        with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
            for c in records:
                f.write(tlc.encode(c))
        try:
            T = tlc.Tlc(module, f'SPECIFICATION Spec\nINVARIANT Report\n{consts}\nCHECK_DEADLOCK FALSE\n',
                        {"MAU_RECORDS": f.name}, workers=PROCS, timeout=800)
            res = dict(T)
        finally:
            os.unlink(f.name)
        self.states += T.states
        self.transitions += T.transitions
        if len(res) != len(records):
            raise tlc.TlcError(f"{len(res)} verdicts for {len(records)} records")
        return [res[j + 1] for j in range(len(records))]

    def judged(self, judge, module, cases, topic, consts="", records=None):
        """Cases run in the real code and compared with what the specification reports: judge((case, report))."""
        t = time.time()
        spec = self.batch(module, records or cases, consts)
        self.judge_all(judge, list(zip(cases, spec)))
        self.traces += len(cases)
        for c in cases[:2]:
            self.sample(c)
        self.stages.append({"cases": topic, "module": module, "judged": len(cases), "wall_s": round(time.time() - t, 1)})

    def runs(self, cases):
        """The same documents alone, in sequences, in other orders and with other hash seeds."""
        import runs
        import visits
        t = time.time()
        visits.compiled()
        tmp = tempfile.mkdtemp(prefix="mauruns")
        fresh = runs.Fresh(PROCS, tmp)
        try:
            alone = list(fresh.map(runs.raw, cases))
            order = list(range(len(cases)))
            for what in ("in order", "in another order"):
                parts = [order[i:i + 40] for i in range(0, len(order), 40)]
                for part, res in zip(parts, fresh.map(runs.sequence, [[cases[i] for i in p] for p in parts])):
                    for k, (i, x) in enumerate(zip(part, res)):
                        if x != alone[i]:
                            self.violation({"case": cases[i], "what": f"another result {what}, after {k} documents: {x[:600]} instead of {alone[i][:600]}",
                                            "before": [cases[j] for j in part[:k]]})
                self.r.shuffle(order)
            for v in fresh.map(replay.Safely(runs.shared), [(c, self.r.choice(cases)) for c in cases[:len(cases) // 2]]):
                if v:
                    self.violation(v)
        finally:
            fresh.close()
            shutil.rmtree(tmp, ignore_errors=True)
        from multiprocessing.pool import ThreadPool
        seeds = (0, 1, 31337)
        with ThreadPool(len(seeds)) as threads:
            results = threads.map(lambda seed: runs.seeded(cases, seed, runs.ASCII if seed == 1 else {}), seeds)
        for seed, res in zip((0, "1 in a plain locale", 31337), results):
            for c, x, y in zip(cases, alone, res):
                if x != y:
                    self.violation({"case": c, "what": f"another result with the hash seed {seed}: {y[:600]} instead of {x[:600]}"})
        self.traces += 6 * len(cases)
        self.stages.append({"runs": "alone, in sequences, shuffled, shared dictionaries, hash seeds 0, 1 (plain locale), 31337", "documents": len(cases),
                            "wall_s": round(time.time() - t, 1)})

    # ------------------------------------------------------------ the end
    def known_finding(self, what):
        self.known.append(what)

    def finish(self):
        self.findings()
        if self._pool:
            self._pool.__exit__()
        for what in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:8], "stages": self.stages},
              "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if not self.violations:
            print(f"{self.pid}: {self.traces} behaviours compared, {self.states} states, {self.elapsed():.1f} s")
            return 0
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        # the smallest ones
        size = lambda v: len(json.dumps(v.get("case"), default=str))
        for v in sorted(self.violations, key=size)[:3]:
            s = json.dumps({"property": self.pid, **v}, indent=1, default=str)
            name = os.path.join("replays", f"{self.pid}-{hashlib.sha1(s.encode()).hexdigest()[:10]}.json")
            with open(os.path.join(VERIF, name), "w") as f:
                f.write(s)
            print(f"VIOLATION property={self.pid} replay={name}")
            print("  " + str(v["what"])[:300])
            if isinstance(v.get("case"), dict) and "t" in v["case"]:
                print("  document: " + json.dumps(v["case"]["t"])[:300])
        print(f"{self.pid}: {len(self.violations)} violations")
        return 1


def machinery_error(exc):
    print(f"ERROR of the machinery: {exc}", file=sys.stderr)
    return 2
