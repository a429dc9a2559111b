"""Runs cases in the real code with a pool of processes, and compares outcomes."""
import multiprocessing
import os
import resource
import shutil
import signal
import tempfile
import traceback

import maureal

CASE_SECONDS = 10   # of processor


MEMORY = 6 << 30
JOB_SECONDS = 60    # of processor


class Slow(BaseException):
    pass


def _alarm(*_):
    raise Slow()


def write_files(files):
    for n, content in files:
        with open(n, "w", encoding="utf-8", newline="") as f:
            f.write(content)


def remove_files(files):
    for n, _ in files:
        try:
            os.unlink(n)
        except FileNotFoundError:
            pass


def outcome(case):
    """The outcome of the real code for a case, run in the current (scratch) directory."""
    signal.signal(signal.SIGPROF, _alarm)
    write_files(case.get("f", ()))
    signal.setitimer(signal.ITIMER_PROF, CASE_SECONDS)
    try:
        env = maureal.case_env(case)
        out, _ = maureal.run(case["t"], env)
    except Slow:
        out = {"r": "crash", "l": 0, "c": 0, "d": [], "why": f"no result after {CASE_SECONDS} s"}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        remove_files(case.get("f", ()))
    return out


def norm_args(a):
    if not a:
        return a
    pairs = sorted(zip(a[4], a[5]))
    return [a[0], a[1], a[2], a[3], [p[0] for p in pairs], [p[1] for p in pairs]]


class Ids:
    """Automatic ids of headers: a function of level and text, different for different ones."""

    def __init__(self):
        self.real, self.key = {}, {}

    def same(self, key, real):
        """key as in the specification ("?level text" or "+id"), real as in the code."""
        if key[:1] != "?":
            return key == real
        if self.real.setdefault(key, real) != real:
            return False
        return self.key.setdefault(real, key) == key and real not in ("-", "+")


def labels_sorted(group):
    """Labels and blocks of groups, which YAML sorts."""
    if group and all(n[0] == group[0][0] and n[0] in ("label", "blockgroup-item") for n in group):
        return sorted(group, key=lambda n: n[1])
    return group


def diff(spec, real, ids, ctx=True, path="document", order=True):
    """None, or a description of the first difference between two nodes."""
    if spec[0] != real[0]:
        return f"{path}: {real[0]} instead of {spec[0]}"
    path = f"{path}/{spec[0]}"
    sf, rf = spec[1], real[1]
    if spec[0] == "header" and len(sf) == len(rf) == 3:
        if not ids.same(sf[1], rf[1]):
            return f"{path}: id {rf[1]!r} for {sf[1]!r}"
        sf, rf = [sf[0], sf[2]], [rf[0], rf[2]]
    if sf != rf:
        return f"{path}: fields {rf} instead of {sf}"
    if norm_args(spec[2]) != norm_args(real[2]):
        return f"{path}: arguments {real[2]} instead of {spec[2]}"
    if ctx and list(spec[4]) != list(real[4]):
        return f"{path}: position {real[4]} instead of {spec[4]}"
    if len(spec[3]) != len(real[3]):
        return f"{path}: {len(real[3])} groups of children instead of {len(spec[3])}"
    for gs, gr in zip(spec[3], real[3]):
        if not order:
            gs, gr = labels_sorted(gs), labels_sorted(gr)
        if len(gs) != len(gr):
            return f"{path}: {len(gr)} children {[n[0] for n in gr]} instead of {len(gs)} {[n[0] for n in gs]}"
        for j, (a, b) in enumerate(zip(gs, gr)):
            d = diff(a, b, ids, ctx, f"{path}[{j}]", order)
            if d:
                return d
    return None


def compare(spec, real, ctx=True, errpos=True, order=True):
    """None, or a description of the difference between two outcomes; order: of labels and blocks of groups, which YAML sorts."""
    if spec["r"] != real["r"]:
        return f"result {real['r']} {real.get('why', '')} instead of {spec['r']}"
    if spec["r"] in ("lexer", "parser"):
        if errpos and (spec["l"], spec["c"]) != (real["l"], real["c"]):
            return f"error at {real['l'], real['c']} instead of {spec['l'], spec['c']}"
        return None
    if spec["r"] == "ok":
        return diff(spec["d"][0], real["d"][0], Ids(), ctx, order=order)
    return None


class Safely:
    """A judge that always gives an answer: what it raises is a violation, as a job that does not end or takes all the memory."""

    def __init__(self, judge):
        self.judge = judge

    def __call__(self, job):
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, JOB_SECONDS)
        try:
            return self.judge(job)
        except Slow:
            return {"case": {"job": repr(job)[:5000]}, "what": f"no answer after {JOB_SECONDS} s"}
        except Exception as exc:
            return {"case": {"job": repr(job)[:5000]}, "what": f"{exc!r} at {traceback.format_exc()[-600:]}"}
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def _init(tmp):
    limit_memory()
    d = tempfile.mkdtemp(prefix="w", dir=tmp)
    # what a worker leaves behind is removed with the pool
    tempfile.tempdir = d
    os.chdir(d)


class Pool:
    """Workers, each in its own scratch directory."""

    def __init__(self, n=8):
        self.tmp = tempfile.mkdtemp(prefix="maureplay")
        self.pool = multiprocessing.Pool(n, _init, (self.tmp,))

    def map(self, f, q, chunk=50):
        return self.pool.imap(f, q, chunk)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.pool.terminate()
        self.pool.join()
        shutil.rmtree(self.tmp, ignore_errors=True)
