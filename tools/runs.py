"""Sequences of documents processed in one process, alone, and in processes with other hash seeds."""
import copy
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import tempfile

import maureal
import replay
import templates
import tlc
import visits

from mau.environment.environment import Environment


def judge_line(line):
    """A history exported by MC_C22: [text, variables, file, outcome]."""
    out = []
    hist = tlc.Tlc.decode(line)
    for j, (text, v, f, spec) in enumerate(hist):
        files = [] if f == "-" else [["inc", f[1:]]]
        real = replay.outcome({"t": text, "v": sorted(v.items()) if v else [], "f": files})
        d = replay.compare(spec, real)
        if d:
            return {"case": {"history": [h[:3] for h in hist[:j + 1]]}, "what": f"run {j + 1}: {d}"}
    return None


def own(case):
    """A visitor with the templates of the case."""
    r = random.Random(case["t"])
    ts = {}
    for t in visits.TYPES:
        for part in ("", *(p for p in ("t1.", "s2.", "pt_paragraph.", "tg_t1.", "pf_x.") if r.random() < .2)):
            name = t + "." + part + "j2"
            ts[name] = f"<{r.choice('abcdé')}{part}" + "{{ content }}{{ plain_entries }}{{ footnotes }}>"
    prefixes = r.choice([None, [], ["x"]])
    if r.random() < .7:
        return templates.visitor(ts, prefixes)
    folder = tempfile.mkdtemp(prefix="mautemplates")
    try:
        for name, text in ts.items():
            with open(os.path.join(folder, name), "w", encoding="utf-8") as f:
                f.write(text)
        return templates.visitor({}, prefixes, [folder])
    finally:
        shutil.rmtree(folder)


def raw(case):
    return replay.Safely(everything)(case)


def everything(case):
    """Everything that a run gives: the data of the plain visitor and the text of a template visitor, as text."""
    replay.write_files(case.get("f", ()))
    try:
        out, data = maureal.run(case["t"], maureal.case_env(case))
        text = None
        if out["r"] in ("ok", "empty"):
            j = visits.visitors()["jinja"]
            document = visits.parse(case)[0]
            text = [j.process(document), own(case).process(document)]
        return json.dumps([[out["r"], out["l"], out["c"]], data, text])
    except Exception as exc:
        return f"{type(exc).__name__}: {exc}"
    except replay.Slow:
        return "no answer"
    finally:
        replay.remove_files(case.get("f", ()))


def sequence(cases):
    """The results of some documents processed in this order."""
    return [raw(c) for c in cases]


def shared(job):
    """Two runs with environments made from one dictionary, another document between them."""
    case, other = job
    replay.write_files(case.get("f", ()))
    try:
        values = dict(case.get("v", []))
        aliases = {n: {"args": dict(map(tuple, a)), "names": list(names), **({"subtype": s} if s else {})} for n, a, names, s in case.get("al", [])}
        d = {**values, "mau": {"parser": {"aliases": aliases}}}
        before = copy.deepcopy(d)
        res = []
        for t in (case["t"], other["t"], case["t"]):
            res.append(json.dumps(maureal.run(t, Environment.from_dict(d))))
            if d != before:
                return {"case": case, "what": f"processing {t!r} changed the dictionary of the environment into {d}"}
        if res[0] != res[2]:
            return {"case": case, "what": f"the second run gives {res[2][:500]} instead of {res[0][:500]}"}
        return None
    finally:
        replay.remove_files(case.get("f", ()))


# a process where text is ASCII unless a program says otherwise
ASCII = {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": ""}


def seeded(cases, seed, locale=()):
    """The results in a new process with a hash seed and a locale."""
    d = tempfile.mkdtemp(prefix="mauseed")
    try:
        with open(os.path.join(d, "cases"), "w") as f:
            json.dump(cases, f)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), os.path.join(d, "cases"), os.path.join(d, "out")],
                           env={**os.environ, "PYTHONHASHSEED": str(seed), **dict(locale)}, cwd=d, capture_output=True, text=True, timeout=600)
        if p.returncode:
            raise RuntimeError(p.stderr[-2000:])
        with open(os.path.join(d, "out")) as f:
            return json.load(f)
    finally:
        for n in ("cases", "out"):
            if os.path.exists(os.path.join(d, n)):
                os.unlink(os.path.join(d, n))
        os.rmdir(d)


def _init(tmp):
    replay.limit_memory()
    os.chdir(tempfile.mkdtemp(dir=tmp))


class Fresh:
    """Each call in a new process, which never processed a document."""

    def __init__(self, n, tmp):
        self.pool = multiprocessing.get_context("fork").Pool(n, _init, (tmp,), maxtasksperchild=1)

    def map(self, f, q):
        return self.pool.imap(f, q, 1)

    def close(self):
        self.pool.terminate()
        self.pool.join()


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        _cases = json.load(f)
    _out = sequence(_cases)
    with open(sys.argv[2], "w") as f:
        json.dump(_out, f)
