"""Runs of the command line, in a scratch directory."""
import contextlib
import copy
import io
import logging
import os
import random
import shutil
import subprocess
import sys
import tempfile

import yaml

import envs
import maureal
import replay
import tlc
import visits

TEMPLATES = {t: c for t, c in visits.TEMPLATES.items()}
PARTIAL = {t: c for t, c in TEMPLATES.items() if not t.startswith("style.")}
SPECIAL = {"TEMPLATES": TEMPLATES, "PARTIAL": PARTIAL}


class Dumper(yaml.SafeDumper):
    def ignore_aliases(self, data):
        return True


def tree(t):
    """A tree of the specification as data."""
    if t["leaf"]:
        return SPECIAL[t["v"]] if t["v"] in SPECIAL else envs.value(t["v"])
    return {k: tree(x) for k, x in t["kids"]}


def content(entry):
    """The text of a file of the specification; None for a directory."""
    kind, x = entry[0], entry[1]
    if kind == "dir":
        return None
    if kind == "bad":
        return "a: [1\nb: }"
    if kind == "yaml":
        return yaml.dump(tree(x), Dumper=Dumper, sort_keys=False)
    return x


def options(a):
    q = ["-i", a["input"]]
    if a["output"]:
        q += ["-o", a["output"]]
    if a["fmt"]:
        q += ["-t", {"yaml": "core:YamlVisitor", "jinja": "core:JinjaVisitor", "page": "mau_check_visitors:Page"}[a["fmt"]]]
    if a["lonly"]:
        q += ["--lexer-only"]
    if a["config"]:
        q += ["-c", a["config"]]
    for k, f in (("envf", "-e"), ("envv", "-v")):
        for x in a[k]:
            q += [f, x]
    for k, f in (("nsf", "--environment-files-namespace"), ("nsv", "--environment-variables-namespace")):
        if a[k]:
            q += [f, a[k]]
    return q


_plugins = None


def plugins():
    """The folder of a plugin with a visitor."""
    global _plugins
    if _plugins is None:
        d = tempfile.mkdtemp(prefix="mauplugins")
        info = os.path.join(d, "mau_check_visitors-1.0.dist-info")
        os.mkdir(info)
        for path, text in ((os.path.join(info, "METADATA"), "Metadata-Version: 2.1\nName: mau-check-visitors\nVersion: 1.0\n"),
                           (os.path.join(info, "entry_points.txt"), "[mau.visitors]\npage = mau_check_visitors:Page\n"),
                           (os.path.join(d, "mau_check_visitors.py"), "from mau.visitors.yaml_visitor import YamlVisitor\n\n\nclass Page(YamlVisitor):\n"
                            "    format_code = 'page'\n    extension = '.html'\n\n"
                            "    def _postprocess(self, result, *args, **kwargs):\n        return 'PAGE\\n' + super()._postprocess(result, *args, **kwargs)\n")):
            with open(path, "w", encoding="utf-8") as f:
                f.write(text)
        sys.path.append(d)
        _plugins = d
    return _plugins


def call(argv):
    """(exit status, standard output) of the command, in this process."""
    from mau import cli

    plugins()

    root = logging.getLogger()
    old = root.handlers[:], root.level
    root.handlers[:] = []
    argv, sys.argv = sys.argv, ["mau", *argv]
    out, err = io.StringIO(), io.StringIO()
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                cli.main()
            except SystemExit as exc:
                code = exc.code if isinstance(exc.code, int) else 0 if exc.code is None else 1
            except Exception:
                # the interpreter prints the traceback and exits with 1
                code = 1
    finally:
        sys.argv = argv
        root.handlers[:] = old[0]
        root.setLevel(old[1])
    return code, out.getvalue()


def call_process(argv):
    p = subprocess.run([sys.executable, "-m", "mau.cli", *argv], capture_output=True, text=True, timeout=120, encoding="utf-8",
                       env={**os.environ, "PYTHONPATH": maureal.REPO + os.pathsep + plugins(), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1"})
    return p.returncode, p.stdout


def snapshot():
    out = {}
    for d, _, names in os.walk("."):
        for n in names:
            p = os.path.normpath(os.path.join(d, n))
            with open(p, encoding="utf-8", newline="") as f:
                out[p] = f.read()
    return out


def check_text(fmt, want, text):
    """None, or what is wrong with what was written."""
    if not text.endswith("\n"):
        return f"the text {text[-80:]!r} does not end with a new line"
    if fmt == "jinja":
        return None if text == want + "\n" else f"{text[:300]!r} is written instead of {want[:300]!r}"
    if fmt == "page":
        if not text.startswith("PAGE\n"):
            return f"{text[:80]!r} is not a page"
        text = text[len("PAGE\n"):]
    data = yaml.safe_load(text)
    if text != yaml.dump(data, Dumper=Dumper) + "\n":
        return f"{text[-200:]!r} is not just the YAML output"
    return replay.compare(want, maureal.project(data), ctx=False, order=False)


def write(p, entry):
    c = content(entry)
    if c is None:
        os.makedirs(p, exist_ok=True)
    else:
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(c)


def judge_history(base, hist, how=call):
    """hist: [arguments, input, exit status, outputs {path: [format, text]}, output]"""
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="maucli")
    os.chdir(d)
    try:
        for p in sorted(base, key=lambda p: (base[p][0] != "dir", p)):
            write(p, base[p])
        for j, (a, text, code, outs, out) in enumerate(hist):
            outs = outs or {}
            if text is not None:
                write(a["input"], ["text", text])
            before = snapshot()
            got, stdout = how(options(a))
            after = snapshot()
            what = f"run {j + 1} ({' '.join(options(a))})"
            if got != code:
                return f"{what}: exit status {got} instead of {code}"
            done = code == 0 and not a["lonly"]
            target = None
            if done and a["output"] != "-":
                diff = [p for p in after if after[p] != before.get(p)]
                # the only path of the specification that changed
                target = [p for p in outs if outs[p] == out[1:]]
                if len(diff) > 1 or (diff and diff[0] not in target):
                    return f"{what}: {diff} changed, {target} was expected"
                for p in outs:
                    if p not in after:
                        return f"{what}: {p} was not written"
                    d2 = p in target and check_text(*outs[p], after[p])
                    if d2:
                        return f"{what}: {p}: {d2}"
            elif after != before:
                return f"{what}: {[p for p in after if after[p] != before.get(p)]} changed"
            if set(before) - set(after):
                return f"{what}: {set(before) - set(after)} disappeared"
            if done and a["output"] == "-":
                d2 = check_text(*out[1:], stdout)
                if d2:
                    return f"{what}: standard output: {d2}"
        return None
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)




def judge_line(line, how=call):
    base, hist = tlc.Tlc.decode(line)
    d = judge_history(base, hist, how)
    return d and {"case": {"runs": [[options(h[0]), h[1]] for h in hist], "files": {p: content(e) for p, e in base.items() if e[0] != "yaml"}}, "what": d}


def judge_process(line):
    return judge_line(line, call_process)


# ---------------------------------------------------------------- what comes from outside
_WRITTEN = {}


def write_cached(fs):
    for p in sorted(fs, key=lambda p: (fs[p][0] != "dir", p)):
        k = str(fs[p])
        if k not in _WRITTEN:
            _WRITTEN[k] = content(fs[p])
        if _WRITTEN[k] is None:
            os.makedirs(p, exist_ok=True)
        else:
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(_WRITTEN[k])


def load(config, a):
    """The names and values after the files and variables are loaded, or the error; config: the data of the configuration."""
    import mau
    from mau.environment.environment import Environment

    data = copy.deepcopy(config) or {}
    env = Environment.from_dict(data, "mau")
    before = dict(env.asflatdict())
    try:
        mau.load_environment_files(env, a["envf"], namespace=a["nsf"] or None)
    except mau.ConfigurationError:
        if dict(env.asflatdict()) != before:
            raise AssertionError("a file that cannot be loaded changed the environment")
        return "files"
    before = dict(env.asflatdict())
    try:
        mau.load_environment_variables(env, a["envv"], namespace=a["nsv"] or None)
    except Exception:
        if dict(env.asflatdict()) != before:
            raise AssertionError("a variable that cannot be loaded changed the environment")
        return "variables"
    return dict(env.asflatdict())


def judge_outside(line, how=call):
    fs, a, loaded, m, code, out = tlc.Tlc.decode(line)
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="maucli")
    os.chdir(d)
    what = None
    try:
        write_cached(fs)
        got = load(tree(fs[a["config"]][1]) if a["config"] else {}, a)
        want = envs.real_map(m)
        if isinstance(got, str) == loaded:
            what = f"{'no ' if loaded else ''}error in the {got if loaded else 'arguments'} was expected"
        elif loaded and got != want:
            what = f"the environment is {got} instead of {want}"
        else:
            status, stdout = how(options(dict(a, output="-", fmt="yaml")))
            if status != code:
                what = f"exit status {status} instead of {code}"
            elif code == 0:
                what = check_text("yaml", out[2], stdout)
    except Exception as exc:
        what = repr(exc)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
    return what and {"case": {"arguments": a, "text": fs["in.mau"][1], "files": {p: content(e) for p, e in fs.items()}}, "what": what}


def judge_outside_process(line):
    return judge_outside(line, call_process)


# ---------------------------------------------------------------- random runs
def random_tree(r, d=0):
    keys = ["a", "b", "c", "a.b", "k-1", "\u00e9", "x y", "A"]
    if d and r.random() < .55 + d / 10:
        return ["leaf", r.choice(["1", "two", "x y", "a=b", "{}", "list", "int", "none", "no", "empty", "zero", "*s*", "{a}"])]
    ks = r.sample(keys, r.choice([0, 1, 2, 3]))
    return ["dict", [[k, random_tree(r, d + 1)] for k in ks]]


def random_run(seed, **profile):
    import gen
    r = random.Random(seed)
    case = gen.Gen(seed, missing=0, clash=0, maxlines=6, **profile).case()
    paths = ["f.yaml", "g.x.yaml", "d/h.yml", "d/i", ".j"]
    fs = [["d", "dir", ""]] + [[p, "yaml", random_tree(r)] for p in paths if r.random() < .9]
    if r.random() < .3:
        fs.append(["s.yaml", "yaml", ["leaf", r.choice(["one", "none", "list", "0 1", "int"])]])
    fs += [["old.txt", "text", "old\n"], ["in.yaml", "text", "old"]]
    if r.random() < .1:
        fs.append(["bad.yaml", "bad", ""])
    fs += [[f, "text", t] for f, t in case["f"]]
    config = r.choice(["", "conf.yaml", "conf.yaml", "conf.yaml", "full.yaml", "full.yaml", "full.yaml"])
    if config == "conf.yaml":
        fs.append([config, "yaml", random_tree(r)])
    elif config:
        t = ["leaf", r.choice(["TEMPLATES"] * 5 + ["PARTIAL"])]
        for k in ("custom", "templates", "visitor"):
            t = ["dict", [[k, t]]]
        t[1].append(["k", random_tree(r)])
        fs.append([config, "yaml", t])
    ename = lambda: ".".join(r.choice(["a", "b", "k", "x-1", "\u00e9"]) for _ in range(r.choice([1, 1, 2])))
    envf = [r.choice(["", ename() + "="]) + r.choice([f[0] for f in fs if f[1] == "yaml" and not f[0].endswith("l.yaml")] or ["no"]) for _ in range(r.choice([0, 1, 2, 3]))]
    if r.random() < .03:
        envf.append(r.choice(["bad.yaml", "missing", "a=b=f.yaml", "d", "k=old.txtx"]))
    envv = [f"{n}={v}" for n, v in case["v"]]
    envv += [ename() + "=" + r.choice(["1", "", "a=b", " x ", "=", "*b*", "{a}", "\u00e9"]) for _ in range(r.choice([0, 1, 2]))]
    # names given again, with the same or with another value
    if r.random() < .3:
        envv += [x if r.random() < .5 or "=" not in x else x.split("=")[0] + "=" + r.choice(["2", "", "b"]) for x in r.choices(envv or ["a=1"], k=2)]
    if r.random() < .3 and envf:
        envf += r.choices(envf, k=r.choice([1, 2]))
    if r.random() < .03:
        envv.append("nothing")
    a = {"input": r.choice(["in.mau", "doc.txt", "x", "d/in.mau", "in.yaml", ".mau", "a.b.mau"]), "output": r.choice(["", "", "-", "-", "old.txt", "new.txt", "d/o", "no/o", r.choice(["new-", "d/-", "a b", "d/o.", "new", ".-"])]),
         "fmt": r.choice(["yaml", "yaml", "jinja", "jinja", "jinja", "page"] if config == "full.yaml" else ["yaml"] * 7 + ["page", "page", "jinja", ""]),
         "lonly": r.random() < .05, "config": config, "envf": envf, "envv": envv, "nsf": r.choice(["", "", "ns", "a.b", "envvars"]), "nsv": r.choice(["", "", "ns", "envfiles"])}
    t = case["t"]
    if envv and "=" in envv[0] and r.random() < .5:
        t += "\n\n{mau." + (a["nsv"] or "envvars") + "." + envv[0].split("=")[0] + "}\n"
    fs = [f for f in fs if f[0] != a["input"]] + [[a["input"], "text", t]]
    return {"fs": fs, "a": a, "main": a["input"]}


def case_tree(t):
    if t[0] == "leaf":
        return SPECIAL[t[1]] if t[1] in SPECIAL else envs.value(t[1])
    return {k: case_tree(x) for k, x in t[1]}


def judge_random(job):
    case, (loaded, m, code, out, written) = job
    a = case["a"]
    fs = {p: (["text", yaml.dump(case_tree(x), Dumper=Dumper, sort_keys=False)] if k == "yaml" else [k, x]) for p, k, x in case["fs"]}
    outs = {p: out[1:] for p in written}
    m = {k: v for k, v in (m or {}).items() if not k.startswith("mau.visitor.templates.custom")}
    # known finding of C19: templates cannot be rendered with such an environment
    nested = any(k.startswith(n + ".") for k in m for n in m if m[n] != "{}")
    d = None if nested and a["fmt"] == "jinja" else judge_history(fs, [[a, None, code, outs, out]])
    if not d:
        here = os.getcwd()
        tmp = tempfile.mkdtemp(prefix="maucli")
        os.chdir(tmp)
        try:
            write_cached(fs)
            got = load(next((case_tree(x) for p, k, x in case["fs"] if p == a["config"]), {}), a)
            if not isinstance(got, str):
                got = {k: v for k, v in got.items() if not k.startswith("mau.visitor.templates.custom")}
                want = envs.real_map(m)
                if got != want:
                    d = f"the environment is {got} instead of {want}"
        except Exception as exc:
            d = repr(exc)
        finally:
            os.chdir(here)
            shutil.rmtree(tmp, ignore_errors=True)
    return d and {"case": {"arguments": options(a), "files": case["fs"]}, "what": d}
