"""Runs TLC on the modules of /verif/spec and collects what they print."""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla"


# TLC keeps one byte for each character of the strings it stores on disk.
STANDIN = "\x7f"


def encode(case):
    """A case as a line of JSON for the specification."""
    s = json.dumps(case, ensure_ascii=False)
    assert STANDIN not in s
    s = s.replace("\u00e9", STANDIN)
    assert s.isascii(), s
    return s + "\n"


class TlcError(Exception):
    pass


def _classpath():
    jars = [os.path.join(JARS, "tla2tools.jar")]
    jars += sorted(os.path.join(JARS, f) for f in os.listdir(JARS) if f.endswith(".jar") and f != "tla2tools.jar")
    return ":".join(jars)


class Tlc:
    """One run of TLC. Iterating gives the data printed by the specification as "@@json"
    strings; afterwards states, transitions, violation (text of the error trace or None)."""

    def __init__(self, module, cfg, env=None, workers=8, timeout=840, heap="12g", opts=(), consts=None):
        self.module, self.cfg, self.env = module, cfg, env or {}
        self.workers, self.timeout, self.heap, self.opts = workers, timeout, heap, list(opts)
        self.states = self.transitions = 0
        self.violation = None
        self.actions = {}

    def cmd(self, cfgfile, meta):
        return ["timeout", str(self.timeout), "java", "-XX:+UseParallelGC", f"-Xmx{self.heap}", "-Xss128m",
                "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", f"-DTLA-Library={SPEC}",
                "-cp", _classpath(), "tlc2.TLC", "-config", cfgfile,
                "-noGenerateSpecTE", "-metadir", meta, "-workers", str(self.workers), *self.opts,
                os.path.join(SPEC, self.module + ".tla")]

    def __iter__(self):
        for line in self.lines():
            yield self.decode(line)

    def lines(self):
        """The lines printed by the specification."""
        d = tempfile.mkdtemp(prefix="mautlc")
        try:
            cfgfile = os.path.join(d, self.module + ".cfg")
            with open(cfgfile, "w") as f:
                f.write(self.cfg)
            p = subprocess.Popen(self.cmd(cfgfile, os.path.join(d, "meta")), stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, text=True, encoding="utf-8", cwd=d, env={**os.environ, **self.env})
            rest = []
            try:
                for line in p.stdout:
                    if line.startswith('"@@'):
                        yield line
                    else:
                        rest.append(line)
                        if len(rest) > 20000:
                            del rest[:5000]
            except BaseException:
                p.kill()
                raise
            finally:
                p.stdout.close()
                p.wait()
            self.finish("".join(rest), p.returncode)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    @staticmethod
    def decode(line):
        # TLC prints the string with the escapes of TLA+ (", \\, \n, \t, \f, \r)
        s = line.rstrip("\n").replace(STANDIN, "\u00e9")
        return json.loads(json.loads(s)[2:])

    def finish(self, text, rc):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        if m:
            self.transitions = int(m[-1][0].replace(",", ""))
            self.states = int(m[-1][1].replace(",", ""))
        for m in re.finditer(r"<(\w+) line \d+.*?>: (\d+):(\d+)", text):
            self.actions[m.group(1)] = self.actions.get(m.group(1), 0) + int(m.group(3))
        self.log = text
        if "Invariant" in text and "is violated" in text or "Action property" in text and "is violated" in text:
            self.violation = text[text.index("Error:"):][:4000]
        elif rc != 0 or "Error:" in text or "Model checking completed" not in text:
            raise TlcError(f"TLC failed on {self.module} (exit {rc}):\n{text[-3000:]}")
