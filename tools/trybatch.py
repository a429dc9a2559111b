import sys, json, tempfile, time, os
import gen, judge, replay, tlc
seed, n = sys.argv[1], int(sys.argv[2])
prof = json.loads(sys.argv[3]) if len(sys.argv) > 3 else {}
cs = gen.cases(seed, n, **prof)
t0=time.time()
with replay.Pool() as p:
    real = list(p.map(replay.outcome, cs))
t1=time.time()
f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False)
for c, o in zip(cs, real):
    f.write(tlc.encode(judge.record(c)))
f.close()
T = tlc.Tlc("MauBatch", 'SPECIFICATION Spec\nINVARIANT Report\nCONSTANT MainFile="main.mau"\nCHECK_DEADLOCK FALSE\n', {"MAU_RECORDS": f.name})
res = {}
for j, out in T:
    res[j] = out
os.unlink(f.name)
print("real", t1-t0, "tlc", time.time()-t1, T.states, T.transitions, len(res))
from collections import Counter
print(Counter(r["r"] for r in real))
bad = 0
for j,(c,o) in enumerate(zip(cs, real)):
    d = replay.compare(res[j+1], o)
    if d:
        bad += 1
        if bad <= 6:
            print("="*60); print(c["t"]); print("--", c["v"], c["al"], c["f"]); print("DIFF", d)
            if '-v' in sys.argv: print(json.dumps(res[j+1])); print(json.dumps(o))
print("bad", bad)
