"""panics.py GEN N START: runs in which a process of the system printed a panic message"""
import sys, random, os, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/sim/py')
import eng, gens, hist
z = eng.Zygote(int(os.environ.get("CPU", "0"))); n = int(sys.argv[2]); st = int(sys.argv[3]); c = collections.Counter()
acc = None
for i in range(st, st + n):
    sc = getattr(gens, sys.argv[1])(random.Random(i)); ev, ws = z.run(sc)
    for e in ev:
        if e.get("e") == "out" and "panicked" in e.get("d", ""):
            d = e["d"]; j = d.find("panicked"); m = d[j:j + 160].replace("\n", " "); key = m[:60]; c[key] += 1
            if c[key] <= 2: print(sys.argv[1], i, e.get("p"), m, flush=True)
print(sys.argv[1], dict(c))
