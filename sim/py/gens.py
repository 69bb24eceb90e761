"""Scenario generators.  Everything is drawn from the rng passed in: one seed is one scenario."""
import json, random

def u8(s): return s.encode().decode("latin-1")      # scripts write one byte per character
def chance(r, p): return r.random() < p

def gen_sim(r, mode=None, stalls=False):
    """Scheduling and network parameters of a run."""
    mode = mode or r.choices(["sys", "edge", "pct", "calm", "wild"], [30, 25, 15, 15, 15])[0]
    s = {"ncpu": r.choice([1, 2, 2, 4])}
    if mode == "sys": s["sys_p"] = r.choice([.1, .3, .6, .9])
    elif mode == "edge": s["sys_p"] = r.choice([.1, .4]); s["edge_mean"] = r.choice([20, 60, 200, 1000])
    elif mode == "pct": s["pct"] = 1; s["pct_depth"] = r.choice([1, 2, 3, 5, 8]); s["pct_len"] = r.choice([2000, 20000, 100000])
    elif mode == "calm": s["sys_p"] = .02
    else: s["sys_p"] = .5; s["edge_mean"] = r.choice([50, 300]); s["spurious_p"] = .1; s["evshuffle_p"] = .3
    if chance(r, .3): s["partial_p"] = r.choice([.1, .5])
    if chance(r, .25): s["pipe_small_p"] = r.choice([.3, 1.0])
    if chance(r, .2): s["evshuffle_p"] = .5
    if chance(r, .2): s["spurious_p"] = .05
    s["lat_us"] = r.choice([[20, 100], [50, 500], [50, 500], [200, 5000], [1000, 40000]])
    if chance(r, .35): s["hot_p"] = r.choice([.002, .01, .01, .03])
    if stalls and chance(r, .5): s["stall_p"] = r.choice([.0005, .002, .01])
    return s

def dag(r, n, shape=None):
    """Dependency lists (indices of earlier tasks)."""
    shape = shape or r.choice(["random", "random", "chain", "fan", "join", "layers", "sparse", "none"])
    deps = []
    for i in range(n):
        if i == 0 or shape == "none": d = []
        elif shape == "chain": d = [i - 1]
        elif shape == "fan": d = [0]
        elif shape == "join": d = list(range(i)) if i == n - 1 else []
        elif shape == "layers":
            w = max(1, n // 3); L = i // w
            d = [j for j in range(i) if j // w == L - 1 and chance(r, .6)] if L else []
        elif shape == "sparse": d = [r.randrange(i)] if chance(r, .5) else []
        else: d = sorted(r.sample(range(i), r.randint(0, min(i, 3))))
        deps.append(d)
    return deps

def dur(r, big=False):
    return r.choice([0, 0, 1, 2, 5, 10, 30, 100, 100, 300, 900] + ([2500, 7000, 12000] if big else []))

def ops_of(r, code=0, out=True, big=False, ms=None):
    o = []
    ms = dur(r, big) if ms is None else ms
    a = r.randint(0, ms) if ms else 0
    if a: o.append(["s", a])
    if out and chance(r, .4): o.append(["o", r.choice([1, 10, 100, 3000]), r.randint(0, 99)])
    if out and chance(r, .2): o.append(["e", r.choice([1, 10, 100]), r.randint(0, 99)])
    if ms - a: o.append(["s", ms - a])
    if code < 0: o.append(["k", -code])
    elif code: o.append(["x", code])
    return o

SIGS = [2, 3, 4, 6, 7, 8, 9, 11, 12, 13, 13, 14, 15, 24, 25, 31]      # not 1 and 10, which read like a lost or cancelled task
def fcode(r, common=(1, 1, 2, 3, 77, 255, -9, -11, -15)):
    """A way to fail: exit code or minus the signal."""
    x = r.random()
    return r.choice(common) if x < .6 else r.choice([126, 127, 128, 130, 141, 254, r.randint(1, 255)]) if x < .8 else -r.choice(SIGS)

def mk_tasks(r, n, p_fail=.15, aff=None, prefix="t", shape=None, out=True, big=False, p_nocmd=.04):
    ds = dag(r, n, shape); ts = []
    for i in range(n):
        code = 0
        if chance(r, p_fail): code = fcode(r)
        t = {"key": "%s%d" % (prefix, i), "ops": ops_of(r, code, out, big), "deps": ["%s%d" % (prefix, j) for j in ds[i]]}
        if t["deps"] and chance(r, .04): t["deps"] += r.choices(t["deps"], k=r.randint(1, 2))      # named more than once
        if aff: t["aff"] = aff(r)
        if code and chance(r, p_nocmd / max(p_fail, .01)):
            t["cmd"] = [r.choice(["nosuchcmd", "/bin/noexec"]), "x", t["key"]]
        if chance(r, .1): t["disp"] = "show " + t["key"]
        ts.append(t)
    return ts

def prov(r, runners, tail_ms=200000, name="prov"):
    """Provisioner program: starts the runners at their times and then waits to be interrupted."""
    ops = []; t = 0
    for d, x in sorted(runners, key=lambda x: x[0]):
        if d > t: ops.append(["s", d - t]); t = d
        ops.append(["remote", x])
    ops.append(["s", tail_ms])
    return {name: {"ops": ops}}

def runner(i, q=0, args=(), host=None, env=None):
    e = {"SLURM_ARRAY_JOB_ID": "7", "SLURM_ARRAY_TASK_ID": str(i)}
    if env: e.update(env)
    return {"name": "r%d" % i, "host": host if host is not None else i + 1, "args": [str(q)] + list(args), "env": e}

LOG = "/w/wf.log"

def base(r, sim=None):
    return {"seed": r.getrandbits(48), "sim": sim or gen_sim(r), "controllers": [], "faults": [], "actors": [], "programs": {}, "meta": {}}

def add_remote(r, sc, nrun=None, qs=(0,), args=(), delay=True):
    n = nrun or r.randint(1, 4); rs = []; queues = {}
    for i in range(n):
        q = qs[i] if i < len(qs) else r.choice(list(qs))
        rs.append((r.choice([0, 0, 1, 5, 50, 400]) if delay else 0, runner(i, q, args))); queues["r%d" % i] = q
    sc["programs"].update(prov(r, rs)); sc["meta"]["queues"] = queues
    return n

def gen_core(r, remote=None, nmax=12, p_fail=None, calls=None, sessions=1, affs=True, big=False, fa=None, log=LOG):
    """Strict scenario: everything works, some commands fail; every requested task has a runner."""
    sc = base(r); sc["meta"]["strict"] = True
    remote = chance(r, .45) if remote is None else remote
    np = r.choice([1, 1, 2, 3, 4, 6]) if not remote else r.choice([0, 0, 1, 2, 3])
    qs = [0]
    if remote and affs and chance(r, .4): qs = [0, r.choice([2, 5, 63])]
    if remote: nr = add_remote(r, sc, r.randint(len(qs), 4), qs)
    avail = ([0, 1] if np else []) + (qs if remote else [])
    avail = sorted(set(avail))
    # queue 1 is the console slot; a remote runner may serve queue 1 as well but none does here
    def aff(r_):
        if not affs or chance(r_, .5): return 1 if 0 in avail else 1 << avail[0]
        m = 0
        for q in avail:
            if chance(r_, .5): m |= 1 << q
        if not m: m = 1 << r_.choice(avail)
        if chance(r_, .2): m |= 1 << r_.choice([3, 9, 40])
        return m
    n = r.randint(1, nmax); pf = r.choice([0, .1, .25, .5]) if p_fail is None else p_fail
    tasks = mk_tasks(r, n, pf, aff, big=big)
    keys = [t["key"] for t in tasks]
    steps = []
    for si in range(sessions):
        s = "s%d" % si
        steps.append({"op": "open", "s": s, "log": log, "np": np, "fa": 0 if fa is None else fa, "rr": chance(r, .7) if si else True})
        ncalls = calls or r.choice([1, 1, 1, 2, 3])
        if remote: ncalls = max(1, min(ncalls, 10 // (nr * sessions)))
        left = list(tasks); first = True
        for ci in range(ncalls):
            k = len(left) if ci == ncalls - 1 else r.randint(0, len(left))
            if k or first: steps.append({"op": "add", "s": s, "tasks": left[:k]}); left = left[k:]
            first = False
            have = keys[:len(keys) - len(left)]
            e = {"op": "exec", "s": s}
            if have and chance(r, .35): e["target"] = r.choice(have)
            if remote: e["prov"] = "prov"
            if chance(r, .1): e["rl"] = r.choice([1000, 200, 50])
            steps.append(e)
        steps.append({"op": "close", "s": s})
    sc["controllers"] = [{"name": "c0", "steps": steps}]
    return sc

# ------------------------------------------------------------------ several sessions on one log
def varied(r, tasks, p=.5):
    """Outcomes that change from run to run of the same key."""
    for t in tasks:
        if "cmd" in t or not chance(r, p): continue
        ops = [o for o in t["ops"] if o[0] not in ("x", "k")]
        t["ops"] = ops + [["xn", [r.choice([0, 0, 1, 2, 137, -9]) for _ in range(r.randint(1, 4))]]]
    return tasks

def subset(r, tasks, p):
    keep = [t for t in tasks if chance(r, p)] or [tasks[0]]
    ks = {t["key"] for t in keep}
    return [dict(t, deps=[d for d in t.get("deps", []) if d in ks]) for t in keep]

def session(r, s, tasks, np, prov=None, fa=0, rr=None, log=LOG, calls=1, loads=True, rcs=True, target=.25, extra=None):
    """Steps of one session: open, add, execute (possibly in several calls), close, load."""
    st = [dict({"op": "open", "s": s, "log": log, "np": np, "fa": fa, "rr": chance(r, .6) if rr is None else rr}, **(extra or {}))]
    left = list(tasks); have = []
    for ci in range(calls):
        k = len(left) if ci == calls - 1 else r.randint(1, len(left)) if left else 0
        if k: st.append({"op": "add", "s": s, "tasks": left[:k]}); have += left[:k]; left = left[k:]
        e = {"op": "exec", "s": s}
        if have and chance(r, target): e["target"] = r.choice(have)["key"]
        if prov: e["prov"] = prov
        st.append(e)
        if rcs and chance(r, .2): st.append({"op": "rc", "s": s, "keys": [t["key"] for t in have]})
        if loads and chance(r, .15): st.append({"op": "load", "log": log, "modes": ["current", "outdated", "all"]})
    if chance(r, .9): st.append({"op": "close", "s": s})
    if loads and chance(r, .5): st.append({"op": "load", "log": log, "modes": ["current", "outdated", "all"]})
    return st

def gen_resume(r):
    """Two to four sessions on one log, in one process or one after the other; outcomes change between runs."""
    sc = base(r); sc["meta"]["strict"] = True
    remote = chance(r, .3); np = r.choice([1, 2, 3]) if not remote else r.choice([0, 0, 1, 2])
    nr = add_remote(r, sc, r.randint(1, 2)) if remote else 0
    ns = r.randint(2, 4); budget = 10 // max(nr, 1)
    tasks = varied(r, mk_tasks(r, r.randint(1, 8), .1, out=chance(r, .3)), r.choice([.2, .6, .9]))
    roots = chance(r, .15)
    if roots:
        for t in tasks: t["root"] = r.choice([0, 1])
    onectl = chance(r, .3); ctl = None
    for i in range(ns):
        calls = r.choice([1, 1, 1, 2]) if budget - (ns - i) >= 2 else 1
        budget -= calls
        ex = {"roots": ["/scratch/a", "/scratch/b"]} if roots else {}
        if chance(r, .2): ex["nk"] = "wfkey%d" % i
        st = session(r, "s%d" % i, subset(r, tasks, r.choice([.6, .9, 1])), np, "prov" if remote else None, calls=calls, extra=ex)
        if onectl and ctl:
            if ctl["steps"][-1]["op"] != "close" and not any(x["op"] == "close" and x["s"] == "s%d" % (i - 1) for x in ctl["steps"]): ctl["steps"].append({"op": "close", "s": "s%d" % (i - 1)})
            ctl["steps"] += st
        else:
            ctl = {"name": "c%d" % i, "steps": st}
            if i: ctl["after"] = "c%d" % (i - 1); ctl["delay_ms"] = r.choice([0, 1, 20, 1000])
            sc["controllers"].append(ctl)
    return sc

# ------------------------------------------------------------------ kills of the controller
def kill_fault(r, ctl, dur_ms=1500):
    x = r.random()
    if x < .35: return {"at_us": int(r.random() ** 2 * dur_ms * 1000) + r.randint(0, 999), "do": "kill", "proc": ctl}
    if x < .55: return {"call": "write", "proc": ctl, "match": "wf.log", "nth": r.randint(1, 12), "partial": r.choice([0, 1, 5, 20, 60, 100, 150, 199, 300]), "kill": True}
    if x < .7: return {"on": "fwrite", "match": "wf.log", "nth": r.randint(1, 10), "delay_us": r.choice([0, 0, 3, 50, 500, 20000]), "do": "kill", "proc": ctl}
    if x < .8: return {"on": r.choice(["exit", "exec_task", "exec"]), "nth": r.randint(1, 6), "delay_us": r.choice([0, 1, 10, 100, 2000, 200000]), "do": "kill", "proc": ctl}
    if x < .9: return {"on": r.choice(["open", "lock", "unlink"]), "match": r.choice(["wf.log", "lock", "log.txt"]), "nth": r.randint(1, 3), "delay_us": r.choice([0, 0, 1, 10]), "do": "kill", "proc": ctl}
    return {"step": r.randint(1, 40000), "proc": ctl, "do": "kill"}

def gen_kill(r):
    """Sessions that are killed at arbitrary points, followed by sessions on the same log."""
    sc = base(r); sc["meta"]["kills"] = True
    remote = chance(r, .2); np = r.choice([1, 2, 3]) if not remote else r.choice([0, 1, 2])
    nr = add_remote(r, sc, r.randint(1, 2)) if remote else 0
    nk = r.choice([1, 1, 1, 2, 3]) if not remote else 1
    big = chance(r, .3)
    tasks = varied(r, mk_tasks(r, r.randint(1, 8), .1, out=chance(r, .3), big=big), r.choice([0, .2, .5]))
    if chance(r, .3):     # records of very different sizes, and text that is not ASCII
        for t in tasks:
            if chance(r, .5): t["args"] = [r.choice(["x", "é" * 40, "ü€😀", "y" * 3000])]
            if chance(r, .2): t["disp"] = "d" * r.choice([1, 200, 5000]) + "€"
    if chance(r, .25):
        for t in tasks:
            if "cmd" not in t: t["ops"].insert(0, ["v", "k=%s w=%d\n" % (u8("é") * r.randint(0, 30), r.randint(0, 9))])
    for i in range(nk + 1):
        last = i == nk
        st = session(r, "s%d" % i, tasks if chance(r, .8) else subset(r, tasks, .7), np, "prov" if remote else None, loads=False, rr=True if last else None)
        if i and chance(r, .3): st.insert(0, {"op": "load", "log": LOG, "modes": ["current", "outdated", "all"]})
        if last: st.append({"op": "load", "log": LOG, "modes": ["current", "outdated", "all"]})
        c = {"name": "c%d" % i, "steps": st}
        if i: c["after"] = "c%d" % (i - 1); c["delay_ms"] = r.choice([0, 1, 100, 3000])
        sc["controllers"].append(c)
        if not last:
            for _ in range(r.choice([1, 1, 2])):
                f = kill_fault(r, "c%d" % i, 8000 if big else 1500)
                if i and "at_us" in f: f = {"on": "ctl", "match": "c%d" % i, "nth": 1, "delay_us": f["at_us"], "do": "kill", "proc": "c%d" % i}
                sc["faults"].append(f)
    sc["meta"]["strict"] = ["s%d" % nk]
    return sc

# ------------------------------------------------------------------ stopping a call: soft, hard, SIGINT, end of the provisioner
def stop_ops(r, code=0, maxms=9000):
    """A command that reacts to SIGTERM in one of several ways."""
    o = []; x = r.random()
    if x < .15: o.append(["it"])
    elif x < .3: o.append(["tt", r.choice([0, 1, 50, 1500, 3000]), r.choice([0, 1, 143])])
    if chance(r, .2):
        g = [["s", r.choice([10, 500, 5000, 20000])]]
        if chance(r, .2): g.insert(0, ["it"])
        if chance(r, .3): g[:0] = [["c", 1], ["c", 2], ["c", 3]]      # outlives the task
        o.append([r.choice(["g", "g", "gd"]), g])
    ms = r.choice([0, 5, 50, 200, 500, 1000, 2500, 4000, 7000, maxms])
    if chance(r, .3): o.append(["o", r.choice([5, 200]), r.randint(0, 50)])
    o.append(["s", ms])
    if code < 0: o.append(["k", -code])
    elif code: o.append(["x", code])
    return o

def post(path, body, un=None, tag="", **k):
    d = {"tag": tag, "path": path, "method": "POST", "body": json.dumps(body), "timeout_ms": k.pop("timeout_ms", 20000)}
    if un: d["un"] = un
    d.update(k)
    return ["http", d]

def stop_tasks(r, n, qs, np, p_fail=.15):
    ts = []
    ds = dag(r, n)
    for i in range(n):
        code = r.choice([1, 2, -9]) if chance(r, p_fail) else 0
        t = {"key": "t%d" % i, "ops": stop_ops(r, code), "deps": ["t%d" % j for j in ds[i]]}
        if chance(r, .4):
            q = [0] if np else []
            q += [1] if np and chance(r, .2) else []
            q += [x for x in qs if chance(r, .7)]
            if not q: q = [r.choice(([0] if np else []) + list(qs) or [0])]
            t["aff"] = sum(1 << x for x in set(q))
        ts.append(t)
    return ts

def gen_stop(r, kind=None):
    sc = base(r); sc["meta"]["hard"] = True
    kind = kind or r.choice(["soft", "soft", "hard", "sigint", "prov"])
    np = r.choice([0, 1, 2, 3]); nr = r.choice([0, 1, 2, 3]) if np else r.choice([1, 2, 3])
    if kind == "sigint" and np and chance(r, .5): nr = -1          # no provisioner at all
    qs = ([0] if chance(r, .7) else [0, 2])[:max(nr, 1)]
    if nr > 0: add_remote(r, sc, nr, qs)
    elif nr == 0: sc["programs"].update(prov(r, []))
    pv = "prov" if nr >= 0 else None
    tasks = stop_tasks(r, r.randint(1, 8), qs if nr > 0 else [], np)
    idle = chance(r, .12)
    if idle:                                                     # nothing can run: nobody serves the queue
        for t in tasks: t["aff"] = 1 << r.choice([7, 33])
    if np == 0:
        for t in tasks:
            if "aff" not in t and 0 not in qs: t["aff"] = 1 << qs[0]
    at = r.choice([r.randint(0, 60), r.randint(0, 400), r.randint(0, 400), r.randint(0, 3000), r.randint(0, 12000)])
    if np and not idle and chance(r, .12):     # all that can run is over; what it left in the background is not
        for t in tasks:
            t.pop("aff", 0); t["ops"] = [["g", [["c", 1], ["c", 2], ["c", 3], ["s", 60000]]]] if chance(r, .5) else []
            t["ops"] += [["s", r.choice([0, 5, 100])]]
        tasks.append({"key": "never", "ops": [], "deps": [], "aff": 1 << 33}); idle = True; at = r.choice([1500, 3000, 9000])
    fl = r.choice([0, 0, 0, 1, 3])
    if kind in ("soft", "hard"):
        ops = [post("/shutdown", {"username": "op", "soft": kind == "soft"}, "c0", kind)]
        if chance(r, .15): ops += [["s", r.choice([0, 5, 300])], post("/shutdown", {"username": "op", "soft": kind == "soft"}, "c0", kind)]
        if chance(r, .5): sc["actors"].append({"name": "op", "at_ms": at, "ops": ops})
        else:
            # right at an event: the actor starts when something happens
            ops0 = [["until", "start:" + r.choice(tasks)["key"], 3000]] if False else []
            sc["faults"].append({"on": r.choice(["exec_task", "exec_task", "exit", "http"]), "nth": r.randint(1, 4), "delay_us": r.choice([0, 10, 200, 1500, 20000]), "do": "actor", "name": "op", "ops": ops0 + ops})
            sc["actors"].append({"name": "op2", "at_ms": at + 5000, "ops": ops})      # in case the event never happens
        if kind == "hard" and chance(r, .25):       # someone else asks for a soft shutdown at almost the same time
            so = [post("/shutdown", {"username": "op", "soft": True}, "c0", "soft")]; us = r.choice([0, 5, 30, 100, 500, 2000, 30000])
            for f in [f for f in sc["faults"] if f.get("do") == "actor" and f.get("name") == "op"]: sc["faults"].append(dict(f, name="op4", ops=so, delay_us=f["delay_us"] + us))
            sc["actors"] += [{"name": "op3", "ops": [["us", us]] + so, "at_ms": a["at_ms"]} for a in sc["actors"] if a["name"] in ("op", "op2")][:1]
    elif kind == "sigint":
        if chance(r, .5): sc["faults"].append({"at_ms": at + 3, "do": "sig", "proc": "c0", "sig": 2})
        else:
            sc["faults"].append({"on": r.choice(["exec_task", "exit", "fwrite"]), "nth": r.randint(1, 4), "delay_us": r.choice([0, 10, 200, 1500, 20000]), "do": "sig", "proc": "c0", "sig": 2})
            sc["faults"].append({"at_ms": at + 5000, "do": "sig", "proc": "c0", "sig": 2})
    else:
        ops = sc["programs"]["prov"]["ops"]; ops[-1] = ["s", at]
        if chance(r, .3): ops.append(["x", r.choice([0, 1])])
        sc["programs"]["prov2"] = {"ops": ops[:-1] + [["s", 200000]]}
    st = [{"op": "open", "s": "s0", "log": LOG, "np": np, "fa": fl, "rr": True}, {"op": "add", "s": "s0", "tasks": tasks}]
    e = {"op": "exec", "s": "s0"}
    if pv: e["prov"] = pv
    if chance(r, .15): e["rl"] = r.choice([1, 5, 50])
    st.append(e)
    if kind == "prov" and not idle and nr != 0: sc["meta"]["io"] = False
    if chance(r, .5) and not idle:
        # the controller can be used again, in the same session or another one
        if chance(r, .5): st.append({"op": "exec", "s": "s0"}); sc["meta"]["strict"] = [["s0", 1]]
        else:
            st.append({"op": "close", "s": "s0"})
            st += [{"op": "open", "s": "s1", "log": LOG, "np": np, "fa": 0, "rr": True}, {"op": "add", "s": "s1", "tasks": tasks}, {"op": "exec", "s": "s1"}]
            sc["meta"]["strict"] = ["s1"]
        if nr > 0 and nr <= 3: st[-1]["prov"] = "prov2" if kind == "prov" else "prov"
        elif np == 0: st.pop()
    sc["controllers"] = [{"name": "c0", "steps": st}]
    if idle: sc["meta"]["idle"] = True
    return sc
def gen_soft(r): return gen_stop(r, "soft")
def gen_hard(r): return gen_stop(r, r.choice(["hard", "sigint", "prov"]))

# ------------------------------------------------------------------ the failure limit
def gen_fail(r):
    """failures_allowed > 0: tasks that fail quickly and slowly next to long running ones."""
    sc = base(r); sc["meta"]["strict"] = True
    remote = chance(r, .35); np = r.choice([1, 2, 3, 4, 6]) if not remote else r.choice([0, 1, 2])
    nr = add_remote(r, sc, r.randint(1, 4)) if remote else 0
    N = r.choice([1, 1, 2, 2, 3, 5]); n = r.randint(2, 14)
    ds = dag(r, n, r.choice(["none", "none", "sparse", "sparse", "random", "chain"])); tasks = []
    nfail = r.choice([max(0, N - 1), N, N, N + 1, N + 3]); bad = set(r.sample(range(n), min(nfail, n)))
    for i in range(n):
        if i in bad:
            ms = r.choice([0, 10, 100, 1000, 2000, 2500, 3000]) if chance(r, .7) else r.choice([7000, 8000, 12000])
            code = fcode(r, (1, 1, 2, 77, -9))
        else: ms = r.choice([0, 5, 50, 500, 3000, 4000, 6500, 7500, 9000, 15000, 25000]); code = 0 if chance(r, .93) else 1
        ops = []
        if chance(r, .2): ops.append(["it"])
        elif chance(r, .1): ops.append(["tt", r.choice([10, 1000]), r.choice([0, 143])])
        if chance(r, .1): ops.append(["g", [["s", r.choice([10, 3000])]]])
        if chance(r, .3): ops.append(["o", r.choice([4, 300]), r.randint(0, 9)])
        if ms: ops.append(["s", ms])
        if code < 0: ops.append(["k", -code])
        elif code: ops.append(["x", code])
        t = {"key": "t%d" % i, "ops": ops, "deps": ["t%d" % j for j in ds[i]]}
        if i in bad and chance(r, .07): t["cmd"] = ["nosuchcmd", "x", t["key"]]
        tasks.append(t)
    steps = [{"op": "open", "s": "s0", "log": LOG, "np": np, "fa": N, "rr": True}]
    ncalls = r.choice([1, 1, 2]) if nr <= 4 else 1; left = list(tasks)
    for ci in range(ncalls):
        k = len(left) if ci == ncalls - 1 else r.randint(1, len(left))
        steps.append({"op": "add", "s": "s0", "tasks": left[:k]}); left = left[k:]
        e = {"op": "exec", "s": "s0"}
        if remote: e["prov"] = "prov"
        steps.append(e)
    steps.append({"op": "close", "s": "s0"})
    if chance(r, .4): steps.append({"op": "load", "log": LOG, "modes": ["current", "outdated", "all"]})
    sc["controllers"] = [{"name": "c0", "steps": steps}]
    return sc

# ------------------------------------------------------------------ several processes want the same log
def gen_lock(r):
    sc = base(r); sc["meta"]["kills"] = True
    logs = [LOG] if chance(r, .8) else [LOG, "/w/other.log"]
    n = r.randint(2, 5)
    for i in range(n):
        st = []
        for j in range(r.choice([1, 1, 1, 2, 3])):
            s = "s%d_%d" % (i, j); log = r.choice(logs)
            st.append({"op": "open", "s": s, "log": log, "np": 1, "fa": 0, "rr": chance(r, .5), "tries": r.choice([1, 1, 3, 20, 60]), "retry_ms": r.choice([0.05, 0.2, 1, 1, 5])})
            if chance(r, .15): st.append({"op": "open", "s": s + "x", "log": log, "np": 1, "fa": 0, "rr": True})
            if chance(r, .75):
                st.append({"op": "add", "s": s, "tasks": mk_tasks(r, r.randint(1, 3), .2, out=False, prefix="k" if chance(r, .5) else "k%d_" % i)})
                if chance(r, .7): st.append({"op": "exec", "s": s})
                elif chance(r, .5): st.append({"op": "sleep", "ms": r.choice([0.1, 1, 10])})
            if chance(r, .7): st.append({"op": "close", "s": s})
            if chance(r, .2): st.append({"op": "load", "log": log, "modes": ["all"]})
        c = {"name": "c%d" % i, "at_us": r.choice([0, 0, r.randint(0, 500), r.randint(0, 20000), r.randint(0, 300000)]), "steps": st}
        sc["controllers"].append(c)
        if chance(r, .25): sc["faults"].append(kill_fault(r, "c%d" % i, 300))
    for _ in range(r.choice([0, 0, 1, 2, 3])):      # a call on the log or the lock file that takes long
        call = r.choice(["open", "open", "flock", "flock", "unlink", "read", "write"])
        f = {"call": call, "proc": "c%d" % r.randrange(n), "nth": r.choice([1, 1, 2, 3, r.randint(1, 10)]), "stall_us": r.choice([100, 1000, 5000, 30000, 200000, 600000])}
        if call != "flock": f["match"] = r.choice([".wrk.lock", "wf.log"]) if call != "unlink" else ".wrk.lock"
        sc["faults"].append(f)
    if chance(r, .2): sc["files"] = {"/w/.wrk.lock": r.choice(["", "junk", json.dumps({"Header": {}})])}
    return sc

# ------------------------------------------------------------------ what goes in and out of a task
VALS = ["a=1\n", "a=1 b=2\n", "k='x y' z=\"q r\"\n", "novalue\n", "\n", "e=\n", "=v\n", "a=b=c\n", "a=1 a=2\n", "bad='open\n", "p=\\ q\n", "crlf=1\r\n", u8("ü=€ 😀=é\n"), "last=1", "x=#y # c=d\n", "tab=1\tb=2\n"]
def io_task(r, key, maxout=300000):
    o = []; t = {"key": key, "deps": []}
    size = lambda: r.choice([0, 1, 7, 100, 4095, 4096, 4097, 65535, 65536, 65537, 70000, 131072, maxout])
    if chance(r, .4):
        n = size() if chance(r, .6) else r.choice([5, 100, 3000])
        fd = r.choice([0, 4, 4, 5, 6, 9, 20])
        t["fd"] = [fd, n, r.randint(0, 99)] + ([1] if chance(r, .3) else [])
        x = r.random()
        if x < .55: rd = [["r", fd]]
        elif x < .65: rd = [["rn", fd, n // 2], ["s", 5], ["r", fd]]; t["read_all"] = False
        elif x < .75: rd = [["rn", fd, r.randint(0, n)]]; t["read_all"] = False
        elif x < .85: rd = [["c", fd]]
        elif x < .93: rd = []
        else: rd = [["rn", fd, n // 3], ["c", fd]]; t["read_all"] = False
    else: rd = []
    for _ in range(r.randint(0, 4)):
        k = r.choice(["o", "o", "ob", "e", "eb"])
        o.append([k, size() if chance(r, .3) else r.choice([1, 10, 300, 5000]), r.randint(0, 99)])
        if chance(r, .3): o.append(["s", r.choice([0, 1, 10, 150])])
    if chance(r, .2): o.append([r.choice(["O", "E"]), r.choice([u8("ünï€\n"), "\x80\xff bad\n", u8("€")[:2], "a\r\nb\tc\x00d\n", "\x1b[1mbold\x1b[0m\n", "no newline"])])
    if chance(r, .45):
        for _ in range(r.randint(1, 5)): o.insert(r.randint(0, len(o)), ["v", r.choice(VALS)])
        if chance(r, .1): o.append(["v", "\xff\xfe=1\n"])
        if chance(r, .1): o.append(["v", "k%d=%s\n" % (r.randint(0, 9), "v" * r.choice([5000, 70000]))])
    if chance(r, .15): o += [["c", r.choice([1, 2, 3])], ["s", r.choice([0, 3, 60])]]
    if rd:
        p = r.choice([0, 0, len(o), r.randint(0, len(o))]); o[p:p] = rd
        if chance(r, .3): o.insert(p, ["s", r.choice([1, 20, 200])])
    code = r.choice([0] * 6 + [1, 42, 255, -9, -11, -13])
    if code < 0: o.append(["k", -code])
    elif code: o.append(["x", code])
    t["ops"] = o
    if chance(r, .3): t["args"] = [r.choice(["", " ", "a b", "\n", "x\ny", "'", '"', "$HOME", "*", "é€😀", "-x", "--", "\\", "a" * 5000, "\t", "%s{}"]) for _ in range(r.randint(1, 3))]
    if chance(r, .12): t["argb"] = [r.choice(["\xff", "a\xe9", "\xf0\x9f\x98", "\xc3\xa9\x80 z", "\xed\xa0\x80"]) for _ in range(r.randint(1, 2))]      # not UTF-8
    if chance(r, .2): t["disp"] = r.choice(["pretty", "with space", "é€", "x" * 300])
    return t

def gen_io(r):
    sc = base(r); sc["meta"]["strict"] = True
    remote = chance(r, .5); np = r.choice([1, 2, 3]) if not remote else r.choice([0, 0, 1])
    if remote: add_remote(r, sc, r.randint(1, 2))
    n = r.randint(1, 6); ds = dag(r, n, r.choice(["none", "sparse"])); tasks = []
    huge = chance(r, .15)
    vast = r.randrange(n) if chance(r, .03) else -1                           # one output larger than any buffer or message limit one might think of
    if vast >= 0: sc["sim"].update(pipe_small_p=0, partial_p=0, edge_mean=0, hot_p=0, pct=False, steps=30000000)
    for i in range(n):
        t = io_task(r, "t%d" % i, 3000000 if huge else 300000)
        if i == vast: t["ops"].insert(r.randint(0, len(t["ops"])), [r.choice(["o", "ob", "e"]), r.choice([5, 9, 17, 34]) * 1000000 + r.randint(0, 9), r.randint(0, 99)])
        t["deps"] = ["t%d" % j for j in ds[i]]; tasks.append(t)
    steps = session(r, "s0", tasks, np, "prov" if remote else None, rcs=False, target=0)
    sc["controllers"] = [{"name": "c0", "steps": steps}]
    return sc

# ------------------------------------------------------------------ scripted runners: the protocol itself
def breq(txn, i): return '{"transaction_id":$%s,"host":"fh%d","pid":%d}' % (txn, i, 70000 + i)
def sreq(q, i): return '{"runnertypeid":%d,"disconnect_error_message":"lost-f%d "}' % (q, i)
def ereq(txn, code, out="", err="", vals=None, nxt=None):
    return '{"transaction_id":$%s,"status":%d,"stdout":%s,"stderr":%s,"values":%s,"start_request":%s}' % (txn, code, json.dumps(out), json.dumps(err), json.dumps(vals or []), nxt or "null")

def work(r, i, plan):
    """Ops of one task in a scripted runner between the reply of /start and /end."""
    tx = "txnf%d" % i; ops = []
    bg = ["http", {"tag": "begun", "path": "/begun", "body": breq(tx, i), "jobid": "7_%d" % i, "timeout_ms": 30000}]
    pg = ["http", {"tag": "ping", "path": "/ping", "body": '{"transaction_id":$%s}' % tx, "jobid": "7_%d" % i, "timeout_ms": 30000}]
    ms = r.choice([0, 0, 5, 50, 300, 900])
    if plan == "late": ms = r.choice([900, 3000, 8000, 20000])
    if ms: ops.append(["s", ms])
    if plan != "nobegun": ops.append(bg)
    if plan == "dupbegun":
        for _ in range(r.randint(1, 2)): ops.append(["http", dict(bg[1], tag="junk.dup")])
    if plan == "long":
        for _ in range(r.randint(1, 4)): ops += [["s", r.choice([1000, 14000, 15000, 25000, 31000, 33000])], pg]
        ops.append(["s", r.choice([0, 100, 20000, 32000])])
    elif plan == "silent":
        for _ in range(r.choice([0, 0, 1, 2])): ops += [["s", r.choice([500, 15000, 30000])], pg]
        ops.append(["s", r.choice([37000, 40000, 55000, 80000])])
        if chance(r, .3): ops += [pg, ["s", 1000]]
    elif plan == "wrongjob":
        ops.append(["http", {"tag": "junk.wrongjob", "path": r.choice(["/end", "/end", "/begun"]), "body": None, "jobid": r.choice(["9_9", "_", "7_%d" % (i + 1), ""]), "timeout_ms": 20000}])
        d = ops[-1][1]; d["body"] = ereq(tx, r.choice([0, 1]), "forged\n", nxt=sreq(0, 77) if chance(r, .3) else None) if d["path"] == "/end" else breq(tx, 99)
    elif plan == "garble":
        ops.append(["http", {"tag": "junk.bad", "path": r.choice(["/end", "/begun"]), "body": r.choice(['{"transaction_id":$%s' % tx, '{"transaction_id":$%s,"status":"zero"}' % tx, "$" + tx]), "jobid": "7_%d" % i, "timeout_ms": 20000}])
    elif chance(r, .3): ops.append(["s", r.choice([1, 100, 2000])])
    return ops

def fake(r, i, q=0, iters=25, delay=0, plans=("ok",), p_fail=.15, chain=.4, gap=(20, 200, 1000), junk=0.0):
    """A runner that follows the protocol: a list of operations."""
    tx = "txnf%d" % i; job = "7_%d" % i; ops = [["until", "up", 60000]]
    if delay: ops.append(["s", delay])
    st = ["http", {"tag": "start", "path": "/start", "method": "GET", "body": sreq(q, i), "jobid": job, "save": tx, "timeout_ms": 45000}]
    for _ in range(iters):
        ops.append(st)
        blk = [["break_unless", tx]]
        while True:
            plan = r.choice(plans); blk += work(r, i, plan)
            code = r.choice([1, 2, 77, -9, -13, 137, 256, 65536, 2**31 - 1, -2**31, r.randint(1, 255)]) if chance(r, p_fail) else 0
            out = r.choice(["", "", "out%d\n" % r.randint(0, 99), u8("é€\n") * r.randint(1, 5)]); vals = [{"k": "v%d" % r.randint(0, 9)}] if chance(r, .2) else []
            nxt = chance(r, chain) and plan != "silent"
            blk.append(["http", {"tag": ("ends.%d" if nxt else "end.%d") % code, "path": "/end", "jobid": job, "body": ereq(tx, code, out, "", vals, sreq(q, i) if nxt else None), "timeout_ms": 45000, **({"save": tx} if nxt else {})}])
            if chance(r, junk) and not nxt:
                blk.append(["http", {"tag": "junk.stale", "path": "/end", "jobid": job, "body": ereq(tx, 0), "timeout_ms": 20000}])
                if chance(r, .5): blk.append(["http", {"tag": "junk.stale", "path": "/begun", "jobid": job, "body": breq(tx, i), "timeout_ms": 20000}])
            if not nxt: break
            blk.append(["break_unless", tx])
        ops.append(["loop", 1, blk]); ops.append(["s", r.choice(gap)])
    return {"name": "f%d" % i, "host": i + 1, "ops": ops}

def fprov(): return {"prov": {"ops": [["mark", "up"], ["s", 1000000]]}}

def add_fakes(r, sc, n, qs=(0,), first=0, **k):
    sc["programs"].setdefault("prov", {"ops": [["s", 1000000]]})
    ops = sc["programs"]["prov"]["ops"]
    if ["mark", "up"] not in ops: ops.insert(0, ["mark", "up"])
    q = sc["meta"].setdefault("queues", {})
    for j in range(n):
        i = first + j; qn = qs[j] if j < len(qs) else r.choice(list(qs)); q["f%d" % i] = qn
        sc["actors"].append(fake(r, i, qn, delay=r.choice([0, 0, 1, 50, 700]), **k))

def simple(r, sc, tasks, np, calls=1, prov="prov", fa=0, target=0.0, close=.9, rl=None, loads=False):
    st = session(r, "s0", tasks, np, prov, fa=fa, calls=calls, rcs=False, loads=loads, target=target)
    if rl is not None:
        for x in st:
            if x["op"] == "exec": x["rl"] = rl
    sc["controllers"] = [{"name": "c0", "steps": st}]

def gen_fake(r):
    """Well-behaved scripted runners, with or without local slots."""
    sc = base(r); sc["meta"]["strict"] = True
    np = r.choice([0, 0, 1, 2]); qs = [0] if chance(r, .7) else [0, 3]
    add_fakes(r, sc, r.randint(len(qs), 4), qs)
    tasks = mk_tasks(r, r.randint(1, 10), .1, lambda r_: r_.choice([1, 1, 1] + ([8, 9] if len(qs) > 1 else [])), out=False, p_nocmd=0)
    simple(r, sc, tasks, np, r.choice([1, 1, 2]), target=.2)
    return sc

def gen_halt(r):
    """Soft shutdowns next to scripted runners, which may report the start of their task late or never."""
    sc = base(r); sc["meta"]["hard"] = True
    np = r.choice([0, 0, 0, 1, 2]); qs = [0] if chance(r, .7) else [0, 3]
    add_fakes(r, sc, r.randint(len(qs), 5), qs, plans=("ok", "late", "late", "nobegun"), chain=r.choice([0, .4, .8]))
    tasks = mk_tasks(r, r.randint(1, 10), .1, lambda r_: r_.choice([1, 1, 1] + ([8, 9] if len(qs) > 1 else [])), shape=r.choice([None, "none"]), out=False, p_nocmd=0)
    for t in tasks:
        if np and chance(r, .4): t["ops"].insert(0, ["s", r.choice([100, 2000, 9000])])
    ops = [post("/shutdown", {"username": "op", "soft": True}, "c0", "soft")]
    at = r.choice([r.randint(0, 400), r.randint(0, 3000), r.randint(0, 30000)])
    if chance(r, .5): sc["actors"].append({"name": "op", "at_ms": at, "ops": ops})
    else:
        sc["faults"].append({"on": r.choice(["exec_task", "exit", "http", "http", "http"]), "nth": r.randint(1, 12), "delay_us": r.choice([0, 10, 200, 1500, 20000]), "do": "actor", "name": "op", "ops": ops})
        sc["actors"].append({"name": "op2", "at_ms": at + 20000, "ops": ops})
    if chance(r, .3):        # some of the jobs were cancelled before, so that they put tasks back
        k = [["until", "up", 60000], ["s", r.choice([0, 1, 20, 300])]]; js = ["7_%d" % i for i in range(len(qs), len(sc["actors"]))]
        for _ in range(r.randint(1, 4) if js else 0): k += [hreq("cancel", "/mark-slurm-job-cancelation", json.dumps({"jobids": r.sample(js, r.randint(1, len(js)))})), ["s", r.choice([0, 5, 100, 1000])]]
        sc["actors"].append({"name": "k0", "host": r.choice([0, 30]), "at_ms": 0, "ops": k})
    simple(r, sc, tasks, np, 1)
    return sc

def gen_affinity(r):
    """Many queues: tasks that may run on several of them, runners of all of them, and runners that ask for queues there are not."""
    sc = base(r); sc["meta"]["strict"] = True
    np = r.choice([0, 0, 1, 2]); free = list(range(64)); r.shuffle(free)
    qs = [q for q in r.sample([0, 1, 2, 3, 31, 32, 33, 62, 63] + free[:3], r.randint(1, 5))]; qs = list(dict.fromkeys(qs))
    served = sorted(set(qs) | ({0, 1} if np else set()))
    add_fakes(r, sc, r.randint(len(qs), min(len(qs) + 2, 6)), qs, p_fail=r.choice([0, .1]), gap=(0, 20, 200))
    for k in range(r.choice([0, 1, 1, 2])):
        q = r.choice([64, 64 + r.choice(served), 64 + r.choice(served), 128 + r.choice(served), 256 + r.choice(served), 2**16 + r.choice(served), 2**32 - 64 + r.choice(served), 2**32 - 1])
        add_fakes(r, sc, 1, [q], first=20 + k, iters=8, gap=(20, 300))
    def aff(r_):
        m = 0
        for q in r_.sample(served, r_.choice([1, 1, 2, len(served)]) if len(served) > 1 else 1): m |= 1 << q
        for q in free[:r_.choice([0, 0, 0, 2, 20])]: m |= 1 << q
        return m if chance(r_, .95) else 2**64 - 1
    tasks = mk_tasks(r, r.randint(1, 16), .1, aff, shape=r.choice([None, "none"]), p_nocmd=0)
    simple(r, sc, tasks, np, r.choice([1, 1, 2]), target=.2)
    return sc

def gen_beat(r):
    """Scripted runners that keep quiet, slowly beat, or are late."""
    sc = base(r); sc["meta"]["strict"] = False
    np = r.choice([0, 0, 1, 2]); n = r.randint(1, 4)
    add_fakes(r, sc, n, plans=("ok", "long", "long", "silent", "silent", "nobegun"), p_fail=.1, iters=12)
    tasks = mk_tasks(r, r.randint(1, 8), .05, out=False, shape=r.choice([None, "none"]), p_nocmd=0)
    simple(r, sc, tasks, np)
    sc["sim"]["stall_s"] = 300
    return sc

NETFAULTS = ["partition", "partition", "host_down", "kill", "stop", "rst"]
def gen_net(r):
    """Real runners whose machines and network fail."""
    sc = base(r); sc["meta"]["strict"] = False; sc["meta"]["net"] = True
    np = r.choice([0, 1, 1, 2]); n = r.randint(1, 4)
    rs = [(r.choice([0, 0, 5, 400]), runner(i, 0, ["--disconnect-err-msg", "lost-%j "])) for i in range(n)]
    t = 0
    for i in range(n, min(n + r.randint(1, 3), 9)):     # spare runners for what is left
        t += r.choice([20000, 45000, 90000]); rs.append((t, runner(i, 0, ["--disconnect-err-msg", "lost-%j "])))
    if np == 0: rs.append((t + 100000, runner(9, 0))); 
    sc["programs"].update(prov(r, rs, 1000000)); sc["meta"]["queues"] = {"r%d" % i: 0 for i in range(10)}
    tasks = []
    nt = r.randint(1, 6); ds = dag(r, nt, r.choice(["none", "none", "sparse"]))
    for i in range(nt):
        tasks.append({"key": "t%d" % i, "ops": ops_of(r, r.choice([0, 0, 0, 0, 1]), ms=r.choice([10, 300, 3000, 14000, 31000, 50000, 70000])), "deps": ["t%d" % j for j in ds[i]]})
    for _ in range(r.choice([1, 1, 2, 3])):
        h = r.randrange(n); k = r.choice(NETFAULTS)
        at = r.choice([{"at_ms": r.choice([r.randint(0, 500), r.randint(0, 20000), r.randint(0, 60000)])}, {"on": r.choice(["exec_task", "exit"]), "nth": r.randint(1, 4), "delay_us": r.choice([0, 100, 2000, 50000, 14900000, 15100000])}])
        if k == "partition": f = dict(at, do="partition", a=0, b=h + 1, **({"ms": r.choice([50, 1000, 5000, 12000, 20000, 45000, 90000])} if chance(r, .6) else {}))
        elif k == "host_down": f = dict(at, do="host_down", host=h + 1)
        elif k == "kill": f = dict(at, do="kill", proc="r%d" % h)
        elif k == "stop": f = dict(at, do="stop", proc="r%d" % h, ms=r.choice([500, 5000, 14000, 32000, 60000, 100000]))
        else: f = dict(at, do="rst", host=h + 1)
        sc["faults"].append(f)
    if chance(r, .15): sc["faults"].append({"at_ms": r.randint(0, 20000), "do": "stop", "proc": "c0", "ms": r.choice([200, 3000, 8000])})
    simple(r, sc, tasks, np)
    sc["sim"]["stall_s"] = 400
    return sc

def gen_flimit(r):
    """failures_allowed > 0 with tasks held by scripted runners that report around the moment the limit is reached."""
    sc = base(r); sc["meta"]["strict"] = True; sc["meta"]["pinging"] = True
    np = 1 if chance(r, .4) else 0; N = r.choice([1, 1, 2, 3]); n = r.randint(3, 9)
    sc["programs"]["prov"] = {"ops": [["mark", "up"], ["s", 1000000]]}; q = sc["meta"].setdefault("queues", {})
    t0 = r.choice([200, 500, 1000, 7000, 9000])
    tick = 35e6 / 256 * r.randint(3, 8) if chance(r, .4) else None     # the server looks for connections to drop at multiples of this
    if tick: t0 = int(tick / 1000 - r.randint(10, 100)); sc["sim"]["lat_us"] = [20, 60]; sc["sim"]["ncpu"] = r.choice([2, 4])
    for i in range(n):
        q["f%d" % i] = 0; tx = "txnf%d" % i; job = "7_%d" % i
        st = ["http", {"tag": "start", "path": "/start", "method": "GET", "body": sreq(0, i), "jobid": job, "save": tx, "timeout_ms": 45000}]
        ops = [["until", "up", 60000], st]
        blk = [["break_unless", tx]]
        if i < N or chance(r, .9): blk.append(["http", {"tag": "begun", "path": "/begun", "body": breq(tx, i), "jobid": job, "timeout_ms": 30000}])
        if i < N:
            us = t0 * 1000 + r.randint(0, 2000); code = 1
            if t0 > 5000: ops.insert(1, ["s", t0 - 1000]); us = 10 ** 6
        else:
            us = t0 * 1000 + r.choice([r.randint(0, 400000), r.randint(100000, 180000), r.randint(0, 20000), r.choice([3, 10]) * 10**6]); code = r.choice([0, 0, 1])
        blk += [["us", us]]
        nxt = chance(r, .2)
        blk.append(["http", {"tag": ("ends.%d" if nxt else "end.%d") % code, "path": "/end", "jobid": job, "body": ereq(tx, code, "", "", [], sreq(0, i) if nxt else None), "timeout_ms": 45000, **({"save": tx} if nxt else {})}])
        ops.append(["loop", 1, blk])
        sc["actors"].append({"name": "f%d" % i, "host": i + 1, "ops": ops})
    q["f%d" % n] = 0; sc["actors"].append(fake(r, n, 0, delay=45000, p_fail=0))       # for what is left below the limit
    tasks = mk_tasks(r, r.randint(n, n + 4), 0, shape=r.choice(["none", "none", "sparse"]), out=False, p_nocmd=0)
    simple(r, sc, tasks, np, fa=N)
    return sc

def gen_limbo(r):
    """failures_allowed > 0, and runners that take tasks and are never heard of again: what never began cannot have ended early."""
    sc = base(r); sc["meta"]["strict"] = True
    np = r.choice([0, 1, 1, 2]); N = r.choice([1, 1, 2, 3]); lost = r.randint(1, 4)
    add_fakes(r, sc, lost, p_fail=0, iters=1)
    for a in sc["actors"]:
        st = next(o for o in a["ops"] if o[0] == "http" and o[1]["tag"] == "start")
        a["ops"] = [["until", "up", 60000], ["s", r.choice([0, 1, 20, 700])], st, ["s", r.choice([100000, 50000])]]
    if np == 0 or chance(r, .4): add_fakes(r, sc, r.randint(1, 2), first=lost, plans=("ok", "ok", "long"), p_fail=0)
    n = lost + r.randint(2, 8)
    tasks = mk_tasks(r, n, 0, shape=r.choice(["none", "sparse", "chain", None]), out=False, p_nocmd=0)
    for t in tasks:
        if chance(r, .4): t["ops"].insert(0, ["s", r.choice([1000, 10000, 20000, 34000, 36000])])
    for t in r.sample(tasks, r.randint(0, N - 1)): t["ops"] = [["s", r.choice([0, 100, 1000])], ["x", 1]]
    simple(r, sc, tasks, np, fa=N, target=0)
    sc["sim"]["stall_s"] = 300
    return sc

# ------------------------------------------------------------------ requests that must have no effect
def hreq(tag, path, body=None, **k):
    d = {"tag": tag, "path": path, "timeout_ms": k.pop("timeout_ms", 20000)}
    if body is not None: d["body"] = body
    d.update(k); return ["http", d]

BADBODY = ["", "{", "nonsense", "[1,2]", "{}", '{"transaction_id":-1}', '{"transaction_id":"x"}', '{"transaction_id":99999999999}', '{"runnertypeid":-1,"disconnect_error_message":"x"}', '{"transaction_id":5,"status":1e400}', "\x00\xff\xfe", "x" * 100000]
def junk_op(r, fakes):
    """One request that must not change anything."""
    k = r.choice(["noauth", "noauth", "noauth", "unknown", "unknown", "wrongjob", "wrongjob", "bad", "bad", "nojob", "type64", "path", "half", "raw"])
    f = r.choice(fakes); tx = "txnf%d" % f
    ep = r.choice(["/begun", "/end", "/ping", "/start", "/end"])
    m = "GET" if ep == "/start" else "POST"
    job = r.choice(["9_9", "7_%d" % r.choice(fakes), ""])
    if k == "noauth":
        if chance(r, .2): return hreq("junk.noauth", "/mark-slurm-job-cancelation", json.dumps({"jobids": ["7_%d" % x for x in fakes]}), noauth=1)
        b = {"/begun": breq(tx, 77), "/end": ereq(tx, r.choice([0, 1, 99]), "forged\n", nxt=sreq(0, 77) if chance(r, .4) else None), "/ping": '{"transaction_id":$%s}' % tx, "/start": sreq(0, 77)}[ep]
        a = r.choice([{"noauth": 1}, {"auth": "Bearer x"}, {"auth": "Bearer "}, {"auth": "Basic abc"}, {"auth": "bearer"}])
        return hreq("junk.noauth", ep, b, method=m, jobid="7_%d" % f, **a)
    if k == "unknown":
        ep = r.choice(["/begun", "/end"]); t = r.choice([0, 1, 4294967295, r.randint(2, 2**32 - 2)])
        b = breq("X", 77) if ep == "/begun" else ereq("X", 0, "forged\n", nxt=sreq(0, 77) if chance(r, .4) else None)
        return hreq("junk.unknown", ep, b.replace("$X", str(t)), jobid=job)
    if k == "wrongjob":
        ep = r.choice(["/begun", "/end", "/end"]); job = r.choice(["9_9", "_", "7_%d" % (f + 1), "8_%d" % f, ""])
        b = breq(tx, 77) if ep == "/begun" else ereq(tx, r.choice([0, 1]), "forged\n", nxt=sreq(0, 77) if chance(r, .4) else None)
        return hreq("junk.wrongjob", ep, b, jobid=job)
    if k == "bad": return hreq("junk.bad", ep, r.choice([b for b in BADBODY if ep != "/ping" or '"transaction_id":5' not in b]), method=m, jobid="7_%d" % f, **({"ctype": r.choice(["text/plain", "", "application/octet-stream"])} if chance(r, .3) else {}))
    if k == "nojob":
        ep = r.choice(["/begun", "/end", "/start"]); m = "GET" if ep == "/start" else "POST"
        return hreq("junk.nojob", ep, {"/begun": breq(tx, 77), "/end": ereq(tx, 0, "forged\n"), "/start": sreq(0, 77)}[ep], method=m)
    if k == "type64": return hreq("junk.type64", "/start", sreq(r.choice([64, 65, 100, 4294967295]), 77), method="GET", jobid=job)
    if k == "path": return hreq("junk.path", r.choice(["/", "/starts", "/shutdown", "/ratelimit", "/end/", "//ping", "/" + "a" * 3000]), "{}", method=r.choice(["GET", "POST", "DELETE"]), jobid=job)
    if k == "half": return hreq("junk.half", ep, ereq(tx, 0, "forged\n" * 20), method=m, jobid="7_%d" % f, half=r.choice([1, 10, 40, 90, 150, 200, 260]))
    return hreq("junk.raw", "/raw", raw=r.choice(["\x00" * 50, "GET\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" + "\xff" * 40, "A" * 70000, "POST /end HTTP/1.1\r\nContent-Length: 99999999999\r\n\r\n", "POST /ping HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n"]), timeout_ms=3000)

def gen_junk(r):
    sc = base(r); sc["meta"]["strict"] = True
    np = r.choice([0, 0, 1, 2]); n = r.randint(1, 3)
    add_fakes(r, sc, n, plans=("ok", "ok", "dupbegun", "wrongjob", "garble"), junk=.4, p_fail=.2)
    if chance(r, .3):      # a silent runner whose transaction forged requests must not keep alive or finish
        sc["meta"]["strict"] = False; sc["sim"]["stall_s"] = 300
        sc["actors"][0] = fake(r, 0, 0, plans=("silent", "ok"), iters=10)
    for j in range(r.choice([1, 1, 2])):
        ops = [["until", "up", 60000]]
        for _ in range(r.randint(5, 40)):
            if chance(r, .6): ops.append(["s", r.choice([0, 1, 5, 30, 200, 1500])])
            ops.append(junk_op(r, list(range(n))))
        sc["actors"].append({"name": "j%d" % j, "host": 20 + j, "at_ms": r.choice([0, 5, 100]), "ops": ops})
    tasks = mk_tasks(r, r.randint(1, 8), .1, out=False, p_nocmd=0)
    for t in tasks:
        if np and chance(r, .3): t["ops"] = [["s", r.choice([500, 3000, 8000])]]
    simple(r, sc, tasks, np)
    if np and chance(r, .3): real_runner(r, sc, 5)
    return sc

def real_runner(r, sc, i, args=(), delay=0, env=None):
    sc["programs"].setdefault("prov", {"ops": [["s", 1000000]]})
    ops = sc["programs"]["prov"]["ops"]
    ins = ([["s", delay]] if delay else []) + [["remote", runner(i, 0, args, env=env)]]
    ops[-1:-1] = ins; sc["meta"].setdefault("queues", {})["r%d" % i] = 0

# ------------------------------------------------------------------ cancelled batch jobs
def gen_cancel(r, two=None, real=True, slow=None):
    sc = base(r); sc["meta"]["strict"] = True
    two = chance(r, .3) if two is None else two       # two queues, tasks for one or both of them
    np = r.choice([0, 0, 1]); n = r.randint(3, 6) if two else r.randint(2, 5)
    slow = chance(r, .2) if slow is None else slow   # the jobs that are never cancelled take their time between tasks
    qs = (0, 3) if two else (0,); k = dict(plans=("ok", "ok", "long") if chance(r, .15) else ("ok",), p_fail=.1)
    if slow:
        np = 0; add_fakes(r, sc, len(qs), qs, gap=(300, 1000, 3000), chain=0, **k)
        add_fakes(r, sc, n - len(qs), [r.choice(qs) for _ in range(n)], first=len(qs), gap=(0, 1, 5, 20, 200), chain=r.choice([0, .4]), **k)
    else: add_fakes(r, sc, n, qs, gap=(0, 1, 5, 20, 200), chain=r.choice([0, .4, .8]), **k)
    nreal = r.choice([0, 0, 1, 2]) if real else 0
    for k in range(nreal): real_runner(r, sc, 6 + k)
    cand = ["7_%d" % i for i in range(2 if two else 1, n)] + ["7_%d" % (6 + k) for k in range(nreal)] + ["7_77", "8_1"]      # the job of f0 is never cancelled
    for j in range(r.choice([1, 1, 2, 3])):
        ops = [["until", "up", 60000], ["s", r.choice([0, 1, 5, 20, 60, 200, 700, 2000])]]
        for _ in range(r.randint(1, 6)):
            ops.append(hreq("cancel", "/mark-slurm-job-cancelation", json.dumps({"jobids": r.sample(cand, r.randint(1, len(cand)))})))
            ops.append(["s", r.choice([0, 0, 1, 5, 30, 300, 1000])])
        a = {"name": "k%d" % j, "host": r.choice([0, 30 + j]), "at_ms": 0, "ops": ops}
        if chance(r, .5): sc["actors"].append(a)
        else: sc["faults"].append({"on": r.choice(["http", "exec_task", "exit"]), "nth": r.randint(1, 15), "delay_us": r.choice([0, 5, 20, 100, 500, 3000]), "do": "actor", "name": "k%d" % j, "ops": ops[2:]})
    tasks = mk_tasks(r, r.randint(2, 14), .1, out=False, shape=r.choice(["none", "none", "sparse", "random", "layers"]), p_nocmd=0)
    for t in tasks:
        t["ops"] = [["s", r.choice([0, 0, 5, 50, 300])]] + [o for o in t["ops"] if o[0] in ("x", "k")]
        if two: t["aff"] = r.choice([1, 8, 9, 9, 9])
    simple(r, sc, tasks, np)
    if np == 0 and chance(r, .3): sc["controllers"][0]["steps"][1]["tasks"][0]["ops"] = [["s", 1500]]
    return sc

# ------------------------------------------------------------------ launch rate
def gen_rate(r):
    sc = base(r); sc["meta"]["strict"] = True; sc["meta"]["rate"] = True
    sc["sim"].pop("stall_p", None)
    kind = r.choice(["burst", "burst", "idle", "idle", "chain", "change", "often", "clock", "off"])
    remote = chance(r, .5) or kind in ("change", "often"); np = r.choice([1, 2, 3, 4]) if not remote else r.choice([0, 0, 1, 2])
    rate = r.choice([1, 2, 3, 5, 5, 10, 10, 20, 50, 200, 1000])
    if kind == "off": rate = 0
    if kind == "often": rate = r.choice([1, 2, 3, 5, 8, 20])
    n = 40 if kind == "often" else r.randint(3, 8) if rate <= 2 else r.randint(5, 40)
    tasks = []
    for i in range(n): tasks.append({"key": "t%d" % i, "ops": [["s", r.choice([0, 0, 0, 1, 10, 50])]], "deps": []})
    if kind == "idle":     # a slow task first, then everything at once
        tasks[0]["ops"] = [["s", r.choice([700, 1500, 4000, 20000])]]
        for t in tasks[1:]:
            if chance(r, .9): t["deps"] = ["t0"]
    elif kind == "chain":
        for i, t in enumerate(tasks[1:], 1):
            if chance(r, .5): t["deps"] = ["t%d" % (i - 1)]
    if remote:
        if chance(r, .7): add_fakes(r, sc, r.randint(1, 3), p_fail=0, gap=(0, 0, 5), chain=r.choice([0, .5, .9]), iters=80)
        else: add_remote(r, sc, r.randint(1, 3))
    if kind == "change":
        ops = [["s", r.choice([300, 1000, 2500])]]; 
        for _ in range(r.choice([1, 1, 2, 3])):
            ops += [post("/ratelimit", {"per_second": r.choice([1, 2, 5, 10, 50, 0, rate])}, "c0", "ratelimit"), ["s", r.choice([0, 500, 2000])]]
        sc["actors"].append({"name": "op", "at_ms": 0, "ops": ops})
    if kind == "often":       # the rate is set again and again
        ops = [["s", r.choice([300, 1000])]]; gap = r.choice([50, 150, 300, 800]); same = chance(r, .4)
        for _ in range(r.randint(4, 14)): ops += [post("/ratelimit", {"per_second": rate if same else r.choice([1, 2, 3, 5, 8, 20])}, "c0", "ratelimit"), ["s", gap if chance(r, .7) else r.choice([0, 20, 500])]]
        sc["actors"].append({"name": "op", "at_ms": 0, "ops": ops})
    if kind == "clock":
        for _ in range(r.choice([1, 2])):
            if chance(r, .5): sc["faults"].append({"at_ms": r.randint(0, 3000), "do": "suspend", "host": 0, "ms": r.choice([100, 5000, 100000])})
            else: sc["faults"].append({"at_ms": r.randint(0, 3000), "do": "skew", "host": 0, "ms": r.choice([-3600000, -5000, 5000, 3600000, 10**8])})
        sc["meta"]["stalls"] = True
    simple(r, sc, tasks, np, r.choice([1, 1, 2]), prov="prov" if remote else None, rl=rate, close=1)
    sc["sim"]["stall_s"] = 300
    return sc

# ------------------------------------------------------------------ status reports
def poll(r, tag="status", **k):
    b = {"etag": 0, "timemin_ms": 0, "timeout_ms": 0}; b.update(k)
    return ["http", {"tag": tag, "path": "/status", "method": "GET", "body": json.dumps(b).replace('"$', "$").replace('n"', "n") if False else '{"etag":%s,"timemin_ms":%d,"timeout_ms":%d}' % (b["etag"], b["timemin_ms"], b["timeout_ms"]), "noauth": 1, "timeout_ms": b["timeout_ms"] + b["timemin_ms"] + 20000}]

def pollers(r, sc, n):
    for j in range(n):
        ops = [["until", "up", 60000], ["s", r.choice([0, 1, 10, 100])]]; v = "et%d" % j; have = False
        for _ in range(r.randint(3, 25)):
            x = r.random()
            if x < .4 or not have:
                o = poll(r); have = True
            elif x < .85: o = poll(r, "poll", etag="$%sn" % v, timeout_ms=r.choice([50, 1000, 5000, 30000]), timemin_ms=r.choice([0, 0, 0, 20, 300, 2000]))
            elif x < .95: o = poll(r, "poll0", etag="$" + v, timeout_ms=r.choice([1000, 5000]), timemin_ms=r.choice([0, 100]))
            else: o = poll(r, "far", etag=r.choice([10**6, 2**63]), timeout_ms=r.choice([0, 500]))
            o[1]["save"] = v; ops.append(o); ops.append(["s", r.choice([0, 0, 1, 10, 100, 500])])
        sc["actors"].append({"name": "p%d" % j, "host": r.choice([0, 0, 40 + j]), "at_ms": 0, "ops": ops})

def gen_status(r):
    kind = r.choice(["fake", "fake", "core", "core", "stop", "fail", "aff", "cancel", "burst", "burst"])
    if kind == "burst":       # reports asked for all the time, while tasks become ready one after the other, with breaks
        sc = base(r); sc["meta"]["strict"] = True; ts = []
        if chance(r, .6): sc["sim"]["hot_p"] = r.choice([.01, .03, .06, .1])
        for i in range(r.randint(6, 25)): ts.append({"key": "t%d" % i, "ops": [["s", r.choice([0, 0, 1, 2, 3, 700, 900])]], "deps": ["t%d" % (i - 1)] if i and chance(r, .9) else []})
        sc["programs"].update(prov(r, [])); simple(r, sc, ts, r.choice([1, 2, 4]), 1, close=1)
        for j in range(r.randint(1, 3)):
            ops = [["until", "up", 60000]]; o = poll(r); o[1]["save"] = "eb%d" % j; ops.append(o)
            for _ in range(r.randint(10, 40)):
                o = poll(r, "poll", etag="$eb%dn" % j, timeout_ms=r.choice([3000, 30000])); o[1]["save"] = "eb%d" % j; ops.append(o)
                if chance(r, .5): ops.append(["us", r.choice([0, 100, 300, 1000, 3000])])
            sc["actors"].append({"name": "b%d" % j, "host": 0, "at_ms": 0, "ops": ops})
        if chance(r, .6):         # and right when a task ends
            for t in ts: t["ops"].append(["mark", "m." + t["key"]])
            for j in range(r.randint(1, 3)):
                ops = [["until", "up", 60000]]
                for t in ts:
                    if t["ops"][0][1] < 100 and chance(r, .6): continue
                    o = poll(r); o[1]["save"] = "ec%d" % j; w = poll(r, "poll", etag="$ec%dn" % j, timeout_ms=3000); w[1]["save"] = "ec%d" % j
                    ops += [o, ["until", "m." + t["key"], 20000], ["us", r.randint(0, 1500)], w]
                sc["actors"].append({"name": "m%d" % j, "host": 0, "at_ms": 0, "ops": ops})
    elif kind == "stop": sc = gen_halt(r) if chance(r, .4) else gen_stop(r, r.choice(["soft", "soft", "hard"]))
    elif kind == "fail": sc = gen_fail(r)
    elif kind == "core": sc = gen_core(r, remote=True, calls=1)
    elif kind == "aff": sc = gen_affinity(r)
    elif kind == "cancel": sc = gen_cancel(r, real=False, slow=chance(r, .6))
    else: sc = gen_fake(r)
    if not any(s["op"] == "exec" and s.get("prov") for c in sc["controllers"] for s in c["steps"]):
        if "prov" not in sc["programs"]: sc["programs"].update(prov(r, []))
        for c in sc["controllers"]:
            for s in c["steps"]:
                if s["op"] == "exec": s["prov"] = "prov"
    for nm, p in sc["programs"].items():
        if nm.startswith("prov") and ["mark", "up"] not in p["ops"]: p["ops"].insert(0, ["mark", "up"])
    for c in sc["controllers"]:
        for s in c["steps"]:
            if s["op"] == "exec" and chance(r, .2): s["info"] = r.choice(["", "abc", "é\n\"x"])
    pollers(r, sc, r.choice([1, 1, 2, 3]))
    sc["meta"]["status"] = True
    return sc

# ------------------------------------------------------------------ the remote runner itself
def kids(r, o):
    """Adds children and signal behaviour to a command."""
    if chance(r, .25): o.insert(0, r.choice([["it"], ["tt", r.choice([0, 100, 2000, 4000]), r.choice([0, 143, 9])]]))
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        g = [["s", r.choice([10, 1000, 10000, 300000])]]
        if chance(r, .3): g.insert(0, ["it"])
        if chance(r, .3): g.insert(0, [r.choice(["g", "gd"]), [["s", r.choice([100, 20000, 300000])]] if chance(r, .7) else [["it"], ["s", 300000]]])
        if chance(r, .5): g[:0] = [["c", 1], ["c", 2], ["c", 3]]      # does not hold the task's pipes
        o.insert(r.randint(0, 1 if o and o[0][0] in ("it", "tt") else 0), [r.choice(["g", "gd", "gd"]), g])
    return o

def gen_runner(r):
    sc = base(r); sc["meta"]["strict"] = False; sc["meta"]["net"] = True
    sc["meta"]["runner"] = True
    np = r.choice([0, 0, 1]); n = r.choice([1, 1, 2, 3]); kind = r.choice(["lost", "lost", "usr1", "accept", "deadline", "deadline", "slurm", "hard", "limit", "end"])
    args = ["--disconnect-err-msg", "lost-%j "]; envx = {}; files = {}
    kinds = {kind} | ({r.choice(["usr1", "accept"])} if chance(r, .3) else set()) | ({"deadline"} if kind in ("usr1", "accept", "lost") and chance(r, .2) else set())
    if "accept" in kinds: args += ["--max-time-accepting-tasks", str(r.choice([0, 1, 2, 5] if kind == "accept" else [5, 20, 1000]))]
    D = r.choice([1, 3, 10, 60, 119, 120, 121, 125, 180, 300])
    if "deadline" in kinds: args += ["--duration", str(D)]
    if kind == "slurm": args += ["--slurm-error-logfile", "/tmp/slurm-%j.err"]; envx["SLURM_JOB_ID"] = "55"
    rs = []
    for i in range(n):
        e = dict(envx)
        if kind == "slurm": e["SLURM_JOB_ID"] = "55%d" % i; files["/tmp/slurm-55%d.err" % i] = r.choice(["", "slurmstepd: hello\n"])
        rs.append((r.choice([0, 0, 5, 400]), runner(i, 0, args, env=e)))
    rs.append((r.choice([2000, 100000, 250000]), runner(8, 0)))          # finishes what the others leave
    if np == 0: rs.append((400000, runner(9, 0)))
    sc["programs"].update(prov(r, rs, 1000000)); sc["meta"]["queues"] = {"r%d" % i: 0 for i in range(10)}
    if files: sc["files"] = files
    tasks = []; nt = r.randint(1, 6)
    for i in range(nt):
        ms = r.choice([0, 10, 300, 1500, 4000]) if "deadline" not in kinds else r.choice([10, 900, 3000, 20000, 70000, 130000, 200000])
        if kind in ("lost", "slurm", "hard") and chance(r, .5): ms = r.choice([3000, 20000, 60000])
        tasks.append({"key": "t%d" % i, "ops": kids(r, ops_of(r, r.choice([0, 0, 0, 1]), ms=ms)), "deps": []})
    if kinds & {"usr1", "accept"} and chance(r, .35):                  # runners that wait for work when the time comes, and get commands that cannot be started
        g = {"key": "gate", "ops": [["s", r.choice([1500, 3000, 6000])]], "deps": []}
        for t in tasks: t["deps"] = ["gate"]
        tasks = [g] + tasks + [{"key": "u%d" % i, "cmd": [r.choice(["nosuchcmd", "/bin/noexec"]), "x", "u%d" % i], "ops": [], "deps": ["gate"]} for i in range(r.randint(1, 4))]
    if kind == "lost":
        h = r.randint(1, n)
        x = r.choice(["partition", "ctlkill", "stop"])
        at = r.choice([{"at_ms": r.randint(0, 20000)}, {"on": "exec_task", "nth": r.randint(1, 3), "delay_us": r.choice([0, 1000, 500000, 14000000])}])
        if x == "partition": sc["faults"].append(dict(at, do="partition", a=0, b=h, **({"ms": r.choice([20000, 50000, 100000])} if chance(r, .5) else {})))
        elif x == "ctlkill": sc["faults"].append(dict(at, do="kill", proc="c0")); sc["meta"]["kills"] = True
        else: sc["faults"].append(dict(at, do="stop", proc="r%d" % (h - 1), ms=r.choice([20000, 40000, 70000])))
    if "usr1" in kinds:
        for _ in range(r.choice([1, 1, 2])):
            sc["faults"].append(dict(r.choice([{"at_ms": r.randint(20, 8000)}, {"on": r.choice(["exec_task", "exit", "fwrite"]), "nth": r.randint(1, 5), "delay_us": r.choice([0, 10, 500, 100000])}]), do="sig", proc="r%d" % r.randrange(n), sig=10))
    if kind == "slurm":
        for i in range(n):
            if chance(r, .7):
                at = r.choice([{"at_ms": r.randint(0, 20000)}, {"on": "exec_task", "nth": r.randint(1, 3), "delay_us": r.choice([0, 1000, 500000, 2000000])}])
                parts = r.choice([["slurmstepd: error: *** JOB 55%d CANCELLED AT 2026 ***\n" % i], ["slurmstepd: warning\n", "slurmstepd: JOB 55%d " % i, "CANCELLED\n"], ["x ERROR y\n"], ["it FAILED\n"], ["nothing of note\n"]])
                for k, ptxt in enumerate(parts): sc["faults"].append(dict(at, do="append", path="/tmp/slurm-55%d.err" % i, text=ptxt, **({"delay_us": at.get("delay_us", 0) + k * 1000} if "on" in at else {"at_ms": at["at_ms"] + k})))
    elif kind == "hard":
        sc["actors"].append({"name": "op", "at_ms": r.choice([200, 1500, 4000, 15000]), "ops": [post("/shutdown", {"username": "op", "soft": chance(r, .2)}, "c0", "hard")]})
        if sc["actors"][-1]["ops"][0][1]["body"].find("true") > 0: sc["actors"][-1]["ops"][0][1]["tag"] = "soft"
    fa = r.choice([1, 2]) if kind == "limit" else 0
    if kind == "limit":
        for t in tasks:
            if chance(r, .5): t["ops"] = [["s", r.choice([0, 500, 3000])], ["x", 1]]
    simple(r, sc, tasks, np, fa=fa)
    sc["sim"]["stall_s"] = 450; sc["linger_ms"] = 400
    return sc

# ------------------------------------------------------------------ administration
def gen_admin(r):
    sc = base(r); sc["meta"]["strict"] = True; sc["meta"]["admin"] = True
    n = r.choice([1, 1, 2, 3]); socks = []; used = 1000
    for _ in range(r.choice([0, 1, 2, 4])): socks.append("/run/user/0/wrk-%d.sock" % r.choice([r.randint(1, 900), r.randint(5000, 90000)]))
    if chance(r, .3): socks.append("/run/user/0/wrk-%d.sock" % (1000 + r.randint(0, 3)))     # of one of the processes to come
    if chance(r, .2): socks.append("/run/user/0/other-123.sock")
    if socks: sc["stale_socks"] = sorted(set(socks))
    sc["programs"].update({"prov": {"ops": [["mark", "up"], ["s", 1000000]]}})
    for i in range(n):
        log = "/w/wf%d.log" % i if True else LOG
        sc.setdefault("dirs", []).append("/w/d%d" % i); log = "/w/d%d/wf.log" % i
        tasks = mk_tasks(r, r.randint(1, 5), .1, out=False, p_nocmd=0, shape=r.choice([None, "chain"]))
        for t in tasks: t["ops"] = [["s", r.choice([100, 700, 2000])]] + [o for o in t["ops"] if o[0] in ("x", "k")]
        st = session(r, "s%d" % i, tasks, r.choice([1, 2]), "prov", log=log, calls=r.choice([1, 1, 2]), loads=False, rcs=False, target=0)
        for s in st:
            if s["op"] == "exec" and chance(r, .5): s["info"] = "info%d" % r.randint(0, 9)
            if s["op"] == "exec" and chance(r, .5): s["rl"] = r.choice([5, 10, 100, 1000, 30000])
        c = {"name": "c%d" % i, "steps": st, "at_ms": r.choice([0, 0, 200, 1500])}
        if i and chance(r, .3): c.pop("at_ms"); c["after"] = "c%d" % (i - 1); c["delay_ms"] = r.choice([0, 10, 1000])
        sc["controllers"].append(c)
        if n > 1 and i < n - 1 and chance(r, .3): sc["faults"].append(dict(kill_fault(r, "c%d" % i, 1500))); sc["meta"]["kills"] = True
        ops = [["until", "up", 60000], ["s", r.choice([20, 50, 300])]]
        for _ in range(r.randint(1, 10)):
            x = r.random()
            if x < .3: ops.append(post("/ratelimit", {"per_second": r.choice([0, 1, 7, 100, 5000, 31000])}, "c%d" % i, "ratelimit"))
            elif x < .55: ops.append(post("/provisioner_info", {"provisioner_info": r.choice([None, "x", "new info é".encode().decode("latin-1") if False else "new info", "a\nb", "q" * 3000])}, "c%d" % i, "info"))
            elif x < .8: ops.append(["http", {"tag": "astatus", "path": "/status", "method": "GET", "un": "c%d" % i, "timeout_ms": 20000}])
            else: ops.append(["http", {"tag": r.choice(["abad"]), "path": r.choice(["/start", "/ratelimit", "/provisioner_info", "/nope"]), "body": r.choice(["", "{}", "x"]), "un": "c%d" % i, "timeout_ms": 20000}])
            ops.append(["s", r.choice([0, 1, 20, 100, 400])])
        sc["actors"].append({"name": "a%d" % i, "at_ms": c.get("at_ms", 0), "ops": ops})
    if n == 1 and chance(r, .5): pollers(r, sc, 1)
    return sc

# ------------------------------------------------------------------ preambles and postambles
def with_pp(gen):
    def g(r):
        sc = gen(r); p = r.choice([.5, 1, 1])
        for c in sc["controllers"]:
            for s in c["steps"]:
                for t in s.get("tasks", []):
                    if chance(r, p): t["pre"] = 1
                    if chance(r, p): t["post"] = 1
        sc["meta"]["pp"] = True
        return sc
    g.__name__ = gen.__name__ + "_pp"
    return g
# ------------------------------------------------------------------ order of dispatch
def gen_order(r):
    """More ready tasks than slots, at different depths of the graph."""
    sc = base(r); sc["meta"]["strict"] = True
    fakes = chance(r, .35); np = r.choice([1, 1, 2, 3]) if not fakes else r.choice([0, 0, 1])
    n = r.randint(5, 20); shape = r.choice(["mix", "mix", "random", "layers", "sparse", "chain2"])
    tasks = mk_tasks(r, n, r.choice([0, 0, .1]), shape={"mix": "sparse", "chain2": "none"}.get(shape, shape), out=False, p_nocmd=0)
    if shape == "chain2":     # several chains, longer and shorter
        for i, t in enumerate(tasks):
            if i and chance(r, .75): t["deps"] = [tasks[i - 1]["key"]]
    for t in tasks: t["ops"] = [["s", r.choice([400, 700, 900, 1500, 3000])]] + [o for o in t["ops"] if o[0] in ("x", "k")]
    if chance(r, .4): r.shuffle(tasks); tasks = topo(tasks)
    if fakes:
        two = chance(r, .3); add_fakes(r, sc, r.randint(1 + two, 3), (0, 3) if two else (0,), p_fail=.05, gap=(0, 5, 300, 1000), chain=r.choice([0, .5]))
        if two:
            for t in tasks: t["aff"] = r.choice([1, 8, 9, 9])
    elif chance(r, .2):
        for t in tasks: t["aff"] = r.choice([1, 1, 2, 3])
    simple(r, sc, tasks, np, r.choice([1, 1, 2]), "prov" if fakes else None, target=.1)
    return sc

def gen_busy(r):
    """Much more work than slots and runners, with failures of all kinds among it, so that a slot that gets lost leaves work waiting."""
    sc = base(r); sc["meta"]["strict"] = True; sc["sim"]["stall_s"] = 300
    kind = r.choice(["local", "local", "local", "fakes", "remote", "mixed"]); np = r.choice([1, 2, 3, 4]) if kind in ("local", "mixed") else r.choice([0, 0, 1])
    n = r.randint(6, 24)
    tasks = mk_tasks(r, n, r.choice([0, .15, .3]), shape=r.choice(["none", "none", "sparse", "layers"]), out=chance(r, .3), p_nocmd=0 if kind == "fakes" else r.choice([0, .1]))
    for t in tasks:
        t["ops"] = [["s", r.choice([0, 5, 300, 900, 2500, 2500, 6000])]] + [o for o in t["ops"] if o[0] not in ("s", "us")]
        if kind in ("local", "mixed") and chance(r, .15): t["aff"] = r.choice([2, 3])
        if chance(r, .08): t["fd"] = [r.choice([4, 7]), r.choice(["in", "z" * 70000])]
        if chance(r, .06): t["ops"].insert(0, ["g", [["s", r.choice([500, 4000])]]])          # holds the pipes after the task
    if kind == "fakes": add_fakes(r, sc, r.randint(1, 3), gap=(0, 5, 100), chain=r.choice([0, .5, .8]), p_fail=.1)
    elif kind in ("remote", "mixed"): add_remote(r, sc, r.randint(1, 3))
    if kind == "local" and chance(r, .5):
        sc["meta"]["spawn_faults"] = True; sc["meta"]["strict"] = False
        for _ in range(r.choice([1, 1, 2, 4])):
            k = r.choice(["pipe", "pipe", "fork", "fork", "exec"])
            sc["faults"].append({"call": k, "proc": "c0", "nth": r.randint(1, 25), "count": r.choice([1, 1, 2, 5]), "err": r.choice({"pipe": ["EMFILE", "ENFILE"], "fork": ["EAGAIN", "ENOMEM"], "exec": ["ENOMEM", "ETXTBSY", "EACCES"]}[k])})
    simple(r, sc, tasks, np, r.choice([1, 1, 2]), "prov" if kind != "local" else None, target=.05)
    return sc

def topo(tasks):
    """The same tasks in an order in which each comes after its dependencies, otherwise as given."""
    out = []; have = set()
    while len(out) < len(tasks):
        for t in tasks:
            if t["key"] not in have and all(d in have for d in t["deps"]): out.append(t); have.add(t["key"])
    return out

# ------------------------------------------------------------------ calls that are refused
def with_bad(gen):
    def f(r):
        sc = gen(r)
        for c in sc["controllers"]:
            out = []
            for st in c["steps"]:
                s = st.get("s"); log = next((x["log"] for x in c["steps"] if x["op"] == "open" and x.get("s") == s), LOG)
                late = st["op"] == "close"
                def mess():
                    for _ in range(r.choice([0, 0, 1, 2])):
                        kind = r.choice(["unknown", "self", "mixed", "empty", "again", "again", "get", "mode", "nolog", "write", "open"])
                        ks = [t["key"] for x in c["steps"] if x["op"] == "add" and x.get("s") == s for t in x["tasks"]]
                        key = r.choice(ks) if ks and kind == "again" else r.choice(["zz", "zz1"] + (ks if kind in ("unknown", "self", "mixed", "empty") and 0 else []))
                        out.append({"op": "bad", "s": s, "kind": kind, "k": r.choice([0, 1, 7, 10**6]), "key": key, "log": log})
                    if chance(r, .4): out.append({"op": "look", "s": s})
                if late and chance(r, .5): mess()
                if st["op"] == "add" and len(st["tasks"]) > 1 and chance(r, .7):
                    k = r.randint(1, len(st["tasks"]) - 1); out.append(dict(st, tasks=st["tasks"][:k])); mess(); out.append(dict(st, tasks=st["tasks"][k:]))
                else: out.append(st)
                if st["op"] in ("open", "add", "exec") and chance(r, .7): mess()
            c["steps"] = out
        return sc
    return f
bad_core = with_bad(gen_core); bad_resume = with_bad(gen_resume); bad_fake = with_bad(gen_fake)

# ------------------------------------------------------------------ the life of the provisioner and of the server
def gen_prov(r):
    """Calls with provisioners that take the interrupt badly, and requests to the servers of this and of earlier calls, with this and with other secrets."""
    kind = r.choice(["fake", "core", "core", "stop", "fail"])
    sc = {"fake": gen_fake, "core": lambda r: gen_core(r, remote=True, calls=r.choice([1, 2, 3])), "stop": gen_stop, "fail": gen_fail}[kind](r)
    for nm, p in sc["programs"].items():
        if nm.startswith("prov"):
            if ["mark", "up"] not in p["ops"]: p["ops"].insert(0, ["mark", "up"])
            if chance(r, .5): p["ops"][0:0] = r.choice([[["ii"]], [["it"]], [["ii"], ["it"]], [["tt", 50, 0]]])
    for c in sc["controllers"]:
        st = []
        for x in c["steps"]:
            if x["op"] == "exec" and x.get("prov") and chance(r, .04): x["prov"] = r.choice(["nosuchcmd", "/bin/noexec"]); sc["meta"]["strict"] = False
            st.append(x)
            if x["op"] == "exec" and chance(r, .6): st.append({"op": "sleep", "ms": r.choice([0.1, 1, 50, 400, 3000])})
        c["steps"] = st
    if kind in ("fake", "core") and chance(r, .4):
        c1 = json.loads(json.dumps(sc["controllers"][0]).replace('"s0"', '"s9"').replace(LOG, "/w/other.log")); c1["name"] = "c9"
        c1.update(r.choice([{"at_ms": r.choice([0, 5, 300])}, {"after": "c0", "delay_ms": r.choice([0, 20])}])); c1["steps"] = [x for x in c1["steps"] if x["op"] != "rc"]
        if kind == "core": sc["controllers"].append(c1); sc["meta"]["two"] = True; sc["meta"]["strict"] = False
    starts = lambda: sum(sum(o[0] == "remote" for o in sc["programs"][x["prov"]]["ops"]) for c in sc["controllers"] for x in c["steps"] if x["op"] == "exec" and x.get("prov") in sc["programs"])
    if starts() > 10 and sc["controllers"][-1]["name"] == "c9": sc["controllers"].pop()
    while starts() > 10:
        for p in sc["programs"].values():
            i = [i for i, o in enumerate(p["ops"]) if o[0] == "remote"]
            if len(i) > 1: p["ops"].pop(i[-1])
    for j in range(r.randint(1, 3)):
        ops = [["until", "up", 60000]]
        for _ in range(r.randint(5, 30)):
            n, m = r.randint(0, 3), r.randint(0, 3)
            if chance(r, .6): ops.append(hreq("st", "/status", '{"etag":0,"timemin_ms":0,"timeout_ms":0}', method="GET", url="$url%d" % n, noauth=1))
            elif n != m: ops.append(hreq("tok.%d.%d" % (n, m), r.choice(["/start", "/start", "/ping", "/mark-slurm-job-cancelation"]), None, url="$url%d" % n, auth="Bearer $tok%d" % m, jobid="7_77"))
            else: continue
            d = ops[-1][1]
            if d["path"] == "/start": d["method"] = "GET"; d["body"] = sreq(0, 99)
            elif d["path"] == "/ping": d["body"] = '{"transaction_id":1}'
            elif d["path"].startswith("/mark"): d["body"] = '{"jobids":["7_0","7_1","7_2"]}'
            ops.append(["s", r.choice([0, 1, 10, 50, 200, 1000])])
        sc["actors"].append({"name": "w%d" % j, "host": r.choice([0, 0, 30 + j]), "at_ms": 0, "ops": ops})
    return sc

pp_core = with_pp(gen_core); pp_fake = with_pp(gen_fake); pp_stop = with_pp(gen_stop); pp_fail = with_pp(gen_fail); pp_resume = with_pp(gen_resume); pp_beat = with_pp(gen_beat); pp_cancel = with_pp(gen_cancel)

def pp_bad(r):
    """Preambles and postambles that report an error."""
    sc = r.choice([pp_core, pp_core, pp_fake, pp_resume])(r); post = chance(r, .3)
    for c in sc["controllers"]:
        for s in c["steps"]:
            for t in s.get("tasks", []):
                if t.get("pre") and chance(r, .2): t["pre_rc"] = r.choice([1, -1, 77, 2**31 - 1, -2**31])
                if t.get("post") and post and chance(r, .1): t["post_rc"] = r.choice([1, -1, 77])
    sc["meta"]["strict"] = False; sc["meta"]["pp_bad"] = True
    return sc

# ------------------------------------------------------------------ disk errors
def gen_disk(r):
    sc = base(r)
    np = r.choice([1, 2, 3]); soft = chance(r, .35)
    tasks = mk_tasks(r, r.randint(1, 10), .15, out=False, p_nocmd=.02)
    if chance(r, .4):
        for t in tasks:
            if chance(r, .5): t["args"] = ["y" * r.choice([100, 3000, 9000])]
    st = session(r, "s0", tasks, np, None, calls=r.choice([1, 1, 2]), loads=True, rcs=False, target=.1)
    c0 = {"name": "c0", "steps": st}; sc["controllers"] = [c0]
    for _ in range(r.choice([1, 1, 2, 3])):
        f = {"call": "write", "proc": "c0", "match": "wf.log", "nth": r.randint(1, 8)}
        if soft: f.update(r.choice([{"partial": r.choice([1, 7, 60, 150])}, {"err": "EINTR", "count": r.choice([1, 3])}]))
        else:
            f.update({"err": r.choice(["ENOSPC", "EIO", "EDQUOT", "EFBIG"]), "count": r.choice([1, 1, 2, 5, 1000])})
            if chance(r, .3): sc["faults"].append({"call": "write", "proc": "c0", "match": "wf.log", "nth": max(1, f["nth"] - 1), "partial": r.choice([1, 30, 100])})
        sc["faults"].append(f)
    sc["meta"]["strict"] = bool(soft)
    if not soft: sc["meta"]["disk_faults"] = True
    if chance(r, .5):      # afterwards another session, with a healthy disk
        sc["controllers"].append({"name": "c1", "after": "c0", "delay_ms": 5, "steps": session(r, "s1", tasks, np, None, calls=1, loads=True, rr=True, target=0)})
        sc["meta"]["strict"] = True if soft else ["s1"]
    return sc

# ------------------------------------------------------------------ views of a log
def gen_views(r):
    """Sessions of all kinds on one log, with readers before, during and after."""
    sc = r.choice([gen_resume, gen_resume, gen_kill])(r)
    for c in sc["controllers"]:
        out = []
        for s in c["steps"]:
            out.append(s)
            if s["op"] in ("exec", "close", "open") and chance(r, .5): out.append({"op": "load", "log": LOG, "modes": ["current", "outdated", "all"]})
        c["steps"] = out
    sc["controllers"][-1]["steps"].append({"op": "load", "log": LOG, "modes": ["current", "outdated", "all", "current,outdated"]})
    if chance(r, .4):
        last = sc["controllers"][-1]["steps"]; sc["dirs"] = sc.get("dirs", []) + ["/w/x"]
        last.append({"op": "copy", "log": LOG, "to": "/w/x/copy.log", "mode": r.choice(["current", "all"])})
        o = next((x for x in last if x["op"] == "open"), None); ts = [t for x in last if x["op"] == "add" for t in x["tasks"]]
        if o and ts and chance(r, .6) and not any(x.get("prov") for x in last):
            if not any(x["op"] == "close" for x in last): last.insert(len(last) - 1, {"op": "close", "s": o["s"]})
            last += session(r, "copy", ts, o["np"], None, log="/w/x/copy.log", extra={k: o[k] for k in ("roots", "nk") if k in o})
    n = 5 - len(sc["controllers"])
    if n > 0 and chance(r, .6):      # somebody reads while the others write
        st = []
        for _ in range(r.randint(2, 12)): st += [{"op": "load", "log": LOG, "modes": [r.choice(["current", "outdated", "all", "current,outdated"])]}, {"op": "sleep", "ms": r.choice([0, 1, 20, 100, 110, 500])}]
        sc["controllers"].append({"name": "reader", "steps": st, "at_ms": r.choice([0, 50, 300])})
        sc["meta"]["load_during_write"] = True
    return sc

# ------------------------------------------------------------------ system calls that fail when a task is started
def gen_spawn(r):
    """Creating pipes and processes fails now and then (descriptors, processes or memory run out), or descriptors are scarce all the time."""
    sc = gen_core(r, remote=False, nmax=12, p_fail=r.choice([0, .1, .3]))
    sc["meta"]["strict"] = False; sc["meta"]["spawn_faults"] = True
    for st in sc["controllers"][0]["steps"]:
        for t in st.get("tasks", []):
            if chance(r, .15) and "cmd" not in t: t["fd"] = [r.choice([4, 5, 9, 3] if chance(r, .5) else [4, 7]), r.choice(["", "in", "z" * 70000])]
    if chance(r, .2): sc["controllers"][0]["max_fds"] = r.choice([18, 20, 22, 25, 30, 40])
    else:
        for _ in range(r.choice([1, 1, 2, 4])):
            k = r.choice(["pipe", "pipe", "fork", "fork", "exec"])
            sc["faults"].append({"call": k, "proc": "c0", "nth": r.randint(1, 14), "count": r.choice([1, 1, 1, 2, 5]), "err": r.choice({"pipe": ["EMFILE", "ENFILE"], "fork": ["EAGAIN", "ENOMEM"], "exec": ["ENOMEM", "EACCES", "E2BIG", "EMFILE"]}[k])})
    return sc
