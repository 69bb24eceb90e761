"""Workflow scenarios: description of sessions and tasks, and the Python program a simulated controller runs."""
import json

SCRIPT = r'''
import sim, execgraph, json, time
STEPS = json.loads(%s)
def L(**k): sim.log(json.dumps(k))
def pat(n, seed, bin):
    r = bytearray(); i = 0
    while len(r) < n:
        r += b"%%x.%%d\n" %% (seed, i)
        if bin:
            r.append(0x80 + (i * 37 + seed) %% 128)
            if i %% 3 == 0: r += b"\xe2\x82\xac"
            if i %% 5 == 0: r += b"\xf0\x9f\x98"
        i += 1
    return bytes(r[:n])
G = {}; IDS = {}; NX = {}; SENT = {}
def exc(e): return type(e).__name__ + ": " + str(e)[:300]
for st in STEPS:
    op = st["op"]; s = st.get("s", "")
    if op == "open":
        kw = {}
        if st.get("nk"): kw["newkeyfn"] = (lambda k=st["nk"]: k)
        if "roots" in st: kw["storage_roots"] = st["roots"]
        tries = st.get("tries", 1)
        while tries > 0:
            tries -= 1
            L(ev="opening", s=s, log=st["log"])
            try:
                g = execgraph.ExecGraph(st.get("np", 1), st["log"], failures_allowed=st.get("fa", 1), rerun_failures=st.get("rr", True), **kw)
            except BaseException as e:
                L(ev="ctor_err", s=s, d=exc(e)); g = None
                if tries: time.sleep(st.get("retry_ms", 1) / 1000.0)
                continue
            break
        if g is None:
            if st.get("must"): break
            continue
        G[s] = g; IDS[s] = {}; NX[s] = 0; SENT[s] = {}
        L(ev="ctor", s=s, key=g.key(), roots=[str(x) for x in g.all_storage_roots()]); del g
    elif op == "add":
        g = G.get(s)
        if g is None: continue
        for t in st["tasks"]:
            kw = {}
            if "aff" in t: kw["affinity"] = t["aff"]
            if "fd" in t: kw["fd_input"] = (t["fd"][0], pat(t["fd"][1], t["fd"][2], len(t["fd"]) > 3))
            if t.get("pre"): kw["preamble"] = sim.capsule("pre", t["key"], t.get("pre_rc", 0))
            if t.get("post"): kw["postamble"] = sim.capsule("post", t["key"], t.get("post_rc", 0))
            if "disp" in t: kw["display"] = t["disp"]
            if "root" in t: kw["storage_root"] = t["root"]
            cmd = t["cmd"] if "cmd" in t else ["simtask", json.dumps(t["ops"], separators=(",", ":")), t["key"]] + t.get("args", []) + [x.encode("latin-1").decode("utf-8", "surrogateescape") for x in t.get("argb", [])]
            rc = g.logfile_runcount(t["key"])
            try:
                i = g.add_task(cmd, t["key"], [IDS[s][d] for d in t.get("deps", [])], **kw)
            except BaseException as e:
                L(ev="add_err", s=s, key=t["key"], d=exc(e)); continue
            if t["key"] not in IDS[s]: SENT[s][t["key"]] = (cmd, t["key"], t.get("disp"))
            IDS[s][t["key"]] = i
            L(ev="add", s=s, key=t["key"], id=i, rc=rc[0], path=str(rc[1]) if rc[1] is not None else None)
    elif op == "exec":
        g = G.get(s)
        if g is None: continue
        n = NX[s]; NX[s] += 1
        kw = {}
        if st.get("target") is not None: kw["target"] = IDS[s][st["target"]]
        if st.get("prov"): kw["remote_provisioner_cmd"] = st["prov"]
        if "info" in st: kw["remote_provisioner_info"] = st["info"]
        if "rl" in st: kw["ratelimit_per_second"] = st["rl"]
        L(ev="xb", s=s, n=n)
        try:
            r = g.execute(**kw)
            L(ev="xe", s=s, n=n, r=r)
        except BaseException as e:
            L(ev="xx", s=s, n=n, d=exc(e))
    elif op == "rc":
        g = G.get(s)
        if g is None: continue
        for k in st["keys"]:
            r = g.logfile_runcount(k); L(ev="rc", s=s, key=k, rc=r[0], path=str(r[1]) if r[1] is not None else None)
    elif op == "look":
        g = G.get(s)
        if g is None: continue
        n = g.ntasks(); ks = g.task_keys()
        L(ev="look", s=s, n=n, keys=ks, wrong=[i for i in range(n) if tuple(g.get_task(i)) != SENT[s].get(ks[i] if i < len(ks) else None)], ids=IDS[s], nsent=len(SENT[s]))
    elif op == "bad":
        g = G.get(s)
        if g is None: continue
        n = g.ntasks(); kind = st["kind"]; ok = ["simtask", "[]", "zz"]; key = st.get("key", "zz"); r = None; d = None
        if kind == "again" and key not in IDS[s]: continue
        try:
            if kind == "unknown": r = g.add_task(ok, key, [n + st["k"]])
            elif kind == "self": r = g.add_task(ok, key, [n])
            elif kind == "mixed": r = g.add_task(ok, key, list(range(min(n, 2))) + [n + 1 + st["k"]])
            elif kind == "empty": r = g.add_task([], key, list(range(min(n, 1))))
            elif kind == "again": r = g.add_task(ok + ["other"], key, list(range(n)), display="other", affinity=4)
            elif kind == "get": r = g.get_task(n + st["k"]) and 0
            elif kind == "mode": execgraph.load_logfile(st["log"], "everything"); r = 0
            elif kind == "nolog": execgraph.load_logfile("/w/nothere.log", "all"); r = 0
            elif kind == "write": execgraph.write_logfile(st["log"], []); r = 0
            elif kind == "open": x = execgraph.ExecGraph(1, st["log"]); x = None; r = 0
        except BaseException as e: d = exc(e)
        L(ev="bad", s=s, kind=kind, key=key, r=r, d=d, id=IDS[s].get(key), n=n, after=g.ntasks())
    elif op == "close":
        L(ev="closing", s=s)
        G.pop(s, None); g = None
        L(ev="closed", s=s)
    elif op == "load":
        for m in st["modes"]:
            try: L(ev="load", log=st["log"], mode=m, r=execgraph.load_logfile(st["log"], m))
            except BaseException as e: L(ev="load_err", log=st["log"], mode=m, d=exc(e))
    elif op == "write":
        try: execgraph.write_logfile(st["log"], st["entries"]); L(ev="wrote", log=st["log"])
        except BaseException as e: L(ev="write_err", log=st["log"], d=exc(e))
    elif op == "copy":
        try:
            es = execgraph.load_logfile(st["log"], st["mode"]); execgraph.write_logfile(st["to"], es); L(ev="copied", log=st["log"], to=st["to"], mode=st["mode"], entries=es)
        except BaseException as e: L(ev="copy_err", log=st["log"], to=st["to"], mode=st["mode"], d=exc(e))
    elif op == "sleep": time.sleep(st["ms"] / 1000.0)
    elif op == "mark": sim.mark(st["m"])
g = None
L(ev="done")
'''

def script(steps):
    return SCRIPT % repr(json.dumps(steps))

def pat(n, seed, bin=False):
    r = bytearray(); i = 0; p = b"%x." % seed
    while len(r) < n:
        r += p + b"%d\n" % i
        if bin:
            r.append(0x80 + (i * 37 + seed) % 128)
            if i % 3 == 0: r += b"\xe2\x82\xac"
            if i % 5 == 0: r += b"\xf0\x9f\x98"
        i += 1
    return bytes(r[:n])

def noise(n, seed):
    x = (seed * 2654435761 % 2**64 + 12345) % 2**64; r = bytearray()
    for _ in range(n):
        x = (x * 6364136223846793005 + 1442695040888963407) % 2**64
        r.append(33 + (x >> 33) % 90)
    return bytes(r)
