#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE] : decides one property by seeded search over simulated runs."""
import sys, os, json, time, random, copy, multiprocessing as mp, collections, hashlib, queue, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import eng, hist, oracles, gens, props
from eng import VERIF, HarnessError

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
WORKERS = int(os.environ.get("VERIF_WORKERS", min(8, os.cpu_count() or 1)))

def scenario(pid, i, seed=None):
    """Scenario number i of a property: a pure function of (property, seed, i)."""
    P = props.PROPS[pid]; seed = SEED if seed is None else seed
    r = random.Random("%s/%d/%d" % (pid, seed, i))
    gs = P["gens"]; tot = sum(w for w, _ in gs); x = r.random() * tot
    for w, g in gs:
        x -= w
        if x < 0: break
    sc = g(r); sc["meta"]["gen"] = g.__name__
    return sc

def judge(pid, sc, ev, st):
    """-> (status, violations, history): status 'ok' or 'harness'."""
    h = hist.H(sc, ev, st)
    if h.harness or h.end is None or h.end["status"].startswith("harness"):
        return "harness", [], h
    if h.end["status"] in ("steplimit",) and not props.PROPS[pid].get("steplimit"): return "inconclusive", [], h
    oracles.prep(h)
    return "ok", list(props.PROPS[pid]["oracle"](h)), h

def run_one(z, pid, sc):
    ev, st = z.run(sc)
    return judge(pid, sc, ev, st)

# ------------------------------------------------------------------ known findings
def load_known(pid):
    try: j = json.load(open(VERIF + "/known_findings.json"))
    except OSError: return []
    return [k for k in j.get("findings", []) if k["property"] == pid]
def is_known(known, kind, text):
    for k in known:
        if kind in k["kinds"] and re.search(k["match"], text): return k
    return None

# ------------------------------------------------------------------ worker
def worker(w, pid, tasks, results, stop, deadline):
    z = eng.Zygote(w % (os.cpu_count() or 1))
    try: os.sched_setaffinity(0, {w % (os.cpu_count() or 1)})
    except OSError: pass
    agg = collections.Counter(); judged = collections.Counter(); faults = collections.Counter(); ends = collections.Counter(); probes = collections.Counter(); gensn = collections.Counter()
    hashes = set(); shapes = set(); simt = 0.0; samples = []; viol = []; rerun = [0, 0]; steps = 0; edges = 0; errs = []
    known = load_known(pid); knownhits = collections.Counter(); slow = 0.0
    i = w; n = 0
    try:
        while not stop.is_set() and time.time() < deadline and i < tasks:
            sc = scenario(pid, i); t = time.time()
            try: ev, st = z.run(sc)
            except HarnessError as e: agg["zygote-lost"] += 1; errs.append("%d: %s" % (i, e)); i += WORKERS; continue
            try: status, vs, h = judge(pid, sc, ev, st)
            except Exception as e:
                import traceback
                agg["oracle-error"] += 1; errs.append("%d: %s" % (i, traceback.format_exc()[-600:])); i += WORKERS; continue
            n += 1; agg[status] += 1; gensn[sc["meta"]["gen"]] += 1
            slow = max(slow, time.time() - t)
            if h.end:
                ends[h.end["status"]] += 1; simt += h.end["t"] / 1e9; steps += h.end["steps"]; edges += h.end.get("edges", 0)
                agg["switches"] += h.end["switches"]; agg["preempts"] += h.end.get("preempts", 0)
                hashes.add(h.end.get("swhash", h.end["hash"]))
                for k, x in (h.end.get("faults") or {}).items(): faults[k] += x
                for k, x in (h.end.get("probes") or {}).items(): probes[k] += x
            if status == "ok":
                for k, x in h.judged.items(): judged[k] += x
                if any(h.judged.values()): agg["nontrivial"] += 1; shapes.add(h.end["hash"])
                if any(h.judged.values()) and len(samples) < 2 and n > 3: samples.append({"index": i, "generator": sc["meta"]["gen"], "end": {k: x for k, x in h.end.items() if k not in ("e", "q")}, "judged": dict(h.judged), "scenario": clip(sc)})
                new = []
                for kind, text in vs:
                    k = is_known(known, kind, text)
                    if k: knownhits[k["id"]] += 1
                    else: new.append((kind, text))
                if new: results.put(("viol", w, i, new[0][0], new[0][1], h.end["hash"])); agg["violating"] += 1; break
            elif status == "harness":
                if len(errs) < 5: errs.append("%d: %s %s" % (i, h.harness[:2], h.end and h.end["status"]))
            # determinism: every now and then the same scenario again, which must give the same history
            if n % 40 == 7 and status == "ok":
                rerun[0] += 1
                ev2, st2 = z.run(sc); e2 = next((e for e in reversed(ev2) if e["e"] == "end"), None)
                if not e2 or e2["hash"] != h.end["hash"]: rerun[1] += 1; errs.append("%d: not deterministic" % i)
            i += WORKERS
        cov = z.cov()
    finally:
        z.stop()
    results.put(("done", w, dict(agg=dict(agg), judged=dict(judged), faults=dict(faults), ends=dict(ends), probes=dict(probes), gens=dict(gensn), hashes=hashes, shapes=shapes, simt=simt, samples=samples, rerun=rerun, steps=steps, edges=edges, errs=errs, cov=cov, n=n, known=dict(knownhits), slow=slow)))

def clip(sc, n=6000):
    s = json.dumps({k: v for k, v in sc.items() if k != "meta"})
    return json.loads(s) if len(s) <= n else s[:n] + "..."

# ------------------------------------------------------------------ minimiser
def candidates(sc):
    """Simpler variants of a scenario, biggest steps first."""
    def cp(): return copy.deepcopy(sc)
    for f in ("faults", "actors"):
        L = sc.get(f, [])
        if len(L) > 1:
            for half in (0, 1):
                c = cp(); c[f] = L[len(L) // 2:] if half else L[:len(L) // 2]; yield c
        for i in range(len(L)): c = cp(); del c[f][i]; yield c
    for k in list(sc["sim"]):
        if k in ("time_s", "stall_s", "steps"): continue
        c = cp(); del c["sim"][k]; yield c
    if len(sc["controllers"]) > 1:
        for i in reversed(range(len(sc["controllers"]))):
            if any(c.get("after") == sc["controllers"][i].get("name") for c in sc["controllers"]): continue
            c = cp(); del c["controllers"][i]; yield c
    for ci, ctl in enumerate(sc["controllers"]):
        st = ctl.get("steps", [])
        for si in reversed(range(len(st))):
            if st[si]["op"] in ("open",): continue
            if st[si]["op"] == "add":
                if len(st[si]["tasks"]) > 1:
                    n = len(st[si]["tasks"])
                    for lo, hi in ((0, n // 2), (n // 2, n)):
                        c = drop_tasks(sc, ci, si, set(range(lo, hi)))
                        if c: yield c
                for ti in reversed(range(len(st[si]["tasks"]))):
                    c = drop_tasks(sc, ci, si, {ti})
                    if c: yield c
            else: c = cp(); del c["controllers"][ci]["steps"][si]; yield c
    for name, prog in sc.get("programs", {}).items():
        for oi, op in enumerate(prog.get("ops", [])):
            if op[0] == "remote": c = cp(); del c["programs"][name]["ops"][oi]; yield c
    for ai, a in enumerate(sc.get("actors", [])):
        for oi in reversed(range(len(a.get("ops", [])))): c = cp(); del c["actors"][ai]["ops"][oi]; yield c
    for ci, ctl in enumerate(sc["controllers"]):
        for si, s in enumerate(ctl.get("steps", [])):
            if s["op"] != "add": continue
            for ti, t in enumerate(s["tasks"]):
                for k in ("aff", "fd", "pre", "post", "disp", "root", "args"):
                    if k in t: c = cp(); del c["controllers"][ci]["steps"][si]["tasks"][ti][k]; yield c
                for oi in range(len(t.get("ops", []))): c = cp(); del c["controllers"][ci]["steps"][si]["tasks"][ti]["ops"][oi]; yield c
                for di in range(len(t.get("deps", []))): c = cp(); del c["controllers"][ci]["steps"][si]["tasks"][ti]["deps"][di]; yield c

def drop_tasks(sc, ci, si, idx):
    c = copy.deepcopy(sc); st = c["controllers"][ci]["steps"][si]
    gone = {t["key"] for i, t in enumerate(st["tasks"]) if i in idx}
    st["tasks"] = [t for i, t in enumerate(st["tasks"]) if i not in idx]
    s = st.get("s")
    for x in c["controllers"][ci]["steps"]:
        if x.get("s") != s: continue
        for t in x.get("tasks", []): t["deps"] = [d for d in t.get("deps", []) if d not in gone]
        if x["op"] == "exec" and x.get("target") in gone: return None
    return c

def minimise(z, pid, sc, kind, budget, known):
    t0 = time.time(); tries = 0; best = sc; changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for c in candidates(best):
            if time.time() - t0 > budget: break
            tries += 1
            try: status, vs, h = run_one(z, pid, c)
            except Exception: continue
            if status == "ok" and any(k == kind and not is_known(known, k, t) for k, t in vs):
                best = c; changed = True; break
    return best, tries

def size(sc):
    return {"faults": len(sc.get("faults", [])), "actors": len(sc.get("actors", [])), "controllers": len(sc["controllers"]), "tasks": sum(len(s.get("tasks", [])) for c in sc["controllers"] for s in c.get("steps", [])), "steps": sum(len(c.get("steps", [])) for c in sc["controllers"])}

def trace(ev):
    out = []
    for e in ev:
        if e["e"] in ("write", "open", "reap", "lock", "unlock", "listen"): continue
        s = json.dumps({k: x for k, x in e.items() if k not in ("q", "t", "env", "fds")})
        out.append("%d %.6f %s" % (e["q"], e["t"] / 1e9, s[:300]))
    return out[-400:]

# ------------------------------------------------------------------ main
def search(pid, n, seconds):
    P = props.PROPS[pid]
    results = mp.Queue(); stop = mp.Event(); deadline = time.time() + seconds
    ps = [mp.Process(target=worker, args=(w, pid, n, results, stop, deadline)) for w in range(WORKERS)]
    for p in ps: p.start()
    viol = []; stats = []; grace = None; hard = deadline + 200
    while len(stats) < WORKERS:
        try: m = results.get(timeout=1)
        except queue.Empty:
            if time.time() > hard: break
            if all(not p.is_alive() for p in ps) and results.empty():
                time.sleep(.5)
                if results.empty(): break
            continue
        if m[0] == "viol": viol.append(m[1:]); stop.set()
        else: stats.append(m[2])
    for p in ps:
        p.join(timeout=5)
        if p.is_alive(): p.kill()
    return viol, stats

def merge(stats):
    tot = dict(agg=collections.Counter(), judged=collections.Counter(), faults=collections.Counter(), ends=collections.Counter(), probes=collections.Counter(), gens=collections.Counter(), known=collections.Counter())
    hs = set(); sh = set(); out = dict(simt=0.0, n=0, steps=0, edges=0, rerun=[0, 0], errs=[], samples=[], cov=(0, 0))
    for s in stats:
        for k in tot: tot[k].update(s[k])
        hs |= s["hashes"]; sh |= s["shapes"]; out["simt"] += s["simt"]; out["n"] += s["n"]; out["steps"] += s["steps"]; out["edges"] += s["edges"]
        out["rerun"][0] += s["rerun"][0]; out["rerun"][1] += s["rerun"][1]; out["errs"] += s["errs"]; out["samples"] += s["samples"][:1]
        if s["cov"][0] > out["cov"][0]: out["cov"] = s["cov"]
    out.update({k: dict(v) for k, v in tot.items()}); out["interleavings"] = len(hs); out["histories"] = len(sh)
    return out

def main():
    args = sys.argv[1:]; replay = None
    if "--replay" in args: i = args.index("--replay"); replay = args[i + 1]; del args[i:i + 2]
    pid = args[0] if args else json.load(open(replay))["property"]
    P = props.PROPS[pid]; t0 = time.time()
    bt = eng.build()
    print("%s: simulator built from /repo in %.1f s" % (pid, bt), flush=True)
    known = load_known(pid)
    if replay: return do_replay(pid, replay)
    thorough = TIER == "thorough"
    seconds = float(os.environ.get("VERIF_SECONDS", P.get("thorough_s", 600) if thorough else P.get("quick_s", 36)))
    n = 10**9 if thorough else P.get("quick_n", 6000)
    ts = time.time(); viol, stats = search(pid, n, seconds); searched = time.time() - ts
    m = merge(stats); rc = 0; replay_path = None; unrep = []
    z = eng.Zygote(0); reported = None
    for (w, i, kind, text, hsh) in sorted(viol, key=lambda v: v[1])[:3]:
        sc = scenario(pid, i)
        a = run_one(z, pid, sc); b = run_one(z, pid, sc)
        same = a[0] == b[0] == "ok" and a[2].end["hash"] == b[2].end["hash"] == hsh and any(k == kind for k, _ in a[1])
        if not same: unrep.append({"index": i, "kind": kind, "text": text}); continue
        best, tries = minimise(z, pid, sc, kind, 40 if not thorough else 200, known)
        ev, st = z.run(best); status, vs, h = judge(pid, best, ev, st)
        os.makedirs(VERIF + "/replays", exist_ok=True)
        vt = [t for k, t in vs if k == kind]
        replay_path = VERIF + "/replays/%s-%s.json" % (pid, hashlib.sha256(json.dumps(best, sort_keys=True).encode()).hexdigest()[:12])
        json.dump({"property": pid, "kind": kind, "violation": vt[0] if vt else text, "verif_seed": SEED, "index": i, "minimised_from": size(sc), "minimised_to": size(best), "minimiser_runs": tries, "hash": h.end["hash"], "scenario": best, "trace": trace(ev)}, open(replay_path, "w"), indent=1)
        print("%s violated (%s): %s" % (pid, kind, vt[0] if vt else text))
        print("  seed %d, scenario %d; minimised %s -> %s in %d runs" % (SEED, i, size(sc), size(best), tries))
        print("VIOLATION property=%s replay=%s" % (pid, replay_path), flush=True)
        reported = kind; rc = 1; break
    z.stop()
    for k in known:
        print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (pid, k["what"], m["known"].get(k["id"], 0)))
    wall = time.time() - t0
    hours = max(searched, 1e-9) / 3600
    cov = {
        "evaluations": m["n"], "distinct_nontrivial": m["histories"],
        "rule": "one case is one simulated run of a scenario drawn by a generator from (property, VERIF_SEED, index): workflow, scheduling parameters, faults. Non-trivial: the run ended without a harness problem and the oracle judged at least one obligation in it; distinct: different hashes of the complete event history.",
        "samples": m["samples"][:4],
        "runs_per_hour": int(m["n"] / hours), "seeds_per_hour": int(m["n"] / hours),
        "simulated_seconds": round(m["simt"], 1), "scheduler_steps": m["steps"], "thread_switches": m["agg"].get("switches", 0), "basic_block_preemptions": m["agg"].get("preempts", 0),
        "distinct_interleavings": m["interleavings"], "interleaving_measure": "hash of the sequence of thread switches of a run",
        "run_outcomes": m["ends"], "judged": m["judged"], "injected_faults": m["faults"], "rare_conditions": m["probes"], "generators": m["gens"],
        "basic_blocks_reached_in_one_worker": {"reached": m["cov"][0], "instrumented": m["cov"][1]},
        "determinism_reruns": {"repeated": m["rerun"][0], "differed": m["rerun"][1]},
        "harness_problems": {k: v for k, v in m["agg"].items() if k in ("harness", "inconclusive", "zygote-lost", "oracle-error")}, "problem_examples": m["errs"][:6], "unreproduced": unrep,
        "known_findings_met": m["known"],
        "components": {"real": "execgraph (Python extension module with its tokio runtime, HTTP servers, log file code) and execgraph-remote, compiled from /repo's working tree; CPython running the controller script", "simulated": "libc boundary: threads and their scheduling, clocks, sleeping, files, locks, pipes, sockets and network, fork/exec/wait, signals, /proc, randomness", "stub": "task commands, provisioners and administrative or scripted clients are programs interpreted by the simulator"},
        "build_s": round(bt, 1), "search_s": round(searched, 1), "workers": WORKERS,
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump({"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "exploration", "coverage": cov, "violations": 1 if rc else 0, "wall_s": round(wall, 1),
               "assumptions": ["the simulated operating system behaves like Linux for the calls the code makes", "sequentially consistent memory: weak-memory effects are not explored", "sampling: a clean run is evidence, not proof"]}, open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1)
    print("%s: %d runs (%d distinct histories), %.0f simulated s, %d interleavings, outcomes %s, faults %s" % (pid, m["n"], m["histories"], m["simt"], m["interleavings"], m["ends"], m["faults"]))
    if m["agg"].get("harness") or m["errs"]: print("  harness: %s %s" % ({k: v for k, v in m["agg"].items() if k in ("harness", "inconclusive", "zygote-lost", "oracle-error")}, m["errs"][:3]))
    ok = m["agg"].get("ok", 0)
    if rc == 0 and ok == 0:
        print("%s: no run could be judged" % pid); return 2
    return rc

def do_replay(pid, path):
    j = json.load(open(path)); z = eng.Zygote(0); res = []
    for _ in range(2): res.append(run_one(z, pid, j["scenario"]))
    z.stop()
    (s1, v1, h1), (s2, v2, h2) = res
    print("replay: %s/%s, history hash %s, recorded %s" % (s1, s2, h1.end and h1.end["hash"], j["hash"]))
    if s1 == "ok" and h1.end["hash"] == h2.end["hash"]:
        for k, t in v1: print("  %s: %s" % (k, t))
        if any(k == j["kind"] for k, _ in v1): print("VIOLATION property=%s replay=%s" % (pid, path)); return 1
        return 0
    print("replay did not repeat"); return 2

if __name__ == "__main__":
    sys.exit(main())
