"""Oracles: each takes the history of one run and returns the violations of one property.

A violation is (kind, text).  `kind` is stable across re-runs of a smaller scenario (used by the
minimiser).  Every oracle also counts what it judged in h.judged, so vacuous runs are visible.
"""
import zlib, re
import json as _json
import wf
from hist import H, O, fold, log_before

MS = 10**6; SEC = 10**9
EPS = 300 * MS          # controller-side reaction time allowed in runs without injected stalls

class V(list):
    def __init__(self, h): super().__init__(); self.h = h
    def bad(self, kind, text): self.append((kind, text))
    def n(self, what, k=1): self.h.judged[what] = self.h.judged.get(what, 0) + k

def prep(h):
    """Derived facts shared by the oracles."""
    if hasattr(h, "judged"): return
    h.judged = {}
    h.fakes = fake_runs(h)
    for s in h.sesslist:
        before = log_before(h, s)
        s.state0 = fold(before)
        s.succ0 = {k for k, v in s.state0.items() if v[2] is True}
        s.fail0 = {k for k, v in s.state0.items() if v[2] is False}
        s.recs = [r for r in h.recs(s.log) if r.sess is s and r.ty != "Header"]
    for c in h.calls:
        c.end = h.call_end(c)
        c.recs = h.call_recs(c)
        c.fin = [r for r in c.recs if r.ty == "Finished"]
        c.strt = [r for r in c.recs if r.ty == "Started"]
        c.rdy = [r for r in c.recs if r.ty == "Ready"]
        c.fakes = [f for f in h.fakes if f.call is c]

def fake_runs(h):
    """Tasks handled by scripted runners (actors speaking the runner protocol)."""
    out = []; cur = {}; bytxn = {}
    for e in h.https:
        verb, _, arg = e.tag.partition(".")
        if verb in ("start", "ends") and e.key is not None:
            if verb == "ends" and e.p in cur: cur[e.p].tries.append((e, int(arg))); fin(cur.pop(e.p), e, arg)
            f = O(key=e.key, who=e.p, txn=e.txn, q=e.q, t=e.t, t0=e.t0, argv=e.argv, begun=[], pings=[], end=None, call=None, tries=[])
            f.call = next((c for c in h.calls if c.bt <= e.t and (h.call_end(c) is None or e.t0 <= h.call_end(c)[1]) and e.key in c.sess.tasks), None)
            out.append(f); cur[e.p] = f; bytxn[e.txn] = f
        elif e.p in cur:
            f = cur[e.p]
            if verb == "begun": f.begun.append(e)
            elif verb == "ping": f.pings.append(e)
            elif verb in ("end", "ends"):
                f.tries.append((e, int(arg)))
                if e.status == 200 or (e.status is not None and verb == "ends" and f.end is None and e.status in (410, 429)): fin(f, e, arg); cur.pop(e.p, None)
    return out
def fin(f, e, arg):
    f.end = O(t0=e.t0, t=e.t, q=e.q, status=e.status, code=int(arg)); 

def deps_of(s, k): return [d for d in s.tasks[k].get("deps", []) if d in s.tasks]
def closure(s, c):
    if c.target is None: return [k for k in s.order if k in c.added]
    seen = set(); st = [c.target]
    while st:
        k = st.pop()
        if k in seen: continue
        seen.add(k); st += deps_of(s, k)
    return [k for k in s.order if k in seen]

def sess_runs(h, s): return [r for r in h.runs if r.sess is s]
def sess_fakes(h, s): return [f for f in h.fakes if f.call is not None and f.call.sess is s]

def spawn_fails(s, k):
    cmd = s.tasks[k].get("cmd")
    return cmd is not None and cmd[0] != "simtask"

# --------------------------------------------------------------------------- C01
def dep_ok(h, s, d, q, t):
    if d in s.succ0: return True
    for x in sess_runs(h, s):
        if x.key == d and x.code == 0 and x.exit_q < q: return True
    for f in sess_fakes(h, s):
        if f.key == d and any(code == 0 and e.t0 <= t for e, code in f.tries): return True
    return False
def failed_before(h, s, d, q, t):
    """The dependency is known to have failed (or to have been given up) before (q, t)."""
    for x in sess_runs(h, s):
        if x.key == d and x.code not in (None, 0) and x.exit_q < q: return True
    for f in sess_fakes(h, s):
        if f.key == d and f.end and f.end.code != 0 and f.end.t0 <= t: return True
    return False
def recorded_bad(s, d):
    fin = [r for r in s.recs if r.ty == "Finished" and r.key == d]
    return bool(fin) and all(r.d["status"] != 0 for r in fin)
def launches(h, s):
    for r in sess_runs(h, s): yield r.key, r.q, r.t, "pid %d" % r.pid
    for f in sess_fakes(h, s): yield f.key, f.q, f.t, f.who

def c01(h):
    v = V(h)
    for s in h.sesslist:
        for k, q, t, who in launches(h, s):
            if k not in s.tasks: v.bad("unknown-task", "%s started by session %s but not one of its tasks" % (k, s.s)); continue
            for d in deps_of(s, k):
                v.n("dependency edges checked at start")
                if not dep_ok(h, s, d, q, t): v.bad("early-start", "session %s: %s started (%s, q=%d, t=%.6f) although its dependency %s had not succeeded" % (s.s, k, who, q, t / 1e9, d))
                elif d not in s.succ0 and recorded_bad(s, d): v.bad("start-after-giveup", "session %s: %s started (%s) although its dependency %s is recorded as failed" % (s.s, k, who, d))
    return v

# --------------------------------------------------------------------------- C02
def c02(h):
    v = V(h)
    for s in h.sesslist:
        seen = {}
        for k, q, t, who in sorted(launches(h, s), key=lambda x: x[1]):
            v.n("starts checked")
            if k in s.succ0: v.bad("rerun-of-logged-success", "session %s: %s started (%s) although the log already records its success" % (s.s, k, who))
            c = next((c for c in s.calls if c.bq <= q and (c.end is None or q <= c.end[0] or c is s.calls[-1])), None)
            for (q0, t0, who0, c0) in seen.get(k, []):
                if c0 is c: v.bad("started-twice", "session %s call %s: %s started twice (%s at t=%.6f, %s at t=%.6f)" % (s.s, c.n if c else "?", k, who0, t0 / 1e9, who, t / 1e9))
                elif any(x.key == k and x.code == 0 and x.exit_q is not None and x.exit_q < q and x.call is not c and (rec_of(s.recs, "Finished", k) or not (x.call and stopped(h, x.call))) for x in sess_runs(h, s)) and not recorded_bad(s, k) and not (c0 and stopped(h, c0) and not rec_of(c0.fin, "Finished", k)): v.bad("rerun-of-success", "session %s: %s started again (%s) after it had succeeded in this session" % (s.s, k, who))
            seen.setdefault(k, []).append((q, t, who, c))
        cnt = {}
        for c in s.calls:
            cc = {}
            for r in c.strt: cc[r.key] = cc.get(r.key, 0) + 1
            for k, n in cc.items():
                if n > 1 and not h.fakes: v.bad("start-recorded-twice", "session %s call %d: %d start records for %s" % (s.s, c.n, n, k))
    return v

# --------------------------------------------------------------------------- C03 / C04
def succeeded_before_call(h, s, c):
    r = set(s.succ0)
    given_up = {f.key for c2 in s.calls if c2.n < c.n for f in c2.fin if f.d["status"] != 0}
    cut = {f.key for c2 in s.calls if c2.n < c.n and stopped(h, c2) for f in c2.runs} - {f.key for c2 in s.calls if c2.n < c.n for f in c2.fin}
    for x in sess_runs(h, s):
        # what ended after its call had been told to stop, or was given up, is not a success the session knows of
        if x.code == 0 and x.exit_q is not None and x.exit_q < c.bq and x.key not in given_up and x.key not in cut: r.add(x.key)
    done = {x.key for c2 in s.calls if c2.n < c.n for x in c2.fin if x.d["status"] == 0}
    for f in sess_fakes(h, s):
        if f.key in done and any(code == 0 and e.t0 < c.bt for e, code in f.tries): r.add(f.key)
    return r
def failed_before_call(h, s, c):
    r = set()
    # what a runner had taken, but not reported, when its call was stopped at once is left for the next call
    cut = {f.key for c2 in s.calls if c2.n < c.n and stopped(h, c2) for f in c2.runs} - {f.key for c2 in s.calls if c2.n < c.n for f in c2.fin}
    for x in sess_runs(h, s):
        if x.code not in (0, None) and x.exit_q < c.bq and x.key not in cut: r.add(x.key)
    for f in sess_fakes(h, s):
        if f.end and f.end.code != 0 and f.end.t < c.bt and f.end.status == 200: r.add(f.key)
    for c2 in s.calls:
        if c2.n < c.n:
            for f in c2.fin:
                if f.d["status"] != 0: r.add(f.key)
    return r

def expected(h, s, c):
    """key -> should it be attempted in this call (given which tasks really succeeded)?"""
    K = closure(s, c); before = succeeded_before_call(h, s, c); failed = failed_before_call(h, s, c)
    okrun = {r.key for r in c.runs if r.code == 0} | {f.key for f in c.fakes if any(code == 0 for e, code in f.tries) and any(x.key == f.key and x.d["status"] == 0 for x in c.fin)}
    exp = {}; ok = {}
    for k in K:   # order of addition is topological
        if k in before: exp[k] = False; ok[k] = True; continue
        if k in failed or (not s.rr and k in s.fail0): exp[k] = False; ok[k] = False; continue
        exp[k] = all(ok.get(d, d in before) for d in deps_of(s, k))
        ok[k] = k in okrun
    return exp

def attempted(h, c, k):
    return any(r.key == k for r in c.runs) or any(f.key == k for f in c.fakes) or any(f.key == k for f in c.fin)

def is_strict(h, c):
    """May the call be held to running everything?  Not if somebody told it to stop."""
    if stopped(h, c) or limit_hit(h, c): return False
    st = h.meta.get("strict", False)
    if isinstance(st, list): return [c.s, c.n] in st or c.s in st
    return bool(st)
def stopped(h, c):
    """Was there any attempt to stop the call (even one that was not acknowledged)?"""
    if not hasattr(c, "_stopped"):
        c._stopped = any(e.tag in ("soft", "hard") and e.err != "connect" and during(h, c, e.t) or e.tag in ("soft", "hard") and during(h, c, e.t0) and e.err != "connect" for e in h.https)
        c._stopped = c._stopped or any(e.name == c.ctl and e.sig == 2 and during(h, c, e.t) for e in h.sigs)
        # an interrupt that arrives between two calls, or second in a call that is ending, is met by the next call
        prev = max((x for s in h.sesslist for x in s.calls if x.ctl == c.ctl and x.bq < c.bq), key=lambda x: x.bq, default=None)
        if prev is not None:
            ints = [e for e in h.sigs if e.name == c.ctl and e.sig == 2]
            c._stopped = c._stopped or any(prev.eq is not None and prev.eq < e.q < c.bq for e in ints) or len([e for e in ints if prev.bq < e.q < c.bq]) > 1
        c._stopped = c._stopped or bool(prov_ends(h, c))
    return c._stopped

def incomplete(h, v, c, prefix=""):
    s = c.sess; exp = expected(h, s, c)
    for k, e in exp.items():
        v.n("tasks with a decided fate")
        a = attempted(h, c, k)
        if e and not a: v.bad(prefix + "not-run", "session %s call %d: %s was not run although all its dependencies succeeded" % (s.s, c.n, k))
        if not e and a: v.bad(prefix + "run-unexpectedly", "session %s call %d: %s was run although it should not be (already successful, or a dependency failed)" % (s.s, c.n, k))
    for r in c.runs:
        if r.key not in exp: v.bad(prefix + "outside-closure", "session %s call %d: %s is outside the closure of the target but was run" % (s.s, c.n, r.key))

def tasks_alive(h):
    return [r for r in h.runs if r.exit_q is None]

def hung(h, c):
    if c.end is not None or h.end is None: return None
    if h.end["status"] in ("deadlock", "stalled", "timelimit"): return h.end["status"]
    return None

def c03(h):
    v = V(h)
    for s in h.sesslist:
        bad_before = {}
        for k, q, t, who in sorted(launches(h, s), key=lambda x: x[1]):
            if k not in s.tasks: continue
            seen = set(); st = list(deps_of(s, k))
            while st:
                d = st.pop()
                if d in seen or d in s.succ0: continue
                seen.add(d); st += deps_of(s, d)
                v.n("ancestor relations checked")
                if (failed_before(h, s, d, q, t) or recorded_bad(s, d)) and not dep_ok(h, s, d, q, t): v.bad("downstream-of-failure", "session %s: %s started (%s) although %s, on which it depends, had failed" % (s.s, k, who, d))
        for c in s.calls:
            if not is_strict(h, c) or c.eq is None: continue
            if not (any(r.code not in (0, None) for r in c.runs) or failed_before_call(h, s, c) or any(f.d["status"] != 0 for f in c.fin)): continue
            v.n("calls with a failure judged for containment")
            if c.exc: v.bad("exception", "session %s call %d raised %s" % (s.s, c.n, c.exc)); continue
            incomplete(h, v, c)
    return v

def last_exit(h, c):
    t = c.bt
    for r in c.runs:
        if r.exit_t: t = max(t, r.exit_t)
    for f in c.fakes:
        if f.end: t = max(t, f.end.t)
        elif f.tries: t = max(t, f.tries[-1][0].t)
    return max(t, last_grandchild(h, c))
def last_grandchild(h, c):
    """End of the last child of a task of the call: it holds the task's pipes open until then."""
    t = c.bt; pids = {r.pid for r in c.runs if r.sess and has_grand(r.sess.tasks.get(r.key, {}).get("ops", []))}
    for g in h.spawned:
        if g.ppid in pids and g.pid in h.exits and (c.et is None or h.exits[g.pid].t <= c.et): t = max(t, h.exits[g.pid].t)
    return t

def late_return(h, v, c):
    if c.et is None or not h.meta.get("tasks_end", True) or h.meta.get("stalls"): return
    v.n("returns checked for promptness")
    late = c.et - last_exit(h, c); bound = h.meta.get("return_bound_s", 130) * SEC
    if late > bound: v.bad("late-return", "session %s call %d returned %.1f s after the last command ended" % (c.s, c.n, late / 1e9))

def c04(h):
    v = V(h)
    for c in h.calls:
        s = c.sess; strict = is_strict(h, c)
        if h.meta.get("idle"): continue        # some task can never run: only a stop ends the call
        x = hung(h, c)
        if x and h.meta.get("tasks_end", True): v.bad("hang", "session %s call %d never returned (%s at t=%.3f; last task ended t=%.3f; tasks not ended: %s)" % (s.s, c.n, x, h.end["t"] / 1e9, last_exit(h, c) / 1e9, [r.key for r in c.runs if r.exit_q is None])); continue
        if c.end is None: continue
        if c.eq is None:
            if strict and h.ctls[c.ctl].status not in (None, 0): v.bad("died", "controller %s died with status %s during execute" % (c.ctl, h.ctls[c.ctl].status))
            continue
        late_return(h, v, c)
        if not strict: continue
        v.n("strict calls judged")
        if c.exc: v.bad("exception", "session %s call %d raised %s" % (s.s, c.n, c.exc)); continue
        incomplete(h, v, c)
        for r in c.runs:
            if r.exit_q is None or r.exit_q > c.eq: v.bad("returned-early", "session %s call %d returned while %s was running" % (s.s, c.n, r.key))
    return v

# --------------------------------------------------------------------------- C05
def c05(h):
    v = V(h)
    for c in h.calls:
        if c.ret is None: continue
        s = c.sess; nf, keys = c.ret
        v.n("return values checked")
        where = "session %s call %d returned %s" % (s.s, c.n, c.ret)
        if len(set(keys)) != len(keys): v.bad("duplicate-key", where + ": a key appears twice"); continue
        fin = [f.key for f in c.fin]; st = {f.key: f.d["status"] for f in c.fin}
        for k in keys:
            if k not in st and not h.meta.get("disk_faults"): v.bad("not-finished", where + ": %s did not finish in this call" % k)
        if not h.meta.get("disk_faults"):
            order = [k for k in fin if k in keys]
            if order != [k for k in keys if k in st]: v.bad("order", where + ": tasks finished in the order %s" % order)
        pos = {k: i for i, k in enumerate(keys)}
        for k in keys:
            for d in deps_of(s, k) if k in s.tasks else []:
                if d in pos and pos[d] > pos[k]: v.bad("dep-order", where + ": %s before its dependency %s" % (k, d))
        if is_strict(h, c):
            ran = {r.key for r in c.runs} | {f.key for f in c.fakes} | {k for k in st if spawn_fails(s, k)}
            if set(keys) != ran: v.bad("keys", where + ": tasks that finished in this call are %s" % sorted(ran))
            want = sum(1 for r in c.runs if r.code != 0) + sum(1 for f in c.fakes if (st.get(f.key) != 0 if limit_hit(h, c) or not f.end else f.end.code != 0)) + sum(1 for k in st if spawn_fails(s, k))
            if nf != want: v.bad("n-failed", where + ": %d tasks failed in this call" % want)
            if not h.meta.get("stalls"):
                rr = {r.key: r for r in c.runs if r.exit_t is not None and r.remote is None}
                ks = [k for k in keys if k in rr]
                for i in range(len(ks)):
                    for j in range(i + 1, len(ks)):
                        if rr[ks[i]].exit_t > rr[ks[j]].exit_t + 2 * SEC and not any(has_grand(s.tasks[k].get("ops", [])) for k in (ks[i], ks[j])): v.bad("finish-order", where + ": %s ended %.2f s before %s" % (ks[j], (rr[ks[i]].exit_t - rr[ks[j]].exit_t) / 1e9, ks[i]))
        else:
            bad = sum(1 for f in c.fin if f.d["status"] != 0); low = sum(1 for k in keys if st.get(k, 0) != 0)
            if not h.meta.get("disk_faults") and not (low <= nf <= bad): v.bad("n-failed", where + ": %d tasks are recorded as failed" % bad)
            missing = [k for k in st if k not in keys]
            if not c.exc and missing and not h.meta.get("disk_faults"): v.bad("missing-key", where + ": %s finished in this call but is not returned" % missing)
    return v

# --------------------------------------------------------------------------- C06
def want_rc(st):
    if st is None: return 0
    if st[0] == "ready" or st[2] is True: return st[1]
    return st[1] + 1

def c06(h):
    v = V(h)
    logs = {s.log for s in h.sesslist}
    for s in h.sesslist:
        if s.ctor_q is None: continue
        for k, a in s.adds.items():
            st = s.state0.get(k)
            # the record of an earlier call of this session may already count
            if any(c.bq < a.q for c in s.calls): continue
            v.n("run counts checked")
            if a.rc != want_rc(st): v.bad("runcount-reported", "session %s: run count reported for %s is %d, expected %d (log state %s)" % (s.s, k, a.rc, want_rc(st), st))
            if (a.path is not None) != (st is not None and st[2] is True): v.bad("path-reported", "session %s: reported path of %s is %r, log state %s" % (s.s, k, a.path, st))
            elif a.path is not None:
                roots = s.roots or []
                if not a.path.endswith("/%s.%d" % (k, st[1])) or (st[3] < len(roots) and a.path != roots[st[3]].rstrip("/") + "/%s.%d" % (k, st[1])): v.bad("path-reported", "session %s: reported path of %s is %r (roots %s, state %s)" % (s.s, k, a.path, roots, st))
        for r in s.recs:
            if r.ty == "Ready":
                v.n("run counts checked")
                if r.d["runcount"] != want_rc(s.state0.get(r.key)): v.bad("runcount-recorded", "session %s: run count recorded for %s is %d, expected %d (log state before %s)" % (s.s, r.key, r.d["runcount"], want_rc(s.state0.get(r.key)), s.state0.get(r.key)))
                if r.key in s.tasks and r.d.get("r", 0) != s.tasks[r.key].get("root", 0): v.bad("storage-root", "session %s: storage root recorded for %s is %s" % (s.s, r.key, r.d.get("r")))
        refs = [r.key for r in s.recs if r.ty == "Backref"]
        for k in set(refs):
            if refs.count(k) > 1: v.bad("backref-twice", "session %s: %d back-references for %s" % (s.s, refs.count(k), k))
            if k not in s.succ0 and not (not s.rr and k in s.fail0): v.bad("backref-wrong", "session %s: back-reference for %s which was not reused (log state %s)" % (s.s, k, s.state0.get(k)))
        for c in s.calls:
            if c.ret is None: continue
            hi = s.closed_q or h.ctls[s.ctl].exit_q
            whole = (s.closed_q is not None) or h.ctls[s.ctl].status == 0
            for k in closure(s, c):
                if k in s.succ0:
                    v.n("reused tasks checked")
                    if whole and k not in refs and not h.meta.get("disk_faults"): v.bad("backref-missing", "session %s call %d: no back-reference for the reused task %s" % (s.s, c.n, k))
                elif not s.rr and k in s.fail0:
                    v.n("kept failures checked")
                    if whole and k not in refs and not h.meta.get("disk_faults"): v.bad("backref-missing", "session %s call %d: no back-reference for %s whose failure was kept" % (s.s, c.n, k))
        for k, q, t, who in launches(h, s):
            if k not in s.tasks: continue
            if k in s.succ0: v.bad("rerun-of-success", "session %s: %s was run again although its last recorded outcome is success" % (s.s, k))
            if not s.rr:
                st = [k]; seen = set()
                while st:
                    d = st.pop()
                    if d in seen or d in s.succ0: continue
                    seen.add(d); st += deps_of(s, d)
                    if d in s.fail0: v.bad("rerun-of-failure", "session %s (rerun_failures off): %s was run although %s failed according to the log" % (s.s, k, d))
        for c in s.calls:
            if is_strict(h, c) and c.ret is not None: incomplete(h, v, c)
    for path in logs:
        seen = {}; ready = {}
        for r in h.recs(path):
            if r.ty == "Ready": ready[r.key] = r.d["runcount"]
            elif r.ty == "Started" and r.key in ready:
                x = (r.key, ready[r.key])
                if x in seen and seen[x] is not r.sess: v.bad("runcount-shared", "log %s: two started runs of %s share run count %d" % (path, x[0], x[1]))
                seen[x] = r.sess
    return v

# --------------------------------------------------------------------------- C07
def c07(h):
    v = V(h)
    for ctl in h.ctls.values():
        if ctl.status != -9: continue
        v.n("kills judged")
        for s in h.sesslist:
            if s.ctl != ctl.name or s.err is not None: continue
            # a successful task more than a second before the kill
            if h.meta.get("stalls"): continue
            nxt = [x for x in h.sesslist if x.log == s.log and x.open_q > ctl.exit_q and x.ctor_q is not None]
            for r in sess_runs(h, s):
                margin = (1 if r.remote is None else 12) * SEC
                if r.code == 0 and r.exit_t + margin <= ctl.exit_t and (r.reap_q is not None or r.remote is not None) and not has_grand(s.tasks[r.key].get("ops", [])):
                    v.n("old successes checked after a kill")
                    rec = [x for x in h.recs(s.log) if x.ty == "Finished" and x.key == r.key and x.q < ctl.exit_q and x.sess is s]
                    if not rec or rec[-1].d["status"] != 0: v.bad("success-lost", "%s ended successfully %.2f s before the kill of %s but is not recorded as successful" % (r.key, (ctl.exit_t - r.exit_t) / 1e9, ctl.name))
                    for x in nxt[:1]:
                        for y in sess_runs(h, x):
                            if y.key == r.key: v.bad("success-rerun", "%s ended successfully %.2f s before the kill of %s but was run again by session %s" % (r.key, (ctl.exit_t - r.exit_t) / 1e9, ctl.name, x.s))
    for path in {s.log for s in h.sesslist}:
        f = h.log(path)
        for (q, what) in f.lost:
            v.bad("record-lost", "log %s: the complete record %r was overwritten or cut off" % (path, what[:120]))
    kills = [c for c in h.ctls.values() if c.status == -9]
    for s in h.sesslist:
        before = [k for k in kills if k.exit_q < s.open_q]
        if not before: continue
        v.n("sessions opened after a kill")
        if s.err is not None and not overlapping_holder(h, s): v.bad("open-failed", "session %s cannot open the log after the kill of %s: %s" % (s.s, before[-1].name, s.err))
        if s.ctor_q is None and s.err is None and h.ctls[s.ctl].exit_q is not None and h.ctls[s.ctl].status != -9: v.bad("open-crashed", "controller %s ended with status %s while opening the log after the kill of %s" % (s.ctl, h.ctls[s.ctl].status, before[-1].name))
    for l in h.loads:
        if not any(k.exit_q < l.q for k in kills): continue
        v.n("log loads after a kill")
        if l.err and not any(q < l.q for q, _ in h.log(l.log).events): continue     # the kill came before the log was created
        if l.err: v.bad("load-failed", "load_logfile(%s) failed after a kill: %s" % (l.mode, l.err)); continue
        if l.mode == "all" and not h.meta.get("load_during_write"):
            want = [_norm(r) for r in h.recs(l.log) if r.q < l.q]
            got = [_normj(j) for j in l.r]
            if want != got and want + tail_rec(h, l) != got: v.bad("load-wrong", "load_logfile(all) after a kill returned %d records, the file holds %d complete ones" % (len(got), len(want)))
    # sessions after the kill behave as C06 requires
    if kills:
        for s in h.sesslist:
            if s.ctor_q is None or not any(k.exit_q < s.open_q for k in kills): continue
            for k, a in s.adds.items():
                if any(c.bq < a.q for c in s.calls): continue
                if a.rc != want_rc(s.state0.get(k)): v.bad("runcount-after-kill", "session %s: run count reported for %s is %d, expected %d (log state %s)" % (s.s, k, a.rc, want_rc(s.state0.get(k)), s.state0.get(k)))
            for k, q, t, who in launches(h, s):
                if k in s.succ0: v.bad("rerun-of-success", "session %s: %s was run again although the log records its success" % (s.s, k))
    return v

def tail_rec(h, l):
    """The last line when it is a whole record that only lacks its newline: may be dropped or not."""
    try: j = _json.loads(h.content_at(l.log, l.q).rsplit(b"\n", 1)[-1])
    except ValueError: return []
    return [_normj(j)] if isinstance(j, dict) and len(j) == 1 else []
def _norm(r):
    return _normj({r.ty: r.d})
def _normj(j):
    (ty, d), = j.items()
    d = dict(d) if isinstance(d, dict) else d
    if ty == "Ready": d.setdefault("r", 0)
    if ty == "Started": d.setdefault("slurm_jobid", "")
    if ty == "Finished": d.setdefault("values", [])
    if ty == "Header": d.setdefault("storage_roots", [])
    return (ty, _json.dumps(d, sort_keys=True))

def overlapping_holder(h, s):
    """Was another session holding (or possibly holding) the log during the attempt s?"""
    for x in h.sesslist:
        if x is s or x.log.rsplit("/", 1)[0] != s.log.rsplit("/", 1)[0]: continue      # the lock file belongs to the directory
        end = x.closed_q if x.closed_q is not None else h.ctls[x.ctl].exit_q
        if x.err is not None: end = x.err_q
        beg = x.open_q
        if beg < (s.err_q or s.ctor_q or 10**18) and (end is None or end > s.open_q): return True
    return False

# --------------------------------------------------------------------------- C08
def c08(h):
    v = V(h)
    for s in h.sesslist:
        if s.ctor_q is None: continue
        seq = {}
        for r in s.recs: seq.setdefault(r.key, []).append(r)
        for k, rs in seq.items():
            v.n("keys with records checked")
            tys = [r.ty for r in rs]
            run = [t for t in tys if t != "Backref"]
            # a task that was queued but not started in one call is queued again by the next
            while run[:2] == ["Ready", "Ready"] and len(s.calls) > 1: run = run[1:]
            if run not in ([], ["Ready"], ["Ready", "Started"], ["Ready", "Started", "Finished"]): v.bad("grammar", "session %s: records of %s are %s" % (s.s, k, tys))
            if "Backref" in tys and run: v.bad("grammar", "session %s: %s is both back-referenced and run: %s" % (s.s, k, tys))
        for (q, line) in h.log(s.log).bad:
            if s.ctor_q <= q and not h.meta.get("disk_faults") and (s.closed_q is None or q <= s.closed_q) and not h.meta.get("kills"): v.bad("malformed", "log %s: the line %r is not a record" % (s.log, line[:150]))
        for c in s.calls:
            if c.eq is None or h.meta.get("disk_faults"): continue
            v.n("returns of execute checked")
            byq = {}
            for r in s.recs:
                if r.q < c.eq: byq.setdefault(r.key, set()).add(r.ty)
            for k, tys in byq.items():
                if "Started" in tys and "Finished" not in tys: v.bad("unfinished", "session %s call %d returned but %s has a start record and no finish record" % (s.s, c.n, k))
            for r in c.runs:
                sure = r.q < c.eq and (r.remote is None or r.t + 3 * SEC < c.et)
                if sure and "Finished" not in byq.get(r.key, ()): v.bad("started-unrecorded", "session %s call %d returned but %s, started by pid %d, has no finish record in the file (has %s)" % (s.s, c.n, r.key, r.pid, sorted(byq.get(r.key, ()))))
            late = [r for r in s.recs if r.q > c.eq and not any(x.bq < r.q for x in s.calls if x.n > c.n)]
            for r in late: v.bad("late-record", "session %s: the record %s of %s reached the file only after call %d returned" % (s.s, r.ty, r.key, c.n))
            if c.ret is not None:
                for k in closure(s, c):
                    if k in s.succ0 and "Backref" not in byq.get(k, ()): v.bad("late-record", "session %s call %d returned but the back-reference of %s is not in the file" % (s.s, c.n, k))
    return v

# --------------------------------------------------------------------------- C09
def c09(h):
    v = V(h)
    ss = [s for s in h.sesslist]
    done = {o.ctl: o.q for o in h.pyother if o.d.get("ev") == "done"}      # what is still open then, the interpreter closes on its way out
    def hold(s): return (s.ctor_q, min(x for x in (s.close_q, done.get(s.ctl), h.ctls[s.ctl].exit_q, 10**18) if x is not None))
    for i, a in enumerate(ss):
        if a.ctor_q is None: continue
        a0, a1 = hold(a)
        for b_ in ss[i + 1:]:
            if b_.log != a.log or b_.ctor_q is None or b_.ctl == a.ctl and b_.s == a.s: continue
            b0, b1 = hold(b_); v.n("pairs of holders checked")
            if a0 < b1 and b0 < a1: v.bad("two-holders", "sessions %s (%s) and %s (%s) hold log %s at the same time (q %d-%d and %d-%d)" % (a.s, a.ctl, b_.s, b_.ctl, a.log, a0, a1, b0, b1))
    for s in ss:
        f = h.log(s.log); lo = s.open_q
        if s.err is not None:
            v.n("failed attempts checked")
            for e in h.ev:
                if e["e"] in ("write", "trunc") and e["path"] == s.log and e.get("p") == s.ctl and s.open_q <= e["q"] <= s.err_q: v.bad("touched", "the failed attempt of session %s wrote to the log" % s.s)
            if not h.meta.get("open_faults") and not overlapping_holder(h, s): v.bad("not-released", "session %s cannot open log %s although nobody holds it: %s" % (s.s, s.log, s.err))
        else: v.n("successful attempts checked")
    # once the lock is given back, nothing more is written
    for s in ss:
        if s.err is not None: continue
        mine = [e for e in h.ev if e["e"] in ("lock", "unlock", "unlink") and (e.get("p") or e.get("owner")) == s.ctl and e["q"] > s.open_q and e["path"].rsplit("/", 1)[0] == s.log.rsplit("/", 1)[0]]
        got = next((e for e in mine if e["e"] == "lock"), None)
        if got is None or s.closed_q is not None and got["q"] > s.closed_q: continue
        gone = next((e["q"] for e in mine if e["q"] > got["q"] and e["e"] != "lock" and e["path"] == got["path"]), None)
        if gone is None: continue
        v.n("lock releases checked"); again = next((e["q"] for e in mine if e["q"] > gone and e["e"] == "lock"), 10**18)
        for e in h.ev:
            if e["e"] in ("write", "trunc") and e["path"] == s.log and e.get("p") == s.ctl and gone < e["q"] < again and not any(o.d.get("ev") in ("wrote", "write_err") for o in h.pyother if o.ctl == s.ctl):
                v.bad("write-after-release", "session %s wrote to log %s after it had given the lock back (q=%d)" % (s.s, s.log, e["q"]))
    for path in {s.log for s in ss}:
        for e in h.ev:
            if e["e"] == "write" and e["path"] == path:
                by = e.get("p")
                ok = any(s.ctl == by and s.log == path and s.err is None and s.open_q <= e["q"] and (s.closed_q is None or e["q"] <= s.closed_q) for s in ss) or by not in h.ctls
                ok = ok or any(o.d.get("ev") in ("wrote", "write_err") for o in h.pyother if o.ctl == by)
                if not ok: v.bad("write-without-lock", "%s wrote to log %s without holding it (q=%d)" % (by, path, e["q"]))
    return v

# --------------------------------------------------------------------------- C10
def expect_io(task, nrun=0):
    """stdout, stderr, fd-3 text and status a scripted command produces when left alone (None: unknown)."""
    out, err, val = bytearray(), bytearray(), bytearray(); st = [0]
    closed = set()
    def go(ops):
        for op in ops:
            k = op[0]
            if k in ("o", "ob"): out.extend(wf.pat(op[1], op[2], k == "ob"))
            elif k in ("e", "eb"): err.extend(wf.pat(op[1], op[2], k == "eb"))
            elif k in ("on", "en"): (out if k == "on" else err).extend(wf.noise(op[1], op[2]))
            elif k == "O": out.extend(op[1].encode("latin-1"))     # scripts write one byte per character
            elif k == "E": err.extend(op[1].encode("latin-1"))
            elif k == "v": val.extend(op[1].encode("latin-1"))
            elif k == "x": st[0] = op[1] & 255; return False
            elif k == "k": st[0] = -op[1]; return False
            elif k == "xn": c = op[1][min(nrun, len(op[1]) - 1)]; st[0] = c if c < 0 else c & 255; return False
            elif k == "loop":
                for _ in range(op[1]):
                    if not go(op[2]): return False
            elif k in ("g", "gd"): go(op[1])      # output of a grandchild ends up in the same pipes
        return True
    go(task["ops"])
    return bytes(out), bytes(err), bytes(val), st[0]

def shell_split(line):
    """Words of a line as a POSIX shell splits them (quotes, backslashes, comments); None: unmatched quote."""
    words = []; i = 0; n = len(line)
    while True:
        while i < n and line[i] in " \t": i += 1
        if i >= n or line[i] == "#": return words
        w = ""
        while i < n and line[i] not in " \t":
            c = line[i]; i += 1
            if c == "'":
                j = line.find("'", i)
                if j < 0: return None
                w += line[i:j]; i = j + 1
            elif c == '"':
                while True:
                    if i >= n: return None
                    c = line[i]; i += 1
                    if c == '"': break
                    if c == "\\":
                        if i >= n: return None
                        if line[i] not in '$`"\\': w += "\\"
                        w += line[i]; i += 1
                    else: w += c
            elif c == "\\":
                if i >= n: w += "\\"
                else: w += line[i]; i += 1
            else: w += c
        words.append(w)

def parse_values(text):
    r = text.split("\n"); last = r.pop()
    r = [x[:-1] if x.endswith("\r") else x for x in r] + ([last] if last else [])
    res = []
    for line in r:
        f = shell_split(line)
        if f is not None: res.append({x.partition("=")[0]: x.partition("=")[2] for x in f if "=" in x})
    return res

def lossy(b): return b.decode("utf-8", "replace")

def display_of(task):
    if "disp" in task: return task["disp"]
    return " ".join(task_cmd(task)).encode("utf-8", "surrogateescape").decode("utf-8", "replace").replace("\\\n", " ").replace("\t", "\\t")

def task_cmd(task):
    return task["cmd"] if "cmd" in task else ["simtask", _json.dumps(task["ops"], separators=(",", ":")), task["key"]] + task.get("args", []) + [x.encode("latin-1").decode("utf-8", "surrogateescape") for x in task.get("argb", [])]

def c10(h):
    v = V(h)
    killed = {e.pid if hasattr(e, "pid") else None for e in h.kills}
    for e in h.adderrs: v.bad("refused", "session %s: the task %s was refused: %s" % (e.s, e.key, e.d))
    for s in h.sesslist:
        for r in sess_runs(h, s):
            t = s.tasks.get(r.key)
            if t is None: continue
            want = [a.encode("utf-8", "surrogateescape") for a in task_cmd(t)]
            v.n("argument vectors checked")
            if r.argv != want: v.bad("argv", "session %s: %s received the arguments %s instead of %s" % (s.s, r.key, r.argv, want))
            fd = t.get("fd")
            if fd and str(fd[0]) not in r.fds: v.bad("input-missing", "session %s: descriptor %d of %s is not open" % (s.s, fd[0], r.key))
            for e in h.reads:
                if e.pid == r.pid and fd and e.fd == fd[0] and r.code is not None and t.get("read_all", True):
                    data = wf.pat(fd[1], fd[2], len(fd) > 3); v.n("inputs checked")
                    if e.n != len(data) or e.crc != zlib.crc32(data): v.bad("input", "session %s: %s read %d bytes (crc %d) on descriptor %d instead of its %d input bytes" % (s.s, r.key, e.n, e.crc, fd[0], len(data)))
            for e in h.eagains:
                if e.pid == r.pid: v.bad("nonblocking", "session %s: the %s of %s on descriptor %d failed with EAGAIN instead of waiting" % (s.s, e.op, r.key, e.fd))
        if not h.meta.get("io", True): continue
        for c in s.calls:
            if c.ret is None or not is_strict(h, c): continue
            runs = {}
            for r in c.runs: runs.setdefault(r.key, []).append(r)
            fins = {}
            for f in c.fin: fins.setdefault(f.key, []).append(f)
            for k, rs in runs.items():
                if len(rs) != 1: continue
                r = rs[0]; t = s.tasks[k]
                out, err, val, st = expect_io(t, nrun_of(h, r))
                v.n("outcomes checked")
                if r.code is None: continue
                f = fins.get(k, [])
                if len(f) != 1: v.bad("record", "session %s: %d finish records for %s which was run once" % (s.s, len(f), k)); continue
                if f[0].d["status"] == -10 and limit_hit(h, c): continue       # cancelled: judged by C12
                if f[0].d["status"] != r.code: v.bad("status", "session %s: %s ended with %d but %d is recorded" % (s.s, k, r.code, f[0].d["status"]))
                if r.code != st: continue      # ended otherwise than scripted (signal): outputs unknown
                try: want = parse_values(val.decode("utf-8"))
                except UnicodeDecodeError: want = None
                if want is not None and f[0].d.get("values", []) != want: v.bad("values", "session %s: %s wrote the values %s but %s is recorded" % (s.s, k, want, f[0].d.get("values")))
                sr = [x for x in c.strt if x.key == k]
                if len(sr) == 1:
                    host, job = ("host%d" % r.remote.host, "7_" + r.remote.name[1:].partition("+")[0]) if r.remote else ("host0", "")
                    v.n("start records compared with the process")
                    if sr[0].d["host"].partition(".")[0] != host or sr[0].d.get("slurm_jobid", "") != job: v.bad("host", "session %s: %s ran on %s in job %r but host %s and job %r are recorded" % (s.s, k, host, job, sr[0].d["host"], sr[0].d.get("slurm_jobid")))
                if len(sr) == 1 and sr[0].d["pid"] != r.pid: v.bad("pid", "session %s: %s ran as pid %d but pid %d is recorded" % (s.s, k, r.pid, sr[0].d["pid"]))
            printed(h, v, c, runs, fins)
        for c in s.calls:
            for x in c.strt:
                if not x.d["host"].startswith("fh"): continue
                n = x.d["host"][2:]; v.n("start records of scripted runners checked")
                if x.d["pid"] != 70000 + int(n) or x.d.get("slurm_jobid", "") != "7_" + n: v.bad("host", "session %s: the start record of %s is %s, reported by f%s" % (s.s, x.key, {a: b_ for a, b_ in x.d.items() if a in ("host", "pid", "slurm_jobid")}, n))
            if c.ret is None: continue
            for f in c.fakes:
                fs = [x for x in c.fin if x.key == f.key]; st = [x for x in c.strt if x.key == f.key]
                if len(fs) != 1 or any(y is not f and y.key == f.key for y in c.fakes) or any(r.key == f.key for r in c.runs): continue
                if f.end is not None and f.end.status == 200 and f.end.t0 < c.et:
                    v.n("reported ends compared with their records")
                    if fs[0].d["status"] != f.end.code: v.bad("status", "session %s: %s reported for %s that it ended with %d, and %d is recorded" % (s.s, f.who, f.key, f.end.code, fs[0].d["status"]))
                    if len(st) == 1 and not stopped(h, c) and any(e.status == 200 and e.t < f.end.t0 for e in f.begun) and not st[0].d["host"].startswith("fh"): v.bad("host", "session %s: %s reported the start of %s, but the start record says %s" % (s.s, f.who, f.key, st[0].d))
    return v

def nrun_of(h, r):
    return sum(1 for x in h.runs if x.key == r.key and x.q < r.q)

def printed(h, v, c, runs, fins):
    """The console text of the call is, in finish order, a header line per task followed by its output."""
    s = c.sess
    if any("console" in str(r.fds.get("1", "")) for r in h.runs if r.by == c.ctl): return
    lo, hi = c.bq, min([x.bq for x in h.calls if x.ctl == c.ctl and x.bq > c.bq] + [10**18])
    text = b"".join(x[2].encode("latin-1") for x in h.outs.get((c.ctl, 1), []) if lo < x[0] < hi)
    text = text.decode("utf-8", "replace") if True else text
    pos = 0
    for f in c.fin:
        k = f.key; t = s.tasks.get(k)
        if t is None: return
        disp = display_of(t)
        if spawn_fails(s, k):
            i = text.find("\n", pos)
            if i < 0 or disp not in text[pos:i + 1 + len(disp)]: v.bad("print-header", "session %s: no line for %s at its place in the output" % (s.s, k)); return
            # message text is free; skip to the next task's header
            pos = i + 1; free = True
            continue_at = None
            nxt = next((g for g in c.fin[c.fin.index(f) + 1:]), None)
            if nxt is None: return
            j = text.find(display_of(s.tasks[nxt.key]), pos) if nxt.key in s.tasks else -1
            if j < 0: v.bad("print-header", "session %s: no line for %s in the output" % (s.s, nxt.key)); return
            j = text.rfind("\n", 0, j) + 1; pos = j
            continue
        if k not in runs: return
        r = runs[k][0]; out, err, val, st = expect_io(t, nrun_of(h, r))
        if r.code != st: return
        i = text.find(disp + "\n", pos)
        head = text[pos:i] if i >= 0 else ""
        v.n("printed blocks checked")
        if i < 0 or "\n" in head: v.bad("print-header", "session %s: expected the line of %s at offset %d of the output, found %r" % (s.s, k, pos, text[pos:pos + 200])); return
        pos = i + len(disp) + 1
        want = lossy(out) + lossy(err)
        got = text[pos:pos + len(want)]
        if got != want:
            n = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            v.bad("output", "session %s: the output printed for %s differs from what it wrote at character %d of %d: printed %r, written %r" % (s.s, k, n, len(want), got[max(0, n - 20):n + 40], want[max(0, n - 20):n + 40])); return
        pos += len(want)
    if pos != len(text) and c.fin: v.bad("print-extra", "session %s call %d: unexpected output %r" % (s.s, c.n, text[pos:pos + 200]))

# --------------------------------------------------------------------------- C11
def is_console(r): return str(r.fds.get("1", "")).startswith("console")
def remote_queue(h, name):
    if name in h.remotes: return int(h.remotes[name].args[0])
    return h.meta.get("queues", {}).get(name)

def c11(h):
    v = V(h)
    for c in h.calls:
        s = c.sess; aff = lambda k: s.tasks[k].get("aff", 1) if k in s.tasks else 1
        loc = [r for r in c.runs if r.remote is None]
        for kind, sel, lim, bit in (("queue 0", [r for r in loc if not is_console(r)], s.np, 0), ("console", [r for r in loc if is_console(r)], 1 if s.np else 0, 1)):
            pts = []
            for r in sel:
                v.n("local starts checked")
                if not aff(r.key) >> bit & 1: v.bad("affinity", "session %s: %s (affinity %d) was run on the local %s" % (s.s, r.key, aff(r.key), kind))
                pts.append((r.q, 1, r)); 
                if r.exit_q: pts.append((r.exit_q, -1, r))
            n = 0
            for q, d, r in sorted(pts, key=lambda x: x[:2]):
                n += d
                if n > lim: v.bad("too-many", "session %s: %d commands run at the same time on the local %s (limit %d) when %s started" % (s.s, n, kind, lim, r.key)); break
        byrem = {}
        for r in c.runs:
            if r.remote is None: continue
            v.n("remote starts checked")
            qn = remote_queue(h, r.remote.name)
            if qn is not None and not aff(r.key) >> qn & 1: v.bad("affinity", "session %s: %s (affinity %d) was given to runner %s of queue %d" % (s.s, r.key, aff(r.key), r.remote.name, qn))
            byrem.setdefault(r.remote.name, []).append(r)
        for name, rs in byrem.items():
            rs.sort(key=lambda r: r.q)
            for a, b_ in zip(rs, rs[1:]):
                if a.exit_q is None or a.exit_q > b_.q: v.bad("remote-two", "runner %s started %s while %s was still running" % (name, b_.key, a.key))
    for f in h.fakes:
        if f.call is None: continue
        qn = remote_queue(h, f.who); v.n("hand-outs to scripted runners checked")
        if qn is not None and not f.call.sess.tasks[f.key].get("aff", 1) >> qn & 1: v.bad("affinity", "%s (affinity %d) was given to %s of queue %d" % (f.key, f.call.sess.tasks[f.key].get("aff", 1), f.who, qn))
    return v

# --------------------------------------------------------------------------- C12
def rec_of(recs, ty, k):
    x = [r for r in recs if r.ty == ty and r.key == k]
    return x[-1] if x else None

def never_begun(b):
    """A start record made up when a task ended whose runner never reported its start."""
    return b.d["pid"] == 0 and b.d["host"] == ""

def c12(h):
    v = V(h)
    for c in h.calls:
        s = c.sess
        if c.eq is None or h.meta.get("stalls"): continue
        st = {r.key: r for r in c.strt}
        fails = []; amb = False
        for f in c.fin:
            if f.d["status"] == 0: continue
            b_ = st.get(f.key)
            if b_ is None or never_begun(b_): continue
            el = f.tm - b_.tm
            if 4.0 * SEC < el < 6.0 * SEC: amb = True
            if el < 5 * SEC: fails.append(f)
        if amb: continue
        N = s.fa
        # order of processing = order in the log
        if N == 0 or len([f for f in fails if f.d["status"] not in (-10,)]) < N:
            v.n("calls below the limit judged")
            for f in c.fin:
                if f.d["status"] == -10 and not stopped(h, c): v.bad("cancelled-below-limit", "session %s call %d: %s was cancelled although only %d tasks failed early (limit %d)" % (s.s, c.n, f.key, len(fails), N))
            if is_strict(h, c) and not c.exc: incomplete(h, v, c)
            elif c.exc and is_strict(h, c): v.bad("exception", "session %s call %d raised %s" % (s.s, c.n, c.exc))
            continue
        F = fails[N - 1]; T = F.tm; v.n("calls that reached the limit judged")
        if c.exc: v.bad("exception", "session %s call %d raised %s" % (s.s, c.n, c.exc)); continue
        cut = stopped(h, c) or hard_stop(h, c)
        for r in c.runs:
            slack = 200 * MS if r.remote is None else 1500 * MS
            if r.t > T + slack: v.bad("started-after-limit", "session %s: %s was started %.2f s after the failure limit was reached" % (s.s, r.key, (r.t - T) / 1e9))
            b_ = st.get(r.key); f = rec_of(c.fin, "Finished", r.key)
            if b_ is None or f is None or cut: continue
            if f.tm < T - 300 * MS: continue
            age = T - b_.tm
            t = s.tasks[r.key]; nat = expect_io(t, nrun_of(h, r))[3]
            if r.exit_t is not None and r.exit_t < T + 300 * MS and f.d["status"] == r.code == nat: continue
            if age > 5.6 * SEC:
                v.n("long-running tasks at the limit")
                if f.d["status"] == -10 or r.code != nat or f.d["status"] != r.code: v.bad("old-cancelled", "session %s: %s had been running for %.1f s when the limit was reached but was not allowed to finish (recorded %d, ended %s, scripted %d)" % (s.s, r.key, age / 1e9, f.d["status"], r.code, nat))
            elif age < 4.4 * SEC and r.t < T - 50 * MS:
                natural_end = r.t + dur_of(t) if dur_of(t) is not None else None
                if natural_end is not None and natural_end > T + 2 * SEC:
                    v.n("young tasks at the limit")
                    if f.d["status"] not in ((-10,) if r.remote is None else (-10, -1)): v.bad("young-not-cancelled", "session %s: %s had been running for %.1f s when the limit was reached but is recorded with %d instead of cancelled" % (s.s, r.key, age / 1e9, f.d["status"]))
        for x in c.fakes:
            b_ = st.get(x.key); f = rec_of(c.fin, "Finished", x.key)
            if cut or not h.meta.get("pinging") or b_ is None or never_begun(b_) or f is None or f.tm < T - 300 * MS or len([y for y in c.fakes if y.key == x.key]) > 1: continue
            age = T - b_.tm; rep = x.tries[0] if x.tries else None
            if age > 5.6 * SEC and rep is not None and rep[0].t0 < b_.tm + 30 * SEC:
                v.n("long-running tasks at the limit")
                if f.d["status"] != rep[1]: v.bad("old-cancelled", "session %s: %s had been running for %.1f s when the limit was reached but was not allowed to finish (recorded %d, its runner reported %d)" % (s.s, x.key, age / 1e9, f.d["status"], rep[1]))
            elif age < 4.4 * SEC and b_.tm < T - 50 * MS and (rep is None or rep[0].t0 > T + 2 * SEC):
                v.n("young tasks at the limit")
                if f.d["status"] != -1 or f.tm > T + 1.5 * SEC: v.bad("young-not-cancelled", "session %s: %s had been running for %.1f s when the limit was reached but is recorded with %d %.1f s later instead of cut off" % (s.s, x.key, age / 1e9, f.d["status"], (f.tm - T) / 1e9))
        if cut: continue
        le = max([T] + [x.end.t if x.end else x.t + 36 * SEC for x in c.fakes if T - x.t > 4.4 * SEC] + [r.exit_t for r in c.runs if r.exit_t and (r.exit_t - (st[r.key].tm if r.key in st else 0)) > 0])
        bound = 10 * SEC if not any(r.remote for r in c.runs) else 20 * SEC
        if c.et > le + bound: v.bad("late-return", "session %s call %d returned %.1f s after the last task ended, the limit being reached" % (s.s, c.n, (c.et - le) / 1e9))
    return v

def dur_of(task):
    """Scripted duration in ns (lower bound)."""
    def go(ops):
        n = 0
        for op in ops:
            if op[0] == "s": n += op[1] * MS
            elif op[0] == "us": n += op[1] * 1000
            elif op[0] == "loop": n += op[1] * go(op[2])
            elif op[0] in ("x", "k", "xn"): return n
        return n
    return go(task["ops"]) if "ops" in task else 0

# --------------------------------------------------------------------------- C13 / C14
def during(h, c, t): return c.bt <= t and (c.end is None or t <= c.end[1])
def acks(h, c, tag):
    return sorted(e.t for e in h.https if e.tag == tag and e.status == 200 and during(h, c, e.t0) and (c.end is None or e.t <= c.end[1] + SEC))
def hard_stop(h, c):
    """Earliest time at which the call was told to stop at once, with the reason."""
    x = [(t, "hard shutdown") for t in acks(h, c, "hard")]
    for e in h.https:      # a hard shutdown whose reply got lost in the closing server still counts
        if e.tag == "hard" and e.err and e.err != "connect" and during(h, c, e.t0): x.append((e.t, "hard shutdown"))
    ints = [e for e in h.sigs if e.name == c.ctl and e.sig == 2 and during(h, c, e.t)]
    for e in ints:
        if e.handled and e.t >= c.bt + 100 * MS: x.append((e.t, "SIGINT"))
        else: c.ambig = True        # before execute() had installed its handler: may or may not be seen
    for p in prov_ends(h, c): x.append((p.exit_t, "end of the provisioner"))
    return min(x) if x else None
def prov_ends(h, c):
    """Provisioners that ended during the call on their own (not because the controller interrupted them)."""
    return [p for p in h.provs if p.exit_t is not None and during(h, c, p.t) and during(h, c, p.exit_t)
            and not any(k.to == p.pid and k.q < p.exit_q for k in h.kills) and not any(e.pid == p.pid and e.q < p.exit_q for e in h.sigs)]

def c13(h):
    v = V(h)
    for c in h.calls:
        a = acks(h, c, "soft"); s = c.sess
        if not a or h.meta.get("stalls"): continue
        T = a[0]; hs = hard_stop(h, c)
        if hs and (c.end is None or hs[0] < (c.end[1] if c.end else 10**18)): continue
        st = {r.key: r for r in c.strt}; fin = {f.key: f for f in c.fin}
        lim = limit_hit(h, c)
        v.n("soft shutdowns judged")
        for r in c.runs:
            slack = 300 * MS if r.remote is None else 1500 * MS
            if r.t > T + slack: v.bad("started-after-soft", "session %s call %d: %s was started %.3f s after the soft shutdown was acknowledged" % (s.s, c.n, r.key, (r.t - T) / 1e9))
        for f in c.fakes:
            if f.t0 > T + 300 * MS: v.bad("handed-after-soft", "session %s call %d: %s was handed to %s %.3f s after the soft shutdown was acknowledged" % (s.s, c.n, f.key, f.who, (f.t - T) / 1e9))
            for e, code in f.tries:
                v.n("results after a soft shutdown checked")
                if e.status is not None and e.status == 404 and not h.meta.get("net"): v.bad("result-refused", "session %s call %d: the result of %s from %s was refused with %s" % (s.s, c.n, f.key, f.who, e.status))
                if e.status is None and not h.meta.get("net") and not lim: v.bad("not-waited-for", "session %s call %d: the result of %s from %s at %.6f did not get through (%s), after a soft shutdown" % (s.s, c.n, f.key, f.who, e.t0 / 1e9, e.err))
        if lim or h.meta.get("net"): continue
        if c.exc: v.bad("exception", "session %s call %d raised %s" % (s.s, c.n, c.exc)); continue
        last = max(T, last_grandchild(h, c))
        for r in c.runs:
            nat = expect_io(s.tasks[r.key], nrun_of(h, r))[3]
            if r.exit_t is not None: last = max(last, r.exit_t)
            v.n("tasks running across a soft shutdown")
            if r.code != nat and r.code is not None: v.bad("not-allowed-to-finish", "session %s call %d: %s ended with %s instead of %d after the soft shutdown" % (s.s, c.n, r.key, r.code, nat)); continue
            if c.end is not None and (r.exit_q is None or r.exit_q > c.end[0]): v.bad("not-waited-for", "session %s call %d returned while %s was still running, after a soft shutdown" % (s.s, c.n, r.key)); continue
            if c.eq is None: continue
            if r.key not in fin: v.bad("outcome-lost", "session %s call %d: %s ended with %d but has no finish record, after a soft shutdown" % (s.s, c.n, r.key, r.code))
            elif fin[r.key].d["status"] != r.code: v.bad("outcome-wrong", "session %s call %d: %s ended with %d but is recorded with %d, after a soft shutdown" % (s.s, c.n, r.key, r.code, fin[r.key].d["status"]))
        for f in c.fakes:
            if f.end and f.end.status in (200, 410):
                last = max(last, f.end.t)
                if c.eq is not None and (f.key not in fin or fin[f.key].d["status"] != f.end.code): v.bad("outcome-lost", "session %s call %d: the result %d of %s from %s is recorded as %s" % (s.s, c.n, f.end.code, f.key, f.who, fin[f.key].d["status"] if f.key in fin else None))
        x = hung(h, c)
        if x: v.bad("hang", "session %s call %d never returned after the soft shutdown (acknowledged at %.3f, last task ended %.3f, %s at %.3f)" % (s.s, c.n, T / 1e9, last / 1e9, x, h.end["t"] / 1e9))
        if c.eq is not None:
            bound = (5 if not h.remotes else 45) * SEC
            if c.et > last + bound: v.bad("late-return", "session %s call %d returned %.1f s after the last task ended, after a soft shutdown" % (s.s, c.n, (c.et - last) / 1e9))
    return v

def limit_hit(h, c):
    N = c.sess.fa
    if N == 0: return False
    st = {r.key: r for r in c.strt}
    return len([f for f in c.fin if f.d["status"] != 0 and f.key in st and not never_begun(st[f.key]) and f.tm - st[f.key].tm < 6 * SEC]) >= N

def ignores_term(ops):
    return any(o[0] in ("it", "tt") for o in ops)
def has_grand(ops): return any(o[0] in ("g", "gd") for o in ops)

def c14(h):
    v = V(h)
    for c in h.calls:
        s = c.sess; hs = hard_stop(h, c)
        if not hs or h.meta.get("stalls") or getattr(c, "ambig", False): continue
        T, why = hs
        if c.eq is not None and c.et < T: continue
        v.n("stops judged: " + why)
        x = hung(h, c)
        if x: v.bad("hang", "session %s call %d never returned after %s at %.3f (%s at %.3f)" % (s.s, c.n, why, T / 1e9, x, h.end["t"] / 1e9)); continue
        for r in c.runs:
            slack = 300 * MS if r.remote is None else 1500 * MS
            if r.t > T + slack: v.bad("started-after-stop", "session %s call %d: %s was started %.3f s after %s" % (s.s, c.n, r.key, (r.t - T) / 1e9, why))
        if c.eq is None:
            if h.ctls[c.ctl].status not in (None, -9): v.bad("died", "controller %s ended with status %s after %s" % (c.ctl, h.ctls[c.ctl].status, why))
            continue
        if c.et > T + 10 * SEC: v.bad("late-return", "session %s call %d returned %.1f s after %s" % (s.s, c.n, (c.et - T) / 1e9, why))
        if c.exc and "KeyboardInterrupt" not in c.exc: v.bad("exception", "session %s call %d raised %s after %s" % (s.s, c.n, c.exc, why))
        fin = {f.key: f for f in c.recs if f.ty == "Finished" and f.q < c.eq}
        for r in c.runs:
            if r.q > c.eq and r.remote is not None: continue       # the runner had already been given it
            if r.q > c.eq: v.bad("started-after-return", "session %s: %s was started after call %d had returned" % (s.s, r.key, c.n)); continue
            v.n("tasks at a stop")
            if (r.remote is None or r.t + 3 * SEC < T) and r.key not in fin: v.bad("not-recorded", "session %s call %d returned after %s but %s, started by pid %d, is not recorded as finished" % (s.s, c.n, why, r.key, r.pid))
            # processes left behind
            if r.remote is None and r.t < c.et:
                ops = s.tasks[r.key].get("ops", [])
                if not ignores_term(ops) and (r.exit_t is None or r.exit_t > c.et + SEC): v.bad("left-running", "%s (pid %d) was still running more than a second after call %d returned following %s" % (r.key, r.pid, c.n, why))
                for g in h.spawned:
                    if g.ppid == r.pid:
                        gop = [o for o in ops if o[0] in ("g", "gd")]
                        if not gop or gop[0][0] == "gd" or ignores_term(gop[0][1]): continue
                        v.n("children of tasks at a stop")
                        x = h.exits.get(g.pid)
                        if (x is None or x.t > c.et + SEC) and g.t < c.et - 50 * MS: v.bad("child-left-running", "a child (pid %d) of %s in the same process group was still running more than a second after call %d returned following %s" % (g.pid, r.key, c.n, why))
        # the controller can be used again
        for c2 in h.calls:
            if c2.ctl == c.ctl and c2.bq > c.eq and is_strict(h, c2):
                v.n("later calls judged")
                if c2.exc and "KeyboardInterrupt" not in c2.exc: v.bad("later-call", "session %s call %d, made after the stop, raised %s" % (c2.s, c2.n, c2.exc))
                elif not c2.exc and c2.ret is not None and not hard_stop(h, c2): incomplete(h, v, c2, "later-")
                elif hung(h, c2): v.bad("later-hang", "session %s call %d, made after the stop, never returned" % (c2.s, c2.n))
    return v

# --------------------------------------------------------------------------- C15
def strike(h, name):
    """First fault that can disturb the given runner: (time, kind, fault), or None."""
    host = h.remotes[name].host if name in h.remotes else None; best = None
    for f in h.faults:
        d = f.get("do")
        hit = (d in ("kill", "stop", "sig") and f.get("f_proc") == name and f.get("f_sig") != 10) or (d in ("host_down", "rst") and f.get("f_host") == host) or (d == "partition" and host in (f.get("f_a"), f.get("f_b")))
        hit = hit or (d in ("suspend", "slow", "skew") and f.get("f_host") == host) or (d in ("stop", "kill") and f.get("f_proc") in h.ctls)
        if hit and (best is None or f["t"] < best[0]): best = (f["t"], d, f)
    return best

def c15(h):
    v = V(h)
    if h.meta.get("stalls"): return v
    for f in h.fakes:
        c = f.call
        if c is None or limit_hit(h, c): continue
        hs = hard_stop(h, c)
        fins = [x for x in c.fin if x.key == f.key]
        if len(fins) > 1: v.bad("finished-twice", "session %s: %d finish records for %s, which was handed out once" % (c.s, len(fins), f.key)); continue
        fin = fins[0] if fins else None
        end_t = c.end[1] if c.end else (h.end["t"] if h.end else 0)
        contacts = [(f.t0, f.t)] + [(p.t0, p.t) for p in f.pings if p.status == 200]
        G = fin.tm if fin is not None and fin.d["status"] == -1 else None
        ok_end = f.end is not None and f.end.status == 200
        if hs and (G is None or G > hs[0] - SEC): continue
        v.n("handed-out tasks judged")
        if ok_end and fin is None and c.eq is not None: v.bad("result-lost", "session %s: the result of %s from %s was accepted but %s has no finish record" % (c.s, f.key, f.who, f.key))
        if ok_end and fin is not None and fin.d["status"] != f.end.code: v.bad("result-wrong", "session %s: %s from %s ended with %d and was accepted, but %d is recorded" % (c.s, f.key, f.who, f.end.code, fin.d["status"]))
        if G is not None:
            v.n("tasks given up as lost")
            prev = max([c0 for c0, c1 in contacts if c1 <= G], default=f.t0)
            if G < prev + 34 * SEC: v.bad("given-up-early", "session %s: %s was given up %.2f s after %s had last been in contact" % (c.s, f.key, (G - prev) / 1e9, f.who))
            first = min([c1 for c0, c1 in contacts if c1 > prev and c1 <= G] or [f.t])
            text = b"".join(x[2].encode("latin-1") for x in h.outs.get((c.ctl, 1), []) if c.bq < x[0] and (c.eq is None or x[0] < c.eq)).decode("utf-8", "replace")
            disp = display_of(c.sess.tasks[f.key]) + "\n"; msg = "lost-f%s " % f.who[1:]
            i = [m.end() for m in re.finditer(re.escape(": " + disp), text)]
            if not acks(h, c, "soft") and c.eq is not None and not h.ctls[c.ctl].status == -9:
                v.n("disconnect messages checked")
                if not any("DISCONNECTED" in text[max(0, text.rfind("\n", 0, j - len(disp)) ):j] and text.startswith(msg, j) for j in i): v.bad("message", "session %s: the disconnect message %r is not printed for %s, which was given up" % (c.s, msg, f.key))
            for e, code in f.tries:
                if e.t0 > G + 300 * MS and e.status not in (404, None) and not (e.status in (410, 429)): v.bad("late-result-accepted", "session %s: the result of %s was answered with %s although it had been given up %.2f s before" % (c.s, f.key, e.status, (e.t0 - G) / 1e9))
        # silence must be noticed
        for (c0, c1), nxt in zip(contacts, [x[0] for x in contacts[1:]] + [min([e.t0 for e, _ in f.tries] + [10**18])]):
            if nxt > c1 + 40 * SEC and end_t > c1 + 40 * SEC and not (hs and hs[0] < c1 + 40 * SEC):
                if G is not None and G < c0: break
                v.n("silences judged")
                if G is None or G > c1 + 39 * SEC: v.bad("not-given-up", "session %s: %s, held by %s which kept quiet for more than 40 s after %.2f, %s" % (c.s, f.key, f.who, c1 / 1e9, "was not given up" if G is None else "was given up only %.2f s later" % ((G - c1) / 1e9)))
                break
    for c in h.calls:
        hs = hard_stop(h, c)
        if limit_hit(h, c) or hs: continue
        for r in c.runs:
            if r.remote is None: continue
            x = strike(h, r.remote.name); fin = rec_of(c.fin, "Finished", r.key)
            if h.ctls[c.ctl].status == -9: continue
            if x is None or (r.exit_t is not None and x[0] > r.exit_t + 16 * SEC + 5 * SEC):
                if fin is None: continue
                v.n("tasks on undisturbed runners")
                if fin.d["status"] == -1 and (r.exit_t is None or fin.tm < r.exit_t + 10 * SEC): v.bad("healthy-given-up", "session %s: %s was given up at %.3f although nothing had happened to its runner %s" % (c.s, r.key, fin.tm / 1e9, r.remote.name))
                continue
            X, d, f = x
            perm = d in ("kill", "host_down") or (d == "partition" and f.get("f_ms", 10**9) >= 50000) or (d == "stop" and f.get("f_proc") == r.remote.name and f.get("f_ms", 0) >= 50000)
            if d == "partition" and sum(1 for y in h.faults if y.get("do") == "partition" and {y.get("f_a"), y.get("f_b")} == {f.get("f_a"), f.get("f_b")}) > 1: perm = False     # the end of another one heals this one
            if not perm or f.get("f_proc") in h.ctls or r.t > X - 20 * MS or (r.exit_t is not None and r.exit_t <= X): continue
            # the machine may be paused by a later fault; the controller must not be
            if any(y.get("do") in ("stop", "suspend", "skew") and y.get("f_proc", "c0") in h.ctls for y in h.faults): continue
            end_t = c.end[1] if c.end else (h.end["t"] if h.end else 0)
            if end_t < X + 42 * SEC and fin is None: continue
            v.n("tasks of lost runners judged")
            if fin is None or fin.d["status"] != -1: v.bad("loss-unnoticed", "session %s: %s was running on %s, which was lost at %.3f (%s), but is recorded with %s" % (c.s, r.key, r.remote.name, X / 1e9, d, fin.d["status"] if fin else None))
            elif not X + 18 * SEC <= fin.tm <= X + 41 * SEC: v.bad("given-up-time", "session %s: %s, whose runner %s was lost at %.3f (%s), was given up %.2f s later" % (c.s, r.key, r.remote.name, X / 1e9, d, (fin.tm - X) / 1e9))
    return v

# --------------------------------------------------------------------------- C16
def c16(h):
    v = V(h)
    WANT = {"junk.noauth": None, "junk.unknown": (404,), "junk.wrongjob": (404,), "junk.stale": (404,), "junk.nojob": (400,), "junk.type64": (404,), "junk.path": (404, 405), "junk.dup": (200,)}
    for e in h.https:
        if not e.tag.startswith("junk.") or e.err or e.status is None: continue
        v.n("requests judged: " + e.tag[5:])
        if e.tag == "junk.noauth":
            if e.status < 400: v.bad("accepted-unauthorised", "%s %s without the right credentials was answered with %d" % (e.p, e.path, e.status))
        elif e.tag in WANT:
            c = h.call_at("c0", e.q)
            if e.tag == "junk.type64" and e.status in (400, 410): pass
            elif e.status == 410 and c is not None and (acks(h, c, "soft") or acks(h, c, "hard")): pass
            elif e.tag in ("junk.wrongjob", "junk.unknown") and e.status == 200: v.bad("accepted", "%s %s (%s) was answered with 200" % (e.p, e.path, e.tag[5:]))
            elif e.status < 400 if e.tag != "junk.dup" else e.status not in WANT[e.tag]: v.bad("answer", "%s %s (%s) was answered with %d instead of %s" % (e.p, e.path, e.tag[5:], e.status, WANT[e.tag]))
        elif e.tag == "junk.bad":
            if e.status < 400: v.bad("accepted-malformed", "%s %s with a malformed body was answered with %d" % (e.p, e.path, e.status))
    for c in h.calls:
        s = c.sess
        for f in c.fakes:
            fins = [x for x in c.fin if x.key == f.key]
            if len(fins) > 1: v.bad("finished-twice", "session %s: %d finish records for %s" % (c.s, len(fins), f.key))
            if f.end and f.end.status == 200 and c.eq is not None:
                v.n("rightful results checked")
                if not fins or fins[0].d["status"] != f.end.code: v.bad("result-replaced", "session %s: %s from %s ended with %d but %s is recorded" % (c.s, f.key, f.who, f.end.code, [x.d["status"] for x in fins]))
            st = [x for x in c.strt if x.key == f.key]
            if len(st) > 1: v.bad("started-twice", "session %s: %d start records for %s" % (c.s, len(st), f.key))
            if st and f.begun and any(b.status == 200 for b in f.begun) and fins and fins[0].d["status"] != -1:
                i = int(f.who[1:])
                if st[0].d["host"] != "fh%d" % i or st[0].d["pid"] != 70000 + i: v.bad("start-forged", "session %s: the start of %s by %s is recorded as host %s pid %s" % (c.s, f.key, f.who, st[0].d["host"], st[0].d["pid"]))
            if f.end and f.end.status == 404 and not (fins and fins[0].d["status"] == -1): v.bad("result-refused", "session %s: the result of %s from the runner that received it was refused with 404" % (c.s, f.key))
        text = "".join(x[2] for x in h.outs.get((c.ctl, 1), []) if c.bq < x[0] and (c.eq is None or x[0] < c.eq))
        if "forged" in text: v.bad("forged-output", "session %s call %d: output of a request without effect was printed" % (c.s, c.n))
        if is_strict(h, c) and c.eq is not None:
            v.n("calls judged next to requests without effect")
            if c.exc: v.bad("exception", "session %s call %d raised %s" % (c.s, c.n, c.exc)); continue
            incomplete(h, v, c)
            late = c.et - max([last_exit(h, c)] + [e.t for e in h.https if e.tag.split(".")[0] in ("end", "ends") and e.t <= c.et])
            if late > 8 * SEC and not h.remotes: v.bad("held-up", "session %s call %d returned %.1f s after the last task ended" % (c.s, c.n, late / 1e9))
        x = hung(h, c)
        if x and is_strict(h, c): v.bad("hang", "session %s call %d never returned (%s)" % (c.s, c.n, x))
    for name, c in h.ctls.items():
        if c.status not in (None, 0, -9): v.bad("died", "controller %s ended with status %s" % (name, c.status))
    if not is_all_strict(h): v += [x for x in c15(h) if x not in v]
    return v
def is_all_strict(h): return h.meta.get("strict") is True

# --------------------------------------------------------------------------- C17
def c17(h):
    v = V(h)
    for e in h.https:
        if e.tag != "cancel" or e.status != 200 or e.err: continue
        try: want = _json.loads(sc_body(h, e)); got = _json.loads(e.body or "{}").get("jobids")
        except (ValueError, TypeError): want = None; got = None
        if got is None: v.bad("answer", "the cancellation was answered with %r" % e.body); continue
        v.n("cancellations judged")
        for J in ("7_%d" % i for i in range(0, 10)):
            fs = [f for f in h.fakes if "7_" + f.who[1:] == J]; rs = [r for r in h.runs if r.remote is not None and "7_" + r.remote.name[1:] == J]
            rec = [x for s in h.sesslist for x in s.recs if x.ty == "Started" and x.d.get("slurm_jobid") == J]
            if J in got:
                v.n("jobs marked as cancelled")
                for f in fs:
                    et = f.end.t0 if f.end else None
                    if f.t0 > e.t: v.bad("given-after-cancel", "job %s was reported as cancelled at %.6f but was given %s at %.6f" % (J, e.t / 1e9, f.key, f.t / 1e9))
                    elif f.t > e.t0 and (et is None or et > e.t): v.bad("given-around-cancel", "job %s was reported as cancelled (%.6f-%.6f) but was given %s (%.6f-%.6f)" % (J, e.t0 / 1e9, e.t / 1e9, f.key, f.t0 / 1e9, f.t / 1e9))
                    elif f.t <= e.t0 and (et is None or et > e.t): v.bad("busy-cancelled", "job %s was reported as cancelled at %.6f although it was working on %s" % (J, e.t / 1e9, f.key))
                for r in rs:
                    if r.t > e.t + 200 * MS: v.bad("given-after-cancel", "job %s was reported as cancelled at %.6f but its runner started %s at %.6f" % (J, e.t / 1e9, r.key, r.t / 1e9))
                    elif r.t <= e.t0 and (r.exit_t is None or r.exit_t >= e.t) : v.bad("busy-cancelled", "job %s was reported as cancelled at %.6f although it was running %s" % (J, e.t / 1e9, r.key))
            elif want is not None and J in want["jobids"]:
                v.n("jobs not cancelled because they had work")
                held = any(f.t0 <= e.t and (f.end is None or f.end.t >= e.t0) for f in fs) or any(r.t - 2 * SEC <= e.t and (r.exit_t is None or r.exit_t + 2 * SEC >= e.t0) for r in rs)
                if not held: v.bad("idle-refused", "job %s was not marked as cancelled at %.6f although it held no task" % (J, e.t / 1e9))
        if want is not None:
            if not set(got) <= set(want["jobids"]): v.bad("answer", "asked to cancel %s, answered %s" % (want["jobids"], got))
            for J in set(want["jobids"]) - set(got):
                if J in ("7_77", "8_1"): v.bad("idle-refused", "job %s, of which nothing is known, was not marked as cancelled" % J)
    for c in h.calls:
        x = hung(h, c)
        if not x: late_return(h, v, c)
        if is_strict(h, c):
            if x: v.bad("hang", "session %s call %d never returned (%s)" % (c.s, c.n, x))
            elif c.eq is not None:
                v.n("calls judged next to cancellations")
                if c.exc: v.bad("exception", "session %s call %d raised %s" % (c.s, c.n, c.exc)); continue
                incomplete(h, v, c)
                for f in c.fakes:
                    if f.end and f.end.status == 404: v.bad("result-refused", "session %s: the result of %s from %s was refused" % (c.s, f.key, f.who))
                    fin = [y for y in c.fin if y.key == f.key]
                    if f.end and f.end.status == 200 and (len(fin) != 1 or fin[0].d["status"] != f.end.code): v.bad("result-wrong", "session %s: %s ended with %d, recorded %s" % (c.s, f.key, f.end.code, [y.d["status"] for y in fin]))
    return v
def sc_body(h, e): return getattr(e, "req", None)

# --------------------------------------------------------------------------- C18
def c18(h):
    v = V(h); D = 300 * MS
    for c in h.calls:
        if c.end is None: 
            x = hung(h, c)
            if x and is_strict(h, c): v.bad("hang", "session %s call %d never returned under a launch rate (%s)" % (c.s, c.n, x))
            continue
        s = c.sess; rl = c.spec.get("rl", 0)
        chg = sorted([(e.t0, e.t, _json.loads(e.req)["per_second"]) for e in h.https if e.tag == "ratelimit" and e.status == 200 and during(h, c, e.t0)])
        if any(e.tag == "ratelimit" and e.status != 200 and e.err != "connect" and during(h, c, e.t0) for e in h.https): continue
        segs = []; lo = c.bt; r = rl
        for t0, t1, x in chg: segs.append((lo, t0, r)); lo = t1; r = x
        segs.append((lo, c.end[1], r))
        L = [(x.t, x.key, x.remote.name if x.remote else "local") for x in c.runs] + [(f.t, f.key, f.who) for f in c.fakes]
        L.sort()
        W = s.np + (1 if s.np else 0) + len({f.who for f in c.fakes}) + len([a for a in h.sc.get("actors", []) if a["name"].startswith("f")]) + len(h.remotes)
        for lo, hi, r in segs:
            if r == 0: continue
            T = [x for x in L if lo <= x[0] <= hi]
            v.n("launches checked against a rate", len(T))
            for i in range(len(T)):
                bad = next((j for j in range(i, len(T)) if j - i + 1 > r * ((T[j][0] - T[i][0] + D) / 1e9) + r + W + 1), None)
                if bad is not None: v.bad("too-fast", "session %s call %d: %d tasks were launched within %.3f s at %.3f although the launch rate is %d per second (%d slots and runners)" % (c.s, c.n, bad - i + 1, (T[bad][0] - T[i][0]) / 1e9, T[i][0] / 1e9, r, W)); break
        # a change of the rate does not let through a burst of its own
        run = []
        for lo, hi, r in segs + [(0, 0, 0)]:
            if r: run.append((lo, hi, r)); continue
            if len(run) > 1:
                # the rate at every instant; while a change is under way, the higher one
                P = []
                for k, (a, b, x) in enumerate(run):
                    if k: P.append((run[k - 1][1], a, max(x, run[k - 1][2])))
                    P.append((a, b, x))
                T = [x for x in L if run[0][0] + D <= x[0] <= run[-1][1]]
                v.n("launches checked across changes of the rate", len(T))
                for i in range(len(T)):
                    bad = None; A = T[i][0] - D; acc = 0; k = 0; top = max([x for a, b, x in P if a <= A <= b] or [0])
                    for j in range(i, len(T)):
                        over = [(max(a, A), min(b, T[j][0]), x) for a, b, x in P if b >= A and a <= T[j][0]]
                        if j - i + 1 > max([top] + [x for _, _, x in over]) + sum((b - a) * x for a, b, x in over) / 1e9 + W + 1: bad = (j, [x for _, _, x in over]); break
                    if bad: v.bad("too-fast", "session %s call %d: %d tasks were launched within %.3f s at %.3f, across changes of the launch rate (%s per second, %d slots and runners)" % (c.s, c.n, bad[0] - i + 1, (T[bad[0]][0] - T[i][0]) / 1e9, T[i][0] / 1e9, bad[1], W)); break
            run = []
        if is_strict(h, c) and c.eq is not None:
            v.n("rate-limited calls judged for completion")
            if c.exc: v.bad("exception", "session %s call %d raised %s" % (c.s, c.n, c.exc)); continue
            incomplete(h, v, c)
            rs = [r for _, _, r in segs if r]
            n = len(L); need = 2 * n / min(rs) if rs else 0
            dur_ = sum(dur_of(s.tasks[k]) for _, k, _ in L) / 1e9
            susp = sum(f.get("f_ms", 0) for f in h.faults if f.get("do") == "suspend") / 1e3
            lim = need + dur_ + 12 + 3 * susp + .3 * n + (30 if h.remotes else 0) + 5 * len(c.fakes)     # the scripted runners take their time
            if (c.et - c.bt) / 1e9 > lim: v.bad("too-slow", "session %s call %d took %.1f s for %d tasks of %.1f s in all at a launch rate of %s per second" % (c.s, c.n, (c.et - c.bt) / 1e9, n, dur_, rs))
    return v

# --------------------------------------------------------------------------- C19
def c19(h):
    v = V(h); D = 60 * MS
    if h.meta.get("stalls") or any(f.get("do") in ("skew", "suspend", "stop", "slow") for f in h.faults): return v
    for c in h.calls:
        if c.sess is None: continue
        s = c.sess
        lim = limit_hit(h, c); hs = hard_stop(h, c); stop_t = hs[0] if hs else None
        if not stopped(h, c): stop_t = None
        elif stop_t is None and not acks(h, c, "soft"): stop_t = c.bt      # stopped in a way that is not acknowledged
        if lim: stop_t = min(stop_t or 10**18, min(f.tm for f in c.fin if f.d["status"] != 0))
        t0s = [e.t0 for e in h.https if e.tag in ("soft", "hard") and during(h, c, e.t0)]
        soft = acks(h, c, "soft")
        sp = [e for e in h.https if e.tag in ("status", "poll", "poll0", "far") and e.status == 200 and not e.err and c.bt <= e.t0 and (c.end is None or e.t <= c.end[1]) and h.call_at(c.ctl, e.q) is c]
        if not sp: continue
        info = {}     # key -> mask, R, Glo, Ghi, F
        for r in c.rdy:
            if r.key in s.tasks: info[r.key] = O(m=s.tasks[r.key].get("aff", 1), R=r.tm, lo=None, hi=None, F=None)
        for f in c.fin:
            if f.key in info: info[f.key].F = f.tm; info[f.key].lo = info[f.key].R; info[f.key].hi = f.tm
        for r in c.runs:
            if r.key in info: i = info[r.key]; i.hi = min(r.t, i.F or r.t); i.lo = max(i.R, r.t - (300 * MS if r.remote is None else 2 * SEC))
        for f in c.fakes:
            if f.key in info: i = info[f.key]; i.lo = max(i.R, f.t0); i.hi = f.t
        total = None; prev = None; cancels = any(e.tag == "cancel" for e in h.https)
        for e in sorted(sp, key=lambda e: e.q):
            try: st = _json.loads(e.body); q = {int(m): x for m, x in (st["queues"].items() if isinstance(st["queues"], dict) else st["queues"])}
            except (ValueError, KeyError, TypeError): v.bad("malformed", "status reply %r" % (e.body or "")[:200]); continue
            try: req = _json.loads(e.req); req = {k: int(req[k]) for k in ("etag", "timemin_ms", "timeout_ms")}
            except (ValueError, KeyError, TypeError): req = {"etag": 0, "timemin_ms": 0, "timeout_ms": 0}       # not understood: as if there were none
            if stop_t is not None and e.t >= stop_t - SEC: continue
            v.n("status reports checked")
            where = "status report %.6f-%.6f of session %s call %d: " % (e.t0 / 1e9, e.t / 1e9, c.s, c.n)
            if total is not None and st["num_total_tasks"] != total: v.bad("total", where + "%d tasks in all, before %d" % (st["num_total_tasks"], total))
            total = st["num_total_tasks"]
            if soft or any(t <= e.t for t in t0s):
                if soft and e.t0 > soft[0] + D:
                    v.n("status reports after a soft shutdown")
                    for m, x in q.items():
                        if x["num_ready"] != 0: v.bad("ready-after-soft", where + "queue %d reports %d ready tasks after the soft shutdown was acknowledged" % (m, x["num_ready"]))
                    for m in {i.m for i in info.values()}:
                        lo = sum(1 for i in info.values() if i.m == m and i.hi is not None and i.hi + D < e.t0 and (i.F is None or i.F > e.t + D)); hi = sum(1 for i in info.values() if i.m == m and i.lo is not None and i.lo <= e.t and (i.F is None or i.F >= e.t0 - D))
                        x = q.get(m, {}).get("num_inflight", 0)
                        if not lo <= x <= hi: v.bad("inflight", where + "queue %d reports %d tasks in flight instead of %d-%d" % (m, x, lo, hi))
                continue
            # a job that was cancelled while it waited puts the task back that it is handed
            gone = [x for x in h.https if x.status == 410 and x.t0 <= e.t]; ng = sum(1 for x in gone if x.t > e.t0 - 2 * D and x.t < e.t + 2 * D) if cancels else 0
            nr = sum(1 for i in info.values() if i.R <= e.t) + (len(gone) if cancels else 0); nl = sum(1 for i in info.values() if i.R + D < e.t0)
            nu = sum(1 for i in info.values() if i.R <= e.t + D)
            if not nl <= total - st["num_unready_tasks"] <= nu: v.bad("unready", where + "%d of %d tasks not yet ready instead of %d-%d" % (st["num_unready_tasks"], total, total - nu, total - nl))
            if not (1 if nl else 0) <= st["etag"] <= nr: v.bad("etag", where + "etag %d with %d tasks made ready" % (st["etag"], nr))
            for m in set(q) | {i.m for i in info.values()}:
                I = [i for i in info.values() if i.m == m]
                x = q.get(m, {"num_ready": 0, "num_inflight": 0})
                lo = sum(1 for i in I if i.R + D < e.t0 and (i.lo is None or i.lo > e.t + D)); hi = sum(1 for i in I if i.R <= e.t and (i.hi is None or i.hi >= e.t0 - D))
                if not lo - ng <= x["num_ready"] <= hi: v.bad("ready", where + "queue %d reports %d ready tasks instead of %d-%d" % (m, x["num_ready"], lo, hi))
                lo = sum(1 for i in I if i.hi is not None and i.hi + D < e.t0 and (i.F is None or i.F > e.t + D)); hi = sum(1 for i in I if i.lo is not None and i.lo <= e.t and (i.F is None or i.F >= e.t0 - D))
                if not lo <= x["num_inflight"] <= hi + ng: v.bad("inflight", where + "queue %d reports %d tasks in flight instead of %d-%d" % (m, x["num_inflight"], lo, hi + ng))
            for e2 in sp:
                if e2.t < e.t0:
                    j = _json.loads(e2.body)
                    if j["etag"] > st["etag"]: v.bad("etag-back", where + "etag %d, but an earlier report had %d" % (st["etag"], j["etag"])); break
            el = e.t - e.t0; tmin, tout = req["timemin_ms"] * MS, req["timeout_ms"] * MS
            if el + MS < tmin: v.bad("too-soon", where + "answered before the minimum time of %d ms" % req["timemin_ms"])
            if el > max(tmin, tout) + 500 * MS: v.bad("too-late", where + "answered %.3f s after the request (timeout %d ms, minimum %d ms)" % (el / 1e9, req["timeout_ms"], req["timemin_ms"]))
            if st["etag"] < req["etag"] and el + 5 * MS < tout: v.bad("poll-early", where + "answered with etag %d after %.3f s although %d was waited for, with a timeout of %d ms" % (st["etag"], el / 1e9, req["etag"], req["timeout_ms"]))
            # a report asked for with an etag that has been reached is not held back
            known = [e2 for e2 in sp if e2.t < e.t0 and _json.loads(e2.body)["etag"] >= req["etag"]]
            if (known or req["etag"] == 0) and el > tmin + 400 * MS: v.bad("held-back", where + "held back for %.3f s although etag %d had been reached" % (el / 1e9, req["etag"]))
            base_ = [e2 for e2 in sp if e2.t < e.t0 and _json.loads(e2.body)["etag"] == req["etag"] - 1]
            if base_:
                later = [i.R for i in info.values() if i.R > min(e2.t for e2 in base_)]      # its event comes after that report
                if later:
                    v.n("long polls judged")
                    w = max(min(later), e.t0, e.t0 + tmin)
                    if w < e.t0 + max(tout, tmin) and e.t > w + 500 * MS: v.bad("poll-missed", where + "a task became ready at %.6f but the report waiting for that came only %.3f s later" % (min(later) / 1e9, (e.t - w) / 1e9))
    return v

# --------------------------------------------------------------------------- C20
SLURM_RE = re.compile("CANCELLED|FAILED|ERROR")
def opt_of(args, name):
    return args[args.index(name) + 1] if name in args else None
def descendants(h, name):
    """pids of everything started, directly or not, by the given runner: {pid: (q, t)}"""
    pids = {r.pid: (r.q, r.t) for r in h.runs if r.by == name}
    more = True
    while more:
        more = False
        for g in h.spawned:
            if g.ppid in pids and g.pid not in pids: pids[g.pid] = (g.q, g.t); more = True
    return pids
def c20(h):
    v = V(h)
    text = {c.name: "".join(x[2] for x in h.outs.get((c.name, 1), [])) for c in h.ctls.values()}
    for name, R in h.remotes.items():
        runs = sorted([r for r in h.runs if r.by == name], key=lambda r: r.q)
        kills = [k for k in h.kills if k.p == name]
        hit = [f for f in h.faults if f.get("do") in ("kill", "sig", "stop", "host_down", "partition", "rst", "suspend", "skew", "slow") and (f.get("f_proc") == name or f.get("f_host") == R.host or R.host in (f.get("f_a"), f.get("f_b")) or f.get("f_proc") in h.ctls)]
        dead = any(f.get("do") in ("kill", "host_down") and f.get("f_proc") not in h.ctls for f in hit)
        disturbed = [f for f in hit if not (f.get("do") == "sig" and f.get("f_sig") == 10)]
        # 1. nobody outlives the runner
        if R.exit_q is not None and R.status != -9 and not dead:
            v.n("runner exits judged")
            for pid, (q, t) in descendants(h, name).items():
                x = h.exits.get(pid); v.n("descendants of runners checked")
                if x is None or x.q > R.exit_q: v.bad("outlived", "runner %s ended at %.3f but process %d, started on its behalf, %s" % (name, R.exit_t / 1e9, pid, "was still running" if x is None else "ended only at %.3f" % (x.t / 1e9)))
        # 2. time to end before the kill
        for k in kills:
            if k.sig != 9 or not k.to: continue
            v.n("kills by runners checked")
            terms = [y for y in kills if y.sig == 15 and y.to == k.to and y.q < k.q]
            if not terms or k.t - terms[0].t < 5 * SEC - 10 * MS: v.bad("kill-too-soon", "runner %s sent SIGKILL to %d %s" % (name, k.to, "without a SIGTERM before" if not terms else "%.3f s after its SIGTERM" % ((k.t - terms[0].t) / 1e9)))
        # 3. no more tasks
        X = [e.t for e in h.sigs if e.name == name and e.sig == 10 and e.handled]
        L = opt_of(R.args, "--max-time-accepting-tasks")
        if L is not None: X.append(R.t + int(L) * SEC)
        if X and not disturbed:
            x = min(X); v.n("runners told to accept no more tasks")
            for a, b_ in zip(runs, runs[1:]):
                if a.exit_t is not None and a.exit_t > x + 200 * MS: v.bad("took-another", "runner %s, which was to accept no tasks after %.3f, went from %s (ended %.3f) to %s" % (name, x / 1e9, a.key, a.exit_t / 1e9, b_.key))
            for f in [f for f in h.execfails if f.by == name and f.t > x + 200 * MS]:      # a command that could not be started ends at once
                late = [r for r in runs if r.q > f.q]; v.n("commands that could not be started after that")
                if late: v.bad("took-another", "runner %s, which was to accept no tasks after %.3f, failed to start %s at %.3f and then started %s" % (name, x / 1e9, f.file, f.t / 1e9, late[0].key)); break
            if runs and runs[-1].exit_t is not None and runs[-1].exit_t > x + 200 * MS:
                end = max([runs[-1].exit_t] + [h.exits[p].t for p, (q, t) in descendants(h, name).items() if p in h.exits])
                if (R.exit_t is None and h.end and h.end["t"] > end + 15 * SEC) or (R.exit_t is not None and R.exit_t > end + 12 * SEC): v.bad("lingers", "runner %s had ended its last task at %.3f but %s" % (name, end / 1e9, "never ended" if R.exit_t is None else "ended only at %.3f" % (R.exit_t / 1e9)))
        # 4. the deadline
        D = opt_of(R.args, "--duration")
        if D is not None and not disturbed:
            dl = R.t + (int(D) - (60 if int(D) > 120 else 0)) * SEC
            for r in runs:
                if r.call is None or hard_stop(h, r.call): continue
                end = r.exit_t if r.exit_t is not None else (h.end["t"] if h.end else 0)
                terms = [k for k in kills if k.to == r.pid and k.sig == 15]
                early = [k for k in terms if k.t < dl - 200 * MS]
                if early and r.exit_t is None or early and early[0].t < end - 50 * MS: v.bad("early-term", "runner %s sent SIGTERM to %s at %.3f, before its deadline at %.3f" % (name, r.key, early[0].t / 1e9, dl / 1e9)); continue
                due = max(dl, r.t)
                inrun = [k for k in terms if k.t <= end]
                if end < due + 2 * SEC and not inrun: continue
                v.n("tasks at a runner's deadline")
                if not inrun or inrun[0].t > due + 1500 * MS: v.bad("no-term", "runner %s: %s ran beyond the deadline at %.3f but %s" % (name, r.key, due / 1e9, "got no SIGTERM" if not inrun else "got its SIGTERM only at %.3f" % (inrun[0].t / 1e9)))
                elif len(inrun) > 1: v.bad("many-terms", "runner %s sent %d SIGTERMs to %s at its deadline" % (name, len(inrun), r.key))
                if inrun and r.exit_t is not None and r.call.eq is not None and r.exit_t + 5 * SEC < r.call.et:
                    fin = rec_of(r.call.fin, "Finished", r.key)
                    if fin is None or fin.d["status"] != r.code: v.bad("deadline-outcome", "runner %s: %s ended with %s after its deadline but is recorded with %s" % (name, r.key, r.code, fin.d["status"] if fin else None))
                    elif not acks(h, r.call, "soft") and "CANCELLED DUE TO TIME LIMIT" not in block_of(h, r.call, r.key): v.bad("deadline-message", "runner %s: the printed output of %s does not say that it was cancelled at the deadline" % (name, r.key))
                elif not inrun: pass
        # 5. the scheduler's error log
        P = opt_of(R.args, "--slurm-error-logfile")
        if P is not None and not disturbed:
            job = next((e[13:] for e in remote_env(h, name) if e.startswith("SLURM_JOB_ID=")), None)
            path = P.replace("%j", job or ""); acc = h.sc.get("files", {}).get(path, ""); X = None
            for f in h.faults:
                if f.get("do") == "append" and f.get("f_path") == path:
                    acc += f.get("f_text", "")
                    if SLURM_RE.search(acc): X = f["t"]; break
            if X is not None and X > R.t + 300 * MS:
                for r in runs:
                    if r.call is None or hard_stop(h, r.call) or not (r.t + 300 * MS < X and (r.exit_t is None or X + 100 * MS < r.exit_t or r.code == -15 and X <= r.exit_t)): continue
                    v.n("tasks at a message in the scheduler's log")
                    terms = [k for k in kills if k.to == r.pid and k.sig == 15]
                    if not terms or not X <= terms[0].t <= X + 1500 * MS: v.bad("slurm-no-term", "runner %s: %s got %s after the scheduler's message at %.3f" % (name, r.key, "no SIGTERM" if not terms else "its SIGTERM %.3f s" % ((terms[0].t - X) / 1e9), X / 1e9)); continue
                    fin = rec_of(r.call.fin, "Finished", r.key)
                    if r.call.eq is not None and r.call.et > X + 3 * SEC:
                        if fin is None or fin.d["status"] != -15: v.bad("slurm-outcome", "runner %s: %s was ended by the scheduler but is recorded with %s" % (name, r.key, fin.d["status"] if fin else None))
                        elif acc not in block_of(h, r.call, r.key) and not acks(h, r.call, "soft") and not any(f.get("do") == "append" and f.get("f_path") == path and f["t"] > X for f in h.faults): v.bad("slurm-message", "runner %s: the scheduler's message %r is not printed for %s" % (name, acc, r.key))
                    later = [y for y in runs if y.q > r.q]
                    if later: v.bad("slurm-took-another", "runner %s started %s after the scheduler had ended its job" % (name, later[0].key))
                    if R.exit_t is None and h.end and h.end["t"] > X + 30 * SEC: v.bad("slurm-lingers", "runner %s never ended after the scheduler's message at %.3f" % (name, X / 1e9))
            elif X is None:
                for r in runs:
                    for k in kills:
                        if k.to == r.pid and k.sig == 15 and k.t < (r.exit_t or 10**18) and r.call is not None and k.t < (r.call.end[1] if r.call.end else 10**18) - SEC and not hard_stop(h, r.call) and not limit_hit(h, r.call): v.bad("term-without-reason", "runner %s sent SIGTERM to %s at %.3f" % (name, r.key, k.t / 1e9))
        # 6. without its controller it ends
        cut = [f for f in h.faults if (f.get("do") == "kill" and f.get("f_proc") in h.ctls) or (f.get("do") == "partition" and "f_ms" not in f and R.host in (f.get("f_a"), f.get("f_b")))]
        if cut and not dead and not any(f.get("do") == "stop" for f in hit) and cut[0]["t"] > R.t:
            X = cut[0]["t"]
            if h.end and h.end["t"] > X + 90 * SEC:
                v.n("runners cut off from the controller")
                if R.exit_t is None or R.exit_t > X + 90 * SEC: v.bad("orphan-runner", "runner %s was cut off from its controller at %.3f but %s" % (name, X / 1e9, "never ended" if R.exit_t is None else "ended only at %.3f" % (R.exit_t / 1e9)))
    for c in h.calls:
        x = hung(h, c)
        if x and not h.meta.get("idle"): v.bad("hang", "session %s call %d never returned (%s)" % (c.s, c.n, x))
    return v
def remote_env(h, name):
    def find(ops):
        for o in ops:
            if o[0] == "remote" and o[1].get("name") == name: return ["%s=%s" % kv for kv in o[1].get("env", {}).items()]
        return []
    for p in h.sc.get("programs", {}).values():
        x = find(p.get("ops", []))
        if x: return x
    return []
def block_of(h, c, key):
    """What is printed for a task: from its line to the line of the next finished task."""
    text = b"".join(x[2].encode("latin-1") for x in h.outs.get((c.ctl, 1), []) if c.bq < x[0] and (c.eq is None or x[0] < c.eq)).decode("utf-8", "replace")
    disp = display_of(c.sess.tasks[key]) + "\n"; i = text.find(disp)
    if i < 0: return ""
    i += len(disp); ends = [len(text)]
    for f in c.fin:
        if f.key != key and f.key in c.sess.tasks:
            j = text.find(display_of(c.sess.tasks[f.key]) + "\n", i)
            if j >= 0: ends.append(j)
    return text[i:min(ends)]

# --------------------------------------------------------------------------- C21
def view(recs, mode):
    """Reference model of the views of a log, on (type, key, whole) triples in file order."""
    if mode == "all": return recs
    last = max((i for i, r in enumerate(recs) if r[0] == "Header"), default=None)
    cut = 0 if last is None else last
    cur = {i for i in range(cut, len(recs)) if recs[i][0] != "Backref"}
    refs = {r[1] for r in recs[cut:] if r[0] == "Backref"}
    for k in refs:
        for i in range(cut - 1, -1, -1):
            if recs[i][1] != k or recs[i][0] == "Backref": continue
            cur.add(i)
            if recs[i][0] == "Ready": break
    keys = {recs[i][1] for i in cur if recs[i][0] != "Header"}
    current = [recs[i] for i in sorted(cur, key=lambda i: (i != last, i))]
    outdated = [r for i, r in enumerate(recs[:cut]) if i not in cur and (r[0] == "Header" or r[1] not in keys)]
    return current if mode == "current" else outdated if mode == "outdated" else [current, outdated]
def c21(h):
    v = V(h)
    for l in h.loads:
        ops_ = [o for o in h.opens if getattr(o, "path", None) == l.log and getattr(o, "p", None) == l.ctl and o.q < l.q]
        q0 = ops_[-1].q if ops_ else l.q
        f = h.log(l.log)
        if not f.events:
            continue       # nobody has written yet
        cuts = sorted({q0, l.q} | {q + 1 for q, _ in f.events if q0 <= q < l.q} | {q + 1 for q, _, _ in f.ops if q0 <= q < l.q})
        if h.content_at(l.log, cuts[0]) == b"" and l.err: continue
        v.n("views of a log checked")
        if len(cuts) > 2: v.n("views taken while the log was being written")
        if l.err: v.bad("load-failed", "load_logfile(%s, %s) at %.6f failed: %s" % (l.log, l.mode, l.t / 1e9, l.err)); continue
        got = l.r; ok = False; want = None
        for q in cuts:
            lines = h.content_at(l.log, q).split(b"\n"); tail = lines.pop(); recs = []
            for x in lines:
                try: recs.append(_json.loads(x))
                except ValueError: pass
            opts = [recs]
            try: opts.append(recs + [_json.loads(tail)])
            except ValueError: pass
            for rr in opts:
                try: tri = [(t, d.get("key"), _normj({t: d})) for j in rr for t, d in j.items()]
                except AttributeError: continue
                want = view(tri, l.mode)
                w = [[x[2] for x in p] for p in want] if l.mode == "current,outdated" else [x[2] for x in want]
                g = [[_normj(j) for j in p] for p in got] if l.mode == "current,outdated" else [_normj(j) for j in got]
                if w == g: ok = True; break
            if ok: break
        if ok:
            if any(t[0] == "Backref" for t in tri): v.n("views with reused results")
            continue
        a, b_ = (sum(w, []), sum(g, [])) if l.mode == "current,outdated" else (w, g)
        extra = [x for x in b_ if x not in a]; miss = [x for x in a if x not in b_]
        v.bad("wrong-view", "load_logfile(%s, %s) at %.6f: %d records instead of %d; missing %s, not expected %s" % (l.log, l.mode, l.t / 1e9, len(b_), len(a), str(miss[:2])[:150], str(extra[:2])[:150]))
    # a log made out of a view means the same
    for p in h.pyother:
        if isinstance(p.d, dict) and p.d.get("ev") in ("copied", "copy_err"):
            d = p.d; v.n("views written to another log")
            if d["ev"] == "copy_err": v.bad("copy-failed", "writing the %s view of %s to %s failed: %s" % (d["mode"], d["log"], d["to"], d["d"])); continue
            want = [_normj(j) for j in d["entries"]]
            got = [_norm(r) for r in h.recs(d["to"]) if r.q <= p.q]
            if got != want: v.bad("copy-differs", "%s holds %d records instead of the %d of the %s view of %s" % (d["to"], len(got), len(want), d["mode"], d["log"]))
    return v

# --------------------------------------------------------------------------- C22
def c22(h):
    v = V(h)
    for c in h.calls:
        s = c.sess; end = c.end[0] if c.end else 10**18
        def mine(x): return x.p == c.ctl and c.bq < x.q < end and x.key in s.tasks
        pre = {}; post = {}
        for x in h.pres:
            if mine(x): pre.setdefault(x.key, []).append(x)
        for x in h.posts:
            if mine(x): post.setdefault(x.key, []).append(x)
        clean = c.eq is not None and not c.exc
        where = "session %s call %d: " % (c.s, c.n)
        ctlpid = h.ctls[c.ctl].pid
        if h.meta.get("pp_bad"):
            if any(b.exc for b in s.calls if b.n < c.n): continue      # what it recorded is written with the records of this call
            x = hung(h, c)
            if x: v.bad("hang", where + "execute() did not return (%s) after a hook had failed" % x); continue
            bad = [(k, x) for k, xs in post.items() if s.tasks[k].get("post_rc") for x in xs]
            if bad:
                v.n("failing postambles judged")
                if c.eq is not None and not c.exc: v.bad("post-ignored", where + "the postamble of %s failed, but execute() returned %s" % (bad[0][0], c.ret))
                if c.eq is not None and c.et > bad[0][1].t + 10 * SEC: v.bad("late-return", where + "execute() ended %.1f s after the postamble of %s had failed" % ((c.et - bad[0][1].t) / 1e9, bad[0][0]))
            elif c.exc and not hard_stop(h, c): v.bad("exception", where + "raised %s" % c.exc)
        for k, t in s.tasks.items():
            P, Q = pre.get(k, []), post.get(k, [])
            if t.get("pre") and t.get("pre_rc"):
                if any(r.key == k and r.q < end for r in c.runs) or any(f.key == k for f in c.fakes): v.bad("ran-without-preamble", where + "%s was started although its preamble had failed" % k)
                if P and clean:
                    fk = [f for f in c.fin if f.key == k]; v.n("failing preambles judged")
                    if len(fk) != 1 or fk[0].d["status"] != -1: v.bad("pre-ignored", where + "the preamble of %s failed, but the task is recorded as %s" % (k, [f.d["status"] for f in fk]))
                    for d in s.order:
                        if k in deps_of(s, d) and any(r.key == d and r.q < end for r in c.runs): v.bad("dependent-ran", where + "%s was started although the preamble of %s, on which it depends, had failed" % (d, k))
            runs = [r for r in c.runs if r.key == k and r.q < end]; fins = [f for f in c.fin if f.key == k]; sts = [f for f in c.strt if f.key == k]
            for x in P + Q:
                if x.pid != ctlpid: v.bad("elsewhere", where + "a hook of %s was called in process %d" % (k, x.pid))
            if P and not t.get("pre") or Q and not t.get("post"): v.bad("not-asked-for", where + "%s has no such hook" % k)
            if t.get("pre"):
                if len(P) > 1: v.bad("pre-repeated", where + "the preamble of %s was called %d times" % (k, len(P)))
                if P: v.n("preambles judged")
                for r in runs:
                    if not P or P[0].q > r.q: v.bad("pre-missing", where + "%s was started before its preamble" % k if P else where + "%s was started without its preamble" % k)
                for f in fins + sts:
                    if not P or P[0].t > f.tm: v.bad("pre-missing", where + "%s is recorded as %s, but its preamble %s" % (k, f.ty, "came later" if P else "was never called"))
                for f in c.fakes:
                    if f.key == k and (not P or P[0].t > f.t): v.bad("pre-missing", where + "%s was handed out before its preamble" % k)
                if P and clean and not c.spec.get("prov") and not hard_stop(h, c) and not runs and not fins: v.bad("pre-for-nothing", where + "the preamble of %s was called but the task was never started" % k)
                if P and k in s.succ0: v.bad("pre-for-reused", where + "the preamble of %s was called although its result is reused" % k)
            if t.get("post"):
                if len(Q) > 1 and len(Q) > len(fins): v.bad("post-repeated", where + "the postamble of %s was called %d times" % (k, len(Q)))
                if clean and len(Q) != len(fins): v.bad("post-missing", where + "the postamble of %s was called %d times, the task finished %d times" % (k, len(Q), len(fins)))
                for x, f in zip(Q, fins):
                    v.n("postambles judged")
                    rd = [r for r in c.rdy if r.key == k]
                    if bool(x.ok) != (f.d["status"] == 0): v.bad("post-status", where + "the postamble of %s was told %s, the task is recorded with %d" % (k, "success" if x.ok else "failure", f.d["status"]))
                    if rd and x.rc != rd[0].d["runcount"]: v.bad("post-runcount", where + "the postamble of %s was given run count %d instead of %d" % (k, x.rc, rd[0].d["runcount"]))
                    if x.lost: v.bad("post-lost", where + "the postamble of %s was told that the task was lost" % k)
                    if P and P[0].q > x.q: v.bad("post-before-pre", where + "the postamble of %s came before its preamble" % k)
                    if runs and f.d["status"] == runs[0].code and f.d["status"] == 0 and (runs[0].exit_q is None or runs[0].exit_q > x.q): v.bad("post-early", where + "the postamble of %s came before the task had ended" % k)
            else:
                if Q: v.bad("not-asked-for", where + "%s has no postamble" % k)
            # what depends on the task sees its postamble done
            st = min([r.q for r in runs] + [x.q for x in P] + [10**18])
            if st < 10**18:
                for d in deps_of(s, k):
                    if s.tasks[d].get("post") and any(f.key == d for f in c.fin):
                        v.n("orders of postamble and dependent judged")
                        if not post.get(d) or post[d][0].q > st: v.bad("dependent-before-post", where + "%s was started before the postamble of %s, on which it depends" % (k, d))
    return v

# --------------------------------------------------------------------------- C23
def c23(h):
    v = V(h)
    hard = bool(h.meta.get("disk_faults"))
    for c in h.calls:
        s = c.sess
        x = hung(h, c)
        if x: v.bad("hang", "session %s call %d never returned (%s)" % (c.s, c.n, x)); continue
        if c.eq is None:
            if not hard and h.ctls[c.ctl].status not in (0, None): v.bad("died", "controller %s died with status %s" % (c.ctl, h.ctls[c.ctl].status))
            continue
        if c.exc:
            if not hard: v.bad("exception", "session %s call %d raised %s although no data was lost" % (c.s, c.n, c.exc))
            else: v.n("calls that reported a disk error")
            continue
        v.n("calls that returned normally")
        recs = [r for r in h.recs(s.log) if r.q < c.eq and r.sess is s]
        for r in c.runs:
            for ty in ("Ready", "Started", "Finished"):
                if not any(x.ty == ty and x.key == r.key for x in recs): v.bad("lost-record", "session %s call %d returned normally although the %s record of %s is not in the log" % (c.s, c.n, ty, r.key))
        for k in c.ret[1]:
            if not any(x.ty == "Finished" and x.key == k for x in recs): v.bad("lost-record", "session %s call %d returned %s as done although its result is not in the log" % (c.s, c.n, k))
    for s in h.sesslist:
        f = h.log(s.log)
        if s.err and not hard: v.bad("open-failed", "session %s: %s" % (s.s, s.err))
    for path, f in h.files.items():
        if not path.endswith(".log"): continue
        for q, line in f.bad: v.bad("torn-record", "%s contains a line that is not a record: %r" % (path, line[:120]))
        last = {}
        for r in f.recs:
            # what is written follows on what was written before: no record is left out
            if r.ty in ("Started", "Finished") and last.get(r.key) != {"Started": "Ready", "Finished": "Started"}[r.ty]: v.bad("left-out", "%s has a %s record of %s after %s" % (path, r.ty, r.key, last.get(r.key, "none")))
            if r.ty in ("Ready", "Started", "Finished", "Backref"): last[r.key] = r.ty
            if r.ty != "Finished": continue
            v.n("results in the log compared with what happened")
            rs = [x for x in h.runs if x.key == r.key and x.exit_q is not None and x.exit_q < r.q]
            if r.d["status"] == 0 and not any(x.code == 0 for x in rs): v.bad("false-success", "%s records the success of %s, which never succeeded" % (path, r.key))
    # once the disk works again, everything is as it should be
    hardctl = {f.get("proc") for f in h.sc.get("faults", [])}
    for c in h.calls:
        s = c.sess
        if c.ctl in hardctl: continue
        v.n("calls on a healthy disk afterwards")
        if s.err or c.exc: v.bad("later-session-failed", "session %s call %d failed afterwards: %s" % (c.s, c.n, s.err or c.exc))
        elif c.eq is not None:
            exp = expected(h, s, c)
            for k, e in exp.items():
                a = attempted(h, c, k)
                if e and not a: v.bad("later-not-run", "session %s call %d: %s was not run" % (c.s, c.n, k))
                if not e and a and k in s.succ0: v.bad("later-run-again", "session %s call %d: %s was run again" % (c.s, c.n, k))
    for s in h.sesslist:
        if s.err and s.ctl not in hardctl: v.bad("later-session-failed", "session %s cannot open the log afterwards: %s" % (s.s, s.err))
    return v

# --------------------------------------------------------------------------- C24
def c24(h):
    v = V(h)
    seen = {}
    for r in h.runs:
        s = r.sess
        t = s.tasks.get(r.key) if s else None
        if t is None: continue
        v.n("tasks whose descriptors were checked")
        fds = {int(k): x for k, x in r.fds.items()}
        want = {0, 1, 2, 3} | ({t["fd"][0]} if "fd" in t else set())
        if set(fds) != want: v.bad("descriptors", "%s was started with descriptors %s instead of %s" % (r.key, {k: fds[k] for k in sorted(fds)}, sorted(want)))
        pipes = {}
        for n, x in fds.items():
            if x.startswith("pipe"):
                kind, pid_ = x.split(":")[0], x.split(":")[1]
                if (pid_ in pipes) or (pid_ in seen): v.bad("shared-pipe", "%s shares the pipe on its descriptor %d with %s" % (r.key, n, seen.get(pid_, r.key)))
                pipes[pid_] = n
                if n in (1, 2, 3) and kind != "pipew" or n not in (1, 2, 3) and kind != "piper": v.bad("pipe-direction", "%s has the wrong end of a pipe on descriptor %d (%s)" % (r.key, n, x))
            elif x.startswith("console"):
                if not r.by in h.ctls or n > 2: v.bad("console", "%s has %s on descriptor %d" % (r.key, x, n))
            elif n == 0 and x == "null": pass
            else: v.bad("descriptor-kind", "%s was started with %s on descriptor %d" % (r.key, x, n))
        for p in pipes: seen[p] = r.key
        con = [n for n in (0, 1, 2) if fds.get(n, "").startswith("console")]
        if con and len(con) != 3: v.bad("console", "%s has the console on descriptors %s only" % (r.key, con))
    for p in h.provs:
        v.n("provisioners whose descriptors were checked")
        fds = {int(k): x for k, x in p.fds.items()}
        if set(fds) != {0, 1, 2}: v.bad("descriptors", "the provisioner was started with descriptors %s" % fds)
    return v

# --------------------------------------------------------------------------- C25
def c25(h):
    v = V(h); import re
    binds = [b_ for b_ in h.binds if b_.e == "bindun"]; SETTLE = 1 * SEC
    path_of = lambda ctl: "/run/user/0/wrk-%d.sock" % h.ctls[ctl].pid
    rms = {}
    for u in h.unlinks: rms.setdefault(u.path, []).append(u)
    for c in h.calls:
        if not c.spec.get("prov") or h.meta.get("bind_faults"): continue
        p = path_of(c.ctl); where = "session %s call %d: " % (c.s, c.n)
        b_ = [x for x in binds if x.path == p and x.q > c.bq and (c.end is None or x.q < c.end[0])]
        if c.eq is not None and not c.exc:
            v.n("admin sockets of calls checked")
            life = c.et - c.bt
            if not b_:
                if life > SETTLE: v.bad("no-socket", where + "no admin socket at %s" % p)
            else:
                gone = [u for u in rms.get(p, []) if u.q > b_[-1].q and u.q < c.eq]
                if not gone: v.bad("left-behind", where + "its admin socket %s was still there when it returned" % p)
                elif len(gone) == 1 and gone[0].p == c.ctl and c.et - gone[0].t > 6 * SEC and not stopped(h, c) and not limit_hit(h, c) and not any(r.exit_t is None or r.exit_t > gone[0].t - SEC for r in c.runs): v.bad("removed-early", where + "its admin socket was removed %.1f s before it returned" % ((c.et - gone[0].t) / 1e9))
        # leftovers of processes that are gone
        if b_ and (c.end is None or c.end[1] > b_[0].t + SETTLE) and not h.meta.get("stalls"):
            T = b_[0].t
            for x in h.sc.get("stale_socks", []):
                m = re.fullmatch(r"/run/user/0/wrk-(\d+)\.sock", x)
                if not m or x == p: continue
                live = any(cc.pid == int(m.group(1)) and cc.t <= T + SETTLE and (cc.exit_t is None or cc.exit_t >= T) for cc in list(h.ctls.values())) or any(int(m.group(1)) == r.pid for r in h.runs) or any(int(m.group(1)) == q_.pid for q_ in h.provs) or int(m.group(1)) in h.procs or int(m.group(1)) in h.exits or any(int(m.group(1)) == a_["pid"] for a_ in h.alive)
                if live: continue
                v.n("stale sockets checked")
                if not any(u.t <= T + SETTLE for u in rms.get(x, [])): v.bad("stale-kept", where + "%s of a process that is gone was not removed" % x)
    # nobody removes the socket of a call that is under way, or other files
    for pth, us in rms.items():
        if not pth.startswith("/run/user/0/"): continue
        m = re.fullmatch(r"/run/user/0/wrk-(\d+)\.sock", pth)
        for u in us:
            v.n("removals checked")
            if not m:
                v.bad("foreign-removed", "%s removed %s" % (u.p, pth)); continue
            own = [cc for cc in h.ctls.values() if cc.pid == int(m.group(1))]
            if own and own[0].name != u.p and own[0].q < u.q and (own[0].exit_q is None or own[0].exit_q > u.q):
                if any(b_.path == pth and b_.q < u.q for b_ in binds): v.bad("live-removed", "%s removed the admin socket of %s, which was still running" % (u.p, own[0].name))
    # settings
    for c in h.calls:
        if c.end is None: ce = 10**18
        else: ce = c.end[1]
        sets = {"ratelimit": [], "provisioner_info": []}
        for e in h.https:
            if not (e.tag in ("ratelimit", "info") or e.tag == "abad" and e.path == "/provisioner_info" and e.req == "{}") or not during(h, c, e.t0) or e.err == "connect": continue
            if "c%s" % c.ctl[1:] != getattr(e, "un", c.ctl) and getattr(e, "un", None): continue
            try: b_ = _json.loads(e.req)
            except (ValueError, TypeError): continue
            if e.p != "a" + c.ctl[1:] : continue
            sets["ratelimit" if e.tag == "ratelimit" else "provisioner_info"].append((e, b_["per_second"] if e.tag == "ratelimit" else b_.get("provisioner_info")))      # left out, it is null
            if e.status not in (200, None) and len(h.calls) and e.t < ce - SEC: v.bad("setting-refused", "session %s call %d: POST %s was answered with %s" % (c.s, c.n, e.path, e.status))
        for e in h.https:
            if e.status != 200 or e.err or not (e.tag in ("ratelimit", "info", "astatus") and e.p == "a" + c.ctl[1:] or e.tag in ("status", "poll", "poll0", "far") and len(h.sc["controllers"]) == 1): continue
            if not (c.bt <= e.t0 and e.t <= ce): continue
            try: st = _json.loads(e.body)
            except (ValueError, TypeError): v.bad("malformed", "status reply %r" % (e.body or "")[:100]); continue
            for name, init in (("ratelimit", c.spec.get("rl", 0)), ("provisioner_info", c.spec.get("info"))):
                S = sets[name]
                done = [x for x in S if x[0].t < e.t0 or x[0] is e]
                open_ = [x for x in S if x[0] is not e and x[0].t0 < e.t and x[0].t >= e.t0]
                done.sort(key=lambda x: x[0].t0)
                ok = {_json.dumps(x[1]) for x in open_}
                lastdone = [x for x in done if not any(y[0].t0 > x[0].t for y in done)]
                ok |= {_json.dumps(x[1]) for x in lastdone} if done else {_json.dumps(init)}
                v.n("reported settings checked")
                if _json.dumps(st[name]) not in ok: v.bad("setting", "session %s call %d: the report at %.6f has %s %s instead of %s" % (c.s, c.n, e.t / 1e9, name, str(st[name])[:40], str(sorted(ok))[:80]))
    return v

# --------------------------------------------------------------------------- C26
def c26(h):
    v = V(h)
    scarce = any("max_fds" in c for c in h.sc["controllers"])
    for c in h.calls:
        s = c.sess; where = "session %s call %d: " % (c.s, c.n)
        x = hung(h, c)
        if x: v.bad("hang", where + "never returned (%s)" % x); continue
        if c.eq is None: v.bad("died", where + "the process died (%s)" % h.ctls[c.ctl].status); continue
        if c.exc:
            if not scarce: v.bad("exception", where + "raised %s" % c.exc)
            continue
        fired = [f for f in h.faults if f.get("call") in ("pipe", "fork", "exec") and c.bq < f["q"] < c.eq]
        lost = 0; bad = 0
        for k in closure(s, c):
            t = s.tasks[k]
            rec = [r for r in s.recs if r.key == k and c.bq < r.q < c.eq]
            tys = [r.ty for r in rec if r.ty != "Backref"]
            runs = [r for r in c.runs if r.key == k]
            fin = [r for r in rec if r.ty == "Finished"]
            earlier = any(r.ty == "Finished" and r.key == k and r.sess is s and r.q < c.bq for r in s.recs)
            done = k in s.succ0 or (k in s.fail0 and not s.spec.get("rr")) or earlier
            blocked = any(d in closure(s, c) and not (d in s.succ0 or any(r.ty == "Finished" and r.key == d and r.d["status"] == 0 and r.sess is s and r.q < c.eq for r in s.recs)) for d in deps_of(s, k))
            if done or blocked:
                if runs or tys: v.bad("wrongly-run", where + "%s was run (%s)" % (k, tys))
                continue
            v.n("tasks judged")
            if tys != ["Ready", "Started", "Finished"]: v.bad("records", where + "the records of %s are %s" % (k, tys)); continue
            if k not in c.ret[1]: v.bad("missing-key", where + "%s is not among the returned keys" % k)
            st = fin[0].d["status"]
            if st != 0: bad += 1
            if runs:
                if st != (runs[0].code if runs[0].code is not None else st): v.bad("status", where + "%s ended with %s and is recorded with %s" % (k, runs[0].code, st))
                if k not in s.tasks or spawn_fails(s, k): v.bad("status", where + "%s should not have started" % k)
            else:
                if t.get("fd", [0])[0] == 3 or spawn_fails(s, k): pass
                else: lost += 1; v.n("tasks that could not be started")
                if st != -1: v.bad("status", where + "%s could not be started and is recorded with %s" % (k, st))
        if lost > len(fired) and not scarce: v.bad("lost", where + "%d tasks were not started although only %d calls failed" % (lost, len(fired)))
        if c.ret[0] != bad: v.bad("count", where + "returned %d failures instead of %d" % (c.ret[0], bad))
    return v

# --------------------------------------------------------------------------- C27
def levels(s, keys):
    """Length of the longest chain of dependencies above each task."""
    lv = {}
    def f(k):
        if k not in lv: lv[k] = max([1 + f(d) for d in deps_of(s, k)] or [0])
        return lv[k]
    for k in keys: f(k)
    return lv
def c27(h):
    v = V(h)
    if h.meta.get("stalls") or any(f.get("do") in ("skew", "suspend", "stop", "slow") for f in h.faults) or any(e.tag == "cancel" for e in h.https): return v
    for c in h.calls:
        s = c.sess
        if c.sess is None: continue
        aff = lambda k: s.tasks[k].get("aff", 1)
        ready = {}
        for r in c.rdy: ready.setdefault(r.key, r.tm)
        lv = levels(s, [k for k in ready if k in s.tasks]); lv = {k: x for k, x in lv.items() if k in ready}
        picks = []            # key, queue, the time it was picked lies between lo and hi
        for r in c.runs:
            if r.key not in lv: continue
            q = remote_queue(h, r.remote.name) if r.remote is not None else 1 if is_console(r) else 0
            if q is not None: picks.append((r.key, q, r.t - (300 * MS if r.remote is None else 2 * SEC), r.t))
        for f in c.fakes:
            q = remote_queue(h, f.who)
            if q is not None and f.key in lv: picks.append((f.key, q, f.t0, f.t))
        when = {}
        for k, q, lo, hi in picks: when[k] = min(lo, when.get(k, lo))
        for k, q, lo, hi in picks:
            v.n("dispatches checked"); lo = max(lo, ready[k])
            for k2 in lv:
                if k2 == k or lv[k2] <= lv[k] or not aff(k2) >> q & 1 or k2 not in when: continue
                if ready[k2] + 60 * MS < lo and when[k2] > hi:
                    v.bad("order", "session %s call %d: %s (depth %d) was given out by %.6f although %s (depth %d), ready since %.6f, was waiting in the same queue" % (s.s, c.n, k, lv[k], hi / 1e9, k2, lv[k2], ready[k2] / 1e9))
                elif ready[k2] + 60 * MS < lo: v.n("choices between tasks judged")
            for k2 in lv:
                if lv[k2] < lv[k] and aff(k2) >> q & 1 and ready[k2] + 60 * MS < lo and when.get(k2, 0) > hi: v.n("choices between tasks judged")
    return v

# --------------------------------------------------------------------------- C28
def c28(h):
    v = V(h)
    by = {}
    for o in h.pyother:
        if o.d.get("ev") in ("bad", "look"): by.setdefault(o.d["s"], []).append(o)
    for s in h.sesslist:
        order = sorted(s.adds.values(), key=lambda a: a.q); seen = {}
        for a in order:
            if a.key in seen: continue
            seen[a.key] = a.id
            if a.id != len(seen) - 1: v.bad("id", "session %s: %s, the task number %d, was given the id %d" % (s.s, a.key, len(seen) - 1, a.id))
        for o in by.get(s.s, []):
            d = o.d
            if d["ev"] == "look":
                v.n("views of the graph checked")
                want = [a.key for a in order if a.q < o.q]
                if d["keys"] != want or d["n"] != len(want): v.bad("keys", "session %s: the graph has %d tasks %s instead of %s" % (s.s, d["n"], d["keys"], want))
                elif d["wrong"]: v.bad("task", "session %s: get_task(%d) is not what was added" % (s.s, d["wrong"][0]))
                continue
            v.n("calls that have to be refused")
            if d["after"] != d["n"]: v.bad("grew", "session %s: a refused call (%s) changed the number of tasks from %d to %d" % (s.s, d["kind"], d["n"], d["after"]))
            if d["kind"] == "again":
                if d["d"] or d["r"] != d["id"]: v.bad("again", "session %s: adding the key %s again returned %s (%s) instead of %d" % (s.s, d["key"], d["r"], d["d"], d["id"]))
            elif d["d"] is None: v.bad("accepted", "session %s: a call that makes no sense (%s) was accepted" % (s.s, d["kind"]))
        if [e for e in h.adderrs if e.s == s.s]: v.bad("refused", "session %s: a proper task was refused: %s" % (s.s, [e.d for e in h.adderrs if e.s == s.s][0]))
    for c in h.calls:
        if hung(h, c): v.bad("hang", "session %s call %d never returned" % (c.s, c.n)); continue
        if c.eq is None or not is_strict(h, c): continue
        v.n("calls next to refused ones judged")
        if c.exc: v.bad("exception", "session %s call %d raised %s" % (c.s, c.n, c.exc))
        else: incomplete(h, v, c)
    return v

# --------------------------------------------------------------------------- C29
def c29(h):
    v = V(h); import re
    if h.meta.get("stalls") or any(f.get("do") in ("skew", "suspend", "stop", "slow", "partition", "rst", "host_down", "kill") for f in h.faults): return v
    listens = [b_ for b_ in h.binds if b_.e == "listen" and getattr(b_, "port", None)]
    port_of = lambda p: int(p.argv[1].rsplit(":", 1)[1]) if len(p.argv) > 1 and re.fullmatch(r"http://[0-9.]+:\d+", p.argv[1]) else None
    tok = lambda p: next((e.split("=", 1)[1] for e in p.env if e.startswith("EXECGRAPH_AUTHORIZATION_TOKEN=")), None)
    seen = {}; life = {}
    for c in h.calls:
        if c.sess is None: continue
        ps = sorted((p for p in h.provs if p.by == c.ctl and p.q > c.bq and (c.end is None or p.q < c.end[0])), key=lambda p: p.q); where = "session %s call %d: " % (c.s, c.n)
        if not c.spec.get("prov"):
            if ps: v.bad("started", where + "a provisioner was started although none was asked for")
            continue
        v.n("calls with a provisioner judged")
        if len(ps) > 1: v.bad("started", where + "%d provisioners were started" % len(ps))
        real = c.spec["prov"] in h.sc["programs"]
        if real and c.eq is not None and not c.exc and not ps and (c.runs or c.fakes or is_strict(h, c) and c.fin): v.bad("started", where + "tasks were run but the provisioner was not started")
        if not real and c.end is None and hung(h, c): v.bad("hang", where + "execute did not return although its provisioner could not be started (%s)" % hung(h, c))
        for p in ps:
            P = port_of(p); T = tok(p)
            if P is None: v.bad("address", where + "the provisioner was started with the arguments %s" % (p.argv[1:],)); continue
            ls = [b_ for b_ in listens if b_.port == P and b_.p == c.ctl and c.bq < b_.q < p.q]
            if not ls: v.bad("address", where + "the provisioner was told port %d, which the call does not listen on" % P)
            if not T or len(T) < 16: v.bad("secret", where + "the provisioner was given the secret %r" % (T,))
            elif T in seen: v.bad("secret", where + "the provisioner was given the same secret as that of %s" % seen[T])
            else: seen[T] = where[:-2]
            sig = [k for k in h.kills if k.p == c.ctl and (k.to == p.pid or getattr(k, "pgrp", None)) and k.q > p.q]
            K = min([(k.q, k.t) for k in sig] + [(p.exit_q, p.exit_t)] * (p.exit_q is not None) + [(10**15, 10**18)])
            life[P] = life.get(P, []) + [(p, K, c)]
            own = prov_ends(h, c)
            if c.end is not None and c.eq is not None:
                v.n("provisioners at the end of their call")
                if p.exit_q is None or p.exit_q > c.eq: v.bad("left-running", where + "the provisioner (process %d) %s when execute had returned" % (p.pid, "was still running" if p.exit_q is None else "ended only %.3f s after" % ((p.exit_t - c.et) / 1e9)))
            if p not in own and is_strict(h, c) and not h.meta.get("limit"):
                v.n("interrupts of provisioners judged")
                for r in c.runs:
                    if r.q > K[0] or (r.exit_q is None or r.exit_q > K[0]): v.bad("ended-early", where + "the provisioner was told to end at %.6f, while %s ran or before it was started" % (K[1] / 1e9, r.key)); break
    for e in h.https:
        P = getattr(e, "port", 0)
        if not P: continue
        if e.tag.startswith("tok."):
            if e.status is not None:
                v.n("requests with another call's secret")
                if e.status < 400: v.bad("foreign-secret", "%s with another secret was answered with %d by the server at port %d" % (e.path, e.status, P))
            continue
        for p, K, c in life.get(P, []):
            if e.t0 > p.t and e.t + 300 * MS < K[1]:
                v.n("requests while the provisioner lived")
                if e.status != 200: v.bad("unreachable", "session %s call %d: a request at %.6f to the server was answered with %s" % (c.s, c.n, e.t0 / 1e9, e.status or e.err))
            if c.eq is not None and e.t0 > c.et and not any(b_.port == P and c.eq < b_.q for b_ in listens):
                v.n("requests after the return")
                if e.status is not None: v.bad("still-served", "session %s call %d had returned at %.6f but a request at %.6f was answered with %d" % (c.s, c.n, c.et / 1e9, e.t0 / 1e9, e.status))
                elif e.err != "connect" and not getattr(h.ctls[c.ctl], "exit_t", None): v.bad("still-open", "session %s call %d had returned at %.6f but a connection made at %.6f was accepted (%s)" % (c.s, c.n, c.et / 1e9, e.t0 / 1e9, e.err))
    return v

# --------------------------------------------------------------------------- C30
def gaps(busy, lo, hi, n):
    """Maximal parts of [lo, hi] during which fewer than n of the given intervals are open."""
    ev = sorted([(max(a, lo), 1) for a, b_ in busy if b_ > lo and a < hi] + [(min(b_, hi), -1) for a, b_ in busy if b_ > lo and a < hi])
    out = []; k = 0; since = lo if n > 0 else None
    for t, d in ev:
        k += d
        if k >= n and since is not None:
            if t > since: out.append((since, t))
            since = None
        elif k < n and since is None: since = t
    if since is not None and hi > since: out.append((since, hi))
    return out

def c30(h):
    v = V(h)
    if h.meta.get("stalls") or h.meta.get("pp") or h.meta.get("net") or any(f.get("do") in ("skew", "suspend", "stop", "slow", "partition", "rst", "host_down", "kill", "sig") for f in h.faults): return v
    for c in h.calls:
        s = c.sess
        if s is None or c.exc or stopped(h, c) or limit_hit(h, c): continue
        if c.spec.get("rl") or any(e.tag in ("ratelimit", "abad") and during(h, c, e.t0) for e in h.https): continue
        end = c.et if c.eq is not None else (h.end["t"] if h.end and hung(h, c) else None)
        if end is None: continue
        aff = lambda k: s.tasks[k].get("aff", 1)
        ready = {}; fint = {}
        for r in c.rdy:
            if r.key in s.tasks: ready.setdefault(r.key, r.tm)
        for f in c.fin: fint.setdefault(f.key, f.tm)
        np = s.np; local = []; console = []; rem = {}; taken = {}
        for r in c.runs:
            a, b_ = r.t, max(fint.get(r.key, end), r.exit_t or end)
            taken[r.key] = min(a, taken.get(r.key, a))
            if r.remote is not None: rem.setdefault(r.remote.name, []).append((a, b_))
            elif is_console(r): console.append((a, b_))
            else: local.append((a, b_))
        for f in c.fakes: taken[f.key] = min(f.t, taken.get(f.key, f.t))
        for k, t in fint.items(): taken[k] = min(t, taken.get(k, t))
        asks = []
        for e in h.https:
            verb = e.tag.partition(".")[0]
            if verb in ("start", "ends") and during(h, c, e.t0):
                q = remote_queue(h, e.p)
                if q is not None: asks.append((q, e.t0, min(e.t, end), e.p))
        cancelled = any(e.tag == "cancel" for e in h.https)
        for k, R in ready.items():
            hi = taken.get(k, end); v.n("waiting times judged")
            if hi - R < 1500 * MS: continue
            v.n("long waiting times judged")
            def bad(g, lim, what):
                g = max(g, key=lambda x: x[1] - x[0], default=None)
                if g and g[1] - g[0] > lim: v.bad("idle", "session %s call %d: %s waited from %.6f to %.6f while %s from %.6f to %.6f" % (s.s, c.n, k, R / 1e9, hi / 1e9, what, g[0] / 1e9, g[1] / 1e9)); return True
            if np and aff(k) & 1 and bad(gaps(local, R, hi, np), 1500 * MS, "one of the %d slots was free" % np): break
            if np and aff(k) & 2 and bad(gaps(console, R, hi, 1), 1500 * MS, "the console slot was free"): break
            if any(aff(k) >> q & 1 and bad([(max(R, a), min(hi, b_))], 1500 * MS, "%s was asking for a task" % w) for q, a, b_, w in asks): break
            for name, X in h.remotes.items():
                q = remote_queue(h, name)
                if cancelled or X.q < c.bq or q is None or not aff(k) >> q & 1 or X.t > hi: continue
                if bad(gaps(rem.get(name, []), max(R, X.t + SEC), min(hi, X.exit_t or hi), 1), 3 * SEC, "runner %s had nothing to do" % name): break
    return v
