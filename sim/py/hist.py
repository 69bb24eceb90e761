"""Turns the event history of one simulated run into sessions, calls, task runs and log records."""
import json, bisect

class O:
    def __init__(self, **k): self.__dict__.update(k)
    def __repr__(self): return repr({k: v for k, v in self.__dict__.items() if k not in ("sess", "spec", "tasks", "call")})

def b(s): return s.encode("latin-1")

class FileHist:
    """Content of one path over time, and the complete records in it."""
    def __init__(self, path):
        self.path = path; self.data = bytearray(); self.recs = []; self.pos = 0; self.events = []; self.ops = []; self.rewrites = []; self.bad = []; self.lost = []
    def write(self, ev):
        d = b(ev["d"]); off = ev["off"]; self.ops.append((ev["q"], off, d))
        if off < len(self.data):
            self.rewrites.append((ev["q"], off, len(self.data)))
            for r in self.recs:
                if r.end > off and self.data[off:min(r.end, off + len(d))] != d[:max(0, r.end - off)]: self.lost.append((ev["q"], r.line))
            self.data[off:off + len(d)] = d
            if off < self.pos: self.reparse(ev)
        else:
            if off > len(self.data): self.data.extend(b"\0" * (off - len(self.data)))
            self.data += d
        self.events.append((ev["q"], len(self.data)))
        self.scan(ev)
    def trunc(self, ev):
        n = ev.get("len", 0); self.ops.append((ev["q"], n, None))
        if n < len(self.data): self.rewrites.append((ev["q"], n, len(self.data)))
        for r in self.recs:
            if r.end > n: self.lost.append((ev["q"], r.line))
        del self.data[n:]
        if n > len(self.data): self.data.extend(b"\0" * (n - len(self.data)))
        if n < self.pos: self.reparse(ev)
        self.events.append((ev["q"], len(self.data)))
    def reparse(self, ev):
        self.recs = [r for r in self.recs if r.end <= ev.get("off", ev.get("len", 0))]
        self.pos = self.recs[-1].end if self.recs else 0
    def scan(self, ev):
        while True:
            i = self.data.find(b"\n", self.pos)
            if i < 0: return
            line = bytes(self.data[self.pos:i]); r = self.mk(line, ev, i + 1); self.pos = i + 1
            if r is None: self.bad.append((ev["q"], line))
            else: self.recs.append(r)
    def mk(self, line, ev, end):
        try: j = json.loads(line)
        except ValueError: return None
        if not isinstance(j, dict) or len(j) != 1: return None
        (ty, d), = j.items()
        t = None
        if isinstance(d, dict) and "time" in d: t = (d["time"]["secs_since_epoch"] - 1700000000) * 10**9 + d["time"]["nanos_since_epoch"]
        return O(ty=ty, key=d.get("key"), d=d, line=line, q=ev["q"], t=ev["t"], by=ev.get("p"), end=end, tm=t)

class H:
    def __init__(self, sc, ev, st=0):
        self.sc = sc; self.meta = sc.get("meta", {}); self.ev = ev; self.st = st
        self.end = next((e for e in reversed(ev) if e["e"] == "end"), None)
        self.harness = [e for e in ev if e["e"] in ("harness", "scripterr", "nosys")]
        self.ctls = {}; self.remotes = {}; self.sess = {}; self.sesslist = []; self.calls = []; self.runs = []; self.execfails = []; self.files = {}; self.pres = []; self.posts = []
        self.https = []; self.loads = []; self.outs = {}; self.marks = []; self.faults = []; self.kills = []; self.sigs = []; self.procs = {}; self.exits = {}; self.pyexc = []; self.reads = []; self.eagains = []; self.adderrs = []; self.rcs = []; self.provs = []; self.spawned = []; self.alive = []; self.appended = []; self.finalfiles = {}
        self.locks = []; self.opens = []; self.unlinks = []; self.binds = []; self.pyother = []
        self.ctlsteps = {}
        for i, c in enumerate(sc.get("controllers", [])): self.ctlsteps[c.get("name", "c%d" % i)] = c.get("steps", [])
        for e in ev: self.feed(e)
        for r in self.runs: self.attribute(r)
        for f in self.files.values():
            for r in f.recs: r.sess = self.sess_of(f.path, r)
    # -- helpers
    def step(self, ctl, s, op):
        return [x for x in self.ctlsteps.get(ctl, []) if x.get("s") == s and x["op"] == op]
    def feed(self, e):
        k = e["e"]; q = e["q"]; t = e["t"]
        if k == "ctl": self.ctls[e["name"]] = O(name=e["name"], pid=e["pid"], host=e["host"], q=q, t=t, exit_q=None, exit_t=None, status=None); self.procs[e["pid"]] = e["name"]
        elif k == "remote": self.remotes[e["name"]] = O(name=e["name"], args=e.get("args", []), pid=e["pid"], host=e["host"], q=q, t=t, exit_q=None, exit_t=None, status=None)
        elif k == "py": self.py(e)
        elif k == "exec":
            if e["kind"] == "task":
                r = O(key=e["key"], pid=e["pid"], ppid=e["ppid"], pgid=e["pgid"], by=e.get("by"), t=t, q=q, host=e["host"], argv=[b(a) for a in e["argv"]], fds=e["fds"], exit_t=None, exit_q=None, code=None, reap_q=None, reap_t=None, env=e.get("env", []), cwd=e.get("cwd"), sig=None, call=None)
                self.runs.append(r)
                self.bypid = getattr(self, "bypid", {}); self.bypid[e["pid"]] = r
            elif e["kind"] == "prov": self.provs.append(O(pid=e["pid"], ppid=e["ppid"], by=e.get("by"), t=t, q=q, argv=e["argv"], fds=e["fds"], env=e["env"], exit_q=None, exit_t=None, name=e["name"]))
        elif k == "execfail": self.execfails.append(O(by=e.get("by"), file=e["file"], pid=e["pid"], q=q, t=t))
        elif k == "exit":
            code = e["code"] if "code" in e else -e["sig"]
            self.exits[e["pid"]] = O(q=q, t=t, code=code, name=e["name"], kind=e["kind"])
            if e["kind"] == "ctl": c = self.ctls[e["name"]]; c.exit_q = q; c.exit_t = t; c.status = code
            elif e["kind"] == "remote" and e["name"] in self.remotes: c = self.remotes[e["name"]]; c.exit_q = q; c.exit_t = t; c.status = code
            elif e["pid"] in getattr(self, "bypid", {}): r = self.bypid[e["pid"]]; r.exit_q = q; r.exit_t = t; r.code = code
            else:
                for p in self.provs:
                    if p.pid == e["pid"]: p.exit_q = q; p.exit_t = t
        elif k == "reap":
            r = getattr(self, "bypid", {}).get(e["pid"])
            if r: r.reap_q = q; r.reap_t = t
        elif k == "write": self.files.setdefault(e["path"], FileHist(e["path"])).write(e)
        elif k == "trunc": self.files.setdefault(e["path"], FileHist(e["path"])).trunc(e)
        elif k == "pre": self.pres.append(O(**e))
        elif k == "post": self.posts.append(O(**e))
        elif k == "http": self.https.append(O(**{**dict(status=None, txn=None, key=None, body=None, err=None, argv=None, tag="", req=None), **e}))
        elif k == "out": self.outs.setdefault((e["p"], e["fd"]), []).append((q, t, e["d"], e.get("by")))
        elif k == "mark": self.marks.append(O(**e))
        elif k == "fault": self.faults.append(e)
        elif k == "kill": self.kills.append(O(**{**dict(to=None, pgrp=None), **e}))
        elif k == "gotsig": self.sigs.append(O(**{**dict(handled=0, key=""), **e}))
        elif k == "pyexc": self.pyexc.append(e)
        elif k == "read": self.reads.append(O(**{**dict(d=None), **e}))
        elif k == "eagain": self.eagains.append(O(**e))
        elif k == "spawned": self.spawned.append(O(**e))
        elif k == "alive": self.alive.append(e)
        elif k == "appended": self.appended.append(O(**e)); 
        elif k == "file": self.finalfiles[e["path"]] = e
        elif k in ("lock", "unlock", "lockfail"): self.locks.append(O(**e))
        elif k == "open": self.opens.append(O(**e))
        elif k == "unlink": self.unlinks.append(O(**e))
        elif k in ("bindun", "listen"): self.binds.append(O(**e))
    def py(self, e):
        d = e["d"]; q = e["q"]; t = e["t"]; ctl = e["p"]; k = d.get("ev") if isinstance(d, dict) else None
        if k == "opening":
            op = self.step(ctl, d["s"], "open"); op = op[0] if op else {}
            s = O(s=d["s"], ctl=ctl, pid=self.ctls[ctl].pid, log=d["log"], open_q=q, open_t=t, ctor_q=None, ctor_t=None, err=None, err_q=None, close_q=None, closed_q=None, spec=op, np=op.get("np", 1), fa=op.get("fa", 1), rr=op.get("rr", True), adds={}, tasks={}, order=[], calls=[], key=None, roots=None)
            for st in self.step(ctl, d["s"], "add"):
                for tk in st["tasks"]:
                    if tk["key"] not in s.tasks: s.order.append(tk["key"]); s.tasks[tk["key"]] = tk
            self.sess[d["s"]] = s; self.sesslist.append(s)
        elif k == "ctor": s = self.sess[d["s"]]; s.ctor_q = q; s.ctor_t = t; s.key = d["key"]; s.roots = d.get("roots")
        elif k == "ctor_err": s = self.sess[d["s"]]; s.err = d["d"]; s.err_q = q
        elif k == "add": self.sess[d["s"]].adds[d["key"]] = O(q=q, **d)
        elif k == "add_err": self.adderrs.append(O(q=q, t=t, **d))
        elif k == "rc": self.rcs.append(O(q=q, t=t, **d))
        elif k == "xb":
            s = self.sess[d["s"]]; op = self.step(ctl, d["s"], "exec")[d["n"]]
            c = O(s=d["s"], sess=s, ctl=ctl, n=d["n"], bq=q, bt=t, eq=None, et=None, ret=None, exc=None, spec=op, target=op.get("target"), runs=[], added=list(s.adds))
            s.calls.append(c); self.calls.append(c)
        elif k == "xe": c = self.sess[d["s"]].calls[-1]; c.eq = q; c.et = t; c.ret = d["r"]
        elif k == "xx": c = self.sess[d["s"]].calls[-1]; c.eq = q; c.et = t; c.exc = d["d"]
        elif k == "closing": 
            if d["s"] in self.sess: self.sess[d["s"]].close_q = q
        elif k == "closed":
            if d["s"] in self.sess: self.sess[d["s"]].closed_q = q
        elif k in ("load", "load_err"): self.loads.append(O(q=q, t=t, ctl=ctl, r=d.get("r"), err=d.get("d"), log=d["log"], mode=d["mode"]))
        else: self.pyother.append(O(q=q, t=t, ctl=ctl, d=d))
    def call_end(self, c):
        """(q, t) at which the call was over: returned, or its controller died; None if it never ended."""
        if c.eq is not None: return (c.eq, c.et)
        x = self.ctls[c.ctl]
        return (x.exit_q, x.exit_t) if x.exit_q is not None else None
    def call_at(self, ctl, q):
        for c in self.calls:
            if (ctl is None or c.ctl == ctl) and c.bq <= q and (self.call_end(c) is None or q <= self.call_end(c)[0]): return c
        return None
    def attribute(self, r):
        if r.by in self.ctls: r.call = self.call_at(r.by, r.q); r.remote = None
        elif r.by in self.remotes:
            r.remote = self.remotes[r.by]; r.call = None
            for c in self.calls:
                if c.spec.get("prov") and c.bq <= r.remote.q and (self.call_end(c) is None or r.remote.q <= self.call_end(c)[0]): r.call = c
        else: r.remote = None
        r.sess = r.call.sess if r.call else None
        if r.call: r.call.runs.append(r)
    def sess_of(self, path, rec):
        best = None
        for s in self.sesslist:
            if s.log == path and s.ctl == rec.by and s.open_q <= rec.q and s.err is None: best = s
        return best
    def log(self, path): return self.files.get(path) or FileHist(path)
    def recs(self, path): return self.log(path).recs
    def content_at(self, path, q):
        """Bytes of the file just before event q."""
        f = self.log(path); n = 0
        if f.rewrites:
            d = bytearray()
            for (qq, off, x) in f.ops:
                if qq >= q: break
                if off > len(d): d.extend(b"\0" * (off - len(d)))
                if x is None: del d[off:]
                else: d[off:off + len(x)] = x
            return bytes(d)
        for (qq, ln) in f.events:
            if qq < q: n = ln
        return bytes(f.data[:n])
    def call_recs(self, c):
        """Log records of the call: written by the session after the call began, up to the next call's begin."""
        nxt = None
        for x in c.sess.calls:
            if x.n == c.n + 1: nxt = x
        hi = nxt.bq if nxt else 10**18
        # records are buffered: those of an earlier call are flushed before it returns
        return [r for r in self.recs(c.sess.log) if r.sess is c.sess and c.bq < r.q < hi and r.ty != "Header"]

def fold(recs):
    """Reference model of a log: key -> (state, runcount, success)."""
    m = {}
    for r in recs:
        if r.ty == "Ready": m[r.key] = ["ready", r.d["runcount"], None, r.d.get("r", 0)]
        elif r.ty == "Started" and r.key in m: m[r.key] = ["started", m[r.key][1], None, m[r.key][3]]
        elif r.ty == "Finished" and r.key in m: m[r.key] = ["finished", m[r.key][1], r.d["status"] == 0, m[r.key][3]]
    return m

def log_before(h, s):
    """Records that were complete in the log when session s opened it."""
    return [r for r in h.recs(s.log) if r.q < s.open_q or (r.q < (s.ctor_q or 0) and r.sess is not s)]

def ancestors(tasks):
    memo = {}
    def go(k):
        if k in memo: return memo[k]
        memo[k] = set()
        r = set()
        for d in tasks[k].get("deps", []):
            r.add(d)
            if d in tasks: r |= go(d)
        memo[k] = r
        return r
    return {k: go(k) for k in tasks}
