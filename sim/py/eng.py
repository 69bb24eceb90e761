"""Runs scenarios in the simulator: one zygote process per worker."""
import json, os, subprocess, signal, select, time, copy
import wf
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILD = os.environ.get("SIM_BUILD", VERIF + "/build")
NCTL, NREM = 5, 10

class HarnessError(Exception): pass

def build():
    t = time.time()
    env = {k: v for k, v in os.environ.items()}
    p = subprocess.run(["bash", VERIF + "/sim/build.sh", BUILD, str(NCTL), str(NREM)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if p.returncode != 0: raise HarnessError("build failed:\n" + p.stdout[-6000:])
    return time.time() - t

def materialise(sc):
    """Scenario description -> what the simulator reads (controller steps become Python source)."""
    s = {k: v for k, v in sc.items() if k != "meta"}
    s["controllers"] = []
    for c in sc["controllers"]:
        c = dict(c)
        if "steps" in c: c["script"] = wf.script(c.pop("steps"))
        s["controllers"].append(c)
    return s

class Zygote:
    def __init__(self, cpu=None):
        self.cpu = cpu; self.p = None; self.n = 0
    def start(self):
        def pre():
            if self.cpu is not None:
                try: os.sched_setaffinity(0, {self.cpu})
                except OSError: pass
            os.setpgid(0, 0)
        self.p = subprocess.Popen([BUILD + "/simx", BUILD + "/images", str(NCTL), str(NREM)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=pre, cwd="/", bufsize=1 << 20)
        l = self.p.stdout.readline()
        if l != b"@@READY\n": raise HarnessError("zygote did not start: %r" % l)
    def stop(self):
        if self.p:
            try: os.killpg(self.p.pid, signal.SIGKILL)
            except OSError: pass
            self.p.wait(); self.p = None
    def run(self, sc):
        if not self.p: self.start()
        data = (json.dumps(materialise(sc)) + "\n").encode()
        try:
            self.p.stdin.write(data); self.p.stdin.flush()
        except OSError:
            self.stop(); raise HarnessError("zygote gone")
        lines = []
        while True:
            l = self.p.stdout.readline()
            if not l: self.stop(); raise HarnessError("zygote ended")
            if l.startswith(b"@@DONE"): st = int(l.split()[1]); break
            lines.append(l)
        ev = []
        for l in lines:
            if len(l) < 3: continue
            try: ev.append(json.loads(l))
            except ValueError: ev.append({"e": "harness", "d": "bad line " + repr(l[:200])})
        self.n += 1
        return ev, st
    def cov(self):
        if not self.p: return (0, 0)
        self.p.stdin.write(b"@cov\n"); self.p.stdin.flush()
        l = self.p.stdout.readline().split()
        return int(l[1]), int(l[2])
