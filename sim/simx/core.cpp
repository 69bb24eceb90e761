// Scheduler, virtual clock, processes, signals, faults and history of the simulated machine.
#include "core.h"
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>

Global G;
__thread Thread *self = nullptr;
unsigned char *covmap = nullptr;
uint32_t covn = 0;
int out_fd = 1;
char **real_argv = nullptr;
int real_argc = 0;

// ---------------------------------------------------------------- history
void logev(const std::string &s) { G.hist += s; G.hist += '\n'; }
Lg::Lg(const char *e) { s = "{\"e\":\""; s += e; s += "\",\"t\":"; s += std::to_string(G.now); s += ",\"q\":"; s += std::to_string(++G.histseq); }
Lg &Lg::k(const char *k, const std::string &v) { s += ",\""; s += k; s += "\":"; jesc(s, v.data(), v.size()); return *this; }
Lg &Lg::n(const char *k, int64_t v) { s += ",\""; s += k; s += "\":"; s += std::to_string(v); return *this; }
Lg &Lg::raw(const char *k, const std::string &v) { s += ",\""; s += k; s += "\":"; s += v; return *this; }
Lg::~Lg() { s += "}"; logev(s); }

void probe(const char *name) { G.probes[name]++; }
static inline void mix(uint64_t v) { G.hash = (G.hash ^ v) * 1099511628211ULL; }

static void raw_write_all(int fd, const std::string &s) {
  size_t o = 0;
  while (o < s.size()) { long r = rsys(SYS_write, fd, (long)(s.data() + o), s.size() - o); if (r <= 0) { if (r == -EINTR || r == -EAGAIN) continue; break; } o += r; }
}

void finish(const char *status) {
  if (self) self->insim++;
  if (!G.ending) {
    G.ending = true;
    for (auto &kv : G.procs) { Proc *p = kv.second.get(); if (!p->dead) { Lg l("alive"); l.k("name", p->name).k("kind", p->kind).n("pid", p->pid).n("host", p->host); if (p->real) { std::string th; for (auto *t : p->threads) if (t->st != Thread::DEAD) { th += std::to_string(t->tid); th += t->st == Thread::RUN ? "R " : "B "; } l.k("threads", th); } } }
    std::function<void(const std::string &, InodeP)> walk = [&](const std::string &path, InodeP i) {
      if (i->type == Inode::DIR) { for (auto &kv : i->ents) walk(path + "/" + kv.first, kv.second); return; }
      if (path.compare(0, 3, "/w/") == 0 || path.compare(0, 10, "/run/user/") == 0) { Lg l("file"); l.k("path", path).n("type", i->type); if (i->type == Inode::REG) { if (path.size() > 8 && path.compare(path.size() - 8, 8, "/log.txt") == 0) l.n("len", i->data.size()); else l.k("d", i->data); } }
    };
    walk("", G.root);
    { Lg l("end"); l.k("status", status).n("steps", G.steps).n("switches", G.switches).n("preempts", G.preempts).n("edges", G.edges);
      char b[32]; snprintf(b, 32, "%016llx", (unsigned long long)G.hash); l.k("hash", b); snprintf(b, 32, "%016llx", (unsigned long long)G.swhash); l.k("swhash", b);
      std::string o = "{"; for (auto &kv : G.fault_count) { if (o.size() > 1) o += ","; jesc(o, kv.first.data(), kv.first.size()); o += ":" + std::to_string(kv.second); } l.raw("faults", o + "}");
      o = "{"; for (auto &kv : G.probes) { if (o.size() > 1) o += ","; jesc(o, kv.first.data(), kv.first.size()); o += ":" + std::to_string(kv.second); } l.raw("probes", o + "}");
    }
    raw_write_all(out_fd, G.hist);
  }
  rsys(SYS_exit_group, 0);
}

// ---------------------------------------------------------------- batons
static void baton_wait(Thread *t) {
  while (__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE) == 0) rsys(SYS_futex, (long)&t->baton, FUTEX_WAIT_PRIVATE, 0, 0);
  __atomic_store_n(&t->baton, 0, __ATOMIC_RELAXED);
}
static void baton_post(Thread *t) { __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE); rsys(SYS_futex, (long)&t->baton, FUTEX_WAKE_PRIVATE, 1); }
static void park_forever() { int z = 0; for (;;) rsys(SYS_futex, (long)&z, FUTEX_WAIT_PRIVATE, 0, 0); }

// ---------------------------------------------------------------- clock and events
void at(ns_t t, std::function<void()> f, bool ext) {
  if (t < G.now) t = G.now;
  G.heap.push(new Event{t, ++G.evseq, ext, std::move(f)});
  if (ext) G.ext_pending++;
}
static void run_event() {
  Event *e = G.heap.top(); G.heap.pop();
  if (e->t > G.now) G.now = e->t;
  if (e->ext) { G.ext_pending--; G.last_ext = G.now; }
  e->f(); delete e;
}
static void run_due() { while (!G.heap.empty() && G.heap.top()->t <= G.now) run_event(); }

// ---------------------------------------------------------------- scheduling
void swap_proc(Proc *p) {
  if (G.curproc == p) return;
  if (G.curproc && G.curproc->real) G.curproc->env = environ;
  G.curproc = p;
  if (p->real) {
    environ = p->env;
    int i = 0; for (; i < (int)p->argvp.size() && i < real_argc - 1; i++) real_argv[i] = p->argvp[i];
    real_argv[i] = nullptr;
  }
}
static void rq_remove(Thread *t) { auto it = std::find(G.runq.begin(), G.runq.end(), t); if (it != G.runq.end()) G.runq.erase(it); }
void wake(Thread *t) { if (t && t->st == Thread::BLOCK) { t->st = Thread::RUN; G.runq.push_back(t); } }
static bool eligible(Thread *t) { return t->sleep_until <= G.now && t->p->stop_until <= G.now; }

static Thread *pick() {
  static std::vector<Thread *> el; el.clear();
  for (Thread *t : G.runq) if (eligible(t)) el.push_back(t);
  if (el.empty()) return nullptr;
  if (el.size() == 1) return el[0];
  if (G.pct) { Thread *b = el[0]; for (Thread *t : el) if (t->prio > b->prio || (t->prio == b->prio && t->tid < b->tid)) b = t; return b; }
  return el[G.sched.below(el.size())];
}

// Give up the processor; returns when the calling thread is scheduled again (never, if it died).
void schedule() {
  Thread *me = self;
  for (;;) {
    run_due();
    Thread *n = pick();
    if (!n) {
      if (G.heap.empty()) finish("deadlock");
      if (G.heap.top()->t > G.now) G.idle_jumps++;
      if (G.ext_pending == 0 && G.now - G.last_ext > G.stall_limit) finish("stalled");
      if (G.now > G.time_limit) finish("timelimit");
      run_event();
      continue;
    }
    if (n == me && me->st == Thread::RUN) { swap_proc(me->p); return; }
    G.switches++; G.swhash = (G.swhash ^ (uint64_t)(n->tid * 2654435761u + (n->p->pid))) * 1099511628211ULL;
    swap_proc(n->p);
    bool dead = !me || me->st == Thread::DEAD;
    baton_post(n);
    if (dead) park_forever();
    baton_wait(me);
    return;
  }
}

bool block(ns_t dl) {
  Thread *t = self;
  if (G.infork) { fprintf(stderr, "simx: block in fork child\n"); finish("harness-forkblock"); }
  t->st = Thread::BLOCK; rq_remove(t); t->timedout = false; t->nonblock_steps = t->spin_steps = 0;
  uint64_t g = ++t->gen;
  if (dl >= 0) at(dl, [t, g] { if (t->gen == g && t->st == Thread::BLOCK) { t->timedout = true; wake(t); } });
  schedule();
  t->gen++;
  return !t->timedout;
}

static bool preempt_ok() { return G.max_preempt < 0 || (int64_t)G.preempts < G.max_preempt; }
static void after_pct_step() {
  if (!G.pct) return;
  if (G.pct_pos < G.pct_points.size() && G.steps >= G.pct_points[G.pct_pos]) { G.pct_pos++; if (preempt_ok()) self->prio = -(int64_t)G.pct_pos; }
  if (self->nonblock_steps % 3000 == 2999) self->prio = -1000 - (int64_t)G.steps;
}

static void check_step_faults() {
  for (auto &f : G.faults) if (!f.fired && f.step > 0 && G.curproc->name == f.proc && G.curproc->steps >= f.step) { f.fired = true; apply_fault_spec(f.spec); }
}

void yield_point(const char *what, int64_t a) {
  (void)what; (void)a;
  if (!active() || G.infork) return;
  {
    InSim is;
    Thread *me = self;
    G.steps++; me->nonblock_steps++; G.curproc->steps++;
    ns_t cost = 300 + (ns_t)G.misc.below(1200);
    if ((what[0] | 32) != 'e') me->spin_steps++;            // computation is charged by the block, see edge_slow()
    if (me->spin_steps > 2000) cost *= 1 + (me->spin_steps - 2000) / 500;
    auto hc = G.hostcost.find(me->p->host); if (hc != G.hostcost.end()) cost *= hc->second;
    G.now += cost;
    mix((uint64_t)me->tid << 32 ^ (uint64_t)G.now);
    if (G.steps > G.step_limit) finish("steplimit");
    if (G.have_stepfaults) check_step_faults();
    run_due();
    if (me->st == Thread::DEAD) schedule();
    after_pct_step();
    bool sw = false;
    if (me->p->stop_until > G.now) sw = true;
    else if (G.stall_p > 0 && G.sched.chance(G.stall_p) && preempt_ok()) {
      static const ns_t d[] = {200 * US, 1 * MS, 5 * MS, 20 * MS, 100 * MS, 400 * MS};
      me->sleep_until = G.now + d[G.sched.below(6)]; at(me->sleep_until, [] {}); sw = true; G.preempts++; G.fault_count["thread_stall"]++;
    } else if (what[0] == 'H') { if (a > 0) { me->sleep_until = G.now + a; at(me->sleep_until, [] {}); } sw = true; G.preempts++; G.fault_count["hot_block"]++; }
    else if (G.pct) sw = pick() != me;
    else if (G.runq.size() > 1 && G.sched.chance(what[0] == 'E' || what[0] == 'Y' ? 1.0 : G.sys_p) && preempt_ok()) { sw = true; G.preempts++; }
    if (sw) schedule();
    if (me->p->dead) schedule();
  }
  if (!self->sigs.empty()) run_sigs();
}

// ---------------------------------------------------------------- basic-block hook
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
  if (start == stop || *start) return;
  uint32_t n = 0; for (uint32_t *p = start; p < stop; p++) *p = ++n;
  if (n > covn) covn = n;
}
static void edge_slow() {
  G.edges += G.edge_budget0; G.now += G.edge_budget0 * 15;
  if (G.edge_mean > 0) { double u = G.sched.f(); int64_t k = 1 + (int64_t)(-(double)G.edge_mean * __builtin_log(1 - u)); G.edge_budget = G.edge_budget0 = std::min<int64_t>(k, 20000); yield_point("E"); }
  else { G.edge_budget = G.edge_budget0 = 5000; yield_point("e"); }
}
// A few basic blocks, others in each run, where a thread is interrupted (nearly) every time it gets there, for a
// moment in which the others go on: this is what finds windows of a few instructions.
static void hot_block(uint32_t i) {
  if (!active() || G.infork || G.hot_left <= 0 || !preempt_ok()) return;
  int64_t d = 0;
  { InSim is; int c = ++G.hot_seen[i]; if ((1500 - G.hot_left) > 60 + G.now / (2 * MS)) return; if (c > 12 && !G.sched.chance(12.0 / c)) return; static const ns_t ds[] = {0, 0, 5 * US, 30 * US, 30 * US, 100 * US, 300 * US, 1 * MS}; if (G.sched.chance(.2)) return; G.hot_left--; d = ds[G.sched.below(8)]; }
  yield_point("H", d);
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  uint32_t i = *g; if (i && covmap) covmap[i & 0xfffff] = 1;
  if (__builtin_expect(G.hot_thr != 0, 0)) { uint32_t x = (i ^ G.hot_salt) * 0x9E3779B1u; x ^= x >> 15; x *= 0x85EBCA77u; x ^= x >> 13; if (x < G.hot_thr) hot_block(i); }
  if (__builtin_expect(--G.edge_budget <= 0, 0)) {
    if (active() && !G.infork) edge_slow(); else G.edge_budget = 1;
  }
}

// ---------------------------------------------------------------- threads
// A memory error in the program under test ends its process, as it would in reality.
static void on_crash(int sig) {
  if (!G.on || !self || self->insim > 0 || G.infork) { long pid = rsys(SYS_getpid); rsys(SYS_kill, pid, SIGKILL); }
  self->insim++;
  Lg("crash").k("p", self->p->name).n("pid", self->p->pid).n("sig", sig);
  proc_exit(self->p, sig); schedule(); for (;;) ;
}
static void crash_handlers() {
  static int (*sa)(int, const struct sigaction *, struct sigaction *) = nullptr; static int (*ss)(const stack_t *, stack_t *) = nullptr;
  if (!sa) {
    sa = (decltype(sa))dlsym(RTLD_NEXT, "sigaction"); ss = (decltype(ss))dlsym(RTLD_NEXT, "sigaltstack");
    struct sigaction x; memset(&x, 0, sizeof x); x.sa_handler = on_crash; x.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE}) sa(s, &x, nullptr);
  }
  stack_t st; memset(&st, 0, sizeof st); st.ss_size = 256 << 10; st.ss_sp = (void *)rsys(SYS_mmap, 0, (long)st.ss_size, 3, 0x4022, -1, 0); ss(&st, nullptr);
}
static void *trampoline(void *a) {
  Thread *t = (Thread *)a; self = t;
  t->insim++;
  crash_handlers();
  { pthread_attr_t at; if (!pthread_getattr_np(pthread_self(), &at)) { void *b; size_t n; pthread_attr_getstack(&at, &b, &n); t->stack_top = (char *)b + n; pthread_attr_destroy(&at); } }
  __atomic_store_n(&t->arrived, 1, __ATOMIC_RELEASE); rsys(SYS_futex, (long)&t->arrived, FUTEX_WAKE_PRIVATE, 1);
  baton_wait(t);
  t->insim--;
  t->ret = t->start(t->arg);
  thread_die();
  return nullptr;
}
Thread *new_thread(Proc *p, void *(*f)(void *), void *arg, const pthread_attr_t *attr) {
  static int (*rc)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = nullptr;
  if (!rc) rc = (decltype(rc))dlsym(RTLD_NEXT, "pthread_create");
  Thread *t = new Thread(); t->tid = G.next_tid++; t->p = p; t->start = f; t->arg = arg; t->prio = (int64_t)(G.sched.u64() >> 2);
  G.threads.emplace_back(t); p->threads.push_back(t);
  int e = rc(&t->pt, attr, trampoline, t);
  if (e) { fprintf(stderr, "simx: pthread_create: %d\n", e); finish("harness-thread"); }
  while (!__atomic_load_n(&t->arrived, __ATOMIC_ACQUIRE)) rsys(SYS_futex, (long)&t->arrived, FUTEX_WAIT_PRIVATE, 0, 0);
  G.runq.push_back(t);
  return t;
}
void thread_die() {
  Thread *t = self;
  while (!t->dtors.empty()) { auto d = t->dtors.back(); t->dtors.pop_back(); d.first(d.second); }
  InSim is;
  t->st = Thread::DEAD; rq_remove(t);
  for (Thread *j : t->joiners) wake(j);
  t->joiners.clear();
  schedule();
}

// ---------------------------------------------------------------- processes
Proc *new_proc(const std::string &name, const std::string &kind, int host, int ppid) {
  Proc *p = new Proc(); p->pid = G.next_pid++; p->ppid = ppid; p->pgid = p->pid; p->host = host; p->name = name; p->kind = kind; p->born = G.now;
  auto it = G.procs.find(ppid); if (it != G.procs.end()) { p->pgid = it->second->pgid; it->second->children.insert(p->pid); p->cwd = it->second->cwd; }
  G.procs[p->pid].reset(p);
  return p;
}
Proc *by_pid(int pid) { auto it = G.procs.find(pid); return it == G.procs.end() ? nullptr : it->second.get(); }
Proc *by_name(const std::string &n) { for (auto &kv : G.procs) if (kv.second->name == n && !kv.second->dead) return kv.second.get(); return nullptr; }

void reap(Proc *p) { p->zombie = false; Proc *q = by_pid(p->ppid); if (q) q->children.erase(p->pid); }

void proc_exit(Proc *p, int status) {
  if (p->dead) return;
  p->dead = true; p->zombie = true; p->status = status; p->sgen++;
  { Lg l("exit"); l.k("name", p->name).k("kind", p->kind).n("pid", p->pid).n("host", p->host); if (WIFEXITED(status)) l.n("code", WEXITSTATUS(status)); else l.n("sig", WTERMSIG(status)); if (p->istask) l.k("key", p->taskkey); }
  for (Thread *t : p->threads) { if (t->st != Thread::DEAD) { t->st = Thread::DEAD; rq_remove(t); } }
  p->http.reset();
  std::vector<int> fds; for (auto &kv : p->fds) fds.push_back(kv.first);
  bool silent = G.downhosts.count(p->host);
  G.closing_silent = silent;
  for (int fd : fds) closefd(p, fd);
  G.closing_silent = false;
  // reparent
  Proc *np = nullptr;
  for (Proc *q = by_pid(p->ppid); q; q = by_pid(q->ppid)) if (q->subreaper && !q->dead && q->host == p->host) { np = q; break; }
  for (int c : std::vector<int>(p->children.begin(), p->children.end())) {
    Proc *q = by_pid(c); if (!q) continue;
    q->ppid = np ? np->pid : 1;
    if (np) { np->children.insert(c); if (q->dead) { send_sig(np, SIGCHLD, c); for (Thread *t : np->waitchild) wake(t); } }
    else if (q->dead) q->zombie = false;
  }
  p->children.clear();
  Proc *pp = by_pid(p->ppid);
  if (pp && !pp->dead) { send_sig(pp, SIGCHLD, p->pid); auto w = pp->waitchild; pp->waitchild.clear(); for (Thread *t : w) wake(t); }
  else p->zombie = false;
  trigger("exit", p->name);
  check_end();
}

void send_sig(Proc *p, int sig, int from) {
  if (p->dead) return;
  if (sig == 0) return;
  if (sig == SIGKILL) { proc_exit(p, SIGKILL); return; }
  if (!p->real) {
    Lg("gotsig").k("name", p->name).n("pid", p->pid).n("sig", sig).n("from", from).k("key", p->taskkey);
    if (sig == SIGCHLD || sig == SIGCONT || sig == SIGURG || sig == SIGWINCH) { if (sig == SIGCHLD) { /* scripts reap automatically */ for (int c : std::vector<int>(p->children.begin(), p->children.end())) { Proc *q = by_pid(c); if (q && q->dead) reap(q); } wake_script(p, 0); } return; }
    if (sig == SIGTERM && p->term_ms >= 0) { if (!p->term_seen) { p->term_seen = true; int pid = p->pid, code = p->term_code; at(G.now + p->term_ms * MS, [pid, code] { Proc *q = by_pid(pid); if (q) proc_exit(q, (code & 255) << 8); }, true); } return; }
    if (p->ign.count(sig)) return;
    proc_exit(p, sig);
    return;
  }
  auto it = p->sa.find(sig);
  void *h = it == p->sa.end() ? (void *)SIG_DFL : (it->second.sa_flags & SA_SIGINFO) ? (void *)it->second.sa_sigaction : (void *)it->second.sa_handler;
  if (h == (void *)SIG_IGN) return;
  if (h == (void *)SIG_DFL) {
    if (sig == SIGCHLD || sig == SIGURG || sig == SIGWINCH || sig == SIGCONT) return;
    // a Python process has a SIGINT handler of its own, which only raises a flag
    if (sig == SIGINT && p->kind == "ctl") { Lg("gotsig").k("name", p->name).n("pid", p->pid).n("sig", sig).n("from", from).n("handled", 0); return; }
    Lg("gotsig").k("name", p->name).n("pid", p->pid).n("sig", sig).n("from", from);
    proc_exit(p, sig); return;
  }
  if (sig != SIGCHLD) Lg("gotsig").k("name", p->name).n("pid", p->pid).n("sig", sig).n("from", from).n("handled", 1);
  std::vector<Thread *> c; for (Thread *t : p->threads) if (t->st != Thread::DEAD) c.push_back(t);
  if (c.empty()) return;
  Thread *t = c[G.sched.below(c.size())];
  for (auto &s : t->sigs) if (s.sig == sig) return;   // standard signals do not queue
  t->sigs.push_back({sig, from});
  if (t->st == Thread::BLOCK) { t->intr = true; wake(t); }
}

void run_sigs() {
  Thread *t = self;
  if (t->insig) return;
  while (!t->sigs.empty()) {
    Sig s = t->sigs.front(); t->sigs.pop_front();
    auto it = t->p->sa.find(s.sig); if (it == t->p->sa.end()) continue;
    struct sigaction sa = it->second;
    int e = errno; t->insig = true;
    if (sa.sa_flags & SA_SIGINFO) { siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = s.sig; si.si_pid = s.from; si.si_code = SI_USER; char uc[1024] = {0}; sa.sa_sigaction(s.sig, &si, uc); }
    else if (sa.sa_handler != SIG_DFL && sa.sa_handler != SIG_IGN) sa.sa_handler(s.sig);
    t->insig = false; errno = e;
  }
}

// ---------------------------------------------------------------- faults
static int errno_of(const std::string &s) {
  static const std::map<std::string, int> m = {{"EIO", EIO}, {"ENOSPC", ENOSPC}, {"EINTR", EINTR}, {"EMFILE", EMFILE}, {"EAGAIN", EAGAIN}, {"ENOMEM", ENOMEM}, {"EACCES", EACCES}, {"ENOLCK", ENOLCK}, {"EDQUOT", EDQUOT}, {"EROFS", EROFS}, {"ENFILE", ENFILE}, {"E2BIG", E2BIG}, {"ENOENT", ENOENT}, {"EFBIG", EFBIG}};
  auto it = m.find(s); return it == m.end() ? EIO : it->second;
}
void trigger(const std::string &name, const std::string &detail) {
  if (!G.on) return;
  G.trig[name]++;
  for (auto &f : G.faults) {
    if (f.fired || f.on != name) continue;
    if (!f.match.empty() && detail.find(f.match) == std::string::npos) continue;
    if (++f.seen != f.nth) continue;
    f.fired = true;
    J spec = f.spec; int64_t d = spec["delay_us"].num(0);
    at(G.now + d * US, [spec] { apply_fault_spec(spec); }, true);
  }
}
int fault_call(const char *call, const std::string &path, size_t *partial, bool *kill) {
  if (!G.have_callfaults) return 0;
  for (auto &f : G.faults) {
    if (f.call != call) continue;
    if (!f.proc.empty() && G.curproc->name != f.proc) continue;
    if (!f.match.empty() && path.find(f.match) == std::string::npos) continue;
    f.seen++;
    if (f.seen < f.nth || f.seen >= f.nth + f.count) continue;
    f.fired = true;
    ns_t stall = f.spec["stall_us"].num(0) * US;
    if (stall > 0) {                        // the call takes long: a slow disk, a paging storm
      G.fault_count[std::string("call:") + call + ":slow"]++;
      { Lg l("fault"); l.k("call", call).k("path", path).k("do", "stall").k("proc", G.curproc->name).n("f_us", stall / US); }
      if (!G.infork) {
        Thread *me = self; me->sleep_until = G.now + stall; at(me->sleep_until, [] {}, true);
        while (me->sleep_until > G.now || me->p->dead) schedule();
      }
      return f.err.empty() ? 0 : errno_of(f.err);
    }
    G.fault_count[std::string("call:") + call + ":" + (f.err.empty() ? f.kill ? "kill" : "short" : f.err)]++;
    Lg l("fault"); l.k("call", call).k("path", path).k("err", f.err).k("proc", G.curproc->name);
    if (f.partial >= 0 && partial) { *partial = f.partial; l.n("partial", f.partial); if (f.kill && kill) *kill = true; return f.err.empty() ? 0 : f.partial > 0 ? 0 : errno_of(f.err); }
    if (f.kill && kill) { *kill = true; return 0; }
    return errno_of(f.err);
  }
  return 0;
}
void apply_fault_spec(const J &f) {
  std::string d = f["do"].str();
  G.fault_count[d]++;
  { Lg l("fault"); l.k("do", d); for (auto &kv : f.o) { if (kv.first == "do" || kv.first == "on" || kv.first == "at_ms") continue; if (kv.second.t == J::STR) l.k(("f_" + kv.first).c_str(), kv.second.s); else if (kv.second.t == J::NUM) l.n(("f_" + kv.first).c_str(), kv.second.i); } }
  if (d == "kill" || d == "sig") {
    int sig = d == "kill" ? SIGKILL : (int)f["sig"].num(SIGINT);
    if (f.has("proc")) { Proc *p = by_name(f["proc"].str()); if (p) send_sig(p, sig, 1); else G.fault_count[d + "_missed"]++; }
    else if (f.has("task")) { for (auto &kv : G.procs) if (kv.second->istask && kv.second->taskkey == f["task"].str() && !kv.second->dead) { send_sig(kv.second.get(), sig, 1); break; } }
  } else if (d == "stop") { Proc *p = by_name(f["proc"].str()); if (p) { p->stop_until = G.now + f["ms"].num(1000) * MS; at(p->stop_until, [] {}, true); if (!p->real) p->sgen++, wake_script(p, f["ms"].num(1000) * MS); } }
  else if (d == "host_down") {
    int h = f["host"].num(1); G.downhosts.insert(h);
    std::vector<Proc *> v; for (auto &kv : G.procs) if (kv.second->host == h && !kv.second->dead) v.push_back(kv.second.get());
    for (Proc *p : v) proc_exit(p, SIGKILL);
  } else if (d == "partition") { int a = f["a"].num(0), b = f["b"].num(1); G.parts.insert({std::min(a, b), std::max(a, b)}); if (f.has("ms")) at(G.now + f["ms"].num() * MS, [a, b] { G.parts.erase({std::min(a, b), std::max(a, b)}); heal(); G.fault_count["heal"]++; }, true); }
  else if (d == "rst") reset_conns(f["host"].num(1));
  else if (d == "skew") G.skew[f["host"].num(0)] += f["ms"].num() * MS;
  else if (d == "suspend") {
    int h = f["host"].num(0); ns_t ms = f["ms"].num(); G.suspend[h] += ms * MS;
    for (auto &kv : G.procs) if (kv.second->host == h && !kv.second->dead && kv.second->real) kv.second->stop_until = std::max(kv.second->stop_until, G.now + ms * MS);
    at(G.now + ms * MS, [] {}, true);
  } else if (d == "slow") { G.hostcost[f["host"].num(0)] = f["factor"].num(10); }
  else if (d == "append") append_file(f["path"].str(), f["text"].str());
  else if (d == "unlink") unlink_path(f["path"].str());
  else if (d == "rmlock") unlink_path(f["path"].str());
  else if (d == "actor") { std::map<int, FdEnt> e; start_script(f["name"].str("actor"), "actor", f["host"].num(0), 1, f["ops"], e, 0); }
}
void load_faults(const J &a) {
  for (auto &s : a.a) {
    Fault f; f.spec = s; f.on = s["on"].str(); f.match = s["match"].str(); f.nth = s["nth"].num(1); f.call = s["call"].str(); f.proc = s["proc"].str();
    f.err = s["err"].str(); f.count = s["count"].num(1); f.partial = s.has("partial") ? s["partial"].num() : -1; f.kill = s["kill"].truthy(); f.step = s["step"].num(0);
    if (s.has("at_ms") || s.has("at_us")) { J c = s; f.fired = true; at(s["at_ms"].num() * MS + s["at_us"].num() * US, [c] { apply_fault_spec(c); }, true); }
    if (f.step) G.have_stepfaults = true;
    if (!f.call.empty()) G.have_callfaults = true;
    G.faults.push_back(f);
  }
}
