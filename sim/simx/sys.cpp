// Interposed C library functions: the seam between the real program code and the simulated kernel.
#include "core.h"
#include "image.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netinet/in.h>
#include <poll.h>
#include <semaphore.h>
#include <spawn.h>
#include <stdarg.h>
#include <sys/file.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <unistd.h>

#define SIMFN(ret, name, args) extern "C" ret sim_##name args __asm__(#name); extern "C" __attribute__((used, visibility("default"))) ret sim_##name args
#define REAL(ret, name, sig, call) ({ static ret(*_r) sig = nullptr; if (!_r) _r = (ret(*) sig)dlsym(RTLD_NEXT, #name); _r call; })
#define ENTER(what) yield_point(what); InSim _is; Proc *p = G.curproc; (void)p
static inline long rt(long r) { if (r < 0) { errno = (int)-r; return -1; } return r; }

static bool sig_restart() { for (auto &s : self->sigs) { auto it = self->p->sa.find(s.sig); if (it != self->p->sa.end() && !(it->second.sa_flags & SA_RESTART)) return false; } return true; }
// Called inside an InSim scope after block(): runs pending handlers; true when the call must fail with EINTR.
static bool interrupted() {
  if (!self->intr && self->sigs.empty()) return false;
  self->intr = false;
  if (self->sigs.empty() || self->insig) return false;
  bool r = sig_restart();
  int d = self->insim; self->insim = 0; run_sigs(); self->insim = d;
  return !r;
}
static void wait_on(Ofd *o) { o->waiters.push_back(self); }

// ---------------------------------------------------------------- time
static ns_t mono(int host) { auto it = G.suspend.find(host); return G.now + 1000 * SEC - (it == G.suspend.end() ? 0 : it->second); }
static ns_t clk(clockid_t c) {
  int h = G.curproc ? G.curproc->host : 0;
  switch (c) {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: { auto it = G.skew.find(h); return 1700000000LL * SEC + G.now + (it == G.skew.end() ? 0 : it->second); }
    case CLOCK_BOOTTIME: return G.now + 1000 * SEC;
    case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: return mono(h);
    default: return G.now;
  }
}
static struct timespec ts_of(ns_t n) { struct timespec t; t.tv_sec = n / SEC; t.tv_nsec = n % SEC; return t; }
SIMFN(int, clock_gettime, (clockid_t c, struct timespec *ts)) {
  if (!active()) return (int)rt(rsys(SYS_clock_gettime, c, (long)ts));
  yield_point("clock"); *ts = ts_of(clk(c)); return 0;
}
SIMFN(int, gettimeofday, (struct timeval * tv, void *)) {
  if (!active()) return (int)rt(rsys(SYS_gettimeofday, (long)tv, 0));
  ns_t n = clk(CLOCK_REALTIME); tv->tv_sec = n / SEC; tv->tv_usec = n % SEC / 1000; return 0;
}
SIMFN(time_t, time, (time_t * t)) {
  time_t r; if (!active()) { struct timespec ts; rsys(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); r = ts.tv_sec; } else r = clk(CLOCK_REALTIME) / SEC;
  if (t) *t = r; return r;
}
static int do_sleep(ns_t until) {
  for (;;) {
    if (G.now >= until) return 0;
    block(until);
    if (interrupted()) return -EINTR;
    if (self->timedout || G.now >= until) return 0;
  }
}
SIMFN(int, nanosleep, (const struct timespec *r, struct timespec *rem)) {
  if (!active()) return (int)rt(rsys(SYS_nanosleep, (long)r, (long)rem));
  ENTER("nanosleep"); ns_t e = G.now + r->tv_sec * SEC + r->tv_nsec; int k = do_sleep(e);
  if (k && rem) *rem = ts_of(std::max<ns_t>(0, e - G.now));
  return (int)rt(k);
}
SIMFN(int, clock_nanosleep, (clockid_t c, int fl, const struct timespec *r, struct timespec *rem)) {
  if (!active()) return (int)-rsys(SYS_clock_nanosleep, c, fl, (long)r, (long)rem);
  ENTER("nanosleep"); ns_t d = r->tv_sec * SEC + r->tv_nsec; ns_t e = fl & TIMER_ABSTIME ? G.now + d - clk(c) : G.now + d;
  return -do_sleep(e);
}
SIMFN(int, usleep, (useconds_t u)) { if (!active()) { struct timespec t = ts_of((ns_t)u * US); return (int)rt(rsys(SYS_nanosleep, (long)&t, 0)); } ENTER("nanosleep"); return (int)rt(do_sleep(G.now + (ns_t)u * US)); }
SIMFN(int, sched_yield, (void)) { if (!active()) return 0; if (!G.infork) { yield_point("Y"); } return 0; }

// ---------------------------------------------------------------- randomness
static void ent(void *b, size_t n) { char *c = (char *)b; while (n) { uint64_t v = G.ent.u64(); size_t k = std::min<size_t>(8, n); memcpy(c, &v, k); c += k; n -= k; } }
SIMFN(ssize_t, getrandom, (void *b, size_t n, unsigned fl)) { if (!active()) return rt(rsys(SYS_getrandom, (long)b, n, fl)); ent(b, n); return n; }

// ---------------------------------------------------------------- futex
static long do_futex(uint32_t *u, int op, uint32_t val, const struct timespec *ts, uint32_t *u2, uint32_t val3) {
  int cmd = op & 127; InSim is;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (__atomic_load_n(u, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
    if (G.spurious_p > 0 && G.sched.chance(G.spurious_p)) { G.fault_count["futex_spurious"]++; return 0; }
    ns_t dl = -1;
    if (ts) { ns_t d = ts->tv_sec * SEC + ts->tv_nsec; if (cmd == FUTEX_WAIT) dl = G.now + d; else dl = G.now + d - clk(op & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC); if (dl < G.now) dl = G.now; }
    Thread *t = self; t->futex_woken = false; t->futex_addr = u; t->futex_bits = cmd == FUTEX_WAIT ? ~0u : val3;
    auto &q = G.futex[(uint64_t)u]; q.push_back(t);
    bool ok = block(dl);
    auto it = G.futex.find((uint64_t)u); if (it != G.futex.end()) { auto &qq = it->second; qq.erase(std::remove(qq.begin(), qq.end(), t), qq.end()); if (qq.empty()) G.futex.erase(it); }
    if (t->futex_woken) return 0;
    if (!t->sigs.empty()) return -EINTR;
    if (!ok) return -ETIMEDOUT;
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    auto it = G.futex.find((uint64_t)u); if (it == G.futex.end()) return 0;
    uint32_t n = 0; auto &q = it->second;
    for (size_t i = 0; i < q.size() && n < val;) { Thread *t = q[i]; if (t->st != Thread::BLOCK || t->futex_addr != u || (cmd == FUTEX_WAKE_BITSET && !(t->futex_bits & val3))) { if (t->st != Thread::BLOCK) q.erase(q.begin() + i); else i++; continue; } t->futex_woken = true; wake(t); q.erase(q.begin() + i); n++; }
    if (q.empty()) G.futex.erase(it);
    return n;
  }
  (void)u2;
  return -ENOSYS;
}
SIMFN(long, syscall, (long n, long a, long b, long c, long d, long e, long f)) {
  if (!active()) return rt(rsys(n, a, b, c, d, e, f));
  if (n == SYS_futex) { int cmd = (int)b & 127; yield_point("futex"); (void)cmd; long r = do_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f); if (!self->sigs.empty()) run_sigs(); self->intr = false; return rt(r); }
  if (n == SYS_gettid) return self->tid;
  if (n == SYS_getrandom) { ent((void *)a, b); return b; }
  probe(("syscall_" + std::to_string(n)).c_str());
  errno = ENOSYS; return -1;
}

// ---------------------------------------------------------------- threads and locks
SIMFN(int, pthread_create, (pthread_t * pt, const pthread_attr_t *at, void *(*f)(void *), void *arg)) {
  if (!active()) return REAL(int, pthread_create, (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *), (pt, at, f, arg));
  ENTER("thread"); if (int e = fault_call("pthread_create", p->name, nullptr, nullptr)) return e;
  Thread *t = new_thread(p, f, arg, at); *pt = t->pt; return 0;
}
SIMFN(int, pthread_join, (pthread_t pt, void **ret)) {
  if (!active()) return REAL(int, pthread_join, (pthread_t, void **), (pt, ret));
  ENTER("join"); Thread *t = nullptr; for (Thread *x : p->threads) if (pthread_equal(x->pt, pt)) t = x;
  if (!t) return ESRCH;
  while (t->st != Thread::DEAD) { t->joiners.push_back(self); block(-1); interrupted(); }
  if (ret) *ret = t->ret;
  return 0;
}
SIMFN(int, pthread_detach, (pthread_t pt)) { if (!active()) return REAL(int, pthread_detach, (pthread_t), (pt)); return 0; }
extern "C" __attribute__((used, visibility("default"), noreturn)) void sim_pthread_exit(void *) __asm__("pthread_exit");
void sim_pthread_exit(void *r) { if (self) { self->ret = r; thread_die(); } rsys(SYS_exit, 0); __builtin_unreachable(); }
SIMFN(int, pthread_setname_np, (pthread_t, const char *)) { return 0; }
SIMFN(int, pthread_kill, (pthread_t, int)) { return 0; }
SIMFN(int, pthread_sigmask, (int how, const sigset_t *s, sigset_t *o)) { if (!active()) return (int)-rsys(SYS_rt_sigprocmask, how, (long)s, (long)o, 8); if (o) memset(o, 0, 8); return 0; }
SIMFN(int, sigprocmask, (int how, const sigset_t *s, sigset_t *o)) { if (!active()) return (int)rt(rsys(SYS_rt_sigprocmask, how, (long)s, (long)o, 8)); if (o) memset(o, 0, 8); return 0; }
SIMFN(int, __cxa_thread_atexit_impl, (void (*f)(void *), void *obj, void *dso)) {
  if (!self) return REAL(int, __cxa_thread_atexit_impl, (void (*)(void *), void *, void *), (f, obj, dso));
  self->dtors.push_back({f, obj}); return 0;
}
SIMFN(int, __register_atfork, (void (*)(void), void (*)(void), void (*)(void), void *)) { return 0; }
struct VMutex { Thread *owner = nullptr; int count = 0; std::vector<Thread *> w; };
static std::unordered_map<uint64_t, VMutex> mutexes;
static std::unordered_map<uint64_t, std::deque<Thread *>> conds;
static std::unordered_map<uint64_t, std::vector<Thread *>> semw;
static void m_lock(uint64_t a) {
  for (;;) { VMutex &m = mutexes[a]; if (!m.owner || m.owner->st == Thread::DEAD || m.owner == self) { m.owner = self; m.count++; return; } m.w.push_back(self); block(-1); }
}
static void m_unlock(uint64_t a) { auto it = mutexes.find(a); if (it == mutexes.end()) return; VMutex &m = it->second; if (--m.count <= 0) { auto w = std::move(m.w); mutexes.erase(it); for (Thread *t : w) wake(t); } }
SIMFN(int, pthread_mutex_lock, (pthread_mutex_t * m)) { if (!active()) return REAL(int, pthread_mutex_lock, (pthread_mutex_t *), (m)); ENTER("mutex"); m_lock((uint64_t)m); return 0; }
SIMFN(int, pthread_mutex_trylock, (pthread_mutex_t * m)) { if (!active()) return REAL(int, pthread_mutex_trylock, (pthread_mutex_t *), (m)); ENTER("mutex"); VMutex &v = mutexes[(uint64_t)m]; if (v.owner && v.owner != self) return EBUSY; v.owner = self; v.count++; return 0; }
SIMFN(int, pthread_mutex_unlock, (pthread_mutex_t * m)) { if (!active()) return REAL(int, pthread_mutex_unlock, (pthread_mutex_t *), (m)); ENTER("mutex"); m_unlock((uint64_t)m); return 0; }
static int c_wait(uint64_t c, uint64_t m, ns_t dl) {
  Thread *t = self; t->futex_woken = false; conds[c].push_back(t); m_unlock(m);
  bool ok = block(dl);
  auto &q = conds[c]; q.erase(std::remove(q.begin(), q.end(), t), q.end()); if (q.empty()) conds.erase(c);
  bool w = t->futex_woken; interrupted(); m_lock(m);
  return (!w && !ok) ? ETIMEDOUT : 0;
}
SIMFN(int, pthread_cond_wait, (pthread_cond_t * c, pthread_mutex_t *m)) { if (!active()) return REAL(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *), (c, m)); ENTER("cond"); return c_wait((uint64_t)c, (uint64_t)m, -1); }
SIMFN(int, pthread_cond_timedwait, (pthread_cond_t * c, pthread_mutex_t *m, const struct timespec *ts)) {
  if (!active()) return REAL(int, pthread_cond_timedwait, (pthread_cond_t *, pthread_mutex_t *, const struct timespec *), (c, m, ts));
  ENTER("cond"); ns_t a = ts->tv_sec * SEC + ts->tv_nsec, mo = clk(CLOCK_MONOTONIC), re = clk(CLOCK_REALTIME);
  ns_t dl = a > 1000000000LL * SEC ? G.now + a - re : G.now + a - mo; if (dl < G.now) dl = G.now;
  return c_wait((uint64_t)c, (uint64_t)m, dl);
}
static void c_wake(uint64_t c, bool all) { auto it = conds.find(c); if (it == conds.end()) return; auto &q = it->second; while (!q.empty()) { Thread *t = q.front(); q.pop_front(); if (t->st != Thread::BLOCK) continue; t->futex_woken = true; wake(t); if (!all) break; } }
SIMFN(int, pthread_cond_signal, (pthread_cond_t * c)) { if (!active()) return REAL(int, pthread_cond_signal, (pthread_cond_t *), (c)); ENTER("cond"); c_wake((uint64_t)c, false); return 0; }
SIMFN(int, pthread_cond_broadcast, (pthread_cond_t * c)) { if (!active()) return REAL(int, pthread_cond_broadcast, (pthread_cond_t *), (c)); ENTER("cond"); c_wake((uint64_t)c, true); return 0; }
static int s_wait(sem_t *s, ns_t dl, bool tryit) {
  uint32_t *v = (uint32_t *)s;
  for (;;) {
    if (*v > 0) { --*v; return 0; }
    if (tryit) return -EAGAIN;
    semw[(uint64_t)s].push_back(self); bool ok = block(dl);
    if (interrupted()) { if (*v > 0) continue; return -EINTR; }
    if (!ok && *v == 0) return -ETIMEDOUT;
  }
}
SIMFN(int, sem_wait, (sem_t * s)) { if (!active()) return REAL(int, sem_wait, (sem_t *), (s)); ENTER("sem"); return (int)rt(s_wait(s, -1, false)); }
SIMFN(int, sem_trywait, (sem_t * s)) { if (!active()) return REAL(int, sem_trywait, (sem_t *), (s)); ENTER("sem"); return (int)rt(s_wait(s, -1, true)); }
SIMFN(int, sem_clockwait, (sem_t * s, clockid_t c, const struct timespec *ts)) { if (!active()) return REAL(int, sem_clockwait, (sem_t *, clockid_t, const struct timespec *), (s, c, ts)); ENTER("sem"); ns_t dl = G.now + ts->tv_sec * SEC + ts->tv_nsec - clk(c); return (int)rt(s_wait(s, std::max(dl, G.now), false)); }
SIMFN(int, sem_timedwait, (sem_t * s, const struct timespec *ts)) { if (!active()) return REAL(int, sem_timedwait, (sem_t *, const struct timespec *), (s, ts)); ENTER("sem"); ns_t dl = G.now + ts->tv_sec * SEC + ts->tv_nsec - clk(CLOCK_REALTIME); return (int)rt(s_wait(s, std::max(dl, G.now), false)); }
SIMFN(int, sem_post, (sem_t * s)) { if (!active()) return REAL(int, sem_post, (sem_t *), (s)); ENTER("sem"); ++*(uint32_t *)s; auto it = semw.find((uint64_t)s); if (it != semw.end()) { auto w = std::move(it->second); semw.erase(it); for (Thread *t : w) wake(t); } return 0; }

// ---------------------------------------------------------------- files
static void log_write(Proc *p, Ofd *o, uint64_t off, const char *d, size_t n) {
  if (o->path.compare(0, 3, "/w/")) return;
  if (o->path.size() > 8 && o->path.compare(o->path.size() - 8, 8, "/log.txt") == 0) return;
  Lg l("write"); l.k("p", p->name).n("pid", p->pid).k("path", o->path).n("ino", o->ino->ino).n("off", off).k("d", std::string(d, n));
}
static long file_write(Proc *p, Ofd *o, const char *d, size_t n, int64_t off) {
  if (o->acc == O_RDONLY) return -EBADF;
  size_t part = (size_t)-1; bool kill = false;
  int e = fault_call("write", o->path, &part, &kill);
  if (e) return -e;
  if (part != (size_t)-1 && part < n) n = part;
  else if (!kill && n > 1 && G.misc.chance(G.partial_p * 0.5) && o->path.compare(0, 3, "/w/") == 0) { n = 1 + G.misc.below(n - 1); G.fault_count["short_write"]++; }
  uint64_t at0 = off >= 0 ? off : o->append ? o->ino->data.size() : o->off;
  auto &D = o->ino->data;
  if (n) {
    if (D.size() < at0) D.resize(at0, 0);
    D.replace(at0, std::min(n, D.size() - at0), d, n);
    if (off < 0) o->off = at0 + n;
    log_write(p, o, at0, d, n);
    trigger("fwrite", o->path);
    file_changed(o->ino.get());
  }
  if (kill) { G.fault_count["kill_in_write"]++; proc_exit(p, SIGKILL); schedule(); }
  return n;
}
static long do_write(Proc *p, int fd, const char *d, size_t n, int64_t off = -1) {
  for (;;) {
    OfdP o = getfd(p, fd); if (!o) return -EBADF;
    long r;
    switch (o->k) {
      case Ofd::FILE: return file_write(p, o.get(), d, n, off);
      case Ofd::NULLDEV: return n;
      case Ofd::CONSOLE: { Lg l("out"); l.k("p", o->owner).n("fd", o->confd).k("d", std::string(d, n)); if (p->name != o->owner) l.k("by", p->name); return n; }
      case Ofd::PIPEW: r = pipe_write(o.get(), d, n); break;
      case Ofd::SOCK: r = sock_send(o, d, n); break;
      case Ofd::EVENTFD: { uint64_t v; memcpy(&v, d, 8); o->evcnt += v; notify(o.get(), EPOLLIN); return 8; }
      default: return -EBADF;
    }
    if (r == -EPIPE) { auto it = p->sa.find(SIGPIPE); (void)it; return r; }
    if (r != -EAGAIN || o->nonblock) return r;
    wait_on(o.get()); block(-1); if (interrupted()) return -EINTR;
  }
}
static long do_read(Proc *p, int fd, char *d, size_t n, int64_t off = -1, bool peek = false) {
  for (;;) {
    OfdP o = getfd(p, fd); if (!o) return -EBADF;
    long r;
    switch (o->k) {
      case Ofd::FILE: {
        if (o->acc == O_WRONLY) return -EBADF;
        size_t part = (size_t)-1; int e = fault_call("read", o->path, &part, nullptr); if (e) return -e;
        uint64_t at0 = off >= 0 ? off : o->off; auto &D = o->ino->data; if (at0 >= D.size()) return 0;
        size_t k = std::min(n, D.size() - at0); if (part != (size_t)-1) k = std::min(k, std::max<size_t>(part, 1));
        else if (k > 1 && !o->ino->ro && G.misc.chance(G.partial_p * 0.5)) { k = 1 + G.misc.below(k); G.fault_count["short_read"]++; }
        memcpy(d, D.data() + at0, k); if (off < 0) o->off = at0 + k; return k;
      }
      case Ofd::NULLDEV: if (o->path == "/dev/urandom") { ent(d, n); return n; } return 0;
      case Ofd::CONSOLE: return 0;
      case Ofd::PIPER: r = pipe_read(o.get(), d, n); break;
      case Ofd::SOCK: r = sock_recv(o, d, n, peek); break;
      case Ofd::EVENTFD: if (o->evcnt) { uint64_t v = o->evcnt; o->evcnt = 0; memcpy(d, &v, 8); return 8; } r = -EAGAIN; break;
      case Ofd::INOTIFY: if (o->inobuf.empty()) { r = -EAGAIN; break; } { size_t k = std::min(n, o->inobuf.size()); k -= k % sizeof(struct inotify_event); memcpy(d, o->inobuf.data(), k); o->inobuf.erase(0, k); return k; }
      case Ofd::DIRK: return -EISDIR;
      default: return -EINVAL;
    }
    if (r != -EAGAIN || o->nonblock) return r;
    wait_on(o.get()); block(-1); if (interrupted()) return -EINTR;
  }
}
SIMFN(ssize_t, read, (int fd, void *b, size_t n)) { if (!active()) return rt(rsys(SYS_read, fd, (long)b, n)); ENTER("read"); return rt(do_read(p, fd, (char *)b, n)); }
SIMFN(ssize_t, write, (int fd, const void *b, size_t n)) { if (!active()) return rt(rsys(SYS_write, fd, (long)b, n)); ENTER("write"); return rt(do_write(p, fd, (const char *)b, n)); }
SIMFN(ssize_t, pread64, (int fd, void *b, size_t n, off_t o)) { if (!active()) return rt(rsys(SYS_pread64, fd, (long)b, n, o)); ENTER("read"); return rt(do_read(p, fd, (char *)b, n, o)); }
SIMFN(ssize_t, pwrite64, (int fd, const void *b, size_t n, off_t o)) { if (!active()) return rt(rsys(SYS_pwrite64, fd, (long)b, n, o)); ENTER("write"); return rt(do_write(p, fd, (const char *)b, n, o)); }
SIMFN(ssize_t, writev, (int fd, const struct iovec *v, int c)) {
  if (!active()) return rt(rsys(SYS_writev, fd, (long)v, c));
  ENTER("write"); std::string s; for (int i = 0; i < c; i++) s.append((char *)v[i].iov_base, v[i].iov_len); return rt(do_write(p, fd, s.data(), s.size()));
}
static long scatter(const struct iovec *v, size_t c, const std::string &s) { size_t o = 0; for (size_t i = 0; i < c && o < s.size(); i++) { size_t k = std::min(v[i].iov_len, s.size() - o); memcpy(v[i].iov_base, s.data() + o, k); o += k; } return o; }
SIMFN(ssize_t, readv, (int fd, const struct iovec *v, int c)) {
  if (!active()) return rt(rsys(SYS_readv, fd, (long)v, c));
  ENTER("read"); size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; std::string s(n, 0); long r = do_read(p, fd, &s[0], n); if (r < 0) return rt(r); s.resize(r); return scatter(v, c, s);
}
static long do_open(Proc *p, const char *path, int fl, mode_t) {
  std::string a = abspath(p, path);
  int fe = fault_call("open", a, nullptr, nullptr); if (fe) return -fe;
  if (a == "/dev/null" || a == "/dev/urandom" || a == "/dev/random") { OfdP o = new_ofd(Ofd::NULLDEV); o->path = a; return addfd(p, o, fl & O_CLOEXEC); }
  InodeP i = lookup(a);
  if (i && (fl & O_CREAT) && (fl & O_EXCL)) return -EEXIST;
  if (!i) { if (!(fl & O_CREAT)) return -ENOENT; i = create_path(a, Inode::REG); if (!i) return is_virtual(a) ? -ENOENT : -EROFS; }
  if (i->type == Inode::DIR) { if ((fl & O_ACCMODE) != O_RDONLY) return -EISDIR; OfdP o = new_ofd(Ofd::DIRK); o->ino = i; o->path = a; return addfd(p, o, fl & O_CLOEXEC); }
  if (i->type == Inode::SOCKF) return -ENXIO;
  if (i->ro && (fl & O_ACCMODE) != O_RDONLY) return -EROFS;
  if (fl & O_TRUNC) { i->data.clear(); Lg("trunc").k("path", a).k("p", p->name); }
  OfdP o = new_ofd(Ofd::FILE); o->ino = i; o->path = a; o->acc = fl & O_ACCMODE; o->append = fl & O_APPEND;
  int fd = addfd(p, o, fl & O_CLOEXEC);
  if (a.compare(0, 3, "/w/") == 0) { Lg("open").k("path", a).k("p", p->name).n("pid", p->pid).n("acc", o->acc).n("ino", i->ino); trigger("open", a); }
  return fd;
}
#define OPENLIKE(name) SIMFN(int, name, (const char *path, int fl, ...)) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } if (!active()) return (int)rt(rsys(SYS_open, (long)path, fl, m)); ENTER("open"); return (int)rt(do_open(p, path, fl, m)); }
OPENLIKE(open) OPENLIKE(open64)
SIMFN(int, __open64_2, (const char *path, int fl)) { if (!active()) return (int)rt(rsys(SYS_open, (long)path, fl, 0)); ENTER("open"); return (int)rt(do_open(p, path, fl, 0)); }
SIMFN(int, openat64, (int dfd, const char *path, int fl, ...)) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } if (!active()) return (int)rt(rsys(SYS_openat, dfd, (long)path, fl, m)); ENTER("open"); return (int)rt(do_open(p, path, fl, m)); }
SIMFN(int, close, (int fd)) { if (!active()) return (int)rt(rsys(SYS_close, fd)); ENTER("close"); return (int)rt(closefd(p, fd)); }
SIMFN(off_t, lseek64, (int fd, off_t o, int w)) {
  if (!active()) return rt(rsys(SYS_lseek, fd, o, w));
  ENTER("lseek"); OfdP f = getfd(p, fd); if (!f) return rt(-EBADF); if (f->k != Ofd::FILE) return rt(f->k == Ofd::CONSOLE || f->k == Ofd::NULLDEV ? 0 : -ESPIPE);
  int64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)f->off : (int64_t)f->ino->data.size(); if (b + o < 0) return rt(-EINVAL); f->off = b + o; return f->off;
}
static void fill_stat(Inode *i, struct stat *st) {
  memset(st, 0, sizeof *st); st->st_ino = i->ino; st->st_dev = 1; st->st_nlink = i->nlink; st->st_size = i->data.size(); st->st_blksize = 4096; st->st_blocks = (i->data.size() + 511) / 512;
  st->st_mode = i->type == Inode::DIR ? S_IFDIR | 0755 : i->type == Inode::SOCKF ? S_IFSOCK | 0755 : S_IFREG | 0644; st->st_mtim = st->st_ctim = st->st_atim = ts_of(1700000000LL * SEC + i->mtime);
}
static long fstat_impl(Proc *p, int fd, struct stat *st) {
  OfdP o = getfd(p, fd); if (!o) return -EBADF;
  if (o->ino) { fill_stat(o->ino.get(), st); return 0; }
  memset(st, 0, sizeof *st); st->st_blksize = 4096;
  st->st_mode = o->k == Ofd::SOCK ? S_IFSOCK : o->k == Ofd::PIPER || o->k == Ofd::PIPEW ? S_IFIFO : S_IFCHR; st->st_mode |= 0644; return 0;
}
static long stat_impl(Proc *p, const char *path, struct stat *st) {
  std::string a = abspath(p, path);
  if (a.compare(0, 5, "/dev/") == 0) { memset(st, 0, sizeof *st); st->st_mode = S_IFCHR | 0666; return 0; }
  InodeP i = lookup(a); if (!i) return -ENOENT; fill_stat(i.get(), st); return 0;
}
SIMFN(int, fstat64, (int fd, struct stat *st)) { if (!active()) return (int)rt(rsys(SYS_fstat, fd, (long)st)); ENTER("stat"); return (int)rt(fstat_impl(p, fd, st)); }
SIMFN(int, fstat, (int fd, struct stat *st)) { if (!active()) return (int)rt(rsys(SYS_fstat, fd, (long)st)); ENTER("stat"); return (int)rt(fstat_impl(p, fd, st)); }
SIMFN(int, stat64, (const char *a, struct stat *st)) { if (!active()) return (int)rt(rsys(SYS_stat, (long)a, (long)st)); ENTER("stat"); return (int)rt(stat_impl(p, a, st)); }
SIMFN(int, stat, (const char *a, struct stat *st)) { if (!active()) return (int)rt(rsys(SYS_stat, (long)a, (long)st)); ENTER("stat"); return (int)rt(stat_impl(p, a, st)); }
SIMFN(int, lstat64, (const char *a, struct stat *st)) { if (!active()) return (int)rt(rsys(SYS_lstat, (long)a, (long)st)); ENTER("stat"); return (int)rt(stat_impl(p, a, st)); }
SIMFN(int, lstat, (const char *a, struct stat *st)) { if (!active()) return (int)rt(rsys(SYS_lstat, (long)a, (long)st)); ENTER("stat"); return (int)rt(stat_impl(p, a, st)); }
static std::string at_path(Proc *p, int dfd, const char *a) { if (a[0] == '/' || dfd == AT_FDCWD) return a; OfdP o = getfd(p, dfd); return o ? o->path + "/" + a : a; }
SIMFN(int, fstatat64, (int dfd, const char *a, struct stat *st, int fl)) { if (!active()) return (int)rt(rsys(SYS_newfstatat, dfd, (long)a, (long)st, fl)); ENTER("stat"); if (!*a) return (int)rt(fstat_impl(p, dfd, st)); return (int)rt(stat_impl(p, at_path(p, dfd, a).c_str(), st)); }
SIMFN(int, statx, (int dfd, const char *a, int fl, unsigned mask, struct statx *sx)) {
  if (!active()) return (int)rt(rsys(SYS_statx, dfd, (long)a, fl, mask, (long)sx));
  ENTER("stat"); if (!sx) return (int)rt(-EFAULT);
  struct stat st; long r = (!a || !*a) ? fstat_impl(p, dfd, &st) : stat_impl(p, at_path(p, dfd, a).c_str(), &st); if (r < 0) return (int)rt(r);
  memset(sx, 0, sizeof *sx); sx->stx_mask = STATX_BASIC_STATS; sx->stx_mode = st.st_mode; sx->stx_ino = st.st_ino; sx->stx_size = st.st_size; sx->stx_nlink = st.st_nlink; sx->stx_blksize = 4096; sx->stx_blocks = st.st_blocks; sx->stx_mtime.tv_sec = st.st_mtim.tv_sec; return 0;
}
SIMFN(int, access, (const char *a, int m)) { if (!active()) return (int)rt(rsys(SYS_access, (long)a, m)); ENTER("stat"); struct stat st; return (int)rt(stat_impl(p, a, &st)); }
SIMFN(int, statvfs, (const char *, struct statvfs *)) { errno = ENOSYS; return -1; }
SIMFN(int, ftruncate64, (int fd, off_t n)) { if (!active()) return (int)rt(rsys(SYS_ftruncate, fd, n)); ENTER("trunc"); OfdP o = getfd(p, fd); if (!o || !o->ino) return (int)rt(-EBADF); Lg("trunc").k("path", o->path).k("p", p->name).n("len", n); o->ino->data.resize(n, 0); file_changed(o->ino.get()); return 0; }
SIMFN(int, ftruncate, (int fd, off_t n)) { return sim_ftruncate64(fd, n); }
SIMFN(int, fsync, (int fd)) { if (!active()) return (int)rt(rsys(SYS_fsync, fd)); ENTER("fsync"); OfdP o = getfd(p, fd); if (!o) return (int)rt(-EBADF); int e = fault_call("fsync", o->path, nullptr, nullptr); return (int)rt(-e); }
SIMFN(int, fdatasync, (int fd)) { if (!active()) return (int)rt(rsys(SYS_fdatasync, fd)); return sim_fsync(fd); }
SIMFN(int, flock, (int fd, int op)) {
  if (!active()) return (int)rt(rsys(SYS_flock, fd, op));
  ENTER("flock");
  OfdP o = getfd(p, fd); if (!o || !o->ino) return (int)rt(-EBADF);
  int e = fault_call("flock", o->path, nullptr, nullptr); if (e) return (int)rt(-e);
  Inode *i = o->ino.get(); int k = op & ~LOCK_NB;
  if (k == LOCK_UN) { if (i->lock == o.get()) { i->lock = nullptr; Lg("unlock").k("path", o->path).k("owner", o->owner); for (Thread *t : i->lockwait) wake(t); i->lockwait.clear(); } return 0; }
  for (;;) {
    if (!i->lock || i->lock == o.get()) { i->lock = o.get(); Lg("lock").k("path", o->path).k("p", p->name).n("pid", p->pid).n("ino", i->ino); trigger("lock", o->path); return 0; }
    if (op & LOCK_NB) { Lg("lockfail").k("path", o->path).k("p", p->name).n("ino", i->ino); return (int)rt(-EWOULDBLOCK); }
    i->lockwait.push_back(self); block(-1); if (interrupted()) return (int)rt(-EINTR);
  }
}
static long do_fcntl(Proc *p, int fd, int cmd, long arg) {
  auto it = p->fds.find(fd); if (it == p->fds.end()) return -EBADF;
  OfdP o = it->second.o;
  switch (cmd) {
    case F_GETFD: return it->second.cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: it->second.cloexec = arg & FD_CLOEXEC; return 0;
    case F_GETFL: return o->acc | (o->nonblock ? O_NONBLOCK : 0) | (o->append ? O_APPEND : 0) | (o->k == Ofd::SOCK || o->k == Ofd::CONSOLE ? O_RDWR : 0);
    case F_SETFL: o->nonblock = arg & O_NONBLOCK; return 0;
    case F_DUPFD: return addfd(p, o, false, arg);
    case F_DUPFD_CLOEXEC: return addfd(p, o, true, arg);
    case F_GETPIPE_SZ: return 65536;
    case F_SETPIPE_SZ: return arg;
    default: return -EINVAL;
  }
}
SIMFN(int, fcntl, (int fd, int cmd, long arg)) { if (!active()) return (int)rt(rsys(SYS_fcntl, fd, cmd, arg)); ENTER("fcntl"); return (int)rt(do_fcntl(p, fd, cmd, arg)); }
SIMFN(int, fcntl64, (int fd, int cmd, long arg)) { if (!active()) return (int)rt(rsys(SYS_fcntl, fd, cmd, arg)); ENTER("fcntl"); return (int)rt(do_fcntl(p, fd, cmd, arg)); }
SIMFN(int, ioctl, (int fd, unsigned long req, long arg)) {
  if (!active()) return (int)rt(rsys(SYS_ioctl, fd, req, arg));
  ENTER("ioctl"); auto it = p->fds.find(fd); if (it == p->fds.end()) return (int)rt(-EBADF);
  if (req == FIONBIO) { it->second.o->nonblock = *(int *)arg; return 0; }
  if (req == FIOCLEX) { it->second.cloexec = true; return 0; }
  if (req == FIONREAD) { Ofd *o = it->second.o.get(); *(int *)arg = o->k == Ofd::PIPER ? o->pipe->buf.size() : o->k == Ofd::SOCK ? o->sk->rx.size() : o->k == Ofd::INOTIFY ? o->inobuf.size() : 0; return 0; }
  return (int)rt(-ENOTTY);
}
SIMFN(int, isatty, (int fd)) { if (!active()) { char b[256]; return rsys(SYS_ioctl, fd, TCGETS, (long)b) == 0; } errno = ENOTTY; return 0; }
SIMFN(int, dup, (int fd)) { if (!active()) return (int)rt(rsys(SYS_dup, fd)); ENTER("dup"); OfdP o = getfd(p, fd); return (int)rt(o ? addfd(p, o, false) : -EBADF); }
static long do_dup2(Proc *p, int a, int b, bool ce) { OfdP o = getfd(p, a); if (!o) return -EBADF; if (a == b) return b; if (p->fds.count(b)) closefd(p, b); p->fds[b] = {o, ce}; o->nfd++; return b; }
SIMFN(int, dup2, (int a, int b)) { if (!active()) return (int)rt(rsys(SYS_dup2, a, b)); ENTER("dup"); return (int)rt(do_dup2(p, a, b, false)); }
SIMFN(int, dup3, (int a, int b, int fl)) { if (!active()) return (int)rt(rsys(SYS_dup3, a, b, fl)); ENTER("dup"); return (int)rt(do_dup2(p, a, b, fl & O_CLOEXEC)); }
static long do_unlink(Proc *p, const char *a) {
  std::string s = abspath(p, a); InodeP i = lookup(s); if (!i) return -ENOENT; if (i->type == Inode::DIR) return -EISDIR;
  int e = fault_call("unlink", s, nullptr, nullptr); if (e) return -e;
  if (!unlink_path(s)) return -EROFS;
  Lg("unlink").k("path", s).k("p", p->name).n("ino", i->ino).n("type", i->type); trigger("unlink", s); return 0;
}
SIMFN(int, unlink, (const char *a)) { if (!active()) return (int)rt(rsys(SYS_unlink, (long)a)); ENTER("unlink"); return (int)rt(do_unlink(p, a)); }
SIMFN(int, unlinkat, (int dfd, const char *a, int fl)) { if (!active()) return (int)rt(rsys(SYS_unlinkat, dfd, (long)a, fl)); ENTER("unlink"); return (int)rt(do_unlink(p, at_path(p, dfd, a).c_str())); }
SIMFN(int, rename, (const char *a, const char *b)) {
  if (!active()) return (int)rt(rsys(SYS_rename, (long)a, (long)b));
  ENTER("rename"); std::string x = abspath(p, a), y = abspath(p, b); InodeP i = lookup(x); if (!i) return (int)rt(-ENOENT);
  unlink_path(x); if (lookup(y)) unlink_path(y); InodeP t = create_path(y, i->type); if (!t) return (int)rt(-ENOENT);
  size_t k = y.rfind('/'); lookup(k ? y.substr(0, k) : "/")->ents[y.substr(k + 1)] = i; Lg("rename").k("from", x).k("to", y).k("p", p->name); return 0;
}
SIMFN(int, mkdir, (const char *a, mode_t)) {
  if (!active()) return (int)rt(rsys(SYS_mkdir, (long)a, 0755));
  ENTER("mkdir"); std::string s = abspath(p, a); int e = fault_call("mkdir", s, nullptr, nullptr); if (e) return (int)rt(-e); if (lookup(s)) return (int)rt(-EEXIST); if (!is_virtual(s)) return (int)rt(-EROFS); return (int)rt(create_path(s, Inode::DIR) ? 0 : -ENOENT);
}
SIMFN(int, rmdir, (const char *a)) { if (!active()) return (int)rt(rsys(SYS_rmdir, (long)a)); ENTER("rmdir"); std::string s = abspath(p, a); InodeP i = lookup(s); if (!i) return (int)rt(-ENOENT); if (!i->ents.empty()) return (int)rt(-ENOTEMPTY); return (int)rt(unlink_path(s) ? 0 : -EROFS); }
struct SimDir { int magic; std::vector<std::string> names; std::vector<int> types; size_t pos = 0; int fd; struct dirent64 de; };
SIMFN(DIR *, opendir, (const char *a)) {
  if (!active()) return REAL(DIR *, opendir, (const char *), (a));
  ENTER("opendir"); std::string s = abspath(p, a); InodeP i = lookup(s); if (!i) { errno = ENOENT; return nullptr; } if (i->type != Inode::DIR) { errno = ENOTDIR; return nullptr; }
  SimDir *d = new SimDir(); d->magic = 0x51d1; for (auto &kv : i->ents) { d->names.push_back(kv.first); d->types.push_back(kv.second->type == Inode::DIR ? DT_DIR : kv.second->type == Inode::SOCKF ? DT_SOCK : DT_REG); }
  OfdP o = new_ofd(Ofd::DIRK); o->ino = i; o->path = s; d->fd = addfd(p, o, true); return (DIR *)d;
}
SIMFN(struct dirent64 *, readdir64, (DIR * dd)) {
  if (!active()) return REAL(struct dirent64 *, readdir64, (DIR *), (dd));
  ENTER("readdir"); SimDir *d = (SimDir *)dd; if (d->pos >= d->names.size()) return nullptr; memset(&d->de, 0, sizeof d->de); d->de.d_ino = d->pos + 1; d->de.d_type = d->types[d->pos]; strncpy(d->de.d_name, d->names[d->pos].c_str(), 255); d->pos++; return &d->de;
}
SIMFN(int, closedir, (DIR * dd)) { if (!active()) return REAL(int, closedir, (DIR *), (dd)); ENTER("closedir"); SimDir *d = (SimDir *)dd; closefd(p, d->fd); delete d; return 0; }
SIMFN(int, dirfd, (DIR * dd)) { if (!active()) return REAL(int, dirfd, (DIR *), (dd)); return ((SimDir *)dd)->fd; }
SIMFN(ssize_t, readlink, (const char *a, char *b, size_t n)) { if (!active()) return rt(rsys(SYS_readlink, (long)a, (long)b, n)); errno = EINVAL; return -1; }
SIMFN(char *, realpath, (const char *a, char *r)) {
  if (!active()) return REAL(char *, realpath, (const char *, char *), (a, r));
  ENTER("realpath"); std::string s = abspath(p, a); if (!lookup(s)) { errno = ENOENT; return nullptr; }
  if (!r) r = (char *)malloc(4096); strcpy(r, s.c_str()); return r;
}
SIMFN(char *, getcwd, (char *b, size_t n)) { if (!active()) { long r = rsys(SYS_getcwd, (long)b, n); return r < 0 ? nullptr : b; } if (!b) b = (char *)malloc(n ? n : 4096); snprintf(b, n ? n : 4096, "%s", G.curproc->cwd.c_str()); return b; }
SIMFN(int, chdir, (const char *a)) { if (!active()) return (int)rt(rsys(SYS_chdir, (long)a)); ENTER("chdir"); p->cwd = abspath(p, a); return 0; }

// ---------------------------------------------------------------- pipes, epoll, eventfd, inotify, poll
static long do_pipe(Proc *p, int *fd, int fl) {
  int e = fault_call("pipe", p->name, nullptr, nullptr); if (e) return -e;
  OfdP r, w; mk_pipe(p, r, w); r->nonblock = w->nonblock = fl & O_NONBLOCK;
  int a = addfd(p, r, fl & O_CLOEXEC); if (a < 0) return a;
  int b = addfd(p, w, fl & O_CLOEXEC); if (b < 0) { closefd(p, a); return b; }
  fd[0] = a; fd[1] = b; return 0;
}
SIMFN(int, pipe2, (int *fd, int fl)) { if (!active()) return (int)rt(rsys(SYS_pipe2, (long)fd, fl)); ENTER("pipe"); return (int)rt(do_pipe(p, fd, fl)); }
SIMFN(int, pipe, (int *fd)) { if (!active()) return (int)rt(rsys(SYS_pipe2, (long)fd, 0)); ENTER("pipe"); return (int)rt(do_pipe(p, fd, 0)); }
SIMFN(int, epoll_create1, (int fl)) { if (!active()) return (int)rt(rsys(SYS_epoll_create1, fl)); ENTER("epoll"); return (int)rt(addfd(p, new_ofd(Ofd::EPOLL), fl & O_CLOEXEC)); }
SIMFN(int, epoll_create, (int)) { return sim_epoll_create1(0); }
SIMFN(int, epoll_ctl, (int ep, int op, int fd, struct epoll_event *ev)) {
  if (!active()) return (int)rt(rsys(SYS_epoll_ctl, ep, op, fd, (long)ev));
  ENTER("epoll_ctl"); OfdP e = getfd(p, ep), t = getfd(p, fd); if (!e || !t) return (int)rt(-EBADF);
  if (t->k == Ofd::FILE || t->k == Ofd::DIRK) return (int)rt(-EPERM);
  auto it = e->items.find(fd);
  if (it != e->items.end() && it->second->target != t.get()) { EpItem *x = it->second.get(); auto &v = x->target->eps; v.erase(std::remove(v.begin(), v.end(), x), v.end()); auto &r = e->ready; r.erase(std::remove(r.begin(), r.end(), x), r.end()); e->items.erase(it); it = e->items.end(); }
  if (op == EPOLL_CTL_DEL) {
    if (it == e->items.end()) return (int)rt(-ENOENT);
    EpItem *x = it->second.get(); auto &v = t->eps; v.erase(std::remove(v.begin(), v.end(), x), v.end()); auto &r = e->ready; r.erase(std::remove(r.begin(), r.end(), x), r.end()); e->items.erase(it); return 0;
  }
  EpItem *x;
  if (op == EPOLL_CTL_ADD) { if (it != e->items.end()) return (int)rt(-EEXIST); x = new EpItem{e.get(), t.get(), fd, ev->events, ev->data.u64, false, false}; e->items[fd].reset(x); t->eps.push_back(x); }
  else { if (it == e->items.end()) return (int)rt(-ENOENT); x = it->second.get(); x->events = ev->events; x->data = ev->data.u64; x->disabled = false; }
  if (pollmask(t.get()) & (x->events | EPOLLERR | EPOLLHUP)) { if (std::find(e->ready.begin(), e->ready.end(), x) == e->ready.end()) e->ready.push_back(x); for (Thread *w : e->waiters) wake(w); e->waiters.clear(); }
  return 0;
}
SIMFN(int, epoll_wait, (int ep, struct epoll_event *ev, int max, int to)) {
  if (!active()) return (int)rt(rsys(SYS_epoll_wait, ep, (long)ev, max, to));
  ENTER("epoll_wait"); OfdP e = getfd(p, ep); if (!e) return (int)rt(-EBADF);
  ns_t dl = to < 0 ? -1 : G.now + (ns_t)to * MS;
  for (;;) {
    int n = 0;
    if (e->ready.size() > 1 && G.sched.chance(G.evshuffle_p)) { for (size_t i = e->ready.size() - 1; i > 0; i--) std::swap(e->ready[i], e->ready[G.sched.below(i + 1)]); G.fault_count["epoll_shuffle"]++; }
    for (size_t i = 0; i < e->ready.size() && n < max;) {
      EpItem *x = e->ready[i]; uint32_t m = pollmask(x->target) & (x->events | EPOLLERR | EPOLLHUP);
      if (!m) { e->ready.erase(e->ready.begin() + i); continue; }
      ev[n].events = m; ev[n].data.u64 = x->data; n++;
      if (x->events & EPOLLONESHOT) x->disabled = true;
      if (x->events & (EPOLLET | EPOLLONESHOT)) e->ready.erase(e->ready.begin() + i); else i++;
    }
    if (n) return n;
    if (!self->sigs.empty() && !self->insig) { interrupted(); return (int)rt(-EINTR); }
    if (to == 0 || (dl >= 0 && G.now >= dl)) return 0;
    wait_on(e.get()); block(dl); self->intr = false;
  }
}
SIMFN(int, eventfd, (unsigned v, int fl)) { if (!active()) return (int)rt(rsys(SYS_eventfd2, v, fl)); ENTER("eventfd"); OfdP o = new_ofd(Ofd::EVENTFD); o->evcnt = v; o->nonblock = fl & O_NONBLOCK; return (int)rt(addfd(p, o, fl & O_CLOEXEC)); }
SIMFN(int, inotify_init1, (int fl)) { if (!active()) return (int)rt(rsys(SYS_inotify_init1, fl)); ENTER("inotify"); OfdP o = new_ofd(Ofd::INOTIFY); o->nonblock = fl & O_NONBLOCK; return (int)rt(addfd(p, o, fl & O_CLOEXEC)); }
SIMFN(int, inotify_init, (void)) { return sim_inotify_init1(0); }
SIMFN(int, inotify_add_watch, (int fd, const char *a, uint32_t)) {
  if (!active()) return (int)rt(-ENOSYS);
  ENTER("inotify"); OfdP o = getfd(p, fd); if (!o) return (int)rt(-EBADF); InodeP i = lookup(abspath(p, a)); if (!i) return (int)rt(-ENOENT);
  for (auto &kv : o->wds) if (kv.second == i) return kv.first;
  int wd = o->nextwd++; o->wds[wd] = i; i->watches.push_back({o, wd}); return wd;
}
SIMFN(int, inotify_rm_watch, (int fd, int wd)) { if (!active()) return (int)rt(-ENOSYS); ENTER("inotify"); OfdP o = getfd(p, fd); if (!o) return (int)rt(-EBADF); auto it = o->wds.find(wd); if (it == o->wds.end()) return (int)rt(-EINVAL); auto &w = it->second->watches; w.erase(std::remove_if(w.begin(), w.end(), [&](auto &x) { return x.first.lock() == o; }), w.end()); o->wds.erase(it); return 0; }
SIMFN(int, poll, (struct pollfd * f, nfds_t n, int to)) {
  if (!active()) return (int)rt(rsys(SYS_poll, (long)f, n, to));
  ENTER("poll"); ns_t dl = to < 0 ? -1 : G.now + (ns_t)to * MS;
  for (;;) {
    int k = 0;
    for (nfds_t i = 0; i < n; i++) { f[i].revents = 0; if (f[i].fd < 0) continue; OfdP o = getfd(p, f[i].fd); if (!o) { f[i].revents = POLLNVAL; k++; continue; } uint32_t m = pollmask(o.get()) & (f[i].events | POLLERR | POLLHUP); if (m) { f[i].revents = m; k++; } }
    if (k || to == 0 || (dl >= 0 && G.now >= dl)) return k;
    for (nfds_t i = 0; i < n; i++) if (OfdP o = getfd(p, f[i].fd)) wait_on(o.get());
    block(dl); if (!self->sigs.empty() && !self->insig) { interrupted(); return (int)rt(-EINTR); }
  }
}
SIMFN(int, select, (int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)) {
  if (!active()) return (int)rt(rsys(SYS_select, n, (long)r, (long)w, (long)x, (long)tv));
  ENTER("select"); if (n == 0 && tv) return (int)rt(do_sleep(G.now + tv->tv_sec * SEC + tv->tv_usec * US)); errno = ENOSYS; return -1;
}

// ---------------------------------------------------------------- sockets
SIMFN(int, socket, (int dom, int type, int proto)) {
  if (!active()) return (int)rt(rsys(SYS_socket, dom, type, proto));
  ENTER("socket"); int e = fault_call("socket", p->name, nullptr, nullptr); if (e) return (int)rt(-e);
  if (dom != AF_INET && dom != AF_UNIX) return (int)rt(-EAFNOSUPPORT);
  OfdP o = mk_sock(dom == AF_UNIX, p->host); o->nonblock = type & SOCK_NONBLOCK; return (int)rt(addfd(p, o, type & SOCK_CLOEXEC));
}
SIMFN(int, socketpair, (int dom, int type, int proto, int *sv)) {
  if (!active()) return (int)rt(rsys(SYS_socketpair, dom, type, proto, (long)sv));
  ENTER("socket"); OfdP a = mk_sock(true, p->host), b = mk_sock(true, p->host); a->sk->rhost = b->sk->rhost = p->host; a->sk->peer = b; b->sk->peer = a; a->sk->st = b->sk->st = Sock::CONNECTED; a->nonblock = b->nonblock = type & SOCK_NONBLOCK;
  int f0 = addfd(p, a, type & SOCK_CLOEXEC); if (f0 < 0) return (int)rt(f0); int f1 = addfd(p, b, type & SOCK_CLOEXEC); if (f1 < 0) { closefd(p, f0); return (int)rt(f1); } sv[0] = f0; sv[1] = f1; return 0;
}
#define GETSOCK OfdP o = getfd(p, fd); if (!o) return (int)rt(-EBADF); if (o->k != Ofd::SOCK) return (int)rt(-ENOTSOCK); Sock *s = o->sk.get(); (void)s
SIMFN(int, bind, (int fd, const struct sockaddr *a, socklen_t n)) {
  if (!active()) return (int)rt(rsys(SYS_bind, fd, (long)a, n));
  ENTER("bind"); GETSOCK;
  if (s->un) {
    std::string path = abspath(p, ((const struct sockaddr_un *)a)->sun_path); int e = fault_call("bind", path, nullptr, nullptr); if (e) return (int)rt(-e);
    if (lookup(path)) return (int)rt(-EADDRINUSE); InodeP i = create_path(path, Inode::SOCKF); if (!i) return (int)rt(-ENOENT);
    i->listener = o; s->path = path; Lg("bindun").k("path", path).k("p", p->name).n("pid", p->pid); return 0;
  }
  s->lport = ntohs(((const struct sockaddr_in *)a)->sin_port); if (!s->lport) { static int np = 30000; s->lport = np++; } return 0;
}
SIMFN(int, listen, (int fd, int)) { if (!active()) return (int)rt(rsys(SYS_listen, fd, 128)); ENTER("listen"); GETSOCK; s->st = Sock::LISTEN; if (!s->un) { G.ports[s->lport] = o; Lg("listen").n("port", s->lport).k("p", p->name); } return 0; }
static void fill_addr(Sock *s, bool peer, struct sockaddr *a, socklen_t *n) {
  if (!a || !n) return;
  if (s->un) { struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; strncpy(u.sun_path, s->path.c_str(), 107); socklen_t k = s->path.empty() || peer ? 2 : 2 + s->path.size() + 1; memcpy(a, &u, std::min(*n, (socklen_t)sizeof u)); *n = k; return; }
  struct sockaddr_in v; memset(&v, 0, sizeof v); v.sin_family = AF_INET; v.sin_port = htons(peer ? s->rport : s->lport); if (s->st != Sock::LISTEN) v.sin_addr.s_addr = htonl(0x0a000000 + (peer ? s->rhost : s->host)); memcpy(a, &v, std::min(*n, (socklen_t)sizeof v)); *n = sizeof v;
}
static long do_accept(Proc *p, int fd, struct sockaddr *a, socklen_t *n, int fl) {
  for (;;) {
    OfdP o = getfd(p, fd); if (!o) return -EBADF; if (o->k != Ofd::SOCK || o->sk->st != Sock::LISTEN) return -EINVAL;
    if (!o->sk->acceptq.empty()) { int e = fault_call("accept", p->name, nullptr, nullptr); if (e) return -e; OfdP c = o->sk->acceptq.front(); o->sk->acceptq.pop_front(); c->nfd = 0; c->nonblock = fl & SOCK_NONBLOCK; c->owner = p->name; int r = addfd(p, c, fl & SOCK_CLOEXEC); if (r < 0) { o->sk->acceptq.push_front(c); return r; } fill_addr(c->sk.get(), true, a, n); return r; }
    if (o->nonblock) return -EAGAIN;
    wait_on(o.get()); block(-1); if (interrupted()) return -EINTR;
  }
}
SIMFN(int, accept4, (int fd, struct sockaddr *a, socklen_t *n, int fl)) { if (!active()) return (int)rt(rsys(SYS_accept4, fd, (long)a, (long)n, fl)); ENTER("accept"); return (int)rt(do_accept(p, fd, a, n, fl)); }
SIMFN(int, accept, (int fd, struct sockaddr *a, socklen_t *n)) { if (!active()) return (int)rt(rsys(SYS_accept, fd, (long)a, (long)n)); ENTER("accept"); return (int)rt(do_accept(p, fd, a, n, 0)); }
SIMFN(int, connect, (int fd, const struct sockaddr *a, socklen_t n)) {
  if (!active()) return (int)rt(rsys(SYS_connect, fd, (long)a, n));
  ENTER("connect"); GETSOCK;
  if (s->un) return (int)rt(sock_connect(o, true, 0, abspath(p, ((const struct sockaddr_un *)a)->sun_path)));
  long r = sock_connect(o, false, ntohs(((const struct sockaddr_in *)a)->sin_port), "");
  if (r != -EINPROGRESS || o->nonblock) return (int)rt(r);
  while (s->st == Sock::CONNECTING) { wait_on(o.get()); block(-1); if (interrupted()) return (int)rt(-EINTR); }
  if (s->so_error) { int e = s->so_error; s->so_error = 0; return (int)rt(-e); } return 0;
}
SIMFN(int, getsockname, (int fd, struct sockaddr *a, socklen_t *n)) { if (!active()) return (int)rt(rsys(SYS_getsockname, fd, (long)a, (long)n)); ENTER("sockname"); GETSOCK; fill_addr(s, false, a, n); return 0; }
SIMFN(int, getpeername, (int fd, struct sockaddr *a, socklen_t *n)) { if (!active()) return (int)rt(rsys(SYS_getpeername, fd, (long)a, (long)n)); ENTER("sockname"); GETSOCK; if (s->st != Sock::CONNECTED) return (int)rt(-ENOTCONN); fill_addr(s, true, a, n); return 0; }
SIMFN(int, getsockopt, (int fd, int lv, int op, void *v, socklen_t *n)) {
  if (!active()) return (int)rt(rsys(SYS_getsockopt, fd, lv, op, (long)v, (long)n));
  ENTER("sockopt"); GETSOCK; int r = 0; if (lv == SOL_SOCKET && op == SO_ERROR) { r = s->so_error; s->so_error = 0; } else if (lv == SOL_SOCKET && op == SO_TYPE) r = SOCK_STREAM;
  if (v && n && *n >= 4) { memset(v, 0, *n); *(int *)v = r; *n = 4; } return 0;
}
SIMFN(int, setsockopt, (int fd, int, int, const void *, socklen_t)) { if (!active()) return 0; ENTER("sockopt"); GETSOCK; return 0; }
SIMFN(int, shutdown, (int fd, int how)) { if (!active()) return (int)rt(rsys(SYS_shutdown, fd, how)); ENTER("shutdown"); GETSOCK; if (s->st != Sock::CONNECTED) return (int)rt(-ENOTCONN); sock_shutdown(o.get(), how); return 0; }
SIMFN(ssize_t, send, (int fd, const void *b, size_t n, int fl)) { if (!active()) return rt(rsys(SYS_sendto, fd, (long)b, n, fl, 0, 0)); ENTER("send"); return rt(do_write(p, fd, (const char *)b, n)); }
SIMFN(ssize_t, sendto, (int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t)) { return sim_send(fd, b, n, fl); }
SIMFN(ssize_t, recv, (int fd, void *b, size_t n, int fl)) { if (!active()) return rt(rsys(SYS_recvfrom, fd, (long)b, n, fl, 0, 0)); ENTER("recv"); return rt(do_read(p, fd, (char *)b, n, -1, fl & MSG_PEEK)); }
SIMFN(ssize_t, recvfrom, (int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *)) { return sim_recv(fd, b, n, fl); }
SIMFN(ssize_t, sendmsg, (int fd, const struct msghdr *m, int fl)) { if (!active()) return rt(rsys(SYS_sendmsg, fd, (long)m, fl)); ENTER("send"); std::string s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return rt(do_write(p, fd, s.data(), s.size())); }
SIMFN(ssize_t, recvmsg, (int fd, struct msghdr *m, int fl)) { if (!active()) return rt(rsys(SYS_recvmsg, fd, (long)m, fl)); ENTER("recv"); size_t n = 0; for (size_t i = 0; i < m->msg_iovlen; i++) n += m->msg_iov[i].iov_len; std::string s(n, 0); long r = do_read(p, fd, &s[0], n, -1, fl & MSG_PEEK); if (r < 0) return rt(r); s.resize(r); m->msg_flags = 0; m->msg_controllen = 0; return scatter(m->msg_iov, m->msg_iovlen, s); }
SIMFN(int, getaddrinfo, (const char *, const char *, const void *, void **)) { return -2; }
SIMFN(void, freeaddrinfo, (void *)) {}
SIMFN(int, getifaddrs, (void **x)) { *x = nullptr; errno = ENOSYS; return -1; }
SIMFN(void, freeifaddrs, (void *)) {}

// ---------------------------------------------------------------- processes
extern "C" { uint64_t simx_fr[8]; long simx_fork_c(void); void simx_fork_resume(void *dst, void *src, size_t n, long pid, void *alt); }
__asm__(
    ".globl fork\n.type fork,@function\nfork:\n"
    "movq %rbx, simx_fr+0(%rip)\nmovq %rbp, simx_fr+8(%rip)\nmovq %r12, simx_fr+16(%rip)\nmovq %r13, simx_fr+24(%rip)\nmovq %r14, simx_fr+32(%rip)\nmovq %r15, simx_fr+40(%rip)\nmovq %rsp, simx_fr+48(%rip)\n"
    "jmp simx_fork_c\n.size fork,.-fork\n"
    ".globl simx_fork_resume\nsimx_fork_resume:\n"
    "movq %r8, %rsp\nmovq %rcx, %r10\nmovq %rdx, %rcx\nrep movsb\nmovq %r10, %rax\n"
    "movq simx_fr+0(%rip), %rbx\nmovq simx_fr+8(%rip), %rbp\nmovq simx_fr+16(%rip), %r12\nmovq simx_fr+24(%rip), %r13\nmovq simx_fr+32(%rip), %r14\nmovq simx_fr+40(%rip), %r15\nmovq simx_fr+48(%rip), %rsp\nret\n");

static std::string fork_stack; static std::vector<std::string> fork_data; static char *fork_alt;
extern "C" __attribute__((used, noinline)) long simx_fork_c(void) {
  if (!active()) return REAL(pid_t, fork, (void), ());
  uint64_t saved[8]; memcpy(saved, simx_fr, sizeof saved);
  yield_point("fork");
  InSim is; Proc *p = G.curproc;
  if (int e = fault_call("fork", p->name, nullptr, nullptr)) { errno = e; return -1; }
  memcpy(simx_fr, saved, sizeof saved);
  char *lo = (char *)simx_fr[6], *hi = std::min(lo + (256 << 10), self->stack_top);
  fork_stack.assign(lo, hi - lo);
  fork_data.clear(); for (auto &w : images[p->image].wsegs) fork_data.emplace_back(w.first, w.second);
  if (!fork_alt) fork_alt = (char *)malloc(65536) + 65536 - 128;
  Proc *c = new_proc(p->name + ".fork", "fork", p->host, p->pid);
  c->fds = p->fds; for (auto &kv : c->fds) kv.second.o->nfd++;
  c->sa = p->sa; c->cwd = p->cwd; c->image = p->image; c->max_fds = p->max_fds;
  p->env = environ; c->env = environ;
  G.infork = true; G.forkparent = p; G.curproc = c;
  return 0;
}
static void fork_return(void) __attribute__((noreturn));
static void fork_return(void) {
  Proc *c = G.curproc, *p = G.forkparent; int pid = c->pid;
  for (size_t i = 0; i < fork_data.size(); i++) memcpy(images[p->image].wsegs[i].first, fork_data[i].data(), fork_data[i].size());
  environ = p->env; G.curproc = p; G.infork = false; self->insim = 0;
  simx_fork_resume((void *)simx_fr[6], &fork_stack[0], fork_stack.size(), pid, (void *)((uint64_t)fork_alt & ~63ULL));
  __builtin_unreachable();
}
static void log_exec(Proc *c) {
  Lg l("exec"); l.k("name", c->name).k("kind", c->kind).n("pid", c->pid).n("ppid", c->ppid).n("pgid", c->pgid).n("host", c->host); if (c->istask) l.k("key", c->taskkey); Proc *pp = by_pid(c->ppid); if (pp) l.k("by", pp->name);
  std::string s = "["; for (auto &a : c->argv) { if (s.size() > 1) s += ","; jesc(s, a.data(), a.size()); } l.raw("argv", s + "]");
  s = "{"; for (auto &kv : c->fds) { if (s.size() > 1) s += ","; std::string d = describe(kv.second.o.get()); s += "\"" + std::to_string(kv.first) + "\":"; jesc(s, d.data(), d.size()); } l.raw("fds", s + "}");
  s = "["; for (auto &e : c->envs) { if (e.compare(0, 9, "EXECGRAPH") && e.compare(0, 5, "SLURM") && e.compare(0, 2, "T_")) continue; if (s.size() > 1) s += ","; jesc(s, e.data(), e.size()); } l.raw("env", s + "]").k("cwd", c->cwd);
}
// Turns process c into the program `file`; 0 or errno.
static int do_exec(Proc *c, const char *file, char *const *argv, char *const *envp) {
  if (int e = fault_call("exec", file, nullptr, nullptr)) return e;
  std::vector<std::string> av; for (char *const *a = argv; a && *a; a++) av.push_back(*a);
  c->envs.clear(); for (char *const *a = envp; a && *a; a++) c->envs.push_back(*a);
  int e = 0; if (!exec_script(c, file, av, &e)) { Lg l("execfail"); l.k("file", file ? file : "").n("err", e).n("pid", c->pid); Proc *pp = by_pid(c->ppid); if (pp) l.k("by", pp->name); return e; }
  std::vector<int> cl; for (auto &kv : c->fds) if (kv.second.cloexec) cl.push_back(kv.first);
  for (int f : cl) closefd(c, f);
  c->sa.clear(); c->argv = av;
  log_exec(c); trigger("exec", c->name);
  if (c->istask) trigger("exec_task", c->taskkey);
  wake_script(c, 20 * US + (ns_t)G.misc.below(100 * US));
  return 0;
}
SIMFN(int, execve, (const char *f, char *const *a, char *const *e)) { if (!active() || !G.infork) return (int)rt(-ENOSYS); InSim is; int k = do_exec(G.curproc, f, a, e); if (k) return (int)rt(-k); fork_return(); }
SIMFN(int, execvp, (const char *f, char *const *a)) { return sim_execve(f, a, environ); }
SIMFN(int, execv, (const char *f, char *const *a)) { return sim_execve(f, a, environ); }
SIMFN(int, execvpe, (const char *f, char *const *a, char *const *e)) { return sim_execve(f, a, e); }
static void do_exit(int code) __attribute__((noreturn));
static void do_exit(int status) {
  if (!G.on || !self) { rsys(SYS_exit_group, WIFEXITED(status) ? WEXITSTATUS(status) : 99); }
  self->insim++;
  if (G.infork) { proc_exit(G.curproc, status); fork_return(); }
  proc_exit(self->p, status); schedule(); for (;;) ;
}
extern "C" __attribute__((used, visibility("default"), noreturn)) void sim__exit(int c) __asm__("_exit");
void sim__exit(int c) { do_exit((c & 255) << 8); }
extern "C" __attribute__((used, visibility("default"), noreturn)) void sim_exit(int c) __asm__("exit");
void sim_exit(int c) { if (!G.on) { static void (*r)(int) = nullptr; r = (void (*)(int))dlsym(RTLD_NEXT, "exit"); r(c); } do_exit((c & 255) << 8); }
extern "C" __attribute__((used, visibility("default"), noreturn)) void sim_abort(void) __asm__("abort");
void sim_abort(void) { if (!G.on) { long pid = rsys(SYS_getpid); rsys(SYS_kill, pid, SIGABRT); rsys(SYS_exit_group, 134); } probe("abort"); do_exit(SIGABRT); }
SIMFN(int, raise, (int s)) { if (!active()) { rsys(SYS_kill, rsys(SYS_getpid), s); return 0; } InSim is; send_sig(G.curproc, s, G.curproc->pid); if (self->p->dead) schedule(); return 0; }

// posix_spawn
struct FAct { int op, a, b; };   // 0 dup2, 1 close
struct SAttr { short flags = 0; int pgid = 0; };
static std::map<uint64_t, std::vector<FAct>> facts; static std::map<uint64_t, SAttr> sattrs;
SIMFN(int, posix_spawn_file_actions_init, (posix_spawn_file_actions_t * f)) { InSim is; facts[(uint64_t)f].clear(); return 0; }
SIMFN(int, posix_spawn_file_actions_destroy, (posix_spawn_file_actions_t * f)) { InSim is; facts.erase((uint64_t)f); return 0; }
SIMFN(int, posix_spawn_file_actions_adddup2, (posix_spawn_file_actions_t * f, int a, int b)) { InSim is; facts[(uint64_t)f].push_back({0, a, b}); return 0; }
SIMFN(int, posix_spawn_file_actions_addclose, (posix_spawn_file_actions_t * f, int a)) { InSim is; facts[(uint64_t)f].push_back({1, a, 0}); return 0; }
SIMFN(int, posix_spawnattr_init, (posix_spawnattr_t * f)) { InSim is; sattrs[(uint64_t)f] = SAttr(); return 0; }
SIMFN(int, posix_spawnattr_destroy, (posix_spawnattr_t * f)) { InSim is; sattrs.erase((uint64_t)f); return 0; }
SIMFN(int, posix_spawnattr_setflags, (posix_spawnattr_t * f, short x)) { InSim is; sattrs[(uint64_t)f].flags = x; return 0; }
SIMFN(int, posix_spawnattr_setpgroup, (posix_spawnattr_t * f, pid_t x)) { InSim is; sattrs[(uint64_t)f].pgid = x; return 0; }
SIMFN(int, posix_spawnattr_setsigmask, (posix_spawnattr_t *, const sigset_t *)) { return 0; }
SIMFN(int, posix_spawnattr_setsigdefault, (posix_spawnattr_t *, const sigset_t *)) { return 0; }
static int spawn_impl(pid_t *pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const *av, char *const *ev) {
  Proc *p = G.curproc;
  if (int e = fault_call("fork", p->name, nullptr, nullptr)) return e;
  Proc *c = new_proc(p->name + ".fork", "fork", p->host, p->pid);
  c->fds = p->fds; for (auto &kv : c->fds) kv.second.o->nfd++;
  c->cwd = p->cwd; c->max_fds = p->max_fds;
  int e = 0;
  if (at) { auto it = sattrs.find((uint64_t)at); if (it != sattrs.end() && (it->second.flags & POSIX_SPAWN_SETPGROUP)) c->pgid = it->second.pgid ? it->second.pgid : c->pid; }
  if (fa) for (auto &x : facts[(uint64_t)fa]) { if (x.op == 1) closefd(c, x.a); else { OfdP o = getfd(c, x.a); if (!o) { e = EBADF; break; } if (x.a == x.b) c->fds[x.b].cloexec = false; else { if (c->fds.count(x.b)) closefd(c, x.b); c->fds[x.b] = {o, false}; o->nfd++; } } }
  if (!e) e = do_exec(c, f, av, ev);
  if (e) { c->dead = true; std::vector<int> v; for (auto &kv : c->fds) v.push_back(kv.first); for (int x : v) closefd(c, x); reap(c); return e; }
  if (pid) *pid = c->pid;
  return 0;
}
SIMFN(int, posix_spawn, (pid_t * pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const *av, char *const *ev)) { if (!active()) return ENOSYS; ENTER("spawn"); return spawn_impl(pid, f, fa, at, av, ev); }
SIMFN(int, posix_spawnp, (pid_t * pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const *av, char *const *ev)) { if (!active()) return ENOSYS; ENTER("spawn"); return spawn_impl(pid, f, fa, at, av, ev); }

static long do_wait(Proc *p, int pid, int *st, int opt, siginfo_t *si) {
  for (;;) {
    bool any = false;
    for (int c : p->children) {
      Proc *q = by_pid(c); if (!q) continue;
      if (pid > 0 ? c != pid : pid < -1 ? q->pgid != -pid : pid == 0 ? q->pgid != p->pgid : false) continue;
      any = true;
      if (!q->dead || !q->zombie) continue;
      if (st) *st = q->status;
      if (si) { memset(si, 0, sizeof *si); si->si_signo = SIGCHLD; si->si_pid = c; si->si_code = WIFEXITED(q->status) ? CLD_EXITED : CLD_KILLED; si->si_status = WIFEXITED(q->status) ? WEXITSTATUS(q->status) : WTERMSIG(q->status); }
      if (!(opt & WNOWAIT)) { reap(q); Lg("reap").n("pid", c).k("p", p->name); }
      return c;
    }
    if (!any) return -ECHILD;
    if (opt & WNOHANG) return 0;
    p->waitchild.push_back(self); block(-1); if (interrupted()) return -EINTR;
  }
}
SIMFN(pid_t, waitpid, (pid_t pid, int *st, int opt)) { if (!active()) return (pid_t)rt(rsys(SYS_wait4, pid, (long)st, opt, 0)); ENTER("wait"); return (pid_t)rt(do_wait(p, pid, st, opt & ~WNOWAIT, nullptr)); }
SIMFN(pid_t, wait4, (pid_t pid, int *st, int opt, struct rusage *ru)) { if (!active()) return (pid_t)rt(rsys(SYS_wait4, pid, (long)st, opt, (long)ru)); if (ru) memset(ru, 0, sizeof *ru); return sim_waitpid(pid, st, opt); }
SIMFN(int, waitid, (idtype_t t, id_t id, siginfo_t *si, int opt)) { if (!active()) return (int)rt(rsys(SYS_waitid, t, id, (long)si, opt, 0)); ENTER("wait"); long r = do_wait(p, t == P_PID ? (int)id : t == P_PGID ? -(int)id : -1, nullptr, opt, si); if (r == 0 && si) memset(si, 0, sizeof *si); return r < 0 ? (int)rt(r) : 0; }
static long do_kill(Proc *p, int pid, int sig) {
  if (pid > 0) { Proc *q = by_pid(pid); if (!q || (q->dead && !q->zombie) || q->host != p->host) { Lg("kill").k("p", p->name).n("to", pid).n("sig", sig).n("err", ESRCH); return -ESRCH; } Lg("kill").k("p", p->name).n("to", pid).n("sig", sig); send_sig(q, sig, p->pid); return 0; }
  int pg = pid == 0 ? p->pgid : -pid; bool any = false; std::vector<Proc *> v;
  Lg("kill").k("p", p->name).n("pgrp", pg).n("sig", sig);
  for (auto &kv : G.procs) { Proc *q = kv.second.get(); if (q->pgid == pg && q->host == p->host && (!q->dead || q->zombie)) { any = true; if (!q->dead) v.push_back(q); } }
  for (Proc *q : v) if (q != p) send_sig(q, sig, p->pid);
  for (Proc *q : v) if (q == p) send_sig(q, sig, p->pid);
  return any ? 0 : -ESRCH;
}
SIMFN(int, kill, (pid_t pid, int sig)) { if (!active()) return (int)rt(rsys(SYS_kill, pid, sig)); long r; { ENTER("kill"); r = do_kill(p, pid, sig); if (self->p->dead) schedule(); } if (!self->sigs.empty()) run_sigs(); return (int)rt(r); }
SIMFN(int, killpg, (pid_t pg, int sig)) { if (!active()) return (int)rt(-ENOSYS); return sim_kill(-pg, sig); }
SIMFN(pid_t, getpid, (void)) { if (!active()) return rsys(SYS_getpid); return G.curproc->pid; }
SIMFN(pid_t, getppid, (void)) { if (!active()) return rsys(SYS_getppid); return G.curproc->ppid; }
SIMFN(pid_t, gettid, (void)) { if (!active()) return rsys(SYS_gettid); return self->tid; }
SIMFN(pid_t, getpgrp, (void)) { if (!active()) return rsys(SYS_getpgrp); return G.curproc->pgid; }
SIMFN(pid_t, getpgid, (pid_t x)) { if (!active()) return rsys(SYS_getpgid, x); Proc *q = x ? by_pid(x) : G.curproc; return q ? q->pgid : (pid_t)rt(-ESRCH); }
SIMFN(int, setpgid, (pid_t a, pid_t b)) { if (!active()) return (int)rt(-ENOSYS); InSim is; Proc *q = a ? by_pid(a) : G.curproc; if (!q) return (int)rt(-ESRCH); q->pgid = b ? b : q->pid; return 0; }
SIMFN(pid_t, setsid, (void)) { if (!active()) return (pid_t)rt(-ENOSYS); G.curproc->pgid = G.curproc->pid; return G.curproc->pid; }
SIMFN(int, setgroups, (size_t, const gid_t *)) { return 0; }
SIMFN(int, prctl, (int op, unsigned long a, unsigned long b, unsigned long c, unsigned long d)) { if (!active()) return (int)rt(rsys(SYS_prctl, op, a, b, c, d)); if (op == PR_SET_CHILD_SUBREAPER) G.curproc->subreaper = a; return 0; }
SIMFN(int, sigaction, (int s, const struct sigaction *n, struct sigaction *o)) {
  if (!self || !G.on) { if (o) memset(o, 0, sizeof *o); return 0; }
  InSim is; auto &m = G.curproc->sa; if (o) { auto it = m.find(s); if (it == m.end()) memset(o, 0, sizeof *o); else *o = it->second; } if (n) m[s] = *n; return 0;
}
SIMFN(void *, signal, (int s, void *h)) { if (!self || !G.on) return nullptr; InSim is; auto &sa = G.curproc->sa[s]; void *o = (void *)sa.sa_handler; memset(&sa, 0, sizeof sa); sa.sa_handler = (void (*)(int))h; sa.sa_flags = SA_RESTART; return o; }
SIMFN(int, gethostname, (char *b, size_t n)) { if (!active()) { snprintf(b, n, "zygote"); return 0; } snprintf(b, n, "host%d.cluster", G.curproc->host); return 0; }
SIMFN(int, uname, (struct utsname * u)) { if (!active()) return (int)rt(rsys(SYS_uname, (long)u)); memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); snprintf(u->nodename, 60, "host%d.cluster", G.curproc->host); strcpy(u->release, "6.1.0"); strcpy(u->machine, "x86_64"); return 0; }
SIMFN(long, sysconf, (int n)) { if (G.on) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return G.ncpu; if (n == _SC_CLK_TCK) return 100; if (n == _SC_PAGESIZE) return 4096; } return REAL(long, sysconf, (int), (n)); }
SIMFN(int, sched_getaffinity, (pid_t, size_t n, cpu_set_t *s)) { if (!G.on) return (int)rt(-ENOSYS); memset(s, 0, n); for (int i = 0; i < G.ncpu; i++) CPU_SET(i, s); return 0; }
SIMFN(int, getrlimit64, (int r, struct rlimit *l)) { if (!G.on) return (int)rt(rsys(SYS_prlimit64, 0, r, 0, (long)l)); l->rlim_cur = l->rlim_max = r == RLIMIT_NOFILE ? 1024 : RLIM_INFINITY; return 0; }
SIMFN(int, getrlimit, (int r, struct rlimit *l)) { return sim_getrlimit64(r, l); }
SIMFN(int, setrlimit64, (int, const struct rlimit *)) { return 0; }
SIMFN(int, setrlimit, (int, const struct rlimit *)) { return 0; }
