// Shared declarations of the simulated operating system.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "json.h"
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <deque>
#include <dlfcn.h>
#include <functional>
#include <map>
#include <memory>
#include <pthread.h>
#include <queue>
#include <set>
#include <string>
#include <sys/epoll.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unordered_map>
#include <vector>

typedef int64_t ns_t;
static const ns_t US = 1000, MS = 1000000, SEC = 1000000000LL;

static inline long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t u64() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return b <= a ? a : a + (int64_t)below(b - a + 1); }
  double f() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return p > 0 && f() < p; }
};

struct Proc; struct Thread; struct Ofd; struct Inode; struct EpItem;
typedef std::shared_ptr<Ofd> OfdP;
typedef std::shared_ptr<Inode> InodeP;

struct Inode {
  enum { REG, DIR, SOCKF, NULLDEV } type = REG;
  uint64_t ino = 0;
  std::string data;
  std::map<std::string, InodeP> ents;   // DIR
  Ofd *lock = nullptr;                  // flock owner
  std::vector<Thread *> lockwait;
  int nlink = 1;
  ns_t mtime = 0;
  bool ro = false;                      // imported from the real file system
  std::weak_ptr<Ofd> listener;          // SOCKF
  std::vector<std::pair<std::weak_ptr<Ofd>, int>> watches;
  std::string path;                     // first name, for logging
};

struct Pipe { std::deque<char> buf; size_t cap = 65536; int readers = 0, writers = 0; std::weak_ptr<Ofd> r, w; int id = 0; std::string owner; };

struct Seg { std::string data; bool fin = false, rst = false; };
struct Sock {
  enum { NEW, LISTEN, CONNECTING, CONNECTED, DEAD } st = NEW;
  bool un = false;                 // unix domain: no latency
  int host = 0; int lport = 0, rport = 0; int rhost = 0; std::string path;
  std::weak_ptr<Ofd> peer, self;
  std::string rx; bool rx_fin = false, rst = false, tx_fin = false, rd_shut = false;
  size_t inflight = 0; ns_t last_deliver = 0; std::deque<Seg> wire; bool blocked = false;
  int so_error = 0; std::deque<OfdP> acceptq; int id = 0; bool peer_known_dead = false;
  size_t window = 262144; size_t sent = 0;
};

struct EpItem { Ofd *ep; Ofd *target; int fd; uint32_t events; uint64_t data; bool ready; bool disabled; };

struct Ofd : std::enable_shared_from_this<Ofd> {
  enum K { FILE, PIPER, PIPEW, SOCK, EPOLL, EVENTFD, INOTIFY, CONSOLE, DIRK, NULLDEV } k = FILE;
  int id = 0; int nfd = 0; bool nonblock = false, append = false; int acc = 0;
  InodeP ino; uint64_t off = 0; std::string path; std::string owner;
  std::shared_ptr<Pipe> pipe;
  std::unique_ptr<Sock> sk;
  uint64_t evcnt = 0;
  std::string inobuf; int nextwd = 1; std::map<int, InodeP> wds;
  std::map<int, std::unique_ptr<EpItem>> items; std::vector<EpItem *> ready;   // EPOLL
  std::vector<EpItem *> eps;
  std::vector<Thread *> waiters; std::vector<std::pair<int, uint64_t>> swait;
  int conproc = 0, confd = 0;
};
struct FdEnt { OfdP o; bool cloexec = false; };

struct Sig { int sig; int from; };
struct Thread {
  int tid; Proc *p; pthread_t pt; int baton = 0, arrived = 0; char *stack_top = nullptr; enum { RUN, BLOCK, DEAD } st = RUN;
  void *(*start)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr;
  std::vector<Thread *> joiners; std::vector<std::pair<void (*)(void *), void *>> dtors;
  uint64_t gen = 0; bool timedout = false, intr = false; int insim = 0;
  std::deque<Sig> sigs; bool insig = false; int64_t prio = 0; ns_t sleep_until = 0;
  uint64_t nonblock_steps = 0, spin_steps = 0; void *futex_addr = nullptr; uint32_t futex_bits = 0; bool futex_woken = false;
};

struct HttpOp;
struct Proc {
  int pid, ppid, pgid, host; std::string name, kind;   // kind: ctl, remote, task, prov, actor
  bool dead = false, zombie = false, real = false, subreaper = false; int status = 0;
  std::map<int, FdEnt> fds; std::vector<Thread *> threads;
  std::vector<std::string> argv; std::vector<char *> argvp; std::vector<char *> envp; char **env = nullptr; std::vector<std::string> envs; std::set<int> ign; std::string cwd = "/w";
  std::map<int, struct sigaction> sa; std::set<int> sigdfl;
  std::set<int> children; std::vector<Thread *> waitchild;
  int image = -1; uint64_t steps = 0; ns_t stop_until = 0; ns_t born = 0;
  // scripted programs
  J ops; std::vector<std::pair<const J *, size_t>> stk; std::vector<int64_t> loops; uint64_t sgen = 0; int64_t term_ms = -1; int term_code = 0;
  std::string wbuf; size_t woff = 0; int wfd = -1; std::string rbuf; std::map<std::string, std::string> vars; std::shared_ptr<HttpOp> http; ns_t op_deadline = -1; bool term_seen = false;
  // fork child staging
  std::string out[3];
  int fork_of_image = -1;
  std::string taskkey; std::set<int> eagains; bool istask = false; bool fin_python = false;
  int max_fds = 1024;
  std::string rundir;
};

struct Event { ns_t t; uint64_t seq; bool ext; std::function<void()> f; };
struct EvCmp { bool operator()(const Event *a, const Event *b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };

struct Fault { J spec; int64_t seen = 0, nth = 1, count = 1, partial = -1; uint64_t step = 0; bool fired = false, kill = false; std::string on, match, call, proc, err; };

struct Global {
  bool on = false; ns_t now = 0; uint64_t steps = 0, evseq = 0, switches = 0, preempts = 0;
  std::priority_queue<Event *, std::vector<Event *>, EvCmp> heap; int ext_pending = 0; ns_t last_ext = 0;
  std::vector<Thread *> runq; std::vector<std::unique_ptr<Thread>> threads; std::map<int, std::unique_ptr<Proc>> procs;
  Proc *curproc = nullptr; bool infork = false; Proc *forkparent = nullptr;
  Rng sched{0}, net{0}, misc{0}, ent{0};
  std::string hist; uint64_t histseq = 0, swhash = 1469598103934665603ULL, idle_jumps = 0; bool have_stepfaults = false, have_callfaults = false, closing_silent = false; std::map<int, ns_t> suspend; uint64_t hash = 1469598103934665603ULL;
  int next_tid = 1, next_pid = 1000, next_ofd = 1, next_pipe = 1, next_sock = 1; uint64_t next_ino = 100;
  InodeP root; J sc;
  std::map<uint64_t, std::deque<Thread *>> futex;
  std::vector<Fault> faults; std::map<std::string, int64_t> fault_count; std::map<std::string, int64_t> probes; std::map<std::string, int64_t> trig;
  // parameters
  double sys_p = 0.2; int64_t edge_mean = 0; double stall_p = 0; uint32_t hot_thr = 0, hot_salt = 0; int64_t hot_left = 1500; std::map<uint32_t, int> hot_seen; bool pct = false; std::vector<uint64_t> pct_points; uint64_t pct_pos = 0; int64_t max_preempt = -1;
  ns_t lat_min = 50 * US, lat_max = 500 * US; double partial_p = 0; double spurious_p = 0; double evshuffle_p = 0; double slow_p = 0, pipe_small_p = 0;
  ns_t stall_limit = 150 * SEC, time_limit = 4000 * SEC; uint64_t step_limit = 6000000; int ncpu = 4;
  std::map<int, ns_t> skew; ns_t suspended = 0; std::map<int, ns_t> hostcost;
  std::set<int> downhosts; std::set<std::pair<int, int>> parts; std::map<int, std::weak_ptr<Ofd>> ports;
  int64_t edge_budget = 1; int64_t edge_budget0 = 1; uint64_t edges = 0; int64_t cost_mult = 1; uint64_t steps_since_idle = 0;
  std::string url; std::string token; int nprovs = 0; uint64_t sockwindow = 262144;
  bool ending = false; std::map<std::string, std::string> rfiles;
  int exec_running = 0;
};
extern Global G;
extern __thread Thread *self;
extern unsigned char *covmap;
extern uint32_t covn;
extern int out_fd; extern char **real_argv; extern int real_argc;
extern "C" char **environ;

// core.cpp
void schedule();
void yield_point(const char *what, int64_t a = 0);
bool block(ns_t deadline);   // returns false when timed out
void wake(Thread *t);
void at(ns_t t, std::function<void()> f, bool ext = false);
void finish(const char *status);
void logev(const std::string &s);
struct Lg { std::string s; Lg(const char *e); Lg &k(const char *k, const std::string &v); Lg &k(const char *k, const char *v) { return this->k(k, std::string(v)); } Lg &n(const char *k, int64_t v); Lg &raw(const char *k, const std::string &v); ~Lg(); };
Thread *new_thread(Proc *p, void *(*f)(void *), void *arg, const pthread_attr_t *attr);
void thread_die();
Proc *new_proc(const std::string &name, const std::string &kind, int host, int ppid);
void proc_exit(Proc *p, int status);
void send_sig(Proc *p, int sig, int from);
void run_sigs();
void swap_proc(Proc *p);
void probe(const char *name);
void trigger(const std::string &name, const std::string &detail = "");
int fault_call(const char *call, const std::string &path, size_t *partial, bool *kill);   // returns errno or 0
Proc *by_name(const std::string &n);
Proc *by_pid(int pid);
static inline bool active() { return G.on && self && !self->insim; }
struct InSim { Thread *t; InSim() : t(self) { if (t) t->insim++; } ~InSim() { if (t) t->insim--; } };

// vfs / fds
OfdP getfd(Proc *p, int fd);
int addfd(Proc *p, OfdP o, bool cloexec, int minfd = 0);
int closefd(Proc *p, int fd);
OfdP new_ofd(Ofd::K k);
void notify(Ofd *o, uint32_t mask);
uint32_t pollmask(Ofd *o);
InodeP lookup(const std::string &path);
InodeP create_path(const std::string &path, int type);
bool unlink_path(const std::string &path);
std::string abspath(Proc *p, const char *s);
void mkdirs(const std::string &path);
void file_changed(Inode *i);
void append_file(const std::string &path, const std::string &data);
std::string describe(Ofd *o);
std::string patbytes(int64_t n, uint64_t seed, bool bin); std::string noisebytes(int64_t n, uint64_t seed);
void procfs_refresh(int host);
bool is_virtual(const std::string &p);
// sockets
OfdP mk_sock(bool un, int host);
int sock_connect(OfdP o, bool un, int port, const std::string &path);
ssize_t sock_send(OfdP o, const char *d, size_t n);
ssize_t sock_recv(OfdP o, char *d, size_t n, bool peek = false);
void sock_closed(Ofd *o, bool silent);
void sock_shutdown(Ofd *o, int how);
void heal();
void reset_conns(int host);
ssize_t pipe_write(Ofd *o, const char *d, size_t n);   // bytes, -EAGAIN, -EPIPE
ssize_t pipe_read(Ofd *o, char *d, size_t n);
void mk_pipe(Proc *p, OfdP &r, OfdP &w);
// scripts
void run_script(Proc *p);
void wake_script(Proc *p, ns_t delay);
Proc *start_script(const std::string &name, const std::string &kind, int host, int ppid, const J &ops, std::map<int, FdEnt> fds, int pgid);
bool exec_script(Proc *p, const std::string &file, const std::vector<std::string> &argv, int *err);
void setup_scenario();
void apply_fault_spec(const J &f);
void load_faults(const J &a);
void check_end();
void reap(Proc *p);
Proc *start_remote(const J &spec, int host, const std::map<std::string, std::string> &env);
