// Virtual kernel objects: files, descriptors, pipes, sockets, epoll, inotify.
#include "core.h"
#include <fcntl.h>
#include <sys/inotify.h>
#include <sys/syscall.h>

// ---------------------------------------------------------------- descriptors
OfdP new_ofd(Ofd::K k) { auto o = std::make_shared<Ofd>(); o->k = k; o->id = G.next_ofd++; if (G.curproc) o->owner = G.curproc->name; return o; }
OfdP getfd(Proc *p, int fd) { auto it = p->fds.find(fd); return it == p->fds.end() ? nullptr : it->second.o; }
int addfd(Proc *p, OfdP o, bool cloexec, int minfd) {
  int fd = minfd; while (p->fds.count(fd)) fd++;
  if (fd >= p->max_fds) { Lg("emfile").k("p", p->name).n("fd", fd); return -EMFILE; }
  p->fds[fd] = {o, cloexec}; o->nfd++; return fd;
}
static void release(Ofd *o);
int closefd(Proc *p, int fd) {
  auto it = p->fds.find(fd); if (it == p->fds.end()) return -EBADF;
  OfdP o = it->second.o; p->fds.erase(it);
  for (auto *e : std::vector<EpItem *>(o->eps)) { (void)e; }
  if (--o->nfd == 0) release(o.get());
  return 0;
}
static void ep_remove(EpItem *e) {
  auto &v = e->target->eps; v.erase(std::remove(v.begin(), v.end(), e), v.end());
  auto &r = e->ep->ready; r.erase(std::remove(r.begin(), r.end(), e), r.end());
}
static void release(Ofd *o) {
  for (auto *e : std::vector<EpItem *>(o->eps)) { Ofd *ep = e->ep; int fd = e->fd; ep_remove(e); auto it = ep->items.find(fd); if (it != ep->items.end() && it->second.get() == e) ep->items.erase(it); }
  if (o->k == Ofd::EPOLL) { for (auto &kv : o->items) { EpItem *e = kv.second.get(); auto &v = e->target->eps; v.erase(std::remove(v.begin(), v.end(), e), v.end()); } o->items.clear(); o->ready.clear(); }
  if (o->k == Ofd::FILE && o->ino && o->ino->lock == o) { o->ino->lock = nullptr; Lg("unlock").k("path", o->path).k("owner", o->owner); for (Thread *t : o->ino->lockwait) wake(t); o->ino->lockwait.clear(); }
  if (o->k == Ofd::PIPER) { o->pipe->readers--; if (!o->pipe->readers) { if (auto w = o->pipe->w.lock()) notify(w.get(), EPOLLOUT | EPOLLERR); } }
  if (o->k == Ofd::PIPEW) { o->pipe->writers--; if (!o->pipe->writers) { if (auto r = o->pipe->r.lock()) notify(r.get(), EPOLLIN | EPOLLHUP); } }
  if (o->k == Ofd::SOCK) sock_closed(o, G.closing_silent);
  if (o->k == Ofd::INOTIFY) for (auto &kv : o->wds) { auto &w = kv.second->watches; w.erase(std::remove_if(w.begin(), w.end(), [&](auto &x) { auto q = x.first.lock(); return !q || q.get() == o; }), w.end()); }
}
void notify(Ofd *o, uint32_t mask) {
  for (Thread *t : o->waiters) wake(t);
  o->waiters.clear();
  for (auto *e : o->eps) {
    if (e->disabled || !(((e->events) | EPOLLERR | EPOLLHUP) & mask)) continue;
    if (std::find(e->ep->ready.begin(), e->ep->ready.end(), e) == e->ep->ready.end()) e->ep->ready.push_back(e);
    for (Thread *t : e->ep->waiters) wake(t);
    e->ep->waiters.clear();
  }
  if (!o->swait.empty()) { auto v = std::move(o->swait); o->swait.clear(); for (auto &x : v) { Proc *p = by_pid(x.first); if (p && !p->dead && p->sgen == x.second) wake_script(p, 0); } }
}
uint32_t pollmask(Ofd *o) {
  uint32_t m = 0;
  switch (o->k) {
    case Ofd::FILE: case Ofd::NULLDEV: case Ofd::CONSOLE: case Ofd::DIRK: return EPOLLIN | EPOLLOUT;
    case Ofd::PIPER: if (!o->pipe->buf.empty()) m |= EPOLLIN; if (!o->pipe->writers) m |= EPOLLHUP; return m;
    case Ofd::PIPEW: if (!o->pipe->readers) return EPOLLOUT | EPOLLERR; if (o->pipe->cap - o->pipe->buf.size() >= 4096) m |= EPOLLOUT; return m;
    case Ofd::EVENTFD: if (o->evcnt) m |= EPOLLIN; return m | EPOLLOUT;
    case Ofd::INOTIFY: return o->inobuf.empty() ? 0 : EPOLLIN;
    case Ofd::EPOLL: return o->ready.empty() ? 0 : EPOLLIN;
    case Ofd::SOCK: {
      Sock *s = o->sk.get();
      if (s->st == Sock::LISTEN) return s->acceptq.empty() ? 0 : EPOLLIN;
      if (s->st == Sock::NEW) return EPOLLOUT | EPOLLHUP;
      if (s->st == Sock::CONNECTING) return 0;
      if (!s->rx.empty() || s->rx_fin || s->rst || s->rd_shut) m |= EPOLLIN;
      if (s->rx_fin || s->rd_shut) m |= EPOLLRDHUP;
      if (s->rst || s->so_error) m |= EPOLLERR | EPOLLHUP | EPOLLIN | EPOLLOUT;
      if (s->rx_fin && s->tx_fin) m |= EPOLLHUP;
      if (s->st == Sock::DEAD) m |= EPOLLHUP | EPOLLIN | EPOLLOUT;
      else if (s->inflight < s->window) m |= EPOLLOUT;
      return m;
    }
  }
  return m;
}
std::string describe(Ofd *o) {
  switch (o->k) {
    case Ofd::FILE: return "file:" + o->path;
    case Ofd::NULLDEV: return "null";
    case Ofd::CONSOLE: return "console:" + std::to_string(o->confd) + ":" + o->owner;
    case Ofd::PIPER: return "piper:" + std::to_string(o->pipe->id) + ":" + o->pipe->owner;
    case Ofd::PIPEW: return "pipew:" + std::to_string(o->pipe->id) + ":" + o->pipe->owner;
    case Ofd::EVENTFD: return "eventfd:" + o->owner;
    case Ofd::INOTIFY: return "inotify:" + o->owner;
    case Ofd::EPOLL: return "epoll:" + o->owner;
    case Ofd::DIRK: return "dir:" + o->path;
    case Ofd::SOCK: return (o->sk->un ? "unix:" : "tcp:") + std::to_string(o->sk->id) + ":" + o->owner;
  }
  return "?";
}

// ---------------------------------------------------------------- files
bool is_virtual(const std::string &p) {
  static const char *pre[] = {"/w", "/run/user", "/proc", "/scratch", "/tmp", "/dev"};
  for (auto x : pre) { size_t n = strlen(x); if (p.compare(0, n, x) == 0 && (p.size() == n || p[n] == '/')) return true; }
  return false;
}
std::string abspath(Proc *p, const char *s) {
  std::string r = s[0] == '/' ? s : p->cwd + "/" + s;
  std::vector<std::string> c; size_t i = 0;
  while (i < r.size()) { size_t j = r.find('/', i); if (j == std::string::npos) j = r.size(); std::string x = r.substr(i, j - i); if (x == "..") { if (!c.empty()) c.pop_back(); } else if (!x.empty() && x != ".") c.push_back(x); i = j + 1; }
  std::string o; for (auto &x : c) o += "/" + x;
  return o.empty() ? "/" : o;
}
static InodeP mk_inode(decltype(Inode::type) t) { auto i = std::make_shared<Inode>(); i->type = t; i->ino = G.next_ino++; i->mtime = G.now; return i; }
static InodeP import_real(const std::string &path) {
  long fd = rsys(SYS_open, (long)path.c_str(), O_RDONLY | O_CLOEXEC, 0);
  if (fd < 0) return nullptr;
  InodeP i;
  struct stat st; rsys(SYS_fstat, fd, (long)&st);
  if (S_ISREG(st.st_mode) && st.st_size < (64 << 20)) {
    i = mk_inode(Inode::REG); i->ro = true; i->path = path;
    char b[65536]; long r; while ((r = rsys(SYS_read, fd, (long)b, sizeof b)) > 0) i->data.append(b, r);
  } else if (S_ISDIR(st.st_mode)) { i = mk_inode(Inode::DIR); i->ro = true; i->path = path; }
  rsys(SYS_close, fd);
  return i;
}
static std::string proc_stat(Proc *q) {
  char b[512]; snprintf(b, 512, "%d (%s) %c %d %d %d 0 -1 0 0 0 0 0 1 1 0 0 20 0 1 0 %lld 1000000 100 18446744073709551615 0 0 0 0 0 0 0 0 0 0 0 0 17 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0\n", q->pid, q->kind == "task" ? "simtask" : q->kind.c_str(), q->dead ? 'Z' : 'S', q->ppid, q->pgid, q->pid, (long long)(q->born / 10000000));
  return b;
}
static InodeP procfs(const std::string &path) {
  int host = G.curproc->host;
  auto reg = [&](const std::string &d) { auto i = mk_inode(Inode::REG); i->data = d; i->ro = true; i->path = path; return i; };
  if (path == "/proc") {
    auto i = mk_inode(Inode::DIR); i->path = path; i->ro = true;
    for (auto &kv : G.procs) { Proc *q = kv.second.get(); if (q->host == host && (!q->dead || q->zombie)) { auto d = mk_inode(Inode::DIR); d->ro = true; i->ents[std::to_string(q->pid)] = d; } }
    return i;
  }
  if (path == "/proc/stat") return reg("cpu  0 0 0 0 0 0 0 0 0 0\ncpu0 0 0 0 0 0 0 0 0 0 0\nbtime 1700000000\n");
  if (path == "/proc/meminfo") return reg("MemTotal: 32000000 kB\nMemFree: 16000000 kB\nMemAvailable: 16000000 kB\n");
  if (path == "/proc/uptime") return reg(std::to_string(1000 + G.now / SEC) + ".00 1.00\n");
  int pid = 0, n = 0; 
  if (sscanf(path.c_str(), "/proc/%d%n", &pid, &n) == 1) {
    Proc *q = by_pid(pid); if (!q || q->host != host || (q->dead && !q->zombie)) return nullptr;
    std::string rest = path.substr(n);
    if (rest.empty()) { auto d = mk_inode(Inode::DIR); d->ro = true; d->path = path; return d; }
    if (rest == "/stat") return reg(proc_stat(q));
    if (rest == "/cmdline") { std::string c; for (auto &a : q->argv) c += a + std::string(1, 0); return reg(c); }
    if (rest == "/status") return reg("Name:\tx\nState:\tS (sleeping)\nPid:\t" + std::to_string(pid) + "\nPPid:\t" + std::to_string(q->ppid) + "\nUid:\t0\t0\t0\t0\nGid:\t0\t0\t0\t0\n");
    if (rest == "/statm") return reg("100 100 100 1 0 1 0\n");
  }
  return nullptr;
}
InodeP lookup(const std::string &path) {
  if (path.compare(0, 5, "/proc") == 0 && (path.size() == 5 || path[5] == '/')) return procfs(path);
  InodeP d = G.root; size_t i = 1;
  while (i < path.size()) {
    size_t j = path.find('/', i); if (j == std::string::npos) j = path.size();
    if (d->type != Inode::DIR) return nullptr;
    auto it = d->ents.find(path.substr(i, j - i));
    if (it == d->ents.end()) { if (is_virtual(path)) return nullptr; return import_real(path); }
    d = it->second; i = j + 1;
  }
  return d;
}
static InodeP parent_of(const std::string &path, std::string &leaf) {
  size_t k = path.rfind('/'); leaf = path.substr(k + 1);
  return lookup(k == 0 ? "/" : path.substr(0, k));
}
InodeP create_path(const std::string &path, int type) {
  std::string leaf; InodeP d = parent_of(path, leaf);
  if (!d || d->type != Inode::DIR || d->ro || leaf.empty()) return nullptr;
  auto i = mk_inode((decltype(Inode::type))type); i->path = path; d->ents[leaf] = i; return i;
}
bool unlink_path(const std::string &path) {
  std::string leaf; InodeP d = parent_of(path, leaf);
  if (!d || d->type != Inode::DIR || !d->ents.count(leaf)) return false;
  InodeP i = d->ents[leaf]; i->nlink--; d->ents.erase(leaf); return true;
}
void mkdirs(const std::string &path) {
  size_t i = 1; InodeP d = G.root;
  while (i <= path.size()) { size_t j = path.find('/', i); if (j == std::string::npos) j = path.size(); std::string c = path.substr(i, j - i); if (!c.empty()) { if (!d->ents.count(c)) { d->ents[c] = mk_inode(Inode::DIR); d->ents[c]->path = path.substr(0, j); } d = d->ents[c]; } i = j + 1; }
}
void file_changed(Inode *i) {
  i->mtime = G.now;
  for (auto &w : i->watches) {
    auto o = w.first.lock(); if (!o) continue;
    struct inotify_event ev; memset(&ev, 0, sizeof ev); ev.wd = w.second; ev.mask = IN_MODIFY;
    bool was = o->inobuf.empty();
    // identical consecutive events coalesce
    if (o->inobuf.size() >= sizeof ev && !memcmp(o->inobuf.data() + o->inobuf.size() - sizeof ev, &ev, sizeof ev)) continue;
    o->inobuf.append((char *)&ev, sizeof ev); (void)was;
    notify(o.get(), EPOLLIN);
  }
}
void append_file(const std::string &path, const std::string &data) {
  InodeP i = lookup(path);
  if (!i) { size_t k = path.rfind('/'); mkdirs(path.substr(0, k)); i = create_path(path, Inode::REG); }
  if (!i) return;
  i->data += data; file_changed(i.get());
}
std::string noisebytes(int64_t n, uint64_t seed) {      // text that does not compress
  std::string r; r.reserve(n); uint64_t x = seed * 2654435761u + 12345;
  for (int64_t i = 0; i < n; i++) { x = (x * 6364136223846793005ull + 1442695040888963407ull); r += (char)(33 + (x >> 33) % 90); }
  return r;
}
std::string patbytes(int64_t n, uint64_t seed, bool bin) {
  std::string r; r.reserve(n + 32); uint64_t i = 0;
  while ((int64_t)r.size() < n) {
    char b[64]; int k = snprintf(b, 64, "%llx.%llu\n", (unsigned long long)seed, (unsigned long long)i);
    r.append(b, k);
    if (bin) { r += (char)(0x80 + (i * 37 + seed) % 128); if (i % 3 == 0) r += "\xe2\x82\xac"; if (i % 5 == 0) r += "\xf0\x9f\x98"; }
    i++;
  }
  r.resize(n); return r;
}

// ---------------------------------------------------------------- pipes
void mk_pipe(Proc *p, OfdP &r, OfdP &w) {
  auto pp = std::make_shared<Pipe>(); pp->id = G.next_pipe++; pp->owner = p->name; pp->readers = pp->writers = 1; if (G.pipe_small_p > 0 && G.net.chance(G.pipe_small_p)) { pp->cap = 4096; G.fault_count["pipe_one_page"]++; }
  r = new_ofd(Ofd::PIPER); w = new_ofd(Ofd::PIPEW); r->pipe = w->pipe = pp; r->acc = O_RDONLY; w->acc = O_WRONLY; pp->r = r; pp->w = w;
}
ssize_t pipe_write(Ofd *o, const char *d, size_t n) {
  Pipe &p = *o->pipe;
  if (!p.readers) return -EPIPE;
  if (!n) return 0;
  size_t room = p.cap - p.buf.size();
  if (n <= 4096 ? room < n : room == 0) return -EAGAIN;
  size_t k = std::min(n, room);
  bool was = p.buf.empty(); (void)was;
  p.buf.insert(p.buf.end(), d, d + k);
  if (auto r = p.r.lock()) notify(r.get(), EPOLLIN);
  return k;
}
ssize_t pipe_read(Ofd *o, char *d, size_t n) {
  Pipe &p = *o->pipe;
  if (p.buf.empty()) return p.writers ? -EAGAIN : 0;
  size_t k = std::min(n, p.buf.size());
  bool wasfull = p.cap - p.buf.size() < 4096;
  std::copy(p.buf.begin(), p.buf.begin() + k, d); p.buf.erase(p.buf.begin(), p.buf.begin() + k);
  if (wasfull && p.cap - p.buf.size() >= 4096) if (auto w = p.w.lock()) notify(w.get(), EPOLLOUT);
  return k;
}

// ---------------------------------------------------------------- sockets
OfdP mk_sock(bool un, int host) { OfdP o = new_ofd(Ofd::SOCK); o->sk.reset(new Sock()); o->sk->un = un; o->sk->host = host; o->sk->id = G.next_sock++; o->sk->self = o; return o; }
static bool cut(int a, int b) { return a != b && G.parts.count({std::min(a, b), std::max(a, b)}); }
static ns_t latency(Sock *s) {
  if (s->un) return 0;
  if (s->host == s->rhost) return 5 * US + (ns_t)G.net.below(20 * US);
  ns_t l = G.net.range(G.lat_min, G.lat_max);
  if (G.slow_p > 0 && G.net.chance(G.slow_p)) { l += G.net.range(10 * MS, 2 * SEC); G.fault_count["net_delay"]++; }
  return l;
}
static void deliver(std::weak_ptr<Ofd> wsrc, std::weak_ptr<Ofd> wdst);
static void push_seg(Sock *s, Seg seg) {
  auto dst = s->peer.lock();
  s->wire.push_back(std::move(seg));
  if (cut(s->host, s->rhost)) { s->blocked = true; return; }
  ns_t t = std::max(s->last_deliver, G.now + latency(s)); s->last_deliver = t;
  std::weak_ptr<Ofd> a = s->self, b = s->peer;
  if (s->un) { deliver(a, b); return; }
  // the wire outlives the socket object
  OfdP keep = s->self.lock();
  at(t, [keep, b] { deliver(keep, b); });
}
static void deliver(std::weak_ptr<Ofd> wsrc, std::weak_ptr<Ofd> wdst) {
  OfdP src = wsrc.lock(), dst = wdst.lock();
  if (!src) return;
  Sock *s = src->sk.get();
  if (s->wire.empty()) return;
  if (cut(s->host, s->rhost)) { s->blocked = true; return; }
  Seg seg = std::move(s->wire.front()); s->wire.pop_front();
  if (!dst || dst->nfd == 0 || dst->sk->st == Sock::DEAD) {
    s->inflight -= std::min(s->inflight, seg.data.size());
    if (s->peer_known_dead || G.downhosts.count(s->rhost)) return;   // black hole
    if (!seg.data.empty() && !s->rst && src->nfd > 0) {              // peer closed: reset comes back
      std::weak_ptr<Ofd> w = src; at(G.now + latency(s), [w] { auto o = w.lock(); if (o && o->sk->st == Sock::CONNECTED) { o->sk->rst = true; o->sk->so_error = ECONNRESET; o->sk->st = Sock::DEAD; notify(o.get(), EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP); } });
    }
    return;
  }
  Sock *d = dst->sk.get();
  if (seg.rst) { if (d->st == Sock::CONNECTED) { d->rst = true; d->so_error = ECONNRESET; d->st = Sock::DEAD; notify(dst.get(), EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP); } return; }
  if (seg.fin) { d->rx_fin = true; notify(dst.get(), EPOLLIN | EPOLLRDHUP | (d->tx_fin ? EPOLLHUP : 0)); return; }
  d->rx += seg.data; notify(dst.get(), EPOLLIN);
}
void heal() {
  for (auto &kv : G.procs) for (auto &f : kv.second->fds) {
    Ofd *o = f.second.o.get(); if (o->k != Ofd::SOCK || !o->sk->blocked) continue;
    Sock *s = o->sk.get(); if (cut(s->host, s->rhost)) continue;
    s->blocked = false; std::weak_ptr<Ofd> b = s->peer; OfdP keep = f.second.o; size_t n = s->wire.size();
    ns_t t = G.now + G.net.range(1 * MS, 400 * MS);   // retransmission timer
    for (size_t i = 0; i < n; i++) { t += latency(s); at(t, [keep, b] { deliver(keep, b); }); }
    s->last_deliver = t;
  }
}
void reset_conns(int host) {
  std::vector<OfdP> v;
  for (auto &kv : G.procs) for (auto &f : kv.second->fds) { OfdP o = f.second.o; if (o->k == Ofd::SOCK && !o->sk->un && o->sk->st == Sock::CONNECTED && (o->sk->host == host || o->sk->rhost == host) && o->sk->host != o->sk->rhost) v.push_back(o); }
  for (auto &o : v) { o->sk->rst = true; o->sk->so_error = ECONNRESET; o->sk->st = Sock::DEAD; o->sk->rx.clear(); notify(o.get(), EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP); G.fault_count["conn_reset"]++; }
}
int sock_connect(OfdP o, bool un, int port, const std::string &path) {
  Sock *s = o->sk.get();
  if (s->st != Sock::NEW) return s->st == Sock::CONNECTING ? -EALREADY : -EISCONN;
  if (un) {
    InodeP i = lookup(path); if (!i) return -ENOENT;
    OfdP l = i->type == Inode::SOCKF ? i->listener.lock() : nullptr;
    if (!l || l->nfd == 0) return -ECONNREFUSED;
    OfdP c = mk_sock(true, s->host); c->owner = l->owner;
    c->sk->peer = o; s->peer = c; c->sk->st = s->st = Sock::CONNECTED; c->sk->rhost = s->rhost = s->host;
    l->sk->acceptq.push_back(c); c->nfd = 1; notify(l.get(), EPOLLIN); return 0;
  }
  s->rport = port; s->st = Sock::CONNECTING; s->lport = 40000 + s->id;
  auto it = G.ports.find(port); OfdP l = it == G.ports.end() ? nullptr : it->second.lock();
  s->rhost = l ? l->sk->host : 0;
  std::weak_ptr<Ofd> w = o;
  std::function<void()> syn = [w, port] {
    OfdP o = w.lock(); if (!o || o->nfd == 0) return; Sock *s = o->sk.get();
    if (s->st != Sock::CONNECTING) return;
    if (G.downhosts.count(s->rhost)) return;
    auto it = G.ports.find(port); OfdP l = it == G.ports.end() ? nullptr : it->second.lock();
    if (cut(s->host, s->rhost)) { s->blocked = true; std::weak_ptr<Ofd> w2 = w; ns_t d = 1 * SEC;
      at(G.now + d, [w2, port] { OfdP o = w2.lock(); if (o && o->nfd && o->sk->st == Sock::CONNECTING) { o->sk->st = Sock::NEW; int h = o->sk->rhost; sock_connect(o, false, port, ""); o->sk->rhost = h; } }); return; }
    if (!l || l->nfd == 0) { at(G.now + latency(s), [w] { OfdP o = w.lock(); if (o && o->nfd) { o->sk->st = Sock::DEAD; o->sk->so_error = ECONNREFUSED; notify(o.get(), EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP); } }); return; }
    OfdP c = mk_sock(false, l->sk->host); c->owner = l->owner; c->sk->peer = o; c->sk->rhost = s->host; c->sk->lport = port; c->sk->rport = s->lport; c->sk->st = Sock::CONNECTED; s->peer = c; c->nfd = 1;
    l->sk->acceptq.push_back(c); notify(l.get(), EPOLLIN);
    at(G.now + latency(s), [w] { OfdP o = w.lock(); if (o && o->nfd && o->sk->st == Sock::CONNECTING) { o->sk->st = Sock::CONNECTED; notify(o.get(), EPOLLOUT); } });
  };
  at(G.now + latency(s), syn);
  return -EINPROGRESS;
}
ssize_t sock_send(OfdP o, const char *d, size_t n) {
  Sock *s = o->sk.get();
  if (s->so_error) { int e = s->so_error; s->so_error = 0; return -e; }
  if (s->st == Sock::NEW) return -ENOTCONN;
  if (s->st == Sock::CONNECTING) return -EAGAIN;
  if (s->st == Sock::DEAD || s->tx_fin) return -EPIPE;
  OfdP peer = s->peer.lock();
  if (s->un && (!peer || peer->nfd == 0)) return -EPIPE;
  if (s->inflight >= s->window) return -EAGAIN;
  size_t k = std::min(n, s->window - s->inflight);
  s->inflight += k;
  size_t off = 0;
  while (off < k) {
    // a connection's first bytes stay in one segment (TCP sends a first small write as one packet)
    size_t m = k - off; if (s->sent >= 24 && !s->un && m > 1 && G.net.chance(G.partial_p)) { m = 1 + G.net.below(m); G.fault_count["net_fragment"]++; }
    push_seg(s, Seg{std::string(d + off, m), false, false}); off += m; s->sent += m;
  }
  return k;
}
ssize_t sock_recv(OfdP o, char *d, size_t n, bool peek) {
  Sock *s = o->sk.get();
  if (s->st == Sock::NEW) return -ENOTCONN;
  if (s->rx.empty()) {
    if (s->so_error) { int e = s->so_error; s->so_error = 0; return -e; }
    if (s->rx_fin || s->rd_shut || s->st == Sock::DEAD) return 0;
    return -EAGAIN;
  }
  size_t k = std::min(n, s->rx.size());
  memcpy(d, s->rx.data(), k);
  if (!peek) {
    s->rx.erase(0, k);
    if (OfdP p = s->peer.lock()) { Sock *q = p->sk.get(); bool full = q->inflight >= q->window; q->inflight -= std::min(q->inflight, k); if (full && q->inflight < q->window) notify(p.get(), EPOLLOUT); }
  }
  return k;
}
void sock_shutdown(Ofd *o, int how) {
  Sock *s = o->sk.get();
  if (how == 0 || how == 2) { s->rd_shut = true; notify(o, EPOLLIN | EPOLLRDHUP); }
  if ((how == 1 || how == 2) && !s->tx_fin && s->st == Sock::CONNECTED) { s->tx_fin = true; push_seg(s, Seg{"", true, false}); }
}
void sock_closed(Ofd *o, bool silent) {
  Sock *s = o->sk.get();
  if (s->st == Sock::LISTEN) {
    if (!s->un) G.ports.erase(s->lport);
    auto q = std::move(s->acceptq); s->acceptq.clear();
    for (auto &c : q) { c->nfd = 0; sock_closed(c.get(), silent); }
    s->st = Sock::DEAD; return;
  }
  if (s->st == Sock::CONNECTED) {
    OfdP peer = s->peer.lock();
    if (silent) { if (peer) peer->sk->peer_known_dead = true; }
    else if (!s->rx.empty() && !s->un) push_seg(s, Seg{"", false, true});
    else if (!s->tx_fin) { s->tx_fin = true; push_seg(s, Seg{"", true, false}); }
    else if (s->un && peer) notify(peer.get(), EPOLLIN | EPOLLHUP);
  }
  if (s->st != Sock::CONNECTED || silent) s->st = Sock::DEAD;
  else { /* keep wire flowing: state stays CONNECTED for deliver(), but nfd==0 marks it closed */ }
}
