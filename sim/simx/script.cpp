// Scripted programs: tasks, provisioners and actors of the simulated deployment; scenario set-up.
#include "image.h"
#include <fcntl.h>
#include <sys/inotify.h>
#include <sys/wait.h>

static std::map<std::string, std::string> gvars;   // values shared by all scripts of a run
static std::set<std::string> seen_marks;
static int ctl_pending = 0;
static bool end_armed = false;
static std::map<std::string, size_t> key_runs;      // how often each task was started in this run

static uint32_t crc32b(const std::string &s) {
  static uint32_t tb[256]; if (!tb[1]) for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; tb[i] = c; }
  uint32_t c = ~0u; for (unsigned char ch : s) c = tb[(c ^ ch) & 255] ^ (c >> 8); return ~c;
}

// ---------------------------------------------------------------- HTTP client of scripts
struct HttpOp { J spec; int fd = -1; std::string out; size_t off = 0; std::string in; ns_t t0 = 0, deadline = -1; bool eof = false; int port = 0; };

static std::string lz4f(const std::string &in) {
  auto u32 = [&](size_t i) { return (uint32_t)(uint8_t)in[i] | (uint32_t)(uint8_t)in[i + 1] << 8 | (uint32_t)(uint8_t)in[i + 2] << 16 | (uint32_t)(uint8_t)in[i + 3] << 24; };
  std::string o; if (in.size() < 7 || u32(0) != 0x184D2204) return "";
  uint8_t flg = in[4]; size_t i = 6; if (flg & 8) i += 8; if (flg & 1) i += 4; i += 1;
  while (i + 4 <= in.size()) {
    uint32_t n = u32(i); i += 4; if (!n) break;
    bool raw = n >> 31; n &= 0x7fffffff; if (i + n > in.size()) break;
    if (raw) { o.append(in, i, n); i += n; if (flg & 16) i += 4; continue; }
    size_t e = i + n, q = i;
    while (q < e) {
      uint8_t t = in[q++]; size_t L = t >> 4; if (L == 15) { uint8_t b; do { b = in[q++]; L += b; } while (b == 255 && q < e); }
      if (q + L > e) break;
      o.append(in, q, L); q += L; if (q + 2 > e) break;
      size_t d = (uint8_t)in[q] | (uint8_t)in[q + 1] << 8; q += 2; size_t M = t & 15; if (M == 15) { uint8_t b; do { b = in[q++]; M += b; } while (b == 255 && q < e); } M += 4;
      if (!d || d > o.size()) return o;
      size_t s = o.size() - d; for (size_t k = 0; k < M; k++) o += o[s + k];
    }
    i = e; if (flg & 16) i += 4;
  }
  return o;
}
static uint64_t varint(const std::string &s, size_t &i) { uint64_t v = 0; int sh = 0; while (i < s.size()) { uint8_t b = s[i++]; v |= (uint64_t)(b & 127) << sh; if (!(b & 128)) break; sh += 7; } return v; }
static std::string subst(Proc *p, const std::string &s) {
  std::string o; size_t i = 0;
  while (i < s.size()) {
    if (s[i] != '$') { o += s[i++]; continue; }
    size_t j = i + 1; while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_')) j++;
    std::string n = s.substr(i + 1, j - i - 1);
    if (n == "url") o += G.url; else if (p->vars.count(n)) o += p->vars[n]; else if (gvars.count(n)) o += gvars[n]; else if (n.compare(0, 3, "txn") == 0) o += "0"; else o += s.substr(i, j - i);
    i = j;
  }
  return o;
}
static std::string admin_path(const std::string &ctl) {
  Proc *c = by_name(ctl); if (!c) for (auto &kv : G.procs) if (kv.second->name == ctl) c = kv.second.get();
  return c ? "/run/user/0/wrk-" + std::to_string(c->pid) + ".sock" : "/none";
}
static void http_done(Proc *p, HttpOp *h, const char *err) {
  Lg l("http"); l.k("p", p->name).k("tag", h->spec["tag"].str()).k("path", h->spec["path"].str()).n("t0", h->t0).k("req", subst(p, h->spec["body"].str().substr(0, 6000)));
  if (h->spec.has("url")) l.n("port", h->port);
  if (err) l.k("err", err);
  else {
    size_t e = h->in.find("\r\n\r\n"); std::string head = h->in.substr(0, e), body = h->in.substr(e + 4);
    int st = atoi(head.c_str() + 9); std::string lo; for (char c : head) lo += tolower(c);
    if (lo.find("transfer-encoding: chunked") != std::string::npos) { std::string b; size_t i = 0; while (i < body.size()) { size_t n = strtoul(body.c_str() + i, nullptr, 16); i = body.find("\r\n", i); if (i == std::string::npos || !n) break; i += 2; b += body.substr(i, n); i += n + 2; } body = b; }
    if (lo.find("content-encoding: lz4") != std::string::npos) body = lz4f(body);
    l.n("status", st);
    std::string k = h->spec["path"].str();
    size_t i = 0; bool have = st == 200 && (k == "/start" || (k == "/end" && !body.empty() && body[0] == 1 && ++i));
    if (have) {
      uint64_t txn = varint(body, i); uint64_t n = varint(body, i); std::string arr = "[", key;
      for (uint64_t a = 0; a < n && i < body.size(); a++) { varint(body, i); uint64_t L = varint(body, i); std::string s = body.substr(i, L); i += L; if (a) arr += ","; jesc(arr, s.data(), s.size()); if (a == 2) key = s; }
      l.n("txn", txn).raw("argv", arr + "]").k("key", key);
      if (h->spec.has("save")) { std::string v = h->spec["save"].str(); p->vars[v] = gvars[v] = std::to_string(txn); p->vars[v + "key"] = gvars[v + "key"] = key; }
      seen_marks.insert("start:" + key);
    } else { l.k("body", body.substr(0, 8192)); if (h->spec.has("save")) {
      std::string v = h->spec["save"].str(); size_t i = body.find("\"etag\":");
      if (k != "/status") p->vars.erase(v);
      else if (st == 200 && i != std::string::npos) { uint64_t e = strtoull(body.c_str() + i + 7, nullptr, 10); p->vars[v] = std::to_string(e); p->vars[v + "n"] = std::to_string(e + 1); }      // for long polling
    } }
    p->vars["status"] = std::to_string(st);
  }
  if (h->fd >= 0) closefd(p, h->fd);
  trigger("http", h->spec["tag"].str());
}
static bool http_complete(HttpOp *h) {
  size_t e = h->in.find("\r\n\r\n"); if (e == std::string::npos) return false;
  std::string lo; for (size_t i = 0; i < e; i++) lo += tolower(h->in[i]);
  size_t c = lo.find("content-length:"); if (c != std::string::npos) return h->in.size() >= e + 4 + strtoul(lo.c_str() + c + 15, nullptr, 10);
  if (lo.find("chunked") != std::string::npos) return h->in.find("0\r\n\r\n", e + 4) != std::string::npos;
  return h->eof || lo.compare(0, 12, "http/1.1 204") == 0;
}

// ---------------------------------------------------------------- interpreter
void wake_script(Proc *p, ns_t delay) {
  if (p->real || p->dead) return;
  int pid = p->pid; uint64_t g = ++p->sgen;
  at(G.now + delay, [pid, g] { Proc *p = by_pid(pid); if (!p || p->dead || p->sgen != g) return; if (p->stop_until > G.now) { wake_script(p, p->stop_until - G.now); return; } Proc *s = G.curproc; G.curproc = p; run_script(p); G.curproc = s; }, true);
}
// A wake-up that does not count as external progress (waiting on a descriptor with a deadline).
static void wait_fd(Proc *p, Ofd *o) { o->swait.push_back({p->pid, p->sgen}); }

Proc *start_script(const std::string &name, const std::string &kind, int host, int ppid, const J &ops, std::map<int, FdEnt> fds, int pgid) {
  Proc *p = new_proc(name, kind, host, ppid); if (pgid) p->pgid = pgid;
  p->fds = fds; for (auto &kv : p->fds) kv.second.o->nfd++;
  p->ops = ops; p->stk.push_back({&p->ops, 0}); p->loops.push_back(0);
  wake_script(p, 20 * US + (ns_t)G.misc.below(100 * US));
  return p;
}
bool exec_script(Proc *c, const std::string &file, const std::vector<std::string> &argv, int *err) {
  std::string base = file.substr(file.rfind('/') == std::string::npos ? 0 : file.rfind('/') + 1);
  const J &prog = G.sc["programs"][file.c_str()];
  if (prog.t == J::OBJ) {
    c->name = prog["name"].str(base.c_str()); c->kind = prog["kind"].str("prov"); c->ops = prog["ops"];
    if (argv.size() > 1 && argv[1].compare(0, 7, "http://") == 0) { G.url = argv[1]; c->vars["url"] = argv[1]; }
    for (auto &e : c->envs) if (e.compare(0, 30, "EXECGRAPH_AUTHORIZATION_TOKEN=") == 0) { G.token = e.substr(30); }
    if (c->vars.count("url")) { std::string n = std::to_string(G.nprovs++); gvars["url" + n] = G.url; gvars["tok" + n] = G.token; }      // the n-th provisioner's
  } else if (base == "simtask") {
    JParse jp(argv.size() > 1 ? argv[1] : "[]"); c->ops = jp.val(); if (!jp.ok) { *err = ENOEXEC; return false; }
    c->taskkey = argv.size() > 2 ? argv[2] : ""; c->name = "T:" + c->taskkey; c->kind = "task"; c->istask = true; key_runs[c->taskkey]++;
  } else { *err = base == "noexec" ? EACCES : ENOENT; return false; }
  c->real = false; c->stk.clear(); c->loops.clear(); c->stk.push_back({&c->ops, 0}); c->loops.push_back(0);
  return true;
}
enum { R_NEXT, R_WAIT, R_STAY, R_EXIT };
static ns_t opcost() { return 10 * US + (ns_t)G.misc.below(60 * US); }

// An ordinary program does not expect EAGAIN and takes it for an error; the script reports it and waits all the same.
static void eagain(Proc *p, Ofd *o, int fd, const char *op) { if (o->nonblock && p->istask && p->eagains.insert(fd).second) Lg("eagain").k("key", p->taskkey).n("pid", p->pid).n("fd", fd).k("op", op); }
static int write_op(Proc *p, int fd, const std::string &data) {
  if (p->wfd != fd) { p->wfd = fd; p->woff = 0; p->wbuf = data; }
  for (;;) {
    if (p->woff >= p->wbuf.size()) { p->wfd = -1; p->wbuf.clear(); return R_NEXT; }
    OfdP o = getfd(p, fd); if (!o) { p->wfd = -1; Lg("scripterr").k("p", p->name).n("ebadf", fd); return R_NEXT; }
    ssize_t r; size_t n = std::min<size_t>(p->wbuf.size() - p->woff, 16384);
    switch (o->k) {
      case Ofd::PIPEW: r = pipe_write(o.get(), p->wbuf.data() + p->woff, n); break;
      case Ofd::CONSOLE: { Lg l("out"); l.k("p", o->owner).n("fd", o->confd).k("d", p->wbuf.substr(p->woff, n)).k("by", p->name); r = n; break; }
      case Ofd::FILE: o->ino->data += p->wbuf.substr(p->woff, n); file_changed(o->ino.get()); r = n; break;
      default: r = n;
    }
    if (r == -EAGAIN) { eagain(p, o.get(), fd, "write"); wait_fd(p, o.get()); return R_STAY; }
    if (r == -EPIPE) { p->wfd = -1; if (p->ign.count(SIGPIPE)) return R_NEXT; proc_exit(p, SIGPIPE); return R_EXIT; }
    p->woff += r;
    if (p->woff < p->wbuf.size()) { wake_script(p, 2 * US + G.misc.below(20 * US)); return R_STAY; }
  }
}
static int read_op(Proc *p, int fd, int64_t want) {
  for (;;) {
    OfdP o = getfd(p, fd); bool done = false;
    if (!o) { Lg("scripterr").k("p", p->name).n("ebadf", fd); done = true; }
    else if (want >= 0 && (int64_t)p->rbuf.size() >= want) done = true;
    else {
      char b[16384]; ssize_t r;
      size_t n = want >= 0 ? std::min<size_t>(sizeof b, want - p->rbuf.size()) : sizeof b;
      if (o->k == Ofd::PIPER) r = pipe_read(o.get(), b, n); else r = 0;
      if (r == -EAGAIN) { eagain(p, o.get(), fd, "read"); wait_fd(p, o.get()); return R_STAY; }
      if (r <= 0) done = true;
      else { p->rbuf.append(b, r); wake_script(p, 2 * US + G.misc.below(20 * US)); return R_STAY; }
    }
    if (done) { { Lg l("read"); l.k("key", p->taskkey).n("pid", p->pid).n("fd", fd).n("n", p->rbuf.size()).n("crc", crc32b(p->rbuf)); if (p->rbuf.size() <= 256) l.k("d", p->rbuf); } p->rbuf.clear(); return R_NEXT; }
  }
}
static int http_op(Proc *p, const J &sp) {
  if (!p->http) {
    auto h = std::make_shared<HttpOp>(); h->spec = sp; h->t0 = G.now; h->deadline = sp.has("timeout_ms") ? G.now + sp["timeout_ms"].num() * MS : -1;
    bool un = sp.has("un");
    std::string m = sp["method"].str("POST"), body = subst(p, sp["body"].str());
    if (sp.has("raw")) h->out = sp["raw"].s;
    else {
      h->out = m + " " + sp["path"].str() + " HTTP/1.1\r\nHost: x\r\nConnection: close\r\n";
      if (!un && !sp.has("noauth")) h->out += "Authorization: " + (sp.has("auth") ? subst(p, sp["auth"].s) : "Bearer " + G.token) + "\r\n";
      if (sp.has("jobid")) h->out += "X-EXECGRAPH-SLURM-JOB-ID: " + sp["jobid"].s + "\r\n";
      if (sp.has("host")) h->out += "X-EXECGRAPH-HOSTNAME: " + sp["host"].s + "\r\n";
      for (auto &x : sp["headers"].a) h->out += x[(size_t)0].s + ": " + x[(size_t)1].s + "\r\n";
      std::string ct = sp["ctype"].str("application/json"); if (!body.empty() && !ct.empty()) h->out += "Content-Type: " + ct + "\r\n";
      if (!body.empty() || m != "GET") h->out += "Content-Length: " + std::to_string(body.size()) + "\r\n";
      h->out += "\r\n" + body;
    }
    if (sp.has("half")) h->out.resize(std::min<size_t>(h->out.size(), sp["half"].num()));
    OfdP o = mk_sock(un, p->host); o->nonblock = true; h->fd = addfd(p, o, true); p->http = h;
    std::string url = sp.has("url") ? subst(p, sp["url"].s) : G.url; int port = 0; size_t c = url.rfind(':'); if (c != std::string::npos) port = atoi(url.c_str() + c + 1);
    h->port = port;
    int r = sock_connect(o, un, port, un ? (sp["un"].s[0] == '/' ? sp["un"].s : admin_path(sp["un"].s)) : "");
    if (r < 0 && r != -EINPROGRESS) { http_done(p, h.get(), "connect"); p->http.reset(); return R_NEXT; }
    if (h->deadline >= 0) { int pid = p->pid; ns_t d = h->deadline; std::weak_ptr<HttpOp> w = h; at(d, [pid, w] { Proc *p = by_pid(pid); auto h = w.lock(); if (!p || p->dead || !h || p->http != h) return; http_done(p, h.get(), "timeout"); p->http.reset(); p->stk.back().second++; wake_script(p, 0); }, true); }
  }
  auto h = p->http; OfdP o = getfd(p, h->fd); Sock *s = o->sk.get();
  if (s->st == Sock::CONNECTING) { wait_fd(p, o.get()); return R_STAY; }
  while (h->off < h->out.size()) {
    ssize_t r = sock_send(o, h->out.data() + h->off, h->out.size() - h->off);
    if (r == -EAGAIN) { wait_fd(p, o.get()); return R_STAY; }
    if (r < 0) break;
    h->off += r;
  }
  if (sp.has("half") || sp.has("noread")) { http_done(p, h.get(), "closed"); p->http.reset(); return R_NEXT; }
  for (;;) {
    char b[16384]; ssize_t r = sock_recv(o, b, sizeof b);
    if (r == -EAGAIN) { wait_fd(p, o.get()); return R_STAY; }
    if (r <= 0) { h->eof = true; bool ok = r == 0 && http_complete(h.get()); http_done(p, h.get(), ok ? nullptr : r == 0 ? "eof" : "reset"); p->http.reset(); return R_NEXT; }
    h->in.append(b, r);
    if (http_complete(h.get())) { http_done(p, h.get(), nullptr); p->http.reset(); return R_NEXT; }
  }
}
static std::map<std::string, std::string> env_of(const J &o) { std::map<std::string, std::string> m; for (auto &kv : o.o) m[kv.first] = kv.second.str(); return m; }

static int step(Proc *p, const J &op, ns_t *delay) {
  std::string k = op[(size_t)0].str();
  if (k == "s" || k == "us") { ns_t unit = k == "s" ? MS : US; if (p->op_deadline < 0) { p->op_deadline = G.now + op[1].num() * unit; wake_script(p, op[1].num() * unit); return R_STAY; } if (G.now < p->op_deadline) { wake_script(p, p->op_deadline - G.now); return R_STAY; } p->op_deadline = -1; return R_NEXT; }
  if (k == "us") { if (p->op_deadline < 0) { p->op_deadline = G.now + op[1].num() * US; wake_script(p, op[1].num() * US); return R_STAY; } if (G.now < p->op_deadline) { wake_script(p, p->op_deadline - G.now); return R_STAY; } p->op_deadline = -1; return R_NEXT; }
  if (k == "o" || k == "ob") return write_op(p, 1, p->wfd >= 0 ? "" : patbytes(op[1].num(), op[2].num(), k == "ob"));
  if (k == "e" || k == "eb") return write_op(p, 2, p->wfd >= 0 ? "" : patbytes(op[1].num(), op[2].num(), k == "eb"));
  if (k == "on" || k == "en") return write_op(p, k == "on" ? 1 : 2, p->wfd >= 0 ? "" : noisebytes(op[1].num(), op[2].num()));
  if (k == "O") return write_op(p, 1, op[1].s);
  if (k == "E") return write_op(p, 2, op[1].s);
  if (k == "v") return write_op(p, 3, op[1].s);
  if (k == "r") return read_op(p, op[1].num(), -1);
  if (k == "rn") return read_op(p, op[1].num(), op[2].num());
  if (k == "c") { closefd(p, op[1].num()); return R_NEXT; }
  if (k == "g" || k == "gd") {
    Proc *c = start_script(p->name + ".g", p->kind == "task" ? "grandchild" : p->kind, p->host, p->pid, op[1], p->fds, k == "gd" ? 0 : p->pgid); if (k == "gd") c->pgid = c->pid;
    c->taskkey = p->taskkey; Lg("spawned").k("name", c->name).n("pid", c->pid).n("ppid", p->pid).k("key", p->taskkey); return R_NEXT;
  }
  if (k == "it") { p->ign.insert(SIGTERM); return R_NEXT; }
  if (k == "ii") { p->ign.insert(SIGINT); return R_NEXT; }
  if (k == "ip") { p->ign.insert(SIGPIPE); return R_NEXT; }
  if (k == "tt") { p->term_ms = op[1].num(); p->term_code = op[2].num(); return R_NEXT; }
  if (k == "x") { proc_exit(p, (op[1].num() & 255) << 8); return R_EXIT; }
  if (k == "k") { proc_exit(p, op[1].num()); return R_EXIT; }
  if (k == "xn") { const J &l = op[1]; size_t n = key_runs[p->taskkey], m = l.a.size(); int64_t c = m ? l.a[std::min(n ? n - 1 : 0, m - 1)].num() : 0; if (c < 0) proc_exit(p, -c); else proc_exit(p, (c & 255) << 8); return R_EXIT; }
  if (k == "mark") { seen_marks.insert(op[1].s); Lg("mark").k("p", p->name).k("m", op[1].s); trigger("mark", op[1].s); return R_NEXT; }
  if (k == "until") { if (p->op_deadline < 0) p->op_deadline = G.now + op[2].num(60000) * MS; if (seen_marks.count(op[1].s) || G.now >= p->op_deadline) { p->op_deadline = -1; return R_NEXT; } wake_script(p, 3 * MS); return R_STAY; }
  if (k == "http") { int r = http_op(p, op[1]); return r; }
  if (k == "remote") { Proc *c = start_remote(op[1], op[1]["host"].num(1), env_of(op[1]["env"])); (void)c; return R_NEXT; }
  if (k == "append") { append_file(op[1].s, op[2].s); Lg("appended").k("path", op[1].s).k("d", op[2].s); return R_NEXT; }
  if (k == "sig") { Proc *q = by_name(op[1].s); if (q) send_sig(q, op[2].num(), p->pid); return R_NEXT; }
  if (k == "loop") { p->loops.back() = 0; if (op[1].num() > 0) { p->stk.back().second++; p->stk.push_back({&op[2], 0}); p->loops.push_back(op[1].num()); *delay = 0; return R_WAIT; } return R_NEXT; }
  if (k == "break_unless") { if (!p->vars.count(op[1].s)) { while (p->stk.size() > 1) { p->stk.pop_back(); p->loops.pop_back(); break; } *delay = 0; return R_WAIT; } return R_NEXT; }
  Lg("scripterr").k("p", p->name).k("op", k);
  return R_NEXT;
}
void run_script(Proc *p) {
  while (!p->dead) {
    if (p->stk.empty()) { proc_exit(p, 0); return; }
    auto &top = p->stk.back();
    if (top.second >= top.first->a.size()) {
      if (p->stk.size() == 1) { proc_exit(p, 0); return; }
      if (--p->loops.back() > 0) { top.second = 0; wake_script(p, opcost()); return; }
      p->stk.pop_back(); p->loops.pop_back(); continue;
    }
    const J &op = top.first->a[top.second];
    ns_t d = -1; int r = step(p, op, &d);
    if (r == R_EXIT || p->dead) return;
    if (r == R_STAY) return;
    if (r == R_NEXT) p->stk.back().second++;
    wake_script(p, opcost()); return;
  }
}

// ---------------------------------------------------------------- real processes
static void finalize_env(Proc *p, const std::map<std::string, std::string> &env) {
  p->envs = {"PATH=/usr/bin:/bin", "HOME=/root", "LANG=C.UTF-8", "TZ=UTC", "USER=root"};
  for (auto &kv : env) p->envs.push_back(kv.first + "=" + kv.second);
  for (auto &s : p->envs) p->envp.push_back(strdup(s.c_str())); p->envp.push_back(nullptr); p->env = p->envp.data();
  for (auto &s : p->argv) p->argvp.push_back(strdup(s.c_str()));
}
static void console_fds(Proc *p) { for (int i = 0; i < 3; i++) { OfdP o = new_ofd(Ofd::CONSOLE); o->confd = i; o->owner = p->name; p->fds[i] = {o, false}; o->nfd++; } }
Proc *start_remote(const J &spec, int host, const std::map<std::string, std::string> &env) {
  if (G.downhosts.count(host)) { Lg("remote_skipped").n("host", host); return nullptr; }
  int im = take_image(false); if (im < 0) { Lg("harness").k("d", "no runner image left"); probe("no_runner_image"); return nullptr; }
  static int nr = 0; static std::map<std::string, int> used;
  std::string rn = spec["name"].str(("r" + std::to_string(nr)).c_str()); nr++;
  if (int k = used[rn]++) rn += "+" + std::to_string(k);      // the same program entry started again
  Proc *p = new_proc(rn, "remote", host, 1);
  p->image = im; p->real = true; p->pgid = p->pid; console_fds(p);
  p->argv = {"execgraph-remote", spec["url"].str(G.url.c_str())}; for (auto &a : spec["args"].a) p->argv.push_back(a.str());
  auto e = env; if (!e.count("EXECGRAPH_AUTHORIZATION_TOKEN")) e["EXECGRAPH_AUTHORIZATION_TOKEN"] = G.token;
  if (!e.count("RUST_LOG")) e["RUST_LOG"] = "error";
  finalize_env(p, e);
  { Lg l("remote"); l.k("name", p->name).n("pid", p->pid).n("host", host); std::string a = "["; for (size_t i = 2; i < p->argv.size(); i++) { if (i > 2) a += ","; jesc(a, p->argv[i].data(), p->argv[i].size()); } l.raw("args", a + "]"); }
  trigger("remote", p->name);
  new_thread(p, remote_main, p, nullptr);
  return p;
}
static std::vector<J> ctls;
static void start_ctl(size_t i) {
  const J &c = ctls[i];
  ctl_pending--;
  int im = take_image(true); if (im < 0) { Lg("harness").k("d", "no controller image left"); check_end(); return; }
  Proc *p = new_proc(c["name"].str(("c" + std::to_string(i)).c_str()), "ctl", c["host"].num(0), 1);
  p->image = im; p->real = true; console_fds(p); p->argv = {"python3", "wf.py"}; p->vars["script"] = c["script"].str(); p->cwd = c["cwd"].str("/w");
  if (c.has("max_fds")) p->max_fds = c["max_fds"].num();
  auto e = env_of(c["env"]); if (!e.count("RUST_LOG")) e["RUST_LOG"] = "off";
  finalize_env(p, e);
  { Lg l("ctl"); l.k("name", p->name).n("pid", p->pid).n("host", p->host); }
  new_thread(p, controller_main, p, nullptr);
}
void check_end() {
  if (end_armed || G.ending) return;
  // controllers waiting for this exit
  for (size_t i = 0; i < ctls.size(); i++) {
    J &c = ctls[i]; if (!c.has("after") || c.has("_armed")) continue;
    std::string a = c["after"].str(); bool dead = false; for (auto &kv : G.procs) if (kv.second->name == a && kv.second->dead) dead = true;
    if (dead) { c.o["_armed"] = J(); at(G.now + c["delay_ms"].num(1) * MS + c["delay_us"].num(0) * US, [i] { start_ctl(i); }, true); }
  }
  if (ctl_pending > 0) return;
  for (auto &kv : G.procs) if (kv.second->real && !kv.second->dead) return;
  end_armed = true;
  at(G.now + G.sc["linger_ms"].num(50) * MS, [] { finish("ok"); }, true);
}
void setup_scenario() {
  const J &s = G.sc;
  uint64_t seed = (uint64_t)s["seed"].num(1);
  Rng r(seed); G.sched = Rng(r.u64()); G.net = Rng(r.u64()); G.misc = Rng(r.u64()); G.ent = Rng(r.u64());
  if (s.has("sched_seed")) G.sched = Rng((uint64_t)s["sched_seed"].num());
  const J &k = s["sim"];
  G.sys_p = k["sys_p"].dbl(0.2); G.edge_mean = k["edge_mean"].num(0); G.stall_p = k["stall_p"].dbl(0); G.pct = k["pct"].truthy(); { double hp = k["hot_p"].dbl(0); if (hp > 0) { G.hot_thr = (uint32_t)(hp * 4294967295.0); G.hot_salt = (uint32_t)G.sched.u64(); } } G.max_preempt = k.has("max_preempt") ? k["max_preempt"].num() : -1;
  if (G.pct) { int64_t d = k["pct_depth"].num(3), n = k["pct_len"].num(20000); for (int64_t i = 0; i < d; i++) G.pct_points.push_back(G.sched.below(n)); std::sort(G.pct_points.begin(), G.pct_points.end()); }
  G.lat_min = k["lat_us"][(size_t)0].num(50) * US; G.lat_max = k["lat_us"][1].num(500) * US; G.partial_p = k["partial_p"].dbl(0); G.spurious_p = k["spurious_p"].dbl(0); G.evshuffle_p = k["evshuffle_p"].dbl(0); G.slow_p = k["slow_p"].dbl(0); G.pipe_small_p = k["pipe_small_p"].dbl(0);
  if (k.has("stall_s")) G.stall_limit = k["stall_s"].num() * SEC;
  if (k.has("time_s")) G.time_limit = k["time_s"].num() * SEC;
  if (k.has("steps")) G.step_limit = k["steps"].num();
  G.ncpu = k["ncpu"].num(2);
  G.root = std::make_shared<Inode>(); G.root->type = Inode::DIR; G.root->ino = 2;
  for (auto d : {"/w", "/tmp", "/dev", "/proc", "/run/user/0", "/scratch"}) mkdirs(d);
  for (auto &d : s["dirs"].a) mkdirs(d.str());
  for (auto &kv : s["files"].o) append_file(kv.first, kv.second.s);
  for (auto &d : s["stale_socks"].a) { InodeP i = create_path(d.str(), Inode::SOCKF); (void)i; }
  for (auto &kv : s["hostcost"].o) G.hostcost[atoi(kv.first.c_str())] = kv.second.num();
  G.next_pid = s["first_pid"].num(1000);
  load_faults(s["faults"]);
  for (auto &c : s["controllers"].a) ctls.push_back(c);
  ctl_pending = ctls.size();
  for (size_t i = 0; i < ctls.size(); i++) if (!ctls[i].has("after")) { if (ctls[i]["at_ms"].num(0) == 0 && !ctls[i].has("at_us")) start_ctl(i); else at(ctls[i]["at_ms"].num() * MS + ctls[i]["at_us"].num() * US, [i] { start_ctl(i); }, true); }
  for (auto &a : s["actors"].a) { J ac = a; at(a["at_ms"].num() * MS, [ac] { std::map<int, FdEnt> e; start_script(ac["name"].str("actor"), "actor", ac["host"].num(0), 1, ac["ops"], e, 0); }, true); }
}
