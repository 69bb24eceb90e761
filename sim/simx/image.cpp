// Loading of program copies and the entry points of simulated real processes.
#define PY_SSIZE_T_CLEAN
#include <python3.12/Python.h>
#include "image.h"
#include <link.h>
#include <sys/syscall.h>
#include <unistd.h>

std::vector<Image> images;

#define PYFNS(X) X(Py_InitializeFromConfig) X(PyConfig_InitIsolatedConfig) X(PyConfig_SetBytesString) X(PyRun_StringFlags) X(PyDict_New) X(PyDict_SetItemString) X(PyDict_GetItemString) X(PyDict_Clear) \
  X(PyUnicode_FromString) X(PyUnicode_FromStringAndSize) X(PyImport_AddModule) X(PyImport_ImportModule) X(PyImport_GetModuleDict) X(PyArg_ParseTuple) X(PyLong_FromLongLong) X(PyCapsule_New) X(PyErr_Print) X(PyErr_Occurred) X(PyErr_Clear) \
  X(Py_DecRef) X(Py_IncRef) X(PyGILState_Ensure) X(PyGILState_Release) X(PyEval_SaveThread) X(PyCMethod_New) X(PyGC_Collect) X(PyErr_GetRaisedException) X(PyObject_Str) X(PyUnicode_AsUTF8AndSize) X(PyObject_Repr) X(PyEval_GetBuiltins) X(PyModule_FromDefAndSpec2) X(PyModule_ExecDef) X(PyModule_GetDef) X(PyErr_SetRaisedException) X(PyErr_GivenExceptionMatches) X(PyUnicode_AsEncodedString) X(PyBytes_AsStringAndSize) X(PyObject_GetAttrString)
struct PyApi {
#define X(f) decltype(&::f) f;
  PYFNS(X)
#undef X
  PyObject *None; PyObject **SysExit;
};

static int seg_cb(struct dl_phdr_info *i, size_t, void *a) {
  auto *pr = (std::pair<uint64_t, std::vector<std::pair<char *, size_t>> *> *)a;
  if (i->dlpi_addr != pr->first) return 0;
  uint64_t rlo = 0, rhi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rlo = i->dlpi_phdr[k].p_vaddr; rhi = rlo + i->dlpi_phdr[k].p_memsz; rhi = (rhi + 4095) & ~4095ULL; }
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &ph = i->dlpi_phdr[k];
    if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue;
    uint64_t lo = ph.p_vaddr, hi = lo + ph.p_memsz;
    if (rhi > lo && rlo <= lo) lo = std::min(rhi, hi);
    if (lo < hi) pr->second->push_back({(char *)(i->dlpi_addr + lo), hi - lo});
  }
  return 1;
}
static bool start_python(Image &im) {
  PyApi *py = im.py;
  PyConfig c; py->PyConfig_InitIsolatedConfig(&c);
  c.use_hash_seed = 1; c.hash_seed = 0; c.site_import = 0; c.install_signal_handlers = 0; c.write_bytecode = 0; c.buffered_stdio = 0; c.use_environment = 0; c.pathconfig_warnings = 0;
  py->PyConfig_SetBytesString(&c, &c.program_name, "/usr/bin/python3");
  py->PyConfig_SetBytesString(&c, &c.filesystem_encoding, "utf-8"); py->PyConfig_SetBytesString(&c, &c.filesystem_errors, "surrogateescape");
  PyStatus s = py->Py_InitializeFromConfig(&c);
  if (s._type != 0) { fprintf(stderr, "python init: %s\n", s.err_msg ? s.err_msg : "?"); return false; }
  for (const char *m : {"json", "time", "traceback", "threading"}) if (!py->PyImport_ImportModule(m)) { py->PyErr_Print(); return false; }
  py->PyEval_SaveThread();
  return true;
}
bool load_images(const std::string &dir, int nctl, int nrem) {
  for (int i = 0; i < nctl + nrem; i++) {
    Image im; im.ctl = i < nctl;
    char n[64];
    if (im.ctl) { snprintf(n, 64, "/libpy3.12.s%02d.so.1.0", i); im.pyh = dlopen((dir + n).c_str(), RTLD_NOW | RTLD_LOCAL); if (!im.pyh) { fprintf(stderr, "%s\n", dlerror()); return false; } }
    snprintf(n, 64, "/driver%02d.so", i);
    im.h = dlopen((dir + n).c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!im.h) { fprintf(stderr, "%s\n", dlerror()); return false; }
    struct link_map *lm = (struct link_map *)im.h;
    std::pair<uint64_t, std::vector<std::pair<char *, size_t>> *> a{lm->l_addr, &im.wsegs};
    dl_iterate_phdr(seg_cb, &a);
    im.remote_main = (int (*)())dlsym(im.h, "sim_remote_main"); im.pyinit = (void *(*)())dlsym(im.h, "sim_pyinit");
    if (!im.remote_main || !im.pyinit) { fprintf(stderr, "driver symbols missing\n"); return false; }
    if (im.ctl) {
      im.py = new PyApi();
#define X(f) im.py->f = (decltype(&::f))dlsym(im.pyh, #f); if (!im.py->f) { fprintf(stderr, "no %s\n", #f); return false; }
      PYFNS(X)
#undef X
      im.py->None = (PyObject *)dlsym(im.pyh, "_Py_NoneStruct"); im.py->SysExit = (PyObject **)dlsym(im.pyh, "PyExc_SystemExit");
      if (!start_python(im)) return false;
    }
    images.push_back(im);
  }
  return true;
}
int take_image(bool ctl) { for (size_t i = 0; i < images.size(); i++) if (images[i].ctl == ctl && !images[i].used) { images[i].used = true; return i; } return -1; }

// ---------------------------------------------------------------- the `sim` module
static PyApi *P() { return images[G.curproc->image].py; }
static std::string pystr(PyApi *py, PyObject *o) {
  if (!o) return "<null>";
  PyObject *b = py->PyUnicode_AsEncodedString(o, "utf-8", "surrogateescape"); char *s; Py_ssize_t n;
  if (!b) { py->PyErr_Clear(); return "?"; }
  py->PyBytes_AsStringAndSize(b, &s, &n); std::string r(s, n); py->Py_DecRef(b); return r;
}
static PyObject *s_log(PyObject *, PyObject *a) { PyApi *py = P(); PyObject *o = nullptr; if (!py->PyArg_ParseTuple(a, "U", &o)) return nullptr; { std::string s = pystr(py, o); InSim is; Lg("py").k("p", G.curproc->name).raw("d", s); } py->Py_IncRef(py->None); return py->None; }
static PyObject *s_mark(PyObject *, PyObject *a) { PyApi *py = P(); const char *s = nullptr; if (!py->PyArg_ParseTuple(a, "s", &s)) return nullptr; { InSim is; Lg("mark").k("p", G.curproc->name).k("m", s); trigger("mark", s); } py->Py_IncRef(py->None); return py->None; }
static PyObject *s_now(PyObject *, PyObject *) { return P()->PyLong_FromLongLong(G.now / 1000); }
static PyObject *s_mem(PyObject *, PyObject *a) { PyApi *py = P(); const char *path = nullptr; if (!py->PyArg_ParseTuple(a, "s", &path)) return nullptr; PyObject *r; { InSim is; InodeP i = lookup(path); std::string d = i ? i->data : ""; r = py->PyUnicode_FromStringAndSize(d.data(), d.size()); if (!r) { py->PyErr_Clear(); r = py->PyUnicode_FromString("<binary>"); } } return r; }
struct Cap { std::string kind, key, proc; int64_t ret; };
static int cap_fn(const void *ctx, uint32_t ok, uint32_t rc, uint32_t lost, uint64_t n) {
  const Cap *c = (const Cap *)ctx;
  { InSim is; Lg(c->kind.c_str()).k("key", c->key).n("ok", ok).n("rc", rc).n("lost", lost).n("n", n).k("p", G.curproc->name).n("pid", G.curproc->pid); trigger(c->kind, c->key); }
  yield_point("E"); return (int)c->ret;
}
struct CapsuleRec { const void *fn; };
static PyObject *s_capsule(PyObject *, PyObject *a) {
  PyApi *py = P(); const char *kind, *key; long long ret = 0; if (!py->PyArg_ParseTuple(a, "ss|L", &kind, &key, &ret)) return nullptr;
  Cap *c = new Cap{kind, key, G.curproc->name, ret};
  PyObject *o = py->PyCapsule_New((void *)cap_fn, "Execgraph::Capsule-v3", nullptr);
  typedef int (*setctx)(PyObject *, void *); static std::map<PyApi *, setctx> m; if (!m[py]) m[py] = (setctx)dlsym(images[G.curproc->image].pyh, "PyCapsule_SetContext");
  m[py](o, c); return o;
}
static PyMethodDef defs[] = {{"log", s_log, METH_VARARGS, nullptr}, {"mark", s_mark, METH_VARARGS, nullptr}, {"now", s_now, METH_NOARGS, nullptr}, {"readfile", s_mem, METH_VARARGS, nullptr}, {"capsule", s_capsule, METH_VARARGS, nullptr}};

void *controller_main(void *arg) {
  Proc *p = (Proc *)arg; Image &im = images[p->image]; PyApi *py = im.py;
  PyGILState_STATE gs = py->PyGILState_Ensure(); (void)gs;
  PyObject *mod = py->PyImport_AddModule("sim");
  typedef PyObject *(*getdict)(PyObject *); getdict gd = (getdict)dlsym(im.pyh, "PyModule_GetDict");
  PyObject *md = gd(mod);
  for (auto &d : defs) { PyObject *f = py->PyCMethod_New(&d, nullptr, nullptr, nullptr); py->PyDict_SetItemString(md, d.ml_name, f); }
  PyObject *m = (PyObject *)im.pyinit();
  if (!m) { py->PyErr_Print(); do { InSim is; Lg("harness").k("d", "PyInit failed"); } while (0); exit(98); }
  // multi-phase modules return their definition
  typedef PyObject *(*tn)(PyObject *);
  py->PyDict_SetItemString(py->PyImport_GetModuleDict(), "execgraph", m);
  PyObject *g = py->PyDict_New();
  py->PyDict_SetItemString(g, "__builtins__", py->PyEval_GetBuiltins());
  { InSim is; p->born = G.now; trigger("ctl", p->name); }
  int code = 0;
  std::string script = p->vars["script"];
  PyObject *r = py->PyRun_StringFlags(script.c_str(), Py_file_input, g, g, nullptr);
  if (!r) {
    PyObject *e = py->PyErr_GetRaisedException();
    PyObject *s = py->PyObject_Repr(e); std::string d = pystr(py, s);
    { InSim is; Lg("pyexc").k("p", p->name).k("d", d); }
    code = 1;
    py->PyErr_SetRaisedException(e); py->PyErr_Print();
  }
  py->PyDict_Clear(g); py->PyGC_Collect();
  p->fin_python = true;
  exit(code);
}
void *remote_main(void *arg) {
  Proc *p = (Proc *)arg;
  int r = images[p->image].remote_main();
  exit(r);
}
