// C14: load() and cached bytecode give the result of the source
//
// A case is a history of steps (separated by "\n%%\n", first line = command):
//   opts jsc=0|1 mode=plain|faults|crash
//   put NAME\nTEXT      the file gets this content        rm NAME      the file is removed
//   cache NAME HOW      the cache file of NAME.js is replaced: none trunc:K flip:K:X longer dir garbage:N stale:NAME2
//   exec N\nSOURCE      instance N executes a script      file N NAME  instance N executes a file (C API)
//   call N NAME         the C API calls a global function gc N
// Expected results come from the reference interpreter, which knows nothing of caches.
#include "scale.hpp"
#include "common.hpp"
#include <fcntl.h>
#include <setjmp.h>
#include <stdarg.h>
#include <sys/stat.h>

// ---------------------------------------------------------------- I/O of the engine
namespace io {
bool active = false;              // calls are counted only while the engine runs
int n = 0, fail_at = -1, kind = 0; // kind 0: the call fails, 1: partial write / crash before it, 2: crash after it
bool hit = false, crash = false; std::string hitname;
jmp_buf die;
std::vector<std::string> trace;
std::map<void *, bool> src; std::map<int, bool> srcfd;   // stream belongs to a source file
int srcreads = -1, srcfail = -1;  // number of the read of a source file / the one which was hit
std::set<std::string> writes;     // paths opened for writing
bool at(const char *name, bool is_src) {
  if (!active) return false;
  int k = n++;
  trace.push_back(name);
  if (k != fail_at) return false;
  hit = true; hitname = name; if (is_src) srcfail = srcreads;
  return true;
}
std::set<std::string> sources;    // names of source files
bool js(const char *p) { return sources.count(!strncmp(p, "./", 2) ? p + 2 : p) || strstr(p, "missing"); }
}  // namespace io

extern "C" {
FILE *__real_fopen(const char *, const char *); size_t __real_fwrite(const void *, size_t, size_t, FILE *); size_t __real_fread(void *, size_t, size_t, FILE *);
int __real_fclose(FILE *); int __real_fseek(FILE *, long, int); long __real_ftell(FILE *); int __real_open(const char *, int, ...); int __real_close(int);
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_fstat(int, struct stat *); int __real_stat(const char *, struct stat *);
int __real_unlink(const char *); int __real_remove(const char *); int __real_rename(const char *, const char *); ssize_t __real_write(int, const void *, size_t); ssize_t __real_read(int, void *, size_t);
int __real_fflush(FILE *);
#define CRASH_BEFORE if (io::crash && io::kind == 1) longjmp(io::die, 1)
#define CRASH_AFTER if (h && io::crash && io::kind == 2) longjmp(io::die, 1)
FILE *__wrap_fopen(const char *p, const char *m) {
  if (io::active && io::js(p)) io::srcreads++;
  bool h = io::at("fopen", io::active && io::js(p)); if (h) { CRASH_BEFORE; if (!io::crash) { errno = EMFILE; return NULL; } }
  FILE *f = __real_fopen(p, m);
  if (io::active && f) { io::src[f] = io::js(p); if (*m != 'r') { io::writes.insert(p); setvbuf(f, NULL, _IONBF, 0); } }
  CRASH_AFTER; return f;
}
int __wrap_open(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (io::active && io::js(p)) io::srcreads++;
  bool h = io::at("open", io::active && io::js(p)); if (h) { CRASH_BEFORE; if (!io::crash) { errno = EMFILE; return -1; } }
  int fd = __real_open(p, fl, mode); if (io::active && fd >= 0) { io::srcfd[fd] = io::js(p); if (fl & (O_WRONLY | O_RDWR)) io::writes.insert(p); }
  CRASH_AFTER; return fd;
}
size_t __wrap_fwrite(const void *p, size_t s, size_t c, FILE *f) {
  bool h = io::at("fwrite", false);
  if (h) {
    size_t t = s * c, part = io::kind == 0 ? 0 : io::kind == 1 ? t / 2 : t ? t - 1 : 0;
    if (io::crash && io::kind == 2) part = t / 3 + 1;
    __real_fwrite(p, 1, part, f);
    if (io::crash) longjmp(io::die, 1);
    errno = ENOSPC; return s ? part / s : 0;
  }
  return __real_fwrite(p, s, c, f);
}
ssize_t __wrap_write(int fd, const void *p, size_t c) {
  bool h = io::at("write", false);
  if (h) { size_t part = io::kind == 0 ? 0 : io::kind == 1 ? c / 2 : c ? c - 1 : 0; if (part) __real_write(fd, p, part); if (io::crash) longjmp(io::die, 1); if (!part) { errno = ENOSPC; return -1; } return part; }
  return __real_write(fd, p, c);
}
size_t __wrap_fread(void *p, size_t s, size_t c, FILE *f) {
  bool h = io::at("fread", io::active && io::src[f]); if (h && !io::crash) { size_t part = io::kind == 0 ? 0 : s * c / 2; __real_fread(p, 1, part, f); return s ? part / s : 0; }
  if (h) CRASH_BEFORE; size_t r = __real_fread(p, s, c, f); CRASH_AFTER; return r;
}
ssize_t __wrap_read(int fd, void *p, size_t c) {
  bool h = io::at("read", io::active && io::srcfd[fd]); if (h && !io::crash) { errno = EIO; return -1; }
  if (h) CRASH_BEFORE; ssize_t r = __real_read(fd, p, c); CRASH_AFTER; return r;
}
int __wrap_fclose(FILE *f) {
  bool s = io::active && io::src[f], h = io::at("fclose", s); if (h) CRASH_BEFORE;
  int r = __real_fclose(f); CRASH_AFTER; if (h && !io::crash) { errno = EIO; return EOF; } return r;
}
int __wrap_fflush(FILE *f) { bool h = io::at("fflush", false); if (h) CRASH_BEFORE; int r = __real_fflush(f); CRASH_AFTER; if (h && !io::crash) { errno = ENOSPC; return EOF; } return r; }
#define SIMPLE(name, ret, bad, decl, call, issrc) \
  ret __wrap_##name decl { bool h = io::at(#name, io::active && (issrc)); if (h) { CRASH_BEFORE; if (!io::crash) { errno = EIO; return bad; } } ret r = __real_##name call; CRASH_AFTER; return r; }
SIMPLE(fseek, int, -1, (FILE * f, long o, int w), (f, o, w), io::src[f])
SIMPLE(ftell, long, -1, (FILE * f), (f), io::src[f])
SIMPLE(close, int, -1, (int fd), (fd), io::srcfd[fd])
SIMPLE(mmap, void *, MAP_FAILED, (void *a, size_t l, int p, int fl, int fd, off_t o), (a, l, p, fl, fd, o), false)
SIMPLE(fstat, int, -1, (int fd, struct stat *st), (fd, st), io::srcfd[fd])
SIMPLE(stat, int, -1, (const char *p, struct stat *st), (p, st), io::js(p))
SIMPLE(unlink, int, -1, (const char *p), (p), false)
SIMPLE(remove, int, -1, (const char *p), (p), false)
SIMPLE(rename, int, -1, (const char *a, const char *b), (a, b), false)
FILE *__wrap_fopen64(const char *, const char *) __attribute__((alias("__wrap_fopen")));
int __wrap_open64(const char *, int, ...) __attribute__((alias("__wrap_open")));
void *__wrap_mmap64(void *, size_t, int, int, int, off_t) __attribute__((alias("__wrap_mmap")));
int __wrap_fstat64(int, struct stat *) __attribute__((alias("__wrap_fstat")));
int __wrap_stat64(const char *, struct stat *) __attribute__((alias("__wrap_stat")));
}

// ---------------------------------------------------------------- reference
struct FileSt { ref::NP ast; int ok = -1; bool custom_only = false, running = false, many = false; std::string text; };
struct RInst { ref::Interp I; std::map<std::string, FileSt> loaded; };
struct World { std::map<std::string, std::string> files; std::map<int, std::unique_ptr<RInst>> inst; int reads = 0, fail = -1; };

static void rrun(RInst &R, FileSt &s, ref::Val *custom) {
  using namespace ref;
  Interp &I = R.I;
  if (s.running) unspec("a file which loads itself");
  bool again = s.ok != -1;
  SP senv = I.env; Val sself = I.self; size_t nd = I.dyn.size(); int sl = I.looping;
  SP sc;
  if (custom) { sc = std::make_shared<Scope>(); sc->parent = I.env; for (auto &p : custom->o->p) { if (p.first == "__p") unspec("scope object with a prototype"); sc->v[p.first] = p.second; } I.env = sc; I.dyn.push_back(sc); }
  I.self = Val(); I.looping = again ? 1 : 0; s.running = true;
  auto restore = [&] {
    if (custom) for (auto &x : sc->v) { if (Val *p = custom->o->find(x.first)) *p = x.second; else custom->o->p.push_back({x.first, x.second}); }
    I.env = senv; I.self = sself; I.dyn.resize(nd); I.looping = sl; s.running = false;
  };
  if (s.ok == -1) s.custom_only = custom != nullptr; else if (!custom) s.custom_only = false;
  try { for (auto &x : s.ast->c) I.run(x); }
  catch (Interp::Ret &) {}
  catch (Interp::Brk &) { unspec("break outside of a loop"); }
  catch (Interp::Cont &) { unspec("continue outside of a loop"); }
  catch (Err &) { restore(); s.ok = 0; throw; }
  restore(); s.ok = 1;
}
static FileSt *rread(World &W, RInst &R, const std::string &name) {   // reads and parses
  using namespace ref;
  int k = W.reads++;
  if (k == W.fail) throw Err{MJS_FILE_READ_ERROR};
  auto it = W.files.find(name.compare(0, 2, "./") ? name : name.substr(2));
  if (it == W.files.end()) throw Err{MJS_FILE_READ_ERROR};
  if (it->second.compare(0, 5, "//bad") == 0) throw Err{MJS_SYNTAX_ERROR};
  Parser p; p.t = lex(it->second);
  NP ast = p.program();
  FileSt &s = R.loaded[name];
  if (s.ast) s.many = true;
  s.ast = ast; s.ok = -1; s.text = it->second;
  return &s;
}
static RInst &rinst(World &W, int n) {
  auto &p = W.inst[n];
  if (!p) {
    p.reset(new RInst);
    RInst *R = p.get(); World *w = &W;
    R->I.natives["load"] = [R, w](ref::Interp &, std::vector<ref::Val> &a) -> ref::Val {
      using namespace ref;
      if (a.empty() || a[0].t != STR) unspec("load without a file name");
      Val *custom = nullptr;
      if (a.size() > 1) { if (a[1].t == OBJ) custom = &a[1]; else if (a[1].t != UNDEF) unspec("odd scope object"); }
      auto it = R->loaded.find(a[0].s);
      FileSt *s;
      if (it == R->loaded.end()) s = rread(*w, *R, a[0].s);
      else {
        s = &it->second;
        if (s->running) unspec("a file which loads itself");
        if (s->many) unspec("load after several executions by the C API");
        if (!custom && s->custom_only && s->ok == 1) unspec("first loaded with a scope object, then without");
        if (s->ok == 1 && !custom) return Val();
        auto f = w->files.find(a[0].s);
        if (f == w->files.end() || f->second != s->text) unspec("executed again after the file has changed");
      }
      rrun(*R, *s, custom);
      return Val();
    };
    R->I.global->v["load"] = ref::Val::nat("load");
  }
  return *p;
}

struct Step { std::string cmd, body; Strs w; };
static std::vector<Step> parse(const std::string &text) {
  std::vector<Step> r;
  for (auto &p : split(text)) {
    Step s; size_t e = p.find('\n'); s.cmd = p.substr(0, e); if (e != std::string::npos) s.body = p.substr(e + 1);
    for (auto &x : split(s.cmd, " ")) s.w.push_back(x);
    r.push_back(s);
  }
  return r;
}
struct Res { bool specified = true; std::string why; Strs out, ends; std::string obs; int reads = 0; };

static Res expected(const std::vector<Step> &st, int fail, size_t from = 0) {
  Res r; World W; W.fail = fail;
  try {
    for (size_t i = 0; i < st.size(); i++) {
      const Step &s = st[i];
      if (s.w[0] == "put") W.files[s.w[1]] = s.body;
      else if (s.w[0] == "rm") W.files.erase(s.w[1]);
      if (i < from) continue;
      if (s.w[0] == "exec" || s.w[0] == "file" || s.w[0] == "call") {
        RInst &R = rinst(W, atoi(s.w[1].c_str())); ref::Interp &I = R.I;
        I.dyn.resize(1); I.env = I.global; I.self = ref::Val(); I.depth = 0; I.looping = 0; I.last_is_expr = false; I.steps = 0;
        size_t before = I.obs.size();
        try {
          if (s.w[0] == "exec") {
            ref::Parser p; p.t = ref::lex(s.body); ref::NP prog = p.program();
            for (auto &x : prog->c) { I.last_is_expr = false; I.run(x); }
            bool ends = !prog->c.empty() && prog->c.back()->k == "expr";
            r.out.push_back(ends ? "=" + ref::dump(I.last) : "=?");
          } else if (s.w[0] == "file") { rrun(R, *rread(W, R, s.w[2]), nullptr); r.out.push_back("=?"); }
          else {
            if (!I.global->v.count(s.w[2])) r.out.push_back("=none");
            else { std::vector<ref::Val> no; ref::Val v = I.call(I.global->v[s.w[2]], ref::Val(), no); r.out.push_back("=" + ref::dump(v)); }
          }
        } catch (ref::Err &e) { r.out.push_back("E" + std::to_string(e.code)); }
        if (I.order_mattered) ref::unspec("enumeration order");
        r.obs += s.w[1] + ":" + I.obs.substr(before) + "\n";
      }
    }
  } catch (ref::Unspecified &u) { r.specified = false; r.why = u.why; }
  r.reads = W.reads;
  return r;
}

// ---------------------------------------------------------------- the engine
static std::string dir;
static void enter() {
  if (dir.empty() || dir.find("/" + std::to_string(getpid()) + "_c14") == std::string::npos) {
    const char *t = getenv("MC_TMP");
    dir = std::string(t ? t : "/tmp") + "/" + std::to_string(getpid()) + "_c14";
    mkdir(dir.c_str(), 0755);
  }
  if (chdir(dir.c_str())) mc::fail("no scratch directory");
}
#include <dirent.h>
static void wipe(const std::string &d, bool top = true) {
  DIR *p = opendir(d.c_str()); if (!p) return;
  while (struct dirent *e = readdir(p)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string f = d + "/" + n;
    if (e->d_type == DT_DIR) { wipe(f, false); rmdir(f.c_str()); } else __real_unlink(f.c_str());
  }
  closedir(p); (void) top;
}
static std::string slurp(const std::string &p) { std::string r; FILE *f = __real_fopen(p.c_str(), "rb"); if (!f) return r; char b[4096]; size_t n; while ((n = __real_fread(b, 1, sizeof b, f)) > 0) r.append(b, n); __real_fclose(f); return r; }
static void spit(const std::string &p, const std::string &s) { FILE *f = __real_fopen(p.c_str(), "wb"); if (!f) mc::fail("cannot write " + p); __real_fwrite(s.data(), 1, s.size(), f); __real_fclose(f); }

// the cache which the engine itself writes for a source text
static const std::string &bcode(const std::string &name, const std::string &text) {
  static std::map<std::string, std::string> memo;
  auto it = memo.find(name + "\n" + text); if (it != memo.end()) return it->second;
  mkdir("gen", 0755); if (chdir("gen")) mc::fail("chdir");
  spit(name, text);
  { vm::hook_reset(); vm::Vm v; mjs_set_generate_jsc(v.m, 1); mjs_val_t r; vm::OBS = &v.obs; mjs_exec_file(v.m, name.c_str(), &r); }
  std::string b = slurp(name + "c"); if (chdir("..")) mc::fail("chdir"); wipe("gen"); rmdir("gen");
  return memo[name + "\n" + text] = b;
}
static void set_cache(const std::string &base, const std::string &how) {
  std::string js = base + ".js", jsc = base + ".jsc"; Strs w = split(how, ":");
  __real_unlink(jsc.c_str()); rmdir(jsc.c_str());
  if (w[0] == "none") return;
  if (w[0] == "dir") { mkdir(jsc.c_str(), 0755); return; }
  std::string b = bcode(js, w[0] == "stale" ? slurp(w[1] + ".js") : slurp(js));
  if (w[0] == "trunc") b.resize(std::min(b.size(), (size_t) atoi(w[1].c_str())));
  else if (w[0] == "flip") { size_t k = atoi(w[1].c_str()); if (k >= b.size()) return; b[k] ^= (char) atoi(w[2].c_str()); }
  else if (w[0] == "longer") b += std::string(atoi(w[1].c_str()), 'x');
  else if (w[0] == "garbage") { size_t n = b.size(); b = ""; while (b.size() < n) b += (char) (b.size() * 37 + atoi(w[1].c_str())); }
  else if (w[0] == "zeros") b = std::string(b.size(), 0);
  spit(jsc, b);
}
struct Real { Res r; int calls = 0; bool crashed = false; size_t crash_step = 0; };
static mc::Ctx *CTX;
// runs steps [from, end); a crash ends it and leaves the files
static Real run(const std::vector<Step> &st, bool jsc, size_t from = 0, bool keep = false) {
  Real o; std::map<int, vm::Vm *> in;
  enter(); if (!keep) wipe(dir);
  static Real *volatile ro; static std::map<int, vm::Vm *> *volatile rin; static volatile size_t ri; 
  ro = &o; rin = &in;
  vm::hook_reset(400000);
  for (size_t i = 0; i < st.size(); i++) {
    const Step &s = st[i];
    if (i >= from) {
      if (s.w[0] == "put") spit(s.w[1], s.body);
      else if (s.w[0] == "rm") __real_unlink(s.w[1].c_str());
      else if (s.w[0] == "cache") set_cache(s.w[1], s.w[2]);
    }
    if (i < from) continue;
    if (s.w[0] == "exec" || s.w[0] == "file" || s.w[0] == "call" || s.w[0] == "gc") {
      int n = atoi(s.w[1].c_str()); vm::Vm *&v = in[n];
      if (!v) { v = new vm::Vm; mjs_set_generate_jsc(v->m, jsc); }
      if (s.w[0] == "gc") { mjs_gc(v->m, 1); continue; }
      size_t before = v->obs.size();
      vm::OBS = &v->obs; mjs_val_t r = mjs_mk_undefined(); mjs_err_t e = MJS_OK;
      ri = i;
      if (io::crash && setjmp(io::die)) {
        io::active = false; ro->crashed = true; ro->crash_step = ri;
        return *ro;                       // the process is gone: nothing is released
      }
      bool none = false;
      mjs_val_t f = s.w[0] == "call" ? mjs_get(v->m, mjs_get_global(v->m), s.w[2].c_str(), ~0) : mjs_mk_undefined();
      io::active = true;
      if (s.w[0] == "exec") e = mjs_exec(v->m, s.body.c_str(), &r);
      else if (s.w[0] == "file") e = mjs_exec_file(v->m, s.w[2].c_str(), &r);
      else if (mjs_is_undefined(f)) none = true;
      else e = mjs_call(v->m, &r, f, mjs_mk_undefined(), 0);
      io::active = false;
      vm::Out out = v->finish(e, r);
      if (out.exhausted) mc::fail("does not terminate");
      o.r.out.push_back(none ? "=none" : out.str());
      o.r.obs += s.w[1] + ":" + v->obs.substr(before) + "\n";
    }
  }
  o.calls = io::n;
  for (auto &x : in) delete x.second;
  CTX->executions++; CTX->transitions += vm::H.n;
  return o;
}
static bool same(const Res &e, const Res &g) {
  if (e.obs != g.obs || e.out.size() != g.out.size()) return false;
  for (size_t i = 0; i < e.out.size(); i++) if (e.out[i] == "=?" ? g.out[i][0] != '=' : e.out[i] != g.out[i]) return false;
  return true;
}
static std::string pr(const Res &r) { return show(r.out, r.obs); }
static void reset() { io::n = 0; io::fail_at = -1; io::hit = false; io::crash = false; io::kind = 0; io::srcreads = -1; io::srcfail = -1; io::trace.clear(); io::src.clear(); io::srcfd.clear(); }

static void check(const std::string &text, mc::Ctx &c) {
  CTX = &c;
  std::vector<Step> st = parse(text);
  io::sources.clear(); for (auto &s : st) if (s.w[0] == "put") io::sources.insert(s.w[1]);
  bool jsc = st[0].cmd.find("jsc=1") != std::string::npos; std::string mode = split(st[0].cmd, "mode=").back();
  Res e = expected(st, -1);
  if (!e.specified) {
    c.count("cases_outside_the_specified_domain"); c.count(("unspecified: " + e.why).c_str()); c.nontrivial = false;
    reset(); run(st, jsc); return;
  }
  reset(); Real g = run(st, jsc); c.validated++;
  auto what = [&](const std::string &w, const Res &x) { mc::fail(w + "expected " + pr(e) + "\n  got      " + pr(x)); };
  if (!same(e, g.r)) what("", g.r);
  c.state(pr(g.r));
  if (mode == "plain") return;
  int N = g.calls; Strs tr = io::trace;
  c.count("io_calls", N);
  if (mode == "faults") {
    for (int k = 0; k < N; k++) for (int kind = 0; kind < 3; kind++) {
      if (kind && tr[k] != "fwrite" && tr[k] != "fread" && tr[k] != "write") continue;
      if (kind == 2 && tr[k] == "fread") continue;
      reset(); io::fail_at = k; io::kind = kind;
      Real x = run(st, jsc); c.count("faults"); c.validated++;
      if (!io::hit) mc::fail("the I/O calls are not deterministic");
      if (same(e, x.r)) continue;
      if (io::srcfail >= 0) { Res f = expected(st, io::srcfail); if (f.specified ? same(f, x.r) : true) continue; }
      what("I/O call " + std::to_string(k) + " (" + tr[k] + ") fails: ", x.r);
    }
  } else {                                  // crash, then a new process runs the history from the crashed step on
    for (int k = 0; k < N; k++) for (int kind = 1; kind < 3; kind++) {
      reset(); io::fail_at = k; io::kind = kind; io::crash = true;
      Real x = run(st, jsc); c.count("crashes");
      if (!x.crashed) mc::fail("the I/O calls are not deterministic");
      size_t at = x.crash_step;
      reset();
      Real y = run(st, jsc, at, true); Res f = expected(st, -1, at);
      if (!f.specified) { c.count("crashes outside the specified domain"); continue; }
      c.validated++;
      if (!same(f, y.r)) mc::fail("after a crash " + std::string(kind == 1 ? "before" : "after") + " I/O call " + std::to_string(k) + " (" + tr[k] + "): expected " + pr(f) + "\n  got      " + pr(y.r));
    }
  }
}

// ---------------------------------------------------------------- the space
static const char *S = "\n%%\n";
struct F { const char *name, *text; };
static const F FILES[] = {
    {"a.js", "let av=1;\nlet af=function(x){ av+=x; return [av,'from a'+chr(46)]; };\nobs('a');"},
    {"b.js", "obs('b starts');\nload('a.js');\nlet bv=[2,af(10)];\nobs('b',av);"},
    {"f.js", "obs('f');\nlet ff=function(){ return fc; };\nif(go<2){ go+=1; nope; }\nobs('f ok');let fc='fc';"},
    {"g.js", "obs('g');load('f.js');obs('g ok');"},
    {"k.js", "v+=1;obs(v);\nlet w=['w',v];let kf=function(){ return w; };obs(kf());"},
    {"s.js", "//bad\nobs('never');let x = = 1;"},
    {"r.js", "let rv=5;for(let i=0;i<3;i++){ if(i===1){ return rv; } obs(i); }\nobs('never');"},
    {"t.js", "let tf=function(){ obs('tf'); for(let i=0;i<2;i++){ if(i===tfx){ tnope.x; } } return 'tf'; };let tfx=5;obs('t');"},
};
static std::string files(const Strs &only = {}) {
  std::string r;
  for (auto &f : FILES) if (only.empty() || std::find(only.begin(), only.end(), f.name) != only.end()) r += std::string(S) + "put " + f.name + "\n" + f.text;
  return r;
}
static std::string ex(const std::string &s, int n = 1) { return std::string(S) + "exec " + std::to_string(n) + "\n" + s; }
static void seqs(const Strs &ops, int n, const std::string &pre, const std::string &post, const Emit &emit) {
  emit(pre + post);
  if (n) for (auto &o : ops) seqs(ops, n - 1, pre + o, post, emit);
}
static std::string tail(const Strs &names) { std::string r; for (auto &x : names) r += ex("obs(" + x + ");0"); return r; }

static void enumerate(bool th, const Emit &emit) {
  auto head = [](int jsc, const char *mode) { return "opts jsc=" + std::to_string(jsc) + " mode=" + mode; };
  // histories of loads
  Strs A = {ex("load('a.js');0"), ex("load('b.js');obs(av);0"), ex("load('f.js');0"), ex("load('g.js');0"), ex("load('k.js',o1);0"), ex("load('k.js',o2);obs(o1.v);0"), ex("load('s.js');0"), ex("load('missing.js');0"),
            ex("load('r.js');obs('after r',rv);0"), ex("for(let i=0;i<2;i++){ load('a.js'); obs(i,av); }0"), ex("obs(af(1));0"), ex("go=2;0"), std::string(S) + "file 1 a.js", std::string(S) + "file 1 f.js",
            std::string(S) + "call 1 ff", ex("load('a.js',o1);obs(o1.av);0"), ex("load('t.js');0"), std::string(S) + "call 1 tf", ex("tfx=1;0"), std::string(S) + "gc 1",
            ex("L('a.js');0"), ex("let q=callme(function(){ load('k.js',o2); return o2.w; });obs(q);0")};
  std::string pro = ex("let go=0;let o1={v:1};let o2={v:10,x:[1]};let L=function(n){ load(n); return 0; };let callme=function(f){ return f(); };0");
  std::string post = tail({"av", "bv", "fc", "o1", "o2", "rv", "[go,this]"}) + ex("obs(af(2));0");
  seqs(A, 2, head(0, "plain") + files() + pro, post, emit);
  seqs(A, th ? 3 : 2, head(1, "plain") + files() + pro, post, emit);
  Strs A2 = {A[0], A[1], A[2], A[4], A[5], A[10], A[11], A[13], A[14], A[16], A[17], A[18]};
  seqs(A2, th ? 5 : 3, head(0, "plain") + files() + pro, post, emit);
  // files which change while several instances use them, with a cache
  {
    std::string n0 = "let av='first version of it';\nlet af=function(x){ let s='body '; for(let i=0;i<2;i++){ s+=x+i; } return [av,s]; };obs('v1');",
                n1 = "let av='second one: longer';let pad=[1,2,3,'four',{five:5}];\nlet af=function(x){ if(x===1){ return 'second '+av; } return pad; };obs('v2');",
                n2 = "let af=function(x){ return 3; };obs('v3');", n3 = subst(n0, "first", "third");
    auto put = [](const std::string &t) { return std::string(S) + "put a.js\n" + t; };
    Strs B = {put(n0), put(n1), put(n2), put(n3), std::string(S) + "rm a.js", ex("load('a.js');0", 1), ex("load('a.js');0", 2), std::string(S) + "file 1 a.js", std::string(S) + "file 3 a.js", ex("obs(af(1),af(2));0", 1), ex("obs(af(1),af(2));0", 2), ex("obs(af(1));0", 3),
              std::string(S) + "cache a none", std::string(S) + "cache a dir"};
    seqs(B, th ? 5 : 4, head(1, "plain") + put(n0), ex("obs(af(1),af(2));0", 1) + ex("obs(af(1));0", 2), emit);
  }
  // every previous content of the cache
  Strs PR = {
      "let cv=1;let cf=function(x){ cv+=x; return cv; };obs(cf(2),cf(3));",
      "let o={k:[1,2.5,'str'],m:function(){ return this.k[1]; }};let cf=function(n){ let s=0; for(let i=0;i<n;i++){ if(i===2){ continue; } s+=i; } return s; };obs(o.m(),cf(5));",
      "let cf=function(x){ return x===0 ? nope : cf(x-1); };\n\nobs('x');",
      "let cf=function(x){ let r=''; for(let k in {a:1}){ r+=k; } while(x>0){ x--; r+='w'; } return r+'a string which is longer than the others'; };obs(cf(2));",
      "let cf=0;"};
  for (auto &p : PR) {
    std::string base = files({}) + std::string(S) + "put c.js\n" + p, use = ex("load('c.js');obs(cf(1));0") + ex("load('c.js');obs(cf(2));0") + ex("load('c.js');obs(cf(4));0", 2) + std::string(S) + "call 1 cf";
    base = std::string(S) + "put c.js\n" + p;
    auto cache = [&](const std::string &h) { emit(head(1, "plain") + base + S + "cache c " + h + use); };
    cache("none"); cache("dir"); cache("zeros");
    for (int k = 0; k < 300; k++) { cache("trunc:" + std::to_string(k)); if (th) for (int x : {1, 2, 4, 8, 16, 32, 64, 128, 255}) cache("flip:" + std::to_string(k) + ":" + std::to_string(x)); else for (int x : {1, 128, 255}) cache("flip:" + std::to_string(k) + ":" + std::to_string(x)); }
    for (int n : {1, 2, 100, 4095, 4096, 5000}) cache("longer:" + std::to_string(n));
    for (int i = 0; i < 8; i++) cache("garbage:" + std::to_string(i));
    for (size_t q = 0; q < PR.size(); q++) {
      std::string other = std::string(S) + "put d" + std::to_string(q) + ".js\n" + PR[q];
      emit(head(1, "plain") + base + other + S + "cache c stale:d" + std::to_string(q) + use);
      for (auto m : {"faults", "crash"}) emit(head(1, m) + base + other + S + "cache c stale:d" + std::to_string(q) + use);
      // the source changes under a cache which was written by an earlier run
      for (auto m : {"plain", "faults", "crash"})
        emit(head(1, m) + base + use + S + "put c.js\n" + PR[q] + ex("load('c.js');obs(cf(1));0", 3) + ex("obs(cf(1));0", 1) + ex("load('c.js');obs(cf(2));0", 4));
    }
    for (auto m : {"faults", "crash"}) for (auto h : {"none", "dir", "trunc:5", "trunc:0", "flip:9:1", "longer:3"}) emit(head(1, m) + base + S + "cache c " + h + use);
    for (auto m : {"faults"}) emit(head(0, m) + base + use);
  }
  // failing file operations in load histories
  seqs(A2, th ? 2 : 1, head(1, "faults") + files() + pro, post, emit);
  seqs(A2, th ? 2 : 1, head(1, "crash") + files() + pro, post, emit);
  seqs(A2, 2, head(0, "faults") + files() + pro, post, emit);
  // pairs (and triples) of files whose names resemble each other
  { Strs N = {"a.js", "a", "a.js.js", "aa.js", "a.jss", "js", ".js", "A.js", "a.j", "b.js", "a.js.dist", "ajs"};
    auto fl = [&](size_t i) { return std::string(S) + "put " + N[i] + "\nlet y" + std::to_string(i) + "='from " + N[i] + "';obs(y" + std::to_string(i) + ");let z" + std::to_string(i) + "=function(){ return y" + std::to_string(i) + "; };"; };
    auto ld = [&](size_t i) { return "load('" + N[i] + "');"; };
    auto use = [&](size_t i) { return "obs(z" + std::to_string(i) + "());"; };
    for (int j : {0, 1}) for (size_t a = 0; a < N.size(); a++) for (size_t b = 0; b < N.size(); b++) if (a != b) {
      emit(head(j, "plain") + fl(a) + fl(b) + ex(ld(a) + ld(b) + ld(a) + ld(b) + use(a) + use(b) + "0"));
      emit(head(j, "plain") + fl(a) + fl(b) + ex(ld(a) + "0") + std::string(S) + "file 1 " + N[b] + ex(ld(b) + ld(a) + use(b) + use(a) + "0"));
      emit(head(j, "plain") + fl(a) + ex(ld(a) + "0") + ex(ld(b) + "0") + fl(b) + ex(ld(b) + use(b) + use(a) + "0"));
      if (th) for (size_t c = 0; c < N.size(); c++) if (c != a && c != b) emit(head(j, "plain") + fl(a) + fl(b) + fl(c) + ex(ld(a) + ld(b) + "0") + ex(ld(c) + ld(a) + ld(b) + ld(c) + use(a) + use(b) + use(c) + "0"));
    }
  }
  // file names
  for (auto n : {"a", "a.txt", ".js", "x.jsc", "d/e.js", "longer name with spaces.js", "./a.js", "a.js.js", "ab.js", "abc.js", "abcd.js", "ajs"})
    for (int j : {0, 1}) {
      std::string N = n;
      if (N.find('/') != std::string::npos && N != "./a.js") continue;
      emit(head(j, "faults") + S + "put " + (N == "./a.js" ? "a.js" : subst(N, " ", "_")) + "\nlet zv=1;let zf=function(){ return zv; };obs('z');" + ex("load('" + subst(N, " ", "_") + "');load('" + subst(N, " ", "_") + "');obs(zf());0"));
    }
}

int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C14"; d.rule = "a case is a history of file changes, cache states, loads by scripts and by the C API, calls of loaded functions and collections in up to four instances; modes faults / crash repeat it with every single I/O call of the engine failing (and short reads and writes) / with the process ending before and after every I/O call and a new process continuing. Non-trivial: the reference defines the result";
  d.enumerate = enumerate; d.check = check; d.case_timeout = 60;
  d.assumptions = {"files are not changed by others while the engine is inside a single call which reads them", "a file which failed is not changed before it is loaded again"};
  scale::wrap(d, "C14");
  return mc::run(d, argc, argv);
}
