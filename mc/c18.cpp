// C18: instances are isolated from each other
//
// A program is the whole life of an instance: it is created, set up, executes
// scripts and files, is called, collected and destroyed. Two or three of them
// run under a scheduler which decides at every scheduling point who continues:
// after every operation of the bytecode and every step of the C API ("op"),
// and in every basic block of the library (compiled with -fsanitize-coverage).
// Each must compute exactly what it computes alone in a fresh process.
#include "capi.hpp"
#include "nat.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <link.h>
#include <memory>

// ---- programs ------------------------------------------------------------
struct Step { char k; std::string a, b; };
struct Prog { std::string name; std::vector<Step> steps; };
static std::vector<Prog> progs;
static std::string dir;

struct Inst { struct mjs *m = NULL; std::string out; struct Cb { void (*f)(int, void *); void *u; }; std::vector<Cb> cbs; mjs_val_t kept = 0; bool own = false; };
static std::map<struct mjs *, Inst *> insts;
static Inst &in(struct mjs *m) { auto i = insts.find(m); if (i == insts.end()) mc::fail("a native was called with an instance which does not exist"); return *i->second; }

struct T;
static thread_local T *me = NULL;
static void point_op();

static void q_obs(struct mjs *m) { std::string r; for (int i = 0; i < mjs_nargs(m); i++) r += (i ? " " : "") + vm::dump(m, mjs_arg(m, i)); in(m).out += r + ";"; point_op(); mjs_return(m, mjs_arg(m, 0)); }
static void q_keep(struct mjs *m) { Inst &i = in(m); i.kept = mjs_arg(m, 0); if (!i.own) { mjs_own(m, &i.kept); i.own = true; } point_op(); mjs_return(m, mjs_mk_undefined()); }
static void q_kept(struct mjs *m) { Inst &i = in(m); mjs_return(m, i.own ? i.kept : mjs_mk_undefined()); }
static void q_sprint(struct mjs *m) { char b[64]; memset(b, 0, sizeof b); mjs_sprintf(mjs_arg(m, 0), m, b, sizeof b); point_op(); mjs_return(m, mjs_mk_string(m, b, ~0, 1)); }
static void q_boom(struct mjs *m) { point_op(); mjs_set_errorf(m, MJS_TYPE_ERROR, "boom %d of %s", mjs_nargs(m), "this instance"); mjs_return(m, mjs_mk_undefined()); }
struct S1 { int a; double d; const char *s; float f; int8_t b; };
static const S1 sample = {-5, 2.5, "a C string", 0.5f, -7};
static const struct mjs_c_struct_member sdef[] = {{"a", 0, MJS_STRUCT_FIELD_TYPE_INT, NULL}, {"dd dd dd dd", offsetof(S1, d), MJS_STRUCT_FIELD_TYPE_DOUBLE, NULL}, {"s", offsetof(S1, s), MJS_STRUCT_FIELD_TYPE_CHAR_PTR, NULL}, {"f", offsetof(S1, f), MJS_STRUCT_FIELD_TYPE_FLOAT, NULL}, {"b", offsetof(S1, b), MJS_STRUCT_FIELD_TYPE_INT8, NULL}, {NULL, 0, MJS_STRUCT_FIELD_TYPE_INVALID, NULL}};
static void q_struct(struct mjs *m) { mjs_val_t v = mjs_struct_to_obj(m, &sample, sdef); point_op(); mjs_return(m, v); }
extern "C" {
int cc_add(int a, int b) { point_op(); return a + b; }
int cc_sub(int a, int b) { point_op(); return a - b; }
int cc_six(int a, int b, int c, int d, int e, int f) { point_op(); return a + 2 * b + 3 * c + 4 * d + 5 * e + 6 * f; }
double cc_dbl(double a, double b) { point_op(); return a * 2 + b; }
float cc_flt(float a) { point_op(); return a / 2; }
int cc_call(int (*f)(int, void *), void *u) { point_op(); int a = f(3, u); point_op(); int b = f(4, u); point_op(); return a * 100 + b; }
const char *cc_str(const char *s) { point_op(); return s + 1; }
bool cc_bool(bool b, int i) { point_op(); return b ^ (i > 3); }
const void *cc_ptr(void) { point_op(); return &sample; }
const void *cc_def(void) { point_op(); return sdef; }
void cc_reg(struct mjs *m, void (*f)(int, void *), void *u) { in(m).cbs.push_back({f, u}); }
int mjs_reg_missing(int);
}
static void *resolve_common(const char *n) {
  static const std::map<std::string, void *> t = {{"six", (void *) cc_six}, {"dbl", (void *) cc_dbl}, {"flt", (void *) cc_flt}, {"call", (void *) cc_call}, {"str", (void *) cc_str}, {"boolf", (void *) cc_bool}, {"ptr", (void *) cc_ptr}, {"def", (void *) cc_def}, {"reg", (void *) cc_reg}};
  auto i = t.find(n); return i == t.end() ? NULL : i->second;
}
// the same name is a different function in different instances
static void *resolver1(void *, const char *n) { if (!strcmp(n, "which")) return (void *) cc_add; if (!strcmp(n, "only1")) return (void *) cc_add; return resolve_common(n); }
static void *resolver2(void *, const char *n) { if (!strcmp(n, "which")) return (void *) cc_sub; if (!strcmp(n, "only2")) return (void *) cc_sub; return resolve_common(n); }

static std::string state_of(struct mjs *m, mjs_err_t e) {
  std::string r = "E" + std::to_string((int) e);
  char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n);
  mjs_print_error(m, f, "msg", 1); fclose(f);
  r += "[" + std::string(b, n) + "]"; free(b);
  return r;
}
static void prog_files(const Prog &p) {
  for (auto &s : p.steps) {
    if (s.k == 'p') mc::spit(dir + "/" + s.a, s.b);
    else if (s.k == 'd') unlink((dir + "/" + s.a).c_str());
  }
}
static std::string subdir(std::string s) { return subst(s, "DIR", dir); }
// the whole life of one instance; every API step is followed by a point
static void live(const Prog &p, Inst &I) {
  struct mjs *m = I.m = mjs_create();
  insts[m] = &I; point_op();
  mjs_val_t g = mjs_get_global(m);
  auto n = [&](const char *s, void (*f)(struct mjs *)) { mjs_set(m, g, s, ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) f)); };
  n("obs", q_obs); n("keep", q_keep); n("kept", q_kept); n("sprint", q_sprint); n("boom", q_boom); n("mkstruct", q_struct);
  n("callf", nat::callf); n("each", nat::each); n("pair", nat::pair); n("evalc", nat::evalc);
  mjs_set_ffi_resolver(m, (mjs_ffi_resolver_t *) resolver1);
  for (auto &s : p.steps) {
    point_op();
    mjs_val_t r = mjs_mk_undefined(); mjs_err_t e = MJS_OK;
    switch (s.k) {
      case 'x': e = mjs_exec(m, subdir(s.a).c_str(), &r); break;
      case 'f': e = mjs_exec_file(m, (dir + "/" + s.a).c_str(), &r); break;
      case 'r': mjs_set_ffi_resolver(m, (mjs_ffi_resolver_t *) (s.a == "2" ? resolver2 : resolver1)); continue;
      case 'j': mjs_set_generate_jsc(m, 1); continue;
      case 'g': mjs_gc(m, 1); continue;
      case 'c': { mjs_val_t f = mjs_get(m, g, s.a.c_str(), ~0); e = mjs_apply(m, &r, f, mjs_mk_undefined(), 1, (mjs_val_t[]){mjs_mk_number(m, atoi(s.b.c_str()))}); break; }
      case 's': {          // C API only
        mjs_val_t o = mjs_mk_object(m); mjs_own(m, &o);
        for (int i = 0; i < 4; i++) { std::string k = s.a + std::to_string(i); mjs_val_t v = mjs_mk_string(m, (k + " value").c_str(), ~0, i & 1); mjs_set(m, o, k.c_str(), ~0, v); point_op(); }
        mjs_del(m, o, (s.a + "2").c_str(), ~0); point_op();
        mjs_val_t a = mjs_mk_array(m); mjs_array_push(m, a, o); mjs_array_push(m, a, mjs_mk_number(m, 1.5)); mjs_disown(m, &o); r = a; point_op();
        I.out += mjs_typeof(a); I.out += vm::str(mjs_get_cstring(m, &(a = mjs_mk_string(m, (s.a + " copied string").c_str(), ~0, 1)))); break;
      }
      case 'b': {          // the callbacks which the script registered are called
        for (size_t i = 0; i < I.cbs.size(); i++) { I.cbs[i].f(7 + i, I.cbs[i].u); point_op(); }
        continue;
      }
      default: continue;
    }
    I.out += "|" + state_of(m, e) + (e ? "" : vm::dump(m, r)) + "\n";
  }
  point_op();
  if (I.own) mjs_disown(m, &I.kept);
  insts.erase(m);
  mjs_destroy(m); I.m = NULL;
  point_op();
}

// ---- scheduler -----------------------------------------------------------
enum Kind { OP, BB, ST, END };
struct T {
  const Prog *p = NULL; Inst inst; std::string err;
  uint64_t cnt[3] = {0, 0, 0}; int stopk = END; uint64_t stop = 0;
  bool threaded = false, done = false, lib = false;
  sem_t go;
  std::vector<uint32_t> *sel = NULL; std::unordered_map<uint64_t, uint32_t> seen; std::vector<uint64_t> *pcs = NULL; uint32_t K = 1;   // recording
  std::function<void(uint64_t)> nested;
  T() { sem_init(&go, 0, 0); }
  ~T() { sem_destroy(&go); }
};
static sem_t sched;
static uint64_t shared_writes = 0;
static std::set<uint64_t> shared_at;
static char *data_lo, *data_hi;
static void yield_() { T *t = me; me = NULL; sem_post(&sched); while (sem_wait(&t->go)) {} me = t; }
static inline void point(int k) {
  T *t = me; uint64_t i = t->cnt[k]++;
  if (t->threaded && t->stopk == k && t->stop == i) yield_();
}
static void point_op() {
  T *t = me; if (!t) return;
  uint64_t i = t->cnt[OP];
  point(OP);
  if (t->nested) { auto f = t->nested; me = NULL; f(i); me = t; }
}
extern "C" void __sanitizer_cov_trace_pc(void) {
  T *t = me; if (!t) return;
  if (t->sel) {
    uint64_t pc = (uint64_t) __builtin_return_address(0); uint64_t i = t->cnt[BB]; me = NULL;
    if (++t->seen[pc] <= t->K) { t->sel->push_back(i); t->pcs->push_back(pc); }
    me = t;
  }
  point(BB);
}
static inline void access(void *p, bool w) {
  T *t = me; if (!t || (char *) p < data_lo || (char *) p >= data_hi) return;
  if (w) { me = NULL; shared_writes++; shared_at.insert((uint64_t) p & ~7ull); me = t; point(ST); }
  else if (!shared_at.empty()) { me = NULL; bool s = shared_at.count((uint64_t) p & ~7ull); me = t; if (s) point(ST); }
}
#define ACC(n) extern "C" void __sanitizer_cov_load##n(void *p) { access(p, false); } extern "C" void __sanitizer_cov_store##n(void *p) { access(p, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)

static void body(T *t) {
  me = t;
  try { live(*t->p, t->inst); } catch (mc::Violation &v) { t->err = v.msg; }
  me = NULL;
}
// a pool of threads, so that a schedule does not have to create them
struct Pool { pthread_t th; sem_t start; T *job = NULL; };
static std::vector<Pool *> pool;
static void *worker(void *a) { Pool *w = (Pool *) a; for (;;) { while (sem_wait(&w->start)) {} T *t = w->job; while (sem_wait(&t->go)) {} body(t); t->done = true; sem_post(&sched); } }
static void need(size_t n) {
  while (pool.size() < n) { Pool *w = new Pool; sem_init(&w->start, 0, 0); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16 << 20); pthread_create(&w->th, &at, worker, w); pool.push_back(w); }
}
struct Seg { int t; int kind; uint64_t at; };
static std::string show_plan(const std::vector<Seg> &v) {
  std::string r; static const char *KNM[] = {"operation", "block", "access"};
  for (auto &s : v) r += (r.empty() ? "" : ", ") + std::string(1, 'A' + s.t) + (s.kind == END ? std::string(" runs to its end") : " runs to " + std::string(KNM[s.kind]) + " " + std::to_string(s.at));
  return r;
}
static void begin(const std::vector<const Prog *> &ps) {
  insts.clear();
  for (auto p : ps) prog_files(*p);
}
// Runs the programs with the given schedule.
static void threads(const std::vector<const Prog *> &ps, const std::vector<Seg> &plan, std::vector<std::unique_ptr<T>> &ts) {
  static bool once = (sem_init(&sched, 0, 0), true); (void) once;
  need(ps.size()); begin(ps); ts.clear();
  vm::H.n = 0; vm::H.budget = 100000; vm::H.exhausted = false;
  for (size_t i = 0; i < ps.size(); i++) { ts.emplace_back(new T); T *t = ts.back().get(); t->p = ps[i]; t->threaded = true; pool[i]->job = t; sem_post(&pool[i]->start); }
  auto seg = [&](const Seg &s) {
    T *t = ts[s.t].get(); if (t->done) return;
    t->stopk = s.kind; t->stop = s.at; sem_post(&t->go); while (sem_wait(&sched)) {}
  };
  for (auto &s : plan) seg(s);
  for (size_t i = 0; i < ps.size(); i++) seg({(int) i, END, 0});
}
struct Base { std::string out; uint64_t ops = 0, bbs = 0, sts = 0; std::vector<uint32_t> sel; std::vector<uint64_t> pcs; };
static std::map<std::pair<std::string, int>, Base> bases;
static std::string outcome(const T &t) { return t.err.empty() ? t.inst.out + "operations: " + std::to_string(t.cnt[OP]) : "FAIL " + t.err; }
// what the program computes alone: in a process in which nothing has run before
static const Base &alone(const Prog &p, int K) {
  Base &b = bases[{p.name, K}];
  if (b.ops) return b;
  std::string f = dir + "/alone." + p.name;
  pid_t pid = fork();
  if (pid == 0) {
    pool.clear(); begin({&p}); T t; t.p = &p; vm::H.n = 0; vm::H.budget = 100000; vm::H.exhausted = false; body(&t);
    mc::spit(f, outcome(t)); _exit(0);
  }
  int st; waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) mc::fail("the program " + p.name + " alone crashes");
  b.out = mc::slurp(f); unlink(f.c_str());
  begin({&p}); T t; t.p = &p; t.K = K; t.sel = &b.sel; t.pcs = &b.pcs; vm::H.n = 0; vm::H.exhausted = false; body(&t);
  b.ops = t.cnt[OP]; b.bbs = t.cnt[BB]; b.sts = t.cnt[ST];
  if (outcome(t) != b.out) mc::fail("the program " + p.name + " computes something else after other instances have run\n  in a fresh process: " + b.out + "\n  here: " + outcome(t));
  if (b.out.compare(0, 4, "FAIL") == 0 || vm::H.exhausted) mc::fail(p.name + " alone: " + b.out);
  return b;
}
static void compare(const Prog &p, const std::string &got, const std::string &want, const std::string &how) {
  if (got == want) return;
  size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  size_t s = i > 60 ? i - 60 : 0;
  mc::fail(p.name + " computes something else than alone; schedule: " + how + "\n  alone:  ..." + want.substr(s, 300) + "\n  here:   ..." + got.substr(s, 300));
}
static const Prog &prog(const std::string &n) { for (auto &p : progs) if (p.name == n) return p; mc::fail("no program " + n); }

// ---- checks --------------------------------------------------------------
static void run_plan(const std::vector<const Prog *> &ps, const std::vector<Seg> &plan, mc::Ctx &c, int K) {
  std::vector<std::unique_ptr<T>> ts; uint64_t w0 = shared_writes;
  threads(ps, plan, ts);
  c.executions++; c.validated += ps.size();
  for (size_t i = 0; i < ps.size(); i++) { c.transitions += ts[i]->cnt[OP]; compare(*ps[i], outcome(*ts[i]), alone(*ps[i], K).out, show_plan(plan)); }
  if (shared_writes != w0) c.count("schedules_which_write_shared_memory");
}
// which function a block belongs to
static uint64_t func_of(uint64_t pc) {
  static std::map<uint64_t, uint64_t> memo; auto i = memo.find(pc); if (i != memo.end()) return i->second;
  Dl_info d; uint64_t f = pc >> 9; if (dladdr((void *) pc, &d) && d.dli_saddr) f = (uint64_t) d.dli_saddr;
  return memo[pc] = f;
}
static void check(const std::string &text, mc::Ctx &c) {
  Strs w = split(text, " "); std::string mode = w[0];
  std::vector<const Prog *> ps; int K = 1; size_t step = 1; 
  for (size_t i = 1; i < w.size(); i++) { if (w[i].compare(0, 2, "K=") == 0) K = atoi(w[i].c_str() + 2); else if (w[i].compare(0, 5, "step=") == 0) step = atoi(w[i].c_str() + 5); else ps.push_back(&prog(w[i])); }
  std::vector<const Base *> b; for (auto p : ps) b.push_back(&alone(*p, K));
  auto st = [&](const std::string &s) { c.state(s); };
  if (mode == "seq") {                     // one after another, and create/destroy overlapping at the ends
    run_plan(ps, {{0, END, 0}, {1, END, 0}}, c, K);
    run_plan(ps, {{0, OP, 0}, {1, END, 0}}, c, K);
    run_plan(ps, {{0, OP, b[0]->ops - 2}, {1, END, 0}}, c, K);
  } else if (mode == "nest") {             // B lives inside of A, C inside of B; same thread
    for (uint64_t k = 0; k < b[0]->ops; k += step) {
      uint64_t n = ps.size() > 2 ? b[1]->ops : 1;
      for (uint64_t j = 0; j < n; j += step) {
        begin(ps); vm::H.n = 0; vm::H.exhausted = false;
        T ta, tb, tc; ta.p = ps[0]; tb.p = ps[1];
        ta.nested = [&](uint64_t i) {
          if (i != k) return;
          if (ps.size() > 2) { tc.p = ps[2]; tb.nested = [&](uint64_t i2) { if (i2 == j) body(&tc); }; }
          body(&tb);
        };
        body(&ta);
        std::string how = ps[1]->name + " lives inside of operation " + std::to_string(k);
        c.executions++; c.validated += ps.size(); c.transitions += ta.cnt[OP] + tb.cnt[OP]; st(text + std::to_string(k) + "/" + std::to_string(j));
        compare(*ps[0], outcome(ta), b[0]->out, how); compare(*ps[1], outcome(tb), b[1]->out, how);
        if (ps.size() > 2) compare(*ps[2], outcome(tc), b[2]->out, how + ", the third inside of operation " + std::to_string(j) + " of it");
      }
    }
  } else if (mode == "op") {               // two preemptions at operations
    for (uint64_t i = 0; i < b[0]->ops; i += step) for (uint64_t j = 0; j < b[1]->ops; j += step) {
      run_plan(ps, {{0, OP, i}, {1, OP, j}, {0, END, 0}, {1, END, 0}}, c, K); st(text + std::to_string(i) + "/" + std::to_string(j));
    }
  } else if (mode == "turns") {            // strictly alternating, for every pair of strides and starts
    for (uint64_t s1 = 1; s1 <= 5; s1++) for (uint64_t s2 = 1; s2 <= 5; s2++) {
      std::vector<Seg> plan; uint64_t i = 0, j = 0, l = 0;
      while (i < b[0]->ops || j < b[1]->ops || (ps.size() > 2 && l < b[2]->ops)) { plan.push_back({0, OP, i}); plan.push_back({1, OP, j}); if (ps.size() > 2) plan.push_back({2, OP, l}); i += s1; j += s2; l += s1 + s2; }
      run_plan(ps, plan, c, K); st(text + std::to_string(s1) + "/" + std::to_string(s2));
    }
  } else if (mode == "op3") {              // three preemptions
    for (uint64_t i = 0; i < b[0]->ops; i += step) for (uint64_t j = 0; j < b[1]->ops; j += step) for (uint64_t i2 = i + 1; i2 < b[0]->ops; i2 += step) {
      run_plan(ps, {{0, OP, i}, {1, OP, j}, {0, OP, i2}, {1, END, 0}, {0, END, 0}}, c, K); st(text + std::to_string(i) + "/" + std::to_string(j) + "/" + std::to_string(i2));
    }
  } else if (mode == "bb") {               // A is stopped in a basic block, B lives, A continues
    for (size_t x = 0; x < b[0]->sel.size(); x += step) { uint64_t i = b[0]->sel[x]; run_plan(ps, {{0, BB, i}, {1, END, 0}, {0, END, 0}}, c, K); st(text + std::to_string(i)); }
    c.count("blocks_preempted", b[0]->sel.size());
  } else if (mode == "bb2") {              // A and B are stopped in blocks of the same function, then A goes on, then B
    std::map<uint64_t, std::vector<uint32_t>> f; for (size_t y = 0; y < b[1]->sel.size(); y++) f[func_of(b[1]->pcs[y])].push_back(b[1]->sel[y]);
    for (size_t x = 0; x < b[0]->sel.size(); x += step) for (auto j : f[func_of(b[0]->pcs[x])]) {
      run_plan(ps, {{0, BB, b[0]->sel[x]}, {1, BB, j}, {0, END, 0}, {1, END, 0}}, c, K); st(text + std::to_string(b[0]->sel[x]) + "/" + std::to_string(j));
    }
  } else if (mode == "shared") {           // all schedules with two preemptions at accesses to written global memory
    uint64_t na = b[0]->sts, nb = b[1]->sts; uint64_t sa = 1 + na / 200, sb = 1 + nb / 200;
    for (uint64_t i = 0; i < na; i += sa) for (uint64_t j = 0; j < nb; j += sb) run_plan(ps, {{0, ST, i}, {1, ST, j}, {0, END, 0}, {1, END, 0}}, c, K);
    if (!na) run_plan(ps, {{0, END, 0}}, c, K);
    c.count("accesses_to_written_global_memory", na); st(text);
  } else mc::fail("bad case");
}

// ---- instances which call each other ----------------------------------------
// hop(k, n): calls function F of instance k with n, from a native
static struct mjs *peers[3];
static int hops;
static void q_hop(struct mjs *m) {
  int k = mjs_get_int(m, mjs_arg(m, 0)), n = mjs_get_int(m, mjs_arg(m, 1));
  struct mjs *o = peers[k]; hops++;
  mjs_val_t r = mjs_mk_undefined(), a = mjs_mk_number(o, n);
  mjs_err_t e = mjs_apply(o, &r, mjs_get(o, mjs_get_global(o), "F", ~0), mjs_mk_undefined(), 1, &a);
  std::string s = e ? "E" + std::to_string(e) : vm::dump(o, r);
  mjs_return(m, mjs_mk_string(m, s.c_str(), s.size(), 1));
}
// F of instance k: a text which depends on k and n and on what the others return
static std::string F_src(int k, int bad) {
  std::string K = std::to_string(k), nx = std::to_string((k + 1) % 3);
  return "let local='of instance " + K + "'; let calls=0; let F=function(n){ let l='level '+chr(48+n); calls++; let o={n:n,l:l}; if(n===" + std::to_string(bad) + "){ o.missing.x; } let r=n>0?hop(" + nx + ",n-1):'end'; gc(true); return l+' '+local+chr(48+calls)+' <'+r+'> '+o.l; };";
}
// An error of a nested call stays with the instance until it is called again, so a native of the same instance which is
// still running passes it on; other instances do not notice.
static std::string F_ref(int k, int n, int bad, int *calls, bool *err) {
  err[k] = false; ++calls[k];
  if (n == bad) { err[k] = true; return "E3"; }
  std::string l = std::string("level ") + (char) (48 + n), r = n > 0 ? F_ref((k + 1) % 3, n - 1, bad, calls, err) : "end";
  if (err[k]) return "E3";
  return vm::str(l + " of instance " + std::to_string(k) + (char) (48 + calls[k]) + " <" + r + "> " + l);
}
static void check_hop(int n, int bad, int with_gc, mc::Ctx &c) {
  vm::hook_reset(100000);
  struct mjs *m[3]; for (int k = 0; k < 3; k++) { m[k] = peers[k] = mjs_create(); mjs_set(m[k], mjs_get_global(m[k]), "hop", ~0, mjs_mk_foreign_func(m[k], (mjs_func_ptr_t) q_hop)); mjs_val_t r; if (mjs_exec(m[k], F_src(k, bad).c_str(), &r)) mc::fail("setup: " + std::string(mjs_strerror(m[k], MJS_OK))); }
  if (with_gc) vm::H.fn = [](struct mjs *mm, uint64_t i) { mjs_gc(mm, i & 1); };
  int calls[3] = {0, 0, 0}; bool err[3] = {};
  for (int round = 0; round < 2; round++) for (int k = 0; k < 3; k++) {
    std::string want = F_ref(k, n, bad, calls, err); mjs_val_t r = mjs_mk_undefined(), a = mjs_mk_number(m[k], n);
    mjs_err_t e = mjs_apply(m[k], &r, mjs_get(m[k], mjs_get_global(m[k]), "F", ~0), mjs_mk_undefined(), 1, &a);
    std::string got = e ? "E" + std::to_string(e) : vm::dump(m[k], r);
    c.executions++; c.validated++; c.state(got);
    if (got != want) mc::fail("chain of calls between instances: expected " + want + ", got " + got);
  }
  c.transitions += vm::H.n; vm::H.fn = nullptr;
  for (int k = 0; k < 3; k++) mjs_destroy(m[(k + 1) % 3]);
}
// every instance's callbacks are called while another one executes an operation
static void check_fire(const Prog &a, const Prog &cb, mc::Ctx &c) {
  const Base &b = alone(a, 1);
  for (uint64_t k = 0; k < b.ops; k++) {
    begin({&a, &cb}); vm::H.n = 0; vm::H.exhausted = false;
    Inst I; struct mjs *m = I.m = mjs_create(); insts[m] = &I;
    mjs_val_t g = mjs_get_global(m); mjs_set(m, g, "obs", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) q_obs)); mjs_set_ffi_resolver(m, (mjs_ffi_resolver_t *) resolver1);
    mjs_val_t r; if (mjs_exec(m, cb.steps[0].a.c_str(), &r)) mc::fail("setup of " + cb.name + ": " + mjs_strerror(m, MJS_OK));
    std::string before = I.out; I.out = "";
    for (size_t i = 0; i < I.cbs.size(); i++) I.cbs[i].f(7 + i, I.cbs[i].u);
    std::string want = I.out; I.out = "";
    mjs_exec(m, "n=0; ud.k='k';", &r);
    T ta; ta.p = &a; bool ran = false;
    ta.nested = [&](uint64_t i) { if (i == k) { ran = true; for (size_t q = 0; q < I.cbs.size(); q++) I.cbs[q].f(7 + q, I.cbs[q].u); } };
    body(&ta);
    c.executions++; c.validated += 2; c.transitions += ta.cnt[OP]; c.state(a.name + cb.name + std::to_string(k));
    std::string how = "callbacks of " + cb.name + " are called inside of operation " + std::to_string(k);
    compare(a, outcome(ta), b.out, how); if (ran) compare(cb, I.out, want, how);
    insts.erase(m); mjs_destroy(m);
  }
}

static void make_progs() {
  auto add = [](const std::string &n, std::vector<Step> s) { progs.push_back({n, s}); };
  auto x = [](const std::string &s) { return Step{'x', s, ""}; };
  add("arith", {x("let n=5; n<<=2; n|=3; n*=1.25; obs(n,-n,~7,7>>>1,1/3,1e21,0x7fffffff+1); n++; n"), x("n+1")});
  add("arith2", {x("let n=7; n-=2.5; n%=2; obs(n,n*1000003,n===0.5,123456789012,0.1+0.2); let s=JSON.stringify([n,1e-7,255]); s")});
  add("string", {x("let s='first '+'string '+'here'; let t=s.slice(2,9)+s[3]; obs(s,t,s.indexOf('ring'),s.at(0),chr(72)); t"), {'g', "", ""}, x("s+'/'+t")});
  add("string2", {x("let s='esc \\x41\\n\\u0042 \"q\"'; let t=''; for(let i=s.length-1;i>=0;i--){ t+=s[i]; } obs(s,t); mkstr"), x("t.slice(-4)")});
  add("object", {x("let o={a:1,'long property name':{b:[1,'two two']},f:function(k){ this.a+=k; return this; }}; obs(o.f(2).a,o); for(let k in o){ obs(k); } o['long property name'].b"), {'c', "F", "1"}, x("Object.create(o).a")});
  add("object2", {x("let o={z:{y:{x:'deep deep deep'}}}; let p=Object.create(o); p.own=[o.z.y,5]; let d=function(q){ return q.z.y.x; }; obs(d(p),d(o),p.own[0].x); p.z.y.x+='!'; o"), {'g', "", ""}, x("let r=p.own; r.push(r[0]); r")});
  add("closure", {x("let mk=function(v){ return {v:v,next:null}; }; let l=mk('node one'); l.next=mk('node two'); let w=function(n){ if(n===null){ return 'end'; } return n.v+'>'+w(n.next); }; obs(w(l)); let f=function(n){ return n<2?1:n*f(n-1); }; let F=function(n){ return f(n)+w(l).length; };"), {'c', "F", "4"}, {'c', "F", "6"}});
  add("array", {x("let a=[3,'two',{k:1}]; a.push('four four',[5]); let d=a.splice(1,2,'ins ins',7); obs(a,d,a.length); let g=function(v,w){ return v+'/'+w+this.t; }; g.apply({t:'!'},['x','yyyyyy'])")});
  add("json", {x("let o=JSON.parse('{\"a\":[1,-2.5e3,{\"b\":\"str \\\\n str\"}],\"n\":null,\"t\":true}'); obs(o); let s=JSON.stringify(o); obs(s,JSON.stringify([o.a,'\\t\"'])); JSON.parse(s).a[2].b")});
  add("json2", {x("JSON.parse('[1,[2,[3')"), x("let c={}; c.self=c; c.v=[1]; JSON.stringify(c)"), x("JSON.stringify({u:undefined,f:obs,x:'y y y y y'})")});
  add("error", {x("let g=function(o){\n return o.a.b.c; };\nlet f=function(o){\n return g(o)+1; };\nobs('before');\nf({a:{}})"), x("obs('still works'); 1"), x("undefinedThing")});
  add("error2", {x("let h=function(n){ if(n===0){ boom(1,2); }\n h(n-1); };\nlet q={m:function(){\n h(2); }};\nobs('x');\n q.m()"), x("die('the message of this one')"), x("let e=1; e.b.c"), x("5+'str'")});
  add("syntax", {x("let a = 1;\nlet b = [1, 2;\n"), x("let f = function( { }"), x("{ let q=[[[[{a:{b:{c:[1]}}}]]]]; obs(q); q[0][0][0][0].a.b.c }"), x("var x"), x("\n\n  @")});
  add("gc", {x("let keepme=[]; for(let i=0;i<4;i++){ let t={i:i,s:'temporary '+chr(48+i)}; if(i%2){ keepme.push(t); } gc(true); } keep({kept:keepme}); obs(keepme); 0"), {'g', "", ""}, x("obs(kept()); keepme[1].s"), {'s', "capi", ""}});
  add("natives", {x("obs(callf(function(a,b){ return a+b; },'left ','right')); obs(each([1,2],function(v,i){ return v*10+i; })); obs(pair('p',[1])); evalc('obs(\"inner text\"); 4')+sprint({}).length+sprint('sss').length"), {'s', "names", ""}});
  add("ffi", {x("let w=ffi('int which(int,int)'); obs(w(10,3)); let s=ffi('int six(int,int,int,int,int,int)'); obs(s(1,2,3,4,5,6)); let d=ffi('double dbl(double,double)'); obs(d(1.5,2)); ffi('float flt(float)')(5)"), x("ffi('int only2(int,int)')(1,2)"), x("w('bad',1)")});
  add("ffi2", {{'r', "2", ""}, x("let w=ffi('int which(int,int)'); obs(w(10,3)); let t=ffi('char *str(char *)'); obs(t('a string argument')); obs(ffi('bool boolf(bool,int)')(true,7)); ffi('int only2(int,int)')(1,2)"), x("ffi('int only1(int,int)')(1,2)")});
  add("callback", {x("let u={n:5}; let cb=function(v,u){ obs('cb',v,u.n); u.n+=v; return u.n; }; let f=ffi('int call(int (*)(int,userdata),userdata)'); obs(f(cb,u)); obs(f(cb,u),u); ffi_cb_free(cb,u)")});
  add("callback2", {x("let r=ffi('void reg(void *,void (*)(int,userdata),userdata)'); let n=0; let cb=function(v,u){ n+=v; obs('fired',n,u); }; let cb2=function(v,u){ obs('second',v,u.k); u.k+='+'; }; r(getMJS(),cb,'user data of it'); let ud={k:'k'}; r(getMJS(),cb2,ud); n"), {'b', "", ""}, {'g', "", ""}, {'b', "", ""}, x("n")});
  add("struct", {x("let o=mkstruct(); obs(o); let p=ffi('void *ptr()')(); let d=ffi('void *def()')(); let q=s2o(p,d); obs(q.s,q.a,q.f); q.b+q['dd dd dd dd']")});
  add("files", {{'p', "fa.js", "let fromfile='text of file a';\nlet ff=function(){ return fromfile+load('DIRx'); };\nfromfile.length\n"}, {'p', "shared.js", "let sh={n:1,s:'shared file'};\nsh.f=function(){ return this.s; };\nsh\n"}, {'f', "fa.js", ""}, x("obs(load('DIR/shared.js')); obs(sh.f(),fromfile); load('DIR/missing.js')"), {'f', "shared.js", ""}});
  add("files2", {{'p', "fb.js", "let mine=2;\nlet bad=function(q){\n  return q.r.s;\n};\nmine+40\n"}, {'p', "shared.js", "let sh={n:1,s:'shared file'};\nsh.f=function(){ return this.s; };\nsh\n"}, {'j', "", ""}, x("obs(load('DIR/fb.js'),mine); load('DIR/shared.js'); sh.s+='!'; obs(sh.f()); bad(1)"), {'d', "fb.jsc", ""}});
  add("globals", {x("JSON.extra='only here'; obs(JSON.extra,JSON['str'+'ingify']===JSON.stringify); let print2=print; Object.create=function(o){ return 'replaced'; }; obs(Object.create({})); gv='undeclared'"), x("this; typeof print2")});
  add("globals2", {x("obs(JSON.extra,typeof Object.create); let o=Object.create({inherited:1}); obs(o.inherited); let gv='declared here'; gv"), x("gv+JSON.stringify(o)")});
  add("parser", {x("let deep=((((1+((2*(3-(4))))))));let a=[[[],[[]]],{a:{b:{c:{}}}}]; if(a){ for(let i=0;i<2;i++){ while(true){ if(i){ break; } else { obs(i); } break; } } } let t=a[0].length===2?(deep?'yes yes':'no'):'never'; obs(t,a); /* comment */ t // end")});
}
static Strs names() { Strs r; for (auto &p : progs) r.push_back(p.name); return r; }
static void enumerate(bool th, const Emit &emit) {
  Strs n = names(), big = {"json", "error2", "files2", "callback", "string2", "object2", "ffi", "parser"};
  auto partner = [&](size_t i, size_t d) { return n[(i + d) % n.size()]; };
  for (size_t i = 0; i < n.size(); i++) for (size_t j = 0; j < n.size(); j++) {
    std::string ab = n[i] + " " + n[j];
    emit("seq " + ab); emit("shared " + ab); emit("turns " + ab);
    emit("nest " + ab + (th || i == j ? "" : " step=3"));
    if (th) emit("op " + ab); else emit("op " + ab + " step=" + std::to_string(i == j ? 4 : 11));
  }
  for (auto &a : n) for (auto &b : big) emit("turns " + a + " " + b + " " + big[(b.size() + a.size()) % big.size()]);
  for (int k = 0; k <= 8; k++) for (int bad = -1; bad <= k; bad++) for (int g = 0; g < 2; g++) emit("hop " + std::to_string(k) + " " + std::to_string(bad) + " " + std::to_string(g));
  for (auto &a : n) emit("fire " + a + " callback2");
  if (th) {
    for (auto &a : n) for (auto &b : n) emit("bb " + a + " " + b + " K=2");
    for (auto &a : n) { emit("bb " + a + " " + a + " K=20"); for (auto &b : big) emit("bb " + a + " " + b + " K=8"); }
    for (auto &a : big) for (auto &b : big) for (auto &c : big) emit("nest " + a + " " + b + " " + c + " step=2");
    for (auto &a : n) for (auto &b : big) emit("op3 " + a + " " + b + " step=5");
    for (auto &a : n) { emit("bb2 " + a + " " + a); for (auto &b : big) emit("bb2 " + a + " " + b); }
  } else {
    for (size_t i = 0; i < n.size(); i++) { emit("bb " + n[i] + " " + n[i] + " K=1"); emit("bb " + n[i] + " " + partner(i, 1) + " K=1"); }
    for (auto &a : big) emit("bb2 " + a + " " + a + " step=6");
    emit("nest json files2 error2 step=5"); emit("nest callback ffi string2 step=5"); emit("nest natives error2 object2 step=5");
  }
}
static void check_any(const std::string &text, mc::Ctx &c) {
  if (dir.empty() || dir.find("." + std::to_string(getpid()) + "/") == std::string::npos) {
    const char *t = getenv("MC_TMP"); dir = std::string(t ? t : "/tmp") + "/c18." + std::to_string(getpid()) + "/"; mkdir(dir.c_str(), 0755); dir += "d"; mkdir(dir.c_str(), 0755); bases.clear();
  }
  me = NULL;
  int n, bad, g; if (sscanf(text.c_str(), "hop %d %d %d", &n, &bad, &g) == 3) return check_hop(n, bad, g, c);
  Strs w = split(text, " ");
  vm::hook_reset(1000000000);
  vm::H.fn = [](struct mjs *, uint64_t) { point_op(); };
  if (w[0] == "fire") return check_fire(prog(w[1]), prog(w[2]), c);
  check(text, c);
  vm::H.fn = nullptr;
}
extern char __data_start[], _end[];
int main(int argc, char **argv) {
  data_lo = __data_start; data_hi = _end;
  make_progs();
  mc::Driver d;
  d.id = "C18"; d.rule = "a case is two or three programs (the whole life of an instance each) and a family of schedules: nested at every operation, two or three preemptions at operations, alternating with all strides, one preemption in every basic block of the library, two in blocks of one function, and at every access to written global memory. Every outcome equals that of the program alone in a fresh process";
  d.enumerate = enumerate; d.check = check_any; d.case_timeout = 300;
  d.assumptions = {"one thread at a time is running; data races are seen through their effects at basic block granularity"};
  return mc::run(d, argc, argv);
}
