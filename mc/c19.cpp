// C19: memory is reclaimed
#include "capi.hpp"
#include "nat.hpp"
#include "ffp.hpp"

static const char *SEP = "\n%%mode\n";
static size_t allocated() { return __sanitizer_get_current_allocated_bytes(); }
static std::string obsbuf;
static void qobs(struct mjs *m) {              // allocates nothing by itself
  for (int i = 0; i < mjs_nargs(m); i++) { mjs_val_t v = mjs_arg(m, i); size_t n; if (mjs_is_string(v)) mjs_get_string(m, &v, &n); }
  mjs_return(m, mjs_arg(m, 0));
}
static void leakobs(struct mjs *m) { mjs_val_t v = mjs_mk_object(m); mjs_set(m, v, "some property", ~0, mjs_mk_string(m, "some string value", ~0, 1)); mjs_return(m, v); }
struct S1 { int a; double d; const char *s; float f; int8_t b; };
static S1 sample = {-5, 2.5, "a C string", 0.5f, -7};
static const struct mjs_c_struct_member sdef[] = {{"a", 0, MJS_STRUCT_FIELD_TYPE_INT, NULL}, {"dd dd dd dd", offsetof(S1, d), MJS_STRUCT_FIELD_TYPE_DOUBLE, NULL}, {"s", offsetof(S1, s), MJS_STRUCT_FIELD_TYPE_CHAR_PTR, NULL}, {"f", offsetof(S1, f), MJS_STRUCT_FIELD_TYPE_FLOAT, NULL}, {"b", offsetof(S1, b), MJS_STRUCT_FIELD_TYPE_INT8, NULL}, {NULL, 0, MJS_STRUCT_FIELD_TYPE_INVALID, NULL}};
static void mkstruct(struct mjs *m) { mjs_return(m, mjs_struct_to_obj(m, &sample, sdef)); }
static void sprint(struct mjs *m) { char b[40]; mjs_sprintf(mjs_arg(m, 0), m, b, sizeof b); mjs_return(m, mjs_mk_string(m, b, ~0, 1)); }
extern "C" {
int cc_add(int a, int b) { return a + b; }
double cc_dbl(double a) { return a * 2; }
int cc_call(int (*f)(int, void *), void *u) { return f(3, u) + f(4, u); }
void cc_keep(void (*f)(int, void *), void *u) { (void) f; (void) u; }
char *cc_str(char *s) { static char b[] = "from C from C"; (void) s; return b; }
void *cc_ptr(void) { return &sample; }
void *cc_def(void) { return (void *) sdef; }
}
static void *resolver(void *, const char *n) {
  static const std::map<std::string, void *> t = {{"cc_add", (void *) cc_add}, {"cc_dbl", (void *) cc_dbl}, {"cc_call", (void *) cc_call}, {"cc_keep", (void *) cc_keep}, {"cc_str", (void *) cc_str}, {"cc_ptr", (void *) cc_ptr}, {"cc_def", (void *) cc_def}};
  for (auto &x : t) if (x.first == n) return x.second;
  return ffp::res(NULL, n);
}
static struct mjs *fresh() {
  struct mjs *m = mjs_create(); mjs_val_t g = mjs_get_global(m);
  auto n = [&](const char *s, void (*f)(struct mjs *)) { mjs_set(m, g, s, ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) f)); };
  n("obs", qobs); n("callf", nat::callf); n("each", nat::each); n("pair", nat::pair); n("boom", nat::boom); n("made", leakobs); n("mkstruct", mkstruct); n("sprint", sprint);
  n("keep", qobs); n("kept", leakobs); n("evalc", nat::evalc);
  mjs_set_ffi_resolver(m, (mjs_ffi_resolver_t *) resolver);
  ffp::M = m; for (auto &s : ffp::slot) s = {nullptr, nullptr};
  return m;
}
// more programs: ffi, callbacks, structs, errors of builtins
static Strs extra() {
  return {
    "let f=ffi('int cc_add(int,int)'); let s=0; for(let i=0;i<3;i++){ s+=f(i,2); } obs(s);",
    "let f=ffi('double cc_dbl(double)'); obs(f(1.5)); f('wrong');",
    "let cb=function(x,u){ return x+u.n; }; let u={n:5}; let f=ffi('int cc_call(int (*)(int, userdata), userdata)'); obs(f(cb,u)); obs(ffi_cb_free(cb,u)); obs(ffi_cb_free(cb,u));",
    "let cb=function(x,u){ return x.y.z; }; let u={n:5}; let f=ffi('int cc_call(int (*)(int, userdata), userdata)'); f(cb,u);",
    "let f=ffi('void cc_keep(void (*)(int, userdata), userdata)'); let a=[]; for(let i=0;i<4;i++){ let c=function(x,u){ obs(x); }; f(c,i); a.push(c); ffi_cb_free(c,i); }",
    "let f=ffi('char *cc_str(char *)'); let s=f('argument string of it'); obs(s.length); f(s+s);",
    "let p=ffi('void *cc_ptr()')(); let d=ffi('void *cc_def()')(); let o=s2o(p,d); obs(o.a,o.s); s2o(p,d).b",
    "let o=mkstruct(); obs(o.s); for(let k in o){ obs(k); } o.d",
    "ffi('int no_such_function(int)')(1);", "ffi('this is not a signature');", "ffi('int cc_add(int, struct foo)');", "ffi('int cc_add(int,int,int,int,int,int,int,int)');", "ffi(1);", "ffi('int cc_call(int (*)(int (*)(int), userdata), userdata)');",
    "ffi('');", "ffi('int cc_call(int (*)(int), userdata)');", "let f=ffi('int cc_call(int (*)(int, userdata), userdata)'); f(1,2);", "let f=ffi('int cc_call(int (*)(int, userdata), userdata)'); f(function(){return 'not a number';},2);",
    "JSON.parse('{\"a\":[1,{\"b\":[2,\"str str str\"]}],}')", "JSON.parse('[1,[2,[3,[4,\"five five\"')", "JSON.parse(\"{'x':1}\")", "JSON.parse('')", "JSON.parse(5)", "let o={}; o.self=o; JSON.stringify(o)", "JSON.stringify()", "let a=[]; for(let i=0;i<12;i++){ a=[a,'level']; } obs(JSON.stringify(a).length)", "JSON.stringify({f:function(){},u:undefined,n:0/0,s:'q\"\\n'})",
    "die('my message')", "die()", "load('/nonexistent file')", "load()", "load(5)", "mkstr(5,6)", "mkstr()", "s2o(1,2)", "print('x',{},[],1.5)", "chr(300)", "chr('x')", "gc(true); gc(false)", "fstr()", "Object.create(5)", "getMJS()", "boom()", "callf(boom)", "callf(5)", "each([1,2],boom)", "evalc('let x=1;;x')", "evalc('syntax error here')", "evalc('boom()')",
    "let o=made(); obs(o); sprint(o)+sprint(1.5)+sprint('a long string indeed')", "'abc'.slice('x')", "'abc'.indexOf(5)", "'abc'.at(1)", "[1].splice()", "[1].push()", "({}).foo()", "let x; x()", "return 5", "for(let k in 5){}", "1/0; 0/0; 5%0",
    "let f=function(){ f2(); }; let f2=function(){ boom(); }; f.apply(null,[])", "let s='x'; for(let i=0;i<9;i++){ s=s+s; } obs(s.length);", "let o={}; for(let i=0;i<30;i++){ o['k'+chr(48+i)]={i:i}; } for(let k in o){ obs(o[k].i); }",
    "let s='unicode \\u0041 \\x42 \\n'; s+=s; obs(s)", "let a=[]; a[5]='sparse element'; obs(a.length,a); a.splice(1,3)", "let a=[1,2,3,4,5,6,7,8,9,10]; while(a.length>0){ a.splice(0,1); }",
  };
}
static Strs everything() {
  Strs r = corpus(); for (auto &x : failing()) r.push_back(x); for (auto &x : nat::corpus_nat()) r.push_back(x); for (auto &x : extra()) r.push_back(x);
  return r;
}
static std::string shown(const std::string &s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }

// Runs one text and destroys the instance; returns the bytes which stay allocated.
static long once(const std::string &src, long k, bool gc, bool gcend, uint64_t *ops, uint64_t budget = 20000) {
  size_t before = allocated();
  struct mjs *m = fresh();
  static long K; static bool GC; K = k; GC = gc;
  vm::H.n = 0; vm::H.exhausted = false; vm::H.budget = budget;
  vm::H.fn = nullptr;
  if (k >= 0 || gc) vm::H.fn = [](struct mjs *mm, uint64_t i) { if (GC && i % 5 == 0) mjs_gc(mm, i & 1); if ((long) i == K) mjs_set_errorf(mm, MJS_INTERNAL_ERROR, "injected error number %d", (int) i); };
  mjs_val_t r; mjs_exec(m, src.c_str(), &r);
  if (ops) *ops = vm::H.n;
  vm::H.fn = nullptr;
  if (gcend) mjs_gc(m, 1);
  mjs_destroy(m);
  return (long) (allocated() - before);
}

static void check(const std::string &text, mc::Ctx &c) {
  size_t at = text.find(SEP); if (at == std::string::npos) mc::fail("bad case");
  std::string src = text.substr(0, at), mode = text.substr(at + strlen(SEP));
  vm::hook_reset();
  if (mode == "destroy" || mode == "destroy1") {
    uint64_t N = 0;
    once("1;'a'", -1, false, false, NULL); once(src, -1, false, false, &N);   // warm up
    auto run = [&](long k, bool gc, bool ge, const std::string &w) {
      uint64_t n = 0; long l = once(src, k, gc, ge, &n); c.executions++; c.transitions += n; c.validated++;
      if (l) mc::fail(w + ": " + std::to_string(l) + " bytes stay allocated after mjs_destroy");
    };
    run(-1, false, false, "run to the end"); run(-1, false, true, "run to the end and collected"); run(-1, true, false, "run to the end with collections");
    for (uint64_t k = mode == "destroy1" ? N - std::min(N, (uint64_t) 5) : 0; k < N; k++) { run(k, false, false, "error after operation " + std::to_string(k)); run(k, true, k & 1, "error after operation " + std::to_string(k) + " with collections"); }
    c.count("destruction_points", N);
    c.state(std::to_string(N) + src);
  } else if (mode.compare(0, 5, "peak ") == 0) {
    // a function which holds n values for a while: what stays in use after a collection does not depend on n
    // (a block of cells may stay because the object of the last method call is in it)
    struct mjs *m = fresh(); mjs_val_t r;
    vm::H.n = 0; vm::H.budget = 2000000; vm::H.fn = nullptr;
    if (mjs_exec(m, ("let PP=function(n){ " + src + "\n};0").c_str(), &r) != MJS_OK) { mjs_destroy(m); mc::fail("the program cannot be compiled"); }
    mjs_val_t pp = mjs_get(m, mjs_get_global(m), "PP", ~0); mjs_own(m, &pp);
    auto use = [&](int n) { mjs_val_t r; if (mjs_call(m, &r, pp, mjs_mk_undefined(), 1, mjs_mk_number(m, n)) != MJS_OK || vm::H.exhausted) mc::fail("the function failed"); c.executions++; mjs_gc(m, 1); mjs_gc(m, 1); return allocated(); };
    use(2); size_t base = use(2);
    for (auto p = mode.c_str() + 5; *p;) { char *e; long n = strtol(p, &e, 10); size_t u = use(n); c.validated++; c.state(std::to_string(u)); if (u > base + 1024) { mjs_disown(m, &pp); mjs_destroy(m); mc::fail(std::to_string(u - base) + " bytes more are in use after a run with " + std::to_string(n) + " values, although the instance was collected"); } p = *e ? e + 1 : e; }
    c.transitions += vm::H.n;
    mjs_disown(m, &pp); mjs_destroy(m);
  } else if (mode == "text") {
    static bool warm = false; if (!warm) { once("1;'a'", -1, false, false, NULL); once("}", -1, false, false, NULL); once("x", -1, false, false, NULL); warm = true; }
    uint64_t n = 0; long l = once(src, -1, false, false, &n, 400); c.executions++; c.transitions += n;
    if (l) { l = once(src, -1, false, false, &n, 400); if (l) mc::fail(std::to_string(l) + " bytes stay allocated after mjs_destroy"); }
    c.validated++;
  } else if (mode.compare(0, 6, "repeat") == 0) {
    // the program as a function which is called again and again
    long k = -1; sscanf(mode.c_str(), "repeat %ld", &k);
    struct mjs *m = fresh(); mjs_val_t r;
    if (mjs_exec(m, ("let PP=function(){ " + src + "\n};0").c_str(), &r) != MJS_OK) { mjs_destroy(m); c.nontrivial = false; return; }
    mjs_val_t pp = mjs_get(m, mjs_get_global(m), "PP", ~0); mjs_own(m, &pp);
    static long K; K = k;
    uint64_t total = 0;
    auto call = [&] { vm::H.n = 0; vm::H.exhausted = false; vm::H.budget = 20000; vm::H.fn = nullptr; if (K >= 0) vm::H.fn = [](struct mjs *mm, uint64_t i) { if ((long) i == K) mjs_set_errorf(mm, MJS_INTERNAL_ERROR, "injected error number %d", (int) i); }; mjs_val_t r; mjs_err_t e = mjs_call(m, &r, pp, mjs_mk_undefined(), 0); total += vm::H.n; c.executions++; vm::H.fn = nullptr; return e; };
    auto gc = [&] { mjs_gc(m, 1); return allocated(); };
    // the same error message is kept each time, so that the amounts are comparable
    const int block = 7, warm = 3, more = 9;
    size_t first = 0, last = 0;
    for (int b = 0; b < warm; b++) { for (int i = 0; i < block; i++) call(); first = std::max(first, gc()); }
    for (int b = 0; b < more; b++) { for (int i = 0; i < block; i++) call(); last = gc(); }
    int reps = block * more;
    mjs_disown(m, &pp); mjs_destroy(m);
    c.transitions += total; c.validated++;
    c.state(std::to_string(first));
    if (last > first) mc::fail(std::to_string(last - first) + " bytes more are in use after " + std::to_string(reps) + " more runs of the function, although the instance was collected");
  }
}
static void enumerate(bool th, const Emit &emit) {
  for (auto &p : everything()) {
    emit(p + SEP + "destroy");
    if (p.find("evalc") != std::string::npos) continue;     // keeps the code of each text
    bool cb = p.find("cc_call") != std::string::npos || p.find("cc_keep") != std::string::npos;
    if (cb && p.find("ffi_cb_free") == std::string::npos) continue;
    emit(p + SEP + "repeat -1");
    if (cb) continue;
    for (int k = th ? 0 : 3; k < (th ? 400 : 200); k += th ? 1 : 17) emit(p + SEP + "repeat " + std::to_string(k));
  }
  for (auto &p : ffp::progs()) if (!strstr(p.src, "ffi_cb_free")) { emit(p.src + std::string(SEP) + "destroy"); emit(p.src + std::string(";mkstr(mem(),0,8);boom()") + SEP + "destroy1"); }
  int i = 0;
  for (auto &p : nat::programs(th)) { if (th || i++ % 12 == 0) { emit(p + SEP + "destroy"); } emit(p + SEP + "repeat -1"); }
  // every number of cells around the sizes of the blocks of each arena
  for (int n = 1; n < (th ? 90 : 46); n++) {
    std::string N = "for(let i=0;i<" + std::to_string(n) + ";i++)";
    for (std::string e : {"ffi('int cc_call(int (*)(int, userdata), userdata)')", "ffi('int cc_add(int,int)')", "{k:i}", "[i]", "'some string of it '+JSON.stringify(i)"}) {
      emit("let a=[]; " + N + "{ a.push(" + e + "); }" + SEP + "destroy1");
      emit("let a=[]; " + N + "{ a.push(" + e + "); } a=[]; gc(true); " + N + "{ a.push(" + e + "); }" + SEP + "destroy1");
      emit("let a=[]; " + N + "{ a.push(" + e + "); } a.splice(0,a.length-1); gc(true); for(let i=0;i<5;i++){ a.push(" + e + "); }" + SEP + "destroy1");
      emit("let a=[]; " + N + "{ a.push(" + e + "); }" + SEP + "repeat -1");
    }
    emit("let f=ffi('void cc_keep(void (*)(int, userdata), userdata)'); " + N + "{ f(function(x,u){ obs(x); },i); }" + SEP + "destroy1");
  }
  for (std::string e : {"ffi('int cc_call(int (*)(int, userdata), userdata)')", "ffi('int cc_add(int,int)')", "{k:i}", "[i]", "{k:{l:{m:[i]}}}", "'some string of it '+JSON.stringify(i)", "JSON.parse('{\"a\":[1,\"string string\"]}')", "function(x){return i;}"})
    for (std::string v : {"let a=[];for(let i=0;i<n;i++){a.push(" + e + ");}", "let a={};for(let i=0;i<n;i++){a['name '+JSON.stringify(i)]=" + e + ";}", "let a=[];for(let i=0;i<n;i++){a.push(" + e + ");}a.splice(0,a.length);", "let a=0;for(let i=0;i<n;i++){a={next:a,v:" + e + "};}"})
      for (std::string ns : {"20", "100,20", "400", "30,31,32,33,60,61,62,200", "1000,10"}) if (th || v.find("name") == std::string::npos || ns.size() < 5) emit(v + SEP + "peak " + ns);
  // malformed texts: all prefixes, all deletions and replacements of a token
  Strs repl = {"}", "{", "(", ")", "]", ";", "let ", "function", "return ", "for", "'s s s s s s'", "1", "x", "=", ",", ".", "in", "break", "?", ":"};
  for (auto &p : everything()) {
    if (p.find("'cc_") != std::string::npos || p.find(" cc_") != std::string::npos || p.find("*cc_") != std::string::npos) continue;   // C code given arbitrary pointers
    for (size_t n = 0; n < p.size(); n++) emit(p.substr(0, n) + SEP + "text");
    Strs tok; for (size_t j = 0; j < p.size();) { size_t s = j; if (isalnum((unsigned char) p[j])) while (j < p.size() && isalnum((unsigned char) p[j])) j++; else if (p[j] == '\'') { j++; while (j < p.size() && p[j] != '\'') j += p[j] == '\\' ? 2 : 1; j++; } else j++; tok.push_back(p.substr(s, j - s)); }
    for (size_t t = 0; t < tok.size(); t++) {
      auto with = [&](const std::string &x) { std::string q; for (size_t j = 0; j < tok.size(); j++) q += j == t ? x : tok[j]; return q; };
      emit(with("") + SEP + "text"); emit(with(tok[t] + " " + tok[t]) + SEP + "text");
      for (size_t r = 0; r < repl.size(); r++) if (th || (r + t) % 5 == 0) emit(with(repl[r]) + SEP + "text");
    }
  }
  // all short token sequences
  Strs T = {"x", "1", "'lit lit lit'", "let x=", "(", ")", "{", "}", "[", "]", ",", ";", ":", "=", "+", "function(", "return", "for(", "if(", "else ", "while(", ".y", "?", "in ", "break;", "f()", "({k:'v v v v v'})", "[1,'e e e e e']"};
  std::function<void(const std::string &, int)> seq = [&](const std::string &s, int d) { if (!s.empty()) emit(s + SEP + "text"); if (d) for (auto &t : T) seq(s + t, d - 1); };
  seq("", th ? 4 : 3);
}
int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C19"; d.rule = "a case is a program destroyed after an error at each of its operations, with and without collections; a malformed text; or a function run 84 times, with an error injected at one operation. Allocated bytes are compared exactly. Non-trivial: everything which was run";
  d.enumerate = enumerate; d.check = check; d.case_timeout = 120;
  d.assumptions = {"the bytecode of every executed text is kept until the instance is destroyed, so repetition is of a function, not of a text", "callbacks which are not freed by the script count as kept"};
  return mc::run(d, argc, argv);
}
