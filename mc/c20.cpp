// C20: the mjs program and print() show what scripts compute
//
// v <values>        text of values: mjs_fprintf, mjs_sprintf for every buffer
//                   size, print(), and reading the text back
// p <i> <j> <k>     print() with a tuple of arguments
// m <args>          a command line of the mjs program (the real main() of
//                   src/mjs_main.c), compared with a model of it over the
//                   reference semantics and with the same calls of the C API
// l <level> <prog>  a program of the corpus at a log level
//
// Variants: the default build, and one with MJS_ENABLE_DEBUG (disassembler).
#include "scale.hpp"
#include "common.hpp"
#include "corpus.hpp"
extern "C" {
int mjs_prog_main(int argc, char **argv);
void cs_log_set_level(int);
void cs_log_set_file(FILE *);
extern int cs_log_level;
void mjs_set_generate_jsc(struct mjs *mjs, int generate_jsc);
}
static std::string SELF = "main";
static const char SEP = 1;         // between the arguments of a command line

// ---- what stdout receives ---------------------------------------------------
struct Capture {
  int fd, saved;
  Capture() { fflush(stdout); saved = dup(1); fd = memfd_create("out", 0); dup2(fd, 1); }
  std::string end() {
    fflush(stdout); off_t n = lseek(fd, 0, SEEK_END); std::string r(n, 0);
    if (n && pread(fd, &r[0], n, 0) != n) r = "<cannot read>";
    dup2(saved, 1); close(saved); close(fd); saved = -1; return r;
  }
  ~Capture() { if (saved >= 0) end(); }
};
static FILE *devnull;
static void reset_log() { cs_log_set_level(0); cs_log_set_file(devnull); }

// ---- the text of values --------------------------------------------------
static std::string text_num(double d) {
  if (std::isnan(d)) return "NaN";
  if (std::isinf(d)) return d > 0 ? "Infinity" : "-Infinity";
  char b[64];
  if (d == std::floor(d) && std::fabs(d) < 9223372036854775808.0) { snprintf(b, sizeof b, "%lld", (long long) d); return b; }
  for (int p = 1; p <= 17; p++) { snprintf(b, sizeof b, "%.*g", p, d); if (strtod(b, NULL) == d) break; }
  return b;
}
static std::string text_str(const std::string &s) {
  std::string r; char b[8];
  for (unsigned char c : s) { if (c >= 32 && c < 127) r += (char) c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
  return r;
}
static std::string text(const ref::Val &v) {
  switch (v.t) {
    case ref::UNDEF: return "undefined";
    case ref::NUL: return "null";
    case ref::BOOL: return v.n ? "true" : "false";
    case ref::NUM: return text_num(v.n == 0 ? 0.0 : v.n);
    case ref::STR: return text_str(v.s);
    case ref::ARR: return "<array>";
    case ref::FUN: return "<function@N>";
    case ref::NAT: return "<foreign_ptr@P>";
    default: return "<object>";
  }
}
// which number a function or pointer shows is not specified
static std::string norm(const std::string &s) {
  std::string r; size_t i = 0;
  auto span = [&](const char *pre, const char *set, const char *rep) {
    size_t n = strlen(pre);
    if (s.compare(i, n, pre)) return false;
    size_t e = s.find_first_not_of(set, i + n);
    if (e == std::string::npos || e == i + n || s[e] != '>') return false;
    r += rep; i = e + 1; return true;
  };
  while (i < s.size()) {
    if (span("<function@", "0123456789", "<function@N>")) continue;
    if (span("<foreign_ptr@", "0123456789abcdef", "<foreign_ptr@P>")) continue;
    r += s[i++];
  }
  return r;
}

struct V { std::string name; std::function<mjs_val_t(struct mjs *)> make; std::string want; };
static std::string keep_alive[600];
static V vnum(double d) { char b[64]; snprintf(b, sizeof b, "number %.17g", d); return {b, [d](struct mjs *m) { return mjs_mk_number(m, d); }, text_num(d == 0 ? 0.0 : d)}; }
static V vstr(std::string s, int copy) { return {"string " + vm::str(s) + (copy ? " copied" : " foreign"), [s, copy](struct mjs *m) { static std::string k[64]; static int n; std::string &x = k[n++ % 64]; x = s; return mjs_mk_string(m, x.data(), x.size(), copy); }, text_str(s)}; }
static V vjs(std::string e, std::string want) { return {e, [e](struct mjs *m) { mjs_val_t r = mjs_mk_undefined(); if (mjs_exec(m, ("let made = " + e + "; made").c_str(), &r)) mc::fail("cannot make " + e); return r; }, want}; }
static int anchor;
static std::vector<V> values() {
  std::vector<V> r = {vnum(0), vnum(-1), vnum(42), vnum(1.5), vnum(-0.001), vnum(1e21), vnum(NAN), vnum(INFINITY), vstr("", 1), vstr("ab c", 1), vstr("longer text", 1), vstr("longer foreign \x01\n\xff\x7f~ %s %d", 0)};
  r.push_back({"true", [](struct mjs *m) { return mjs_mk_boolean(m, 1); }, "true"});
  r.push_back({"false", [](struct mjs *m) { return mjs_mk_boolean(m, 0); }, "false"});
  r.push_back({"null", [](struct mjs *) { return mjs_mk_null(); }, "null"});
  r.push_back({"undefined", [](struct mjs *) { return mjs_mk_undefined(); }, "undefined"});
  r.push_back({"array", [](struct mjs *m) { return mjs_mk_array(m); }, "<array>"});
  r.push_back({"object", [](struct mjs *m) { return mjs_mk_object(m); }, "<object>"});
  r.push_back(vjs("[1,2]", "<array>")); r.push_back(vjs("{a:1}", "<object>")); r.push_back(vjs("function(){}", "<function@N>")); r.push_back(vjs("print", "<foreign_ptr@P>"));
  char b[64]; snprintf(b, sizeof b, "<foreign_ptr@%lx>", (unsigned long) (uintptr_t) &anchor);
  r.push_back({"pointer", [](struct mjs *m) { return mjs_mk_foreign(m, &anchor); }, b});
  return r;
}
// numbers with fewer than 17 significant digits: the text only has to read back
static bool tiny(const std::string &want) { char *e; double d = strtod(want.c_str(), &e); return *e == 0 && d != 0 && std::fabs(d) < 2.3e-308; }
static void same(const std::string &what, const std::string &got, const std::string &want) {
  if (got != want) mc::fail(what + ": expected " + vm::str(want) + ", got " + vm::str(got));
}
static void check_value(struct mjs *m, const V &v, mc::Ctx &c, bool all_sizes) {
  mjs_val_t x = v.make(m); mjs_own(m, &x);
  bool exact = v.want.find("@N>") == std::string::npos && v.want.find("@P>") == std::string::npos;
  char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n); mjs_fprintf(x, m, f); fclose(f);
  std::string full(b, n); free(b);
  if (tiny(v.want)) {
    char *e; double d = strtod(full.c_str(), &e);
    if (*e || full.size() > 25 || d != strtod(v.want.c_str(), NULL)) mc::fail("mjs_fprintf of " + v.name + ": " + vm::str(full));
  } else
  same("mjs_fprintf of " + v.name, exact ? full : norm(full), v.want);
  for (size_t sz = all_sizes ? 0 : full.size(); sz <= full.size() + 2; sz++) {
    std::vector<char> buf(sz + 16, 'Z'); std::unique_ptr<char[]> heap(new char[sz ? sz : 1]);
    memset(heap.get(), 'Y', sz ? sz : 1);
    mjs_sprintf(x, m, heap.get(), sz);      // ASan watches the end of the buffer
    c.transitions++;
    if (sz == 0) continue;
    if (!memchr(heap.get(), 0, sz)) mc::fail("mjs_sprintf of " + v.name + " to " + std::to_string(sz) + " bytes is not terminated");
    same("mjs_sprintf of " + v.name + " to " + std::to_string(sz) + " bytes", heap.get(), full.substr(0, sz - 1));
  }
  mjs_disown(m, &x); c.executions++; c.validated++; c.state(full);
}
static void exec_print(const std::vector<V> &vs, mc::Ctx &c, const std::vector<int> &ix) {
  struct mjs *m = mjs_create(); std::string names, want;
  for (size_t i = 0; i < ix.size(); i++) {
    std::string nm = "a" + std::to_string(i); mjs_val_t x = vs[ix[i]].make(m);
    mjs_set(m, mjs_get_global(m), nm.c_str(), ~0, x);
    names += (i ? ", " : "") + nm; want += vs[ix[i]].want + " ";
  }
  Capture cap; mjs_val_t r = mjs_mk_null();
  mjs_err_t e = mjs_exec(m, ("print(" + names + ")").c_str(), &r);
  std::string got = cap.end();
  c.executions++; c.validated++; c.transitions += ix.size() + 1;
  if (e) mc::fail("print() failed");
  if (!mjs_is_undefined(r)) mc::fail("print() returned something");
  // the pointer's digits are compared too, where they are known
  std::string g2; size_t k = want.find("@P>"), k2 = want.find("@N>");
  same("print(" + names + ")", k == std::string::npos && k2 == std::string::npos ? got : norm(got), k == std::string::npos && k2 == std::string::npos ? want + "\n" : norm(want + "\n"));
  mjs_destroy(m);
}

// ---- the mjs program ------------------------------------------------------
static const Strs SRC = {
  "let a = 1; a",
  "a = a + 1.25; a",
  "print('x y', 1.5, null, [1], {}, true); {k: 1}; 7",
  "'tail\\x01\\xff'",
  "let f = function(n) { print(n.x, n);\n return n.x.y; };\nf({x: {y: 'deep'}})",
  "print('before');\nlet g = function() { return undefinedName; };\ng()",
  "let = ;",
  "",
  "2.5e-7",
  "print(); 'é'",
  "{a: print}; let o = {m: function() { return [this.v]; }, v: 3}; o.m()",
  "o = null; f",
};
struct File { std::string name, src; bool there; };
static const std::vector<File> FILES = {
  {"one.js", "let fa = 'from a file';\nprint(fa);\nfa", true},
  {"two.js", "print('two');\nlet h = function(x) {\n  return x.y.z;\n};\nh({y: 1, q: 2});\nh({});\n", true},
  {"three.js", "a = 100;\nprint(a, fa)", true},
  {"gone.js", "", false},
  {"noext", "12", true},
};
static std::string dir;
static void make_files() {
  if (dir.empty()) { const char *t = getenv("MC_TMP"); dir = std::string(t ? t : "/tmp") + "/c20." + std::to_string(getpid()); mkdir(dir.c_str(), 0755); }
  for (auto &f : FILES) {
    std::string p = dir + "/" + f.name; unlink((p + "c").c_str()); unlink(p.c_str());
    if (f.there) mc::spit(p, f.src);
  }
}
static const File *file_of(const std::string &a) { for (auto &f : FILES) if (f.there && a == dir + "/" + f.name) return &f; return nullptr; }

struct M { int status = 0; std::string out, why; bool specified = true, failed = false, result_known = true, usage = false; };
// what the program does, over the reference semantics
static M model(const Strs &args) {
  M r; ref::Interp I; ref::Val last; bool known = true;
  I.global->v["print"] = ref::Val::nat("print");
  I.natives["print"] = [&](ref::Interp &, std::vector<ref::Val> &a) { for (auto &x : a) r.out += text(x) + " "; r.out += "\n"; return ref::Val(); };
  auto run = [&](const std::string &src) {
    ref::Parser p; p.t = ref::lex(src); ref::NP prog = p.program();
    I.dyn.resize(1); I.env = I.global; I.self = ref::Val(); I.depth = 0; I.looping = 0; I.last_is_expr = false; I.steps = 0;
    try {
      for (auto &st : prog->c) { I.last_is_expr = false; I.run(st); }
      known = !prog->c.empty() && prog->c.back()->k == "expr"; last = I.last;
    } catch (ref::Err &) { r.failed = true; }
  };
  auto file = [&](const std::string &a) { const File *f = file_of(a); if (f) run(f->src); else r.failed = true; };
  try {
    size_t i = 0;
    for (; i < args.size() && args[i][0] == '-' && !r.failed; i++) {
      const std::string &a = args[i]; bool more = i + 1 < args.size();
      if (a == "-j") continue;
      if (a == "-l" && more) i++;
      else if (a == "-e" && more) { if (args[++i] == SRC[6]) r.failed = true; else run(args[i]); }
      else if (a == "-f" && more) file(args[++i]);
      else if (a == "-h" || a == "--help") { r.usage = true; return r; }
      else { r.status = 1; return r; }
    }
    for (; i < args.size() && !r.failed; i++) file(args[i]);
    if (!r.failed) { if (known) r.out += text(last) + "\n"; r.result_known = known; }
  } catch (ref::Unspecified &u) { r.specified = false; r.why = u.why; }
  return r;
}
// the same with the C API
static std::string api(const Strs &args, int *status, bool *usage) {
  Capture cap; *status = 0; *usage = false;
  struct mjs *m = mjs_create(); mjs_err_t e = MJS_OK; mjs_val_t r = mjs_mk_undefined(); size_t i = 0; bool stop = false;
  for (; i < args.size() && args[i][0] == '-' && !e && !stop; i++) {
    const std::string &a = args[i]; bool more = i + 1 < args.size();
    if (a == "-j") mjs_set_generate_jsc(m, 1);
    else if (a == "-l" && more) i++;
    else if (a == "-e" && more) e = mjs_exec(m, args[++i].c_str(), &r);
    else if (a == "-f" && more) e = mjs_exec_file(m, args[++i].c_str(), &r);
    else { stop = true; *usage = a == "-h" || a == "--help"; *status = !*usage; }
  }
  for (; i < args.size() && !e && !stop; i++) e = mjs_exec_file(m, args[i].c_str(), &r);
  if (!stop) {
    if (e) mjs_print_error(m, stdout, NULL, 1);
    else { mjs_fprintf(r, m, stdout); printf("\n"); }
  }
  mjs_destroy(m);
  return cap.end();
}
static void check_main(const std::string &t, mc::Ctx &c) {
  Strs args; if (t.size() > 2) args = split(t.substr(2), std::string(1, SEP));
  for (auto &a : args) a = subst(a, "DIR", dir);
  make_files(); reset_log();
  M w = model(args);
  make_files();
  std::vector<std::vector<char>> store; std::vector<char *> argv;
  auto push = [&](const std::string &s) { store.emplace_back(s.begin(), s.end()); store.back().push_back(0); };
  push("mjs"); for (auto &a : args) push(a);
  for (auto &s : store) argv.push_back(s.data());
  std::vector<char *> before = argv; argv.push_back(NULL);
  vm::hook_reset();
  std::string got; int st;
  { Capture cap; st = mjs_prog_main((int) before.size(), argv.data()); got = cap.end(); }
  c.executions++; c.transitions += vm::H.n; c.state(got);
  for (auto &f : FILES) if (f.there && mc::slurp(dir + "/" + f.name) != f.src) mc::fail("the program changed the file " + f.name);
  reset_log(); make_files();
  int ast; bool au; std::string a = api(args, &ast, &au);
  if (!w.specified) { w.status = ast; w.usage = au; w.failed = true; }   // only the comparison with the C API
  std::string show = "mjs"; for (auto &x : args) show += " " + vm::str(x);
  if (w.usage || w.status) {
    if (st != w.status) mc::fail(show + ": exit status " + std::to_string(st));
    if (w.usage) {
      for (const char *o : {"-e", "-j", "-f", "-l"}) if (got.find(o) == std::string::npos) mc::fail(show + ": the help does not mention " + o);
      if (w.specified && got.compare(0, w.out.size(), w.out)) mc::fail(show + ": output before the help: " + vm::str(got));
      return;
    }
  }
  same(show + " and the C API", norm(got), norm(a));
  if (!w.failed && st != w.status) mc::fail(show + ": exit status " + std::to_string(st));
  if (!w.specified) { c.count(("unspecified: " + w.why).c_str()); return; }
  c.validated++;
  got = norm(got);
  if (w.status) { same(show, got, w.out); return; }
  if (w.failed) {
    if (got.compare(0, w.out.size(), w.out)) mc::fail(show + ": expected the output " + vm::str(w.out) + " and then an error, got " + vm::str(got));
    std::string rest = got.substr(w.out.size());
    if (rest.find("MJS error: ") == std::string::npos || rest.size() < 13 || rest.back() != '\n') mc::fail(show + ": no error message after the output: " + vm::str(got));
    return;
  }
  if (w.result_known) same(show, got, w.out);
  else if (got.compare(0, w.out.size(), w.out) || got.back() != '\n') mc::fail(show + ": expected " + vm::str(w.out) + " and a result, got " + vm::str(got));
}

// ---- log levels --------------------------------------------------------------
static void check_log(const std::string &t, mc::Ctx &c) {
  int level = atoi(t.c_str() + 2); std::string src = t.substr(t.find('\n') + 1);
  cs_log_set_level(0); Run a = run_real({src, "1 + 1"});
  char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n);
  cs_log_set_file(f); cs_log_set_level(level);
  std::string got; Run r; { Capture cap; r = run_real({src, "1 + 1"}); got = cap.end(); }
  reset_log(); fclose(f); size_t ln = n; free(b);
  c.executions += 2; c.transitions += r.ops; c.validated++; c.count("bytes_logged", ln);
  if (a.out != r.out || a.obs != r.obs || a.msg != r.msg || a.ops != r.ops) mc::fail("at log level " + std::to_string(level) + ": " + show(r.out, r.obs) + " instead of " + show(a.out, a.obs));
  if (!got.empty()) mc::fail("at log level " + std::to_string(level) + " the log goes to stdout: " + vm::str(got.substr(0, 200)));
  if (level < 0 && ln) mc::fail("something is logged at level none");
  ref::Expect e = ref::expect({src, "1 + 1"});
  if (e.specified && !matches(e, r)) mc::fail("expected " + show(e.out, e.obs) + ", got " + show(r.out, r.obs));
}

static void check(const std::string &t0, mc::Ctx &c) {
  if (!devnull) { devnull = fopen("/dev/null", "w"); }
  std::string t = t0.substr(t0.find(' ') + 1);
  reset_log(); vm::hook_reset();
  if (dir.empty()) make_files();
  if (t[0] == 'm') return check_main(t, c);
  if (t[0] == 'l') return check_log(t, c);
  static const std::vector<V> vs = values();
  if (t[0] == 'p') {
    std::vector<int> ix; const char *p = t.c_str() + 1; char *e;
    for (;;) { long x = strtol(p, &e, 10); if (e == p) break; ix.push_back(x); p = e; }
    return exec_print(vs, c, ix);
  }
  struct mjs *m = mjs_create();
  if (t[1] == 'n') {                       // vn <exponent>: numbers of this binary exponent
    int ex = atoi(t.c_str() + 3);
    std::string src = "["; std::vector<double> ds;
    for (double f : {1.0, 1.0 + 2.2204460492503131e-16, 1.1, 1.25, 4.0 / 3, 1.5, 1.6180339887498949, 1.75, 1.9, 2.0 - 2.2204460492503131e-16})
      for (double off : {0.0, 1.0, -1.0, 0.5, 0.1})
        for (int sg : {1, -1}) { double d = sg * (std::ldexp(f, ex) + (std::abs(ex) < 70 ? off : 0)); if (!std::isinf(d)) { ds.push_back(d); } }
    for (double d : ds) { check_value(m, vnum(d), c, false); src += (src.size() > 1 ? "," : "") + text_num(d); }
    mjs_val_t r = mjs_mk_undefined();
    if (mjs_exec(m, (src + "]").c_str(), &r)) mc::fail(std::string("the text of numbers is not read back: ") + mjs_strerror(m, mjs_exec(m, src.c_str(), NULL)));
    for (size_t i = 0; i < ds.size(); i++) { double g = mjs_get_double(m, mjs_array_get(m, r, i)); if (g != ds[i]) mc::fail("the text " + text_num(ds[i]) + " is read back as another number, " + vm::num(g)); }
  } else if (t[1] == 'd') {                // vd: decimal numbers mantissa x 10^k
    long k = atol(t.c_str() + 3);
    for (long mant : {1L, 2L, 3L, 7L, 9L, 11L, 12L, 99L, 123L, 1234567L, 12345678901L, 99999999999999L, 123456789012345L}) { char b[64]; snprintf(b, sizeof b, "%lde%ld", mant, k); double d = strtod(b, NULL); if (!std::isinf(d)) check_value(m, vnum(d), c, false); }
  } else if (t[1] == 's') {                // vs <first> <second> <length>: strings
    int a = 0, b = 0, n = 0; sscanf(t.c_str() + 2, "%d %d %d", &a, &b, &n);
    std::string s; for (int i = 0; i < n; i++) s += (char) (i == n - 1 ? b : i == 0 ? a : 'a' + i % 26);
    for (int cp = 0; cp < 2; cp++) check_value(m, vstr(s, cp), c, true);
  } else if (t[1] == 'v') check_value(m, vs.at(atoi(t.c_str() + 3)), c, true);
  mjs_destroy(m);
}

static void enumerate(bool th, const Emit &e0) {
  Emit emit = [&](const std::string &s) { e0(SELF + " " + s); };
  auto N = [](long x) { return std::to_string(x); };
  size_t nv = values().size();
  Strs prog = corpus(); for (auto &f : failing()) prog.push_back(f);
  for (auto &s : {"let;", "foo(", "'unterminated", "let f = function(a,b,) {};", "1 +", "{{{", "a.b.c = ", "/* open"}) prog.push_back(s);
  for (auto &p : prog) for (int l = -1; l <= 5; l++) emit("l " + N(l) + "\n" + p);
  if (SELF == "main") {
    for (int ex = -1074; ex < 1024; ex++) emit("vn " + N(ex));
    for (int k = -320; k < 310; k++) emit("vd " + N(k));
    for (size_t i = 0; i < nv; i++) emit("vv " + N(i));
    for (int a = 0; a < 256; a++) for (int n = 1; n < 9; n++) emit("vs " + N(97) + " " + N(a) + " " + N(n));
    for (int a : {0, 10, 32, 34, 37, 92, 126, 127, 128, 255}) for (int b : {0, 65, 127, 255}) for (int n = 1; n < (th ? 300 : 60); n++) emit("vs " + N(a) + " " + N(b) + " " + N(n));
    emit("p");
    for (size_t i = 0; i < nv; i++) { emit("p " + N(i)); for (size_t j = 0; j < nv; j++) { emit("p " + N(i) + " " + N(j)); for (size_t k = 0; k < nv; k++) emit("p " + N(i) + " " + N(j) + " " + N(k)); } }
    if (th) for (size_t i = 0; i < nv; i++) for (size_t j = 0; j < nv; j++) for (size_t k = 0; k < nv; k++) for (size_t l = 0; l < nv; l++) emit("p " + N(i) + " " + N(j) + " " + N(k) + " " + N(l));
    for (int n = 5; n < 40; n++) { std::string s = "p"; for (int i = 0; i < n; i++) s += " " + N((i * 7 + n) % nv); emit(s); }
  }
  // command lines
  std::string S(1, SEP); Strs opt, tail = {"-e", "--help", ""};
  for (auto &s : SRC) opt.push_back("-e" + S + s);
  for (auto &f : FILES) { opt.push_back("-f" + S + "DIR/" + f.name); tail.push_back("DIR/" + f.name); }
  for (auto s : {"-j", "-h", "--help", "-x", "-", "--", "-ee"}) opt.push_back(s);
  for (auto s : {"0", "2", "5", "-1"}) opt.push_back("-l" + S + s);
  Strs last = {"-e", "-f", "-l"};
  bool dbg = SELF != "main";
  std::function<void(const std::string &, int)> files = [&](const std::string &p, int d) {
    emit("m " + p); for (auto &l : last) emit("m " + p + (p.empty() ? "" : S) + l);
    if (d) for (auto &t : tail) { if (p.empty() && t.empty()) continue; files(p + (p.empty() ? "" : S) + t, d - 1); }
  };
  std::function<void(const std::string &, int, int)> opts = [&](const std::string &p, int d, int fd) {
    files(p, fd);
    if (d) for (auto &o : opt) opts(p + (p.empty() ? "" : S) + o, d - 1, fd);
  };
  opts("", 1, dbg ? 1 : 2);
  opts("", 2, dbg ? 0 : 1);
  if (!dbg) opts("", 3, 0);
  if (th) { opts("", 2, 2); opts("", 3, 1); }
}
int main(int argc, char **argv) {
  if (getenv("MC_VARIANT")) SELF = getenv("MC_VARIANT");
  mc::Driver d;
  d.id = "C20"; d.rule = "a case is a set of values whose text is produced in every way and buffer size, an argument tuple of print(), a command line of the mjs program, or a corpus program at a log level, for one build variant";
  d.enumerate = enumerate; d.check = check; d.case_timeout = 60;
  d.assumptions = {"the digits shown for functions are not specified", "the exit status after a script error is not specified"};
  scale::wrap(d, "C20");
  return mc::run(d, argc, argv);
}
