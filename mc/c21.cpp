// C21: the modules in lib/ do what they document
//
// F <gc> <fault> <ops>  a history of File.* calls; the C functions which
//                       lib/api_file.js imports are stand-ins over a file
//                       system in memory, with faults: the fault is
//                       "<call> <kind>": at the call-th stand-in call fopen
//                       fails, or fread / fwrite moves fewer bytes (kind 1..),
//                       or everything fails from there on (kind 0)
// M <function> <i> [j]  lib/api_math.js compared with the C library
#include "common.hpp"
#include "mjs_gc_public.h"
static std::string libdir() { const char *r = getenv("MJS_REPO"); return std::string(r ? r : "/repo") + "/lib/"; }

// ---- the file system ----------------------------------------------------
struct H { std::string name; size_t pos = 0; bool rd = false, wr = false, open = true; };
static std::map<std::string, std::string> fs;
static std::vector<std::unique_ptr<H>> handles;
static std::string misuse; static long calls, fault_at, fault_kind; static bool faulted, not_opened;
static void bad(const std::string &s) { if (misuse.empty()) misuse = s; }
static bool faulty() { long k = calls++; if (calls > 5000) { bad("calls its C functions without end"); return true; } if (fault_at < 0 || (fault_kind ? k != fault_at : k < fault_at)) return false; faulted = true; return true; }
static H *handle(void *p) { for (auto &h : handles) if (h.get() == p) { if (!h->open) bad("uses a closed file"); return h->open ? h.get() : NULL; } bad("uses a file which was not opened"); return NULL; }
extern "C" {
static void *x_fopen(const char *name, const char *mode) {
  if (faulty()) { not_opened = true; return NULL; }
  std::string m = mode; auto f = fs.find(name);
  if (m == "r") { if (f == fs.end()) return NULL; }
  else if (m == "w") fs[name] = "";
  else if (m == "a") fs[name];
  else { bad("mode " + m); return NULL; }
  handles.emplace_back(new H); H *h = handles.back().get(); h->name = name; h->rd = m == "r"; h->wr = !h->rd;
  return h;
}
static int x_fclose(void *p) { calls++; H *h = handle(p); if (h) h->open = false; return 0; }
static size_t x_fread(char *b, size_t sz, size_t n, void *p) {
  bool f = faulty(); H *h = handle(p); if (!h || !h->rd) { bad("reads from a file which is not open for reading"); return 0; }
  const std::string &s = fs[h->name]; size_t left = h->pos < s.size() ? s.size() - h->pos : 0, k = std::min(n * sz, left) / (sz ? sz : 1);
  if (f) k = fault_kind ? std::min(k, (size_t) fault_kind) : 0;
  if (k && __asan_region_is_poisoned(b, n * sz)) { bad("reads into memory which is not its own"); return 0; }
  memcpy(b, s.data() + h->pos, k * sz); h->pos += k * sz; return k;
}
static size_t x_fwrite(const char *b, size_t sz, size_t n, void *p) {
  bool f = faulty(); H *h = handle(p); if (!h || !h->wr) { bad("writes to a file which is not open for writing"); return 0; }
  size_t k = n; if (f) k = fault_kind ? std::min(k, (size_t) fault_kind) : 0;
  if (n > 100000 || (k && __asan_region_is_poisoned((void *) b, n * sz))) { bad("writes memory which is not its own"); return 0; }
  fs[h->name].append(b, k * sz); return k;
}
static int x_remove(const char *n) { calls++; return fs.erase(n) ? 0 : -1; }
static int x_rename(const char *a, const char *b) { calls++; auto f = fs.find(a); if (f == fs.end()) return -1; std::string s = f->second; fs.erase(f); fs[b] = s; return 0; }
static int x_rand_v; static int x_rand(void) { return x_rand_v; }
}
static void *resolver(void *, const char *n) {
  static const std::map<std::string, void *> t = {{"fopen", (void *) x_fopen}, {"fclose", (void *) x_fclose}, {"fread", (void *) x_fread}, {"fwrite", (void *) x_fwrite}, {"remove", (void *) x_remove}, {"rename", (void *) x_rename}, {"rand", (void *) x_rand}};
  auto i = t.find(n); if (i != t.end()) return i->second;
  static const std::set<std::string> math = {"ceil", "floor", "round", "fmax", "fmin", "fabs", "sqrt", "exp", "log", "pow", "sin", "cos", "trunc", "tan", "fmod"};
  return math.count(n) ? dlsym(RTLD_DEFAULT, n) : NULL;      // nothing else can be reached
}

// ---- histories of File operations ---------------------------------------
static const Strs NAMES = {"a", "longer/file name.txt"};
static const int LENS[] = {0, 1, 4, 5, 6, 9, 10, 11, 14, 20, 26};
static std::string content(int len, int salt) { std::string s; for (int i = 0; i < len; i++) s += (char) ((i * 7 + salt * 31 + (i % 3 ? 65 : 0)) & 255); return s; }
// op: w<name><len><mode> r<name> d<name> m<from><to>
static void check_file(const std::string &t, mc::Ctx &c) {
  int gc = 0; std::string ops; long fa, fk; { char b[256]; sscanf(t.c_str() + 2, "%d %ld %ld %255s", &gc, &fa, &fk, b); ops = b; }
  fs.clear(); handles.clear(); misuse.clear(); calls = 0; fault_at = -1; fault_kind = 0; faulted = false;
  vm::hook_reset(200000); vm::Vm v; mjs_set_ffi_resolver(v.m, (mjs_ffi_resolver_t *) resolver);
  vm::Out o = v.exec("load('" + libdir() + "api_file.js')"); if (o.err) mc::fail("lib/api_file.js: " + o.msg);
  vm::H.fn = nullptr; if (gc) vm::H.fn = [](struct mjs *m, uint64_t) { mjs_gc(m, 1); };
  calls = 0; fault_at = fa; fault_kind = fk;
  std::map<std::string, std::string> model; int salt = 0;
  for (auto &op : split(ops, ",")) {
    salt++; faulted = not_opened = false; v.obs.clear();
    auto set = [&](const char *n, const std::string &s) { mjs_set(v.m, mjs_get_global(v.m), n, ~0, mjs_mk_string(v.m, s.data(), s.size(), 1)); };
    const std::string n1 = NAMES[op[1] - '0']; set("p", n1);
    auto call = [&](const std::string &src) { vm::Out r = v.exec(src); if (!misuse.empty()) mc::fail(ops + ": " + op + ": the module " + misuse); if (r.exhausted) mc::fail(ops + ": " + op + " does not end"); if (r.err) mc::fail(ops + ": " + op + " fails: " + r.msg); return r.val; };
    std::string got;
    if (op[0] == 'w') {
      int len = LENS[op[2] - 'a']; char mode = op[3]; std::string s = content(len, salt); set("s", s);
      got = call(mode == 'n' ? "File.write(s, p)" : mode == 'u' ? "File.write(s, p, undefined)" : std::string("File.write(s, p, '") + mode + "')");
      bool app = mode == 'a', there = model.count(n1); std::string old = app && there ? model[n1] : "";
      if (!faulted) { model[n1] = old + s; if (got != std::to_string(len)) mc::fail(ops + ": " + op + ": File.write returns " + got + " for " + std::to_string(len) + " bytes"); }
      else {
        // a prefix of the text was written, and that many bytes are reported
        long k = atol(got.c_str()); if (got != std::to_string(k) || k < 0 || k > len) mc::fail(ops + ": " + op + ": File.write returns " + got);
        std::string want = old + s.substr(0, k), now = fs.count(n1) ? fs[n1] : "<none>";
        bool untouched = fs.count(n1) == there && (!there || fs[n1] == model[n1]);
        if (not_opened ? k != 0 || !untouched : now != want || !fs.count(n1)) mc::fail(ops + ": " + op + ": File.write returns " + got + " but the file is " + vm::str(now));
        if (fault_kind && !not_opened && k < len) mc::fail(ops + ": " + op + ": a single short write loses the rest: " + got + " of " + std::to_string(len));
        if (fs.count(n1)) model[n1] = fs[n1];
      }
    } else if (op[0] == 'r') {
      got = call("File.read(p)");
      if (!model.count(n1) || not_opened) { if (got != "null" && got != "''") mc::fail(ops + ": " + op + ": File.read of a missing file gives " + got); }
      else if (!faulted || (fault_kind && got != "null" && got != "''")) { if (got != vm::str(model[n1])) mc::fail(ops + ": " + op + ": File.read gives " + got + " instead of " + vm::str(model[n1])); }
      else {                                // a prefix, or nothing
        bool ok = got == "null"; for (size_t k = 0; k <= model[n1].size(); k++) ok |= got == vm::str(model[n1].substr(0, k));
        if (!ok) mc::fail(ops + ": " + op + ": File.read gives " + got);
      }
    } else if (op[0] == 'd') {
      got = call("File.remove(p) === 0"); bool was = model.erase(n1);
      if (got != (was ? "true" : "false")) mc::fail(ops + ": File.remove reports " + got);
    } else if (op[0] == 'm') {
      const std::string n2 = NAMES[op[2] - '0']; set("q", n2); got = call("File.rename(p, q) === 0"); bool was = model.count(n1);
      if (got != (was ? "true" : "false")) mc::fail(ops + ": File.rename reports " + got);
      if (was) { std::string s = model[n1]; model.erase(n1); model[n2] = s; }
    }
    c.transitions++;
    for (auto &h : handles) if (h->open) mc::fail(ops + ": " + op + " leaves a file open");
    if (fs != model) { std::string a; for (auto &x : fs) a += x.first + "=" + vm::str(x.second) + " "; for (auto &x : model) a += "; expected " + x.first + "=" + vm::str(x.second); mc::fail(ops + ": after " + op + ": " + a); }
    c.state(op + got);
  }
  vm::H.fn = nullptr; c.executions++; c.validated++; c.count("stand_in_calls", calls);
}
// the number of stand-in calls which a history makes
static long count_calls(const std::string &ops) {
  std::set<std::string> there; std::map<int, long> size; long n = 0; std::map<int, bool> ex;
  for (auto &op : split(ops, ",")) {
    int a = op[1] - '0';
    if (op[0] == 'w') { int len = LENS[op[2] - 'a']; n += 2 + (len + 4) / 5; size[a] = (op[3] == 'a' && ex[a] ? size[a] : 0) + len; ex[a] = true; }
    else if (op[0] == 'r') n += ex[a] ? 3 + (size[a] + 9) / 10 : 1;
    else if (op[0] == 'd') { n++; ex[a] = false; }
    else { n++; int b = op[2] - '0'; if (ex[a]) { long s = size[a]; ex[a] = false; ex[b] = true; size[b] = s; } }
  }
  return n;
}

// ---- Math -----------------------------------------------------------------
struct F1 { const char *n; double (*f)(double); };
struct F2 { const char *n; double (*f)(double, double); };
static double ref_max(double a, double b) { return std::isnan(a) ? b : std::isnan(b) ? a : a > b ? a : b; }
static double ref_min(double a, double b) { return std::isnan(a) ? b : std::isnan(b) ? a : a < b ? a : b; }
static double ref_round(double x) { double f = std::floor(std::fabs(x)); if (std::fabs(x) - f >= 0.5) f += 1; return x < 0 ? -f : f; }
static const F1 UN[] = {{"ceil", ::ceil}, {"floor", ::floor}, {"round", ref_round}, {"abs", ::fabs}, {"sqrt", ::sqrt}, {"exp", ::exp}, {"log", ::log}, {"sin", ::sin}, {"cos", ::cos}};
static const F2 BI[] = {{"max", ref_max}, {"min", ref_min}, {"pow", ::pow}};
static std::vector<double> nums() {
  std::vector<double> r = {0, NAN, INFINITY, -INFINITY, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 3.141592653589793, 2.718281828459045, 0.1, -0.1, 1e10, 1e-10};
  for (double b : {0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 127.0, 255.5, 32767.5, 2147483647.0, 2147483648.0, 4294967295.5, 4503599627370495.5, 9007199254740991.0, 9007199254740992.0, 1e300})
    for (double s : {1.0, -1.0}) { r.push_back(s * b); r.push_back(std::nextafter(s * b, 0)); r.push_back(std::nextafter(s * b, s * INFINITY)); }
  return r;
}
static void check_math(const std::string &t, mc::Ctx &c) {
  char fn[16]; int i = 0; sscanf(t.c_str() + 2, "%15s %d", fn, &i); auto N = nums();
  vm::hook_reset(2000000); vm::Vm v; mjs_set_ffi_resolver(v.m, (mjs_ffi_resolver_t *) resolver);
  vm::Out o = v.exec("load('" + libdir() + "api_math.js')"); if (o.err) mc::fail("lib/api_math.js: " + o.msg);
  mjs_val_t g = mjs_get_global(v.m), ab[2];
  auto eq = [](double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; };
  auto ask = [&](const std::string &src, double want, const std::string &what) {
    mjs_val_t r = mjs_mk_undefined();
    if (mjs_exec(v.m, src.c_str(), &r)) mc::fail(what + " fails: " + mjs_strerror(v.m, mjs_exec(v.m, src.c_str(), &r)));
    if (!mjs_is_number(r)) mc::fail(what + " is not a number");
    double d = mjs_get_double(v.m, r); c.transitions++; c.executions++; c.validated++; c.state(vm::num(d));
    if (!eq(d, want)) mc::fail(what + " gives " + vm::num(d) + " instead of " + vm::num(want));
  };
  ab[0] = mjs_mk_number(v.m, N[i]); mjs_set(v.m, g, "x", ~0, ab[0]);
  for (auto &f : UN) if (!strcmp(f.n, fn)) ask(std::string("Math.") + fn + "(x)", f.f(N[i]), std::string("Math.") + fn + "(" + vm::num(N[i]) + ")");
  for (auto &f : BI) if (!strcmp(f.n, fn)) for (double y : N) { mjs_set(v.m, g, "y", ~0, mjs_mk_number(v.m, y)); ask(std::string("Math.") + fn + "(x, y)", f.f(N[i], y), std::string("Math.") + fn + "(" + vm::num(N[i]) + ", " + vm::num(y) + ")"); }
  if (!strcmp(fn, "random")) for (int r : {0, 1, 2, 1000, 1 << 20, 1 << 30, 0x7ffffffe, 0x7fffffff}) {
    x_rand_v = r; ask("Math.random()", r / 2147483647.0, "Math.random()"); ask("let q = Math.random(); (q >= 0 && q <= 1) ? 1 : 0", 1, "Math.random() within 0 to 1");
  }
}
static void check(const std::string &t, mc::Ctx &c) { if (t[0] == 'F') check_file(t, c); else check_math(t, c); }
static void enumerate(bool th, const Emit &emit) {
  Strs W, all; int nl = sizeof LENS / sizeof *LENS;
  for (int n = 0; n < 2; n++) for (int l = 0; l < nl; l++) for (char m : {'n', 'w', 'a', 'u'}) W.push_back(std::string("w") + (char) ('0' + n) + (char) ('a' + l) + m);
  Strs R = {"r0", "r1", "d0", "d1", "m01", "m10", "m00"};
  auto faults = [&](const std::string &h, bool gc) {
    emit("F 0 -1 0 " + h); if (gc) emit("F 1 -1 0 " + h);
    long n = count_calls(h);
    for (long k = 0; k < n; k++) for (int f = 0; f < 5; f++) { emit("F 0 " + std::to_string(k) + " " + std::to_string(f) + " " + h); }
  };
  Strs few; for (auto &w : W) if (strchr("aefhk", w[2]) && w[3] != 'u' && w[3] != 'w') few.push_back(w);
  for (auto &r : R) few.push_back(r);
  all = W; for (auto &r : R) all.push_back(r);
  for (auto &a : all) { faults(a, true); for (auto &b : all) { faults(a + "," + b, true); } }
  for (auto &a : few) for (auto &b : few) for (auto &x : few) { if (th) faults(a + "," + b + "," + x, true); else emit("F 0 -1 0 " + a + "," + b + "," + x); }
  if (th) for (auto &a : few) for (auto &b : few) for (auto &x : few) for (auto &y : few) emit("F 0 -1 0 " + a + "," + b + "," + x + "," + y);
  int n = nums().size();
  for (auto &f : UN) for (int i = 0; i < n; i++) emit(std::string("M ") + f.n + " " + std::to_string(i));
  for (auto &f : BI) for (int i = 0; i < n; i++) emit(std::string("M ") + f.n + " " + std::to_string(i));
  emit("M random 0");
}
int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C21"; d.rule = "F: a history of File operations on two files, with a collection after every operation or a fault of the C library at one call (or from there on); M: a Math function with boundary values";
  d.enumerate = enumerate; d.check = check; d.case_timeout = 30;
  d.assumptions = {"the C functions which lib/api_file.js imports are replaced with a file system in memory, so that nothing real is touched", "File.read of a missing file may give null or ''", "what File.read gives after an error of fread is a prefix"};
  return mc::run(d, argc, argv);
}
