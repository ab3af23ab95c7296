// C11: FFI calls pass and return exact values
#include "ffi.hpp"
#include <cinttypes>
extern "C" {
#include "common/mg_str.h"
}

static char membuf[64];
static const char *FOREIGN = "foreign string, not copied";
// a value: script expression and what C must see
struct V { const char *js; double d; std::string s; int kind; };   // kind 0 number, 1 string, 2 NULL, 3 pointer
static const std::vector<V> &vals(char t) {
  static const std::vector<V> I = {{"0", 0}, {"1", 1}, {"-1", -1}, {"2147483647", 2147483647.}, {"(-2147483648)", -2147483648.}, {"42.7", 42}, {"(-3.9)", -3}, {"true", 1}, {"false", 0}, {"0xffffffff", -1}, {"65536*3", 196608}, {"(0-7)", -7}};
  static const std::vector<V> B = {{"true", 1}, {"false", 0}, {"1", 1}, {"0", 0}, {"7", 1}, {"(-1)", 1}, {"256", 1}, {"0x10000", 1}};
  static const std::vector<V> D = {{"0", 0}, {"1.5", 1.5}, {"(-1e300)", -1e300}, {"0.1", 0.1}, {"nan", NAN}, {"(1e308*10)", INFINITY}, {"(-1e308*10)", -INFINITY}, {"4294967296.5", 4294967296.5}, {"5e-324", 5e-324}, {"true", 1}, {"9007199254740993", 9007199254740992.}};
  static const std::vector<V> F = {{"0", 0}, {"1.5", 1.5}, {"(-0.1)", (double) -0.1f}, {"16777217", 16777216.}, {"nan", NAN}, {"1e300", INFINITY}, {"3.4e38", (double) 3.4e38f}, {"1e-45", (double) 1e-45f}, {"false", 0}};
  static const std::vector<V> S = {{"''", 0, "", 1}, {"'a'", 0, "a", 1}, {"'four'", 0, "four", 1}, {"'five5'", 0, "five5", 1}, {"'sixsix'", 0, "sixsix", 1}, {"('concat'+'enated string')", 0, "concatenated string", 1}, {"null", 0, "", 2}, {"'in\\x00side'", 0, std::string("in\0side", 7), 1}, {"fs", 0, FOREIGN, 1}, {"long", 0, std::string(300, 'q'), 1}};
  static const std::vector<V> P = {{"mem", 0, "", 3}, {"null", 0, "", 2}, {"'str as ptr'", 0, "str as ptr", 1}, {"'sm'", 0, "sm", 1}, {"nullptr", 0, "", 2}};
  static const std::vector<V> M = {{"''", 0, "", 1}, {"'a'", 0, "a", 1}, {"'five5'", 0, "five5", 1}, {"('a longer'+' one')", 0, "a longer one", 1}, {"'n\\x00l'", 0, std::string("n\0l", 3), 1}, {"fs", 0, FOREIGN, 1}, {"long", 0, std::string(300, 'q'), 1}};
  switch (t) { case 'i': return I; case 'b': return B; case 'd': return D; case 'f': return F; case 's': return S; case 'p': return P; default: return M; }
}
static std::vector<const char *> wrong(char t) {
  switch (t) {
    case 'i': case 'b': case 'd': case 'f': return {"'1'", "null", "undefined", "{}", "[1]", "function(){}", "mem", "''", "long"};
    case 's': return {"1", "true", "undefined", "{}", "['a']", "function(){}", "0", "mem"};
    case 'p': return {"1", "true", "undefined", "{}", "['a']", "0", "function(){}"};
    default: return {"1", "true", "undefined", "{}", "['a']", "null", "0", "mem"};
  }
}
static bool supported(const std::string &a) {
  size_t d = std::count(a.begin(), a.end(), 'd'), f = std::count(a.begin(), a.end(), 'f');
  if (a.size() > 6 || (d && f)) return false;
  return (d || f) ? a.size() <= 3 : true;
}

// what the callee saw, read by the types of the signature
static std::string seen;
static bool sameD(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
static void decode(const std::string &args, const std::vector<V> &want) {
  int w = 0, x = 0; char b[100];
  for (size_t i = 0; i < args.size(); i++) {
    const V &v = want[i]; bool ok = true; std::string got;
    switch (args[i]) {
      case 'i': { int g = (int) cap_w[w++]; ok = g == (int) v.d; snprintf(b, sizeof b, "%d", g); got = b; break; }
      case 'b': { unsigned g = cap_w[w++] & 0xff; ok = g == (v.d != 0); snprintf(b, sizeof b, "%u", g); got = b; break; }
      case 'd': { double g = cap_x[x++]; ok = sameD(g, v.d); snprintf(b, sizeof b, "%.17g", g); got = b; break; }
      case 'f': { float g; memcpy(&g, &cap_x[x++], 4); ok = sameD(g, v.d); snprintf(b, sizeof b, "%.9g", g); got = b; break; }
      default: {
        char *p = (char *) cap_w[w++]; snprintf(b, sizeof b, "%p", (void *) p); got = b;
        if (v.kind == 2) ok = p == NULL;
        else if (v.kind == 3) ok = p == membuf;
        else if (!p) ok = false;
        else {
          size_t n = v.s.size(); bool term = true; const char *q = p;
          if (args[i] == 'm') { struct mg_str *s = (struct mg_str *) p; if (__asan_region_is_poisoned(s, sizeof *s)) { ok = false; break; } n = s->len; q = s->p; term = false; }
          if (n > 100000 || __asan_region_is_poisoned((void *) q, n + term)) { ok = false; got += " poisoned"; break; }
          got = vm::str(q, n);
          ok = std::string(q, n) == v.s && (!term || q[n] == 0);
          if (v.s == FOREIGN && q != FOREIGN) ok = false;
        }
      }
    }
    if (!ok) seen += "argument " + std::to_string(i) + " (" + ff::tname(args[i]) + ") arrived as " + got + " for " + v.js + "; ";
  }
}

struct R { const char *name; uint64_t rax; double x; std::string want; };
static const char *CSTR[] = {"", "a", "four", "five5", "sixsix", "a returned C string which is longer"};
static double fbits(float f) { double d = 0; memcpy(&d, &f, 4); uint64_t hi; memcpy(&hi, &d, 8); hi |= 0xdeadbeef00000000ull; memcpy(&d, &hi, 8); return d; }
static std::vector<R> rets(char t) {
  std::vector<R> r;
  auto u = [](const void *p) { return (uint64_t) (uintptr_t) p; };
  switch (t) {
    case 'v': r = {{"", 12345, 1.5, "undefined"}}; break;
    case 'i': r = {{"", 0, 9, "0"}, {"", 0xffffffffull, 9, "-1"}, {"", 0x80000000ull, 9, "-2147483648"}, {"", 0x7fffffff, 9, "2147483647"}, {"", 0xabcdef0000000005ull, 9, "5"}, {"", 0x12345678fffffffeull, 9, "-2"}}; break;
    case 'b': r = {{"", 1, 9, "true"}, {"", 0, 9, "false"}, {"", 0xabcdef00, 9, "false"}, {"", 0xffffff01, 9, "true"}}; break;
    case 'd': r = {{"", 7, 0, "0"}, {"", 7, 1.5, "1.5"}, {"", 7, -1e300, vm::num(-1e300)}, {"", 7, NAN, "NaN"}, {"", 7, -NAN, "NaN"}, {"", 7, INFINITY, "Inf"}, {"", 7, -INFINITY, "-Inf"}, {"", 7, 0.1, vm::num(0.1)}, {"", 7, 5e-324, vm::num(5e-324)}}; break;
    case 'f': r = {{"", 7, fbits(0), "0"}, {"", 7, fbits(1.5f), "1.5"}, {"", 7, fbits(0.1f), vm::num((double) 0.1f)}, {"", 7, fbits(NAN), "NaN"}, {"", 7, fbits(-INFINITY), "-Inf"}}; break;
    case 's': for (auto s : CSTR) r.push_back({"", u(s), 9, vm::str(std::string(s))}); r.push_back({"", 0, 9, "null"}); break;
    case 'p': r = {{"", u(membuf), 9, "ptr"}, {"", 0, 9, "null"}}; break;
  }
  return r;
}

static std::string sigtext(char ret, const std::string &a, const std::string &name = "cfunc") {
  std::string s = std::string(ff::tname(ret)) + " " + name + "(";
  for (size_t i = 0; i < a.size(); i++) s += std::string(i ? ", " : "") + ff::tname(a[i]);
  return s + ")";
}

static void enumerate(bool th, const Emit &emit) {
  const std::string T = "ibdfspm", RT = "vibdfsp";
  std::vector<std::string> tup = {""};
  for (size_t b = 0, n = 0; n <= 6; n++) {
    size_t e = tup.size();
    for (size_t i = b; i < e; i++) {
      const std::string a = tup[i];
      int k = 0;
      size_t h = 0; for (char ch : a) h = h * 3 + T.find(ch) * (1 + h % 5); // mixes the return type with every argument
      bool words = a.find_first_not_of("ip") == std::string::npos || a.find_first_not_of("bs") == std::string::npos || a.find_first_not_of("m") == std::string::npos;
      for (char r : RT) { k++; if (n <= 3 || th || words || (n == 4 && (i + k) % 2 == 0) || (n > 4 && (h + k) % 7 == 0)) emit(std::string("call ") + r + " " + a); }
      if (n < 6) for (char t : T) tup.push_back(a + t);
    }
    b = e;
  }
  // ways to write a signature
  for (auto &s : {"int cfunc(int)", "int cfunc(int )", " int cfunc( int)", "int  cfunc (int)", "int\tcfunc(int)", "int cfunc(\tint\t)", "int cfunc(int) ", "int\ncfunc(int)"}) emit(std::string("ok int i ") + s);
  for (auto &s : {"char *cfunc(char *)", "char* cfunc(char*)", "char *cfunc(char*)", "char * cfunc(char *)", "char*cfunc(char*)", "  char  *cfunc(char * )"}) emit(std::string("maybe s s ") + s);
  for (auto &s : {"char *cfunc(char *, int)", "char* cfunc(char*,int)", "char *cfunc(char*  ,  int)", "char *cfunc( char * ,int )"}) emit(std::string("maybe s si ") + s);
  for (auto &s : {"void *cfunc(void *,void*,struct mg_str*,struct mg_str *)", "void* cfunc( void*, void *, struct mg_str *, struct mg_str* )"}) emit(std::string("maybe p ppmm ") + s);
  for (auto &s : {"int cfunc()", "int cfunc(void)", "int cfunc( void )", "int cfunc( )"}) emit(std::string("maybe i - ") + s);
  for (auto &s : {"", "int", "int cfunc", "int cfunc(", "int cfunc(int", "int cfunc int)", "cfunc(int)", "(int)", "int (int", "foo cfunc(int)", "int cfunc(foo)", "int cfunc(int, foo)", "int cfunc(unsigned)", "int cfunc(long)", "int cfunc(int*)", "struct mg_str cfunc(int)", "struct mg_str * cfunc(int)", "userdata cfunc(int)", "int cfunc(userdata)", "int cfunc(int, userdata)", "int cfunc(struct mg_str)", "int nofunc(int)", "int cfunc(int,int,int,int,int,int,int)", "double cfunc(double,double,double,double,double,double,double,double)", ")(", "()", "int cfunc)int(", "int cfunc((int)", "int cfunc(int (*)(userdata)", "int cfunc(void (*)(int), userdata)", "int cfunc(void (*)(userdata), int)", "int cfunc(void (*)(userdata), void (*)(userdata), userdata)", "int cfunc(void (*)(userdata), userdata, userdata)", "int cfunc(void (*)(userdata, userdata), userdata)", "int cfunc(foo (*)(userdata), userdata)", "int cfunc(void (*)(foo), userdata)", "int cfunc(void (*)(float, userdata), userdata)", "int cfunc(void (*)(double, double, userdata), userdata)", "int cfunc(char * (*)(userdata), userdata)", "int cfunc(void (*)(userdata, void (*)(userdata)), userdata)", "int cfunc(void (*)(int,int,int,int,int,int,userdata), userdata)", "INT cfunc(int)", "int cfunc(Int)", "int cfunc(ch ar *)", "int cfunc(int;int)", "int (*cfunc)(int)", "void (*cfunc)(userdata)", "int (*cfunc)(int, userdata)", "int (*)(int)", "void (*cfunc)(void (*)(userdata), userdata)", "int cfunc(int other(int, userdata), userdata)", "int cfunc(int other(userdata), userdata)", "int cfunc(int, void cfunc(userdata), userdata)"}) emit(std::string("bad ") + s);
  for (size_t n : {50, 98, 99, 100, 101, 120, 300}) emit("name " + std::string(n, 'n') + "x");
  // every truncation and every single character change of some signatures: never a crash, at most one function
  for (auto &s : {"int cfunc(int, char *)", "char *cfunc(struct mg_str *, void*)", "void cfunc(void (*)(int, userdata), userdata)", "double cfunc(double, float)", "int cfunc(void(*)(userdata),int,userdata)"}) {
    std::string t = s;
    for (size_t i = 0; i <= t.size(); i++) {
      emit("any " + t.substr(0, i));
      if (i) emit("any " + t.substr(i));
      if (i < t.size()) emit("any " + t.substr(0, i) + t.substr(i + 1));
      for (char ch : std::string("(),*; \ti0_\\")) { emit("any " + t.substr(0, i) + ch + t.substr(i)); if (i < t.size()) emit("any " + t.substr(0, i) + ch + t.substr(i + 1)); }
      if (th) for (size_t j = i + 1; j < t.size(); j++) { emit("any " + t.substr(0, i) + t.substr(j)); for (char ch : std::string("(),*")) emit("any " + t.substr(0, i) + ch + t.substr(i, j - i) + ch + t.substr(j)); }
    }
  }
  for (auto &s : {"ffi()", "ffi(1)", "ffi(null)", "ffi({})", "ffi(undefined)", "ffi(ffi)", "ffi(mem)", "ffi('int cfunc(int)',1)(5)", "ffi(fs)"}) emit(std::string("expr ") + s);
  // without a resolver, and with one that knows nothing: an error, and the engine works on
  for (auto &s : {"int cfunc(int)", "void *f()", "void f(void (*)(userdata), userdata)", "char *f(char *)", "double strlen(double)"}) { emit(std::string("nores 0 ") + s); emit(std::string("nores 1 ") + s); }
  // several functions in one program, nested calls
  for (auto &a : {"id(1)", "id(id(2))", "dbl(id(3))", "id(dbl(2.5))", "cat('x',id(4))", "cat(cat('a long first',2),id(1))", "ptr(ptr(mem))", "id(true)", "cat(js('from js'),5)"})
    for (auto &b : {"id(7)", "dbl(0.5)", "cat('other string',-1)", "js(cat('y y y y y y',1))", "o.f(8)", "o.f.apply(o,[9])", "id.apply(null,[10])", "(id)(11)"}) emit(std::string("nest ") + a + " ; " + b);
}

static bool call_expect;
static mjs_val_t obsv;
static void setup(vm::Vm &v) {
  mjs_set_ffi_resolver(v.m, ff::resolver);
  mjs_val_t g = mjs_get_global(v.m);
  mjs_set(v.m, g, "nan", ~0, mjs_mk_number(v.m, NAN));
  mjs_set(v.m, g, "mem", ~0, mjs_mk_foreign(v.m, membuf));
  mjs_set(v.m, g, "nullptr", ~0, mjs_mk_foreign(v.m, NULL));
  mjs_set(v.m, g, "fs", ~0, mjs_mk_string(v.m, FOREIGN, ~0, 0));
  std::string l(300, 'q'); mjs_set(v.m, g, "long", ~0, mjs_mk_string(v.m, l.data(), l.size(), 1));
}
static vm::Out ex(vm::Vm &v, const std::string &s, mc::Ctx &c) { cap_calls = 0; seen.clear(); auto o = v.exec(s); c.executions++; return o; }

static void check(const std::string &text, mc::Ctx &c) {
  size_t sp = text.find(' '); std::string mode = text.substr(0, sp), rest = text.substr(sp + 1);
  vm::hook_reset(); vm::Vm v; setup(v);
  std::string args; std::vector<V> want;
  std::function<void()> fn = [&] { decode(args, want); };
  cap_fn = nullptr; ff::asked.clear();
  if (mode == "call") {
    char ret = rest[0]; args = rest.substr(2); size_t n = args.size();
    vm::Out o = ex(v, "let f=ffi('" + sigtext(ret, args) + "');", c);
    if (ff::asked != "cfunc;") mc::fail("resolver was asked for " + ff::asked);
    if (o.err) mc::fail("import failed: " + o.msg);
    auto rs = rets(ret); size_t nv = 0; for (char t : args) nv = std::max(nv, vals(t).size());
    if (nv == 0) nv = 1;
    size_t total = std::max(nv, rs.size());
    bool prod = n == 2 && ret == 'v'; if (prod) total = vals(args[0]).size() * vals(args[1]).size();
    if (!supported(args)) total = 3;
    uint64_t k = 0;
    for (size_t j = 0; j < total; j++) {
      want.clear(); std::string call = "f("; std::string mk;
      for (size_t i = 0; i < n; i++) {
        auto &vs = vals(args[i]);
        const V &x = prod ? (i ? vs[j / vals(args[0]).size()] : vs[j % vs.size()]) : vs[(j + i * (n > 3 ? 5 : 3)) % vs.size()];
        want.push_back(x); call += std::string(i ? "," : "") + x.js;
      }
      call += ")";
      R &r = rs[j % rs.size()]; cap_rax = r.rax; cap_xmm0 = r.x;
      cap_fn = &fn; o = ex(v, call, c); cap_fn = nullptr; k++;
      if (!supported(args)) { if (!o.err || cap_calls) mc::fail(call + ": unsupported signature but " + o.str() + ", calls " + std::to_string(cap_calls)); continue; }
      if (o.err) mc::fail(call + " failed: " + o.msg);
      if (cap_calls != 1) mc::fail(call + ": the function was called " + std::to_string(cap_calls) + " times");
      if (!seen.empty()) mc::fail(call + ": " + seen);
      if (o.val != r.want) mc::fail(call + " gave " + o.val + " instead of " + r.want);
      c.validated++;
    }
    auto bad = [&](const std::string &call) {
      cap_fn = nullptr; vm::Out o = ex(v, call, c); k++;
      if (!o.err) mc::fail(call + " is accepted: " + o.val);
      if (cap_calls) mc::fail(call + ": error, but the function was called");
      if (o.err != MJS_TYPE_ERROR) mc::fail(call + ": error " + std::to_string(o.err));
      c.validated++;
    };
    std::vector<std::string> good; for (char t : args) good.push_back(vals(t)[0].js);
    for (size_t m = 0; m <= n + 2; m++) if (m != n) { std::string call = "f("; for (size_t i = 0; i < m; i++) call += std::string(i ? "," : "") + (i < n ? good[i] : "1"); bad(call + ")"); }
    for (size_t i = 0; i < n; i++) {
      auto ws = wrong(args[i]);
      for (size_t q = 0; q < ws.size(); q++) {
        if (n > 3 && q % 3 != (i + n) % 3) continue;
        std::string call = "f("; for (size_t j = 0; j < n; j++) call += std::string(j ? "," : "") + (j == i ? ws[q] : good[j]);
        bad(call + ")");
      }
    }
    // and it still works
    c.transitions += k; c.state(rest);
    return;
  }
  if (mode == "ok" || mode == "maybe") {
    char ret; std::string as; size_t a = rest.find(' '), b = rest.find(' ', a + 1);
    ret = rest.substr(0, a) == "int" ? 'i' : rest[0]; as = rest.substr(a + 1, b - a - 1); if (as == "-") as = "";
    std::string sig = rest.substr(b + 1); args = as;
    vm::Out o = ex(v, "let f=ffi('" + subst(subst(sig, "\n", "\\n"), "\t", "\\t") + "');", c);
    if (o.err) { if (mode == "ok") mc::fail("signature rejected: " + o.msg); c.nontrivial = false; return; }
    if (ff::asked != "cfunc;") mc::fail("resolver was asked for " + ff::asked);
    std::string call = "f("; for (size_t i = 0; i < as.size(); i++) { want.push_back(vals(as[i])[1]); call += std::string(i ? "," : "") + vals(as[i])[1].js; }
    auto rs = rets(ret); cap_rax = rs[1].rax; cap_xmm0 = rs[1].x; cap_fn = &fn; o = ex(v, call + ")", c); cap_fn = nullptr; c.transitions++;
    if (o.err || cap_calls != 1 || !seen.empty() || o.val != rs[1].want) mc::fail(sig + ": " + o.str() + " " + o.msg + " " + seen);
    c.validated++; c.state(text);
    return;
  }
  if (mode == "bad") {
    vm::Out o = ex(v, "let f=ffi('" + rest + "');", c); c.transitions++;
    if (!o.err) mc::fail("malformed signature is accepted");
    if (cap_calls) mc::fail("the C function was called");
    o = ex(v, "let g=ffi('int other(int)'); 1", c); if (o.str() != "=1") mc::fail("a later import fails: " + o.msg);
    c.validated++; c.state(text);
    return;
  }
  if (mode == "name") {
    vm::Out o = ex(v, "let f=ffi('int " + rest + "(int)');", c); c.transitions++;
    if (!o.err && ff::asked != rest + ";") mc::fail("resolver was asked for " + ff::asked);
    if (o.err && rest.size() < 90) mc::fail("rejected: " + o.msg);
    c.validated++; c.state(text);
    return;
  }
  if (mode == "any" || mode == "expr") {
    std::string q; for (char ch : rest) { char b[8]; snprintf(b, sizeof b, "\\x%02x", (unsigned char) ch); if (ch == '\'' || ch == '\\' || ch < 32) q += b; else q += ch; }
    vm::Out o = ex(v, mode == "any" ? "let f=ffi('" + q + "');" : rest, c); c.transitions++;
    if (mode == "any" && cap_calls) mc::fail("the C function was called by the import");
    if (mode == "any" && !o.err) {
      // whatever was understood, calling it with unfit arguments is an error and no crash
      for (auto &a : {"f({},{},{},{},{},{},{})", "f(undefined)", "f(undefined,undefined)", "f(undefined,undefined,undefined)"}) { ex(v, a, c); }
      // and calling it with any fitting arguments is one call of the C function or an error
      for (auto &a : {"f()", "f(1)", "f('a')", "f(mem)", "f(1,'a')", "f('a',1)", "f('a',mem)", "f(1.5,2.5)", "f(function(x){return 1;},1)", "f(function(x){return 1;},1,1)", "f(1,function(x){return 1;},1)"}) {
        cap_rax = (uint64_t) (uintptr_t) CSTR[3]; cap_xmm0 = 1;
        o = ex(v, a, c); c.transitions++;
        if (cap_calls != (o.err ? 0 : 1)) mc::fail(std::string(a) + ": " + o.str() + ", the C function was called " + std::to_string(cap_calls) + " times");
      }
    }
    c.state(text + o.str());
    return;
  }
  if (mode == "nores") {
    struct N { static void *res(void *, const char *) { return NULL; } };
    mjs_set_ffi_resolver(v.m, rest[0] == '0' ? (mjs_ffi_resolver_t *) NULL : N::res);
    vm::Out o = ex(v, "let f=ffi('" + rest.substr(2) + "');", c); c.transitions++;
    if (!o.err) mc::fail("imported without a resolver");
    if (cap_calls) mc::fail("the C function was called");
    o = ex(v, "6*7", c); if (o.str() != "=42") mc::fail("afterwards 6*7 gives " + o.str());
    mjs_set_ffi_resolver(v.m, ff::resolver);
    o = ex(v, "let g=ffi('int cfunc(int)'); 1", c); if (o.str() != "=1") mc::fail("a later import fails: " + o.msg);
    c.validated++; c.state(text);
    return;
  }
  if (mode == "nest") {
    // functions with their own behaviour
    struct F { static int id(int x) { return x; } static double dbl(double x) { return 2 * x; } static char *cat(char *s, int n) { static char b[8][200]; static int k; k = (k + 1) % 8; snprintf(b[k], 200, "%s#%d", s, n); return b[k]; } static void *ptr(void *p) { return p; }
      static void *res(void *, const char *n) { std::string s = n; return s == "id" ? (void *) id : s == "dbl" ? (void *) dbl : s == "cat" ? (void *) cat : s == "ptr" ? (void *) ptr : NULL; } };
    mjs_set_ffi_resolver(v.m, F::res);
    auto p = rest.find(" ; "); std::string a = rest.substr(0, p), b = rest.substr(p + 3);
    std::string decl = "let id=ffi('int id(int)');let dbl=ffi('double dbl(double)');let cat=ffi('char *cat(char *,int)');let ptr=ffi('void *ptr(void *)');let js=function(x){return x+'!';};let o={f:id};";
    vm::Out o = ex(v, decl + "obs(" + a + "," + b + ");let r=[" + b + "," + a + "];obs(r);r.push(" + a + ");obs({x:" + b + "});", c); c.transitions++;
    // the same program with script functions in place of the C functions
    std::string sim = "let id=function(x){if(x===true){return 1;}if(x===5.0){return 5;}return x;};let dbl=function(x){return 2*x;};let cat=function(s,n){return s+'#'+JSON.stringify(n);};let ptr=function(p){return p;};let js=function(x){return x+'!';};let o={f:id};";
    vm::Vm w; setup(w); vm::OBS = &w.obs; vm::Out o2 = w.exec(sim + "obs(" + a + "," + b + ");let r=[" + b + "," + a + "];obs(r);r.push(" + a + ");obs({x:" + b + "});");
    if (o.str() != o2.str() || v.obs != w.obs) mc::fail("with C functions: " + o.str() + " " + o.msg + " " + v.obs + "\n  with script functions: " + o2.str() + " " + o2.msg + " " + w.obs);
    c.validated++; c.state(text);
    return;
  }
  mc::fail("bad case");
}

int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C11";
  d.rule = "a case is a signature (all tuples of up to six of seven argument types) with a return type, called with value vectors, with every wrong number of arguments and every wrong kind of argument at every position; or a way to write a signature. Non-trivial: the signature is imported or must be rejected";
  d.enumerate = enumerate; d.check = check;
  d.assumptions = {"System V x86-64 calling convention; the callee reads exactly the bits which belong to its parameter types"};
  return mc::run(d, argc, argv);
}
