// C15: the C API embeds values and calls faithfully
#include "scale.hpp"
#include "common.hpp"
#include <cfloat>
#include <climits>
#include <cmath>

static void die(const std::string &m) { mc::fail(m); }
static std::string hex(uint64_t v) { char b[24]; snprintf(b, sizeof b, "%llx", (unsigned long long) v); return b; }

// ---- values
static std::vector<double> numbers() {
  std::vector<double> r = {0.0, -0.0, 0.5, -0.5, 1e-300, DBL_MIN, 4.9406564584124654e-324, DBL_MAX, -DBL_MAX, INFINITY, -INFINITY, DBL_EPSILON, 3.141592653589793};
  for (int k : {7, 8, 15, 16, 23, 24, 30, 31, 32, 33, 47, 48, 51, 52, 53, 62, 63, 64, 100}) for (int d = -1; d <= 1; d++) for (int s : {1, -1}) r.push_back(s * (std::ldexp(1.0, k) + d));
  for (int i = -3; i < 4; i++) r.push_back(i);
  return r;
}
static std::vector<uint64_t> nans() {      // every shape of NaN, also those which look like tagged values
  std::vector<uint64_t> r;
  for (uint64_t top = 0x7ff0; top <= 0x7fff; top++) for (uint64_t low : {0ull, 1ull, 0x123456789abcull, 0xffffffffffffull}) { if (top == 0x7ff0 && !low) continue; r.push_back(top << 48 | low); }
  for (uint64_t top = 0xfff0; top <= 0xffff; top++) for (uint64_t low : {0ull, 1ull, 0x123456789abcull, 0xffffffffffffull}) { if (top == 0xfff0 && !low) continue; r.push_back(top << 48 | low); }
  return r;
}
enum Ty { UNDEF, NUL, BOOL, NUM, STR, FOREIGN, OBJ, ARR, FN };
static const char *TN[] = {"undefined", "null", "boolean", "number", "string", "foreign_ptr", "object", "array", "function"};
static void only(mjs_val_t v, Ty t, const std::string &what) {
  auto p = [&](const char *n, int got, bool want) { if (!!got != want) die(what + ": " + n + " is " + std::to_string(got)); };
  p("mjs_is_undefined", mjs_is_undefined(v), t == UNDEF);
  p("mjs_is_null", mjs_is_null(v), t == NUL);
  p("mjs_is_boolean", mjs_is_boolean(v), t == BOOL);
  p("mjs_is_number", mjs_is_number(v), t == NUM);
  p("mjs_is_string", mjs_is_string(v), t == STR);
  p("mjs_is_foreign", mjs_is_foreign(v), t == FOREIGN);
  p("mjs_is_array", mjs_is_array(v), t == ARR);
  p("mjs_is_object", mjs_is_object(v), t == OBJ || t == ARR);
  p("mjs_is_function", mjs_is_function(v), t == FN);
  const char *n = mjs_typeof(v);
  if (!n || strcmp(n, TN[t])) die(what + ": mjs_typeof is " + (n ? n : "NULL"));
}
static mjs_val_t CARRIED;
static void n_carry(struct mjs *m) { mjs_return(m, CARRIED); }
static void n_id(struct mjs *m) { if (mjs_nargs(m) != 1) die("nargs"); mjs_return(m, mjs_arg(m, 0)); }
// Sends a value through everything which carries values; chk verifies what comes out.
static void carry(vm::Vm &v, mjs_val_t val, const std::string &what, const std::function<void(mjs_val_t, const std::string &)> &chk, mc::Ctx &c) {
  struct mjs *m = v.m; mjs_val_t g = mjs_get_global(m), r = mjs_mk_undefined();
  mjs_own(m, &val);
  chk(val, what);
  if (mjs_set(m, g, "x", ~0, val) != MJS_OK) die("mjs_set failed");
  chk(mjs_get(m, g, "x", ~0), what + " as a global");
  mjs_gc(m, 1);
  chk(val, what + " after a collection");
  chk(mjs_get(m, g, "x", 1), what + " as a global after a collection");
  auto ex = [&](const char *s) { mjs_err_t e = mjs_exec(m, s, &r); if (e) die(what + ": " + s + " fails: " + mjs_strerror(m, e)); chk(r, what + " through " + s); c.executions++; };
  ex("x"); ex("let y = x; y"); ex("[0,x][1]"); ex("({p:x}).p"); ex("(function(a){return a;})(x)"); ex("id(x)"); ex("true ? x : 0");
  mjs_val_t f; if (mjs_exec(m, "(function(a){return a;})", &f)) die("exec");
  if (mjs_call(m, &r, f, mjs_mk_undefined(), 1, val) != MJS_OK) die("mjs_call fails"); chk(r, what + " through mjs_call");
  if (mjs_exec(m, "(function(){return this;})", &f)) die("exec");
  if (mjs_call(m, &r, f, val, 0) != MJS_OK) die("mjs_call fails"); chk(r, what + " as this");
  if (mjs_call(m, &r, mjs_get(m, g, "id", ~0), mjs_mk_undefined(), 1, val) != MJS_OK) die("mjs_call fails"); chk(r, what + " through mjs_call of a native");
  CARRIED = val;
  ex("carry()"); ex("let q=[]; q.push(carry()); q[0]");
  mjs_val_t a = mjs_mk_array(m); mjs_own(m, &a);
  mjs_array_push(m, a, mjs_mk_null()); mjs_array_push(m, a, val); mjs_array_set(m, a, 3, val); mjs_gc(m, 0);
  chk(mjs_array_get(m, a, 1), what + " in an array"); chk(mjs_array_get(m, a, 3), what + " in an array");
  mjs_disown(m, &a); mjs_disown(m, &val);
}
static void values(const std::string &kind, mc::Ctx &c) {
  vm::hook_reset();
  size_t sep = kind.find(' '); std::string k = kind.substr(0, sep), arg = sep == std::string::npos ? "" : kind.substr(sep + 1);
  vm::Vm v; struct mjs *m = v.m;
  v.native("id", n_id); v.native("carry", n_carry);
  auto simple = [&](Ty t, std::function<void(mjs_val_t, const std::string &)> more) { return [=](mjs_val_t x, const std::string &w) { only(x, t, w); more(x, w); }; };
  if (k == "num") {
    double d; uint64_t b = strtoull(arg.c_str(), 0, 16); memcpy(&d, &b, 8);
    carry(v, mjs_mk_number(m, d), "number " + vm::num(d) + " (" + arg + ")", simple(NUM, [=](mjs_val_t x, const std::string &w) {
      double g = mjs_get_double(m, x);
      if (std::isnan(d) ? !std::isnan(g) : memcmp(&g, &d, 8)) die(w + " became " + vm::num(g));
      if (d > -2147483649.0 && d < 2147483648.0 && (mjs_get_int(m, x) != (int) d || mjs_get_int32(m, x) != (int) d)) die(w + ": mjs_get_int is " + std::to_string(mjs_get_int(m, x)) + ", mjs_get_int32 is " + std::to_string(mjs_get_int32(m, x)));
      if (d >= 0 && d < 4294967296.0 && (unsigned) mjs_get_int(m, x) != (unsigned) d) die(w + ": mjs_get_int is " + std::to_string(mjs_get_int(m, x)));
      if (mjs_get_ptr(m, x)) die(w + " has a pointer"); if (mjs_get_bool(m, x)) die(w + " is a boolean");
    }), c);
  } else if (k == "bool") {
    int b = atoi(arg.c_str());
    carry(v, mjs_mk_boolean(m, b), "boolean " + arg, simple(BOOL, [=](mjs_val_t x, const std::string &w) { if (mjs_get_bool(m, x) != (b != 0)) die(w + ": mjs_get_bool is wrong"); }), c);
  } else if (k == "null") carry(v, mjs_mk_null(), k, simple(NUL, [=](mjs_val_t x, const std::string &w) { if (mjs_get_bool(m, x) || mjs_get_ptr(m, x)) die(w + ": value"); }), c);
  else if (k == "undef") carry(v, mjs_mk_undefined(), k, simple(UNDEF, [=](mjs_val_t x, const std::string &w) { if (mjs_get_bool(m, x) || mjs_get_ptr(m, x)) die(w + ": value"); }), c);
  else if (k == "ptr") {
    void *p = (void *) (uintptr_t) strtoull(arg.c_str(), 0, 16);
    carry(v, mjs_mk_foreign(m, p), "pointer " + arg, simple(FOREIGN, [=](mjs_val_t x, const std::string &w) { if (mjs_get_ptr(m, x) != p) die(w + " became " + hex((uintptr_t) mjs_get_ptr(m, x))); if (mjs_get_bool(m, x)) die(w + " is a boolean"); }), c);
  } else if (k == "fnptr") {
    carry(v, mjs_mk_foreign_func(m, (mjs_func_ptr_t) n_id), k, simple(FOREIGN, [=](mjs_val_t x, const std::string &w) { if (mjs_get_ptr(m, x) != (void *) n_id) die(w + " changed"); }), c);
  } else if (k == "obj") {
    mjs_val_t o = mjs_mk_object(m); mjs_set(m, o, "who", ~0, mjs_mk_number(m, 7)); mjs_set(m, o, "a long property name", ~0, mjs_mk_string(m, "a long property value", ~0, 1));
    carry(v, o, "object", simple(OBJ, [=](mjs_val_t x, const std::string &w) { if (x != o) die(w + ": identity"); if (vm::dump(m, x) != "{'a long property name':'a long property value','who':7}") die(w + " became " + vm::dump(m, x)); }), c);
  } else if (k == "arr") {
    mjs_val_t o = mjs_mk_array(m); mjs_array_push(m, o, mjs_mk_number(m, 7)); mjs_array_push(m, o, mjs_mk_string(m, "an element of the array", ~0, 1));
    carry(v, o, "array", simple(ARR, [=](mjs_val_t x, const std::string &w) { if (x != o) die(w + ": identity"); if (vm::dump(m, x) != "[7,'an element of the array']") die(w + " became " + vm::dump(m, x)); }), c);
  } else if (k == "fn") {
    mjs_val_t f; if (mjs_exec(m, "let unused = 1; (function(a){ return a + 35; })", &f)) die("exec");
    carry(v, f, "function", simple(FN, [=](mjs_val_t x, const std::string &w) { mjs_val_t r; if (mjs_call(m, &r, x, mjs_mk_undefined(), 1, mjs_mk_number(m, 7)) || mjs_get_double(m, r) != 42) die(w + " does not compute"); }), c);
  } else if (k == "str") {       // str <len> <content> <copy> <z>
    int n, content, copy, z; sscanf(arg.c_str(), "%d %d %d %d", &n, &content, &copy, &z);
    std::string s; for (int i = 0; i < n; i++) s += (char) (content == 0 ? 'a' + i % 26 : content == 1 ? i * 37 : content == 2 ? 0 : 0x80 + i % 128);
    if (z) for (auto &ch : s) if (!ch) ch = '0';
    char *src = (char *) malloc(n + z); memcpy(src, s.data(), n); if (z) src[n] = 0;
    mjs_val_t x = mjs_mk_string(m, src, z ? (size_t) ~0 : (size_t) n, copy);
    if (copy) { memset(src, 'Z', n); free(src); src = NULL; }
    carry(v, x, "string " + arg, simple(STR, [=](mjs_val_t x, const std::string &w) {
      size_t l = 12345; const char *p = mjs_get_string(m, &x, &l);
      if (!p) die(w + ": no characters");
      if (l != s.size() || vm::str(p, l) != vm::str(s)) die(w + " became " + vm::str(p, l));
      if (copy && p[l] != 0) die(w + " is not terminated");
      if (!copy && n > 5 && p != src) die(w + ": an uncopied string moved");
      if (copy || z) { const char *cs = mjs_get_cstring(m, &x); bool nul = s.find('\0') != std::string::npos; if (nul ? cs != NULL : (!cs || cs != s)) die(w + ": mjs_get_cstring is " + (cs ? vm::str(cs, strlen(cs)) : "NULL")); }
      auto sg = [](int x) { return x < 0 ? -1 : x > 0; };
      auto cmpto = [&](const std::string &b) {
        char *bp = (char *) malloc(b.size()); memcpy(bp, b.data(), b.size());
        int want = s.compare(b); want = sg(want);
        int got = sg(mjs_strcmp(m, &x, bp, b.size())); free(bp);
        if ((want == 0) != (got == 0)) die(w + ": mjs_strcmp with " + vm::str(b) + " is " + std::to_string(got));
      };
      cmpto(s); cmpto(s + "a"); cmpto(s + std::string(1, '\0')); if (n) { cmpto(s.substr(0, n - 1)); std::string t = s; t[n - 1]++; cmpto(t); t[n - 1] -= 2; cmpto(t); t = s; t[0] ^= 32; cmpto(t); } else cmpto("b");
      if (mjs_get_bool(m, x) || mjs_get_ptr(m, x)) die(w + ": value");
    }), c);
    free(src);
  } else if (k == "sprintf") {   // every buffer size
    static const struct { const char *src, *want; } T[] = {{"12345", "12345"}, {"-7", "-7"}, {"0.5", "0.5"}, {"undefined", "undefined"}, {"null", "null"}, {"true", "true"}, {"false", "false"}, {"'a string'", "a string"}, {"''", ""}, {"'\\x00\\x7f\\xff'", "\\x00\\x7f\\xff"}, {"[1]", "<array>"}, {"({})", "<object>"}, {"NaN", "NaN"}, {"1e300", "1e+300"}, {"1099511627776", "1099511627776"}};
    auto &t = T[atoi(arg.c_str())]; mjs_val_t r; if (mjs_exec(m, t.src, &r)) die("exec");
    size_t L = strlen(t.want);
    for (size_t n = 0; n <= L + 3; n++) {
      char *b = (char *) malloc(n ? n : 1); memset(b, 'Q', n ? n : 1); mjs_sprintf(r, m, b, n); c.executions++;
      std::string want = n ? std::string(t.want).substr(0, n - 1) : "";
      if (n && std::string(b, strnlen(b, n)) != want) die(std::string("mjs_sprintf of ") + t.src + " into " + std::to_string(n) + " bytes gives " + vm::str(b, strnlen(b, n)));
      if (!n && b[0] != 'Q') die("mjs_sprintf wrote to an empty buffer");
      free(b);
    }
    char *mem = NULL; size_t ms = 0; FILE *f = open_memstream(&mem, &ms); mjs_fprintf(r, m, f); fclose(f);
    if (std::string(mem, ms) != t.want) die(std::string("mjs_fprintf of ") + t.src + " gives " + vm::str(mem, ms)); free(mem);
  }
  c.validated++;
}

// ---- own / disown histories
static void owned(const std::string &ops, mc::Ctx &c) {
  vm::hook_reset();
  vm::Vm v; struct mjs *m = v.m; const int N = 3; mjs_val_t var[N]; int cnt[N] = {0}, id[N]; int next = 1; bool live[N];
  auto make = [&](int i) {
    var[i] = i == 2 ? mjs_mk_string(m, ("string number " + std::to_string(next)).c_str(), ~0, 1) : i == 1 ? mjs_mk_array(m) : mjs_mk_object(m);
    if (i == 0) mjs_set(m, var[0], "id", ~0, mjs_mk_number(m, next)); if (i == 1) mjs_array_push(m, var[1], mjs_mk_number(m, next));
    id[i] = next++; live[i] = true;
  };
  for (int i = 0; i < N; i++) make(i);
  auto verify = [&](const std::string &w) {
    for (int i = 0; i < N; i++) if (live[i]) {
      std::string d = vm::dump(m, var[i]), want = i == 0 ? "{'id':" + std::to_string(id[i]) + "}" : i == 1 ? "[" + std::to_string(id[i]) + "]" : "'string number " + std::to_string(id[i]) + "'";
      if (d != want) die(w + ": variable " + std::to_string(i) + " holds " + d + " instead of " + want);
    }
  };
  std::string st;
  for (size_t k = 0; k < ops.size(); k++) {
    char o = ops[k]; c.transitions++;
    if (o >= '0' && o <= '2') { mjs_own(m, &var[o - '0']); cnt[o - '0']++; }
    else if (o >= 'a' && o <= 'c') {
      int i = o - 'a', r = mjs_disown(m, &var[i]), want = cnt[i] > 0;
      if (!!r != want) die("operation " + std::to_string(k) + ": mjs_disown of variable " + std::to_string(i) + " returns " + std::to_string(r));
      if (want) cnt[i]--;
    } else if (o >= 'x' && o <= 'z') make(o - 'x');
    else {                           // g: collect with garbage; e: run a script which allocates
      for (int i = 0; i < N; i++) if (!cnt[i]) { live[i] = false; var[i] = mjs_mk_undefined(); }
      if (o == 'g') mjs_gc(m, 1);
      else { mjs_val_t r; if (mjs_exec(m, "let i; let s=''; for(i=0;i<3;i++){ let o={a:[i],b:'text '+chr(48+i)}; s+=o.b; } gc(true); s", &r)) die("exec"); if (vm::dump(m, r) != "'text 0text 1text 2'") die("script result"); }
      // whatever was collected is reused at once
      mjs_val_t t = mjs_mk_object(m); mjs_set(m, t, "new", ~0, mjs_mk_null()); mjs_mk_array(m); mjs_mk_string(m, "overwrites freed strings, if any were", ~0, 1);
    }
    verify("after operation " + std::to_string(k) + " (" + o + ")");
    st = ""; for (int i = 0; i < N; i++) st += std::to_string(cnt[i]) + (live[i] ? "L" : "d"); c.state(st);
  }
  c.executions++; c.validated++;
}

// ---- call trees
// A plan: entry edge, then levels "kind edge argc"; every level calls the next
// one twice (the second time with argc+2 mod 5 arguments).
struct Level { char kind; char edge; int argc; };     // kind S/N; the edge leads to this level
struct Plan { std::vector<Level> l; int off = 0; bool gc = false; };
static Plan P; static struct mjs *PM; static std::string *PL;
static const int NV = 8;
static const char *VSRC[NV] = {"1.5", "'a string value'", "({k:'object'})", "[1,'array']", "undefined", "null", "true", "'s'"};
static const char *VDUMP[NV] = {"1.5", "'a string value'", "{'k':'object'}", "[1,'array']", "undefined", "null", "true", "'s'"};
static int argi(int lv, int pass, int i) { return (lv * 5 + pass * 3 + i + P.off) % NV; }
static int thisi(int lv, int pass) { return (lv * 3 + pass + P.off + 2) % NV; }
static int reti(int lv) { return (lv * 2 + P.off + 1) % NV; }
static int argc_(int lv, int pass) { return (P.l[lv].argc + pass * 2) % 5; }
static std::string V(int i) { return "V" + std::to_string(i); }
static bool has_this(char e) { return e == 'm' || e == 'p' || e == 'A' || e == 'M'; }
// oracle
static std::string thisd(int lv, int pass, char caller) {
  char e = P.l[lv].edge; (void) caller;
  if (e == 'm') return "{'k':'method'}";
  if (e == 'p' || e == 'A') return VDUMP[thisi(lv, pass)];
  return "undefined";
}
static void oracle(int lv, int pass, std::string &log) {
  int n = argc_(lv, pass); bool S = P.l[lv].kind == 'S';
  std::string a; int shown = S ? 4 : n;
  for (int i = 0; i < shown; i++) a += std::string(i < n ? VDUMP[argi(lv, pass, i)] : "undefined") + " ";
  std::string head = (S ? "'S" : "'N") + std::to_string(lv) + "'", t = thisd(lv, pass, 0);
  std::string cnt = S ? "" : std::to_string(n) + " ";
  log += head + " " + cnt + a + t + ";";
  if (lv + 1 < (int) P.l.size()) for (int p = 0; p < 2; p++) {
    oracle(lv + 1, p, log);
    log += "'back' " + std::string(VDUMP[reti(lv + 1)]) + " " + cnt + a + t + ";";
  }
}
static std::string arglist(int lv, int pass) { std::string a; for (int i = 0; i < argc_(lv, pass); i++) a += (i ? "," : "") + V(argi(lv, pass, i)); return a; }
static std::string callexpr(int lv, int pass) {       // how a script calls level lv
  std::string f = "f" + std::to_string(lv);
  switch (P.l[lv].edge) {
    case 'm': return "o" + std::to_string(lv) + ".m(" + arglist(lv, pass) + ")";
    case 'p': return f + ".apply(" + V(thisi(lv, pass)) + ",[" + arglist(lv, pass) + "])";
    default: return f + "(" + arglist(lv, pass) + ")";
  }
}
static mjs_val_t ccall(int lv, int pass) {            // how C calls level lv
  struct mjs *m = PM; mjs_val_t g = mjs_get_global(m), r = mjs_mk_number(m, -99), a[5], f = mjs_get(m, g, ("f" + std::to_string(lv)).c_str(), ~0);
  int n = argc_(lv, pass); mjs_err_t e = MJS_OK;
  for (int i = 0; i < n; i++) a[i] = mjs_get(m, g, V(argi(lv, pass, i)).c_str(), ~0);
  mjs_val_t t = mjs_get(m, g, V(thisi(lv, pass)).c_str(), ~0);
  switch (P.l[lv].edge) {
    case 'A': e = mjs_apply(m, &r, f, t, n, a); break;
    case 'C': {
      mjs_val_t u = mjs_mk_undefined();
      e = n == 0 ? mjs_call(m, &r, f, u, 0) : n == 1 ? mjs_call(m, &r, f, u, 1, a[0]) : n == 2 ? mjs_call(m, &r, f, u, 2, a[0], a[1]) : n == 3 ? mjs_call(m, &r, f, u, 3, a[0], a[1], a[2]) : mjs_call(m, &r, f, u, 4, a[0], a[1], a[2], a[3]);
      break;
    }
    case 'X': e = mjs_exec(m, callexpr(lv, pass).c_str(), &r); break;
  }
  if (e != MJS_OK) die("calling level " + std::to_string(lv) + " fails: " + mjs_strerror(m, e));
  return r;
}
static void native_level(struct mjs *m, int lv) {
  auto args = [&] { std::string s = std::to_string(mjs_nargs(m)) + " "; for (int i = 0; i < mjs_nargs(m); i++) s += vm::dump(m, mjs_arg(m, i)) + " "; if (!mjs_is_undefined(mjs_arg(m, mjs_nargs(m))) || !mjs_is_undefined(mjs_arg(m, 50))) s += "extra argument "; return s + vm::dump(m, mjs_get_this(m)); };
  *PL += "'N" + std::to_string(lv) + "' " + args() + ";";
  if (lv + 1 < (int) P.l.size()) for (int p = 0; p < 2; p++) {
    if (P.gc) mjs_gc(m, 1);
    mjs_val_t r = ccall(lv + 1, p); mjs_own(m, &r);
    if (P.gc) mjs_gc(m, 1);
    *PL += "'back' " + vm::dump(m, r) + " " + args() + ";";
    mjs_disown(m, &r);
  }
  if (P.gc) mjs_gc(m, 1);
  mjs_return(m, mjs_get(m, mjs_get_global(m), V(reti(lv)).c_str(), ~0));
}
template <int L> static void nat_level(struct mjs *m) { native_level(m, L); }
static void calltree(const std::string &text, mc::Ctx &c) {
  P = Plan(); size_t i = 0; P.off = text[i++] - '0'; P.gc = text[i++] == 'g';
  while (i + 2 < text.size()) { P.l.push_back({text[i], text[i + 1], text[i + 2] - '0'}); i += 3; }
  vm::hook_reset();
  vm::Vm v; struct mjs *m = PM = v.m; PL = &v.obs; std::string src;
  for (int k = 0; k < NV; k++) src += "let " + V(k) + "=" + VSRC[k] + ";";
  static void (*const nf[])(struct mjs *) = {nat_level<0>, nat_level<1>, nat_level<2>, nat_level<3>, nat_level<4>};
  for (int lv = 0; lv < (int) P.l.size(); lv++) if (P.l[lv].kind == 'N') v.native(("f" + std::to_string(lv)).c_str(), nf[lv]);
  for (int lv = (int) P.l.size() - 1; lv >= 0; lv--) {
    std::string n = std::to_string(lv);
    if (P.l[lv].kind == 'S') {
      src += "let f" + n + "=function(a,b,c,d){ obs('S" + n + "',a,b,c,d,this);";
      if (lv + 1 < (int) P.l.size()) for (int p = 0; p < 2; p++) src += " obs('back'," + callexpr(lv + 1, p) + ",a,b,c,d,this);";
      src += " return " + V(reti(lv)) + "; };";
    }
    src += "let o" + n + "={k:'method'};";      // methods are installed below, so that dumps stay short
  }
  src += "0";
  vm::Out o = v.exec(src); if (o.err) die("setup fails: " + o.msg);
  // o<lv>.m through a prototype, so that the dump of this shows own properties only
  for (int lv = 0; lv < (int) P.l.size(); lv++) if (P.l[lv].edge == 'm') {
    std::string n = std::to_string(lv);
    o = v.exec("o" + n + "=Object.create({m:f" + n + "}); o" + n + ".k='method';0"); if (o.err) die("setup fails: " + o.msg);
  }
  if (P.gc) vm::H.fn = [](struct mjs *mm, uint64_t k) { if (k % 7 == 0) mjs_gc(mm, 1); };
  std::string log; oracle(0, 0, log); log += "=" + std::string(VDUMP[reti(0)]);
  v.obs = "";
  mjs_val_t r = ccall(0, 0);
  std::string got = v.obs + "=" + vm::dump(m, r);
  vm::H.fn = nullptr;
  // __p shows the prototype of method objects
  std::string g2; for (size_t k = 0; k < got.size();) { if (got.compare(k, 7, ",'__p':") == 0 || got.compare(k, 6, "'__p':") == 0) { size_t s = got.find('{', k); int d = 0; do { if (got[s] == '{') d++; if (got[s] == '}') d--; s++; } while (d); k = s; if (g2.back() == '{' && got[k] == ',') k++; } else g2 += got[k++]; }
  c.executions++; c.validated++; c.transitions += vm::H.n; c.state(log);
  if (g2 != log) die("expected " + log + "\n  got      " + g2);
  o = v.exec("let z=[V0,V1]; z[1]+'!'"); if (o.str() != "='a string value!'") die("afterwards: " + o.str());
}

// ---- errors
static void errors(const std::string &arg, mc::Ctx &c) {
  int code, how; sscanf(arg.c_str(), "%d %d", &code, &how);
  static int CODE; CODE = code; static int HOW; HOW = how;
  static const char *names[] = {"NO_ERROR", "SYNTAX_ERROR", "REFERENCE_ERROR", "TYPE_ERROR", "OUT_OF_MEMORY", "INTERNAL_ERROR", "NOT_IMPLEMENTED", "FILE_OPEN_ERROR", "BAD_ARGUMENTS"};
  vm::hook_reset(); vm::Vm v; struct mjs *m = v.m;
  v.native("boom", [](struct mjs *m) {
    if (HOW == 0) mjs_set_errorf(m, (mjs_err_t) CODE, "number %d %s", 5, "x");
    else if (HOW == 1) mjs_prepend_errorf(m, (mjs_err_t) CODE, "number %d %s", 5, "x");
    else if (HOW == 2) { mjs_set_errorf(m, (mjs_err_t) CODE, "inner"); mjs_prepend_errorf(m, MJS_INTERNAL_ERROR, "outer"); }
    else mjs_set_errorf(m, (mjs_err_t) CODE, NULL);
    mjs_return(m, mjs_mk_number(m, 1));
  });
  std::string want = HOW == 2 ? "outer: inner" : HOW == 3 ? names[code] : "number 5 x";
  auto chk = [&](mjs_err_t e, const std::string &w, bool msg) { if (e != code) die(w + " returns " + std::to_string(e)); const char *s = mjs_strerror(m, e); if (msg && want != s) die(w + ": message '" + s + "' instead of '" + want + "'"); c.executions++; };
  mjs_val_t r, g = mjs_get_global(m);
  chk(mjs_exec(m, "boom()", &r), "exec", true);
  chk(mjs_exec(m, "let f=function(){ boom(); obs('unreached'); }; f(); obs('unreached')", &r), "exec", true);
  chk(mjs_call(m, &r, mjs_get(m, g, "boom", ~0), mjs_mk_undefined(), 0), "call", true);
  chk(mjs_apply(m, &r, mjs_get(m, g, "f", ~0), g, 0, NULL), "apply", true);
  chk(mjs_apply(m, NULL, mjs_get(m, g, "f", ~0), g, 0, NULL), "apply without result", true);
  chk(mjs_exec(m, "boom.apply(1,[2])", NULL), "exec", true);
  if (v.obs != "") die("the script continued after an error: " + v.obs);
  if (mjs_exec(m, "obs('fine'); 12", &r) != MJS_OK || mjs_get_double(m, r) != 12) die("not usable after the error");
  if (mjs_call(m, &r, mjs_mk_number(m, 1), g, 0) != MJS_TYPE_ERROR || mjs_call(m, &r, mjs_mk_object(m), g, 0) != MJS_TYPE_ERROR || mjs_call(m, &r, mjs_mk_string(m, "f", 1, 1), g, 0) != MJS_TYPE_ERROR) die("something else than a function can be called");
  if (mjs_exec(m, "13", &r) != MJS_OK || mjs_get_double(m, r) != 13) die("not usable after the error");
  c.validated++;
}

static void enumerate(bool th, const Emit &emit) {
  auto num = [&](uint64_t b) { emit("val num " + hex(b)); };
  for (double d : numbers()) { uint64_t b; memcpy(&b, &d, 8); num(b); }
  for (uint64_t b : nans()) num(b);
  for (const char *k : {"bool 0", "bool 1", "bool 2", "bool 256", "bool -1", "null", "undef", "fnptr", "obj", "arr", "fn"}) emit(std::string("val ") + k);
  for (int b = 0; b < 48; b++) for (int d = -1; d <= 1; d++) emit("val ptr " + hex((1ull << b) + d));
  emit("val ptr " + hex(0xffffffffffffull));
  for (int content = 0; content < 4; content++) for (int copy = 0; copy < 2; copy++) for (int z = 0; z < 2; z++) {
    std::vector<int> lens; for (int n = 0; n < 12; n++) lens.push_back(n);
    for (int n : {31, 32, 63, 64, 119, 120, 126, 127, 128, 129, 130, 255, 256, 257, 1000, 16382, 16383, 16384, 16385, 70000}) lens.push_back(n);
    for (int n : lens) emit("val str " + std::to_string(n) + " " + std::to_string(content) + " " + std::to_string(copy) + " " + std::to_string(z));
  }
  for (int i = 0; i < 15; i++) emit("val sprintf " + std::to_string(i));
  for (int code = 1; code <= 8; code++) for (int how = 0; how < 4; how++) emit("err " + std::to_string(code) + " " + std::to_string(how));
  // own / disown
  std::function<void(std::string, int)> go = [&](const std::string &s, int d) {
    if (!s.empty() && (s.back() == 'g' || s.back() == 'e' || d == 0)) emit("own " + s);
    if (!d) return;
    for (char ch : std::string("012abcxyzge")) { if (s.empty() && ch == 'x') continue; go(s + ch, d - 1); }
  };
  go("", th ? 6 : 5);
  // call trees
  std::vector<Plan> ps; std::string edgesC = "ACX", edgesS = "fmp";
  std::function<void(std::string, char, int)> tree = [&](const std::string &s, char caller, int d) {
    for (char kind : std::string("SN")) for (char e : caller == 'S' ? edgesS : edgesC) for (int n = 0; n <= 4; n++) {
      if (s.size() >= 2 + 3 * (th ? 3 : 2) && n != 1 && n != 3) continue;
      std::string t = s + kind + e + (char) ('0' + n);
      emit("tree " + t);
      if (d > 1) tree(t, kind, d - 1);
    }
  };
  int offs = th ? 8 : 3;
  for (int o = 0; o < offs; o++) for (char g : std::string("-g")) tree(std::string(1, '0' + o) + g, 'C', th && o < 2 ? 4 : 3);
}
static void check(const std::string &t, mc::Ctx &c) {
  if (t.compare(0, 4, "val ") == 0) values(t.substr(4), c);
  else if (t.compare(0, 4, "own ") == 0) owned(t.substr(4), c);
  else if (t.compare(0, 4, "err ") == 0) errors(t.substr(4), c);
  else calltree(t.substr(5), c);
}
int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C15"; d.rule = "a value sent through every carrier of the C API, a history of own/disown/assign/collect operations, or a call tree of script and native levels (each level calling the next one twice) with given edges and argument counts";
  d.enumerate = enumerate; d.check = check;
  d.assumptions = {"pointers below 2^48", "the level functions of call trees get at most four arguments", "call trees up to three levels deep (thorough: four), own/disown histories of up to five operations (thorough: six) over three variables"};
  scale::wrap(d, "C15");
  return mc::run(d, argc, argv);
}
