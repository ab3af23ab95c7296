#include <sstream>
// C12: FFI callbacks reach the right script function
#include "scale.hpp"
#include "ffi.hpp"
extern "C" {
#include "common/mg_str.h"
}

static char membuf[64];
typedef uintptr_t (*w6)(uintptr_t, uintptr_t, uintptr_t, uintptr_t, uintptr_t, uintptr_t);
typedef uintptr_t (*wdfn)(uintptr_t, double);

static void junk(struct mjs *m) {
  mjs_gc(m, 1);
  mjs_val_t s = mjs_mk_string(m, "junk junk junk junk", ~0, 1);
  for (int i = 0; i < 12; i++) { mjs_val_t o = mjs_mk_object(m); mjs_set(m, o, "junk", ~0, s); }
  mjs_gc(m, 1);
}

// ---- shapes: every callback signature
struct A { uintptr_t w; double d; std::string want; };
static struct mg_str MS[4];
static std::vector<A> argvals(char t) {
  static const char *S[] = {"", "a", "five5", "a long string argument"};
  std::vector<A> r;
  auto u = [](const void *p) { return (uintptr_t) p; };
  switch (t) {
    case 'i': return {{0, 0, "0"}, {1, 0, "1"}, {0xffffffffu, 0, "-1"}, {0x80000000u, 0, "-2147483648"}, {0x7fffffff, 0, "2147483647"}, {0xabcd000100000005ull, 0, "5"}, {0x11111111fffffffeull, 0, "-2"}};
    case 'b': return {{0, 0, "false"}, {1, 0, "true"}};
    case 'd': return {{0, 0, "0"}, {0, 1.5, "1.5"}, {0, -0.1, vm::num(-0.1)}, {0, NAN, "NaN"}, {0, 1e300, vm::num(1e300)}, {0, -INFINITY, "-Inf"}};
    case 's': for (auto s : S) r.push_back({u(s), 0, vm::str(std::string(s))}); return r;
    case 'p': return {{u(membuf), 0, "ptr"}, {0, 0, "null"}};
    case 'm': for (int i = 0; i < 4; i++) { MS[i].p = S[i]; MS[i].len = strlen(S[i]); r.push_back({u(&MS[i]), 0, vm::str(std::string(S[i]))}); } return r;
  }
  return r;
}
static std::string cbsig(char ret, const std::string &p) {
  std::string s = std::string(ff::tname(ret)) + " (*)(";
  for (size_t i = 0; i < p.size(); i++) s += std::string(i ? ", " : "") + (p[i] == 'u' ? "userdata" : ff::tname(p[i]));
  return s + ")";
}
static const char *RVI[][2] = {{"0", "0"}, {"-1", "-1"}, {"2147483647", "2147483647"}, {"(-2147483648)", "-2147483648"}, {"5.9", "5"}};
static const char *RVB[][2] = {{"true", "1"}, {"false", "0"}};

// ---- histories
struct Reg { std::string fn, ud; char sig; bool alive = false; uintptr_t cb = 0, data = 0; int slot; };
struct Model {
  std::vector<Reg> slots;   // alive or not
  int counter = 1000;
};
static int errored;
static Model M; static vm::Vm *VM; static std::string expected; static std::vector<std::string> todo;
static const char *udval(const std::string &u) { return u == "u" ? "{'n':'userdata object'}" : u == "w" ? "'userdata string, long'" : "1"; }
static void op(const std::string &o, bool inside);
static std::vector<std::string> ops(const std::string &s) {   // split at ; outside of []
  std::vector<std::string> r; int d = 0; std::string c;
  for (char ch : s) { if (ch == '[') d++; if (ch == ']') d--; if (ch == ';' && !d) { r.push_back(c); c.clear(); } else c += ch; }
  if (!c.empty()) r.push_back(c);
  return r;
}
static void runops(const std::string &s, bool inside) { for (auto &o : ops(s)) op(o, inside); }
static void nat_todo(struct mjs *m) { if (!todo.empty()) { std::string t = todo.back(); todo.pop_back(); if (!t.empty()) runops(t, true); } mjs_return(m, mjs_mk_undefined()); }
static void callslot(int k) {
  Reg r = M.slots[k]; int x = ++M.counter; 
  expected += r.fn + ":" + std::to_string(x) + ":" + udval(r.ud) + ";";
  uintptr_t got; int before = errored;
  if (r.sig == 'A') got = ((w6) r.cb)(x, r.data, 11, 12, 13, 14);
  else got = ((w6) r.cb)(r.data, x, 11, 12, 13, 14);
  int want = r.sig == 'A' ? 0 : r.fn == "e" ? 0 : x + 100;
  if (r.fn == "e") errored++;
  if (errored != before && r.fn != "e") return;      // a nested callback failed: the enclosing script calls end as well
  if (r.sig == 'B' && (int) got != want) mc::fail("callback returned " + std::to_string((int) got) + " instead of " + std::to_string(want));
  if (M.counter == x && VM->obs != expected) mc::fail("calls seen: " + VM->obs + " expected: " + expected);
}
static void nat_fire(struct mjs *m) { callslot(mjs_get_int(m, mjs_arg(m, 0))); mjs_return(m, mjs_mk_number(m, 1)); }
static void exec_ok(const std::string &src, const std::string &want) {
  std::string *save = vm::OBS; int before = errored;
  vm::Out o = VM->exec(src); vm::OBS = save;
  if (errored != before) return;
  if (o.str() != want) mc::fail(src + " gave " + o.str() + " " + o.msg + " instead of " + want);
}
static std::function<void()> regfn;
static void op(const std::string &o, bool inside) {
  switch (o[0]) {
    case 'R': {            // R<fn><ud><sig>
      Reg r; r.fn = o.substr(1, 1); r.ud = o.substr(2, 1); r.sig = o[3]; r.slot = M.slots.size();
      cap_rax = 0; cap_calls = 0; cap_fn = &regfn; cap_w[0] = cap_w[1] = 0;
      exec_ok(std::string("reg") + o[3] + "(" + (r.sig == 'A' ? r.fn + "," + r.ud : r.ud + "," + r.fn) + ")", r.sig == 'A' ? "=undefined" : "=0");
      cap_fn = nullptr;
      if (cap_calls != 1) mc::fail("import called " + std::to_string(cap_calls) + " times");
      r.cb = r.sig == 'A' ? cap_w[0] : cap_w[1]; r.data = r.sig == 'A' ? cap_w[1] : cap_w[0]; r.alive = true;
      M.slots.push_back(r); break;
    }
    case 'C': {            // C<slot>[ops] called while a script runs
      int k = o[1] - '0'; size_t b = o.find('[');
      if (M.slots[k].fn == "h") todo.push_back(b == std::string::npos ? "" : o.substr(b + 1, o.size() - b - 2));
      if (M.slots[k].fn == "e") { vm::Out r = VM->exec(std::string("fire(") + o[1] + ")"); (void) r; }
      else exec_ok(std::string("fire(") + o[1] + ")", "=1");
      break;
    }
    case 'X': {            // the same, straight from C
      int k = o[1] - '0'; size_t b = o.find('[');
      if (M.slots[k].fn == "h") todo.push_back(b == std::string::npos ? "" : o.substr(b + 1, o.size() - b - 2));
      vm::OBS = &VM->obs;
      callslot(k); break;
    }
    case 'F': {            // ffi_cb_free(fn, ud)
      int n = 0;
      for (auto &x : M.slots) if (x.alive && x.fn == o.substr(1, 1) && x.ud == o.substr(2, 1)) { x.alive = false; n = 1; }
      exec_ok("ffi_cb_free(" + o.substr(1, 1) + "," + o.substr(2, 1) + ")", "=" + std::to_string(n));
      break;
    }
    case 'G': junk(VM->m); break;
    case 'E': { vm::Out r = VM->exec("let zz=1-'error in a script';"); if (r.err != 3) mc::fail("no error"); break; }
  }
}
// enumeration of histories over the model state
struct Enum {
  const Emit &emit; int depth; bool th; std::string prefix;
  std::vector<std::string> regs;
  struct S { std::vector<std::string> slot; };   // "fuA" or "" when freed
  std::vector<std::string> basic(const S &s) {
    std::vector<std::string> r;
    if (s.slot.size() < 4) for (auto &x : regs) r.push_back("R" + x);
    std::set<std::string> fr;
    for (size_t i = 0; i < s.slot.size(); i++) if (!s.slot[i].empty()) {
      r.push_back(std::string("X") + char('0' + i)); r.push_back(std::string("C") + char('0' + i));
      fr.insert(s.slot[i].substr(0, 2));
    }
    fr.insert("gw");
    for (auto &x : fr) r.push_back("F" + x);
    r.push_back("G"); r.push_back("E");
    return r;
  }
  void apply(S &s, const std::string &o) {
    if (o[0] == 'R') s.slot.push_back(o.substr(1));
    if (o[0] == 'F') for (auto &x : s.slot) if (!x.empty() && x.substr(0, 2) == o.substr(1, 2)) x.clear();
  }
  void rec(S s, const std::string &h, int d) {
    if (!h.empty()) emit("hist " + h);
    if (d == 0) return;
    for (auto &o : basic(s)) {
      S t = s; apply(t, o);
      std::string sep = h.empty() ? "" : ";";
      bool nest = (o[0] == 'X' || o[0] == 'C') && s.slot[o[1] - '0'][0] == 'h';
      rec(t, h + sep + o, d - 1);
      if (nest) for (auto &i : basic(s)) {
        S t2 = s; if (i[0] == 'E') continue; 
        if ((i[0] == 'C' || i[0] == 'X') && i[1] == o[1] && d < 2) continue;
        apply(t2, i);
        rec(t2, h + sep + o + "[" + i + "]", d - 1);
        if (d <= 2 || th) for (auto &j : basic(t2)) { if (j[0] == 'E') continue; S t3 = t2; apply(t3, j); rec(t3, h + sep + o + "[" + i + ";" + j + "]", d > 2 ? d - 2 : 0); }
      }
    }
  }
};

static void enumerate(bool th, const Emit &emit) {
  const std::string T = "ibspm";
  // all parameter lists with one userdata
  std::vector<std::string> tup = {""};
  for (size_t b = 0, n = 0; n <= 5; n++) {
    size_t e = tup.size();
    for (size_t i = b; i < e; i++) {
      const std::string a = tup[i];
      for (size_t p = 0; p <= a.size(); p++) {
        std::string q = a.substr(0, p) + "u" + a.substr(p);
        for (char r : std::string("vib")) if (n <= 4 || th || (i + p + r) % 3 == 0) emit(std::string("shape ") + r + " " + q);
      }
      if (n < 5) for (char t : T) tup.push_back(a + t);
    }
    b = e;
  }
  for (char r : std::string("vib")) { emit(std::string("shape ") + r + " du"); emit(std::string("shape ") + r + " ud"); }
  for (char r : std::string("sdfpm")) for (auto q : {"u", "iu"}) emit(std::string("maybe ") + r + " " + q);
  for (auto q : {"fu", "uf", "ddu", "idu", "diu", "udi", "duiiii", "iiiiiiu"}) emit(std::string("maybe i ") + q);
  // where callback and userdata stand in the importing function
  for (size_t n = 2; n <= 6; n++) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != j) for (char r : std::string("vidsp")) for (char o : std::string("isd")) {
    if (o == 'd' && n > 3) continue;
    std::string s; for (size_t k = 0; k < n; k++) s += k == i ? 'c' : k == j ? 'u' : o == 's' && k % 2 ? 's' : o == 's' ? 'i' : o;
    emit(std::string("outer ") + r + " " + s);
  }
  for (auto &s : {"wrong 1", "wrong 'x'", "wrong null", "wrong undefined", "wrong {}", "wrong [f]", "wrong true"}) emit(s);
  for (auto &s : {"ffi_cb_free()", "ffi_cb_free(1)", "ffi_cb_free(null,1)", "ffi_cb_free('f',u)", "ffi_cb_free({},u)"}) emit(std::string("freewrong ") + s);
  for (auto &s : {"obs", "record", "ffi"}) emit(std::string("native ") + s);
  // one function and one userdata registered with two callback types
  { std::vector<std::string> L;
    for (auto &a : tup) if (a.size() <= 2) for (size_t p = 0; p <= a.size(); p++) L.push_back(a.substr(0, p) + "u" + a.substr(p));
    L.push_back("du"); L.push_back("ud");
    const char *R = "vib";
    for (size_t i = 0; i < L.size(); i++) for (size_t j = 0; j < L.size(); j++) for (int r = 0; r < 9; r++)
      if ((th || (i + j + r) % 3 == 0) && (i != j || r / 3 != r % 3)) emit(std::string("two ") + R[r / 3] + " " + L[i] + " " + R[r % 3] + " " + L[j]);
  }
  // registrations which are referenced by nothing but the engine's list of callbacks
  { int nud = 7; std::function<void(std::string, int)> regs = [&](std::string r, int n) {
      if (!r.empty()) {
        int k = r.size();
        std::function<void(std::string, int)> acts = [&](std::string a, int left) {
          if (!a.empty() && a.back() != 'G') emit("only " + r + " " + a);
          if (!left) return;
          if (a.empty() || a.back() != 'G') acts(a + "G", left - 1);
          for (int i = 0; i < k; i++) acts(a + char('0' + i), left - 1);
        };
        acts("", th ? 5 : k <= 2 ? 4 : 3);
      }
      if (n) for (int u = 0; u < nud; u++) regs(r + char('a' + u), n - 1);
    };
    regs("", 3); }
  // histories
  auto hist = [&](std::vector<std::string> regs, int depth) { Enum e{emit, depth, th, "", regs}; e.rec({}, "", depth); };
  hist({"fuA", "fuB", "fwA", "guA", "gwB"}, th ? 5 : 4);
  hist({"fuA", "guB"}, th ? 6 : 5);
  hist({"fuA", "huB"}, 4); if (th) hist({"fuA", "huB", "guB"}, 4);
  hist({"huA", "hwB"}, th ? 4 : 3); hist({"huA", "hwB", "f1A"}, th ? 4 : 3);
  hist({"euB", "fuB", "huA"}, th ? 4 : 3); hist({"euB", "fuA"}, th ? 5 : 4);
  if (th) hist({"fuA", "fuB", "f1A", "f1B", "fwA", "fwB", "guA", "guB", "gwA", "gwB"}, 4);
}

static void nat_log(struct mjs *m) {
  mjs_val_t n = mjs_arg(m, 0); size_t l; const char *p = mjs_get_string(m, &n, &l);
  VM->obs += std::string(p, l) + ":" + vm::dump(m, mjs_arg(m, 1)) + ":" + vm::dump(m, mjs_arg(m, 2)) + ";";
  mjs_return(m, mjs_mk_undefined());
}
static std::string rec_out;
static void nat_record(struct mjs *m) { rec_out += std::to_string(mjs_nargs(m)); for (int i = 0; i < mjs_nargs(m); i++) rec_out += " " + vm::dump(m, mjs_arg(m, i)); rec_out += ";"; mjs_return(m, mjs_mk_number(m, 42)); }

static uintptr_t call_cb(const std::string &params, uintptr_t cb, uintptr_t data, const std::vector<A> &a) {
  uintptr_t w[6] = {0x5555, 0x5556, 0x5557, 0x5558, 0x5559, 0x555a}; double d = 0; bool dbl = false; int nw = 0; size_t k = 0;
  for (char c : params) { if (c == 'u') w[nw++] = data; else if (c == 'd') { d = a[k++].d; dbl = true; } else w[nw++] = a[k++].w; }
  if (dbl) return ((wdfn) cb)(w[0], d);
  return ((w6) cb)(w[0], w[1], w[2], w[3], w[4], w[5]);
}

static void check(const std::string &text, mc::Ctx &c) {
  size_t sp = text.find(' '); std::string mode = text.substr(0, sp), rest = text.substr(sp + 1);
  vm::hook_reset(); vm::Vm v; VM = &v;
  mjs_set_ffi_resolver(v.m, ff::resolver); v.native("todo", nat_todo); v.native("fire", nat_fire); v.native("record", nat_record); v.native("log", nat_log);
  cap_fn = nullptr; cap_calls = 0; cap_rax = 0; vm::OBS = &v.obs; rec_out.clear();
  auto ex = [&](const std::string &s) { vm::Out o = v.exec(s); c.executions++; return o; };
  if (mode == "shape" || mode == "maybe" || mode == "native") {
    bool native = mode == "native";
    char ret = native ? 'i' : rest[0]; std::string params = native ? "iusbpm" : rest.substr(2);
    bool is_void = ret == 'v';
    vm::Out o = ex("let reg=ffi('int reg(" + cbsig(ret, params) + ", userdata)');let u={id:1};let rv=0;let f=function(a,b,c,d,e,g,h){obs(a,b,c,d,e,g,h);return rv;};");
    if (mode == "maybe" && o.err) { c.nontrivial = false; c.state(text); return; }
    if (o.err) mc::fail("import failed: " + o.msg);
    uintptr_t cb = 0, data = 0; int inner = 0;
    std::function<void()> fn = [&] { cb = cap_w[0]; data = cap_w[1]; };
    cap_fn = &fn; o = ex(native ? "reg(" + rest + ",u)" : "reg(f,u)"); cap_fn = nullptr;
    if (mode == "maybe" && o.err) { c.state(text); return; }
    if (native && rest == "ffi") { c.state(text); return; }
    if (o.str() != "=0" || cap_calls != 1) mc::fail("registration failed: " + o.str() + " " + o.msg);
    size_t total = 7;
    for (size_t j = 0; j < total + 2; j++) {
      std::vector<A> a; std::string want; size_t k = 0, pos = 0;
      for (char t : params) {
        std::string w;
        if (t == 'u') w = "{'id':1}"; else { auto vs = argvals(t); if (vs.empty()) return; a.push_back(vs[(j + 3 * k++) % vs.size()]); w = a.back().want; }
        want += (pos++ ? " " : "") + w;
      }
      std::string full = want; for (size_t q = params.size(); q < 7; q++) full += " undefined";
      const char **rv = ret == 'b' ? RVB[j % 2] : RVI[j % 5];
      if (!native) { o = ex(std::string("rv=") + rv[0]); if (o.err) mc::fail("rv"); }
      if (j == 3) junk(v.m);
      v.obs.clear(); rec_out.clear(); vm::OBS = &v.obs;
      uintptr_t got;
      if (j < total) got = call_cb(params, cb, data, a);
      else {                      // from inside of an imported function
        std::function<void()> f2 = [&] { got = call_cb(params, cb, data, a); inner++; };
        cap_rax = 77; cap_fn = &f2; o = ex("let x=reg(f,u);x"); cap_fn = nullptr;
        if (o.str() != "=77") mc::fail("the importing call gave " + o.str() + " " + o.msg);
        if (native) continue;
      }
      c.transitions++; c.executions++;
      if (mode == "maybe" && !is_void && ret != 'i' && ret != 'b') { if (v.obs != full + ";") mc::fail("called with " + v.obs + " instead of " + full); continue; }
      if (native && rest == "record") { if (rec_out != std::to_string(params.size()) + " " + want + ";") mc::fail("native called with " + rec_out + " instead of " + want); if ((int) got != 42) mc::fail("native returned " + std::to_string((int) got)); }
      else if (native) { if (v.obs != want + ";") mc::fail("native called with " + v.obs + " instead of " + want); }
      else {
        if (v.obs != full + ";") mc::fail("called with " + v.obs + " instead of " + full);
        if (ret == 'i' && std::to_string((int) got) != rv[1]) mc::fail("returned " + std::to_string((int) got) + " instead of " + rv[1]);
        if (ret == 'b' && (got & 0xff) != (uintptr_t) (rv[1][0] - '0')) mc::fail(std::string("returned ") + std::to_string(got) + " instead of " + rv[1]);
      }
      c.validated++;
    }
    if (!native) {
      o = ex("ffi_cb_free(f,u)"); if (o.str() != "=1") mc::fail("free gave " + o.str());
      o = ex("ffi_cb_free(f,u)"); if (o.str() != "=0") mc::fail("second free gave " + o.str());
    }
    c.state(text);
    return;
  }
  if (mode == "two") {
    std::vector<std::string> q; { std::stringstream ss(rest); std::string w; while (ss >> w) q.push_back(w); }
    char ret[2] = {q[0][0], q[2][0]}; std::string ps[2] = {q[1], q[3]};
    vm::Out o = ex("let regA=ffi('void regA(" + cbsig(ret[0], ps[0]) + ", userdata)');let regB=ffi('int regB(userdata, " + cbsig(ret[1], ps[1]) + ")');let u={id:1};let rv=0;let f=function(a,b,c){obs(a,b,c);return rv;};");
    if (o.err) mc::fail("import failed: " + o.msg);
    uintptr_t cb[2], data[2];
    std::function<void()> fn[2] = {[&] { cb[0] = cap_w[0]; data[0] = cap_w[1]; }, [&] { data[1] = cap_w[0]; cb[1] = cap_w[1]; }};
    for (int round = 0; round < 2; round++) {
      for (int k = 0; k < 2; k++) {
        cap_calls = 0; cap_fn = &fn[k]; cap_rax = 0; o = ex(k ? "regB(u,f)" : "regA(f,u)"); cap_fn = nullptr;
        if (o.err || cap_calls != 1) mc::fail("registration failed: " + o.str() + " " + o.msg);
      }
      for (int step = 0; step < 5; step++) {
        int k = (step >> 1) & 1; size_t j = step + 5 * round;
        std::vector<A> a; std::string want; size_t n = 0, pos = 0;
        for (char t : ps[k]) {
          std::string w;
          if (t == 'u') w = "{'id':1}"; else { auto vs = argvals(t); a.push_back(vs[(j + 3 * n++) % vs.size()]); w = a.back().want; }
          want += (pos++ ? " " : "") + w;
        }
        for (size_t x = ps[k].size(); x < 3; x++) want += " undefined";
        const char **rv = ret[k] == 'b' ? RVB[j % 2] : RVI[j % 5];
        o = ex(std::string("rv=") + rv[0]); if (o.err) mc::fail("rv");
        if (step == 2) junk(v.m);
        v.obs.clear(); vm::OBS = &v.obs;
        uintptr_t got = call_cb(ps[k], cb[k], data[k], a);
        c.transitions++;
        if (v.obs != want + ";") mc::fail(std::string("callback ") + char('A' + k) + " called with " + v.obs + " instead of " + want);
        if (ret[k] == 'i' && std::to_string((int) got) != rv[1]) mc::fail("returned " + std::to_string((int) got) + " instead of " + rv[1]);
        if (ret[k] == 'b' && (got & 0xff) != (uintptr_t) (rv[1][0] - '0')) mc::fail(std::string("returned ") + std::to_string(got) + " instead of " + rv[1]);
      }
      o = ex("ffi_cb_free(f,u)"); if (o.str() != "=1") mc::fail("free gave " + o.str());
      o = ex("ffi_cb_free(f,u)"); if (o.str() != "=0") mc::fail("second free gave " + o.str());
    }
    c.validated++; c.state(text);
    return;
  }
  if (mode == "outer") {
    char ret = rest[0]; std::string ps = rest.substr(2); std::string sig = std::string(ff::tname(ret)) + " reg(", call = "reg(";
    for (size_t i = 0; i < ps.size(); i++) {
      sig += std::string(i ? ", " : "") + (ps[i] == 'c' ? "int (*)(int, userdata)" : ps[i] == 'u' ? "userdata" : ff::tname(ps[i]));
      call += std::string(i ? "," : "") + (ps[i] == 'c' ? "f" : ps[i] == 'u' ? "u" : ps[i] == 's' ? "'string arg'" : std::to_string(50 + i));
    }
    std::string bad;
    std::function<void()> fn = [&] {
      int w = 0, x = 0; uintptr_t cb = 0, data = 0;
      for (size_t i = 0; i < ps.size(); i++) switch (ps[i]) {
        case 'c': cb = cap_w[w++]; break; case 'u': data = cap_w[w++]; break;
        case 's': if (strcmp((char *) cap_w[w++], "string arg")) bad = "string"; break;
        case 'd': if (cap_x[x++] != 50. + i) bad = "double"; break;
        default: if ((int) cap_w[w++] != 50 + (int) i) bad = "int"; break;
      }
      for (int k = 1; k <= 2; k++) { vm::OBS = &v.obs; if (((w6) cb)(k, data, 0, 0, 0, 0) != (uintptr_t) k + 1) bad = "callback"; }
    };
    vm::Out o = ex("let reg=ffi('" + sig + ")');let u={id:1};let f=function(x,y){obs(x,y===u);return x+1;};");
    if (o.err) mc::fail("import failed: " + o.msg);
    cap_rax = ret == 's' ? (uint64_t) "returned string" : ret == 'p' ? (uint64_t) membuf : 33; cap_xmm0 = 2.5;
    cap_fn = &fn; o = ex(call + ")"); cap_fn = nullptr;
    std::string want = ret == 'v' ? "undefined" : ret == 'i' ? "33" : ret == 'd' ? "2.5" : ret == 's' ? "'returned string'" : "ptr";
    if (o.err || cap_calls != 1 || !bad.empty() || o.val != want) mc::fail(o.str() + " " + o.msg + " calls " + std::to_string(cap_calls) + " wrong: " + bad);
    if (v.obs != "1 true;2 true;") mc::fail("seen " + v.obs);
    c.validated++; c.state(text); c.transitions++;
    return;
  }
  if (mode == "wrong" || mode == "freewrong") {
    vm::Out o = ex("let reg=ffi('int reg(void (*)(int, userdata), userdata)');let u={};let f=function(){};");
    if (o.err) mc::fail(o.msg);
    o = ex(mode == "wrong" ? "reg(" + rest + ",u)" : rest);
    if (!o.err || cap_calls) mc::fail("accepted: " + o.str());
    o = ex("ffi_cb_free(f,u)"); if (o.str() != "=0") mc::fail("free gave " + o.str());
    o = ex("reg(f,u)"); if (o.str() != "=0") mc::fail("a later call gave " + o.str() + o.msg);
    c.validated++; c.state(text); c.transitions++;
    return;
  }
  if (mode == "only") {
    static const char *UD[][2] = {{"{n:'userdata '+'object'}", "{'n':'userdata object'}"}, {"'userdata '+'string, long'", "'userdata string, long'"}, {"[1,'second '+'element',{k:[3]}]", "[1,'second element',{'k':[3]}]"},
      {"{a:{b:{c:'deeper '+'value'}}}", "{'a':{'b':{'c':'deeper value'}}}"}, {"12.5", "12.5"}, {"Object.create({p:1})", ""}, {"{f:function(){return 'from a '+'method';}}", ""}};
    vm::Out o = ex("let reg=ffi('void reg(int (*)(int, userdata), userdata)');let chk=function(a){if(a.f){return a.f();}if(a.p){return a.p;}return a;};");
    if (o.err) mc::fail(o.msg);
    size_t s2 = rest.find(' '); std::string regs = rest.substr(0, s2), acts = rest.substr(s2 + 1);
    std::vector<std::pair<uintptr_t, uintptr_t>> cbs;
    std::function<void()> fn = [&] { cbs.push_back({cap_w[0], cap_w[1]}); };
    for (size_t i = 0; i < regs.size(); i++) {
      cap_fn = &fn; o = ex(std::string("reg(function(x,u){log('") + char('A' + i) + "',x," + (regs[i] == 'f' || regs[i] == 'g' ? "chk(u)" : "u") + ");return x*2;}," + UD[regs[i] - 'a'][0] + ")"); cap_fn = nullptr;
      if (o.err) mc::fail(o.msg);
    }
    if (cbs.size() != regs.size()) mc::fail("not registered");
    int x = 5;
    for (char a : acts) {
      if (a == 'G') { junk(v.m); continue; }
      int k = a - '0'; x++; v.obs.clear(); vm::OBS = &v.obs;
      int got = (int) ((w6) cbs[k].first)(x, cbs[k].second, 0, 0, 0, 0);
      char u = regs[k]; std::string want = std::string(1, char('A' + k)) + ":" + std::to_string(x) + ":" + (u == 'f' ? "1" : u == 'g' ? "'from a method'" : UD[u - 'a'][1]) + ";";
      if (v.obs != want || got != 2 * x) mc::fail("callback " + std::to_string(k) + " was called as " + v.obs + " and returned " + std::to_string(got) + ", expected " + want);
      c.transitions++;
    }
    c.validated++; c.state(text);
    return;
  }
  if (mode == "hist") {
    M = Model(); errored = 0; expected.clear(); todo.clear(); regfn = [] {};
    auto fdef = [](const std::string &n, const std::string &body) {
      return "let " + n + "=function(a,b){let x=b;let d=a;if(typeof a==='number'&&a>=1000){x=a;d=b;}log('" + n + "',x,d);" + body + "};";
    };
    vm::Out o = ex("let regA=ffi('void regA(void (*)(int, userdata), userdata)');let regB=ffi('int regB(userdata, int (*)(userdata, int))');"
                   "let u={n:'userdata object'};let w='userdata string, '+'long';" +
                   fdef("f", "return x+100;") + fdef("g", "let t='local '+'string';return x+100;") + fdef("h", "todo();return x+100;") + fdef("e", "return 1-'a';"));
    if (o.err) mc::fail(o.msg);
    try { runops(rest, false); } catch (...) { cap_fn = nullptr; throw; }
    if (v.obs != expected) mc::fail("calls seen: " + v.obs + " expected: " + expected);
    // afterwards: every live registration still works, every freed one is gone
    for (size_t k = 0; k < M.slots.size(); k++) if (M.slots[k].alive) op("X" + std::to_string(k), false);
    if (v.obs != expected) mc::fail("calls seen at the end: " + v.obs + " expected: " + expected);
    for (auto f : {"f", "g", "h", "e"}) for (auto u : {"u", "w", "1"}) op(std::string("F") + f + u, false);
    c.transitions += ops(rest).size(); c.validated++; c.state(text);
    return;
  }
}

int main(int argc, char **argv) {
  mc::Driver d; d.id = "C12"; 
  d.rule = "a case is a callback signature called with value vectors, a placement of callback and userdata among the arguments of the importing function, or a history of registrations, calls (from scripts, from C, re-entrant), frees, collections and errors. Non-trivial: the signature is supported";
  d.enumerate = enumerate; d.check = check;
  d.assumptions = {"System V x86-64 calling convention", "C does not call a callback after it was freed"};
  scale::wrap(d, "C12");
  return mc::run(d, argc, argv);
}
