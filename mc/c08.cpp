// C08: JSON conversion is faithful
#include "scale.hpp"
#include "common.hpp"

// Strict JSON (RFC 8259, ASCII). The denoted value in the form of vm::dump().
struct Strict {
  const std::string &s; size_t i = 0; bool eof = false, odd = false; int depth = 0;
  explicit Strict(const std::string &t) : s(t) {}
  bool end() { if (i >= s.size()) { eof = true; return true; } return false; }
  void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++; }
  bool lit(const char *l) { for (; *l; l++, i++) { if (end()) return false; if (s[i] != *l) return false; } return true; }
  bool str(std::string *out) {
    i++;
    for (;;) {
      if (end()) return false;
      unsigned char c = s[i];
      if (c == '"') { i++; return true; }
      if (c < 32) return false;
      if (c > 126) odd = true;
      if (c != '\\') { *out += (char) c; i++; continue; }
      i++; if (end()) return false;
      static const char *e = "\"\\/bfnrt", *v = "\"\\/\b\f\n\r\t"; const char *p = strchr(e, s[i]);
      if (s[i] && p) { *out += v[p - e]; i++; continue; }
      if (s[i] != 'u') return false;
      i++; int n = 0;
      for (int k = 0; k < 4; k++) { if (end()) return false; if (!isxdigit((unsigned char) s[i])) return false; n = n * 16 + (isdigit((unsigned char) s[i]) ? s[i] - '0' : tolower(s[i]) - 'a' + 10); i++; }
      if (n > 126) odd = true;
      *out += (char) n;
    }
  }
  bool num(std::string *out) {
    size_t b = i; auto digits = [&] { size_t n = i; while (i < s.size() && isdigit((unsigned char) s[i])) i++; return i > n; };
    if (s[i] == '-') { i++; if (end()) return false; }
    if (s[i] == '0') i++; else if (!digits()) return false;
    if (i < s.size() && s[i] == '.') { i++; if (end()) return false; if (!digits()) return false; }
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (end()) return false; if (s[i] == '+' || s[i] == '-') { i++; if (end()) return false; } if (!digits()) return false; }
    *out = vm::num(strtod(s.substr(b, i - b).c_str(), 0)); return true;
  }
  bool value(std::string *out) {
    ws(); if (end()) return false;
    switch (s[i]) {
      case 'n': *out = "null"; return lit("null");
      case 't': *out = "true"; return lit("true");
      case 'f': *out = "false"; return lit("false");
      case '"': { std::string t; if (!str(&t)) return false; *out = vm::str(t); return true; }
      case '[': {
        i++; std::string r = "["; ws(); if (end()) return false;
        if (s[i] == ']') { i++; *out = "[]"; return true; }
        for (;;) { std::string e; if (!value(&e)) return false; r += e; ws(); if (end()) return false; if (s[i] == ']') { i++; *out = r + "]"; return true; } if (s[i] != ',') return false; i++; r += ","; }
      }
      case '{': {
        i++; std::map<std::string, std::string> m; ws(); if (end()) return false; bool first = true;
        if (s[i] != '}') for (;;) {
          (void) first; ws(); if (end()) return false; if (s[i] != '"') return false;
          std::string k, e; if (!str(&k)) return false; ws(); if (end()) return false; if (s[i] != ':') return false; i++;
          if (!value(&e)) return false; if (k == "__p") odd = true; if (m.count(k)) dup = true; m[k] = e; ws(); if (end()) return false; if (s[i] == '}') break; if (s[i] != ',') return false; i++;
        }
        i++; std::string r = "{"; for (auto &x : m) { if (r.size() > 1) r += ","; r += vm::str(x.first) + ":" + x.second; } *out = r + "}"; return true;
      }
      default: return num(out);
    }
  }
  bool dup = false;
  enum Kind { VALID, CUT, BAD };
  Kind whole(std::string *out) { bool r = value(out); if (r) { ws(); return i == s.size() ? VALID : BAD; } return eof ? CUT : BAD; }
};

static vm::Out parse_in(vm::Vm &v, const std::string &t, const char *how = "JSON.parse(T)") {
  mjs_set(v.m, mjs_get_global(v.m), "T", ~0, mjs_mk_string(v.m, t.data(), t.size(), 1));
  return v.exec(how);
}
static std::string cut(const std::string &s) { return s.size() > 300 ? s.substr(0, 200) + "..." + s.substr(s.size() - 60) : s; }

static void parse_one(vm::Vm &v, const std::string &t, mc::Ctx &c) {
  std::string want; Strict st(t); Strict::Kind k = st.whole(&want);
  vm::Out o = parse_in(v, t); c.executions++;
  if (k == Strict::CUT) { c.validated++; if (!o.err) mc::fail("JSON.parse of the truncated text " + cut(vm::str(t)) + " gives " + cut(o.val)); return; }
  if (k == Strict::BAD || st.odd) { c.count("texts_outside_the_grammar"); return; }
  c.validated++;
  if (o.str() != "=" + want) mc::fail("JSON.parse of " + cut(vm::str(t)) + " gives " + cut(o.str()) + " " + o.msg + " instead of " + cut(want));
  c.state(want);
  // and back
  o = v.exec("JSON.stringify(JSON.parse(T))"); c.executions++;
  if (o.err) mc::fail("JSON.stringify(JSON.parse(" + cut(vm::str(t)) + ")) fails: " + o.msg);
  o = v.exec("JSON.parse(JSON.stringify(JSON.parse(T)))");
  if (want.find("Inf") == std::string::npos && o.str() != "=" + want) mc::fail("stringified and parsed again, " + cut(vm::str(t)) + " becomes " + cut(o.str()));
}
// value given by a script expression; want: what it denotes ("" for anything finite)
static void stringify_one(vm::Vm &v, const std::string &expr, const std::string &want, mc::Ctx &c) {
  mjs_val_t r = mjs_mk_undefined(); vm::OBS = &v.obs;
  mjs_err_t e = mjs_exec(v.m, ("JSON.stringify(" + expr + ")").c_str(), &r); c.executions++;
  if (e) mc::fail("JSON.stringify(" + cut(expr) + ") fails: " + mjs_strerror(v.m, e));
  if (want == "skipped") return;
  if (!mjs_is_string(r)) mc::fail("JSON.stringify(" + cut(expr) + ") is not a string");
  size_t n; const char *p = mjs_get_string(v.m, &r, &n); vm::str(p, n); std::string t(p, n);
  c.validated++;
  if (want.empty()) { if (n > 100000) mc::fail("a text of " + std::to_string(n) + " bytes"); return; }
  std::string got; Strict st(t);
  if (st.whole(&got) != Strict::VALID) mc::fail("JSON.stringify(" + cut(expr) + ") is not JSON: " + cut(t));
  if (got != want) mc::fail("JSON.stringify(" + cut(expr) + ") = " + cut(t) + " denotes " + cut(got) + " instead of " + cut(want));
  if (strlen(p) != n) mc::fail("the text contains a NUL");
  c.state(want);
  mjs_own(v.m, &r); mjs_set(v.m, mjs_get_global(v.m), "T", ~0, r); mjs_disown(v.m, &r);
  vm::Out o = v.exec("JSON.parse(T)");
  if (o.str() != "=" + want) mc::fail("JSON.parse(JSON.stringify(" + cut(expr) + ")) gives " + cut(o.str()) + " instead of " + cut(want));
}

static std::string rep(const std::string &s, int n) { std::string r; while (n-- > 0) r += s; return r; }
static void check(const std::string &text, mc::Ctx &c) {
  vm::hook_reset(2000000);
  char k = text[0]; std::string a = text.size() > 2 ? text.substr(2) : "";
  vm::Vm v;
  if (k == 'P') { parse_one(v, a, c); }
  else if (k == 'C') {                 // a text, all its truncations, and an error in between
    parse_one(v, a, c);
    for (size_t n = 0; n < a.size(); n++) parse_one(v, a.substr(0, n), c);
    parse_one(v, a, c);
    vm::Out o = v.exec("JSON.stringify([1,{'a':'b'}])"); if (o.str() != "='[1,{\"a\":\"b\"}]'") mc::fail("afterwards: " + o.str());
  } else if (k == 'S') { size_t t = a.find("\t=> "); stringify_one(v, a.substr(0, t), a.substr(t + 4), c); }
  else if (k == 'N') {                 // a number, by its bits
    uint64_t b = strtoull(a.c_str(), 0, 16); double d; memcpy(&d, &b, 8);
    mjs_set(v.m, mjs_get_global(v.m), "x", ~0, mjs_mk_number(v.m, d));
    std::string w = std::isfinite(d) ? vm::num(d) : "null";
    stringify_one(v, "x", w, c); stringify_one(v, "[x]", "[" + w + "]", c); stringify_one(v, "{'k':x,'l':[x]}", "{'k':" + w + ",'l':[" + w + "]}", c);
    char t[60]; for (const char *f : {"%.17g", "%.20e", "%.0f"}) { if (!std::isfinite(d)) break; char big[400]; snprintf(big, sizeof big, f, d); (void) t; parse_one(v, big, c); parse_one(v, std::string("[") + big + "]", c); parse_one(v, std::string("{\"n\" : ") + big + " }", c); }
  } else if (k == 'B') {               // a string of arbitrary bytes below 0x7f, as value and as key
    std::string s; for (size_t i = 0; i + 1 < a.size(); i += 2) s += (char) strtol(a.substr(i, 2).c_str(), 0, 16);
    mjs_set(v.m, mjs_get_global(v.m), "x", ~0, mjs_mk_string(v.m, s.data(), s.size(), 1));
    v.exec("let o={}; o[x]=x; 0");
    stringify_one(v, "x", vm::str(s), c); stringify_one(v, "[x,x]", "[" + vm::str(s) + "," + vm::str(s) + "]", c); if (s != "__p") stringify_one(v, "o", "{" + vm::str(s) + ":" + vm::str(s) + "}", c);
  } else if (k == 'L') {               // large: L <kind> <n> <m>
    int kind, n, m; sscanf(a.c_str(), "%d %d %d", &kind, &n, &m); std::string t;
    static const char *esc[] = {"\\n", "\\\"", "\\\\", "\\u0001", "\\u0041", "\\/", "z"};
    switch (kind) {
      case 0: t = "\"" + rep("x", n) + esc[m] + "\""; parse_one(v, t, c); parse_one(v, "[" + t + "," + t + "]", c); parse_one(v, "{" + t + ":" + t + ",\"b\":" + t + "}", c); break;
      case 1: t = "[" + rep("1,", n) + "1]"; parse_one(v, t, c); break;
      case 2: t = rep("[", n) + rep("]", n); parse_one(v, t, c); parse_one(v, t.substr(0, 2 * n - 1), c); parse_one(v, rep("{\"k\":", n) + "1" + rep("}", n), c); parse_one(v, rep("[{\"k\":", n / 2) + "[]" + rep("}]", n / 2), c); break;
      case 3: { t = "{"; for (int i = 0; i <= n; i++) t += (i ? "," : "") + std::string("\"key") + std::to_string(i) + "\":" + std::to_string(i); t += "}"; parse_one(v, t, c); break; }
      case 4: { std::string s = rep("y", n) + std::string(1, "\n\"\\\x01z"[m % 5]) + "end"; mjs_set(v.m, mjs_get_global(v.m), "x", ~0, mjs_mk_string(v.m, s.data(), s.size(), 1)); v.exec("let o={k:x}; o[x]=[x,1,x]; 0"); stringify_one(v, "x", vm::str(s), c); std::string e1 = "'k':" + vm::str(s), e2 = vm::str(s) + ":[" + vm::str(s) + ",1," + vm::str(s) + "]"; stringify_one(v, "o", "{" + (s < "k" ? e2 + "," + e1 : e1 + "," + e2) + "}", c); break; }
      case 6: {                         // nested so deeply that it may be rejected, but not more than that
        std::string one = std::vector<std::string>{"[", "{\"k\":", "[{\"k\":", "[[1],", "{\"a\":{},\"k\":"}[m], two = std::vector<std::string>{"]", "}", "}]", "]", "}"}[m];
        for (auto &x : {rep(one, n), rep(one, n) + "1", rep(one, n) + "1" + rep(two, n - 1), rep(one, n) + "1" + rep(two, n), rep(one, n) + "1" + rep(two, n + 1), rep(one, n) + "nul", rep(one, n) + "\"", rep(two, n)}) {
          vm::Out o = parse_in(v, x, "let r=JSON.parse(T);typeof(r)"); c.executions++;
          if (!o.err && o.val != "'object'" && o.val != "'array'") mc::fail("a deep text gives " + o.str());
          if (!o.err && x.size() < one.size() * n + 1 + two.size() * n) mc::fail("an unbalanced deep text is accepted");
          v.exec("r=0;0"); mjs_gc(v.m, 1);
          parse_one(v, "[[1,[2,{\"k\":[3]}]]]", c);
        }
        c.state(a); break; }
      case 5: { v.exec("let a=[]; for(let i=0;i<" + std::to_string(n) + ";i++){ a=[a]; } 0"); stringify_one(v, "a", rep("[", n + 1) + rep("]", n + 1), c); v.exec("let b={}; for(let i=0;i<" + std::to_string(n) + ";i++){ b={n:b,i:i}; } 0"); std::string w = "{}"; for (int i = 0; i < n; i++) w = "{'i':" + std::to_string(i) + ",'n':" + w + "}"; stringify_one(v, "b", w, c); break; }
    }
  }
}

struct V { std::string js, json, dump; bool absent = false; };   // a value: script expression, JSON text, denotation
static std::vector<V> leaves() {
  return {{"1", "1", "1"}, {"-2.5", "-2.5", "-2.5"}, {"0", "0", "0"}, {"1e21", "1e21", "1e+21"}, {"true", "true", "true"}, {"false", "false", "false"}, {"null", "null", "null"}, {"''", "\"\"", "''"},
          {"'a'", "\"a\"", "'a'"}, {"'q\"\\\\/\\n'", "\"q\\\"\\\\\\/\\n\"", "'q\"\\x5c/\\x0a'"}, {"'a longer string'", "\"a longer string\"", "'a longer string'"}, {"[]", "[]", "[]"}, {"{}", "{}", "{}"}};
}
static std::vector<V> odd() { return {{"undefined", "", "", true}, {"function(x){return x;}", "", "", true}, {"0/0", "", "null"}, {"1/0", "", "null"}}; }
static const char *KEYS[] = {"k", "a long key", "", "q\\\"k", "0", "length"};
static const char *KDUMP[] = {"'k'", "'a long key'", "''", "'q\"k'", "'0'", "'length'"};
static V arr(const std::vector<V> &e) { V r; std::string j, t, d; bool f = true; for (auto &x : e) { if (!f) { j += ","; t += ","; d += ","; } f = false; j += x.js; t += x.json; d += x.absent ? "null" : x.dump; } return {"[" + j + "]", "[" + t + "]", "[" + d + "]"}; }
static V obj(const std::vector<V> &e, int rot) {
  std::string j, t; std::map<std::string, std::string> m; bool f = true; int i = rot;
  for (auto &x : e) { if (!f) { j += ","; t += ","; } f = false; j += std::string("'") + KEYS[i % 6] + "':" + x.js; t += std::string("\"") + KEYS[i % 6] + "\":" + x.json; if (!x.absent) m[KDUMP[i % 6]] = x.dump; i++; }
  std::vector<std::pair<std::string, std::string>> s; for (auto &x : m) { std::string raw; for (size_t q = 1; q + 1 < x.first.size(); q++) raw += x.first[q]; s.push_back({raw, x.first + ":" + x.second}); }
  std::sort(s.begin(), s.end()); std::string d; for (auto &x : s) d += (d.empty() ? "" : ",") + x.second;
  return {"{" + j + "}", "{" + t + "}", "{" + d + "}"};
}
static void enumerate(bool th, const Emit &emit) {
  // values
  auto both = [&](const V &v, bool text = true) { emit("S " + v.js + "\t=> " + v.dump); if (text) { emit("C " + v.json); std::string w; bool q = false; for (size_t i = 0; i < v.json.size(); i++) { char ch = v.json[i]; if (ch == '"' && (i == 0 || v.json[i - 1] != '\\')) q = !q; if (!q && strchr("[]{},:", ch)) w += std::string(" \n") + ch + "\t\r "; else w += ch; } emit("C " + w); } };
  std::vector<V> L = leaves(), O = odd(), A = L, T; for (auto &x : O) A.push_back(x);
  for (auto &x : L) both(x);
  for (auto &x : O) emit("S " + x.js + "\t=> " + (x.absent ? "skipped" : x.dump));
  auto add = [&](const V &v) { T.push_back(v); };
  for (auto &x : L) { both(arr({x})); for (int r = 0; r < 6; r++) both(obj({x}, r)); add(arr({x})); add(obj({x}, 0)); }
  for (auto &x : A) for (auto &y : A) { bool t = !x.json.empty() && !y.json.empty(); both(arr({x, y}), t); both(obj({x, y}, 0), t); both(obj({x, y}, 4), t); }
  for (auto &x : A) for (auto &y : A) for (auto &z : A) { bool t = !x.json.empty() && !y.json.empty() && !z.json.empty(); if (!th && t && (x.js.size() + 2 * y.js.size() + 3 * z.js.size()) % 4) t = false; both(arr({x, y, z}), t); both(obj({x, y, z}, 1), t); }
  // two levels of nesting
  std::vector<V> S = {L[0], L[8], L[11], L[12], L[6]}, U; for (auto &x : O) S.push_back(x);
  for (auto &x : S) { U.push_back(arr({x})); U.push_back(obj({x}, 0)); for (auto &y : S) { U.push_back(arr({x, y})); U.push_back(obj({x, y}, 2)); } }
  auto ok = [](const V &v) { return v.js.find("undefined") == std::string::npos && v.js.find("function") == std::string::npos && v.js.find("/0") == std::string::npos; };
  for (auto &x : U) { both(arr({x}), ok(x)); both(obj({x}, 3), ok(x)); for (auto &y : S) { bool t = ok(x) && ok(y); both(arr({x, y}), t); both(arr({y, x}), t); both(obj({x, y}, 0), t); both(obj({y, x}, 3), t); } }
  if (th) for (auto &x : U) for (auto &y : U) { bool t = ok(x) && ok(y) && (x.js.size() + y.js.size()) % 3 == 0; both(arr({x, y}), t); both(obj({x, y}, 0), t); both(arr({obj({x}, 1), y}), t); both(obj({y, arr({x})}, 2), t); }
  // shared, not cyclic; and cyclic
  for (const char *e : {"(function(){let s=[1];return [s,s,{k:s}];})()\t=> [[1],[1],{'k':[1]}]", "(function(){let s={a:[]};return {x:s,y:s,z:[s,s]};})()\t=> {'x':{'a':[]},'y':{'a':[]},'z':[{'a':[]},{'a':[]}]}",
                        "(function(){let s={};s.s=s;return s;})()\t=> ", "(function(){let s=[];s.push(s);return s;})()\t=> ", "(function(){let s=[];let t={s:s};s.push(t,t);return [s,t];})()\t=> ", "(function(){let a={};let b={a:a};let c=[b];a.c=c;return {a:a,b:b,c:c};})()\t=> ",
                        "(function(){let a=[];a[3]=1;return a;})()\t=> [null,null,null,1]", "(function(){let a=[1,2,3];a.splice(1,1);return {a:a};})()\t=> {'a':[1,3]}"}) emit(std::string("S ") + e);
  // all token sequences
  Strs tk = {"[", "]", "{", "}", ",", ":", "\"a\"", "\"\"", "1", "null", " ", "-", "tr"};
  std::function<void(const std::string &, int)> seq = [&](const std::string &s, int d) { emit("P " + s); if (d) for (auto &t : tk) seq(s + t, d - 1); };
  seq("", th ? 6 : 5);
  // all sequences of string pieces, as value and as key
  Strs pc = {"a", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u0000", "\\u001f", "\\u007E", "'", " ", "\\u002", "\\x", "u", "0041"};
  std::function<void(const std::string &, int)> ps = [&](const std::string &s, int d) { emit("P \"" + s + "\""); emit("P {\"" + s + "\":[\"" + s + "\"]}"); if (d) for (auto &t : pc) ps(s + t, d - 1); };
  ps("", th ? 4 : 3);
  for (int ch = 1; ch < 127; ch++) { emit(std::string("P \"x") + (char) ch + "y\""); emit(std::string("P \"\\") + (char) ch + "\""); emit(std::string("P ") + (char) ch); emit(std::string("P [1") + (char) ch + "]"); emit(std::string("P [1,") + (char) ch + "2]"); }
  for (auto &s : {"\\u0020", "\\u0009", "\\u007e", "\\u005C", "\\u005c", "\\u0022"}) emit(std::string("C [\"") + s + "\"]");
  // numbers
  for (const char *sg : {"", "-"}) for (const char *in : {"0", "1", "9", "10", "123", "2147483648", "9007199254740993", "18446744073709551616", "123456789012345678901234567890"}) for (const char *fr : {"", ".0", ".5", ".125", ".1", ".123456789012345678", ".00000000000000000001"}) for (const char *ex : {"", "e0", "E5", "e+2", "e-3", "e22", "e308", "e-320", "E-400", "e999"}) {
    std::string n = std::string(sg) + in + fr + ex; emit("C " + n); emit("P [" + n + "," + n + "]"); emit("P {\"a\":" + n + "}");
  }
  auto bits = [&](double d) { uint64_t b; memcpy(&b, &d, 8); char s[24]; snprintf(s, sizeof s, "%llx", (unsigned long long) b); emit(std::string("N ") + s); };
  for (double m : {1.0, 1.5, 1.1, 1.9999999999999998, 1.0000000000000002}) for (int e = -1074; e < 1024; e += th ? 1 : 7) { bits(std::ldexp(m, e)); bits(-std::ldexp(m, e)); }
  for (int e = -30; e <= 30; e++) for (int m = 1; m < 100; m += 7) { bits(m * std::pow(10, e)); bits(-m * std::pow(10, e)); }
  for (int k = 0; k < 64; k++) for (int d = -2; d <= 2; d++) bits(std::ldexp(1, k) + d);
  bits(NAN); bits(INFINITY); bits(-INFINITY); bits(-0.0);
  // strings by bytes
  auto hx = [](int b) { char t[4]; snprintf(t, sizeof t, "%02x", b); return std::string(t); };
  std::vector<int> sp = {0, 1, 8, 9, 10, 11, 12, 13, 27, 31, 32, '"', '\'', '/', '\\', 'a', 'u', '0', '{', ','};
  for (int b = 0; b < 127; b++) { emit("B " + hx(b)); for (int b2 : sp) { emit("B " + hx(b) + hx(b2)); emit("B " + hx(b2) + hx(b)); } }
  for (int x : sp) for (int y : sp) for (int z : sp) { emit("B " + hx(x) + hx(y) + hx(z)); if (th) for (int w : sp) emit("B " + hx(x) + hx(y) + hx(z) + hx(w)); }
  // sizes
  for (int n = 0; n < (th ? 1100 : 540); n++) { if (!th && n > 140 && n % 16 > 1 && n % 16 < 14) continue; for (int m = 0; m < 7; m++) emit("L 0 " + std::to_string(n) + " " + std::to_string(m)); for (int m = 0; m < 5; m++) emit("L 4 " + std::to_string(n) + " " + std::to_string(m)); }
  for (int n : {400, 998, 999, 1000, 1001, 2000, 10000, 65535, 65536, 300000}) for (int m = 0; m < 5; m++) if (n < 300000 || th || m == 0) emit("L 6 " + std::to_string(n) + " " + std::to_string(m));
  for (int n = 0; n < 200; n++) { emit("L 1 " + std::to_string(n) + " 0"); emit("L 2 " + std::to_string(n) + " 0"); if (n % 8 == 1 || n < 20) { emit("L 3 " + std::to_string(n) + " 0"); emit("L 5 " + std::to_string(n) + " 0"); } }
}
int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C08"; d.rule = "a case is a JSON text with all its truncations, a sequence of JSON tokens or string pieces, a value tree, a number, a byte string or a size; texts outside the JSON grammar are only run for safety";
  d.enumerate = enumerate; d.check = check; d.case_timeout = 60;
  d.assumptions = {"texts and strings of bytes below 0x7f; property names other than __p", "duplicate keys: the last one counts"};
  scale::wrap(d, "C08");
  return mc::run(d, argc, argv);
}
