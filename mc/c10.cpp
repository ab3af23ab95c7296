// C10: errors are attributed to the right source line
#include "scale.hpp"
#include "capi.hpp"
#include "nat.hpp"
#include <sstream>
#include <functional>

// A case is a compact description; the program and its trace are built from it:
//   fail:<n> wraps:<letters> pad:<where><kind><n> ...
struct Out { std::string text; int line = 1; std::string file;
  void add(const std::string &s) { text += s; for (char c : s) line += c == '\n'; }
};
struct FailStmt { const char *src; int err; int at; bool fn; };   // at: line within the statement; fn: only inside of functions
static const std::vector<FailStmt> FAILS = {
  {"undefinedVar;", 2, 0, false}, {"null.x;", 3, 0, false}, {"let zz = 5 + 'a';", 3, 0, false}, {"five();", 3, 0, false}, {"boom();", 3, 0, false},
  {"die('x');", 3, 0, false}, {"five == 5;", 6, 0, false}, {"JSON.parse('{');", 3, 0, false}, {"[1].splice('x');", -1, 0, false}, {"return undefinedVar;", 2, 0, true},
  {"if (undefinedVar) { five; }", 2, 0, false}, {"while (undefinedVar) { five; }", 2, 0, false}, {"for (let q in 5) { five; }", 3, 0, false}, {"five.x = 1;", 3, 0, false}, {"let zz = [1, {k: undefinedVar}];", 2, 0, false},
  {"if (five)\n undefinedVar;", 2, 1, false}, {"let zz = {\n a: 1,\n b: undefinedVar\n};", 2, 2, false}, {"obs(1,\n 2,\n undefinedVar);", 2, 2, false}, {"if (five) {\n five;\n undefinedVar;\n}", 2, 2, false},
  {"if (!five) {\n five;\n} else {\n\n undefinedVar;\n}", 2, 4, false}, {"five;five;\nfive; undefinedVar; five;\nfive;", 2, 1, false}, {"let zz = [\n 1,\n 2,\n\n undefinedVar,\n 5];", 2, 4, false},
  {"let zz = five ?\n undefinedVar :\n 3;", 2, 1, false}, {"let zz = five &&\n\n undefinedVar;", 2, 2, false}, {"let zz = 'a long string' +\n undefinedVar;", 2, 1, false}, {"{\n {\n  undefinedVar; } }", 2, 2, false},
  {"for (let q = 0; q < 1; q++) {\n five;\n boom();\n}", 3, 2, false}, {"five; /* comment\n comment */ undefinedVar;", 2, 1, false}, {"five; // comment\nundefinedVar; // comment", 2, 1, false}, {"let zz = function() {\n return 1;\n};\nzz(); undefinedVar;", 2, 3, false},
  {"let zz = function() {\n five;\n undefinedVar;\n};\n zz = 0; undefinedVar;", 2, 4, false}, {"null\n.x;", 3, -1, false}, {"evalc('1;\\n\\n@');", 1, 0, false},
};
// wrappers; each has a place before and after the inner statement
//   f: function called   m: method   p: apply   c: callf   e: each (second element)   b: block   i: if   l: else   w: while   o: for   k: for-in   n: nested loops with break/continue before
static const std::string WRAPS = "fmpcebilwoknx";
struct Case { int fail = 0; std::string wraps; std::vector<std::pair<int, std::string>> pads; bool crlf = false; };
// padding places: 0 top of file, 1 just before the failing statement, 2 just after it, 10+k before the inner part of wrapper k, 30+k after it, 50+k between a function and its call
static std::string padtext(const std::string &k) {
  int n = atoi(k.c_str() + 1); std::string r;
  switch (k[0]) {
    case 'b': return std::string(n, '\n');                                            // blank lines
    case 'c': for (int i = 0; i < n; i++) r += "// comment " + std::to_string(i) + "\n"; return r;
    case 'm': r = "/*"; for (int i = 0; i < n; i++) r += " *\n"; return r + "*/";
    case 's': for (int i = 0; i < n; i++) r += "five + " + std::to_string(i) + ";\n"; return r;   // statements on lines
    case 'o': for (int i = 0; i < n; i++) r += "1;"; return r + "\n";                  // code on one line
    case 't': return "'" + std::string(n, 'x') + "';\n";                               // a long string
    case 'f': for (int i = 0; i < n; i++) r += "(function(a) {\n let x = a;\n return x; })(" + std::to_string(i) + ");\n"; return r;
    case 'l': for (int i = 0; i < n; i++) r += "for (let v = 0; v < 1; v++) {\n if (v) {\n  five; } }\n"; return r;
    case 'w': return std::string(n, ' ');
  }
  return r;
}
struct Gen {
  const Case &c; Out o; std::vector<int> trace;
  void pad(int place) { for (auto &p : c.pads) if (p.first == place) o.add(padtext(p.second)); }
  void inner(size_t k) {
    if (k == c.wraps.size()) {
      pad(1);
      const FailStmt &f = FAILS[c.fail]; int l = o.line; o.add(std::string(f.src) + "\n"); trace.push_back(f.at < 0 ? -l : l + f.at);
      pad(2); return;
    }
    std::string n = std::to_string(k), call, head; char w = c.wraps[k];
    auto body = [&] { pad(10 + k); inner(k + 1); pad(30 + k); };
    switch (w) {
      case 'f': head = "let f" + n + " = function(a) {\n"; call = "f" + n + "(1);\n"; break;
      case 'm': head = "let o" + n + " = {a: 1, m: function(a) {\n"; call = "o" + n + ".m(1);\n"; break;
      case 'p': head = "let f" + n + " = function(a) {\n"; call = "f" + n + ".apply(1, [2]);\n"; break;
      case 'c': head = "let f" + n + " = function(a) {\n"; call = "callf(f" + n + ", 1);\n"; break;
      case 'e': head = "let f" + n + " = function(a) {\n if (a === 1) {\n  return 0; }\n"; call = "each([1, 2, 3], f" + n + ");\n"; break;
      case 'b': o.add("{\n"); body(); o.add("}\n"); return;
      case 'i': o.add("if (five) {\n"); body(); o.add("} else {\n five;\n}\n"); return;
      case 'l': o.add("if (!five) {\n five;\n} else {\n"); body(); o.add("}\n"); return;
      case 'w': o.add("let w" + n + " = 0;\nwhile (w" + n + " < 3) {\n w" + n + "++;\n if (w" + n + " < 2) { continue; }\n"); body(); o.add("}\n"); return;
      case 'o': o.add("for (let i" + n + " = 0; i" + n + " < 3; i" + n + "++) {\n if (i" + n + " === 0) {\n continue; }\n"); body(); o.add("}\n"); return;
      case 'k': o.add("for (let k" + n + " in {a: 1, b: 2}) {\n"); body(); o.add("}\n"); return;
      case 'n': o.add("for (let i" + n + " = 0; i" + n + " < 3; i" + n + "++) {\n break;\n}\nwhile (five) {\n break; }\n"); body(); return;
      case 'x': o.add("let x" + n + " = [1, function() {\n"); body(); o.add("}, 2];\n"); { int l = o.line; o.add("x" + n + "[1]();\n"); trace.push_back(l); } return;
    }
    o.add(head); body(); o.add(w == 'm' ? "}};\n" : "};\n"); pad(50 + k);
    trace.push_back(o.line); o.add(call);
  }
};
static Case parse(const std::string &t) {
  Case c; int f = 0, n = 0; char w[64] = ""; sscanf(t.c_str(), "fail %d wraps %63s%n", &f, w, &n); c.fail = f; c.wraps = strcmp(w, "-") ? w : "";
  size_t i = n;
  while (i < t.size()) { int place; char k[32]; int used; if (t.compare(i, 5, " crlf") == 0) { c.crlf = true; i += 5; continue; } if (sscanf(t.c_str() + i, " %d:%31s%n", &place, k, &used) != 2) break; c.pads.push_back({place, k}); i += used; }
  return c;
}
static std::string trace_of(struct mjs *m) {
  char *mem = NULL; size_t ms = 0; FILE *f = open_memstream(&mem, &ms); mjs_print_error(m, f, "E", 1); fclose(f);
  std::string r(mem, ms); free(mem); return r;
}
static void prep(vm::Vm &v) { capi::prep(v); nat::prep(v); mjs_set(v.m, mjs_get_global(v.m), "five", ~0, mjs_mk_number(v.m, 5)); }

static void runtime(const std::string &text, mc::Ctx &c) {
  Case k = parse(text); Gen g{k, {}, {}};
  g.pad(0); g.inner(0);
  std::string src = g.o.text; if (k.crlf) src = subst(src, "\n", "\r\n");
  vm::hook_reset(); vm::Vm v; prep(v);
  vm::H.n = 0;
  mjs_val_t r; mjs_err_t e = mjs_exec(v.m, src.c_str(), &r); c.executions++; c.transitions += vm::H.n;
  auto bad = [&](const std::string &m) { mc::fail(m + "\n  program:\n" + (src.size() > 1500 ? src.substr(0, 700) + "\n ....\n" + src.substr(src.size() - 700) : src)); };
  if (!e) bad("no error");
  if (FAILS[k.fail].err > 0 && e != FAILS[k.fail].err) bad("error " + std::to_string(e) + " " + mjs_strerror(v.m, e));
  std::string got = trace_of(v.m), want; bool either = false; std::string want2;
  for (int l : g.trace) { if (l < 0) { either = true; want2 = "  at <stdin>:" + std::to_string(-l + 1) + "\n"; want = "  at <stdin>:" + std::to_string(-l) + "\n"; } else { want += "  at <stdin>:" + std::to_string(l) + "\n"; want2 += "  at <stdin>:" + std::to_string(l) + "\n"; } }
  std::string tr = got.substr(0, got.find("E: ") == std::string::npos ? got.size() : got.find("E: "));
  if (tr != want && !(either && tr == want2)) bad("trace\n" + tr + "  instead of\n" + want);
  c.validated++; c.state(want);
  // the instance is still usable, and a later error has a trace of its own
  e = mjs_exec(v.m, "five;\n\nundefinedVar", &r); got = trace_of(v.m);
  if (got.compare(0, 17, "  at <stdin>:3\nE:") ) bad("the next error has the trace " + got);
  e = mjs_exec(v.m, "five;\n@", &r); got = trace_of(v.m);
  if (got.compare(0, 3, "E: ") || got.find("line 2") == std::string::npos) bad("a syntax error afterwards is reported as " + got);
  vm::Out o = v.exec("five"); if (o.str() != "=5") bad("afterwards: " + o.str());
}

// syntax errors: a token which is never legal at every place of a program
static std::vector<std::string> tokens(const std::string &p) {
  std::vector<std::string> tok;
  for (size_t j = 0; j < p.size();) { size_t s = j; if (isalnum((unsigned char) p[j])) while (j < p.size() && isalnum((unsigned char) p[j])) j++; else if (p[j] == '\'') { j++; while (j < p.size() && p[j] != '\'') j += p[j] == '\\' ? 2 : 1; j++; } else if (strchr("+-*/=<>!&|^%", p[j])) while (j < p.size() && strchr("+-*/=<>!&|^%", p[j])) j++; else j++; tok.push_back(p.substr(s, j - s)); }
  return tok;
}
static void syntax(const std::string &text, mc::Ctx &c) {
  // syntax <bad token> <position> <pad>\n<program>
  size_t nl = text.find('\n'); char b[16], pd[16]; int pos; sscanf(text.c_str(), "syntax %15s %d %15s", b, &pos, pd);
  std::string prog = text.substr(nl + 1), src = padtext(pd); int line = 1 + std::count(src.begin(), src.end(), '\n');
  auto tk = tokens(prog); int want = 0;
  for (int i = 0; i <= (int) tk.size(); i++) {
    if (i == pos) { want = line; src += std::string(" ") + b + " "; }
    if (i < (int) tk.size()) { src += tk[i] + (i % 3 == 2 || tk[i] == ";" || tk[i] == "{" ? "\n" : ""); if (src.back() == '\n') line++; }
  }
  vm::hook_reset(); vm::Vm v; prep(v);
  vm::Out o = v.exec(src); c.executions++;
  std::string w = "parse error at line " + std::to_string(want) + ":";
  if (o.err != MJS_SYNTAX_ERROR || o.msg.compare(0, w.size(), w)) mc::fail("reported " + o.str() + " '" + o.msg + "' instead of line " + std::to_string(want) + "\n  program:\n" + src);
  c.validated++; c.state(o.msg.substr(0, 40));
}

// several files
static void files(const std::string &text, mc::Ctx &c) {
  int pa, pb, pm, kind; sscanf(text.c_str(), "files %d %d %d %d", &pa, &pb, &pm, &kind);
  std::string dir = std::string(getenv("MC_TMP") ? getenv("MC_TMP") : "/tmp") + "/c10." + std::to_string(getpid());
  mkdir(dir.c_str(), 0755);
  std::string A = dir + "/a.js", B = dir + "/b.js", want; Out a, b, m;
  a.add(std::string(pa, '\n') + "let fa = function(x) {\n if (x) {\n"); int la = a.line; a.add("  undefinedVar;\n }\n};\nlet ga = function(h) {\n"); int la2 = a.line; a.add(" return h(1);\n};\n");
  b.add(padtext("s" + std::to_string(pb)) + "load('" + A + "');\n let fb = function() {\n"); int lb = b.line; b.add("  return ga(fa);\n};\n");
  int lb0 = b.line; if (kind == 1) b.add("fa(2);\n"); if (kind == 2) b.add("five.x.y;\n");
  if (kind == 4) { lb0 = b.line; b.add("five +@;\n"); }
  m.add(padtext("s" + std::to_string(pm))); int lm = m.line; m.add("load('" + B + "');\n"); int lm2 = m.line; m.add("fb();\n");
  mc::spit(A, a.text); mc::spit(B, b.text);
  std::string S = "  at <stdin>:";
  auto at = [](const std::string &f, int l) { return "  at " + f + ":" + std::to_string(l) + "\n"; };
  switch (kind) {
    case 0: want = at(A, la) + at(A, la2) + at(B, lb) + at("<stdin>", lm2); break;
    case 1: want = at(A, la) + at(B, lb0) + at("<stdin>", lm); break;
    case 2: want = at(B, lb0) + at("<stdin>", lm); break;
    case 3: want = at(A, la) + at(A, la2) + at(B, lb) + at("<stdin>", 4); break;
    case 4: want = at("<stdin>", lm); break;
  }
  vm::hook_reset(); vm::Vm v; prep(v); mjs_val_t r; mjs_err_t e;
  if (kind == 3) { e = mjs_exec_file(v.m, B.c_str(), &r); if (!e) e = mjs_exec(v.m, "five;\n\n\nfb()", &r); }
  else e = mjs_exec(v.m, m.text.c_str(), &r);
  c.executions++;
  std::string got = trace_of(v.m), tr = got.substr(0, got.find("E: "));
  unlink(A.c_str()); unlink(B.c_str()); rmdir(dir.c_str());
  if (!e) mc::fail("no error");
  if (tr != want) mc::fail("trace\n" + tr + "  instead of\n" + want + "  " + got);
  if (kind == 4 && got.find("line " + std::to_string(lb0)) == std::string::npos) mc::fail("message " + got + " does not name line " + std::to_string(lb0));
  c.validated++; c.state(want.substr(0, 10) + std::to_string(kind));
}

// histories of failing calls of the API: what is reported for one doesn't depend on the others
struct Fail { const char *name; int err; const char *report; };
static const Fail HIST[] = {
  {"x five;\n\nundefinedVar", 2, "  at <stdin>:3\nE: [undefinedVar] is not defined\n"},
  {"x let h = function() {\n undefinedVar;\n};\nh()", 2, "  at <stdin>:2\n  at <stdin>:4\nE: [undefinedVar] is not defined\n"},
  {"x five;\n@", 1, NULL},
  {"x callf(function(a) {\n\n null.q; }, 1)", 3, NULL},
  {"x die('because')", 3, NULL},
  {"x boom()", 3, NULL},
  {"x JSON.parse('{')", 3, NULL},
  {"x five", 0, NULL},
  {"x load('/nonexistent/b')", 0, NULL},
  {"x eachf", 2, NULL},
  {"f", 7, NULL},             // a file which doesn't exist
  {"g", 1, NULL},             // a file with a syntax error
  {"h", 2, NULL},             // a file which fails
  {"a", 0, NULL},             // mjs_apply of something which isn't callable
  {"b", 2, NULL},             // mjs_apply of a script function which fails
  {"c", 3, NULL},             // mjs_apply of a native function which fails
  {"d", 0, NULL},             // mjs_apply of a function which doesn't fail
  {"s", 0, NULL},             // mjs_set_errorf
};
static std::string act(vm::Vm &v, int k, const std::string &dir, int &e) {
  mjs_val_t r = mjs_mk_undefined(), f; std::string n = HIST[k].name; mjs_val_t g = mjs_get_global(v.m);
  switch (n[0]) {
    case 'x': e = mjs_exec(v.m, n.c_str() + 2, &r); break;
    case 'f': e = mjs_exec_file(v.m, (dir + "/none.js").c_str(), &r); break;
    case 'g': e = mjs_exec_file(v.m, (dir + "/g.js").c_str(), &r); break;
    case 'h': e = mjs_exec_file(v.m, (dir + "/h.js").c_str(), &r); break;
    case 'a': e = mjs_apply(v.m, &r, mjs_mk_number(v.m, 5), mjs_mk_undefined(), 0, NULL); break;
    case 'b': f = mjs_get(v.m, g, "failing", ~0); e = mjs_apply(v.m, &r, f, mjs_mk_undefined(), 0, NULL); break;
    case 'c': f = mjs_get(v.m, g, "boom", ~0); e = mjs_apply(v.m, &r, f, mjs_mk_undefined(), 0, NULL); break;
    case 'd': f = mjs_get(v.m, g, "fine", ~0); e = mjs_apply(v.m, &r, f, mjs_mk_undefined(), 0, NULL); break;
    case 's': e = mjs_set_errorf(v.m, MJS_TYPE_ERROR, "set by %s", "hand"); mjs_set_errorf(v.m, MJS_OK, NULL); e = 0; break;
  }
  if (!e) return "ok " + (HIST[k].name[0] == 'x' || HIST[k].name[0] == 'd' ? vm::dump(v.m, r) : std::string());
  return std::to_string(e) + " " + mjs_strerror(v.m, (mjs_err_t) e) + "\n" + trace_of(v.m);
}
static void history(const std::string &text, mc::Ctx &c) {
  std::string dir = std::string(getenv("MC_TMP") ? getenv("MC_TMP") : "/tmp") + "/c10h." + std::to_string(getpid());
  mkdir(dir.c_str(), 0755); mc::spit(dir + "/g.js", "five;\n\n@"); mc::spit(dir + "/h.js", "five;\nlet q = function() {\nundefinedVar; };\n\nq();\n");
  auto fresh = [&](vm::Vm &v) { prep(v); mjs_val_t r; mjs_exec(v.m, "let fine = function() { return 12; };\nlet failing = function() {\n five;\n return undefinedVar; };", &r); };
  std::vector<int> seq; std::istringstream is(text.substr(8)); for (int k; is >> k;) seq.push_back(k);
  static std::map<int, std::string> alone; std::string bad;
  { vm::hook_reset(); vm::Vm v; fresh(v); std::string did;
    for (int k : seq) {
      if (!alone.count(k)) { vm::Vm w; fresh(w); int e; alone[k] = act(w, k, dir, e); if (HIST[k].err && e != HIST[k].err) bad = std::string("error ") + alone[k]; if (HIST[k].report && alone[k].find(HIST[k].report) == std::string::npos) bad = "reported " + alone[k]; }
      int e; std::string got = act(v, k, dir, e); c.executions++;
      did += std::string(" ") + HIST[k].name + ";";
      if (got != alone[k]) { bad = "after" + did + " the report is\n" + got + "instead of\n" + alone[k]; break; }
    } }
  unlink((dir + "/g.js").c_str()); unlink((dir + "/h.js").c_str()); rmdir(dir.c_str());
  for (const char *s : {"/g.jsc", "/h.jsc"}) unlink((dir + s).c_str());
  rmdir(dir.c_str());
  if (!bad.empty()) mc::fail(bad);
  c.validated++; c.state(text);
}

static void enumerate(bool th, const Emit &emit) {
  auto one = [&](int f, const std::string &w, const std::string &pads) {
    if (FAILS[f].fn) { bool fn = false; for (char ch : w) if (strchr("fmpcex", ch)) fn = true; if (!fn) return; }
    emit("fail " + std::to_string(f) + " wraps " + (w.empty() ? "-" : w) + pads);
  };
  Strs ws = {""}; for (char a : WRAPS) ws.push_back(std::string(1, a));
  Strs w2; for (char a : WRAPS) for (char b : WRAPS) w2.push_back(std::string(1, a) + b);
  Strs kinds = {"b1", "b3", "c1", "c2", "m1", "m3", "s1", "s2", "o40", "f1", "l1", "l2", "w5"};
  for (int f = 0; f < (int) FAILS.size(); f++) {
    for (auto &w : ws) {
      one(f, w, ""); one(f, w, " crlf");
      for (int place : {0, 1, 2, 10, 30, 50}) for (auto &k : kinds) { if (place >= 10 && w.empty()) continue; one(f, w, " " + std::to_string(place) + ":" + k); }
      for (auto &k : kinds) for (auto &k2 : kinds) if (th || (k[0] != k2[0] && f % 4 == 0)) one(f, w, " 0:" + k + " 1:" + k2 + " 2:" + k);
    }
    for (auto &w : w2) {
      one(f, w, "");
      for (int place : {0, 1, 2, 10, 11, 30, 31, 50, 51}) for (auto &k : kinds) if (th || (f + place + k[0] + k[1]) % 7 == 0) one(f, w, " " + std::to_string(place) + ":" + k);
    }
  }
  // long chains
  for (int f : {0, 4, 15}) for (char a : std::string("fmpcex")) for (int n = 3; n <= (th ? 12 : 6); n++) one(f, std::string(n, a), " 11:s2 50:b1");
  if (th) for (char a : WRAPS) for (char b : WRAPS) for (char d : WRAPS) for (int f : {0, 4, 18, 26}) { one(f, std::string() + a + b + d, " 10:s2 11:l1 12:s1 50:o40 31:s1"); one(f, std::string() + a + b + d, ""); }
  // around the encoding boundaries: line numbers and code sizes
  for (int f : {0, 18, 29}) for (auto &w : {std::string(""), std::string("f"), std::string("w"), std::string("ok"), std::string("fi"), std::string("kf")}) {
    for (int n = 100; n < 140; n++) { one(f, w, " 0:b" + std::to_string(n)); if (th || n % 4 == f % 4) one(f, w, " 0:s" + std::to_string(n / 4)); }
    for (int place : {0, 1, 2, 10, 30}) {
      if (place >= 10 && w.empty()) continue;
      for (int n = 95; n < 135; n++) { one(f, w, " " + std::to_string(place) + ":t" + std::to_string(n)); if (th || n % 5 == 0) one(f, w, " " + std::to_string(place) + ":t" + std::to_string(n) + " 1:s2 2:s2"); }
      for (int n = 16310; n < 16400; n += th ? 1 : 4) one(f, w, " " + std::to_string(place) + ":t" + std::to_string(n) + " 1:s1");
    }
    for (int n = 16370; n < 16390; n += th ? 1 : 3) one(f, w, " 0:b" + std::to_string(n));
    for (int n = 20; n < 60; n++) { one(f, w, " 0:o" + std::to_string(n) + " 1:s1"); one(f, w, " 10:o" + std::to_string(n) + " 1:s1"); }
    for (int n : {1000, 4000}) one(f, w, " 0:s" + std::to_string(n)); 
  }
  // histories
  { int n = sizeof(HIST) / sizeof(HIST[0]); std::function<void(const std::string &, int)> go = [&](const std::string &p, int left) { emit("history" + p); if (left) for (int k = 0; k < n; k++) go(p + " " + std::to_string(k), left - 1); };
    for (int k = 0; k < n; k++) go(" " + std::to_string(k), th ? 3 : 2); }
  // syntax errors
  Strs P = corpus(); for (auto &x : failing()) P.push_back(x);
  for (auto &p : P) { int n = tokens(p).size(); for (int i = 0; i <= n; i++) for (const char *b : {"@", "#"}) for (const char *pd : {"w0", "b2", "c1", "m2", "b130", "s3"}) if (th || (i + pd[0]) % 3 == 0) emit("syntax " + std::string(b) + " " + std::to_string(i) + " " + pd + "\n" + p); }
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int m = 0; m < 4; m++) for (int k = 0; k < 5; k++) emit("files " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(m) + " " + std::to_string(k));
}
static void check(const std::string &t, mc::Ctx &c) {
  if (t.compare(0, 7, "history") == 0) history(t, c);
  else if (t.compare(0, 6, "syntax") == 0) syntax(t, c);
  else if (t.compare(0, 5, "files") == 0) files(t, c);
  else runtime(t, c);
}
int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C10"; d.rule = "a case is a failing statement inside wrappers (blocks, loops, functions, natives which call back) with padding (blank lines, comments, statements, large code) at given places, or a program with an illegal token at one position, a program of three files, or a history of failing and succeeding API calls, each of which must be reported as when it is the first; the expected trace is known by construction";
  d.enumerate = enumerate; d.check = check;
  d.assumptions = {"the line of an operation is the line of its operand when the statement spans several lines; operators and operands of one operation stand on the same line"};
  scale::wrap(d, "C10");
  return mc::run(d, argc, argv);
}
