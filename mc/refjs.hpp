// Reference semantics: an independent parser and tree-walking interpreter for
// the language mJS documents (a strict subset of ES6), written from the
// documentation and not from the engine. Behaviour which the documentation does
// not define (or where the engine is documented / known to deviate) is reported
// as `Unspecified`, and nothing is compared then.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <cstring>
#include <vector>
#include <algorithm>

#include "vm.hpp"

namespace ref {

struct Unspecified { std::string why; };
struct Err { int code; };                  // numeric mjs_err
enum { SYNTAX = 1, REFERENCE = 2, TYPE = 3, INTERNAL = 5, NOT_IMPL = 6 };
[[noreturn]] inline void unspec(const char *w) { throw Unspecified{w}; }
[[noreturn]] inline void type_error() { throw Err{TYPE}; }

struct Node;
typedef std::shared_ptr<Node> NP;
struct Node {
  std::string k;                 // kind
  std::string s;                 // identifier / operator / string
  double n = 0;
  std::vector<NP> c;
  std::vector<std::string> names;
  int line = 1;
};

struct Tok { enum K { END, NUM, STR, ID, KW, P } k; std::string s; double n; int line; };

inline std::vector<Tok> lex(const std::string &src) {
  static const char *kws[] = {"break", "continue", "else", "false", "for", "function", "if", "in", "let", "null", "return", "this", "true", "typeof", "undefined", "while"};
  static const char *bad[] = {"case", "catch", "class", "const", "debugger", "default", "delete", "do", "finally", "import", "instanceof", "new", "super", "switch", "throw", "try", "var", "void", "with", "yield", "export", "extends"};
  static const char *ps[] = {">>>=", "===", "!==", ">>>", "<<=", ">>=", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "++", "--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=",
                             "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "<", ">", "=", "?", ":", ";", ",", ".", "(", ")", "[", "]", "{", "}"};
  std::vector<Tok> r; size_t i = 0; int line = 1;
  auto idst = [](char c) { return isalpha((unsigned char) c) || c == '_' || c == '$'; };
  while (i < src.size()) {
    char c = src[i];
    if (c == '\n') { line++; i++; continue; }
    if (isspace((unsigned char) c)) { i++; continue; }
    if (c == '/' && i + 1 < src.size() && src[i + 1] == '/') { while (i < src.size() && src[i] != '\n') i++; continue; }
    if (c == '/' && i + 1 < src.size() && src[i + 1] == '*') {
      size_t e = src.find("*/", i + 2); if (e == std::string::npos) unspec("unterminated comment");
      for (; i < e + 2; i++) if (src[i] == '\n') line++;
      continue;
    }
    if (isdigit((unsigned char) c)) {
      size_t j = i;
      double d;
      if (c == '0' && i + 1 < src.size() && (src[i + 1] == 'x' || src[i + 1] == 'X')) {
        if (src[i + 1] == 'X') unspec("0X");
        j += 2; d = 0; if (j >= src.size() || !isxdigit((unsigned char) src[j])) unspec("0x");
        while (j < src.size() && isxdigit((unsigned char) src[j])) { d = d * 16 + (isdigit((unsigned char) src[j]) ? src[j] - '0' : (tolower(src[j]) - 'a' + 10)); j++; }
        if (d > 9007199254740992.0) unspec("hex literal beyond 2^53");
      } else {
        if (c == '0' && j + 1 < src.size() && isdigit((unsigned char) src[j + 1])) unspec("octal-like literal");
        while (j < src.size() && isdigit((unsigned char) src[j])) j++;
        if (j < src.size() && src[j] == '.') { j++; while (j < src.size() && isdigit((unsigned char) src[j])) j++; }
        if (j < src.size() && (src[j] == 'e' || src[j] == 'E')) {
          size_t k = j + 1; if (k < src.size() && (src[k] == '+' || src[k] == '-')) k++;
          if (k < src.size() && isdigit((unsigned char) src[k])) { while (k < src.size() && isdigit((unsigned char) src[k])) k++; j = k; }
          else unspec("bad exponent");
        }
        d = strtod(src.substr(i, j - i).c_str(), 0);
      }
      if (j < src.size() && idst(src[j])) unspec("identifier right after a number");
      r.push_back({Tok::NUM, src.substr(i, j - i), d, line}); i = j; continue;
    }
    if (c == '"' || c == '\'') {
      std::string s; size_t j = i + 1;
      for (;; j++) {
        if (j >= src.size()) unspec("unterminated string");
        if (src[j] == '\n') unspec("newline in a string");
        if (src[j] == c) break;
        if (src[j] == '\\') {
          j++; if (j >= src.size()) unspec("unterminated string");
          auto hex = [&](int n) { int v = 0; for (int k = 1; k <= n; k++) { if (j + k >= src.size() || !isxdigit((unsigned char) src[j + k])) unspec("bad hex escape"); char h = src[j + k]; v = v * 16 + (isdigit((unsigned char) h) ? h - '0' : tolower(h) - 'a' + 10); } j += n; return v; };
          switch (src[j]) {
            case 'n': s += '\n'; break; case 't': s += '\t'; break; case 'r': s += '\r'; break;
            case 'b': s += '\b'; break; case 'f': s += '\f'; break; case 'v': s += '\v'; break;
            case '\\': s += '\\'; break; case '"': s += '"'; break; case '\'': s += '\''; break;
            case 'x': s += (char) hex(2); break;
            case 'u': { int v = hex(4); if (v > 127) unspec("non-ASCII \\u"); s += (char) v; break; }
            default: unspec("unknown escape");
          }
        } else s += src[j];
      }
      r.push_back({Tok::STR, s, 0, line}); i = j + 1; continue;
    }
    if (idst(c)) {
      size_t j = i; while (j < src.size() && (idst(src[j]) || isdigit((unsigned char) src[j]))) j++;
      std::string s = src.substr(i, j - i); i = j;
      for (auto b : bad) if (s == b) unspec("reserved word");
      bool kw = false; for (auto b : kws) if (s == b) kw = true;
      r.push_back({kw ? Tok::KW : Tok::ID, s, 0, line}); continue;
    }
    bool ok = false;
    for (auto p : ps) { size_t n = strlen(p); if (src.compare(i, n, p) == 0) { r.push_back({Tok::P, p, 0, line}); i += n; ok = true; break; } }
    if (!ok) unspec("unknown character");
  }
  r.push_back({Tok::END, "", 0, line});
  return r;
}

struct Parser {
  std::vector<Tok> t; size_t i = 0; int floop = 0, ffun = 0;
  [[noreturn]] void bad(const char *w) { unspec(w); }     // invalid programs are not judged here
  const Tok &cur() { return t[i]; }
  bool is(const char *s) { return (cur().k == Tok::P || cur().k == Tok::KW) && cur().s == s; }
  bool eat(const char *s) { if (is(s)) { i++; return true; } return false; }
  void need(const char *s) { if (!eat(s)) bad("syntax"); }
  NP mk(const char *k) { auto n = std::make_shared<Node>(); n->k = k; n->line = cur().line; return n; }

  NP program() { NP b = mk("prog"); while (cur().k != Tok::END) b->c.push_back(stmt()); return b; }
  NP block() { NP b = mk("block"); need("{"); while (!is("}")) { if (cur().k == Tok::END) bad("syntax"); b->c.push_back(stmt()); } i++; return b; }
  NP body() { if (is("let")) bad("let as a body"); return is("{") ? block() : stmt(); }
  NP stmt() {
    if (eat(";")) return mk("empty");
    if (is("{")) return block();
    if (is("let")) { NP n = let(); end(); return n; }
    if (is("if")) {
      NP n = mk("if"); i++; need("("); n->c.push_back(expr()); need(")"); n->c.push_back(body());
      if (eat("else")) n->c.push_back(body());
      return n;
    }
    if (is("while")) { NP n = mk("while"); i++; need("("); n->c.push_back(expr()); need(")"); floop++; n->c.push_back(body()); floop--; return n; }
    if (is("for")) {
      NP n = mk("for"); i++; need("(");
      size_t save = i; bool l = eat("let");
      if (cur().k == Tok::ID && t[i + 1].k == Tok::KW && t[i + 1].s == "in") {
        n->k = "forin"; n->s = cur().s; n->n = l; i += 2; n->c.push_back(expr()); need(")"); floop++; n->c.push_back(body()); floop--; return n;
      }
      i = save;
      if (is(";")) bad("empty for part");
      n->c.push_back(is("let") ? let() : exprstmt()); need(";");
      if (is(";")) bad("empty for part");
      n->c.push_back(expr()); need(";");
      if (is(")")) bad("empty for part");
      n->c.push_back(expr()); need(")");
      floop++; n->c.push_back(body()); floop--; return n;
    }
    if (is("break")) { NP n = mk("break"); if (!floop) bad("misplaced break"); i++; end(); return n; }
    if (is("continue")) { NP n = mk("continue"); if (!floop) bad("misplaced continue"); i++; end(); return n; }
    if (is("return")) {
      NP n = mk("return"); if (!ffun) bad("return outside of a function"); i++;
      if (!is(";") && !is("}")) n->c.push_back(expr());
      end(); return n;
    }
    if (is("function")) { NP n = mk("fundecl"); NP f = function(); if (f->s.empty()) bad("anonymous function declaration"); n->s = f->s; f->s.clear(); n->c.push_back(f); return n; }
    NP n = exprstmt(); end(); return n;
  }
  NP exprstmt() { NP n = mk("expr"); n->c.push_back(expr()); return n; }
  void end() { if (eat(";") || is("}") || cur().k == Tok::END) return; bad("missing semicolon"); }
  NP let() {
    NP n = mk("let"); i++;
    do {
      if (cur().k != Tok::ID) bad("syntax");
      n->names.push_back(cur().s); i++;
      if (eat("=")) n->c.push_back(expr()); else n->c.push_back(nullptr);
    } while (eat(","));
    return n;
  }
  NP expr() { return assign(); }
  NP assign() {
    NP l = ternary();
    static const char *ops[] = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", ">>>="};
    for (auto o : ops) if (is(o)) {
      if (l->k != "id" && l->k != "dot" && l->k != "idx") bad("bad assignment target");
      NP n = mk("assign"); n->s = o; i++; n->c.push_back(l); n->c.push_back(assign()); n->line = l->line; return n;
    }
    return l;
  }
  NP ternary() {
    NP c = bin(0);
    if (is("?")) { NP n = mk("cond"); i++; n->c.push_back(c); n->c.push_back(ternary()); need(":"); n->c.push_back(ternary()); return n; }
    return c;
  }
  NP bin(int lv) {
    static const std::vector<std::vector<const char *>> L = {{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"===", "!==", "==", "!="}, {"<", ">", "<=", ">="}, {"<<", ">>", ">>>"}, {"+", "-"}, {"*", "/", "%"}};
    if (lv == (int) L.size()) return unary();
    NP l = bin(lv + 1);
    for (;;) {
      bool f = false;
      for (auto o : L[lv]) if (is(o)) {
        NP n = mk(lv < 2 ? "logic" : "bin"); n->s = o; i++; n->c.push_back(l); n->c.push_back(bin(lv + 1)); l = n; f = true; break;
      }
      if (!f) return l;
    }
  }
  NP unary() {
    static const char *ops[] = {"!", "-", "+", "~", "typeof"};
    for (auto o : ops) if (is(o)) { NP n = mk("un"); n->s = o; i++; n->c.push_back(unary()); return n; }
    if (is("++") || is("--")) {
      NP n = mk("pre"); n->s = cur().s; i++; NP e = unary();
      if (e->k != "id") bad("prefix operator on something else than a variable");
      n->c.push_back(e); return n;
    }
    NP e = call();
    if (is("++") || is("--")) {
      NP n = mk("post"); n->s = cur().s; i++;
      if (e->k != "id" && e->k != "dot" && e->k != "idx") bad("bad ++ target");
      n->c.push_back(e); return n;
    }
    return e;
  }
  NP call() {
    NP e = primary();
    for (;;) {
      if (is(".")) { NP n = mk("dot"); i++; if (cur().k != Tok::ID) bad("syntax"); n->s = cur().s; i++; n->c.push_back(e); e = n; }
      else if (is("[")) { NP n = mk("idx"); i++; n->c.push_back(e); n->c.push_back(expr()); need("]"); e = n; }
      else if (is("(")) {
        NP n = mk("call"); i++; n->c.push_back(e);
        while (!is(")")) { n->c.push_back(expr()); if (!is(")")) { need(","); if (is(")")) bad("trailing comma"); } }
        i++; e = n;
      } else return e;
    }
  }
  NP function() {
    NP f = mk("fn"); i++;
    if (cur().k == Tok::ID) { f->s = cur().s; i++; }
    need("(");
    while (!is(")")) {
      if (cur().k != Tok::ID) bad("syntax");
      f->names.push_back(cur().s); i++;
      if (!is(")")) need(",");
    }
    i++;
    int sl = floop; floop = 0; ffun++;
    f->c.push_back(block());
    floop = sl; ffun--;
    return f;
  }
  NP primary() {
    NP n;
    const Tok &k = cur();
    if (k.k == Tok::NUM) { n = mk("num"); n->n = k.n; i++; return n; }
    if (k.k == Tok::STR) { n = mk("str"); n->s = k.s; i++; return n; }
    if (k.k == Tok::ID) { n = mk("id"); n->s = k.s; i++; return n; }
    if (is("this")) { n = mk("this"); i++; return n; }
    if (is("true") || is("false")) { n = mk("bool"); n->n = is("true"); i++; return n; }
    if (is("null")) { n = mk("null"); i++; return n; }
    if (is("undefined")) { n = mk("undef"); i++; return n; }
    if (is("function")) { NP f = function(); return f; }
    if (eat("(")) { n = expr(); need(")"); if (n->k == "id" || n->k == "dot" || n->k == "idx") { NP p = mk("paren"); p->c.push_back(n); return p; } return n; }
    if (is("[")) {
      n = mk("arr"); i++;
      while (!is("]")) { n->c.push_back(expr()); if (!is("]")) { need(","); if (is("]")) bad("trailing comma"); } }
      i++; return n;
    }
    if (is("{")) {
      n = mk("obj"); i++;
      while (!is("}")) {
        if (cur().k != Tok::ID && cur().k != Tok::STR) bad("syntax");
        n->names.push_back(cur().s); i++; need(":"); n->c.push_back(expr());
        if (!is("}")) { need(","); if (is("}")) bad("trailing comma"); }
      }
      i++; return n;
    }
    bad("syntax");
  }
};

struct Obj; struct Scope;
typedef std::shared_ptr<Obj> OP;
typedef std::shared_ptr<Scope> SP;
struct Fun { NP node; SP env; };
enum T { UNDEF, NUL, BOOL, NUM, STR, OBJ, ARR, FUN, NAT };
struct Val {
  T t = UNDEF; double n = 0; std::string s; OP o; std::shared_ptr<Fun> f;
  static Val num(double d) { Val v; v.t = NUM; v.n = d; return v; }
  static Val boo(bool b) { Val v; v.t = BOOL; v.n = b; return v; }
  static Val str(std::string s) { Val v; v.t = STR; v.s = std::move(s); return v; }
  static Val nul() { Val v; v.t = NUL; return v; }
  static Val nat(const char *n) { Val v; v.t = NAT; v.s = n; return v; }
};
struct Obj {
  std::vector<std::pair<std::string, Val>> p;     // insertion order
  std::map<unsigned long, Val> a;                 // array elements
  Val *find(const std::string &k) { for (auto &x : p) if (x.first == k) return &x.second; return nullptr; }
  unsigned long len() {
    if (!a.empty() && a.rbegin()->second.t == UNDEF && a.rbegin()->second.n == 1) unspec("array which ends with a hole");
    return a.empty() ? 0 : a.rbegin()->first + 1;
  }
};
struct Scope { std::map<std::string, Val> v; SP parent; std::map<std::string, int> dead; };   // dead: names whose initialiser has failed

inline bool same(const Val &a, const Val &b) {
  if (a.t != b.t) return false;
  switch (a.t) {
    case BOOL: case NUM: return a.n == b.n;
    case STR: return a.s == b.s;
    case OBJ: case ARR: return a.o == b.o;
    case FUN: return a.f == b.f;
    case NAT: return a.s == b.s;
    default: return true;
  }
}
inline bool truthy(const Val &v) {
  switch (v.t) {
    case BOOL: return v.n != 0;
    case NUM: return v.n != 0 && !std::isnan(v.n);
    case STR: return !v.s.empty();
    case UNDEF: case NUL: return false;
    default: return true;
  }
}
inline std::string num_str(double d) {       // property name of a number
  if (d == std::floor(d) && std::fabs(d) < 1e15) { char b[32]; snprintf(b, sizeof b, "%lld", (long long) d); return b; }
  if (std::isnan(d)) return "NaN";
  if (std::isinf(d)) unspec("infinite number as text");
  if (std::fabs(d) < 1e-4 || std::fabs(d) > 1e5) unspec("text of an extreme number");
  for (int p = 1; p <= 17; p++) { char b[40]; snprintf(b, sizeof b, "%.*g", p, d); if (strtod(b, 0) == d) return b; }
  return "";
}

struct DumpR {
  std::map<Obj *, int> ids;
  std::string go(const Val &v, int depth = 0) {
    switch (v.t) {
      case UNDEF: return "undefined";
      case NUL: return "null";
      case BOOL: return v.n ? "true" : "false";
      case NUM: return vm::num(v.n == 0 ? 0.0 : v.n);
      case STR: return vm::str(v.s);
      case FUN: return "fn";
      case NAT: return "ptr";
      default: break;
    }
    auto it = ids.find(v.o.get());
    if (it != ids.end()) return "#" + std::to_string(it->second);
    int id = ids.size(); ids[v.o.get()] = id;
    if (depth > 60) return "<deep>";
    if (v.t == ARR) {
      std::string r = "["; unsigned long n = v.o->len();
      for (unsigned long i = 0; i < n; i++) { if (i) r += ","; auto e = v.o->a.find(i); r += e == v.o->a.end() ? "undefined" : go(e->second, depth + 1); }
      return r + "]";
    }
    auto p = v.o->p;
    std::stable_sort(p.begin(), p.end(), [](auto &a, auto &b) { return a.first < b.first; });
    std::string r = "{";
    for (auto &x : p) { if (r.size() > 1) r += ","; r += vm::str(x.first) + ":" + go(x.second, depth + 1); }
    return r + "}";
  }
};
inline std::string dump(const Val &v) { DumpR d; return d.go(v); }

struct Interp {
  SP global = std::make_shared<Scope>();
  std::vector<SP> dyn;          // what the engine does: callee sees the scopes of its callers
  SP env;                       // what the language says
  Val self;                     // `this`
  std::string obs;
  bool oldest_first = false;    // enumeration order is not defined: both are tried
  bool order_mattered = false;
  uint64_t steps = 0, max_steps = 20000;
  int depth = 0;
  struct Brk {}; struct Cont {}; struct Ret { Val v; };
  std::map<std::string, std::function<Val(Interp &, std::vector<Val> &)>> natives;

  Interp() {
    dyn.push_back(global); env = global;
    for (auto n : {"obs", "gc", "chr", "isNaN"}) global->v[n] = Val::nat(n);
    global->v["NaN"] = Val::num(NAN);
    auto obj = [&](const char *name, std::vector<const char *> ms) {
      Val o; o.t = OBJ; o.o = std::make_shared<Obj>();
      for (auto m : ms) o.o->p.push_back({m, Val::nat((std::string(name) + "." + m).c_str())});
      global->v[name] = o;
    };
    obj("Object", {"create"}); obj("JSON", {"parse", "stringify"});
  }
  void step() { if (++steps > max_steps) unspec("too long"); }

  Scope *lookup(const std::string &n) {
    Scope *d = nullptr, *l = nullptr;
    for (auto &s : dyn) if (!s->dead.empty() && s->dead.count(n)) unspec("variable whose initialiser has failed");
    for (size_t i = dyn.size(); i-- > 0;) if (dyn[i]->v.count(n)) { d = dyn[i].get(); break; }
    for (Scope *s = env.get(); s; s = s->parent.get()) if (s->v.count(n)) { l = s; break; }
    if (d != l) unspec("dynamic scoping");
    if (!d) throw Err{REFERENCE};
    return d;
  }
  struct Enter {
    Interp &I; SP saved;
    Enter(Interp &i) : I(i), saved(i.env) { SP s = std::make_shared<Scope>(); s->parent = I.env; I.env = s; I.dyn.push_back(s); }
    ~Enter() { I.dyn.pop_back(); I.env = saved; }
  };

  Val native(const std::string &n, std::vector<Val> &a, Val &self);
  Val call(const Val &f, const Val &th, std::vector<Val> &args) {
    step();
    if (f.t == NAT) { Val s = th; return native(f.s, args, s); }
    if (f.t == STR) unspec("calling a string");
    if (f.t != FUN) type_error();
    if (++depth > 60) unspec("deep recursion");
    SP senv = env; Val sself = self; size_t nd = dyn.size();
    SP s = std::make_shared<Scope>(); s->parent = f.f->env;
    for (size_t i = 0; i < f.f->node->names.size(); i++) {
      for (size_t j = 0; j < i; j++) if (f.f->node->names[j] == f.f->node->names[i]) unspec("duplicate parameter");
      s->v[f.f->node->names[i]] = i < args.size() ? args[i] : Val();
    }
    env = s; dyn.push_back(s); self = th;
    Val r;
    auto restore = [&] { env = senv; self = sself; dyn.resize(nd); depth--; };
    try { for (auto &x : f.f->node->c[0]->c) run(x); } catch (Ret &v) { r = v.v; } catch (...) { restore(); throw; }
    restore();
    return r;
  }

  // statements
  void run(const NP &n) {
    step();
    const std::string &k = n->k;
    if (k == "empty") return;
    if (k == "expr") { last = eval(n->c[0]); last_is_expr = true; return; }
    last_is_expr = false;
    if (k == "block") { Enter e(*this); for (auto &x : n->c) run(x); last_is_expr = false; return; }
    if (k == "let") {
      for (size_t i = 0; i < n->names.size(); i++) {
        Val v; if (n->c[i]) { try { v = eval(n->c[i]); } catch (Err &) { env->dead[n->names[i]] = 1; throw; } }
        bool there = env->v.count(n->names[i]);
        if (there && (!n->c[i] || !looping)) unspec("redeclaration");
        env->v[n->names[i]] = v;
      }
      last_is_expr = false;
      return;
    }
    if (k == "fundecl") { if (env->v.count(n->s)) unspec("redeclaration"); env->v[n->s] = eval(n->c[0]); return; }
    if (k == "if") { bool c = truthy(eval(n->c[0])); if (c) run(n->c[1]); else if (n->c.size() > 2) run(n->c[2]); last_is_expr = false; return; }
    if (k == "while") {
      Enter e(*this);
      looping++;
      struct G { int &l; ~G() { l--; } } g{looping};
      while (truthy(eval(n->c[0]))) { try { run_body(n->c[1]); } catch (Brk &) { break; } catch (Cont &) {} }
      last_is_expr = false; return;
    }
    if (k == "for") {
      Enter e(*this);
      run(n->c[0]);
      looping++;
      struct G { int &l; ~G() { l--; } } g{looping};
      while (truthy(eval(n->c[1]))) { try { run_body(n->c[3]); } catch (Brk &) { break; } catch (Cont &) {} eval(n->c[2]); }
      last_is_expr = false; return;
    }
    if (k == "forin") {
      Enter e(*this);
      if (n->n) env->v[n->s] = Val();
      Val o = eval(n->c[0]);
      if (!n->n) lookup(n->s);
      if (o.t != OBJ && o.t != ARR) { if (o.t == FUN || o.t == NAT) unspec("for-in over a function"); type_error(); }
      std::vector<std::string> keys;
      if (o.t == OBJ) for (auto &x : o.o->p) { if (x.first == "__p") unspec("for-in with a prototype"); keys.push_back(x.first); }
      else { for (auto &x : o.o->a) keys.push_back(std::to_string(x.first)); if (!o.o->p.empty()) unspec("for-in over an array with named properties"); }
      size_t np = o.o->p.size(), na = o.o->a.size();
      if (keys.size() > 1) order_mattered = true;
      if (!oldest_first) std::reverse(keys.begin(), keys.end());
      looping++;
      struct G { int &l; ~G() { l--; } } g{looping};
      for (auto &x : keys) {
        lookup(n->s)->v[n->s] = Val::str(x);
        try { run_body(n->c[1]); } catch (Brk &) { break; } catch (Cont &) {}
        if (o.o->p.size() != np || o.o->a.size() != na) unspec("modified during enumeration");
      }
      last_is_expr = false; return;
    }
    if (k == "break") throw Brk();
    if (k == "continue") throw Cont();
    if (k == "return") { Ret r; if (!n->c.empty()) r.v = eval(n->c[0]); throw r; }
    unspec("statement");
  }
  // body of a loop: one scope for all iterations, which only matters for `let x;`
  void run_body(const NP &n) { step(); run(n); }
  Val last; bool last_is_expr = false; int looping = 0;
  bool I_sparse = false;

  // expressions
  std::string key(const Val &v) {
    switch (v.t) {
      case STR: return v.s;
      case NUM: return num_str(v.n);
      case BOOL: return v.n ? "true" : "false";
      case NUL: return "null";
      case UNDEF: return "undefined";
      case OBJ: case ARR: case FUN: type_error();
      default: unspec("native as a key");
    }
  }
  static bool index_of(const std::string &k, unsigned long *i) {
    if (k.empty() || k.size() > 9) return false;
    for (char c : k) if (!isdigit((unsigned char) c)) return false;
    if (k.size() > 1 && k[0] == '0') return false;
    *i = strtoul(k.c_str(), 0, 10); return true;
  }
  Val get(const Val &o, const Val &kv) {
    if (o.t == OBJ) {
      std::string k = key(kv);
      if (k == "apply") unspec("apply of an object");
      OP p = o.o;
      for (int i = 0; i < 100; i++) {
        if (Val *v = p->find(k)) return *v;
        Val *pr = p->find("__p");
        if (!pr || (pr->t != OBJ)) { if (pr && pr->t == ARR) unspec("array as a prototype"); return Val(); }
        p = pr->o;
      }
      return Val();
    }
    if (o.t == ARR) {
      std::string k = key(kv);
      unsigned long i;
      if (index_of(k, &i)) { auto e = o.o->a.find(i); return e == o.o->a.end() ? Val() : e->second; }
      if (k == "length") return Val::num(o.o->len());
      if (k == "push") return Val::nat("a.push");
      if (k == "splice") return Val::nat("a.splice");
      if (k == "apply") unspec("apply of an array");
      if (k == "__p") unspec("__p of an array");
      if (Val *v = o.o->find(k)) return *v;     // not an index: a named property
      return Val();
    }
    if (o.t == STR) {
      if (kv.t != STR && kv.t != NUM) { if (kv.t == NAT) unspec("key"); key(kv); type_error(); }
      std::string k = key(kv);
      unsigned long i;
      if (index_of(k, &i)) return i < o.s.size() ? Val::str(o.s.substr(i, 1)) : Val();
      if (k == "length") return Val::num(o.s.size());
      if (k == "at" || k == "charCodeAt") return Val::nat("s.at");
      if (k == "indexOf") return Val::nat("s.indexOf");
      if (k == "slice") return Val::nat("s.slice");
      if (kv.t == NUM) { if (kv.n < 0 || kv.n != std::floor(kv.n)) unspec("odd string index"); return Val(); }
      for (char c : k) if (isspace((unsigned char) c) || isdigit((unsigned char) c)) unspec("odd string key");
      type_error();
    }
    if (o.t == FUN) { if (key(kv) == "apply") return Val::nat("f.apply"); type_error(); }
    if (o.t == NAT) unspec("property of a native");
    type_error();
  }
  void set(const Val &o, const Val &kv, const Val &v) {
    if (o.t == OBJ) {
      std::string k = key(kv);
      if (Val *p = o.o->find(k)) *p = v; else o.o->p.push_back({k, v});
      return;
    }
    if (o.t == ARR) {
      std::string k = key(kv); unsigned long i;
      if (!index_of(k, &i)) {
        if (k == "length" || k == "push" || k == "splice" || k == "apply" || k == "__p") unspec("special property of an array");
        bool digits = !k.empty() && k[0] != '0'; for (char c : k) if (!isdigit((unsigned char) c)) digits = false;
        if (digits) unspec("large index");
        if (Val *p = o.o->find(k)) *p = v; else o.o->p.push_back({k, v});
        return;
      }
      if (i > 5000) unspec("large index");
      o.o->a[i] = v; return;
    }
    if (o.t == NAT) unspec("property of a native");
    type_error();
  }
  static double as_int(double d) { if (std::fabs(d) > 2147483647.0) unspec("bit operation out of the int32 range"); return std::trunc(d); }
  Val binop(const std::string &op, const Val &a, const Val &b) {
    if (op == "===") { if ((a.t == NAT) != (b.t == NAT)) return Val::boo(false); return Val::boo(same(a, b)); }
    if (op == "!==") return Val::boo(!same(a, b));
    if (op == "==" || op == "!=") throw Err{NOT_IMPL};
    if (op == "<" || op == ">" || op == "<=" || op == ">=") {
      if (a.t != NUM || b.t != NUM) unspec("comparison of non-numbers");
      return Val::boo(op == "<" ? a.n < b.n : op == ">" ? a.n > b.n : op == "<=" ? a.n <= b.n : a.n >= b.n);
    }
    if (a.t == NAT || b.t == NAT) unspec("pointer arithmetic");
    if (op == "+" && a.t == STR && b.t == STR) return Val::str(a.s + b.s);
    if (a.t != NUM || b.t != NUM) type_error();
    double x = a.n, y = b.n;
    if (std::isnan(x) || std::isnan(y)) return Val::num(NAN);
    if (op == "+") return Val::num(x + y);
    if (op == "-") return Val::num(x - y);
    if (op == "*") return Val::num(x * y);
    if (op == "/") { if (y == 0) unspec("division by zero"); return Val::num(x / y); }
    if (op == "%") { if (x != std::floor(x) || y != std::floor(y) || std::fabs(x) > 9007199254740992.0 || std::fabs(y) > 2147483647.0) unspec("remainder of non-integers"); if (y == 0) unspec("remainder of division by zero"); return Val::num(std::fmod(x, y)); }
    if (op == "&" && x >= 0 && y >= 0 && x <= 4294967295.0 && y <= 4294967295.0) return Val::num(as_int((double) ((uint64_t) x & (uint64_t) y)));
    if (op == ">>>" && x >= 0 && x <= 4294967295.0) { long long s = (long long) as_int(y); if (s < 0 || s > 31) unspec("shift count"); return Val::num((double) ((uint32_t) x >> s)); }
    long long xi = (long long) as_int(x);
    if (op == ">>>") {
      long long s = (long long) as_int(y); if (s < 0 || s > 31) unspec("shift count");
      return Val::num((double) ((uint32_t) (int32_t) xi >> s));
    }
    long long yi = (long long) as_int(y);
    if (op == "&") return Val::num((double) (xi & yi));
    if (op == "|") return Val::num((double) (xi | yi));
    if (op == "^") return Val::num((double) (xi ^ yi));
    if (yi < 0 || yi > 31) unspec("shift count");
    if (op == ">>") return Val::num((double) (xi >> yi));
    if (op == "<<") { long long r = xi * (1ll << yi); as_int((double) r); return Val::num((double) r); }
    unspec("operator");
  }
  Val eval(const NP &n) {
    step();
    const std::string &k = n->k;
    switch (k[0]) {
      case 'n': if (k == "num") return Val::num(n->n); return Val::nul();
      case 's': return Val::str(n->s);
      case 'b': if (k == "bool") return Val::boo(n->n != 0); break;
      case 't': return self;
      case 'u': if (k == "undef") return Val(); break;
      case 'i': if (k == "id") return lookup(n->s)->v[n->s]; break;
    }
    if (k == "paren") return eval(n->c[0]);
    if (k == "arr") {
      Val v; v.t = ARR; v.o = std::make_shared<Obj>();
      for (size_t i = 0; i < n->c.size(); i++) { Val e = eval(n->c[i]); v.o->a[i] = e; }
      return v;
    }
    if (k == "obj") {
      Val v; v.t = OBJ; v.o = std::make_shared<Obj>();
      for (size_t i = 0; i < n->c.size(); i++) {
        if (v.o->find(n->names[i])) unspec("duplicate key");
        Val e = eval(n->c[i]); v.o->p.push_back({n->names[i], e});
      }
      return v;
    }
    if (k == "fn") {
      if (!n->s.empty()) unspec("named function expression");
      Val v; v.t = FUN; v.f = std::make_shared<Fun>(); v.f->node = n; v.f->env = env; return v;
    }
    if (k == "dot") { Val o = eval(n->c[0]); return get(o, Val::str(n->s)); }
    if (k == "idx") { Val o = eval(n->c[0]); Val i = eval(n->c[1]); return get(o, i); }
    if (k == "cond") return truthy(eval(n->c[0])) ? eval(n->c[1]) : eval(n->c[2]);
    if (k == "logic") { Val a = eval(n->c[0]); if (n->s == "&&") return truthy(a) ? eval(n->c[1]) : a; return truthy(a) ? a : eval(n->c[1]); }
    if (k == "bin") { Val a = eval(n->c[0]); Val b = eval(n->c[1]); return binop(n->s, a, b); }
    if (k == "un") {
      Val a = eval(n->c[0]);
      if (n->s == "!") return Val::boo(!truthy(a));
      if (n->s == "typeof") {
        switch (a.t) { case UNDEF: return Val::str("undefined"); case NUL: return Val::str("null"); case BOOL: return Val::str("boolean"); case NUM: return Val::str("number");
          case STR: return Val::str("string"); case OBJ: return Val::str("object"); case ARR: return Val::str("array"); case FUN: return Val::str("function"); default: unspec("typeof native"); }
      }
      if (a.t != NUM) unspec("unary operator on a non-number");
      if (n->s == "-") return Val::num(-a.n);
      if (n->s == "+") return a;
      if (std::isnan(a.n)) unspec("~NaN");
      return Val::num((double) ~(long long) as_int(a.n));
    }
    if (k == "call") {
      NP c = n->c[0]; Val f, th;
      bool paren = false;
      while (c->k == "paren") { c = c->c[0]; paren = true; }
      if (c->k == "dot" || c->k == "idx") { th = eval(c->c[0]); Val kv = c->k == "dot" ? Val::str(c->s) : eval(c->c[1]); f = get(th, kv); (void) paren; }
      else f = eval(c);
      std::vector<Val> a;
      for (size_t i = 1; i < n->c.size(); i++) a.push_back(eval(n->c[i]));
      return call(f, th, a);
    }
    if (k == "assign" || k == "pre" || k == "post") {
      NP c = n->c[0]; Val o, kv; 
      Scope *sc = nullptr;
      if (c->k == "dot") { o = eval(c->c[0]); kv = Val::str(c->s); }
      else if (c->k == "idx") { o = eval(c->c[0]); kv = eval(c->c[1]); }
      auto rd = [&]() -> Val { if (c->k == "id") { sc = lookup(c->s); return sc->v[c->s]; }
        if (o.t != OBJ && o.t != ARR) type_error();
        if (kv.t != STR && kv.t != NUM) unspec("compound assignment with an odd key");
        return get(o, kv); };
      auto wr = [&](const Val &v) { if (c->k == "id") { lookup(c->s)->v[c->s] = v; } else set(o, kv, v); };
      if (k == "assign") {
        if (n->s == "=") {
          if (c->k == "id") {
            bool found = true;
            try { lookup(c->s); } catch (Err &) { found = false; }
            if (!found) {      // when the missing variable is noticed is not defined
              std::string o0 = obs;
              std::function<bool(const NP &)> eff = [&](const NP &x) { if (!x) return false; if (x->k == "assign" || x->k == "pre" || x->k == "post") return true; if (x->k == "fn") return false; for (auto &y : x->c) if (eff(y)) return true; return false; };
              if (eff(n->c[1])) unspec("order of an error and a side effect");
              try { eval(n->c[1]); } catch (Err &) { unspec("two errors"); }
              if (o0 != obs) unspec("order of an error and a side effect");
              throw Err{REFERENCE};
            }
          }
          Val v = eval(n->c[1]); wr(v); return v;
        }
        std::string op = n->s.substr(0, n->s.size() - 1);
        std::string before;
        Val old; bool have = false;
        // whether the old value is read before or after the right operand is evaluated only matters if the latter changes it
        if (c->k == "id") { old = rd(); have = true; }
        else if ((o.t == OBJ || o.t == ARR) && (kv.t == STR || kv.t == NUM)) { old = rd(); have = true; }
        Val v = eval(n->c[1]);
        Val old2 = rd();
        if (have && !same(old, old2) && !(old.t == NUM && old2.t == NUM && std::isnan(old.n) && std::isnan(old2.n))) unspec("operand changed while being used");
        Val r = binop(op, old2, v); wr(r); return r;
      }
      Val old = rd();
      Val r = binop(n->s == "++" ? "+" : "-", old, Val::num(1));
      wr(r);
      return k == "pre" ? r : old;
    }
    unspec(k.c_str());
  }
};

inline int norm_idx(double i, size_t n) {
  if (i < 0) { i += n; if (i < 0) i = 0; }
  if (i > n) i = n;
  return (int) i;
}

struct Json;
std::string json_str(Interp &I, const Val &v, std::vector<Obj *> &seen, bool in_arr, bool *skip);
bool json_parse(const std::string &s, Val *out);

inline Val Interp::native(const std::string &n, std::vector<Val> &a, Val &th) {
  auto arg = [&](size_t i) { return i < a.size() ? a[i] : Val(); };
  auto ni = [&](size_t i) -> double { Val v = arg(i); if (v.t != NUM) type_error(); if (v.n != std::floor(v.n) || std::fabs(v.n) > 1e9) unspec("fractional index"); return v.n; };
  if (n == "obs") { std::string r; for (size_t i = 0; i < a.size(); i++) r += (i ? " " : "") + dump(a[i]); obs += r + ";"; return arg(0); }
  if (n == "gc") return Val();
  if (n == "chr") {
    if (arg(0).t != NUM || arg(0).n != std::floor(arg(0).n) || arg(0).n < 0 || arg(0).n > 255) unspec("chr");
    return Val::str(std::string(1, (char) arg(0).n));
  }
  if (n == "Object.create") {
    if (arg(0).t != OBJ) { if (arg(0).t == NAT || arg(0).t == FUN) unspec("create"); type_error(); }
    Val o; o.t = OBJ; o.o = std::make_shared<Obj>(); o.o->p.push_back({"__p", arg(0)}); return o;
  }
  if (n == "a.push") {
    if (th.t != ARR) type_error();
    if (a.empty()) unspec("push()");
    for (auto &v : a) { Val x = v; unsigned long l = th.o->len(); th.o->a[l] = x; }
    return Val::num(th.o->len());
  }
  if (n == "a.splice") {
    if (th.t != ARR) type_error();
    unsigned long len = th.o->len();
    if (a.empty()) type_error();
    int st = norm_idx(ni(0), len);
    long dc = (long) len - st;
    if (a.size() > 1) { double d = ni(1); dc = d < 0 ? 0 : (d > (double) (len - st) ? (long) (len - st) : (long) d); }
    Val r; r.t = ARR; r.o = std::make_shared<Obj>();
    std::map<unsigned long, Val> nw; long add = (long) a.size() > 2 ? a.size() - 2 : 0;
    for (auto &x : th.o->a) {
      long i = x.first;
      if (i < st) nw[i] = x.second; else if (i < st + dc) r.o->a[i - st] = x.second; else nw[i - dc + add] = x.second;
    }
    for (long i = 0; i < add; i++) nw[st + i] = a[2 + i];
    bool sparse = th.o->a.size() != len;
    long nl = (long) len - dc + add;
    if (sparse) {         // holes become undefined elements; which of them are own properties is not defined
      Val hole; hole.n = 1;
      for (long i = 0; i < dc; i++) r.o->a[i];
      if (nl && !nw.count(nl - 1)) unspec("splice which leaves a hole at the end");
      for (long i = 0; i < nl; i++) nw.insert({i, hole});
      I_sparse = true;
    }
    th.o->a = nw;
    return r;
  }
  if (n == "s.at") { if (th.t != STR) type_error(); if (a.empty()) type_error(); double i = ni(0); if (i < 0) unspec("negative at()"); return i < th.s.size() ? Val::num((unsigned char) th.s[(size_t) i]) : Val(); }
  if (n == "isNaN") { if (arg(0).t != NUM) unspec("isNaN of a non-number"); return Val::boo(std::isnan(arg(0).n)); }
  if (n == "s.slice") {
    if (th.t != STR) type_error(); if (a.empty()) type_error();
    int b = norm_idx(ni(0), th.s.size()), e = th.s.size();
    if (a.size() > 1) e = norm_idx(ni(1), th.s.size());
    if (e < b) e = b;
    return Val::str(th.s.substr(b, e - b));
  }
  if (n == "s.indexOf") {
    if (th.t != STR) type_error(); if (arg(0).t != STR) type_error();
    if (a.size() > 1) { double i = ni(1); if (i < 0) unspec("negative position"); if (i > th.s.size()) unspec("position beyond the end"); size_t p = th.s.find(arg(0).s, (size_t) i); return Val::num(p == std::string::npos ? -1 : (double) p); }
    size_t p = th.s.find(arg(0).s); return Val::num(p == std::string::npos ? -1 : (double) p);
  }
  if (n == "f.apply") {
    if (th.t != FUN) unspec("apply of a non-function");
    std::vector<Val> v;
    if (arg(1).t == ARR) for (unsigned long i = 0; i < arg(1).o->len(); i++) { auto e = arg(1).o->a.find(i); v.push_back(e == arg(1).o->a.end() ? Val() : e->second); }
    else if (a.size() > 1) unspec("apply with a non-array");
    return call(th, arg(0), v);
  }
  if (n == "JSON.stringify") {
    if (a.empty()) unspec("stringify()");
    std::vector<Obj *> seen; bool skip = false; std::string r = json_str(*this, a[0], seen, false, &skip);
    if (skip) unspec("stringify of undefined");
    return Val::str(r);
  }
  if (n == "JSON.parse") { if (arg(0).t != STR) type_error(); Val v; if (!json_parse(arg(0).s, &v)) unspec("JSON text out of the domain"); return v; }
  auto it = natives.find(n);
  if (it != natives.end()) return it->second(*this, a);
  unspec("native");
}

inline std::string json_quote(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    switch (c) {
      case '"': r += "\\\""; break; case '\\': r += "\\\\"; break; case '\n': r += "\\n"; break; case '\r': r += "\\r"; break;
      case '\t': r += "\\t"; break; case '\b': r += "\\b"; break; case '\f': r += "\\f"; break;
      default: if (c < 32 || c > 126) unspec("JSON text of unusual characters"); r += (char) c;
    }
  }
  return r + "\"";
}
inline std::string json_str(Interp &I, const Val &v, std::vector<Obj *> &seen, bool in_arr, bool *skip) {
  switch (v.t) {
    case UNDEF: case FUN: if (in_arr) return "null"; *skip = true; return "";
    case NUL: return "null";
    case BOOL: return v.n ? "true" : "false";
    case NUM: if (!std::isfinite(v.n)) return "null"; return num_str(v.n == 0 ? 0.0 : v.n);
    case STR: return json_quote(v.s);
    case NAT: unspec("JSON of a native");
    default: break;
  }
  for (auto o : seen) if (o == v.o.get()) unspec("circular");
  seen.push_back(v.o.get());
  std::string r;
  if (v.t == ARR) {
    r = "[";
    for (unsigned long i = 0; i < v.o->len(); i++) { if (i) r += ","; auto e = v.o->a.find(i); bool s = false; r += e == v.o->a.end() ? "null" : json_str(I, e->second, seen, true, &s); }
    r += "]";
  } else {
    r = "{";
    auto p = v.o->p; if (p.size() > 1) I.order_mattered = true;
    if (!I.oldest_first) std::reverse(p.begin(), p.end());
    for (auto &x : p) {
      if (x.first == "__p") unspec("JSON of an object with a prototype");
      bool s = false; std::string t = json_str(I, x.second, seen, false, &s); if (s) continue;
      if (r.size() > 1) r += ","; r += json_quote(x.first) + ":" + t;
    }
    r += "}";
  }
  seen.pop_back();
  return r;
}
// Strict JSON; false: not strictly valid (or outside of what mJS supports)
inline bool json_parse(const std::string &s, Val *out) {
  struct P {
    const std::string &s; size_t i = 0; int depth = 0;
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++; }
    bool str(std::string *r) {
      if (i >= s.size() || s[i] != '"') return false;
      for (i++; i < s.size(); i++) {
        unsigned char c = s[i];
        if (c == '"') { i++; return true; }
        if (c < 32 || c > 126) return false;
        if (c == '\\') {
          if (++i >= s.size()) return false;
          switch (s[i]) { case '"': *r += '"'; break; case '\\': *r += '\\'; break; case '/': *r += '/'; break; case 'b': *r += '\b'; break; case 'f': *r += '\f'; break;
            case 'n': *r += '\n'; break; case 'r': *r += '\r'; break; case 't': *r += '\t'; break;
            case 'u': { unsigned v = 0; for (int k = 0; k < 4; k++) { if (++i >= s.size() || !isxdigit((unsigned char) s[i])) return false; v = v * 16 + (isdigit((unsigned char) s[i]) ? s[i] - '0' : tolower(s[i]) - 'a' + 10); } if (v > 127) return false; *r += (char) v; break; }
            default: return false; }
        } else *r += (char) c;
      }
      return false;
    }
    bool val(Val *v) {
      if (++depth > 40) return false;
      ws(); if (i >= s.size()) return false;
      bool ok = val2(v); depth--; ws(); return ok;
    }
    bool val2(Val *v) {
      if (s.compare(i, 4, "null") == 0) { i += 4; *v = Val::nul(); return true; }
      if (s.compare(i, 4, "true") == 0) { i += 4; *v = Val::boo(true); return true; }
      if (s.compare(i, 5, "false") == 0) { i += 5; *v = Val::boo(false); return true; }
      if (s[i] == '"') { std::string r; if (!str(&r)) return false; *v = Val::str(r); return true; }
      if (s[i] == '[') {
        v->t = ARR; v->o = std::make_shared<Obj>(); i++; ws();
        if (i < s.size() && s[i] == ']') { i++; return true; }
        for (unsigned long k = 0;; k++) {
          Val e; if (!val(&e)) return false; v->o->a[k] = e;
          if (i < s.size() && s[i] == ',') { i++; continue; }
          if (i < s.size() && s[i] == ']') { i++; return true; }
          return false;
        }
      }
      if (s[i] == '{') {
        v->t = OBJ; v->o = std::make_shared<Obj>(); i++; ws();
        if (i < s.size() && s[i] == '}') { i++; return true; }
        for (;;) {
          std::string k; ws(); if (!str(&k)) return false; ws();
          if (i >= s.size() || s[i] != ':') return false; i++;
          Val e; if (!val(&e)) return false;
          if (v->o->find(k)) return false;
          v->o->p.push_back({k, e});
          if (i < s.size() && s[i] == ',') { i++; continue; }
          if (i < s.size() && s[i] == '}') { i++; return true; }
          return false;
        }
      }
      size_t b = i;
      if (s[i] == '-') i++;
      if (i >= s.size() || !isdigit((unsigned char) s[i])) return false;
      if (s[i] == '0') i++; else while (i < s.size() && isdigit((unsigned char) s[i])) i++;
      if (i < s.size() && s[i] == '.') { i++; if (i >= s.size() || !isdigit((unsigned char) s[i])) return false; while (i < s.size() && isdigit((unsigned char) s[i])) i++; }
      if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; if (i >= s.size() || !isdigit((unsigned char) s[i])) return false; while (i < s.size() && isdigit((unsigned char) s[i])) i++; }
      *v = Val::num(strtod(s.substr(b, i - b).c_str(), 0)); return true;
    }
  } p{s};
  if (!p.val(out)) return false;
  return p.i == s.size();
}

// Expected outcome of a sequence of scripts executed in one instance
struct Expect {
  bool specified = true; std::string why;
  std::vector<std::string> out;    // per script: "=value" (value "?" if not defined) or "E<code>"
  std::string obs;
};

inline Expect expect1(const std::vector<std::string> &srcs, bool oldest, bool *order, const std::function<void(Interp &)> &prep) {
  Expect x; Interp I; I.oldest_first = oldest;
  if (prep) prep(I);
  try {
    for (auto &s : srcs) {
      Parser p; p.t = lex(s);
      NP prog = p.program();
      I.dyn.resize(1); I.env = I.global; I.self = Val(); I.depth = 0; I.looping = 0; I.last_is_expr = false; I.steps = 0;
      try {
        // scripts run one after another in the same global scope: re-declaration in a later script is not judged
        for (auto &st : prog->c) { I.last_is_expr = false; I.run(st); }
        bool ends = !prog->c.empty() && prog->c.back()->k == "expr";
        x.out.push_back(ends ? "=" + dump(I.last) : "=?");
      } catch (Err &e) { x.out.push_back("E" + std::to_string(e.code)); }
    }
  } catch (Unspecified &u) { x.specified = false; x.why = u.why; }
  x.obs = I.obs; *order = I.order_mattered;
  return x;
}
inline Expect expect(const std::vector<std::string> &srcs, const std::function<void(Interp &)> &prep = nullptr) {
  bool o = false;
  Expect a = expect1(srcs, false, &o, prep);
  if (a.specified && o) {
    Expect b = expect1(srcs, true, &o, prep);
    if (!b.specified || a.out != b.out || a.obs != b.obs) { a.specified = false; a.why = "enumeration order"; }
  }
  return a;
}

}  // namespace ref
