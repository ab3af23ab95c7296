// C23: the bundled JSON library (frozen) reads, edits and prints documents exactly
#include "common.hpp"
#include <cmath>
#include <climits>
extern "C" {
#include "frozen.h"
}

// ---- documents: the model ----------------------------------------------------
struct J {
  char t = 0;                                       // o a s n t f z(null)
  std::string raw;                                  // text of a scalar (strings: between the quotes)
  std::vector<std::pair<std::string, J>> kids;
  bool operator==(const J &x) const { return t == x.t && raw == x.raw && kids == x.kids; }
};
static std::string text(const J &j, const std::string &sp = "") {
  switch (j.t) {
    case 's': return "\"" + j.raw + "\"";
    case 'o': case 'a': {
      std::string r = j.t == 'o' ? "{" : "["; bool first = true;
      for (auto &k : j.kids) { if (!first) r += sp + ","; first = false; r += sp; if (j.t == 'o') r += "\"" + k.first + "\"" + sp + ":" + sp; r += text(k.second, sp); }
      return r + sp + (j.t == 'o' ? "}" : "]");
    }
    default: return j.raw;
  }
}
// A recogniser: strict JSON, or the documented leniency (identifiers as keys,
// commas optional, numbers with leading zeros or in hex).
struct Parser {
  const char *p, *e; bool strict; int depth = 0; bool incomplete = false;
  bool sp() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\r' || *p == '\n')) p++; return true; }
  bool lit(const char *s) { size_t n = strlen(s); for (size_t i = 0; i < n; i++) { if (p + i >= e) { incomplete = true; return false; } if (p[i] != s[i]) return false; } p += n; return true; }
  static bool dg(char c) { return c >= '0' && c <= '9'; }
  static bool hx(char c) { return dg(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
  bool str(std::string &out) {
    p++; const char *b = p;
    for (; p < e; p++) {
      unsigned char c = *p;
      if (c < 32) return false;
      if (c == '"') { out.assign(b, p); p++; return true; }
      if (c == '\\') {
        p++; if (p >= e) { incomplete = true; return false; }
        if (*p == 'u') { if (e - p < 5) { incomplete = true; return false; } for (int i = 1; i <= 4; i++) if (!hx(p[i])) return false; p += 4; }
        else if (!strchr("\"\\/bfnrt", *p) || !*p) return false;
      }
    }
    incomplete = true; return false;
  }
  bool num(std::string &out) {
    const char *b = p;
    auto digits = [&] { if (p >= e) { incomplete = true; return false; } if (!dg(*p)) return false; while (p < e && dg(*p)) p++; return true; };
    if (*p == '-') p++;
    if (!strict && p + 1 < e && p[0] == '0' && p[1] == 'x') { p += 2; if (p >= e) { incomplete = true; return false; } if (!hx(*p)) return false; while (p < e && hx(*p)) p++; out.assign(b, p); return true; }
    const char *d = p; if (!digits()) return false;
    if (strict && p - d > 1 && *d == '0') return false;
    if (p < e && *p == '.') { p++; if (!digits()) return false; }
    if (p < e && (*p == 'e' || *p == 'E')) { p++; if (p < e && (*p == '+' || *p == '-')) p++; if (!digits()) return false; }
    out.assign(b, p); return true;
  }
  bool val(J &j) {
    sp(); if (p >= e) { incomplete = true; return false; }
    char c = *p;
    if (c == '"') { j.t = 's'; return str(j.raw); }
    if (c == 'n') { j.t = 'z'; j.raw = "null"; return lit("null"); }
    if (c == 't') { j.t = 't'; j.raw = "true"; return lit("true"); }
    if (c == 'f') { j.t = 'f'; j.raw = "false"; return lit("false"); }
    if (c == '-' || dg(c)) { j.t = 'n'; return num(j.raw); }
    if (c != '{' && c != '[') return false;
    bool o = c == '{'; char close = o ? '}' : ']';
    if (++depth > 1000) return false;
    j.t = o ? 'o' : 'a'; p++; int n = 0;
    for (bool first = true;; first = false) {
      sp(); if (p >= e) { incomplete = true; return false; }
      if (*p == close) { if (0) first = first; p++; break; }
      std::string k = std::to_string(n++);
      if (o) {
        if (*p == '"') { if (!str(k)) return false; }
        else if (!strict && isalpha((unsigned char) *p)) { const char *b = p; while (p < e && (isalnum((unsigned char) *p) || *p == '_')) p++; k.assign(b, p); }
        else return false;
        sp(); if (p >= e) { incomplete = true; return false; } if (*p != ':') return false; p++;
      }
      J x; if (!val(x)) return false;
      j.kids.push_back({k, std::move(x)});
      sp(); if (p >= e) { incomplete = true; return false; }
      if (*p == ',') { p++; if (strict) { sp(); if (p < e && *p == close) return false; } }
      else if (strict && *p != close) return false;
    }
    depth--;
    return true;
  }
};
static bool parse(const std::string &s, J &j, bool strict, size_t *used = nullptr, bool *inc = nullptr) {
  Parser q{s.data(), s.data() + s.size(), strict};
  bool ok = q.val(j); if (used) *used = q.p - s.data(); if (inc) *inc = q.incomplete;
  return ok;
}
static std::string unesc(const std::string &s, bool *ok = nullptr) {
  std::string r; if (ok) *ok = true;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\') { r += s[i]; continue; }
    i++; const char *a = "\"\\/bfnrt", *b = "\"\\/\b\f\n\r\t", *q = strchr(a, s[i]);
    if (s[i] == 'u') { unsigned v = strtoul(s.substr(i + 1, 4).c_str(), NULL, 16); if (v > 255 && ok) *ok = false; r += (char) v; i += 4; } else r += b[q - a];
  }
  return r;
}
// the events of json_walk
static void events(const J &j, const std::string &name, bool named, const std::string &path, const std::string &src, std::string &out) {
  auto ev = [&](const char *t, const std::string &v, bool n) { out += std::string(t) + " " + (n && named ? "<" + name + ">" : "-") + " " + path + " " + v + "\n"; };
  if (j.t == 'o' || j.t == 'a') {
    ev(j.t == 'o' ? "OS" : "AS", "-", true);
    int i = 0; for (auto &k : j.kids) { events(k.second, j.t == 'o' ? k.first : std::to_string(i), true, path + (j.t == 'o' ? "." + k.first : "[" + std::to_string(i) + "]"), src, out); i++; }
    ev(j.t == 'o' ? "OE" : "AE", "*", false);
  } else ev(j.t == 's' ? "S" : j.t == 'n' ? "N" : j.t == 't' ? "T" : j.t == 'f' ? "F" : "Z", "(" + j.raw + ")", true);
}
struct W { std::string out; std::vector<std::pair<std::string, J>> ends; bool bad = false, quick = false; };
static void walk_cb(void *d, const char *name, size_t nl, const char *path, const struct json_token *t) {
  W *w = (W *) d; static const char *N[] = {"?", "S", "N", "T", "F", "Z", "OS", "OE", "AS", "AE"};
  bool end = t->type == JSON_TYPE_OBJECT_END || t->type == JSON_TYPE_ARRAY_END;
  w->out += std::string(N[t->type]) + " " + (name ? "<" + std::string(name, nl) + ">" : "-") + " " + path + " " + (t->ptr == NULL ? "-" : end ? "*" : "(" + std::string(t->ptr, t->len) + ")") + "\n";
  if (end && !w->quick) { J j; if (!parse(std::string(t->ptr, t->len), j, false)) w->bad = true; w->ends.push_back({path, j}); }
}
// texts are handed over without anything behind them
struct Buf { char *p; int n; explicit Buf(const std::string &s) : p((char *) malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); if (!n) { free(p); p = (char *) malloc(0); } } ~Buf() { free(p); } };

struct Out { std::string s; struct json_out o; };
static int grow(struct json_out *o, const char *s, size_t n) { ((Out *) o->u.data)->s.append(s, n); return n; }
#define OUT(x) Out x; x.o.printer = grow; x.o.u.data = &x

struct Node { std::string path; const J *j; const J *parent; bool objpath; };
static void nodes(const J &j, const std::string &p, const J *parent, bool op, std::vector<Node> &r) {
  r.push_back({p, &j, parent, op}); int i = 0;
  for (auto &k : j.kids) { nodes(k.second, p + (j.t == 'o' ? "." + k.first : "[" + std::to_string(i) + "]"), &j, op && j.t == 'o', r); i++; }
}
static std::vector<std::string> comps(const std::string &path) {      // ".a[0].b" -> .a [0] .b
  std::vector<std::string> r; for (char c : path) { if (c == '.' || c == '[') r.push_back(""); r.back() += c; } return r;
}
static std::string compfmt(const std::vector<std::string> &c, const std::string &conv) {
  std::string f, e; for (auto &x : c) { f += "{" + x.substr(1) + ": "; e += "}"; } return f + conv + e;
}
static bool plainkey(const std::string &path) { for (auto &c : comps(path)) if (c[0] != '.' || c.size() < 2 || !isalpha((unsigned char) c[1])) return false; return true; }

static void scan_cb(const char *s, int n, void *d) { ((std::string *) d)->assign(s, n); }

// the model of json_setf
static bool edit(J &j, const std::vector<std::string> &c, size_t i, const J *v, bool &changed) {
  bool last = i + 1 == c.size(); char k = c[i][0]; std::string key = c[i].substr(1);
  if (k == '.') {
    if (j.t != 'o') return false;
    for (size_t n = 0; n < j.kids.size(); n++) if (j.kids[n].first == key) {
      if (!last) return edit(j.kids[n].second, c, i + 1, v, changed);
      changed = true; if (v) j.kids[n].second = *v; else j.kids.erase(j.kids.begin() + n);
      return true;
    }
    if (!v) { changed = false; return true; }
    J x; if (last) x = *v; else { x.t = c[i + 1][0] == '.' ? 'o' : 'a'; if (!edit(x, c, i + 1, v, changed)) return false; }
    j.kids.push_back({key, x}); changed = true; return true;
  }
  if (j.t != 'a') return false;
  if (key == "]") { if (!last || !v) return false; j.kids.push_back({std::to_string(j.kids.size()), *v}); changed = true; return true; }
  size_t n = atoi(key.c_str()); if (n >= j.kids.size()) { if (!v) { changed = false; return true; } return false; }
  if (!last) return edit(j.kids[n].second, c, i + 1, v, changed);
  changed = true; if (v) j.kids[n].second = *v; else { j.kids.erase(j.kids.begin() + n); for (size_t m = 0; m < j.kids.size(); m++) j.kids[m].first = std::to_string(m); }
  return true;
}

static void doc(const std::string &s, mc::Ctx &c) {
  J j; size_t used; if (!parse(s, j, true, &used)) mc::fail("not a document: " + s);
  std::string core = s.substr(0, used), want;
  events(j, "", false, "", s, want);
  { // the events, and the number of bytes
    Buf b(s); W w; int n = json_walk(b.p, b.n, walk_cb, &w); c.transitions++; c.executions++;
    if (n != (int) used) mc::fail("json_walk returns " + std::to_string(n) + " instead of " + std::to_string(used));
    if (w.out != want) mc::fail("events:\n" + w.out + "instead of\n" + want);
    std::vector<Node> nd; nodes(j, "", nullptr, true, nd); size_t k = 0; std::vector<std::pair<std::string, const J *>> ends;
    std::function<void(const J &, const std::string &)> post = [&](const J &x, const std::string &p) { if (x.t != 'o' && x.t != 'a') return; int i = 0; for (auto &q : x.kids) { post(q.second, p + (x.t == 'o' ? "." + q.first : "[" + std::to_string(i) + "]")); i++; } ends.push_back({p, &x}); };
    post(j, "");
    if (w.bad || ends.size() != w.ends.size()) mc::fail("an end event has no complete value");
    for (k = 0; k < ends.size(); k++) if (ends[k].first != w.ends[k].first || !(*ends[k].second == w.ends[k].second)) mc::fail("the value of an end event is not the whole value at " + ends[k].first);
    int n0 = json_walk(b.p, b.n, NULL, NULL); if (n0 != n) mc::fail("without a callback json_walk returns " + std::to_string(n0));
  }
  // every truncation: incomplete
  if (j.t == 'o' || j.t == 'a' || j.t == 's') for (size_t i = 0; i < used; i++) { Buf b(s.substr(0, i)); W w; int n = json_walk(b.p, b.n, walk_cb, &w); c.transitions++; if (n != JSON_STRING_INCOMPLETE) mc::fail("the first " + std::to_string(i) + " bytes: " + std::to_string(n)); size_t cut = w.out.size() < 2 ? 0 : w.out.rfind('\n', w.out.size() - 2) + 1; if (want.compare(0, cut, w.out, 0, cut) != 0) mc::fail("truncated: other events"); }
  std::vector<Node> nd; nodes(j, "", nullptr, true, nd);
  bool dup = false; { std::set<std::string> seen; for (auto &n : nd) dup |= !seen.insert(n.path).second; }
  Buf b(s);
  { // pretty printing keeps the document
    OUT(o); int n = json_prettify(b.p, b.n, &o.o); c.transitions++;
    if (n != (int) used) mc::fail("json_prettify returns " + std::to_string(n));
    J q; if (!parse(o.s, q, true) || !(q == j)) mc::fail("pretty printed as " + o.s);
    OUT(o2); json_prettify(o.s.data(), o.s.size(), &o2.o); if (o2.s != o.s) mc::fail("pretty printing twice gives another text");
  }
  for (auto &x : nd) {
    // iteration
    if (!dup && (x.j->t == 'o' || x.j->t == 'a')) {
      void *h = NULL; size_t k = 0; struct json_token key, val; int idx;
      for (;; k++) {
        memset(&key, 0x55, sizeof key); memset(&val, 0x55, sizeof val); idx = -77; c.transitions++;
        h = x.j->t == 'o' ? json_next_key(b.p, b.n, h, x.path.c_str(), &key, &val) : json_next_elem(b.p, b.n, h, x.path.c_str(), &idx, &val);
        if (!h) break;
        if (k >= x.j->kids.size()) mc::fail("iteration of " + x.path + ": more than " + std::to_string(k) + " entries");
        auto &e = x.j->kids[k]; J q;
        if (x.j->t == 'o' ? std::string(key.ptr, key.len) != e.first : idx != (int) k) mc::fail("iteration of " + x.path + ": wrong key of entry " + std::to_string(k));
        std::string vt(val.ptr, val.len); if (val.type == JSON_TYPE_STRING) vt = "\"" + vt + "\"";
        if (!parse(vt, q, true) || !(q == e.second)) mc::fail("iteration of " + x.path + ": entry " + e.first + " has the value " + vt);
      }
      if (k != x.j->kids.size()) mc::fail("iteration of " + x.path + " stops after " + std::to_string(k) + " entries");
      h = x.j->t == 'o' ? json_next_key(b.p, b.n, NULL, x.path.c_str(), NULL, NULL) : json_next_elem(b.p, b.n, NULL, x.path.c_str(), NULL, NULL);
      if (!h != x.j->kids.empty()) mc::fail("iteration without key and value");
    }
    if (!dup && x.j->t == 'a') for (int i = -1; i <= (int) x.j->kids.size(); i++) {
      struct json_token t; c.transitions++; int n = json_scanf_array_elem(b.p, b.n, x.path.c_str(), i, &t);
      if ((n >= 0) != (i >= 0 && i < (int) x.j->kids.size())) mc::fail("json_scanf_array_elem " + x.path + "[" + std::to_string(i) + "] gives " + std::to_string(n));
      if (n >= 0) { std::string vt(t.ptr, t.len); if (t.type == JSON_TYPE_STRING) vt = "\"" + vt + "\""; J q; if (n != t.len || !parse(vt, q, true) || !(q == x.j->kids[i].second)) mc::fail("json_scanf_array_elem " + x.path + "[" + std::to_string(i) + "] is " + vt); }
    }
    // scanning one value
    if (!dup && x.objpath && plainkey(x.path)) {
      auto cs = comps(x.path); struct json_token t; memset(&t, 0, sizeof t);
      int n = json_scanf(b.p, b.n, compfmt(cs, "%T").c_str(), &t); c.transitions++;
      if (n != 1) mc::fail("json_scanf %T of " + x.path + " returns " + std::to_string(n));
      std::string vt(t.ptr, t.len), m; J q;
      if (!parse(t.type == JSON_TYPE_STRING ? "\"" + vt + "\"" : vt, q, true) || !(q == *x.j)) mc::fail("json_scanf %T of " + x.path + " is " + vt);
      n = json_scanf(b.p, b.n, compfmt(cs, "%M").c_str(), scan_cb, &m); if (n != 1 || m != vt) mc::fail("json_scanf %M of " + x.path + " is " + m);
      if (x.j->t == 't' || x.j->t == 'f') { bool v[2] = {x.j->t == 'f', true}; n = json_scanf(b.p, b.n, compfmt(cs, "%B").c_str(), &v); if (n != 1 || v[0] != (x.j->t == 't') || !v[1]) mc::fail("json_scanf %B of " + x.path); }
      if (x.j->t == 's' || x.j->t == 'z') {
        char *v = (char *) 1; bool ok; std::string u = unesc(x.j->raw, &ok); n = json_scanf(b.p, b.n, compfmt(cs, "%Q").c_str(), &v);
        if (x.j->t == 'z') { if (v != NULL) mc::fail("json_scanf %Q of null"); }
        else if (ok) { if (n != 1 || v == (char *) 1 || v == NULL) mc::fail("json_scanf %Q of " + x.path + " returns " + std::to_string(n)); std::string g(v, u.size() + 1); free(v); if (g != u + '\0') mc::fail("json_scanf %Q of " + x.path + " is " + vm::str(g)); }
        else if (n != 0) mc::fail("json_scanf %Q of an escape which is not supported returns " + std::to_string(n));
      }
      if (x.j->t == 'n') {
        double d = -1; n = json_scanf(b.p, b.n, compfmt(cs, "%lf").c_str(), &d); if (n != 1 || d != strtod(x.j->raw.c_str(), NULL)) mc::fail("json_scanf %lf of " + x.path);
        if (x.j->raw.find_first_of(".eE") == std::string::npos) {
          long l = strtol(x.j->raw.c_str(), NULL, 10); int i2[2] = {77, 77}; long l2 = 77; unsigned u2[2] = {77, 77};
          if (json_scanf(b.p, b.n, compfmt(cs, "%ld").c_str(), &l2) != 1 || l2 != l) mc::fail("json_scanf %ld of " + x.path);
          if (l == (int) l && (json_scanf(b.p, b.n, compfmt(cs, "%d").c_str(), i2) != 1 || i2[0] != l || i2[1] != 77)) mc::fail("json_scanf %d of " + x.path);
          if (l >= 0 && (json_scanf(b.p, b.n, compfmt(cs, "%u").c_str(), u2) != 1 || u2[0] != (unsigned) l || u2[1] != 77)) mc::fail("json_scanf %u of " + x.path);
        }
      }
      // a path which isn't there
      auto no = cs; no.push_back(".nokey"); struct json_token t2; if (json_scanf(b.p, b.n, compfmt(no, "%T").c_str(), &t2) != 0) mc::fail("json_scanf finds " + x.path + ".nokey");
    }
  }
  // several values with one format, in the order of the document and in reverse
  if (!dup && j.t == 'o') for (int conv = 0; conv < 2; conv++) for (int rev = 0; rev < 2; rev++) {
    std::string fmt; std::vector<const J *> leaves; bool ok = true;
    std::function<void(const J &)> f = [&](const J &x) {
      if (x.t == 'o' && !x.kids.empty()) {
        fmt += "{"; bool first = true;
        auto one = [&](const std::pair<std::string, J> &k) { if (!first) fmt += ", "; first = false; if (!isalpha((unsigned char) k.first[0])) ok = false; fmt += k.first + ": "; f(k.second); };
        if (rev) for (size_t i = x.kids.size(); i--;) one(x.kids[i]); else for (auto &k : x.kids) one(k);
        fmt += "}";
      } else { if (conv && x.t != 'n') ok = false; fmt += conv ? "%lf" : "%T"; leaves.push_back(&x); }
    };
    f(j);
    if (!ok || leaves.empty() || leaves.size() > 6) continue;
    struct json_token t[6]; double d[6] = {-1, -1, -1, -1, -1, -1}; memset(t, 0, sizeof t); c.transitions++;
    int n = conv ? json_scanf(b.p, b.n, fmt.c_str(), d, d + 1, d + 2, d + 3, d + 4, d + 5) : json_scanf(b.p, b.n, fmt.c_str(), t, t + 1, t + 2, t + 3, t + 4, t + 5);
    if (n != (int) leaves.size()) mc::fail("json_scanf " + fmt + " returns " + std::to_string(n));
    for (size_t i = 0; i < leaves.size(); i++) {
      if (conv) { if (d[i] != strtod(leaves[i]->raw.c_str(), NULL)) mc::fail("json_scanf " + fmt + ": value " + std::to_string(i)); continue; }
      std::string vt(t[i].ptr, t[i].len); J q; if (!parse(t[i].type == JSON_TYPE_STRING ? "\"" + vt + "\"" : vt, q, true) || !(q == *leaves[i])) mc::fail("json_scanf " + fmt + ": value " + std::to_string(i) + " is " + vt);
    }
  }
  c.validated++;
}

static J mk(const std::string &s) { J j; if (!parse(s, j, true)) mc::fail("bad value " + s); return j; }
static void setf(const std::string &path, const std::string &what, const std::string &s, mc::Ctx &c) {
  J j; size_t used; if (!parse(s, j, true, &used)) mc::fail("not a document");
  Buf b(s); OUT(o); int r = 0; J v; bool del = what == "del";
  if (del) r = json_setf(b.p, b.n, &o.o, path.c_str(), NULL);
  else if (what == "num") { r = json_setf(b.p, b.n, &o.o, path.c_str(), "%d", -42); v = mk("-42"); }
  else if (what == "str") { r = json_setf(b.p, b.n, &o.o, path.c_str(), "%Q", "x\"y"); v = mk("\"x\\\"y\""); }
  else { r = json_setf(b.p, b.n, &o.o, path.c_str(), "{k: [%d, %B]}", 1, 1); v = mk("{\"k\":[1,true]}"); }
  c.executions++; c.transitions++;
  J w = j, q; bool changed = false;
  if (!edit(w, comps(path), 0, del ? NULL : &v, changed)) mc::fail("bad case");
  if (!parse(o.s, q, true)) mc::fail("json_setf " + path + " " + what + " gives no JSON: " + o.s);
  if (!(q == w)) mc::fail("json_setf " + path + " " + what + " gives " + o.s + " instead of " + text(w));
  if ((r != 0) != changed) mc::fail("json_setf " + path + " " + what + " returns " + std::to_string(r));
  c.validated++;
}

static bool utf8(const std::string &s);
static int cb_m(struct json_out *o, va_list *ap) { int a = va_arg(*ap, int); const char *s = va_arg(*ap, const char *); return json_printf(o, "[%d, %Q]", a, s); }
// every way to print has to give the same
template <class... A> static std::string print(mc::Ctx &c, const char *fmt, A... a) {
  OUT(o); int n = json_printf(&o.o, fmt, a...); c.executions++;
  if (n != (int) o.s.size()) mc::fail("json_printf returns " + std::to_string(n) + " for " + o.s);
  for (size_t z : {(size_t) 0, (size_t) 1, o.s.size() / 2, o.s.size(), o.s.size() + 1, o.s.size() + 5}) {
    char *p = (char *) malloc(z); struct json_out b = JSON_OUT_BUF(p, z); int m = json_printf(&b, fmt, a...); c.transitions++;
    if (m != n) mc::fail("into " + std::to_string(z) + " bytes: returns " + std::to_string(m) + " instead of " + std::to_string(n));
    if (z) { size_t k = std::min(z - 1, o.s.size()); if (memcmp(p, o.s.data(), k) || p[k]) mc::fail("into " + std::to_string(z) + " bytes: no terminated prefix"); }
    free(p);
  }
  if (o.s.find('\0') == std::string::npos) { char *q = json_asprintf(fmt, a...); std::string g = q ? q : ""; free(q); if (g != o.s) mc::fail("json_asprintf gives " + g); }
  return o.s;
}
static void pr(const std::string &mode, const std::string &s, mc::Ctx &c) {
  auto need = [&](const std::string &got, const std::string &want) { if (got != want) mc::fail("printed " + got + " instead of " + want); };
  if (mode == "q") {                      // a string: reads back as the same
    Buf b(s); std::string t = print(c, "{a: %.*Q}", b.n, b.p); J j;
    if (utf8(s)) {
    if (!parse(t, j, true) || j.kids.size() != 1 || j.kids[0].second.t != 's') mc::fail("%.*Q gives no JSON: " + vm::str(t));
    need(vm::str(unesc(j.kids[0].second.raw)), vm::str(s));
    char *v = NULL; if (json_scanf(t.data(), t.size(), "{a: %Q}", &v) != 1 || std::string(v, s.size()) != s || v[s.size()]) mc::fail("read back with json_scanf: " + (v ? vm::str(std::string(v)) : "NULL"));
    free(v);
    if (s.find('\0') == std::string::npos) { std::string z = print(c, "%Q", s.c_str()); need("{\"a\": " + z + "}", t); }
    OUT(o); int n = json_escape(&o.o, b.p, b.n); if (n != (int) o.s.size() || "{\"a\": \"" + o.s + "\"}" != t) mc::fail("json_escape: " + o.s);
    int un = json_unescape(o.s.data(), o.s.size(), NULL, 0); if (un != b.n) mc::fail("json_unescape counts " + std::to_string(un));
    for (int z = 0; z <= b.n + 1; z++) { char *p = (char *) malloc(z); memset(p, 0x5a, z); int m = json_unescape(o.s.data(), o.s.size(), p, z); if (m != b.n || memcmp(p, s.data(), std::min(z, b.n)) || (z > b.n && p[b.n] != 0x5a)) mc::fail("json_unescape into " + std::to_string(z) + " bytes"); free(p); }
    }
    // hex and base64
    std::string h = print(c, "{h: %H, v: %V}", b.n, b.p, b.p, b.n), hx; char x[4]; for (unsigned char ch : s) { snprintf(x, 4, "%02x", ch); hx += x; }
    static const char *B = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string b64;
    for (size_t i = 0; i < s.size(); i += 3) { unsigned u = 0; int k = std::min((size_t) 3, s.size() - i); for (int q = 0; q < 3; q++) u = u << 8 | (q < k ? (unsigned char) s[i + q] : 0); for (int q = 0; q < 4; q++) b64 += q <= k ? B[u >> (18 - 6 * q) & 63] : '='; }
    need(h, "{\"h\": \"" + hx + "\", \"v\": \"" + b64 + "\"}");
    Buf hb(h); char *d1 = NULL, *d2 = NULL; int n1 = -1, n2 = -1;
    if (json_scanf(hb.p, hb.n, "{h: %H, v: %V}", &n1, &d1, &d2, &n2) != 2 || n1 != b.n || n2 != b.n || std::string(d1, n1 + 1) != s + '\0' || std::string(d2, n2 + 1) != s + '\0') mc::fail("%H / %V read back differently");
    free(d1); free(d2);
    if (b.n) { std::string up = h; for (char &ch : up) ch = ch >= 'a' && ch <= 'f' && &ch - &up[0] < (long) (7 + hx.size()) && &ch - &up[0] >= 7 ? toupper(ch) : ch; Buf ub(up); d1 = NULL; if (json_scanf(ub.p, ub.n, "{h: %H}", &n1, &d1) != 1 || std::string(d1, n1) != s) mc::fail("%H of upper case digits"); free(d1); }
  } else if (mode == "i") {               // numbers
    long long v = strtoll(s.c_str(), NULL, 10); std::string k = std::to_string(v), u = std::to_string((unsigned long long) v);
    need(print(c, "{a: %lld, b: %llu}", v, v), "{\"a\": " + k + ", \"b\": " + u + "}");
    need(print(c, "[%zu,%ld]", (size_t) v, (long) v), "[" + u + "," + k + "]");
    need(print(c, "[%d,%u,%i, %x]", (int) v, (int) v, (int) v, (int) v), "[" + std::to_string((int) v) + "," + std::to_string((unsigned) v) + "," + std::to_string((int) v) + ", " + [&] { char x[20]; snprintf(x, 20, "%x", (unsigned) v); return std::string(x); }() + "]");
    { char x[200]; snprintf(x, 200, "[%5d,%-8d,%+d,%08x,%X,%o,%*d,%.3d,%c,%%,%lx,%llu,%hd,%5d]", (int) v, (int) v, (int) v, (unsigned) v, (unsigned) v, (unsigned) v, 12, (int) v, (int) v, 'c', (long) v, v, (short) v, 8); need(print(c, "[%5d,%-8d,%+d,%08x,%X,%o,%*d,%.3d,%c,%%,%lx,%llu,%hd,%5d]", (int) v, (int) v, (int) v, (unsigned) v, (unsigned) v, (unsigned) v, 12, (int) v, (int) v, 'c', (long) v, v, (short) v, 8), x); }
    need(print(c, "%B%B", (int) v, 0), std::string((int) v ? "true" : "false") + "false");
    std::string t = "{\"a\":" + k + "}"; long l = 0; if (json_scanf(t.data(), t.size(), "{a:%ld}", &l) != 1 || l != v) mc::fail("%ld reads " + std::to_string(l));
    unsigned long ul = 0; t = "{\"a\":" + u + "}"; if (json_scanf(t.data(), t.size(), "{a:%lu}", &ul) != 1 || ul != (unsigned long) v) mc::fail("%lu reads " + std::to_string(ul));
    int i4[5] = {(int) v, 1, -1, (int) (v >> 32), 0}; std::string a4; for (int i = 0; i < 5; i++) a4 += (i ? ", " : "") + std::to_string(i4[i]);
    double d8[3] = {(double) v, 0.5, -1e10}; char dt[200]; snprintf(dt, 200, "[%g, %g, %g]", d8[0], d8[1], d8[2]);
    long long i8[2] = {v, -v}; std::string a8 = std::to_string(v) + ", " + std::to_string((long long) (0ull - v));
    need(print(c, "{x: %M, y: %M, z: %M, w: %M, e: %M, n:%d}", json_printf_array, i4, sizeof i4, sizeof i4[0], "%d", json_printf_array, d8, sizeof d8, sizeof d8[0], "%g", json_printf_array, i8, sizeof i8, sizeof i8[0], "%lld", cb_m, 5, "q\"", json_printf_array, (int *) NULL, (size_t) 4, (size_t) 4, "%d", 6),
         "{\"x\": [" + a4 + "], \"y\": " + dt + ", \"z\": [" + a8 + "], \"w\": [5, \"q\\\"\"], \"e\": [], \"n\":6}");
  } else if (mode == "d") {
    double v = strtod(s.c_str(), NULL); for (const char *f : {"%f", "%g", "%.17g", "%10.3f", "%.0f", "%e", "%E", "%G", "%-12.4g"}) {
      char x[400]; snprintf(x, sizeof x, f, v); need(print(c, (std::string("[") + f + ",%d," + f + "]").c_str(), v, 7, v), std::string("[") + x + ",7," + x + "]"); }
    char t[100]; snprintf(t, sizeof t, "{\"a\":%.17g}", v); double g = 0; if (json_scanf(t, strlen(t), "{a:%lf}", &g) != 1 || g != v) mc::fail("%lf reads " + std::to_string(g));
    float fl = 0; if (json_scanf(t, strlen(t), "{a:%f}", &fl) != 1 || fl != (float) v) mc::fail("%f reads " + std::to_string(fl));
  } else if (mode == "s") {               // text which is copied, strings of every length, NULL
    for (const char *f : {"%s", "%.*s"}) { std::string w = std::string("[\"") + (f[1] == 's' ? s : s.substr(0, s.size() / 2)) + "\",3]"; std::string fmt = std::string("[\"") + f + "\",%d]"; need(f[1] == 's' ? print(c, fmt.c_str(), s.c_str(), 3) : print(c, fmt.c_str(), (int) s.size() / 2, s.c_str(), 3), w); }
    need(print(c, "{n: %Q, m: %.*Q, a_b1: [%d, 2.5, -1, true]}", (char *) NULL, 3, (char *) NULL, 9), "{\"n\": null, \"m\": null, \"a_b1\": [9, 2.5, -1, \"true\"]}");
  } else mc::fail("bad case");
  c.validated++;
}

static bool utf8(const std::string &s) {
  for (size_t i = 0; i < s.size();) { unsigned char c = s[i++]; if (c < 0x80) continue; int n = c >= 0xf0 && c < 0xf8 ? 3 : c >= 0xe0 ? 2 : 1; if (c < 0xc2 || c >= 0xf8) return false; while (n--) if (i >= s.size() || (s[i++] & 0xc0) != 0x80) return false; }
  return true;
}
static void any(const std::string &s, mc::Ctx &c) {         // any text
  J j; size_t used; bool inc = false; bool ok = parse(s, j, false, &used, &inc), strict; { J k; size_t u; strict = parse(s, k, true, &u) && s.find_first_not_of(" \t\r\n", u) == std::string::npos; }
  Buf b(s); W w; w.quick = true; int n = json_walk(b.p, b.n, walk_cb, &w); c.transitions++; c.executions++;
  if (!utf8(s)) { c.validated++; return; }      // not a JSON text; only safety is judged
  if (strict && n != (int) used) mc::fail("JSON is not accepted: " + std::to_string(n));
  if (!ok && n >= 0) mc::fail("accepted: " + std::to_string(n));
  if (ok && n != (int) used) mc::fail("gives " + std::to_string(n) + " instead of " + std::to_string(used));
  if (!ok && inc && n != JSON_STRING_INCOMPLETE) mc::fail("incomplete, but " + std::to_string(n));
  if (!ok && !inc && n != JSON_STRING_INVALID) mc::fail("invalid, but " + std::to_string(n));
  if (ok && s.size() < 200) { std::string want; events(j, "", false, "", s, want); if (want != w.out) mc::fail("events:\n" + w.out + "instead of\n" + want); }
  if (s.size() > 3000) { c.validated++; return; }
  OUT(o); int m = json_prettify(b.p, b.n, &o.o); if (m != n) mc::fail("json_prettify returns " + std::to_string(m) + ", json_walk " + std::to_string(n));
  struct json_token t; json_scanf(b.p, b.n, "{a: %T}", &t); json_next_key(b.p, b.n, NULL, "", &t, &t); json_next_elem(b.p, b.n, NULL, "", NULL, &t);
  c.validated++;
}
static void unescape(const std::string &s, mc::Ctx &c) {    // any text as the inside of a string
  Buf b(s); std::string want; bool bad = false;
  for (size_t i = 0; i < s.size() && !bad; i++) {
    if (s[i] != '\\') { want += s[i]; continue; }
    const char *a = "\"\\/bfnrt", *z = "\"\\/\b\f\n\r\t", *q;
    if (++i >= s.size()) bad = true;
    else if (s[i] == 'u') { if (i + 4 >= s.size() || s[i + 1] != '0' || s[i + 2] != '0' || !Parser::hx(s[i + 3]) || !Parser::hx(s[i + 4])) { bad = true; break; } want += (char) strtol(s.substr(i + 3, 2).c_str(), NULL, 16); i += 4; }
    else if (s[i] && (q = strchr(a, s[i]))) want += z[q - a];
    else bad = true;
  }
  int n = json_unescape(b.p, b.n, NULL, 0); c.executions++; c.transitions++;
  if (bad ? n >= 0 : n != (int) want.size()) mc::fail("json_unescape returns " + std::to_string(n) + (bad ? " for a bad escape" : ""));
  if (!bad) { std::string g(b.n, 'Z'); n = json_unescape(b.p, b.n, &g[0], g.size()); if (n != (int) want.size() || g.substr(0, n) != want) mc::fail("json_unescape gives " + vm::str(g)); n = json_unescape(b.p, b.n, b.p, b.n); if (n != (int) want.size() || std::string(b.p, n) != want) mc::fail("json_unescape in place"); }
  c.validated++;
}
static void file(const std::string &s, mc::Ctx &c) {
  std::string d = (getenv("MC_TMP") ? getenv("MC_TMP") : "/tmp") + std::string("/j") + std::to_string(getpid());
  mc::spit(d, s); char *p = json_fread(d.c_str()); std::string g = p ? std::string(p, s.size() + 1) : std::string(1, 0); free(p); c.executions++; c.transitions += 3;
  if (g != s + '\0') mc::fail("json_fread gives something else");
  J j, q; size_t used; bool ok = parse(s, j, false, &used) && s.find('\0') == std::string::npos;
  int n = json_prettify_file(d.c_str()); std::string after = mc::slurp(d);
  if (!ok) { if (n >= 0) mc::fail("json_prettify_file returns " + std::to_string(n)); if (after != s) mc::fail("json_prettify_file failed but changed the file: " + after); }
  else { if (n != (int) used) mc::fail("json_prettify_file returns " + std::to_string(n)); if (!parse(after, q, true) || !(q == j)) mc::fail("json_prettify_file wrote " + after); }
  n = json_fprintf(d.c_str(), "{a: %Q}", s.c_str()); after = mc::slurp(d); OUT(o); int m = json_printf(&o.o, "{a: %Q}", s.c_str());
  if (n != m || after.compare(0, o.s.size(), o.s) || after.size() > o.s.size() + 1) mc::fail("json_fprintf wrote " + after);
  unlink(d.c_str());
  if (json_fread(d.c_str()) || json_prettify_file(d.c_str()) >= 0) mc::fail("a missing file");
  c.validated++;
}

static void check(const std::string &t, mc::Ctx &c) {
  size_t sp = t.find(' '); std::string m = t.substr(0, sp), r = t.substr(sp + 1);
  if (m == "doc") doc(r, c);
  else if (m == "any") any(r, c);
  else if (m == "une") unescape(r, c);
  else if (m == "file") file(r, c);
  else if (m == "set") { size_t a = r.find(' '), b = r.find(' ', a + 1); setf(r.substr(0, a), r.substr(a + 1, b - a - 1), r.substr(b + 1), c); }
  else pr(m, r, c);
  c.state(t);
}

static void enumerate(bool th, const Emit &emit) {
  Strs S0 = {"1", "\"s\"", "null", "true"}, K = {"a", "b", "ab"};
  auto grow1 = [&](const Strs &in, const Strs &second, const std::function<void(const std::string &)> &f) {
    f("{}"); f("[]");
    for (auto &x : in) { f("[" + x + "]"); for (auto &k : K) f("{\"" + k + "\":" + x + "}"); }
    for (auto &x : in) for (auto &y : second) { f("[" + x + "," + y + "]"); for (auto &k : K) for (auto &l : K) if (k != l) f("{\"" + k + "\":" + x + ",\"" + l + "\":" + y + "}"); }
  };
  Strs D1 = S0; grow1(S0, S0, [&](const std::string &s) { D1.push_back(s); });
  Strs D1s = {"1", "\"s\"", "{}", "[]", "{\"a\":1}", "{\"ab\":null,\"b\":[2]}", "[3,{\"b\":true}]", "[[],{}]"};
  Strs D2; grow1(D1, th ? D1 : D1s, [&](const std::string &s) { D2.push_back(s); }); for (auto &x : D1s) for (auto &y : D1) { D2.push_back("{\"b\":" + x + ",\"a\":" + y + "}"); D2.push_back("[" + x + "," + y + "]"); }
  Strs V = {"0", "-1", "12", "-2.5", "1e3", "1.5E-7", "2147483647", "-2147483648", "4294967295", "9223372036854775807", "false", "\"\"", "\"\\n\\\"\\\\\\/\\b\\f\\r\\t\"", "\"\\u0041\\u00e9\\u00FF\\u000a\"", "\"\\u0000x\"", "\"\\u1234\"", "\"\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\"", "\"a longer string with [brackets], {braces}: and \\\"quotes\\\"\"", "\"fa014f\""};
  Strs all = D1; for (auto &v : V) { all.push_back(v); for (auto &w : {"{\"a\":@}", "[@]", "{\"b\":1,\"a\":@}", "{\"a\":{\"b\":@},\"b\":@}", "[1,[@,@]]", "{\"a\":[@],\"key_1\":@,\"K9\":{\"z\":@}}"}) { std::string s = w; for (size_t p; (p = s.find('@')) != std::string::npos;) s.replace(p, 1, v); all.push_back(s); } }
  for (auto &x : {"{\"a\":{\"a\":{\"a\":{\"a\":1,\"b\":2},\"b\":3},\"b\":4},\"b\":5}", "[[[[1],2],3],4]", "{\"a\":[{\"a\":[{\"a\":1}]}],\"b\":{\"c\":{\"d\":[]}},\"c\":0}", "[0,1,2,3,4,5,6,7,8,9,10,11]", "{\"a\":1,\"b\":2,\"c\":3,\"d\":4}", "{\"a\":1,\"b\":{},\"c\":[],\"d\":{\"e\":5}}", "{\"k\":1,\"kk\":2,\"kkk\":{\"k\":3,\"kk\":4}}"}) all.push_back(x);
  for (auto &s : all) {
    J j; parse(s, j, true);
    for (auto &sp : {"", " ", "\n\t", "\r\n "}) { emit("doc " + text(j, sp)); emit("doc " + std::string(sp) + text(j, sp) + sp + (*sp || j.t == 'n' ? "" : "x")); }
  }
  for (auto &s : D2) { emit("doc " + s); }
  // edits
  Strs docs = all; if (th) docs.insert(docs.end(), D2.begin(), D2.end()); else for (size_t i = 0; i < D2.size(); i += 3) docs.push_back(D2[i]);
  for (auto &s : docs) {
    J j; parse(s, j, true); if (j.t != 'o' && j.t != 'a') continue;
    std::vector<Node> nd; nodes(j, "", nullptr, true, nd); Strs paths;
    for (auto &n : nd) { if (!n.path.empty()) paths.push_back(n.path); if (n.j->t == 'o') for (auto &k : {".a", ".z", ".z.y", ".z.y.x", ".abc"}) paths.push_back(n.path + k); if (n.j->t == 'a') paths.push_back(n.path + "[]"); }
    std::sort(paths.begin(), paths.end()); paths.erase(std::unique(paths.begin(), paths.end()), paths.end());
    for (auto &p : paths) for (auto &w : {"num", "obj", "del", "str"}) {
      J x = j, v = mk("0"); bool ch; if (!edit(x, comps(p), 0, strcmp(w, "del") ? &v : NULL, ch)) continue;
      emit("set " + p + " " + w + " " + s); if (s.size() < 30) emit("set " + p + " " + w + " " + text(j, " "));
    }
  }
  // any text
  Strs T = {"{", "}", "[", "]", ",", ":", "\"a\"", "1", "true", "x", " ", "-", "\"", "\\", "0x1", "nul"};
  std::function<void(const std::string &, int)> seq = [&](const std::string &s, int d) { emit("any " + s); if (d) for (auto &t : T) seq(s + t, d - 1); };
  seq("", th ? 5 : 4);
  Strs L = {"{", "[", "\"a\":", "\"a\"", "1", ",", "}", "]", "{}", "b:"};
  std::function<void(const std::string &, int)> seq2 = [&](const std::string &s, int d) { emit("any " + s); if (d) for (auto &t : L) seq2(s + t, d - 1); };
  seq2("", th ? 7 : 5);
  Strs NC = {"-", "0", "1", "9", ".", "e", "E", "+", "x", "f", "g"};
  std::function<void(const std::string &, int)> seqn = [&](const std::string &s, int d) { if (!s.empty()) { emit("any " + s); emit("any [" + s + "]"); } if (d) for (auto &t : NC) seqn(s + t, d - 1); };
  seqn("", th ? 6 : 4);
  for (int c0 = 0; c0 < 256; c0++) for (auto &w : {"@", "\"@\"", "\"\\@\"", "[@]", "{@:1}", "{a@:1}", "{\"a\"@1}", "[1@2]", "\"\\u00@0\"", "\"\\u000@\"", "n@ll", "1@", "-@", "{\"@\":1}", "@1"}) { std::string s = w; s.replace(s.find('@'), 1, std::string(1, (char) c0)); emit("any " + s); emit("any " + s + " "); }
  for (int n : {1, 2, 998, 999, 1000, 1001, 1002, 5000, 100000}) { emit("any " + std::string(n, '[')); emit("any " + std::string(n, '[') + std::string(n, ']')); if (n < 6000) { std::string o; for (int i = 0; i < n; i++) o += "{\"a\":"; emit("any " + o); } }
  for (auto &e : {"[]", "{}", "1", "[1]", "{\"a\":[]}", "[{}]", "\"\""}) for (int n : {300, 1001, 2100}) for (auto &sep : {",", " "}) {
    std::string x = "[", y = "{"; for (int i = 0; i < n; i++) { x += (i ? sep : "") + std::string(e); y += (i ? sep : "") + ("k" + std::to_string(i)) + ":" + e; }
    emit("any " + x + "]"); emit("any " + y + "}"); emit("any " + x); emit("any [" + x + "]," + y + "}]");
  }
  // the inside of strings
  Strs U = {"a", "\\", "u", "0", "4", "F", "n", "\"", "/", "g", std::string(1, 0), "\xe9"};
  std::function<void(const std::string &, int)> sequ = [&](const std::string &s, int d) { emit("une " + s); if (d) for (auto &t : U) sequ(s + t, d - 1); };
  sequ("", th ? 6 : 4);
  for (int a = 0; a < 256; a++) { emit("une \\" + std::string(1, (char) a)); emit("une \\u00" + std::string(1, (char) a) + "0"); emit("une \\u000" + std::string(1, (char) a)); emit("une \\u00" + std::string(1, (char) a)); }
  // printing
  emit("q ");
  for (int a = 0; a < 256; a++) { emit("q " + std::string(1, (char) a)); emit("q x" + std::string(1, (char) a)); emit("q " + std::string(1, (char) a) + "xy"); for (int b = th ? 0 : a % 7; b < 256; b += th ? 1 : 7) { emit("q " + std::string(1, (char) a) + std::string(1, (char) b)); emit("q " + std::string(1, (char) a) + std::string(1, (char) b) + std::string(1, (char) (a ^ b))); } }
  for (size_t n = 0; n < 70; n++) { std::string s; for (size_t i = 0; i < n; i++) s += (char) (n & 1 ? 'a' + i % 26 : i * 37 + n); emit("q " + s); std::string t; for (size_t i = 0; i < n; i++) t += (char) ('a' + i % 26); emit("s " + t); }
  for (long long v : {0LL, 1LL, -1LL, 7LL, 2147483647LL, -2147483648LL, 4294967295LL, 4294967296LL, -4294967297LL, LLONG_MAX, LLONG_MIN + 1, LLONG_MIN, 1000000000000LL}) for (long long d : {-1LL, 0LL, 1LL}) emit("i " + std::to_string((long long) ((unsigned long long) v + d)));
  for (int b = 0; b < 63; b++) { emit("i " + std::to_string(1LL << b)); emit("i " + std::to_string(-(1LL << b))); }
  for (auto &m : {"0", "1", "-1.5", "3.14159265358979", "9.999999e", "1.25e"}) for (int e : {-300, -30, -7, -1, 0, 1, 5, 17, 21, 40, 300}) { std::string s = m; if (s.back() != 'e') { if (e == 0) emit("d " + s); continue; } emit("d " + s + std::to_string(e)); emit("d -" + s + std::to_string(e)); }
  // files
  for (auto &s : {"{}", "{\"a\":1}", "{a:[1,2,{b:\"x\"}]}", "[1,2", "{\"a\"", "x", "[1] trailing", "\"text\"", " {\"a\":{}}\n", "[1,[2,[3,[4]]]]", "nul", "[tru]"}) emit("file " + std::string(s));
  for (size_t i = 0; i < docs.size(); i += th ? 7 : 40) { emit("file " + docs[i]); emit("file " + docs[i].substr(0, docs[i].size() - 1) + "!"); }
}

int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C23";
  d.rule = "a case is a document (all trees up to a size over some keys and values, in four spacings) on which every reader runs, with every truncation; a document with an edit at each existing and missing path; a text over the token alphabet; a value which is printed by every printer into buffers of every relevant size. Non-trivial: all of them";
  d.enumerate = enumerate; d.check = check;
  d.assumptions = {"keys contain none of . [ ] (the path language has no escape for them)", "paths are shorter than JSON_MAX_PATH_LEN (longer ones are cut)"};
  return mc::run(d, argc, argv);
}
