// C16: buffers, varints and string helpers are exact
#include "common.hpp"
#include <climits>
#include <memory>
extern "C" {
#include "common/mbuf.h"
#include "common/cs_varint.h"
#include "common/mg_str.h"
#include "common/str_util.h"
}
extern "C" void __asan_poison_memory_region(void const volatile *addr, size_t size);

// ---- mbuf
struct Op { char k; long a, b; };
static std::vector<Op> mbops() {
  std::vector<Op> r = {{'a', 0, 0}, {'a', 1, 0}, {'a', 3, 0}, {'a', 100, 0}, {'r', 1, 0}, {'r', 2, 0}, {'r', -1, 0}, {'r', -2, 0}, {'t', 0, 0}, {'m', 0, 0}, {'c', 0, 0}, {'F', 2, 0}, {'F', 0, 0}, {'H', 0, 0}, {'f', 0, 0}};
  for (long p : {0L, -1L, -3L}) for (long n : {0L, 1L, 5L}) r.push_back({'i', p, n});
  r.push_back({'n', -1, 2});
  for (long z : {0L, 4L, -1L, -2L, -3L, 2000L}) r.push_back({'z', z, 0});
  return r;
}
static std::string opstr(const Op &o) { return std::string(1, o.k) + std::to_string(o.a) + "," + std::to_string(o.b); }
struct MB {
  struct mbuf b; std::string m; unsigned char next = 1;
  std::string fresh(long n) { std::string s; while (n-- > 0) s += (char) next++; return s; }
  explicit MB(size_t init) { memset(&b, 0x55, sizeof b); mbuf_init(&b, init); check(init); if (b.size != init) mc::fail("init: size"); }
  ~MB() { mbuf_free(&b); }
  void check(size_t) {
    if (b.len != m.size()) mc::fail("length " + std::to_string(b.len) + " instead of " + std::to_string(m.size()));
    if (b.len > b.size) mc::fail("length exceeds the size");
    if (b.size && !b.buf) mc::fail("no buffer");
    if (b.size && __asan_region_is_poisoned(b.buf, b.size)) mc::fail("the buffer is smaller than its size says");
    if (b.len && memcmp(b.buf, m.data(), b.len)) mc::fail("contents differ: " + vm::str(b.buf, b.len) + " instead of " + vm::str(m));
  }
  void op(const Op &o) {
    size_t len = m.size();
    auto cp = [](const std::string &s) { char *p = (char *) malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); if (s.empty()) { free(p); p = (char *) malloc(0); } return p; };
    switch (o.k) {
      case 'a': { std::string s = fresh(o.a); char *p = cp(s); size_t r = mbuf_append(&b, p, s.size()); free(p); if (r != s.size()) mc::fail("append returned " + std::to_string(r)); m += s; break; }
      case 'i': { size_t pos = o.a == 0 ? 0 : o.a == -1 ? len : len / 2; std::string s = fresh(o.b); char *p = cp(s); size_t r = mbuf_insert(&b, pos, p, s.size()); free(p); if (r != s.size()) mc::fail("insert returned " + std::to_string(r)); m.insert(pos, s); break; }
      case 'n': { size_t r = mbuf_insert(&b, len, NULL, o.b); if (r != (size_t) o.b) mc::fail("insert returned " + std::to_string(r)); std::string s = fresh(o.b); if (b.len != len + o.b) mc::fail("length after insert"); if (__asan_region_is_poisoned(b.buf, b.len)) mc::fail("buffer too small"); memcpy(b.buf + len, s.data(), s.size()); m += s; break; }
      case 'r': { size_t n = o.a == -1 ? len : o.a == -2 ? len + 1 : o.a; mbuf_remove(&b, n); if (n <= len) m.erase(0, n); break; }
      case 't': mbuf_trim(&b); check(0); if (b.size != b.len) mc::fail("trim left size " + std::to_string(b.size)); break;
      case 'm': { struct mbuf to; memset(&to, 0x77, sizeof to); struct mbuf was = b; mbuf_move(&b, &to); if (b.buf || b.len || b.size) mc::fail("move left something behind"); if (to.buf != was.buf || to.len != was.len || to.size != was.size) mc::fail("move lost something"); mbuf_free(&b); b = to; break; }
      case 'c': mbuf_clear(&b); m.clear(); break;
      case 'f': mbuf_free(&b); if (b.buf || b.len || b.size) { if (b.buf) mc::fail("free left a buffer"); } m.clear(); if (b.len) mc::fail("free left a length"); break;
      case 'F': { std::string s = fresh(o.a); char *p = cp(s); size_t r = mbuf_append_and_free(&b, p, s.size()); if (r != s.size()) mc::fail("append_and_free returned " + std::to_string(r)); m += s; break; }
      case 'H': { size_t sz = b.size; size_t r = mbuf_append(&b, NULL, (size_t) 1 << 46); if (r != 0 || b.size != sz) mc::fail("an impossible append returned " + std::to_string(r)); break; }
      case 'z': { size_t n = o.a == -1 ? len : o.a == -2 ? (len ? len - 1 : 0) : o.a == -3 ? len + 1 : o.a; size_t sz = b.size; mbuf_resize(&b, n); check(0); if (b.size != (n >= len ? n : sz)) mc::fail("resize to " + std::to_string(n) + " left size " + std::to_string(b.size)); break; }
    }
    check(0);
  }
};

// ---- strings
static const char ALPHA[] = {'a', 'B', 'b', '\0', (char) 0x80, ' '};
static std::vector<std::string> strings(size_t maxlen, const std::string &alpha) {
  std::vector<std::string> r = {""}; size_t b = 0;
  for (size_t n = 0; n < maxlen; n++) { size_t e = r.size(); for (; b < e; b++) for (char c : alpha) r.push_back(std::string(r[b]) + c); }
  return r;
}
static std::string alpha() { return std::string(ALPHA, sizeof ALPHA); }
static int sgn(long x) { return x < 0 ? -1 : x > 0; }
static int cmp(const std::string &a, const std::string &b) { size_t n = std::min(a.size(), b.size()); int r = memcmp(a.data(), b.data(), n); return r ? sgn(r) : sgn((long) a.size() - (long) b.size()); }
static std::string low(std::string s) { for (auto &c : s) c = tolower((unsigned char) c); return s; }
// an exact heap copy, so that reading beyond it is seen
struct Buf { char *p; size_t n; Buf(const std::string &s, bool nul = false) : n(s.size()) { p = (char *) malloc(n + nul); memcpy(p, s.data(), n); if (nul) p[n] = 0; } ~Buf() { free(p); } struct mg_str mg() { return mg_mk_str_n(p, n); } };

static void pair(const std::string &a, const std::string &b) {
  Buf A(a), B(b); struct mg_str x = A.mg(), y = B.mg();
  auto bad = [&](const char *f, long got, long want) { mc::fail(std::string(f) + "(" + vm::str(a) + "," + vm::str(b) + ") = " + std::to_string(got) + " instead of " + std::to_string(want)); };
  int c = cmp(a, b), ci = cmp(low(a), low(b));
  if (sgn(mg_strcmp(x, y)) != c) bad("mg_strcmp", mg_strcmp(x, y), c);
  if (sgn(mg_strcasecmp(x, y)) != ci) bad("mg_strcasecmp", mg_strcasecmp(x, y), ci);
  for (size_t n = 0; n <= 5; n++) { int w = cmp(a.substr(0, n), b.substr(0, n)); if (sgn(mg_strncmp(x, y, n)) != w) bad("mg_strncmp", mg_strncmp(x, y, n), w); }
  size_t at = a.find(b); const char *f = mg_strstr(x, y);
  if ((at == std::string::npos) != (f == NULL) || (f && (size_t) (f - x.p) != at)) bad("mg_strstr", f ? f - x.p : -1, (long) at);
  int sw = a.compare(0, b.size(), b) == 0 && a.size() >= b.size();
  if (mg_str_starts_with(x, y) != sw) bad("mg_str_starts_with", mg_str_starts_with(x, y), sw);
  if (b.find('\0') == std::string::npos) {
    Buf Z(b, true);
    if (a.find('\0') == std::string::npos) {
      Buf AZ(a, true);
      int v = mg_vcasecmp(&x, Z.p); if ((v == 0) != (ci == 0)) bad("mg_vcasecmp", v, ci);
      v = mg_casecmp(AZ.p, Z.p); if (sgn(v) != ci) bad("mg_casecmp", v, ci);
      for (size_t n = 0; n <= 5; n++) { v = mg_ncasecmp(AZ.p, Z.p, n); int w = cmp(low(a.substr(0, n)), low(b.substr(0, n))); if (sgn(v) != w) bad("mg_ncasecmp", v, w); }
      for (size_t n = 0; n <= a.size(); n++) {
        if (n == 0) continue;
        const char *q = c_strnstr(AZ.p, Z.p, n); size_t w = a.substr(0, n).find(b);
        if (b.empty()) w = 0;
        if ((w == std::string::npos) != (q == NULL) || (q && (size_t) (q - AZ.p) != w)) bad("c_strnstr", q ? q - AZ.p : -1, (long) w);
      }
    }
    int v = mg_vcmp(&x, Z.p); if ((v == 0) != (c == 0)) bad("mg_vcmp", v, c);
    if (a.find('\0') == std::string::npos && sgn(v) != c) bad("mg_vcmp", v, c);
  }
}
static void single(const std::string &a) {
  Buf A(a), Z(a, true); struct mg_str x = A.mg();
  struct mg_str d = mg_strdup(x); if (d.len != a.size() || (d.len && (d.p == x.p || memcmp(d.p, x.p, d.len)))) mc::fail("mg_strdup(" + vm::str(a) + ")"); mg_strfree(&d); if (d.p || d.len) mc::fail("mg_strfree");
  d = mg_strdup_nul(x); if (d.len != a.size() || (d.len && (memcmp(d.p, x.p, d.len) || __asan_region_is_poisoned((void *) d.p, d.len + 1) || d.p[d.len]))) mc::fail("mg_strdup_nul(" + vm::str(a) + ")"); mg_strfree(&d);
  for (int ch : {(int) 'a', (int) 'B', 0, (int) (char) 0x80, (int) 'z'}) { size_t at = a.find((char) ch); const char *p = mg_strchr(x, ch); if ((at == std::string::npos) != !p || (p && (size_t) (p - x.p) != at)) mc::fail("mg_strchr(" + vm::str(a) + "," + std::to_string(ch) + ")"); }
  struct mg_str s = mg_strstrip(x); size_t b = 0, e = a.size(); while (b < e && isspace((unsigned char) a[b])) b++; while (e > b && isspace((unsigned char) a[e - 1])) e--;
  if (s.len != e - b || (s.len && s.p != x.p + b)) mc::fail("mg_strstrip(" + vm::str(a) + ")");
  for (size_t n = 0; n <= a.size() + 2; n++) { size_t w = std::min(n, strlen(Z.p)); if (n <= a.size() ? c_strnlen(A.p, n) != w : c_strnlen(Z.p, n) != w) mc::fail("c_strnlen(" + vm::str(a) + "," + std::to_string(n) + ")"); }
  if (mg_mk_str(Z.p).len != strlen(Z.p) || mg_mk_str(NULL).len) mc::fail("mg_mk_str");
  char *hex = (char *) malloc(2 * a.size() + 1), *back = (char *) malloc(a.size() + 1); cs_to_hex(hex, (unsigned char *) A.p, a.size());
  std::string want; for (unsigned char ch : a) { char t[4]; snprintf(t, 4, "%02x", ch); want += t; }
  if (want != hex) mc::fail("cs_to_hex(" + vm::str(a) + ") = " + hex);
  cs_from_hex(back, hex, 2 * a.size()); if (memcmp(back, a.data(), a.size()) || back[a.size()]) mc::fail("cs_from_hex(" + std::string(hex) + ")");
  for (char *q = hex; *q; q++) *q = toupper(*q);
  cs_from_hex(back, hex, 2 * a.size()); if (memcmp(back, a.data(), a.size())) mc::fail("cs_from_hex(" + std::string(hex) + ")");
  free(hex); free(back);
}
static void commas(const std::string &l) {
  Buf Z(l, true); std::string got, want; struct mg_str v, e; const char *p = Z.p; int n = 0;
  struct mg_str lst = mg_mk_str_n(Z.p, l.size());
  while ((p = mg_next_comma_list_entry(p, &v, &e)) != NULL && n++ < 20) got += vm::str(v.p, v.len) + "=" + vm::str(e.p, e.len) + ";";
  std::string got2; n = 0;
  while ((lst = mg_next_comma_list_entry_n(lst, &v, NULL)).p != NULL && n++ < 20) got2 += vm::str(v.p, v.len) + ";";
  std::string want2; size_t i = 0;
  while (i < l.size()) {      // a trailing comma ends the list
    size_t c = l.find(',', i); std::string t = l.substr(i, c == std::string::npos ? c : c - i); want2 += vm::str(t) + ";";
    size_t q = t.find('='); want += vm::str(t.substr(0, q)) + "=" + (q == std::string::npos ? "''" : vm::str(t.substr(q + 1))) + ";";
    if (c == std::string::npos) break;
    i = c + 1;
  }
  if (got != want || got2 != want2) mc::fail("list " + vm::str(l) + ": " + got + " " + got2 + " instead of " + want + " " + want2);
}

// ---- formats
static const long LV[] = {0, 1, -1, 9, 10, -10, 255, 4096, 123456, -123456, INT_MAX, INT_MIN, (long) UINT_MAX, LONG_MAX, LONG_MIN, LONG_MIN + 1, 0x7fffffffffffff00l, (long) 0x8000000000000001ul, -2};
static const char *SV[] = {"", "a", "abc", "a string which is somewhat longer than the others", "tab\tx"};
static std::string show1(const std::string &f, long arg) { return "format \"" + f + "\" with " + std::to_string(arg); }
template <class... T> static void fmt1(const std::string &f, const std::string &desc, mc::Ctx &c, T... a) {
  char ref[600]; int want = snprintf(ref, sizeof ref, f.c_str(), a...);
  Buf F(f, true);
  for (size_t n = 0; n <= (size_t) want + 3; n++) {
    if (n > 12 && n + 4 < (size_t) want && n % 5) continue;
    char *b = (char *) malloc(n); memset(b, 'X', n);
    int got = c_snprintf(b, n, F.p, a...); c.transitions++;
    std::string w = n ? std::string(ref).substr(0, n - 1) : "";
    if (got != want || (n && (strnlen(b, n) != w.size() || w != std::string(b, w.size())))) { std::string g(b, strnlen(b, n)); free(b); mc::fail(desc + " size " + std::to_string(n) + ": returned " + std::to_string(got) + ", wrote " + vm::str(g) + " instead of " + std::to_string(want) + " " + vm::str(w)); }
    for (size_t i = w.size() + 1; i < n; i++) if (b[i] != 'X') mc::fail(desc + ": wrote after the terminator");
    free(b);
    char st[64], *p = st; if (n <= sizeof st) {
      memset(st, 'Y', sizeof st);
      int l = mg_asprintf(&p, n, F.p, a...);
      if (l != want || std::string(p, l) != ref || p[l] || (p == st) != ((size_t) want < n)) mc::fail(desc + ": mg_asprintf");
      for (size_t i = n; i < sizeof st; i++) if (st[i] != 'Y') mc::fail(desc + ": mg_asprintf wrote beyond the given size");
      if (p != st) free(p);
    }
  }
}
static void formats(const std::string &pre, const std::string &spec, const std::string &post, mc::Ctx &c) {
  // spec: [0][width|*][.prec|.*] length conv
  std::string f = pre + "%" + spec + post; char conv = spec.back(); bool ws = spec.find('*') != std::string::npos && spec.find('*') < spec.find('.'), ps = spec.find(".*") != std::string::npos;
  for (char &ch : f) (void) ch;
  char lm = spec.size() > 1 ? spec[spec.size() - 2] : 0; bool ll = spec.size() > 2 && spec.substr(spec.size() - 3, 2) == "ll";
  for (int w : ws ? std::vector<int>{0, 1, 3, 50} : std::vector<int>{0}) for (int p : ps ? std::vector<int>{-1, 0, 1, 3, 60} : std::vector<int>{0}) {
    auto go = [&](auto v, const std::string &d) {
      if (ws && ps) fmt1(f, d, c, w, p, v); else if (ws) fmt1(f, d, c, w, v); else if (ps) fmt1(f, d, c, p, v); else fmt1(f, d, c, v);
    };
    std::string d = "format \"" + f + "\" width " + std::to_string(w) + " precision " + std::to_string(p) + " value ";
    switch (conv) {
      case 'd': for (long v : LV) { if (ll) go((long long) v, d + std::to_string(v)); else if (lm == 'l') go(v, d + std::to_string(v)); else if (lm == 'z') go((ssize_t) v, d + std::to_string(v)); else go((int) v, d + std::to_string(v)); } break;
      case 'x': case 'u': for (long v : LV) { if (lm == 'l') go((unsigned long) v, d + std::to_string(v)); else if (lm == 'z') go((size_t) v, d + std::to_string(v)); else go((unsigned) v, d + std::to_string(v)); } break;
      case 's': for (auto s : SV) { Buf S(s, true); go((const char *) S.p, d + s); }
        if (ps && p > 0) { Buf S(std::string((size_t) p, 'q')); go((const char *) S.p, d + "unterminated"); }
        break;
      case 'c': for (int v : {97, 32, 37, 200}) go(v, d + std::to_string(v)); break;
      case 'p': for (long v : {1L, 0x1234L, (long) 0x7fffabcdef12}) go((void *) v, d + std::to_string(v)); break;
    }
  }
}

static void enumerate(bool th, const Emit &emit) {
  for (int init : {0, 1, 5, 1500}) for (auto &a : mbops()) for (auto &b : mbops()) emit("mbuf " + std::to_string(init) + " " + (th ? "4" : "3") + " " + opstr(a) + " " + opstr(b));
  uint64_t top = th ? 1 << 24 : 1 << 20;
  for (uint64_t v = 0; v < top; v += 4096) emit("varint " + std::to_string(v) + " 4096");
  for (int k = 12; k < 64; k++) emit("varint " + std::to_string((1ull << k) - 500) + " 1000");
  emit("varint " + std::to_string(~0ull - 999) + " 1000");
  for (size_t n = 0; n <= 12; n++) for (int b : {0x80, 0xff, 0x81}) for (int l : {0, 1, 0x7f, 0x80, 0xff}) emit("raw " + std::to_string(n) + " " + std::to_string(b) + " " + std::to_string(l));
  auto ss = strings(th ? 4 : 3, alpha());
  for (size_t i = 0; i < ss.size(); i++) emit("str " + std::to_string(i) + " " + std::to_string(th ? 4 : 3));
  for (size_t i = 0; i < (th ? 88573u : 9841u); i += 100) emit("list " + std::to_string(i) + (th ? " 10" : " 8"));
  for (auto z : {"", "0"}) for (auto w : {"", "1", "2", "5", "12", "45", "*"}) for (auto c : {"d", "ld", "zd", "lld", "x", "u", "lx", "lu", "zx", "zu"}) for (auto pre : {"", "ab"}) for (auto post : {"", "c", " %% "}) { if (std::string(post) == " %% ") continue; emit("fmt " + std::string(pre) + "|" + z + w + c + "|" + post); }
  for (auto w : {"", "1", "2", "5", "12", "45", "*"}) for (auto p : {"", ".0", ".1", ".2", ".5", ".70", ".*", "."}) for (auto pre : {"", "ab"}) for (auto post : {"", "c"}) emit("fmt " + std::string(pre) + "|" + w + p + "s|" + post);
  for (auto w : {"", "1", "3", "*"}) for (auto pre : {"", "ab"}) for (auto post : {"", "c"}) { emit("fmt " + std::string(pre) + "|" + w + "c|" + post); if (!*w) emit("fmt " + std::string(pre) + "|p|" + post); }
  emit("match 0");
}

static void dfs(size_t init, std::vector<Op> &seq, int left, mc::Ctx &c) {
  static const std::vector<Op> all = mbops();
  {
    MB m(init); size_t i = 0;
    try { for (auto &o : seq) { m.op(o); i++; } } catch (mc::Violation &v) { std::string s; for (size_t k = 0; k <= i && k < seq.size(); k++) s += opstr(seq[k]) + " "; mc::fail("init " + std::to_string(init) + " then " + s + ": " + v.msg); }
    c.transitions += seq.size(); c.executions++;
    c.states.insert(mc::fnvs(m.m) ^ mc::mix(m.b.size));
  }
  if (left == 0) return;
  for (auto &o : all) { seq.push_back(o); dfs(init, seq, left - 1, c); seq.pop_back(); }
}

static void check(const std::string &text, mc::Ctx &c) {
  Strs w = split(text, " ");
  if (w[0] == "mbuf") {
    std::vector<Op> seq; for (size_t i = 3; i < w.size(); i++) { Op o; o.k = w[i][0]; sscanf(w[i].c_str() + 1, "%ld,%ld", &o.a, &o.b); seq.push_back(o); }
    dfs(atoi(w[1].c_str()), seq, atoi(w[2].c_str()) - 1, c); c.validated++;
  } else if (w[0] == "varint") {
    uint64_t s = strtoull(w[1].c_str(), 0, 10); int n = atoi(w[2].c_str());
    for (int k = 0; k < n; k++) {
      uint64_t v = s + k; std::string want; uint64_t x = v; do { unsigned char b = x & 0x7f; x >>= 7; want += (char) (b | (x ? 0x80 : 0)); } while (x);
      if (cs_varint_llen(v) != want.size()) mc::fail("llen(" + std::to_string(v) + ") = " + std::to_string(cs_varint_llen(v)));
      for (size_t z = 0; z <= want.size() + 1; z++) {
        if (z + 1 < want.size() && z > 0 && k % 16) continue;
        unsigned char *b = (unsigned char *) malloc(z); memset(b, 0xee, z);
        size_t l = cs_varint_encode(v, b, z);
        if (l != want.size() || memcmp(b, want.data(), std::min(z, want.size())) || (z > want.size() && b[want.size()] != 0xee)) mc::fail("encode(" + std::to_string(v) + ") into " + std::to_string(z) + " bytes");
        uint64_t d = 12345; size_t dl = 77; bool ok = cs_varint_decode(b, z, &d, &dl);
        if (ok != (z >= want.size()) || (ok && (d != v || dl != want.size()))) mc::fail("decode(" + std::to_string(v) + ") from " + std::to_string(z) + " bytes: " + std::to_string(ok) + " " + std::to_string(d));
        if (z == want.size()) { int il = 0; if (cs_varint_decode_unsafe(b, &il) != v || il != (int) want.size()) mc::fail("decode_unsafe(" + std::to_string(v) + ")"); }
        free(b); c.transitions++;
      }
    }
    c.executions += n; c.validated++; c.state(text);
  } else if (w[0] == "raw") {
    std::string s(atoi(w[1].c_str()), (char) atoi(w[2].c_str())); s += (char) atoi(w[3].c_str());
    Buf B(s); uint64_t d; size_t l = 0; bool ok = cs_varint_decode((unsigned char *) B.p, B.n, &d, &l); c.executions++;
    if (ok && (l > B.n || l > 10)) mc::fail("decode used " + std::to_string(l) + " of " + std::to_string(B.n) + " bytes");
    bool term = false; for (size_t i = 0; i < s.size() && i < 9; i++) if (!((unsigned char) s[i] & 0x80)) term = true;
    if (term && !ok) mc::fail("terminated varint is rejected");
    if (!term && s.size() < 10 && ok) mc::fail("unterminated varint is accepted");
    c.state(text + std::to_string(ok));
  } else if (w[0] == "str") {
    static std::vector<std::string> ss; static int cur = -1; int L = atoi(w[2].c_str()); if (cur != L) { ss = strings(L, alpha()); cur = L; }
    const std::string &a = ss[atoi(w[1].c_str())];
    single(a); for (auto &b : ss) { pair(a, b); c.transitions++; }
    c.executions++; c.validated++; c.state(text);
  } else if (w[0] == "list") {
    static std::vector<std::string> ss; static int cur = -1; int L = atoi(w[2].c_str()); if (cur != L) { ss = strings(L, "a,="); cur = L; }
    size_t i = atoi(w[1].c_str()); for (size_t k = i; k < i + 100 && k < ss.size(); k++) { commas(ss[k]); c.transitions++; }
    c.executions++; c.validated++; c.state(text);
  } else if (w[0] == "fmt") {
    Strs p = split(text.substr(4), "|"); formats(p[0], p[1], p[2], c); c.executions++; c.validated++; c.state(text);
  } else if (w[0] == "match") {
    auto ps = strings(4, "a*?$|/"), ss = strings(4, "aA/");
    for (auto &p : ps) { Buf P(p); for (auto &s : ss) { Buf S(s); size_t r = mg_match_prefix_n(P.mg(), S.mg()); c.transitions++; if (r > s.size()) mc::fail("match(" + p + "," + s + ") = " + std::to_string(r)); if (p.find_first_of("*?$|") == std::string::npos) { size_t w2 = s.size() >= p.size() && low(s.substr(0, p.size())) == low(p) ? p.size() : 0; if (r != w2) mc::fail("match(" + p + "," + s + ") = " + std::to_string(r)); } } }
    for (auto &x : std::vector<std::pair<Strs, size_t>>{{{"a*f", "abcdefgh"}, 6}, {{"a*f", "abcdexgh"}, 0}, {{"a*f|de*,xy", "defgh"}, 5}, {{"?*", "abc"}, 3}, {{"?*", ""}, 0}}) { size_t r = mg_match_prefix(x.first[0].c_str(), x.first[0].size(), x.first[1].c_str()); if (r != x.second) mc::fail("match(" + x.first[0] + "," + x.first[1] + ") = " + std::to_string(r)); }
    c.executions++; c.validated++; c.state(text);
  } else mc::fail("bad case");
}

int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C16";
  d.rule = "a case is a prefix of a sequence of mbuf operations (all continuations are explored), a range of varint values with every buffer size, a string paired with all strings up to the length bound, or a format with all values and all buffer sizes. Non-trivial: all";
  d.enumerate = enumerate; d.check = check; d.case_timeout = 120;
  d.assumptions = {"conversions c_snprintf supports: d ld zd lld x u lx lu zx zu s c p, flag 0, width, and precision for s"};
  return mc::run(d, argc, argv);
}
