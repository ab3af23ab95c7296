// C17: scripts see C memory and structs exactly
#include "scale.hpp"
#include "common.hpp"
#include "mjs_dataview.h"
#include <math.h>
#include <memory>
#include <climits>
#include <cfloat>
#include "common/mg_str.h"

static struct mjs *cur;
// ---------------------------------------------------------------- structs
enum K { INT_, BOOL_, DBL, FLT, CHARP, VOIDP, MGP, MG, DATA, I8, I16, U8, U16, CUSTOM, STRUCT_, STRUCTP, NK };
static const char *KN[] = {"int", "bool", "double", "float", "charp", "voidp", "mgp", "mg", "data", "i8", "i16", "u8", "u16", "custom", "struct", "structp"};
static const int NV[] = {12, 2, 16, 11, 12, 3, 10, 10, 9, 6, 6, 5, 5, 6, 0, 0};

static const std::string &content(int i) {       // string contents: boundary lengths, zero bytes
  static std::vector<std::string> c;
  if (c.empty()) {
    std::string z("a\0b", 3), zz("\0\0\0\0\0\0\0", 7), hi = "\x80\xff\x01 tail of it";
    std::string l127, l128; for (int k = 0; k < 128; k++) { if (k < 127) l127 += (char) ('a' + k % 26); l128 += (char) ('A' + k % 26); }
    c = {"", "x", "abcd", "abcde", "abcdef", "abcdefg", hi, l127, l128, z, zz, "quote'\\\n"};
  }
  return c[i % c.size()];
}
struct Mem {        // C memory which belongs to a case; is overwritten before it is released
  std::vector<std::unique_ptr<char[]>> b; std::vector<size_t> n;
  char *get(size_t sz) { b.emplace_back(new char[sz ? sz : 1]); memset(b.back().get(), 0x5a, sz); n.push_back(sz); return b.back().get(); }
  char *str(const std::string &s, bool nul) { char *p = get(s.size() + nul); memcpy(p, s.data(), s.size()); if (nul) p[s.size()] = 0; return p; }
  void scribble() { for (size_t i = 0; i < b.size(); i++) memset(b[i].get(), 0xa5, n[i]); }
};
static int custom_calls; static const void *custom_ptr[64]; static int custom_mode[64];
static mjs_val_t custom(struct mjs *m, const void *p) {
  int mode = *(const unsigned char *) p; if (custom_calls < 64) { custom_ptr[custom_calls] = p; custom_mode[custom_calls] = mode; } custom_calls++;
  switch (mode % 6) {
    case 0: return mjs_mk_number(m, 4711);
    case 1: return mjs_mk_string(m, "made by a getter", ~0, 1);
    case 2: { mjs_val_t o = mjs_mk_object(m); mjs_own(m, &o); mjs_set(m, o, "k", ~0, mjs_mk_string(m, "inner value", ~0, 1)); mjs_gc(m, 1); mjs_disown(m, &o); return o; }
    case 3: { mjs_gc(m, 0); for (int i = 0; i < 30; i++) { mjs_mk_object(m); mjs_mk_string(m, "garbage garbage garbage", ~0, 1); } mjs_gc(m, 1); return mjs_mk_null(); }
    case 4: return mjs_mk_undefined();
    default: { mjs_val_t a = mjs_mk_array(m); mjs_own(m, &a); mjs_array_push(m, a, mjs_mk_boolean(m, 1)); mjs_gc(m, 1); mjs_array_push(m, a, mjs_mk_number(m, 2)); mjs_disown(m, &a); return a; }
  }
}
static const char *CUST[] = {"4711", "'made by a getter'", "{'k':'inner value'}", "null", "undefined", "[true,2]"};

// a description: kind:value fields separated by blanks, nested ones in ( ), @n: padding of n bytes before the next field, =name: its name
struct Field { K k; int v; std::string name; int off; std::vector<Field> sub; bool null = false; };
static void parse(const std::string &s, size_t &i, std::vector<Field> &out, int &n) {
  int pad = 0; std::string name;
  while (i < s.size()) {
    if (s[i] == ' ') { i++; continue; }
    if (s[i] == ')') { i++; return; }
    if (s[i] == '@') { pad = strtol(s.c_str() + i + 1, 0, 10); while (i < s.size() && s[i] != ' ') i++; continue; }
    if (s[i] == '=') { size_t e = s.find(' ', i); name = s.substr(i + 1, e - i - 1); i = e; continue; }
    size_t e = i; while (e < s.size() && isalnum((unsigned char) s[e])) e++;
    std::string kn = s.substr(i, e - i); int k = 0; while (k < NK && kn != KN[k]) k++;
    if (k == NK) mc::fail("bad case: " + s.substr(i));
    Field f; f.k = (K) k; f.v = 0; f.off = pad; pad = 0; i = e;
    f.name = name.empty() ? "f" + std::to_string(n) : name; name = ""; n++;
    if (s[i] == ':') { f.v = strtol(s.c_str() + i + 1, 0, 10); while (i < s.size() && s[i] != ' ' && s[i] != ')') i++; }
    if (i < s.size() && s[i] == '(') { i++; parse(s, i, f.sub, n); } else if (k == STRUCTP) f.null = true;
    out.push_back(f);
  }
}
struct Built { char *base; struct mjs_c_struct_member *defs; std::string expect; };
static int size_of(const Field &f);
static int size_of(const std::vector<Field> &v) { int n = 0; for (auto &f : v) n += std::abs(f.off) + size_of(f); return n + 8; }
static int size_of(const Field &f) {
  switch (f.k) { case INT_: return 4; case BOOL_: return 1; case DBL: return 8; case FLT: return 4; case CHARP: case VOIDP: case MGP: case STRUCTP: return 8; case MG: return sizeof(struct mg_str);
    case DATA: return content(f.v).size(); case I8: case U8: return 1; case I16: case U16: return 2; case CUSTOM: return 1; case STRUCT_: return size_of(f.sub); default: return 0; }
}
static double dval(int v) { static const double d[] = {0, 1, -1, 0.5, 1e300, -1e-300, 3.141592653589793, 2147483648.0, -9007199254740993.0, INFINITY, -INFINITY, NAN, DBL_MAX, 5e-324, 4294967296.5, -NAN}; return d[v % 16]; }
static float fval(int v) { static const float d[] = {0, 1, -1, 0.5f, 3.14159274f, 1e30f, -1e-30f, 16777217.f, INFINITY, NAN, -INFINITY}; return d[v % 11]; }
static Built build(const std::vector<Field> &fs, Mem &mem, std::vector<const void *> &cust) {
  Built b; int shift = 0; for (auto &f : fs) if (f.off < 0) shift -= f.off;
  char *raw = mem.get(size_of(fs) + shift); b.base = raw + shift;
  b.defs = (struct mjs_c_struct_member *) mem.get((fs.size() + 1) * sizeof(struct mjs_c_struct_member));
  memset(b.defs, 0, (fs.size() + 1) * sizeof(struct mjs_c_struct_member));
  int off = -shift; std::vector<std::pair<std::string, std::string>> ex; size_t i = 0;
  std::vector<std::vector<const void *>> cs;
  for (auto &f : fs) {
    off += std::abs(f.off);
    struct mjs_c_struct_member &d = b.defs[i++]; char *p = b.base + off; std::string e; std::vector<const void *> c1;
    d.name = mem.str(f.name, true); d.offset = off;
    int v = f.v;
    static const int iv[] = {0, 1, -1, 127, 128, 255, 256, 65535, 65536, INT_MAX, INT_MIN, -123456789};
    switch (f.k) {
      case INT_: { int x = iv[v % 12]; memcpy(p, &x, 4); d.type = MJS_STRUCT_FIELD_TYPE_INT; e = vm::num(x); break; }
      case BOOL_: { bool x = v & 1; memcpy(p, &x, 1); d.type = MJS_STRUCT_FIELD_TYPE_BOOL; e = x ? "true" : "false"; break; }
      case DBL: { double x = dval(v); memcpy(p, &x, 8); d.type = MJS_STRUCT_FIELD_TYPE_DOUBLE; e = vm::num(x); break; }
      case FLT: { float x = fval(v); memcpy(p, &x, 4); d.type = MJS_STRUCT_FIELD_TYPE_FLOAT; e = vm::num((double) x); break; }
      case CHARP: {
        const char *x = NULL; e = "null";
        if (v != 9) { std::string s = content(v).c_str(); x = mem.str(s, true); e = vm::str(s); }
        memcpy(p, &x, 8); d.type = MJS_STRUCT_FIELD_TYPE_CHAR_PTR; break;
      }
      case VOIDP: { void *x = v == 0 ? NULL : v == 1 ? (void *) &custom_calls : (void *) 0x7ffffffffff8; memcpy(p, &x, 8); d.type = MJS_STRUCT_FIELD_TYPE_VOID_PTR; char t[40]; snprintf(t, sizeof t, "ptr %p", x); e = t; break; }
      case MGP: {
        const struct mg_str *x = NULL; e = "null";
        if (v != 9) { std::string s = content(v == 8 ? 9 : v); struct mg_str *q = (struct mg_str *) mem.get(sizeof *q); q->p = mem.str(s, false); q->len = s.size(); x = q; e = vm::str(s); }
        memcpy(p, &x, 8); d.type = MJS_STRUCT_FIELD_TYPE_MG_STR_PTR; break;
      }
      case MG: { std::string s = content(v == 8 ? 10 : v); struct mg_str x; x.p = mem.str(s, false); x.len = s.size(); memcpy(p, &x, sizeof x); d.type = MJS_STRUCT_FIELD_TYPE_MG_STR; e = vm::str(s); break; }
      case DATA: { const std::string &s = content(v); memcpy(p, s.data(), s.size()); d.type = MJS_STRUCT_FIELD_TYPE_DATA; d.arg = (void *) (intptr_t) s.size(); e = vm::str(s); break; }
      case I8: { static const int8_t a[] = {0, 1, -1, 127, -128, 100}; *(int8_t *) p = a[v % 6]; d.type = MJS_STRUCT_FIELD_TYPE_INT8; e = vm::num(a[v % 6]); break; }
      case U8: { static const uint8_t a[] = {0, 1, 127, 128, 255}; *(uint8_t *) p = a[v % 5]; d.type = MJS_STRUCT_FIELD_TYPE_UINT8; e = vm::num(a[v % 5]); break; }
      case I16: { static const int16_t a[] = {0, -1, 127, 256, 32767, -32768}; memcpy(p, &a[v % 6], 2); d.type = MJS_STRUCT_FIELD_TYPE_INT16; e = vm::num(a[v % 6]); break; }
      case U16: { static const uint16_t a[] = {0, 1, 255, 32768, 65535}; memcpy(p, &a[v % 5], 2); d.type = MJS_STRUCT_FIELD_TYPE_UINT16; e = vm::num(a[v % 5]); break; }
      case CUSTOM: { *p = (char) v; d.type = MJS_STRUCT_FIELD_TYPE_CUSTOM; d.arg = (const void *) custom; e = CUST[v % 6]; c1.push_back(p); break; }
      case STRUCT_: {
        Built s = build(f.sub, mem, c1);      // laid out elsewhere, then copied in: offsets are relative to the inner base
        int sh = 0; for (auto &g : f.sub) if (g.off < 0) sh -= g.off;
        const char *lo = s.base - sh; memcpy(p, lo, size_of(f.sub));
        for (auto &c : c1) if ((const char *) c >= lo && (const char *) c < lo + size_of(f.sub)) c = p + ((const char *) c - lo);   // those behind a pointer stay
        d.offset = off + sh; d.type = MJS_STRUCT_FIELD_TYPE_STRUCT; d.arg = s.defs; e = s.expect; break;
      }
      case STRUCTP: { char *x = NULL; e = "null"; if (!f.null) { Built s = build(f.sub, mem, c1); x = s.base; d.arg = s.defs; e = s.expect; } memcpy(p, &x, 8); d.type = MJS_STRUCT_FIELD_TYPE_STRUCT_PTR; break; }
      default: break;
    }
    ex.push_back({f.name, e}); off += size_of(f);
    cs.push_back(c1);
  }
  for (size_t k = 0; k < cs.size(); k++) for (auto c : cs[k]) cust.push_back(c);
  std::stable_sort(ex.begin(), ex.end(), [](auto &a, auto &b) { return a.first < b.first; });
  b.expect = "{"; for (auto &x : ex) { if (b.expect.size() > 1) b.expect += ","; b.expect += vm::str(x.first) + ":" + x.second; }
  b.expect += "}";
  return b;
}
// like vm::dump, with pointers in full
static std::string dump(struct mjs *m, mjs_val_t v, int depth = 0) {
  if (depth > 20) return "<deep>";
  if (mjs_is_foreign(v)) { char t[40]; snprintf(t, sizeof t, "ptr %p", mjs_get_ptr(m, v)); return t; }
  if (mjs_is_object(v) && !mjs_is_array(v)) {
    std::vector<std::pair<std::string, mjs_val_t>> ps; mjs_val_t it = mjs_mk_undefined(), k; int guard = 0;
    while (!mjs_is_undefined(k = mjs_next(m, v, &it))) {
      size_t n = 0; const char *p = mjs_get_string(m, &k, &n); vm::str(p, n);
      ps.push_back({std::string(p, n), mjs_get(m, v, p, n)}); if (++guard > 1000) mc::fail("endless object");
    }
    std::stable_sort(ps.begin(), ps.end(), [](auto &a, auto &b) { return a.first < b.first; });
    std::string r = "{"; for (auto &x : ps) { if (r.size() > 1) r += ","; r += vm::str(x.first) + ":" + dump(m, x.second, depth + 1); }
    return r + "}";
  }
  return vm::dump(m, v);
}
static void *g_base, *g_defs;
static void nat_base(struct mjs *m) { mjs_return(m, mjs_mk_foreign(m, g_base)); }
static void nat_defs(struct mjs *m) { mjs_return(m, mjs_mk_foreign(m, g_defs)); }
static void nat_show(struct mjs *m) { *vm::OBS += dump(m, mjs_arg(m, 0)) + ";"; mjs_return(m, mjs_mk_undefined()); }

static void check_struct(const std::string &text, mc::Ctx &c) {
  std::vector<Field> fs; size_t i = 0; int n = 0; parse(text, i, fs, n);
  for (int way = 0; way < 3; way++) {        // C API, s2o, s2o with a collection after every operation
    Mem mem; std::vector<const void *> cust; Built b = build(fs, mem, cust);
    vm::hook_reset(); vm::Vm v; cur = v.m; custom_calls = 0; vm::OBS = &v.obs;
    mjs_mk_object(v.m);
    std::string got, later; mjs_val_t o = mjs_mk_undefined();
    mjs_own(v.m, &o);
    if (way == 0) { o = mjs_struct_to_obj(v.m, b.base, b.defs); got = dump(v.m, o); }
    else {
      v.native("base", nat_base); v.native("defs", nat_defs); v.native("show", nat_show);
      g_base = b.base; g_defs = b.defs;
      if (way == 2) vm::H.fn = [](struct mjs *m, uint64_t) { mjs_gc(m, 0); };
      vm::OBS = &v.obs; mjs_err_t e = mjs_exec(v.m, "let keep={o:s2o(base(),defs())};let r=[keep.o,'a string of some length'];keep=0;r[0];", &o);
      vm::H.fn = nullptr;
      if (e) mc::fail(std::string("s2o failed: ") + mjs_strerror(v.m, e));
      got = dump(v.m, o);
    }
    c.executions++; c.transitions += n; c.validated++;
    static const char *W[] = {"mjs_struct_to_obj", "s2o", "s2o with collections"};
    if (got != b.expect) mc::fail(std::string(W[way]) + ": expected " + b.expect + "\n  got      " + got);
    if (custom_calls != (int) cust.size()) mc::fail("custom getters called " + std::to_string(custom_calls) + " times instead of " + std::to_string(cust.size()));
    std::multiset<const void *> A(cust.begin(), cust.end()), B(custom_ptr, custom_ptr + std::min(custom_calls, 64));
    if (A != B) mc::fail("a custom getter did not get the address of its field");
    c.state(got);
    // the object does not depend on the C memory any longer, and survives collections
    mem.scribble();
    for (int k = 0; k < 20; k++) { mjs_mk_object(v.m); mjs_mk_string(v.m, "filler filler filler", ~0, 1); }
    mjs_gc(v.m, 1); for (int k = 0; k < 20; k++) { mjs_mk_object(v.m); mjs_mk_string(v.m, "filler filler filler", ~0, 1); }
    later = dump(v.m, o);
    if (later != b.expect) mc::fail(std::string(W[way]) + ", after the C memory has changed and a collection: expected " + b.expect + "\n  got      " + later);
    mjs_disown(v.m, &o);
  }
}
// ---------------------------------------------------------------- memory
// script programs over 24 bytes of C memory (8 before and after the 8 to 16 which are used); expected by an own evaluation
static unsigned char *buf;      // 32 bytes, the middle 16 are "the" memory
static void nat_nul(struct mjs *m) { mjs_return(m, mjs_mk_foreign(m, NULL)); }
// what is not a memory access: errors, comparisons
struct X { std::string src, want; };
static const std::vector<X> &table() {
  static std::vector<X> r; if (!r.empty()) return r;
  for (auto o : {"*", "/", "%", "&", "|", "^", "<<", ">>", ">>>"}) for (auto &e : {std::string("P[0]") + o + "2", std::string("2") + o + "P[0]", std::string("P[0]") + o + "P[1]", std::string("o.p") + o + "o.p"}) r.push_back({e, "E3"});
  for (auto e : {"P[0]+P[1]", "P[0]+'x'", "'x'+P[0]", "P[0]+true", "P[0]+null", "P[0]-null", "P[0]+undefined", "P[0]+{}", "P[0]-'4'", "P[0]+[1]", "P[0]['x']", "P[0].length", "P[0][\"\"]", "P[0]['0x1']", "P[0]['x']=1", "P[0].y=1", "P[0][undefined]=1", "P[0][null]=1", "P[0][true]=1", "P[0]['0']=1", "P[0][{}]=1",
                 "mkstr()", "mkstr(P[0])", "mkstr(P[0],0,1,true,1)", "mkstr(P[0],'a')", "mkstr(P[0],undefined)", "mkstr(P[0],null)", "mkstr(P[0],'0',1)", "mkstr(P[0],0,'1')", "mkstr(P[0],true,1)", "mkstr(P[0],0,null,true)", "mkstr(P[0],{},1,true)", "mkstr('abc',1)", "mkstr([1],0,1)", "mkstr(5,0,1,true)",
                 "P[0].y.z", "P[0]()+1 && P[0]['q']"}) if (!strstr(e, "()+")) r.push_back({e, "E3"});
  for (auto &e : std::vector<std::pair<const char *, bool>>{{"P[1]===P[2]", 1}, {"P[1]===o.p", 1}, {"P[0]===P[1]", 0}, {"P[0]!==P[1]", 1}, {"P[1]!==P[2]", 0}, {"P[0]===null", 0}, {"null===P[0]", 0}, {"P[0]!==null", 1}, {"null!==P[0]", 1}, {"nul()===null", 1}, {"null===nul()", 1}, {"nul()!==null", 0}, {"null!==nul()", 0}, {"nul()===nul()", 1}, {"nul()===P[0]", 0}, {"P[0]===0", 0}, {"0===P[0]", 0}, {"P[0]===undefined", 0}, {"P[0]==='x'", 0}, {"P[0]===true", 0}, {"P[0]==={}", 0}, {"nul()===undefined", 0}, {"P[0]-P[0]===0", 1}, {"P[0]+0===P[0]", 1}, {"0+P[0]===P[0]", 1}, {"P[3]-3===P[1]", 1}, {"nul()+5-nul()===5", 1}, {"!P[0]", 0}, {"!!P[0]", 1}, {"(P[0]?true:false)", 1}, {"(P[0]&&true)", 1}})
    r.push_back({e.first, e.second ? "=true" : "=false"});
  r.push_back({"typeof P[0]", "='foreign_ptr'"}); r.push_back({"let pc=P[0]; pc+=4; pc===P[1]", "=true"}); r.push_back({"let pd=P[1]; pd-=4; pd===P[0]", "=true"}); r.push_back({"let pe=P[0]; pe++; pe===P[0]+1", "=true"}); r.push_back({"let pf=P[0]; pf*=2", "E3"}); r.push_back({"let pg=P[0]; pg--; pg===P[0]-1", "=true"});
  return r;
}
static void nat_buf(struct mjs *m) { mjs_return(m, mjs_mk_foreign(m, buf + 8)); }
static std::string hex(const unsigned char *p, int n) { std::string r; char t[4]; for (int i = 0; i < n; i++) { snprintf(t, sizeof t, "%02x", p[i]); r += t; } return r; }
static void nat_hex(struct mjs *m) { *vm::OBS += hex(buf, 32) + ";"; mjs_return(m, mjs_mk_undefined()); }

struct Op { bool set, sign; int w; bool le, leg; long idx; long long val; };
static std::string js(const Op &o, const char *dv = "d") {
  std::string r = std::string(dv) + (o.set ? ".set" : ".get") + (o.sign ? "Int" : "Uint") + std::to_string(o.w * 8) + "(" + std::to_string(o.idx);
  if (o.set) r += "," + std::to_string(o.val);
  if (o.leg) r += o.le ? ",true" : ",false";
  return r + ")";
}
// D off len ; op ... : text form "g|s s|u w idx val -|t|f"
static const char *LIB() { static std::string s; if (s.empty()) { const char *r = getenv("MJS_REPO"); s = std::string(r ? r : "/repo") + "/lib/api_dataview.js"; } return s.c_str(); }
static void check_dv(const std::string &text, mc::Ctx &c) {
  int off, len; size_t i = 0; int used; const char *p = text.c_str();
  if (sscanf(p, "%d %d%n", &off, &len, &used) != 2) mc::fail("bad case");
  p += used; std::vector<Op> ops; (void) i;
  for (;;) { char g, s, l; Op o; int u; if (sscanf(p, " %c %c %d %ld %lld %c%n", &g, &s, &o.w, &o.idx, &o.val, &l, &u) != 6) break; o.set = g == 's'; o.sign = s == 's'; o.leg = l != '-'; o.le = l == 't'; ops.push_back(o); p += u; }
  std::unique_ptr<unsigned char[]> m(new unsigned char[32]); buf = m.get(); unsigned char ref[32];
  for (int k = 0; k < 32; k++) buf[k] = ref[k] = (unsigned char) (k * 37 + 0x81);
  vm::hook_reset(); vm::Vm v; v.native("buf", nat_buf); v.native("nul", nat_nul); v.native("hex", nat_hex);
  static std::string lib; if (lib.empty()) { FILE *f = fopen(LIB(), "rb"); if (!f) mc::fail("no lib/api_dataview.js"); char t[32768]; size_t n = fread(t, 1, sizeof t, f); fclose(f); lib.assign(t, n); }
  vm::Out o = v.exec(lib + "\n0"); if (o.err) mc::fail("lib/api_dataview.js: " + o.msg);
  std::string ls = len < 0 ? "" : "," + std::to_string(len), os = off == 0 && len < 0 ? "" : "," + std::to_string(off);
  o = v.exec("let d=DataView.create(buf()" + os + ls + ");0"); if (o.err) mc::fail("create: " + o.msg);
  for (auto &x : ops) {
    bool bad = len >= 0 && (x.idx < 0 || x.idx + x.w > len), be = !(x.leg && x.le) && x.w > 1;
    std::string want; unsigned char *q = ref + 8 + off + x.idx;
    if (!bad) {
      if (x.set) { unsigned long long u = (unsigned long long) x.val; for (int k = 0; k < x.w; k++) q[be ? x.w - 1 - k : k] = (unsigned char) (u >> (8 * k)); want = "=undefined"; }
      else {
        unsigned long long u = 0; for (int k = 0; k < x.w; k++) u |= (unsigned long long) q[be ? x.w - 1 - k : k] << (8 * k);
        double r = u; if (x.sign && (u >> (8 * x.w - 1))) r = (double) ((long long) u - (1ll << (8 * x.w)));
        want = "=" + vm::num(r);
      }
    }
    o = v.exec(js(x)); c.transitions++; c.executions++; c.validated++;
    if (bad ? o.err == 0 : o.str() != want) mc::fail(js(x) + (bad ? " is outside of the view, but gives " : " gives ") + o.str() + " " + o.msg + (bad ? "" : " instead of " + want));
    if (memcmp(ref, buf, 32)) mc::fail("after " + js(x) + " the memory is " + hex(buf, 32) + "\n  instead of " + hex(ref, 32));
  }
  c.state(text.substr(0, 6) + hex(ref, 32));
}
// P: statements over pointers p=buf and q=buf+4, expected values computed here
static void check_ptr(const std::string &text, mc::Ctx &c) {
  // ops: r P I | w P I V | d P Q (p-q) | e P Q N (p+N===q) | m P OFF LEN COPY | k
  std::unique_ptr<unsigned char[]> m(new unsigned char[32]); buf = m.get(); unsigned char ref[32];
  for (int k = 0; k < 32; k++) buf[k] = ref[k] = (unsigned char) (k % 5 == 4 ? 0 : k * 41 + 0x61);
  vm::hook_reset(); vm::Vm v; v.native("buf", nat_buf); v.native("nul", nat_nul); v.native("hex", nat_hex);
  vm::Out o = v.exec("let P=[buf(),buf()+4,4+buf(),buf()+16-9,(buf()+20)-4];let o={p:P[1]};let id=function(x){ return x; };0"); if (o.err) mc::fail("setup: " + o.msg);
  static const int at[] = {0, 4, 4, 7, 16};
  struct Str { int off, len; bool copy; std::string s; }; std::vector<Str> strs; bool written = false;
  std::string t = text + " "; const char *p = t.c_str();
  for (;;) {
    char k; int u; if (sscanf(p, " %c%n", &k, &u) != 1) break; p += u;
    long a[4] = {0, 0, 0, 0}; int na = k == 'r' ? 2 : k == 'w' ? 3 : k == 'd' ? 2 : k == 'e' ? 3 : k == 'm' ? 4 : k == 'n' ? 3 : k == 't' ? 2 : k == 'x' ? 1 : 0;
    for (int i = 0; i < na; i++) { if (sscanf(p, " %ld%n", &a[i], &u) != 1) mc::fail("bad case"); p += u; }
    auto P = [&](long i) { return i == 5 ? std::string("o.p") : i == 6 ? std::string("id(P[0])") : "P[" + std::to_string(i) + "]"; };
    auto A = [&](long i) { return i == 5 ? 4 : i == 6 ? 0 : at[i]; };
    std::string src, want;
    switch (k) {
      case 'r': { src = P(a[0]) + "[" + std::to_string(a[1]) + "]"; want = "=" + std::to_string(ref[8 + A(a[0]) + a[1]]); break; }
      case 'w': {
        src = P(a[0]) + "[" + std::to_string(a[1]) + "]=" + std::to_string(a[2]);
        if (a[2] < 0 || a[2] > 255) want = "E3"; else { ref[8 + A(a[0]) + a[1]] = a[2]; want = "=" + std::to_string(a[2]); written = true; }
        break;
      }
      case 't': { static const char *V[] = {"'x'", "true", "null", "undefined", "{}", "[]", "NaN+0", "'65'"}; if (a[1] == 6) continue; src = P(a[0]) + "[0]=" + V[a[1]]; want = "E3"; break; }
      case 'd': src = P(a[0]) + "-" + P(a[1]); want = "=" + std::to_string(A(a[0]) - A(a[1])); break;
      case 'e': src = "(" + P(a[0]) + "+" + std::to_string(a[2]) + "===" + P(a[1]) + ")"; want = A(a[0]) + a[2] == A(a[1]) ? "=true" : "=false"; break;
      case 'm': {
        std::string args = a[3] == 2 ? P(a[0]) + "," + std::to_string(a[2]) : P(a[0]) + "," + std::to_string(a[1]) + "," + std::to_string(a[2]) + (a[3] ? a[3] == 1 ? ",true" : ",false" : "");
        long off = a[3] == 2 ? 0 : a[1]; std::string s((char *) ref + 8 + A(a[0]) + off, a[2]);
        src = "let s" + std::to_string(strs.size()) + "=mkstr(" + args + ");s" + std::to_string(strs.size()); want = "=" + vm::str(s); strs.push_back({A(a[0]) + (int) off, (int) a[2], a[3] == 1, s}); break;
      }
      case 'n': { static const char *V[] = {"null", "'x'", "5", "{}", "undefined"}; src = "mkstr(" + std::string(V[a[0] % 5]) + "," + std::to_string(a[1]) + "," + std::to_string(a[2]) + ")"; want = a[0] % 5 == 0 ? "" : "E3"; if (want.empty()) continue; break; }
      case 'x': src = table().at(a[0]).src; want = table().at(a[0]).want; break;
      case 'g': mjs_gc(v.m, 1); for (int i = 0; i < 20; i++) mjs_mk_string(v.m, "garbage garbage garbage", ~0, 1); continue;
      default: mc::fail("bad case");
    }
    o = v.exec(src); c.executions++; c.transitions++; c.validated++;
    if (o.str() != want) mc::fail(src + " gives " + o.str() + " " + o.msg + " instead of " + want);
    if (memcmp(ref, buf, 32)) mc::fail("after " + src + " the memory is " + hex(buf, 32) + "\n  instead of " + hex(ref, 32));
    // strings made before keep their bytes: copies always, others while the memory is unchanged
    for (size_t i = 0; i < strs.size(); i++) {
      if (!strs[i].copy && written) continue;
      o = v.exec("s" + std::to_string(i));
      if (o.str() != "=" + vm::str(strs[i].s)) mc::fail("after " + src + " an earlier string is " + o.str() + " instead of " + vm::str(strs[i].s));
    }
  }
  c.state(hex(ref, 32));
}
// F: the C functions themselves: all widths, orders, byte patterns
static void check_fn(const std::string &text, mc::Ctx &c) {
  int w, be, pat; if (sscanf(text.c_str(), "%d %d %d", &w, &be, &pat) != 3) mc::fail("bad case");
  static const unsigned char B[] = {0, 1, 0x7f, 0x80, 0xff, 0x5a};
  for (int off = 0; off < 4; off++) {
    std::unique_ptr<unsigned char[]> m(new unsigned char[w + off]);         // exactly as large as needed
    unsigned char *p = m.get() + off; int q = pat; for (int i = 0; i < w; i++) { p[i] = B[q % 6]; q /= 6; }
    unsigned u = 0; for (int i = 0; i < w; i++) u |= (unsigned) p[be ? w - 1 - i : i] << (8 * i);
    double su = u; if (u >> (8 * w - 1)) su = (double) ((long long) u - (1ll << (8 * w)));
    double gu = mjs_mem_get_uint(p, w, be), gi = mjs_mem_get_int(p, w, be);
    c.executions += 2; c.validated += 2; c.transitions += 4;
    if (gu != u) mc::fail("mjs_mem_get_uint gives " + vm::num(gu) + " instead of " + vm::num(u));
    if (gi != su) mc::fail("mjs_mem_get_int gives " + vm::num(gi) + " instead of " + vm::num(su));
    std::unique_ptr<unsigned char[]> m2(new unsigned char[w + off]); memset(m2.get(), 0xcc, w + off);
    for (int s = 0; s < 2; s++) {
      memset(m2.get() + off, 0xcc, w);
      if (s) mjs_mem_set_int(m2.get() + off, (int) (su), w, be); else mjs_mem_set_uint(m2.get() + off, u, w, be);
      if (memcmp(m2.get() + off, p, w)) mc::fail("mjs_mem_set_* writes " + hex(m2.get() + off, w) + " instead of " + hex(p, w));
      for (int i = 0; i < off; i++) if (m2.get()[i] != 0xcc) mc::fail("mjs_mem_set_* writes before the address");
    }
    if (w == 4) {
      std::unique_ptr<char[]> d(new char[8]); double x = su * 1.5; mjs_mem_set_dbl(d.get(), x); if (memcmp(d.get(), &x, 8) || mjs_mem_get_dbl(d.get()) != x) mc::fail("mjs_mem_set_dbl / get_dbl");
      if (mjs_mem_get_ptr(d.get(), off) != d.get() + off || mjs_mem_get_ptr(d.get() + off, -off) != d.get()) mc::fail("mjs_mem_get_ptr");
      if (mjs_mem_to_ptr(u) != (void *) (uintptr_t) u) mc::fail("mjs_mem_to_ptr");
      mjs_mem_set_ptr(d.get(), p); if (memcmp(d.get(), &p, 8)) mc::fail("mjs_mem_set_ptr");
    }
  }
  c.state(text);
}

static void check(const std::string &t, mc::Ctx &c) {
  std::string r = t.substr(2);
  switch (t[0]) { case 'S': check_struct(r, c); break; case 'D': check_dv(r, c); break; case 'P': check_ptr(r, c); break; case 'F': check_fn(r, c); break; default: mc::fail("bad case"); }
}
static void enumerate(bool th, const Emit &emit) {
  auto S = [&](const std::string &s) { emit("S " + s); };
  Strs one; for (int k = 0; k < STRUCT_; k++) for (int v = 0; v < NV[k]; v++) one.push_back(std::string(KN[k]) + ":" + std::to_string(v));
  Strs few; for (int k = 0; k < STRUCT_; k++) for (int v : {1, 4}) few.push_back(std::string(KN[k]) + ":" + std::to_string(v));
  few.push_back("structp"); few.push_back("charp:9"); few.push_back("mgp:9"); few.push_back("custom:2"); few.push_back("custom:3");
  for (auto &a : one) { S(a); for (int pad : {1, 2, 3, 7, 8, 127, 300, -8, -1}) S("@" + std::to_string(pad) + " " + a); S("struct(" + a + ")"); S("structp(" + a + ")"); S("struct(structp(struct(" + a + ") " + a + "))"); S("u8:4 " + a + " u8:3"); S(a + " custom:3 " + a); }
  for (auto &a : one) for (auto &b : one) if (th || (a.size() + b.size()) % 3 == 0 || a.substr(0, 3) != b.substr(0, 3)) S(a + " " + b);
  for (auto &a : few) for (auto &b : few) { for (auto w : {"struct", "structp"}) { S(std::string(w) + "(" + a + " " + b + ") " + a); S(a + " " + w + "(" + b + ") " + b); S("@3 " + a + " " + w + "(@5 " + b + " " + w + "(@1 " + a + ")) @7 " + b); } S("struct(@-4 " + a + " " + b + ") " + a); }
  if (th) for (auto &a : few) for (auto &b : few) for (auto &d : few) { S(a + " " + b + " " + d); S("structp(" + a + " struct(" + b + ")) structp(" + d + ")"); }
  S(""); S("struct()"); S("structp()"); S("struct() structp() int:1");
  std::string all; for (auto &a : few) all += a + " "; S(all); S("struct(" + all + ") structp(" + all + ")"); S(all + all);
  for (int n : {1, 2, 4, 5, 6, 7, 20, 126, 127, 128, 129, 300}) for (auto &a : few) { std::string nm(n, 'n'); S("=" + nm + " " + a); S("=" + nm + " " + a + " =" + nm + "m int:3"); S("structp(=" + nm + " " + a + " =" + nm.substr(1) + "x bool:1)"); }
  for (auto nm : {"length", "apply", "push", "__q", "toString"}) S(std::string("=") + nm + " charp:5");
  // data view: every access on every position
  auto D = [&](const std::string &s) { emit("D " + s); };
  auto op = [](char g, char s, int w, int idx, long long v, char l) { return " " + std::string(1, g) + " " + s + " " + std::to_string(w) + " " + std::to_string(idx) + " " + std::to_string(v) + " " + l; };
  std::vector<long long> val[5]; val[1] = {0, 1, 127, 128, 255, -1, -128}; val[2] = {0, 1, 255, 256, 32767, 32768, 65535, -1, -32768, 0x1234}; val[4] = {0, 1, 65536, 2147483647, -1, -2147483648ll, 0x12345678, 0x00ff00ff, 2147483648ll, 4294967295ll, 0x89abcdefll};
  for (int off : {0, 3}) for (int len : {-1, 8, 4, 1, 0}) for (int w : {1, 2, 4}) for (char sg : {'s', 'u'}) for (char l : {'-', 't', 'f'}) {
    if (w == 1 && l != '-') continue;
    for (int idx = len < 0 ? 0 : -2; idx <= (len < 0 ? 8 : len + 1); idx++) {
      std::string gs = op('g', sg, w, idx, 0, l);
      D(std::to_string(off) + " " + std::to_string(len) + gs);
      for (long long v : val[w]) D(std::to_string(off) + " " + std::to_string(len) + op('s', sg, w, idx, v, l) + gs + op('g', sg == 's' ? 'u' : 's', w, idx, 0, l) + op('g', 'u', 1, idx, 0, '-'));
    }
  }
  // every pair of overlapping writes, read in every way
  for (int w : {1, 2, 4}) for (int w2 : {1, 2, 4}) for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) for (char l : {'-', 't'}) for (char l2 : {'-', 't'}) {
    if ((w == 1 && l == 't') || (w2 == 1 && l2 == 't')) continue;
    if (i + w <= j || j + w2 <= i) if (!th) continue;
    std::string s = "0 8" + op('s', 'u', w, i, 0x01fe8203 & (w == 4 ? 0x7fffffff : (1 << 8 * w) - 1), l) + op('s', 's', w2, j, w2 == 1 ? -3 : w2 == 2 ? -300 : -70000, l2);
    for (int k = 0; k < 5; k++) s += op('g', 'u', 4, k, 0, 't') + op('g', 's', 2, k, 0, '-');
    D(s);
  }
  // pointers: all sequences of two (thorough: three) operations
  Strs A;
  for (int p = 0; p < 7; p++) for (int i : {0, 1, 5}) { A.push_back("r " + std::to_string(p) + " " + std::to_string(i)); for (int v : {0, 65, 255}) if (th || v != 65 || i) A.push_back("w " + std::to_string(p) + " " + std::to_string(i) + " " + std::to_string(v)); }
  for (int v : {-1, 256, 1000, -256}) A.push_back("w 0 2 " + std::to_string(v));
  for (int p = 0; p < 7; p++) for (int q = 0; q < 7; q++) { A.push_back("d " + std::to_string(p) + " " + std::to_string(q)); for (int n : {0, 4, -4, 3}) emit("P e " + std::to_string(p) + " " + std::to_string(q) + " " + std::to_string(n)); }
  for (int i = 0; i < 8; i++) A.push_back("t 0 " + std::to_string(i));
  for (int i = 1; i < 5; i++) A.push_back("n " + std::to_string(i) + " 0 3");
  for (size_t i = 0; i < table().size(); i++) { emit("P x " + std::to_string(i)); emit("P g x " + std::to_string(i) + " r 0 1 w 1 0 9 d 1 0"); for (size_t j = 0; j < table().size(); j++) emit("P x " + std::to_string(i) + " x " + std::to_string(j) + " r 0 1"); }
  A.push_back("g");
  for (int o : {0, 1, 3}) for (int l : {0, 1, 4, 5, 6, 7, 12}) for (int cpy : {0, 1, 2, 3}) if (th || o < 3 || cpy == 1) A.push_back("m 0 " + std::to_string(o) + " " + std::to_string(l) + " " + std::to_string(cpy));
  A.push_back("m 4 -9 6 1"); A.push_back("m 1 -4 8 1"); A.push_back("m 1 2 6 0");
  for (auto &a : A) { emit("P " + a); for (auto &b : A) { emit("P " + a + " " + b); if (th) for (size_t i = 0; i < A.size(); i += 3) emit("P " + a + " " + b + " " + A[i]); } }
  Strs M; for (auto &a : A) if (a[0] == 'm' && a.substr(0, 3) == "m 0" && a.back() != '3') M.push_back(a);
  for (auto &a : M) for (auto &b : M) emit("P " + a + " " + b + " g w 0 0 7 w 0 3 8 g");
  for (int i = 0; i < 16; i++) for (int v = 0; v < 256; v++) if (th || v % 17 == 0 || i == 3) emit("P w 0 " + std::to_string(i) + " " + std::to_string(v) + " r 0 " + std::to_string(i));
  for (int w : {1, 2, 3, 4}) for (int be : {0, 1}) { int n = 1; for (int i = 0; i < w; i++) n *= 6; for (int k = 0; k < n; k++) emit("F " + std::to_string(w) + " " + std::to_string(be) + " " + std::to_string(k)); }
}

int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C17"; d.rule = "S: a C struct described by a list of fields (kind, value, padding, name, nesting), converted by the C API, by s2o and by s2o with a collection after every operation; D: accesses through lib/api_dataview.js on 8 bytes; P: pointer indexing, arithmetic and mkstr; F: the byte access functions. The expected object / bytes are computed by the driver. All are non-trivial";
  d.enumerate = enumerate; d.check = check; d.case_timeout = 20;
  d.assumptions = {"little endian, 64 bit pointers below 2^47", "fields may be unaligned"};
  scale::wrap(d, "C17");
  return mc::run(d, argc, argv);
}
