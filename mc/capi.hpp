// Natives which reach the object and array parts of the C API from scripts,
// in the engine and in the reference.
#pragma once
#include <algorithm>
#include "common.hpp"

namespace capi {
inline std::string sarg(struct mjs *m, int i) {
  mjs_val_t v = mjs_arg(m, i); size_t n = 0;
  if (!mjs_is_string(v)) return "";
  const char *p = mjs_get_string(m, &v, &n);
  if (n && __asan_region_is_poisoned((void *) p, n)) mc::fail("string argument points to freed memory");
  return std::string(p, n);
}
inline void own(struct mjs *m) {           // own property names, sorted
  mjs_val_t o = mjs_arg(m, 0), it = mjs_mk_undefined(), k; Strs ks; size_t guard = 0;
  while (!mjs_is_undefined(k = mjs_next(m, o, &it))) {
    size_t n = 0; const char *p = mjs_get_string(m, &k, &n);
    if (p == NULL) mc::fail("a property name is not a string");
    std::string s = p ? std::string(p, n) : "<bad>";
    if (s != "__p") ks.push_back(vm::str(s));
    if (++guard > 5000) mc::fail("endless enumeration");
  }
  std::sort(ks.begin(), ks.end());
  std::string r; for (auto &x : ks) r += x + ",";
  *vm::OBS += "own " + r + ";"; mjs_return(m, mjs_mk_undefined());
}
inline void del(struct mjs *m) { std::string k = sarg(m, 1); int r = mjs_del(m, mjs_arg(m, 0), k.data(), k.size()); mjs_return(m, mjs_mk_number(m, r)); }
inline void cset(struct mjs *m) { std::string k = sarg(m, 1); mjs_err_t r = mjs_set(m, mjs_arg(m, 0), k.data(), k.size(), mjs_arg(m, 2)); mjs_return(m, mjs_mk_number(m, r)); }
inline void csetv(struct mjs *m) { mjs_err_t r = mjs_set_v(m, mjs_arg(m, 0), mjs_arg(m, 1), mjs_arg(m, 2)); mjs_return(m, mjs_mk_number(m, r)); }
inline void cget(struct mjs *m) { std::string k = sarg(m, 1); mjs_return(m, mjs_get(m, mjs_arg(m, 0), k.data(), k.size())); }
inline void cgetv(struct mjs *m) { mjs_return(m, mjs_get_v(m, mjs_arg(m, 0), mjs_arg(m, 1))); }
inline void cgetp(struct mjs *m) { mjs_return(m, mjs_get_v_proto(m, mjs_arg(m, 0), mjs_arg(m, 1))); }
inline void mkobj(struct mjs *m) { mjs_return(m, mjs_mk_object(m)); }
inline void tally(struct mjs *m) {         // sorts and observes an array of names
  Strs ks; mjs_val_t a = mjs_arg(m, 0);
  for (unsigned long i = 0; i < mjs_array_length(m, a); i++) { mjs_val_t k = mjs_array_get(m, a, i); size_t n = 0; const char *p = mjs_get_string(m, &k, &n); std::string s = p ? std::string(p, n) : "<bad>"; if (s != "__p") ks.push_back(vm::str(s)); }
  std::sort(ks.begin(), ks.end());
  std::string r; for (auto &x : ks) r += x + ",";
  *vm::OBS += "own " + r + ";"; mjs_return(m, mjs_mk_undefined());
}
inline void alen(struct mjs *m) { mjs_return(m, mjs_mk_number(m, mjs_array_length(m, mjs_arg(m, 0)))); }
inline void aget(struct mjs *m) { mjs_return(m, mjs_array_get(m, mjs_arg(m, 0), mjs_get_int(m, mjs_arg(m, 1)))); }
inline void aset(struct mjs *m) { mjs_return(m, mjs_mk_number(m, mjs_array_set(m, mjs_arg(m, 0), mjs_get_int(m, mjs_arg(m, 1)), mjs_arg(m, 2)))); }
inline void apush(struct mjs *m) { mjs_return(m, mjs_mk_number(m, mjs_array_push(m, mjs_arg(m, 0), mjs_arg(m, 1)))); }
inline void adel(struct mjs *m) { mjs_array_del(m, mjs_arg(m, 0), mjs_get_int(m, mjs_arg(m, 1))); mjs_return(m, mjs_mk_undefined()); }
// indices beyond int; huge: 2^64 - 10 + i, not a number of scripts
inline void bigset(struct mjs *m) { mjs_return(m, mjs_mk_number(m, mjs_array_set(m, mjs_arg(m, 0), (unsigned long) mjs_get_double(m, mjs_arg(m, 1)), mjs_arg(m, 2)))); }
inline void bigget(struct mjs *m) { mjs_return(m, mjs_array_get(m, mjs_arg(m, 0), (unsigned long) mjs_get_double(m, mjs_arg(m, 1)))); }
inline void bigdel(struct mjs *m) { mjs_array_del(m, mjs_arg(m, 0), (unsigned long) mjs_get_double(m, mjs_arg(m, 1))); mjs_return(m, mjs_mk_undefined()); }
inline void hugeset(struct mjs *m) { mjs_return(m, mjs_mk_number(m, mjs_array_set(m, mjs_arg(m, 0), ~0ul - 9 + mjs_get_int(m, mjs_arg(m, 1)), mjs_arg(m, 2)))); }
inline void hugeget(struct mjs *m) { mjs_return(m, mjs_array_get(m, mjs_arg(m, 0), ~0ul - 9 + mjs_get_int(m, mjs_arg(m, 1)))); }
inline void mkarr(struct mjs *m) { mjs_return(m, mjs_mk_array(m)); }

inline void prep(vm::Vm &v) {
  v.native("own", own); v.native("del", del); v.native("cset", cset); v.native("csetv", csetv); v.native("cget", cget); v.native("cgetv", cgetv); v.native("cgetp", cgetp); v.native("mkobj", mkobj); v.native("tally", tally);
  v.native("alen", alen); v.native("aget", aget); v.native("aset", aset); v.native("apush", apush); v.native("adel", adel); v.native("mkarr", mkarr);
  v.native("bigset", bigset); v.native("bigget", bigget); v.native("bigdel", bigdel); v.native("hugeset", hugeset); v.native("hugeget", hugeget);
  vm::Out o = v.exec("let forin=function(forin_o){let forin_r=[];for(let forin_k in forin_o){forin_r.push(forin_k);} tally(forin_r);};");
  if (o.err) mc::fail("prelude failed: " + o.msg);
}

inline void rprep(ref::Interp &I) {
  using namespace ref;
  auto obj = [](Val &v) { if (v.t != OBJ) unspec("C API object function on a non-object"); return v.o; };
  auto arr = [](Val &v) { if (v.t != ARR) unspec("C API array function on a non-array"); return v.o; };
  auto a2 = [](std::vector<Val> &a, size_t n) { if (a.size() < n) unspec("missing argument"); };
  auto ownf = [=](Interp &I, std::vector<Val> &a) {
    a2(a, 1); Strs ks;
    if (a[0].t == ARR && I.I_sparse) unspec("own properties after the splice of a sparse array");
    if (a[0].t == ARR) { for (auto &x : a[0].o->a) ks.push_back(vm::str(std::to_string(x.first))); for (auto &x : a[0].o->p) ks.push_back(vm::str(x.first)); }
    else for (auto &x : obj(a[0])->p) if (x.first != "__p") ks.push_back(vm::str(x.first));
    std::sort(ks.begin(), ks.end()); std::string r; for (auto &x : ks) r += x + ",";
    I.obs += "own " + r + ";"; return Val();
  };
  auto setf = [=](Interp &I, std::vector<Val> &a) { a2(a, 3); obj(a[0]); if (a[1].t != STR) unspec("key"); I.set(a[0], a[1], a[2]); return Val::num(0); };
  auto getf = [=](Interp &, std::vector<Val> &a) { a2(a, 2); if (a[1].t != STR) unspec("key"); Val *v = obj(a[0])->find(a[1].s); return v ? *v : Val(); };
  std::map<std::string, std::function<Val(Interp &, std::vector<Val> &)>> n = {
    {"own", ownf}, {"forin", ownf}, {"cset", setf}, {"csetv", setf}, {"cget", getf}, {"cgetv", getf},
    {"cgetp", [=](Interp &I, std::vector<Val> &a) { a2(a, 2); if (a[1].t != STR) unspec("key"); obj(a[0]); return I.get(a[0], a[1]); }},
    {"del", [=](Interp &, std::vector<Val> &a) { a2(a, 2); if (a[1].t != STR) unspec("key"); auto &p = obj(a[0])->p; for (size_t i = 0; i < p.size(); i++) if (p[i].first == a[1].s) { p.erase(p.begin() + i); return Val::num(0); } return Val::num(-1); }},
    {"mkobj", [=](Interp &, std::vector<Val> &) { Val v; v.t = OBJ; v.o = std::make_shared<Obj>(); return v; }},
    {"mkarr", [=](Interp &, std::vector<Val> &) { Val v; v.t = ARR; v.o = std::make_shared<Obj>(); return v; }},
    {"alen", [=](Interp &, std::vector<Val> &a) { a2(a, 1); return Val::num(arr(a[0])->len()); }},
    {"aget", [=](Interp &, std::vector<Val> &a) { a2(a, 2); auto &m = arr(a[0])->a; auto e = m.find((unsigned long) a[1].n); return e == m.end() ? Val() : e->second; }},
    {"aset", [=](Interp &, std::vector<Val> &a) { a2(a, 3); arr(a[0])->a[(unsigned long) a[1].n] = a[2]; return Val::num(0); }},
    {"bigset", [=](Interp &, std::vector<Val> &a) { a2(a, 3); arr(a[0])->a[(unsigned long) a[1].n] = a[2]; return Val::num(0); }},
    {"bigget", [=](Interp &, std::vector<Val> &a) { a2(a, 2); auto &m = arr(a[0])->a; auto e = m.find((unsigned long) a[1].n); return e == m.end() ? Val() : e->second; }},
    {"bigdel", [=](Interp &, std::vector<Val> &a) { a2(a, 2); arr(a[0])->a.erase((unsigned long) a[1].n); return Val(); }},
    {"hugeset", [=](Interp &I, std::vector<Val> &a) { a2(a, 3); I.set(a[0], Val::str("huge" + num_str(a[1].n)), a[2]); return Val::num(0); }},
    {"hugeget", [=](Interp &I, std::vector<Val> &a) { a2(a, 2); return I.get(a[0], Val::str("huge" + num_str(a[1].n))); }},
    {"apush", [=](Interp &, std::vector<Val> &a) { a2(a, 2); auto o = arr(a[0]); unsigned long l = o->len(); o->a[l] = a[1]; return Val::num(0); }},
    {"adel", [=](Interp &, std::vector<Val> &a) { a2(a, 2); arr(a[0])->a.erase((unsigned long) a[1].n); return Val(); }},
  };
  for (auto &x : n) { I.natives[x.first] = x.second; I.global->v[x.first] = Val::nat(x.first.c_str()); }
}
}  // namespace capi
