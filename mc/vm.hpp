// The real engine, driven through its public C API.
#pragma once
#include <cmath>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <dlfcn.h>
#include "mc.hpp"
#include "mjs_core_public.h"
#include "mjs_array_public.h"
#include "mjs_exec_public.h"
#include "mjs_ffi_public.h"
#include "mjs_gc_public.h"
#include "mjs_object_public.h"
#include "mjs_primitive_public.h"
#include "mjs_string_public.h"
#include "mjs_util_public.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" void *__asan_region_is_poisoned(void *beg, size_t size);

namespace vm {

struct Hook {
  uint64_t n = 0;                 // opcodes executed
  uint64_t budget = 200000;
  bool exhausted = false;
  std::function<void(struct mjs *, uint64_t)> fn;   // called after opcode k
};
inline Hook H;

inline void hook_reset(uint64_t budget = 200000) { H.n = 0; H.budget = budget; H.exhausted = false; H.fn = nullptr; }

inline std::string num(double d) {
  if (std::isnan(d)) return "NaN";
  if (d == 0) return "0";   // the sign of zero is not observed
  char b[40];
  if (std::isinf(d)) return d > 0 ? "Inf" : "-Inf";
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
// The drivers are not instrumented: what they read from the engine is checked here.
inline std::string str(const char *p, size_t n) {
  if (n && __asan_region_is_poisoned((void *) p, n)) mc::fail("the engine returned a string which points to freed or foreign memory");
  std::string r = "'";
  for (size_t i = 0; i < n; i++) {
    unsigned char c = p[i]; char b[8];
    if (c < 32 || c > 126 || c == '\'' || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += (char) c;
  }
  return r + "'";
}
inline std::string str(const std::string &s) { return str(s.data(), s.size()); }

struct Dumper {
  struct mjs *m; std::map<mjs_val_t, int> ids; bool functions_by_id = false;
  std::string go(mjs_val_t v, int depth = 0) {
    if (mjs_is_undefined(v)) return "undefined";
    if (mjs_is_null(v)) return "null";
    if (mjs_is_boolean(v)) return mjs_get_bool(m, v) ? "true" : "false";
    if (mjs_is_number(v)) return num(mjs_get_double(m, v));
    if (mjs_is_string(v)) {
      size_t n = 0; const char *p = mjs_get_string(m, &v, &n);
      if (p == NULL) return "<bad string>";
      return str(p, n);
    }
    if (mjs_is_array(v) || mjs_is_object(v)) {
      auto it = ids.find(v);
      if (it != ids.end()) return "#" + std::to_string(it->second);
      int id = ids.size(); ids[v] = id;
      if (depth > 400) return "<deep>";
      if (mjs_is_array(v)) {
        unsigned long n = mjs_array_length(m, v);
        std::string r = "[";
        if (n > 100000) return "<huge array>";
        for (unsigned long i = 0; i < n; i++) { if (i) r += ","; r += go(mjs_array_get(m, v, i), depth + 1); }
        return r + "]";
      }
      std::vector<std::pair<std::string, mjs_val_t>> props;
      mjs_val_t it2 = mjs_mk_undefined(), k; size_t guard = 0;
      while ((k = mjs_next(m, v, &it2)) != mjs_mk_undefined()) {
        size_t n = 0; const char *p = mjs_get_string(m, &k, &n);
        std::string ks = p ? std::string(p, n) : std::string("<bad key>");
        props.push_back({ks, mjs_get(m, v, ks.data(), ks.size())});
        if (++guard > 100000) { props.push_back({"<endless>", mjs_mk_undefined()}); break; }
      }
      std::stable_sort(props.begin(), props.end(), [](auto &a, auto &b) { return a.first < b.first; });
      std::string r = "{";
      for (auto &p : props) { if (r.size() > 1) r += ","; r += str(p.first) + ":" + go(p.second, depth + 1); }
      return r + "}";
    }
    if (mjs_is_function(v)) return "fn";
    if (mjs_is_foreign(v)) return mjs_get_ptr(m, v) ? "ptr" : "null";
    const char *t = mjs_typeof(v);
    return std::string("<") + (t ? t : "?") + ">";
  }
};

inline std::string dump(struct mjs *m, mjs_val_t v) { Dumper d{m, {}}; return d.go(v); }

struct Out {
  int err = 0; std::string val; std::string msg; bool exhausted = false;
  std::string str() const { return err ? "E" + std::to_string(err) : "=" + val; }
};

inline std::string *OBS = nullptr;     // sink of obs()
inline std::vector<std::string> *KEYS = nullptr;

inline void nat_obs(struct mjs *m) {
  std::string r;
  for (int i = 0; i < mjs_nargs(m); i++) r += (i ? " " : "") + dump(m, mjs_arg(m, i));
  if (OBS) *OBS += r + ";";
  mjs_return(m, mjs_arg(m, 0));
}

struct Vm {
  struct mjs *m;
  std::string obs;
  Vm() {
    m = mjs_create();
    mjs_val_t g = mjs_get_global(m);
    mjs_set(m, g, "obs", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) nat_obs));
    mjs_set_ffi_resolver(m, dlsym);
  }
  ~Vm() { if (m) mjs_destroy(m); }
  Vm(const Vm &) = delete;
  void native(const char *name, void (*f)(struct mjs *)) {
    mjs_set(m, mjs_get_global(m), name, ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) f));
  }
  Out finish(mjs_err_t e, mjs_val_t r) {
    Out o; o.err = e; o.exhausted = H.exhausted;
    if (e) { const char *s = mjs_strerror(m, e); o.msg = s ? s : ""; }
    else o.val = dump(m, r);
    return o;
  }
  Out exec(const std::string &src) {
    mjs_val_t r = mjs_mk_undefined();
    OBS = &obs;
    mjs_err_t e = mjs_exec(m, src.c_str(), &r);
    return finish(e, r);
  }
};

}  // namespace vm

extern "C" inline __attribute__((used)) void mjs_verif_point(struct mjs *m) {
  using namespace vm;
  uint64_t k = H.n++;
  if (H.n > H.budget) { H.exhausted = true; mjs_set_errorf(m, MJS_INTERNAL_ERROR, "op budget"); return; }
  if (H.fn) H.fn(m, k);
}
