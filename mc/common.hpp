// Shared by the drivers which compare the engine with the reference semantics.
#pragma once
#include "mc.hpp"
#include "vm.hpp"
#include "refjs.hpp"

typedef std::vector<std::string> Strs;
typedef std::function<void(const std::string &)> Emit;

inline Strs split(const std::string &s, const std::string &sep = "\n%%\n") {
  Strs r; size_t i = 0;
  for (;;) {
    size_t e = s.find(sep, i);
    if (e == std::string::npos) { r.push_back(s.substr(i)); return r; }
    r.push_back(s.substr(i, e - i)); i = e + sep.size();
  }
}
inline std::string subst(std::string s, const std::string &a, const std::string &b) {
  size_t i = 0;
  while ((i = s.find(a, i)) != std::string::npos) { s.replace(i, a.size(), b); i += b.size(); }
  return s;
}

struct Run { Strs out; std::string obs; uint64_t ops = 0; bool exhausted = false; Strs msg; };

// Runs the scripts one after another in a fresh instance.
inline Run run_real(const Strs &srcs, const std::function<void(vm::Vm &)> &prep = nullptr,
                    const std::function<void(struct mjs *, uint64_t)> &hook = nullptr, uint64_t budget = 200000) {
  Run r;
  vm::hook_reset(budget);
  vm::Vm v;
  if (prep) prep(v);
  vm::H.n = 0; vm::H.fn = hook;
  for (auto &s : srcs) {
    vm::Out o = v.exec(s);
    r.out.push_back(o.str()); r.msg.push_back(o.msg);
    if (o.exhausted) { r.exhausted = true; break; }
  }
  vm::H.fn = nullptr;
  r.ops = vm::H.n; r.obs = v.obs;
  return r;
}

inline std::string show(const Strs &o, const std::string &obs) {
  std::string r;
  for (auto &x : o) r += x + " | ";
  return r + "observed: " + obs;
}

inline bool matches(const ref::Expect &e, const Run &r) {
  if (e.out.size() != r.out.size() || e.obs != r.obs) return false;
  for (size_t i = 0; i < e.out.size(); i++) {
    if (e.out[i] == "=?") { if (r.out[i][0] != '=') return false; }
    else if (e.out[i] != r.out[i]) return false;
  }
  return true;
}

// Compares the engine with the reference; returns the run.
inline Run diff_case(const std::string &text, mc::Ctx &c, const std::function<void(vm::Vm &)> &prep = nullptr,
                     const std::function<void(ref::Interp &)> &rprep = nullptr) {
  Strs srcs = split(text);
  ref::Expect e = ref::expect(srcs, rprep);
  Run r = run_real(srcs, prep, nullptr, e.specified ? 200000 : 3000);
  c.executions++; c.transitions += r.ops;
  c.state(show(r.out, r.obs));
  if (!e.specified) {
    c.nontrivial = false; c.count("cases_outside_the_specified_domain"); c.count(("unspecified: " + e.why).c_str());
    if (getenv("MC_WHY")) fprintf(stderr, "UNSPEC %s: %s\n", e.why.c_str(), text.c_str());
    return r;
  }
  c.validated++;
  if (r.exhausted || !matches(e, r))
    mc::fail("expected " + show(e.out, e.obs) + "\n  got      " + show(r.out, r.obs) + (r.exhausted ? " (did not terminate)" : "") +
             (r.msg.empty() ? "" : " [" + r.msg.back() + "]"));
  return r;
}
