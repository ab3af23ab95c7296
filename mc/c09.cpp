// C09: a run-time error ends the script cleanly
#include "scale.hpp"
#include "capi.hpp"
#include "nat.hpp"

static const char *SEP = "\n%%mode\n";
static int fail_obs = -1, obs_calls = 0;       // the n-th call of obs() fails
static void eobs(struct mjs *m) {
  if (obs_calls++ == fail_obs) { mjs_set_errorf(m, MJS_BAD_ARGS_ERROR, "native %d", fail_obs); return; }
  vm::nat_obs(m);
}
static void prep(vm::Vm &v) { capi::prep(v); nat::prep(v); v.native("obs", eobs); }
static void rprep(ref::Interp &I) { capi::rprep(I); nat::rprep(I); }

static std::set<std::string> builtin;
static std::string globals(struct mjs *m, std::set<std::string> *names = nullptr) {
  mjs_val_t g = mjs_get_global(m), it = mjs_mk_undefined(), k; std::map<std::string, std::string> r; size_t guard = 0;
  vm::Dumper d{m, {}};
  std::vector<std::pair<std::string, mjs_val_t>> ps;
  while (!mjs_is_undefined(k = mjs_next(m, g, &it))) {
    size_t n = 0; const char *p = mjs_get_string(m, &k, &n); std::string s(p ? p : "?", p ? n : 1);
    if (++guard > 3000) mc::fail("endless enumeration of the globals");
    if (names) names->insert(s);
    if (builtin.count(s)) continue;
    ps.push_back({s, mjs_get(m, g, s.data(), s.size())});
  }
  std::sort(ps.begin(), ps.end(), [](auto &a, auto &b) { return a.first < b.first; });
  std::string o; for (auto &x : ps) o += x.first + "=" + d.go(x.second) + ";";
  return o;
}
static Strs idents(const std::string &s) {      // names which the program declares
  std::set<std::string> r; size_t i = 0;
  auto id = [&](size_t &j) { std::string t; while (j < s.size() && (isalnum((unsigned char) s[j]) || s[j] == '_')) t += s[j++]; return t; };
  while ((i = s.find("let ", i)) != std::string::npos) { i += 4; std::string t = id(i); if (!t.empty()) r.insert(t); }
  i = 0; while ((i = s.find("function(", i)) != std::string::npos) { i += 9; while (i < s.size() && s[i] != ')') { std::string t = id(i); if (!t.empty()) r.insert(t); else i++; } }
  return Strs(r.begin(), r.end());
}

static const char *PROBE =
    "let zz1=0; for(let zz2=0;zz2<6;zz2++){ if(zz2===1){continue;} if(zz2===4){break;} zz1+=zz2+1; } "
    "let zz3=function(zza,zzb){ let zzl=[zza,zzb]; for(let zzk in {q:1}){ zzl.push(zzk); } return [this,zzl]; }; "
    "let zz4={m:zz3}; let zz5=zz4.m(1,'two'); let zz6=zz3(3); let zz7=callf(zz3,4); let zz8=zz3.apply('t',[5,6]); "
    "[zz1,zz5[0]===zz4,zz5[1],zz6,zz7,zz8,this,typeof zz3]";
static const char *PROBED = "=[8,true,[1,'two','q'],[undefined,[3,undefined,'q']],[undefined,[4,undefined,'q']],['t',[5,6,'q']],undefined,'function']";

static void cleanup_probe(vm::Vm &v) {
  for (const char *n : {"zz1", "zz3", "zz4", "zz5", "zz6", "zz7", "zz8"}) mjs_del(v.m, mjs_get_global(v.m), n, ~0);
}
static void probe(vm::Vm &v, const std::string &src, const std::string &what) {
  vm::H.n = 0; vm::H.fn = nullptr; fail_obs = -1;
  std::set<std::string> names; globals(v.m, &names);
  vm::Out o = v.exec(PROBE);
  if (o.str() != PROBED) mc::fail(what + ": the next script gives " + o.str() + " " + o.msg + " instead of " + PROBED);
  cleanup_probe(v);
  for (auto &n : idents(src)) {
    o = v.exec(n + ";1");
    bool is = names.count(n);
    if (is ? o.err != 0 : o.err != MJS_REFERENCE_ERROR) mc::fail(what + ": '" + n + "' is " + (is ? "" : "not ") + "a global, but using it gives " + o.str());
  }
}

// mode top: the program at top level; fn: in a function called by a script; call: by mjs_call
struct Cfg { std::string src, how; };
static std::string setup(vm::Vm &v, const Cfg &c) {
  if (builtin.empty()) {
    vm::Vm w; prep(w); std::set<std::string> n; globals(w.m, &n); builtin = n;
  }
  prep(v);
  if (c.how == "top") return c.src;
  vm::Out o = v.exec("let PP=function(){ " + c.src + "\n};0");
  if (o.err) mc::fail("setup: " + o.msg);
  return "PP()";
}
static vm::Out start(vm::Vm &v, const Cfg &c, const std::string &src) {
  vm::OBS = &v.obs;
  vm::H.n = 0; obs_calls = 0;
  mjs_val_t r = mjs_mk_number(v.m, 4711); mjs_err_t e;
  if (c.how == "call") e = mjs_call(v.m, &r, mjs_get(v.m, mjs_get_global(v.m), "PP", ~0), mjs_mk_undefined(), 0);
  else e = mjs_exec(v.m, src.c_str(), &r);
  vm::Out o = v.finish(e, r);
  if (e && !mjs_is_undefined(r)) mc::fail("the result of a failed run is not undefined");
  return o;
}

static void nested(const std::string &src, int outer, mc::Ctx &c);
static void check(const std::string &text, mc::Ctx &c) {
  size_t at = text.find(SEP); if (at == std::string::npos) mc::fail("bad case");
  std::string mode = text.substr(at + strlen(SEP)); size_t sp = mode.find(' ');
  if (mode.compare(0, 6, "nested") == 0) { nested(text.substr(0, at), atoi(mode.c_str() + 7), c); return; }
  Cfg f{text.substr(0, at), mode.substr(0, sp)}; std::string how = mode.substr(sp + 1);
  // without an injected error
  std::vector<size_t> obslen; std::string bobs; vm::Out bout; int bcalls; std::string bglob;
  {
    vm::hook_reset(); fail_obs = -1; vm::Vm v; std::string s = setup(v, f); v.obs = "";
    vm::H.fn = [&](struct mjs *, uint64_t) { obslen.push_back(v.obs.size()); };
    bout = start(v, f, s); bobs = v.obs; bcalls = obs_calls; vm::H.fn = nullptr;
    c.executions++; c.transitions += vm::H.n;
    if (bout.exhausted) { c.nontrivial = false; return; }
    bglob = globals(v.m);
    if (f.how == "top") {
      ref::Expect e = ref::expect({f.src}, rprep);
      if (e.specified) { c.validated++; Run r; r.out = {bout.str()}; r.obs = bobs; if (!matches(e, r)) mc::fail("undisturbed: expected " + show(e.out, e.obs) + "\n  got      " + show(r.out, bobs)); }
    }
    if (bout.err) probe(v, f.src, "after the error of the program itself");
    if (bout.err && f.how != "top") {
      v.obs = ""; vm::Out o = start(v, f, s);
      if (o.str() != bout.str() || v.obs != bobs || o.msg != bout.msg) mc::fail("the second run gives " + o.str() + " " + o.msg + " " + v.obs + " instead of " + bout.str() + " " + bout.msg + " " + bobs);
    }
  }
  size_t N = obslen.size(); c.count("error_points", N);
  auto rerun = [&](vm::Vm &v, const std::string &s, const std::string &what) {
    if (f.how == "top") return;
    v.obs = ""; vm::H.fn = nullptr; fail_obs = -1;
    vm::Out o = start(v, f, s);
    if (o.str() != bout.str() || o.msg != bout.msg || v.obs != bobs) mc::fail(what + ": running it again gives " + o.str() + " " + o.msg + " observed " + v.obs + "\n  instead of " + bout.str() + " " + bout.msg + " observed " + bobs);
    c.validated++;
  };
  auto inject = [&](vm::Vm &v, const std::string &s, size_t k, const std::string &what) {
    std::string glob; bool hit = false; int code = 1 + k % 8;
    v.obs = "";
    vm::H.fn = [&](struct mjs *m, uint64_t i) {
      if (i != k) { if (hit) v.obs += "<operation after the error>"; return; }
      hit = true; glob = globals(m); mjs_set_errorf(m, (mjs_err_t) code, "injected %d", (int) k);
    };
    vm::Out o = start(v, f, s); vm::H.fn = nullptr;
    c.executions++; c.transitions += vm::H.n;
    if (!hit) mc::fail(what + ": not reached");
    std::string msg = "injected " + std::to_string(k);
    if (o.err != code || o.msg != msg) mc::fail(what + ": returned " + o.str() + " '" + o.msg + "' instead of the error " + std::to_string(code));
    if (v.obs != bobs.substr(0, obslen[k])) mc::fail(what + ": observed " + v.obs + "\n  instead of " + bobs.substr(0, obslen[k]));
    std::string g = globals(v.m);
    if (g != glob) mc::fail(what + ": globals " + g + "\n  instead of " + glob);
    c.state(std::to_string(k) + v.obs + glob);
    c.validated++;
  };
  if (how == "each") {
    for (size_t k = 0; k < N; k++) {
      vm::hook_reset(); fail_obs = -1; vm::Vm v; std::string s = setup(v, f), w = "error after operation " + std::to_string(k);
      inject(v, s, k, w); probe(v, f.src, w);
      if (k & 1) { mjs_gc(v.m, 1); mjs_mk_object(v.m); }
      rerun(v, s, w); probe(v, f.src, w + " and another run");
    }
  } else if (how == "native") {
    for (int k = 0; k < bcalls; k++) {
      vm::hook_reset(); vm::Vm v; std::string s = setup(v, f), w = "error in call " + std::to_string(k) + " of a native function"; v.obs = ""; fail_obs = k;
      vm::Out o = start(v, f, s);
      c.executions++; c.transitions += vm::H.n;
      std::string msg = "native " + std::to_string(k);
      if (o.err != MJS_BAD_ARGS_ERROR || o.msg != msg) mc::fail(w + ": returned " + o.str() + " " + o.msg);
      if (bobs.compare(0, v.obs.size(), v.obs) || std::count(v.obs.begin(), v.obs.end(), ';') > std::count(bobs.begin(), bobs.end(), ';')) mc::fail(w + ": observed " + v.obs + "\n  instead of a part of " + bobs);
      if (obs_calls != k + 1) mc::fail(w + ": the script continued");
      probe(v, f.src, w); rerun(v, s, w);
    }
  } else {                                        // pairs: two failures in a row, then a complete run
    unsigned stride = 1, sh = 0, nsh = 1; sscanf(how.c_str(), "pairs%u %u/%u", &stride, &sh, &nsh);
    for (size_t k = sh; k < N; k += nsh) for (size_t l = k % stride; l < N; l += stride) {
      vm::hook_reset(); fail_obs = -1; vm::Vm v; std::string s = setup(v, f), w = "errors after operation " + std::to_string(k) + " and, in the next run, " + std::to_string(l);
      inject(v, s, k, w); inject(v, s, l, w); rerun(v, s, w);
    }
  }
}
// The program runs (and fails) in a script which is executed by a native function, called by another script.
static Strs inner_idents(const std::string &s) {     // names declared in blocks, loops and functions only
  std::set<std::string> in, top; int d = 0;
  auto id = [&](size_t j) { std::string t; while (j < s.size() && (isalnum((unsigned char) s[j]) || s[j] == '_')) t += s[j++]; return t; };
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\'' || s[i] == '"') { char q = s[i]; for (i++; i < s.size() && s[i] != q; i++) if (s[i] == '\\') i++; continue; }
    if (s[i] == '{') d++;
    if (s[i] == '}') d--;
    if (s.compare(i, 4, "let ") == 0) { std::string t = id(i + 4); bool loop = i >= 4 && s.compare(i - 4, 4, "for(") == 0; (d > 0 || loop ? in : top).insert(t); }
    if (s.compare(i, 9, "function(") == 0) { size_t j = i + 9; while (j < s.size() && s[j] != ')') { std::string t = id(j); if (t.empty()) j++; else { in.insert(t); j += t.size(); } } }
  }
  Strs r; for (auto &t : in) if (!t.empty() && !top.count(t)) r.push_back(t);
  return r;
}
static const char *OUTER[] = {
  "let zqres=nest(); obs('after',zqres,typeof zqres); for(let zqi=0;zqi<2;zqi++){ obs(zqi); } 'outer value'",
  "let zqo={v:'of the object',m:function(zqarg){ for(let zqout=0;zqout<2;zqout++){ let zqloc='local '+chr(48+zqout); while(true){ { let zqdeep='deep'; let zqr=nest(); obs(zqout,zqloc,zqarg,zqdeep,this.v,zqr); } break; } if(zqout===5){ continue; } obs(zqloc); } return this.v; }}; obs(zqo.m('the argument')); zqo.v",
  "let zqf=function(zqarg){ let zqk={k:zqarg+'!'}; let zqr=callf(function(zqx){ return [nest(),zqx,zqk.k]; },zqarg); obs(zqr,zqarg,zqk); return zqr; }; obs(zqf('aaa bbb')); each([1,2],function(zqe){ obs(zqe,nest()); return zqe; });",
};
static std::function<void(struct mjs *)> nest_fn;
static void nat_nest(struct mjs *m) { nest_fn(m); mjs_return(m, mjs_mk_string(m, "native result", ~0, 1)); }
static void nested(const std::string &src, int outer, mc::Ctx &c) {
  Strs ids = inner_idents(src); std::string base; size_t N = 0;
  if (builtin.empty()) { vm::Vm w; prep(w); std::set<std::string> n; globals(w.m, &n); builtin = n; }
  for (size_t k = 0; k <= N; k++) {                  // the 0-th run is undisturbed, but finds out where errors can be raised
    vm::hook_reset(); fail_obs = -1; vm::Vm v; prep(v); v.native("nest", nat_nest); std::string all;
    for (auto &i : ids) if (builtin.count(i)) return;
    nest_fn = [&](struct mjs *m) {
      std::string *save = vm::OBS, sink; vm::OBS = &sink;
      auto saved = vm::H.fn; mjs_val_t r = mjs_mk_undefined(); size_t cnt = 0; bool hit = false; int code = 1 + k % 8;
      auto vis = [&] { std::string s; for (auto &i : ids) { mjs_val_t q; mjs_err_t e = mjs_exec(m, (i + ";1").c_str(), &q); s += i + (e ? " not visible;" : " visible;"); } vm::Out o; mjs_val_t q_; mjs_err_t e = mjs_exec(m, PROBE, &q_); o = v.finish(e, q_); return s + o.str(); };
      std::string before = vis();
      vm::H.fn = [&](struct mjs *mm, uint64_t) { if (++cnt == k) { hit = true; mjs_set_errorf(mm, (mjs_err_t) code, "injected %d", (int) k); } else if (hit) mc::fail("an operation is executed after the error"); };
      mjs_err_t e = mjs_exec(m, src.c_str(), &r); vm::H.fn = nullptr;
      c.executions++; c.transitions += cnt;
      if (k == 0) N = std::max(N, std::min(cnt, (size_t) 400));
      if (k && hit && (e != code || std::string(mjs_strerror(m, e)) != "injected " + std::to_string(k))) mc::fail("error after operation " + std::to_string(k) + " of the nested script: returned " + std::to_string(e) + " " + mjs_strerror(m, e));
      std::string after = vis();
      if (after != before) mc::fail("error after operation " + std::to_string(k) + " of the nested script: what the native function sees afterwards is\n  " + after + "\n  instead of\n  " + before);
      c.validated++;
      vm::H.fn = saved; vm::OBS = save;
    };
    v.obs = ""; vm::Out o = v.exec(OUTER[outer]); c.executions++;
    std::string got = o.str() + " " + o.msg + " observed " + v.obs;
    if (k == 0) base = got;
    if (got != base) mc::fail("error after operation " + std::to_string(k) + " of the nested script: the calling script gives\n  " + got + "\n  instead of\n  " + base);
    if (k == 0 && o.err) mc::fail("the calling script fails: " + got);
    c.state(got + std::to_string(k));
  }
}
static bool rerunnable(const std::string &p) { return p.find("kept()") == std::string::npos; }
static void enumerate(bool th, const Emit &emit) {
  Strs base = corpus(); for (auto &x : failing()) base.push_back(x); for (auto &x : nat::corpus_nat()) base.push_back(x);
  Strs more = {
    "let f=function(){ for(let k in {a:1,b:2}){ while(true){ let q='block local'; { let z=q+k; obs(z); if(k==='b'){} } break; } } return 'f result'; }; obs(f());",
    "let o={d:{m:function(a){ let g=function(b){ return callf(function(c){ return each([a,b,c],function(e){ return e+'!'; }); },'three three'); }; return g('two two two'); }}}; obs(o.d.m('one one one'));",
    "for(let i=0;i<2;i++){ for(let j=0;j<2;j++){ let s='inner '+chr(48+i)+chr(48+j); if(j===1){ continue; } callf(function(){ for(let k=0;k<2;k++){ obs(s,k); } }); } }",
    "let a={m:function(){ return {m:function(){ return {m:function(){ return this===undefined ? 0 : 'deep this'; }}; }}; }}; obs(a.m().m().m()); obs([a.m(),{x:a.m().m()}].length);",
    "let t=true ? (false || (null || {k:(1 && ['nested',function(x){ return x&&x.y||'default value'; }])})) : 0; obs(t.k[1]({y:'given'}),t.k[1](0));",
    "let c=0; let r=function(n){ c++; if(n===0){ return {}; } let x={n:n}; x.l=r(n-1); x.s=JSON.stringify(x); return x; }; obs(r(3).s.length>5,c); JSON.parse('[1,{\"k\":\"v v v v\"}]')[1].k",
    "let w=0; while(w<3){ w++; let f=function(){ for(let q in [1,2]){ return q; } }; if(f()==='zz'){ break; } obs(w,'w'); } obs.apply(obs,['applied',w]);",
    "let e=function(x){ return x; }; e(e(e(e(e('five levels of it'))))); obs(e({a:e([e(1),e('two two')])})); e.apply({},[e.apply(1,[2])]);",
  };
  for (auto &x : more) base.push_back(x);
  for (auto &p : base) for (const char *h : {"top", "fn", "call"}) {
    if (!rerunnable(p) && strcmp(h, "top")) continue;
    emit(p + SEP + h + " each"); emit(p + SEP + h + " native");
    if (strcmp(h, "top")) for (int i = 0; i < (th ? 16 : 4); i++) emit(p + SEP + h + (th ? " pairs1 " : " pairs17 ") + std::to_string(i) + (th ? "/16" : "/4"));
  }
  for (auto &p : base) for (int o = 0; o < 3; o++) if (p.find("kept()") == std::string::npos) emit(p + SEP + "nested " + std::to_string(o));
  int i = 0;
  for (auto &p : nat::programs(th)) {
    if (std::find(base.begin(), base.end(), p) != base.end()) continue;
    bool r = rerunnable(p);
    if (th || i % 9 == 0) emit(p + SEP + "top each");
    if (r && (th || i % 9 == 4)) emit(p + SEP + "fn each");
    if (r && (th || i % 9 == 8)) emit(p + SEP + "call each");
    if (r) emit(p + SEP + "fn native");
    i++;
  }
}
int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C09"; d.rule = "a case is a program (at top level, in a function called by a script, or called by mjs_call) and a set of error points: every operation, every call of a native, every pair of an operation in one run and one in the next; afterwards a probe script and the program itself run again. Non-trivial: the program terminates";
  d.enumerate = enumerate; d.check = check; d.case_timeout = 120;
  d.assumptions = {"errors are raised after operations or by natives; natives return after a failed nested call"};
  scale::wrap(d, "C09");
  return mc::run(d, argc, argv);
}
