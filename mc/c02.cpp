// C02: garbage collection is transparent
#include "scale.hpp"
#include "capi.hpp"
#include "nat.hpp"
#include "ffp.hpp"

static bool native_gc = false;
using nat::programs;
static void junk(struct mjs *m) {          // overwrites the cells which were just freed
  mjs_val_t s = mjs_mk_string(m, "junk junk junk junk", ~0, 1);
  mjs_val_t a = mjs_mk_object(m);
  for (int i = 0; i < 12; i++) {
    mjs_val_t o = mjs_mk_object(m);
    mjs_set(m, o, "junk name", ~0, s); mjs_set(m, o, "j", ~0, a);
  }
}
static void collect(struct mjs *m, int full) { mjs_gc(m, full); junk(m); mjs_gc(m, full); junk(m); }
static void gobs(struct mjs *m) { if (native_gc) collect(m, 1); vm::nat_obs(m); if (native_gc) collect(m, 0); }
static void prep(vm::Vm &v) { capi::prep(v); nat::prep(v); v.native("obs", gobs); }
static void fprep(vm::Vm &v) { prep(v); ffp::prep(v); }
static void rprep(ref::Interp &I) { capi::rprep(I); nat::rprep(I); }

static const char *SEP = "\n%%mode\n";

// programs which allocate enough to collect by themselves
static Strs heavy(int n) {
  Strs r;
  {
    std::string N = std::to_string(n);
    r.push_back("let l=[];for(let i=0;i<" + N + ";i++){l.push({i:i,s:'number '+JSON.stringify(i)});} let t=0;for(let i=0;i<" + N + ";i++){t+=l[i].i;if(l[i].s!=='number '+JSON.stringify(i)){obs('bad',i);}} obs(t);l.length");
    r.push_back("let s='';for(let i=0;i<" + N + ";i++){s+=chr(48+i%70);} obs(s);let u='';for(let i=0;i<s.length;i++){u+=s[i];} obs(u===s);s.length");
    r.push_back("let h=null;for(let i=0;i<" + N + ";i++){h={next:h,v:'node '+chr(48+i%70)};} let c=0;let p=h;let s='';while(p){c++;s=s+p.v;p=p.next;} obs(c,s.length);h=0;let z={};for(let i=0;i<" + N + ";i++){z={only:z.only?'x':'first'};} obs(z);c");
    r.push_back("let o={};for(let i=0;i<" + N + ";i++){o['key'+JSON.stringify(i)]={v:i};} let t=0;for(let k in o){t+=o[k].v;} obs(t);for(let i=0;i<" + N + ";i++){let d={a:{b:{c:'tmp'+chr(65+i%20)}}};if(d.a.b.c!=='tmp'+chr(65+i%20)){obs('bad');}} t");
    r.push_back("let f=function(n){let l={n:'frame'+chr(48+n%70)};if(n<1){return [];}let r=f(n-1);r.push(l.n);return r;};let k=0;let s='';for(let i=0;i<" + N + "/10;i++){let r=f(9);s=r[0]+r[8];k+=r.length;} obs(k,s);");
    r.push_back("let j='[]';for(let i=0;i<" + N + "/4;i++){let v=JSON.parse(j);v.push({i:i});if(v.length>9){v.splice(0,5);}j=JSON.stringify(v);} obs(j);");
    r.push_back("let l=[];for(let i=0;i<" + N + ";i++){l.push('str '+JSON.stringify(i));if(l.length>20){l.splice(0,10);}} obs(l);");
    r.push_back("let q=[];for(let i=0;i<" + N + ";i++){q.push(function(x){return x+1;});q.push(pair(i,'pair string'));if(q.length>30){q=[];}} obs(q.length);each([1,2,3],function(x){let t=[];for(let i=0;i<" + N + "/3;i++){t.push('each '+chr(48+x));}return t[t.length-1];})");
  }
  return r;
}
static void enumerate(bool th, const Emit &emit) {
  for (auto &p : programs(th)) for (auto &m : {"each", "all", "native"}) emit(p + SEP + m);
  for (auto &p : nat::forin_changes()) { for (auto &m : {"each", "all", "native"}) emit(p + SEP + m); for (int i = 0; i < (th ? 40 : 4); i++) emit(p + SEP + (th ? "pairs1 " : "pairs10 ") + std::to_string(i)); }
  for (size_t q = 0; q < ffp::progs().size(); q++) {
    for (auto &m : {"each", "all", "native"}) emit("#ffi " + std::to_string(q) + SEP + m);
    for (int i = 0; i < (th ? 40 : 4); i++) emit("#ffi " + std::to_string(q) + SEP + (th ? "pairs1 " : "pairs10 ") + std::to_string(i));
  }
  for (int n : {16, 30, 120, 500}) for (auto &p : heavy(n)) {
    emit(p + SEP + "auto");
    if (n < (th ? 200 : 20)) { emit(p + SEP + "all"); emit(p + SEP + "native"); }
    for (int i = 0; i < (th ? 64 : 8); i++) emit(p + SEP + "slice" + std::to_string((th ? 64 : 8) * (n < 100 ? 20 : n < 200 ? 8 : 2)) + " " + std::to_string(i) + (th ? "/64" : "/8"));
  }
  Strs few = corpus(); for (auto &x : failing()) few.push_back(x); for (auto &x : nat::corpus_nat()) few.push_back(x);
  for (auto &p : few) for (int i = 0; i < (th ? 40 : 4); i++) emit(p + SEP + (th ? "pairs1 " : "pairs10 ") + std::to_string(i));
}

static void check(const std::string &text, mc::Ctx &c) {
  size_t at = text.find(SEP);
  if (at == std::string::npos) mc::fail("bad case");
  Strs src = {text.substr(0, at)}; std::string mode = text.substr(at + strlen(SEP));
  native_gc = false;
  const char *want = nullptr; auto prep = ::prep;
  if (src[0].compare(0, 5, "#ffi ") == 0) { auto &p = ffp::progs().at(atoi(src[0].c_str() + 5)); src[0] = p.src; want = p.obs; prep = fprep; }
  ffp::between = [](struct mjs *m) { if (native_gc) collect(m, 1); };
  Run base = run_real(src, prep);
  c.executions++; c.transitions += base.ops;
  if (base.exhausted) { c.nontrivial = false; return; }
  if (want) {
    if (base.out[0] != "=" + vm::str(std::string(want))) mc::fail("without a forced collection: expected " + vm::str(std::string(want)) + "\n  got " + base.out[0] + " " + base.msg[0]);
    c.validated++;
  } else if (mode == "each" || mode == "auto") {
    ref::Expect e = ref::expect(src, rprep);
    if (!e.specified) c.count(("unspecified: " + e.why).c_str());
    else { c.validated++; if (!matches(e, base)) mc::fail("without a forced collection: expected " + show(e.out, e.obs) + "\n  got      " + show(base.out, base.obs)); }
  }
  auto cmp = [&](const Run &r, const std::string &what) {
    c.executions++; c.transitions += r.ops;
    if (r.out != base.out || r.obs != base.obs || r.msg != base.msg || r.exhausted)
      mc::fail(what + "\n  without: " + show(base.out, base.obs) + " " + base.msg[0] + "\n  with:    " + show(r.out, r.obs) + " " + (r.msg.empty() ? "" : r.msg[0]));
    c.state(r.obs + r.out[0]);
  };
  uint64_t N = base.ops;
  auto run1 = [&](uint64_t k, uint64_t l, int full) {
    cmp(run_real(src, prep, [&](struct mjs *m, uint64_t i) { if (i == k || i == l) collect(m, full); }),
        "collection after operation " + std::to_string(k) + (l != k ? " and " + std::to_string(l) : ""));
  };
  c.count("collection_points", N);
  if (mode == "auto") return;
  if (mode == "each") for (uint64_t k = 0; k < N; k++) run1(k, k, k & 1);
  else if (mode == "all") {
    cmp(run_real(src, prep, [&](struct mjs *m, uint64_t) { mjs_gc(m, 0); }), "collection after every operation");
    cmp(run_real(src, prep, [&](struct mjs *m, uint64_t i) { mjs_gc(m, i & 1); junk(m); }), "collection and allocation after every operation");
  } else if (mode == "native") {
    native_gc = true;
    cmp(run_real(src, prep), "collections in natives");
    cmp(run_real(src, prep, [&](struct mjs *m, uint64_t i) { if (i % 3 == 0) mjs_gc(m, 0); }), "collections in natives and every third operation");
    native_gc = false;
  } else if (mode.compare(0, 5, "slice") == 0) {
    unsigned n = 0, i = 0, sh = 1; sscanf(mode.c_str(), "slice%u %u/%u", &n, &i, &sh);
    N = N ? N - 1 : 0;
    for (uint64_t j = i; j < n; j += sh) run1(N * j / n, N * j / n, j & 1);
  } else {
    int stride = atoi(mode.c_str() + 5), sh = atoi(mode.c_str() + mode.find(' ') + 1), nsh = stride == 1 ? 40 : 4;
    for (uint64_t k = sh; k < N; k += nsh * (stride == 1 ? 1 : 3)) for (uint64_t l = k + 1; l < N; l += stride) run1(k, l, 1);
  }
}

int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C02";
  d.rule = "a case is a program and a set of collection schedules: after each single operation, after all of them, inside natives, after pairs of operations; freed cells are overwritten with other values at once. Non-trivial: the program terminates";
  d.enumerate = enumerate; d.check = check; d.case_timeout = 120;
  d.assumptions = {"collections happen between operations or inside natives (the engine never collects elsewhere)", "natives keep values they hold across calls of scripts in owned variables"};
  scale::wrap(d, "C02");
  return mc::run(d, argc, argv);
}
