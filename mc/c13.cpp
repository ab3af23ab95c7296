// C13: behaviour does not depend on where code lies or how large it is
#include "scale.hpp"
#include "capi.hpp"
#include "nat.hpp"

// '@' is a place for a padding statement, '#' for a padding expression argument
static const std::vector<std::string> CONS = {
  "let r=0; if(T){ @ r=1; @ } obs(r);", "let r=0; if(F){ @ r=1; @ } obs(r);",
  "let r=0; if(T){ @ r=1; }else{ @ r=2; } obs(r);", "let r=0; if(F){ @ r=1; }else{ @ r=2; } obs(r);",
  "let r=0; if(F){ @ r=1; }else if(T){ @ r=2; }else{ @ r=3; } obs(r);", "let r=0; if(F){ @ r=1; }else if(F){ @ r=2; }else{ @ r=3; } obs(r);",
  "let i=0; while(i<3){ @ i++; obs(i); @ } obs('w',i);", "let i=0; while(second(#,i<3)){ i++; if(i===2){ @ continue; } @ obs(i); } obs('w',i);",
  "let i=0; while(true){ i++; @ if(i===2){ @ break; } @ obs(i); } obs('w',i);",
  "for(let i=0;i<3;i++){ @ obs(i); @ } obs('f');", "for(let i=second(#,0);second(#,i<3);i+=second(#,1)){ @ obs(i); } obs('f');",
  "for(let i=0;i<5;i++){ if(i===1){ @ continue; } @ obs(i); if(i===3){ @ break; } @ } obs('f');",
  "for(let k in {a:1}){ @ obs(k); @ } obs('fi');", "for(let k in second(#,{a:1})){ if(k==='b'){ @ break; } @ obs(k); if(k==='a'){ @ continue; } @ obs('no'); } obs('fi');", "for(let k in {}){ @ obs(k); } obs('fi');",
  "obs(T ? second(#,1) : second(#,2), F ? second(#,1) : second(#,2));", "obs(T && second(#,1), F && second(#,2), T || second(#,3), F || second(#,4));", "obs(second(#, T ? 1 : 2) ? F || (T && second(#,3)) : second(#,4));",
  "let f=function(a,b){ @ let t=a+b; @ return t; }; obs(f(1,2)); obs(f(3,4));", "let f=function(a){ @ let g=function(b){ @ return b+1; }; @ return g(a)+1; }; obs(f(1));",
  "let o={m:function(){ @ return this.v; }, v:7, n:[1,function(x){ @ return x; }]}; obs(o.m(), o.n[1](8));", "let f=function(n){ @ if(n<1){ @ return 0; } @ return n+f(n-1); }; obs(f(3));",
  "let f=function(){ for(let i=0;i<3;i++){ @ for(let j=0;j<3;j++){ @ if(i+j===3){ @ return i*10+j; } @ } } return -1; }; obs(f());",
  "let f=function(){ let w=0; while(w<3){ @ w++; for(let k in {a:1}){ @ if(w===2){ return k+'!'; } } } @ return 'none'; }; obs(f());",
  "let f=function(a,b){ @ return [a,b,this]; }; obs(f.apply(#,[#,2])[1], callf(f,3)[0]);", "let a=[1,second(#,2),[3,#]]; obs(a[1],a[2][0]); let o={x:second(#,5),y:{z:second(#,6)}}; obs(o.x,o.y);",
  "{ @ let b=1; { @ let b=2; obs(b); @ } obs(b); }", "let s='start'; @ s+=second(#,'x'); s=s+'y'; @ obs(s);", "callf(function(){ for(let i=0;i<2;i++){ @ callf(function(x){ @ obs(x); },i); } });",
  "let r=0; if(T) for(let i=0;i<2;i++){ @ r+=i+1; } else { @ r=9; } obs(r);", "let i=0; while(i<2){ i++; let j=0; while(j<2){ j++; if(j===1){ @ continue; } @ if(i===1){ break; } @ obs(i,j); } @ } obs(i);",
};
static const char *PRE = "let T=true; let F=false; let second=function(sa,sb){ return sb; };";
static std::vector<std::string> holes(const std::string &s) { std::vector<std::string> r; for (char ch : s) if (ch == '@' || ch == '#') r.push_back(std::string(1, ch)); return r; }
static int nholes(int k) { return holes(CONS[k]).size(); }
static std::string fill(const std::string &s, const std::vector<long> &n, const std::map<int, std::string> &nested = {}) {
  std::string r; int h = 0;
  for (char ch : s) {
    if (ch == '@') { long v = h < (int) n.size() ? n[h] : -1; if (v >= 0) r += "'" + std::string(v, 'p') + "';"; auto it = nested.find(h); if (it != nested.end()) r += "{" + it->second + "}"; h++; }
    else if (ch == '#') { long v = h < (int) n.size() ? n[h] : -1; r += v >= 0 ? "'" + std::string(v, 'q') + "'" : "0"; h++; }
    else r += ch;
  }
  return r;
}
static std::string SELF = getenv("MC_VARIANT") ? getenv("MC_VARIANT") : "main";
static void prep(vm::Vm &v) { capi::prep(v); nat::prep(v); }
static void rprep(ref::Interp &I) { capi::rprep(I); nat::rprep(I); }
static std::map<std::string, std::string> want;
// what the program observes without any padding, by the reference
static std::string expect(const std::string &src) {
  auto it = want.find(src); if (it != want.end()) return it->second;
  ref::Expect e = ref::expect({PRE + src + "0"}, rprep);
  if (!e.specified) mc::fail("reference: " + e.why + " in " + src);
  if (want.size() > 5000) want.clear();
  return want[src] = e.out[0] + e.obs;
}
static void run(const Strs &srcs, const std::string &w, mc::Ctx &c, const char *what) {
  Run r = run_real(srcs, prep, nullptr, 100000);
  c.executions++; c.transitions += r.ops; c.validated++;
  std::string got = (r.out.empty() ? "" : r.out.back()) + r.obs;
  c.state(w);
  if (got != w) mc::fail(std::string(what) + ": observed " + got + " " + (r.msg.empty() ? "" : r.msg.back()) + "\n  instead of " + w);
}
static void check(const std::string &text, mc::Ctx &c) {
  size_t sp = text.find(' '); std::string t = text.substr(sp + 1);
  char kind = t[0]; std::vector<long> a; for (size_t i = 1; i < t.size();) { while (i < t.size() && t[i] == ' ') i++; if (i >= t.size()) break; a.push_back(strtol(&t[i], 0, 10)); while (i < t.size() && t[i] != ' ') i++; }
  auto src = [&](const std::string &s) { return PRE + s + "0"; };
  if (kind == 'c') {                  // c <cons> <sizes of the holes, -1: none>
    std::vector<long> n(a.begin() + 1, a.end());
    run({src(fill(CONS[a[0]], n))}, expect(fill(CONS[a[0]], {})), c, "padding inside");
  } else if (kind == 'n') {           // n <outer> <hole> <inner> <pad outer> <inner hole> <pad inner>
    std::vector<long> no(a[1] + 1, -1), ni(a[4] + 1, -1); no[a[1]] = a[3]; ni[a[4]] = a[5];
    std::string w = expect(fill(CONS[a[0]], {}, {{(int) a[1], fill(CONS[a[2]], {})}}));
    run({src(fill(CONS[a[0]], no, {{(int) a[1], fill(CONS[a[2]], ni)}}))}, w, c, "nested");
  } else if (kind == 'l') {           // l <cons> <bytes before> <number of scripts before> <pad of all holes>
    std::vector<long> n(nholes(a[0]), a[3]); Strs s; long per = a[2] ? a[1] / a[2] : 0;
    for (long i = 0; i < a[2]; i++) s.push_back("'" + std::string(per, 'l') + "';0");
    std::string before = a[2] ? "" : "'" + std::string(a[1], 'b') + "';";
    s.push_back(PRE + before + fill(CONS[a[0]], n) + "0");
    run(s, expect(fill(CONS[a[0]], {})), c, "placed later");
  } else if (kind == 'f') {           // f <cons> <bytes> <scripts>: a function of an early script, called from a later one
    Strs s; s.push_back(PRE + std::string("let early=function(){ ") + fill(CONS[a[0]], {}) + "};0");
    for (long i = 0; i < a[2]; i++) s.push_back("let v" + std::to_string(i) + "=function(x){ '" + std::string(a[1] / a[2], 'l') + "'; return x+" + std::to_string(i) + "; };0");
    std::string w = expect(fill(CONS[a[0]], {})), more;
    std::string last = "early();"; for (long i = 0; i < a[2]; i++) { last += "obs(v" + std::to_string(i) + "(100));"; more += std::to_string(100 + i) + ";"; }
    s.push_back(last + "0");
    run(s, w + more, c, "functions of earlier scripts");
  } else if (kind == 's') {           // s <n> <kind>: string constants, names, keys of a given length
    long n = a[0]; std::string x; for (long i = 0; i < n; i++) x += (char) ('a' + i % 26);
    std::string nm = "v" + x; vm::hook_reset(); vm::Vm v; prep(v); vm::Out o;
    switch (a[1]) {
      case 0: o = v.exec("let s='" + x + "'; obs(s.length); s"); if (o.str() != "='" + x + "'" || v.obs != std::to_string(n) + ";") mc::fail("string literal of length " + std::to_string(n)); break;
      case 1: o = v.exec("let " + nm + "=5; let f=function(" + nm + "){ return " + nm + "+1; }; f(" + nm + ")"); if (o.str() != "=6") mc::fail("identifier of length " + std::to_string(n + 1) + ": " + o.str() + o.msg); break;
      case 2: o = v.exec("let o={" + nm + ":1,'" + x + "':2}; o." + nm + "+=5; [o." + nm + ",o['" + x + "'],o]"); { std::string k1 = "'" + nm + "':6", k2 = "'" + x + "':2", w = "=[6,2,{" + (x < nm ? k2 + "," + k1 : k1 + "," + k2) + "}]"; if (o.str() != w) mc::fail("keys of length " + std::to_string(n) + ": " + o.str() + o.msg); } break;
      case 3: o = v.exec("let r='';for(let " + nm + " in {" + nm + ":1}){ r+=" + nm + "; } r"); if (o.str() != "='" + nm + "'") mc::fail("loop variable of length " + std::to_string(n + 1)); break;
      case 4: { std::string e, b; long m = n % 600; for (long i = 0; i < m; i++) { e += (i ? "," : "") + std::to_string(i); } o = v.exec("let a=[" + e + "]; let o={" + (m ? "k0:0" : "") + "}; [a.length,a[a.length-1],a]"); if (o.err || o.val.compare(0, 2 + std::to_string(m).size(), "[" + std::to_string(m) + ",")) mc::fail("array literal of " + std::to_string(m) + " elements: " + o.str().substr(0, 100)); break; }
      case 5: { long m = n % 300; std::string p, q, sum; long tot = 0; for (long i = 0; i < m; i++) { p += (i ? ",p" : "p") + std::to_string(i); q += (i ? "," : "") + std::to_string(i); sum += "+p" + std::to_string(i); tot += i; } o = v.exec("let f=function(" + p + "){ return 0" + sum + "; }; f(" + q + ")"); if (o.str() != "=" + std::to_string(tot)) mc::fail("function of " + std::to_string(m) + " parameters: " + o.str() + o.msg); break; }
    }
    c.executions++; c.validated++; c.transitions += vm::H.n;
  }
}
static void enumerate(bool th, const Emit &e0) {
  Emit emit = [&](const std::string &s) { e0(SELF + " " + s); };
  auto S = [](long x) { return " " + std::to_string(x); };
  std::vector<long> B; for (long n = 0; n < (th ? 420 : 280); n++) B.push_back(n);
  std::vector<long> B2; for (long n = 16384 - 330; n < 16384 + 30; n += 1) B2.push_back(n);
  std::vector<long> B3; for (long n = 2097152 - 300; n < 2097152 + 20; n += th ? 2 : 40) B3.push_back(n);
  int NC = CONS.size();
  for (int k = 0; k < NC; k++) {
    int h = nholes(k);
    auto cs = [&](const std::vector<long> &v) { std::string t = "c" + S(k); for (long x : v) t += S(x); emit(t); };
    for (int j = 0; j < h; j++) {
      std::vector<long> v(j + 1, -1);
      for (long n : B) { v[j] = n; cs(v); }
      for (long n : B2) if (th || n % 2 == j % 2) { v[j] = n; cs(v); }
      if (th || j == (h > 1)) for (long n : B3) { v[j] = n; cs(v); }
      for (int j2 = 0; j2 < h; j2++) if (j2 != j) for (long n = th ? 20 : 60; n < 135; n += th ? 1 : 3) for (long n2 : {40L, 60L, 80L, 95L, 110L, 125L, 127L, 128L, 16370L}) { std::vector<long> w(std::max(j, j2) + 1, -1); w[j] = n; w[j2] = n2; cs(w); }
    }
    for (long n = 0; n < 140; n++) cs(std::vector<long>(h, n));
    if (th) for (int j = 0; j < h; j++) for (int j2 = j + 1; j2 < h; j2++) for (long n = 16384 - 200; n < 16384; n += 3) for (long n2 : {100L, 120L, 126L, 16300L, 16380L}) { std::vector<long> w(j2 + 1, -1); w[j] = n; w[j2] = n2; cs(w); }
    // places
    for (long m : {0L, 1L, 2L, 3L, 130L, 300L}) for (long b : {0L, 100L, 127L, 128L, 16300L, 16384L, 17000L, 2097152L, 3000000L}) { if (b > 100000 && m > 3) continue; for (long p : {-1L, 20L, 127L}) emit("l" + S(k) + S(b) + S(m) + S(p)); }
    for (long b = 0; b < 400; b++) { emit("l" + S(k) + S(b) + S(0) + S(-1)); if (b % 3 == 0) emit("l" + S(k) + S(b) + S(1) + S(-1)); }
    for (long b = 16384 - 400; b < 16384 + 20; b += th ? 1 : 5) { emit("l" + S(k) + S(b) + S(0) + S(-1)); emit("l" + S(k) + S(b) + S(1) + S(5)); }
    for (long m : {1L, 2L, 5L, 60L, 130L}) for (long b : {0L, 200L, 1000L, 16384L, 100000L, 2100000L}) { if (b > 1000000 && (m > 5 || (!th && k % 5))) continue; emit("f" + S(k) + S(b) + S(m)); }
    // nested
    for (int j = 0; j < h; j++) if (holes(CONS[k])[j] == "@") for (int q = 0; q < NC; q++) {
      int hi = nholes(q);
      for (int ji = 0; ji < hi; ji++) {
        if (!th && (ji + j + k + q) % 3) continue;
        for (long n = -1; n < 128; n += th ? 2 : 9) emit("n" + S(k) + S(j) + S(q) + S(n) + S(ji) + S(-1));
        for (long n = 10; n < 130; n += th ? 2 : 8) { emit("n" + S(k) + S(j) + S(q) + S(-1) + S(ji) + S(n)); if (th) emit("n" + S(k) + S(j) + S(q) + S(n / 2) + S(ji) + S(n)); }
        for (long n : {128L, 16200L, 16300L, 16384L}) emit("n" + S(k) + S(j) + S(q) + S(30) + S(ji) + S(n));
      }
    }
  }
  for (long n = 0; n < 300; n++) for (int k = 0; k < 6; k++) emit("s" + S(n) + S(k));
  for (long n = 300; n < 600; n++) emit("s" + S(n) + S(4));
  for (long n : {16381L, 16382L, 16383L, 16384L, 16385L, 16386L, 32768L, 65535L, 65536L, 100000L, 2097151L, 2097152L}) for (int k = 0; k < 4; k++) emit("s" + S(n) + S(k));
}
int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C13"; d.rule = "a case is a construct with padding of given sizes at its places (or a construct nested in another one, a position after other code or other scripts, a length of a literal or name), for one build variant of the initial offset size";
  d.enumerate = enumerate; d.check = check; d.case_timeout = 60;
  d.assumptions = {"padding is string constants, so that a place grows by single bytes", "variants: MJS_INIT_OFFSET_SIZE 0, 1, 2, 4"};
  scale::wrap(d, "all");
  return mc::run(d, argc, argv);
}
