// C07: strings are immutable byte sequences in every representation
#include <deque>
#include "scale.hpp"
#include "capi.hpp"

static std::deque<std::string> mem;      // C memory which foreign strings point to
static void fo(struct mjs *m) { mem.push_back(capi::sarg(m, 0)); mjs_return(m, mjs_mk_string(m, mem.back().data(), mem.back().size(), 0)); }
static void mk(struct mjs *m) { std::string s = capi::sarg(m, 0); mjs_return(m, mjs_mk_string(m, s.data(), s.size(), 1)); }
static void ptr(struct mjs *m) { mem.push_back(capi::sarg(m, 0)); mjs_return(m, mjs_mk_foreign(m, (void *) mem.back().data())); }
static void cstr(struct mjs *m) {
  mjs_val_t v = mjs_arg(m, 0); size_t n = 0; const char *p = mjs_get_string(m, &v, &n); const char *c = mjs_get_cstring(m, &v);
  std::string r = "cstr ";
  if (p == NULL) r += "null";
  else if (memchr(p, 0, n)) { if (c != NULL) r += "cstring of a string with NUL"; }
  else if (c != NULL) { if (__asan_region_is_poisoned((void *) c, n + 1)) mc::fail("mjs_get_cstring points to foreign memory"); if (strlen(c) != n || memcmp(c, p, n)) r += "wrong cstring"; }
  else r += "no cstring";
  std::string b(p ? p : "", n);
  if (mjs_strcmp(m, &v, b.data(), b.size()) != 0) r += " strcmp!=0";
  if (mjs_strcmp(m, &v, (b + "x").data(), b.size() + 1) == 0) r += " equal to longer";
  if (n) { std::string d = b; d[n - 1] ^= 1; if (mjs_strcmp(m, &v, d.data(), n) == 0) r += " equal to other"; if (mjs_strcmp(m, &v, b.data(), n - 1) == 0) r += " equal to shorter"; }
  *vm::OBS += r + ";"; mjs_return(m, v);
}
static void eqk(struct mjs *m) {         // three ways to compare
  mjs_val_t a = mjs_arg(m, 0), b = mjs_arg(m, 1); size_t n = 0; const char *p = mjs_get_string(m, &b, &n); std::string s(p, n);
  mjs_return(m, mjs_mk_boolean(m, mjs_strcmp(m, &a, s.data(), s.size()) == 0));
}
static void prep(vm::Vm &v) { mem.clear(); capi::prep(v); v.native("fo", fo); v.native("mk", mk); v.native("cstr", cstr); v.native("eqk", eqk); v.native("ptr", ptr); }
static void rprep(ref::Interp &I) {
  using namespace ref;
  capi::rprep(I);
  auto id = [](Interp &, std::vector<Val> &a) { if (a.size() < 1 || a[0].t != STR) unspec("not a string"); return a[0]; };
  std::map<std::string, std::function<Val(Interp &, std::vector<Val> &)>> n = {
    {"fo", id}, {"mk", id}, {"ptr", [=](Interp &I, std::vector<Val> &a) { Val v = Val::nat("ptr"); v.s = "ptr" + id(I, a).s; return v; }},
    {"mkstr", [](Interp &, std::vector<Val> &a) { if (a.size() < 2 || a[0].t != NAT || a[0].s.compare(0, 3, "ptr") || a[1].t != NUM) unspec("mkstr"); size_t off = a.size() > 2 ? (size_t) a[1].n : 0; double len = a.size() > 2 ? a[2].n : a[1].n; std::string s = a[0].s.substr(3); if (len < 0 || off + len > s.size()) unspec("mkstr range"); return Val::str(s.substr(off, (size_t) len)); }},
    {"cstr", [](Interp &I, std::vector<Val> &a) { if (a.empty() || a[0].t != STR) unspec("cstr"); I.obs += "cstr ;"; return a[0]; }},
    {"eqk", [](Interp &, std::vector<Val> &a) { if (a.size() < 2 || a[0].t != STR || a[1].t != STR) unspec("eqk"); return Val::boo(a[0].s == a[1].s); }}};
  for (auto &x : n) { I.natives[x.first] = x.second; I.global->v[x.first] = Val::nat(x.first.c_str()); }
}

static std::string lit(const std::string &s) {
  std::string r = "'"; char b[8];
  for (unsigned char c : s) { if (c < 32 || c > 126 || c == '\'' || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += (char) c; }
  return r + "'";
}
static bool plain(const std::string &s) { for (unsigned char c : s) if (c < 32 || c > 126) return false; return true; }
// expressions which denote the bytes s, each through another representation
static Strs reps(const std::string &s) {
  Strs r = {lit(s), "mk(" + lit(s) + ")", "fo(" + lit(s) + ")", "(" + lit("<<<" + s + ">>>") + ".slice(3,-3))", "fo(" + lit("pre" + s) + ").slice(3)"};
  size_t h = s.size() / 2;
  r.push_back("(" + lit(s.substr(0, h)) + "+" + lit(s.substr(h)) + ")");
  r.push_back("(fo(" + lit(s.substr(0, h)) + ")+mk(" + lit(s.substr(h)) + "))");
  if (plain(s)) r.push_back("JSON.parse('\"" + subst(subst(lit(s), "'", ""), "\"", "\\\"") + "\"')");
  if (!s.empty() && s.size() < 8) { std::string c; for (unsigned char x : s) c += (c.empty() ? "" : "+") + ("chr(" + std::to_string(x) + ")"); r.push_back("(" + c + ")"); }
  r.push_back("mkstr(ptr(" + lit(s) + ")," + std::to_string(s.size()) + ")");
  r.push_back("mkstr(ptr(" + lit("ab" + s + "c") + "),2," + std::to_string(s.size()) + ",true)");
  if (s.size() == 1) r.push_back("(" + lit("xy" + s + "z") + "[2])");
  return r;
}

static void enumerate(bool th, const Emit &emit) {
  using S = std::string;
  std::vector<S> C = {"", "a", "b", "ab", "abc", "abcd", "abce", "abcde", "abcdf", "abcdef", "abcdeg", "abcdefgh", S("a\0b", 3), S("a\0c", 3), S("\0", 1), S("\0\0", 2), S("abcde\0f", 7), S("abcde\0g", 7), "\xff", "\x80\x01", "caf\xc3\xa9", "0", "12", "a b", "aaaa", "aaaaaaab", S(127, 'q'), S(128, 'q'), S(127, 'q') + "r", S(300, 'w') + S("\0", 1) + S(20, 'w')};
  Strs bin = {"obs(A===B,A!==B,eqk(A,B),B===A);", "let c=A+B;obs(c,c.length,c===A,c===B);cstr(c);", "obs(A.indexOf(B),B.indexOf(A),(A+B).indexOf(B),(A+B+A).indexOf(B,1));", "let o={};o[A]=1;o[B]=2;obs(o[A],o[B]);own(o);forin(o);obs(cget(o,A));", "let a=A;let b=B;let a2=a;a+=b;obs(a,a2,b,a2===A,b===B);", "let l=[A,B,A+B];obs(l,l[0]===A,l[2]===A+B);let o={k:A};obs(o.k===A,o.k+o.k);"};
  Strs un = {"obs(A,A.length,typeof A,A?1:0,!A);cstr(A);", "obs(A.slice(0),A.slice(1),A.slice(-1),A.slice(1,-1),A.slice(2,1),A.slice(-3,-1),A.slice(0,99));", "let s='';for(let i=0;i<A.length;i++){s+=A[i];if(A[i]!==chr(A.at(i))||A.at(i)!==A.charCodeAt(i)){obs('differs',i);}}obs(s===A,A[A.length],A.at(A.length));", "let j=JSON.stringify(A);obs(j);obs(JSON.parse(j)===A);", "let x=A;let y=x;let f=function(p){p+='changed';return p;};obs(f(x),x,y);", "let f=function(p,q){return [p,q,p===q];};obs(f(A,A));obs(f.apply(0,[A,A]));", "let o={};o[A]={};o[A][A]=A;obs(o[A][A]===A);del(o,A);own(o);", "let o=0;o={};for(let k in (function(){let r={};r[A]=1;return r;})()){obs(k===A,k,k.length);}", "gc(true);obs(A);gc(true);gc(true);obs(A);"};
  std::vector<S> small; for (auto &c : C) if (c.size() < 9) small.push_back(c);
  for (auto &a : C) for (auto &ra : reps(a)) {
    for (auto &f : un) emit(subst(f, "A", ra));
    for (auto &f : un) emit("let z=" + ra + ";gc(true);" + subst(f, "A", "z") + "gc(true);obs(z);");
    for (auto &b : C) {
      auto rb = reps(b);
      for (size_t k = 0; k < rb.size(); k++) {
        if (!th && a != b && a.size() + b.size() > 20 && k > 2) continue;
        for (auto &f : bin) if (th || a == b || k < 3 || &f < &bin[2]) emit(subst(subst(f, "A", ra), "B", rb[k]));
        if (k < 4) emit("let x=" + ra + ";let y=" + rb[k] + ";gc(true);let w=x+y;gc(true);obs(x,y,w,x===y,w.length);let o={};o[x]=1;o[y]=2;gc(true);own(o);obs(o[w.slice(0,x.length)],o[w.slice(x.length)]);gc(true);obs(x,y,w);cstr(x);cstr(w);");
      }
    }
  }
  // all indices of slice, at, [] and indexOf
  for (auto &a : small) for (auto &ra : reps(a)) {
    int n = a.size();
    for (int i = -n - 2; i <= n + 2; i++) {
      emit("let s=" + ra + ";obs(s.slice(" + std::to_string(i) + "),s[" + std::to_string(i) + "]);obs(s.at(" + std::to_string(i) + "));");
      for (int j = -n - 2; j <= n + 2; j++) emit("let s=" + ra + ";let t=s.slice(" + std::to_string(i) + "," + std::to_string(j) + ");obs(t,t.length,t===s);gc(true);obs(s,t);");
    }
    for (int i = 0; i <= n + 1; i++) for (auto &b : small) emit("obs(" + ra + ".indexOf(" + lit(b) + "," + std::to_string(i) + "),(" + ra + "+" + ra + ").indexOf(" + lit(b) + "," + std::to_string(i) + "));");
  }
  for (int c = 0; c < 256; c++) { S s(1, (char) c), k = std::to_string(c); emit("let s=chr(" + k + ");obs(s,s.length,s.at(0),s===" + lit(s) + ",s+s,('abcdefg'+s+'h').indexOf(s));let o={};o[s]=1;o[s+s]=2;own(o);cstr('xyzxyz'+s);"); }
  for (auto &x : {"", "1", "'x'", "undefined", "null", "{}", "'a','x'", "1,'x'"}) for (auto &f : {"slice", "at", "indexOf", "charCodeAt"}) for (auto &s : {"'abcdefg'", "''", "5", "null", "{}", "[]"}) emit(S("let s=") + s + ";obs(s." + f + "(" + x + "));");
  // histories: values must survive everything which happens to the storage
  Strs H = {"x=x+'abc';", "x='lit';", "x='a longer literal';", "y=x;", "y=x.slice(1);", "y=x+y;", "l.push(x);", "l.push(y+'!');", "l=[];", "o[x]=y;", "o[y]=x+y;", "gc(true);", "x=fo(y);", "y=mk(x+'m');", "x=l[0]||'none';", "o={};", "for(let k in o){y=k;}", "x=JSON.stringify(l);", "let q='temporary '+x+y;"};
  Strs T = {"obs(x,y,x.length,y.length,l,o,x===y);gc(true);obs(x,y,x+y,l,o);"};
  std::function<void(S, int)> go = [&](S s, int n) { emit("let x='start value';let y='';let l=[];let o={};" + s + T[0]); if (n) for (auto &h : H) go(s + h, n - 1); };
  go("", th ? 4 : 3);
  // many live strings of all lengths, storage growing and being compacted
  for (int n : {3, 10, 40, 150}) for (int step : {1, 2, 3, 7, 31}) for (auto &g : {"", "gc(true);", "gc(false);", "if(i%5===0){gc(true);}", "l.splice(0,1);if(i%4===0){gc(true);}"}) for (auto &src : {"base.slice(0,i*STEP%60)+chr(65+i%26)", "mk(base.slice(i%50))", "fo(base.slice(i%9,i%60))", "base.slice(i%7,i%7+STEP)", "JSON.stringify({k:i,v:base.slice(0,i%30)})", "base+base.slice(i%20)", "(i%2?'in':'abcdefgh'+chr(i%90+33))"}) {
    S s = "let base='0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ';let l=[];let o={};for(let i=0;i<" + std::to_string(n) + ";i++){let t=" + subst(src, "STEP", std::to_string(step)) + ";l.push(t);o['k'+t]=t;let junk=t+t+'junk';" + g + "}";
    emit(s + "gc(true);obs(l);let bad=0;for(let k in o){if(k!=='k'+o[k]){bad++;}}obs(bad);gc(true);obs(l.length,l[l.length-1]);obs(base.length);");
  }
}
static void check(const std::string &t, mc::Ctx &c) { diff_case(t, c, prep, rprep); }

int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C07";
  d.rule = "all pairs of string contents (30, lengths 0-321, with NUL and non-ASCII bytes) in up to 12 representations under all operations; all slice/index/indexOf arguments; all histories of storage operations up to length 3 (4); storage growth and compaction patterns; non-trivial: the reference specifies the result";
  d.enumerate = enumerate; d.check = check;
  d.assumptions = {"a C buffer given without copying stays valid and unchanged", "mjs_strcmp is judged for equality only"};
  scale::wrap(d, "C07");
  return mc::run(d, argc, argv);
}
