// C05: objects and prototype chains behave as maps
#include "scale.hpp"
#include "capi.hpp"

static std::string head() {
  return "let kn='a'+chr(0)+'b';let kz='a'+chr(0)+'c';let kl='" + std::string(200, 'L') + "1';let km='" + std::string(200, 'L') + "2';let o={};let c=Object.create(o);let d=o;let n=0;";
}
static std::string tail(const Strs &keys) {
  std::string r;
  for (auto x : {"o", "c", "d"}) {
    std::string X = x, a, b;
    for (auto &k : keys) { a += (a.empty() ? "" : ",") + X + "[" + k + "]"; b += (b.empty() ? "" : ",") + std::string("cget(") + X + "," + k + ")"; }
    r += "obs(" + a + ");obs(" + b + ");own(" + X + ");forin(" + X + ");";
  }
  return r + "obs(o===d,c===d,c===o);";
}
static void seqs(const Strs &ops, int n, const std::string &pre, const std::string &post, const Emit &emit) {
  emit(pre + post);
  if (n) for (auto &o : ops) seqs(ops, n - 1, pre + o, post, emit);
}
static Strs ops_for(const Strs &keys, const Strs &objs, const Strs &forms) {
  Strs r;
  for (auto &f : forms) for (auto &X : objs) for (auto &k : keys) r.push_back(subst(subst(f, "X", X), "K", k));
  return r;
}

static void enumerate(bool th, const Emit &emit) {
  Strs all = {"'a'", "'abcde'", "'abcdef'", "kn", "kz", "''", "kl", "km", "'1'", "'length'"};
  Strs few = {"'a'", "'abcdef'", "kl"};
  Strs glob = {"c=Object.create(c);", "o=Object.create(o);", "c={};", "d=c;", "gc(true);", "o=c;", "c.__p=d;", "o.__p=c;", "c={x:o,a:7};", "let o={a:'new o'};"};
  Strs A = ops_for(all, {"o", "c"}, {"X[K]=++n;", "del(X,K);", "obs(X[K]+=1);"});
  for (auto &g : glob) A.push_back(g);
  seqs(A, th ? 3 : 2, head(), tail(all), emit);
  seqs(A, 2, head() + "o.a='pre';o.abcdef='pre2';o[kn]=1;o[kl]='long';c.abcde=5;c['1']=2;", tail(all), emit);
  Strs B = ops_for(few, {"o", "c", "d"}, {"X[K]=++n;", "del(X,K);"});
  for (auto &x : ops_for({"'a'", "kl"}, {"o", "c"}, {"obs(X[K]++);", "cset(X,K,n);", "X[K]='some string '+chr(65+n);"})) B.push_back(x);
  for (auto &g : glob) B.push_back(g);
  seqs(B, 3, head(), tail(few), emit);
  Strs C = ops_for({"'a'", "'bcdefg'"}, {"o", "c"}, {"X[K]=++n;", "del(X,K);"});
  for (auto &g : {"c=Object.create(c);", "d=c;", "o=c;", "c.__p=d;", "obs(c.a+=5);"}) C.push_back(g);
  seqs(C, th ? 6 : 4, head(), tail({"'a'", "'bcdefg'"}), emit);
  // every pair of key names: the same or different property
  std::string L(300, 'q');
  Strs names = {"''", "'a'", "'b'", "'ab'", "'abc'", "'abcd'", "'abcde'", "'abcdx'", "'abcdef'", "'abcdeg'", "'abcdefg'", "chr(0)", "'a'+chr(0)", "chr(0)+'a'", "'a'+chr(0)+'b'", "'abcdef'+chr(0)", "'abcdef'+chr(0)+'x'", "'abcdef'+chr(0)+'y'", "chr(255)", "'abc'+'def'", "'xabcdefx'.slice(1,7)", "'0'", "'00'", "'1'", "' 1'", "1", "0", "1.5", "'1.5'", "true", "'true'", "null", "'null'", "undefined", "'undefined'", "-1", "'-1'", "'length'", "'push'", "'slice'", "'hasOwnProperty'", "'constructor'", "'__proto__'", "'x.y'", "'x'", "'this'", "'let'", "'" + L + "'", "'" + L + "r'", "'" + L.substr(1) + "'", "1e9", "4294967296", "'4294967296'"};
  for (auto &a : names) for (auto &b : names)
    for (auto &f : Strs{"o[A]=1;o[B]=2;", "o[A]=1;c[B]=2;", "o[A]=1;o[B]=o[A];o[A]=3;", "o[A]=1;o[B]+=1;", "cset(o,A,1);csetv(o,B,2);obs(cgetv(o,A),cgetp(c,B));", "o={x:1};o[A]=5;obs(del(o,B));"})
      emit("let o={};let c=Object.create(o);let d=o;" + subst(subst(f, "A", a), "B", b) + "obs(o[" + a + "],o[" + b + "],c[" + a + "],c[" + b + "]);own(o);own(c);forin(o);");
  // literals and member syntax
  for (auto &k : {"a", "abcdef", "length", "push", "x1", "_", "__x", "apple", "iffy", "lettuce", "inner", "thisone", "nullable"}) {
    std::string K = k;
    for (auto &q : {"", "'", "\""}) for (auto &v : {"1", "'v'", "{}", "[]", "function(){return 3;}", "undefined", "null"}) {
      std::string lit = "{" + std::string(q) + K + q + ":" + v + "}";
      emit("let o=" + lit + "; obs(o." + K + ",o['" + K + "']); own(o); o." + K + "=4; obs(o." + K + "); o." + K + "+=1; obs(o['" + K + "']); o.other={n:o}; obs(o.other.n." + K + "); own(o); forin(o);");
      emit("let o={first:1," + std::string(q) + K + q + ":" + v + ",last:2}; o['" + K + "']=o." + K + "; obs(o); let c=Object.create(o); obs(c." + K + "); c." + K + "=9; obs(o." + K + ",c." + K + "); own(c);");
    }
  }
  // objects of n properties, two of them deleted and one rewritten, with every choice
  for (int n : {1, 2, 3, 4, 5, 6, 8, 12}) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k += (th ? 1 : 3)) for (auto &p : {"k", "property number "}) {
    std::string P = p, s = "let o={};let c=Object.create(o);";
    for (int x = 0; x < n; x++) s += "o['" + P + std::to_string(x) + "']=" + std::to_string(x * 10) + ";";
    s += "obs(del(o,'" + P + std::to_string(i) + "'));own(o);obs(del(o,'" + P + std::to_string(j) + "'));o['" + P + std::to_string(k) + "']='rewritten';own(o);forin(o);";
    for (int x = 0; x < n; x++) s += "obs(o['" + P + std::to_string(x) + "'],c['" + P + std::to_string(x) + "']);";
    emit(s + "for(let q in o){ o[q]=1; } obs(o);");
  }
  // long chains
  for (int n : {1, 2, 3, 10, 50, 90}) for (int at : {0, 1, n / 2, n - 1, n}) {
    if (at < 0 || at > n) continue;
    std::string s = "let base={z:'at the base'};let o=base;let i=0;let t=0;for(i=0;i<" + std::to_string(n) + ";i++){o=Object.create(o);if(i===" + std::to_string(at) + "){o.z='in the middle';t=o;}} obs(o.z,base.z);o.z+='!';obs(o.z,base.z);own(o);own(base);";
    emit(s); emit(s + "del(o,'z');obs(o.z);if(t){del(t,'z');}obs(o.z);del(base,'z');obs(o.z);");
  }
}
static void check(const std::string &t, mc::Ctx &c) { diff_case(t, c, capi::prep, capi::rprep); }

int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C05";
  d.rule = "all sequences of object operations (set, compound, delete, prototype changes, aliasing, collection; script and C API) up to length 2-4 over alphabets of names and objects; all pairs of property names; all deletions of objects of up to 12 properties; prototype chains up to 90; non-trivial: the reference specifies the result";
  d.enumerate = enumerate; d.check = check;
  d.assumptions = {"the hidden prototype property __p is not counted among the own properties", "modification of an object while it is enumerated is not judged (except rewriting values)"};
  scale::wrap(d, "C05");
  return mc::run(d, argc, argv);
}
