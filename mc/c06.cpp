// C06: arrays behave as sequences
#include "scale.hpp"
#include "capi.hpp"

static void seqs(const Strs &ops, int n, const std::string &pre, const std::string &post, const Emit &emit) {
  emit(pre + post);
  if (n) for (auto &o : ops) seqs(ops, n - 1, pre + o, post, emit);
}
static const std::string POST = "obs(a,a.length,alen(a),b,b===a);let s='';for(let i=0;i<a.length;i++){s+=typeof a[i]+(a[i]===aget(a,i)?'.':'!');}obs(s,a[a.length],a[-1],aget(a,a.length));own(a);forin(a);";

static void enumerate(bool th, const Emit &emit) {
  std::string head = "let n=10;let a=[];let b=a;";
  Strs A;
  for (auto x : {"a.push(++n);", "obs(a.push(++n,'two'));", "obs(a.push(1,[2],'three three'));", "obs(b.push(b.length));", "a.push(a);", "a=[];", "a=[n,'second'];", "b=a;", "a=b;", "a=a.splice(1,2);", "gc(true);", "obs(apush(a,++n));", "a=mkarr();", "b=[a];", "obs(a.length);", "a[a.length]=++n;", "a[a.length-1]='last';", "a[0]+=1;", "a['1']='by text';", "aset(a,0,++n);"}) A.push_back(x);
  for (int i : {0, 1, 2, 3}) A.push_back("a[" + std::to_string(i) + "]=++n;");
  for (int i : {1, 3}) A.push_back("obs(aset(a," + std::to_string(i) + ",++n));");
  for (auto x : {"0", "1", "2", "-1", "0,1", "1,1", "0,2", "-2,1", "1,0,'i'", "0,1,'i','j'", "-1,1,'k'", "5,1,'z'", "0,9", "1,-1", "2,0,1,2,3"}) A.push_back(std::string("obs(a.splice(") + x + "));");
  seqs(A, th ? 4 : 3, head, POST, emit);
  seqs(A, 2, head + "a.push(1,2,3,4,5);", POST, emit);
  seqs(A, 2, "let n=10;let a=[0,1,2];a[6]='six';let b=a;", POST, emit);
  seqs(A, 2, "let n=10;let a=[0,1,2];a[6]='six';let b=a;", "let s='';for(let i=0;i<a.length;i++){s+=typeof a[i]+(a[i]===aget(a,i)?'.':'!');}obs(a,s,a.length,alen(a),b);", emit);       // sparse
  Strs D; for (auto x : {"adel(a,0);", "adel(a,1);", "adel(a,a.length-1);", "adel(a,7);", "a.push(++n);", "aset(a,4,++n);", "a[0]=++n;", "obs(a.length,alen(a));", "apush(a,'p');"}) D.push_back(x);
  seqs(D, th ? 6 : 4, head, "obs(a.length,alen(a),aget(a,0),a[1],a[2]);own(a);", emit);
  seqs(D, 3, head + "a.push(1,2,3,4);", "obs(a.length,alen(a),aget(a,0),a[1],a[2]);own(a);", emit);
  // splice: every start, count and number of inserted elements on arrays of every length
  int N = th ? 12 : 6;
  for (int n = 0; n <= N; n++) for (int st = -n - 2; st <= n + 2; st++) for (int dc = -2; dc <= n + 2; dc++) for (int ins = 0; ins <= 3; ins++) {
    std::string s = "let a=[";
    for (int i = 0; i < n; i++) s += (i ? "," : "") + (i % 3 == 2 ? "'element " + std::to_string(i) + "'" : i % 3 == 1 ? "{v:" + std::to_string(i) + "}" : std::to_string(i));
    s += "];let b=a;obs(a.splice(" + std::to_string(st);
    if (dc > -2 || ins) s += "," + std::to_string(dc);
    for (int i = 0; i < ins; i++) s += ",'ins" + std::to_string(i) + "'";
    emit(s + "));obs(a,a.length,alen(b));own(a);a.push('after');obs(a,b[b.length-1]);forin(a);");
  }
  // literals, nesting, elements of every kind, long arrays
  Strs el = {"1", "'s'", "'longer string'", "null", "undefined", "true", "[]", "{}", "[1,[2]]", "{k:[1]}", "function(x){return x;}", "0.5", "-1", "a", "1+1", "x++"};
  for (auto &p : el) for (auto &q : el) { emit("let x=1;let a='A';let v=[" + p + "," + q + "];obs(v,v.length,v[0],v[1],v[2]);v[0]=v[1];obs(v[0]===v[1]||v[1]!==v[1]);v.push(" + p + ");obs(v,v.length,x);let w=[v,v];obs(w[0]===w[1],w[1][2],w);"); emit("let x=1;let a='A';let o={l:[" + p + "]};o.l.push(" + q + ");o.l[0]=o.l[1];obs(o,o.l.length,alen(o.l),aget(o.l,1));let r=o.l.splice(0,1," + q + "," + p + ");obs(r,o,r.length);"); }
  for (int n : {1, 2, 5, 9, 10, 11, 12, 20, 21, 99, 100, 101, 130, 300}) {
    std::string k = std::to_string(n);
    emit("let a=[];for(let i=0;i<" + k + ";i++){a.push(i*i);} obs(a.length,alen(a));let s=0;for(let i=0;i<" + k + ";i++){s+=a[i];if(a[i]!==aget(a,i)){obs('differs',i);}} obs(s,a[" + k + "]);own(a);");
    emit("let a=[];for(let i=" + k + "-1;i>=0;i--){a[i]=i;} obs(a.length,a);a.splice(0,1);obs(a.length,a[0]);a.splice(-1);obs(a.length,a);");
    emit("let a=[];a[" + k + "]='x';obs(a.length,a[" + k + "-1],a[" + k + "],alen(a));a.push('y');obs(a.length,a[" + k + "+1]);");
    emit("let a=[];for(let i=0;i<" + k + ";i++){aset(a,i,i);} let t=0;for(let q in a){t+=a[q];} obs(t,a.length);own(a);");
  }
  // named properties beside the elements: they are no elements
  Strs nm = {"'00'", "'01'", "'07'", "' 1'", "'1 '", "'+1'", "'-1'", "'-18446744073709551615'", "-1", "1.5", "'1.5'", "'1e1'", "'0x2'", "''", "'x'", "'a long property name'", "' '", "'2'+chr(0)", "true", "null", "'undefined'", "chr(0)+'1'"};
  for (auto &k : nm) {
    for (auto &l : nm) emit("let a=[1,2];a[" + k + "]='named';obs(a.length,alen(a),a[0],a[1],a[2],a[" + k + "],a[" + l + "]);a.push(3);own(a);a[" + l + "]='other';obs(a.length,a[2],a[" + k + "],a[" + l + "],a.splice(0,1));obs(a,a.length,a[" + k + "]);own(a);forin(a);obs(JSON.stringify(a));");
    for (auto &x : A) emit("let n=10;let a=[];let b=a;a[" + k + "]='named';" + x + POST + "obs(a[" + k + "]);");
    for (auto &f : {"f.apply(null,a)", "JSON.stringify(a)", "JSON.stringify({z:a})", "a.length"}) emit("let f=function(p,q,r){return [p,q,r];};let a=[7,8];a[" + k + "]='named';obs(" + f + ");");
    emit("let a=[];a[" + k + "]=1;obs(a.length);a[" + k + "]+=1;obs(a[" + k + "],alen(a));a[a.length]='first';obs(a);own(a);");
  }
  // large indices through the C functions
  Strs big = {"1e9", "4294967293", "4294967294", "4294967295", "4294967296", "999999999999999", "9007199254740992"};
  for (auto &i : big) for (auto &j : big) emit("let a=['first'];bigset(a," + i + ",'p');bigset(a," + j + ",'q');obs(bigget(a," + i + "),bigget(a," + j + "),a[0]);bigdel(a," + i + ");obs(bigget(a," + i + "),bigget(a," + j + "),a[0]);");
  for (int i : {0, 1, 5, 9}) for (int j : {0, 1, 5, 9}) emit("let a=['first'];hugeset(a," + std::to_string(i) + ",'p');hugeset(a," + std::to_string(j) + ",'q');obs(hugeget(a," + std::to_string(i) + "),hugeget(a," + std::to_string(j) + "),a[0],alen(a));");
  // indices which are not array indices, errors
  for (auto &i : {"0", "'0'", "'00'", "-1", "'-1'", "1.5", "'x'", "undefined", "null", "true", "{}", "[0]", "1e3", "NaN", "'length'", "4294967295", "2147483648"})
    for (auto &f : {"obs(a[I]);", "a[I]=7;obs(a.length,a);", "obs(a.splice(I));obs(a);", "obs(a.splice(0,I));obs(a);", "a.push(a[I]);obs(a);", "obs(a.splice(I,I,I));obs(a);"}) emit("let a=[1,2,3];" + subst(f, "I", i));
  for (auto &x : {"a.push", "a.splice", "a.length"}) for (auto &o : {"{push:1}", "'str'", "5", "null", "{}", "undefined"}) emit(subst(std::string("let a=") + o + ";obs(", "a.", "a.") + x + ");" + x + "(1);obs(a)");
  for (auto &x : Strs{"let p=a.push;p(1);", "let o={push:a.push};o.push(1);", "a.push.apply(a,[4,5]);", "a.splice();", "a.splice('x');", "a.splice(0,'x');", "a.length=1;", "a.push(a.push(4));", "a.push(a.splice(0,1));", "a.push(a.length,a.length);", "a[a.push(7)]=8;", "a[a.length]=a.length;", "a[0]=a.splice(0,1);", "a.splice(0,1,a.splice(0,1)[0]);"}) emit("let a=[1,2,3];" + x + "obs(a,a.length);");
}
static void check(const std::string &t, mc::Ctx &c) { diff_case(t, c, capi::prep, capi::rprep); }

int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C06";
  d.rule = "all sequences of array operations (script and C API) up to length 3-4 (thorough 4-6); splice with every start, count and insertion on arrays up to length 6 (12); all pairs of element kinds; lengths around 10, 100, 300; non-trivial: the reference specifies the result";
  d.enumerate = enumerate; d.check = check;
  d.assumptions = {"splice of sparse arrays, assignments to the length, and fractional indices of splice are not judged"};
  scale::wrap(d, "C06");
  return mc::run(d, argc, argv);
}
