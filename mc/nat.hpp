// Natives which call back into scripts and keep values in owned C variables,
// in the engine and in the reference. Used by C02, C09, C18, C19.
#pragma once
#include "common.hpp"
#include "corpus.hpp"

namespace nat {
struct Kept { mjs_val_t v = 0; bool owned = false; };
inline std::map<struct mjs *, Kept> kept;

// callf(f, a...): mjs_apply with this undefined; an error is passed on
inline void callf(struct mjs *m) {
  std::vector<mjs_val_t> a; for (int i = 1; i < mjs_nargs(m); i++) a.push_back(mjs_arg(m, i));
  mjs_val_t r = mjs_mk_undefined();
  mjs_err_t e = mjs_apply(m, &r, mjs_arg(m, 0), mjs_mk_undefined(), a.size(), a.data());
  if (e != MJS_OK) { mjs_return(m, mjs_mk_undefined()); return; }
  mjs_return(m, r);
}
// each(arr, f): f(element, index) for every element, results in a new array
inline void each(struct mjs *m) {
  mjs_val_t arr = mjs_arg(m, 0), f = mjs_arg(m, 1), out = mjs_mk_array(m), r = mjs_mk_undefined();
  mjs_own(m, &arr); mjs_own(m, &f); mjs_own(m, &out); mjs_own(m, &r);
  for (unsigned long i = 0; i < mjs_array_length(m, arr); i++) {
    mjs_val_t a[2] = {mjs_array_get(m, arr, i), mjs_mk_number(m, i)};
    if (mjs_apply(m, &r, f, arr, 2, a) != MJS_OK) break;
    mjs_array_push(m, out, r);
  }
  mjs_disown(m, &arr); mjs_disown(m, &f); mjs_disown(m, &out); mjs_disown(m, &r);
  mjs_return(m, out);
}
// pair(a, b): an object made in C
inline void pair(struct mjs *m) {
  mjs_val_t o = mjs_mk_object(m), s;
  mjs_own(m, &o);
  mjs_set(m, o, "first", ~0, mjs_arg(m, 0));
  s = mjs_mk_string(m, "made in C, not short", ~0, 1); mjs_set(m, o, "label of the pair", ~0, s);
  mjs_set(m, o, "second", ~0, mjs_arg(m, 1));
  mjs_disown(m, &o);
  mjs_return(m, o);
}
inline void keep(struct mjs *m) { Kept &k = kept[m]; k.v = mjs_arg(m, 0); if (!k.owned) { mjs_own(m, &k.v); k.owned = true; } mjs_return(m, mjs_mk_undefined()); }
inline void getkept(struct mjs *m) { mjs_return(m, kept[m].owned ? kept[m].v : mjs_mk_undefined()); }
inline void boom(struct mjs *m) { mjs_set_errorf(m, MJS_TYPE_ERROR, "boom %d", mjs_nargs(m)); mjs_return(m, mjs_mk_undefined()); }
inline void evalc(struct mjs *m) {      // evalc(text): mjs_exec inside of a native
  mjs_val_t v = mjs_arg(m, 0); size_t n = 0; const char *p = mjs_get_string(m, &v, &n); std::string s(p ? p : "", n);
  mjs_val_t r = mjs_mk_undefined();
  if (mjs_exec(m, s.c_str(), &r) != MJS_OK) r = mjs_mk_undefined();
  mjs_return(m, r);
}
inline void del(struct mjs *m) {        // del(o, name): mjs_del
  mjs_val_t v = mjs_arg(m, 1); size_t n = 0; const char *p = mjs_get_string(m, &v, &n); std::string s(p ? p : "", n);
  mjs_return(m, mjs_mk_boolean(m, mjs_del(m, mjs_arg(m, 0), s.data(), s.size()) == 0));
}
inline void prep(vm::Vm &v) {
  kept.clear(); v.native("del", del);
  v.native("callf", callf); v.native("each", each); v.native("pair", pair); v.native("keep", keep); v.native("kept", getkept); v.native("boom", boom); v.native("evalc", evalc);
}
inline void rprep(ref::Interp &I) {
  using namespace ref;
  auto store = std::make_shared<Val>();
  auto a2 = [](std::vector<Val> &a, size_t n) { if (a.size() < n) unspec("missing argument"); };
  std::map<std::string, std::function<Val(Interp &, std::vector<Val> &)>> n = {
    {"callf", [=](Interp &I, std::vector<Val> &a) { a2(a, 1); std::vector<Val> v(a.begin() + 1, a.end()); return I.call(a[0], Val(), v); }},
    {"each", [=](Interp &I, std::vector<Val> &a) { a2(a, 2); if (a[0].t != ARR) unspec("each"); Val r; r.t = ARR; r.o = std::make_shared<Obj>(); for (unsigned long i = 0; i < a[0].o->len(); i++) { auto e = a[0].o->a.find(i); std::vector<Val> v = {e == a[0].o->a.end() ? Val() : e->second, Val::num(i)}; r.o->a[i] = I.call(a[1], a[0], v); } return r; }},
    {"pair", [=](Interp &, std::vector<Val> &a) { a2(a, 2); Val o; o.t = OBJ; o.o = std::make_shared<Obj>(); o.o->p = {{"first", a[0]}, {"label of the pair", Val::str("made in C, not short")}, {"second", a[1]}}; return o; }},
    {"keep", [=](Interp &, std::vector<Val> &a) { a2(a, 1); *store = a[0]; return Val(); }},
    {"kept", [=](Interp &, std::vector<Val> &) { return *store; }},
    {"boom", [=](Interp &, std::vector<Val> &) -> Val { type_error(); }},
  };
  for (auto &x : n) { I.natives[x.first] = x.second; I.global->v[x.first] = Val::nat(x.first.c_str()); }
  I.global->v["evalc"] = Val::nat("evalc"); I.global->v["del"] = Val::nat("del");
}
// for-in loops whose body changes the object: the order is not specified, but
// it must not depend on garbage collection
inline Strs forin_changes() {
  Strs r;
  Strs init = {"{a:1,b:'second value',c:[3],d:4}", "{only:'one value'}", "['elem one','elem two',[3],'elem four']", "Object.create({inherited:1})"};
  Strs body = {"del(o,k);", "del(o,k);o[k]='again '+k;", "del(o,'a');", "del(o,'b');del(o,'c');", "del(o,'0');o.n=n;", "for(let j in o){del(o,j);}", "for(let j in o){del(o,j);if(n>1){break;}o[j+'x']={j:j};}",
               "o[k+'+']=k+' copied';", "if(n<2){o={fresh:'a fresh object',k:k};}", "o=0;", "o[k]={was:o[k]};", "let t={};for(let j in o){t[j]=o[j];}for(let j in t){del(o,j);}for(let j in t){o[j]=t[j];}", "if(typeof o==='array'){o.splice(0,2);}else{del(o,'d');del(o,'a');}", "if(typeof o==='array'){o.splice(0,o.length,'new elem');}", "if(typeof o==='array'){o.push('pushed '+k);}"};
  for (auto &i : init) for (auto &b : body)
    r.push_back("let o=" + i + ";let n=0;let s='';for(let k in o){n++;s+=k+',';" + b + "let tmp={x:'temp '+k,y:k};obs(tmp.x);if(n>7){break;}}obs(n,s,o);");
  for (auto &i : init) r.push_back("let f=function(o){for(let k in o){del(o,k);f(o);return k+' kept';}return 'empty';};let o=" + i + ";obs(f(o),o);f({z:'zz',y:'yy'})");
  r.push_back("let o={a:'value a',b:'value b'};let g=function(){for(let k in o){del(o,k);}return 'done '+chr(65);};for(let k in o){obs(k,g());}obs(o);");
  r.push_back("let o={a:'value a',b:'value b',c:'value c'};for(let k in o){each(['x x x x','y y y y'],function(e){del(o,k);del(o,'b');return {e:e+k};});obs(k,o);}");
  return r;
}
inline Strs corpus_nat() {
  return {
    "let f=function(a,b){let t={sum:a+b,tag:'tagged '+a};return t;}; obs(callf(f,'one one','two two')); callf(f,1,2).sum",
    "let r=each(['e one','e two',{n:3}],function(x,i){ let q=[x,i,'made '+chr(48+i)]; return q; }); obs(r); r.length",
    "let p=pair({a:'inner object'},['inner array']); obs(p); let q=pair(p,p); obs(q.first===q.second); q['label of the pair']",
    "keep({deep:{er:['kept value',1]}}); let x='other '+'strings'; obs(kept().deep.er[0]); keep('a kept string'); obs(kept()); keep(kept()+'!'); kept()",
    "let o={v:'method value',m:function(g){ return each([1,2],function(x,i){ return callf(g,x,'arg '+chr(48+i)); }); }}; obs(o.m(function(a,b){ return [a,b,this]; })); o.v",
    "let f=function(n){ if(n<1){ return ['bottom']; } let r=callf(f,n-1); r.push('level '+chr(48+n)); return r; }; obs(f(3)); f(1)",
    "let a=each([[1,'x x x x x x'],[2,'y y y y y y']],function(e){ let s=''; for(let k in e){ s+=JSON.stringify(e[k]); } return s; }); obs(a); a[0]+a[1]",
    "let s='acc: '; each(['alpha beta','gamma delta'],function(x){ s+=x.slice(0,5)+this[0].slice(-4); return s; }); obs(s); s",
    "let o={}; each(['key one','key two'],function(k,i){ o[k]=pair(k+i,o); return 0; }); obs(o['key one'].second===o); o['key two'].first",
    "let f=function(){ return each.apply(0,[[1],function(x){return {got:x};}]); }; let g=function(){ return 'string from g'; }; obs(callf(g)+callf(g)); callf(function(x){return x;},'id id id id')",
    "obs(callf(obs,'through a native','second')); callf(pair,'p p p p p','q q q q q')",
    "let f=function(){ keep(['kept by f']); return callf(function(){ return kept(); }); }; obs(f(),f()===kept()); kept()[0]",
  };
}
// programs which combine two operands with every kind of use
inline Strs programs(bool th) {
  Strs r = corpus(); for (auto &x : failing()) r.push_back(x); for (auto &x : corpus_nat()) r.push_back(x);
  Strs E = {"'lit lit lit'", "(sv+'concat')", "{k:sv+'prop'}", "[sv+'elem',2]", "function(q){return q+sv;}", "f('arg of f')", "o.m('arg of m')", "sv.slice(1)+sv", "JSON.parse('{\"jj\":[\"json string\"]}')", "JSON.stringify({z:sv})", "Object.create(o)", "pair(sv+'a',sv+'b')", "callf(f,sv+'c')", "(sv+'l').length", "(function(){let l=sv+'local';return l;})()", "ar.splice(0,1)", "f.apply(o,[sv+'ap'])", "'a long literal'.slice(2)", "chr(66)+'chr chr'"};
  Strs small; for (size_t i = 0; i < E.size(); i++) if (i % 3 == 1) small.push_back(E[i]);
  Strs C = {"obs([A,B]);", "obs({x:A,y:B});", "obs(two(A,B));", "let r={};r[sv+'key']=A;r.b=B;obs(r);", "obs(o.id(A),o.id(B));", "let x=A;let y=B;obs(x,y);", "obs(sv?A:0,0||B);", "o.p=A;o.q=B;obs(o.p,o.q);", "let g=function(){let l=A;return [l,B];};obs(g());", "for(let k in {a:A}){obs(k,B);}", "ar.push(A,B);obs(ar);", "let l=[A];l[0]=B;l[1]=A;obs(l);", "obs(two.apply(A,[B]));", "if(A){let t=B;obs(t);}", "let w=0;while(w<2){w++;let t=A;obs(t,B);}", "A;B;obs(sv);", "obs(each([A],function(x){return [x,B];}));", "keep(A);obs(B,kept());", "let h={m:A};obs((function(){return h.m;})(),B);", "let e=two(A,two(B,A));obs(e);"};
  for (auto &c : C) for (auto &a : E) for (auto &b : th ? E : small)
    r.push_back("let sv='script var ';let ar=['arr elem'];let f=function(x){let t=x+'!';return t;};let two=function(a,b){return {a:a,b:b};};let o={m:function(z){return {z:z,t:this===o};},id:function(x){return x;}};" + subst(subst(c, "A", "(" + a + ")"), "B", "(" + b + ")") + "obs(sv,ar);");
  for (auto &a : E) for (auto &c : {"let s='start ';s+=typeof A;s+=sv;obs(s);", "o[sv+'k']=A;for(let k in o){obs(k);}", "let t=A;t=A;obs(t);t=0;obs(A);", "let g=function(n){if(n<1){return A;}let l=sv+'frame';let r=g(n-1);obs(l);return r;};obs(g(3));", "let g=function(a,b){b=A;return [a,b];};obs(g(A,1),g());", "obs(A,A,A);A"})
    r.push_back("let sv='script var ';let ar=['arr elem','ae2'];let f=function(x){let t=x+'!';return t;};let o={m:function(z){return {z:z,t:this===o};}};" + subst(c, "A", "(" + a + ")") + "obs(sv);");
  return r;
}
}  // namespace nat
