// Programs which use C functions with callbacks, with what they have to show.
#pragma once
#include "common.hpp"

namespace ffp {
typedef int (*cb_t)(int, void *);
typedef void (*scb_t)(char *, void *);
inline struct mjs *M;
inline void (*between)(struct mjs *) = nullptr;        // called while C code runs
inline struct { cb_t f; void *u; } slot[3];
inline void b() { if (between) between(M); }
inline int id(int x) { b(); return x; }
inline double half(double x) { b(); return x / 2; }
inline char *name(int i) { static char s[4][32]; char *p = s[i & 3]; snprintf(p, 32, i & 1 ? "name number %d" : "n%d", i); b(); return p; }
inline int cmp(char *x, char *y) { return strcmp(x, y); }
inline int len(char *x) { return (int) strlen(x); }
inline void on(int i, cb_t f, void *u) { slot[i].f = f; slot[i].u = u; b(); }
inline int fire(int i, int x) { int r; b(); if (!slot[i].f) return 0; r = slot[i].f(x, slot[i].u); b(); return r; }
inline int sum(int n, cb_t f, void *u) { int t = 0; for (int i = 0; i < n; i++) { b(); t += f(i, u); } return t; }
inline void words(scb_t f, void *u) { static char w[3][24]; for (int i = 0; i < 3; i++) { snprintf(w[i], 24, i == 1 ? "w%d" : "a word of length %d", i); f(w[i], u); b(); } }
inline void *mem() { static char m[] = "bytes which belong to C\0tail"; b(); return m; }
inline void *res(void *, const char *n) {
  static const std::map<std::string, void *> F = {{"id", (void *) id}, {"half", (void *) half}, {"name", (void *) name}, {"cmp", (void *) cmp}, {"len", (void *) len}, {"on", (void *) on}, {"fire", (void *) fire}, {"sum", (void *) sum}, {"words", (void *) words}, {"mem", (void *) mem}};
  auto it = F.find(n); return it == F.end() ? NULL : it->second;
}
inline void prep(vm::Vm &v) { M = v.m; for (auto &s : slot) s = {nullptr, nullptr}; mjs_set_ffi_resolver(v.m, res); }

struct Prog { const char *src, *obs; };
inline const std::vector<Prog> &progs() {
  static const std::string D = "let id=ffi('int id(int)'),half=ffi('double half(double)'),name=ffi('char *name(int)'),cmp=ffi('int cmp(char *,char *)'),len=ffi('int len(char *)'),on=ffi('void on(int,int (*)(int,userdata),userdata)'),fire=ffi('int fire(int,int)'),sum=ffi('int sum(int,int (*)(int,userdata),userdata)'),words=ffi('void words(void (*)(char *,userdata),userdata)'),mem=ffi('void *mem()');";
  static std::vector<std::string> keep;
  static std::vector<Prog> r;
  if (r.empty()) {
    // wants: a single JSON string (what the program returns)
    std::vector<std::pair<std::string, std::string>> P = {
        {"let l='';on(0,function(x,u){l+=u.label+JSON.stringify(x);return x+u.n;},{label:'only C knows me',n:5});let r=fire(0,1)+fire(0,2);l+JSON.stringify(r)", "only C knows me1only C knows me213"},
        {"let l='';let reg=function(i,s){on(i,function(x,u){l+=u[0]+JSON.stringify(x)+' ';return u.length;},[s+' in an array',i]);};reg(0,'first');reg(1,'second');reg(2,'x');let t=fire(1,7);t+=fire(0,8);t+=fire(2,9);l+JSON.stringify(t)", "second in an array7 first in an array8 x in an array9 6"},
        {"let l='';on(0,function(x,u){l+=u;return 0;},'userdata '+'is a string');let j={a:'tmp',b:[1,2]};j=0;fire(0,0);fire(0,0);l", "userdata is a stringuserdata is a string"},
        {"let mk=function(s){let loc='local '+s;return function(x,u){u.log=u.log+s2(x);return x;};};let s2=function(x){return '<'+JSON.stringify(x)+'>';};let u={log:'log: '};on(1,mk('state'),u);let k=fire(1,3);k+=fire(1,4);u.log+JSON.stringify(k)", "log: <3><4>7"},
        {"let out=[];words(function(w,u){out.push(w+u.tail);},{tail:' and its tail'});words(function(w,u){u.push(w);},out);out[0]+'|'+out[1]+'|'+out[2]+'|'+out[3]+'|'+out[4]+'|'+out[5]", "a word of length 0 and its tail|w1 and its tail|a word of length 2 and its tail|a word of length 0|w1|a word of length 2"},
        {"let t=sum(3,function(i,u){return sum(i,function(k,v){return v.base+k+v.up.base;},{base:i,up:u});},{base:10});JSON.stringify(t)", "36"},
        {"let r='';sum(3,function(i,u){let o={};o['computed name '+JSON.stringify(i)]='value '+JSON.stringify(i);for(let k in o){r+=k+'='+o[k]+u.sep;}return 0;},{sep:'; '});r", "computed name 0=value 0; computed name 1=value 1; computed name 2=value 2; "},
        {"let a=[name(0),name(1),name(2),name(3)];a.push(a[1]+a[3]);a[0]+a[1]+a[2]+a[3]+a[4]", "n0name number 1n2name number 3name number 1name number 3"},
        {"let p=mem();let s=mkstr(p,0,5);let t=mkstr(p,6,5,true);let f=mkstr(p,0,23);p=0;s+'|'+t+'|'+f+'|'+f.slice(6,11)+JSON.stringify(f.indexOf('belong'))", "bytes|which|bytes which belong to C|which12"},
        {"let o={f:id,g:half};let q=[id,half,name];let d={};d.h=q[2];q=0;let s=JSON.stringify(o.f(4)+o.g(5))+d.h(1);o={k:d.h};d=0;s+o.k(2)", "6.5name number 1n2"},
        {"let s=JSON.stringify(ffi('int id(int)')(3)+ffi('double half(double)')(9))+ffi('char *name(int)')(3);let n=0;for(let i=0;i<3;i++){let g=ffi('int id(int)');n+=g(i);}s+JSON.stringify(n)", "7.5name number 33"},
        {"let c=function(x,u){return u.v;};let a={v:1},b={v:20};on(0,c,a);on(1,c,b);a=0;b=0;let z={v:300};let t=fire(0,0)+fire(1,0);on(0,c,z);z=0;let y={v:7};t+=fire(0,0)+fire(1,0);JSON.stringify(t)", "341"},
        {"let c=function(x,u){return u.v;};let d=function(x,u){return u.w;};let cu={v:1};on(0,c,cu);on(1,d,{w:20});let k=ffi_cb_free(c,cu);cu=0;let e={v:5,w:6};e=0;let t=fire(1,0);on(2,d,{w:300});t+=fire(2,0)+fire(1,0);JSON.stringify(k)+' '+JSON.stringify(t)", "1 340"},
        {"let l='';on(0,function(x,u){if(x>2){return 0;}l+=u.n;let t={n:'tmp object'};return x+fire(0,x+1);},{n:'depth;'});let s=fire(0,0);l+JSON.stringify(s)", "depth;depth;depth;3"},
        {"let x='operand '+name(1);let y=x+name(3)+JSON.stringify(len(x))+(cmp(x,x)===0?' same ':' differ ')+JSON.stringify(cmp('b'+name(1),'a'+name(1)))+x;y", "operand name number 1name number 321 same 1operand name number 1"},
        {"let t='';on(0,function(x,u){on(0,function(y,v){t+=v+u2;return 2;},'second '+'userdata');return 1;},'first '+'userdata');let u2=' !';let r=fire(0,0);r+=fire(0,0);t+JSON.stringify(r)", "second userdata !3"},
    };
    keep.reserve(2 * P.size());
    for (auto &p : P) { keep.push_back(D + p.first); keep.push_back(p.second); }
    for (size_t i = 0; i < keep.size(); i += 2) r.push_back({keep[i].c_str(), keep[i + 1].c_str()});
  }
  return r;
}
}  // namespace ffp
