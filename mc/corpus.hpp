// A corpus of programs which together use every construct of the language and
// every builtin. Used by the checks which explore schedules and faults.
#pragma once
#include <string>
#include <vector>

inline std::vector<std::string> corpus() {
  return {
    "let a=1; let b='two'; let c=a+2; obs(a,b,c); c",
    "let s='hello'+', '+'wonderful'+' world'; obs(s.length, s[4], s.slice(3,9), s.indexOf('wor')); s",
    "let o={x:1,'long property name':{y:[1,2,'three, long']},z:null}; o.x+=5; o.w='new value'; obs(o); o['long property name'].y[2]",
    "let o={f:function(n){this.n=n;return this;},n:0}; obs(o.f(3).n); o.f(o.f(4).n+1); o.n",
    "let f=function(n){ if(n<2){return 1;} return n*f(n-1); }; obs(f(5)); f(3)+f(4)",
    "let r=''; for(let i=0;i<4;i++){ if(i===1){continue;} if(i===3){break;} r+=chr(65+i)+'loop'; } obs(r); r",
    "let i=0; while(true){ i++; let t='temp'+chr(64+i); if(i<3){continue;} obs(t); break; } i",
    "let o={a:1,b:'second value',c:[3]}; let r={}; let n=0; for(let k in o){ r[k+'_copied']=o[k]; n++; } obs(r); n",
    "let a=[1,'two two two',[3]]; a.push({four:4},'five five'); let d=a.splice(1,2,'ins1 ins1','ins2 ins2',7); obs(a,d); a.length",
    "let p={inherited:'from the parent',n:1}; let c=Object.create(p); c.own='own value'; obs(c.inherited,c.own); c.n+=1; obs(p.n,c.n); c.inherited",
    "let t={k:[1,{z:'deep value'}],s:'str with \\\" quote'}; let j=JSON.stringify(t); let u=JSON.parse(j); obs(u); u.k[1].z",
    "let u=JSON.parse('{\"first key\":[1,2,{\"inner key\":\"inner value\"}],\"second\":null,\"third\":\"a long enough string\"}'); obs(u); u['first key'][2]",
    "let g=function(a,b){return a+'/'+b+'/'+this.t;}; obs(g.apply({t:'this one'},['first','second'])); g.apply({t:'again'},['x','y'])",
    "let m={v:'the value',get:function(){let h=function(x){return x+'!';};return h(this.v);}}; obs(m.get()); m.get()+m.get()",
    "let x=true?'chosen branch':'other branch'; let y=x&&'second operand'; let z=null||{q:'object operand'}; obs(x,y,z); typeof z",
    "let mk=function(v){return {val:v,next:null};}; let l=mk('node one'); l.next=mk('node two'); l.next.next=mk('node three'); let s=''; let n=l; while(n!==null){ s+=n.val; n=n.next; } obs(s); s",
    "let f=function(a){ for(let k in a){ if(a[k]==='wanted value'){ return k+' found it'; } } return 'nothing'; }; obs(f({p:'other value',q:'wanted value'})); f({})",
    "let w=function(n){ let i=0; while(i<10){ for(let j=0;j<3;j++){ if(i+j===n){ return 'inside '+chr(48+i)+chr(48+j); } } i++; } return 'none'; }; obs(w(4)); w(2)",
    "let a=[]; for(let i=0;i<5;i++){ a.push({idx:i,name:'element '+chr(48+i)}); } let s=''; for(let j=0;j<a.length;j++){ s+=a[j].name+','; } obs(s); a[3]",
    "{ let a='outer block'; { let a='inner block'; obs(a); } obs(a); } let b={nested:{deep:{er:'leaf value'}}}; b.nested.deep.er+='!'; b",
    "let cmp=function(f,g){return function(x){return x;};}; let id=cmp(1,2); obs(id('identity value')); id({a:'b b b b b b'})",
    "let str='abcdefghij'; let acc=''; for(let i=str.length-1;i>=0;i--){ acc=acc+str[i]; } obs(acc); str.slice(-3)+acc.slice(0,3)",
    "let o={}; o['computed '+'key']='value one'; o[chr(97)]=o; obs(o.a===o); o['computed key']",
    "let c=0; let inc=function(){c++; return {n:c,s:'count '+chr(48+c)};}; obs(inc().s+inc().s, [inc(),inc()]); c",
    "let t=this; let f=function(){return this;}; let o={f:f,g:{f:f}}; obs(t,f(),o.f()===o,o.g.f()===o.g,(o.f)===f); o.g.f()",
    "let n=5; n<<=2; n|=3; n^=1; n&=30; n>>=1; n%=7; n*=3; n-=1; n/=2; obs(n,-n,~7,!n,+n,7>>>1); n++ + ++n",
    "let e={list:['one entry','two entry']}; let f=function(l){let r=[];for(let i=0;i<l.length;i++){r.push(l[i]+'+');}return r;}; e.list=f(f(e.list)); obs(e); e.list.length",
    "let d={a:{b:{c:function(){return {d:'end of the chain'};}}}}; obs(d.a.b.c().d); d['a']['b'].c().d.length",
    "let z=function(a,b,c){return [a,b,c];}; obs(z('only first'),z(1,2,3,4),z()); z('p p p p p','q q q q q')[1]",
    "let fz=function(){ let r=[]; for(let k in {only:1}){ r.push(k+' key'); for(let q in {inner:2}){ r.push(q+' inner'); } } return r; }; obs(fz()); fz().length",
    "let big=''; let i=0; for(i=0;i<6;i++){ big+='0123456789abcdefghijklmnopqrstuvwxyz'; } obs(big.length); big.slice(100,130)",
    "if(1){obs('then');}else{obs('else');} if(0)obs('no');else if('')obs('no');else obs('last else'); let q=[1]; if(q.length){q.push('more than five');} q",
    "let st={push:function(v){this.items.push(v);return this;},items:[]}; st.push('first item').push('second item').push({third:'item three'}); obs(st.items); st.items.length",
    "let v=[[1,2],[3,[4,'nested string']]]; obs(v[1][1][1]); v[0][1]=v; obs(v[0][1]===v); v[1][0]",
  };
}

// programs which fail at run time, at various depths
inline std::vector<std::string> failing() {
  return {
    "obs('before'); undefinedVariable; obs('after');",
    "let f=function(){ let o={a:'some value'}; obs(o); return o.b.c; }; obs(f()); 1",
    "let f=function(n){ for(let i=0;i<3;i++){ if(i===n){ null.x; } obs('iter '+chr(48+i)); } }; f(2); obs('after');",
    "let o={m:function(){ return this.n.k; }}; let a=[1,2]; for(let k in a){ { let z='block'; obs(z); o.m(); } }",
    "let g=function(x){ return x+1; }; g.apply(null,['string argument']); obs('after')",
    "while(true){ let t='loop local'; t(); }",
    "JSON.parse('{\"a\": [1, 2'); obs('after')",
    "let i=0; let f=function(){ i++; if(i>3){ return undefinedVariable; } return f()+'x'; }; f()",
    "let a=[1]; a.splice('not a number'); obs('after')",
    "let p={q:'value'}; p.q.zz.y; obs('after')",
    "obs(1 == 1); obs('after')",
    "5 + 'a string'; obs('after')",
  };
}
