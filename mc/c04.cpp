// C04: control flow, scopes, functions and this
#include "scale.hpp"
#include "common.hpp"

// ---- statement trees -------------------------------------------------------
struct Gen {
  const Emit &emit; bool th;
  int uniq = 0;
};

static Strs ATOM = {"obs(1);", "break;", "continue;", "return 9;", "x+=1;", "let x=5; obs(x);"};
static Strs ATOM_S = {"obs(2);", "break;", "continue;", "return 8;"};

// compound statements; $ is the body, @ a name which depends on the depth
struct Comp { const char *t; };
static Strs COMP = {
  "{$}", "if(x<3){$}", "if(x>2){$}else{obs('e');}", "if(x>2){obs('t');}else{$}", "if(x===0)obs('z');else if(x===2){$}else obs('n');",
  "let w@=0; while(w@<3){w@++; $ obs('w',w@);}", "for(let i@=0;i@<3;i@++){$ obs('f',i@);}", "for(let k@ in {p:1}){$ obs('k',k@);}",
  "let s@=[7,8]; for(let q@ in s@){$ obs(q@,s@[q@]);}",
  "let g@=function(a,b){$ obs('g',a,b);}; obs(g@(x)); obs(g@(1,2,3));",
  "obs('r',(function(n){$ return n+1;})(x));",
  "for(let i@=0;i@<3;i@++){if(i@===1){$} obs(i@);}", "let w@=3; while(w@){w@--; if(w@===1){$} obs(w@);}",
  "let o@={v:x,m:function(){$ return this.v;}}; obs(o@.m());",
  "for(let i@=0;i@<2;i@++) for(let j@=0;j@<2;j@++){$ obs(i@,j@);}",
  "while(true){$ obs('once'); break;}",
};
static std::string at(std::string t, int d, const std::string &body) { return subst(subst(t, "@", std::to_string(d)), "$", body); }

static void wrap(const std::string &b, const Emit &emit) {
  emit("let x=1; " + b + " obs('end',x);");
  emit("let x=1; let f=function(y){" + b + " obs('fend',x,y); return 'R';}; obs(f(4)); obs('end',x); obs(f()); x");
}

static void trees(bool th, const Emit &emit) {
  for (auto &a : ATOM) for (auto &b : ATOM) { wrap(a + b, emit); }
  std::vector<std::string> two;                       // bodies of one or two atoms
  for (auto &a : ATOM) { two.push_back(a); for (auto &b : ATOM) two.push_back(a + b); }
  Strs small = ATOM_S; for (auto &a : {"x+=1; continue;", "x+=1; break;", "x+=1; return x;", "let x=7; continue;", "if(x>2)break;", "if(x>1)return x;", "x+=1; if(x<3)continue;", ""}) small.push_back(a);
  for (auto &c : COMP) {
    for (auto &b : two) wrap(at(c, 1, b), emit);
    for (auto &c2 : COMP) {
      for (auto &b : two) {
        std::string in = at(c2, 2, b);
        wrap(at(c, 1, in), emit);
        if (th) for (auto &a : ATOM) { wrap(at(c, 1, a + in), emit); wrap(at(c, 1, in + a), emit); }
      }
      for (auto &b : small) for (auto &a : ATOM_S) { wrap(at(c, 1, at(c2, 2, b) + a), emit); wrap(at(c, 1, a == "obs(2);" ? "x+=1;" + at(c2, 2, b) : "if(x>2){" + a + "}" + at(c2, 2, b)), emit); }
      for (auto &c3 : COMP) for (auto &b : small) {
        wrap(at(c, 1, at(c2, 2, at(c3, 3, b))), emit);
        if (th) { for (auto &c4 : COMP) wrap(at(c, 1, at(c2, 2, at(c3, 3, at(c4, 4, b)))), emit); for (auto &a : ATOM) wrap(at(c, 1, a + at(c2, 2, at(c3, 3, b) + a)), emit); }
      }
    }
  }
  // sequences of compound statements with the same bodies
  for (auto &c : COMP) for (auto &d : COMP) for (auto &b : small) for (auto &e : ATOM_S) wrap(at(c, 1, b) + at(d, 2, e), emit);
}

// ---- scopes: declarations and uses of two names in nested blocks -----------
static void scopes(bool th, const Emit &emit) {
  Strs ev = {"let a=1;", "let b=2;", "a=3;", "b+='s';", "{", "}", "obs(a);", "obs(b);", "if(1){", "for(let a=5;a<6;a++){", "while(n++<2){", "f();", "let f=function(a){obs(a,b); b=8; return a;};", "f(b);"};
  int D = th ? 7 : 5;
  std::function<void(std::string, int, int)> go = [&](std::string s, int open, int left) {
    if (left == 0 || open > left) { if (open > left) return; }
    if (open == 0 && !s.empty()) emit("let n=0; let b=0; " + s + " obs(b);");
    if (left == 0) return;
    for (auto &e : ev) {
      int o = open; if (e.back() == '{') o++; if (e == "}") o--;
      if (o < 0) continue;
      go(s + e, o, left - 1);
    }
  };
  go("", 0, D);
}

// ---- calls: argument passing, this, recursion, values ----------------------
static void calls(bool th, const Emit &emit) {
  Strs params = {"", "a", "a,b", "a,b,c"}, args = {"", "1", "1,'x'", "1,2,3", "1,2,3,4", "undefined,5", "p,q", "q,p"};
  Strs bodies = {"return [$];", "obs($); return this;", "let p=10; return [$,p];", "a=9; return [$];", "return this===o;", "return g($);", "return typeof this;", "if(a){return [a];} return 'no a';", "for(let i=0;i<2;i++){ if(i===1){return [$,i];} }", "return function(z){return z;};"};
  Strs forms = {"f(#)", "o.f(#)", "o['f'](#)", "o.i.f(#)", "f.apply(o,[#])", "f.apply(undefined,[#])", "o.f.apply(o.i,[#])", "(f)(#)", "h[0](#)", "h[1].f(#)", "w(#)", "mk()(#)", "(function(){return f(#);})()", "o.v(#)", "o.i.w(#)", "f(f(#))", "f(#,f(#))", "[f(#),o.f(#)]", "o.f(o.i.f(#))", "o.self().f(#)", "(1?o.f:0)(#)", "o.f(#)===o"};
  for (auto &p : params) for (auto &b : bodies) {
    std::string body = subst(b, "$", p.empty() ? "0" : p);
    if (p.empty() && b.find("a") != std::string::npos && b.find("a=9") != std::string::npos) continue;
    for (auto &fo : forms) for (auto &ar : args) {
      std::string pre = "let p='P';let q={n:'Q'};let g=function(a,b,c){return [a,b,c,this];};let o=0;let f=function(" + p + "){" + body + "};"
        "let w=function(a,b){return f(a,b);};let mk=function(){return f;};let h=[f,{f:f}];"
        "o={n:'O',f:f,i:{n:'I',f:f,w:function(a){obs(this.n);let r=f(a);obs(this.n);return r;}},v:function(a){obs(this.n);let r=this.i.f(a);obs(this.n);return r;},self:function(){return this;}};";
      std::string call = subst(fo, "#", ar);
      if (ar.empty()) call = subst(call, "(,", "(");
      emit(pre + "obs(" + call + "); obs(p,q.n,o.n); this");
      if (th) emit(pre + "let z=function(){ obs(" + call + "); return this; }; obs(z()===undefined,(o.z=z)===z,o.z()===o); p");
    }
  }
  // recursion: all shapes of mutual recursion between two functions and loops
  Strs rb = {"if(n<1){return 'e';} return chr(48+n)+$(n-1);", "if(n<1){return '';} let r=$(n-1); return r+chr(48+n);", "if(n<1){return '';} return $(n-1)+chr(48+n)+$(n-1);", "let r=''; for(let i=0;i<n;i++){ r+=$(i)+','; } return r;", "if(n>0){ let k=$(n-1); obs(n,k); return k; } return 'b';", "let s=''; while(n>0){ n--; s+=$(n)+'.'; } return s+chr(48+n);", "for(let k in {x:1}){ if(n<=0){return k;} return k+$(n-1); }", "return n?$(n-1)||'z':'';", "let o={v:n,m:function(){return n>0?$(this.v-1):'m';}}; return o.m()+chr(48+o.v);"};
  for (auto &x : rb) for (auto &y : rb) for (int n = 0; n < (th ? 6 : 4); n++)
    emit("let g=0;let f=function(n){" + subst(x, "$", "g") + "};g=function(n){" + subst(y, "$", "f") + "};obs(f(" + std::to_string(n) + "));f(2)");
  // named functions, functions as values
  for (auto &s : Strs{"function foo(a){return a+1;} obs(foo(1)); typeof foo", "let r=function foo(n){ if(n){return n+foo(n-1);} return 0; }; obs(r(3)); foo(2)", "let a=[function(x){return x;},function(x){return x*2;}]; let t=0; for(let i in a){ t+=a[i](5); } t", "{ function q(){return 1;} obs(q()); } typeof q", "function f(){return 1;} let g=f; f=function(){return 2;}; [f(),g(),f===g,g===g]"}) emit(s);
}

// ---- loop headers ----------------------------------------------------------
static void loops(bool, const Emit &emit) {
  Strs init = {"let i=0", "i=0", "let i=0,j=5", "i=j", "1", "let i=(j=2)"}, cond = {"i<3", "i<j", "false", "i!==2", "obs('c',i)<2", "i<3&&j>0", "(i<2)"}, inc = {"i++", "++i", "i+=1", "i=i+2", "obs('i',i++)", "i++,j--"}, body = {"obs(i,j);", "{obs(i,j);}", "{if(i===1)continue;obs(i);}", "{if(i===1)break;obs(i);}", ";", "{}", "{i++;obs(i);continue;}", "{let k=i;obs(k);}", "{for(;;){break;}obs(i);}", "if(i)obs(i);else obs('z');", "while(j>3){j--;if(j===4)continue;obs(j);}", "{j--;if(j<3){break;}}"};
  for (auto &a : init) for (auto &c : cond) for (auto &n : inc) for (auto &b : body) {
    std::string l = "for(" + a + ";" + c + ";" + n + ")" + b;
    emit("let i=9;let j=5;" + l + " obs('x',i,j);");
    emit("let i=9;let j=5;let f=function(i){" + l + " obs('x',i,j); return 1;}; obs(f(0)); obs(i,j);");
    emit("let i=9;let j=5;let z=2; while(z--){" + l + " obs('x',i,j,z);} obs(i,j);");
  }
  Strs vars = {"let k", "k"}, objs = {"{}", "{a:1}", "{a:1,b:2}", "[]", "[5]", "[5,6,7]", "o", "o.q", "(function(){obs('once');return o;})()", "c", "JSON.parse('{\"x\":1,\"y\":[2]}')"}, fb = {"obs(k);", "{obs(k);}", "{if(k==='b'||k==='1')continue;obs(k);}", "{obs(k);break;}", "{let z=k;obs(z);}", "{k='changed';obs(k);}", "{for(let m in {u:1}){obs(k,m);}}", "{for(let m in o){if(m==='b')break;obs(k,m);}}", ";", "{o[k]=7;}", "{n++;if(n>1){continue;}obs(n);}", "{while(n<2){n++;obs(k,n);continue;}}"};
  for (auto &v : vars) for (auto &o : objs) for (auto &b : fb) {
    std::string l = "for(" + v + " in " + o + ")" + b;
    std::string pre = "let n=0;let k='K';let o={a:1,b:{c:2},q:{z:1}};let c=Object.create(o);c.own=3;";
    emit(pre + l + " obs('x',k,n,o);"); emit(pre + "let f=function(k){" + l + " return k;}; obs(f('arg')); obs(k,n);"); emit(pre + "for(let t=0;t<2;t++){" + l + " obs(t);} obs(k,n);");
  }
}

// ---- value of a script and of nested statements ----------------------------
static void values(bool, const Emit &emit) {
  Strs last = {"5", "'str'", "x", "f()", "o.p", "x=4", "x+=1", "x++", "1,2", "{7}", "if(1){8}", "if(0)1;else 9", "(1)", "x?1:2", "[x]", "{q:1}", "function(){}", "return 6", "return", "return x+1", "if(x)return 3; 4"};
  Strs before = {"", "1;", "x=2;", "{let x=3;}", "for(let i=0;i<2;i++){i}", "while(false){}", "f();", "if(x){}", "for(let k in o){}", ";", ";;"};
  for (auto &b : before) for (auto &l : last) for (auto &e : {"", ";", "\n", "; // comment", ";;"}) {
    emit("let x=1;let o={p:'P'};let f=function(){return 'F';};" + b + l + e);
    emit("let x=1;let o={p:'P'};let f=function(){return 'F';};let g=function(){" + b + l + e + "\n}; obs(g(),x);");
  }
}

static void enumerate(bool th, const Emit &emit) { loops(th, emit); values(th, emit); calls(th, emit); scopes(th, emit); trees(th, emit); }
static void check(const std::string &t, mc::Ctx &c) { diff_case(t, c); }

int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C04";
  d.rule = "all trees of statements up to nesting depth 3 (thorough: 4) over 16 compound forms; all sequences of scope events up to length 5 (7); all combinations of parameters, bodies, call forms and arguments; all for/for-in headers of an alphabet; non-trivial: the reference semantics specifies the result";
  d.enumerate = enumerate; d.check = check;
  d.assumptions = {"programs whose meaning differs between lexical and dynamic scope lookup, or which re-execute a let without initialiser, are not judged (mJS is dynamically scoped)", "enumeration order of for-in is not fixed: either order is accepted"};
  scale::wrap(d, "C04");
  return mc::run(d, argc, argv);
}
