// Programs whose only dimension is size: depth, number of elements, length. Each one
// computes a text which is known in advance; it is run as it is and with collections
// at about twenty places.
#pragma once
#include "common.hpp"

namespace scale {
struct Case { std::string src, want; };
inline std::string S(long n) { return std::to_string(n); }
inline std::string rep(long n, const std::function<std::string(long)> &f) { std::string r; for (long i = 0; i < n; i++) r += f(i); return r; }
inline std::string text(long n) { std::string r; for (long i = 0; i < n; i++) r += (char) ('a' + (i + i / 26 + i / 676) % 26); return r; }
inline std::string q(const std::string &s) { return "'" + s + "'"; }
inline std::string join(const Strs &v) { std::string r; for (auto &x : v) r += (r.empty() ? "" : ",") + x; return r; }

struct Fam { const char *name; long max; const char *props; Case (*make)(long); };
#define LONGNAME(i) ("property_" + S(i))
extern "C" {
inline std::vector<std::pair<int (*)(int, void *), void *>> sc_cbs;
inline __attribute__((used)) int sc_reg(int (*f)(int, void *), void *u) { sc_cbs.push_back({f, u}); return (int) sc_cbs.size(); }
inline __attribute__((used)) int sc_all(int x) { int r = 0; for (auto &c : sc_cbs) r += c.first(x, c.second); return r; }
}
inline const std::vector<Fam> &fams() {
  static const Fam A[] = {
    // blocks, functions, scopes
    {"blocks", 200, "C04", [](long n) { return Case{"let r='';" + rep(n, [](long i) { return "{let v" + S(i) + "=" + S(i) + ";"; }) + "r=JSON.stringify([v0,v" + S(n / 2) + ",v" + S(n - 1) + "]);v0=v" + S(n - 1) + "+1;r=r+JSON.stringify(v0);" + rep(n, [](long) { return "}"; }) + "r", "[0," + S(n / 2) + "," + S(n - 1) + "]" + S(n)}; }},
    {"recursion", 600, "C04 C09", [](long n) { return Case{"let g=7;let f=function(k){let loc=k;if(k===0){return g;}let x=f(k-1);return x+(loc===k?1:0);};JSON.stringify(f(" + S(n) + "))", S(7 + n)}; }},
    {"recursion_this", 600, "C04", [](long n) { return Case{"let o={c:0,f:function(k){this.c=this.c+1;if(k>0){this.f(k-1);}this.c=this.c+1;return this.c;}};JSON.stringify(o.f(" + S(n) + "))", S(2 * n + 2)}; }},
    {"calls", 40, "C03 C04", [](long n) { return Case{"let f=function(x){return x+1;};JSON.stringify(" + rep(n, [](long) { return "f("; }) + "0" + rep(n, [](long) { return ")"; }) + ")", S(n)}; }},
    {"params", 1000, "C04", [](long n) { Strs p, a; for (long i = 0; i < n; i++) { p.push_back("p" + S(i)); a.push_back(S(i * 3)); } std::string e = "[p0,p" + S(n / 2) + ",p" + S(n - 1) + "]"; return Case{"let f=function(" + join(p) + "){return JSON.stringify(" + e + ");};f(" + join(a) + ")", "[0," + S(n / 2 * 3) + "," + S((n - 1) * 3) + "]"}; }},
    {"loop", 20000, "C04", [](long n) { return Case{"let s=0;for(let i=0;i<" + S(n) + ";i++){if(i===" + S(n / 2) + "){continue;}s=s+i;}let k=0;while(true){if(k===" + S(n) + "){break;}k++;}JSON.stringify([s,k])", "[" + S(n * (n - 1) / 2 - n / 2) + "," + S(n) + "]"}; }},
    {"loops", 140, "C04", [](long n) { return Case{"let s=0;" + rep(n, [](long i) { return "for(let i" + S(i) + "=0;i" + S(i) + "<2;i" + S(i) + "++){if(i" + S(i) + ">0){break;}"; }) + "s=s+1;" + rep(n, [](long) { return "s=s+1;}"; }) + "JSON.stringify(s)", S(n + 1)}; }},
    {"elseif", 120, "C04", [](long n) { return Case{"let f=function(x){let r='none';" + rep(n, [](long i) { return std::string(i ? "else " : "") + "if(x===" + S(i) + "){r='case" + S(i) + "';}"; }) + "return r;};f(0)+f(" + S(n / 2) + ")+f(" + S(n - 1) + ")+f(" + S(n) + ")", "case0case" + S(n / 2) + "case" + S(n - 1) + "none"}; }},
    {"functions", 1000, "C04", [](long n) { return Case{rep(n, [](long i) { return "let f" + S(i) + "=function(){return " + S(i) + ";};\n"; }) + "JSON.stringify([f0(),f" + S(n / 2) + "(),f" + S(n - 1) + "()])", "[0," + S(n / 2) + "," + S(n - 1) + "]"}; }},
    {"closures", 18, "C04", [](long n) { return Case{rep(n, [](long i) { return "(function(a" + S(i) + "){return "; }) + "JSON.stringify([a0,a" + S(n - 1) + "])" + rep(n, [n](long i) { return ";})(" + S(n - 1 - i) + ")"; }), "[0," + S(n - 1) + "]"}; }},
    {"variables", 1500, "C04", [](long n) { return Case{rep(n, [](long i) { return "let variable_" + S(i) + "=" + S(i) + ";"; }) + "variable_" + S(n / 2) + "=-1;JSON.stringify([variable_0,variable_" + S(n / 2) + ",variable_" + S(n - 1) + "])", n == 1 ? "[-1,-1,-1]" : "[0,-1," + S(n - 1) + "]"}; }},
    // expressions
    {"operands", 400, "C03", [](long n) { return Case{"let x=1;JSON.stringify(0" + rep(n, [](long i) { return i % 3 ? "+x" : "-x*2"; }) + ")", S([n] { long s = 0; for (long i = 0; i < n; i++) s += i % 3 ? 1 : -2; return s; }())}; }},
    {"parens", 40, "C03", [](long n) { return Case{"JSON.stringify(" + rep(n, [](long) { return "(1+"; }) + "0" + rep(n, [](long) { return ")"; }) + ")", S(n)}; }},
    {"ternaries", 100, "C03", [](long n) { return Case{"let f=function(x){return " + rep(n, [](long i) { return "x===" + S(i) + "?'c" + S(i) + "':"; }) + "'none';};f(0)+f(" + S(n - 1) + ")+f(" + S(n) + ")", "c0c" + S(n - 1) + "none"}; }},
    {"ands", 400, "C03", [](long n) { return Case{"let x=0;let y=true" + rep(n, [](long) { return "&&(x=x+1)"; }) + ";let z=false" + rep(n, [](long) { return "||(x=x+1)<0"; }) + ";JSON.stringify([x,y,z])", "[" + S(2 * n) + "," + S(n) + ",false]"}; }},
    {"numbers", 300, "C03", [](long n) { std::string d(n, '1'); return Case{"let a=" + d + ";let b=1." + d + ";let c=0." + std::string(n, '0') + "1;let w=" + d + ".0;JSON.stringify([a===w,b>1.0999,b<1.2,c<0.2])", "[true,true,true,true]"}; }},
    // objects
    {"props", 1200, "C05", [](long n) { return Case{"let o={};" + rep(n, [](long i) { return "o." + LONGNAME(i) + "=" + S(i) + ";"; }) + "o." + LONGNAME(n / 2) + "+=0.5;let c=0;let s=0;for(let k in o){c++;s=s+o[k];}JSON.stringify([o." + LONGNAME(0) + ",o." + LONGNAME(n / 2) + ",o." + LONGNAME(n - 1) + ",o." + LONGNAME(n) + "===undefined,c,s])", [n] { std::string h = S(n / 2) + ".5"; return "[" + (n == 1 ? h : "0") + "," + h + "," + (n == 1 ? h : S(n - 1)) + ",true," + S(n) + "," + S(n * (n - 1) / 2) + ".5]"; }()}; }},
    {"short_props", 1200, "C05", [](long n) { return Case{"let o={};for(let i=0;i<" + S(n) + ";i++){o[i]=i;}o[" + S(n / 2) + "]+=0.5;let c=0;for(let k in o){c++;}JSON.stringify([o['0'],o[" + S(n - 1) + "],o[" + S(n) + "]===undefined,c])", std::string("[") + (n == 1 ? "0.5" : "0") + "," + (n == 1 ? "0.5" : n == 2 ? "1.5" : S(n - 1)) + ",true," + S(n) + "]"}; }},
    {"literal", 1200, "C05", [](long n) { Strs p; for (long i = 0; i < n; i++) p.push_back(LONGNAME(i) + ":" + S(i)); return Case{"let o={" + join(p) + "};let c=0;for(let k in o){c++;}JSON.stringify([o." + LONGNAME(0) + ",o." + LONGNAME(n / 2) + ",o." + LONGNAME(n - 1) + ",c])", "[0," + S(n / 2) + "," + S(n - 1) + "," + S(n) + "]"}; }},
    {"protos", 1000, "C05", [](long n) { return Case{"let b={base:5,own:0};let o=b;for(let i=0;i<" + S(n) + ";i++){o=Object.create(o);if(i===" + S(n / 2) + "){o.mid=i;}}let x=[o.base,o.mid,o.none===undefined];o.own=9;x.push(b.own);x.push(o.own);JSON.stringify(x)", "[5," + S(n / 2) + ",true,0,9]"}; }},
    {"key", 40000, "C05", [](long n) { std::string k = text(n); return Case{"let k=" + q(k) + ";let o={};o[k]=1;o[k+'x']=2;o[k+'y']=3;o[k+'x']+=10;let l=0;for(let j in o){l=l+j.length;}let p=Object.create(o);JSON.stringify([o[k],o[k+'x'],p[k+'y'],o[k.slice(1)]===undefined,l])", "[1,12,3,true," + S(3 * n + 2) + "]"}; }},
    {"objects", 600, "C02 C05", [](long n) { return Case{"let l=null;for(let i=0;i<" + S(n) + ";i++){l={next:l,value:i,name_of_it:'n'};}let s=0;let c=0;while(l!==null){s=s+l.value;c++;l=l.next;}JSON.stringify([c,s])", "[" + S(n) + "," + S(n * (n - 1) / 2) + "]"}; }},
    {"dotted", 300, "C05", [](long n) { return Case{"let o={};let p=o;for(let i=0;i<" + S(n) + ";i++){p.a={v:i};p=p.a;}o" + rep(n, [](long) { return ".a"; }) + ".v+=0.5;JSON.stringify(o" + rep(n, [](long) { return ".a"; }) + ".v)", S(n - 1) + ".5"}; }},
    // arrays
    {"push", 1500, "C06", [](long n) { return Case{"let a=[];for(let i=0;i<" + S(n) + ";i++){a.push(i);}JSON.stringify([a.length,a[0],a[" + S(n / 2) + "],a[" + S(n - 1) + "],a[" + S(n) + "]===undefined])", "[" + S(n) + ",0," + S(n / 2) + "," + S(n - 1) + ",true]"}; }},
    {"array_literal", 1500, "C06", [](long n) { Strs p; for (long i = 0; i < n; i++) p.push_back(S(i)); return Case{"let a=[" + join(p) + "];let s=0;for(let i=0;i<a.length;i++){s=s+a[i];}JSON.stringify([a.length,s])", "[" + S(n) + "," + S(n * (n - 1) / 2) + "]"}; }},
    {"push_args", 1000, "C06", [](long n) { Strs p; for (long i = 0; i < n; i++) p.push_back(S(i)); return Case{"let a=[-1];let l=a.push(" + join(p) + ");JSON.stringify([l,a.length,a[1],a[" + S(n) + "]])", "[" + S(n + 1) + "," + S(n + 1) + ",0," + S(n - 1) + "]"}; }},
    {"splice", 1000, "C06", [](long n) { return Case{"let a=[];for(let i=0;i<" + S(n) + ";i++){a.push(i);}let b=a.splice(" + S(n / 2) + ",1,'x','y');let e=a[" + S(n) + "];let c=a.splice(0,a.length);JSON.stringify([b,e,a.length,c.length,c[" + S(n / 2) + "],c[" + S(n / 2 + 1) + "]])", "[[" + S(n / 2) + "]," + (n <= 2 ? "\"y\"" : S(n - 1)) + ",0," + S(n + 1) + ",\"x\",\"y\"]"}; }},
    {"splice_args", 600, "C06", [](long n) { Strs p; for (long i = 0; i < n; i++) p.push_back(S(i)); return Case{"let a=['f','m','l'];let b=a.splice(1,1," + join(p) + ");JSON.stringify([b,a.length,a[0],a[1],a[" + S(n) + "],a[" + S(n + 1) + "]])", "[[\"m\"]," + S(n + 2) + ",\"f\",0," + S(n - 1) + ",\"l\"]"}; }},
    // strings
    {"string", 200000, "C07", [](long n) { std::string s = text(n); return Case{"let s=" + q(s) + ";let t=s+'|'+s;JSON.stringify([s.length,t.length,t.at(" + S(n) + "),t.slice(0," + S(n) + ")===s,t.slice(" + S(n + 1) + ")===s,t.indexOf('|'),s===t,s.at(" + S(n - 1) + "),t[" + S(2 * n) + "]===s[" + S(n - 1) + "],t.indexOf(s,1)])", "[" + S(n) + "," + S(2 * n + 1) + ",124,true,true," + S(n) + ",false," + S((unsigned char) s[n - 1]) + ",true," + S([&] { std::string t = s + "|" + s; return (long) t.find(s, 1); }()) + "]"}; }},
    {"append", 3000, "C07", [](long n) { return Case{"let s='';for(let i=0;i<" + S(n) + ";i++){s=s+chr(97+i%26);}let c=0;for(let i=0;i<" + S(n) + ";i++){if(s.at(i)===97+i%26){c++;}}JSON.stringify([s.length,c])", "[" + S(n) + "," + S(n) + "]"}; }},
    {"strings", 1000, "C02 C07", [](long n) { return Case{"let a=[];for(let i=0;i<" + S(n) + ";i++){a.push('string number '+JSON.stringify(i));}let c=0;for(let i=0;i<" + S(n) + ";i++){if(a[i]==='string number '+JSON.stringify(i)){c++;}}JSON.stringify(c)", S(n)}; }},
    {"last_differs", 100000, "C07", [](long n) { std::string s = text(n); return Case{"let a=" + q(s) + "+'a';let b=" + q(s) + "+'b';JSON.stringify([a===b,a!==b,a.slice(0," + S(n) + ")===b.slice(0," + S(n) + ")])", "[false,true,true]"}; }},
    // JSON
    {"json_array", 1500, "C08", [](long n) { Strs p; for (long i = 0; i < n; i++) p.push_back(S(i)); return Case{"let t='[" + join(p) + "]';let a=JSON.parse(t);JSON.stringify([a.length,a[0],a[" + S(n / 2) + "],a[" + S(n - 1) + "],JSON.stringify(a)===t])", "[" + S(n) + ",0," + S(n / 2) + "," + S(n - 1) + ",true]"}; }},
    {"json_object", 1000, "C08", [](long n) { Strs p; for (long i = 0; i < n; i++) p.push_back("\"" + LONGNAME(i) + "\":" + S(i)); return Case{"let t='{" + join(p) + "}';let o=JSON.parse(t);let u=JSON.stringify(o);let p=JSON.parse(u);JSON.stringify([o." + LONGNAME(0) + ",o." + LONGNAME(n / 2) + ",o." + LONGNAME(n - 1) + ",u.length===t.length,p." + LONGNAME(0) + ",p." + LONGNAME(n - 1) + "])", "[0," + S(n / 2) + "," + S(n - 1) + ",true,0," + S(n - 1) + "]"}; }},
    {"json_deep", 200, "C08", [](long n) { std::string o(n, '['), e(n, ']'); return Case{"let t='" + o + "7" + e + "';let a=JSON.parse(t);let u=JSON.stringify(a);let d=0;while(typeof a!=='number'){a=a[0];d++;}let w='" + rep(n, [](long) { return "{\"k\":"; }) + "7" + rep(n, [](long) { return "}"; }) + "';JSON.stringify([u===t,d,JSON.stringify(JSON.parse(w))===w])", "[true," + S(n) + ",true]"}; }},
    {"json_string", 70000, "C08", [](long n) { std::string s; for (long i = 0; i < n; i++) s += i % 10 == 9 ? std::string("\\n") : std::string(1, (char) ('a' + i % 26)); return Case{"let s=" + q(s) + ";let t=JSON.stringify(s);let o={};o[s]=s;let u=JSON.parse(JSON.stringify(o));JSON.stringify([t.length,JSON.parse(t)===s,JSON.parse(t).length,u[s]===s])", "[" + S(n + n / 10 + 2) + ",true," + S(n) + ",true]"}; }},
    // errors
    {"deep_error", 600, "C09", [](long n) { return Case{"let f=function(k){if(k===0){let u;return u.x.y;}let r=f(k-1);return r;};evals('f(" + S(n) + ")')+evals('f(" + S(n / 2) + ")')+evals('let ok=\"fine\";ok')", "E3E3fine"}; }},
    {"many_errors", 300, "C09", [](long n) { return Case{"let c=0;for(let i=0;i<" + S(n) + ";i++){if(evals('{let a=1;for(let j=0;j<3;j++){a();}}')==='E3'){c++;}}let s='';for(let i=0;i<3;i++){s=s+evals('\"alive\"');}JSON.stringify(c)+s", S(n) + "alivealivealive"}; }},
    {"error_text", 3000, "C09", [](long n) { return Case{"evals('let x=1;x.'+'" + text(n) + "'+'();')+evals('n" + text(n) + "')+evals('\"alive\"')", "E3E2alive"}; }},
    // the C API
    {"apply_depth", 150, "C15", [](long n) { return Case{"let f=function(k){let mine=k;let r=k===0?0:callf(f,k-1);return r+(mine===k?1:0);};JSON.stringify(f(" + S(n) + "))", S(n + 1)}; }},
    {"own", 3000, "C02 C15", [](long n) { return Case{"JSON.stringify(ownmany(" + S(n) + "))", "0"}; }},
    {"apply_args", 1000, "C15", [](long n) { Strs p, a; for (long i = 0; i < n; i++) { p.push_back("p" + S(i)); a.push_back(S(i)); } return Case{"let f=function(" + join(p) + "){return p0*1000000+p" + S(n / 2) + "*1000+p" + S(n - 1) + ";};JSON.stringify(callf(f," + join(a) + "))", S(n / 2 * 1000 + n - 1)}; }},
    {"c_array", 1500, "C15", [](long n) { return Case{"JSON.stringify(carray(" + S(n) + "))", "0"}; }},
    // stack traces, files, callbacks
    {"trace", 400, "C10", [](long n) { return Case{"trace('let f=function(k){\\nif(k===0){\\nundefinedVar;}\\nlet r=f(k-1);\\nreturn r;};\\n\\nf(" + S(n) + ");')", "3,4*" + S(n) + ",7,1,"}; }},
    {"trace_apply", 120, "C10", [](long n) { return Case{"let f=function(k){if(k===0){undefinedVar;}\nlet r=callf(f,k-1);return r;};trace('\\nf(" + S(n) + ");')", "1,2*" + S(n + 2) + ","}; }},
    {"file", 1000, "C14", [](long n) { return Case{"filerun('" + rep(n, [](long i) { return "let f" + S(i) + "=function(){return " + S(i) + ";};\\n"; }) + "JSON.stringify([f0(),f" + S(n / 2) + "(),f" + S(n - 1) + "()])')", rep(3, [n](long) { return "[0," + S(n / 2) + "," + S(n - 1) + "]"; })}; }},
    {"file_string", 70000, "C14", [](long n) { return Case{"let r=filerun('let s=\"" + text(n) + "\";s')+'.';let t='" + text(n) + "';JSON.stringify(r===t+t+t+'.')", "true"}; }},
    {"callbacks", 300, "C12", [](long n) { return Case{"let reg=ffi('int sc_reg(int (*)(int,userdata),userdata)');let all=ffi('int sc_all(int)');let c=0;" + std::string("let f=function(x,u){c=c+1;return x+u.i;};let g=function(x,u){return 0-x-u.i;};for(let i=0;i<") + S(n) + ";i++){reg(i%3===0?g:f,{i:i});}gc(true);let r=[all(5),all(7),c];JSON.stringify(r)", [n] { auto sum = [n](long x) { long s = 0; for (long i = 0; i < n; i++) s += i % 3 ? x + i : -x - i; return s; }; long k = 0; for (long i = 0; i < n; i++) k += i % 3 != 0; return "[" + S(sum(5)) + "," + S(sum(7)) + "," + S(2 * k) + "]"; }()}; }},
    {"callback_functions", 300, "C12", [](long n) { return Case{"let reg=ffi('int sc_reg(int (*)(int,userdata),userdata)');let all=ffi('int sc_all(int)');" + rep(n, [](long i) { return "reg(function(x,u){return x*" + S(i + 1) + ";},null);\n"; }) + "gc(true);JSON.stringify([all(3),all(-1)])", "[" + S(3 * n * (n + 1) / 2) + "," + S(-n * (n + 1) / 2) + "]"}; }},
    // memory
    {"memory", 100000, "C17", [](long n) { return Case{"let m=bigmem();let i=" + S(n) + ";m[i]=77;let a=[m[i],(m+i)[0],(m+1)[i-1],m[i-1],m[i+1]];m[i]=200;a.push(m[i]);m[i]=i%256===5?1:5;JSON.stringify(a)", "[77,77,77," + S((n - 1) % 251) + "," + S((n + 1) % 251) + ",200]"}; }},
    {"mkstr", 100000, "C17", [](long n) { return Case{"let m=bigmem();let s=mkstr(m,3," + S(n) + ");let t=mkstr(m,3," + S(n) + ",true);JSON.stringify([s.length,t.length,s===t,s.at(" + S(n - 1) + ")])", "[" + S(n) + "," + S(n) + ",true," + S((n + 2) % 251) + "]"}; }},
    // printing
    {"print", 20000, "C20", [](long n) { return Case{"print(" + q(text(n)) + "," + S(n) + ");'p'", "p" + text(n) + " " + S(n) + " \n"}; }},
  };
  static const std::vector<Fam> F(std::begin(A), std::end(A)); return F;
}

inline void evals(struct mjs *m) {      // evals(text): "E<code>" or the text it gives
  mjs_val_t a = mjs_arg(m, 0), r = mjs_mk_undefined(); size_t n; const char *p = mjs_get_string(m, &a, &n); std::string src(p ? p : "", p ? n : 0), *o = vm::OBS;
  mjs_own(m, &r); mjs_err_t e = mjs_exec(m, src.c_str(), &r); vm::OBS = o;
  if (e) { mjs_set_errorf(m, MJS_OK, NULL); char b[20]; int l = snprintf(b, sizeof b, "E%d", (int) e); r = mjs_mk_string(m, b, l, 1); }
  mjs_disown(m, &r); mjs_return(m, r);
}
inline void callf(struct mjs *m) {
  int n = mjs_nargs(m); std::vector<mjs_val_t> a; for (int i = 1; i < n; i++) a.push_back(mjs_arg(m, i));
  mjs_val_t r = mjs_mk_undefined(); mjs_apply(m, &r, mjs_arg(m, 0), mjs_mk_undefined(), (int) a.size(), a.data()); mjs_return(m, r);
}
inline void ownmany(struct mjs *m) {     // n owned values survive collections and are released in any order
  long n = mjs_get_int(m, mjs_arg(m, 0)), bad = 0; std::vector<mjs_val_t> v(n); char b[40];
  for (long i = 0; i < n; i++) { v[i] = mjs_mk_undefined(); mjs_own(m, &v[i]); int l = snprintf(b, sizeof b, "the string %ld", i); v[i] = i % 2 ? mjs_mk_string(m, b, l, 1) : mjs_mk_object(m); if (i % 2 == 0) mjs_set(m, v[i], "k", ~0, mjs_mk_number(m, i)); }
  auto look = [&](long i) { if (i % 2 == 0) { if (mjs_get_int(m, mjs_get(m, v[i], "k", ~0)) != i) bad++; } else { int l = snprintf(b, sizeof b, "the string %ld", i); size_t z; const char *p = mjs_get_string(m, &v[i], &z); if (!p || (long) z != l || memcmp(p, b, l)) bad++; } };
  mjs_gc(m, 1); for (long i = 0; i < n; i++) look(i);
  for (long i = 0; i < n; i += 3) if (!mjs_disown(m, &v[i])) bad++;
  mjs_gc(m, 1); for (long i = 0; i < n; i++) if (i % 3) look(i);
  for (long i = n - 1; i >= 0; i--) if (i % 3 && !mjs_disown(m, &v[i])) bad++;
  if (n && mjs_disown(m, &v[0])) bad++;
  mjs_return(m, mjs_mk_number(m, bad));
}
inline void carray(struct mjs *m) {
  long n = mjs_get_int(m, mjs_arg(m, 0)), bad = 0; mjs_val_t a = mjs_mk_array(m); mjs_own(m, &a);
  for (long i = 0; i < n; i++) { if (i % 2) mjs_array_push(m, a, mjs_mk_number(m, i)); else mjs_array_set(m, a, i, mjs_mk_number(m, i)); if ((long) mjs_array_length(m, a) != i + 1 && (i < 20 || i % 50 == 0)) bad++; }
  for (long i = 0; i < n; i++) if (mjs_get_int(m, mjs_array_get(m, a, i)) != i) bad++;
  if (mjs_array_get(m, a, n) != mjs_mk_undefined()) bad++;
  mjs_array_del(m, a, n / 2); if (mjs_array_get(m, a, n / 2) != mjs_mk_undefined()) bad++;
  mjs_disown(m, &a); mjs_return(m, mjs_mk_number(m, bad));
}
inline void trace(struct mjs *m) {      // trace(text): the lines of its stack trace, runs of equal ones counted
  mjs_val_t a = mjs_arg(m, 0), x = mjs_mk_undefined(); size_t n; const char *p = mjs_get_string(m, &a, &n); std::string src(p ? p : "", p ? n : 0), r, *o = vm::OBS;
  mjs_exec(m, src.c_str(), &x); vm::OBS = o;
  char *b = NULL; size_t z = 0; FILE *fp = open_memstream(&b, &z); mjs_print_error(m, fp, NULL, 1); fclose(fp); std::string t(b ? b : "", z); free(b);
  Strs l; for (auto &y : split(t, "\n")) { size_t k = y.rfind(':'); if (y.compare(0, 5, "  at ") == 0 && k != std::string::npos) l.push_back(y.substr(k + 1)); }
  if (l.size() && l.back().empty()) l.pop_back();
  for (size_t i = 0; i < l.size();) { size_t j = i; while (j < l.size() && l[j] == l[i]) j++; r += l[i] + (j - i > 1 ? "*" + S(j - i) : "") + ","; i = j; }
  mjs_set_errorf(m, MJS_OK, NULL); mjs_return(m, mjs_mk_string(m, r.data(), r.size(), 1));
}
inline void filerun(struct mjs *m) {    // filerun(text): the results of three executions as a file, the later ones from its bytecode
  mjs_val_t a = mjs_arg(m, 0), x = mjs_mk_undefined(); size_t n; const char *p = mjs_get_string(m, &a, &n); std::string src(p ? p : "", p ? n : 0), r;
  const char *t = getenv("MC_TMP"); std::string f = std::string(t ? t : "/tmp") + "/scale" + S(getpid()); mc::spit(f + ".js", src); mjs_set_generate_jsc(m, 1);
  mjs_own(m, &x);
  for (int i = 0; i < 3; i++) { mjs_err_t e = mjs_exec_file(m, (f + ".js").c_str(), &x); if (e) r += "E" + S(e); else { p = mjs_get_string(m, &x, &n); r += std::string(p ? p : "?", p ? n : 1); } }
  mjs_disown(m, &x); unlink((f + ".js").c_str()); if (unlink((f + ".jsc").c_str()) != 0) r += "no bytecode";
  mjs_set_generate_jsc(m, 0); mjs_return(m, mjs_mk_string(m, r.data(), r.size(), 1));
}
inline unsigned char *big() { static unsigned char *b = (unsigned char *) malloc(100010); return b; }
inline void bigmem(struct mjs *m) { mjs_return(m, mjs_mk_foreign(m, big())); }

inline bool is(const std::string &t) { return t.compare(0, 3, "@Z ") == 0; }
inline void check(const std::string &t, mc::Ctx &c) {
  size_t sp = t.rfind(' '); std::string name = t.substr(3, sp - 3); long n = atol(t.c_str() + sp), ops = 0;
  for (auto &f : fams()) {
    if (name != f.name) continue;
    Case k = f.make(n);
    for (int mode = 0; mode < 2; mode++) {
      for (long i = 0; i < 100010; i++) big()[i] = i % 251;
      long every = ops / 20 + 1; if (mode && ops == 0) break;
      vm::hook_reset(20000000); vm::Vm v; v.native("evals", evals); v.native("callf", callf); v.native("ownmany", ownmany); v.native("carray", carray); v.native("bigmem", bigmem); v.native("trace", trace); v.native("filerun", filerun); sc_cbs.clear();
      vm::H.n = 0; if (mode) vm::H.fn = [every](struct mjs *m, uint64_t o) { if ((long) o % every == every - 1) mjs_gc(m, 1); };
      std::string out, w = "=" + vm::str(k.want); vm::Out o;
      if (name == "print") {
        char *b = NULL; size_t z = 0; FILE *save = stdout; stdout = open_memstream(&b, &z); o = v.exec(k.src); fclose(stdout); stdout = save; out.assign(b ? b : "", z); free(b);
        w = "='p'"; if (out != k.want.substr(1)) mc::fail("printed " + S(out.size()) + " bytes instead of " + S(k.want.size() - 1) + " (size " + S(n) + ")");
      } else o = v.exec(k.src);
      vm::H.fn = nullptr; ops = (long) vm::H.n; c.executions++; c.transitions += ops;
      if (o.str() != w) mc::fail("size " + S(n) + (mode ? ", with collections" : "") + ": expected " + w.substr(0, 300) + ", got " + o.str().substr(0, 300) + " " + o.msg.substr(0, 200));
      c.state(o.str());
    }
    c.validated++; return;
  }
  mc::fail("no family " + name);
}
inline void add(const std::string &prop, bool th, const Emit &emit) {
  std::vector<long> N; for (long i = 3; i <= 140; i++) N.push_back(i);
  for (long i : {150, 200, 254, 255, 256, 257, 258, 300, 400, 510, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025, 1200, 1500, 2000, 3000, 4095, 4096, 4097, 9999, 10000, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000, 99999, 100000, 131072, 200000}) N.push_back(i);
  if (th) for (long i = 141; i <= 700; i++) N.push_back(i);
  for (auto &f : fams()) if (prop == "all" || strstr(f.props, prop.c_str())) for (long n : N) if (n <= f.max && (prop != "all" || th || n == 512 || n == 1024 || n == 4096 || n == 65536 || (n <= 300 && n % 4 == 0))) emit("@Z " + std::string(f.name) + " " + S(n));
}
inline void wrap(mc::Driver &d, const std::string &prop) {
  static std::string rule = std::string(d.rule) + "; and programs whose only dimension is size (mc/scale.hpp), for every size from 3 to 140 and around powers of two up to their limit, each with and without collections";
  d.rule = rule.c_str();
  auto e = d.enumerate; auto k = d.check; if (getenv("SCALE_ONLY")) e = [](bool, const Emit &) {};
  d.enumerate = [e, prop](bool th, const Emit &emit) { e(th, emit); add(prop, th, emit); };
  d.check = [k](const std::string &t, mc::Ctx &c) { if (is(t)) check(t, c); else k(t, c); };
}
}  // namespace scale
