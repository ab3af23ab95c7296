// C24: a script gives the same result in every build configuration. mc/c24_run.c
// with the library is built for each one (MC_RUNNERS: name=path,...); every case runs
// in all of them and the outcomes have to be equal.
#include "nat.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>

struct Runner {
  std::string name, path, dir; int in = -1, out = -1; pid_t pid = 0;
  void start() {
    int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) mc::fail("pipe");
    pid = fork();
    if (pid == 0) {
      int r = fcntl(a[0], F_DUPFD, 10), w = fcntl(b[1], F_DUPFD, 10);
      dup2(r, 3); dup2(w, 4); for (int i = 5; i < 64; i++) close(i);
      execl(path.c_str(), path.c_str(), dir.c_str(), (char *) NULL); _exit(9);
    }
    close(a[0]); close(b[1]); in = a[1]; out = b[0];
  }
  bool full(int fd, char *p, size_t n, bool wr) { while (n) { ssize_t k = wr ? write(fd, p, n) : read(fd, p, n); if (k <= 0) return false; p += k; n -= k; } return true; }
  bool send(const std::string &t) { uint32_t n = t.size(); return full(in, (char *) &n, 4, true) && full(in, (char *) t.data(), n, true); }
  bool recv(std::string &r) { uint32_t n; if (!full(out, (char *) &n, 4, false)) return false; r.resize(n); return full(out, &r[0], n, false); }
};
static std::vector<Runner> R; static pid_t owner;
static void init() {
  if (owner == getpid()) return;
  owner = getpid(); R.clear(); signal(SIGPIPE, SIG_IGN);
  const char *v = getenv("MC_RUNNERS"), *t = getenv("MC_TMP"); if (!v) mc::fail("MC_RUNNERS");
  for (auto &x : split(v, ",")) { Runner r; size_t e = x.find('='); r.name = x.substr(0, e); r.path = x.substr(e + 1); r.dir = std::string(t ? t : "/tmp") + "/r" + std::to_string(getpid()) + r.name; R.push_back(r); }
  for (auto &r : R) r.start();
}
// The name of a function is its place in the code, which depends on the size of jumps.
static void places(std::string &s) {
  const std::string F = "function@"; size_t i = 0, w = 0, e;
  std::string r;
  while ((e = s.find(F, i)) != std::string::npos) { r.append(s, i, e + F.size() - i); i = e + F.size(); while (i < s.size() && isdigit((unsigned char) s[i])) i++; w++; }
  if (w) { r.append(s, i, std::string::npos); s = r; }
}
// names of configurations in which a kind of case has no defined outcome
static bool applies(const std::string &name, const std::string &t) {
  (void) name; (void) t;
  return true;
}

static void check(const std::string &t, mc::Ctx &c) {
  init();
  for (auto &r : R) if (applies(r.name, t) && !r.send(t)) { owner = 0; mc::fail("configuration " + r.name + " died"); }
  std::string base, o, bad;
  for (auto &r : R) {
    if (!applies(r.name, t)) continue;
    if (!r.recv(o)) { int st = 0; waitpid(r.pid, &st, 0); owner = 0; char b[40]; snprintf(b, sizeof b, " (wait status 0x%x)", st); mc::fail("configuration " + r.name + " crashed" + b); }
    c.executions++; places(o);
    if (&r == &R[0]) base = o;
    else if (o != base && bad.empty()) bad = "configuration " + r.name + " gives\n" + o.substr(0, 700) + "\nbut " + R[0].name + " gives\n" + base.substr(0, 700);
    if (getenv("MC_SHOW")) fprintf(stderr, "%s: %s\n", r.name.c_str(), o.c_str());
  }
  if (!bad.empty()) mc::fail(bad);
  size_t nl = base.find('\n'); c.transitions += nl == std::string::npos ? 1 : 1 + atol(base.c_str() + nl + 1);
  c.validated++; c.state(base);
}

static void enumerate(bool th, const Emit &emit) {
  Strs few = corpus(); for (auto &x : failing()) few.push_back(x);
  for (auto &p : few) {
    emit("s " + p); emit("f " + p);
    for (size_t i = 0; i < p.size(); i += th ? 1 : 3) { emit("s " + p.substr(0, i)); emit("s " + p.substr(0, i) + p.substr(i + 1)); }
  }
  // bytes which are not ASCII (the sign of char differs between platforms)
  for (int a = 1; a < 256; a++) {
    std::string x(1, (char) a), h; char b[8]; snprintf(b, sizeof b, "\\x%02x", a); h = b;
    for (auto &w : {"let s='@';[s,s.length,s.at(0),s[0]===s,s<'a',s>'~','a'<s,s==='@']", "let s='x@y';[s.slice(1,2),s.indexOf('@'),s.at(1),s+s]", "let o={'@':1};o['@']+=2;o", "JSON.stringify({'k@':'@v'})", "JSON.stringify(JSON.parse('{\"@\":\"@\"}'))", "JSON.parse('\"\\\\@\"')", "@", "let @=1;@", "let a@=2;a@", "1@2", "'a'@'b'", "/*@*/1", "'\\@'", "'\\x@1'", "chr(AA)===\"@\"", "let m=mem();m[3]=AA;[m[3],mkstr(m,3,1).at(0)]", "isNaN(AA)+AA"}) emit("s " + subst(subst(subst(w, "@@", "@"), "@", x), "AA", std::to_string(a)));
    emit("s let s='" + h + "';[s,s.length,s.at(0),s<'a',JSON.stringify(s),s+s+s+s+s+s,'b'>s]");
    emit("s let f=ffi('int c_m(struct mg_str *)');f('" + h + "')+f('abc" + h + h + h + "')");
    emit("f let s='" + x + "';" "let o={k:s+s};o");
  }
  // operators, operands, methods
  Strs V = {"0", "1", "2.5", "-7", "1e21", "0x1F", "0/0", "1/3", "2147483647", "-2147483648", "'a'", "''", "'5'", "'long string value'", "fs(3)", "fs(40000)", "fs(0)", "true", "false", "null", "undefined", "{}", "[]", "[1,2]", "{a:1}", "function(){return 1;}", "mem()", "obs"};
  Strs O = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "===", "!==", "==", "!=", "&", "|", "^", "<<", ">>", ">>>", "&&", "||", ","};
  auto num = [](const std::string &x) { return isdigit((unsigned char) x[0]) || x[0] == '-'; };
  auto big = [](const std::string &x) { return x == "1e21" || x == "0/0"; };
  for (auto &x : V) {
    for (auto &o : O) for (auto &y : V) {
      if ((x == "mem()" || y == "mem()" || x == "obs" || y == "obs") && o != "===" && o != "!==" && o != "&&" && o != "||" && o != ",") continue;
      if (strchr("&|^<>%", o[0]) && o != "<" && o != ">" && o != "<=" && o != ">=" && o != "&&" && o != "||" && (big(x) || big(y))) continue;      // no such integer
      if ((o == "<<" || o == ">>" || o == ">>>") && num(y) && y != "0" && y != "1" && y != "2.5") continue;      // nor such a shift
      if (o == "%" && (y == "0" || y == "1/3")) continue;
      emit("s (" + x + ")" + o + "(" + y + ")");
    }
    for (auto &u : {"-", "+", "!", "~", "typeof "}) if (!(u[0] == '~' && big(x)) && !((u[0] == '-' || u[0] == '~' || u[0] == '+') && !num(x))) emit("s " + std::string(u) + "(" + x + ")");
    for (auto &o : {"a++", "a--", "a.b", "a['b']", "a[0]", "a.length", "a()", "a(1,2)", "a.b=1", "a[0]=1", "a?1:2", "JSON.stringify(a)", "print(a,1)", "isNaN(a)", "load(a)", "s2o(a,a)", "JSON.parse(a)", "Object.create(a)", "for(let k in a){obs(k);}", "return a", "if(a){1;}else{2;}", "while(a){break;}", "let b={x:a};b", "[a,a]", "callf(a,a)", "let o={};o[a]=1;o[a]", "cstr(a)"}) {
      bool ptr = x == "mem()" || x == "obs"; std::string q = o;
      if (ptr && (q.find('[') != std::string::npos || q.find('+') != std::string::npos || q.find("--") != std::string::npos || q.find("JSON") == 0 || q.find("print") == 0 || q.find("load") == 0 || q.find("s2o") == 0)) continue;
      if (x == "obs" && q == "callf(a,a)") continue;
      if (ptr && (q == "callf(a,a)" || q.find("a(") == 0)) continue;
      emit("s let a=" + x + ";" + q);
    }
  }
  for (auto &x : {"1e9", "1e10", "4294967295", "4294967296", "2147483648", "-2147483649", "9007199254740993", "1e15", "-1e15", "1e18", "123456789012", "0xFFFFFFFF", "1.5e300", "5e-324", "0.1"}) {
    for (auto &f : {"[A,-A,A+1,A-1,A*A,A/3,A<1,A===A]", "A&-1", "A|0", "A^1", "~A", "A>>1", "A<<1", "A>>>1", "A%7", "'abc'.at(A)", "'abc'.slice(A)", "'abcdef'.slice(1,A)", "[1,2,3].splice(A,1)", "[1,2,3].splice(1,A)", "[1,2][A]", "'ab'[A]", "let o={};o[A]=1;o", "JSON.stringify([A])", "JSON.parse('[A]')[0]", "let f=ffi('double c_d(double)');f(A)", "let f=ffi('float c_f(float)');f(A)", "print(A)"}) {
      bool bits = strchr("&|^~>%", f[1]) || f[0] == '~' || !strcmp(f, "A<<1");
      if (bits && (strchr(x, 'e') ? strcmp(x, "1e9") : strlen(x) > 9)) continue;
      if (strstr(f, "float") && !strcmp(x, "1.5e300")) continue;
      emit("s " + (strstr(f, "JSON") ? subst(subst(f, "[A]", "[" + std::string(x) + "]"), "\x02", "") : subst(f, "A", x)));
    }
  }
  Strs Q = {"'some text here'", "'abc'", "''", "fs(5)", "fs(32768)", "fs(32769)", "fs(70000)", "fs(0)", "[1,2,3,4]", "[]", "{k:'v'}", "function(a,b){return [a,b,typeof this];}"};
  Strs A = {"0", "1", "-1", "2.7", "100", "'t'", "'some'", "null", "undefined", "{}", "[3]", "true"};
  for (auto &r : Q) for (auto &m : {"at", "slice", "indexOf", "push", "splice", "apply", "length"}) {
    std::string p = "s let r=" + r + ";let x=r." + m + "(";
    emit(p + ");[x,typeof r]");
    for (auto &a : A) { emit(p + a + ");[x,r===x]"); for (auto &b : A) emit(p + a + "," + b + ");[typeof x,x]"); }
  }
  // strings which are not copied, of every length at which the representation changes
  Strs L; for (int n = 0; n <= 12; n++) L.push_back(std::to_string(n));
  for (int n : {25, 126, 127, 128, 129, 254, 255, 256, 257, 4095, 16383, 16384, 16385, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 70000, 99998}) L.push_back(std::to_string(n));
  for (auto &n : L) for (auto &off : {"0", "1", "7"}) for (auto &e : {"S", "S.length", "[S.at(0),S.at(2),S.slice(1,4)]", "S===own(N)", "S===S", "S+'x'", "'x'+S", "let o={};o[S]=1;o[S]", "let o={};o[S]=1;collect();let r=[];for(let k in o){r.push(k===S);}r", "JSON.stringify(S)===JSON.stringify(own(N))", "S<own(N)", "own(N)<S", "let f=function(a){return a;};f(S)", "let a=[S,S];collect();a", "cstr(S)", "let f=ffi('int c_m(struct mg_str *)');f(S)", "S.indexOf('yz')", "S.slice(-3)", "S.slice(2)===own(N).slice(2)", "if(S){'true';}else{'false';}", "let t=S.slice(0,S.length);collect();t===S", "let f=ffi('char *c_s(char *)');N<20?f(S):0", "JSON.parse('\"'+S.slice(0,9)+'\"')", "let o=JSON.parse('{\"a\":1}');o[S]=S;for(let i=0;i<3;i++){collect();}o[S]===S"}) emit("s let N=" + n + ";let S=fs(N," + off + ");" + e);
  // memory
  for (int i = 0; i < 6; i++) for (auto &f : {"mem()[I]", "let m=mem();m[I]=200;[m[I],m[I+1]]", "let m=mem();m[I]=-1;m[I]", "(mem()+I)[2]", "mem()+I-I===mem()", "(mem()+I)>(mem()+2)", "mkstr(mem(),I)", "mkstr(mem(),I,3)", "mkstr(mem(),I,3,true)", "let s=mkstr(mem(),1,I+1);mem()[2]=65;s"}) emit("s " + subst(f, "I", std::to_string(i * 3)));
  for (auto &k : {"Int8", "Uint8", "Int16", "Uint16", "Int32", "Uint32", "Float32", "Float64"}) for (auto &o : {"0", "1", "5", "8"}) for (auto &le : {"", ",true"}) for (auto &v : {"-3.5", "200", "70000", "-1", "3000000000"}) {
    if ((k[0] == 'U' && v[0] == '-') || !strcmp(v, "3000000000")) if (strncmp(k, "Float", 5)) { if (strcmp(k, "Uint32") || v[0] == '-') continue; }
    std::string lib = std::string(getenv("MJS_REPO") ? getenv("MJS_REPO") : "/repo") + "/lib/", n = k;
    emit("s load('" + lib + "api_dataview.js');let d=DataView.create(mem(),0,16);[d.get" + n + "(" + o + le + "),d.set" + n + "(" + o + "," + v + le + "),d.get" + n + "(" + o + ")]");
  }
  for (auto &e : {"whole().a", "whole().d", "whole().h", "whole().f", "whole().p", "whole().t", "whole().c", "typeof whole().v", "whole().sub", "whole().q", "whole().v===mem()", "whole().v[1]", "let w=whole();for(let i=0;i<4;i++){collect();}[w.sub.s,w.p,w.q.s,w.sub.b]"}) emit("s " + std::string(e));
  // C functions
  struct { const char *sig; Strs args; } F[] = {
    {"int c_i(int,int,int)", {"1", "-5", "2147483647", "true", "2.9", "'x'"}}, {"int c_i6(int,int,int,int,int,int)", {"1", "-2", "3"}}, {"bool c_b(bool,int)", {"true", "false", "0", "7", "256"}},
    {"double c_d(double)", {"1.5", "-0.1", "1e300", "0/0", "true"}}, {"double c_dd(double,double)", {"1.5", "-2", "1e300"}}, {"double c_did(double,int)", {"1.5", "-3", "7"}}, {"double c_idd(int,double)", {"1", "2", "-9"}},
    {"double c_d0(int)", {"3", "-3"}}, {"float c_f(float)", {"0.5", "-1.25", "1e10"}}, {"float c_ff(float,float)", {"0.5", "-1.25"}}, {"int c_id(double)", {"1.5", "-7.25", "1e6"}}, {"void c_v(int)", {"1", "-1"}},
    {"char *c_s(char *)", {"'abc'", "'a longer string'", "''", "null", "fs(7)", "'five5'"}}, {"void *c_p(void *,int)", {"mem()", "null", "3"}}, {"int c_m(struct mg_str *)", {"'abc'", "'a longer string'", "''", "fs(7)", "fs(30)"}}};
  for (auto &f : F) {
    std::string s = f.sig; size_t n = std::count(s.begin(), s.end(), ',') + 1;
    std::function<void(const std::string &, size_t)> go = [&](const std::string &a, size_t k) {
      if (k == 0) { emit("s let f=ffi('" + s + "');let r=f(" + a + ");typeof r==='foreign_ptr'?[r===mem(),r===mem()+3]:r"); return; }
      for (auto &x : f.args) go(a.empty() ? x : a + "," + x, k - 1);
    };
    go("", n); for (size_t k = 0; k < n && n < 4; k++) go("", k); if (n < 4) go("", n + 1);
  }
  Strs B = {"function(a,u){return a*2+u.k;}", "function(a,u){return u.k;}", "function(a,u){obs(a,u);return 1;}", "function(a,u){return a.b.c;}", "function(){collect();return 3;}"};
  for (auto &b : B) for (auto &u : {"{k:1}", "{k:'s'}", "null"}) { for (auto &f : {"int c_each(int (*)(int,userdata),userdata)", "int c_eachs(int (*)(userdata,char *),userdata)", "double c_eachd(double (*)(double,userdata),userdata)", "void c_eachv(void (*)(userdata,int,int,int),userdata)"}) for (int twice = 0; twice < 2; twice++) emit("s let f=ffi('" + std::string(f) + "');let g=" + b + ";let x=" + u + ";let r=f(g,x);" + (twice ? "collect();r=[r,f(g,x),ffi_cb_free(g,x),ffi_cb_free(g,x)];" : "") + "r"); }
  // JSON, tokens, sizes
  Strs J = {"{", "}", "[", "]", ",", ":", "\"k\"", "\"long string\\\\u0041\\\\n\"", "1", "-2.5e3", "true", "null"};
  std::function<void(const std::string &, int)> js = [&](const std::string &s, int d) { if (!s.empty()) emit("s JSON.stringify(JSON.parse('" + s + "'))"); if (d) for (auto &t : J) js(s + t, d - 1); };
  js("", th ? 4 : 3);
  Strs T = {"x", "1", "'lit lit lit'", "let x=", "(", ")", "{", "}", "[", "]", ",", ";", ":", "=", "+", "function(", "return ", "for(", "if(", "else ", "while(", ".y", "?", "in ", "break;", "f()", "({k:'v v'})", "-", "\n"};
  std::function<void(const std::string &, int)> seq = [&](const std::string &s, int d) { if (!s.empty()) emit("s " + s); if (d) for (auto &t : T) seq(s + t, d - 1); };
  seq("", th ? 3 : 2);
  for (int n : {1, 5, 12, 13, 14, 15, 20, 40, 60, 61, 62, 63, 64, 65, 100, 127, 128, 129, 500, 1500}) {
    std::string body; for (int i = 0; i < n; i++) body += "a+=1;\n";
    std::string lit(n, 'q');
    for (auto &w : {"let a=0;@a", "let a=0;if(1){@}else{@}a", "let a=0;if(0){@}a", "let a=0;while(a<N*2){@if(a>N){break;}}a", "let a=0;let f=function(x){@return a+x;};f(1)+f(2)", "let a=0;for(let i=0;i<2;i++){@continue;}a", "let a=0;for(let k in {x:1,y:2}){@}a", "let a=0;@a.b.c", "let a=0;let f=function(){\n@return a.b.c;};\n\nf()", "let a=1;let s='L';[s.length,s,(a===1?'L':'M'+'L').length,(a===2?'L':'M'+'L').length]", "let a=0;let o={L:1,f:function(){@return this.L;}};o.f()+a"}) {
      std::string s = subst(subst(w, "@", body), "N", std::to_string(n)); s = subst(s, "L", lit);
      emit("s " + s); emit("f " + s);
    }
  }
  for (auto &s : {"load('lib.js');libvar", "load('lib.js')+load('lib.js')", "load('nofile.js')", "load('lib.js');libf(1)", "\n\n syntax error(", "let o={};load('lib.js',o);o.libvar", "let big='" "0123456789012345678901234567890123456789" "';\nlet f=function(){\n\n return big.x.y;};\n\nf();"}) emit("f " + std::string(s));
  // helpers of common/ and frozen/
  Strs I = {"0", "1", "-1", "9", "-10", "127", "128", "255", "256", "16383", "16384", "65535", "65536", "2097151", "2097152", "99999999", "2147483647", "-2147483648", "-2147483647"};
  Strs W = {"2147483648", "4294967295", "4294967296", "-2147483649", "9999999999", "1099511627776", "9007199254740993", "9223372036854775807", "-9223372036854775807", "34359738367", "34359738368", "562949953421312", "72057594037927935", "72057594037927936"};
  for (auto &x : I) for (auto &f : {"d", "07d", "12d", "ld", "lld", "llu", "v", "g", "f", ".3f", "17g"}) emit("h " + std::string(f) + "|" + x);
  for (auto &x : I) if (x[0] != '-') for (auto &f : {"u", "x", "lu", "lx", "zu"}) emit("h " + std::string(f) + "|" + x);
  for (auto &x : W) for (auto &f : {"lld", "llu", "v", "g"}) emit("h " + std::string(f) + "|" + x);
  for (auto &x : {"0.5", "-1e-7", "1e300", "123456.789", "5e-324"}) for (auto &f : {"g", "f", ".1f", ".17g"}) emit("h " + std::string(f) + "|" + x);
  Strs C = {"a", "B", "\xe9", "\xff", "\x80", ",", "=", "*", "1", " ", "\"", "\\", "\x1f", "-"};
  std::function<void(const std::string &, int)> txt = [&](const std::string &s, int d) { emit("h s|" + s); if (d) for (auto &t : C) txt(s + t, d - 1); };
  txt("", th ? 4 : 3); for (auto &x : {"{\"a\":1}", "abcdefghijklmnop", "\"\xc3\xa9\"", "\"\xf0\x9f\x98\x80\"", "\"\xff\"", "0x1F", "abc\xe9"}) txt(x, 1);
  // the C API
  const std::string ops = "10es5lfoaunbNEpFTMd=K:.[^-ASGD>cyxXgwW";
  std::function<void(const std::string &, int)> api = [&](const std::string &s, int d) { emit("a " + s); if (d) for (char o : ops) api(s + o, d - 1); };
  api("", 2);
  for (auto &p : {"o", "a", "osl=", "asA5A", "F", "N", "M", "o5=.", "a1A1A1A", "E", "T", "lf", "aoA", "oN=", "oT=", "1u", "1s5F", "ssE"}) api(p, th ? 3 : 2);
}

int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C24"; d.rule = "a case is a script, a file (loaded twice, with its bytecode cached) or a sequence of C API calls which is executed by the library in every configuration; result, message, stack trace, observations, output, arguments seen by C functions, number of operations have to be equal. All are non-trivial";
  d.enumerate = enumerate; d.check = check;
  d.assumptions = {"the configurations are those which can be run here: x86 with 32 and 64 bits, signed and unsigned char, two compilers at several levels of optimisation, the options of mjs_features.h, jump offsets of 0, 1, 2 and 4 bytes", "conversions which C leaves undefined (numbers outside of the integers an operator works with) are outside of the domain"};
  return mc::run(d, argc, argv);
}
