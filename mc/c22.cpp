// C22: the single-file distribution is the same library as the sources in src.
// The driver is linked with the library built from src ("src"), from mjs.c + mjs.h
// ("amal") and from mjs_no_common.c + the common sources ("nocommon"). The first
// writes the outcome of every case down, the others have to reproduce it.
#include "capi.hpp"
#include "nat.hpp"
#include "ffp.hpp"
#include "ffi.hpp"
#include <dirent.h>
#include <sys/mman.h>
#include <unordered_map>
extern "C" { void cs_log_set_level(int); void cs_log_set_file(FILE *); }

extern "C" int mjs_prog_main(int argc, char *argv[]);
extern "C" size_t c22_api(const char *ops, char *buf, size_t size);

static const char *variant() { const char *v = getenv("MC_VARIANT"); return v && *v ? v : "src"; }
static std::string tmpdir() { const char *v = getenv("MC_TMP"); return v ? v : "/tmp"; }
static const char SEP = 1;

// ---- what the first variant found ------------------------------------------------
static std::unordered_map<uint64_t, uint64_t> expected;
static void note(const std::string &text, const std::string &outcome) {
  uint64_t k = mc::fnvs(text), h = mc::fnvs(outcome);
  if (!strcmp(variant(), "src")) {
    static FILE *f; static pid_t owner;
    if (!f || owner != getpid()) { f = fopen((tmpdir() + "/oc." + std::to_string(getpid())).c_str(), "wb"); owner = getpid(); if (!f) mc::fail("cannot write outcomes"); }
    uint64_t r[2] = {k, h}; fwrite(r, sizeof r, 1, f); fflush(f);
    return;
  }
  static bool loaded;
  if (!loaded) {
    loaded = true;
    if (DIR *d = opendir(tmpdir().c_str())) {
      while (struct dirent *e = readdir(d)) if (!strncmp(e->d_name, "oc.", 3)) {
        std::string s = mc::slurp(tmpdir() + "/" + e->d_name);
        for (size_t i = 0; i + 16 <= s.size(); i += 16) { uint64_t r[2]; memcpy(r, s.data() + i, 16); expected[r[0]] = r[1]; }
      }
      closedir(d);
    }
  }
  auto it = expected.find(k);
  if (it == expected.end()) mc::fail("the library built from src has no outcome");
  if (it->second != h) mc::fail("not what the library built from src does; this one: " + outcome.substr(0, 1200));
}

struct Capture {
  int fd, saved;
  Capture() { fflush(stdout); saved = dup(1); fd = memfd_create("out", 0); dup2(fd, 1); }
  std::string end() {
    fflush(stdout); off_t n = lseek(fd, 0, SEEK_END); std::string r(n, 0);
    if (n && pread(fd, &r[0], n, 0) != n) r = "<cannot read>";
    dup2(saved, 1); close(saved); close(fd); saved = -1; return r;
  }
  ~Capture() { if (saved >= 0) end(); }
};

static void *resolver(void *, const char *n) { if (!strncmp(n, "cap", 3)) return (void *) cap_entry; return ffp::res(NULL, n); }
static int8_t bytes[64];
static void membase(struct mjs *m) { mjs_return(m, mjs_mk_foreign(m, bytes)); }
static void prep(vm::Vm &v) {
  capi::prep(v); nat::prep(v); ffp::prep(v); v.native("membase", membase);
  mjs_set_ffi_resolver(v.m, resolver);
  for (int i = 0; i < 64; i++) bytes[i] = i * 7 + 1;
}
static std::string trace(struct mjs *m) {
  char *t = NULL; size_t n = 0; FILE *fp = open_memstream(&t, &n);
  mjs_print_error(m, fp, NULL, 1); fclose(fp); std::string r(t, n); free(t); return r;
}
static long last_ops;
// a C string at the same address in every variant
static uint64_t ret_str() {
  static char *p;
  if (!p) { p = (char *) mmap((void *) 0x200000000000, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (p == MAP_FAILED) mc::fail("mmap"); strcpy(p, "returned"); }
  return (uint64_t) (uintptr_t) p;
}
// Executes a text; the outcome has everything which can be seen of it.
static std::string script(const std::string &src, mc::Ctx &c, const std::function<void(struct mjs *, uint64_t)> &hook, const std::function<mjs_err_t(struct mjs *, mjs_val_t *)> &how = nullptr) {
  Capture cap;
  vm::hook_reset(20000);
  if (!cap_fn) { cap_calls = 0; cap_rax = ret_str(); cap_xmm0 = 2.25; }
  std::string r;
  {
    vm::Vm v; prep(v);
    vm::H.n = 0; vm::H.fn = hook;
    vm::OBS = &v.obs;
    mjs_val_t res = mjs_mk_undefined();
    mjs_err_t e = how ? how(v.m, &res) : mjs_exec(v.m, src.c_str(), &res);
    vm::H.fn = nullptr;
    r = "err " + std::to_string(e) + "\n";
    if (e) r += trace(v.m); else { mjs_own(v.m, &res); r += vm::dump(v.m, res); char b[60]; mjs_sprintf(mjs_is_foreign(res) ? mjs_mk_null() : res, v.m, b, sizeof b); r += std::string(" ") + b; mjs_disown(v.m, &res); }
    r += "\n" + v.obs + "\n";
    c.transitions += last_ops = vm::H.n;
    vm::H.n = 0; vm::H.exhausted = false;
    mjs_gc(v.m, 1);
    vm::Out o = v.exec("let zz=6*7;zz"); r += o.str() + o.msg;
    c.executions++;
  }
  r += "\n" + cap.end();
  for (char x : bytes) r += std::to_string(x) + " ";
  return r;
}
static void junk(struct mjs *m) { for (int i = 0; i < 6; i++) { mjs_val_t o = mjs_mk_object(m); mjs_set(m, o, "junk name", ~0, mjs_mk_number(m, i)); } }

static void check(const std::string &text, mc::Ctx &c) {
  size_t sp = text.find(' '); std::string mode = text.substr(0, sp), rest = text.substr(sp + 1), out;
  if (mode == "s") out = script(rest, c, nullptr);
  else if (mode == "g") out = script(rest, c, [](struct mjs *m, uint64_t i) { mjs_gc(m, i & 1); junk(m); });
  else if (mode[0] == 'e') {                 // an error at every n-th operation
    static long K; long step = atol(mode.c_str() + 1), n = 0; long K0 = 0;
    std::string b = script(rest, c, nullptr); n = last_ops;
    for (K0 = 0; K0 < n && K0 < 400; K0 += step) { K = K0; out += script(rest, c, [](struct mjs *m, uint64_t i) { if ((long) i == K) mjs_set_errorf(m, MJS_INTERNAL_ERROR, "injected error %d", (int) i); }); }
  } else if (mode == "a") {
    static char buf[1 << 16]; vm::hook_reset(); Capture cap; size_t n = c22_api(rest.c_str(), buf, sizeof buf); c.executions++; c.transitions += rest.size(); out = std::string(buf, n) + cap.end();
  } else if (mode == "f") {                  // files: the text, what it leaves and how it loads
    std::string d = tmpdir() + "/f" + std::to_string(getpid()); mkdir(d.c_str(), 0777); if (chdir(d.c_str())) mc::fail("chdir");
    mc::spit("main.js", rest); mc::spit("lib.js", "let libvar=(libvar||0)+1;\nlet libf=function(x){return x.y.z;};\n'lib '+'value'");
    for (int jsc = 0; jsc < 3; jsc++) {
      out += script(rest, c, nullptr, [&](struct mjs *m, mjs_val_t *r) { mjs_set_generate_jsc(m, jsc > 0); mjs_set(m, mjs_get_global(m), "libvar", ~0, mjs_mk_number(m, 0)); mjs_exec(m, "load('lib.js')", r); return mjs_exec_file(m, "main.js", r); });
      out += std::string("\n") + (mc::slurp("main.jsc").empty() ? "-" : "jsc") + (mc::slurp("lib.jsc").empty() ? "-" : "jsc") + "|";
    }
    for (auto f : {"main.js", "lib.js", "main.jsc", "lib.jsc"}) unlink(f);
    if (chdir("/")) {} rmdir(d.c_str());
  } else if (mode == "m") {                  // the program
    Strs a = split(rest, std::string(1, SEP)); std::vector<char *> av = {(char *) "mjs"}; for (auto &x : a) if (!x.empty()) av.push_back((char *) x.c_str());
    av.push_back(NULL); vm::hook_reset(); Capture cap; int rc = mjs_prog_main(av.size() - 1, av.data()); cs_log_set_level(0); c.executions++;
    out = std::to_string(rc) + cap.end();
    size_t p = out.find("built: "); if (p != std::string::npos) out.erase(p, out.find('\n', p) - p);
  } else if (mode == "F") {                  // a signature and values
    std::string ret = rest.substr(0, 1), args = rest.substr(2), sig = std::string(ff::tname(ret[0])) + " cap(", call;
    for (size_t i = 0; i < args.size(); i++) sig += std::string(i ? "," : "") + ff::tname(args[i]);
    static const std::map<char, Strs> vals = {{'i', {"5", "-1", "2147483647.0", "true"}}, {'b', {"true", "false", "0", "7"}}, {'d', {"1.5", "-3", "0/0", "true"}}, {'f', {"0.5", "-2", "1e30", "false"}}, {'s', {"'a'", "'five5'", "'a longer string'", "''"}}, {'p', {"membase()", "null", "'a longer string'", "'x'"}}, {'m', {"'a longer string'", "'abc'", "''", "'five5'"}}};
    for (int j = 0; j < 6; j++) {
      call = "let f=ffi('" + sig + ")'); f(";
      for (size_t i = 0; i < args.size(); i++) call += std::string(i ? "," : "") + (j == 4 && i == 0 ? "{}" : vals.at(args[i])[(j + i) & 3]);
      if (j == 5) call += args.empty() ? "1" : ",1";
      memset(cap_w, 0, sizeof cap_w); memset(cap_x, 0, sizeof cap_x); cap_calls = 0; cap_rax = ret == "s" ? ret_str() : 0x1ffffffffull - j; cap_xmm0 = 2.25 * j;
      std::string seen; static std::string *S; S = &seen; static const std::string *A; A = &args;
      std::function<void()> fn = [] {
        int w = 0, x = 0;
        for (char t : *A) {
          char b[64];
          if (t == 'd') { snprintf(b, sizeof b, "%.17g,", cap_x[x++ & 7]); *S += b; }
          else if (t == 'f') { float q; memcpy(&q, &cap_x[x++ & 7], 4); snprintf(b, sizeof b, "%.9g,", q); *S += b; }
          else if (w < 6) {
            uint64_t v = cap_w[w++];
            if (t == 'i') *S += std::to_string((int) v) + ",";
            else if (t == 'b') *S += std::to_string(v & 255 ? 1 : 0) + ",";
            else if (t == 's') *S += (const char *) v + std::string(",");
            else if (t == 'm') { struct sm { const char *p; size_t n; } *q = (sm *) v; *S += std::string(q->p, q->n) + ","; }
            else *S += (v ? v == (uint64_t) (uintptr_t) bytes ? "bytes," : "ptr," : "null,");
          }
        }
      };
      cap_fn = &fn;
      out += script(call + ")", c, nullptr) + seen + std::to_string(cap_calls) + "\n";
      cap_fn = nullptr;
    }
  } else mc::fail("bad case");
  c.validated++; c.state(out);
  note(text, out);
}

static void enumerate(bool th, const Emit &emit) {
  Strs all = nat::programs(true);
  for (auto &p : nat::forin_changes()) all.push_back(p);
  for (auto &p : all) { emit("s " + p); emit("g " + p); }
  for (auto &p : ffp::progs()) { emit("s " + std::string(p.src)); emit("g " + std::string(p.src)); }
  Strs few = corpus(); for (auto &x : failing()) few.push_back(x); for (auto &x : nat::corpus_nat()) few.push_back(x);
  for (auto &p : few) {
    emit(std::string(th ? "e1 " : "e7 ") + p); emit("f " + p);
    emit("m -e" + std::string(1, SEP) + p);
    // malformed texts
    for (size_t i = 0; i < p.size(); i += th ? 1 : 5) { emit("s " + p.substr(0, i)); emit("s " + p.substr(0, i) + p.substr(i + 1)); }
  }
  // operators and operands
  Strs V = {"0", "1", "2.5", "-7", "1e21", "0x1F", "0/0", "1/3", "'a'", "''", "'5'", "'long string value'", "true", "false", "null", "undefined", "{}", "[]", "[1,2]", "{a:1}", "function(){return 1;}"};
  Strs O = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "===", "!==", "==", "!=", "&", "|", "^", "<<", ">>", ">>>", "&&", "||", ","};
  for (auto &x : V) {
    for (auto &o : O) for (auto &y : V) emit("s (" + x + ")" + o + "(" + y + ")");
    for (auto &u : {"-", "+", "!", "~", "typeof "}) emit("s " + std::string(u) + "(" + x + ")");
    for (auto &o : {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", ">>>="}) for (auto &y : {"3", "'s'", "null", "{}"}) emit("s let a=" + x + ";let r=(a" + o + y + ");[r,a]");
    for (auto &o : {"a++", "a--", "++a", "--a", "a.b", "a['b']", "a[0]", "a[1.5]", "a.length", "a()", "a(1,2)", "a.b=1", "a[0]=1", "a?1:2", "JSON.stringify(a)", "print(a,1)", "chr(a)", "isNaN(a)", "die(a)", "load(a)", "mkstr(a,3)", "ffi(a)", "s2o(a,a)", "a.b.c", "JSON.parse(a)", "Object.create(a)", "for(let k in a){obs(k);}", "return a", "if(a){1;}else{2;}", "while(a){break;}", "let b={x:a};b", "[a,a]"}) if (x != "obs" || !(strchr(o, '[') || strstr(o, "s2o") || strstr(o, "mkstr") || strstr(o, "++") || strstr(o, "--"))) emit("s let a=" + x + ";" + o);
  }
  // methods
  Strs R = {"'some text here'", "'abc'", "''", "[1,2,3,4]", "[]", "{k:'v'}", "mem", "function(a,b){return [a,b,typeof this];}", "7"};
  Strs A = {"0", "1", "-1", "2.7", "100", "'t'", "'some'", "null", "undefined", "{}", "[3]", "true"};
  for (auto &r : R) for (auto &m : {"at", "slice", "indexOf", "push", "splice", "apply", "length", "k"}) {
    if (r == "mem" && !strcmp(m, "apply")) continue;
    std::string p = "s let mem=membase();let r=" + r + ";let x=r." + m + "(";
    emit(p + ");[x,typeof r]");
    for (auto &a : A) { emit(p + a + ");[x,r===x]"); for (auto &b : A) { emit(p + a + "," + b + ");[typeof x,x]"); if (th) for (auto &d : A) emit(p + a + "," + b + "," + d + ");[x]"); } }
  }
  for (auto &a : A) for (auto &b : A) for (auto &f : {"mkstr(membase(),A,B)", "mkstr(membase(),A,B,true)", "membase()[A]", "membase()[A]=B", "(membase()+A)[B]", "membase()+A-B===membase()", "(membase()+A)>(membase()+B)", "chr(A)+chr(B)", "let o={};o[A]=B;[o,o[B],o[A]]", "let o=[5,6];o[A]=B;[o,o.length]", "let o=Object.create({k:1});o[A]=B;o", "ffi_cb_free(A,B)", "gc(A)", "callf(function(x,y){return [y,x];},A,B)", "pair(A,B)", "let f=function(a,b){let c=a;a=b;b=c;return [a,b];};f(A,B)", "JSON.stringify({a:A,b:[B]})", "[A,B].splice(0,1)", "let d=A;for(let i=0;i<3;i++){d=[d,B];}JSON.stringify(d)"}) { if (strstr(f, "membase") && (a.size() > 2 || b.size() > 2)) continue; std::string p = subst(subst(f, "A", a), "B", b); if (strstr(f, "JSON")) p = subst(subst(subst(subst(f, "JSON", "\x02"), "A", a), "B", b), "\x02", "JSON"); emit("s " + p); }
  // JSON
  Strs J = {"{", "}", "[", "]", ",", ":", "\"k\"", "\"long string\\\\u0041\\\\n\"", "1", "-2.5e3", "true", "null"};
  std::function<void(const std::string &, int)> js = [&](const std::string &s, int d) { if (!s.empty()) emit("s JSON.stringify(JSON.parse('" + s + "'))"); if (d) for (auto &t : J) js(s + t, d - 1); };
  js("", th ? 5 : 4);
  // tokens
  Strs T = {"x", "1", "'lit lit lit'", "let x=", "(", ")", "{", "}", "[", "]", ",", ";", ":", "=", "+", "function(", "return ", "for(", "if(", "else ", "while(", ".y", "?", "in ", "break;", "f()", "({k:'v v'})", "-", "\n"};
  std::function<void(const std::string &, int)> seq = [&](const std::string &s, int d) { if (!s.empty()) emit("s " + s); if (d) for (auto &t : T) seq(s + t, d - 1); };
  seq("", th ? 4 : 3);
  // signatures and callbacks
  Strs tup = {""}; const std::string TY = "ibdfspm";
  for (size_t b = 0, n = 0; n <= (th ? 4 : 3); n++) { size_t e = tup.size(); for (size_t i = b; i < e; i++) { const std::string a = tup[i]; for (char r : std::string("vibds")) if (n < 3 || r == 'i' || th) emit(std::string("F ") + r + " " + a); for (char t : TY) tup.push_back(a + t); } b = e; }
  for (auto &s : {"int cap(int", "foo cap(int)", "int cap(userdata)", "void cap(void (*)(userdata), userdata)", "int (*cap)(int)", "int cap(int (*)(int), userdata)", "int cap(void (*)(double, userdata), int, userdata)", "char*cap(char*)", "int cap(void)", "void *cap ( void * , int )", "int cap(int,int,int,int,int,int,int)"}) for (auto &a : {"", "1", "function(a,b){obs(a,b);return 1;},1", "null", "'s',2"}) emit("s let f=ffi('" + std::string(s) + "');obs(typeof f);f(" + a + ")");
  // files
  for (auto &s : {"load('lib.js');libvar", "load('lib.js')+load('lib.js')", "load('nofile.js')", "libf(1)", "load('lib.js');libf({y:0})", "\n\n syntax error(", "let o={};load('lib.js',o);o.libvar", "load('main.jsc')", "let big='" "0123456789012345678901234567890123456789" "';\nlet f=function(){\n\n return big.x.y;};\n\nf();"}) emit("f " + std::string(s));
  // the program
  Strs M = {"-e", "1+1", "'s'", "let a={b:[1,'x']};JSON.stringify(a)", "x.y", "print('p',1.5,{},[])", "-f", "-j", "-l", "0", "--help", "-h", "-zz", "/nonexistent.js", "1/0", "{}", "function(){}"};
  for (auto &a : M) { emit("m " + a); for (auto &b : M) { emit("m " + a + SEP + b); for (auto &d : M) { if (a[0] == '-') emit("m " + a + SEP + b + SEP + d); if (a == "-e" && (th || d == "-e")) for (auto &e : M) emit("m " + a + SEP + b + SEP + d + SEP + e); } } }
  // lib modules
  std::string lib = std::string(getenv("MJS_REPO") ? getenv("MJS_REPO") : "/repo") + "/lib/";
  for (auto &k : {"Int8", "Uint8", "Int16", "Uint16", "Int32", "Uint32", "Float32", "Float64"}) for (auto &o : {"0", "1", "5", "60", "-1"}) for (auto &le : {"", ",true"}) { std::string n = k; emit("s load('" + lib + "api_dataview.js');let d=DataView.create(membase(),0,16);[d.get" + n + "(" + o + le + "),d.set" + n + "(" + o + ",-3.5" + le + "),d.get" + n + "(" + o + ")]"); }
  for (auto &e : {"Math.max(1,2)", "Math.pow(2,10)", "Math.floor(-1.5)", "Math.round(2.5)", "Math.abs(-3)", "Math.sqrt(2)"}) emit("s load('" + lib + "api_math.js');" + e);
  // the C API
  const std::string ops = "10es5lfoaunbNEpFTMd=K:.[^-ASGD>cyxXgwW", big = "s5loaNFTM";
  std::function<void(const std::string &, int)> api = [&](const std::string &s, int d) { emit("a " + s); if (d) for (char o : ops) api(s + o, d - 1); };
  api("", th ? 3 : 2);
  for (auto &p : {"o", "a", "osl=", "asA5A", "F", "N", "M", "o5=.", "a1A1A1A", "E", "T", "lf", "aoA", "oN=", "oT=", "1u", "1s5F", "ssE"}) api(p, th ? 3 : 2);
}

int main(int argc, char **argv) {
  FILE *dn = fopen("/dev/null", "w"); cs_log_set_file(dn);
  mc::Driver d;
  d.id = "C22"; d.rule = "a case is a script (plain, with a collection after every operation, with an error at operations 0, 7, 14...), a file, a command line of the program, a C function signature with values or a sequence of C API calls; the library built from mjs.c + mjs.h and the one built from mjs_no_common.c have to give what the library built from src gives (value, message, stack trace, observations, output, written .jsc file, number of operations). All are non-trivial";
  d.enumerate = enumerate; d.check = check;
  d.assumptions = {"the library built from src is the model; that it is right is what the other properties are about"};
  return mc::run(d, argc, argv);
}
