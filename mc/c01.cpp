// C01: any source text is executed or rejected safely
#include "common.hpp"
#include "corpus.hpp"

static const Strs TOK = {"a", "b", "1", "\"s\"", "obs(1)", "0x", "1e", ".5", "'", "break", "continue", "else", "false", "for", "function", "if", "in", "let", "null", "return", "this", "true", "typeof", "undefined", "while", "switch", "new",
  "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "<", ">", "=", "?", ":", ";", ",", ".", "(", ")", "[", "]", "{", "}", "++", "--", "+=", ">>>=", "===", "!==", "==", "&&", "||", "<<", ">>>", "//", "/*", "\n", "\\", "@", "#", "$", "\x01", "\xff"};
static const Strs TOK2 = {"a", "1", "\"s\"", "obs(1)", "break", "continue", "else", "for", "function", "if", "in", "let", "return", "this", "while", "+", "!", "=", "?", ":", ";", ",", ".", "(", ")", "[", "]", "{", "}", "++", "+=", "&&"};
static const Strs TOK3 = {"a", "1", "break", "else", "for", "function", "if", "in", "let", "return", "while", "-", "=", "?", ":", ";", ",", ".", "(", ")", "[", "]", "{", "}", "++"};

static void seqs(const Strs &t, int n, const std::string &pre, const std::string &post, const Emit &emit, std::string cur = "") {
  emit(pre + cur + post);
  if (n == 0) return;
  for (auto &x : t) seqs(t, n - 1, pre, post, emit, cur.empty() ? x : cur + " " + x);
}
static void bytes(const std::string &alpha, int n, const Emit &emit, std::string cur = "") {
  emit(cur);
  if (n) for (char c : alpha) bytes(alpha, n - 1, emit, cur + c);
}
static Strs tokens(const std::string &s) {      // rough split, keeps everything
  Strs r; size_t i = 0;
  while (i < s.size()) {
    size_t j = i + 1;
    if (isalnum((unsigned char) s[i])) while (j < s.size() && isalnum((unsigned char) s[j])) j++;
    else if (s[i] == '\'') { while (j < s.size() && s[j] != '\'') j++; j++; }
    r.push_back(s.substr(i, j - i)); i = j;
  }
  return r;
}
static std::string join(const Strs &t) { std::string r; for (auto &x : t) r += x; return r; }

static std::vector<int> depths(bool th) {
  std::vector<int> r;
  for (int d = 1; d <= 130; d += (th || d < 40 ? 1 : d < 126 ? 12 : 1)) r.push_back(d);
  for (int d : {254, 255, 256, 257, 258, 509, 510, 511, 512, 513, 514, 515, 1000, 5000, 20000}) r.push_back(d);
  if (th) for (int d = 500; d < 530; d++) r.push_back(d), r.push_back(d / 2);
  if (th) r.push_back(200000);
  return r;
}

static void enumerate(bool th, const Emit &emit) {
  const std::string decl = "let a=1;let b={c:2};";
  seqs(TOK, th ? 4 : 3, "", "", emit);
  seqs(TOK2, 3, decl, "", emit);
  seqs(TOK2, 3, decl + "let f=function(){", "};f()", emit);
  seqs(TOK2, 3, decl + "while(a<3){a++;", "}", emit);
  seqs(TOK2, 2, decl + "for(let i in {q:1}){", "} obs(2)", emit);
  seqs(TOK2, 2, decl + "[1,", "]", emit); seqs(TOK2, 2, decl + "({k:", "})", emit); seqs(TOK2, 2, decl + "obs(3,", ")", emit);
  seqs(TOK2, 3, decl + "for(", ") { obs(1) }", emit); seqs(TOK2, 2, decl + "if(", ") obs(1)", emit); seqs(TOK2, 2, decl + "a ? ", " : 2", emit);
  seqs(TOK3, th ? 5 : 4, "", "", emit);
  if (th) { seqs(TOK2, 4, decl, "", emit); seqs(TOK2, 4, decl + "for(", ") { obs(1) }", emit); seqs(TOK2, 4, decl + "let f=function(){", "};f()", emit); }
  std::string all; for (int i = 1; i < 256; i++) all += (char) i;
  bytes(all, 2, emit);
  bytes("a10x.eE+-'\"\\/*\n {}()[];=<>&|!?:,$_\x80", th ? 4 : 3, emit);
  bytes("1.eExX+-0a", th ? 6 : 5, emit);
  bytes("\"\\xu0a1'", th ? 6 : 5, emit);
  for (auto &o : {"'", "\""}) for (int b = 1; b < 256; b++) for (auto &t : {"", "1", "12", "12'", "123\"", "12345'", "xyz\""}) { emit(std::string(o) + "\\" + (char) b + t); emit("let a=" + std::string(o) + "pad\\" + (char) b + t + o); emit("({" + std::string(o) + "pad\\" + (char) b + t + o + ":1})"); }
  // truncations and one-token edits of valid and failing programs
  Strs progs = corpus(); for (auto &x : failing()) progs.push_back(x);
  for (auto &p : progs) {
    for (size_t i = 0; i <= p.size(); i++) { emit(p.substr(0, i)); emit(p.substr(i)); if (i + 1 < p.size()) emit(p.substr(0, i) + p.substr(i + 1)); }
    Strs t = tokens(p);
    for (size_t i = 0; i < t.size(); i++) {
      Strs u = t; u.erase(u.begin() + i); emit(join(u));
      u = t; u.insert(u.begin() + i, t[i]); emit(join(u));
      if (i + 1 < t.size()) { u = t; std::swap(u[i], u[i + 1]); emit(join(u)); }
      for (auto &x : th ? TOK : TOK3) { u = t; u[i] = " " + x + " "; emit(join(u)); if (th) { u = t; u.insert(u.begin() + i, " " + x + " "); emit(join(u)); } }
    }
  }
  // nesting
  struct N { const char *o, *m, *c; };
  static const N ns[] = {{"(", "1", ")"}, {"[", "1", "]"}, {"{", "obs(1)", "}"}, {"({a:", "1", "})"}, {"if(1){", "obs(1)", "}"}, {"while(a--){", "obs(1)", "}"}, {"function(){", "", "}"}, {"(function(){return ", "1", "})()"}, {"!", "1", ""}, {"- ", "1", ""}, {"1+(", "2", ")"},
    {"a.b", "", ""}, {"a[", "1", "]"}, {"a(", "1", ")"}, {"1?", "1", ":2"}, {"1?2:", "3", ""}, {"a=", "1", ""}, {"if(0)1;else ", "2", ""}, {"for(let i=0;i<2;i++)", "obs(1)", ""}, {"for(let k in {z:1}){", "obs(k)", "}"}, {"1&&", "2", ""}, {"typeof ", "1", ""}, {"let q=function(){", "obs(1)", "};q();"}, {"1,", "2", ""}, {"/*", "", "*/"}, {"\n", "1", ""}, {";", "1", ""}};
  for (auto &n : ns) for (int d : depths(th)) {
    std::string o, c; for (int i = 0; i < d; i++) { o += n.o; c += n.c; }
    emit("let a=1;" + o + n.m + c); emit("let a=1;" + o + n.m); emit("let a=1;" + o + c); emit("let a=1;" + o + n.m + c + n.c);
  }
  // sizes of tokens
  for (int len : {1, 5, 6, 126, 127, 128, 129, 255, 256, 257, 16383, 16384, 16385, 70000}) {
    std::string s(len, 'q'), d(len, '7');
    emit("let " + s + "=1;" + s); emit("'" + s + "'"); emit("'" + s); emit("({" + s + ":1})." + s); emit(d); emit("0x" + d); emit("1." + d); emit("1e" + d); emit("//" + s); emit("/*" + s + "*/1"); emit("/*" + s); emit(std::string(len, '\n') + "@"); emit(std::string(len, ' ') + "1");
    emit("'" + subst(s, "q", "\\n") + "'"); emit("({'" + subst(s, "q", "\\x41") + "':2})"); emit("@" + s); emit(s); emit("let x='" + s + "'; x+=1"); emit("break " + s); emit("ffi('" + s + "')"); emit("JSON.parse('" + s + "')"); emit("load('" + s + "')"); emit("die('" + s + "')");
  }
}

static bool balanced(const std::string &s, bool *judge) {
  try {
    std::string st;
    for (auto &t : ref::lex(s)) if (t.k == ref::Tok::P) {
      if (t.s == "(") st += ')'; else if (t.s == "[") st += ']'; else if (t.s == "{") st += '}';
      else if (t.s == ")" || t.s == "]" || t.s == "}") { if (st.empty() || st.back() != t.s[0]) { *judge = true; return false; } st.pop_back(); }
    }
    *judge = true; return st.empty();
  } catch (ref::Unspecified &) { *judge = false; return true; }
}

static void check(const std::string &t, mc::Ctx &c) {
  vm::hook_reset();
  vm::Vm v;
  vm::Out k = v.exec("let keep={n:1,s:'a string which is kept'}; let kf=function(q){ let r=q+keep.n; return r; }; kf(1)");
  if (k.str() != "=2") mc::fail("setup script: " + k.str() + " " + k.msg);
  v.obs.clear(); vm::H.n = 0; vm::H.budget = 3000;
  vm::Out o = v.exec(t);
  c.executions++; c.transitions += vm::H.n + t.size();
  bool ran = vm::H.n != 0;
  if (o.err < 0 || o.err > 7 + 1) mc::fail("strange error code " + std::to_string(o.err));
  if (o.err && o.msg.empty()) mc::fail("error without a message");
  if (o.err == ref::SYNTAX && !ran && !v.obs.empty()) mc::fail("a rejected text had an effect");
  bool judge = false;
  if (!balanced(t, &judge) && judge && !o.exhausted) {
    c.count("unbalanced_texts_rejected");
    if (o.err == 0) mc::fail("a text with unbalanced brackets was accepted: " + o.str());
    if (ran || !v.obs.empty()) mc::fail("a text with unbalanced brackets was executed in part, observed " + v.obs);
  }
  c.state(o.str() + v.obs + (o.err ? o.msg.substr(0, 12) : ""));
  c.count(o.err == 0 ? "accepted" : ran ? "failed_at_run_time" : "rejected");
  v.obs.clear(); vm::hook_reset();
  vm::Out p = v.exec("let zz1={w:[1,'after the text']}; for(let zk in zz1){ zz1[zk].push(kf(41)); } obs(keep.n,keep.s,zz1,this); zz1.w.length");
  c.validated++;
  if (t.find("keep") == std::string::npos && t.find("kf") == std::string::npos && (p.str() != "=3" || v.obs != "1 'a string which is kept' {'w':[1,'after the text',42]} undefined;"))
    mc::fail("the instance does not work any more after " + o.str() + " (" + o.msg + "): " + p.str() + " " + p.msg + " observed " + v.obs);
}

int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C01";
  d.rule = "token sequences and byte strings up to a length, in several contexts; prefixes, suffixes, character and token edits of a corpus; nesting and token size sweeps. Every case is executed; non-trivial: all (each is a distinct text)";
  d.enumerate = enumerate; d.check = check;
  d.assumptions = {"nesting depth of the text at most 20000 (quick) or 200000 (thorough)", "a script is stopped after 3000 operations, the time of native functions is not bounded"};
  return mc::run(d, argc, argv);
}
