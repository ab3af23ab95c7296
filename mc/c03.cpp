// C03: value of expressions
#include "scale.hpp"
#include "common.hpp"

static const Strs ATOMS = {"0", "1", "2", "7", "2.5", "1000000", "\"\"", "\"a\"", "\"abcdef\"", "true", "false", "null", "undefined", "NaN", "[1]", "{k:1}", "x", "s", "o.p", "o[\"q\"]", "a[1]", "f()", "this", "function(){}", "isNaN(y)"};
static const Strs OPS = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>", "<", ">", "<=", ">=", "===", "!==", "&&", "||"};
static const Strs AOPS = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", ">>>="};
static const Strs UN = {"!", "-", "+", "~", "typeof "};
static const std::string PRE = "let x=5; let s=\"hello, w\"; let o={p:3,q:\"qq\",r:{z:9}}; let a=[4,6,\"eight\"]; let f=function(){return 11;}; let y=12;\n";

static void enumerate(bool th, const Emit &emit) {
  auto E = [&](const std::string &e) { emit(PRE + "obs(" + e + ");" + "obs(x,s,o,a,y);" + e); };
  Strs at2; for (auto &a : ATOMS) { at2.push_back(a); for (auto &u : UN) at2.push_back(u + (a == "{k:1}" ? "{k:1}" : a)); }
  for (auto &u : UN) for (auto &v : UN) for (auto &a : ATOMS) E(u + " " + v + a);
  for (auto &a : at2) { E(a); E("(" + a + ")"); }
  Strs all = OPS; all.push_back("=="); all.push_back("!=");
  // every operator on every pair of operand kinds, in both spellings
  for (auto &p : all) for (auto &a : ATOMS) for (auto &b : ATOMS) { E(a + p + b); emit(PRE + "obs(obs(" + a + ")" + p + "obs(" + b + "));"); }
  for (auto &p : OPS) for (auto &a : at2) for (auto &b : at2) if (th || (a.size() + b.size()) % 3 == 0) E(a + " " + p + " " + b);
  // numbers at the limits of the integer types, and non-integers
  Strs big = {"0", "1", "3", "10", "31", "255", "65536", "2147483647", "(-2147483647)", "(-7)", "4294967295", "4294967296", "4294967297", "2147483648", "9007199254740991", "9007199254740992", "(-9007199254740991)", "1099511627776", "0.5", "2.75", "(-2.75)", "1e-7", "(-0.5)", "1e15", "1e21", "1.7e308", "(0-0.1)"};
  for (auto &p : all) for (auto &a : big) for (auto &b : big) { E(a + p + b); if (th || p == "%" || p == "&" || p == "/") for (auto &d : {"3", "1000000"}) { E("(" + a + p + b + ")%" + d); E(std::string(d) + "*(" + a + p + b + ")"); } }
  for (auto &a : big) { E("~" + a); E("-" + a); E("+" + a); E("!" + a); E("~~" + a); for (auto &p : AOPS) for (auto &b : big) emit(PRE + "x = " + a + "; obs(x " + p + b + ");obs(x,s,o,a,y);"); emit(PRE + "x = " + a + "; obs(x++); obs(--x); obs(x--, ++x);"); }
  for (auto &a : ATOMS) { E("isNaN(" + a + ")"); for (auto &p : OPS) for (auto b : {"NaN", "0", "1", "x"}) { E("isNaN(" + a + p + b + ")"); E("isNaN(" + std::string(b) + p + a + ")"); } for (auto &p : AOPS) E("isNaN(y " + p + " " + a + ")"); }
  for (auto &a : big) { E("isNaN(" + a + ")"); E("isNaN(" + a + "*NaN)"); }
  // precedence and associativity: all operator pairs / triples over distinguishable numbers
  std::vector<Strs> nums = {{"7", "2", "3", "5"}, {"1", "0", "6", "4"}, {"-3", "4", "1", "2"}, {"100", "3", "2", "1"}};
  for (auto &n : nums) for (auto &p : OPS) for (auto &q : OPS) {
    std::string e = n[0] + p + n[1] + q + n[2];
    E(subst(e, "--", "- -")); E(subst("(" + n[0] + p + n[1] + ")" + q + n[2], "--", "- -")); E(subst(n[0] + p + "(" + n[1] + q + n[2] + ")", "--", "- -"));
    for (auto &u : UN) { E(u + subst(e, "--", "- -")); E(subst(n[0] + p + u + n[1] + q + n[2], "--", "- -")); E(subst(n[0] + p + n[1] + q + u + n[2], "--", "- -")); }
    if (th || &n == &nums[0]) for (auto &r : OPS) {
      E(subst(e + r + n[3], "--", "- -"));
      if (th) { E(subst("(" + n[0] + p + n[1] + ")" + q + "(" + n[2] + r + n[3] + ")", "--", "- -")); E(subst(n[0] + p + "(" + n[1] + q + n[2] + ")" + r + n[3], "--", "- -")); }
    }
  }
  if (th) for (auto &p : OPS) for (auto &q : OPS) for (auto &a : ATOMS) for (auto &b : ATOMS) for (auto c : {"3", "\"zz\"", "x", "null"}) E(a + " " + p + " " + b + " " + q + " " + c);
  // conditional operator
  for (auto &c : ATOMS) { E(c + " ? 1 : 2"); E(c + " ? x : s ? 3 : 4"); E(c + " ? (x = 1) : (x = 2)"); E("(" + c + " ? f : o).p"); E(c + " ? obs(1) : obs(2)");
    for (auto &d : ATOMS) { E(c + " ? " + d + " ? 1 : 2 : 3"); E(c + " ? 1 : " + d + " ? 2 : 3"); E(c + " && " + d + " ? 1 : 2"); E(c + " || " + d + " && obs(1)"); E("obs(" + c + ") && obs(" + d + ") || obs(3)"); E("!" + c + " === !" + d); } }
  for (auto &p : OPS) for (auto &q : OPS) { E("6" + p + "2 ? 3" + q + "1 : 4" + p + "2"); E("1 ? 2 : 3" + p + "4"); }
  // assignment: every operator, every kind of target, every kind of value
  Strs T = {"x", "s", "y", "o.p", "o.q", "o[\"p\"]", "o[\"new\"]", "o.r.z", "a[0]", "a[2]", "a[3]", "o.nope", "o[s]", "f().p", "undeclared", "s.p", "x.p", "a[y-12]", "o.r[\"z\"]"};
  for (auto &t : T) for (auto &p : AOPS) for (auto &v : ATOMS) {
    emit(PRE + "obs(" + t + p + v + ");obs(x,s,o,a,y);"); emit(PRE + t + " " + p + " obs(" + v + ");obs(x,s,o,a,y);");
  }
  for (auto &t : T) for (auto d : {"++", "--"}) { emit(PRE + "obs(" + t + d + ");obs(x,s,o,a,y);"); emit(PRE + "obs(" + d + t + ");obs(x,s,o,a,y);"); emit(PRE + t + d + ";obs(x,s,o,a,y);");
    for (auto &p : OPS) { emit(PRE + "obs(" + t + d + p + "3);obs(x,s,o,a,y);"); emit(PRE + "obs(3" + p + " " + t + d + ");obs(x,s,o,a,y);"); emit(PRE + "obs(" + d + t + " " + p + " 2);obs(x,s,o,a,y);"); } }
  for (auto &t : T) for (auto &u : T) for (auto &p : AOPS) for (auto &q : AOPS) if (th || p == "=" || q == "=") emit(PRE + "obs(" + t + " " + p + " " + u + " " + q + " 2);obs(x,s,o,a,y);");
  // literals
  Strs lits;
  for (int k = 0; k < 54; k++) for (int d = -2; d <= 2; d++) { long long v = (1ll << k) + d; if (v >= 0 && v <= (1ll << 53)) { char b[40]; snprintf(b, sizeof b, "%lld", v); lits.push_back(b); snprintf(b, sizeof b, "0x%llx", v); lits.push_back(b); } }
  for (auto m : {"0", "1", "12", "123456789"}) for (auto f : {".0", ".5", ".25", ".1", ".000001", ".123456789012345678", "."}) for (auto e : {"", "e0", "e1", "E2", "e+3", "e-3", "e-10", "e20", "e300", "e-300"}) lits.push_back(std::string(m) + f + e);
  for (auto m : {"0", "1", "9", "123"}) for (auto e : {"e0", "e1", "e5", "e15", "e22", "e-1", "E-7", "e+100"}) lits.push_back(std::string(m) + e);
  for (auto &l : lits) { E(l); E("-" + l); emit(PRE + "o[\"z\"] = " + l + "; obs(o.z === " + l + ", o.z + 1, o.z - " + l + ", o.z * 3, o.z)"); }
  for (int b = 1; b < 256; b++) {
    if (b == '\n') continue;
    char h[8];
    snprintf(h, sizeof h, "\\x%02x", b); E(std::string("\"") + h + "\""); E(std::string("'") + h + h + "q'"); snprintf(h, sizeof h, "\\x%02X", b); E(std::string("\"z") + h + "\"");
    snprintf(h, sizeof h, "\\u%04x", b); E(std::string("\"") + h + "\"");
    if (b != '\\' && b != '"') E(std::string("\"") + (char) b + "\"");
    if (b != '\\' && b != '\'') E(std::string("'a") + (char) b + "bcdefg'");
  }
  for (auto e : {"\\n", "\\t", "\\r", "\\b", "\\f", "\\v", "\\\\", "\\'", "\\\"", "\\x00", "\\u0000"}) for (auto a : {"", "a", "abcde"}) for (auto z : {"", "z", "vwxyz"}) { E(std::string("\"") + a + e + z + "\""); E(std::string("'") + a + e + z + "'"); E(std::string("\"") + a + e + e + z + "\".length"); E(std::string("{\"") + a + e + z + "\":1}"); }
}

int main(int argc, char **argv) {
  mc::Driver d;
  d.id = "C03";
  d.rule = "all expressions of the bounded grammar (operators x operand kinds, operator pairs/triples, conditional, assignment forms, literals); non-trivial: inside the documented domain, so that value, error kind, evaluation order and side effects are compared with the reference interpreter";
  d.enumerate = enumerate;
  d.check = [](const std::string &t, mc::Ctx &c) { diff_case(t + "\n%%\nobs(x,s,o,a,y);", c); };    // also what an error has left behind
  d.assumptions = {"where the documentation leaves a result open (comparison or negation of non-numbers, division by zero, bit operations beyond int32, sign of zero) only the absence of crashes is checked"};
  scale::wrap(d, "C03");
  return mc::run(d, argc, argv);
}
