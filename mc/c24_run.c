/*
 * Executes cases in one build configuration of the library: reads length and text
 * from descriptor 3, writes length and outcome to descriptor 4.
 */
#include <errno.h>
#include <math.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "mjs_core_public.h"
#include "mjs_array_public.h"
#include "mjs_exec_public.h"
#include "mjs_ffi_public.h"
#include "mjs_gc_public.h"
#include "mjs_object_public.h"
#include "mjs_primitive_public.h"
#include "mjs_string_public.h"
#include "mjs_util_public.h"
#include "common/cs_varint.h"
#include "common/mg_str.h"
#include "common/str_util.h"
#include "frozen/frozen.h"
void cs_log_set_level(int);
void cs_log_set_file(FILE *);
void mjs_set_generate_jsc(struct mjs *mjs, int generate_jsc);
size_t c22_api(const char *ops, char *buf, size_t size);

static char *out;
static size_t len, cap;
static void put(const char *p, size_t n) {
  if (len + n + 1 > cap) { cap = (len + n + 1) * 2; out = (char *) realloc(out, cap); if (out == NULL) abort(); }
  memcpy(out + len, p, n); len += n; out[len] = '\0';
}
static void say(const char *s) { put(s, strlen(s)); }
static void num(double d) { char b[64]; if (d != d) { say("NaN"); return; } snprintf(b, sizeof(b), "%.17g", d == 0 ? 0 : d); say(b); }

static long ops, budget;
void mjs_verif_point(struct mjs *m) { if (++ops > budget) mjs_set_errorf(m, MJS_INTERNAL_ERROR, "budget"); }

static void show(struct mjs *m, mjs_val_t v, int depth) {
  mjs_own(m, &v);
  if (mjs_is_string(v)) {
    size_t n, i; const char *p = mjs_get_string(m, &v, &n);
    say("\""); for (i = 0; i < n && i < 300; i++) { unsigned char c = (unsigned char) p[i]; char b[8]; if (c >= 32 && c < 127) put((char *) &c, 1); else { sprintf(b, "\\x%02x", c); say(b); } }
    say("\""); num(n); if (n > 300) { uint32_t h = 0; for (i = 0; i < n; i++) h = h * 31 + (unsigned char) p[i]; say("#"); num(h); }
  } else if (mjs_is_number(v)) num(mjs_get_double(m, v));
  else if (mjs_is_array(v)) {
    unsigned long i, n = mjs_array_length(m, v);
    say("["); num(n); say(":"); for (i = 0; depth > 0 && i < n && i < 50; i++) { show(m, mjs_array_get(m, v, i), depth - 1); say(","); } say("]");
  } else if (mjs_is_object(v)) {
    mjs_val_t it = mjs_mk_undefined(), k; say("{"); 
    if (depth > 0) { mjs_own(m, &it); while ((k = mjs_next(m, v, &it)) != mjs_mk_undefined()) { mjs_own(m, &k); show(m, k, 0); say("="); show(m, mjs_get_v(m, v, k), depth - 1); say(","); mjs_disown(m, &k); } mjs_disown(m, &it); }
    say("}");
  } else if (mjs_is_boolean(v)) say(mjs_get_bool(m, v) ? "true" : "false");
  else say(mjs_typeof(v));
  mjs_disown(m, &v);
}
static mjs_val_t mjs_get_vv(struct mjs *m, int i) { return mjs_arg(m, i); }
static void obs(struct mjs *m) { int i, n = mjs_nargs(m); say("obs "); for (i = 0; i < n; i++) { show(m, mjs_get_vv(m, i), 4); say(" "); } say("\n"); mjs_return(m, n ? mjs_arg(m, 0) : mjs_mk_undefined()); }

/* strings which are not copied, of any length */
static char *text;
#define TEXT 100000
static void fs(struct mjs *m) {
  size_t off = mjs_nargs(m) > 1 ? (size_t) mjs_get_int(m, mjs_arg(m, 1)) : 0, n = (size_t) mjs_get_int(m, mjs_arg(m, 0));
  mjs_return(m, n + off > TEXT ? mjs_mk_null() : mjs_mk_string(m, text + off, n, 0));
}
static void own(struct mjs *m) { size_t n = (size_t) mjs_get_int(m, mjs_arg(m, 0)); mjs_return(m, n > TEXT ? mjs_mk_null() : mjs_mk_string(m, text, n, 1)); }
static signed char *bytes;      /* 64 */
static void mem(struct mjs *m) { mjs_return(m, mjs_mk_foreign(m, bytes)); }
static void callf(struct mjs *m) {
  mjs_val_t a[8], r = mjs_mk_undefined(); int i, n = mjs_nargs(m) - 1;
  if (n > 8) n = 8;
  for (i = 0; i < n; i++) a[i] = mjs_arg(m, i + 1);
  if (n < 0 || mjs_apply(m, &r, mjs_arg(m, 0), mjs_mk_undefined(), n, a) != MJS_OK) r = mjs_mk_undefined();
  mjs_return(m, r);
}
static void collect(struct mjs *m) { mjs_gc(m, 1); mjs_return(m, mjs_mk_undefined()); }
static void cstr(struct mjs *m) { mjs_val_t v = mjs_arg(m, 0); const char *p = mjs_get_cstring(m, &v); mjs_return(m, p ? mjs_mk_number(m, strlen(p)) : mjs_mk_null()); }

/* C functions for ffi() */
static void rec(const char *f, double a, double b, double c) { say(f); say("("); num(a); say(","); num(b); say(","); num(c); say(")"); }
static int c_i(int a, int b, int c) { rec("i", a, b, c); return a - 2 * b + 3 * c; }
static int c_i6(int a, int b, int c, int d, int e, int f) { rec("i", a, b, c); rec("i", d, e, f); return f; }
static bool c_b(bool a, int b) { rec("b", a, b, 0); return a; }
static double c_d(double a) { rec("d", a, 0, 0); return a / 2; }
static double c_dd(double a, double b) { rec("dd", a, b, 0); return a - b; }
static double c_did(double a, int b) { rec("di", a, b, 0); return a - b; }
static double c_idd(int a, double b) { rec("id", a, b, 0); return a - b; }
static double c_d0(int a) { rec("d0", a, 0, 0); return a + 0.25; }
static float c_f(float a) { rec("f", a, 0, 0); return a * 2; }
static float c_ff(float a, float b) { rec("ff", a, b, 0); return a - b; }
static int c_id(double a) { rec("id", a, 0, 0); return (int) (a * 4); }
static void c_v(int a) { rec("v", a, 0, 0); }
static const char *c_s(const char *s) { say("s("); say(s ? s : "NULL"); say(")"); return s ? text + 26 * 3 : NULL; }
static void *c_p(void *p, int i) { say(p == NULL ? "p(NULL)" : p == bytes ? "p(bytes)" : "p(?)"); return p ? (char *) p + i : NULL; }
struct mg_str_ { const char *p; size_t len; };
static int c_m(struct mg_str_ *s) { if (s == NULL) { say("m(NULL)"); return -1; } say("m("); put(s->p, s->len); say(")"); return (int) s->len; }
static int c_each(int (*f)(int, void *), void *u) { int i, r = 0; for (i = 0; i < 3; i++) r = r * 10 + f(i, u); return r; }
static int c_eachs(int (*f)(void *, const char *), void *u) { return f(u, "from C") + f(u, NULL); }
static double c_eachd(double (*f)(double, void *), void *u) { return f(1.5, u) + f(-1e30, u); }
static void c_eachv(void (*f)(void *, int, int, int), void *u) { f(u, 1, -2, 3); }
static void *resolve(void *h, const char *n) {
  (void) h;
#define R(x) if (!strcmp(n, #x)) return (void *) x;
  R(c_i) R(c_i6) R(c_b) R(c_d) R(c_dd) R(c_did) R(c_idd) R(c_d0) R(c_f) R(c_ff) R(c_id) R(c_v) R(c_s) R(c_p) R(c_m) R(c_each) R(c_eachs) R(c_eachd) R(c_eachv)
  return NULL;
}
struct sub { signed char b; const char *s; };
struct whole { int a; double d; uint16_t h; float f; struct sub sub; const char *p; bool t; signed char c; void *v; struct sub *q; };
static const struct mjs_c_struct_member sub_def[] = {
  {"b", offsetof(struct sub, b), MJS_STRUCT_FIELD_TYPE_INT8, NULL}, {"s", offsetof(struct sub, s), MJS_STRUCT_FIELD_TYPE_CHAR_PTR, NULL}, {NULL, 0, MJS_STRUCT_FIELD_TYPE_INVALID, NULL}};
static const struct mjs_c_struct_member whole_def[] = {
  {"a", offsetof(struct whole, a), MJS_STRUCT_FIELD_TYPE_INT, NULL}, {"d", offsetof(struct whole, d), MJS_STRUCT_FIELD_TYPE_DOUBLE, NULL}, {"h", offsetof(struct whole, h), MJS_STRUCT_FIELD_TYPE_UINT16, NULL},
  {"f", offsetof(struct whole, f), MJS_STRUCT_FIELD_TYPE_FLOAT, NULL}, {"sub", offsetof(struct whole, sub), MJS_STRUCT_FIELD_TYPE_STRUCT, sub_def}, {"p", offsetof(struct whole, p), MJS_STRUCT_FIELD_TYPE_CHAR_PTR, NULL},
  {"t", offsetof(struct whole, t), MJS_STRUCT_FIELD_TYPE_BOOL, NULL}, {"c", offsetof(struct whole, c), MJS_STRUCT_FIELD_TYPE_INT8, NULL}, {"v", offsetof(struct whole, v), MJS_STRUCT_FIELD_TYPE_VOID_PTR, NULL},
  {"q", offsetof(struct whole, q), MJS_STRUCT_FIELD_TYPE_STRUCT_PTR, sub_def}, {NULL, 0, MJS_STRUCT_FIELD_TYPE_INVALID, NULL}};
static void whole(struct mjs *m) {
  static struct sub q = {-7, "behind a pointer"};
  static struct whole w = {-5, 2.5, 65535, 0.1f, {-128, "text in the structure"}, NULL, true, 127, NULL, &q};
  w.p = text + 26; w.v = bytes; mjs_return(m, mjs_struct_to_obj(m, &w, whole_def));
}

static struct mjs *make(void) {
  struct mjs *m = mjs_create(); mjs_val_t g = mjs_get_global(m);
  mjs_set(m, g, "obs", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) obs));
  mjs_set(m, g, "fs", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) fs));
  mjs_set(m, g, "own", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) own));
  mjs_set(m, g, "mem", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) mem));
  mjs_set(m, g, "callf", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) callf));
  mjs_set(m, g, "collect", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) collect));
  mjs_set(m, g, "cstr", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) cstr));
  mjs_set(m, g, "whole", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) whole));
  mjs_set_ffi_resolver(m, (mjs_ffi_resolver_t *) resolve);
  return m;
}
static void result(struct mjs *m, mjs_err_t e, mjs_val_t v) {
  char b[32]; snprintf(b, sizeof(b), "err %d ", (int) e); say(b);
  if (e != MJS_OK) { char *t = NULL; size_t n = 0; FILE *fp = open_memstream(&t, &n); mjs_print_error(m, fp, NULL, 1); fclose(fp); put(t, n); free(t); }
  else { char s[100]; show(m, v, 5); say(" "); if (!mjs_is_foreign(v)) { mjs_sprintf(v, m, s, sizeof(s)); say(s); } }
}
static void script(const char *src, const char *file) {
  struct mjs *m = make(); mjs_val_t r = mjs_mk_undefined(), z = mjs_mk_undefined(); mjs_err_t e; char b[40]; int i;
  for (i = 0; i < 64; i++) bytes[i] = (signed char) (i * 7 + 1);
  ops = 0; budget = 2500;
  mjs_own(m, &r); mjs_own(m, &z);
  if (file) mjs_set_generate_jsc(m, 1);
  e = file ? mjs_exec_file(m, file, &r) : mjs_exec(m, src, &r);
  result(m, e, r);
  snprintf(b, sizeof(b), "\n%ld\n", ops); say(b);
  ops = 0; mjs_gc(m, 1);
  e = mjs_exec(m, "let zz=6*7;zz", &z); result(m, e, z);
  mjs_disown(m, &z); mjs_disown(m, &r);
  mjs_destroy(m);
  for (i = 0; i < 64; i++) if (bytes[i] != (signed char) (i * 7 + 1)) { snprintf(b, sizeof(b), " %d:%d", i, bytes[i]); say(b); }
}
/* the helpers of common/ and frozen/: "conversion|value" */
static void helpers(const char *t) {
  char f[16], g[64], b[400]; const char *v = strchr(t, '|'); long long ll; double d; int size, n, k; char last; uint8_t enc[16]; uint64_t dec = 0; size_t l = 0;
  char *j;
  if (v == NULL || v - t > 8) abort();
  memcpy(f, t, (size_t)(v - t)); f[v - t] = '\0'; v++; last = f[strlen(f) - 1];
  ll = strtoll(v, NULL, 10); d = strtod(v, NULL);
#define BOTH(type) \
  for (size = 0; size < 40; size += size < 24 ? 1 : 15) { \
    memset(b, '#', 64); n = c_snprintf(b, (size_t) size, g, (type) ll, 77); b[60] = 0; num(n); say(b); say(";"); } \
  snprintf(b, sizeof(b), "{a: %%%s, b: %%d}", f); j = json_asprintf(b, (type) ll, 77); say(j); \
  { type back = 0; int b77 = 0; n = json_scanf(j, (int) strlen(j), b, &back, &b77); num(n); say(" "); num((double) back); num(b77); } free(j)
  snprintf(g, sizeof(g), "<%%%s|%%d>", f);
  if (!strcmp(f, "lld")) { BOTH(long long); }
  else if (!strcmp(f, "ld")) { BOTH(long); }
  else if (!strcmp(f, "lu") || !strcmp(f, "lx")) { BOTH(unsigned long); }
  else if (!strcmp(f, "zu")) { BOTH(size_t); }
  else if (!strcmp(f, "d") || !strcmp(f, "07d") || !strcmp(f, "12d")) { BOTH(int); }
  else if (!strcmp(f, "u") || !strcmp(f, "x")) { BOTH(unsigned); }
  else if (!strcmp(f, "llu")) { uint64_t back = 0; j = json_asprintf("{a: %llu, b: %d}", (unsigned long long) ll, 77); say(j); json_scanf(j, (int) strlen(j), "{a: %llu}", &back); num(back == (uint64_t) ll); free(j); }
  else if (last == 'g' || last == 'f') { double back = 0; int b77 = 0; snprintf(b, sizeof(b), "{a: %%%s, b: %%d}", f); j = json_asprintf(b, d, 77); say(j); json_scanf(j, (int) strlen(j), "{a: %lf, b: %d}", &back, &b77); num(back); num(b77); free(j); }
  else if (!strcmp(f, "v")) {
    memset(enc, 0, sizeof(enc)); n = (int) cs_varint_encode((uint64_t) ll, enc, sizeof(enc)); num(n); num((double) cs_varint_llen((uint64_t) ll));
    for (k = 0; k < n; k++) { snprintf(b, sizeof(b), "%02x", enc[k]); say(b); }
    for (k = 0; k <= n; k++) { dec = 0; l = 0; num(cs_varint_decode(enc, (size_t) k, &dec, &l)); if (k == n) { num(dec == (uint64_t) ll); num((double) l); } }
  } else if (last == 's') {
    /* texts of any bytes */
    size_t m = strlen(v); char *hex = (char *) malloc(2 * m + 2), *buf = (char *) malloc(m + 1), *q = NULL; struct mg_str e, rest = mg_mk_str(v); const char *list = v; struct mg_str val, eq;
    n = c_snprintf(b, sizeof(b), "[%*s|%.*s|%c]", 5, v, 3, v, v[0] ? v[0] : '-'); num(n); say(b);
    cs_to_hex(hex, (const unsigned char *) v, m); hex[2 * m] = 0; say(hex); cs_from_hex(buf, hex, 2 * m); num(memcmp(buf, v, m) == 0);
    num(mg_casecmp(v, "ABC\xe9") > 0); num(mg_casecmp(v, "abc\xe9") < 0); num(mg_ncasecmp(v, "Ab", 2) > 0);
    for (k = 0; k < 5; k++) { static const char *P[] = {"a*", "?b*", "**,", "abc|*\xe9", "*|b"}; num((double) mg_match_prefix(P[k], (int) strlen(P[k]), v)); say(","); }
    while ((list = mg_next_comma_list_entry(list, &val, &eq)) != NULL) { say("("); put(val.p, val.len); say("="); if (eq.len) put(eq.p, eq.len); say(")"); }
    e = mg_strstrip(rest); num((double) e.len); num(mg_strcmp(rest, mg_mk_str("abc")) > 0); num(mg_vcmp(&rest, "b\xe9") < 0); num(mg_vcasecmp(&rest, "B\xe9") < 0);
    j = json_asprintf("{a: %Q, b: %.*Q, c: %H, d: %V}", v, (int) m, v, (int) m, v, v, (int) m); say(j);
    { char *x = NULL, *y = NULL, *z = NULL; int yl = 0, zl = 0; n = json_scanf(j, (int) strlen(j), "{a: %Q, c: %H, d: %V}", &x, &yl, &y, &z, &zl); num(n); say(x ? x : "NULL"); if (y) put(y, (size_t) yl); if (z) put(z, (size_t) zl); free(x); free(y); free(z); }
    n = json_walk(v, (int) m, NULL, NULL); num(n < 0 ? n : n == (int) m);
    free(j); free(hex); free(buf); free(q);
  } else abort();
}
static void one(const char *t, const char *dir) {
  if (t[0] == 's') script(t + 2, NULL);
  else if (t[0] == 'h') helpers(t + 2);
  else if (t[0] == 'a') { static char buf[1 << 16]; size_t n; ops = 0; budget = 2500; n = c22_api(t + 2, buf, sizeof(buf)); put(buf, n); }
  else if (t[0] == 'f') {
    FILE *fp; int i;
    if (mkdir(dir, 0777) != 0 && errno != EEXIST) abort();
    if (chdir(dir) != 0) abort();
    if ((fp = fopen("main.js", "wb")) == NULL) abort();
    fwrite(t + 2, 1, strlen(t + 2), fp); fclose(fp);
    if ((fp = fopen("lib.js", "wb")) == NULL) abort();
    fputs("let libvar=1;\nlet libf=function(x){return x.y.z;};\n'lib '+'value'", fp); fclose(fp);
    for (i = 0; i < 2; i++) script(NULL, "main.js");
    unlink("main.js"); unlink("lib.js"); unlink("main.jsc"); unlink("lib.jsc");
    if (chdir("/") != 0) abort();
    rmdir(dir);
  } else abort();
}
static int full(int fd, char *p, size_t n, int wr) {
  while (n > 0) { ssize_t k = wr ? write(fd, p, n) : read(fd, p, n); if (k <= 0) return 0; p += k; n -= k; }
  return 1;
}
int main(int argc, char *argv[]) {
  uint32_t n; int i, fd = memfd_create("out", MFD_CLOEXEC); char b[4096];
  if (argc < 2 || fd < 0) return 2;
  dup2(fd, 1);
  cs_log_set_level(-1);
  /* in the upper half of the address space where pointers have 32 bits */
  text = (char *) mmap(sizeof(void *) == 4 ? (void *) 0xd0000000u : NULL, TEXT + 1 + 128, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (text == (char *) MAP_FAILED) abort();
  bytes = (signed char *) text + TEXT + 1 + (64 - (TEXT + 1) % 8) % 8;
  for (i = 0; i < TEXT; i++) text[i] = (char) ('a' + (i + i / 26) % 26);
  text[TEXT] = '\0'; text[26 * 3 + 9] = '\0'; text[26 + 12] = '\0';
  while (full(3, (char *) &n, 4, 0)) {
    char *t = (char *) malloc(n + 1); off_t e, o; ssize_t k;
    if (t == NULL || !full(3, t, n, 0)) return 2;
    t[n] = '\0'; len = 0; say("");
    one(t, argv[1]);
    free(t);
    fflush(stdout); e = lseek(fd, 0, SEEK_END); say("\nout: ");
    for (o = 0; o < e && (k = pread(fd, b, sizeof(b), o)) > 0; o += k) put(b, (size_t) k);
    if (ftruncate(fd, 0) != 0) return 2;
    lseek(fd, 0, SEEK_SET);
    n = (uint32_t) len;
    if (!full(4, (char *) &n, 4, 1) || !full(4, out, n, 1)) return 2;
  }
  return 0;
}
