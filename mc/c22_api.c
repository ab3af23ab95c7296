/*
 * Runs a sequence of one-letter operations on a stack of values with the public
 * C API. Compiled against the headers of src or, with API_AMAL, against mjs.h.
 */
#include <stdbool.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef API_AMAL
#include "mjs.h"
#else
#include "mjs_core_public.h"
#include "mjs_array_public.h"
#include "mjs_exec_public.h"
#include "mjs_ffi_public.h"
#include "mjs_gc_public.h"
#include "mjs_object_public.h"
#include "mjs_primitive_public.h"
#include "mjs_string_public.h"
#include "mjs_util_public.h"
#endif

static char *out;
static size_t cap, len;
static void put(const char *p, size_t n) {
  if (n > cap - len) n = cap - len;
  memcpy(out + len, p, n);
  len += n;
}
static void say(const char *s) { put(s, strlen(s)); put(";", 1); }
static void num(double d) { char b[64]; snprintf(b, sizeof(b), "%.17g", d == 0 ? 0 : d); say(b); }

static void show(struct mjs *m, mjs_val_t v) {
  char b[80];
  int kinds = (mjs_is_number(v) << 0) | (mjs_is_string(v) << 1) | (mjs_is_boolean(v) << 2) | (mjs_is_object(v) << 3) | (mjs_is_array(v) << 4) | (mjs_is_null(v) << 5) |
              (mjs_is_undefined(v) << 6) | (mjs_is_function(v) << 7) | (mjs_is_foreign(v) << 8);
  num(kinds);
  say(mjs_typeof(v));
  if (!mjs_is_foreign(v)) { mjs_sprintf(v, m, b, sizeof(b)); say(b); }
  if (mjs_is_string(v)) { size_t n; const char *p = mjs_get_string(m, &v, &n); put(p, n); num(n); say(mjs_get_cstring(m, &v) ? "c" : "-"); { int x = mjs_strcmp(m, &v, "long string of it", ~0); num((x > 0) - (x < 0)); } }
  if (mjs_is_number(v)) { num(mjs_get_double(m, v)); num(mjs_get_int(m, v)); num(mjs_get_int32(m, v)); }
  if (mjs_is_boolean(v)) num(mjs_get_bool(m, v));
  if (mjs_is_array(v)) num(mjs_array_length(m, v));
}
static void native(struct mjs *m) {
  int i, n = mjs_nargs(m);
  mjs_val_t r = mjs_mk_array(m);
  mjs_own(m, &r);
  for (i = 0; i < n; i++) mjs_array_push(m, r, mjs_arg(m, i));
  mjs_array_push(m, r, mjs_get_this(m));
  mjs_disown(m, &r);
  mjs_return(m, r);
}
static void failing(struct mjs *m) { mjs_set_errorf(m, MJS_BAD_ARGS_ERROR, "native failure %d", mjs_nargs(m)); mjs_prepend_errorf(m, MJS_TYPE_ERROR, "%s", "prefix"); mjs_return(m, mjs_mk_undefined()); }

struct sub { int8_t b; const char *s; };
struct whole { int a; double d; uint16_t h; float f; struct sub sub; const char *p; bool t; int8_t c; };
static const struct mjs_c_struct_member sub_def[] = {
  {"b", offsetof(struct sub, b), MJS_STRUCT_FIELD_TYPE_INT8, NULL}, {"text of it", offsetof(struct sub, s), MJS_STRUCT_FIELD_TYPE_CHAR_PTR, NULL}, {NULL, 0, MJS_STRUCT_FIELD_TYPE_INVALID, NULL}};
static const struct mjs_c_struct_member whole_def[] = {
  {"a", offsetof(struct whole, a), MJS_STRUCT_FIELD_TYPE_INT, NULL}, {"d", offsetof(struct whole, d), MJS_STRUCT_FIELD_TYPE_DOUBLE, NULL},
  {"h", offsetof(struct whole, h), MJS_STRUCT_FIELD_TYPE_UINT16, NULL}, {"f", offsetof(struct whole, f), MJS_STRUCT_FIELD_TYPE_FLOAT, NULL},
  {"sub", offsetof(struct whole, sub), MJS_STRUCT_FIELD_TYPE_STRUCT, sub_def}, {"p", offsetof(struct whole, p), MJS_STRUCT_FIELD_TYPE_CHAR_PTR, NULL},
  {"t", offsetof(struct whole, t), MJS_STRUCT_FIELD_TYPE_BOOL, NULL}, {"c", offsetof(struct whole, c), MJS_STRUCT_FIELD_TYPE_INT8, NULL}, {NULL, 0, MJS_STRUCT_FIELD_TYPE_INVALID, NULL}};
static struct whole sample = {-7, 2.5, 65000, 0.25f, {-3, "the inner text"}, "short", 1, 100};

#define STACK 12
size_t c22_api(const char *ops, char *buf, size_t size) {
  struct mjs *m = mjs_create();
  mjs_val_t st[STACK], r = mjs_mk_undefined(), g = mjs_get_global(m);
  int n = 0, i, counter = 0;
  out = buf; cap = size; len = 0;
  for (i = 0; i < STACK; i++) { st[i] = mjs_mk_undefined(); mjs_own(m, &st[i]); }
  mjs_own(m, &r);
  for (; *ops != 0; ops++) {
    mjs_val_t top = n > 0 ? st[n - 1] : g, below = n > 1 ? st[n - 2] : g, third = n > 2 ? st[n - 3] : g, v = mjs_mk_undefined();
    mjs_err_t e = MJS_OK;
    int push = 0;
    switch (*ops) {
      case '1': v = mjs_mk_number(m, ++counter * 1.5); push = 1; break;
      case '0': v = mjs_mk_number(m, 0); push = 1; break;
      case 'e': v = mjs_mk_string(m, "", 0, 1); push = 1; break;
      case 's': v = mjs_mk_string(m, "abc", ~0, 1); push = 1; break;
      case '5': v = mjs_mk_string(m, "five5", 5, 1); push = 1; break;
      case 'l': v = mjs_mk_string(m, "long string of it", ~0, 1); push = 1; break;
      case 'f': v = mjs_mk_string(m, "foreign\0string", 14, 0); push = 1; break;
      case 'o': v = mjs_mk_object(m); push = 1; break;
      case 'a': v = mjs_mk_array(m); push = 1; break;
      case 'u': push = 1; break;
      case 'n': v = mjs_mk_null(); push = 1; break;
      case 'b': v = mjs_mk_boolean(m, counter & 1); push = 1; break;
      case 'N': v = mjs_mk_foreign_func(m, (mjs_func_ptr_t) native); push = 1; break;
      case 'E': v = mjs_mk_foreign_func(m, (mjs_func_ptr_t) failing); push = 1; break;
      case 'p': v = mjs_mk_foreign(m, &sample); push = 1; break;
      case 'F': e = mjs_exec(m, "let last = function(a, b) { return [b, a, this === undefined ? 'none' : typeof this]; }; last", &v); num(e); push = 1; break;
      case 'T': e = mjs_exec(m, "let thrower = function(a) { let deep = function() { return a.b.c; }; return deep(); }; thrower", &v); num(e); push = 1; break;
      case 'M': v = mjs_struct_to_obj(m, &sample, whole_def); push = 1; break;
      case 'd': if (n > 0) n--; break;
      case '=': num(mjs_set(m, below, "key", ~0, top)); break;
      case 'K': num(mjs_set(m, below, "key and more", 5, top)); break;
      case ':': num(mjs_set_v(m, third, below, top)); break;
      case '.': v = mjs_get(m, top, "key", ~0); push = 1; break;
      case '[': v = mjs_get_v(m, below, top); push = 1; break;
      case '^': v = mjs_get_v_proto(m, below, top); push = 1; break;
      case '-': num(mjs_del(m, top, "key", ~0)); break;
      case 'A': if (mjs_is_array(below)) num(mjs_array_push(m, below, top)); break;
      case 'S': if (mjs_is_array(below)) num(mjs_array_set(m, below, 3, top)); break;
      case 'G': if (mjs_is_array(top)) { v = mjs_array_get(m, top, 0); push = 1; } break;
      case 'D': if (mjs_is_array(top)) mjs_array_del(m, top, 0); break;
      case '>': { mjs_val_t it = mjs_mk_undefined(), k; if (mjs_is_object(top)) while ((k = mjs_next(m, top, &it)) != mjs_mk_undefined()) show(m, k); break; }
      case 'c': if (mjs_is_foreign(top) && mjs_get_ptr(m, top) == &sample) break; e = mjs_call(m, &r, top, below, 2, third, below); num(e); if (e) { say(mjs_strerror(m, e)); v = mjs_mk_undefined(); } else v = r; push = 1; break;
      case 'y': if (mjs_is_foreign(below) && mjs_get_ptr(m, below) == &sample) break; e = mjs_apply(m, &r, below, mjs_mk_undefined(), n > 2 ? 3 : 0, n > 2 ? st + n - 3 : NULL); num(e); if (e) say(mjs_strerror(m, e)); else v = r; push = 1; break;
      case 'x': mjs_set(m, g, "x", ~0, top); e = mjs_exec(m, "JSON.stringify([x, typeof x])", &r); num(e); if (e) say(mjs_strerror(m, e)); else show(m, r); break;
      case 'X': mjs_set(m, g, "x", ~0, top); e = mjs_exec(m, "\n x.key(1)", &r); num(e); if (e) { char *t = NULL; size_t tn = 0; FILE *fp = open_memstream(&t, &tn); mjs_print_error(m, fp, "while running", 1); fclose(fp); put(t, tn); free(t); } else show(m, r); break;
      case 'j': { char *p = NULL; break; (void) p; }
      case 'g': mjs_gc(m, 1); break;
      case 'w': num(mjs_disown(m, &st[n > 0 ? n - 1 : 0])); mjs_own(m, &st[n > 0 ? n - 1 : 0]); break;
      case 'W': num(mjs_disown(m, &v)); break;
    }
    if (push && n < STACK) st[n++] = v;
    if (n > 0) show(m, st[n - 1]);
  }
  for (i = n; i-- > 0;) show(m, st[i]);
  for (i = 0; i < STACK; i++) num(mjs_disown(m, &st[i]));
  mjs_disown(m, &r);
  mjs_destroy(m);
  return len;
}
