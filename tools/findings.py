"""Writes known_findings.json: the repaired defects (they suppress nothing) and, if any, the recorded ones."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# commit, property, input which failed, what failed
FIXED = [l.split(' | ') for l in '''
83673c4 | C02 | f(g({})) with a collection inside g | this of a call being prepared was not a root of the collector
f7ae628 | C15 | mjs_apply(m, &r, native, ...) | the frame of a native callee stayed on the stacks
2633745 | C04 | a script function called by mjs_apply whose native callee calls scripts itself | this was replaced with a stale value
3ad5706 | C14 | load() of a file with a top-level return, from inside a function | return popped the frame of the caller
0d0347f | C04 | for(...){ f(); } with function f which executes break outside of a loop | break / continue left the loop of the caller
09eccaf | C03 | let b = (a += 1) | compound assignment evaluated to the old value
d3084df | C03 | 0 === -0 | false
4b3fb06 | C11 | typeof ffi('...'), JSON.stringify of it, if (f) | abort or garbage for imported functions
0a12b43 | C08 | JSON.parse('{"":1}'), keys ending in a dot, deep paths | wrong keys, lost values
54f358c | C08 | JSON.parse of a truncated escape | read past the end of the string
c608659 | C08 | JSON.parse('{"\\\\n":1}') | escapes in keys were kept
56ad014 | C19 | JSON.parse of a string with an unsupported escape | leaked the buffer
a1a8b70 | C08 | JSON.stringify({'a"b':1}) | keys were not escaped
09d9edd | C08 | JSON.stringify('\\v') | emitted \\v, which is not JSON
251152b | C03 | 9223372036854775808 | integer literals of 2^63 and more were negative
500c65d | C08 | JSON.stringify(0.1 + 0.2), 1e21, 123456789012 | digits were lost
c3e5a92 | C03 | {'a\\n': 1} | escapes in keys of object literals were kept
d6ec34e | C01 | 200 blocks one after another | taken for nested ones and rejected
cba588c | C10 | an error on the last line | wrong line number
560b18f | C10 | an error after code whose offsets needed a longer encoding | wrong line number
afdf845 | C02 | gc(true) as last statement with a live string | evaluated to a relocated string
6683afa | C09 | o.m() which fails, then `this` | this of the failed call stayed
adcfee6 | C15 | mjs_disown with nothing owned | read before the start of the list
820d92a | C19 | 1[2] = 3 | leaked the key
7197642 | C05 | mjs_set with a foreign string as value used as a name | the name dangled
724c576 | C07 | 'a\\0b' === 'a\\0c' | compared up to the NUL
5cfbafc | C05 | a.__p = b; b.__p = a; a.x | never terminated
f2f61b8 | C07 | 'abc'['len'] , [1].lengthy | prefixes of builtin names matched
695c6f9 | C17 | s2o with a NULL char pointer | crash
21ca9b0 | C14 | a read error in cs_read_file | file handle leaked
9d35334 | C14 | a truncated or partially written .jsc | was executed
931f3b6 | C14 | a failing mmap | descriptor leaked
3798884 | C14 | load('a.js\\0x') | loaded a.js
d31e701 | C12 | a callback with an int argument of -1 | got 4294967295
ea6070b | C11 | f({}) for int f(int) | the C function was called with garbage
98470b4 | C11 | ffi('int f(float, double, ...)') | abort or wrong call
12f7bcc | C12 | callback with a double and three arguments | called with wrong arguments
b6a5b0e | C12 | a signature with a wrong callback type | the rest of a failed parse was used
9ac72ff | C03 | a[0] += 1, a[0]++ | wrong element or nothing was changed
eec0121 | C05 | o.x += 1 with x inherited | changed the prototype
ad86221 | C01 | while (1) { a; | accepted
8ccb528 | C01 | return + ; | accepted with unbalanced stack
a23296b | C04 | if (x) return {a:1}; | parsed as a block
2b7a56f | C01 | function() 1 | accepted, executed garbage
2dcf93f | C01 | 100000 nested parentheses | stack overflow of the parser
9de4c0b | C04 | if (a) b; else c; | syntax error
f66fa38 | C04 | let inside of a loop body | redeclaration error or shared variable in the second iteration
df00023 | C11 | f('x') for double f(double) | the C function was called with garbage
769a965 | C11 | double f(float, float) and float f(double) | wrong registers
f6c9afa | C11 | ffi of a function name of 100 characters | another function was looked up
c8cbc2c | C15 | mjs_apply of a native after a failed script | returned the old error
ae19ba4 | C16 | c_snprintf("%05d", -1), %lld of INT64_MIN | wrong padding, digits
3d5a98e | C16 | c_snprintf("%5.0s", "a") | wrong padding and precision
6f164e5 | C16 | mg_strcmp("\\x80", "a") | signed comparison
500f722 | C15 | mjs_sprintf of an empty string | the buffer was not terminated
f3dcb2a | C10 | an error inside a nested mjs_exec | calls named twice in the trace
a6f8e5a | C10 | a syntax error after a runtime error | printed with the old trace
ea1e177 | C14 | two instances with one cache file | the mapped file was overwritten in place
813c2ae | C14 | a failing function of a file which was loaded | the file was executed again by the next load
80e337a | C14 | ftell / fstat failing | huge allocation or crash
93c157a | C03 | a += nope | the operand was overwritten
11f71d4 | C17 | DataView.create(p, 4, 4).getUint8(-1) | read before the view
5905c17 | C10 | mjs_exec_file of a missing file after another error | message and trace of the earlier error were included
ab19253 | C08 | JSON.parse of 100000 nested arrays | stack overflow
fe230ae | C02 | for(let k in a){a.splice(0,a.length);gc(true);...} | use of freed property memory, the outcome depended on collections
7a7d76b | C06 | a=[1,2];a['07']='named';a.length | 8, push wrote element 8
115b27c | C06 | mjs_array_set with indices of 20 digits | the last digit was dropped: two indices were one element
2128e35 | C20 | mjs -l 5 two.js in a build with MJS_ENABLE_DEBUG | the disassembler read the last byte of a line map as an instruction, past the end of the code
ed3746c | C21 | Math.max(NaN, 1) | NaN: C functions were given signaling NaNs
c092ac6 | C21 | File.write when the file system is full | never returned
7a73429 | C11 | ffi('int (*cap)(int)')(1) | a signature whose name is a function pointer was accepted and the call aborted; parameters written as functions were taken as callbacks
73f2ec8 | C22 | every program with a defect repaired in src, built from mjs_no_common.c | mjs_no_common.c was not generated from the sources
cf76f72 | C23 | json_walk of a quote and a backslash | the byte behind the text was read
f3b1638 | C23 | json_printf %Q of the bytes 1f, 0b, e2 | wrong digits, an escape which JSON does not have, bytes behind the string
7cb4797 | C23 | json_printf "[%e, %d]", "[%ld, %d]", "%%", "%*d", "%p" | later conversions took wrong arguments
0ef4176 | C23 | json_unescape of u00zz after a backslash and of a backslash before a NUL | accepted
ca75f92 | C23 | json_scanf "{a: {b: %d}, c: %d}" | keys after the inner object were looked up in it
1089c23 | C23 | json_setf of a string, into {} or [], at .ab beside .a | the text was not JSON any more or another value changed
651cf5a | C23 | json_next_key at .a beside the key ab | members of the other object were visited
72dde38 | C24 | 'abc'.at(1e10), 'abc'.slice(-1e15) in a 32-bit build by gcc | another result than with 64 bits (undefined conversion)
'''.strip().splitlines()]
KNOWN = []   # {property, input (exact text of the case), what}
out = []
for c, p, i, w in FIXED:
    out.append({'property': p, 'status': 'fixed', 'commit': c, 'input': i, 'what': w, 'text': 'fixed: property=%s %s %s' % (p, c, w)})
for p, i, w in KNOWN:
    out.append({'property': p, 'status': 'known', 'input': i, 'what': w})
json.dump(out, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
