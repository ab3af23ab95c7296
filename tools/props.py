# Writes /verif/properties.jsonl
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': state or [], 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': observe, 'hook_needed': hook}})

p('C01', 'Any source text is executed or rejected safely',
  'Executing any source text, well-formed or not, ends with a result or with an error code; it never touches memory the engine does not own, never aborts the process and never hangs in the parser. A text which is rejected by the parser has no side effects: nothing of it is executed and the instance behaves afterwards as if the text had not been given to it.',
  ['inputs'], 'all token sequences and byte strings up to a length bound, and all truncations / one-token edits of a corpus of programs which uses every language construct',
  'The unit tests feed some dozens of malformed programs; a parser or bytecode generator bug needs one particular malformed combination.',
  ['src/mjs_tok.c', 'src/mjs_parser.c', 'src/mjs_bcode.c', 'src/mjs_exec.c'],
  [('tokenizer bounds', 'src/mjs_tok.c'), ('recursive descent with error propagation', 'src/mjs_parser.c: parse_* / SYNTAX_ERROR'), ('jump patching', 'src/mjs_bcode.c: mbuf_insert and varints')],
  ['return code of mjs_exec()', 'observations made by a native function', 'AddressSanitizer'])
p('C02', 'Garbage collection is transparent',
  'Whenever garbage collection runs - between any two operations of a script, inside a native function or a callback, explicitly or automatically - the results, errors and side effects of the program are the same as without it. Values which are reachable from script variables, from the operation being executed, from running calls or from C variables registered as owned keep their contents and identity.',
  ['schedules', 'programs'], 'all placements of one collection (thorough: of every pair of collections, and collections at every point) among the operations of every program of a bounded corpus',
  'The tests collect at a few hand-written gc(true) calls and, in one build, before every operation; a missed root shows only if a collection falls on the exact operation during which the value has no other reference.',
  ['src/mjs_gc.c', 'src/mjs_exec.c', 'src/mjs_string.c', 'src/mjs_object.c', 'src/mjs_array.c', 'src/mjs_json.c', 'src/mjs_ffi.c', 'src/mjs_core.c'],
  [('root set', 'src/mjs_gc.c: mjs_gc()'), ('string compaction with relocation of references', 'src/mjs_gc.c: gc_compact_strings()'), ('free lists of the arenas', 'src/mjs_gc.c: gc_sweep()'), ('ownership of C variables', 'src/mjs_core.c: mjs_own()')],
  ['script results', 'native observer', 'C variables registered with mjs_own()'], hook='mjs_verif_point() after every executed operation')
p('C03', 'Expressions evaluate to the documented values',
  'Every expression built from literals, variables, properties, calls and the operators (arithmetic, bitwise, comparison, logical, conditional, typeof, assignment, compound assignment, increment, decrement) evaluates, with the precedence, associativity, short-circuiting and left-to-right order of JavaScript, to the value JavaScript defines (bitwise operators for 32 bit integers, % for integers). Mixing operand types which mJS does not convert is reported as a type error, == and != as not implemented, an unknown variable as a reference error, and then no assignment has happened.',
  ['programs', 'inputs'], 'all expressions of a bounded grammar: every operator on every pair of operand kinds, every operator pair (and triple), every assignment form, number and string literals at all encoding boundaries',
  'The tests contain some hundred expressions; operator x operand kind x nesting has many thousand combinations.',
  ['src/mjs_parser.c', 'src/mjs_exec.c', 'src/mjs_tok.c', 'src/mjs_conversion.c', 'src/mjs_primitive.c', 'src/mjs_bcode.c'],
  [('operator precedence climbing', 'src/mjs_parser.c'), ('do_op / exec_expr', 'src/mjs_exec.c'), ('literals and varints', 'src/mjs_tok.c, src/mjs_bcode.c')],
  ['value of the script', 'native observer'])
p('C04', 'Control flow, scopes, functions and this',
  'Programs made of blocks, let, if/else, while, for, for-in, break, continue, return, function calls (including recursion, functions as values, methods and apply) execute the statements JavaScript would execute, in the same order. Variables are visible exactly in their block, arguments are passed by position with missing ones undefined, and this is the object a method was called on (undefined for a plain call), also after nested calls.',
  ['programs'], 'all programs of a bounded statement grammar: statement nestings to a depth, jump statements at every place, call graphs of bounded size',
  'Wrong jump targets, scopes which are not left and a stale this depend on how constructs are nested; tests try single nestings.',
  ['src/mjs_parser.c', 'src/mjs_exec.c', 'src/mjs_bcode.c'],
  [('loop address stack', 'src/mjs_exec.c: OP_LOOP/OP_BREAK/OP_CONTINUE'), ('scope stack', 'src/mjs_exec.c: OP_NEW_SCOPE/OP_DEL_SCOPE'), ('call stack and this', 'src/mjs_exec.c: call_stack_push_frame'), ('jump patching', 'src/mjs_parser.c')],
  ['native observer', 'value of the script'])
p('C05', 'Objects and prototype chains behave as maps',
  'An object is a map from property names to values: reading returns the value most recently written under exactly that name (names of any length and content), otherwise that of the nearest prototype which has it, otherwise undefined; writing and compound assignment change only the object itself. for-in visits every own property exactly once, aliases see the same object, and removing a property through the C API removes exactly that one.',
  ['histories', 'inputs'], 'all sequences of reads, writes, deletions, enumerations and prototype changes up to a depth over several aliased objects and names at all boundary lengths',
  'Tests use short histories with a few short names.',
  ['src/mjs_object.c', 'src/mjs_exec.c', 'src/mjs_string.c'],
  [('property list', 'src/mjs_object.c: mjs_set_internal, mjs_get_own_property, mjs_del'), ('prototype walk', 'src/mjs_object.c: mjs_get_v_proto'), ('iteration', 'src/mjs_object.c: mjs_next')],
  ['script', 'mjs_get/mjs_set/mjs_del/mjs_next'])
p('C06', 'Arrays behave as sequences',
  'An array is a sequence indexed from 0: push appends its arguments in order, length is one more than the largest index written, indexing returns the element last stored there (undefined beyond), and splice removes and inserts as JavaScript defines, returning the removed elements. The C functions for arrays agree with the script operations on the same array.',
  ['histories'], 'all sequences of array operations (script and C API) up to a depth with all in-range, boundary and out-of-range arguments',
  'Tests cover a handful of splice calls on three-element arrays.',
  ['src/mjs_array.c', 'src/mjs_exec.c', 'src/mjs_object.c'],
  [('array as object with numeric keys', 'src/mjs_array.c'), ('splice by shifting', 'src/mjs_array.c: mjs_array_splice')],
  ['script', 'mjs_array_*'])
p('C07', 'Strings are immutable byte sequences in every representation',
  'Strings of any length and content, however they came into being (literal, concatenation, slice, chr, JSON, C API with or without copying), behave as byte sequences: length, indexing, at, slice, indexOf, concatenation, === and use as a property name depend only on their bytes. A string value never changes while other strings are created, collected or the string storage is moved.',
  ['inputs', 'histories'], 'all pairs of construction route x operation x boundary length (0, 1, 4, 5, 6, 127, 128, 16383, 16384, ...) x argument position, and histories which force moves of the string storage',
  'Tests use a few short strings; the representation switches at lengths 5/6 and the encoding of lengths at 127/128 and 16383/16384.',
  ['src/mjs_string.c', 'src/mjs_exec.c', 'src/common/cs_varint.c', 'src/common/mbuf.c', 'src/mjs_gc.c'],
  [('inlined strings', 'src/mjs_string.c: mjs_mk_string'), ('length varint', 'src/common/cs_varint.c'), ('storage growth and relocation', 'src/mjs_string.c: embed_string')],
  ['script', 'mjs_mk_string/mjs_get_string/mjs_get_cstring/mjs_strcmp'])
p('C08', 'JSON conversion is faithful',
  'JSON.parse of any valid JSON text (ASCII) yields the value it denotes, and reports an error for a text which is cut short; JSON.stringify of any acyclic value yields valid JSON which denotes that value (functions and undefined skipped in objects, null in arrays, non-finite numbers null), and a cyclic reference ends in a finite text. Parsing what was stringified gives back an equal value.',
  ['inputs'], 'all JSON texts of a bounded grammar (every escape, number shape, nesting of empty and non-empty containers, whitespace), all their truncations, and all value trees of bounded size over boundary keys and strings',
  'Tests convert about thirty texts.',
  ['src/mjs_json.c', 'src/frozen/frozen.c'],
  [('incremental tree builder', 'src/mjs_json.c: frozen_cb'), ('frozen parser', 'src/frozen/frozen.c'), ('writer with cycle detection', 'src/mjs_json.c: to_json_or_debug')],
  ['JSON.parse, JSON.stringify'])
p('C09', 'A run-time error ends the script cleanly',
  'When an error is raised - at any operation of a script, in a native function, inside nested calls, loops, apply, load or callbacks - execution stops there: nothing after it takes effect, everything before it stays, and mjs_exec/mjs_call return that error with its message. The same instance then executes further scripts as if it had not failed: globals keep their values, and no stale scope, loop, this or stack content is visible.',
  ['fault_sequences', 'programs'], 'an error injected at every single operation of every program of a bounded corpus, followed by a probe script; sequences of two failures',
  'Tests check the error code of some failing scripts and seldom continue to use the instance.',
  ['src/mjs_exec.c', 'src/mjs_core.c', 'src/mjs_ffi.c', 'src/mjs_builtin.c'],
  [('stack unwinding', 'src/mjs_exec.c: mjs_execute, restore stack lengths'), ('nested execution', 'src/mjs_exec.c: mjs_apply'), ('message prepending', 'src/mjs_core.c')],
  ['return codes', 'native observer', 'later scripts'], hook='mjs_verif_point()')
p('C10', 'Errors are attributed to the right source line',
  'For an error at run time the stack trace names, innermost first, the file and the line of the failing operation and of every active call; for a syntax error the message names the line of the offending token. This does not depend on how many lines, comments or statements precede it, on the size of the code or on the nesting.',
  ['programs', 'inputs'], 'the failing statement placed at every statement position of bounded programs, with every preceding padding of lines and code around the encoding boundaries, and call chains to a depth',
  'Tests check a few fixed traces.',
  ['src/mjs_parser.c', 'src/mjs_util.c', 'src/mjs_bcode.c', 'src/mjs_core.c'],
  [('line number map', 'src/mjs_bcode.c: add_lineno_map_item'), ('lookup', 'src/mjs_util.c: mjs_get_lineno_by_offset'), ('trace', 'src/mjs_core.c: mjs_gen_stack_trace')],
  ['mjs_print_error / stack trace', 'mjs_strerror'])
p('C11', 'FFI calls pass and return exact values',
  'A C function imported by a signature of int, bool, double, float, char* , void* or struct mg_str* arguments (up to six) is called exactly once per call, with each argument converted to the C value of the corresponding script value, and its result is converted back exactly. A call with a wrong number or kind of arguments, and a signature which is malformed or not supported, is a script error and the C function is not called.',
  ['inputs'], 'all signatures with up to six arguments over the argument kinds and return kinds the call layer distinguishes, with distinct boundary values at every position; all malformed signatures of a bounded grammar',
  'Tests call about thirty fixed signatures.',
  ['src/mjs_ffi.c', 'src/ffi/ffi.c'],
  [('signature parser', 'src/mjs_ffi.c: mjs_parse_ffi_signature'), ('argument conversion', 'src/mjs_ffi.c: mjs_ffi_call2'), ('call by shape', 'src/ffi/ffi.c: ffi_call')],
  ['recording C functions', 'script results'])
p('C12', 'FFI callbacks reach the right script function',
  'A script function passed to C as a callback can be called by C at any time, any number of times, until it is freed, also after the importing call has returned, re-entrantly, and after garbage collection: every call runs that function with that userdata and the exact arguments, and its result is converted back exactly. ffi_cb_free frees exactly the given (function, userdata) registration and reports whether there was one; an error in a callback does not disturb its C caller.',
  ['histories', 'schedules'], 'all histories of register / call / re-register / free / collect operations up to a depth over several functions, userdata values and callback shapes',
  'Tests register and call callbacks in one fixed order.',
  ['src/mjs_ffi.c', 'src/mjs_gc.c'],
  [('callback trampolines', 'src/mjs_ffi.c: ffi_cb_impl_*'), ('registration list', 'src/mjs_ffi.c: ffi_get_matching, mjs_ffi_cb_free'), ('roots', 'src/mjs_gc.c: gc_mark_ffi_cbargs_list')],
  ['C side callers', 'script'])
p('C13', 'Behaviour does not depend on where code lies or how large it is',
  'A construct behaves the same wherever it stands in the code: at the start of a script or after any amount of other code, as the first script of an instance or a later one, and with a body of any size. In particular crossing a size at which jump distances, string lengths or code offsets need a longer encoding changes nothing.',
  ['programs', 'configurations'], 'every jump-bearing construct with code padding swept over all sizes around each encoding boundary, before and inside it, nested two deep, also as a later script, for each supported initial offset size',
  'Tests have a few large functions; only exact sizes around the boundaries exercise the re-encoding.',
  ['src/mjs_bcode.c', 'src/mjs_parser.c', 'src/common/cs_varint.c', 'src/mjs_exec.c'],
  [('mjs_bcode_insert_offset', 'src/mjs_bcode.c'), ('bcode parts', 'src/mjs_bcode.c: mjs_bcode_part_get_by_offset')],
  ['native observer'])
p('C14', 'load() and cached bytecode give the result of the source',
  'load(file) executes a file once per instance in the global scope (again if it failed before or if a scope object is given, whose properties it then sees), and functions of a loaded file keep working when called from other files. With bytecode caching enabled, a missing, stale, truncated, corrupted or unwritable cache file, and a crash while it is being written, never change what running the source gives.',
  ['histories', 'crash_points', 'fault_sequences'], 'all sequences of load operations over several files up to a depth; all previous cache contents (every truncation point, every single corrupted byte) and every failing file operation',
  'Tests run each file with caching on, without any prior bad cache or I/O error.',
  ['src/mjs_builtin.c', 'src/mjs_exec.c', 'src/common/cs_file.c', 'src/mjs_bcode.c'],
  [('loaded file lookup', 'src/mjs_builtin.c: mjs_load'), ('cache write and check', 'src/mjs_exec.c: mjs_exec_internal')],
  ['native observer', 'files in a scratch directory'])
p('C15', 'The C API embeds values and calls faithfully',
  'Values made through the C API have the type and contents they were made with and only those; mjs_call and mjs_apply run the given function (script, native or method) with exactly the given arguments and this and return its result, also when called from native functions called by scripts. mjs_own / mjs_disown may be used in any order and number and mjs_disown reports whether the variable was owned.',
  ['histories', 'inputs'], 'all histories of value creation, own/disown, set/get/delete, call and collect operations up to a depth',
  'Tests use a few fixed sequences.',
  ['src/mjs_core.c', 'src/mjs_primitive.c', 'src/mjs_object.c', 'src/mjs_exec.c', 'src/mjs_conversion.c', 'src/mjs_util.c'],
  [('NaN boxing', 'src/mjs_primitive.c'), ('ownership list', 'src/mjs_core.c'), ('nested execution', 'src/mjs_exec.c: mjs_apply')],
  ['C API'])
p('C16', 'Buffers, varints and string helpers are exact',
  'mbuf is a byte sequence under init, append, insert, remove, trim, resize and move; varint decoding inverts encoding for every value and reports exactly the bytes used; mg_str comparison, search and duplication, and c_snprintf (for the conversions it supports, any width, precision and buffer size) do what their libc equivalents do, never writing beyond the given size.',
  ['histories', 'inputs'], 'all operation sequences up to a depth on small buffers; all values around every encoding boundary; all format directives of a bounded grammar with boundary values and all buffer sizes',
  'Tests cover them only indirectly.',
  ['src/common/mbuf.c', 'src/common/cs_varint.c', 'src/common/mg_str.c', 'src/common/str_util.c'],
  [('mbuf', 'src/common/mbuf.c'), ('varint', 'src/common/cs_varint.c'), ('c_vsnprintf', 'src/common/str_util.c'), ('mg_strstr', 'src/common/mg_str.c')],
  ['C API'])
p('C17', 'Scripts see C memory and structs exactly',
  'mjs_struct_to_obj (and s2o) presents every described field of a C struct - nested structs, pointers, strings, numbers of each width and sign, doubles, floats, custom getters - with its exact value. Raw memory access from scripts (pointer indexing, mkstr, the DataView style byte accessors for 8, 16 and 32 bit integers in both byte orders) reads and writes exactly the addressed bytes.',
  ['inputs'], 'all field kinds x boundary values x nesting, all offsets x widths x byte orders x boundary values',
  'Tests convert one struct.',
  ['src/mjs_object.c', 'src/mjs_dataview.c', 'src/mjs_exec.c', 'src/mjs_string.c'],
  [('mjs_struct_to_obj', 'src/mjs_object.c'), ('mjs_mem_to_ptr/mjs_mem_get/set', 'src/mjs_dataview.c')],
  ['script and C memory'])
p('C18', 'Instances are isolated from each other',
  'Several instances in one process do not influence each other: however their execution is interleaved - nested through native functions, or on different threads with one thread per instance - each computes exactly what it computes alone, including errors, garbage collection, callbacks and loaded files.',
  ['schedules'], 'all interleavings of two (three) instances at operation granularity up to a preemption bound, for all pairs of a program corpus, and nested execution at every operation',
  'Tests run one instance at a time.',
  ['src/mjs_core.c', 'src/mjs_exec.c', 'src/mjs_gc.c', 'src/mjs_parser.c', 'src/mjs_json.c', 'src/mjs_ffi.c', 'src/frozen/frozen.c'],
  [('no shared mutable state', 'struct mjs in src/mjs_core.h')],
  ['results of each instance'], hook='mjs_verif_point() as scheduling point')
p('C19', 'Memory is reclaimed',
  'Destroying an instance releases everything it allocated, whatever it executed, however it failed and at whatever point garbage was collected. While an instance lives, garbage does not accumulate: after a full collection the memory in use does not grow with the number of times a function which keeps nothing has been called, nor with how much it held while it ran.',
  ['programs', 'fault_sequences'], 'every program of the corpus and every malformed program of a bounded grammar, with an error injected at every operation; repetitions of every program with collections',
  'The tests only look at leaks of programs which succeed.',
  ['src/mjs_core.c', 'src/mjs_gc.c', 'src/mjs_parser.c', 'src/mjs_exec.c', 'src/mjs_json.c', 'src/mjs_ffi.c', 'src/mjs_object.c'],
  [('mjs_destroy', 'src/mjs_core.c'), ('error paths', 'src/mjs_json.c, src/mjs_ffi.c'), ('sweep', 'src/mjs_gc.c')],
  ['allocated bytes before mjs_create and after mjs_destroy'], hook='mjs_verif_point()')
p('C20', 'The mjs program and print() show exactly what scripts compute',
  'The mjs program executes its -e, -f and file arguments in the given order in one instance, stops at the first one which fails, and writes to stdout exactly what the scripts print, then the last result, or the stack trace and the message of the error; an unknown option ends it with a failure status. Printing (print(), mjs_fprintf, mjs_sprintf, results) gives the text of each value: integers in decimal, other numbers with digits which read back as the same number, strings byte by byte with unprintable bytes as \\xNN, other values by their kind; a buffer which is too small holds a terminated prefix. The log level, the bytecode cache option and debug builds (MJS_ENABLE_DEBUG) do not change what is computed or shown.',
  ['inputs', 'configurations'], 'all command lines up to a length over an alphabet of options, scripts and files; all numbers of a grid over every binary and decimal exponent, strings with every byte, every buffer size; all argument tuples of print() up to a length; all corpus programs at every log level in two builds',
  'Tests do not run the program and print a handful of values.',
  ['src/mjs_main.c', 'src/mjs_util.c', 'src/mjs_builtin.c', 'src/frozen/frozen.c', 'src/common/cs_dbg.c'],
  [('main', 'src/mjs_main.c'), ('mjs_jprintf, mjs_disasm', 'src/mjs_util.c'), ('mjs_print', 'src/mjs_builtin.c')],
  ['stdout and exit status of the program', 'buffers and streams given to the C API'])
p('C21', 'The JavaScript modules in lib/ do what they document',
  'File.write stores exactly the given bytes (replacing or appending), File.read returns exactly the bytes stored, remove and rename act on the named file and report success; after a short read, a short write, a file which cannot be opened or a full file system they still terminate, close what they opened and report what was done (a written prefix and its length). Math functions give what the C functions they stand for give, for every argument, and Math.max / Math.min ignore a NaN. Garbage collections at any point do not matter.',
  ['histories', 'fault_sequences', 'inputs'], 'all histories of File operations up to a depth over two files and the lengths around the chunk sizes, with a fault of each kind at each C call; every Math function with all (pairs of) boundary values',
  'Tests load one module and call one function of it.',
  ['lib/api_file.js', 'lib/api_math.js', 'src/mjs_ffi.c', 'src/mjs_primitive.c'],
  [('chunked read and write', 'lib/api_file.js'), ('imports', 'lib/api_math.js'), ('NaN given to C', 'src/mjs_primitive.c: get_double')],
  ['results of the module functions', 'contents of files'])
p('C22', 'The single-file distribution is the same library as src',
  'mjs.c with mjs.h, mjs_no_common.c with the common sources, and the files which the rules of the Makefile (tools/amalgam.py) make of src all are the same library as the one built from src: every script, file, command line of the program, C function signature and sequence of C API calls has the same outcome (value, error code, message, stack trace, output, memory written, cache file used), also with garbage collections or errors at any operation.',
  ['configurations', 'inputs', 'histories'], 'all corpus programs, prefixes and deletions of them, operator / operand / method tuples, JSON and token sequences, command lines, C signatures and C API sequences up to a length, each in the builds from src, mjs.c, mjs_no_common.c (and the generated files where they differ)',
  'Tests build the sources in src and only check the syntax of mjs.c.',
  ['mjs.c', 'mjs.h', 'mjs_no_common.c', 'tools/amalgam.py', 'Makefile', 'src'],
  [('single file', 'mjs.c'), ('without common', 'mjs_no_common.c'), ('public header', 'mjs.h'), ('amalgamation', 'tools/amalgam.py')],
  ['outcomes in each build'])
p('C23', 'The bundled JSON library reads, edits and prints JSON exactly',
  'json_walk reports for every JSON document exactly its values, in order, with their paths, names and texts, and the length of the document; for every other text an error, "incomplete" exactly when more text could complete it; no function reads outside the given text or writes outside a given buffer. json_scanf stores exactly the values at the paths of its format and counts them, in any order of the keys in format and document; json_next_key, json_next_elem and json_scanf_array_elem visit exactly the members. json_setf changes, adds or deletes exactly the value at the path and returns whether it did; json_prettify keeps the document and json_prettify_file, json_fread and json_fprintf do the same with files. json_printf prints integers, doubles, strings (%Q), bytes (%H, %V) and nested formats (%M) such that they read back as the same values, with any buffer size, and returns the length; json_escape and json_unescape are inverse.',
  ['inputs', 'configurations'], 'all token sequences up to a length, all prefixes and single-character edits of documents, all documents x paths x values for editing, all format sequences up to a length x values x buffer sizes, all strings up to a length over an alphabet with every escape, control character and UTF-8 lead byte',
  'The repository tests the library only through JSON.parse and JSON.stringify of a few documents.',
  ['src/frozen/frozen.c', 'src/frozen/frozen.h'],
  [('walk', 'json_walk in src/frozen/frozen.c'), ('scan', 'json_vscanf'), ('edit', 'json_vsetf'), ('print', 'json_vprintf'), ('escape', 'json_escape, json_unescape')],
  ['events and results of each call', 'text printed', 'accesses outside buffers'])
p('C24', 'A script gives the same result in every build configuration',
  'The same program run by two builds of the same sources (32- or 64-bit pointers, signed or unsigned plain char, gcc or clang, any optimisation level, aggressive garbage collection, memory statistics) gives the same outcome: value, error code and message, stack trace, text printed, arguments and results of C functions called through ffi, contents of cached bytecode files, and what the C API reports about values (short and long strings, own and foreign ones, arrays, numbers, user data). A configuration is a question of space and speed and never of behaviour.',
  ['configurations', 'inputs'], 'all pairs of a configuration with the base configuration x all programs of enumerated families (strings of every length around the storage limits x operations x arguments, numbers at every boundary x operators, C signatures x values, programs over statements, errors and callbacks)',
  'The repository tests run a few configurations, each on the same fixed cases with fixed expectations; no test compares configurations on other inputs, and none has plain char unsigned.',
  ['src/mjs_string.c', 'src/mjs_primitive.c', 'src/mjs_ffi.c', 'src/ffi/ffi.c', 'src/mjs_features.h', 'src/mjs_exec.c', 'src/mjs_tok.c'],
  [('strings', 'mjs_mk_string, mjs_get_string: storage of short foreign strings on 32 bit'), ('numbers', 'mjs_get_int, mjs_get_int32 and the bitwise operators'), ('ffi', 'ffi_call for 32 and 64 bit, mjs_ffi_call2'), ('config', 'src/mjs_features.h')],
  ['outcome of each program in each configuration'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P))
