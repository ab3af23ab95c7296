M = 'explicit-state bounded model checking: exhaustive enumeration of %s'
NOTE = {
 'C01': (M % 'token sequences, byte strings and edits of a corpus, executed on the real parser and VM under ASan', 'Every text within the bounds is executed. The monitor is memory safety, balance of brackets, no effect of rejected texts and a probe script afterwards. Trusts ASan and the instrumented build.'),
 'C02': (M % 'garbage collection points of each program', 'Every collection point (an instrumented point after each VM operation and every native call) is forced in turn and the outcome compared with the uncollected run and the reference model.'),
 'C03': (M % 'expression programs up to a size, compared with a reference semantics', 'Every generated program is run on the implementation and on an independent reference interpreter. Programs whose result JavaScript and mJS define differently or not at all are counted as unspecified.'),
 'C04': (M % 'statement programs up to a size, compared with a reference semantics', 'As C03, for statements, scopes, functions, this.'),
 'C05': (M % 'operation sequences on objects, compared with a map model', 'All operation sequences up to a depth, through scripts and through the C API.'),
 'C06': (M % 'operation sequences on arrays, compared with a sequence model', 'All operation sequences up to a depth, through scripts and through the C API.'),
 'C07': (M % 'string values in each representation and operation sequences on them, compared with a byte sequence model', 'All operations on all pairs of values of an alphabet of contents and representations, with storage moves and collections between.'),
 'C08': (M % 'JSON texts and values up to a size, compared with a reference model', 'All texts and values within the bounds; texts outside the ASCII JSON grammar only for safety.'),
 'C09': (M % 'error injection points of each program', 'An error is raised at every operation of every program in turn, then a probe script compares the state with the reference model.'),
 'C10': (M % 'layouts of failing programs, compared with the known position', 'All programs of a set in all layouts of a set.'),
 'C11': (M % 'signatures and argument values', 'All signatures up to six arguments over a type alphabet, and boundary values per type.'),
 'C12': (M % 'histories of callback operations, compared with a registration model', 'All histories up to a depth, on the real code.'),
 'C13': (M % 'code positions and sizes around each encoding boundary, for build variants', 'Every construct at every position and body size of a window around each boundary.'),
 'C14': (M % 'load histories, cache states, truncation and fault points', 'All histories up to a depth; all truncation points, byte corruptions and failing file operations.'),
 'C15': (M % 'C API call sequences, compared with a model', 'All sequences up to a depth.'),
 'C16': (M % 'operation sequences and arguments of the utility functions, compared with a model', 'All sequences and all argument combinations within the bounds.'),
 'C17': (M % 'struct descriptions, memory contents and accesses', 'All field kinds, positions and boundary values.'),
 'C18': (M % 'interleavings of instances at operation granularity', 'All switch points up to a preemption bound between two instances, nested and on threads.'),
 'C19': (M % 'collection, error and destruction points of each program with an allocation monitor', 'Every destruction point of every program; the allocated bytes are compared exactly.'),
 'C20': (M % 'command lines, values, buffer sizes and log levels, compared with a reference semantics and the C API', 'The real main() runs in the driver with stdout captured. The digits shown for functions and the exit status after a script error are not specified.'),
 'C21': (M % 'histories of module calls with injected faults, compared with a file model and the C library', 'The C functions which the module imports are stand-ins over a file system in memory; every fault is injected at every call.'),
 'C22': (M % 'scripts, files, command lines, C signatures and C API sequences in each distribution of the library, compared with the build from src', 'The outcome in the build from src is the model; it is what the other properties judge. What the Makefile generates is run where it differs from the files in the tree.'),
 'C23': (M % 'documents, texts, paths, formats and values given to the JSON library', 'A recogniser of JSON with the documented leniency (identifiers as keys, optional commas, hexadecimal numbers) and a tree model of documents give the expected results. Keys do not contain . [ ], paths have fewer than 256 characters, and bytes which are not UTF-8 are judged for safety only.'),
 'C24': (M % 'programs and API calls, each in every build configuration', 'The outcome in the base configuration (clang, 64 bit, signed char) is the expected one for the others; only user code which C leaves undefined (conversions and shifts outside the domain of the type) is outside. The base itself is judged by the other properties.'),
}
