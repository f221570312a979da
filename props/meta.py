ASSUMPTIONS = [
    "clang's translation of C to LLVM IR, the IR instrumentation (engine/rsxpass.cpp) and Z3 are trusted; every counterexample is replayed on the uninstrumented build",
    "one engine thread; libc, libm and ICU calls follow the models in engine/rsx.cpp and engine/rsxlibc.c; transcendental functions are evaluated per value",
]
NOTES = "Every check rebuilds the engine from /repo's working tree as instrumented LLVM IR and executes it symbolically on scripts with symbolic inputs (props/<id>.js); see DESIGN.md."
PROPS = []
def P(id, title, statement, text, why, files, mech, bounds, over=("inputs",), **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=["src/lib/" + f if "/" not in f else f for f in files], mech=mech, bounds=bounds, **kw))
T = "The test suite evaluates a few fixed scripts; "

P("N01", "Integer conversions and bit operators are exact modulo 2^32",
  "Every bitwise and shift operator yields exactly the ECMAScript result for every pair of Number operands. The modular conversions that these operators, typed stores and integer helpers perform agree for all finite, infinite and NaN inputs.",
  "all int32 pairs and all 64-bit floating point values", T + "the errors live at 2^31, 2^32, 2^63 and at negative zero, values no test uses.",
  ["rjs_number.c", "rjs_operation.c", "rjs_bc_call.c"],
  [("numeric conversions", "src/lib/rjs_number.c"), ("operators", "src/lib/rjs_operation.c")],
  "operands are any int32 (or any double where stated); expression depth 1-3.")
P("N02", "Number arithmetic follows IEEE 754 and the operator identities",
  "Addition, subtraction, multiplication, division, remainder, exponentiation, increment and comparison of Numbers give the correctly rounded IEEE 754 double result, with NaN, infinities and signed zeros as the language specifies.",
  "all operand values within the stated ranges, including the special values", T + "rounding and signed-zero errors show up only for particular operands.",
  ["rjs_number.c", "rjs_operation.c", "rjs_bc_call.c"], [("arithmetic", "src/lib/rjs_operation.c")],
  "operands are integers of up to 53 bits, scaled fractions, or any double where the solver can decide them.")
P("N03", "Math functions honour their exactly specified cases",
  "The rounding, selection, conversion and integer functions of Math return the exact specified result, and every Math function returns the specified value for NaN, infinities, signed zeros and empty argument lists.",
  "all arguments within the stated ranges and all special values", T + "they call each function once or twice.",
  ["rjs_math_object_inc.c"], [("Math functions", "src/lib/rjs_math_object_inc.c")],
  "arguments are doubles or integers in the ranges declared per scenario; transcendental results are checked only at their specified points.")
P("N04", "Text and numbers convert exactly in both directions",
  "Converting a Number to text and reading it back yields the same Number, and the text is the one the language specifies for every radix and format. Number, parseInt, parseFloat and literals accept exactly the specified grammar and round correctly.",
  "all numbers in the stated ranges and all strings of the stated length over the numeric alphabet", T + "they convert a handful of constants.",
  ["rjs_dtoa.c", "rjs_strtoi.c", "rjs_number_object_inc.c", "rjs_global_object.c", "rjs_string.c"],
  [("number formatting", "src/lib/rjs_number_object_inc.c"), ("shortest decimal conversion", "src/lib/rjs_dtoa.c"), ("string to number", "src/lib/rjs_string.c")],
  "integers of up to 32 bits, eighths and decimal fractions, strings of up to 3 symbolic characters, all radices.")

P("A01", "Binary data keeps exact bytes inside its bounds",
  "A typed array, DataView or ArrayBuffer access converts every value exactly as its element type specifies, in the requested byte order, and reads or writes only the addressed bytes. Every offset, length or index outside the buffer is rejected or ignored as specified and never touches memory.",
  "all element values, offsets and lengths within the stated ranges, for every element type", T + "they store a few values at valid positions.",
  ["rjs_typed_array_object_inc.c", "rjs_data_view_object_inc.c", "rjs_array_buffer_object_inc.c", "rjs_typed_array_opt.c", "rjs_int_indexed_object_opt.c"],
  [("element conversion", "src/lib/rjs_number.c"), ("bounds", "src/lib/rjs_int_indexed_object_opt.c")],
  "buffers of up to 20 bytes; values are any int32, any double or 64-bit BigInts near the boundaries.")
P("A02", "Typed array methods compute exact elements and ranges",
  "Every typed array method processes exactly the elements its relative start, end and target arguments designate and produces the specified elements, including overlapping copies, cross-type copies and subarray views. Callbacks, species constructors and arguments that change the array while a method runs never lead to a wrong element or an access outside the buffer.",
  "all relative indices, element values and callback outcomes within the stated ranges, for every element type", T + "they use one array and in-range positions.",
  ["rjs_typed_array_object_inc.c", "rjs_typed_array_opt.c", "rjs_int_indexed_object_opt.c", "rjs_array_buffer_object_inc.c"],
  [("typed array methods", "src/lib/rjs_typed_array_object_inc.c")],
  "arrays of up to 8 elements; relative indices in a window around the array, and any Number as the position in an array of 3.", quick=70)
P("A03", "Array methods compute exact elements, holes and ranges",
  "Every Array method reads, writes and deletes exactly the indices its arguments designate, treats holes as specified, and returns the specified value. It does so on arrays, array-likes and proxies, for any relative index, for lengths up to 2^53-1, and when callbacks change the array meanwhile.",
  "all relative indices, hole patterns and callback effects within the stated ranges", T + "they use dense arrays and in-range positions.",
  ["rjs_array_object_inc.c", "rjs_array.c"],
  [("Array methods", "src/lib/rjs_array_object_inc.c"), ("array storage", "src/lib/rjs_array.c")],
  "arrays of up to 6 elements with every hole pattern; relative indices in a window around the array, and any Number as the position in an array of 3.", quick=70)
P("A04", "Array length and elements always agree",
  "After any sequence of element writes, deletions, definitions and length assignments, an array's length exceeds every element index, and shrinking the length deletes exactly the elements above it, stopping at a non-configurable one. Only canonical index strings name elements; any other key is an ordinary property.",
  "all histories of the stated number of operations, and all lengths and indices up to 2^32", T + "they never mix sparse storage, attributes and length changes.",
  ["rjs_array.c", "rjs_object.c", "rjs_arguments_object.c"],
  [("exotic array object", "src/lib/rjs_array.c")],
  "histories of up to 4 operations over a few indices; lengths and indices as any unsigned 32-bit value or digit string of up to 3 characters.", over=("inputs", "histories"))
P("A05", "Sorting permutes, orders and is stable for any comparator",
  "Array and typed array sort return a permutation of the input, ordered by the comparator or the default order, keeping the order of equal elements, with undefined and holes last. An inconsistent, throwing or mutating comparator never loses, duplicates or corrupts elements beyond what the language permits.",
  "all element values, orders and comparator outcomes within the stated sizes", T + "they sort a few fixed arrays.",
  ["rjs_sort.c", "rjs_array_object_inc.c", "rjs_typed_array_object_inc.c"],
  [("merge sort", "src/lib/rjs_sort.c")],
  "up to 4 fully symbolic elements, up to 9 elements with symbolic keys, and sizes up to 40 with concrete patterns.")

P("S01", "String positions and searches are exact for any index",
  "Every String method that takes positions, lengths or a search text reads exactly the code units the language specifies, for any integer, fractional, infinite or missing argument. Searching, padding, trimming, splitting, replacing and comparing agree with a direct definition over code units.",
  "all index values and all strings of the stated length over small alphabets", T + "they use a few constants.",
  ["rjs_string.c", "rjs_string_object_inc.c"],
  [("String methods", "src/lib/rjs_string_object_inc.c"), ("string primitives", "src/lib/rjs_string.c")],
  "strings of up to 4 symbolic code units; indices in a window around the string plus extremes, and any Number as the position in a text of 3 (counts above 4e18 for repetition).", quick=45)
P("S02", "Every code unit survives every string operation",
  "Case mapping, normalisation, concatenation, comparison, property keys and code point conversion treat every code unit exactly, including NUL, lone surrogates and supplementary characters. No operation drops, merges or reorders units beyond its definition.",
  "all code units and code points in the stated blocks", T + "they use ASCII text.",
  ["rjs_string.c", "rjs_string_object_inc.c"],
  [("string primitives", "src/lib/rjs_string.c"), ("String methods", "src/lib/rjs_string_object_inc.c")],
  "one or two symbolic code units per string in ASCII, Latin-1, Greek, Cyrillic, Hangul, Deseret and surrogate blocks.")
P("S03", "URI encoding and decoding are exact inverses",
  "encodeURI, encodeURIComponent and the decoders produce exactly the UTF-8 percent sequences of the language for every code point, and decoding reverses encoding. Lone surrogates, truncated, overlong or invalid sequences raise URIError, and reserved escapes are kept by decodeURI.",
  "all code units and all escape digits at the stated positions", T + "they use a few ASCII strings.",
  ["rjs_uri_functions_inc.c"],
  [("URI functions", "src/lib/rjs_uri_functions_inc.c")],
  "one symbolic code point, or up to four symbolic escape bytes.")

P("J01", "JSON.parse accepts the JSON grammar and builds the exact value",
  "JSON.parse accepts every valid JSON text and builds exactly the value it denotes, and rejects malformed structure with a SyntaxError instead of crashing, hanging or guessing. The reviver sees every property once, in order, after its children, and its results and mutations take effect as specified.",
  "all texts of the stated shape with symbolic characters", T + "they parse a few well-formed constants.",
  ["rjs_json_opt.c", "rjs_json_object_inc.c", "rjs_lex.c"],
  [("JSON parser", "src/lib/rjs_json_opt.c")],
  "up to 3 symbolic characters in a structural or numeric text, single symbolic code units in strings; nesting up to 80.")
P("J02", "JSON.stringify writes exactly the specified text",
  "JSON.stringify produces exactly the specified text for every value, string unit, indentation, replacer and toJSON result, and parsing it restores the value. It reads each property once, in the specified order, and rejects cycles and BigInts.",
  "all code units, numbers, shapes and option values within the stated ranges", T + "they serialise a few constants.",
  ["rjs_json_opt.c", "rjs_json_object_inc.c"],
  [("JSON serialiser", "src/lib/rjs_json_opt.c")],
  "one or two symbolic code units, symbolic numbers, shapes of up to 5 members, nesting up to 80.")

P("R01", "Regular expressions match exactly what their pattern means",
  "For every pattern in the supported grammar and every subject, exec reports the match the language defines: leftmost, with the specified priority between alternatives and greedy or lazy repeats, and exact captures. Assertions, back references, classes and the i, m, s, u flags behave as specified for every code unit.",
  "all subjects of the stated length over small alphabets, and all code units for classes and case folding", T + "they match a few fixed subjects.",
  ["rjs_regexp.c"], [("pattern compiler and matcher", "src/lib/rjs_regexp.c")],
  "subjects of up to 5 symbolic code units; a fixed set of patterns covering every construct, some with symbolic pattern characters.", quick=45)
P("R02", "RegExp objects and string methods use matches as specified",
  "lastIndex, the g and y flags, exec results, matchAll, replace with every substitution pattern, split and search follow the specified protocol step by step for every subject, including when callbacks change the expression. Pattern syntax errors are SyntaxErrors at construction, never crashes or silent acceptance.",
  "all subjects, positions, flags and replacement texts of the stated shape", T + "they use a few fixed calls.",
  ["rjs_regexp.c", "rjs_regexp_object_inc.c", "rjs_string.c", "rjs_lex.c"],
  [("RegExp methods", "src/lib/rjs_regexp_object_inc.c"), ("pattern parser", "src/lib/rjs_regexp.c"), ("replacement expansion", "src/lib/rjs_string.c")],
  "subjects of up to 4 symbolic code units, symbolic lastIndex and flags, up to 3 symbolic pattern or replacement characters.")

P("A06", "Array methods perform exactly the property operations they define",
  "Every Array.prototype method reads, writes, tests and deletes exactly the properties its definition names, in the defined order, on arrays, array-likes and proxies; an operation that fails stops the method there and leaves the rest untouched. Arrays the language itself creates get their elements as own data properties, whatever Array.prototype or Object.prototype defines.",
  "all presence patterns, arguments, callback effects and failure points within the stated sizes", T + "they observe results on plain arrays, never the operations, the failing operation or a polluted prototype.",
  ["rjs_array_object_inc.c", "rjs_array.c", "rjs_proxy_object_opt.c", "rjs_promise_object_inc.c", "rjs_json_opt.c"],
  [("Array methods", "src/lib/rjs_array_object_inc.c"), ("array storage", "src/lib/rjs_array.c"), ("proxy traps", "src/lib/rjs_proxy_object_opt.c")],
  "observed receivers of length up to 3 (5 thorough) with every presence pattern including one element beyond the length, arguments in -6..6 or objects, one callback effect, and one failing operation among the first 20; 52 kinds of created array with 4 kinds of inherited property.", over=("inputs", "fault points", "histories"), quick=60)
P("B01", "BigInt arithmetic is exact at every size",
  "Addition, subtraction, multiplication, division, remainder, exponentiation, negation, increment and comparison of BigInts give the exact mathematical integer for operands of any sign and length, and never change an operand. Mixing with Numbers, division by zero and negative exponents raise the specified errors.",
  "all word values and all values near the word boundaries within the stated ranges", T + "carries, borrows and quotient corrections occur only for particular words.",
  ["rjs_big_int_internal_opt.c", "rjs_bc_call.c"], [("multi-word arithmetic", "src/lib/rjs_big_int_internal_opt.c")],
  "operands of one or two fully symbolic 32-bit words, or up to 128 bits near powers of two.", quick=45)
P("B02", "BigInt bits, text and conversions are exact",
  "Bitwise operators and shifts on BigInts act on infinite two's complement; asIntN and asUintN wrap exactly; text in every radix, literals, Number conversion with correct rounding, and comparison with Numbers and strings are exact. Malformed text and unrepresentable values raise the specified errors.",
  "all word values, shift counts, widths, radices and short texts within the stated ranges", T + "they use a few small values.",
  ["rjs_big_int_internal_opt.c", "rjs_big_int_object_inc.c", "rjs_string.c"], [("bit operations and conversions", "src/lib/rjs_big_int_internal_opt.c"), ("BigInt functions", "src/lib/rjs_big_int_object_inc.c")],
  "operands of up to two symbolic 32-bit words or values near powers of two up to 2^100; texts of up to 3 symbolic characters.", quick=45)
P("D01", "Dates follow the proleptic Gregorian calendar exactly",
  "Every Date getter, setter, constructor and Date.UTC computes exactly the proleptic Gregorian calendar of the language for every time value, year, overflowing month or day, and limit, and each setter changes only its own component. Invalid dates, conversions and evaluation order follow the specification.",
  "all years, months, days and time parts within the stated ranges", T + "they look at a few dates.",
  ["rjs_date_object_inc.c"], [("calendar arithmetic", "src/lib/rjs_date_object_inc.c")],
  "selected years from -271821 to 275760, every year from -400 to 2499, every day of four years; UTC time zone.")
P("D02", "Date text formats are exact and parse back",
  "toISOString, toJSON, toUTCString, toString and their parts print exactly the specified fields, and Date.parse reads each of those formats back to the same time. ISO texts with out of range fields, missing parts or trailing characters give NaN.",
  "all field values and characters at the stated positions", T + "they print a few dates.",
  ["rjs_date_object_inc.c"], [("Date parsing and formatting", "src/lib/rjs_date_object_inc.c")],
  "one symbolic field of up to 3 digits or one symbolic character at a time; selected years; UTC time zone.")
P("M01", "Map and Set are exact finite maps in insertion order",
  "After any history of set, add, delete and clear, a Map or Set contains exactly the entries a list model with SameValueZero keys contains, in insertion order, for keys of every type. Weak collections agree with the model for live keys, and constructors use the iteration protocol and close iterators on error.",
  "all histories of the stated length over the stated keys", T + "they run one fixed history.",
  ["rjs_map_object_inc.c", "rjs_set_object_inc.c", "rjs_hash_object_inc.c", "rjs_hash.c", "rjs_weak_map_object_inc.c", "rjs_weak_set_object_inc.c"],
  [("hash collections", "src/lib/rjs_hash_object_inc.c"), ("hash table", "src/lib/rjs_hash.c")],
  "histories of up to 6 operations over up to 16 keys of all types, growth up to 70 entries.", over=("inputs", "histories"))
P("M02", "Iterating a changing Map or Set visits exactly the live entries",
  "Map and Set iterators and forEach stay valid under any interleaving of insertions, deletions and clears: each entry that is live when reached is visited once, in order, re-added entries come last, and finished iterators stay finished. Several iterators and garbage collections do not disturb each other.",
  "all interleavings of the stated operations and iterator steps", T + "they never change a collection while iterating.",
  ["rjs_hash_object_inc.c", "rjs_map_object_inc.c", "rjs_set_object_inc.c"], [("collection iterators", "src/lib/rjs_hash_object_inc.c")],
  "up to 4 initial entries, 5 interleaved operations, 2 iterators.", over=("inputs", "histories"))
P("O01", "Property descriptors follow the definition rules exactly",
  "Defining, redefining, assigning and deleting a property accepts exactly the transitions of the language's ValidateAndApplyPropertyDescriptor, leaves exactly the specified attributes, and leaves the object unchanged when it refuses. This holds for ordinary objects, arrays, strings, typed arrays, functions and arguments objects.",
  "all current attributes and all partial descriptors", T + "they define a few properties.",
  ["rjs_object.c", "rjs_object_object_inc.c", "rjs_array.c"], [("ordinary property definition", "src/lib/rjs_object.c"), ("descriptor conversion", "src/lib/rjs_object_object_inc.c")],
  "one property, all attribute combinations, up to 3 definitions in sequence.", quick=45)
P("O02", "Frozen, sealed and non-extensible objects cannot be changed",
  "After preventExtensions, seal or freeze no later operation of any kind, through assignment, definition, deletion, array methods, class fields or prototypes, changes what the level protects, and operations report the failure as specified. The predicates isExtensible, isSealed and isFrozen are exact.",
  "all combinations of object kind, level and later operation", T + "they freeze a single object.",
  ["rjs_object.c", "rjs_object_object_inc.c", "rjs_array_object_inc.c"], [("integrity levels", "src/lib/rjs_object_object_inc.c"), ("ordinary internal methods", "src/lib/rjs_object.c")],
  "8 kinds of objects with up to 3 properties, one attacking operation at a time.")
P("O03", "Property keys are enumerated in the specified order",
  "ownKeys, keys, values, entries, for-in, assign, spread, rest and JSON visit exactly the specified properties in the specified order: array indices ascending, then strings and then symbols in creation order. Shadowed, non-enumerable and deleted properties are treated as specified, also when properties change during for-in.",
  "all creation and deletion orders over the stated keys", T + "they enumerate small fixed objects.",
  ["rjs_object.c", "rjs_object_object_inc.c", "rjs_for_in_iterator.c"], [("own keys", "src/lib/rjs_object.c"), ("for-in", "src/lib/rjs_for_in_iterator.c")],
  "up to 5 operations over 16 keys including the array index limits; objects of up to 60 keys.", quick=40)
P("O04", "Prototype chains resolve, shadow and receive exactly",
  "Reads, writes, calls, instanceof and construction follow the prototype chain exactly: the nearest property wins, setters and getters see the original receiver, writes create own properties only as specified, and chains never become cyclic. Later changes to prototypes are seen at once by every access site.",
  "all placements of the property and all stated prototype changes", T + "they use fixed two-level chains.",
  ["rjs_object.c", "rjs_function_object_inc.c", "rjs_bc_call.c"], [("get, set and has", "src/lib/rjs_object.c")],
  "chains of up to 8 objects, access sites visited up to 4 times with 8 object kinds.", quick=40)
P("X01", "Proxies enforce every invariant and forward exactly",
  "Each Proxy trap receives the specified arguments, its result is converted and checked against the target exactly as the language's invariants demand, and missing traps forward to the target unchanged. Revoked proxies throw from every operation, and handlers may revoke or throw at any time without corrupting state.",
  "all target attributes, extensibility states and trap results", T + "they use a few well-behaved traps.",
  ["rjs_proxy_object_opt.c", "rjs_proxy_object_inc.c", "rjs_reflect_object_inc.c"], [("proxy internal methods", "src/lib/rjs_proxy_object_opt.c")],
  "one target property with all attribute combinations, all 13 traps, proxy chains of up to 6.")
P("C01", "Jumps, exceptions and finally blocks take the specified path",
  "For every combination of throw, return, break and continue out of nested loops, switches, labelled blocks, try/catch/finally and iteration statements, exactly the specified statements run, iterators are closed exactly when specified, and the completion (value, error or jump target) is the specified one. Completion values of scripts and the bindings captured by closures on the way are also exact.",
  "all assignments of a jump to each program point and visit", T + "each takes one path through a statement.",
  ["rjs_bc_gen.c", "rjs_bc_call.c", "rjs_iterator.c"], [("statement code generation", "src/lib/rjs_bc_gen.c"), ("byte code interpreter", "src/lib/rjs_bc_call.c")],
  "16 program shapes (each as function and as script), up to 3 jump points, 2 visits of each, 2 iterations per loop, every legal jump.",
  quick=75, files_js=["ctl.js", "C01.js"])
P("C04", "Generators suspend, resume and unwind exactly",
  "Driven by any sequence of next, throw and return, a generator runs exactly the specified statements between two yields, delivers the sent completion at the suspended yield, and runs finally blocks and closes iterators as specified. yield* forwards to any delegate as specified, and running or finished generators behave as specified.",
  "all sequences of resumptions combined with all jumps", T + "they drive generators with fixed sequences.",
  ["rjs_generator_opt.c", "rjs_bc_gen.c", "rjs_bc_call.c"], [("generator operations", "src/lib/rjs_generator_opt.c")],
  "8 program shapes, up to 4 resumptions of 3 kinds, up to 3 jump points with 2 visits, delegates with 4x4x5x5 behaviours.",
  over=("inputs", "histories"), quick=40, files_js=["ctl.js", "C04.js"])
P("C05", "Async functions resume in order with the right completion",
  "Async functions and for-await loops continue exactly when the awaited value settles, after exactly the specified number of jobs, with its value or error, and take the specified path from there; several tasks interleave in the specified order. Iterators are closed and awaited as specified whatever ends the loop.",
  "all settlements of awaited values combined with all jumps and interleavings of two tasks", T + "they await a few values.",
  ["rjs_async_function_opt.c", "rjs_promise_object_inc.c", "rjs_bc_gen.c", "rjs_job.c"], [("async functions", "src/lib/rjs_async_function_opt.c"), ("promises", "src/lib/rjs_promise_object_inc.c"), ("job queue", "src/lib/rjs_job.c")],
  "7 program shapes and two concurrent tasks; awaited plain values, promises, rejections and thenables; up to 3 jump points.",
  over=("inputs", "schedules"), quick=40, files_js=["ctl.js", "C05.js"])
P("C06", "Async generators answer every request once and in order",
  "Whatever next, throw and return requests are made and whether they are made at once or later, an async generator answers each exactly once, in order, after exactly the specified number of jobs, with the specified result. The statements between two yields, finally blocks and awaited iterator closes run exactly as specified.",
  "all request sequences and timings combined with all jumps", T + "they make requests one at a time.",
  ["rjs_generator_opt.c", "rjs_script.c", "rjs_bc_gen.c"], [("request queue", "src/lib/rjs_generator_opt.c")],
  "5 program shapes, up to 3 requests of 4 kinds made at once or after the previous settled, up to 3 jump points; yield* over 12 kinds of delegate answers, up to 3 (deep: 4) requests of 5 kinds.",
  over=("inputs", "schedules", "histories"), quick=45, files_js=["ctl.js", "C06.js"])
P("C02", "Destructuring and spread perform exactly the specified steps",
  "For every source, iterator, getter, default, computed key and target, destructuring in declarations, assignments, parameters, loop heads and catch clauses, and spread in calls and literals, perform exactly the specified steps in the specified order. Iterators are closed exactly when specified, and the bound values or the error are the specified ones.",
  "all behaviours of the participating iterators, getters, defaults, keys and targets", T + "they destructure well-behaved arrays and objects.",
  ["rjs_bc_gen.c", "rjs_bc_call.c", "rjs_iterator.c", "rjs_parser.c"], [("pattern code generation", "src/lib/rjs_bc_gen.c"), ("array assignment", "src/lib/rjs_operation.c")],
  "20 pattern shapes in up to 10 contexts, up to 4 elements, every position throwing, ending or undefined; spreads of up to 2 iterables.", quick=40)
P("C03", "Names resolve to the right binding in every scope",
  "Reads, writes, typeof and captures of a name refer to the innermost specified binding, in every nesting of blocks, functions, loops, switches, catch clauses, classes, with and direct eval, however often the code runs; bindings before initialization and constants throw exactly as specified. Each loop iteration has its own bindings, and conflicting global declarations are refused as a whole.",
  "all operations at all program points", T + "they use each kind of scope once.",
  ["rjs_environment.c", "rjs_decl_env.c", "rjs_operation.c", "rjs_eval_opt.c", "rjs_global_env.c", "rjs_bc_gen.c"], [("environments", "src/lib/rjs_environment.c"), ("name resolution", "src/lib/rjs_operation.c"), ("direct eval", "src/lib/rjs_eval_opt.c")],
  "26 scope shapes with up to 4 points and 13 operations per point; 7 shapes executed 3 times with 6 eval codes; all pairs of 9 x 5 global declarations.", quick=60)
P("C07", "Classes are defined, initialized and inherited as specified",
  "For every mix of fields, methods, accessors, static blocks, computed keys and private elements, a class definition evaluates its parts in the specified order, stops at the specified point on any error, and leaves exactly the specified class. Construction runs field initializers and super calls as specified, private names are accessible exactly on branded objects, and inheritance from any heritage or builtin class works as specified.",
  "all element kinds at all positions with all points throwing, and all this/super sequences", T + "they define a few classes.",
  ["rjs_bc_gen.c", "rjs_script_func_object.c", "rjs_private_name_opt.c", "rjs_function_env.c", "rjs_object.c"], [("class code generation", "src/lib/rjs_bc_gen.c"), ("constructors", "src/lib/rjs_script_func_object.c")],
  "Classes of 3 elements of 9+ kinds, every step throwing; 4-step sequences of this/super use in derived constructors; private access on 4 receivers; 10 heritages, 9 builtin bases.", quick=40)
P("C08", "Functions receive this, arguments and new.target as specified",
  "Every kind of function called in every form receives the specified this value, arguments, new.target and result, and is callable or constructible exactly as specified; bind, call, apply and Reflect.construct pass everything on exactly. Under any sequence of operations the arguments object and the parameters stay linked exactly as specified, name, length and prototype are the specified ones, and a call in tail position behaves like a call anywhere else.",
  "all combinations of function kind, call form, receiver and result, and all operation sequences on arguments objects", T + "they call a few functions.",
  ["rjs_arguments_object.c", "rjs_bc_call.c", "rjs_function_object_inc.c", "rjs_script_func_object.c", "rjs_bound_func_object_opt.c", "rjs_operation.c"], [("arguments objects", "src/lib/rjs_arguments_object.c"), ("bound functions", "src/lib/rjs_bound_func_object_opt.c"), ("calls and construction", "src/lib/rjs_script_func_object.c")],
  "12 function kinds x 24 call forms x 9 receivers; 6 parameter shapes with 0-3 arguments and 3 of 14 operations; twice bound functions with 0-2 arguments each; 7 constructors x 10 results x 5 new.targets; 12 statement shapes x 6 tail calls compared with the same calls outside tail position.",
  over=("inputs", "histories"), quick=50)
P("C09", "Promises settle once and run reactions in the specified order",
  "Whatever a promise is resolved with - values, promises, itself, thenables that misbehave in any way - it settles exactly once, with the specified outcome, and all reactions run in exactly the specified order of jobs. then, catch, finally, resolve, reject, all, allSettled, any and race perform exactly the specified calls on constructors, species, capabilities, iterators and thenables.",
  "all histories of creating, settling and chaining promises, all kinds of resolution values and misbehaving thenables and iterators", T + "they wait for single promises.",
  ["rjs_promise.c", "rjs_promise_object_inc.c", "rjs_job.c"], [("promises", "src/lib/rjs_promise.c"), ("combinators", "src/lib/rjs_promise_object_inc.c"), ("jobs", "src/lib/rjs_job.c")],
  "16 kinds of values in 2 executor actions, as handler results and as 0-2 elements of the 4 combinators; 3 elements settled in every order; 16 protocol deviations at any of 3 positions; histories of 3 (thorough: 4) of 8 operations on up to 4 promises.",
  over=("histories", "schedules"), quick=45)
P("E01", "Modules link, evaluate and bind exactly as specified",
  "For every graph of modules, with cycles, re-exports, star exports, top-level await and failing modules, importing yields exactly the bindings, errors and order of evaluation that the specification gives, whatever is imported again later. Imported names are live views of the exporting module's variables, namespace objects list and protect exactly the exported names, and declarations, names and contexts that the grammar of modules forbids are refused.",
  "all graphs of modules, kinds of exports, awaits and failures", T + "they load a few fixed module files, most without cycles or failures.",
  ["rjs_module_opt.c", "rjs_module_ns_object_opt.c", "rjs_parser.c", "rjs_code_gen_inc.c", "rjs_job.c"], [("modules", "src/lib/rjs_module_opt.c"), ("namespace objects", "src/lib/rjs_module_ns_object_opt.c")],
  "up to 4 modules with symbolic export kinds, names and targets (local, import, re-export, star, namespace; names from two letters); evaluation order of 3 modules with symbolic edges, top-level awaits, failures and two imports, rings and diamonds of 3 to 4; early errors of pairs of symbolic names; 20 words in 8 positions; 61 module texts; 7 operations on namespace objects.",
  over=("histories",), quick=75)
P("P01", "Source text is split into exactly the specified tokens and values",
  "Every sequence of characters in a string, template, number, identifier, comment or regular expression literal is accepted exactly when the grammar allows it and denotes exactly the specified value. Escapes, numeric separators, legacy octals in sloppy and strict code, escaped keywords, line terminators and the choice between division and regular expression follow the specification in every context.",
  "all character sequences at each position of a literal", T + "they contain a few literals of each kind.",
  ["rjs_lex.c", "rjs_input.c", "rjs_parser.c"], [("the lexer", "src/lib/rjs_lex.c"), ("literals in the parser", "src/lib/rjs_parser.c")],
  "escapes of up to 6 symbolic characters in strings and templates; numbers of up to 5 symbolic characters from the alphabet of each form; identifiers of 3 characters, escaped or not; 40 keywords with one escaped letter in 25 positions; comments of up to 4 characters; regular expression literals of up to 4 characters and 13 contexts of a slash.",
  quick=40)
P("P02", "Programs are accepted and structured exactly as the grammar says",
  "Expressions group by operator precedence and associativity, and statements end at automatic semicolons, exactly as specified. Any combination of names, targets, parameters, labels, jumps, declarations, class and function elements is accepted exactly when no early error of the specification applies in its context, sloppy or strict.",
  "all combinations of operators, names, declarations, statements and contexts", T + "they parse a few programs of each kind.",
  ["rjs_parser.c", "rjs_lex.c", "rjs_bc_gen.c"], [("the parser", "src/lib/rjs_parser.c"), ("code generation", "src/lib/rjs_bc_gen.c")],
  "all pairs of 25 and triples of 15 binary operators, with unary operators, conditionals and parentheses, by the values computed; operator strings of up to 3 symbolic characters; 57 words in 41 uses in 7 contexts (thorough: 16); 69 targets in 32 uses; 9 jumps in 13 constructs nested to depth 2 (thorough: 3); 13 context dependent expressions in 22 function forms nested to depth 2 (thorough: 3); all pairs of 26 declarations in 9 (thorough: 18) scopes.",
  quick=60)
P("G01", "Garbage collection at any allocation is invisible to programs",
  "Whenever the garbage collector runs, at any allocation whatsoever, a program computes the same result as without it: no object that is still needed is freed, used after being freed or changed, whatever builtin, callback, generator, job, parser or compiler is active.",
  "all points at which a collection can start", T + "collections start only above a heap size the tests rarely reach.",
  ["rjs_gc.c", "rjs_native_stack.c", "rjs_context.c", "rjs_weak_ref_opt.c", "rjs_value.c"], [("collector", "src/lib/rjs_gc.c"), ("roots", "src/lib/rjs_context.c")],
  "28 programs covering the language and all builtins, with callbacks that allocate; one collection at each of the allocations (up to 4000) of each program; freed memory is never reused and any access to it is reported.",
  over=("schedules",), quick=60)
P("G02", "Weak collections, weak references and finalization follow liveness",
  "An entry of a weak map keeps its value alive exactly while the map and the key are alive, weak collections behave like ordinary ones on live keys, and after any history of operations and collections a weak reference yields its target exactly while it is reachable, and throughout any job that has observed it. A finalization callback runs exactly once for every registration whose target has died, with its held value, and never after unregistration.",
  "all reachability graphs and operation histories", T + "they collect once.",
  ["rjs_weak_ref_opt.c", "rjs_finalization_registry_opt.c", "rjs_hash_object_inc.c", "rjs_gc.c"], [("weak references", "src/lib/rjs_weak_ref_opt.c"), ("finalization", "src/lib/rjs_finalization_registry_opt.c")],
  "4 objects with arbitrary links and weak map entries; histories of 4 operations on 3 keys; 4 registrations, unregistrations, drops and collections with 2 registries and shared tokens.",
  over=("histories", "schedules"), quick=40)
