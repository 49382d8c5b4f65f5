#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json

P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

M = "best/memory/"
C = "best/container/"
T = "best/text/"

prop("C01", "Heap blocks are aligned, disjoint, content-preserving and returned intact",
  "Every block obtained from the default allocator is aligned and large enough for the layout it was requested with, overlaps no other live block, is all zero when zeroed memory was asked for, and keeps its first min(old,new) bytes when resized. Returning a block with the layout it was obtained with always succeeds and leaks nothing. In debug builds, returning an over-aligned-path block with a different layout than the one it was obtained with is reported as a crash rather than corrupting memory silently.",
  ["histories", "inputs"],
  "every history of allocate / zero-allocate / resize / return over any layouts (sizes from 1 byte to megabytes, any power-of-two alignment from 1 to 4096) and any content",
  "No existing test calls the allocator directly; containers only ever request alignments up to 16, so resizing of over-aligned blocks is never run.",
  [M + "allocator.cc", M + "allocator.h", M + "layout.h"],
  [("alloc/zalloc/realloc/dealloc and the debug cookie", M + "allocator.cc"), ("layout arithmetic", M + "layout.h")],
  state=[("cookie", "layout recorded in front of each block in debug builds", M + "allocator.cc")],
  observe=["return value and contents of each allocator call", "AddressSanitizer heap shadow"])

prop("C02", "Memory layouts follow the platform rules for scalars, arrays, structs and unions",
  "The layout of a type has its size and alignment; the layout of an array is count times the element and never wraps around (an unrepresentable size crashes); the layouts computed for a list of members used as a struct or as a union equal what the compiler itself gives a standard-layout struct or union with those members. Accessors and comparison of layouts agree with those numbers.",
  ["inputs", "programs"],
  "every member list of object types (any size/alignment mix, up to 6 members), every array element type and count up to the maximum size",
  "Tests check a handful of member lists and no count near the overflow edge.",
  [M + "layout.h", M + "internal/layout.h"],
  [("of_struct / of_union / array", M + "layout.h")])

prop("C03", "Checked element and range access is exact or crashes, never out of bounds",
  "Indexing or slicing any sequence (spans, fixed-size spans, growable arrays, strings, owned strings) by any index or any combination of start, end, inclusive end and count yields exactly the elements those bounds denote when they lie inside the sequence; otherwise the crashing accessors stop the process with the library's crash message and the optional-returning accessors return nothing. No such access ever reads, writes or returns memory outside the sequence.",
  ["inputs"],
  "every length, every index and every combination of bounds including values near the maximum of the size type; first/last/split-off-prefix helpers with any count",
  "Tests use a few in-range bounds and a few crash cases; wrap-around bounds and boundary values are not sampled.",
  ["best/iter/bounds.h", "best/iter/bounds.cc", M + "span.h", C + "vec.h", T + "str.h"],
  [("bounds::compute_count / try_compute_count", "best/iter/bounds.h"), ("span::at, operator[], first/last/take_first/take_last", M + "span.h"), ("str at/operator[]", T + "str.h")],
  observe=["returned pointer/length relative to the sequence", "exit status and stderr of forked children", "AddressSanitizer"])

prop("C04", "Searching, splitting and affix tests on spans agree with the naive definition",
  "For any element type and any contents, finding a value, sub-sequence or predicate match in a span, testing or stripping prefixes and suffixes, containment, and splitting (once, or iterated) give exactly the answer of the naive element-by-element definition. This holds whichever internal strategy (byte comparison, memory search, element loop) is chosen, and nothing outside the spans is read.",
  ["inputs"],
  "every haystack and needle over small and large alphabets, element widths 1, 2, 4, 8 and class types, any alignment and embedded zero bytes",
  "The byte-search path can match at positions that are not element boundaries; tests hold one or two examples per function.",
  [M + "span.h", M + "internal/bytes.h"],
  [("search / search_memmem / equate / compare", M + "internal/bytes.h"), ("span::find, contains, starts_with, split_at, strip_*", M + "span.h")])

prop("C05", "Comparisons of compound values are one lexicographic total order",
  "Spans, growable arrays, strings, rows, options, results, alternatives and boxes compare equal exactly when their contents compare equal element by element, and order exactly as the lexicographic order of the elements' own ordering (an empty option before any full one; an earlier alternative before a later one). Equality, the three-way result and the six relational operators never disagree, and combining or mapping ordering values follows the same rules.",
  ["inputs"],
  "every pair and triple of values of each compound type, over signed and unsigned elements of every width, characters, booleans, pointers, nested compounds and class types",
  "Byte-wise comparison gives the right answer on the small non-negative bytes tests use and the wrong one on others; antisymmetry and transitivity are never tested.",
  [M + "span.h", M + "internal/bytes.h", C + "option.h", C + "result.h", C + "choice.h", C + "row.h", "best/base/ord.h"],
  [("span operator<=>", M + "span.h"), ("choice/option/result/row operator<=>", C), ("ord helpers", "best/base/ord.h")])

prop("C06", "Sorting and in-place rearrangement of spans is a correct permutation",
  "Sorting a span (stably or not, by default order, by key or by comparator) leaves a permutation of the original elements in order, with equal elements keeping their original order when a stable sort was asked for; binary search on a sorted span finds a matching element whenever there is one and otherwise the right insertion point. Reversing, swapping, shifting, copying and filling produce exactly the described arrangement, touch nothing outside the span, and neither lose nor duplicate an object.",
  ["inputs", "histories"],
  "every content, length (0 to thousands), key function, comparator and overlap of source and destination, for trivially and non-trivially movable elements",
  "Tests sort one short array each and never check stability or object conservation.",
  [M + "span.h", M + "span_sort.h", M + "ptr.h"],
  [("sort/stable_sort/bisect", M + "span_sort.h"), ("swap/reverse/shift_within/emplace_within/copy_from", M + "span.h"), ("relo/relo_overlapping", M + "ptr.h")])

prop("C07", "The growable array behaves as an ideal sequence under any history of operations",
  "After any sequence of operations (push, insert, splice, erase, remove, pop, resize, truncate, clear, assign, reserve, shrink, copy, move, swap) a growable array holds exactly the elements an ideal mathematical sequence would hold, in the same order, with consistent size, capacity and emptiness. This is independent of where the elements are stored (inside the object or on the heap), of the element type, and of how often it moved between the two.",
  ["histories", "inputs"],
  "every operation history over arrays of trivially copyable, movable-only, self-referential (non-relocatable) and over-aligned element types, with every inline capacity including zero and 255-byte-class sizes",
  "Tests are fixed scripts on ints and a few strings; transitions of storage combined with moves of non-relocatable elements are not sampled.",
  [C + "vec.h", M + "ptr.h"],
  [("insert_uninit / resize_uninit / spill_to_heap / shrink_to_fit", C + "vec.h"), ("relo_overlapping", M + "ptr.h")],
  state=[("size/inline flag byte", "inline size, or marker that storage is on the heap", C + "vec.h")])

prop("C08", "Every object held by a container is constructed once and destroyed exactly once",
  "Whatever is done to the library's owning types (growable arrays, boxes, options, alternatives, results, rows, owned strings, type-erased values), each contained object is constructed exactly once before use, never used after destruction or a relocation, and destroyed exactly once by the time its owner is gone. No memory is leaked, freed twice or freed through the wrong layout, and moves never silently become copies.",
  ["histories"],
  "every history of construction, copy, move, assignment (including self-assignment), emplacement, swap, reset and destruction, for trivial and non-trivial, relocatable and non-relocatable element types",
  "Lifetime errors usually leave values looking right; the existing leak-check helper is used in only a few scripts.",
  [C + "vec.h", C + "box.h", C + "choice.h", C + "option.h", C + "result.h", C + "row.h", "best/func/dyn.h", M + "ptr.h"],
  [("destroy/relo/copy primitives", M + "ptr.h"), ("choice destructor/assignment", C + "choice.h"), ("pun", C + "pun.h")],
  observe=["construct/destroy/copy/move event log of an instrumented element type keyed by address", "AddressSanitizer + LeakSanitizer"])

prop("C09", "Boxes own exactly one value and keep it through copies, moves and erasure",
  "A box holds the value it was given at a stable address until it is destroyed, moved out of or leaked; copying a box makes an independent equal value, moving transfers the same object and leaves the source empty, and boxed spans and boxed type-erased values keep their length and dynamic type. Assigning between any two boxes (full, moved-from, different dynamic type, itself) gives the destination the source's value.",
  ["histories"],
  "every history of construct, copy, move, assign, swap, leak and re-adopt on boxes of scalars, objects, spans and type-erased values",
  "Tests assign boxes once; assignment into moved-from boxes and between different dynamic types is not exercised.",
  [C + "box.h", "best/func/dyn.h", M + "ptr.h"],
  [("box copy/move", C + "box.h"), ("dyn metadata copy", "best/func/internal/dyn.h")])

prop("C10", "A choice always holds exactly the alternative last put in it",
  "A choice reports exactly the alternative most recently constructed, emplaced or assigned into it, gives access to exactly that value, gives nothing (or crashes with the library's message, for the crashing accessor) for every other alternative, and dispatch calls exactly the handler of the held alternative with the held value. This is so for any mix of alternatives, including empty, reference, void and repeated types, and for every storage strategy chosen.",
  ["histories", "inputs"],
  "every history of emplace, copy/move construct and assign between any pair of alternatives, over trivial, non-trivial, move-only, reference, void and niche-carrying alternatives",
  "Tests construct a few choices and rarely assign across alternatives.",
  [C + "choice.h", C + "internal/choice.h", C + "pun.h"],
  [("tag / niche representations", C + "internal/choice.h"), ("emplace, assignment, match", C + "choice.h")])

prop("C11", "Options and results behave as maybe-values, independent of niche storage",
  "An option is full exactly when a value was last put in it, and every combinator (map, then, filter, inspect, and/or/xor, emplacement, value-or, conversions, and the corresponding operations on results) returns what its definition on maybe-values gives, running callbacks exactly when and as often as that definition says. This holds identically for types stored with a spare-value (niche) representation, references, void and nested options; reading an empty option crashes with the library's message.",
  ["histories", "inputs"],
  "every history of assignments and every combinator on empty and full states, over element types with and without niches, references, void and nested options",
  "Tests call each combinator once with ints; niche-backed and nested states are sampled a few times.",
  [C + "option.h", C + "result.h", "best/base/niche.h"],
  [("option combinators", C + "option.h"), ("result combinators", C + "result.h"), ("niche protocol", "best/base/niche.h")])

prop("C12", "Rows keep every field in place under lookup, slicing and rebuilding",
  "A row (heterogeneous tuple) stores each field's value, and every way to read, slice, join, insert into, erase from, scatter, gather, forward or iterate it gives exactly the fields an index-by-index definition gives, in order, with their types and reference-ness. Lookup by key type and by index agree.",
  ["programs", "inputs"],
  "every row shape (0 to 8 fields; empty, reference and non-trivial types) and every slice/insert/splice position and value assignment",
  "Tests check one shape per operation; positions at the ends and empty-type fields are not covered.",
  [C + "row.h", C + "internal/row.h"],
  [("row slicing and rebuilding operations", C + "row.h")])

prop("C13", "Text encodings round-trip, reject malformed input and stay inside the buffer",
  "For every encoding, writing any encodable rune and reading it back gives the same rune and size, forwards and backwards; reading any malformed, truncated, overlong or surrogate-bearing input reports an error without reading or writing outside the given buffer; and whole-input validation accepts exactly those inputs that decode rune by rune to the end. A rune an encoding cannot represent, or a buffer too small for it, is reported as an error and never written partially.",
  ["inputs"],
  "every rune, every encoding (ASCII, Latin-1, UTF-8, WTF-8, UTF-16, UTF-32 and their variants) and every byte or code-unit string, exhaustively for short ones",
  "Tests decode a few hundred well-formed strings and none of the truncated or ill-formed ones.",
  [T + "utf8.h", T + "utf16.h", T + "utf32.h", T + "ascii.h", T + "encoding.h", T + "rune.h", T + "internal/utf.h"],
  [("decode8/encode8/undecode8, decode16...", T + "internal/utf.h"), ("rune::decode/encode/validate", T + "encoding.h")])

prop("C14", "Rune classification, digit conversion and construction match their definitions",
  "A rune can be built from an integer exactly when it is a Unicode scalar value (or a surrogate, where explicitly allowed); its case, digit, whitespace, control and punctuation predicates, ASCII case mapping, digit conversion in any radix from 2 to 36, escaping and comparisons agree with the ASCII/Unicode definitions for every code point.",
  ["inputs"],
  "every 32-bit integer used as a code point (all code points exhaustively) and every radix",
  "Tests sample a couple of dozen runes.",
  [T + "rune.h"],
  [("rune::validate, is_ascii_*, to_digit, from_digit, escaped", T + "rune.h")])

prop("C15", "String queries agree with the rune sequence, across encodings",
  "Searching, containment, prefix/suffix tests and stripping, splitting (once or iterated, from either end, by rune, string or predicate), trimming, indexing of runes, and comparison of strings give exactly the answer obtained by working on the two decoded rune sequences, whatever the two strings' encodings are. Every returned piece is a valid sub-string at the right code-unit position, and a rune the string's encoding cannot represent is simply not found.",
  ["inputs"],
  "every pair of strings in every pair of encodings (UTF-8, UTF-16, UTF-32, ASCII-subset, Latin-1), needles longer/shorter/overlapping/repeated, every rune and predicate",
  "Tests use short ASCII examples, mostly in one encoding; self-overlapping needles and mixed encodings after partial matches are not sampled.",
  [T + "str.h", T + "encoding.h"],
  [("pretext find/contains/starts_with/split/trim/compare", T + "str.h")])

prop("C16", "Owned strings stay valid and equal to the ideal rune sequence under edits",
  "After any history of edits (strict or lossy push of runes, strings and raw input in any encoding, truncation, clear, reserve, copy, move, assign, conversion from raw input or from another encoding, release of the buffer) an owned string's contents equal those of an ideal rune sequence, are valid in its encoding, and agree with its reported size. An edit that cannot be represented in the encoding, or at a position inside a character, reports failure or crashes cleanly and leaves no partial character.",
  ["histories", "inputs"],
  "every history of edits on owned strings of each encoding, with source text in any encoding",
  "Tests push a few literals once.",
  [T + "strbuf.h", T + "str.h", C + "vec.h"],
  [("textbuf push/extend/truncate", T + "strbuf.h")])

prop("C17", "Formatted values obey the format spec for every value",
  "Formatting an integer of any width, a boolean, rune, string, pointer or collection with any combination of fill, alignment, sign/alternate flag, zero-padding, width, precision and radix produces exactly the text the documented grammar prescribes, in particular digits that parse back to the same value, including each type's minimum and maximum. Padding brings the output to exactly the requested width counted in runes and never truncates the value. best::print, println, eprint and eprintln write exactly the bytes best::format gives (and the newline), in order, to the right stream.",
  ["inputs"],
  "every value of every integer type (all 8/16-bit values, boundary and random wider ones), every string, every format specification",
  "Tests contain about sixty fixed templates; extreme values and combinations of flags with width are not sampled.",
  [T + "internal/format_impls.h", T + "format.h", T + "format.cc"],
  [("BestFmt for integers/strings/runes", T + "internal/format_impls.h"), ("padding helpers", T + "format.cc")])

prop("C18", "Debug and pretty output faithfully nests records, lists and indentation",
  "The structured-output builders (records, tuples, lists, maps, options, results, rows, reflected structs) print every entry exactly once, in order, with the right separators and matching brackets; the pretty form puts each entry on its own line, indented by its nesting depth, and is otherwise token-for-token the compact form. Text containing newlines that is printed at an indentation is neither dropped, duplicated nor left unindented.",
  ["inputs", "programs"],
  "every tree of nested collections/records up to depth 6 with arbitrary strings as leaves, compact and pretty",
  "Tests pretty-print two fixed structures.",
  [T + "format.h", T + "format.cc", T + "internal/format_impls.h"],
  [("formatter::write indentation", T + "format.cc"), ("formatter::block", T + "format.h")])

prop("C19", "Format templates parse exactly; malformed ones are rejected at compile time",
  "A template is accepted at compile time exactly when it follows the documented grammar and refers to existing arguments with supported specs; every accepted template renders its literal text (with doubled braces collapsed) and each argument in the order given by implicit or explicit positions. Rendering never reads outside the template or argument list.",
  ["programs", "inputs"],
  "every template string over the grammar's alphabet up to length 6 plus random longer ones, and every argument count up to 4",
  "Tests hold only well-formed templates; the rejecting side is never run.",
  [T + "internal/format_parser.h", T + "format.h", T + "format.cc"],
  [("visit_template / parse_spec / parse_arg", T + "internal/format_parser.h"), ("format_template consteval constructor", T + "format.h")])

prop("C20", "Integer parsing accepts exactly the in-range numerals of the radix",
  "Parsing an integer from text in any radix from 2 to 36, with or without sign or prefix, returns the value denoted if and only if the whole text is a numeral of that radix whose value fits the target type, and otherwise an error. Text in any encoding gives the same answer.",
  ["inputs"],
  "every string over digits, signs, prefixes and junk; every target integer type; every radix; every encoding",
  "Tests try a few numerals per type; overflow edges and sign handling of short unsigned numerals are not sampled.",
  ["best/math/conv.h"],
  [("atoi / atoi_with_sign / atoi_with_prefix", "best/math/conv.h")])

prop("C21", "Overflow-aware arithmetic matches exact integer arithmetic",
  "For every integer type and operation the overflow-tracking type first brings operands of different types to their common type (the widest, unsigned if any is), and gives the two's-complement wrapped value together with an overflow flag that is set exactly when the exact mathematical result does not fit, a shift amount is out of range (it is then masked), or an earlier step overflowed; the wrapping, checked and strict views follow from that, and saturating helpers clamp the exact result of operands of the same signedness. The remainder of the one overflowing division is the minimum, as the repository's tests pin it. Mixed-sign comparison, minimum/maximum, conversions between integer types and division helpers equal their mathematical definition, and no input causes undefined behaviour.",
  ["inputs"],
  "every pair of operands for 8-bit types exhaustively, boundary and random values for wider types, every operator and every pair of types; chains of operations",
  "Tests try a handful of values of int32.",
  ["best/math/overflow.h", "best/math/int.h", "best/math/internal/common_int.h"],
  [("overflow<I> operators", "best/math/overflow.h"), ("int_cmp/checked_cast/saturating_cast/div helpers", "best/math/int.h")])

prop("C22", "Bit operations match the bit-level definition for every value and width",
  "Counting, scanning, rotating, shifting (including oversize shifts), bit-width, and power-of-two tests and rounding (up to the least power of two above the value) give the answer of the bit-by-bit definition for every value of every integer width, without undefined behaviour.",
  ["inputs"],
  "every value of 8- and 16-bit types exhaustively, boundary and random values for 32/64-bit types, every shift count",
  "Tests try a few 32-bit constants; narrow types and edge shifts are not covered.",
  ["best/math/bit.h", "best/math/int.h"],
  [("shift/rotate/count/next_pow2", "best/math/bit.h")])

prop("C23", "Iterators and their adaptors yield exactly the described sequence",
  "Iterating a range of integers, a container, or any chain of adaptors (map, inspect, enumerate, take, skip, rev and collecting/folding operations) yields exactly the elements of the corresponding list operation, in order, once each, and ends there. Consuming from both ends in any interleaving yields each element once; size hints bracket the true remaining count at every step; and count/last/for-range agree with stepping by hand.",
  ["inputs", "histories"],
  "every range including ones touching the type's limits, every chain of up to 4 adaptors, every interleaving of front and back steps",
  "Tests check two or three adaptor uses front to back.",
  ["best/iter/iter.h", "best/iter/bounds.h", M + "span.h"],
  [("iter adaptors and size_hint", "best/iter/iter.h"), ("int_range", "best/iter/bounds.h"), ("span iterators", M + "span.h")])

prop("C24", "Function references, erased types and deferred actions run as written",
  "Calling through a function reference or a type-erased interface runs exactly the target's function on the target object with the given arguments, once, without extra copies, and returns its result; erased values are copied and destroyed as their real type. Taps and calls apply exactly the given function and inspecting taps return their argument. Deferred actions run exactly once at scope end unless cancelled, in reverse order, and early-return guards return exactly when their condition fails.",
  ["programs", "histories"],
  "every signature shape (values, references, move-only arguments, void), lambdas, functions and members, and every sequence of creation, move, cancel and run of deferred actions",
  "Tests call each once.",
  ["best/func/fnref.h", "best/func/dyn.h", "best/func/defer.h", "best/func/tap.h", "best/func/call.h", "best/func/arrow.h", "best/base/guard.h"],
  [("fnref thunks", "best/func/internal/fnref.h"), ("vtables", "best/func/internal/dyn.h"), ("defer", "best/func/defer.h")])

prop("C25", "Command-line parsing assigns every token by the declared flags or reports it",
  "For any argument vector, the parser either fills the declared flags, groups, subcommands and positionals exactly as the documented syntax assigns the tokens (long and short forms, attached or separate values, runs of short flags, aliases, counts, repeats, double dash, extra tokens), or returns an error naming the offending token; it never crashes, hangs or reads outside the arguments. Missing required arguments, repeated single-use arguments, unknown names and unparseable values are always errors.",
  ["inputs", "configurations"],
  "every argument vector (including empty strings, lone dashes, equal signs and non-ASCII text) against command definitions using every kind of flag, group, subcommand and positional",
  "Tests parse about thirty vectors against one definition; empty tokens, nested groups and tokens whose letters collide with short flags are not tried.",
  ["best/cli/parser.cc", "best/cli/parser.h", "best/cli/cli.h"],
  [("parse loop and flag lookup", "best/cli/parser.cc"), ("flag/group/subcommand/positional declarations", "best/cli/cli.h")])

prop("C26", "Usage text lists exactly the visible parts of a command definition",
  "The generated usage output lists every visible flag, group, subcommand and positional exactly once under its declared name, letter, argument label and help text, in the normal and the extended form, and never shows hidden ones; asking for it stops parsing and reports the requested text. Printing never reads outside the definition or fails for any declaration.",
  ["configurations"],
  "every command definition using any mix of names, letters, aliases, visibility levels, counts, help text and nesting",
  "Tests compare one usage text.",
  ["best/cli/parser.cc", "best/cli/cli.h"],
  [("usage printer", "best/cli/parser.cc"), ("visibility levels", "best/cli/cli.h")])

prop("C27", "Crashes stop the process with the location and the whole message",
  "When a contract is violated or a crash is requested, the process stops with the library's exit status after printing the thread, the source location (that of the caller wherever the function takes one) and the formatted message, whatever the message's length and arguments, without undefined behaviour on the way. Nothing after the crash point runs.",
  ["inputs"],
  "every crash entry point, message length from 0 to many kilobytes, formatted arguments of any kind, any calling thread",
  "Death tests cannot see the message being read past its buffer; messages in tests are short.",
  ["best/log/internal/crash.cc", "best/log/internal/crash.h", "best/log/wtf.h", "best/log/location.h"],
  [("die / crash", "best/log/internal/crash.cc"), ("wtf", "best/log/wtf.h")])

prop("C28", "System error codes map to stable names and messages for every value",
  "Every operating-system error number converts to an error value that reports that number, the platform's symbolic name and a description, prints both, compares equal exactly to the same number, and can be stored in an option without colliding with the empty state; unknown or out-of-range numbers are reported as unknown without reading outside the tables.",
  ["inputs"],
  "every 32-bit error number",
  "There is no test of this part at all.",
  ["best/io/ioerr.cc", "best/io/ioerr.h", "best/io/errnos.inc"],
  [("name/description tables", "best/io/ioerr.cc")])

prop("C29", "Reflection reports each field and enumerator once, in order, with its value",
  "For any reflected struct (without bases; fields no arrays, references or bit-fields; not in an anonymous namespace) and any enum with distinct enumerators, iteration visits each reflected item exactly once with its real name, type, value and tags: fields in declaration order, inferred enumerators in ascending order of value over the inferred range, then explicitly added items in the order they were added; hidden items are absent; the field address and value are those of the object at hand; lookups by name and by value find exactly the listed item or report its absence; and type names, enumerator names and bit-set enums behave per their definition for every value.",
  ["programs", "inputs"],
  "reflected aggregates of 0 to 64 fields and enums of contiguous, sparse, negative or extreme values",
  "Tests reflect two types.",
  ["best/meta/reflect.h", "best/meta/internal/reflect.h", "best/meta/names.h", "best/meta/bit_enum.h"],
  [("field/value enumeration", "best/meta/internal/reflect.h")])

prop("C30", "Evaluation at compile time and at run time agrees",
  "Every operation of the library that is usable in constant expressions gives the same result when evaluated at compile time as when the same inputs are given at run time: span search, comparison, splitting, sorting (unstable), bisection and copying; pointers; iterators and ranges; text in every encoding, well-formed or not; rune and integer parsing; overflow-tracking, saturating and bit arithmetic; options, results, choices and rows. Evaluating such an operation on valid inputs at compile time never meets undefined behaviour or a crash, and objects and literals built by the compiler behave at run time like ones built there.",
  ["inputs"],
  "every constant-evaluable operation over pseudo-random inputs",
  "Many primitives take a different path when constant-evaluated; tests run one or the other, not both against each other.",
  [M + "internal/bytes.h", M + "span.h", M + "ptr.h", T + "internal/utf.h", "best/math/conv.h", C + "option.h", "best/math/bit.h"],
  [("is_constant_evaluated branches", M + "internal/bytes.h")])

prop("C31", "Type lists are transformed exactly like the lists they stand for",
  "Every query and transformation of type lists (indexing, finding, slicing, joining, inserting, removing, splicing, mapping, folding, counting, uniqueness) yields exactly the list the element-wise definition yields, for any list and any in-range position.",
  ["programs"],
  "every list of up to 8 types and every position, slice and count",
  "Tests instantiate a dozen expressions; positions at the ends are rarely covered.",
  ["best/meta/tlist.h", "best/meta/internal/tlist.h"],
  [("tlist operations", "best/meta/tlist.h")])

prop("C32", "Pointers, object slots and layouts act on exactly the addressed objects",
  "Pointer offset, difference, comparison, casting, reading, writing, constructing, copying, relocating and destroying through the library's pointer type (to single objects, fixed and run-time sized arrays, references and functions) act on exactly the addressed object(s), with the address arithmetic of the element size, for positive and negative offsets and any overlap; every object is created, used and destroyed exactly once, and overwritten values are destroyed or assigned as documented. Reference, void, function and array slots wrapped as objects or as alternatives of an untagged union keep their identity. Layouts of types, arrays, structs and unions are those the compiler gives, and impossible sizes crash.",
  ["inputs", "histories"],
  "every offset, element type (trivial, non-trivial, non-relocatable), count and overlap distance",
  "Tests do one offset in one direction and do not check overlapping relocation of non-trivial objects.",
  [M + "ptr.h", M + "internal/ptr.h", M + "layout.h", C + "object.h", C + "pun.h"],
  [("ptr primitives", M + "ptr.h"), ("object/pun wrappers", C + "object.h")])

prop("C33", "Type traits and construction concepts answer as the language does",
  "For every type, the library's traits (qualifiers, references, pointers, arrays and their shapes, classes and derivation, function types and their qualifiers, enums, emptiness, sameness and selection) and qualifier/reference transformations answer what the language itself answers. For every pair of types, its construction, conversion, assignment, copy, move, relocation and destruction concepts, plain and trivial, are true exactly when the operation is well-formed (element by element for arrays; for references by pointer conversion, an rvalue reference only from rvalue references and never by conversion; void from nothing or one value). Generic operators and calls are available exactly when the built-in expression or std::invoke is, with the same type, value and target, and fold from the left.",
  ["programs", "inputs"],
  "every type reachable by qualifiers, references, arrays, pointers and function modifiers, and every pair of types",
  "Tests assert a handful of named types; a wrong trait makes containers pick a byte copy or refuse a valid operation far from the trait.",
  ["best/meta/init.h", "best/meta/internal/init.h", "best/meta/traits/quals.h", "best/meta/traits/refs.h", "best/meta/traits/arrays.h", "best/meta/traits/classes.h", "best/meta/traits/funcs.h", "best/meta/traits/types.h", "best/meta/ops.h", "best/func/call.h"],
  [("construction rules", "best/meta/internal/init.h"), ("trait concepts", "best/meta/traits/quals.h")])

prop("C34", "An application runs once on its command line and exits as it says",
  "A declared application's function runs exactly once, sees the program name and the arguments byte for byte (or, if it takes a flags struct, the flags the command line gives), and the process exits with the status it returns: 0 for void, the returned number, or a crash showing the error of a returned error result. A refused command line is reported on the standard error with a failure status, a request for help on the standard output with status 0, and in both cases the function does not run. Two applications in one program, starting without one, or starting twice crash with a message saying so.",
  ["inputs", "histories"],
  "every command line, function signature and return value",
  "The test suite only ever runs one application (the test runner) successfully; exit statuses and refused lines are never observed.",
  ["best/cli/app.h", "best/cli/app.cc", "best/cli/cli.cc"],
  [("app::start and shims", "best/cli/app.h")])

prop("C35", "A test program runs every selected test and reports each outcome truthfully",
  "Every test defined in the program, in whatever order its files are linked, is run exactly once per run of the test program if and only if its name is selected (no filter given or some filter is a substring, and no skip pattern is), in order of definition. A test passes exactly when no expectation failed in that run; each expectation returns whether it held; each failure is reported once with the place of the call, the compared values and the formatted message; the results list every passed and failed test under its name, and the exit status is zero exactly when none failed.",
  ["inputs", "histories"],
  "every set of tests, outcomes, filters and skip patterns",
  "A test library cannot notice its own lost tests or swallowed failures: its suite only shows that passing tests pass.",
  ["best/test/test.h", "best/test/test.cc", "best/test/test_main.cc"],
  [("expectations", "best/test/test.h"), ("run_all", "best/test/test.cc")])

prop("C36", "Threads using distinct objects never race or disturb each other",
  "The library keeps no hidden mutable state: threads that each work on their own objects (text, containers, boxes, callables, formatters, command lines, allocations), or that only read shared ones through const operations (including copying, comparing, searching and printing them), do not race, whatever the interleaving and including the first use of the library in the process; each operation returns what it would return if no other thread were running. Starting the application, running tests and crashing are process-wide and excluded.",
  ["inputs", "schedules"],
  "every program whose threads share no object that one of them modifies",
  "Every test is single-threaded: a static scratch buffer, a memoising const accessor or a lazily filled table would pass them all.",
  [M + "allocator.cc", T + "format.h", T + "format.cc", C + "vec.h", "best/cli/parser.cc", "best/meta/reflect.h", "best/io/ioerr.cc"],
  [("allocator", M + "allocator.cc"), ("formatter", T + "format.h"), ("flag parser", "best/cli/parser.cc")])

prop("C37", "The macro toolkit expands exactly as documented, for every number of arguments",
  "For every argument list of up to 63 arguments (61 for the mapping macros and BEST_VARIADIC): BEST_COUNT is the number of arguments (a trailing comma is not one); BEST_ADD_TRAILING_COMMA and BEST_REMOVE_TRAILING_COMMA give the same arguments with and without the trailing comma, whether or not it was there; BEST_NTH(i, ...) is the i-th argument; BEST_VA_OPT gives its first argument exactly when others follow; BEST_VARIADIC calls MACRO_n_ with the n arguments; BEST_MAP, BEST_MAP_JOIN, BEST_IMAP and BEST_IMAP_JOIN apply the macro to every argument once, in order, with the right index and the (unparenthesised) separator exactly between two calls; the _REC forms do the same inside BEST_EXPAND and nested in each other; BEST_PARENS and BEST_REMOVE_PARENS add and remove one pair of parentheses; BEST_STRINGIFY and BEST_PRAGMA expand their arguments first.",
  ["inputs"],
  "every argument list within the documented limits",
  "The tests never expand these macros except through BEST_INTERFACE with a few methods; each argument count has a definition of its own (64 of them per macro), so one wrong line is met only by that count.",
  ["best/base/macro.h", "best/base/internal/macro.h", "best/base/internal/macro.inc"],
  [("macros", "best/base/macro.h"), ("expansion tables", "best/base/internal/macro.inc")])

if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        print(json.dumps(p, ensure_ascii=False))
