D={
'C01':("A table of live blocks (address, layout, content hash). After each call: alignment, disjointness from every other live block, zeroing, min(old,new) bytes preserved on resize; LeakSanitizer at the end; misuse (wrong layout, double return of cookie-carrying blocks) in forked children.",
 "Sizes to a few MB, alignments 1-4096, histories of up to 60 steps; the whole (old alignment x new alignment) resize grid. Sizes near SIZE_MAX are left to C02 (the system allocator may legitimately refuse).",
 "Tests only see the allocator through containers of 16-byte aligned types; resizing over-aligned blocks - where the original code copied the wrong number of bytes - is only reached by driving it directly."),
'C02':("The compiler's own `sizeof`/`alignof` of a struct/union with the same members, instantiated from generated member lists; 128-bit arithmetic for array layouts, with refusal (crash) expected exactly on wrap-around.",
 "Members from 12 types, lists up to 6; counts biased to the wrap edge. `layout::array` is only held to the size_t bound, not to the max/2 its message mentions.",
 "Layouts are computed from arbitrary member lists; the tests compare three."),
'C03':("Bounds normalised in 128-bit arithmetic: the accessor must return exactly the sub-range (address and length), or none, or crash with status 128 - never touch memory outside (exact-size blocks under ASan).",
 "Exhaustive for sizes 0-8 and every form of bounds, plus values at the top of size_t where sums wrap. `end < start` iteration is unspecified and not claimed.",
 "Off-by-ones and wrap-around in bounds need particular (start, count, size) triples; the number of triples per accessor is in the tens of thousands."),
'C04':("Element-by-element naive search over values; pieces of a split must concatenate back to the input.",
 "15+ element types, chosen so that each internal search strategy (memchr, memmem, bytewise, comparator) is used; needles up to 8, haystacks up to 64. Empty needles of rfind/split are unspecified and excluded.",
 "Strategy selection is by type traits: a test on `int` says nothing about padded structs, floats (-0.0/NaN) or types with a custom ==."),
'C05':("The explicit lexicographic definition on plain values; all six operators both ways round, antisymmetry and totality, `unordered` for NaN members.",
 "20 element types incl. those whose byte order differs from value order; lengths up to 8.",
 "memcmp shortcuts are only wrong for signed, multi-byte little-endian or padded types."),
'C06':("Each element carries a serial number: the output must be a permutation, ordered by the given comparator or key, and for stable sorts preserve serial order among equals; in-place moves are compared with vector models over lifetime-tracked objects.",
 "Up to 500 elements (thorough 2,000), patterned inputs; `shift_within` exhaustively up to 8 elements.",
 "Stability and merge boundaries need runs longer than the insertion-sort threshold and equal keys."),
'C07':("`std::vector` model: content, size, capacity discipline, inline/heap mode, iteration after every step; lifetime registry; layout-and-arena checking allocators.",
 "28 (element type, inline capacity, allocator) combinations, histories of 4-43 operations. Pushing an element of the vector itself (`v.push(v[0])`), assigning a sub-span of itself and self-move are unspecified and excluded.",
 "The mode (inline/heap), the size's encoding in the last byte and aliasing inserts interact over histories, not calls."),
'C08':("Lifetime registry: every construction, use and destruction is an event; each object dies once, none is used dead, heap blocks balance around each case.",
 "52 owning types incl. nestings; histories of 4-29 operations.",
 "Double destruction and leaks produce right-looking values."),
'C09':("Model of (values, dynamic type, address, arena) per slot; registry; allocators; self-owning structures (lists, trees).",
 "16 contents/allocator combinations, 3 slots. Comparing or copying *values* of moved-from boxes is not claimed; copying the moved-from state is.",
 "Assignment from something owned by the target only fails for self-referential structures."),
'C10':("Model of (alternative, value); every accessor, pointer, object view and match form compared for every alternative after each step; wrong-alternative access in forked children.",
 "42 choice types up to 300 alternatives. Which alternative a moved-from choice holds is not claimed; emplacing from its own alternative is excluded.",
 "Niche representation, void/reference alternatives and tag width switch by type list."),
'C11':("`std::optional` model; callbacks counted and their arguments' identity recorded; const/mutable/rvalue receivers.",
 "16 + 9 element types. `BEST_GUARD` with move-only errors does not compile and is not claimed.",
 "Niche storage makes `none` a bit pattern: only types with unusual niches show an inconsistency."),
'C12':("Vector of (type, value) model: field types, values and referent addresses after each operation; copies versus moves counted.",
 "30+ row types of 0-5 fields, all indices and ranges. scatter passes its fields as lvalues; not claimed.",
 "Field storage is specialised for 0/1/2/n fields and empty/void/reference fields."),
'C13':("Unicode table 3-7 (well-formed byte ranges) and the UTF-16 rules written out independently; exact-size buffers; the cursor must not move on failure.",
 "All 0x110000 code points, all 1-2 byte sequences, class-representative 3-4 byte sequences, seeded long inputs. WTF-8 surrogate *pairs* are unspecified.",
 "Malformed input space; tests feed a handful."),
'C14':("Definitions over integers; escapes are read back by an independent unescaper.", "All code points and radixes 2-36; radix 0/1 not claimed.", "Tables and boundary characters (`[`, `` ` ``, DEL, C1) are exactly where hand-written ranges go wrong."),
'C15':("Rune sequences: queries are answered on lists of runes and mapped back to offsets.", "7 encodings x 7, incl. a user-defined one with state; haystacks up to ~40 runes over tiny alphabets. rfind/split of the empty needle are unspecified.", "Fast byte paths are taken only for equal encodings; self-overlap needs tiny alphabets."),
'C16':("Rune sequence encoded independently; allocator monitor.", "7 encodings; pushing a string into itself is excluded.", "Refused transcodes must leave the old content - only seen with unencodable runes after an encodable prefix."),
'C17':("Expected text built from the documented rules for the spec.", "Widths to 1,000; padding of *quoted* strings is unspecified.", "Interactions of sign, prefix, fill, width and precision."),
'C18':("Independent renderer of a tree of blocks, incl. token comparison between compact and pretty forms.", "Depth 5; `advise_size` after entries is excluded.", "Indentation is stateful across nested multi-line text."),
'C19':("Independent parser of the documented grammar; acceptance at compile time observed through `requires`, arguments and rendered text compared.", "1,280 generated templates per run, seeded strings through the run-time parser. `{:.}`, `}` or non-ASCII as fill, and `!` followed by an alignment are not claimed.", "Malformed templates: unbounded input space."),
'C20':("128-bit magnitude of the runes read.", "11 integer types, radix 2-36; 8-bit values exhaustively.", "Only numerals next to the limits distinguish a correct overflow check."),
'C21':("Exact sign-magnitude 128-bit arithmetic and a sticky flag.", "All pairs of 8-bit operands; 121 type pairs, seeded. Saturating/ceildiv of mixed signedness and `/`,`%` of different types are not claimed.", "Mixed-width promotions and INT_MIN cases."),
'C22':("Arrays of bits.", "Exhaustive 8-bit, near-exhaustive 16-bit.", "Oversize shift amounts and signed shifts."),
'C23':("Lazy list models recording the same callbacks in the same order.", "Chains of up to 3(4) adaptors, both ends. Ranges with end < start, open-ended ranges from start != min, and start+count == 2^n are not claimed.", "Stepping from both ends and the whole-type ranges (256 values in 8 bits)."),
'C24':("Log of who ran on which object with what arguments, compared with the model's.", "17 kinds of targets, 5 erased types, 3 interfaces. Copying a `defer` is not claimed.", "Dangling and const-ness differ by the form of the callable."),
'C25':("Independent reading of the documented syntax over a generated definition.", "Twelve definitions per run; unspecified spellings (single-dash long names, subcommands after `--`, runs inside lettered groups) are counted but not judged.", "Combinations of groups x letters x aliases x counts."),
'C26':("The usage text is taken apart and compared with the definition's visible parts.", "Same definitions, both forms, every (sub)command and group.", "Visibility is merged along the path."),
'C27':("Child's whole stderr, status and past-the-crash flag.", "Messages up to 64 KB; concurrent crashes are not claimed.", "Long messages and embedded NULs."),
'C28':("The C library's tables.", "Numbers 1-700 and seeded 31-bit ones.", "Unknown numbers and thread-local errno."),
'C29':("The generator's own description of the type.", "56 structs, 28 enums; array/reference fields, bases with fields and anonymous namespaces are not claimed (fields cannot be bound there).", "Reflection is by structured binding of n fields and name scraping: depends on counts, names and values."),
'C30':("The same function evaluated by the compiler and at run time: traces must be identical, and the compiler must accept it (no UB).", "62 kinds x 12 (60) seeds per part. `stable_sort` is not constexpr and excluded.", "Different branches are taken under `is_constant_evaluated()`; the compiler's evaluator is itself a UB detector."),
'C31':("Vectors of element numbers; refusal by SFINAE.", "Lists of 0-8 of 26 types, 8 (40) seeds per part.", "Positions and ranges at the ends, defaults, duplicates."),
'C32':("A slot model per address, byte comparison of everything else, lifetime registry.", "14 element types; overlap in both directions. `ptr<void>.copy`, puns copied with non-trivial alternatives are not claimed.", "Overlap direction, partial assignment, guards of moved objects."),

'C33':("The standard library's own traits, `requires` expressions, the built-in operators and `std::invoke`.", "About 100 fixed types, 16 generated types per seed, 8 (24) seeds per part; 40x40 references, 17x17 array elements. Not judged: `as_ref<T&&>` (its documentation contradicts itself), constructing references from non-references, function targets, `convertible` from zero or several arguments, ambiguous or private bases.", "Traits decide between byte copies and constructors; a wrong answer for one family of types is invisible until a container of such a type corrupts memory."),
'C34':("Shared memory written by the application in a forked child; exit status, stdout and stderr against the signature's contract and the parser's own verdict.", "Ten forms, command lines of 0-8 arguments of arbitrary bytes. The wording of crash messages is only searched for the essential words and places.", "A unit test runs inside one successful application."),
'C35':("The scenario each test body follows; shared memory for what ran and what each expectation returned; the parsed transcript.", "14 tests, 0-5 expectations each, 0-4 filters. Names are the linker's symbol names (as the code defines them); the test library's dependence on `-rdynamic` is documented and not judged.", "A test library that loses tests still reports success - which is what it does to tests that are initialized before test.cc is (the known finding)."),
'C36':("ThreadSanitizer on every access, and the same work done by one thread alone (its result, not only its absence of reports).", "2-6 threads, 3-8 steps each; interleavings are the scheduler's, perturbed by seeded yields and sleeps, not enumerated. Application start, the test runner and crashes are process-wide and excluded (a crash prints through a static buffer).", "No test starts a thread, so any hidden state is invisible to the suite."),
'C37':("The real preprocessor runs on generated invocations; each expansion is compared, token for token, with the documented one computed from the argument list.", "Every count from 0 to 63 is expanded at least four times per run for every macro; arguments are random token strings. BEST_VARIADIC without arguments, empty final arguments of the mapping macros and BEST_REMOVE_PARENS on an expression that merely starts with a parenthesis are not specified and not judged.", "Each argument count has its own line in a generated table of 64; the tests reach six of them."),
}
