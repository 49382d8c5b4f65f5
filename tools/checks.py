# Registry of the checks: property -> harness sources, library sources, evidence rule.
CORE = ["memory/allocator.cc", "log/internal/crash.cc", "iter/bounds.cc", "text/format.cc"]
CHECKS = {
 "C01": dict(src=["c01.cc"], expect_events=["alloc", "zalloc", "realloc", "realloc_overaligned", "dealloc", "content_checks", "death_children"],
   rule="A case is a seeded random history of allocate/zero-allocate/resize/return with a table of live blocks as oracle, one alignment pair of the resize grid, or one misuse run in a forked child; distinct = distinct history prefixes (hash of the operation and layout sequence) and distinct grid points.",
   flavors=["asan"], flavors_thorough=["asan", "opt"]),
 "C02": dict(src=["c02.cc"], expect_events=["struct_layouts", "union_layouts", "array_overflow", "array_ok", "fits_in", "of"],
   rule="Member lists (all pairs of 12 member types, 512 triples, 600 random lists of 4-6) compared with the compiler's sizeof/alignof; array counts biased to the wrap-around edge; distinct = distinct lists and (count, element size) pairs."),
 "C03": dict(src=["c03.cc"], expect_events=["in_bounds", "out_of_bounds", "element_in", "element_out", "prefix_in", "prefix_out", "take_in", "take_out", "text_at", "mid_character", "death_children", "static_span"],
   rule="Exhaustive grid of start/end/including_end/count over sizes 0-8 plus values at the top of the size type; random bounds on spans, vecs, boxes and texts over exact-size heap buffers; crashing accessors run in forked children; distinct = distinct (bounds, size, content) triples."),
 "C04": dict(src=["c04.cc"], expect_events=["find_hit", "find_miss", "affix_hit", "affix_miss", "value_hit", "value_miss", "split_pieces", "split_two_ended", "cross_type", "from_nul", "has_subarray"],
   rule="Seeded haystack/needle pairs over tiny alphabets (so that partial matches abound) for 15+ element types covering each search strategy, in exact-size heap buffers; oracle is the element-by-element definition; distinct = distinct (type, haystack, needle)."),
 "C05": dict(src=["c05.cc"], expect_events=["cmp_equal", "cmp_less", "cmp_greater", "cmp_unordered", "fixed_spans", "cross_type", "options", "choices", "results", "rows", "boxes", "nested", "texts", "ordering_values", "mixed_rows", "mixed_choices", "mixed_equal", "common_categories"],
   rule="Seeded pairs of compound values (equal, one-element-changed, prefix and unrelated pairs) over 20 element types including ones whose bytes order or compare differently from their values; every relational operator in both directions is compared with the explicit lexicographic definition; distinct = distinct pairs."),
 "C06": dict(src=["c06.cc"], expect_events=["sorts", "stable_sorts", "sub_span_sorts", "bisections", "reversals", "swaps", "copies", "emplacements", "shifts", "overlapping_forward", "overlapping_backward", "objects_moved", "death_children"],
   rule="Seeded arrays (sorted, reversed, few keys, organ-pipe, boundary keys; 0-500 elements) sorted in every form; permutation, order and stability checked per element through serial numbers; rearrangements against vector models over lifetime-tracked objects in exact-size blocks; shift_within exhaustively up to 8 elements; distinct = distinct (input, form)."),
 "C07": dict(src=["c07.cc:PART_A", "c07.cc:PART_B", "c07.cc:PART_C"], expect_events=["pushes", "inserts", "splices", "self_splices", "appends", "reserves", "raw_inserts", "erases", "removes", "pops", "truncates", "clears", "shrinks", "spills", "copy_assigns", "move_assigns", "copy_constructs", "move_constructs", "swaps", "to_boxes", "from_boxes", "assigns", "range_constructs", "other_vector_types", "resizes", "comparisons", "ended_inline", "ended_on_heap", "objects_moved", "blocks_resized", "death_children"],
   rule="Each case is a seeded history of 4-43 operations over three growable arrays of one of 28 (element type, inline capacity, allocator) combinations, checked after every step against a std::vector model (content, size, capacity, mode, alignment, spare capacity, iteration), with lifetime-tracked elements and allocators that check the layout and arena of every returned block; distinct = distinct operation-history prefixes."),
 "C08": dict(src=["c08.cc:PART_A", "c08.cc:PART_B", "c08.cc:PART_C", "c08.cc:PART_D"], libs=["memory/allocator.cc", "log/internal/crash.cc", "iter/bounds.cc", "text/format.cc"],
   expect_events=["makes", "copy_constructs", "move_constructs", "copy_assigns", "self_copy_assigns", "move_assigns", "self_move_assigns", "swaps", "mutations", "destructions", "moved_out", "heap_balances", "objects_constructed", "objects_destroyed"],
   rule="Each case is a seeded history of 4-29 whole-value operations over four slots of one of 52 owning types (options, niche options, alternatives, results, rows, boxes, boxed spans, type-erased boxes, arrays, texts, and nestings of them) whose elements register every construction, use and destruction; heap blocks are counted around each case; distinct = distinct history prefixes."),
 "C09": dict(src=["c09.cc:PART_A", "c09.cc:PART_B"],
   expect_events=["makes", "copies", "moves", "copy_assigns", "move_assigns", "self_assigns", "swaps", "mutations", "leaks", "try_copies", "try_copies_refused", "options", "destructions", "assigned_to_moved_from", "assigned_from_moved_from", "moved_from_destroyed", "access_forms", "self_owned", "trees", "erasures", "independence"],
   rule="Each case is a seeded history of 4-27 whole-box operations over three slots of boxes of one of 16 (contents, allocator) combinations against a model of (values, dynamic type, address, arena) per slot, or one seeded self-owning structure (list, tree) rearranged; contents register construction, use and destruction, allocators check layout and arena of every returned block; distinct = distinct history prefixes."),
 "C10": dict(src=["c10.cc:PART_A", "c10.cc:PART_B", "c10.cc:PART_C", "c10.cc:PART_D"],
   expect_events=["makes", "emplaced_same", "emplaced_other", "self_assigns", "copy_assigned_same", "copy_assigned_other", "move_assigned_same", "move_assigned_other", "copies", "moves", "swaps", "permutes", "permutes_moved", "comparisons", "crashing_accesses", "values_read", "voids_read", "matches", "large_tags", "forms_checked"],
   rule="Each case is a seeded history of 4-27 operations over three slots of one of 42 choice types (plain, tracked, niche-represented, void, reference, empty, repeated and nested alternatives; 300 alternatives) against a model of (alternative, value) per slot; after every step each accessor, pointer, object view and match form is compared for every alternative; distinct = distinct history prefixes."),
 "C11": dict(src=["c11.cc:PART_A", "c11.cc:PART_B", "c11.cc:PART_C", "c11.cc:PART_D"],
   expect_events=["emplaces", "resets", "assigns", "from_values", "from_pointers", "or_emplaces", "predicates", "maps", "map_defaults", "inspects", "ands_ors_xors", "thens", "filters", "value_ors", "copies", "as_refs", "accesses", "crashing_accesses", "ok_ors", "conversions", "guards", "nested", "compared_to_none", "result_makes", "result_assigns", "result_maps", "result_map_errs", "result_thens", "result_accesses", "result_guards", "result_conversions", "void_checks"],
   rule="Each case is a seeded history of 4-34 assignments and combinator calls over two options (16 element types, with and without spare representations, references, nested) or two results (9 type pairs), in const, mutable and rvalue receivers, against a std::optional model; callbacks are counted and their arguments recorded; distinct = distinct history prefixes."),
 "C12": dict(src=["c12.cc:PART_A", "c12.cc:PART_B", "c12.cc:PART_C", "c12.cc:PART_D", "c12.cc:PART_E", "c12.cc:PART_F"],
   expect_events=["rows_compared", "fields_read", "slices", "insertions", "removals", "joins", "gathers", "scatters", "selections", "selections_empty", "mutations", "moving_slices", "moving_insertions", "moving_joins", "forms_checked", "wide_rows", "wide_selections", "selections_of_many", "wide_slices", "wide_comparisons"],
   rule="Every index and every pair of bounds of 30+ row types of 0-5 fields (plain, tracked, move-only, empty, void, reference, tail-padded, keyed) with seeded values, and chosen places of rows of 12-16 fields with up to eleven fields of one type; every operation is compared field by field (type, value, referent address) with the same operation on a vector of (type, value); distinct = distinct (row type, values)."),
 "C13": dict(src=["c13.cc"],
   expect_events=["runes", "encoded", "encode_too_small", "encode_unencodable", "decoded", "undecoded", "truncated", "malformed", "undecode_rejected", "valid_inputs", "invalid_inputs", "boundaries", "short_sequences", "long_inputs", "orders"],
   rule="Every code point 0-0x10FFFF (surrogates included) through all six encodings into exact-size heap buffers; every 1- and 2-byte sequence, 3- and 4-byte sequences over 24 representatives of each byte class, every 16-bit unit against 12 class representatives, and seeded longer inputs, half of them damaged; compared with Unicode's well-formedness tables written out independently; distinct = distinct code points and inputs."),
 "C14": dict(src=["c14.cc"],
   expect_events=["scalar_values", "surrogates", "not_runes", "radixes", "escapes", "formats", "digits", "death_children", "comparisons"],
   rule="Every code point 0-0x10FFFF and 16k integers above, plus seeded boundary integers, through every predicate, mapping and digit conversion (all 35 radixes for ASCII), escapes read back by an independent unescaper, and seeded pairs for the comparisons; distinct = distinct integers, radixes and pairs."),
 "C15": dict(src=["c15.cc:PART_%s" % p for p in "ABCDEFG"],
   expect_events=["hits", "misses", "prefixes", "suffixes", "split_pieces", "predicates", "runes_iterated", "split_ats", "rune_patterns", "unencodable_runes", "equal_pairs", "ordered_pairs", "cross_pairs", "damaged_inputs", "undamaged_inputs", "lossy_runes", "literals"],
   rule="Each case is a seeded rune sequence over one of 9 tiny alphabets (self-overlapping, multi-unit, order-inverting, surrogate) as a haystack in one of 7 encodings (one user-defined with a parameter), queried with a derived needle in each of the 7 encodings, with runes and with predicates, plus damaged input; the oracle works on rune sequences; distinct = distinct (haystack, needle, encodings)."),
 "C16": dict(src=["c16.cc:PART_%s" % p for p in "ABCDE"],
   expect_events=["contents_checked", "pushes", "refused_pushes", "refused_after_prefix", "lossy_pushes", "replaced_runes", "transcodes", "refused_transcodes", "damaged_sources", "froms", "refused_froms", "truncates", "clears", "reserves", "copies", "copy_assigns", "moves", "into_bufs", "queries", "mid_character", "from_nuls", "blocks_allocated", "blocks_resized"],
   rule="Each case is a seeded history of 4-33 edits over three owned strings of one of 7 encodings (one user-defined with a parameter), with sources in every encoding (texts, raw input, owned strings, damaged units), compared after every step with a rune sequence encoded independently; storage comes from allocators that check the layout and arena of every returned block; distinct = distinct contents."),
 "C17": dict(src=["c17.cc"],
   expect_events=["ints", "minimums", "round_trips", "small_ints", "padded_outputs", "strings", "quoted", "cut_by_precision", "runes", "code_unit_values", "bools", "pointers", "boxes", "c_strings", "collections", "literal_templates", "printed_to_stdout", "printed_to_stderr", "printed_long"],
   rule="Seeded boundary-biased values of 11 integer types, std::byte, bool, runes, character types, strings in 7 encodings, pointers, boxes and collections, each with a seeded specification (fill incl. non-ASCII, alignment, #, 0, width up to 1000, precision, radix, debug); every 8-bit and a third of every 16-bit value in every radix; the oracle builds the text from the documented rules; distinct = distinct (expected text, width, alignment, radix)."),
 "C18": dict(src=["c18.cc"],
   expect_events=["trees", "entries", "padded_leaves", "pretty_blocks", "compact_blocks", "empty_pretty_blocks", "single_entry_blocks", "multi_line_indented", "multi_line_outer", "token_comparisons", "values", "fixed_forms", "long_blocks", "deep_chains"],
   rule="Seeded trees (depth up to 5) of lists, tuples and records with titles, every entry/field/pair form, explicit specs, size advice, early finish and leaves written in six ways (multi-line text included), plus seeded values of 17 library types, each printed compact, pretty, nested and repeated, against an independent renderer; distinct = distinct expected outputs."),
 "C19": dict(src=["c19.cc:PART_%s" % p for p in "ABCDEFGHI"],
   expect_events=["wellformed", "malformed", "stopped_parses", "accepted_templates", "rejected_templates", "rendered_templates"],
   rule="Seeded templates (well-formed and damaged by one or two edits) in exact-size blocks through the template parser, and 1,280 generated templates offered to the compiler for 5 argument lists of 7 kinds of types, against an independent parser of the documented grammar; accepted ones are rendered and compared; distinct = distinct templates."),
 "C20": dict(src=["c20.cc:PART_%s" % p for p in "ABC"],
   expect_events=["accepted", "out_of_range", "not_numerals", "negatives", "pretexts", "texts", "textbufs", "arrays", "utf8", "utf16", "utf32", "ascii", "latin1", "keyed", "wtf8", "small_values"],
   rule="Seeded numerals around the limits of 11 integer types (leading zeros, signs, prefixes, junk inserted or replacing a digit) in every radix 2-36 through atoi, atoi_with_prefix and atoi_with_sign, as raw input, text, owned string or literal of 7 encodings in exact-size blocks; every 8-bit value (16-bit in strides) in every radix; the oracle reads the runes into a 128-bit magnitude; distinct = distinct (runes, radix, type)."),
 "C21": dict(src=["c21.cc:PART_%s" % p for p in "ABCD"],
   expect_events=["exact", "overflows", "shifts", "oversize_shifts", "divisions", "ceildivs", "minimum_by_minus_one", "saturated", "min_max", "equalities", "pairs", "unaries", "all_8_bit_pairs", "chain_steps", "crashes", "constants"],
   rule="Every pair of 8-bit operands (four sign combinations) and seeded boundary-biased pairs of all 121 pairs of 11 integer types, each with and without an earlier overflow, through every operator, compound form, plain-integer form, division and saturating helper, comparison and conversion; seeded chains of 20 operations; against exact sign-magnitude 128-bit arithmetic; distinct = distinct (operands, types) and chains."),
 "C22": dict(src=["c22.cc"],
   expect_events=["values", "pow2s", "next_pow2_overflows", "shifts", "oversize_shifts", "all_8_bit", "all_16_bit", "crashes"],
   rule="Every 8-bit value with every shift amount 0-69 and 14 huge ones, every 16-bit value (quick: two amounts each), and seeded boundary-biased and sparse 32/64-bit values with strided and huge amounts, against arrays of bits; distinct = distinct (value, type)."),
 "C23": dict(src=["c23.cc:PART_%s" % p for p in "ABCD"],
   expect_events=["hints", "exact_hints", "back_steps", "front_steps", "ended_stepping", "copies", "counts", "lasts", "for_loops", "to_vecs", "collects", "partial_loops", "drains", "chain_of_1", "chain_of_2", "chain_of_3", "chain_of_4", "ranges", "whole_types", "empty_ranges", "good_bounds", "bad_bounds", "death_children", "reference_checks", "owned_values", "huge_ranges"],
   rule="Seeded chains of 0-3 adaptors (map, both inspects, enumerate, take, rev) over integer ranges, spans and two user iterators, stepped from both ends with size hints checked at every step and finished by count, last, range-for, collect, copies or draining, against lazy list models that record the same callbacks; 8-bit ranges (thorough: all) and seeded ranges at the limits of 8 integer types; span bounds; references; move-only values; distinct = distinct (source, chain, steps)."),
 "C24": dict(src=["c24.cc:PART_%s" % p for p in "ABCD"],
   expect_events=["tables", "table_copies", "entries", "many_methods", "calls", "rebinds", "null_checks", "owned_passes", "reference_passes", "temporaries", "direct_calls", "dispatches", "own_methods", "default_methods", "second_interface", "box_assigns", "box_copies", "box_moves", "box_drops", "refused_copies", "layouts", "const_views", "direct_views", "pointer_copies", "defer_scopes", "cancels", "early_runs", "early_returns", "deferred_runs", "owned_defers", "taps", "arrows", "guards_passed", "guards_returned"] + ["kind_%d" % k for k in range(18) if k != 15] + ["type_%d" % k for k in range(1, 6)],
   rule="Seeded histories of pools of function references over 17 kinds of target, argument and result passing with tracked objects, direct calls, boxes and pointers of erased values over five types and three interfaces (small, large, over-aligned, move-only, free vtables; own and default methods), deferred actions in nested scopes with cancels, early runs, early returns and loops, taps, arrows and guards; every target logs who ran on which object with which arguments and the log must equal the model's; distinct = distinct history."),
 "C25": dict(src=["c25.cc:PART_%s" % p for p in "ABCDEF"], libs=["memory/allocator.cc", "log/internal/crash.cc", "iter/bounds.cc", "text/format.cc", "cli/parser.cc", "cli/cli.cc"],
   expect_events=["accepted", "flags", "short_runs", "group_flags", "subcommands", "positionals", "attached_values", "helps", "names", "unspecified_forms", "error_repeated", "error_no-argument", "error_bad-value", "error_unknown", "error_extra", "error_missing", "error_bad-positional", "error_group-argument", "error_no-sub-flag"],
   rule="Twelve generated command definitions (flags of 16 types, letters, aliases, visibility, counts; flattened, named, lettered and nested groups; nested subcommands; positionals) parse seeded command lines (well-formed, damaged, hostile) and every documented name in six spellings; the parsed structs, or the error and what it names, must match an independent reading of the documented syntax; distinct = distinct (definition, arguments)."),
 "C26": dict(src=["c26.cc:PART_%s" % p for p in "ABCDEF"], libs=["memory/allocator.cc", "log/internal/crash.cc", "iter/bounds.cc", "text/format.cc", "cli/parser.cc", "cli/cli.cc"],
   expect_events=["usage_lines", "subcommands_listed", "positional_helps", "flags_listed", "flags_listed_extended", "group_usages", "program_usages", "subcommand_usages"],
   rule="Every program, subcommand and flag group of twelve generated command definitions is asked for its usage in the normal and the extended form; the text is taken apart into usage line, description, subcommands, arguments, flags and footer and compared with what the definition declares visible; distinct = distinct texts."),
 "C27": dict(src=["c27.cc"],
   expect_events=["crashes", "wtfs", "results", "locations", "other_messages", "long_messages", "very_long_messages", "in_threads", "in_main"],
   rule="Every crash runs in a forked child: seeded messages of 0 bytes to 64 KB (NULs, %, braces, non-ASCII) through wtf() and unwrapped errors, and a table of contract violations across the library, from the main and from named threads; the child's whole standard error, exit status and a flag set after the crash point are compared with the known message, line and thread; distinct = distinct (kind, message)."),
 "C28": dict(src=["c28.cc"], libs=["memory/allocator.cc", "log/internal/crash.cc", "iter/bounds.cc", "text/format.cc", "io/ioerr.cc"],
   expect_events=["known_numbers", "unknown_numbers", "pairs", "current_errors", "real_failures", "rejected_numbers"],
   rule="Every error number from 1 to 700 and seeded 31-bit numbers: number, name, description and printed form against the C library's own tables (strerrorname_np, strerror); equality, options, results and lists of errors; errno of this and of other threads; non-positive numbers in forked children; distinct = distinct (operation, number or pair)."),
 "C29": dict(src=["c29.cc:PART_%s" % p for p in "ABCD"],
   expect_events=["structs", "fields", "tags", "fields_matched", "absent_matched", "structs_printed", "enums", "values", "values_matched", "unlisted_values", "type_names", "bit_sets", "compared_enums"],
   rule="56 generated structs (0 to 64 fields of 17 types, generic ones included; inferred, picked, hidden and re-added fields; type and field tags), 28 generated enums (ten underlying types; contiguous, sparse, negative and extreme values; inferred, bounded, picked, hidden) and 56 generated type names: every reflection call on seeded values is compared with the generator's own description (names, types, addresses, order, tags, lookups of present and absent names and values); bit-set enums against their integers; distinct = distinct (type, value)."),
 "C30": dict(src=["c30.cc:PART_%s" % p for p in "ABCDEF"], compile_cases=[12, 60], flavors=["asan", "opt"], flavors_thorough=["asan", "opt", "dbg0"],
   expect_events=["results", "evaluated_by_the_compiler", "objects", "literals", "search_char", "search_int", "compare_objects", "sort_objects", "move_objects", "iterate", "text_utf8", "text_utf16", "hostile_utf8", "hostile_wtf8", "runes", "atoi_i32", "arith_u64_u16", "bits_u64", "option_moved", "choice_copied", "row_moved", "result", "order"],
   rule="62 kinds of operations (span search, comparison, splitting, sorting, bisection, pointer arithmetic, iterators and ranges; texts in six encodings with arbitrary code units; runes; integer parsing; overflow-tracking, saturating and bit arithmetic; options, results, choices and rows of plain, move-only and copy-counted objects) run from compile-time seeds (12 each quick, 60 thorough, derived from VERIF_SEED); up to 320 intermediate results of each are recorded by the compiler's evaluator and compared with the run-time evaluation of the same, opaque seed, with sanitizers and optimised; a case the compiler refuses is reported; objects and literals built by the compiler are used and compared at run time; distinct = distinct (seed, trace)."),
 "C31": dict(src=["c31.cc:PART_%s" % p for p in "ABCD"], compile_cases=[8, 40], flavors=["dbg0"], flavors_thorough=["dbg0"],
   expect_events=["lists", "value_lists", "out_of_range", "unique", "not_unique", "insert", "update", "remove", "at", "erase", "splice", "gather", "scatter", "join", "trim_prefix", "trim_suffix", "found", "absent", "ordered", "unordered", "reductions", "all", "not_all", "indices"],
   rule="seeded lists of 0 to 8 types (from 26: qualified, references, void, arrays, functions, incomplete, abstract, nested lists, values of eight types; 8 seeds per part quick, 40 thorough) through every operation of best::tlist with seeded positions, ranges and element lists, in and out of range, with and without a default; the result, read back as element numbers, equals the operation on a vector of numbers, and out-of-range requests are refused by substitution; prefixes, suffixes and near-prefixes for trimming and ordering; searches, maps, visits, reductions; distinct = distinct (list, kind)."),
 "C32": dict(src=["c32.cc:PART_A", "c32.cc:PART_B"], compile_cases=[24, 100], flavors=["asan", "opt"], flavors_thorough=["asan", "opt", "dbg0"],
   expect_events=["construct", "assign", "destroy", "copy", "move", "relo", "copy_assign", "move_assign", "relo_assign", "copy_overlapping", "move_overlapping", "relo_up", "relo_down", "relo_not_overlapping", "copy_assign_overlapping", "move_assign_overlapping", "try_copy", "try_copy_assign", "arithmetic", "deref", "slots", "converting", "fill", "upcasts", "must_crash", "zero_counts", "array_construct", "array_construct_span", "array_copy", "array_try_copy_assign", "fat", "fat_copy_assign", "fat_assign", "arrays_bulk", "objects", "puns", "layouts", "layout_limits", "objects_constructed", "objects_moved"],
   rule="histories of 60 (thorough 120) constructions, assignments, copies, moves, relocations (overlapping in both directions) and destructions through best::ptr over two guarded arenas of 20 slots, for 14 element types (integers, odd sizes, over-aligned, polymorphic, unassignable, address-bound, trivially relocatable, move-only); a slot model gives every value, the lifetime registry every object's history, a byte comparison that nothing else changed; slots of references, functions, fixed and run-time sized arrays, conversions, arithmetic and ordering against raw addresses; object and pun wrappers; layouts against the compiler's structs and unions from seeded member lists (24 per seed, thorough 100); distinct = distinct (type, history prefix)."),
 "C33": dict(src=["c33.cc:PART_%s" % p for p in "ABCD"] + ["c33e.cc"], compile_cases=[8, 24], flavors=["dbg0"], flavors_thorough=["dbg0", "asan"],
   expect_events=["is_vec:yes", "is_vec:no", "is_row:yes", "is_string:yes", "is_string:no", "spans", "sized_ranges", "ranges", "no_range", "has_niche:yes", "has_niche:no", "common_ints", "located_bounds", "types", "functions", "shapes", "deep_shapes", "sealed", "pairs", "ref_copies", "qualifies:yes", "quals:cv", "virtually_derived", "copies", "constructible:yes", "convertible:yes", "assignable:yes", "ref constructible:yes", "ref convertible:yes", "array_pairs", "array convertible:yes", "constructible from many:yes", "copyable trivially:yes", "binary", "folds", "assignments", "unary", "increments", "others", "callable:yes", "callable:no", "calls"],
   rule="a fixed pool of about 100 awkward types and types built from seeds (a base of 30 and up to five modifiers: const, volatile, pointer, both references, arrays, unsized arrays, member pointers, functions with every qualifier; 16 per seed, 8 seeds per part quick, 24 thorough) through every unary trait against the language's answer; pairs for qualifier and reference copying, sameness and derivation; 40x40 references, 17x17 array elements and seeded pairs of objects for the construction, conversion and assignment concepts, plain and trivial, alone and as best::args; copy/move/relocate/destroy concepts for 3x70 objects; operators with folds on random numbers of five types and calls of functions, functors, members and fields against the built-in expressions and std::invoke; distinct = distinct (types) or values."),
 "C34": dict(src=["c34.cc"], libs=["memory/allocator.cc", "log/internal/crash.cc", "iter/bounds.cc", "text/format.cc", "cli/parser.cc", "cli/cli.cc", "cli/app.cc"], flavors=["asan"], flavors_thorough=["asan", "opt"],
   expect_events=["plain", "arguments", "no_line", "errors_returned", "form_0", "form_1", "form_2", "form_3", "form_4", "form_5", "flag_form_0", "flag_form_1", "flag_form_2", "flag_form_3", "with_flags", "refused", "usage", "misuse_0", "misuse_1", "misuse_2", "misuse_3"],
   rule="applications of ten forms (plain functions and lambdas, void, int and result, with and without a flags struct) are declared and started in forked children with seeded command lines (arbitrary bytes; for flags, valid, damaged and help-requesting lines); shared memory counts the runs and records the arguments and flags seen; exit status, standard output and standard error are compared with the form's contract and with the parser's own verdict; two apps, no app, nested start; distinct = distinct (form, line)."),
 "C35": dict(src=["c35.cc"], libs_first=True, libs=["memory/allocator.cc", "log/internal/crash.cc", "iter/bounds.cc", "text/format.cc", "cli/parser.cc", "cli/cli.cc", "cli/app.cc", "test/test.cc", "test/test_main.cc"], flavors=["asan"], flavors_thorough=["asan", "opt"],
   expect_events=["runs", "app_runs", "passed_tests", "failed_tests", "failures", "skips", "filters", "nothing_selected", "exit_0", "exit_1", "all_passed", "some_failed", "single_runs", "names", "early_processes"],
   rule="14 global tests (overlapping names, nested namespaces, a long name), plus in a process of its own one initialized before the library, follow seeded scenarios of expectations (eight kinds of operand, six comparisons, with and without messages, NaN, unprintable values) in forked children, through run_all() with seeded filters and skips, through the real test application's command line, and one by one repeatedly; shared memory records the executed tests and every wrong return value; the transcript is parsed and compared with the scenario (order, verdicts, one report per failure with place, values and message, results, exit status); distinct = distinct (selection, failures)."),
 "C36": dict(src=["c36.cc"], libs=["memory/allocator.cc", "log/internal/crash.cc", "iter/bounds.cc", "text/format.cc", "io/ioerr.cc", "cli/parser.cc", "cli/cli.cc"], flavors=["tsan"], flavors_thorough=["tsan", "asan"],
   expect_events=["texts", "formats", "numbers", "vectors", "sums", "boxes", "ranges", "names", "errors", "command_lines", "blocks", "reads", "threads", "cold_starts"],
   rule="2-6 threads released together run seeded plans of 12 kinds of work (text and transcoding, formatting, numerals and arithmetic, vectors and sorting, choices/options/results/rows, boxes, dyn, callables, ranges, reflection and names, errno values, command lines, raw allocation, and reading shared objects of every kind), with seeded yields and sleeps, under ThreadSanitizer; every result is compared with what one thread computes alone; a third of the processes are fresh ones whose first use of the library is concurrent; distinct = distinct (work, seed)."),
 "C37": dict(src=["c37.cc"], libs=[], flavors=["opt"], flavors_thorough=["opt"],
   expect_events=["counted", "counted_with_trailing_comma", "comma_added", "comma_absent", "comma_kept", "comma_removed", "optional_there", "optional_absent", "optional_list", "first", "last", "nth", "expanded", "delayed", "parens_added", "parens_removed", "parens_absent", "stringified", "stringified_expansion", "pragma", "variadic", "variadic_rec", "mapped", "joined", "indexed", "indexed_joined", "mapped_rec", "indexed_joined_rec", "two_levels", "three_levels", "indexed_levels", "joined_levels", "indexed_joined_levels", "lists_of_lists", "optional_rec"],
   rule="Seeded invocations of every documented macro with 0 to 63 arguments (61 for the mapping ones): parenthesised, quoted, empty, keyword and multi-token arguments, trailing commas, eight separators, and recursive uses three levels deep; each is expanded by the real preprocessor from the library's header and compared token by token with the documented expansion."),
}
