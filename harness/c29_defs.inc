// GENERATED by tools/gen_reflect.py 14 29.
#ifdef PART_A
namespace g29 { struct Sa0 {  constexpr friend auto BestReflect(auto& m, Sa0*) { return m.infer(); } }; }
static g29::Sa0 make_Sa0(Rng& g) { (void)g; return g29::Sa0{}; }
static const StructWant& want_Sa0() { static const StructWant w{"Sa0", "g29::Sa0", {}, {}, {}, {}, true}; return w; }
static void all_Sa0(Ctx& c) { auto a = make_Sa0(c.rng); auto b = make_Sa0(c.rng); judge_struct<true>(c, a, b, want_Sa0()); }
namespace g29 { template <class Q> struct Sa1 { int n0;  }; }
static g29::Sa1<int> make_Sa1(Rng& g) { (void)g; return g29::Sa1<int>{(int)g.next()}; }
static const StructWant& want_Sa1() { static const StructWant w{"Sa1", "g29::Sa1<int>", {{"n0", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa1<int>*)p)->n0); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa1<int>*)p)->n0); }}}, {}, {}, {}, true}; return w; }
static void all_Sa1(Ctx& c) { auto a = make_Sa1(c.rng); auto b = make_Sa1(c.rng); judge_struct<true>(c, a, b, want_Sa1()); VH_CHECK(same(best::field_name<&g29::Sa1<int>::n0>, "n0"), "field-name", "field_name of n0"); }
namespace g29 { struct Sa2 { long row; int* hide_me;  }; }
static g29::Sa2 make_Sa2(Rng& g) { (void)g; return g29::Sa2{(long)g.next(), nullptr}; }
static const StructWant& want_Sa2() { static const StructWant w{"Sa2", "g29::Sa2", {{"row", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa2*)p)->row); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa2*)p)->row); }}, {"hide_me", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa2*)p)->hide_me); }, {}, {}, nullptr}}, {}, {}, {}, false}; return w; }
static void all_Sa2(Ctx& c) { auto a = make_Sa2(c.rng); auto b = make_Sa2(c.rng); judge_struct<false>(c, a, b, want_Sa2()); VH_CHECK(same(best::field_name<&g29::Sa2::row>, "row"), "field-name", "field_name of row"); VH_CHECK(same(best::field_name<&g29::Sa2::hide_me>, "hide_me"), "field-name", "field_name of hide_me"); }
namespace g29 { struct Sa3 { int* type; bool Z; best::str b;  constexpr friend auto BestReflect(auto& m, Sa3*) { return m.with(&Sa3::type).with(&Sa3::type, 35); } }; }
static g29::Sa3 make_Sa3(Rng& g) { (void)g; return g29::Sa3{nullptr, g.flip(), words[g.below(6)]}; }
static const StructWant& want_Sa3() { static const StructWant w{"Sa3", "g29::Sa3", {{"type", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa3*)p)->type); }, {35}, {}, nullptr}}, {"Z", "b"}, {}, {}, false}; return w; }
static void all_Sa3(Ctx& c) { auto a = make_Sa3(c.rng); auto b = make_Sa3(c.rng); judge_struct<false>(c, a, b, want_Sa3()); VH_CHECK(same(best::field_name<&g29::Sa3::type>, "type"), "field-name", "field_name of type"); VH_CHECK(same(best::field_name<&g29::Sa3::Z>, "Z"), "field-name", "field_name of Z"); VH_CHECK(same(best::field_name<&g29::Sa3::b>, "b"), "field-name", "field_name of b"); }
namespace g29 { struct Sa4 { best::option<int> _x; int* each; best::option<int> Z; best::option<int> ab; int* type;  constexpr friend auto BestReflect(auto& m, Sa4*) { return m.infer().with(T2{1}, T3{94}); } }; }
static g29::Sa4 make_Sa4(Rng& g) { (void)g; return g29::Sa4{g.flip() ? best::option<int>((int)g.below(9)) : best::option<int>(), nullptr, g.flip() ? best::option<int>((int)g.below(9)) : best::option<int>(), g.flip() ? best::option<int>((int)g.below(9)) : best::option<int>(), nullptr}; }
static const StructWant& want_Sa4() { static const StructWant w{"Sa4", "g29::Sa4", {{"_x", tid<best::option<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa4*)p)->_x); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa4*)p)->_x); }}, {"each", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa4*)p)->each); }, {}, {}, nullptr}, {"Z", tid<best::option<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa4*)p)->Z); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa4*)p)->Z); }}, {"ab", tid<best::option<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa4*)p)->ab); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa4*)p)->ab); }}, {"type", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa4*)p)->type); }, {}, {}, nullptr}}, {}, {}, {1, 94}, false}; return w; }
static void all_Sa4(Ctx& c) { auto a = make_Sa4(c.rng); auto b = make_Sa4(c.rng); judge_struct<false>(c, a, b, want_Sa4()); VH_CHECK(same(best::field_name<&g29::Sa4::_x>, "_x"), "field-name", "field_name of _x"); VH_CHECK(same(best::field_name<&g29::Sa4::each>, "each"), "field-name", "field_name of each"); VH_CHECK(same(best::field_name<&g29::Sa4::Z>, "Z"), "field-name", "field_name of Z"); VH_CHECK(same(best::field_name<&g29::Sa4::ab>, "ab"), "field-name", "field_name of ab"); VH_CHECK(same(best::field_name<&g29::Sa4::type>, "type"), "field-name", "field_name of type"); }
namespace g29 { struct Sa5 { double row; long match; best::vec<int> aA; double idx; int v; best::vec<int> n01; best::box<int> key; best::box<int> _x;  constexpr friend auto BestReflect(auto& m, Sa5*) { return m.infer(); } }; }
static g29::Sa5 make_Sa5(Rng& g) { (void)g; return g29::Sa5{(double)(int)g.below(1000), (long)g.next(), best::vec<int>{(int)g.below(9), 2}, (double)(int)g.below(1000), (int)g.next(), best::vec<int>{(int)g.below(9), 2}, best::box<int>((int)g.below(99)), best::box<int>((int)g.below(99))}; }
static const StructWant& want_Sa5() { static const StructWant w{"Sa5", "g29::Sa5", {{"row", tid<double>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa5*)p)->row); }, {}, {}, nullptr}, {"match", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa5*)p)->match); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa5*)p)->match); }}, {"aA", tid<best::vec<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa5*)p)->aA); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa5*)p)->aA); }}, {"idx", tid<double>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa5*)p)->idx); }, {}, {}, nullptr}, {"v", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa5*)p)->v); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa5*)p)->v); }}, {"n01", tid<best::vec<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa5*)p)->n01); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa5*)p)->n01); }}, {"key", tid<best::box<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa5*)p)->key); }, {}, {}, nullptr}, {"_x", tid<best::box<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa5*)p)->_x); }, {}, {}, nullptr}}, {}, {}, {}, false}; return w; }
static void all_Sa5(Ctx& c) { auto a = make_Sa5(c.rng); auto b = make_Sa5(c.rng); judge_struct<false>(c, a, b, want_Sa5()); VH_CHECK(same(best::field_name<&g29::Sa5::row>, "row"), "field-name", "field_name of row"); VH_CHECK(same(best::field_name<&g29::Sa5::match>, "match"), "field-name", "field_name of match"); VH_CHECK(same(best::field_name<&g29::Sa5::aA>, "aA"), "field-name", "field_name of aA"); VH_CHECK(same(best::field_name<&g29::Sa5::idx>, "idx"), "field-name", "field_name of idx"); VH_CHECK(same(best::field_name<&g29::Sa5::v>, "v"), "field-name", "field_name of v"); VH_CHECK(same(best::field_name<&g29::Sa5::n01>, "n01"), "field-name", "field_name of n01"); }
namespace g29 { struct Sa6 { double y; best::option<int> n1; long ab; best::strbuf match; best::strbuf n01; int row; const short aA; Mo x_; best::option<int> A; int abcd; unsigned char values; int* qqq; best::box<int> _x;  constexpr friend auto BestReflect(auto& m, Sa6*) { return m.with(33, T3{31}, 89).with(T3{25}, T3{9}); } }; }
static g29::Sa6 make_Sa6(Rng& g) { (void)g; return g29::Sa6{(double)(int)g.below(1000), g.flip() ? best::option<int>((int)g.below(9)) : best::option<int>(), (long)g.next(), best::strbuf(words[g.below(6)]), best::strbuf(words[g.below(6)]), (int)g.next(), (short)g.next(), Mo((int)g.below(99)), g.flip() ? best::option<int>((int)g.below(9)) : best::option<int>(), (int)g.next(), (unsigned char)g.next(), nullptr, best::box<int>((int)g.below(99))}; }
static const StructWant& want_Sa6() { static const StructWant w{"Sa6", "g29::Sa6", {}, {"y", "n1", "ab", "match", "n01", "row", "aA", "x_", "A", "abcd", "values", "qqq", "_x"}, {33, 89}, {31, 25, 9}, true}; return w; }
static void all_Sa6(Ctx& c) { auto a = make_Sa6(c.rng); auto b = make_Sa6(c.rng); judge_struct<true>(c, a, b, want_Sa6()); VH_CHECK(same(best::field_name<&g29::Sa6::y>, "y"), "field-name", "field_name of y"); VH_CHECK(same(best::field_name<&g29::Sa6::n1>, "n1"), "field-name", "field_name of n1"); VH_CHECK(same(best::field_name<&g29::Sa6::ab>, "ab"), "field-name", "field_name of ab"); VH_CHECK(same(best::field_name<&g29::Sa6::match>, "match"), "field-name", "field_name of match"); VH_CHECK(same(best::field_name<&g29::Sa6::n01>, "n01"), "field-name", "field_name of n01"); VH_CHECK(same(best::field_name<&g29::Sa6::row>, "row"), "field-name", "field_name of row"); }
namespace g29 { struct Sa7 { unsigned char n01; best::strbuf n10; std::string BestName; const short aA; float any_; float each; best::vec<int> desc_; In match; const short xx; Mo abc; long name; best::box<int> size; In y; unsigned char names; double v; best::box<int> data; unsigned char value;  constexpr friend auto BestReflect(auto& m, Sa7*) { return m.with(&Sa7::n01, 92).with(&Sa7::desc_, T2{81}).with(T3{33}, T3{63}).with(&Sa7::value); } }; }
static g29::Sa7 make_Sa7(Rng& g) { (void)g; return g29::Sa7{(unsigned char)g.next(), best::strbuf(words[g.below(6)]), std::string(g.below(40), 'q'), (short)g.next(), (float)(int)g.below(100), (float)(int)g.below(100), best::vec<int>{(int)g.below(9), 2}, In{(int)g.below(99), g.flip()}, (short)g.next(), Mo((int)g.below(99)), (long)g.next(), best::box<int>((int)g.below(99)), In{(int)g.below(99), g.flip()}, (unsigned char)g.next(), (double)(int)g.below(1000), best::box<int>((int)g.below(99)), (unsigned char)g.next()}; }
static const StructWant& want_Sa7() { static const StructWant w{"Sa7", "g29::Sa7", {{"n01", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa7*)p)->n01); }, {92}, {}, [](const void* p) { return dbg(((const g29::Sa7*)p)->n01); }}, {"desc_", tid<best::vec<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa7*)p)->desc_); }, {}, {81}, [](const void* p) { return dbg(((const g29::Sa7*)p)->desc_); }}, {"value", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa7*)p)->value); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa7*)p)->value); }}}, {"n10", "BestName", "aA", "any_", "each", "match", "xx", "abc", "name", "size", "y", "names", "v", "data"}, {}, {33, 63}, true}; return w; }
static void all_Sa7(Ctx& c) { auto a = make_Sa7(c.rng); auto b = make_Sa7(c.rng); judge_struct<true>(c, a, b, want_Sa7()); VH_CHECK(same(best::field_name<&g29::Sa7::n01>, "n01"), "field-name", "field_name of n01"); VH_CHECK(same(best::field_name<&g29::Sa7::n10>, "n10"), "field-name", "field_name of n10"); VH_CHECK(same(best::field_name<&g29::Sa7::BestName>, "BestName"), "field-name", "field_name of BestName"); VH_CHECK(same(best::field_name<&g29::Sa7::aA>, "aA"), "field-name", "field_name of aA"); VH_CHECK(same(best::field_name<&g29::Sa7::any_>, "any_"), "field-name", "field_name of any_"); VH_CHECK(same(best::field_name<&g29::Sa7::each>, "each"), "field-name", "field_name of each"); }
namespace g29 { struct Sa8 { long self; int n01; long data; unsigned char first; bool qqq; long names; bool idx; best::strbuf n1; best::strbuf Z; bool match; int y; long values; bool x; int qq; int n0; best::strbuf z_; long it; best::strbuf aA; bool v; bool n10; int zz9; bool hide_me; best::strbuf Aa; bool key;  constexpr friend auto BestReflect(auto& m, Sa8*) { return m.infer(); } }; }
static g29::Sa8 make_Sa8(Rng& g) { (void)g; return g29::Sa8{(long)g.next(), (int)g.next(), (long)g.next(), (unsigned char)g.next(), g.flip(), (long)g.next(), g.flip(), best::strbuf(words[g.below(6)]), best::strbuf(words[g.below(6)]), g.flip(), (int)g.next(), (long)g.next(), g.flip(), (int)g.next(), (int)g.next(), best::strbuf(words[g.below(6)]), (long)g.next(), best::strbuf(words[g.below(6)]), g.flip(), g.flip(), (int)g.next(), g.flip(), best::strbuf(words[g.below(6)]), g.flip()}; }
static const StructWant& want_Sa8() { static const StructWant w{"Sa8", "g29::Sa8", {{"self", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->self); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->self); }}, {"n01", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->n01); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->n01); }}, {"data", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->data); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->data); }}, {"first", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->first); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->first); }}, {"qqq", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->qqq); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->qqq); }}, {"names", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->names); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->names); }}, {"idx", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->idx); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->idx); }}, {"n1", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->n1); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->n1); }}, {"Z", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->Z); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->Z); }}, {"match", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->match); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->match); }}, {"y", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->y); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->y); }}, {"values", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->values); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->values); }}, {"x", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->x); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->x); }}, {"qq", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->qq); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->qq); }}, {"n0", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->n0); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->n0); }}, {"z_", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->z_); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->z_); }}, {"it", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->it); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->it); }}, {"aA", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->aA); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->aA); }}, {"v", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->v); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->v); }}, {"n10", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->n10); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->n10); }}, {"zz9", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->zz9); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->zz9); }}, {"hide_me", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->hide_me); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->hide_me); }}, {"Aa", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->Aa); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->Aa); }}, {"key", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa8*)p)->key); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa8*)p)->key); }}}, {}, {}, {}, true}; return w; }
static void all_Sa8(Ctx& c) { auto a = make_Sa8(c.rng); auto b = make_Sa8(c.rng); judge_struct<true>(c, a, b, want_Sa8()); VH_CHECK(same(best::field_name<&g29::Sa8::self>, "self"), "field-name", "field_name of self"); VH_CHECK(same(best::field_name<&g29::Sa8::n01>, "n01"), "field-name", "field_name of n01"); VH_CHECK(same(best::field_name<&g29::Sa8::data>, "data"), "field-name", "field_name of data"); VH_CHECK(same(best::field_name<&g29::Sa8::first>, "first"), "field-name", "field_name of first"); VH_CHECK(same(best::field_name<&g29::Sa8::qqq>, "qqq"), "field-name", "field_name of qqq"); VH_CHECK(same(best::field_name<&g29::Sa8::names>, "names"), "field-name", "field_name of names"); }
namespace g29 { struct Sa9 { unsigned char y; int any_; int abcd; best::strbuf q; long z_; long n10; int each; bool names; unsigned char size; best::strbuf very_long_field_name_number_two; unsigned char type; int x; long aA; unsigned char qqq; unsigned char hide_me; best::strbuf a; bool BestName; int b; bool v; int qq; best::strbuf name; best::strbuf self; best::strbuf it; unsigned char x_; best::strbuf n1; unsigned char idx; bool very_long_field_name_number_one; unsigned char row; best::strbuf n01; unsigned char xx; long zz9; unsigned char value; unsigned char tags; best::strbuf xy; int id; best::strbuf data; bool desc_; unsigned char _x; long second; bool Aa;  constexpr friend auto BestReflect(auto& m, Sa9*) { return m.infer().with(&Sa9::idx, T3{40}, T4{91}).hide(&Sa9::BestName).with(&Sa9::very_long_field_name_number_two, T2{28}, T2{84}).with(&Sa9::n01, T2{80}, T3{68}).with(&Sa9::v, 72); } }; }
static g29::Sa9 make_Sa9(Rng& g) { (void)g; return g29::Sa9{(unsigned char)g.next(), (int)g.next(), (int)g.next(), best::strbuf(words[g.below(6)]), (long)g.next(), (long)g.next(), (int)g.next(), g.flip(), (unsigned char)g.next(), best::strbuf(words[g.below(6)]), (unsigned char)g.next(), (int)g.next(), (long)g.next(), (unsigned char)g.next(), (unsigned char)g.next(), best::strbuf(words[g.below(6)]), g.flip(), (int)g.next(), g.flip(), (int)g.next(), best::strbuf(words[g.below(6)]), best::strbuf(words[g.below(6)]), best::strbuf(words[g.below(6)]), (unsigned char)g.next(), best::strbuf(words[g.below(6)]), (unsigned char)g.next(), g.flip(), (unsigned char)g.next(), best::strbuf(words[g.below(6)]), (unsigned char)g.next(), (long)g.next(), (unsigned char)g.next(), (unsigned char)g.next(), best::strbuf(words[g.below(6)]), (int)g.next(), best::strbuf(words[g.below(6)]), g.flip(), (unsigned char)g.next(), (long)g.next(), g.flip()}; }
static const StructWant& want_Sa9() { static const StructWant w{"Sa9", "g29::Sa9", {{"y", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->y); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->y); }}, {"any_", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->any_); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->any_); }}, {"abcd", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->abcd); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->abcd); }}, {"q", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->q); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->q); }}, {"z_", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->z_); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->z_); }}, {"n10", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->n10); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->n10); }}, {"each", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->each); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->each); }}, {"names", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->names); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->names); }}, {"size", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->size); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->size); }}, {"very_long_field_name_number_two", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->very_long_field_name_number_two); }, {}, {28, 84}, [](const void* p) { return dbg(((const g29::Sa9*)p)->very_long_field_name_number_two); }}, {"type", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->type); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->type); }}, {"x", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->x); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->x); }}, {"aA", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->aA); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->aA); }}, {"qqq", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->qqq); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->qqq); }}, {"hide_me", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->hide_me); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->hide_me); }}, {"a", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->a); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->a); }}, {"b", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->b); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->b); }}, {"v", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->v); }, {72}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->v); }}, {"qq", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->qq); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->qq); }}, {"name", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->name); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->name); }}, {"self", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->self); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->self); }}, {"it", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->it); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->it); }}, {"x_", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->x_); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->x_); }}, {"n1", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->n1); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->n1); }}, {"idx", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->idx); }, {}, {40}, [](const void* p) { return dbg(((const g29::Sa9*)p)->idx); }}, {"very_long_field_name_number_one", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->very_long_field_name_number_one); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->very_long_field_name_number_one); }}, {"row", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->row); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->row); }}, {"n01", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->n01); }, {}, {80, 68}, [](const void* p) { return dbg(((const g29::Sa9*)p)->n01); }}, {"xx", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->xx); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->xx); }}, {"zz9", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->zz9); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->zz9); }}, {"value", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->value); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->value); }}, {"tags", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->tags); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->tags); }}, {"xy", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->xy); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->xy); }}, {"id", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->id); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->id); }}, {"data", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->data); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->data); }}, {"desc_", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->desc_); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->desc_); }}, {"_x", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->_x); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->_x); }}, {"second", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->second); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->second); }}, {"Aa", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa9*)p)->Aa); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa9*)p)->Aa); }}}, {"BestName"}, {}, {}, true}; return w; }
static void all_Sa9(Ctx& c) { auto a = make_Sa9(c.rng); auto b = make_Sa9(c.rng); judge_struct<true>(c, a, b, want_Sa9()); VH_CHECK(same(best::field_name<&g29::Sa9::y>, "y"), "field-name", "field_name of y"); VH_CHECK(same(best::field_name<&g29::Sa9::any_>, "any_"), "field-name", "field_name of any_"); VH_CHECK(same(best::field_name<&g29::Sa9::abcd>, "abcd"), "field-name", "field_name of abcd"); VH_CHECK(same(best::field_name<&g29::Sa9::q>, "q"), "field-name", "field_name of q"); VH_CHECK(same(best::field_name<&g29::Sa9::z_>, "z_"), "field-name", "field_name of z_"); VH_CHECK(same(best::field_name<&g29::Sa9::n10>, "n10"), "field-name", "field_name of n10"); }
namespace g29 { struct Sa10 { double Z;  constexpr friend auto BestReflect(auto& m, Sa10*) { return m.with(&Sa10::Z); } }; }
static g29::Sa10 make_Sa10(Rng& g) { (void)g; return g29::Sa10{(double)(int)g.below(1000)}; }
static const StructWant& want_Sa10() { static const StructWant w{"Sa10", "g29::Sa10", {{"Z", tid<double>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa10*)p)->Z); }, {}, {}, nullptr}}, {}, {}, {}, false}; return w; }
static void all_Sa10(Ctx& c) { auto a = make_Sa10(c.rng); auto b = make_Sa10(c.rng); judge_struct<false>(c, a, b, want_Sa10()); VH_CHECK(same(best::field_name<&g29::Sa10::Z>, "Z"), "field-name", "field_name of Z"); }
namespace g29 { struct Sa11 { double abcd; unsigned char xx; long v; unsigned char first; double n0; bool names; best::str idx; best::str xy; best::strbuf hide_me;  constexpr friend auto BestReflect(auto& m, Sa11*) { return m.with(&Sa11::xy, T4{40}, 41).with(&Sa11::v, 35, T3{60}).with(&Sa11::v, T3{65}, T3{12}, T4{94}).with(&Sa11::xy, T3{40}).with(&Sa11::xx, T4{35}, 14).with(&Sa11::hide_me).with(T4{69}).with(T3{20}).with(&Sa11::idx); } }; }
static g29::Sa11 make_Sa11(Rng& g) { (void)g; return g29::Sa11{(double)(int)g.below(1000), (unsigned char)g.next(), (long)g.next(), (unsigned char)g.next(), (double)(int)g.below(1000), g.flip(), words[g.below(6)], words[g.below(6)], best::strbuf(words[g.below(6)])}; }
static const StructWant& want_Sa11() { static const StructWant w{"Sa11", "g29::Sa11", {{"xy", tid<best::str>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa11*)p)->xy); }, {41}, {40}, [](const void* p) { return dbg(((const g29::Sa11*)p)->xy); }}, {"v", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa11*)p)->v); }, {35}, {60, 65, 12}, [](const void* p) { return dbg(((const g29::Sa11*)p)->v); }}, {"xx", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa11*)p)->xx); }, {14}, {}, [](const void* p) { return dbg(((const g29::Sa11*)p)->xx); }}, {"hide_me", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa11*)p)->hide_me); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa11*)p)->hide_me); }}, {"idx", tid<best::str>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa11*)p)->idx); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa11*)p)->idx); }}}, {"abcd", "first", "n0", "names"}, {}, {20}, true}; return w; }
static void all_Sa11(Ctx& c) { auto a = make_Sa11(c.rng); auto b = make_Sa11(c.rng); judge_struct<true>(c, a, b, want_Sa11()); VH_CHECK(same(best::field_name<&g29::Sa11::abcd>, "abcd"), "field-name", "field_name of abcd"); VH_CHECK(same(best::field_name<&g29::Sa11::xx>, "xx"), "field-name", "field_name of xx"); VH_CHECK(same(best::field_name<&g29::Sa11::v>, "v"), "field-name", "field_name of v"); VH_CHECK(same(best::field_name<&g29::Sa11::first>, "first"), "field-name", "field_name of first"); VH_CHECK(same(best::field_name<&g29::Sa11::n0>, "n0"), "field-name", "field_name of n0"); VH_CHECK(same(best::field_name<&g29::Sa11::names>, "names"), "field-name", "field_name of names"); }
namespace g29 { struct Sa12 { best::str Z; std::string _x; best::strbuf q; best::option<int> hide_me; En any_; best::vec<int> size; best::box<int> ab; const short aA; float very_long_field_name_number_two;  constexpr friend auto BestReflect(auto& m, Sa12*) { return m.with(T4{96}).with(&Sa12::aA, T3{79}).with(T2{77}, 14).with(T3{29}, T3{26}).with(T3{72}, 62, T2{90}).with(&Sa12::aA, T2{4}).with(&Sa12::aA, T4{28}).with(15).with(&Sa12::ab, T4{31}); } }; }
static g29::Sa12 make_Sa12(Rng& g) { (void)g; return g29::Sa12{words[g.below(6)], std::string(g.below(40), 'q'), best::strbuf(words[g.below(6)]), g.flip() ? best::option<int>((int)g.below(9)) : best::option<int>(), (En)g.below(4), best::vec<int>{(int)g.below(9), 2}, best::box<int>((int)g.below(99)), (short)g.next(), (float)(int)g.below(100)}; }
static const StructWant& want_Sa12() { static const StructWant w{"Sa12", "g29::Sa12", {{"aA", tid<const short>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa12*)p)->aA); }, {}, {79, 4}, [](const void* p) { return dbg(((const g29::Sa12*)p)->aA); }}, {"ab", tid<best::box<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa12*)p)->ab); }, {}, {}, nullptr}}, {"Z", "_x", "q", "hide_me", "any_", "size", "very_long_field_name_number_two"}, {14, 62, 15}, {77, 29, 26, 72, 90}, false}; return w; }
static void all_Sa12(Ctx& c) { auto a = make_Sa12(c.rng); auto b = make_Sa12(c.rng); judge_struct<false>(c, a, b, want_Sa12()); VH_CHECK(same(best::field_name<&g29::Sa12::Z>, "Z"), "field-name", "field_name of Z"); VH_CHECK(same(best::field_name<&g29::Sa12::_x>, "_x"), "field-name", "field_name of _x"); VH_CHECK(same(best::field_name<&g29::Sa12::q>, "q"), "field-name", "field_name of q"); VH_CHECK(same(best::field_name<&g29::Sa12::hide_me>, "hide_me"), "field-name", "field_name of hide_me"); VH_CHECK(same(best::field_name<&g29::Sa12::any_>, "any_"), "field-name", "field_name of any_"); VH_CHECK(same(best::field_name<&g29::Sa12::size>, "size"), "field-name", "field_name of size"); }
namespace g29 { struct Sa13 { int* data; const short self; best::vec<int> idx; En b; In second; En desc_; std::pair<int, int> it;  constexpr friend auto BestReflect(auto& m, Sa13*) { return m.with(&Sa13::idx, T2{39}, T4{46}).with(&Sa13::it, 63).with(&Sa13::idx, T3{36}, T2{94}).with(&Sa13::self, 33).with(&Sa13::data).with(T2{91}, T3{64}).with(&Sa13::self, T2{73}, T4{7}, T3{92}).with(&Sa13::second).with(&Sa13::data, T4{67}); } }; }
static g29::Sa13 make_Sa13(Rng& g) { (void)g; return g29::Sa13{nullptr, (short)g.next(), best::vec<int>{(int)g.below(9), 2}, (En)g.below(4), In{(int)g.below(99), g.flip()}, (En)g.below(4), std::pair<int, int>(1, 2)}; }
static const StructWant& want_Sa13() { static const StructWant w{"Sa13", "g29::Sa13", {{"idx", tid<best::vec<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa13*)p)->idx); }, {}, {39, 36, 94}, [](const void* p) { return dbg(((const g29::Sa13*)p)->idx); }}, {"it", tid<std::pair<int, int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa13*)p)->it); }, {63}, {}, nullptr}, {"self", tid<const short>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa13*)p)->self); }, {33}, {73, 92}, [](const void* p) { return dbg(((const g29::Sa13*)p)->self); }}, {"data", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa13*)p)->data); }, {}, {}, nullptr}, {"second", tid<In>(), [](const void* p) { return (const void*)best::addr(((const g29::Sa13*)p)->second); }, {}, {}, [](const void* p) { return dbg(((const g29::Sa13*)p)->second); }}}, {"b", "desc_"}, {}, {91, 64}, false}; return w; }
static void all_Sa13(Ctx& c) { auto a = make_Sa13(c.rng); auto b = make_Sa13(c.rng); judge_struct<false>(c, a, b, want_Sa13()); VH_CHECK(same(best::field_name<&g29::Sa13::data>, "data"), "field-name", "field_name of data"); VH_CHECK(same(best::field_name<&g29::Sa13::self>, "self"), "field-name", "field_name of self"); VH_CHECK(same(best::field_name<&g29::Sa13::idx>, "idx"), "field-name", "field_name of idx"); VH_CHECK(same(best::field_name<&g29::Sa13::b>, "b"), "field-name", "field_name of b"); VH_CHECK(same(best::field_name<&g29::Sa13::second>, "second"), "field-name", "field_name of second"); VH_CHECK(same(best::field_name<&g29::Sa13::desc_>, "desc_"), "field-name", "field_name of desc_"); }
namespace g29 { namespace en_Ea0 { enum class Ea0 : signed char { zz9 = 64 }; constexpr auto BestReflect(auto& m, Ea0*) { return m.template infer<best::bounds{.start = 0ull, .count = 300}>().with(Ea0::zz9, T3{26}).with(79).hide(Ea0::zz9).with(T2{78}, T2{61}, 74).with(T3{51}).with(T4{37}, T4{99}, T4{46}); } } }
static const EnumWant& want_Ea0() { static const EnumWant w{"Ea0", "g29::en_Ea0::Ea0", {}, {{"zz9", (i64)64, {}, {}}}, {79, 74}, {78, 61, 51}, 0, 0}; return w; }
static void all_Ea0(Ctx& c) { judge_enum<g29::en_Ea0::Ea0>(c, want_Ea0()); VH_CHECK(best::value_name<g29::en_Ea0::Ea0::zz9>.has_value() && same(*best::value_name<g29::en_Ea0::Ea0::zz9>, "zz9"), "value-name", "value_name of Ea0::zz9"); }
namespace g29 { namespace en_Ea1 { enum Ea1 { q = 1, n0 = 0, ab = 11, self = 5, Aa = 6, _x = 13, type = 7, n10 = 9, a = 3, very_long_field_name_number_two = 10, value = 2, id = 12, xy = 8, abcd = 4 }; constexpr auto BestReflect(auto& m, Ea1*) { return m.template infer<best::bounds{.start = 0ull, .count = 64}>().with(Ea1::n10, T2{89}, T4{6}, T3{26}).hide(Ea1::self).with(82, T2{72}, T4{60}).with(Ea1::self).hide(Ea1::Aa).with(Ea1::value, T4{95}).with(Ea1::type, T2{9}); } } }
static const EnumWant& want_Ea1() { static const EnumWant w{"Ea1", "g29::en_Ea1::Ea1", {{"n0", (i64)0, {}, {}}, {"q", (i64)1, {}, {}}, {"value", (i64)2, {}, {}}, {"a", (i64)3, {}, {}}, {"abcd", (i64)4, {}, {}}, {"type", (i64)7, {}, {9}}, {"xy", (i64)8, {}, {}}, {"n10", (i64)9, {}, {89, 26}}, {"very_long_field_name_number_two", (i64)10, {}, {}}, {"ab", (i64)11, {}, {}}, {"id", (i64)12, {}, {}}, {"_x", (i64)13, {}, {}}, {"self", (i64)5, {}, {}}}, {{"Aa", (i64)6, {}, {}}}, {82}, {72}, 1, 0}; return w; }
static void all_Ea1(Ctx& c) { judge_enum<g29::en_Ea1::Ea1>(c, want_Ea1()); VH_CHECK(best::value_name<g29::en_Ea1::Ea1::q>.has_value() && same(*best::value_name<g29::en_Ea1::Ea1::q>, "q"), "value-name", "value_name of Ea1::q"); VH_CHECK(best::value_name<g29::en_Ea1::Ea1::n0>.has_value() && same(*best::value_name<g29::en_Ea1::Ea1::n0>, "n0"), "value-name", "value_name of Ea1::n0"); VH_CHECK(best::value_name<g29::en_Ea1::Ea1::ab>.has_value() && same(*best::value_name<g29::en_Ea1::Ea1::ab>, "ab"), "value-name", "value_name of Ea1::ab"); VH_CHECK(best::value_name<g29::en_Ea1::Ea1::self>.has_value() && same(*best::value_name<g29::en_Ea1::Ea1::self>, "self"), "value-name", "value_name of Ea1::self"); VH_CHECK(best::value_name<g29::en_Ea1::Ea1::Aa>.has_value() && same(*best::value_name<g29::en_Ea1::Ea1::Aa>, "Aa"), "value-name", "value_name of Ea1::Aa"); VH_CHECK(best::value_name<g29::en_Ea1::Ea1::_x>.has_value() && same(*best::value_name<g29::en_Ea1::Ea1::_x>, "_x"), "value-name", "value_name of Ea1::_x"); VH_CHECK(best::value_name<g29::en_Ea1::Ea1::type>.has_value() && same(*best::value_name<g29::en_Ea1::Ea1::type>, "type"), "value-name", "value_name of Ea1::type"); VH_CHECK(best::value_name<g29::en_Ea1::Ea1::n10>.has_value() && same(*best::value_name<g29::en_Ea1::Ea1::n10>, "n10"), "value-name", "value_name of Ea1::n10"); VH_CHECK(best::value_name<g29::en_Ea1::Ea1::a>.has_value() && same(*best::value_name<g29::en_Ea1::Ea1::a>, "a"), "value-name", "value_name of Ea1::a"); VH_CHECK(best::value_name<g29::en_Ea1::Ea1::very_long_field_name_number_two>.has_value() && same(*best::value_name<g29::en_Ea1::Ea1::very_long_field_name_number_two>, "very_long_field_name_number_two"), "value-name", "value_name of Ea1::very_long_field_name_number_two"); VH_CHECK(best::value_name<g29::en_Ea1::Ea1::value>.has_value() && same(*best::value_name<g29::en_Ea1::Ea1::value>, "value"), "value-name", "value_name of Ea1::value"); VH_CHECK(best::value_name<g29::en_Ea1::Ea1::id>.has_value() && same(*best::value_name<g29::en_Ea1::Ea1::id>, "id"), "value-name", "value_name of Ea1::id"); VH_CHECK(best::value_name<g29::en_Ea1::Ea1::xy>.has_value() && same(*best::value_name<g29::en_Ea1::Ea1::xy>, "xy"), "value-name", "value_name of Ea1::xy"); VH_CHECK(best::value_name<g29::en_Ea1::Ea1::abcd>.has_value() && same(*best::value_name<g29::en_Ea1::Ea1::abcd>, "abcd"), "value-name", "value_name of Ea1::abcd"); }
namespace g29 { namespace en_Ea2 { enum Ea2 : unsigned long {  };  } }
static const EnumWant& want_Ea2() { static const EnumWant w{"Ea2", "g29::en_Ea2::Ea2", {}, {}, {}, {}, 0, 0}; return w; }
static void all_Ea2(Ctx& c) { judge_enum<g29::en_Ea2::Ea2>(c, want_Ea2()); }
namespace g29 { namespace en_Ea3 { enum class Ea3 : signed char { z_ = 32, n01 = -91, self = 63, _x = 58, each = 127, Z = 21, idx = 64, a = 34, xy = -92, very_long_field_name_number_two = 123, abc = -40 }; constexpr auto BestReflect(auto& m, Ea3*) { return m.infer(); } } }
static const EnumWant& want_Ea3() { static const EnumWant w{"Ea3", "g29::en_Ea3::Ea3", {{"Z", (i64)21, {}, {}}, {"z_", (i64)32, {}, {}}, {"a", (i64)34, {}, {}}, {"_x", (i64)58, {}, {}}, {"self", (i64)63, {}, {}}}, {{"n01", (i64)-91, {}, {}}, {"each", (i64)127, {}, {}}, {"idx", (i64)64, {}, {}}, {"xy", (i64)-92, {}, {}}, {"very_long_field_name_number_two", (i64)123, {}, {}}, {"abc", (i64)-40, {}, {}}}, {}, {}, 0, 0}; return w; }
static void all_Ea3(Ctx& c) { judge_enum<g29::en_Ea3::Ea3>(c, want_Ea3()); VH_CHECK(best::value_name<g29::en_Ea3::Ea3::z_>.has_value() && same(*best::value_name<g29::en_Ea3::Ea3::z_>, "z_"), "value-name", "value_name of Ea3::z_"); VH_CHECK(best::value_name<g29::en_Ea3::Ea3::n01>.has_value() && same(*best::value_name<g29::en_Ea3::Ea3::n01>, "n01"), "value-name", "value_name of Ea3::n01"); VH_CHECK(best::value_name<g29::en_Ea3::Ea3::self>.has_value() && same(*best::value_name<g29::en_Ea3::Ea3::self>, "self"), "value-name", "value_name of Ea3::self"); VH_CHECK(best::value_name<g29::en_Ea3::Ea3::_x>.has_value() && same(*best::value_name<g29::en_Ea3::Ea3::_x>, "_x"), "value-name", "value_name of Ea3::_x"); VH_CHECK(best::value_name<g29::en_Ea3::Ea3::each>.has_value() && same(*best::value_name<g29::en_Ea3::Ea3::each>, "each"), "value-name", "value_name of Ea3::each"); VH_CHECK(best::value_name<g29::en_Ea3::Ea3::Z>.has_value() && same(*best::value_name<g29::en_Ea3::Ea3::Z>, "Z"), "value-name", "value_name of Ea3::Z"); VH_CHECK(best::value_name<g29::en_Ea3::Ea3::idx>.has_value() && same(*best::value_name<g29::en_Ea3::Ea3::idx>, "idx"), "value-name", "value_name of Ea3::idx"); VH_CHECK(best::value_name<g29::en_Ea3::Ea3::a>.has_value() && same(*best::value_name<g29::en_Ea3::Ea3::a>, "a"), "value-name", "value_name of Ea3::a"); VH_CHECK(best::value_name<g29::en_Ea3::Ea3::xy>.has_value() && same(*best::value_name<g29::en_Ea3::Ea3::xy>, "xy"), "value-name", "value_name of Ea3::xy"); VH_CHECK(best::value_name<g29::en_Ea3::Ea3::very_long_field_name_number_two>.has_value() && same(*best::value_name<g29::en_Ea3::Ea3::very_long_field_name_number_two>, "very_long_field_name_number_two"), "value-name", "value_name of Ea3::very_long_field_name_number_two"); VH_CHECK(best::value_name<g29::en_Ea3::Ea3::abc>.has_value() && same(*best::value_name<g29::en_Ea3::Ea3::abc>, "abc"), "value-name", "value_name of Ea3::abc"); }
namespace g29 { namespace en_Ea4 { enum class Ea4 : bool {  };  } }
static const EnumWant& want_Ea4() { static const EnumWant w{"Ea4", "g29::en_Ea4::Ea4", {}, {}, {}, {}, 0, 0}; return w; }
static void all_Ea4(Ctx& c) { judge_enum<g29::en_Ea4::Ea4>(c, want_Ea4()); }
namespace g29 { namespace en_Ea5 { enum class Ea5 : char { a = 1, second = 0, data = 2 }; constexpr auto BestReflect(auto& m, Ea5*) { return m.infer().with(Ea5::a, T3{46}, T3{67}).hide(Ea5::second).with(Ea5::a, T3{79}, T4{15}).with(Ea5::second).with(T2{7}, T2{45}, 1).with(Ea5::second, T2{43}); } } }
static const EnumWant& want_Ea5() { static const EnumWant w{"Ea5", "g29::en_Ea5::Ea5", {{"a", (i64)1, {}, {46, 67, 79}}, {"data", (i64)2, {}, {}}, {"second", (i64)0, {}, {43}}}, {}, {1}, {7, 45}, 0, 0}; return w; }
static void all_Ea5(Ctx& c) { judge_enum<g29::en_Ea5::Ea5>(c, want_Ea5()); VH_CHECK(best::value_name<g29::en_Ea5::Ea5::a>.has_value() && same(*best::value_name<g29::en_Ea5::Ea5::a>, "a"), "value-name", "value_name of Ea5::a"); VH_CHECK(best::value_name<g29::en_Ea5::Ea5::second>.has_value() && same(*best::value_name<g29::en_Ea5::Ea5::second>, "second"), "value-name", "value_name of Ea5::second"); VH_CHECK(best::value_name<g29::en_Ea5::Ea5::data>.has_value() && same(*best::value_name<g29::en_Ea5::Ea5::data>, "data"), "value-name", "value_name of Ea5::data"); }
namespace g29 { namespace en_Ea6 { enum class Ea6 : signed char { first = 17, x = 31, A = 20, i = 37, any_ = 49 }; constexpr auto BestReflect(auto& m, Ea6*) { return m.template infer<best::bounds{.start = 100ull, .count = 1}>().with(Ea6::any_).with(T4{4}, T3{10}, T4{72}).with(T2{24}).with(Ea6::any_, T2{27}, T4{91}, 20).hide(Ea6::any_).with(T4{32}, T4{37}, T3{86}); } } }
static const EnumWant& want_Ea6() { static const EnumWant w{"Ea6", "g29::en_Ea6::Ea6", {}, {{"first", (i64)17, {}, {}}, {"x", (i64)31, {}, {}}, {"A", (i64)20, {}, {}}, {"i", (i64)37, {}, {}}, {"any_", (i64)49, {}, {}}}, {}, {10, 24, 86}, 0, 0}; return w; }
static void all_Ea6(Ctx& c) { judge_enum<g29::en_Ea6::Ea6>(c, want_Ea6()); VH_CHECK(best::value_name<g29::en_Ea6::Ea6::first>.has_value() && same(*best::value_name<g29::en_Ea6::Ea6::first>, "first"), "value-name", "value_name of Ea6::first"); VH_CHECK(best::value_name<g29::en_Ea6::Ea6::x>.has_value() && same(*best::value_name<g29::en_Ea6::Ea6::x>, "x"), "value-name", "value_name of Ea6::x"); VH_CHECK(best::value_name<g29::en_Ea6::Ea6::A>.has_value() && same(*best::value_name<g29::en_Ea6::Ea6::A>, "A"), "value-name", "value_name of Ea6::A"); VH_CHECK(best::value_name<g29::en_Ea6::Ea6::i>.has_value() && same(*best::value_name<g29::en_Ea6::Ea6::i>, "i"), "value-name", "value_name of Ea6::i"); VH_CHECK(best::value_name<g29::en_Ea6::Ea6::any_>.has_value() && same(*best::value_name<g29::en_Ea6::Ea6::any_>, "any_"), "value-name", "value_name of Ea6::any_"); }
static void (*const structs[])(Ctx&) = {all_Sa0, all_Sa1, all_Sa2, all_Sa3, all_Sa4, all_Sa5, all_Sa6, all_Sa7, all_Sa8, all_Sa9, all_Sa10, all_Sa11, all_Sa12, all_Sa13};
static void (*const enums[])(Ctx&) = {all_Ea0, all_Ea1, all_Ea2, all_Ea3, all_Ea4, all_Ea5, all_Ea6};
namespace g29 { struct Xn {}; template <class...> struct Tn {}; }
namespace g29 { struct Qa0_0 { template <class Z1_0, class Z1_1> struct ra0_1 { struct pa0_2 { template <class Z3_0, class Z3_1> struct Ra0_3 {  }; }; }; }; }
namespace g29 { namespace Ra1_0 { namespace ra1_1 { template <class Z2_0, class Z2_1, class Z2_2> struct Pa1_2 { template <class Z3_0, class Z3_1, class Z3_2> struct Pa1_3 {  }; }; } } }
namespace g29 { template <class Z0_0> struct _a2_0 {  }; }
namespace g29 { struct qa3_0 { template <class Z1_0> struct _a3_1 { struct Pa3_2 {  }; }; }; }
namespace g29 { namespace Pa4_0 { struct pa4_1 {  }; } }
namespace g29 { struct Ra5_0 { struct qa5_1 {  }; }; }
namespace g29 { namespace _a6_0 { struct Pa6_1 {  }; } }
namespace g29 { struct Ra7_0 { struct pa7_1 {  }; }; }
namespace g29 { namespace Qa8_0 { namespace qa8_1 { struct ra8_2 { struct Ra8_3 {  }; }; } } }
namespace g29 { template <class Z0_0, class Z0_1> struct pa9_0 { struct pa9_1 { template <class Z2_0, class Z2_1, class Z2_2> struct Ra9_2 { struct ra9_3 {  }; }; }; }; }
namespace g29 { template <class Z0_0> struct Pa10_0 {  }; }
namespace g29 { namespace _a11_0 { namespace ra11_1 { struct Pa11_2 {  }; } } }
namespace g29 { namespace Qa12_0 { template <class Z1_0> struct _a12_1 { struct qa12_2 { template <class Z3_0, class Z3_1> struct pa12_3 {  }; }; }; } }
namespace g29 { namespace ra13_0 { struct Ra13_1 {  }; } }
static void all_names(Ctx& c) {
  judge_names(c, best::type_names::of<g29::Qa0_0::ra0_1<g29::Xn &, const char *>::pa0_2::Ra0_3<g29::Tn<int>, g29::Tn<>>>, best::type_name<g29::Qa0_0::ra0_1<g29::Xn &, const char *>::pa0_2::Ra0_3<g29::Tn<int>, g29::Tn<>>>, "g29::Qa0_0::ra0_1<g29::Xn &, const char *>::pa0_2", "Ra0_3", "<g29::Tn<int>, g29::Tn<>>");
  judge_names(c, best::type_names::of<g29::Ra1_0::ra1_1::Pa1_2<g29::Xn &, g29::Tn<g29::Xn, g29::Tn<int>>, const char *>::Pa1_3<g29::Tn<int>, g29::Xn, g29::Tn<>>>, best::type_name<g29::Ra1_0::ra1_1::Pa1_2<g29::Xn &, g29::Tn<g29::Xn, g29::Tn<int>>, const char *>::Pa1_3<g29::Tn<int>, g29::Xn, g29::Tn<>>>, "g29::Ra1_0::ra1_1::Pa1_2<g29::Xn &, g29::Tn<g29::Xn, g29::Tn<int>>, const char *>", "Pa1_3", "<g29::Tn<int>, g29::Xn, g29::Tn<>>");
  judge_names(c, best::type_names::of<g29::_a2_0<g29::Tn<int>>>, best::type_name<g29::_a2_0<g29::Tn<int>>>, "g29", "_a2_0", "<g29::Tn<int>>");
  judge_names(c, best::type_names::of<g29::qa3_0::_a3_1<int>::Pa3_2>, best::type_name<g29::qa3_0::_a3_1<int>::Pa3_2>, "g29::qa3_0::_a3_1<int>", "Pa3_2", "");
  judge_names(c, best::type_names::of<g29::Pa4_0::pa4_1>, best::type_name<g29::Pa4_0::pa4_1>, "g29::Pa4_0", "pa4_1", "");
  judge_names(c, best::type_names::of<g29::Ra5_0::qa5_1>, best::type_name<g29::Ra5_0::qa5_1>, "g29::Ra5_0", "qa5_1", "");
  judge_names(c, best::type_names::of<g29::_a6_0::Pa6_1>, best::type_name<g29::_a6_0::Pa6_1>, "g29::_a6_0", "Pa6_1", "");
  judge_names(c, best::type_names::of<g29::Ra7_0::pa7_1>, best::type_name<g29::Ra7_0::pa7_1>, "g29::Ra7_0", "pa7_1", "");
  judge_names(c, best::type_names::of<g29::Qa8_0::qa8_1::ra8_2::Ra8_3>, best::type_name<g29::Qa8_0::qa8_1::ra8_2::Ra8_3>, "g29::Qa8_0::qa8_1::ra8_2", "Ra8_3", "");
  judge_names(c, best::type_names::of<g29::pa9_0<g29::Xn, g29::Tn<g29::Xn, g29::Tn<int>>>::pa9_1::Ra9_2<g29::Xn, g29::Tn<>, g29::Tn<>>::ra9_3>, best::type_name<g29::pa9_0<g29::Xn, g29::Tn<g29::Xn, g29::Tn<int>>>::pa9_1::Ra9_2<g29::Xn, g29::Tn<>, g29::Tn<>>::ra9_3>, "g29::pa9_0<g29::Xn, g29::Tn<g29::Xn, g29::Tn<int>>>::pa9_1::Ra9_2<g29::Xn, g29::Tn<>, g29::Tn<>>", "ra9_3", "");
  judge_names(c, best::type_names::of<g29::Pa10_0<g29::Xn &>>, best::type_name<g29::Pa10_0<g29::Xn &>>, "g29", "Pa10_0", "<g29::Xn &>");
  judge_names(c, best::type_names::of<g29::_a11_0::ra11_1::Pa11_2>, best::type_name<g29::_a11_0::ra11_1::Pa11_2>, "g29::_a11_0::ra11_1", "Pa11_2", "");
  judge_names(c, best::type_names::of<g29::Qa12_0::_a12_1<int>::qa12_2::pa12_3<g29::Tn<g29::Xn, g29::Tn<int>>, g29::Tn<int>>>, best::type_name<g29::Qa12_0::_a12_1<int>::qa12_2::pa12_3<g29::Tn<g29::Xn, g29::Tn<int>>, g29::Tn<int>>>, "g29::Qa12_0::_a12_1<int>::qa12_2", "pa12_3", "<g29::Tn<g29::Xn, g29::Tn<int>>, g29::Tn<int>>");
  judge_names(c, best::type_names::of<g29::ra13_0::Ra13_1>, best::type_name<g29::ra13_0::Ra13_1>, "g29::ra13_0", "Ra13_1", "");
}
#endif
#ifdef PART_B
namespace g29 { struct Sb0 { unsigned char abcd; int i; int self; long v; best::strbuf q; unsigned char name; unsigned char f62; int f32; bool very_long_field_name_number_one; bool f4; long Z; best::strbuf f17; best::strbuf f18; unsigned char f59; long f55; unsigned char f22; int f3; bool hide_me; unsigned char f33; bool f58; long f14; best::strbuf f2; best::strbuf b; unsigned char id; unsigned char names; int f20; int f60; int data; unsigned char f21; unsigned char f61; long f39; best::strbuf abc; unsigned char f52; best::strbuf f1; best::strbuf f7; int key; unsigned char tags; int Aa; bool f6; int xy; int f47; long f19; best::strbuf f44; long f53; bool row; int n1; unsigned char f27; unsigned char a; bool any_; long f57; best::strbuf f49; bool f36; int f38; long zz9; long second; int f45; int first; unsigned char values; long f25; bool f48; long y; unsigned char it; unsigned char f34; long BestName;  constexpr friend auto BestReflect(auto& m, Sb0*) { return m.with(T2{5}, T2{95}).with(&Sb0::hide_me, T4{31}, T4{72}).with(T2{90}, T2{55}, T2{45}).with(&Sb0::hide_me, T2{84}, T2{68}, T2{73}).with(&Sb0::f19).with(&Sb0::hide_me, T3{71}, T2{54}, T3{71}).with(T2{66}, T2{15}, T4{84}).with(T2{63}, T4{79}, T2{10}).with(T4{53}, T2{65}, 28); } }; }
static g29::Sb0 make_Sb0(Rng& g) { (void)g; return g29::Sb0{(unsigned char)g.next(), (int)g.next(), (int)g.next(), (long)g.next(), best::strbuf(words[g.below(6)]), (unsigned char)g.next(), (unsigned char)g.next(), (int)g.next(), g.flip(), g.flip(), (long)g.next(), best::strbuf(words[g.below(6)]), best::strbuf(words[g.below(6)]), (unsigned char)g.next(), (long)g.next(), (unsigned char)g.next(), (int)g.next(), g.flip(), (unsigned char)g.next(), g.flip(), (long)g.next(), best::strbuf(words[g.below(6)]), best::strbuf(words[g.below(6)]), (unsigned char)g.next(), (unsigned char)g.next(), (int)g.next(), (int)g.next(), (int)g.next(), (unsigned char)g.next(), (unsigned char)g.next(), (long)g.next(), best::strbuf(words[g.below(6)]), (unsigned char)g.next(), best::strbuf(words[g.below(6)]), best::strbuf(words[g.below(6)]), (int)g.next(), (unsigned char)g.next(), (int)g.next(), g.flip(), (int)g.next(), (int)g.next(), (long)g.next(), best::strbuf(words[g.below(6)]), (long)g.next(), g.flip(), (int)g.next(), (unsigned char)g.next(), (unsigned char)g.next(), g.flip(), (long)g.next(), best::strbuf(words[g.below(6)]), g.flip(), (int)g.next(), (long)g.next(), (long)g.next(), (int)g.next(), (int)g.next(), (unsigned char)g.next(), (long)g.next(), g.flip(), (long)g.next(), (unsigned char)g.next(), (unsigned char)g.next(), (long)g.next()}; }
static const StructWant& want_Sb0() { static const StructWant w{"Sb0", "g29::Sb0", {{"hide_me", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb0*)p)->hide_me); }, {}, {84, 68, 73, 71, 54, 71}, [](const void* p) { return dbg(((const g29::Sb0*)p)->hide_me); }}, {"f19", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb0*)p)->f19); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb0*)p)->f19); }}}, {"abcd", "i", "self", "v", "q", "name", "f62", "f32", "very_long_field_name_number_one", "f4", "Z", "f17", "f18", "f59", "f55", "f22", "f3", "f33", "f58", "f14", "f2", "b", "id", "names", "f20", "f60", "data", "f21", "f61", "f39", "abc", "f52", "f1", "f7", "key", "tags", "Aa", "f6", "xy", "f47", "f44", "f53", "row", "n1", "f27", "a", "any_", "f57", "f49", "f36", "f38", "zz9", "second", "f45", "first", "values", "f25", "f48", "y", "it", "f34", "BestName"}, {28}, {5, 95, 90, 55, 45, 66, 15, 63, 10, 65}, true}; return w; }
static void all_Sb0(Ctx& c) { auto a = make_Sb0(c.rng); auto b = make_Sb0(c.rng); judge_struct<true>(c, a, b, want_Sb0()); VH_CHECK(same(best::field_name<&g29::Sb0::abcd>, "abcd"), "field-name", "field_name of abcd"); VH_CHECK(same(best::field_name<&g29::Sb0::i>, "i"), "field-name", "field_name of i"); VH_CHECK(same(best::field_name<&g29::Sb0::self>, "self"), "field-name", "field_name of self"); VH_CHECK(same(best::field_name<&g29::Sb0::v>, "v"), "field-name", "field_name of v"); VH_CHECK(same(best::field_name<&g29::Sb0::q>, "q"), "field-name", "field_name of q"); VH_CHECK(same(best::field_name<&g29::Sb0::name>, "name"), "field-name", "field_name of name"); }
namespace g29 { struct Sb1 { int desc_; int abc; best::strbuf size; long type; best::strbuf self; long zz9; unsigned char ab; unsigned char abcd; int values; unsigned char _x; int second; long BestName; best::strbuf first; bool n01; best::strbuf x_; bool z_; best::strbuf id; best::strbuf it; best::strbuf row; unsigned char match; long v; int b; int value; long each; long any_; long a; unsigned char qqq; bool names; int hide_me; int aA; long Aa; unsigned char y; unsigned char xx;  }; }
static g29::Sb1 make_Sb1(Rng& g) { (void)g; return g29::Sb1{(int)g.next(), (int)g.next(), best::strbuf(words[g.below(6)]), (long)g.next(), best::strbuf(words[g.below(6)]), (long)g.next(), (unsigned char)g.next(), (unsigned char)g.next(), (int)g.next(), (unsigned char)g.next(), (int)g.next(), (long)g.next(), best::strbuf(words[g.below(6)]), g.flip(), best::strbuf(words[g.below(6)]), g.flip(), best::strbuf(words[g.below(6)]), best::strbuf(words[g.below(6)]), best::strbuf(words[g.below(6)]), (unsigned char)g.next(), (long)g.next(), (int)g.next(), (int)g.next(), (long)g.next(), (long)g.next(), (long)g.next(), (unsigned char)g.next(), g.flip(), (int)g.next(), (int)g.next(), (long)g.next(), (unsigned char)g.next(), (unsigned char)g.next()}; }
static const StructWant& want_Sb1() { static const StructWant w{"Sb1", "g29::Sb1", {{"desc_", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->desc_); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->desc_); }}, {"abc", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->abc); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->abc); }}, {"size", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->size); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->size); }}, {"type", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->type); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->type); }}, {"self", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->self); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->self); }}, {"zz9", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->zz9); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->zz9); }}, {"ab", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->ab); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->ab); }}, {"abcd", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->abcd); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->abcd); }}, {"values", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->values); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->values); }}, {"_x", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->_x); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->_x); }}, {"second", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->second); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->second); }}, {"BestName", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->BestName); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->BestName); }}, {"first", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->first); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->first); }}, {"n01", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->n01); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->n01); }}, {"x_", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->x_); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->x_); }}, {"z_", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->z_); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->z_); }}, {"id", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->id); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->id); }}, {"it", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->it); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->it); }}, {"row", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->row); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->row); }}, {"match", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->match); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->match); }}, {"v", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->v); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->v); }}, {"b", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->b); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->b); }}, {"value", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->value); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->value); }}, {"each", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->each); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->each); }}, {"any_", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->any_); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->any_); }}, {"a", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->a); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->a); }}, {"qqq", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->qqq); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->qqq); }}, {"names", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->names); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->names); }}, {"hide_me", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->hide_me); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->hide_me); }}, {"aA", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->aA); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->aA); }}, {"Aa", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->Aa); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->Aa); }}, {"y", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->y); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->y); }}, {"xx", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb1*)p)->xx); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb1*)p)->xx); }}}, {}, {}, {}, true}; return w; }
static void all_Sb1(Ctx& c) { auto a = make_Sb1(c.rng); auto b = make_Sb1(c.rng); judge_struct<true>(c, a, b, want_Sb1()); VH_CHECK(same(best::field_name<&g29::Sb1::desc_>, "desc_"), "field-name", "field_name of desc_"); VH_CHECK(same(best::field_name<&g29::Sb1::abc>, "abc"), "field-name", "field_name of abc"); VH_CHECK(same(best::field_name<&g29::Sb1::size>, "size"), "field-name", "field_name of size"); VH_CHECK(same(best::field_name<&g29::Sb1::type>, "type"), "field-name", "field_name of type"); VH_CHECK(same(best::field_name<&g29::Sb1::self>, "self"), "field-name", "field_name of self"); VH_CHECK(same(best::field_name<&g29::Sb1::zz9>, "zz9"), "field-name", "field_name of zz9"); }
namespace g29 { struct Sb2 { std::string n01; best::option<int> data;  constexpr friend auto BestReflect(auto& m, Sb2*) { return m.infer(); } }; }
static g29::Sb2 make_Sb2(Rng& g) { (void)g; return g29::Sb2{std::string(g.below(40), 'q'), g.flip() ? best::option<int>((int)g.below(9)) : best::option<int>()}; }
static const StructWant& want_Sb2() { static const StructWant w{"Sb2", "g29::Sb2", {{"n01", tid<std::string>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb2*)p)->n01); }, {}, {}, nullptr}, {"data", tid<best::option<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb2*)p)->data); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb2*)p)->data); }}}, {}, {}, {}, false}; return w; }
static void all_Sb2(Ctx& c) { auto a = make_Sb2(c.rng); auto b = make_Sb2(c.rng); judge_struct<false>(c, a, b, want_Sb2()); VH_CHECK(same(best::field_name<&g29::Sb2::n01>, "n01"), "field-name", "field_name of n01"); VH_CHECK(same(best::field_name<&g29::Sb2::data>, "data"), "field-name", "field_name of data"); }
namespace g29 { struct Sb3 { std::pair<int, int> xx; Mo qqq; std::pair<int, int> values;  constexpr friend auto BestReflect(auto& m, Sb3*) { return m.infer().with(&Sb3::xx, 45, T2{21}, T4{88}).with(&Sb3::values, T2{13}, T3{42}).with(&Sb3::values, T4{87}, T4{5}, T4{99}).hide(&Sb3::qqq).with(&Sb3::xx, T4{7}, T2{9}, T3{42}).hide(&Sb3::values).with(T2{79}, T4{78}); } }; }
static g29::Sb3 make_Sb3(Rng& g) { (void)g; return g29::Sb3{std::pair<int, int>(1, 2), Mo((int)g.below(99)), std::pair<int, int>(1, 2)}; }
static const StructWant& want_Sb3() { static const StructWant w{"Sb3", "g29::Sb3", {{"xx", tid<std::pair<int, int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb3*)p)->xx); }, {45}, {21, 9, 42}, nullptr}}, {"qqq", "values"}, {}, {79}, false}; return w; }
static void all_Sb3(Ctx& c) { auto a = make_Sb3(c.rng); auto b = make_Sb3(c.rng); judge_struct<false>(c, a, b, want_Sb3()); VH_CHECK(same(best::field_name<&g29::Sb3::xx>, "xx"), "field-name", "field_name of xx"); VH_CHECK(same(best::field_name<&g29::Sb3::qqq>, "qqq"), "field-name", "field_name of qqq"); VH_CHECK(same(best::field_name<&g29::Sb3::values>, "values"), "field-name", "field_name of values"); }
namespace g29 { struct Sb4 { std::pair<int, int> zz9; std::string id; double hide_me; std::string n0; best::option<int> n10; best::strbuf abcd; En very_long_field_name_number_one; int very_long_field_name_number_two; double n01;  }; }
static g29::Sb4 make_Sb4(Rng& g) { (void)g; return g29::Sb4{std::pair<int, int>(1, 2), std::string(g.below(40), 'q'), (double)(int)g.below(1000), std::string(g.below(40), 'q'), g.flip() ? best::option<int>((int)g.below(9)) : best::option<int>(), best::strbuf(words[g.below(6)]), (En)g.below(4), (int)g.next(), (double)(int)g.below(1000)}; }
static const StructWant& want_Sb4() { static const StructWant w{"Sb4", "g29::Sb4", {{"zz9", tid<std::pair<int, int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb4*)p)->zz9); }, {}, {}, nullptr}, {"id", tid<std::string>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb4*)p)->id); }, {}, {}, nullptr}, {"hide_me", tid<double>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb4*)p)->hide_me); }, {}, {}, nullptr}, {"n0", tid<std::string>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb4*)p)->n0); }, {}, {}, nullptr}, {"n10", tid<best::option<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb4*)p)->n10); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb4*)p)->n10); }}, {"abcd", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb4*)p)->abcd); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb4*)p)->abcd); }}, {"very_long_field_name_number_one", tid<En>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb4*)p)->very_long_field_name_number_one); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb4*)p)->very_long_field_name_number_one); }}, {"very_long_field_name_number_two", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb4*)p)->very_long_field_name_number_two); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb4*)p)->very_long_field_name_number_two); }}, {"n01", tid<double>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb4*)p)->n01); }, {}, {}, nullptr}}, {}, {}, {}, false}; return w; }
static void all_Sb4(Ctx& c) { auto a = make_Sb4(c.rng); auto b = make_Sb4(c.rng); judge_struct<false>(c, a, b, want_Sb4()); VH_CHECK(same(best::field_name<&g29::Sb4::zz9>, "zz9"), "field-name", "field_name of zz9"); VH_CHECK(same(best::field_name<&g29::Sb4::id>, "id"), "field-name", "field_name of id"); VH_CHECK(same(best::field_name<&g29::Sb4::hide_me>, "hide_me"), "field-name", "field_name of hide_me"); VH_CHECK(same(best::field_name<&g29::Sb4::n0>, "n0"), "field-name", "field_name of n0"); VH_CHECK(same(best::field_name<&g29::Sb4::n10>, "n10"), "field-name", "field_name of n10"); VH_CHECK(same(best::field_name<&g29::Sb4::abcd>, "abcd"), "field-name", "field_name of abcd"); }
namespace g29 { template <class Q> struct Sb5 { float b; En Z; std::pair<int, int> xy;  constexpr friend auto BestReflect(auto& m, Sb5*) { return m.infer().with(T2{57}, T4{6}).hide(&Sb5::xy).with(T3{64}).with(&Sb5::xy, T4{31}).hide(&Sb5::xy); } }; }
static g29::Sb5<int> make_Sb5(Rng& g) { (void)g; return g29::Sb5<int>{(float)(int)g.below(100), (En)g.below(4), std::pair<int, int>(1, 2)}; }
static const StructWant& want_Sb5() { static const StructWant w{"Sb5", "g29::Sb5<int>", {{"b", tid<float>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb5<int>*)p)->b); }, {}, {}, nullptr}, {"Z", tid<En>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb5<int>*)p)->Z); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb5<int>*)p)->Z); }}}, {"xy"}, {}, {57, 64}, false}; return w; }
static void all_Sb5(Ctx& c) { auto a = make_Sb5(c.rng); auto b = make_Sb5(c.rng); judge_struct<false>(c, a, b, want_Sb5()); VH_CHECK(same(best::field_name<&g29::Sb5<int>::b>, "b"), "field-name", "field_name of b"); VH_CHECK(same(best::field_name<&g29::Sb5<int>::Z>, "Z"), "field-name", "field_name of Z"); VH_CHECK(same(best::field_name<&g29::Sb5<int>::xy>, "xy"), "field-name", "field_name of xy"); }
namespace g29 { struct Sb6 { best::vec<int> xy; float abc;  constexpr friend auto BestReflect(auto& m, Sb6*) { return m.infer().with(6, 98).hide(&Sb6::abc).with(&Sb6::xy, 12).with(&Sb6::xy, T3{14}, T4{68}, 17).with(T3{45}).with(T2{10}, T3{19}, 77).with(&Sb6::abc, T2{9}).hide(&Sb6::abc).hide(&Sb6::xy); } }; }
static g29::Sb6 make_Sb6(Rng& g) { (void)g; return g29::Sb6{best::vec<int>{(int)g.below(9), 2}, (float)(int)g.below(100)}; }
static const StructWant& want_Sb6() { static const StructWant w{"Sb6", "g29::Sb6", {}, {"xy", "abc"}, {6, 98, 77}, {45, 10, 19}, true}; return w; }
static void all_Sb6(Ctx& c) { auto a = make_Sb6(c.rng); auto b = make_Sb6(c.rng); judge_struct<true>(c, a, b, want_Sb6()); VH_CHECK(same(best::field_name<&g29::Sb6::xy>, "xy"), "field-name", "field_name of xy"); VH_CHECK(same(best::field_name<&g29::Sb6::abc>, "abc"), "field-name", "field_name of abc"); }
namespace g29 { struct Sb7 { int* v; float very_long_field_name_number_one; En hide_me; best::option<int> BestName; const short any_; double abc;  constexpr friend auto BestReflect(auto& m, Sb7*) { return m.infer().with(&Sb7::hide_me, T4{31}, 40, T4{2}).with(T3{86}).hide(&Sb7::abc).with(&Sb7::very_long_field_name_number_one, T4{73}).with(&Sb7::BestName, T4{51}, T4{78}); } }; }
static g29::Sb7 make_Sb7(Rng& g) { (void)g; return g29::Sb7{nullptr, (float)(int)g.below(100), (En)g.below(4), g.flip() ? best::option<int>((int)g.below(9)) : best::option<int>(), (short)g.next(), (double)(int)g.below(1000)}; }
static const StructWant& want_Sb7() { static const StructWant w{"Sb7", "g29::Sb7", {{"v", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb7*)p)->v); }, {}, {}, nullptr}, {"very_long_field_name_number_one", tid<float>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb7*)p)->very_long_field_name_number_one); }, {}, {}, nullptr}, {"hide_me", tid<En>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb7*)p)->hide_me); }, {40}, {}, [](const void* p) { return dbg(((const g29::Sb7*)p)->hide_me); }}, {"BestName", tid<best::option<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb7*)p)->BestName); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb7*)p)->BestName); }}, {"any_", tid<const short>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb7*)p)->any_); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb7*)p)->any_); }}}, {"abc"}, {}, {86}, false}; return w; }
static void all_Sb7(Ctx& c) { auto a = make_Sb7(c.rng); auto b = make_Sb7(c.rng); judge_struct<false>(c, a, b, want_Sb7()); VH_CHECK(same(best::field_name<&g29::Sb7::v>, "v"), "field-name", "field_name of v"); VH_CHECK(same(best::field_name<&g29::Sb7::very_long_field_name_number_one>, "very_long_field_name_number_one"), "field-name", "field_name of very_long_field_name_number_one"); VH_CHECK(same(best::field_name<&g29::Sb7::hide_me>, "hide_me"), "field-name", "field_name of hide_me"); VH_CHECK(same(best::field_name<&g29::Sb7::BestName>, "BestName"), "field-name", "field_name of BestName"); VH_CHECK(same(best::field_name<&g29::Sb7::any_>, "any_"), "field-name", "field_name of any_"); VH_CHECK(same(best::field_name<&g29::Sb7::abc>, "abc"), "field-name", "field_name of abc"); }
namespace g29 { template <class Q> struct Sb8 { int names; int* abcd; best::option<int> id; int* tags;  }; }
static g29::Sb8<int> make_Sb8(Rng& g) { (void)g; return g29::Sb8<int>{(int)g.next(), nullptr, g.flip() ? best::option<int>((int)g.below(9)) : best::option<int>(), nullptr}; }
static const StructWant& want_Sb8() { static const StructWant w{"Sb8", "g29::Sb8<int>", {{"names", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb8<int>*)p)->names); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb8<int>*)p)->names); }}, {"abcd", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb8<int>*)p)->abcd); }, {}, {}, nullptr}, {"id", tid<best::option<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb8<int>*)p)->id); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb8<int>*)p)->id); }}, {"tags", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb8<int>*)p)->tags); }, {}, {}, nullptr}}, {}, {}, {}, false}; return w; }
static void all_Sb8(Ctx& c) { auto a = make_Sb8(c.rng); auto b = make_Sb8(c.rng); judge_struct<false>(c, a, b, want_Sb8()); VH_CHECK(same(best::field_name<&g29::Sb8<int>::names>, "names"), "field-name", "field_name of names"); VH_CHECK(same(best::field_name<&g29::Sb8<int>::abcd>, "abcd"), "field-name", "field_name of abcd"); VH_CHECK(same(best::field_name<&g29::Sb8<int>::id>, "id"), "field-name", "field_name of id"); VH_CHECK(same(best::field_name<&g29::Sb8<int>::tags>, "tags"), "field-name", "field_name of tags"); }
namespace g29 { struct Sb9 { best::vec<int> id; std::string Z; int* z_; best::str x;  constexpr friend auto BestReflect(auto& m, Sb9*) { return m.infer().with(&Sb9::Z, T3{73}, T3{51}, T2{89}); } }; }
static g29::Sb9 make_Sb9(Rng& g) { (void)g; return g29::Sb9{best::vec<int>{(int)g.below(9), 2}, std::string(g.below(40), 'q'), nullptr, words[g.below(6)]}; }
static const StructWant& want_Sb9() { static const StructWant w{"Sb9", "g29::Sb9", {{"id", tid<best::vec<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb9*)p)->id); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb9*)p)->id); }}, {"Z", tid<std::string>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb9*)p)->Z); }, {}, {73, 51, 89}, nullptr}, {"z_", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb9*)p)->z_); }, {}, {}, nullptr}, {"x", tid<best::str>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb9*)p)->x); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb9*)p)->x); }}}, {}, {}, {}, false}; return w; }
static void all_Sb9(Ctx& c) { auto a = make_Sb9(c.rng); auto b = make_Sb9(c.rng); judge_struct<false>(c, a, b, want_Sb9()); VH_CHECK(same(best::field_name<&g29::Sb9::id>, "id"), "field-name", "field_name of id"); VH_CHECK(same(best::field_name<&g29::Sb9::Z>, "Z"), "field-name", "field_name of Z"); VH_CHECK(same(best::field_name<&g29::Sb9::z_>, "z_"), "field-name", "field_name of z_"); VH_CHECK(same(best::field_name<&g29::Sb9::x>, "x"), "field-name", "field_name of x"); }
namespace g29 { template <class Q> struct Sb10 { In type; best::box<int> Z; std::string BestName; best::box<int> qq; best::strbuf very_long_field_name_number_two; float each; Mo desc_; std::pair<int, int> very_long_field_name_number_one; En second;  constexpr friend auto BestReflect(auto& m, Sb10*) { return m.infer().with(&Sb10::BestName, T3{52}, T3{33}, T4{8}).with(&Sb10::qq, T2{83}).with(&Sb10::very_long_field_name_number_one, T2{70}, 16).with(&Sb10::Z, T3{19}, 49).with(T3{83}, T3{76}, T3{18}).with(&Sb10::desc_, T2{38}).with(&Sb10::type, T4{20}, T3{94}, T4{21}); } }; }
static g29::Sb10<int> make_Sb10(Rng& g) { (void)g; return g29::Sb10<int>{In{(int)g.below(99), g.flip()}, best::box<int>((int)g.below(99)), std::string(g.below(40), 'q'), best::box<int>((int)g.below(99)), best::strbuf(words[g.below(6)]), (float)(int)g.below(100), Mo((int)g.below(99)), std::pair<int, int>(1, 2), (En)g.below(4)}; }
static const StructWant& want_Sb10() { static const StructWant w{"Sb10", "g29::Sb10<int>", {{"type", tid<In>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb10<int>*)p)->type); }, {}, {94}, [](const void* p) { return dbg(((const g29::Sb10<int>*)p)->type); }}, {"Z", tid<best::box<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb10<int>*)p)->Z); }, {49}, {19}, nullptr}, {"BestName", tid<std::string>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb10<int>*)p)->BestName); }, {}, {52, 33}, nullptr}, {"qq", tid<best::box<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb10<int>*)p)->qq); }, {}, {83}, nullptr}, {"very_long_field_name_number_two", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb10<int>*)p)->very_long_field_name_number_two); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb10<int>*)p)->very_long_field_name_number_two); }}, {"each", tid<float>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb10<int>*)p)->each); }, {}, {}, nullptr}, {"desc_", tid<Mo>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb10<int>*)p)->desc_); }, {}, {38}, nullptr}, {"very_long_field_name_number_one", tid<std::pair<int, int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb10<int>*)p)->very_long_field_name_number_one); }, {16}, {70}, nullptr}, {"second", tid<En>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb10<int>*)p)->second); }, {}, {}, [](const void* p) { return dbg(((const g29::Sb10<int>*)p)->second); }}}, {}, {}, {83, 76, 18}, false}; return w; }
static void all_Sb10(Ctx& c) { auto a = make_Sb10(c.rng); auto b = make_Sb10(c.rng); judge_struct<false>(c, a, b, want_Sb10()); VH_CHECK(same(best::field_name<&g29::Sb10<int>::type>, "type"), "field-name", "field_name of type"); VH_CHECK(same(best::field_name<&g29::Sb10<int>::Z>, "Z"), "field-name", "field_name of Z"); VH_CHECK(same(best::field_name<&g29::Sb10<int>::BestName>, "BestName"), "field-name", "field_name of BestName"); VH_CHECK(same(best::field_name<&g29::Sb10<int>::qq>, "qq"), "field-name", "field_name of qq"); VH_CHECK(same(best::field_name<&g29::Sb10<int>::very_long_field_name_number_two>, "very_long_field_name_number_two"), "field-name", "field_name of very_long_field_name_number_two"); VH_CHECK(same(best::field_name<&g29::Sb10<int>::each>, "each"), "field-name", "field_name of each"); }
namespace g29 { struct Sb11 { long values; long first;  constexpr friend auto BestReflect(auto& m, Sb11*) { return m.infer().with(&Sb11::values, 64).with(&Sb11::first, 36, T3{74}).with(T4{26}).with(&Sb11::first, T3{6}); } }; }
static g29::Sb11 make_Sb11(Rng& g) { (void)g; return g29::Sb11{(long)g.next(), (long)g.next()}; }
static const StructWant& want_Sb11() { static const StructWant w{"Sb11", "g29::Sb11", {{"values", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb11*)p)->values); }, {64}, {}, [](const void* p) { return dbg(((const g29::Sb11*)p)->values); }}, {"first", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb11*)p)->first); }, {36}, {74, 6}, [](const void* p) { return dbg(((const g29::Sb11*)p)->first); }}}, {}, {}, {}, true}; return w; }
static void all_Sb11(Ctx& c) { auto a = make_Sb11(c.rng); auto b = make_Sb11(c.rng); judge_struct<true>(c, a, b, want_Sb11()); VH_CHECK(same(best::field_name<&g29::Sb11::values>, "values"), "field-name", "field_name of values"); VH_CHECK(same(best::field_name<&g29::Sb11::first>, "first"), "field-name", "field_name of first"); }
namespace g29 { struct Sb12 { std::string row; float self; In it; bool xy; bool b;  constexpr friend auto BestReflect(auto& m, Sb12*) { return m.infer().with(&Sb12::b, T2{23}, 33, 19).with(&Sb12::xy, T3{39}, T2{28}).with(&Sb12::self, T4{58}).with(&Sb12::b, 2, T3{96}, T2{89}).with(&Sb12::it, 33, T2{8}).with(&Sb12::xy, T3{22}, T4{95}, T4{9}).hide(&Sb12::self); } }; }
static g29::Sb12 make_Sb12(Rng& g) { (void)g; return g29::Sb12{std::string(g.below(40), 'q'), (float)(int)g.below(100), In{(int)g.below(99), g.flip()}, g.flip(), g.flip()}; }
static const StructWant& want_Sb12() { static const StructWant w{"Sb12", "g29::Sb12", {{"row", tid<std::string>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb12*)p)->row); }, {}, {}, nullptr}, {"it", tid<In>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb12*)p)->it); }, {33}, {8}, [](const void* p) { return dbg(((const g29::Sb12*)p)->it); }}, {"xy", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb12*)p)->xy); }, {}, {39, 28, 22}, [](const void* p) { return dbg(((const g29::Sb12*)p)->xy); }}, {"b", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sb12*)p)->b); }, {33, 19, 2}, {23, 96, 89}, [](const void* p) { return dbg(((const g29::Sb12*)p)->b); }}}, {"self"}, {}, {}, false}; return w; }
static void all_Sb12(Ctx& c) { auto a = make_Sb12(c.rng); auto b = make_Sb12(c.rng); judge_struct<false>(c, a, b, want_Sb12()); VH_CHECK(same(best::field_name<&g29::Sb12::row>, "row"), "field-name", "field_name of row"); VH_CHECK(same(best::field_name<&g29::Sb12::self>, "self"), "field-name", "field_name of self"); VH_CHECK(same(best::field_name<&g29::Sb12::it>, "it"), "field-name", "field_name of it"); VH_CHECK(same(best::field_name<&g29::Sb12::xy>, "xy"), "field-name", "field_name of xy"); VH_CHECK(same(best::field_name<&g29::Sb12::b>, "b"), "field-name", "field_name of b"); }
namespace g29 { template <class Q> struct Sb13 { En it; int zz9;  constexpr friend auto BestReflect(auto& m, Sb13*) { return m.with(T4{0}, 25).with(T3{51}, T2{86}, 53); } }; }
static g29::Sb13<int> make_Sb13(Rng& g) { (void)g; return g29::Sb13<int>{(En)g.below(4), (int)g.next()}; }
static const StructWant& want_Sb13() { static const StructWant w{"Sb13", "g29::Sb13<int>", {}, {"it", "zz9"}, {25, 53}, {51, 86}, true}; return w; }
static void all_Sb13(Ctx& c) { auto a = make_Sb13(c.rng); auto b = make_Sb13(c.rng); judge_struct<true>(c, a, b, want_Sb13()); VH_CHECK(same(best::field_name<&g29::Sb13<int>::it>, "it"), "field-name", "field_name of it"); VH_CHECK(same(best::field_name<&g29::Sb13<int>::zz9>, "zz9"), "field-name", "field_name of zz9"); }
namespace g29 { namespace en_Eb0 { enum class Eb0 : bool {  };  } }
static const EnumWant& want_Eb0() { static const EnumWant w{"Eb0", "g29::en_Eb0::Eb0", {}, {}, {}, {}, 0, 0}; return w; }
static void all_Eb0(Ctx& c) { judge_enum<g29::en_Eb0::Eb0>(c, want_Eb0()); }
namespace g29 { namespace en_Eb1 { enum Eb1 {  };  } }
static const EnumWant& want_Eb1() { static const EnumWant w{"Eb1", "g29::en_Eb1::Eb1", {}, {}, {}, {}, 1, 0}; return w; }
static void all_Eb1(Ctx& c) { judge_enum<g29::en_Eb1::Eb1>(c, want_Eb1()); }
namespace g29 { namespace en_Eb2 { enum class Eb2 : long { size = 52, desc_ = 32, i = 20, each = 42, abcd = 35, idx = 54, hide_me = 23, n1 = 27 }; constexpr auto BestReflect(auto& m, Eb2*) { return m.infer(); } } }
static const EnumWant& want_Eb2() { static const EnumWant w{"Eb2", "g29::en_Eb2::Eb2", {{"i", (i64)20, {}, {}}, {"hide_me", (i64)23, {}, {}}, {"n1", (i64)27, {}, {}}, {"desc_", (i64)32, {}, {}}, {"abcd", (i64)35, {}, {}}, {"each", (i64)42, {}, {}}, {"size", (i64)52, {}, {}}, {"idx", (i64)54, {}, {}}}, {}, {}, {}, 0, 0}; return w; }
static void all_Eb2(Ctx& c) { judge_enum<g29::en_Eb2::Eb2>(c, want_Eb2()); VH_CHECK(best::value_name<g29::en_Eb2::Eb2::size>.has_value() && same(*best::value_name<g29::en_Eb2::Eb2::size>, "size"), "value-name", "value_name of Eb2::size"); VH_CHECK(best::value_name<g29::en_Eb2::Eb2::desc_>.has_value() && same(*best::value_name<g29::en_Eb2::Eb2::desc_>, "desc_"), "value-name", "value_name of Eb2::desc_"); VH_CHECK(best::value_name<g29::en_Eb2::Eb2::i>.has_value() && same(*best::value_name<g29::en_Eb2::Eb2::i>, "i"), "value-name", "value_name of Eb2::i"); VH_CHECK(best::value_name<g29::en_Eb2::Eb2::each>.has_value() && same(*best::value_name<g29::en_Eb2::Eb2::each>, "each"), "value-name", "value_name of Eb2::each"); VH_CHECK(best::value_name<g29::en_Eb2::Eb2::abcd>.has_value() && same(*best::value_name<g29::en_Eb2::Eb2::abcd>, "abcd"), "value-name", "value_name of Eb2::abcd"); VH_CHECK(best::value_name<g29::en_Eb2::Eb2::idx>.has_value() && same(*best::value_name<g29::en_Eb2::Eb2::idx>, "idx"), "value-name", "value_name of Eb2::idx"); VH_CHECK(best::value_name<g29::en_Eb2::Eb2::hide_me>.has_value() && same(*best::value_name<g29::en_Eb2::Eb2::hide_me>, "hide_me"), "value-name", "value_name of Eb2::hide_me"); VH_CHECK(best::value_name<g29::en_Eb2::Eb2::n1>.has_value() && same(*best::value_name<g29::en_Eb2::Eb2::n1>, "n1"), "value-name", "value_name of Eb2::n1"); }
namespace g29 { namespace en_Eb3 { enum Eb3 : unsigned char { aA = 10, v = 8, n0 = 1, size = 7, it = 4, y = 12, xx = 5, Z = 9, type = 6, _x = 3, value = 11, abcd = 2, b = 0 };  } }
static const EnumWant& want_Eb3() { static const EnumWant w{"Eb3", "g29::en_Eb3::Eb3", {{"b", (i64)0, {}, {}}, {"n0", (i64)1, {}, {}}, {"abcd", (i64)2, {}, {}}, {"_x", (i64)3, {}, {}}, {"it", (i64)4, {}, {}}, {"xx", (i64)5, {}, {}}, {"type", (i64)6, {}, {}}, {"size", (i64)7, {}, {}}, {"v", (i64)8, {}, {}}, {"Z", (i64)9, {}, {}}, {"aA", (i64)10, {}, {}}, {"value", (i64)11, {}, {}}, {"y", (i64)12, {}, {}}}, {}, {}, {}, 0, 0}; return w; }
static void all_Eb3(Ctx& c) { judge_enum<g29::en_Eb3::Eb3>(c, want_Eb3()); VH_CHECK(best::value_name<g29::en_Eb3::Eb3::aA>.has_value() && same(*best::value_name<g29::en_Eb3::Eb3::aA>, "aA"), "value-name", "value_name of Eb3::aA"); VH_CHECK(best::value_name<g29::en_Eb3::Eb3::v>.has_value() && same(*best::value_name<g29::en_Eb3::Eb3::v>, "v"), "value-name", "value_name of Eb3::v"); VH_CHECK(best::value_name<g29::en_Eb3::Eb3::n0>.has_value() && same(*best::value_name<g29::en_Eb3::Eb3::n0>, "n0"), "value-name", "value_name of Eb3::n0"); VH_CHECK(best::value_name<g29::en_Eb3::Eb3::size>.has_value() && same(*best::value_name<g29::en_Eb3::Eb3::size>, "size"), "value-name", "value_name of Eb3::size"); VH_CHECK(best::value_name<g29::en_Eb3::Eb3::it>.has_value() && same(*best::value_name<g29::en_Eb3::Eb3::it>, "it"), "value-name", "value_name of Eb3::it"); VH_CHECK(best::value_name<g29::en_Eb3::Eb3::y>.has_value() && same(*best::value_name<g29::en_Eb3::Eb3::y>, "y"), "value-name", "value_name of Eb3::y"); VH_CHECK(best::value_name<g29::en_Eb3::Eb3::xx>.has_value() && same(*best::value_name<g29::en_Eb3::Eb3::xx>, "xx"), "value-name", "value_name of Eb3::xx"); VH_CHECK(best::value_name<g29::en_Eb3::Eb3::Z>.has_value() && same(*best::value_name<g29::en_Eb3::Eb3::Z>, "Z"), "value-name", "value_name of Eb3::Z"); VH_CHECK(best::value_name<g29::en_Eb3::Eb3::type>.has_value() && same(*best::value_name<g29::en_Eb3::Eb3::type>, "type"), "value-name", "value_name of Eb3::type"); VH_CHECK(best::value_name<g29::en_Eb3::Eb3::_x>.has_value() && same(*best::value_name<g29::en_Eb3::Eb3::_x>, "_x"), "value-name", "value_name of Eb3::_x"); VH_CHECK(best::value_name<g29::en_Eb3::Eb3::value>.has_value() && same(*best::value_name<g29::en_Eb3::Eb3::value>, "value"), "value-name", "value_name of Eb3::value"); VH_CHECK(best::value_name<g29::en_Eb3::Eb3::abcd>.has_value() && same(*best::value_name<g29::en_Eb3::Eb3::abcd>, "abcd"), "value-name", "value_name of Eb3::abcd"); VH_CHECK(best::value_name<g29::en_Eb3::Eb3::b>.has_value() && same(*best::value_name<g29::en_Eb3::Eb3::b>, "b"), "value-name", "value_name of Eb3::b"); }
namespace g29 { namespace en_Eb4 { enum Eb4 : char { zz9 = 64, q = 10 }; constexpr auto BestReflect(auto& m, Eb4*) { return m.infer().with(Eb4::zz9, T3{64}, T3{43}).with(T3{34}, 33, T2{16}).with(T3{38}, T4{37}, 64); } } }
static const EnumWant& want_Eb4() { static const EnumWant w{"Eb4", "g29::en_Eb4::Eb4", {{"q", (i64)10, {}, {}}, {"zz9", (i64)64, {}, {64, 43}}}, {}, {33, 64}, {34, 16, 38}, 0, 0}; return w; }
static void all_Eb4(Ctx& c) { judge_enum<g29::en_Eb4::Eb4>(c, want_Eb4()); VH_CHECK(best::value_name<g29::en_Eb4::Eb4::zz9>.has_value() && same(*best::value_name<g29::en_Eb4::Eb4::zz9>, "zz9"), "value-name", "value_name of Eb4::zz9"); VH_CHECK(best::value_name<g29::en_Eb4::Eb4::q>.has_value() && same(*best::value_name<g29::en_Eb4::Eb4::q>, "q"), "value-name", "value_name of Eb4::q"); }
namespace g29 { namespace en_Eb5 { enum class Eb5 : unsigned char { abc = 3, very_long_field_name_number_one = 1, it = 5, row = 0, n1 = 4, qqq = 2 }; constexpr auto BestReflect(auto& m, Eb5*) { return m.infer().with(38, T2{41}).with(T3{8}, 33).with(T4{64}).hide(Eb5::qqq).with(T4{15}, 45).with(T2{9}, T4{2}, 77).hide(Eb5::n1); } } }
static const EnumWant& want_Eb5() { static const EnumWant w{"Eb5", "g29::en_Eb5::Eb5", {{"row", (i64)0, {}, {}}, {"very_long_field_name_number_one", (i64)1, {}, {}}, {"abc", (i64)3, {}, {}}, {"it", (i64)5, {}, {}}}, {{"n1", (i64)4, {}, {}}, {"qqq", (i64)2, {}, {}}}, {38, 33, 45, 77}, {41, 8, 9}, 0, 0}; return w; }
static void all_Eb5(Ctx& c) { judge_enum<g29::en_Eb5::Eb5>(c, want_Eb5()); VH_CHECK(best::value_name<g29::en_Eb5::Eb5::abc>.has_value() && same(*best::value_name<g29::en_Eb5::Eb5::abc>, "abc"), "value-name", "value_name of Eb5::abc"); VH_CHECK(best::value_name<g29::en_Eb5::Eb5::very_long_field_name_number_one>.has_value() && same(*best::value_name<g29::en_Eb5::Eb5::very_long_field_name_number_one>, "very_long_field_name_number_one"), "value-name", "value_name of Eb5::very_long_field_name_number_one"); VH_CHECK(best::value_name<g29::en_Eb5::Eb5::it>.has_value() && same(*best::value_name<g29::en_Eb5::Eb5::it>, "it"), "value-name", "value_name of Eb5::it"); VH_CHECK(best::value_name<g29::en_Eb5::Eb5::row>.has_value() && same(*best::value_name<g29::en_Eb5::Eb5::row>, "row"), "value-name", "value_name of Eb5::row"); VH_CHECK(best::value_name<g29::en_Eb5::Eb5::n1>.has_value() && same(*best::value_name<g29::en_Eb5::Eb5::n1>, "n1"), "value-name", "value_name of Eb5::n1"); VH_CHECK(best::value_name<g29::en_Eb5::Eb5::qqq>.has_value() && same(*best::value_name<g29::en_Eb5::Eb5::qqq>, "qqq"), "value-name", "value_name of Eb5::qqq"); }
namespace g29 { namespace en_Eb6 { enum class Eb6 : bool {  };  } }
static const EnumWant& want_Eb6() { static const EnumWant w{"Eb6", "g29::en_Eb6::Eb6", {}, {}, {}, {}, 0, 0}; return w; }
static void all_Eb6(Ctx& c) { judge_enum<g29::en_Eb6::Eb6>(c, want_Eb6()); }
static void (*const structs[])(Ctx&) = {all_Sb0, all_Sb1, all_Sb2, all_Sb3, all_Sb4, all_Sb5, all_Sb6, all_Sb7, all_Sb8, all_Sb9, all_Sb10, all_Sb11, all_Sb12, all_Sb13};
static void (*const enums[])(Ctx&) = {all_Eb0, all_Eb1, all_Eb2, all_Eb3, all_Eb4, all_Eb5, all_Eb6};
namespace g29 { struct Xn {}; template <class...> struct Tn {}; }
namespace g29 { template <class Z0_0, class Z0_1, class Z0_2> struct qb0_0 { template <class Z1_0> struct qb0_1 { template <class Z2_0, class Z2_1, class Z2_2> struct pb0_2 { template <class Z3_0, class Z3_1> struct _b0_3 {  }; }; }; }; }
namespace g29 { struct Qb1_0 {  }; }
namespace g29 { namespace rb2_0 { struct rb2_1 { template <class Z2_0, class Z2_1> struct rb2_2 { template <class Z3_0, class Z3_1> struct Qb2_3 {  }; }; }; } }
namespace g29 { namespace _b3_0 { struct _b3_1 { template <class Z2_0> struct Pb3_2 { template <class Z3_0, class Z3_1> struct Pb3_3 {  }; }; }; } }
namespace g29 { struct Pb4_0 {  }; }
namespace g29 { template <class Z0_0, class Z0_1, class Z0_2> struct qb5_0 { template <class Z1_0, class Z1_1> struct qb5_1 { struct Rb5_2 { template <class Z3_0, class Z3_1, class Z3_2> struct qb5_3 {  }; }; }; }; }
namespace g29 { template <class Z0_0, class Z0_1, class Z0_2> struct Qb6_0 { template <class Z1_0, class Z1_1> struct Rb6_1 { template <class Z2_0> struct Pb6_2 { struct Pb6_3 {  }; }; }; }; }
namespace g29 { namespace Qb7_0 { namespace Rb7_1 { struct qb7_2 { template <class Z3_0, class Z3_1, class Z3_2> struct _b7_3 {  }; }; } } }
namespace g29 { template <class Z0_0, class Z0_1, class Z0_2> struct Qb8_0 {  }; }
namespace g29 { namespace pb9_0 { template <class Z1_0, class Z1_1> struct qb9_1 { struct Rb9_2 {  }; }; } }
namespace g29 { struct rb10_0 {  }; }
namespace g29 { struct Qb11_0 { struct Qb11_1 {  }; }; }
namespace g29 { struct qb12_0 { struct pb12_1 {  }; }; }
namespace g29 { template <class Z0_0, class Z0_1, class Z0_2> struct qb13_0 { template <class Z1_0, class Z1_1> struct _b13_1 { template <class Z2_0, class Z2_1, class Z2_2> struct rb13_2 {  }; }; }; }
static void all_names(Ctx& c) {
  judge_names(c, best::type_names::of<g29::qb0_0<const char *, g29::Xn &, g29::Xn>::qb0_1<g29::Xn &>::pb0_2<g29::Xn &, g29::Xn, g29::Xn>::_b0_3<g29::Tn<int>, const char *>>, best::type_name<g29::qb0_0<const char *, g29::Xn &, g29::Xn>::qb0_1<g29::Xn &>::pb0_2<g29::Xn &, g29::Xn, g29::Xn>::_b0_3<g29::Tn<int>, const char *>>, "g29::qb0_0<const char *, g29::Xn &, g29::Xn>::qb0_1<g29::Xn &>::pb0_2<g29::Xn &, g29::Xn, g29::Xn>", "_b0_3", "<g29::Tn<int>, const char *>");
  judge_names(c, best::type_names::of<g29::Qb1_0>, best::type_name<g29::Qb1_0>, "g29", "Qb1_0", "");
  judge_names(c, best::type_names::of<g29::rb2_0::rb2_1::rb2_2<g29::Xn &, g29::Tn<g29::Xn, g29::Tn<int>>>::Qb2_3<const char *, g29::Xn>>, best::type_name<g29::rb2_0::rb2_1::rb2_2<g29::Xn &, g29::Tn<g29::Xn, g29::Tn<int>>>::Qb2_3<const char *, g29::Xn>>, "g29::rb2_0::rb2_1::rb2_2<g29::Xn &, g29::Tn<g29::Xn, g29::Tn<int>>>", "Qb2_3", "<const char *, g29::Xn>");
  judge_names(c, best::type_names::of<g29::_b3_0::_b3_1::Pb3_2<int>::Pb3_3<g29::Xn, g29::Xn>>, best::type_name<g29::_b3_0::_b3_1::Pb3_2<int>::Pb3_3<g29::Xn, g29::Xn>>, "g29::_b3_0::_b3_1::Pb3_2<int>", "Pb3_3", "<g29::Xn, g29::Xn>");
  judge_names(c, best::type_names::of<g29::Pb4_0>, best::type_name<g29::Pb4_0>, "g29", "Pb4_0", "");
  judge_names(c, best::type_names::of<g29::qb5_0<g29::Tn<>, g29::Tn<>, g29::Tn<g29::Xn, g29::Tn<int>>>::qb5_1<g29::Tn<g29::Xn, g29::Tn<int>>, int>::Rb5_2::qb5_3<g29::Xn &, int, g29::Tn<>>>, best::type_name<g29::qb5_0<g29::Tn<>, g29::Tn<>, g29::Tn<g29::Xn, g29::Tn<int>>>::qb5_1<g29::Tn<g29::Xn, g29::Tn<int>>, int>::Rb5_2::qb5_3<g29::Xn &, int, g29::Tn<>>>, "g29::qb5_0<g29::Tn<>, g29::Tn<>, g29::Tn<g29::Xn, g29::Tn<int>>>::qb5_1<g29::Tn<g29::Xn, g29::Tn<int>>, int>::Rb5_2", "qb5_3", "<g29::Xn &, int, g29::Tn<>>");
  judge_names(c, best::type_names::of<g29::Qb6_0<g29::Xn &, int, g29::Tn<>>::Rb6_1<g29::Xn, g29::Tn<g29::Xn, g29::Tn<int>>>::Pb6_2<g29::Tn<int>>::Pb6_3>, best::type_name<g29::Qb6_0<g29::Xn &, int, g29::Tn<>>::Rb6_1<g29::Xn, g29::Tn<g29::Xn, g29::Tn<int>>>::Pb6_2<g29::Tn<int>>::Pb6_3>, "g29::Qb6_0<g29::Xn &, int, g29::Tn<>>::Rb6_1<g29::Xn, g29::Tn<g29::Xn, g29::Tn<int>>>::Pb6_2<g29::Tn<int>>", "Pb6_3", "");
  judge_names(c, best::type_names::of<g29::Qb7_0::Rb7_1::qb7_2::_b7_3<int, g29::Xn, g29::Tn<>>>, best::type_name<g29::Qb7_0::Rb7_1::qb7_2::_b7_3<int, g29::Xn, g29::Tn<>>>, "g29::Qb7_0::Rb7_1::qb7_2", "_b7_3", "<int, g29::Xn, g29::Tn<>>");
  judge_names(c, best::type_names::of<g29::Qb8_0<g29::Tn<int>, g29::Tn<>, g29::Xn>>, best::type_name<g29::Qb8_0<g29::Tn<int>, g29::Tn<>, g29::Xn>>, "g29", "Qb8_0", "<g29::Tn<int>, g29::Tn<>, g29::Xn>");
  judge_names(c, best::type_names::of<g29::pb9_0::qb9_1<g29::Tn<g29::Xn, g29::Tn<int>>, g29::Tn<int>>::Rb9_2>, best::type_name<g29::pb9_0::qb9_1<g29::Tn<g29::Xn, g29::Tn<int>>, g29::Tn<int>>::Rb9_2>, "g29::pb9_0::qb9_1<g29::Tn<g29::Xn, g29::Tn<int>>, g29::Tn<int>>", "Rb9_2", "");
  judge_names(c, best::type_names::of<g29::rb10_0>, best::type_name<g29::rb10_0>, "g29", "rb10_0", "");
  judge_names(c, best::type_names::of<g29::Qb11_0::Qb11_1>, best::type_name<g29::Qb11_0::Qb11_1>, "g29::Qb11_0", "Qb11_1", "");
  judge_names(c, best::type_names::of<g29::qb12_0::pb12_1>, best::type_name<g29::qb12_0::pb12_1>, "g29::qb12_0", "pb12_1", "");
  judge_names(c, best::type_names::of<g29::qb13_0<g29::Tn<>, g29::Tn<int>, int>::_b13_1<const char *, g29::Tn<>>::rb13_2<g29::Xn, g29::Tn<int>, g29::Tn<int>>>, best::type_name<g29::qb13_0<g29::Tn<>, g29::Tn<int>, int>::_b13_1<const char *, g29::Tn<>>::rb13_2<g29::Xn, g29::Tn<int>, g29::Tn<int>>>, "g29::qb13_0<g29::Tn<>, g29::Tn<int>, int>::_b13_1<const char *, g29::Tn<>>", "rb13_2", "<g29::Xn, g29::Tn<int>, g29::Tn<int>>");
}
#endif
#ifdef PART_C
namespace g29 { struct Sc0 { best::box<int> i;  constexpr friend auto BestReflect(auto& m, Sc0*) { return m.infer(); } }; }
static g29::Sc0 make_Sc0(Rng& g) { (void)g; return g29::Sc0{best::box<int>((int)g.below(99))}; }
static const StructWant& want_Sc0() { static const StructWant w{"Sc0", "g29::Sc0", {{"i", tid<best::box<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc0*)p)->i); }, {}, {}, nullptr}}, {}, {}, {}, false}; return w; }
static void all_Sc0(Ctx& c) { auto a = make_Sc0(c.rng); auto b = make_Sc0(c.rng); judge_struct<false>(c, a, b, want_Sc0()); VH_CHECK(same(best::field_name<&g29::Sc0::i>, "i"), "field-name", "field_name of i"); }
namespace g29 { template <class Q> struct Sc1 { best::box<int> very_long_field_name_number_two; float tags; int id; int* x; best::strbuf b;  constexpr friend auto BestReflect(auto& m, Sc1*) { return m.infer().with(&Sc1::very_long_field_name_number_two, T2{14}, T2{10}, T4{93}).with(T4{15}, T2{32}).with(&Sc1::tags, 39, T3{94}); } }; }
static g29::Sc1<int> make_Sc1(Rng& g) { (void)g; return g29::Sc1<int>{best::box<int>((int)g.below(99)), (float)(int)g.below(100), (int)g.next(), nullptr, best::strbuf(words[g.below(6)])}; }
static const StructWant& want_Sc1() { static const StructWant w{"Sc1", "g29::Sc1<int>", {{"very_long_field_name_number_two", tid<best::box<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc1<int>*)p)->very_long_field_name_number_two); }, {}, {14, 10}, nullptr}, {"tags", tid<float>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc1<int>*)p)->tags); }, {39}, {94}, nullptr}, {"id", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc1<int>*)p)->id); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc1<int>*)p)->id); }}, {"x", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc1<int>*)p)->x); }, {}, {}, nullptr}, {"b", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc1<int>*)p)->b); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc1<int>*)p)->b); }}}, {}, {}, {32}, false}; return w; }
static void all_Sc1(Ctx& c) { auto a = make_Sc1(c.rng); auto b = make_Sc1(c.rng); judge_struct<false>(c, a, b, want_Sc1()); VH_CHECK(same(best::field_name<&g29::Sc1<int>::very_long_field_name_number_two>, "very_long_field_name_number_two"), "field-name", "field_name of very_long_field_name_number_two"); VH_CHECK(same(best::field_name<&g29::Sc1<int>::tags>, "tags"), "field-name", "field_name of tags"); VH_CHECK(same(best::field_name<&g29::Sc1<int>::id>, "id"), "field-name", "field_name of id"); VH_CHECK(same(best::field_name<&g29::Sc1<int>::x>, "x"), "field-name", "field_name of x"); VH_CHECK(same(best::field_name<&g29::Sc1<int>::b>, "b"), "field-name", "field_name of b"); }
namespace g29 { struct Sc2 { best::vec<int> q; int ab; long n10; In qqq; best::box<int> abcd; In names;  constexpr friend auto BestReflect(auto& m, Sc2*) { return m.infer().with(&Sc2::names, 9, 55).with(&Sc2::n10, T2{72}, 30, 30).hide(&Sc2::names).with(&Sc2::names, 51, T3{31}); } }; }
static g29::Sc2 make_Sc2(Rng& g) { (void)g; return g29::Sc2{best::vec<int>{(int)g.below(9), 2}, (int)g.next(), (long)g.next(), In{(int)g.below(99), g.flip()}, best::box<int>((int)g.below(99)), In{(int)g.below(99), g.flip()}}; }
static const StructWant& want_Sc2() { static const StructWant w{"Sc2", "g29::Sc2", {{"q", tid<best::vec<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc2*)p)->q); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc2*)p)->q); }}, {"ab", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc2*)p)->ab); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc2*)p)->ab); }}, {"n10", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc2*)p)->n10); }, {30, 30}, {72}, [](const void* p) { return dbg(((const g29::Sc2*)p)->n10); }}, {"qqq", tid<In>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc2*)p)->qqq); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc2*)p)->qqq); }}, {"abcd", tid<best::box<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc2*)p)->abcd); }, {}, {}, nullptr}, {"names", tid<In>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc2*)p)->names); }, {51}, {31}, [](const void* p) { return dbg(((const g29::Sc2*)p)->names); }}}, {}, {}, {}, false}; return w; }
static void all_Sc2(Ctx& c) { auto a = make_Sc2(c.rng); auto b = make_Sc2(c.rng); judge_struct<false>(c, a, b, want_Sc2()); VH_CHECK(same(best::field_name<&g29::Sc2::q>, "q"), "field-name", "field_name of q"); VH_CHECK(same(best::field_name<&g29::Sc2::ab>, "ab"), "field-name", "field_name of ab"); VH_CHECK(same(best::field_name<&g29::Sc2::n10>, "n10"), "field-name", "field_name of n10"); VH_CHECK(same(best::field_name<&g29::Sc2::qqq>, "qqq"), "field-name", "field_name of qqq"); VH_CHECK(same(best::field_name<&g29::Sc2::abcd>, "abcd"), "field-name", "field_name of abcd"); VH_CHECK(same(best::field_name<&g29::Sc2::names>, "names"), "field-name", "field_name of names"); }
namespace g29 { template <class Q> struct Sc3 { float Aa; const short row; best::str b;  constexpr friend auto BestReflect(auto& m, Sc3*) { return m.infer(); } }; }
static g29::Sc3<int> make_Sc3(Rng& g) { (void)g; return g29::Sc3<int>{(float)(int)g.below(100), (short)g.next(), words[g.below(6)]}; }
static const StructWant& want_Sc3() { static const StructWant w{"Sc3", "g29::Sc3<int>", {{"Aa", tid<float>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc3<int>*)p)->Aa); }, {}, {}, nullptr}, {"row", tid<const short>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc3<int>*)p)->row); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc3<int>*)p)->row); }}, {"b", tid<best::str>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc3<int>*)p)->b); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc3<int>*)p)->b); }}}, {}, {}, {}, false}; return w; }
static void all_Sc3(Ctx& c) { auto a = make_Sc3(c.rng); auto b = make_Sc3(c.rng); judge_struct<false>(c, a, b, want_Sc3()); VH_CHECK(same(best::field_name<&g29::Sc3<int>::Aa>, "Aa"), "field-name", "field_name of Aa"); VH_CHECK(same(best::field_name<&g29::Sc3<int>::row>, "row"), "field-name", "field_name of row"); VH_CHECK(same(best::field_name<&g29::Sc3<int>::b>, "b"), "field-name", "field_name of b"); }
namespace g29 { struct Sc4 { std::string very_long_field_name_number_one; En self; const short name; Mo qq; long names; best::strbuf second; std::string desc_; best::option<int> abcd; unsigned char data;  constexpr friend auto BestReflect(auto& m, Sc4*) { return m.infer().with(T2{28}, T2{62}).with(&Sc4::desc_, 67, T3{82}, 97); } }; }
static g29::Sc4 make_Sc4(Rng& g) { (void)g; return g29::Sc4{std::string(g.below(40), 'q'), (En)g.below(4), (short)g.next(), Mo((int)g.below(99)), (long)g.next(), best::strbuf(words[g.below(6)]), std::string(g.below(40), 'q'), g.flip() ? best::option<int>((int)g.below(9)) : best::option<int>(), (unsigned char)g.next()}; }
static const StructWant& want_Sc4() { static const StructWant w{"Sc4", "g29::Sc4", {{"very_long_field_name_number_one", tid<std::string>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc4*)p)->very_long_field_name_number_one); }, {}, {}, nullptr}, {"self", tid<En>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc4*)p)->self); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc4*)p)->self); }}, {"name", tid<const short>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc4*)p)->name); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc4*)p)->name); }}, {"qq", tid<Mo>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc4*)p)->qq); }, {}, {}, nullptr}, {"names", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc4*)p)->names); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc4*)p)->names); }}, {"second", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc4*)p)->second); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc4*)p)->second); }}, {"desc_", tid<std::string>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc4*)p)->desc_); }, {67, 97}, {82}, nullptr}, {"abcd", tid<best::option<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc4*)p)->abcd); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc4*)p)->abcd); }}, {"data", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc4*)p)->data); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc4*)p)->data); }}}, {}, {}, {28, 62}, false}; return w; }
static void all_Sc4(Ctx& c) { auto a = make_Sc4(c.rng); auto b = make_Sc4(c.rng); judge_struct<false>(c, a, b, want_Sc4()); VH_CHECK(same(best::field_name<&g29::Sc4::very_long_field_name_number_one>, "very_long_field_name_number_one"), "field-name", "field_name of very_long_field_name_number_one"); VH_CHECK(same(best::field_name<&g29::Sc4::self>, "self"), "field-name", "field_name of self"); VH_CHECK(same(best::field_name<&g29::Sc4::name>, "name"), "field-name", "field_name of name"); VH_CHECK(same(best::field_name<&g29::Sc4::qq>, "qq"), "field-name", "field_name of qq"); VH_CHECK(same(best::field_name<&g29::Sc4::names>, "names"), "field-name", "field_name of names"); VH_CHECK(same(best::field_name<&g29::Sc4::second>, "second"), "field-name", "field_name of second"); }
namespace g29 { struct Sc5 { In v; bool data; In hide_me; int* name; best::strbuf n1; best::str ab;  constexpr friend auto BestReflect(auto& m, Sc5*) { return m.with(&Sc5::v); } }; }
static g29::Sc5 make_Sc5(Rng& g) { (void)g; return g29::Sc5{In{(int)g.below(99), g.flip()}, g.flip(), In{(int)g.below(99), g.flip()}, nullptr, best::strbuf(words[g.below(6)]), words[g.below(6)]}; }
static const StructWant& want_Sc5() { static const StructWant w{"Sc5", "g29::Sc5", {{"v", tid<In>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc5*)p)->v); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc5*)p)->v); }}}, {"data", "hide_me", "name", "n1", "ab"}, {}, {}, true}; return w; }
static void all_Sc5(Ctx& c) { auto a = make_Sc5(c.rng); auto b = make_Sc5(c.rng); judge_struct<true>(c, a, b, want_Sc5()); VH_CHECK(same(best::field_name<&g29::Sc5::v>, "v"), "field-name", "field_name of v"); VH_CHECK(same(best::field_name<&g29::Sc5::data>, "data"), "field-name", "field_name of data"); VH_CHECK(same(best::field_name<&g29::Sc5::hide_me>, "hide_me"), "field-name", "field_name of hide_me"); VH_CHECK(same(best::field_name<&g29::Sc5::name>, "name"), "field-name", "field_name of name"); VH_CHECK(same(best::field_name<&g29::Sc5::n1>, "n1"), "field-name", "field_name of n1"); VH_CHECK(same(best::field_name<&g29::Sc5::ab>, "ab"), "field-name", "field_name of ab"); }
namespace g29 { struct Sc6 { Mo names; int a; best::strbuf v; long self; bool n1; std::pair<int, int> name; const short Aa;  }; }
static g29::Sc6 make_Sc6(Rng& g) { (void)g; return g29::Sc6{Mo((int)g.below(99)), (int)g.next(), best::strbuf(words[g.below(6)]), (long)g.next(), g.flip(), std::pair<int, int>(1, 2), (short)g.next()}; }
static const StructWant& want_Sc6() { static const StructWant w{"Sc6", "g29::Sc6", {{"names", tid<Mo>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc6*)p)->names); }, {}, {}, nullptr}, {"a", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc6*)p)->a); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc6*)p)->a); }}, {"v", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc6*)p)->v); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc6*)p)->v); }}, {"self", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc6*)p)->self); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc6*)p)->self); }}, {"n1", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc6*)p)->n1); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc6*)p)->n1); }}, {"name", tid<std::pair<int, int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc6*)p)->name); }, {}, {}, nullptr}, {"Aa", tid<const short>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc6*)p)->Aa); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc6*)p)->Aa); }}}, {}, {}, {}, false}; return w; }
static void all_Sc6(Ctx& c) { auto a = make_Sc6(c.rng); auto b = make_Sc6(c.rng); judge_struct<false>(c, a, b, want_Sc6()); VH_CHECK(same(best::field_name<&g29::Sc6::names>, "names"), "field-name", "field_name of names"); VH_CHECK(same(best::field_name<&g29::Sc6::a>, "a"), "field-name", "field_name of a"); VH_CHECK(same(best::field_name<&g29::Sc6::v>, "v"), "field-name", "field_name of v"); VH_CHECK(same(best::field_name<&g29::Sc6::self>, "self"), "field-name", "field_name of self"); VH_CHECK(same(best::field_name<&g29::Sc6::n1>, "n1"), "field-name", "field_name of n1"); VH_CHECK(same(best::field_name<&g29::Sc6::name>, "name"), "field-name", "field_name of name"); }
namespace g29 { struct Sc7 { int a; En n10; int xy; best::box<int> n0; In tags; long first;  constexpr friend auto BestReflect(auto& m, Sc7*) { return m.infer().with(T3{79}, T3{96}).with(&Sc7::xy, 15, T4{6}, T2{41}).with(&Sc7::first, T4{49}, T2{89}).with(&Sc7::tags, T4{7}).with(&Sc7::tags, T3{50}); } }; }
static g29::Sc7 make_Sc7(Rng& g) { (void)g; return g29::Sc7{(int)g.next(), (En)g.below(4), (int)g.next(), best::box<int>((int)g.below(99)), In{(int)g.below(99), g.flip()}, (long)g.next()}; }
static const StructWant& want_Sc7() { static const StructWant w{"Sc7", "g29::Sc7", {{"a", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc7*)p)->a); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc7*)p)->a); }}, {"n10", tid<En>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc7*)p)->n10); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc7*)p)->n10); }}, {"xy", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc7*)p)->xy); }, {15}, {41}, [](const void* p) { return dbg(((const g29::Sc7*)p)->xy); }}, {"n0", tid<best::box<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc7*)p)->n0); }, {}, {}, nullptr}, {"tags", tid<In>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc7*)p)->tags); }, {}, {50}, [](const void* p) { return dbg(((const g29::Sc7*)p)->tags); }}, {"first", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc7*)p)->first); }, {}, {89}, [](const void* p) { return dbg(((const g29::Sc7*)p)->first); }}}, {}, {}, {79, 96}, false}; return w; }
static void all_Sc7(Ctx& c) { auto a = make_Sc7(c.rng); auto b = make_Sc7(c.rng); judge_struct<false>(c, a, b, want_Sc7()); VH_CHECK(same(best::field_name<&g29::Sc7::a>, "a"), "field-name", "field_name of a"); VH_CHECK(same(best::field_name<&g29::Sc7::n10>, "n10"), "field-name", "field_name of n10"); VH_CHECK(same(best::field_name<&g29::Sc7::xy>, "xy"), "field-name", "field_name of xy"); VH_CHECK(same(best::field_name<&g29::Sc7::n0>, "n0"), "field-name", "field_name of n0"); VH_CHECK(same(best::field_name<&g29::Sc7::tags>, "tags"), "field-name", "field_name of tags"); VH_CHECK(same(best::field_name<&g29::Sc7::first>, "first"), "field-name", "field_name of first"); }
namespace g29 { struct Sc8 { double _x; best::box<int> n01;  }; }
static g29::Sc8 make_Sc8(Rng& g) { (void)g; return g29::Sc8{(double)(int)g.below(1000), best::box<int>((int)g.below(99))}; }
static const StructWant& want_Sc8() { static const StructWant w{"Sc8", "g29::Sc8", {{"_x", tid<double>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc8*)p)->_x); }, {}, {}, nullptr}, {"n01", tid<best::box<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc8*)p)->n01); }, {}, {}, nullptr}}, {}, {}, {}, false}; return w; }
static void all_Sc8(Ctx& c) { auto a = make_Sc8(c.rng); auto b = make_Sc8(c.rng); judge_struct<false>(c, a, b, want_Sc8()); VH_CHECK(same(best::field_name<&g29::Sc8::_x>, "_x"), "field-name", "field_name of _x"); VH_CHECK(same(best::field_name<&g29::Sc8::n01>, "n01"), "field-name", "field_name of n01"); }
namespace g29 { struct Sc9 { const short id; bool i; bool a; int A; std::string self; double aA; unsigned char tags; best::strbuf it; float b;  constexpr friend auto BestReflect(auto& m, Sc9*) { return m.with(&Sc9::aA, 48); } }; }
static g29::Sc9 make_Sc9(Rng& g) { (void)g; return g29::Sc9{(short)g.next(), g.flip(), g.flip(), (int)g.next(), std::string(g.below(40), 'q'), (double)(int)g.below(1000), (unsigned char)g.next(), best::strbuf(words[g.below(6)]), (float)(int)g.below(100)}; }
static const StructWant& want_Sc9() { static const StructWant w{"Sc9", "g29::Sc9", {{"aA", tid<double>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc9*)p)->aA); }, {48}, {}, nullptr}}, {"id", "i", "a", "A", "self", "tags", "it", "b"}, {}, {}, false}; return w; }
static void all_Sc9(Ctx& c) { auto a = make_Sc9(c.rng); auto b = make_Sc9(c.rng); judge_struct<false>(c, a, b, want_Sc9()); VH_CHECK(same(best::field_name<&g29::Sc9::id>, "id"), "field-name", "field_name of id"); VH_CHECK(same(best::field_name<&g29::Sc9::i>, "i"), "field-name", "field_name of i"); VH_CHECK(same(best::field_name<&g29::Sc9::a>, "a"), "field-name", "field_name of a"); VH_CHECK(same(best::field_name<&g29::Sc9::A>, "A"), "field-name", "field_name of A"); VH_CHECK(same(best::field_name<&g29::Sc9::self>, "self"), "field-name", "field_name of self"); VH_CHECK(same(best::field_name<&g29::Sc9::aA>, "aA"), "field-name", "field_name of aA"); }
namespace g29 { template <class Q> struct Sc10 { bool q;  constexpr friend auto BestReflect(auto& m, Sc10*) { return m.infer(); } }; }
static g29::Sc10<int> make_Sc10(Rng& g) { (void)g; return g29::Sc10<int>{g.flip()}; }
static const StructWant& want_Sc10() { static const StructWant w{"Sc10", "g29::Sc10<int>", {{"q", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc10<int>*)p)->q); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc10<int>*)p)->q); }}}, {}, {}, {}, true}; return w; }
static void all_Sc10(Ctx& c) { auto a = make_Sc10(c.rng); auto b = make_Sc10(c.rng); judge_struct<true>(c, a, b, want_Sc10()); VH_CHECK(same(best::field_name<&g29::Sc10<int>::q>, "q"), "field-name", "field_name of q"); }
namespace g29 { struct Sc11 { int Z; best::vec<int> v; Mo n01; En idx; const short n10; int qqq; best::str i; Mo y; int* second; best::option<int> key; best::str n0;  constexpr friend auto BestReflect(auto& m, Sc11*) { return m.infer().with(T4{61}, T2{87}, T2{77}).with(&Sc11::second, 43).hide(&Sc11::idx); } }; }
static g29::Sc11 make_Sc11(Rng& g) { (void)g; return g29::Sc11{(int)g.next(), best::vec<int>{(int)g.below(9), 2}, Mo((int)g.below(99)), (En)g.below(4), (short)g.next(), (int)g.next(), words[g.below(6)], Mo((int)g.below(99)), nullptr, g.flip() ? best::option<int>((int)g.below(9)) : best::option<int>(), words[g.below(6)]}; }
static const StructWant& want_Sc11() { static const StructWant w{"Sc11", "g29::Sc11", {{"Z", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc11*)p)->Z); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc11*)p)->Z); }}, {"v", tid<best::vec<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc11*)p)->v); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc11*)p)->v); }}, {"n01", tid<Mo>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc11*)p)->n01); }, {}, {}, nullptr}, {"n10", tid<const short>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc11*)p)->n10); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc11*)p)->n10); }}, {"qqq", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc11*)p)->qqq); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc11*)p)->qqq); }}, {"i", tid<best::str>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc11*)p)->i); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc11*)p)->i); }}, {"y", tid<Mo>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc11*)p)->y); }, {}, {}, nullptr}, {"second", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc11*)p)->second); }, {43}, {}, nullptr}, {"key", tid<best::option<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc11*)p)->key); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc11*)p)->key); }}, {"n0", tid<best::str>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc11*)p)->n0); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc11*)p)->n0); }}}, {"idx"}, {}, {87, 77}, false}; return w; }
static void all_Sc11(Ctx& c) { auto a = make_Sc11(c.rng); auto b = make_Sc11(c.rng); judge_struct<false>(c, a, b, want_Sc11()); VH_CHECK(same(best::field_name<&g29::Sc11::Z>, "Z"), "field-name", "field_name of Z"); VH_CHECK(same(best::field_name<&g29::Sc11::v>, "v"), "field-name", "field_name of v"); VH_CHECK(same(best::field_name<&g29::Sc11::n01>, "n01"), "field-name", "field_name of n01"); VH_CHECK(same(best::field_name<&g29::Sc11::idx>, "idx"), "field-name", "field_name of idx"); VH_CHECK(same(best::field_name<&g29::Sc11::n10>, "n10"), "field-name", "field_name of n10"); VH_CHECK(same(best::field_name<&g29::Sc11::qqq>, "qqq"), "field-name", "field_name of qqq"); }
namespace g29 { struct Sc12 { float n1; std::pair<int, int> value; unsigned char row; int* abcd; std::pair<int, int> values; float tags;  }; }
static g29::Sc12 make_Sc12(Rng& g) { (void)g; return g29::Sc12{(float)(int)g.below(100), std::pair<int, int>(1, 2), (unsigned char)g.next(), nullptr, std::pair<int, int>(1, 2), (float)(int)g.below(100)}; }
static const StructWant& want_Sc12() { static const StructWant w{"Sc12", "g29::Sc12", {{"n1", tid<float>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc12*)p)->n1); }, {}, {}, nullptr}, {"value", tid<std::pair<int, int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc12*)p)->value); }, {}, {}, nullptr}, {"row", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc12*)p)->row); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc12*)p)->row); }}, {"abcd", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc12*)p)->abcd); }, {}, {}, nullptr}, {"values", tid<std::pair<int, int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc12*)p)->values); }, {}, {}, nullptr}, {"tags", tid<float>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc12*)p)->tags); }, {}, {}, nullptr}}, {}, {}, {}, false}; return w; }
static void all_Sc12(Ctx& c) { auto a = make_Sc12(c.rng); auto b = make_Sc12(c.rng); judge_struct<false>(c, a, b, want_Sc12()); VH_CHECK(same(best::field_name<&g29::Sc12::n1>, "n1"), "field-name", "field_name of n1"); VH_CHECK(same(best::field_name<&g29::Sc12::value>, "value"), "field-name", "field_name of value"); VH_CHECK(same(best::field_name<&g29::Sc12::row>, "row"), "field-name", "field_name of row"); VH_CHECK(same(best::field_name<&g29::Sc12::abcd>, "abcd"), "field-name", "field_name of abcd"); VH_CHECK(same(best::field_name<&g29::Sc12::values>, "values"), "field-name", "field_name of values"); VH_CHECK(same(best::field_name<&g29::Sc12::tags>, "tags"), "field-name", "field_name of tags"); }
namespace g29 { struct Sc13 { int tags; int* first; unsigned char aA; std::string match; const short v; unsigned char Z;  constexpr friend auto BestReflect(auto& m, Sc13*) { return m.infer().with(&Sc13::Z, T2{12}, T2{98}).with(2, T3{57}).with(&Sc13::v, T4{88}, T2{68}, T4{90}).hide(&Sc13::match).hide(&Sc13::first).with(T4{5}); } }; }
static g29::Sc13 make_Sc13(Rng& g) { (void)g; return g29::Sc13{(int)g.next(), nullptr, (unsigned char)g.next(), std::string(g.below(40), 'q'), (short)g.next(), (unsigned char)g.next()}; }
static const StructWant& want_Sc13() { static const StructWant w{"Sc13", "g29::Sc13", {{"tags", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc13*)p)->tags); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc13*)p)->tags); }}, {"aA", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc13*)p)->aA); }, {}, {}, [](const void* p) { return dbg(((const g29::Sc13*)p)->aA); }}, {"v", tid<const short>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc13*)p)->v); }, {}, {68}, [](const void* p) { return dbg(((const g29::Sc13*)p)->v); }}, {"Z", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sc13*)p)->Z); }, {}, {12, 98}, [](const void* p) { return dbg(((const g29::Sc13*)p)->Z); }}}, {"first", "match"}, {2}, {57}, true}; return w; }
static void all_Sc13(Ctx& c) { auto a = make_Sc13(c.rng); auto b = make_Sc13(c.rng); judge_struct<true>(c, a, b, want_Sc13()); VH_CHECK(same(best::field_name<&g29::Sc13::tags>, "tags"), "field-name", "field_name of tags"); VH_CHECK(same(best::field_name<&g29::Sc13::first>, "first"), "field-name", "field_name of first"); VH_CHECK(same(best::field_name<&g29::Sc13::aA>, "aA"), "field-name", "field_name of aA"); VH_CHECK(same(best::field_name<&g29::Sc13::match>, "match"), "field-name", "field_name of match"); VH_CHECK(same(best::field_name<&g29::Sc13::v>, "v"), "field-name", "field_name of v"); VH_CHECK(same(best::field_name<&g29::Sc13::Z>, "Z"), "field-name", "field_name of Z"); }
namespace g29 { namespace en_Ec0 { enum Ec0 : unsigned char { abcd = 64, any_ = 0, key = 63, n01 = 106, each = 255 }; constexpr auto BestReflect(auto& m, Ec0*) { return m.infer(); } } }
static const EnumWant& want_Ec0() { static const EnumWant w{"Ec0", "g29::en_Ec0::Ec0", {{"any_", (i64)0, {}, {}}, {"key", (i64)63, {}, {}}}, {{"abcd", (i64)64, {}, {}}, {"n01", (i64)106, {}, {}}, {"each", (i64)255, {}, {}}}, {}, {}, 0, 0}; return w; }
static void all_Ec0(Ctx& c) { judge_enum<g29::en_Ec0::Ec0>(c, want_Ec0()); VH_CHECK(best::value_name<g29::en_Ec0::Ec0::abcd>.has_value() && same(*best::value_name<g29::en_Ec0::Ec0::abcd>, "abcd"), "value-name", "value_name of Ec0::abcd"); VH_CHECK(best::value_name<g29::en_Ec0::Ec0::any_>.has_value() && same(*best::value_name<g29::en_Ec0::Ec0::any_>, "any_"), "value-name", "value_name of Ec0::any_"); VH_CHECK(best::value_name<g29::en_Ec0::Ec0::key>.has_value() && same(*best::value_name<g29::en_Ec0::Ec0::key>, "key"), "value-name", "value_name of Ec0::key"); VH_CHECK(best::value_name<g29::en_Ec0::Ec0::n01>.has_value() && same(*best::value_name<g29::en_Ec0::Ec0::n01>, "n01"), "value-name", "value_name of Ec0::n01"); VH_CHECK(best::value_name<g29::en_Ec0::Ec0::each>.has_value() && same(*best::value_name<g29::en_Ec0::Ec0::each>, "each"), "value-name", "value_name of Ec0::each"); }
namespace g29 { namespace en_Ec1 { enum Ec1 { abcd = 63 }; constexpr auto BestReflect(auto& m, Ec1*) { return m.with(Ec1::abcd); } } }
static const EnumWant& want_Ec1() { static const EnumWant w{"Ec1", "g29::en_Ec1::Ec1", {{"abcd", (i64)63, {}, {}}}, {}, {}, {}, 1, 0}; return w; }
static void all_Ec1(Ctx& c) { judge_enum<g29::en_Ec1::Ec1>(c, want_Ec1()); VH_CHECK(best::value_name<g29::en_Ec1::Ec1::abcd>.has_value() && same(*best::value_name<g29::en_Ec1::Ec1::abcd>, "abcd"), "value-name", "value_name of Ec1::abcd"); }
namespace g29 { namespace en_Ec2 { enum class Ec2 : long { aA = 6, BestName = 2, n01 = 0, i = 1, y = 3, Aa = 4, size = 5 };  } }
static const EnumWant& want_Ec2() { static const EnumWant w{"Ec2", "g29::en_Ec2::Ec2", {{"n01", (i64)0, {}, {}}, {"i", (i64)1, {}, {}}, {"BestName", (i64)2, {}, {}}, {"y", (i64)3, {}, {}}, {"Aa", (i64)4, {}, {}}, {"size", (i64)5, {}, {}}, {"aA", (i64)6, {}, {}}}, {}, {}, {}, 0, 0}; return w; }
static void all_Ec2(Ctx& c) { judge_enum<g29::en_Ec2::Ec2>(c, want_Ec2()); VH_CHECK(best::value_name<g29::en_Ec2::Ec2::aA>.has_value() && same(*best::value_name<g29::en_Ec2::Ec2::aA>, "aA"), "value-name", "value_name of Ec2::aA"); VH_CHECK(best::value_name<g29::en_Ec2::Ec2::BestName>.has_value() && same(*best::value_name<g29::en_Ec2::Ec2::BestName>, "BestName"), "value-name", "value_name of Ec2::BestName"); VH_CHECK(best::value_name<g29::en_Ec2::Ec2::n01>.has_value() && same(*best::value_name<g29::en_Ec2::Ec2::n01>, "n01"), "value-name", "value_name of Ec2::n01"); VH_CHECK(best::value_name<g29::en_Ec2::Ec2::i>.has_value() && same(*best::value_name<g29::en_Ec2::Ec2::i>, "i"), "value-name", "value_name of Ec2::i"); VH_CHECK(best::value_name<g29::en_Ec2::Ec2::y>.has_value() && same(*best::value_name<g29::en_Ec2::Ec2::y>, "y"), "value-name", "value_name of Ec2::y"); VH_CHECK(best::value_name<g29::en_Ec2::Ec2::Aa>.has_value() && same(*best::value_name<g29::en_Ec2::Ec2::Aa>, "Aa"), "value-name", "value_name of Ec2::Aa"); VH_CHECK(best::value_name<g29::en_Ec2::Ec2::size>.has_value() && same(*best::value_name<g29::en_Ec2::Ec2::size>, "size"), "value-name", "value_name of Ec2::size"); }
namespace g29 { namespace en_Ec3 { enum class Ec3 : signed char { desc_ = 28, any_ = 56, second = 9, qq = 30, type = 57, hide_me = 20, values = 50, BestName = 23 }; constexpr auto BestReflect(auto& m, Ec3*) { return m.with(T4{82}, 18).with(T3{82}, T2{34}).with(Ec3::BestName).with(Ec3::BestName, T3{51}).with(Ec3::BestName, T4{71}, 38).with(Ec3::values).with(Ec3::values, T4{10}, T4{67}, 59); } } }
static const EnumWant& want_Ec3() { static const EnumWant w{"Ec3", "g29::en_Ec3::Ec3", {{"BestName", (i64)23, {38}, {51}}, {"values", (i64)50, {59}, {}}}, {{"desc_", (i64)28, {}, {}}, {"any_", (i64)56, {}, {}}, {"second", (i64)9, {}, {}}, {"qq", (i64)30, {}, {}}, {"type", (i64)57, {}, {}}, {"hide_me", (i64)20, {}, {}}}, {18}, {82, 34}, 0, 0}; return w; }
static void all_Ec3(Ctx& c) { judge_enum<g29::en_Ec3::Ec3>(c, want_Ec3()); VH_CHECK(best::value_name<g29::en_Ec3::Ec3::desc_>.has_value() && same(*best::value_name<g29::en_Ec3::Ec3::desc_>, "desc_"), "value-name", "value_name of Ec3::desc_"); VH_CHECK(best::value_name<g29::en_Ec3::Ec3::any_>.has_value() && same(*best::value_name<g29::en_Ec3::Ec3::any_>, "any_"), "value-name", "value_name of Ec3::any_"); VH_CHECK(best::value_name<g29::en_Ec3::Ec3::second>.has_value() && same(*best::value_name<g29::en_Ec3::Ec3::second>, "second"), "value-name", "value_name of Ec3::second"); VH_CHECK(best::value_name<g29::en_Ec3::Ec3::qq>.has_value() && same(*best::value_name<g29::en_Ec3::Ec3::qq>, "qq"), "value-name", "value_name of Ec3::qq"); VH_CHECK(best::value_name<g29::en_Ec3::Ec3::type>.has_value() && same(*best::value_name<g29::en_Ec3::Ec3::type>, "type"), "value-name", "value_name of Ec3::type"); VH_CHECK(best::value_name<g29::en_Ec3::Ec3::hide_me>.has_value() && same(*best::value_name<g29::en_Ec3::Ec3::hide_me>, "hide_me"), "value-name", "value_name of Ec3::hide_me"); VH_CHECK(best::value_name<g29::en_Ec3::Ec3::values>.has_value() && same(*best::value_name<g29::en_Ec3::Ec3::values>, "values"), "value-name", "value_name of Ec3::values"); VH_CHECK(best::value_name<g29::en_Ec3::Ec3::BestName>.has_value() && same(*best::value_name<g29::en_Ec3::Ec3::BestName>, "BestName"), "value-name", "value_name of Ec3::BestName"); }
namespace g29 { namespace en_Ec4 { enum Ec4 : unsigned char { hide_me = 0, very_long_field_name_number_two = 2, a = 3, _x = 1 }; constexpr auto BestReflect(auto& m, Ec4*) { return m.infer().with(T4{91}, T3{6}); } } }
static const EnumWant& want_Ec4() { static const EnumWant w{"Ec4", "g29::en_Ec4::Ec4", {{"hide_me", (i64)0, {}, {}}, {"_x", (i64)1, {}, {}}, {"very_long_field_name_number_two", (i64)2, {}, {}}, {"a", (i64)3, {}, {}}}, {}, {}, {6}, 0, 0}; return w; }
static void all_Ec4(Ctx& c) { judge_enum<g29::en_Ec4::Ec4>(c, want_Ec4()); VH_CHECK(best::value_name<g29::en_Ec4::Ec4::hide_me>.has_value() && same(*best::value_name<g29::en_Ec4::Ec4::hide_me>, "hide_me"), "value-name", "value_name of Ec4::hide_me"); VH_CHECK(best::value_name<g29::en_Ec4::Ec4::very_long_field_name_number_two>.has_value() && same(*best::value_name<g29::en_Ec4::Ec4::very_long_field_name_number_two>, "very_long_field_name_number_two"), "value-name", "value_name of Ec4::very_long_field_name_number_two"); VH_CHECK(best::value_name<g29::en_Ec4::Ec4::a>.has_value() && same(*best::value_name<g29::en_Ec4::Ec4::a>, "a"), "value-name", "value_name of Ec4::a"); VH_CHECK(best::value_name<g29::en_Ec4::Ec4::_x>.has_value() && same(*best::value_name<g29::en_Ec4::Ec4::_x>, "_x"), "value-name", "value_name of Ec4::_x"); }
namespace g29 { namespace en_Ec5 { enum class Ec5 : unsigned short { abc = 46, very_long_field_name_number_one = 1, first = 12, row = 61, n10 = 50, a = 60 }; constexpr auto BestReflect(auto& m, Ec5*) { return m.template infer<best::bounds{.start = 60ull, .count = 64}>().with(12); } } }
static const EnumWant& want_Ec5() { static const EnumWant w{"Ec5", "g29::en_Ec5::Ec5", {{"a", (i64)60, {}, {}}, {"row", (i64)61, {}, {}}}, {{"abc", (i64)46, {}, {}}, {"very_long_field_name_number_one", (i64)1, {}, {}}, {"first", (i64)12, {}, {}}, {"n10", (i64)50, {}, {}}}, {12}, {}, 0, 0}; return w; }
static void all_Ec5(Ctx& c) { judge_enum<g29::en_Ec5::Ec5>(c, want_Ec5()); VH_CHECK(best::value_name<g29::en_Ec5::Ec5::abc>.has_value() && same(*best::value_name<g29::en_Ec5::Ec5::abc>, "abc"), "value-name", "value_name of Ec5::abc"); VH_CHECK(best::value_name<g29::en_Ec5::Ec5::very_long_field_name_number_one>.has_value() && same(*best::value_name<g29::en_Ec5::Ec5::very_long_field_name_number_one>, "very_long_field_name_number_one"), "value-name", "value_name of Ec5::very_long_field_name_number_one"); VH_CHECK(best::value_name<g29::en_Ec5::Ec5::first>.has_value() && same(*best::value_name<g29::en_Ec5::Ec5::first>, "first"), "value-name", "value_name of Ec5::first"); VH_CHECK(best::value_name<g29::en_Ec5::Ec5::row>.has_value() && same(*best::value_name<g29::en_Ec5::Ec5::row>, "row"), "value-name", "value_name of Ec5::row"); VH_CHECK(best::value_name<g29::en_Ec5::Ec5::n10>.has_value() && same(*best::value_name<g29::en_Ec5::Ec5::n10>, "n10"), "value-name", "value_name of Ec5::n10"); VH_CHECK(best::value_name<g29::en_Ec5::Ec5::a>.has_value() && same(*best::value_name<g29::en_Ec5::Ec5::a>, "a"), "value-name", "value_name of Ec5::a"); }
namespace g29 { namespace en_Ec6 { enum Ec6 : unsigned char { any_ = 63, BestName = 10, Aa = 5, A = 53, it = 51, second = 15, idx = 25, zz9 = 4, key = 43, qqq = 55, x = 54, n1 = 18 }; constexpr auto BestReflect(auto& m, Ec6*) { return m.infer(); } } }
static const EnumWant& want_Ec6() { static const EnumWant w{"Ec6", "g29::en_Ec6::Ec6", {{"zz9", (i64)4, {}, {}}, {"Aa", (i64)5, {}, {}}, {"BestName", (i64)10, {}, {}}, {"second", (i64)15, {}, {}}, {"n1", (i64)18, {}, {}}, {"idx", (i64)25, {}, {}}, {"key", (i64)43, {}, {}}, {"it", (i64)51, {}, {}}, {"A", (i64)53, {}, {}}, {"x", (i64)54, {}, {}}, {"qqq", (i64)55, {}, {}}, {"any_", (i64)63, {}, {}}}, {}, {}, {}, 0, 0}; return w; }
static void all_Ec6(Ctx& c) { judge_enum<g29::en_Ec6::Ec6>(c, want_Ec6()); VH_CHECK(best::value_name<g29::en_Ec6::Ec6::any_>.has_value() && same(*best::value_name<g29::en_Ec6::Ec6::any_>, "any_"), "value-name", "value_name of Ec6::any_"); VH_CHECK(best::value_name<g29::en_Ec6::Ec6::BestName>.has_value() && same(*best::value_name<g29::en_Ec6::Ec6::BestName>, "BestName"), "value-name", "value_name of Ec6::BestName"); VH_CHECK(best::value_name<g29::en_Ec6::Ec6::Aa>.has_value() && same(*best::value_name<g29::en_Ec6::Ec6::Aa>, "Aa"), "value-name", "value_name of Ec6::Aa"); VH_CHECK(best::value_name<g29::en_Ec6::Ec6::A>.has_value() && same(*best::value_name<g29::en_Ec6::Ec6::A>, "A"), "value-name", "value_name of Ec6::A"); VH_CHECK(best::value_name<g29::en_Ec6::Ec6::it>.has_value() && same(*best::value_name<g29::en_Ec6::Ec6::it>, "it"), "value-name", "value_name of Ec6::it"); VH_CHECK(best::value_name<g29::en_Ec6::Ec6::second>.has_value() && same(*best::value_name<g29::en_Ec6::Ec6::second>, "second"), "value-name", "value_name of Ec6::second"); VH_CHECK(best::value_name<g29::en_Ec6::Ec6::idx>.has_value() && same(*best::value_name<g29::en_Ec6::Ec6::idx>, "idx"), "value-name", "value_name of Ec6::idx"); VH_CHECK(best::value_name<g29::en_Ec6::Ec6::zz9>.has_value() && same(*best::value_name<g29::en_Ec6::Ec6::zz9>, "zz9"), "value-name", "value_name of Ec6::zz9"); VH_CHECK(best::value_name<g29::en_Ec6::Ec6::key>.has_value() && same(*best::value_name<g29::en_Ec6::Ec6::key>, "key"), "value-name", "value_name of Ec6::key"); VH_CHECK(best::value_name<g29::en_Ec6::Ec6::qqq>.has_value() && same(*best::value_name<g29::en_Ec6::Ec6::qqq>, "qqq"), "value-name", "value_name of Ec6::qqq"); VH_CHECK(best::value_name<g29::en_Ec6::Ec6::x>.has_value() && same(*best::value_name<g29::en_Ec6::Ec6::x>, "x"), "value-name", "value_name of Ec6::x"); VH_CHECK(best::value_name<g29::en_Ec6::Ec6::n1>.has_value() && same(*best::value_name<g29::en_Ec6::Ec6::n1>, "n1"), "value-name", "value_name of Ec6::n1"); }
static void (*const structs[])(Ctx&) = {all_Sc0, all_Sc1, all_Sc2, all_Sc3, all_Sc4, all_Sc5, all_Sc6, all_Sc7, all_Sc8, all_Sc9, all_Sc10, all_Sc11, all_Sc12, all_Sc13};
static void (*const enums[])(Ctx&) = {all_Ec0, all_Ec1, all_Ec2, all_Ec3, all_Ec4, all_Ec5, all_Ec6};
namespace g29 { struct Xn {}; template <class...> struct Tn {}; }
namespace g29 { template <class Z0_0> struct Rc0_0 { struct pc0_1 { struct qc0_2 {  }; }; }; }
namespace g29 { struct rc1_0 { template <class Z1_0> struct rc1_1 { struct qc1_2 { template <class Z3_0> struct Qc1_3 {  }; }; }; }; }
namespace g29 { struct Rc2_0 { template <class Z1_0> struct qc2_1 { struct qc2_2 { template <class Z3_0, class Z3_1> struct Rc2_3 {  }; }; }; }; }
namespace g29 { struct pc3_0 { template <class Z1_0, class Z1_1> struct qc3_1 { struct Qc3_2 { template <class Z3_0, class Z3_1, class Z3_2> struct rc3_3 {  }; }; }; }; }
namespace g29 { template <class Z0_0> struct Pc4_0 { struct rc4_1 { template <class Z2_0, class Z2_1, class Z2_2> struct pc4_2 { template <class Z3_0, class Z3_1> struct qc4_3 {  }; }; }; }; }
namespace g29 { template <class Z0_0, class Z0_1, class Z0_2> struct pc5_0 { struct qc5_1 { struct qc5_2 {  }; }; }; }
namespace g29 { namespace pc6_0 { template <class Z1_0, class Z1_1> struct Qc6_1 {  }; } }
namespace g29 { template <class Z0_0, class Z0_1, class Z0_2> struct rc7_0 {  }; }
namespace g29 { template <class Z0_0, class Z0_1> struct Pc8_0 {  }; }
namespace g29 { template <class Z0_0> struct _c9_0 { struct Pc9_1 { template <class Z2_0, class Z2_1, class Z2_2> struct Rc9_2 { struct qc9_3 {  }; }; }; }; }
namespace g29 { namespace rc10_0 { struct rc10_1 {  }; } }
namespace g29 { namespace qc11_0 { struct Pc11_1 {  }; } }
namespace g29 { template <class Z0_0> struct rc12_0 { struct pc12_1 { struct pc12_2 { struct _c12_3 {  }; }; }; }; }
namespace g29 { namespace qc13_0 { namespace Rc13_1 { template <class Z2_0, class Z2_1, class Z2_2> struct rc13_2 {  }; } } }
static void all_names(Ctx& c) {
  judge_names(c, best::type_names::of<g29::Rc0_0<const char *>::pc0_1::qc0_2>, best::type_name<g29::Rc0_0<const char *>::pc0_1::qc0_2>, "g29::Rc0_0<const char *>::pc0_1", "qc0_2", "");
  judge_names(c, best::type_names::of<g29::rc1_0::rc1_1<g29::Xn &>::qc1_2::Qc1_3<g29::Tn<g29::Xn, g29::Tn<int>>>>, best::type_name<g29::rc1_0::rc1_1<g29::Xn &>::qc1_2::Qc1_3<g29::Tn<g29::Xn, g29::Tn<int>>>>, "g29::rc1_0::rc1_1<g29::Xn &>::qc1_2", "Qc1_3", "<g29::Tn<g29::Xn, g29::Tn<int>>>");
  judge_names(c, best::type_names::of<g29::Rc2_0::qc2_1<g29::Xn &>::qc2_2::Rc2_3<g29::Tn<>, g29::Tn<int>>>, best::type_name<g29::Rc2_0::qc2_1<g29::Xn &>::qc2_2::Rc2_3<g29::Tn<>, g29::Tn<int>>>, "g29::Rc2_0::qc2_1<g29::Xn &>::qc2_2", "Rc2_3", "<g29::Tn<>, g29::Tn<int>>");
  judge_names(c, best::type_names::of<g29::pc3_0::qc3_1<g29::Tn<int>, g29::Tn<>>::Qc3_2::rc3_3<g29::Tn<int>, g29::Tn<g29::Xn, g29::Tn<int>>, g29::Xn>>, best::type_name<g29::pc3_0::qc3_1<g29::Tn<int>, g29::Tn<>>::Qc3_2::rc3_3<g29::Tn<int>, g29::Tn<g29::Xn, g29::Tn<int>>, g29::Xn>>, "g29::pc3_0::qc3_1<g29::Tn<int>, g29::Tn<>>::Qc3_2", "rc3_3", "<g29::Tn<int>, g29::Tn<g29::Xn, g29::Tn<int>>, g29::Xn>");
  judge_names(c, best::type_names::of<g29::Pc4_0<g29::Tn<int>>::rc4_1::pc4_2<g29::Tn<g29::Xn, g29::Tn<int>>, g29::Tn<>, g29::Xn &>::qc4_3<g29::Xn &, g29::Xn &>>, best::type_name<g29::Pc4_0<g29::Tn<int>>::rc4_1::pc4_2<g29::Tn<g29::Xn, g29::Tn<int>>, g29::Tn<>, g29::Xn &>::qc4_3<g29::Xn &, g29::Xn &>>, "g29::Pc4_0<g29::Tn<int>>::rc4_1::pc4_2<g29::Tn<g29::Xn, g29::Tn<int>>, g29::Tn<>, g29::Xn &>", "qc4_3", "<g29::Xn &, g29::Xn &>");
  judge_names(c, best::type_names::of<g29::pc5_0<g29::Tn<>, g29::Xn, g29::Xn &>::qc5_1::qc5_2>, best::type_name<g29::pc5_0<g29::Tn<>, g29::Xn, g29::Xn &>::qc5_1::qc5_2>, "g29::pc5_0<g29::Tn<>, g29::Xn, g29::Xn &>::qc5_1", "qc5_2", "");
  judge_names(c, best::type_names::of<g29::pc6_0::Qc6_1<int, int>>, best::type_name<g29::pc6_0::Qc6_1<int, int>>, "g29::pc6_0", "Qc6_1", "<int, int>");
  judge_names(c, best::type_names::of<g29::rc7_0<g29::Xn &, g29::Tn<int>, g29::Xn &>>, best::type_name<g29::rc7_0<g29::Xn &, g29::Tn<int>, g29::Xn &>>, "g29", "rc7_0", "<g29::Xn &, g29::Tn<int>, g29::Xn &>");
  judge_names(c, best::type_names::of<g29::Pc8_0<int, const char *>>, best::type_name<g29::Pc8_0<int, const char *>>, "g29", "Pc8_0", "<int, const char *>");
  judge_names(c, best::type_names::of<g29::_c9_0<g29::Xn &>::Pc9_1::Rc9_2<g29::Xn &, const char *, g29::Xn &>::qc9_3>, best::type_name<g29::_c9_0<g29::Xn &>::Pc9_1::Rc9_2<g29::Xn &, const char *, g29::Xn &>::qc9_3>, "g29::_c9_0<g29::Xn &>::Pc9_1::Rc9_2<g29::Xn &, const char *, g29::Xn &>", "qc9_3", "");
  judge_names(c, best::type_names::of<g29::rc10_0::rc10_1>, best::type_name<g29::rc10_0::rc10_1>, "g29::rc10_0", "rc10_1", "");
  judge_names(c, best::type_names::of<g29::qc11_0::Pc11_1>, best::type_name<g29::qc11_0::Pc11_1>, "g29::qc11_0", "Pc11_1", "");
  judge_names(c, best::type_names::of<g29::rc12_0<const char *>::pc12_1::pc12_2::_c12_3>, best::type_name<g29::rc12_0<const char *>::pc12_1::pc12_2::_c12_3>, "g29::rc12_0<const char *>::pc12_1::pc12_2", "_c12_3", "");
  judge_names(c, best::type_names::of<g29::qc13_0::Rc13_1::rc13_2<int, g29::Xn &, g29::Tn<int>>>, best::type_name<g29::qc13_0::Rc13_1::rc13_2<int, g29::Xn &, g29::Tn<int>>>, "g29::qc13_0::Rc13_1", "rc13_2", "<int, g29::Xn &, g29::Tn<int>>");
}
#endif
#ifdef PART_D
namespace g29 { struct Sd0 { In n0; En x_;  constexpr friend auto BestReflect(auto& m, Sd0*) { return m.infer().with(55, T3{17}).with(&Sd0::x_, T3{12}, T2{15}, T3{29}).with(&Sd0::x_, T4{7}, 6).with(96).with(&Sd0::n0, 97, T2{29}); } }; }
static g29::Sd0 make_Sd0(Rng& g) { (void)g; return g29::Sd0{In{(int)g.below(99), g.flip()}, (En)g.below(4)}; }
static const StructWant& want_Sd0() { static const StructWant w{"Sd0", "g29::Sd0", {{"n0", tid<In>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd0*)p)->n0); }, {97}, {29}, [](const void* p) { return dbg(((const g29::Sd0*)p)->n0); }}, {"x_", tid<En>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd0*)p)->x_); }, {6}, {12, 15, 29}, [](const void* p) { return dbg(((const g29::Sd0*)p)->x_); }}}, {}, {55, 96}, {17}, true}; return w; }
static void all_Sd0(Ctx& c) { auto a = make_Sd0(c.rng); auto b = make_Sd0(c.rng); judge_struct<true>(c, a, b, want_Sd0()); VH_CHECK(same(best::field_name<&g29::Sd0::n0>, "n0"), "field-name", "field_name of n0"); VH_CHECK(same(best::field_name<&g29::Sd0::x_>, "x_"), "field-name", "field_name of x_"); }
namespace g29 { struct Sd1 { best::strbuf values; unsigned char v; int* i; std::string x;  }; }
static g29::Sd1 make_Sd1(Rng& g) { (void)g; return g29::Sd1{best::strbuf(words[g.below(6)]), (unsigned char)g.next(), nullptr, std::string(g.below(40), 'q')}; }
static const StructWant& want_Sd1() { static const StructWant w{"Sd1", "g29::Sd1", {{"values", tid<best::strbuf>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd1*)p)->values); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd1*)p)->values); }}, {"v", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd1*)p)->v); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd1*)p)->v); }}, {"i", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd1*)p)->i); }, {}, {}, nullptr}, {"x", tid<std::string>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd1*)p)->x); }, {}, {}, nullptr}}, {}, {}, {}, false}; return w; }
static void all_Sd1(Ctx& c) { auto a = make_Sd1(c.rng); auto b = make_Sd1(c.rng); judge_struct<false>(c, a, b, want_Sd1()); VH_CHECK(same(best::field_name<&g29::Sd1::values>, "values"), "field-name", "field_name of values"); VH_CHECK(same(best::field_name<&g29::Sd1::v>, "v"), "field-name", "field_name of v"); VH_CHECK(same(best::field_name<&g29::Sd1::i>, "i"), "field-name", "field_name of i"); VH_CHECK(same(best::field_name<&g29::Sd1::x>, "x"), "field-name", "field_name of x"); }
namespace g29 { template <class Q> struct Sd2 { bool BestName; best::str y; long abc; best::vec<int> hide_me; const short qq; long _x; Mo value;  constexpr friend auto BestReflect(auto& m, Sd2*) { return m.with(T4{13}).with(T3{29}, 16).with(&Sd2::y, T4{54}, T3{69}).with(&Sd2::BestName, 26).with(T2{18}, T4{94}, T2{69}); } }; }
static g29::Sd2<int> make_Sd2(Rng& g) { (void)g; return g29::Sd2<int>{g.flip(), words[g.below(6)], (long)g.next(), best::vec<int>{(int)g.below(9), 2}, (short)g.next(), (long)g.next(), Mo((int)g.below(99))}; }
static const StructWant& want_Sd2() { static const StructWant w{"Sd2", "g29::Sd2<int>", {{"y", tid<best::str>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd2<int>*)p)->y); }, {}, {69}, [](const void* p) { return dbg(((const g29::Sd2<int>*)p)->y); }}, {"BestName", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd2<int>*)p)->BestName); }, {26}, {}, [](const void* p) { return dbg(((const g29::Sd2<int>*)p)->BestName); }}}, {"abc", "hide_me", "qq", "_x", "value"}, {16}, {29, 18, 69}, true}; return w; }
static void all_Sd2(Ctx& c) { auto a = make_Sd2(c.rng); auto b = make_Sd2(c.rng); judge_struct<true>(c, a, b, want_Sd2()); VH_CHECK(same(best::field_name<&g29::Sd2<int>::BestName>, "BestName"), "field-name", "field_name of BestName"); VH_CHECK(same(best::field_name<&g29::Sd2<int>::y>, "y"), "field-name", "field_name of y"); VH_CHECK(same(best::field_name<&g29::Sd2<int>::abc>, "abc"), "field-name", "field_name of abc"); VH_CHECK(same(best::field_name<&g29::Sd2<int>::hide_me>, "hide_me"), "field-name", "field_name of hide_me"); VH_CHECK(same(best::field_name<&g29::Sd2<int>::qq>, "qq"), "field-name", "field_name of qq"); VH_CHECK(same(best::field_name<&g29::Sd2<int>::_x>, "_x"), "field-name", "field_name of _x"); }
namespace g29 { struct Sd3 { bool each; Mo y; En xy; unsigned char abc; int* key; float a; float size; bool it; float id; unsigned char i; bool data; unsigned char second; En A; bool qqq;  constexpr friend auto BestReflect(auto& m, Sd3*) { return m.with(T2{93}, T3{78}).with(&Sd3::i, T2{80}, T3{89}).with(&Sd3::xy).with(&Sd3::xy, T4{96}, T2{84}).with(T4{44}, T4{53}).with(&Sd3::i, T2{9}, T2{69}).with(&Sd3::i, T2{69}).with(&Sd3::xy, T4{6}, T3{56}); } }; }
static g29::Sd3 make_Sd3(Rng& g) { (void)g; return g29::Sd3{g.flip(), Mo((int)g.below(99)), (En)g.below(4), (unsigned char)g.next(), nullptr, (float)(int)g.below(100), (float)(int)g.below(100), g.flip(), (float)(int)g.below(100), (unsigned char)g.next(), g.flip(), (unsigned char)g.next(), (En)g.below(4), g.flip()}; }
static const StructWant& want_Sd3() { static const StructWant w{"Sd3", "g29::Sd3", {{"i", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd3*)p)->i); }, {}, {80, 89, 9, 69, 69}, [](const void* p) { return dbg(((const g29::Sd3*)p)->i); }}, {"xy", tid<En>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd3*)p)->xy); }, {}, {84, 56}, [](const void* p) { return dbg(((const g29::Sd3*)p)->xy); }}}, {"each", "y", "abc", "key", "a", "size", "it", "id", "data", "second", "A", "qqq"}, {}, {93, 78}, true}; return w; }
static void all_Sd3(Ctx& c) { auto a = make_Sd3(c.rng); auto b = make_Sd3(c.rng); judge_struct<true>(c, a, b, want_Sd3()); VH_CHECK(same(best::field_name<&g29::Sd3::each>, "each"), "field-name", "field_name of each"); VH_CHECK(same(best::field_name<&g29::Sd3::y>, "y"), "field-name", "field_name of y"); VH_CHECK(same(best::field_name<&g29::Sd3::xy>, "xy"), "field-name", "field_name of xy"); VH_CHECK(same(best::field_name<&g29::Sd3::abc>, "abc"), "field-name", "field_name of abc"); VH_CHECK(same(best::field_name<&g29::Sd3::key>, "key"), "field-name", "field_name of key"); VH_CHECK(same(best::field_name<&g29::Sd3::a>, "a"), "field-name", "field_name of a"); }
namespace g29 { struct Sd4 { unsigned char data; best::vec<int> xy; int* Aa; Mo v; bool n10; std::pair<int, int> x_; const short very_long_field_name_number_one; unsigned char BestName; best::strbuf abcd;  constexpr friend auto BestReflect(auto& m, Sd4*) { return m.infer().with(&Sd4::very_long_field_name_number_one, T2{36}, T2{67}).with(&Sd4::very_long_field_name_number_one, 38, T2{60}).with(42).hide(&Sd4::n10).hide(&Sd4::xy).hide(&Sd4::abcd).with(&Sd4::x_, T4{12}); } }; }
static g29::Sd4 make_Sd4(Rng& g) { (void)g; return g29::Sd4{(unsigned char)g.next(), best::vec<int>{(int)g.below(9), 2}, nullptr, Mo((int)g.below(99)), g.flip(), std::pair<int, int>(1, 2), (short)g.next(), (unsigned char)g.next(), best::strbuf(words[g.below(6)])}; }
static const StructWant& want_Sd4() { static const StructWant w{"Sd4", "g29::Sd4", {{"data", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd4*)p)->data); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd4*)p)->data); }}, {"Aa", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd4*)p)->Aa); }, {}, {}, nullptr}, {"v", tid<Mo>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd4*)p)->v); }, {}, {}, nullptr}, {"x_", tid<std::pair<int, int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd4*)p)->x_); }, {}, {}, nullptr}, {"very_long_field_name_number_one", tid<const short>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd4*)p)->very_long_field_name_number_one); }, {38}, {36, 67, 60}, [](const void* p) { return dbg(((const g29::Sd4*)p)->very_long_field_name_number_one); }}, {"BestName", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd4*)p)->BestName); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd4*)p)->BestName); }}}, {"xy", "n10", "abcd"}, {42}, {}, false}; return w; }
static void all_Sd4(Ctx& c) { auto a = make_Sd4(c.rng); auto b = make_Sd4(c.rng); judge_struct<false>(c, a, b, want_Sd4()); VH_CHECK(same(best::field_name<&g29::Sd4::data>, "data"), "field-name", "field_name of data"); VH_CHECK(same(best::field_name<&g29::Sd4::xy>, "xy"), "field-name", "field_name of xy"); VH_CHECK(same(best::field_name<&g29::Sd4::Aa>, "Aa"), "field-name", "field_name of Aa"); VH_CHECK(same(best::field_name<&g29::Sd4::v>, "v"), "field-name", "field_name of v"); VH_CHECK(same(best::field_name<&g29::Sd4::n10>, "n10"), "field-name", "field_name of n10"); VH_CHECK(same(best::field_name<&g29::Sd4::x_>, "x_"), "field-name", "field_name of x_"); }
namespace g29 { struct Sd5 { int b; En ab;  constexpr friend auto BestReflect(auto& m, Sd5*) { return m.with(8).with(34).with(T2{10}); } }; }
static g29::Sd5 make_Sd5(Rng& g) { (void)g; return g29::Sd5{(int)g.next(), (En)g.below(4)}; }
static const StructWant& want_Sd5() { static const StructWant w{"Sd5", "g29::Sd5", {}, {"b", "ab"}, {8, 34}, {10}, true}; return w; }
static void all_Sd5(Ctx& c) { auto a = make_Sd5(c.rng); auto b = make_Sd5(c.rng); judge_struct<true>(c, a, b, want_Sd5()); VH_CHECK(same(best::field_name<&g29::Sd5::b>, "b"), "field-name", "field_name of b"); VH_CHECK(same(best::field_name<&g29::Sd5::ab>, "ab"), "field-name", "field_name of ab"); }
namespace g29 { template <class Q> struct Sd6 { unsigned char b; const short very_long_field_name_number_one; best::option<int> zz9; Mo qq; unsigned char name;  constexpr friend auto BestReflect(auto& m, Sd6*) { return m.infer().with(&Sd6::name, T4{0}).with(&Sd6::zz9, T4{11}).hide(&Sd6::b).hide(&Sd6::zz9).with(&Sd6::name, T3{82}).with(&Sd6::qq, T2{61}).with(T2{71}, T2{73}); } }; }
static g29::Sd6<int> make_Sd6(Rng& g) { (void)g; return g29::Sd6<int>{(unsigned char)g.next(), (short)g.next(), g.flip() ? best::option<int>((int)g.below(9)) : best::option<int>(), Mo((int)g.below(99)), (unsigned char)g.next()}; }
static const StructWant& want_Sd6() { static const StructWant w{"Sd6", "g29::Sd6<int>", {{"very_long_field_name_number_one", tid<const short>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd6<int>*)p)->very_long_field_name_number_one); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd6<int>*)p)->very_long_field_name_number_one); }}, {"qq", tid<Mo>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd6<int>*)p)->qq); }, {}, {61}, nullptr}, {"name", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd6<int>*)p)->name); }, {}, {82}, [](const void* p) { return dbg(((const g29::Sd6<int>*)p)->name); }}}, {"b", "zz9"}, {}, {71, 73}, false}; return w; }
static void all_Sd6(Ctx& c) { auto a = make_Sd6(c.rng); auto b = make_Sd6(c.rng); judge_struct<false>(c, a, b, want_Sd6()); VH_CHECK(same(best::field_name<&g29::Sd6<int>::b>, "b"), "field-name", "field_name of b"); VH_CHECK(same(best::field_name<&g29::Sd6<int>::very_long_field_name_number_one>, "very_long_field_name_number_one"), "field-name", "field_name of very_long_field_name_number_one"); VH_CHECK(same(best::field_name<&g29::Sd6<int>::zz9>, "zz9"), "field-name", "field_name of zz9"); VH_CHECK(same(best::field_name<&g29::Sd6<int>::qq>, "qq"), "field-name", "field_name of qq"); VH_CHECK(same(best::field_name<&g29::Sd6<int>::name>, "name"), "field-name", "field_name of name"); }
namespace g29 { template <class Q> struct Sd7 { int self; best::box<int> second;  }; }
static g29::Sd7<int> make_Sd7(Rng& g) { (void)g; return g29::Sd7<int>{(int)g.next(), best::box<int>((int)g.below(99))}; }
static const StructWant& want_Sd7() { static const StructWant w{"Sd7", "g29::Sd7<int>", {{"self", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd7<int>*)p)->self); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd7<int>*)p)->self); }}, {"second", tid<best::box<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd7<int>*)p)->second); }, {}, {}, nullptr}}, {}, {}, {}, false}; return w; }
static void all_Sd7(Ctx& c) { auto a = make_Sd7(c.rng); auto b = make_Sd7(c.rng); judge_struct<false>(c, a, b, want_Sd7()); VH_CHECK(same(best::field_name<&g29::Sd7<int>::self>, "self"), "field-name", "field_name of self"); VH_CHECK(same(best::field_name<&g29::Sd7<int>::second>, "second"), "field-name", "field_name of second"); }
namespace g29 { struct Sd8 { best::vec<int> n1; int* second; std::string key; unsigned char self; long id; float A; In idx; Mo values; std::string each; int* it; In abcd; En abc; std::string ab; best::vec<int> desc_;  constexpr friend auto BestReflect(auto& m, Sd8*) { return m.infer(); } }; }
static g29::Sd8 make_Sd8(Rng& g) { (void)g; return g29::Sd8{best::vec<int>{(int)g.below(9), 2}, nullptr, std::string(g.below(40), 'q'), (unsigned char)g.next(), (long)g.next(), (float)(int)g.below(100), In{(int)g.below(99), g.flip()}, Mo((int)g.below(99)), std::string(g.below(40), 'q'), nullptr, In{(int)g.below(99), g.flip()}, (En)g.below(4), std::string(g.below(40), 'q'), best::vec<int>{(int)g.below(9), 2}}; }
static const StructWant& want_Sd8() { static const StructWant w{"Sd8", "g29::Sd8", {{"n1", tid<best::vec<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd8*)p)->n1); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd8*)p)->n1); }}, {"second", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd8*)p)->second); }, {}, {}, nullptr}, {"key", tid<std::string>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd8*)p)->key); }, {}, {}, nullptr}, {"self", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd8*)p)->self); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd8*)p)->self); }}, {"id", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd8*)p)->id); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd8*)p)->id); }}, {"A", tid<float>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd8*)p)->A); }, {}, {}, nullptr}, {"idx", tid<In>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd8*)p)->idx); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd8*)p)->idx); }}, {"values", tid<Mo>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd8*)p)->values); }, {}, {}, nullptr}, {"each", tid<std::string>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd8*)p)->each); }, {}, {}, nullptr}, {"it", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd8*)p)->it); }, {}, {}, nullptr}, {"abcd", tid<In>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd8*)p)->abcd); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd8*)p)->abcd); }}, {"abc", tid<En>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd8*)p)->abc); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd8*)p)->abc); }}, {"ab", tid<std::string>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd8*)p)->ab); }, {}, {}, nullptr}, {"desc_", tid<best::vec<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd8*)p)->desc_); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd8*)p)->desc_); }}}, {}, {}, {}, false}; return w; }
static void all_Sd8(Ctx& c) { auto a = make_Sd8(c.rng); auto b = make_Sd8(c.rng); judge_struct<false>(c, a, b, want_Sd8()); VH_CHECK(same(best::field_name<&g29::Sd8::n1>, "n1"), "field-name", "field_name of n1"); VH_CHECK(same(best::field_name<&g29::Sd8::second>, "second"), "field-name", "field_name of second"); VH_CHECK(same(best::field_name<&g29::Sd8::key>, "key"), "field-name", "field_name of key"); VH_CHECK(same(best::field_name<&g29::Sd8::self>, "self"), "field-name", "field_name of self"); VH_CHECK(same(best::field_name<&g29::Sd8::id>, "id"), "field-name", "field_name of id"); VH_CHECK(same(best::field_name<&g29::Sd8::A>, "A"), "field-name", "field_name of A"); }
namespace g29 { struct Sd9 { double hide_me; unsigned char it; bool x_; bool _x; En very_long_field_name_number_one; long x; int* xy; best::box<int> BestName; bool name;  constexpr friend auto BestReflect(auto& m, Sd9*) { return m.infer(); } }; }
static g29::Sd9 make_Sd9(Rng& g) { (void)g; return g29::Sd9{(double)(int)g.below(1000), (unsigned char)g.next(), g.flip(), g.flip(), (En)g.below(4), (long)g.next(), nullptr, best::box<int>((int)g.below(99)), g.flip()}; }
static const StructWant& want_Sd9() { static const StructWant w{"Sd9", "g29::Sd9", {{"hide_me", tid<double>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd9*)p)->hide_me); }, {}, {}, nullptr}, {"it", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd9*)p)->it); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd9*)p)->it); }}, {"x_", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd9*)p)->x_); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd9*)p)->x_); }}, {"_x", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd9*)p)->_x); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd9*)p)->_x); }}, {"very_long_field_name_number_one", tid<En>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd9*)p)->very_long_field_name_number_one); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd9*)p)->very_long_field_name_number_one); }}, {"x", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd9*)p)->x); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd9*)p)->x); }}, {"xy", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd9*)p)->xy); }, {}, {}, nullptr}, {"BestName", tid<best::box<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd9*)p)->BestName); }, {}, {}, nullptr}, {"name", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd9*)p)->name); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd9*)p)->name); }}}, {}, {}, {}, false}; return w; }
static void all_Sd9(Ctx& c) { auto a = make_Sd9(c.rng); auto b = make_Sd9(c.rng); judge_struct<false>(c, a, b, want_Sd9()); VH_CHECK(same(best::field_name<&g29::Sd9::hide_me>, "hide_me"), "field-name", "field_name of hide_me"); VH_CHECK(same(best::field_name<&g29::Sd9::it>, "it"), "field-name", "field_name of it"); VH_CHECK(same(best::field_name<&g29::Sd9::x_>, "x_"), "field-name", "field_name of x_"); VH_CHECK(same(best::field_name<&g29::Sd9::_x>, "_x"), "field-name", "field_name of _x"); VH_CHECK(same(best::field_name<&g29::Sd9::very_long_field_name_number_one>, "very_long_field_name_number_one"), "field-name", "field_name of very_long_field_name_number_one"); VH_CHECK(same(best::field_name<&g29::Sd9::x>, "x"), "field-name", "field_name of x"); }
namespace g29 { struct Sd10 { int id; const short aA; best::str n01; In zz9; En b;  constexpr friend auto BestReflect(auto& m, Sd10*) { return m.infer().with(&Sd10::aA, T2{74}).hide(&Sd10::zz9).with(&Sd10::b, T4{39}, T3{19}, T2{59}).with(T4{31}, T2{93}).hide(&Sd10::b).hide(&Sd10::id).with(25).with(&Sd10::id).with(&Sd10::b, T3{65}); } }; }
static g29::Sd10 make_Sd10(Rng& g) { (void)g; return g29::Sd10{(int)g.next(), (short)g.next(), words[g.below(6)], In{(int)g.below(99), g.flip()}, (En)g.below(4)}; }
static const StructWant& want_Sd10() { static const StructWant w{"Sd10", "g29::Sd10", {{"aA", tid<const short>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd10*)p)->aA); }, {}, {74}, [](const void* p) { return dbg(((const g29::Sd10*)p)->aA); }}, {"n01", tid<best::str>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd10*)p)->n01); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd10*)p)->n01); }}, {"id", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd10*)p)->id); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd10*)p)->id); }}, {"b", tid<En>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd10*)p)->b); }, {}, {65}, [](const void* p) { return dbg(((const g29::Sd10*)p)->b); }}}, {"zz9"}, {25}, {93}, true}; return w; }
static void all_Sd10(Ctx& c) { auto a = make_Sd10(c.rng); auto b = make_Sd10(c.rng); judge_struct<true>(c, a, b, want_Sd10()); VH_CHECK(same(best::field_name<&g29::Sd10::id>, "id"), "field-name", "field_name of id"); VH_CHECK(same(best::field_name<&g29::Sd10::aA>, "aA"), "field-name", "field_name of aA"); VH_CHECK(same(best::field_name<&g29::Sd10::n01>, "n01"), "field-name", "field_name of n01"); VH_CHECK(same(best::field_name<&g29::Sd10::zz9>, "zz9"), "field-name", "field_name of zz9"); VH_CHECK(same(best::field_name<&g29::Sd10::b>, "b"), "field-name", "field_name of b"); }
namespace g29 { struct Sd11 { best::str name; std::pair<int, int> q; int qqq; int* a; bool xx; best::vec<int> very_long_field_name_number_two; In any_; unsigned char type; In BestName; bool y; En data;  constexpr friend auto BestReflect(auto& m, Sd11*) { return m.infer().with(T2{35}, T3{75}).with(&Sd11::xx, 53).hide(&Sd11::any_).with(&Sd11::any_); } }; }
static g29::Sd11 make_Sd11(Rng& g) { (void)g; return g29::Sd11{words[g.below(6)], std::pair<int, int>(1, 2), (int)g.next(), nullptr, g.flip(), best::vec<int>{(int)g.below(9), 2}, In{(int)g.below(99), g.flip()}, (unsigned char)g.next(), In{(int)g.below(99), g.flip()}, g.flip(), (En)g.below(4)}; }
static const StructWant& want_Sd11() { static const StructWant w{"Sd11", "g29::Sd11", {{"name", tid<best::str>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd11*)p)->name); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd11*)p)->name); }}, {"q", tid<std::pair<int, int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd11*)p)->q); }, {}, {}, nullptr}, {"qqq", tid<int>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd11*)p)->qqq); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd11*)p)->qqq); }}, {"a", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd11*)p)->a); }, {}, {}, nullptr}, {"xx", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd11*)p)->xx); }, {53}, {}, [](const void* p) { return dbg(((const g29::Sd11*)p)->xx); }}, {"very_long_field_name_number_two", tid<best::vec<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd11*)p)->very_long_field_name_number_two); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd11*)p)->very_long_field_name_number_two); }}, {"type", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd11*)p)->type); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd11*)p)->type); }}, {"BestName", tid<In>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd11*)p)->BestName); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd11*)p)->BestName); }}, {"y", tid<bool>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd11*)p)->y); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd11*)p)->y); }}, {"data", tid<En>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd11*)p)->data); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd11*)p)->data); }}, {"any_", tid<In>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd11*)p)->any_); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd11*)p)->any_); }}}, {}, {}, {35, 75}, false}; return w; }
static void all_Sd11(Ctx& c) { auto a = make_Sd11(c.rng); auto b = make_Sd11(c.rng); judge_struct<false>(c, a, b, want_Sd11()); VH_CHECK(same(best::field_name<&g29::Sd11::name>, "name"), "field-name", "field_name of name"); VH_CHECK(same(best::field_name<&g29::Sd11::q>, "q"), "field-name", "field_name of q"); VH_CHECK(same(best::field_name<&g29::Sd11::qqq>, "qqq"), "field-name", "field_name of qqq"); VH_CHECK(same(best::field_name<&g29::Sd11::a>, "a"), "field-name", "field_name of a"); VH_CHECK(same(best::field_name<&g29::Sd11::xx>, "xx"), "field-name", "field_name of xx"); VH_CHECK(same(best::field_name<&g29::Sd11::very_long_field_name_number_two>, "very_long_field_name_number_two"), "field-name", "field_name of very_long_field_name_number_two"); }
namespace g29 { struct Sd12 { Mo q; int* A; long second; std::string size; unsigned char very_long_field_name_number_two; best::option<int> idx; best::vec<int> any_; float key; best::vec<int> abc; int* b; long xx;  constexpr friend auto BestReflect(auto& m, Sd12*) { return m.infer(); } }; }
static g29::Sd12 make_Sd12(Rng& g) { (void)g; return g29::Sd12{Mo((int)g.below(99)), nullptr, (long)g.next(), std::string(g.below(40), 'q'), (unsigned char)g.next(), g.flip() ? best::option<int>((int)g.below(9)) : best::option<int>(), best::vec<int>{(int)g.below(9), 2}, (float)(int)g.below(100), best::vec<int>{(int)g.below(9), 2}, nullptr, (long)g.next()}; }
static const StructWant& want_Sd12() { static const StructWant w{"Sd12", "g29::Sd12", {{"q", tid<Mo>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd12*)p)->q); }, {}, {}, nullptr}, {"A", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd12*)p)->A); }, {}, {}, nullptr}, {"second", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd12*)p)->second); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd12*)p)->second); }}, {"size", tid<std::string>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd12*)p)->size); }, {}, {}, nullptr}, {"very_long_field_name_number_two", tid<unsigned char>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd12*)p)->very_long_field_name_number_two); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd12*)p)->very_long_field_name_number_two); }}, {"idx", tid<best::option<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd12*)p)->idx); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd12*)p)->idx); }}, {"any_", tid<best::vec<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd12*)p)->any_); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd12*)p)->any_); }}, {"key", tid<float>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd12*)p)->key); }, {}, {}, nullptr}, {"abc", tid<best::vec<int>>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd12*)p)->abc); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd12*)p)->abc); }}, {"b", tid<int*>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd12*)p)->b); }, {}, {}, nullptr}, {"xx", tid<long>(), [](const void* p) { return (const void*)best::addr(((const g29::Sd12*)p)->xx); }, {}, {}, [](const void* p) { return dbg(((const g29::Sd12*)p)->xx); }}}, {}, {}, {}, false}; return w; }
static void all_Sd12(Ctx& c) { auto a = make_Sd12(c.rng); auto b = make_Sd12(c.rng); judge_struct<false>(c, a, b, want_Sd12()); VH_CHECK(same(best::field_name<&g29::Sd12::q>, "q"), "field-name", "field_name of q"); VH_CHECK(same(best::field_name<&g29::Sd12::A>, "A"), "field-name", "field_name of A"); VH_CHECK(same(best::field_name<&g29::Sd12::second>, "second"), "field-name", "field_name of second"); VH_CHECK(same(best::field_name<&g29::Sd12::size>, "size"), "field-name", "field_name of size"); VH_CHECK(same(best::field_name<&g29::Sd12::very_long_field_name_number_two>, "very_long_field_name_number_two"), "field-name", "field_name of very_long_field_name_number_two"); VH_CHECK(same(best::field_name<&g29::Sd12::idx>, "idx"), "field-name", "field_name of idx"); }
namespace g29 { struct Sd13 { int* zz9; best::option<int> a; int v; float data; best::box<int> Aa; std::pair<int, int> very_long_field_name_number_one; best::str n10; std::string n1; best::strbuf self;  constexpr friend auto BestReflect(auto& m, Sd13*) { return m.with(13, T3{90}); } }; }
static g29::Sd13 make_Sd13(Rng& g) { (void)g; return g29::Sd13{nullptr, g.flip() ? best::option<int>((int)g.below(9)) : best::option<int>(), (int)g.next(), (float)(int)g.below(100), best::box<int>((int)g.below(99)), std::pair<int, int>(1, 2), words[g.below(6)], std::string(g.below(40), 'q'), best::strbuf(words[g.below(6)])}; }
static const StructWant& want_Sd13() { static const StructWant w{"Sd13", "g29::Sd13", {}, {"zz9", "a", "v", "data", "Aa", "very_long_field_name_number_one", "n10", "n1", "self"}, {13}, {90}, true}; return w; }
static void all_Sd13(Ctx& c) { auto a = make_Sd13(c.rng); auto b = make_Sd13(c.rng); judge_struct<true>(c, a, b, want_Sd13()); VH_CHECK(same(best::field_name<&g29::Sd13::zz9>, "zz9"), "field-name", "field_name of zz9"); VH_CHECK(same(best::field_name<&g29::Sd13::a>, "a"), "field-name", "field_name of a"); VH_CHECK(same(best::field_name<&g29::Sd13::v>, "v"), "field-name", "field_name of v"); VH_CHECK(same(best::field_name<&g29::Sd13::data>, "data"), "field-name", "field_name of data"); VH_CHECK(same(best::field_name<&g29::Sd13::Aa>, "Aa"), "field-name", "field_name of Aa"); VH_CHECK(same(best::field_name<&g29::Sd13::very_long_field_name_number_one>, "very_long_field_name_number_one"), "field-name", "field_name of very_long_field_name_number_one"); }
namespace g29 { namespace en_Ed0 { enum class Ed0 : char {  };  } }
static const EnumWant& want_Ed0() { static const EnumWant w{"Ed0", "g29::en_Ed0::Ed0", {}, {}, {}, {}, 0, 0}; return w; }
static void all_Ed0(Ctx& c) { judge_enum<g29::en_Ed0::Ed0>(c, want_Ed0()); }
namespace g29 { namespace en_Ed1 { enum class Ed1 : long { type = 5, q = 0, xx = 4, value = 8, ab = 9, a = 1, xy = 7, n1 = 10, each = 6, abc = 12, y = 13, it = 2, _x = 3, b = 11 }; constexpr auto BestReflect(auto& m, Ed1*) { return m.infer().with(Ed1::_x, 48, T3{53}).with(Ed1::value, T4{69}).with(T4{31}).with(Ed1::xx, 64, T2{39}).with(Ed1::y, T3{32}, T4{0}, 11).hide(Ed1::ab).with(Ed1::xy, T4{84}, T4{86}).with(Ed1::ab); } } }
static const EnumWant& want_Ed1() { static const EnumWant w{"Ed1", "g29::en_Ed1::Ed1", {{"q", (i64)0, {}, {}}, {"a", (i64)1, {}, {}}, {"it", (i64)2, {}, {}}, {"_x", (i64)3, {48}, {53}}, {"xx", (i64)4, {64}, {39}}, {"type", (i64)5, {}, {}}, {"each", (i64)6, {}, {}}, {"xy", (i64)7, {}, {}}, {"value", (i64)8, {}, {}}, {"n1", (i64)10, {}, {}}, {"b", (i64)11, {}, {}}, {"abc", (i64)12, {}, {}}, {"y", (i64)13, {11}, {32}}, {"ab", (i64)9, {}, {}}}, {}, {}, {}, 0, 0}; return w; }
static void all_Ed1(Ctx& c) { judge_enum<g29::en_Ed1::Ed1>(c, want_Ed1()); VH_CHECK(best::value_name<g29::en_Ed1::Ed1::type>.has_value() && same(*best::value_name<g29::en_Ed1::Ed1::type>, "type"), "value-name", "value_name of Ed1::type"); VH_CHECK(best::value_name<g29::en_Ed1::Ed1::q>.has_value() && same(*best::value_name<g29::en_Ed1::Ed1::q>, "q"), "value-name", "value_name of Ed1::q"); VH_CHECK(best::value_name<g29::en_Ed1::Ed1::xx>.has_value() && same(*best::value_name<g29::en_Ed1::Ed1::xx>, "xx"), "value-name", "value_name of Ed1::xx"); VH_CHECK(best::value_name<g29::en_Ed1::Ed1::value>.has_value() && same(*best::value_name<g29::en_Ed1::Ed1::value>, "value"), "value-name", "value_name of Ed1::value"); VH_CHECK(best::value_name<g29::en_Ed1::Ed1::ab>.has_value() && same(*best::value_name<g29::en_Ed1::Ed1::ab>, "ab"), "value-name", "value_name of Ed1::ab"); VH_CHECK(best::value_name<g29::en_Ed1::Ed1::a>.has_value() && same(*best::value_name<g29::en_Ed1::Ed1::a>, "a"), "value-name", "value_name of Ed1::a"); VH_CHECK(best::value_name<g29::en_Ed1::Ed1::xy>.has_value() && same(*best::value_name<g29::en_Ed1::Ed1::xy>, "xy"), "value-name", "value_name of Ed1::xy"); VH_CHECK(best::value_name<g29::en_Ed1::Ed1::n1>.has_value() && same(*best::value_name<g29::en_Ed1::Ed1::n1>, "n1"), "value-name", "value_name of Ed1::n1"); VH_CHECK(best::value_name<g29::en_Ed1::Ed1::each>.has_value() && same(*best::value_name<g29::en_Ed1::Ed1::each>, "each"), "value-name", "value_name of Ed1::each"); VH_CHECK(best::value_name<g29::en_Ed1::Ed1::abc>.has_value() && same(*best::value_name<g29::en_Ed1::Ed1::abc>, "abc"), "value-name", "value_name of Ed1::abc"); VH_CHECK(best::value_name<g29::en_Ed1::Ed1::y>.has_value() && same(*best::value_name<g29::en_Ed1::Ed1::y>, "y"), "value-name", "value_name of Ed1::y"); VH_CHECK(best::value_name<g29::en_Ed1::Ed1::it>.has_value() && same(*best::value_name<g29::en_Ed1::Ed1::it>, "it"), "value-name", "value_name of Ed1::it"); VH_CHECK(best::value_name<g29::en_Ed1::Ed1::_x>.has_value() && same(*best::value_name<g29::en_Ed1::Ed1::_x>, "_x"), "value-name", "value_name of Ed1::_x"); VH_CHECK(best::value_name<g29::en_Ed1::Ed1::b>.has_value() && same(*best::value_name<g29::en_Ed1::Ed1::b>, "b"), "value-name", "value_name of Ed1::b"); }
namespace g29 { namespace en_Ed2 { enum class Ed2 : bool { very_long_field_name_number_one = 1 }; constexpr auto BestReflect(auto& m, Ed2*) { return m.template infer<best::bounds{.start = 1ull, .count = 120}>().with(Ed2::very_long_field_name_number_one, T3{4}); } } }
static const EnumWant& want_Ed2() { static const EnumWant w{"Ed2", "g29::en_Ed2::Ed2", {{"very_long_field_name_number_one", (i64)1, {}, {4}}}, {}, {}, {}, 0, 0}; return w; }
static void all_Ed2(Ctx& c) { judge_enum<g29::en_Ed2::Ed2>(c, want_Ed2()); VH_CHECK(best::value_name<g29::en_Ed2::Ed2::very_long_field_name_number_one>.has_value() && same(*best::value_name<g29::en_Ed2::Ed2::very_long_field_name_number_one>, "very_long_field_name_number_one"), "value-name", "value_name of Ed2::very_long_field_name_number_one"); }
namespace g29 { namespace en_Ed3 { enum class Ed3 : char { abc = 52, y = 30 }; constexpr auto BestReflect(auto& m, Ed3*) { return m.infer().with(Ed3::abc, T4{31}).with(Ed3::abc, 67).with(Ed3::y, 84).with(Ed3::y, 51).hide(Ed3::y).with(Ed3::y, T4{33}, T4{30}); } } }
static const EnumWant& want_Ed3() { static const EnumWant w{"Ed3", "g29::en_Ed3::Ed3", {{"abc", (i64)52, {67}, {}}, {"y", (i64)30, {}, {}}}, {}, {}, {}, 0, 0}; return w; }
static void all_Ed3(Ctx& c) { judge_enum<g29::en_Ed3::Ed3>(c, want_Ed3()); VH_CHECK(best::value_name<g29::en_Ed3::Ed3::abc>.has_value() && same(*best::value_name<g29::en_Ed3::Ed3::abc>, "abc"), "value-name", "value_name of Ed3::abc"); VH_CHECK(best::value_name<g29::en_Ed3::Ed3::y>.has_value() && same(*best::value_name<g29::en_Ed3::Ed3::y>, "y"), "value-name", "value_name of Ed3::y"); }
namespace g29 { namespace en_Ed4 { enum class Ed4 : signed char {  };  } }
static const EnumWant& want_Ed4() { static const EnumWant w{"Ed4", "g29::en_Ed4::Ed4", {}, {}, {}, {}, 0, 0}; return w; }
static void all_Ed4(Ctx& c) { judge_enum<g29::en_Ed4::Ed4>(c, want_Ed4()); }
namespace g29 { namespace en_Ed5 { enum class Ed5 : char { first = 64, desc_ = -5 }; constexpr auto BestReflect(auto& m, Ed5*) { return m.infer(); } } }
static const EnumWant& want_Ed5() { static const EnumWant w{"Ed5", "g29::en_Ed5::Ed5", {}, {{"first", (i64)64, {}, {}}, {"desc_", (i64)-5, {}, {}}}, {}, {}, 0, 0}; return w; }
static void all_Ed5(Ctx& c) { judge_enum<g29::en_Ed5::Ed5>(c, want_Ed5()); VH_CHECK(best::value_name<g29::en_Ed5::Ed5::first>.has_value() && same(*best::value_name<g29::en_Ed5::Ed5::first>, "first"), "value-name", "value_name of Ed5::first"); VH_CHECK(best::value_name<g29::en_Ed5::Ed5::desc_>.has_value() && same(*best::value_name<g29::en_Ed5::Ed5::desc_>, "desc_"), "value-name", "value_name of Ed5::desc_"); }
namespace g29 { namespace en_Ed6 { enum class Ed6 : unsigned short {  };  } }
static const EnumWant& want_Ed6() { static const EnumWant w{"Ed6", "g29::en_Ed6::Ed6", {}, {}, {}, {}, 0, 0}; return w; }
static void all_Ed6(Ctx& c) { judge_enum<g29::en_Ed6::Ed6>(c, want_Ed6()); }
static void (*const structs[])(Ctx&) = {all_Sd0, all_Sd1, all_Sd2, all_Sd3, all_Sd4, all_Sd5, all_Sd6, all_Sd7, all_Sd8, all_Sd9, all_Sd10, all_Sd11, all_Sd12, all_Sd13};
static void (*const enums[])(Ctx&) = {all_Ed0, all_Ed1, all_Ed2, all_Ed3, all_Ed4, all_Ed5, all_Ed6};
namespace g29 { struct Xn {}; template <class...> struct Tn {}; }
namespace g29 { template <class Z0_0> struct qd0_0 { template <class Z1_0, class Z1_1, class Z1_2> struct pd0_1 { template <class Z2_0> struct Qd0_2 {  }; }; }; }
namespace g29 { namespace Qd1_0 { namespace rd1_1 { namespace rd1_2 { struct Qd1_3 {  }; } } } }
namespace g29 { struct qd2_0 {  }; }
namespace g29 { template <class Z0_0, class Z0_1, class Z0_2> struct pd3_0 {  }; }
namespace g29 { namespace _d4_0 { struct Pd4_1 {  }; } }
namespace g29 { struct pd5_0 {  }; }
namespace g29 { struct pd6_0 { template <class Z1_0, class Z1_1, class Z1_2> struct _d6_1 { template <class Z2_0, class Z2_1, class Z2_2> struct rd6_2 {  }; }; }; }
namespace g29 { namespace qd7_0 { namespace Qd7_1 { template <class Z2_0, class Z2_1> struct _d7_2 {  }; } } }
namespace g29 { struct _d8_0 { struct Pd8_1 { struct _d8_2 { struct rd8_3 {  }; }; }; }; }
namespace g29 { namespace Qd9_0 { struct pd9_1 { struct Pd9_2 { struct Qd9_3 {  }; }; }; } }
namespace g29 { namespace rd10_0 { struct rd10_1 {  }; } }
namespace g29 { namespace Qd11_0 { template <class Z1_0, class Z1_1> struct Rd11_1 {  }; } }
namespace g29 { struct qd12_0 { struct Qd12_1 { struct Qd12_2 { struct qd12_3 {  }; }; }; }; }
namespace g29 { template <class Z0_0, class Z0_1> struct Qd13_0 { template <class Z1_0, class Z1_1, class Z1_2> struct rd13_1 { struct pd13_2 {  }; }; }; }
static void all_names(Ctx& c) {
  judge_names(c, best::type_names::of<g29::qd0_0<int>::pd0_1<g29::Xn, g29::Xn, const char *>::Qd0_2<g29::Xn>>, best::type_name<g29::qd0_0<int>::pd0_1<g29::Xn, g29::Xn, const char *>::Qd0_2<g29::Xn>>, "g29::qd0_0<int>::pd0_1<g29::Xn, g29::Xn, const char *>", "Qd0_2", "<g29::Xn>");
  judge_names(c, best::type_names::of<g29::Qd1_0::rd1_1::rd1_2::Qd1_3>, best::type_name<g29::Qd1_0::rd1_1::rd1_2::Qd1_3>, "g29::Qd1_0::rd1_1::rd1_2", "Qd1_3", "");
  judge_names(c, best::type_names::of<g29::qd2_0>, best::type_name<g29::qd2_0>, "g29", "qd2_0", "");
  judge_names(c, best::type_names::of<g29::pd3_0<g29::Tn<int>, g29::Xn, g29::Xn>>, best::type_name<g29::pd3_0<g29::Tn<int>, g29::Xn, g29::Xn>>, "g29", "pd3_0", "<g29::Tn<int>, g29::Xn, g29::Xn>");
  judge_names(c, best::type_names::of<g29::_d4_0::Pd4_1>, best::type_name<g29::_d4_0::Pd4_1>, "g29::_d4_0", "Pd4_1", "");
  judge_names(c, best::type_names::of<g29::pd5_0>, best::type_name<g29::pd5_0>, "g29", "pd5_0", "");
  judge_names(c, best::type_names::of<g29::pd6_0::_d6_1<int, g29::Xn &, int>::rd6_2<g29::Xn &, g29::Xn, g29::Tn<int>>>, best::type_name<g29::pd6_0::_d6_1<int, g29::Xn &, int>::rd6_2<g29::Xn &, g29::Xn, g29::Tn<int>>>, "g29::pd6_0::_d6_1<int, g29::Xn &, int>", "rd6_2", "<g29::Xn &, g29::Xn, g29::Tn<int>>");
  judge_names(c, best::type_names::of<g29::qd7_0::Qd7_1::_d7_2<g29::Tn<>, const char *>>, best::type_name<g29::qd7_0::Qd7_1::_d7_2<g29::Tn<>, const char *>>, "g29::qd7_0::Qd7_1", "_d7_2", "<g29::Tn<>, const char *>");
  judge_names(c, best::type_names::of<g29::_d8_0::Pd8_1::_d8_2::rd8_3>, best::type_name<g29::_d8_0::Pd8_1::_d8_2::rd8_3>, "g29::_d8_0::Pd8_1::_d8_2", "rd8_3", "");
  judge_names(c, best::type_names::of<g29::Qd9_0::pd9_1::Pd9_2::Qd9_3>, best::type_name<g29::Qd9_0::pd9_1::Pd9_2::Qd9_3>, "g29::Qd9_0::pd9_1::Pd9_2", "Qd9_3", "");
  judge_names(c, best::type_names::of<g29::rd10_0::rd10_1>, best::type_name<g29::rd10_0::rd10_1>, "g29::rd10_0", "rd10_1", "");
  judge_names(c, best::type_names::of<g29::Qd11_0::Rd11_1<const char *, int>>, best::type_name<g29::Qd11_0::Rd11_1<const char *, int>>, "g29::Qd11_0", "Rd11_1", "<const char *, int>");
  judge_names(c, best::type_names::of<g29::qd12_0::Qd12_1::Qd12_2::qd12_3>, best::type_name<g29::qd12_0::Qd12_1::Qd12_2::qd12_3>, "g29::qd12_0::Qd12_1::Qd12_2", "qd12_3", "");
  judge_names(c, best::type_names::of<g29::Qd13_0<g29::Tn<g29::Xn, g29::Tn<int>>, g29::Tn<int>>::rd13_1<g29::Xn, g29::Xn &, g29::Tn<int>>::pd13_2>, best::type_name<g29::Qd13_0<g29::Tn<g29::Xn, g29::Tn<int>>, g29::Tn<int>>::rd13_1<g29::Xn, g29::Xn &, g29::Tn<int>>::pd13_2>, "g29::Qd13_0<g29::Tn<g29::Xn, g29::Tn<int>>, g29::Tn<int>>::rd13_1<g29::Xn, g29::Xn &, g29::Tn<int>>", "pd13_2", "");
}
#endif
