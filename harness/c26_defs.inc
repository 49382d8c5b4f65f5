// Generated by tools/gen_cli.py 12 777.
#ifdef PART_A
struct G13 {
  best::str f14_amber; best::option<int> indigo;
  constexpr friend auto BestReflect(auto& m, G13*) { return m.infer()
    .with(&G13::f14_amber, cli::flag{.name = "amber", .letter = U'w', .arg = "ARG15", .count = cli::Repeated, .help = "ünï help 16"}, cli::alias{"fawn-grey", cli::Invisible}, cli::alias{"copper"})
    .with(&G13::indigo, cli::flag{.letter = U'y', .arg = "ARG17", .count = cli::Optional, .help = "helps with 18"});
  }
};
inline void dump(Map& m, const std::string& p, const G13& v) { put(m, p + "f14_amber", v.f14_amber); put(m, p + "indigo", v.indigo); }
inline Node* node_G13() { auto n = new Node; n->flags.push_back({"f14_amber", K_str, "amber", U'w', VPublic, {{"fawn-grey", VInvisible}, {"copper", VPublic}}, 2, "ARG15", "ünï help 16"});
  n->flags.push_back({"indigo", K_opt_int, "indigo", U'y', VPublic, {}, 0, "ARG17", "helps with 18"});
  return n; }
struct G12 {
  G13 f19_india; Celsius pink_4;
  constexpr friend auto BestReflect(auto& m, G12*) { return m.infer()
    .with(&G12::f19_india, cli::group{.name = "india", .letter = U'X', .help = "helps with 20"})
    .with(&G12::pink_4, cli::flag{.letter = U'g', .count = cli::Repeated, .help = "helps 22a\nand 22b"});
  }
};
inline void dump(Map& m, const std::string& p, const G12& v) { dump(m, p + "f19_india.", v.f19_india); put(m, p + "pink_4", v.pink_4); }
inline Node* node_G12() { auto n = new Node; n->groups.push_back({"f19_india", "india", U'X', VPublic, {}, "helps with 20", node_G13()});
  n->flags.push_back({"pink_4", K_custom, "pink_4", U'g', VPublic, {}, 2, "", "helps 22a\nand 22b"});
  return n; }
struct G28 {
  best::vec<int> f29__lan_x; best::option<bool> f32_tango; best::vec<int> f35_november_x; best::option<best::rune> f38_foxtrot;
  constexpr friend auto BestReflect(auto& m, G28*) { return m.infer()
    .with(&G28::f29__lan_x, cli::flag{.name = "élan-x", .arg = "ARG30", .count = cli::Optional, .help = "helps with 31"})
    .with(&G28::f32_tango, cli::flag{.name = "tango", .letter = U'u', .arg = "ARG33", .help = "helps 34a\nand 34b"})
    .with(&G28::f35_november_x, cli::flag{.name = "november_x", .letter = U'7', .help = "helps with 37"}, cli::alias{"indigo", cli::Invisible}, cli::alias{"hazel", cli::Invisible})
    .with(&G28::f38_foxtrot, cli::flag{.name = "foxtrot", .arg = "ARG39", .count = cli::Repeated});
  }
};
inline void dump(Map& m, const std::string& p, const G28& v) { put(m, p + "f29__lan_x", v.f29__lan_x); put(m, p + "f32_tango", v.f32_tango); put(m, p + "f35_november_x", v.f35_november_x); put(m, p + "f38_foxtrot", v.f38_foxtrot); }
inline Node* node_G28() { auto n = new Node; n->flags.push_back({"f29__lan_x", K_vec_int, "élan-x", U'\0', VPublic, {}, 0, "ARG30", "helps with 31"});
  n->flags.push_back({"f32_tango", K_opt_bool, "tango", U'u', VPublic, {}, -1, "ARG33", "helps 34a\nand 34b"});
  n->flags.push_back({"f35_november_x", K_vec_int, "november_x", U'7', VPublic, {{"indigo", VInvisible}, {"hazel", VInvisible}}, -1, "", "helps with 37"});
  n->flags.push_back({"f38_foxtrot", K_opt_rune, "foxtrot", U'\0', VPublic, {}, 2, "ARG39", ""});
  return n; }
struct G50 {
  Celsius f51_silver_9; best::option<best::rune> f53_november_x; best::vec<bool> echo; best::strbuf f58_red;
  constexpr friend auto BestReflect(auto& m, G50*) { return m.infer()
    .with(&G50::f51_silver_9, cli::flag{.name = "silver-9"}, cli::alias{"uniform", cli::Hidden})
    .with(&G50::f53_november_x, cli::flag{.name = "november_x", .help = "helps with 55"})
    .with(&G50::echo, cli::flag{.letter = U'j', .vis = cli::Hidden, .help = "ünï help 57"}, cli::alias{"quartz"}, cli::alias{"indigo"})
    .with(&G50::f58_red, cli::flag{.name = "red", .letter = U'x', .arg = "ARG59"});
  }
};
inline void dump(Map& m, const std::string& p, const G50& v) { put(m, p + "f51_silver_9", v.f51_silver_9); put(m, p + "f53_november_x", v.f53_november_x); put(m, p + "echo", v.echo); put(m, p + "f58_red", v.f58_red); }
inline Node* node_G50() { auto n = new Node; n->flags.push_back({"f51_silver_9", K_custom, "silver-9", U'\0', VPublic, {{"uniform", VHidden}}, -1, "", ""});
  n->flags.push_back({"f53_november_x", K_opt_rune, "november_x", U'\0', VPublic, {}, -1, "", "helps with 55"});
  n->flags.push_back({"echo", K_vec_bool, "echo", U'j', VHidden, {{"quartz", VHidden}, {"indigo", VHidden}}, -1, "", "ünï help 57"});
  n->flags.push_back({"f58_red", K_strbuf, "red", U'x', VPublic, {}, -1, "ARG59", ""});
  return n; }
struct S42 {
  best::option<best::rune> f43_fawn_grey; best::option<best::rune> bravo; bool navy_3 = false; G50 f60_khaki_2; best::option<best::rune> f62_sierra; best::rune f65_pos; best::vec<bool> f68_rest;
  constexpr friend auto BestReflect(auto& m, S42*) { return m.infer()
    .with(&S42::f43_fawn_grey, cli::flag{.name = "fawn-grey", .arg = "ARG44", .help = "ünï help 45"})
    .with(&S42::bravo, cli::flag{.letter = U'n', .help = "helps with 47"}, cli::alias{"yankee", cli::Delete})
    .with(&S42::navy_3, cli::flag{.vis = cli::Hidden, .count = cli::Repeated, .help = "helps with 49"})
    .with(&S42::f60_khaki_2, cli::group{.name = "khaki-2", .help = "helps 61a\n61b\n61c, the last"})
    .with(&S42::f62_sierra, cli::flag{.name = "sierra", .vis = cli::Hidden, .arg = "ARG63", .count = cli::Optional, .help = "helps with 64"}, cli::alias{"amber", cli::Hidden})
    .with(&S42::f65_pos, cli::positional{.count = cli::Optional, .help = "helps with 67"})
    .with(&S42::f68_rest, cli::positional{.name = "POS69"});
  }
};
inline void dump(Map& m, const std::string& p, const S42& v) { put(m, p + "f43_fawn_grey", v.f43_fawn_grey); put(m, p + "bravo", v.bravo); put(m, p + "navy_3", v.navy_3); dump(m, p + "f60_khaki_2.", v.f60_khaki_2); put(m, p + "f62_sierra", v.f62_sierra); put(m, p + "f65_pos", v.f65_pos); put(m, p + "f68_rest", v.f68_rest); }
inline Node* node_S42() { auto n = new Node; n->flags.push_back({"f43_fawn_grey", K_opt_rune, "fawn-grey", U'\0', VPublic, {}, -1, "ARG44", "ünï help 45"});
  n->flags.push_back({"bravo", K_opt_rune, "bravo", U'n', VPublic, {{"yankee", VDelete}}, -1, "", "helps with 47"});
  n->flags.push_back({"navy_3", K_bool, "navy-3", U'\0', VHidden, {}, 2, "", "helps with 49"});
  n->groups.push_back({"f60_khaki_2", "khaki-2", U'\0', VPublic, {}, "helps 61a\n61b\n61c, the last", node_G50()});
  n->flags.push_back({"f62_sierra", K_opt_rune, "sierra", U'\0', VHidden, {{"amber", VHidden}}, 0, "ARG63", "helps with 64"});
  n->poss.push_back({"f65_pos", K_rune, "", 0, "helps with 67"});
  n->poss.push_back({"f68_rest", K_vec_bool, "POS69", -1, ""});
  return n; }
struct R0 {
  best::rune oscar; best::vec<best::strbuf> f3__lan_x; Quiet f6_khaki_2; best::option<bool> f9_victor_y; G12 f23_indigo; best::strbuf f25_cargo_lock; G28 f40_na_ve; S42 navy_3; best::vec<best::str> f72_rest;
  constexpr friend auto BestReflect(auto& m, R0*) { return m.infer()
    .with(&R0::oscar, cli::flag{.help = "helps 2a\nand 2b"}, cli::alias{"copper", cli::Invisible})
    .with(&R0::f3__lan_x, cli::flag{.name = "élan-x", .letter = U'f', .vis = cli::Invisible, .count = cli::Optional, .help = "helps with 5"}, cli::alias{"xray", cli::Public})
    .with(&R0::f6_khaki_2, cli::flag{.name = "khaki-2", .letter = U'a', .count = cli::Optional, .help = "helps with 8"}, cli::alias{"romeo", cli::Hidden})
    .with(&R0::f9_victor_y, cli::flag{.name = "victor_y", .arg = "ARG10", .count = cli::Optional, .help = "helps with 11"})
    .with(&R0::f23_indigo, cli::group{.name = "indigo", .letter = U'X', .vis = cli::Delete, .help = "helps with 24"})
    .with(&R0::f25_cargo_lock, cli::flag{.name = "cargo-lock", .arg = "ARG26", .help = "helps with 27"})
    .with(&R0::f40_na_ve, cli::group{.name = "naïve", .help = "ünï help 41"})
    .with(&R0::navy_3, cli::subcommand{.help = "helps with 70"})
    .with(&R0::f72_rest, cli::positional{.name = "POS73"});
  }
};
inline void dump(Map& m, const std::string& p, const R0& v) { put(m, p + "oscar", v.oscar); put(m, p + "f3__lan_x", v.f3__lan_x); put(m, p + "f6_khaki_2", v.f6_khaki_2); put(m, p + "f9_victor_y", v.f9_victor_y); dump(m, p + "f23_indigo.", v.f23_indigo); put(m, p + "f25_cargo_lock", v.f25_cargo_lock); dump(m, p + "f40_na_ve.", v.f40_na_ve); dump(m, p + "navy_3.", v.navy_3); put(m, p + "f72_rest", v.f72_rest); }
inline Node* node_R0() { auto n = new Node; n->flags.push_back({"oscar", K_rune, "oscar", U'\0', VPublic, {{"copper", VInvisible}}, -1, "", "helps 2a\nand 2b"});
  n->flags.push_back({"f3__lan_x", K_vec_buf, "élan-x", U'f', VInvisible, {{"xray", VPublic}}, 0, "", "helps with 5"});
  n->flags.push_back({"f6_khaki_2", K_quiet, "khaki-2", U'a', VPublic, {{"romeo", VHidden}}, 0, "", "helps with 8"});
  n->flags.push_back({"f9_victor_y", K_opt_bool, "victor_y", U'\0', VPublic, {}, 0, "ARG10", "helps with 11"});
  n->groups.push_back({"f23_indigo", "indigo", U'X', VDelete, {}, "helps with 24", node_G12()});
  n->flags.push_back({"f25_cargo_lock", K_strbuf, "cargo-lock", U'\0', VPublic, {}, -1, "ARG26", "helps with 27"});
  n->groups.push_back({"f40_na_ve", "naïve", U'\0', VPublic, {}, "ünï help 41", node_G28()});
  n->subs.push_back({"navy_3", "navy-3", VPublic, {}, "helps with 70", "", node_S42()});
  n->poss.push_back({"f72_rest", K_vec_str, "POS73", -1, ""});
  return n; }
DEFINITION(R0)
struct G80 {
  best::vec<bool> f81_indigo; best::strbuf f83_ebony;
  constexpr friend auto BestReflect(auto& m, G80*) { return m.infer()
    .with(&G80::f81_indigo, cli::flag{.name = "indigo", .letter = U'k'}, cli::alias{"maroon"})
    .with(&G80::f83_ebony, cli::flag{.name = "ebony", .letter = U'j', .arg = "ARG84", .help = "helps with 85"});
  }
};
inline void dump(Map& m, const std::string& p, const G80& v) { put(m, p + "f81_indigo", v.f81_indigo); put(m, p + "f83_ebony", v.f83_ebony); }
inline Node* node_G80() { auto n = new Node; n->flags.push_back({"f81_indigo", K_vec_bool, "indigo", U'k', VPublic, {{"maroon", VPublic}}, -1, "", ""});
  n->flags.push_back({"f83_ebony", K_strbuf, "ebony", U'j', VPublic, {}, -1, "ARG84", "helps with 85"});
  return n; }
struct G79 {
  G80 f86_echo; int f88_delta_t = 0; best::vec<bool> sierra; best::rune teal; Celsius navy_3;
  constexpr friend auto BestReflect(auto& m, G79*) { return m.infer()
    .with(&G79::f86_echo, cli::group{.name = "echo", .letter = U'C', .vis = cli::Hidden, .help = "ünï help 87"})
    .with(&G79::f88_delta_t, cli::flag{.name = "delta_t", .arg = "ARG89", .help = "ünï help 90"}, cli::alias{"november_x"})
    .with(&G79::sierra, cli::flag{.count = cli::Optional, .help = "helps 92a\nand 92b"})
    .with(&G79::teal, cli::flag{.letter = U'r', .vis = cli::Hidden, .help = "helps with 94"})
    .with(&G79::navy_3, cli::flag{.letter = U'd', .help = "helps 96a\n96b\n96c, the last"}, cli::alias{"quebec-city", cli::Hidden});
  }
};
inline void dump(Map& m, const std::string& p, const G79& v) { dump(m, p + "f86_echo.", v.f86_echo); put(m, p + "f88_delta_t", v.f88_delta_t); put(m, p + "sierra", v.sierra); put(m, p + "teal", v.teal); put(m, p + "navy_3", v.navy_3); }
inline Node* node_G79() { auto n = new Node; n->groups.push_back({"f86_echo", "echo", U'C', VHidden, {}, "ünï help 87", node_G80()});
  n->flags.push_back({"f88_delta_t", K_int, "delta_t", U'\0', VPublic, {{"november_x", VPublic}}, -1, "ARG89", "ünï help 90"});
  n->flags.push_back({"sierra", K_vec_bool, "sierra", U'\0', VPublic, {}, 0, "", "helps 92a\nand 92b"});
  n->flags.push_back({"teal", K_rune, "teal", U'r', VHidden, {}, -1, "", "helps with 94"});
  n->flags.push_back({"navy_3", K_custom, "navy-3", U'd', VPublic, {{"quebec-city", VHidden}}, -1, "", "helps 96a\n96b\n96c, the last"});
  return n; }
struct G102 {
  best::option<best::rune> lemon; best::strbuf f105_romeo;
  constexpr friend auto BestReflect(auto& m, G102*) { return m.infer()
    .with(&G102::lemon, cli::flag{.letter = U'i', .help = "helps with 104"}, cli::alias{"white_noise", cli::Public})
    .with(&G102::f105_romeo, cli::flag{.name = "romeo", .letter = U'e', .count = cli::Repeated, .help = "helps with 107"}, cli::alias{"hazel"}, cli::alias{"quebec-city", cli::Invisible});
  }
};
inline void dump(Map& m, const std::string& p, const G102& v) { put(m, p + "lemon", v.lemon); put(m, p + "f105_romeo", v.f105_romeo); }
inline Node* node_G102() { auto n = new Node; n->flags.push_back({"lemon", K_opt_rune, "lemon", U'i', VPublic, {{"white_noise", VPublic}}, -1, "", "helps with 104"});
  n->flags.push_back({"f105_romeo", K_strbuf, "romeo", U'e', VPublic, {{"hazel", VPublic}, {"quebec-city", VInvisible}}, 2, "", "helps with 107"});
  return n; }
struct G98 {
  best::option<bool> f99_foxtrot; G102 f108_pink_4;
  constexpr friend auto BestReflect(auto& m, G98*) { return m.infer()
    .with(&G98::f99_foxtrot, cli::flag{.name = "foxtrot", .letter = U'z', .arg = "ARG100", .count = cli::Optional, .help = "helps with 101"}, cli::alias{"november_x"})
    .with(&G98::f108_pink_4, cli::group{.help = "ünï help 109"});
  }
};
inline void dump(Map& m, const std::string& p, const G98& v) { put(m, p + "f99_foxtrot", v.f99_foxtrot); dump(m, p + "f108_pink_4.", v.f108_pink_4); }
inline Node* node_G98() { auto n = new Node; n->flags.push_back({"f99_foxtrot", K_opt_bool, "foxtrot", U'z', VPublic, {{"november_x", VPublic}}, 0, "ARG100", "helps with 101"});
  n->groups.push_back({"f108_pink_4", "", U'\0', VPublic, {}, "ünï help 109", node_G102()});
  return n; }
struct G115 {
  best::option<bool> hazel; best::vec<bool> india; best::option<bool> jade_green;
  constexpr friend auto BestReflect(auto& m, G115*) { return m.infer()
    .with(&G115::hazel, cli::flag{.count = cli::Repeated, .help = "ünï help 117"})
    .with(&G115::india, cli::flag{.help = "helps with 119"})
    .with(&G115::jade_green, cli::flag{.help = "helps with 121"}, cli::alias{"red", cli::Hidden}, cli::alias{"mike", cli::Public});
  }
};
inline void dump(Map& m, const std::string& p, const G115& v) { put(m, p + "hazel", v.hazel); put(m, p + "india", v.india); put(m, p + "jade_green", v.jade_green); }
inline Node* node_G115() { auto n = new Node; n->flags.push_back({"hazel", K_opt_bool, "hazel", U'\0', VPublic, {}, 2, "", "ünï help 117"});
  n->flags.push_back({"india", K_vec_bool, "india", U'\0', VPublic, {}, -1, "", "helps with 119"});
  n->flags.push_back({"jade_green", K_opt_bool, "jade_green", U'\0', VPublic, {{"red", VHidden}, {"mike", VPublic}}, -1, "", "helps with 121"});
  return n; }
struct S114 {
  G115 f122_echo; uint8_t uniform = 0; best::vec<bool> f125_india; int f127_pos = 0; best::vec<int> f130_rest;
  constexpr friend auto BestReflect(auto& m, S114*) { return m.infer()
    .with(&S114::f122_echo, cli::group{.name = "echo", .letter = U'W', .help = "ünï help 123"})
    .with(&S114::uniform, cli::flag{.letter = U'w', .vis = cli::Delete, .arg = "ARG124", .count = cli::Repeated})
    .with(&S114::f125_india, cli::flag{.name = "india", .count = cli::Required}, cli::alias{"quebec-city"})
    .with(&S114::f127_pos, cli::positional{.help = "helps with 129"})
    .with(&S114::f130_rest, cli::positional{.name = "POS131"});
  }
};
inline void dump(Map& m, const std::string& p, const S114& v) { dump(m, p + "f122_echo.", v.f122_echo); put(m, p + "uniform", v.uniform); put(m, p + "f125_india", v.f125_india); put(m, p + "f127_pos", v.f127_pos); put(m, p + "f130_rest", v.f130_rest); }
inline Node* node_S114() { auto n = new Node; n->groups.push_back({"f122_echo", "echo", U'W', VPublic, {}, "ünï help 123", node_G115()});
  n->flags.push_back({"uniform", K_u8, "uniform", U'w', VDelete, {}, 2, "ARG124", ""});
  n->flags.push_back({"f125_india", K_vec_bool, "india", U'\0', VPublic, {{"quebec-city", VPublic}}, 1, "", ""});
  n->poss.push_back({"f127_pos", K_int, "", -1, "helps with 129"});
  n->poss.push_back({"f130_rest", K_vec_int, "POS131", -1, ""});
  return n; }
struct S74 {
  uint8_t golf_ball = 0; best::str violet; G79 f97_victor_y; G98 f110_juliet; best::vec<bool> f111_red; S114 f132_cargo_lock; best::option<best::rune> f135_pos; uint8_t f138_pos = 0;
  constexpr friend auto BestReflect(auto& m, S74*) { return m.infer()
    .with(&S74::golf_ball, cli::flag{.letter = U'o', .count = cli::Repeated, .help = "helps 76a\n76b\n76c, the last"}, cli::alias{"bravo", cli::Delete})
    .with(&S74::violet, cli::flag{.letter = U'j', .vis = cli::Invisible, .help = "helps 78a\n78b\n78c, the last"})
    .with(&S74::f97_victor_y, cli::group{.name = "victor_y", .letter = U'W', .vis = cli::Invisible})
    .with(&S74::f110_juliet, cli::group{})
    .with(&S74::f111_red, cli::flag{.name = "red", .letter = U'v', .count = cli::Optional, .help = "helps with 113"})
    .with(&S74::f132_cargo_lock, cli::subcommand{.name = "cargo-lock", .help = "ünï help 133"})
    .with(&S74::f135_pos, cli::positional{.name = "POS136", .count = cli::Optional, .help = "helps 137a\nand 137b"})
    .with(&S74::f138_pos, cli::positional{.name = "POS139", .help = "ünï help 140"});
  }
};
inline void dump(Map& m, const std::string& p, const S74& v) { put(m, p + "golf_ball", v.golf_ball); put(m, p + "violet", v.violet); dump(m, p + "f97_victor_y.", v.f97_victor_y); dump(m, p + "f110_juliet.", v.f110_juliet); put(m, p + "f111_red", v.f111_red); dump(m, p + "f132_cargo_lock.", v.f132_cargo_lock); put(m, p + "f135_pos", v.f135_pos); put(m, p + "f138_pos", v.f138_pos); }
inline Node* node_S74() { auto n = new Node; n->flags.push_back({"golf_ball", K_u8, "golf-ball", U'o', VPublic, {{"bravo", VDelete}}, 2, "", "helps 76a\n76b\n76c, the last"});
  n->flags.push_back({"violet", K_str, "violet", U'j', VInvisible, {}, -1, "", "helps 78a\n78b\n78c, the last"});
  n->groups.push_back({"f97_victor_y", "victor_y", U'W', VInvisible, {}, "", node_G79()});
  n->groups.push_back({"f110_juliet", "", U'\0', VPublic, {}, "", node_G98()});
  n->flags.push_back({"f111_red", K_vec_bool, "red", U'v', VPublic, {}, 0, "", "helps with 113"});
  n->subs.push_back({"f132_cargo_lock", "cargo-lock", VPublic, {}, "ünï help 133", "", node_S114()});
  n->poss.push_back({"f135_pos", K_opt_rune, "POS136", 0, "helps 137a\nand 137b"});
  n->poss.push_back({"f138_pos", K_u8, "POS139", -1, "ünï help 140"});
  return n; }
struct G148 {
  Quiet f149_november_x; int gold = 0;
  constexpr friend auto BestReflect(auto& m, G148*) { return m.infer()
    .with(&G148::f149_november_x, cli::flag{.name = "november_x", .letter = U'j', .help = "helps 151a\nand 151b"})
    .with(&G148::gold, cli::flag{.vis = cli::Hidden, .arg = "ARG152", .count = cli::Repeated, .help = "helps with 153"}, cli::alias{"umber", cli::Public});
  }
};
inline void dump(Map& m, const std::string& p, const G148& v) { put(m, p + "f149_november_x", v.f149_november_x); put(m, p + "gold", v.gold); }
inline Node* node_G148() { auto n = new Node; n->flags.push_back({"f149_november_x", K_quiet, "november_x", U'j', VPublic, {}, -1, "", "helps 151a\nand 151b"});
  n->flags.push_back({"gold", K_int, "gold", U'\0', VHidden, {{"umber", VPublic}}, 2, "ARG152", "helps with 153"});
  return n; }
struct S156 {
  best::vec<int> f157_lemon; best::vec<best::strbuf> f160_rest;
  constexpr friend auto BestReflect(auto& m, S156*) { return m.infer()
    .with(&S156::f157_lemon, cli::flag{.name = "lemon", .letter = U'b', .arg = "ARG158", .help = "ünï help 159"}, cli::alias{"november_x", cli::Public})
    .with(&S156::f160_rest, cli::positional{.name = "POS161"});
  }
};
inline void dump(Map& m, const std::string& p, const S156& v) { put(m, p + "f157_lemon", v.f157_lemon); put(m, p + "f160_rest", v.f160_rest); }
inline Node* node_S156() { auto n = new Node; n->flags.push_back({"f157_lemon", K_vec_int, "lemon", U'b', VPublic, {{"november_x", VPublic}}, -1, "ARG158", "ünï help 159"});
  n->poss.push_back({"f160_rest", K_vec_buf, "POS161", -1, ""});
  return n; }
struct S169 {
  bool whiskey = false; best::option<best::rune> f171_pos; Celsius f174_pos; best::vec<int> f177_rest;
  constexpr friend auto BestReflect(auto& m, S169*) { return m.infer()
    .with(&S169::whiskey, cli::flag{.count = cli::Repeated}, cli::alias{"quebec-city"})
    .with(&S169::f171_pos, cli::positional{.help = "helps 173a\n173b\n173c, the last"})
    .with(&S169::f174_pos, cli::positional{.name = "POS175", .help = "helps with 176"})
    .with(&S169::f177_rest, cli::positional{.name = "POS178"});
  }
};
inline void dump(Map& m, const std::string& p, const S169& v) { put(m, p + "whiskey", v.whiskey); put(m, p + "f171_pos", v.f171_pos); put(m, p + "f174_pos", v.f174_pos); put(m, p + "f177_rest", v.f177_rest); }
inline Node* node_S169() { auto n = new Node; n->flags.push_back({"whiskey", K_bool, "whiskey", U'\0', VPublic, {{"quebec-city", VPublic}}, 2, "", ""});
  n->poss.push_back({"f171_pos", K_opt_rune, "", -1, "helps 173a\n173b\n173c, the last"});
  n->poss.push_back({"f174_pos", K_custom, "POS175", -1, "helps with 176"});
  n->poss.push_back({"f177_rest", K_vec_int, "POS178", -1, ""});
  return n; }
struct G166 {
  Celsius white_noise; S169 f179_lemon; best::option<best::rune> dun; best::str khaki_2; best::rune f186_xray;
  constexpr friend auto BestReflect(auto& m, G166*) { return m.infer()
    .with(&G166::white_noise, cli::flag{.count = cli::Repeated, .help = "helps 168a\n168b\n168c, the last"})
    .with(&G166::f179_lemon, cli::subcommand{.name = "lemon", .help = "helps with 180"})
    .with(&G166::dun, cli::flag{.letter = U't', .arg = "ARG182", .count = cli::Required, .help = "helps with 183"}, cli::alias{"kilo-watt", cli::Public})
    .with(&G166::khaki_2, cli::flag{.vis = cli::Hidden, .count = cli::Repeated, .help = "helps 185a\n185b\n185c, the last"}, cli::alias{"maroon", cli::Public})
    .with(&G166::f186_xray, cli::flag{.name = "xray", .letter = U'i', .vis = cli::Hidden, .help = "helps with 188"});
  }
};
inline void dump(Map& m, const std::string& p, const G166& v) { put(m, p + "white_noise", v.white_noise); dump(m, p + "f179_lemon.", v.f179_lemon); put(m, p + "dun", v.dun); put(m, p + "khaki_2", v.khaki_2); put(m, p + "f186_xray", v.f186_xray); }
inline Node* node_G166() { auto n = new Node; n->flags.push_back({"white_noise", K_custom, "white_noise", U'\0', VPublic, {}, 2, "", "helps 168a\n168b\n168c, the last"});
  n->subs.push_back({"f179_lemon", "lemon", VPublic, {}, "helps with 180", "", node_S169()});
  n->flags.push_back({"dun", K_opt_rune, "dun", U't', VPublic, {{"kilo-watt", VPublic}}, 1, "ARG182", "helps with 183"});
  n->flags.push_back({"khaki_2", K_str, "khaki-2", U'\0', VHidden, {{"maroon", VPublic}}, 2, "", "helps 185a\n185b\n185c, the last"});
  n->flags.push_back({"f186_xray", K_rune, "xray", U'i', VHidden, {}, -1, "", "helps with 188"});
  return n; }
struct S147 {
  G148 f154_india; S156 zulu; int f163_gold = 0; G166 f189__ber; best::vec<best::str> f191_teal; Celsius juliet; Quiet f195_pos; best::vec<best::strbuf> f198_rest;
  constexpr friend auto BestReflect(auto& m, S147*) { return m.infer()
    .with(&S147::f154_india, cli::group{.name = "india", .help = "ünï help 155"}, cli::alias{"tango", cli::Invisible})
    .with(&S147::zulu, cli::subcommand{.vis = cli::Hidden, .about = "about 162\nmore"})
    .with(&S147::f163_gold, cli::flag{.name = "gold", .letter = U'k', .count = cli::Optional, .help = "helps with 165"}, cli::alias{"indigo", cli::Hidden}, cli::alias{"umber", cli::Delete})
    .with(&S147::f189__ber, cli::group{.help = "helps with 190"})
    .with(&S147::f191_teal, cli::flag{.name = "teal", .letter = U'a', .vis = cli::Invisible, .help = "helps with 193"})
    .with(&S147::juliet, cli::flag{.letter = U'c', .arg = "ARG194", .count = cli::Optional}, cli::alias{"november_x", cli::Delete}, cli::alias{"sierra"})
    .with(&S147::f195_pos, cli::positional{.help = "helps with 197"});
  }
};
inline void dump(Map& m, const std::string& p, const S147& v) { dump(m, p + "f154_india.", v.f154_india); dump(m, p + "zulu.", v.zulu); put(m, p + "f163_gold", v.f163_gold); dump(m, p + "f189__ber.", v.f189__ber); put(m, p + "f191_teal", v.f191_teal); put(m, p + "juliet", v.juliet); put(m, p + "f195_pos", v.f195_pos); put(m, p + "f198_rest", v.f198_rest); }
inline Node* node_S147() { auto n = new Node; n->groups.push_back({"f154_india", "india", U'\0', VPublic, {{"tango", VInvisible}}, "ünï help 155", node_G148()});
  n->subs.push_back({"zulu", "zulu", VHidden, {}, "", "about 162\nmore", node_S156()});
  n->flags.push_back({"f163_gold", K_int, "gold", U'k', VPublic, {{"indigo", VHidden}, {"umber", VDelete}}, 0, "", "helps with 165"});
  n->groups.push_back({"f189__ber", "", U'\0', VPublic, {}, "helps with 190", node_G166()});
  n->flags.push_back({"f191_teal", K_vec_str, "teal", U'a', VInvisible, {}, -1, "", "helps with 193"});
  n->flags.push_back({"juliet", K_custom, "juliet", U'c', VPublic, {{"november_x", VDelete}, {"sierra", VPublic}}, 0, "ARG194", ""});
  n->poss.push_back({"f195_pos", K_quiet, "", -1, "helps with 197"});
  n->poss.push_back({"f198_rest", K_vec_buf, "", -1, ""});
  return n; }
struct G216 {
  best::option<best::rune> f217_alpha;
  constexpr friend auto BestReflect(auto& m, G216*) { return m.infer()
    .with(&G216::f217_alpha, cli::flag{.name = "alpha", .arg = "ARG218", .count = cli::Required, .help = "helps with 219"});
  }
};
inline void dump(Map& m, const std::string& p, const G216& v) { put(m, p + "f217_alpha", v.f217_alpha); }
inline Node* node_G216() { auto n = new Node; n->flags.push_back({"f217_alpha", K_opt_rune, "alpha", U'\0', VPublic, {}, 1, "ARG218", "helps with 219"});
  return n; }
struct S208 {
  best::option<int> f209_red; best::vec<int> papa; Quiet umber; G216 f220__ber; best::rune olive;
  constexpr friend auto BestReflect(auto& m, S208*) { return m.infer()
    .with(&S208::f209_red, cli::flag{.name = "red", .letter = U'7', .arg = "ARG210", .help = "helps with 211"})
    .with(&S208::papa, cli::flag{.count = cli::Repeated, .help = "helps with 213"}, cli::alias{"foxtrot", cli::Public}, cli::alias{"gold"})
    .with(&S208::umber, cli::flag{.letter = U'n', .help = "helps 215a\nand 215b"})
    .with(&S208::f220__ber, cli::group{.name = "über", .help = "helps 221a\nand 221b"})
    .with(&S208::olive, cli::flag{.count = cli::Repeated, .help = "helps with 223"}, cli::alias{"echo", cli::Hidden});
  }
};
inline void dump(Map& m, const std::string& p, const S208& v) { put(m, p + "f209_red", v.f209_red); put(m, p + "papa", v.papa); put(m, p + "umber", v.umber); dump(m, p + "f220__ber.", v.f220__ber); put(m, p + "olive", v.olive); }
inline Node* node_S208() { auto n = new Node; n->flags.push_back({"f209_red", K_opt_int, "red", U'7', VPublic, {}, -1, "ARG210", "helps with 211"});
  n->flags.push_back({"papa", K_vec_int, "papa", U'\0', VPublic, {{"foxtrot", VPublic}, {"gold", VPublic}}, 2, "", "helps with 213"});
  n->flags.push_back({"umber", K_quiet, "umber", U'n', VPublic, {}, -1, "", "helps 215a\nand 215b"});
  n->groups.push_back({"f220__ber", "über", U'\0', VPublic, {}, "helps 221a\nand 221b", node_G216()});
  n->flags.push_back({"olive", K_rune, "olive", U'\0', VPublic, {{"echo", VHidden}}, 2, "", "helps with 223"});
  return n; }
struct G207 {
  S208 f224_uniform; best::vec<best::strbuf> echo;
  constexpr friend auto BestReflect(auto& m, G207*) { return m.infer()
    .with(&G207::f224_uniform, cli::subcommand{.name = "uniform", .vis = cli::Hidden, .help = "helps with 225", .about = "about 226\nmore"}, cli::alias{"olive", cli::Hidden})
    .with(&G207::echo, cli::flag{.arg = "ARG227", .help = "ünï help 228"});
  }
};
inline void dump(Map& m, const std::string& p, const G207& v) { dump(m, p + "f224_uniform.", v.f224_uniform); put(m, p + "echo", v.echo); }
inline Node* node_G207() { auto n = new Node; n->subs.push_back({"f224_uniform", "uniform", VHidden, {{"olive", VHidden}}, "helps with 225", "about 226\nmore", node_S208()});
  n->flags.push_back({"echo", K_vec_buf, "echo", U'\0', VPublic, {}, -1, "ARG227", "ünï help 228"});
  return n; }
struct R1 {
  S74 delta_t; Quiet blue_sky; best::option<int> f144_tango; S147 november_x; best::option<int> f202_ebony; best::vec<best::strbuf> f205_hotel_id; G207 f229_fawn_grey;
  constexpr friend auto BestReflect(auto& m, R1*) { return m.infer()
    .with(&R1::delta_t, cli::subcommand{})
    .with(&R1::blue_sky, cli::flag{.letter = U'e', .help = "helps with 143"}, cli::alias{"cargo-lock"})
    .with(&R1::f144_tango, cli::flag{.name = "tango", .count = cli::Required, .help = "helps with 146"}, cli::alias{"india"}, cli::alias{"dun"})
    .with(&R1::november_x, cli::subcommand{.vis = cli::Invisible, .help = "helps with 200", .about = "about 201\nmore"})
    .with(&R1::f202_ebony, cli::flag{.name = "ebony", .arg = "ARG203", .help = "helps 204a\nand 204b"}, cli::alias{"golf-ball", cli::Delete}, cli::alias{"navy-3", cli::Hidden})
    .with(&R1::f205_hotel_id, cli::flag{.name = "hotel_id", .letter = U't'}, cli::alias{"white_noise", cli::Hidden}, cli::alias{"über", cli::Public})
    .with(&R1::f229_fawn_grey, cli::group{.vis = cli::Hidden, .help = "helps with 230"});
  }
};
inline void dump(Map& m, const std::string& p, const R1& v) { dump(m, p + "delta_t.", v.delta_t); put(m, p + "blue_sky", v.blue_sky); put(m, p + "f144_tango", v.f144_tango); dump(m, p + "november_x.", v.november_x); put(m, p + "f202_ebony", v.f202_ebony); put(m, p + "f205_hotel_id", v.f205_hotel_id); dump(m, p + "f229_fawn_grey.", v.f229_fawn_grey); }
inline Node* node_R1() { auto n = new Node; n->subs.push_back({"delta_t", "delta_t", VPublic, {}, "", "", node_S74()});
  n->flags.push_back({"blue_sky", K_quiet, "blue_sky", U'e', VPublic, {{"cargo-lock", VPublic}}, -1, "", "helps with 143"});
  n->flags.push_back({"f144_tango", K_opt_int, "tango", U'\0', VPublic, {{"india", VPublic}, {"dun", VPublic}}, 1, "", "helps with 146"});
  n->subs.push_back({"november_x", "november_x", VInvisible, {}, "helps with 200", "about 201\nmore", node_S147()});
  n->flags.push_back({"f202_ebony", K_opt_int, "ebony", U'\0', VPublic, {{"golf-ball", VDelete}, {"navy-3", VHidden}}, -1, "ARG203", "helps 204a\nand 204b"});
  n->flags.push_back({"f205_hotel_id", K_vec_buf, "hotel_id", U't', VPublic, {{"white_noise", VHidden}, {"über", VPublic}}, -1, "", ""});
  n->groups.push_back({"f229_fawn_grey", "", U'\0', VHidden, {}, "helps with 230", node_G207()});
  return n; }
DEFINITION(R1)
#endif
#ifdef PART_B
struct S235 {
  best::vec<int> f236_india; Quiet f239_red; best::option<int> f242_na_ve; bool f245_delta_t = false;
  constexpr friend auto BestReflect(auto& m, S235*) { return m.infer()
    .with(&S235::f236_india, cli::flag{.name = "india", .vis = cli::Hidden, .arg = "ARG237", .help = "helps with 238"})
    .with(&S235::f239_red, cli::flag{.name = "red", .vis = cli::Delete, .arg = "ARG240", .count = cli::Required, .help = "helps with 241"})
    .with(&S235::f242_na_ve, cli::flag{.name = "naïve", .letter = U'm', .vis = cli::Hidden, .help = "helps with 244"})
    .with(&S235::f245_delta_t, cli::flag{.name = "delta_t", .letter = U'y', .count = cli::Optional, .help = "helps 247a\nand 247b"});
  }
};
inline void dump(Map& m, const std::string& p, const S235& v) { put(m, p + "f236_india", v.f236_india); put(m, p + "f239_red", v.f239_red); put(m, p + "f242_na_ve", v.f242_na_ve); put(m, p + "f245_delta_t", v.f245_delta_t); }
inline Node* node_S235() { auto n = new Node; n->flags.push_back({"f236_india", K_vec_int, "india", U'\0', VHidden, {}, -1, "ARG237", "helps with 238"});
  n->flags.push_back({"f239_red", K_quiet, "red", U'\0', VDelete, {}, 1, "ARG240", "helps with 241"});
  n->flags.push_back({"f242_na_ve", K_opt_int, "naïve", U'm', VHidden, {}, -1, "", "helps with 244"});
  n->flags.push_back({"f245_delta_t", K_bool, "delta_t", U'y', VPublic, {}, 0, "", "helps 247a\nand 247b"});
  return n; }
struct G254 {
  best::vec<best::strbuf> foxtrot; bool f257_copper = false; Celsius f260_na_ve;
  constexpr friend auto BestReflect(auto& m, G254*) { return m.infer()
    .with(&G254::foxtrot, cli::flag{.help = "helps 256a\n256b\n256c, the last"})
    .with(&G254::f257_copper, cli::flag{.name = "copper", .letter = U'y', .count = cli::Repeated, .help = "helps with 259"})
    .with(&G254::f260_na_ve, cli::flag{.name = "naïve", .letter = U'λ', .count = cli::Repeated, .help = "helps with 262"});
  }
};
inline void dump(Map& m, const std::string& p, const G254& v) { put(m, p + "foxtrot", v.foxtrot); put(m, p + "f257_copper", v.f257_copper); put(m, p + "f260_na_ve", v.f260_na_ve); }
inline Node* node_G254() { auto n = new Node; n->flags.push_back({"foxtrot", K_vec_buf, "foxtrot", U'\0', VPublic, {}, -1, "", "helps 256a\n256b\n256c, the last"});
  n->flags.push_back({"f257_copper", K_bool, "copper", U'y', VPublic, {}, 2, "", "helps with 259"});
  n->flags.push_back({"f260_na_ve", K_custom, "naïve", U'λ', VPublic, {}, 2, "", "helps with 262"});
  return n; }
struct S234 {
  S235 f248_papa; int f251_gold = 0; G254 f263_yankee; best::vec<best::str> f264_xray; int64_t f267_pos = 0; int64_t f270_pos = 0; best::vec<bool> f272_rest;
  constexpr friend auto BestReflect(auto& m, S234*) { return m.infer()
    .with(&S234::f248_papa, cli::subcommand{.name = "papa", .help = "helps with 249", .about = "about 250\nmore"}, cli::alias{"india", cli::Delete})
    .with(&S234::f251_gold, cli::flag{.name = "gold", .letter = U'c', .arg = "ARG252", .count = cli::Optional, .help = "helps with 253"})
    .with(&S234::f263_yankee, cli::group{.letter = U'C'})
    .with(&S234::f264_xray, cli::flag{.name = "xray", .vis = cli::Delete, .count = cli::Repeated, .help = "helps with 266"})
    .with(&S234::f267_pos, cli::positional{.help = "helps with 269"})
    .with(&S234::f270_pos, cli::positional{.name = "POS271", .count = cli::Optional})
    .with(&S234::f272_rest, cli::positional{.name = "POS273"});
  }
};
inline void dump(Map& m, const std::string& p, const S234& v) { dump(m, p + "f248_papa.", v.f248_papa); put(m, p + "f251_gold", v.f251_gold); dump(m, p + "f263_yankee.", v.f263_yankee); put(m, p + "f264_xray", v.f264_xray); put(m, p + "f267_pos", v.f267_pos); put(m, p + "f270_pos", v.f270_pos); put(m, p + "f272_rest", v.f272_rest); }
inline Node* node_S234() { auto n = new Node; n->subs.push_back({"f248_papa", "papa", VPublic, {{"india", VDelete}}, "helps with 249", "about 250\nmore", node_S235()});
  n->flags.push_back({"f251_gold", K_int, "gold", U'c', VPublic, {}, 0, "ARG252", "helps with 253"});
  n->groups.push_back({"f263_yankee", "", U'C', VPublic, {}, "", node_G254()});
  n->flags.push_back({"f264_xray", K_vec_str, "xray", U'\0', VDelete, {}, 2, "", "helps with 266"});
  n->poss.push_back({"f267_pos", K_i64, "", -1, "helps with 269"});
  n->poss.push_back({"f270_pos", K_i64, "POS271", 0, ""});
  n->poss.push_back({"f272_rest", K_vec_bool, "POS273", -1, ""});
  return n; }
struct G288 {
  best::strbuf echo; int64_t f291_maroon = 0; best::rune oscar;
  constexpr friend auto BestReflect(auto& m, G288*) { return m.infer()
    .with(&G288::echo, cli::flag{.arg = "ARG289", .count = cli::Repeated, .help = "helps with 290"})
    .with(&G288::f291_maroon, cli::flag{.name = "maroon", .letter = U'y', .count = cli::Optional, .help = "helps with 293"}, cli::alias{"indigo", cli::Hidden})
    .with(&G288::oscar, cli::flag{.vis = cli::Invisible, .count = cli::Optional, .help = "ünï help 295"});
  }
};
inline void dump(Map& m, const std::string& p, const G288& v) { put(m, p + "echo", v.echo); put(m, p + "f291_maroon", v.f291_maroon); put(m, p + "oscar", v.oscar); }
inline Node* node_G288() { auto n = new Node; n->flags.push_back({"echo", K_strbuf, "echo", U'\0', VPublic, {}, 2, "ARG289", "helps with 290"});
  n->flags.push_back({"f291_maroon", K_i64, "maroon", U'y', VPublic, {{"indigo", VHidden}}, 0, "", "helps with 293"});
  n->flags.push_back({"oscar", K_rune, "oscar", U'\0', VInvisible, {}, 0, "", "ünï help 295"});
  return n; }
struct G312 {
  best::option<bool> ebony; best::str f315_fawn_grey; best::vec<int> f318_uniform; best::vec<best::str> f321_jade_green;
  constexpr friend auto BestReflect(auto& m, G312*) { return m.infer()
    .with(&G312::ebony, cli::flag{.help = "helps with 314"}, cli::alias{"white_noise", cli::Public})
    .with(&G312::f315_fawn_grey, cli::flag{.name = "fawn-grey", .letter = U'🐈', .vis = cli::Hidden, .arg = "ARG316", .help = "helps with 317"}, cli::alias{"teal", cli::Hidden}, cli::alias{"delta_t", cli::Public})
    .with(&G312::f318_uniform, cli::flag{.name = "uniform", .letter = U'é', .arg = "ARG319", .count = cli::Repeated, .help = "helps 320a\nand 320b"})
    .with(&G312::f321_jade_green, cli::flag{.name = "jade_green", .letter = U'r', .count = cli::Repeated, .help = "helps 323a\nand 323b"});
  }
};
inline void dump(Map& m, const std::string& p, const G312& v) { put(m, p + "ebony", v.ebony); put(m, p + "f315_fawn_grey", v.f315_fawn_grey); put(m, p + "f318_uniform", v.f318_uniform); put(m, p + "f321_jade_green", v.f321_jade_green); }
inline Node* node_G312() { auto n = new Node; n->flags.push_back({"ebony", K_opt_bool, "ebony", U'\0', VPublic, {{"white_noise", VPublic}}, -1, "", "helps with 314"});
  n->flags.push_back({"f315_fawn_grey", K_str, "fawn-grey", U'🐈', VHidden, {{"teal", VHidden}, {"delta_t", VPublic}}, -1, "ARG316", "helps with 317"});
  n->flags.push_back({"f318_uniform", K_vec_int, "uniform", U'é', VPublic, {}, 2, "ARG319", "helps 320a\nand 320b"});
  n->flags.push_back({"f321_jade_green", K_vec_str, "jade_green", U'r', VPublic, {}, 2, "", "helps 323a\nand 323b"});
  return n; }
struct G301 {
  int dun = 0; bool f304_navy_3 = false; best::vec<best::str> kilo_watt; best::rune f309_delta_t; G312 f324_alpha;
  constexpr friend auto BestReflect(auto& m, G301*) { return m.infer()
    .with(&G301::dun, cli::flag{.letter = U'v', .vis = cli::Hidden, .count = cli::Optional, .help = "helps with 303"}, cli::alias{"indigo", cli::Invisible})
    .with(&G301::f304_navy_3, cli::flag{.name = "navy-3", .letter = U'b', .help = "ünï help 306"}, cli::alias{"red"}, cli::alias{"foxtrot", cli::Delete})
    .with(&G301::kilo_watt, cli::flag{.letter = U'u', .vis = cli::Hidden, .arg = "ARG307", .count = cli::Required, .help = "helps with 308"}, cli::alias{"violet", cli::Hidden}, cli::alias{"bravo"})
    .with(&G301::f309_delta_t, cli::flag{.name = "delta_t", .letter = U'7', .vis = cli::Delete, .count = cli::Optional, .help = "helps with 311"})
    .with(&G301::f324_alpha, cli::group{.letter = U'Q', .help = "helps 325a\nand 325b"});
  }
};
inline void dump(Map& m, const std::string& p, const G301& v) { put(m, p + "dun", v.dun); put(m, p + "f304_navy_3", v.f304_navy_3); put(m, p + "kilo_watt", v.kilo_watt); put(m, p + "f309_delta_t", v.f309_delta_t); dump(m, p + "f324_alpha.", v.f324_alpha); }
inline Node* node_G301() { auto n = new Node; n->flags.push_back({"dun", K_int, "dun", U'v', VHidden, {{"indigo", VInvisible}}, 0, "", "helps with 303"});
  n->flags.push_back({"f304_navy_3", K_bool, "navy-3", U'b', VPublic, {{"red", VPublic}, {"foxtrot", VDelete}}, -1, "", "ünï help 306"});
  n->flags.push_back({"kilo_watt", K_vec_str, "kilo-watt", U'u', VHidden, {{"violet", VHidden}, {"bravo", VHidden}}, 1, "ARG307", "helps with 308"});
  n->flags.push_back({"f309_delta_t", K_rune, "delta_t", U'7', VDelete, {}, 0, "", "helps with 311"});
  n->groups.push_back({"f324_alpha", "", U'Q', VPublic, {}, "helps 325a\nand 325b", node_G312()});
  return n; }
struct G297 {
  best::option<bool> f298_maroon; G301 f326_lemon; Celsius kilo_watt;
  constexpr friend auto BestReflect(auto& m, G297*) { return m.infer()
    .with(&G297::f298_maroon, cli::flag{.name = "maroon", .letter = U'i', .help = "helps with 300"}, cli::alias{"foxtrot"})
    .with(&G297::f326_lemon, cli::group{.letter = U'W', .vis = cli::Hidden, .help = "helps 327a\n327b\n327c, the last"})
    .with(&G297::kilo_watt, cli::flag{.letter = U's', .help = "helps 329a\nand 329b"});
  }
};
inline void dump(Map& m, const std::string& p, const G297& v) { put(m, p + "f298_maroon", v.f298_maroon); dump(m, p + "f326_lemon.", v.f326_lemon); put(m, p + "kilo_watt", v.kilo_watt); }
inline Node* node_G297() { auto n = new Node; n->flags.push_back({"f298_maroon", K_opt_bool, "maroon", U'i', VPublic, {{"foxtrot", VPublic}}, -1, "", "helps with 300"});
  n->groups.push_back({"f326_lemon", "", U'W', VHidden, {}, "helps 327a\n327b\n327c, the last", node_G301()});
  n->flags.push_back({"kilo_watt", K_custom, "kilo-watt", U's', VPublic, {}, -1, "", "helps 329a\nand 329b"});
  return n; }
struct R2 {
  int f231_dun = 0; S234 f274__lan_x; best::vec<int> f277_quartz; int64_t bravo = 0; int silver_9 = 0; bool pink_4 = false; int64_t f285_hotel_id = 0; G288 f296_yankee; G297 f330_papa; int f332_pos = 0;
  constexpr friend auto BestReflect(auto& m, R2*) { return m.infer().with(cli::app{.name = "app335", .authors = "people 335", .about = "about app 335\nin lines", .version = "1.335", .url = "https://u335", .license = "LIC-335"})
    .with(&R2::f231_dun, cli::flag{.name = "dun", .letter = U'j', .help = "helps with 233"}, cli::alias{"über", cli::Invisible})
    .with(&R2::f274__lan_x, cli::subcommand{.name = "élan-x", .help = "helps with 275"})
    .with(&R2::f277_quartz, cli::flag{.name = "quartz", .arg = "ARG278", .count = cli::Required, .help = "helps with 279"}, cli::alias{"sierra"}, cli::alias{"white_noise", cli::Hidden})
    .with(&R2::bravo, cli::flag{.letter = U'y', .count = cli::Repeated, .help = "helps 281a\nand 281b"}, cli::alias{"khaki-2", cli::Public})
    .with(&R2::silver_9, cli::flag{}, cli::alias{"lima", cli::Invisible})
    .with(&R2::pink_4, cli::flag{.help = "helps with 284"})
    .with(&R2::f285_hotel_id, cli::flag{.name = "hotel_id", .letter = U'v', .vis = cli::Invisible, .count = cli::Optional, .help = "helps with 287"})
    .with(&R2::f296_yankee, cli::group{.name = "yankee", .vis = cli::Delete})
    .with(&R2::f330_papa, cli::group{.vis = cli::Hidden, .help = "helps 331a\nand 331b"})
    .with(&R2::f332_pos, cli::positional{.help = "helps with 334"});
  }
};
inline void dump(Map& m, const std::string& p, const R2& v) { put(m, p + "f231_dun", v.f231_dun); dump(m, p + "f274__lan_x.", v.f274__lan_x); put(m, p + "f277_quartz", v.f277_quartz); put(m, p + "bravo", v.bravo); put(m, p + "silver_9", v.silver_9); put(m, p + "pink_4", v.pink_4); put(m, p + "f285_hotel_id", v.f285_hotel_id); dump(m, p + "f296_yankee.", v.f296_yankee); dump(m, p + "f330_papa.", v.f330_papa); put(m, p + "f332_pos", v.f332_pos); }
inline Node* node_R2() { auto n = new Node; n->flags.push_back({"f231_dun", K_int, "dun", U'j', VPublic, {{"über", VInvisible}}, -1, "", "helps with 233"});
  n->subs.push_back({"f274__lan_x", "élan-x", VPublic, {}, "helps with 275", "", node_S234()});
  n->flags.push_back({"f277_quartz", K_vec_int, "quartz", U'\0', VPublic, {{"sierra", VPublic}, {"white_noise", VHidden}}, 1, "ARG278", "helps with 279"});
  n->flags.push_back({"bravo", K_i64, "bravo", U'y', VPublic, {{"khaki-2", VPublic}}, 2, "", "helps 281a\nand 281b"});
  n->flags.push_back({"silver_9", K_int, "silver-9", U'\0', VPublic, {{"lima", VInvisible}}, -1, "", ""});
  n->flags.push_back({"pink_4", K_bool, "pink_4", U'\0', VPublic, {}, -1, "", "helps with 284"});
  n->flags.push_back({"f285_hotel_id", K_i64, "hotel_id", U'v', VInvisible, {}, 0, "", "helps with 287"});
  n->groups.push_back({"f296_yankee", "yankee", U'\0', VDelete, {}, "", node_G288()});
  n->groups.push_back({"f330_papa", "", U'\0', VHidden, {}, "helps 331a\nand 331b", node_G297()});
  n->poss.push_back({"f332_pos", K_int, "", -1, "helps with 334"});
  n->has_app = true; n->name = "app335"; n->authors = "people 335"; n->about = "about app 335\nin lines"; n->version = "1.335"; n->url = "https://u335"; n->license = "LIC-335";
  return n; }
DEFINITION(R2)
struct G342 {
  int64_t f343_november_x = 0;
  constexpr friend auto BestReflect(auto& m, G342*) { return m.infer()
    .with(&G342::f343_november_x, cli::flag{.name = "november_x", .vis = cli::Hidden, .help = "helps 345a\n345b\n345c, the last"});
  }
};
inline void dump(Map& m, const std::string& p, const G342& v) { put(m, p + "f343_november_x", v.f343_november_x); }
inline Node* node_G342() { auto n = new Node; n->flags.push_back({"f343_november_x", K_i64, "november_x", U'\0', VHidden, {}, -1, "", "helps 345a\n345b\n345c, the last"});
  return n; }
struct G338 {
  int64_t f339_whiskey = 0; G342 f346_cargo_lock; G342 f348_delta_t; Celsius f350_romeo;
  constexpr friend auto BestReflect(auto& m, G338*) { return m.infer()
    .with(&G338::f339_whiskey, cli::flag{.name = "whiskey", .count = cli::Optional, .help = "helps 341a\nand 341b"}, cli::alias{"foxtrot", cli::Public})
    .with(&G338::f346_cargo_lock, cli::group{.name = "cargo-lock", .letter = U'Q', .help = "helps 347a\nand 347b"})
    .with(&G338::f348_delta_t, cli::group{.letter = U'C', .vis = cli::Delete, .help = "helps with 349"})
    .with(&G338::f350_romeo, cli::flag{.name = "romeo", .letter = U'λ', .arg = "ARG351", .help = "helps with 352"});
  }
};
inline void dump(Map& m, const std::string& p, const G338& v) { put(m, p + "f339_whiskey", v.f339_whiskey); dump(m, p + "f346_cargo_lock.", v.f346_cargo_lock); dump(m, p + "f348_delta_t.", v.f348_delta_t); put(m, p + "f350_romeo", v.f350_romeo); }
inline Node* node_G338() { auto n = new Node; n->flags.push_back({"f339_whiskey", K_i64, "whiskey", U'\0', VPublic, {{"foxtrot", VPublic}}, 0, "", "helps 341a\nand 341b"});
  n->groups.push_back({"f346_cargo_lock", "cargo-lock", U'Q', VPublic, {}, "helps 347a\nand 347b", node_G342()});
  n->groups.push_back({"f348_delta_t", "", U'C', VDelete, {}, "helps with 349", node_G342()});
  n->flags.push_back({"f350_romeo", K_custom, "romeo", U'λ', VPublic, {}, -1, "ARG351", "helps with 352"});
  return n; }
struct G362 {
  best::option<bool> pink_4; Quiet f365_teal;
  constexpr friend auto BestReflect(auto& m, G362*) { return m.infer()
    .with(&G362::pink_4, cli::flag{.count = cli::Required, .help = "helps with 364"})
    .with(&G362::f365_teal, cli::flag{.name = "teal", .vis = cli::Hidden, .count = cli::Repeated, .help = "ünï help 367"});
  }
};
inline void dump(Map& m, const std::string& p, const G362& v) { put(m, p + "pink_4", v.pink_4); put(m, p + "f365_teal", v.f365_teal); }
inline Node* node_G362() { auto n = new Node; n->flags.push_back({"pink_4", K_opt_bool, "pink_4", U'\0', VPublic, {}, 1, "", "helps with 364"});
  n->flags.push_back({"f365_teal", K_quiet, "teal", U'\0', VHidden, {}, 2, "", "ünï help 367"});
  return n; }
struct G356 {
  int64_t f357_umber = 0; best::vec<bool> gold; G362 f368_lemon; int f370_golf_ball = 0;
  constexpr friend auto BestReflect(auto& m, G356*) { return m.infer()
    .with(&G356::f357_umber, cli::flag{.name = "umber", .letter = U'a', .vis = cli::Hidden, .arg = "ARG358", .count = cli::Optional, .help = "helps with 359"})
    .with(&G356::gold, cli::flag{.arg = "ARG360", .count = cli::Repeated, .help = "helps 361a\n361b\n361c, the last"}, cli::alias{"silver-9", cli::Invisible})
    .with(&G356::f368_lemon, cli::group{.name = "lemon", .vis = cli::Hidden, .help = "helps with 369"})
    .with(&G356::f370_golf_ball, cli::flag{.name = "golf-ball", .count = cli::Repeated, .help = "helps with 372"});
  }
};
inline void dump(Map& m, const std::string& p, const G356& v) { put(m, p + "f357_umber", v.f357_umber); put(m, p + "gold", v.gold); dump(m, p + "f368_lemon.", v.f368_lemon); put(m, p + "f370_golf_ball", v.f370_golf_ball); }
inline Node* node_G356() { auto n = new Node; n->flags.push_back({"f357_umber", K_i64, "umber", U'a', VHidden, {}, 0, "ARG358", "helps with 359"});
  n->flags.push_back({"gold", K_vec_bool, "gold", U'\0', VPublic, {{"silver-9", VInvisible}}, 2, "ARG360", "helps 361a\n361b\n361c, the last"});
  n->groups.push_back({"f368_lemon", "lemon", U'\0', VHidden, {}, "helps with 369", node_G362()});
  n->flags.push_back({"f370_golf_ball", K_int, "golf-ball", U'\0', VPublic, {}, 2, "", "helps with 372"});
  return n; }
struct S355 {
  G356 f373_quartz; best::option<best::rune> f375_olive; best::vec<bool> f378__ber;
  constexpr friend auto BestReflect(auto& m, S355*) { return m.infer()
    .with(&S355::f373_quartz, cli::group{.letter = U'C', .help = "helps with 374"})
    .with(&S355::f375_olive, cli::flag{.name = "olive", .letter = U'i', .help = "helps with 377"})
    .with(&S355::f378__ber, cli::flag{.name = "über", .arg = "ARG379", .count = cli::Required, .help = "helps with 380"});
  }
};
inline void dump(Map& m, const std::string& p, const S355& v) { dump(m, p + "f373_quartz.", v.f373_quartz); put(m, p + "f375_olive", v.f375_olive); put(m, p + "f378__ber", v.f378__ber); }
inline Node* node_S355() { auto n = new Node; n->groups.push_back({"f373_quartz", "", U'C', VPublic, {}, "helps with 374", node_G356()});
  n->flags.push_back({"f375_olive", K_opt_rune, "olive", U'i', VPublic, {}, -1, "", "helps with 377"});
  n->flags.push_back({"f378__ber", K_vec_bool, "über", U'\0', VPublic, {}, 1, "ARG379", "helps with 380"});
  return n; }
struct G384 {
  best::strbuf f385_na_ve; int delta_t = 0;
  constexpr friend auto BestReflect(auto& m, G384*) { return m.infer()
    .with(&G384::f385_na_ve, cli::flag{.name = "naïve", .vis = cli::Hidden, .help = "helps 387a\nand 387b"})
    .with(&G384::delta_t, cli::flag{.letter = U'x', .help = "helps 389a\nand 389b"}, cli::alias{"india", cli::Invisible});
  }
};
inline void dump(Map& m, const std::string& p, const G384& v) { put(m, p + "f385_na_ve", v.f385_na_ve); put(m, p + "delta_t", v.delta_t); }
inline Node* node_G384() { auto n = new Node; n->flags.push_back({"f385_na_ve", K_strbuf, "naïve", U'\0', VHidden, {}, -1, "", "helps 387a\nand 387b"});
  n->flags.push_back({"delta_t", K_int, "delta_t", U'x', VPublic, {{"india", VInvisible}}, -1, "", "helps 389a\nand 389b"});
  return n; }
struct G383 {
  G384 f390_dun; best::rune pink_4; best::vec<int> delta_t; int f396_yankee = 0;
  constexpr friend auto BestReflect(auto& m, G383*) { return m.infer()
    .with(&G383::f390_dun, cli::group{.name = "dun", .vis = cli::Delete, .help = "ünï help 391"})
    .with(&G383::pink_4, cli::flag{.vis = cli::Invisible, .help = "helps with 393"}, cli::alias{"élan-x", cli::Invisible}, cli::alias{"hotel_id", cli::Hidden})
    .with(&G383::delta_t, cli::flag{.count = cli::Repeated, .help = "helps with 395"}, cli::alias{"golf-ball", cli::Public})
    .with(&G383::f396_yankee, cli::flag{.name = "yankee", .count = cli::Optional, .help = "helps 398a\nand 398b"});
  }
};
inline void dump(Map& m, const std::string& p, const G383& v) { dump(m, p + "f390_dun.", v.f390_dun); put(m, p + "pink_4", v.pink_4); put(m, p + "delta_t", v.delta_t); put(m, p + "f396_yankee", v.f396_yankee); }
inline Node* node_G383() { auto n = new Node; n->groups.push_back({"f390_dun", "dun", U'\0', VDelete, {}, "ünï help 391", node_G384()});
  n->flags.push_back({"pink_4", K_rune, "pink_4", U'\0', VInvisible, {{"élan-x", VInvisible}, {"hotel_id", VHidden}}, -1, "", "helps with 393"});
  n->flags.push_back({"delta_t", K_vec_int, "delta_t", U'\0', VPublic, {{"golf-ball", VPublic}}, 2, "", "helps with 395"});
  n->flags.push_back({"f396_yankee", K_int, "yankee", U'\0', VPublic, {}, 0, "", "helps 398a\nand 398b"});
  return n; }
struct R3 {
  int64_t tango = 0; G338 f353_olive; S355 quartz; G383 f399_alpha; best::str f401_na_ve; best::vec<best::str> f404_rest;
  constexpr friend auto BestReflect(auto& m, R3*) { return m.infer().with(cli::app{.authors = "people 406", .about = "about app 406\nin lines", .version = "1.406", .url = "https://u406", .copyright_year = 2406, .license = "LIC-406"})
    .with(&R3::tango, cli::flag{.letter = U'u', .vis = cli::Hidden, .count = cli::Optional, .help = "helps with 337"}, cli::alias{"echo", cli::Delete}, cli::alias{"quebec-city"})
    .with(&R3::f353_olive, cli::group{.vis = cli::Invisible, .help = "ünï help 354"})
    .with(&R3::quartz, cli::subcommand{.help = "helps 381a\nand 381b"}, cli::alias{"umber", cli::Invisible})
    .with(&R3::f399_alpha, cli::group{.name = "alpha", .letter = U'X', .help = "ünï help 400"})
    .with(&R3::f401_na_ve, cli::flag{.name = "naïve", .count = cli::Required, .help = "helps 403a\nand 403b"}, cli::alias{"india"}, cli::alias{"mike", cli::Delete});
  }
};
inline void dump(Map& m, const std::string& p, const R3& v) { put(m, p + "tango", v.tango); dump(m, p + "f353_olive.", v.f353_olive); dump(m, p + "quartz.", v.quartz); dump(m, p + "f399_alpha.", v.f399_alpha); put(m, p + "f401_na_ve", v.f401_na_ve); put(m, p + "f404_rest", v.f404_rest); }
inline Node* node_R3() { auto n = new Node; n->flags.push_back({"tango", K_i64, "tango", U'u', VHidden, {{"echo", VDelete}, {"quebec-city", VHidden}}, 0, "", "helps with 337"});
  n->groups.push_back({"f353_olive", "", U'\0', VInvisible, {}, "ünï help 354", node_G338()});
  n->subs.push_back({"quartz", "quartz", VPublic, {{"umber", VInvisible}}, "helps 381a\nand 381b", "", node_S355()});
  n->groups.push_back({"f399_alpha", "alpha", U'X', VPublic, {}, "ünï help 400", node_G383()});
  n->flags.push_back({"f401_na_ve", K_str, "naïve", U'\0', VPublic, {{"india", VPublic}, {"mike", VDelete}}, 1, "", "helps 403a\nand 403b"});
  n->poss.push_back({"f404_rest", K_vec_str, "", -1, ""});
  n->year = 2406;
  n->has_app = true; n->authors = "people 406"; n->about = "about app 406\nin lines"; n->version = "1.406"; n->url = "https://u406"; n->license = "LIC-406";
  return n; }
DEFINITION(R3)
#endif
#ifdef PART_C
struct S413 {
  uint8_t f414_kilo_watt = 0; int64_t f417_pos = 0;
  constexpr friend auto BestReflect(auto& m, S413*) { return m.infer()
    .with(&S413::f414_kilo_watt, cli::flag{.name = "kilo-watt", .arg = "ARG415", .help = "helps with 416"}, cli::alias{"mike", cli::Public})
    .with(&S413::f417_pos, cli::positional{.count = cli::Required, .help = "helps with 419"});
  }
};
inline void dump(Map& m, const std::string& p, const S413& v) { put(m, p + "f414_kilo_watt", v.f414_kilo_watt); put(m, p + "f417_pos", v.f417_pos); }
inline Node* node_S413() { auto n = new Node; n->flags.push_back({"f414_kilo_watt", K_u8, "kilo-watt", U'\0', VPublic, {{"mike", VPublic}}, -1, "ARG415", "helps with 416"});
  n->poss.push_back({"f417_pos", K_i64, "", 1, "helps with 419"});
  return n; }
struct G423 {
  Celsius f424_hotel_id;
  constexpr friend auto BestReflect(auto& m, G423*) { return m.infer()
    .with(&G423::f424_hotel_id, cli::flag{.name = "hotel_id", .letter = U'p', .help = "helps 426a\n426b\n426c, the last"});
  }
};
inline void dump(Map& m, const std::string& p, const G423& v) { put(m, p + "f424_hotel_id", v.f424_hotel_id); }
inline Node* node_G423() { auto n = new Node; n->flags.push_back({"f424_hotel_id", K_custom, "hotel_id", U'p', VPublic, {}, -1, "", "helps 426a\n426b\n426c, the last"});
  return n; }
struct R4 {
  Celsius f407_whiskey; best::vec<int> f410__ber; S413 f420__lan_x; G423 f427_india; G423 f429_bravo; G423 f430_white_noise; best::option<int> f432_khaki_2; int64_t f435_pos = 0; best::option<int> f438_pos; best::strbuf f441_pos;
  constexpr friend auto BestReflect(auto& m, R4*) { return m.infer().with(cli::app{.name = "app444", .about = "about app 444\nin lines", .version = "1.444", .url = "https://u444", .license = "LIC-444"})
    .with(&R4::f407_whiskey, cli::flag{.name = "whiskey", .letter = U'g', .vis = cli::Hidden, .count = cli::Optional, .help = "helps 409a\n409b\n409c, the last"}, cli::alias{"indigo", cli::Public}, cli::alias{"xray", cli::Public})
    .with(&R4::f410__ber, cli::flag{.name = "über", .letter = U'p', .count = cli::Repeated, .help = "ünï help 412"}, cli::alias{"lima", cli::Hidden})
    .with(&R4::f420__lan_x, cli::subcommand{.name = "élan-x", .help = "helps with 421"})
    .with(&R4::f427_india, cli::group{.name = "india", .letter = U'C', .vis = cli::Delete, .help = "ünï help 428"})
    .with(&R4::f429_bravo, cli::group{.name = "bravo"}, cli::alias{"hazel", cli::Delete})
    .with(&R4::f430_white_noise, cli::group{.name = "white_noise", .help = "helps 431a\nand 431b"})
    .with(&R4::f432_khaki_2, cli::flag{.name = "khaki-2", .letter = U'x', .arg = "ARG433", .help = "helps with 434"})
    .with(&R4::f435_pos, cli::positional{.name = "POS436", .help = "ünï help 437"})
    .with(&R4::f438_pos, cli::positional{.count = cli::Optional, .help = "helps 440a\nand 440b"})
    .with(&R4::f441_pos, cli::positional{.name = "POS442", .help = "helps with 443"});
  }
};
inline void dump(Map& m, const std::string& p, const R4& v) { put(m, p + "f407_whiskey", v.f407_whiskey); put(m, p + "f410__ber", v.f410__ber); dump(m, p + "f420__lan_x.", v.f420__lan_x); dump(m, p + "f427_india.", v.f427_india); dump(m, p + "f429_bravo.", v.f429_bravo); dump(m, p + "f430_white_noise.", v.f430_white_noise); put(m, p + "f432_khaki_2", v.f432_khaki_2); put(m, p + "f435_pos", v.f435_pos); put(m, p + "f438_pos", v.f438_pos); put(m, p + "f441_pos", v.f441_pos); }
inline Node* node_R4() { auto n = new Node; n->flags.push_back({"f407_whiskey", K_custom, "whiskey", U'g', VHidden, {{"indigo", VPublic}, {"xray", VPublic}}, 0, "", "helps 409a\n409b\n409c, the last"});
  n->flags.push_back({"f410__ber", K_vec_int, "über", U'p', VPublic, {{"lima", VHidden}}, 2, "", "ünï help 412"});
  n->subs.push_back({"f420__lan_x", "élan-x", VPublic, {}, "helps with 421", "", node_S413()});
  n->groups.push_back({"f427_india", "india", U'C', VDelete, {}, "ünï help 428", node_G423()});
  n->groups.push_back({"f429_bravo", "bravo", U'\0', VPublic, {{"hazel", VDelete}}, "", node_G423()});
  n->groups.push_back({"f430_white_noise", "white_noise", U'\0', VPublic, {}, "helps 431a\nand 431b", node_G423()});
  n->flags.push_back({"f432_khaki_2", K_opt_int, "khaki-2", U'x', VPublic, {}, -1, "ARG433", "helps with 434"});
  n->poss.push_back({"f435_pos", K_i64, "POS436", -1, "ünï help 437"});
  n->poss.push_back({"f438_pos", K_opt_int, "", 0, "helps 440a\nand 440b"});
  n->poss.push_back({"f441_pos", K_strbuf, "POS442", -1, "helps with 443"});
  n->has_app = true; n->name = "app444"; n->about = "about app 444\nin lines"; n->version = "1.444"; n->url = "https://u444"; n->license = "LIC-444";
  return n; }
DEFINITION(R4)
struct G448 {
  Celsius delta_t;
  constexpr friend auto BestReflect(auto& m, G448*) { return m.infer()
    .with(&G448::delta_t, cli::flag{.help = "helps with 450"});
  }
};
inline void dump(Map& m, const std::string& p, const G448& v) { put(m, p + "delta_t", v.delta_t); }
inline Node* node_G448() { auto n = new Node; n->flags.push_back({"delta_t", K_custom, "delta_t", U'\0', VPublic, {}, -1, "", "helps with 450"});
  return n; }
struct S445 {
  best::option<best::rune> jade_green; G448 f451_copper; G448 f453_alpha; uint8_t f455_papa = 0; best::str f457_pos;
  constexpr friend auto BestReflect(auto& m, S445*) { return m.infer()
    .with(&S445::jade_green, cli::flag{.letter = U'q', .vis = cli::Hidden, .help = "helps with 447"})
    .with(&S445::f451_copper, cli::group{.letter = U'X', .help = "helps 452a\nand 452b"})
    .with(&S445::f453_alpha, cli::group{.name = "alpha", .vis = cli::Hidden, .help = "helps with 454"})
    .with(&S445::f455_papa, cli::flag{.name = "papa", .letter = U'c', .count = cli::Repeated})
    .with(&S445::f457_pos, cli::positional{.count = cli::Optional, .help = "helps 459a\n459b\n459c, the last"});
  }
};
inline void dump(Map& m, const std::string& p, const S445& v) { put(m, p + "jade_green", v.jade_green); dump(m, p + "f451_copper.", v.f451_copper); dump(m, p + "f453_alpha.", v.f453_alpha); put(m, p + "f455_papa", v.f455_papa); put(m, p + "f457_pos", v.f457_pos); }
inline Node* node_S445() { auto n = new Node; n->flags.push_back({"jade_green", K_opt_rune, "jade_green", U'q', VHidden, {}, -1, "", "helps with 447"});
  n->groups.push_back({"f451_copper", "", U'X', VPublic, {}, "helps 452a\nand 452b", node_G448()});
  n->groups.push_back({"f453_alpha", "alpha", U'\0', VHidden, {}, "helps with 454", node_G448()});
  n->flags.push_back({"f455_papa", K_u8, "papa", U'c', VPublic, {}, 2, "", ""});
  n->poss.push_back({"f457_pos", K_str, "", 0, "helps 459a\n459b\n459c, the last"});
  return n; }
struct G467 {
  best::rune whiskey; best::rune f470_navy_3; Quiet f473__lan_x; best::option<int> f476_violet;
  constexpr friend auto BestReflect(auto& m, G467*) { return m.infer()
    .with(&G467::whiskey, cli::flag{.letter = U'c', .vis = cli::Hidden, .arg = "ARG468", .help = "helps 469a\nand 469b"}, cli::alias{"sierra"})
    .with(&G467::f470_navy_3, cli::flag{.name = "navy-3", .letter = U'x', .vis = cli::Invisible, .help = "helps 472a\nand 472b"})
    .with(&G467::f473__lan_x, cli::flag{.name = "élan-x", .arg = "ARG474", .count = cli::Repeated, .help = "helps with 475"}, cli::alias{"kilo-watt"}, cli::alias{"maroon"})
    .with(&G467::f476_violet, cli::flag{.name = "violet", .letter = U'w', .vis = cli::Invisible}, cli::alias{"dun", cli::Hidden});
  }
};
inline void dump(Map& m, const std::string& p, const G467& v) { put(m, p + "whiskey", v.whiskey); put(m, p + "f470_navy_3", v.f470_navy_3); put(m, p + "f473__lan_x", v.f473__lan_x); put(m, p + "f476_violet", v.f476_violet); }
inline Node* node_G467() { auto n = new Node; n->flags.push_back({"whiskey", K_rune, "whiskey", U'c', VHidden, {{"sierra", VHidden}}, -1, "ARG468", "helps 469a\nand 469b"});
  n->flags.push_back({"f470_navy_3", K_rune, "navy-3", U'x', VInvisible, {}, -1, "", "helps 472a\nand 472b"});
  n->flags.push_back({"f473__lan_x", K_quiet, "élan-x", U'\0', VPublic, {{"kilo-watt", VPublic}, {"maroon", VPublic}}, 2, "ARG474", "helps with 475"});
  n->flags.push_back({"f476_violet", K_opt_int, "violet", U'w', VInvisible, {{"dun", VHidden}}, -1, "", ""});
  return n; }
struct R5 {
  S445 lemon; best::option<best::rune> umber; uint8_t f464_amber = 0; G467 f478_lima;
  constexpr friend auto BestReflect(auto& m, R5*) { return m.infer().with(cli::app{.name = "app480", .about = "about app 480\nin lines", .url = "https://u480"})
    .with(&R5::lemon, cli::subcommand{.vis = cli::Invisible, .help = "helps with 460", .about = "about 461\nmore"})
    .with(&R5::umber, cli::flag{.letter = U't', .count = cli::Repeated, .help = "helps with 463"})
    .with(&R5::f464_amber, cli::flag{.name = "amber", .letter = U'o', .arg = "ARG465", .help = "helps with 466"})
    .with(&R5::f478_lima, cli::group{.name = "lima", .letter = U'Ñ', .vis = cli::Hidden, .help = "helps 479a\n479b\n479c, the last"});
  }
};
inline void dump(Map& m, const std::string& p, const R5& v) { dump(m, p + "lemon.", v.lemon); put(m, p + "umber", v.umber); put(m, p + "f464_amber", v.f464_amber); dump(m, p + "f478_lima.", v.f478_lima); }
inline Node* node_R5() { auto n = new Node; n->subs.push_back({"lemon", "lemon", VInvisible, {}, "helps with 460", "about 461\nmore", node_S445()});
  n->flags.push_back({"umber", K_opt_rune, "umber", U't', VPublic, {}, 2, "", "helps with 463"});
  n->flags.push_back({"f464_amber", K_u8, "amber", U'o', VPublic, {}, -1, "ARG465", "helps with 466"});
  n->groups.push_back({"f478_lima", "lima", U'Ñ', VHidden, {}, "helps 479a\n479b\n479c, the last", node_G467()});
  n->has_app = true; n->name = "app480"; n->about = "about app 480\nin lines"; n->url = "https://u480";
  return n; }
DEFINITION(R5)
#endif
#ifdef PART_D
struct G485 {
  int64_t f486__lan_x = 0; best::option<best::rune> f489_violet; Celsius dun; Quiet f494_white_noise;
  constexpr friend auto BestReflect(auto& m, G485*) { return m.infer()
    .with(&G485::f486__lan_x, cli::flag{.name = "élan-x", .arg = "ARG487", .count = cli::Repeated, .help = "helps 488a\nand 488b"})
    .with(&G485::f489_violet, cli::flag{.name = "violet", .letter = U'l', .arg = "ARG490", .help = "helps with 491"})
    .with(&G485::dun, cli::flag{.arg = "ARG492", .help = "helps with 493"})
    .with(&G485::f494_white_noise, cli::flag{.name = "white_noise", .letter = U'a', .vis = cli::Invisible, .count = cli::Repeated, .help = "ünï help 496"});
  }
};
inline void dump(Map& m, const std::string& p, const G485& v) { put(m, p + "f486__lan_x", v.f486__lan_x); put(m, p + "f489_violet", v.f489_violet); put(m, p + "dun", v.dun); put(m, p + "f494_white_noise", v.f494_white_noise); }
inline Node* node_G485() { auto n = new Node; n->flags.push_back({"f486__lan_x", K_i64, "élan-x", U'\0', VPublic, {}, 2, "ARG487", "helps 488a\nand 488b"});
  n->flags.push_back({"f489_violet", K_opt_rune, "violet", U'l', VPublic, {}, -1, "ARG490", "helps with 491"});
  n->flags.push_back({"dun", K_custom, "dun", U'\0', VPublic, {}, -1, "ARG492", "helps with 493"});
  n->flags.push_back({"f494_white_noise", K_quiet, "white_noise", U'a', VInvisible, {}, 2, "", "ünï help 496"});
  return n; }
struct S501 {
  best::option<int> f502_lemon; Quiet f505_oscar; Celsius f508__lan_x;
  constexpr friend auto BestReflect(auto& m, S501*) { return m.infer()
    .with(&S501::f502_lemon, cli::flag{.name = "lemon", .letter = U'm', .vis = cli::Invisible, .help = "helps 504a\nand 504b"}, cli::alias{"white_noise", cli::Hidden}, cli::alias{"kilo-watt"})
    .with(&S501::f505_oscar, cli::flag{.name = "oscar", .letter = U'z', .help = "helps 507a\nand 507b"}, cli::alias{"copper", cli::Public}, cli::alias{"hotel_id", cli::Invisible})
    .with(&S501::f508__lan_x, cli::flag{.name = "élan-x", .letter = U's', .count = cli::Optional, .help = "helps with 510"}, cli::alias{"maroon", cli::Delete});
  }
};
inline void dump(Map& m, const std::string& p, const S501& v) { put(m, p + "f502_lemon", v.f502_lemon); put(m, p + "f505_oscar", v.f505_oscar); put(m, p + "f508__lan_x", v.f508__lan_x); }
inline Node* node_S501() { auto n = new Node; n->flags.push_back({"f502_lemon", K_opt_int, "lemon", U'm', VInvisible, {{"white_noise", VHidden}, {"kilo-watt", VInvisible}}, -1, "", "helps 504a\nand 504b"});
  n->flags.push_back({"f505_oscar", K_quiet, "oscar", U'z', VPublic, {{"copper", VPublic}, {"hotel_id", VInvisible}}, -1, "", "helps 507a\nand 507b"});
  n->flags.push_back({"f508__lan_x", K_custom, "élan-x", U's', VPublic, {{"maroon", VDelete}}, 0, "", "helps with 510"});
  return n; }
struct S514 {
  Quiet f515_na_ve; int64_t f518_pos = 0; best::vec<bool> f521_rest;
  constexpr friend auto BestReflect(auto& m, S514*) { return m.infer()
    .with(&S514::f515_na_ve, cli::flag{.name = "naïve", .letter = U's', .help = "ünï help 517"})
    .with(&S514::f518_pos, cli::positional{.count = cli::Optional, .help = "helps with 520"})
    .with(&S514::f521_rest, cli::positional{.name = "POS522"});
  }
};
inline void dump(Map& m, const std::string& p, const S514& v) { put(m, p + "f515_na_ve", v.f515_na_ve); put(m, p + "f518_pos", v.f518_pos); put(m, p + "f521_rest", v.f521_rest); }
inline Node* node_S514() { auto n = new Node; n->flags.push_back({"f515_na_ve", K_quiet, "naïve", U's', VPublic, {}, -1, "", "ünï help 517"});
  n->poss.push_back({"f518_pos", K_i64, "", 0, "helps with 520"});
  n->poss.push_back({"f521_rest", K_vec_bool, "POS522", -1, ""});
  return n; }
struct G524 {
  int64_t f525_xray = 0; best::vec<int> zulu;
  constexpr friend auto BestReflect(auto& m, G524*) { return m.infer()
    .with(&G524::f525_xray, cli::flag{.name = "xray", .letter = U'y', .vis = cli::Hidden, .help = "helps 527a\nand 527b"})
    .with(&G524::zulu, cli::flag{.letter = U'e', .count = cli::Optional, .help = "helps with 529"});
  }
};
inline void dump(Map& m, const std::string& p, const G524& v) { put(m, p + "f525_xray", v.f525_xray); put(m, p + "zulu", v.zulu); }
inline Node* node_G524() { auto n = new Node; n->flags.push_back({"f525_xray", K_i64, "xray", U'y', VHidden, {}, -1, "", "helps 527a\nand 527b"});
  n->flags.push_back({"zulu", K_vec_int, "zulu", U'e', VPublic, {}, 0, "", "helps with 529"});
  return n; }
struct G536 {
  best::option<int> f537_victor_y; best::vec<best::str> f540_hotel_id;
  constexpr friend auto BestReflect(auto& m, G536*) { return m.infer()
    .with(&G536::f537_victor_y, cli::flag{.name = "victor_y", .vis = cli::Hidden, .arg = "ARG538", .count = cli::Repeated, .help = "helps 539a\nand 539b"}, cli::alias{"whiskey", cli::Hidden})
    .with(&G536::f540_hotel_id, cli::flag{.name = "hotel_id", .help = "helps 542a\n542b\n542c, the last"}, cli::alias{"romeo", cli::Invisible}, cli::alias{"lemon"});
  }
};
inline void dump(Map& m, const std::string& p, const G536& v) { put(m, p + "f537_victor_y", v.f537_victor_y); put(m, p + "f540_hotel_id", v.f540_hotel_id); }
inline Node* node_G536() { auto n = new Node; n->flags.push_back({"f537_victor_y", K_opt_int, "victor_y", U'\0', VHidden, {{"whiskey", VHidden}}, 2, "ARG538", "helps 539a\nand 539b"});
  n->flags.push_back({"f540_hotel_id", K_vec_str, "hotel_id", U'\0', VPublic, {{"romeo", VInvisible}, {"lemon", VPublic}}, -1, "", "helps 542a\n542b\n542c, the last"});
  return n; }
struct S513 {
  S514 zulu; G524 f530_quebec_city; best::vec<int> f531_white_noise; best::vec<best::str> golf_ball; G536 f543_juliet; best::option<bool> f545_pos; int f548_pos = 0; best::vec<best::strbuf> f551_rest;
  constexpr friend auto BestReflect(auto& m, S513*) { return m.infer()
    .with(&S513::zulu, cli::subcommand{.about = "about 523\nmore"}, cli::alias{"lemon", cli::Hidden})
    .with(&S513::f530_quebec_city, cli::group{.name = "quebec-city", .letter = U'W'})
    .with(&S513::f531_white_noise, cli::flag{.name = "white_noise", .vis = cli::Invisible, .arg = "ARG532", .help = "helps with 533"}, cli::alias{"élan-x", cli::Hidden})
    .with(&S513::golf_ball, cli::flag{.help = "helps with 535"}, cli::alias{"romeo"})
    .with(&S513::f543_juliet, cli::group{.name = "juliet", .help = "helps 544a\nand 544b"}, cli::alias{"cargo-lock", cli::Hidden})
    .with(&S513::f545_pos, cli::positional{.count = cli::Optional, .help = "helps with 547"})
    .with(&S513::f548_pos, cli::positional{.help = "ünï help 550"})
    .with(&S513::f551_rest, cli::positional{.name = "POS552"});
  }
};
inline void dump(Map& m, const std::string& p, const S513& v) { dump(m, p + "zulu.", v.zulu); dump(m, p + "f530_quebec_city.", v.f530_quebec_city); put(m, p + "f531_white_noise", v.f531_white_noise); put(m, p + "golf_ball", v.golf_ball); dump(m, p + "f543_juliet.", v.f543_juliet); put(m, p + "f545_pos", v.f545_pos); put(m, p + "f548_pos", v.f548_pos); put(m, p + "f551_rest", v.f551_rest); }
inline Node* node_S513() { auto n = new Node; n->subs.push_back({"zulu", "zulu", VPublic, {{"lemon", VHidden}}, "", "about 523\nmore", node_S514()});
  n->groups.push_back({"f530_quebec_city", "quebec-city", U'W', VPublic, {}, "", node_G524()});
  n->flags.push_back({"f531_white_noise", K_vec_int, "white_noise", U'\0', VInvisible, {{"élan-x", VHidden}}, -1, "ARG532", "helps with 533"});
  n->flags.push_back({"golf_ball", K_vec_str, "golf-ball", U'\0', VPublic, {{"romeo", VPublic}}, -1, "", "helps with 535"});
  n->groups.push_back({"f543_juliet", "juliet", U'\0', VPublic, {{"cargo-lock", VHidden}}, "helps 544a\nand 544b", node_G536()});
  n->poss.push_back({"f545_pos", K_opt_bool, "", 0, "helps with 547"});
  n->poss.push_back({"f548_pos", K_int, "", -1, "ünï help 550"});
  n->poss.push_back({"f551_rest", K_vec_buf, "POS552", -1, ""});
  return n; }
struct R6 {
  int64_t quebec_city = 0; best::vec<best::str> f482_blue_sky; G485 f497_white_noise; bool f499_olive = false; S501 amber; S513 f553_juliet; best::option<int> red; int f558_pos = 0; best::str f560_pos; best::option<int> f563_pos;
  constexpr friend auto BestReflect(auto& m, R6*) { return m.infer()
    .with(&R6::quebec_city, cli::flag{.letter = U'r', .vis = cli::Invisible, .count = cli::Required}, cli::alias{"oscar"}, cli::alias{"pink_4", cli::Invisible})
    .with(&R6::f482_blue_sky, cli::flag{.name = "blue_sky", .vis = cli::Delete, .arg = "ARG483", .help = "helps 484a\n484b\n484c, the last"})
    .with(&R6::f497_white_noise, cli::group{.letter = U'W', .help = "helps with 498"})
    .with(&R6::f499_olive, cli::flag{.name = "olive", .count = cli::Optional})
    .with(&R6::amber, cli::subcommand{.help = "ünï help 511"}, cli::alias{"uniform", cli::Invisible})
    .with(&R6::f553_juliet, cli::subcommand{.name = "juliet", .help = "helps 554a\n554b\n554c, the last", .about = "about 555\nmore"})
    .with(&R6::red, cli::flag{.letter = U't', .count = cli::Repeated, .help = "helps with 557"})
    .with(&R6::f558_pos, cli::positional{.name = "POS559", .count = cli::Optional})
    .with(&R6::f560_pos, cli::positional{.name = "POS561", .count = cli::Optional, .help = "helps with 562"})
    .with(&R6::f563_pos, cli::positional{.count = cli::Optional, .help = "helps with 565"});
  }
};
inline void dump(Map& m, const std::string& p, const R6& v) { put(m, p + "quebec_city", v.quebec_city); put(m, p + "f482_blue_sky", v.f482_blue_sky); dump(m, p + "f497_white_noise.", v.f497_white_noise); put(m, p + "f499_olive", v.f499_olive); dump(m, p + "amber.", v.amber); dump(m, p + "f553_juliet.", v.f553_juliet); put(m, p + "red", v.red); put(m, p + "f558_pos", v.f558_pos); put(m, p + "f560_pos", v.f560_pos); put(m, p + "f563_pos", v.f563_pos); }
inline Node* node_R6() { auto n = new Node; n->flags.push_back({"quebec_city", K_i64, "quebec-city", U'r', VInvisible, {{"oscar", VInvisible}, {"pink_4", VInvisible}}, 1, "", ""});
  n->flags.push_back({"f482_blue_sky", K_vec_str, "blue_sky", U'\0', VDelete, {}, -1, "ARG483", "helps 484a\n484b\n484c, the last"});
  n->groups.push_back({"f497_white_noise", "", U'W', VPublic, {}, "helps with 498", node_G485()});
  n->flags.push_back({"f499_olive", K_bool, "olive", U'\0', VPublic, {}, 0, "", ""});
  n->subs.push_back({"amber", "amber", VPublic, {{"uniform", VInvisible}}, "ünï help 511", "", node_S501()});
  n->subs.push_back({"f553_juliet", "juliet", VPublic, {}, "helps 554a\n554b\n554c, the last", "about 555\nmore", node_S513()});
  n->flags.push_back({"red", K_opt_int, "red", U't', VPublic, {}, 2, "", "helps with 557"});
  n->poss.push_back({"f558_pos", K_int, "POS559", 0, ""});
  n->poss.push_back({"f560_pos", K_str, "POS561", 0, "helps with 562"});
  n->poss.push_back({"f563_pos", K_opt_int, "", 0, "helps with 565"});
  return n; }
DEFINITION(R6)
struct G570 {
  best::strbuf lima; best::rune f573_olive; best::vec<bool> f576_ebony;
  constexpr friend auto BestReflect(auto& m, G570*) { return m.infer()
    .with(&G570::lima, cli::flag{.letter = U'z', .vis = cli::Invisible, .count = cli::Repeated, .help = "helps 572a\nand 572b"}, cli::alias{"amber", cli::Hidden})
    .with(&G570::f573_olive, cli::flag{.name = "olive", .letter = U'r', .arg = "ARG574", .help = "helps 575a\n575b\n575c, the last"}, cli::alias{"umber", cli::Invisible}, cli::alias{"uniform"})
    .with(&G570::f576_ebony, cli::flag{.name = "ebony", .vis = cli::Delete, .arg = "ARG577", .help = "helps with 578"});
  }
};
inline void dump(Map& m, const std::string& p, const G570& v) { put(m, p + "lima", v.lima); put(m, p + "f573_olive", v.f573_olive); put(m, p + "f576_ebony", v.f576_ebony); }
inline Node* node_G570() { auto n = new Node; n->flags.push_back({"lima", K_strbuf, "lima", U'z', VInvisible, {{"amber", VHidden}}, 2, "", "helps 572a\nand 572b"});
  n->flags.push_back({"f573_olive", K_rune, "olive", U'r', VPublic, {{"umber", VInvisible}, {"uniform", VPublic}}, -1, "ARG574", "helps 575a\n575b\n575c, the last"});
  n->flags.push_back({"f576_ebony", K_vec_bool, "ebony", U'\0', VDelete, {}, -1, "ARG577", "helps with 578"});
  return n; }
struct S582 {
  best::vec<int> f583_maroon; uint8_t amber = 0; uint8_t f587_pos = 0; bool f590_pos = false; int f593_pos = 0;
  constexpr friend auto BestReflect(auto& m, S582*) { return m.infer()
    .with(&S582::f583_maroon, cli::flag{.name = "maroon", .count = cli::Repeated}, cli::alias{"indigo", cli::Delete})
    .with(&S582::amber, cli::flag{.vis = cli::Invisible, .count = cli::Repeated, .help = "helps with 586"})
    .with(&S582::f587_pos, cli::positional{.count = cli::Required, .help = "ünï help 589"})
    .with(&S582::f590_pos, cli::positional{.name = "POS591", .count = cli::Required, .help = "helps with 592"})
    .with(&S582::f593_pos, cli::positional{.name = "POS594", .count = cli::Required, .help = "helps 595a\nand 595b"});
  }
};
inline void dump(Map& m, const std::string& p, const S582& v) { put(m, p + "f583_maroon", v.f583_maroon); put(m, p + "amber", v.amber); put(m, p + "f587_pos", v.f587_pos); put(m, p + "f590_pos", v.f590_pos); put(m, p + "f593_pos", v.f593_pos); }
inline Node* node_S582() { auto n = new Node; n->flags.push_back({"f583_maroon", K_vec_int, "maroon", U'\0', VPublic, {{"indigo", VDelete}}, 2, "", ""});
  n->flags.push_back({"amber", K_u8, "amber", U'\0', VInvisible, {}, 2, "", "helps with 586"});
  n->poss.push_back({"f587_pos", K_u8, "", 1, "ünï help 589"});
  n->poss.push_back({"f590_pos", K_bool, "POS591", 1, "helps with 592"});
  n->poss.push_back({"f593_pos", K_int, "POS594", 1, "helps 595a\nand 595b"});
  return n; }
struct G581 {
  S582 f596__lan_x; Quiet blue_sky; best::vec<int> f601_foxtrot; best::option<bool> f604_hotel_id; int tango = 0;
  constexpr friend auto BestReflect(auto& m, G581*) { return m.infer()
    .with(&G581::f596__lan_x, cli::subcommand{.name = "élan-x", .help = "helps with 597", .about = "about 598\nmore"})
    .with(&G581::blue_sky, cli::flag{.arg = "ARG599", .count = cli::Repeated, .help = "ünï help 600"})
    .with(&G581::f601_foxtrot, cli::flag{.name = "foxtrot", .vis = cli::Hidden, .arg = "ARG602", .help = "helps with 603"}, cli::alias{"khaki-2"})
    .with(&G581::f604_hotel_id, cli::flag{.name = "hotel_id", .vis = cli::Hidden, .arg = "ARG605", .help = "helps with 606"})
    .with(&G581::tango, cli::flag{.letter = U'u', .arg = "ARG607", .help = "helps with 608"}, cli::alias{"victor_y", cli::Public});
  }
};
inline void dump(Map& m, const std::string& p, const G581& v) { dump(m, p + "f596__lan_x.", v.f596__lan_x); put(m, p + "blue_sky", v.blue_sky); put(m, p + "f601_foxtrot", v.f601_foxtrot); put(m, p + "f604_hotel_id", v.f604_hotel_id); put(m, p + "tango", v.tango); }
inline Node* node_G581() { auto n = new Node; n->subs.push_back({"f596__lan_x", "élan-x", VPublic, {}, "helps with 597", "about 598\nmore", node_S582()});
  n->flags.push_back({"blue_sky", K_quiet, "blue_sky", U'\0', VPublic, {}, 2, "ARG599", "ünï help 600"});
  n->flags.push_back({"f601_foxtrot", K_vec_int, "foxtrot", U'\0', VHidden, {{"khaki-2", VHidden}}, -1, "ARG602", "helps with 603"});
  n->flags.push_back({"f604_hotel_id", K_opt_bool, "hotel_id", U'\0', VHidden, {}, -1, "ARG605", "helps with 606"});
  n->flags.push_back({"tango", K_int, "tango", U'u', VPublic, {{"victor_y", VPublic}}, -1, "ARG607", "helps with 608"});
  return n; }
struct G566 {
  best::vec<int> f567_bravo; G570 f579_maroon; G581 f609_quartz; best::vec<best::str> f611_fawn_grey; best::vec<best::strbuf> f613_golf_ball; best::option<int> f616_red;
  constexpr friend auto BestReflect(auto& m, G566*) { return m.infer()
    .with(&G566::f567_bravo, cli::flag{.name = "bravo", .arg = "ARG568", .help = "helps 569a\nand 569b"}, cli::alias{"yankee"})
    .with(&G566::f579_maroon, cli::group{.name = "maroon", .letter = U'C', .help = "ünï help 580"})
    .with(&G566::f609_quartz, cli::group{.help = "helps with 610"})
    .with(&G566::f611_fawn_grey, cli::flag{.name = "fawn-grey", .letter = U'g', .vis = cli::Invisible, .arg = "ARG612", .count = cli::Optional}, cli::alias{"india"})
    .with(&G566::f613_golf_ball, cli::flag{.name = "golf-ball", .letter = U'f', .count = cli::Repeated, .help = "helps with 615"}, cli::alias{"navy-3", cli::Delete})
    .with(&G566::f616_red, cli::flag{.name = "red", .vis = cli::Invisible, .arg = "ARG617", .count = cli::Optional});
  }
};
inline void dump(Map& m, const std::string& p, const G566& v) { put(m, p + "f567_bravo", v.f567_bravo); dump(m, p + "f579_maroon.", v.f579_maroon); dump(m, p + "f609_quartz.", v.f609_quartz); put(m, p + "f611_fawn_grey", v.f611_fawn_grey); put(m, p + "f613_golf_ball", v.f613_golf_ball); put(m, p + "f616_red", v.f616_red); }
inline Node* node_G566() { auto n = new Node; n->flags.push_back({"f567_bravo", K_vec_int, "bravo", U'\0', VPublic, {{"yankee", VPublic}}, -1, "ARG568", "helps 569a\nand 569b"});
  n->groups.push_back({"f579_maroon", "maroon", U'C', VPublic, {}, "ünï help 580", node_G570()});
  n->groups.push_back({"f609_quartz", "", U'\0', VPublic, {}, "helps with 610", node_G581()});
  n->flags.push_back({"f611_fawn_grey", K_vec_str, "fawn-grey", U'g', VInvisible, {{"india", VInvisible}}, 0, "ARG612", ""});
  n->flags.push_back({"f613_golf_ball", K_vec_buf, "golf-ball", U'f', VPublic, {{"navy-3", VDelete}}, 2, "", "helps with 615"});
  n->flags.push_back({"f616_red", K_opt_int, "red", U'\0', VInvisible, {}, 0, "ARG617", ""});
  return n; }
struct G634 {
  best::option<bool> dun; int64_t f636_foxtrot = 0; int64_t f639__lan_x = 0;
  constexpr friend auto BestReflect(auto& m, G634*) { return m.infer()
    .with(&G634::dun, cli::flag{.letter = U'l', .vis = cli::Hidden, .count = cli::Required}, cli::alias{"pink_4"}, cli::alias{"hotel_id", cli::Invisible})
    .with(&G634::f636_foxtrot, cli::flag{.name = "foxtrot", .count = cli::Required, .help = "helps with 638"}, cli::alias{"gold", cli::Invisible})
    .with(&G634::f639__lan_x, cli::flag{.name = "élan-x", .letter = U'r', .arg = "ARG640", .count = cli::Required});
  }
};
inline void dump(Map& m, const std::string& p, const G634& v) { put(m, p + "dun", v.dun); put(m, p + "f636_foxtrot", v.f636_foxtrot); put(m, p + "f639__lan_x", v.f639__lan_x); }
inline Node* node_G634() { auto n = new Node; n->flags.push_back({"dun", K_opt_bool, "dun", U'l', VHidden, {{"pink_4", VHidden}, {"hotel_id", VInvisible}}, 1, "", ""});
  n->flags.push_back({"f636_foxtrot", K_i64, "foxtrot", U'\0', VPublic, {{"gold", VInvisible}}, 1, "", "helps with 638"});
  n->flags.push_back({"f639__lan_x", K_i64, "élan-x", U'r', VPublic, {}, 1, "ARG640", ""});
  return n; }
struct S627 {
  best::vec<best::str> f628_yankee; best::vec<int> f631_gold; G634 f641_red; best::rune f643_pos; best::vec<best::str> f646_rest;
  constexpr friend auto BestReflect(auto& m, S627*) { return m.infer()
    .with(&S627::f628_yankee, cli::flag{.name = "yankee", .letter = U'd', .vis = cli::Hidden, .help = "helps with 630"})
    .with(&S627::f631_gold, cli::flag{.name = "gold", .letter = U'g', .vis = cli::Hidden, .help = "ünï help 633"}, cli::alias{"sierra", cli::Public})
    .with(&S627::f641_red, cli::group{.name = "red", .help = "helps 642a\n642b\n642c, the last"})
    .with(&S627::f643_pos, cli::positional{.name = "POS644", .count = cli::Optional, .help = "helps with 645"})
    .with(&S627::f646_rest, cli::positional{.name = "POS647"});
  }
};
inline void dump(Map& m, const std::string& p, const S627& v) { put(m, p + "f628_yankee", v.f628_yankee); put(m, p + "f631_gold", v.f631_gold); dump(m, p + "f641_red.", v.f641_red); put(m, p + "f643_pos", v.f643_pos); put(m, p + "f646_rest", v.f646_rest); }
inline Node* node_S627() { auto n = new Node; n->flags.push_back({"f628_yankee", K_vec_str, "yankee", U'd', VHidden, {}, -1, "", "helps with 630"});
  n->flags.push_back({"f631_gold", K_vec_int, "gold", U'g', VHidden, {{"sierra", VPublic}}, -1, "", "ünï help 633"});
  n->groups.push_back({"f641_red", "red", U'\0', VPublic, {}, "helps 642a\n642b\n642c, the last", node_G634()});
  n->poss.push_back({"f643_pos", K_rune, "POS644", 0, "helps with 645"});
  n->poss.push_back({"f646_rest", K_vec_str, "POS647", -1, ""});
  return n; }
struct R7 {
  G566 f618__lan_x; uint8_t victor_y = 0; best::option<best::rune> hazel; best::vec<best::str> f624_dun; S627 gold; int64_t violet = 0;
  constexpr friend auto BestReflect(auto& m, R7*) { return m.infer().with(cli::app{.authors = "people 652", .about = "about app 652\nin lines", .version = "1.652", .url = "https://u652", .license = "LIC-652"})
    .with(&R7::f618__lan_x, cli::group{.name = "élan-x", .vis = cli::Hidden, .help = "helps 619a\n619b\n619c, the last"})
    .with(&R7::victor_y, cli::flag{.letter = U'n', .vis = cli::Hidden, .help = "helps with 621"})
    .with(&R7::hazel, cli::flag{.vis = cli::Invisible, .arg = "ARG622", .help = "helps with 623"})
    .with(&R7::f624_dun, cli::flag{.name = "dun", .letter = U'o', .vis = cli::Hidden, .arg = "ARG625", .help = "helps with 626"})
    .with(&R7::gold, cli::subcommand{.help = "helps 648a\n648b\n648c, the last"})
    .with(&R7::violet, cli::flag{.arg = "ARG650", .help = "helps with 651"}, cli::alias{"india", cli::Public});
  }
};
inline void dump(Map& m, const std::string& p, const R7& v) { dump(m, p + "f618__lan_x.", v.f618__lan_x); put(m, p + "victor_y", v.victor_y); put(m, p + "hazel", v.hazel); put(m, p + "f624_dun", v.f624_dun); dump(m, p + "gold.", v.gold); put(m, p + "violet", v.violet); }
inline Node* node_R7() { auto n = new Node; n->groups.push_back({"f618__lan_x", "élan-x", U'\0', VHidden, {}, "helps 619a\n619b\n619c, the last", node_G566()});
  n->flags.push_back({"victor_y", K_u8, "victor_y", U'n', VHidden, {}, -1, "", "helps with 621"});
  n->flags.push_back({"hazel", K_opt_rune, "hazel", U'\0', VInvisible, {}, -1, "ARG622", "helps with 623"});
  n->flags.push_back({"f624_dun", K_vec_str, "dun", U'o', VHidden, {}, -1, "ARG625", "helps with 626"});
  n->subs.push_back({"gold", "gold", VPublic, {}, "helps 648a\n648b\n648c, the last", "", node_S627()});
  n->flags.push_back({"violet", K_i64, "violet", U'\0', VPublic, {{"india", VPublic}}, -1, "ARG650", "helps with 651"});
  n->has_app = true; n->authors = "people 652"; n->about = "about app 652\nin lines"; n->version = "1.652"; n->url = "https://u652"; n->license = "LIC-652";
  return n; }
DEFINITION(R7)
#endif
#ifdef PART_E
struct G661 {
  best::option<bool> f662_hazel;
  constexpr friend auto BestReflect(auto& m, G661*) { return m.infer()
    .with(&G661::f662_hazel, cli::flag{.name = "hazel", .vis = cli::Invisible, .arg = "ARG663", .help = "helps 664a\nand 664b"}, cli::alias{"quartz"});
  }
};
inline void dump(Map& m, const std::string& p, const G661& v) { put(m, p + "f662_hazel", v.f662_hazel); }
inline Node* node_G661() { auto n = new Node; n->flags.push_back({"f662_hazel", K_opt_bool, "hazel", U'\0', VInvisible, {{"quartz", VInvisible}}, -1, "ARG663", "helps 664a\nand 664b"});
  return n; }
struct G660 {
  G661 f665_na_ve; best::strbuf silver_9; int64_t juliet = 0;
  constexpr friend auto BestReflect(auto& m, G660*) { return m.infer()
    .with(&G660::f665_na_ve, cli::group{.name = "naïve", .letter = U'Q', .help = "helps 666a\nand 666b"}, cli::alias{"mike"})
    .with(&G660::silver_9, cli::flag{.arg = "ARG667", .count = cli::Required, .help = "helps with 668"}, cli::alias{"delta_t", cli::Public})
    .with(&G660::juliet, cli::flag{.help = "helps with 670"});
  }
};
inline void dump(Map& m, const std::string& p, const G660& v) { dump(m, p + "f665_na_ve.", v.f665_na_ve); put(m, p + "silver_9", v.silver_9); put(m, p + "juliet", v.juliet); }
inline Node* node_G660() { auto n = new Node; n->groups.push_back({"f665_na_ve", "naïve", U'Q', VPublic, {{"mike", VPublic}}, "helps 666a\nand 666b", node_G661()});
  n->flags.push_back({"silver_9", K_strbuf, "silver-9", U'\0', VPublic, {{"delta_t", VPublic}}, 1, "ARG667", "helps with 668"});
  n->flags.push_back({"juliet", K_i64, "juliet", U'\0', VPublic, {}, -1, "", "helps with 670"});
  return n; }
struct G676 {
  best::vec<best::strbuf> f677_silver_9; int lima = 0; int64_t f682_sierra = 0; best::vec<best::str> f685_dun;
  constexpr friend auto BestReflect(auto& m, G676*) { return m.infer()
    .with(&G676::f677_silver_9, cli::flag{.name = "silver-9", .letter = U'i', .count = cli::Optional, .help = "helps 679a\nand 679b"}, cli::alias{"teal", cli::Hidden}, cli::alias{"india", cli::Delete})
    .with(&G676::lima, cli::flag{.vis = cli::Invisible, .count = cli::Optional, .help = "helps with 681"})
    .with(&G676::f682_sierra, cli::flag{.name = "sierra", .letter = U'n', .arg = "ARG683", .help = "helps 684a\nand 684b"})
    .with(&G676::f685_dun, cli::flag{.name = "dun", .letter = U'y', .vis = cli::Hidden, .count = cli::Required, .help = "helps with 687"}, cli::alias{"naïve", cli::Delete});
  }
};
inline void dump(Map& m, const std::string& p, const G676& v) { put(m, p + "f677_silver_9", v.f677_silver_9); put(m, p + "lima", v.lima); put(m, p + "f682_sierra", v.f682_sierra); put(m, p + "f685_dun", v.f685_dun); }
inline Node* node_G676() { auto n = new Node; n->flags.push_back({"f677_silver_9", K_vec_buf, "silver-9", U'i', VPublic, {{"teal", VHidden}, {"india", VDelete}}, 0, "", "helps 679a\nand 679b"});
  n->flags.push_back({"lima", K_int, "lima", U'\0', VInvisible, {}, 0, "", "helps with 681"});
  n->flags.push_back({"f682_sierra", K_i64, "sierra", U'n', VPublic, {}, -1, "ARG683", "helps 684a\nand 684b"});
  n->flags.push_back({"f685_dun", K_vec_str, "dun", U'y', VHidden, {{"naïve", VDelete}}, 1, "", "helps with 687"});
  return n; }
struct S675 {
  G676 f688_pink_4; best::option<bool> f690_alpha; bool papa = false; int f695_pos = 0; best::option<best::rune> f697_pos; best::vec<bool> f700_rest;
  constexpr friend auto BestReflect(auto& m, S675*) { return m.infer()
    .with(&S675::f688_pink_4, cli::group{.name = "pink_4", .help = "helps with 689"}, cli::alias{"yankee", cli::Invisible})
    .with(&S675::f690_alpha, cli::flag{.name = "alpha", .letter = U'l', .arg = "ARG691", .help = "helps with 692"}, cli::alias{"indigo"}, cli::alias{"xray", cli::Public})
    .with(&S675::papa, cli::flag{.vis = cli::Hidden, .help = "helps 694a\nand 694b"}, cli::alias{"khaki-2"})
    .with(&S675::f695_pos, cli::positional{.name = "POS696", .count = cli::Required})
    .with(&S675::f697_pos, cli::positional{.name = "POS698", .count = cli::Required, .help = "ünï help 699"});
  }
};
inline void dump(Map& m, const std::string& p, const S675& v) { dump(m, p + "f688_pink_4.", v.f688_pink_4); put(m, p + "f690_alpha", v.f690_alpha); put(m, p + "papa", v.papa); put(m, p + "f695_pos", v.f695_pos); put(m, p + "f697_pos", v.f697_pos); put(m, p + "f700_rest", v.f700_rest); }
inline Node* node_S675() { auto n = new Node; n->groups.push_back({"f688_pink_4", "pink_4", U'\0', VPublic, {{"yankee", VInvisible}}, "helps with 689", node_G676()});
  n->flags.push_back({"f690_alpha", K_opt_bool, "alpha", U'l', VPublic, {{"indigo", VPublic}, {"xray", VPublic}}, -1, "ARG691", "helps with 692"});
  n->flags.push_back({"papa", K_bool, "papa", U'\0', VHidden, {{"khaki-2", VHidden}}, -1, "", "helps 694a\nand 694b"});
  n->poss.push_back({"f695_pos", K_int, "POS696", 1, ""});
  n->poss.push_back({"f697_pos", K_opt_rune, "POS698", 1, "ünï help 699"});
  n->poss.push_back({"f700_rest", K_vec_bool, "", -1, ""});
  return n; }
struct S653 {
  bool f654_olive = false; best::strbuf f657_fawn_grey; G660 f671_india; G660 f673_lemon; S675 f702_copper; Celsius f705_khaki_2; bool f708_pos = false;
  constexpr friend auto BestReflect(auto& m, S653*) { return m.infer()
    .with(&S653::f654_olive, cli::flag{.name = "olive", .help = "helps with 656"}, cli::alias{"pink_4", cli::Public})
    .with(&S653::f657_fawn_grey, cli::flag{.name = "fawn-grey", .help = "helps with 659"}, cli::alias{"sierra"})
    .with(&S653::f671_india, cli::group{.letter = U'C', .help = "helps with 672"})
    .with(&S653::f673_lemon, cli::group{.name = "lemon", .vis = cli::Hidden, .help = "helps with 674"})
    .with(&S653::f702_copper, cli::subcommand{.name = "copper", .vis = cli::Invisible, .help = "ünï help 703", .about = "about 704\nmore"})
    .with(&S653::f705_khaki_2, cli::flag{.name = "khaki-2", .count = cli::Optional, .help = "helps with 707"}, cli::alias{"über"})
    .with(&S653::f708_pos, cli::positional{.help = "helps 710a\n710b\n710c, the last"});
  }
};
inline void dump(Map& m, const std::string& p, const S653& v) { put(m, p + "f654_olive", v.f654_olive); put(m, p + "f657_fawn_grey", v.f657_fawn_grey); dump(m, p + "f671_india.", v.f671_india); dump(m, p + "f673_lemon.", v.f673_lemon); dump(m, p + "f702_copper.", v.f702_copper); put(m, p + "f705_khaki_2", v.f705_khaki_2); put(m, p + "f708_pos", v.f708_pos); }
inline Node* node_S653() { auto n = new Node; n->flags.push_back({"f654_olive", K_bool, "olive", U'\0', VPublic, {{"pink_4", VPublic}}, -1, "", "helps with 656"});
  n->flags.push_back({"f657_fawn_grey", K_strbuf, "fawn-grey", U'\0', VPublic, {{"sierra", VPublic}}, -1, "", "helps with 659"});
  n->groups.push_back({"f671_india", "", U'C', VPublic, {}, "helps with 672", node_G660()});
  n->groups.push_back({"f673_lemon", "lemon", U'\0', VHidden, {}, "helps with 674", node_G660()});
  n->subs.push_back({"f702_copper", "copper", VInvisible, {}, "ünï help 703", "about 704\nmore", node_S675()});
  n->flags.push_back({"f705_khaki_2", K_custom, "khaki-2", U'\0', VPublic, {{"über", VPublic}}, 0, "", "helps with 707"});
  n->poss.push_back({"f708_pos", K_bool, "", -1, "helps 710a\n710b\n710c, the last"});
  return n; }
struct G714 {
  best::strbuf november_x; Quiet juliet; best::vec<bool> mike; int indigo = 0;
  constexpr friend auto BestReflect(auto& m, G714*) { return m.infer()
    .with(&G714::november_x, cli::flag{.vis = cli::Hidden, .help = "helps with 716"}, cli::alias{"red"})
    .with(&G714::juliet, cli::flag{.letter = U'q', .help = "helps with 718"}, cli::alias{"zulu", cli::Public})
    .with(&G714::mike, cli::flag{.letter = U'é', .vis = cli::Invisible, .arg = "ARG719", .help = "helps 720a\nand 720b"}, cli::alias{"delta_t", cli::Public}, cli::alias{"bravo", cli::Public})
    .with(&G714::indigo, cli::flag{.vis = cli::Invisible, .count = cli::Repeated, .help = "helps with 722"});
  }
};
inline void dump(Map& m, const std::string& p, const G714& v) { put(m, p + "november_x", v.november_x); put(m, p + "juliet", v.juliet); put(m, p + "mike", v.mike); put(m, p + "indigo", v.indigo); }
inline Node* node_G714() { auto n = new Node; n->flags.push_back({"november_x", K_strbuf, "november_x", U'\0', VHidden, {{"red", VHidden}}, -1, "", "helps with 716"});
  n->flags.push_back({"juliet", K_quiet, "juliet", U'q', VPublic, {{"zulu", VPublic}}, -1, "", "helps with 718"});
  n->flags.push_back({"mike", K_vec_bool, "mike", U'é', VInvisible, {{"delta_t", VPublic}, {"bravo", VPublic}}, -1, "ARG719", "helps 720a\nand 720b"});
  n->flags.push_back({"indigo", K_int, "indigo", U'\0', VInvisible, {}, 2, "", "helps with 722"});
  return n; }
struct R8 {
  S653 f711_pink_4; G714 f723_victor_y; best::option<int> dun; uint8_t khaki_2 = 0; int f729_pos = 0; best::strbuf f732_pos; best::option<bool> f735_pos; best::vec<bool> f738_rest;
  constexpr friend auto BestReflect(auto& m, R8*) { return m.infer()
    .with(&R8::f711_pink_4, cli::subcommand{.name = "pink_4", .help = "ünï help 712"})
    .with(&R8::f723_victor_y, cli::group{.help = "helps 724a\nand 724b"})
    .with(&R8::dun, cli::flag{.help = "helps with 726"}, cli::alias{"foxtrot"}, cli::alias{"jade_green", cli::Invisible})
    .with(&R8::khaki_2, cli::flag{.letter = U'w', .help = "helps 728a\n728b\n728c, the last"})
    .with(&R8::f729_pos, cli::positional{.count = cli::Optional, .help = "helps with 731"})
    .with(&R8::f732_pos, cli::positional{.name = "POS733", .count = cli::Optional, .help = "ünï help 734"})
    .with(&R8::f735_pos, cli::positional{.name = "POS736", .help = "helps with 737"})
    .with(&R8::f738_rest, cli::positional{.name = "POS739"});
  }
};
inline void dump(Map& m, const std::string& p, const R8& v) { dump(m, p + "f711_pink_4.", v.f711_pink_4); dump(m, p + "f723_victor_y.", v.f723_victor_y); put(m, p + "dun", v.dun); put(m, p + "khaki_2", v.khaki_2); put(m, p + "f729_pos", v.f729_pos); put(m, p + "f732_pos", v.f732_pos); put(m, p + "f735_pos", v.f735_pos); put(m, p + "f738_rest", v.f738_rest); }
inline Node* node_R8() { auto n = new Node; n->subs.push_back({"f711_pink_4", "pink_4", VPublic, {}, "ünï help 712", "", node_S653()});
  n->groups.push_back({"f723_victor_y", "", U'\0', VPublic, {}, "helps 724a\nand 724b", node_G714()});
  n->flags.push_back({"dun", K_opt_int, "dun", U'\0', VPublic, {{"foxtrot", VPublic}, {"jade_green", VInvisible}}, -1, "", "helps with 726"});
  n->flags.push_back({"khaki_2", K_u8, "khaki-2", U'w', VPublic, {}, -1, "", "helps 728a\n728b\n728c, the last"});
  n->poss.push_back({"f729_pos", K_int, "", 0, "helps with 731"});
  n->poss.push_back({"f732_pos", K_strbuf, "POS733", 0, "ünï help 734"});
  n->poss.push_back({"f735_pos", K_opt_bool, "POS736", -1, "helps with 737"});
  n->poss.push_back({"f738_rest", K_vec_bool, "POS739", -1, ""});
  return n; }
DEFINITION(R8)
struct G760 {
  best::option<best::rune> f761__lan_x;
  constexpr friend auto BestReflect(auto& m, G760*) { return m.infer()
    .with(&G760::f761__lan_x, cli::flag{.name = "élan-x", .count = cli::Repeated, .help = "helps 763a\n763b\n763c, the last"});
  }
};
inline void dump(Map& m, const std::string& p, const G760& v) { put(m, p + "f761__lan_x", v.f761__lan_x); }
inline Node* node_G760() { auto n = new Node; n->flags.push_back({"f761__lan_x", K_opt_rune, "élan-x", U'\0', VPublic, {}, 2, "", "helps 763a\n763b\n763c, the last"});
  return n; }
struct G754 {
  best::vec<int> f755_fawn_grey; int umber = 0; G760 f764_alpha;
  constexpr friend auto BestReflect(auto& m, G754*) { return m.infer()
    .with(&G754::f755_fawn_grey, cli::flag{.name = "fawn-grey", .count = cli::Repeated, .help = "helps with 757"})
    .with(&G754::umber, cli::flag{.letter = U'f', .vis = cli::Hidden, .count = cli::Repeated, .help = "ünï help 759"})
    .with(&G754::f764_alpha, cli::group{.name = "alpha", .letter = U'Ñ', .help = "helps 765a\n765b\n765c, the last"});
  }
};
inline void dump(Map& m, const std::string& p, const G754& v) { put(m, p + "f755_fawn_grey", v.f755_fawn_grey); put(m, p + "umber", v.umber); dump(m, p + "f764_alpha.", v.f764_alpha); }
inline Node* node_G754() { auto n = new Node; n->flags.push_back({"f755_fawn_grey", K_vec_int, "fawn-grey", U'\0', VPublic, {}, 2, "", "helps with 757"});
  n->flags.push_back({"umber", K_int, "umber", U'f', VHidden, {}, 2, "", "ünï help 759"});
  n->groups.push_back({"f764_alpha", "alpha", U'Ñ', VPublic, {}, "helps 765a\n765b\n765c, the last", node_G760()});
  return n; }
struct G746 {
  best::option<int> whiskey; int f749_teal = 0; uint8_t golf_ball = 0; G754 f766_amber; best::vec<best::strbuf> f768_bravo;
  constexpr friend auto BestReflect(auto& m, G746*) { return m.infer()
    .with(&G746::whiskey, cli::flag{.arg = "ARG747", .count = cli::Repeated, .help = "helps with 748"}, cli::alias{"sierra", cli::Invisible})
    .with(&G746::f749_teal, cli::flag{.name = "teal", .letter = U'k', .arg = "ARG750", .count = cli::Optional, .help = "helps with 751"}, cli::alias{"silver-9"})
    .with(&G746::golf_ball, cli::flag{.letter = U'g', .arg = "ARG752", .help = "helps 753a\n753b\n753c, the last"}, cli::alias{"khaki-2", cli::Hidden})
    .with(&G746::f766_amber, cli::group{.name = "amber", .letter = U'C', .help = "helps with 767"}, cli::alias{"olive", cli::Hidden})
    .with(&G746::f768_bravo, cli::flag{.name = "bravo", .letter = U'u', .help = "helps with 770"}, cli::alias{"yankee", cli::Hidden});
  }
};
inline void dump(Map& m, const std::string& p, const G746& v) { put(m, p + "whiskey", v.whiskey); put(m, p + "f749_teal", v.f749_teal); put(m, p + "golf_ball", v.golf_ball); dump(m, p + "f766_amber.", v.f766_amber); put(m, p + "f768_bravo", v.f768_bravo); }
inline Node* node_G746() { auto n = new Node; n->flags.push_back({"whiskey", K_opt_int, "whiskey", U'\0', VPublic, {{"sierra", VInvisible}}, 2, "ARG747", "helps with 748"});
  n->flags.push_back({"f749_teal", K_int, "teal", U'k', VPublic, {{"silver-9", VPublic}}, 0, "ARG750", "helps with 751"});
  n->flags.push_back({"golf_ball", K_u8, "golf-ball", U'g', VPublic, {{"khaki-2", VHidden}}, -1, "ARG752", "helps 753a\n753b\n753c, the last"});
  n->groups.push_back({"f766_amber", "amber", U'C', VPublic, {{"olive", VHidden}}, "helps with 767", node_G754()});
  n->flags.push_back({"f768_bravo", K_vec_buf, "bravo", U'u', VPublic, {{"yankee", VHidden}}, -1, "", "helps with 770"});
  return n; }
struct S786 {
  best::option<int> f787_uniform; best::rune f790_india; bool f792_sierra = false; best::rune f795_foxtrot; best::rune f798_pos; best::option<bool> f801_pos; best::option<int> f804_pos; best::vec<best::strbuf> f807_rest;
  constexpr friend auto BestReflect(auto& m, S786*) { return m.infer()
    .with(&S786::f787_uniform, cli::flag{.name = "uniform", .vis = cli::Hidden, .help = "ünï help 789"})
    .with(&S786::f790_india, cli::flag{.name = "india"}, cli::alias{"silver-9"})
    .with(&S786::f792_sierra, cli::flag{.name = "sierra", .count = cli::Repeated, .help = "helps with 794"})
    .with(&S786::f795_foxtrot, cli::flag{.name = "foxtrot", .letter = U'v', .help = "helps 797a\n797b\n797c, the last"}, cli::alias{"teal"})
    .with(&S786::f798_pos, cli::positional{.name = "POS799", .count = cli::Optional, .help = "helps with 800"})
    .with(&S786::f801_pos, cli::positional{.help = "helps 803a\n803b\n803c, the last"})
    .with(&S786::f804_pos, cli::positional{.help = "helps 806a\nand 806b"});
  }
};
inline void dump(Map& m, const std::string& p, const S786& v) { put(m, p + "f787_uniform", v.f787_uniform); put(m, p + "f790_india", v.f790_india); put(m, p + "f792_sierra", v.f792_sierra); put(m, p + "f795_foxtrot", v.f795_foxtrot); put(m, p + "f798_pos", v.f798_pos); put(m, p + "f801_pos", v.f801_pos); put(m, p + "f804_pos", v.f804_pos); put(m, p + "f807_rest", v.f807_rest); }
inline Node* node_S786() { auto n = new Node; n->flags.push_back({"f787_uniform", K_opt_int, "uniform", U'\0', VHidden, {}, -1, "", "ünï help 789"});
  n->flags.push_back({"f790_india", K_rune, "india", U'\0', VPublic, {{"silver-9", VPublic}}, -1, "", ""});
  n->flags.push_back({"f792_sierra", K_bool, "sierra", U'\0', VPublic, {}, 2, "", "helps with 794"});
  n->flags.push_back({"f795_foxtrot", K_rune, "foxtrot", U'v', VPublic, {{"teal", VPublic}}, -1, "", "helps 797a\n797b\n797c, the last"});
  n->poss.push_back({"f798_pos", K_rune, "POS799", 0, "helps with 800"});
  n->poss.push_back({"f801_pos", K_opt_bool, "", -1, "helps 803a\n803b\n803c, the last"});
  n->poss.push_back({"f804_pos", K_opt_int, "", -1, "helps 806a\nand 806b"});
  n->poss.push_back({"f807_rest", K_vec_buf, "", -1, ""});
  return n; }
struct G779 {
  best::vec<bool> f780_uniform; best::vec<int> f783_navy_3; S786 bravo;
  constexpr friend auto BestReflect(auto& m, G779*) { return m.infer()
    .with(&G779::f780_uniform, cli::flag{.name = "uniform", .vis = cli::Delete, .arg = "ARG781", .count = cli::Optional, .help = "helps with 782"})
    .with(&G779::f783_navy_3, cli::flag{.name = "navy-3", .count = cli::Repeated, .help = "helps with 785"}, cli::alias{"quartz"}, cli::alias{"yankee"})
    .with(&G779::bravo, cli::subcommand{.help = "helps with 809", .about = "about 810\nmore"}, cli::alias{"mike", cli::Invisible});
  }
};
inline void dump(Map& m, const std::string& p, const G779& v) { put(m, p + "f780_uniform", v.f780_uniform); put(m, p + "f783_navy_3", v.f783_navy_3); dump(m, p + "bravo.", v.bravo); }
inline Node* node_G779() { auto n = new Node; n->flags.push_back({"f780_uniform", K_vec_bool, "uniform", U'\0', VDelete, {}, 0, "ARG781", "helps with 782"});
  n->flags.push_back({"f783_navy_3", K_vec_int, "navy-3", U'\0', VPublic, {{"quartz", VPublic}, {"yankee", VPublic}}, 2, "", "helps with 785"});
  n->subs.push_back({"bravo", "bravo", VPublic, {{"mike", VInvisible}}, "helps with 809", "about 810\nmore", node_S786()});
  return n; }
struct S776 {
  best::vec<bool> red; G779 f811_juliet; best::option<int> f813_pink_4; best::vec<int> f816__lan_x; best::vec<best::strbuf> f819_rest;
  constexpr friend auto BestReflect(auto& m, S776*) { return m.infer()
    .with(&S776::red, cli::flag{.letter = U'u', .arg = "ARG777", .count = cli::Repeated, .help = "helps with 778"})
    .with(&S776::f811_juliet, cli::group{.name = "juliet", .vis = cli::Hidden, .help = "helps 812a\n812b\n812c, the last"})
    .with(&S776::f813_pink_4, cli::flag{.name = "pink_4", .count = cli::Repeated, .help = "helps with 815"}, cli::alias{"mike"})
    .with(&S776::f816__lan_x, cli::flag{.name = "élan-x", .help = "helps with 818"}, cli::alias{"dun"}, cli::alias{"victor_y"});
  }
};
inline void dump(Map& m, const std::string& p, const S776& v) { put(m, p + "red", v.red); dump(m, p + "f811_juliet.", v.f811_juliet); put(m, p + "f813_pink_4", v.f813_pink_4); put(m, p + "f816__lan_x", v.f816__lan_x); put(m, p + "f819_rest", v.f819_rest); }
inline Node* node_S776() { auto n = new Node; n->flags.push_back({"red", K_vec_bool, "red", U'u', VPublic, {}, 2, "ARG777", "helps with 778"});
  n->groups.push_back({"f811_juliet", "juliet", U'\0', VHidden, {}, "helps 812a\n812b\n812c, the last", node_G779()});
  n->flags.push_back({"f813_pink_4", K_opt_int, "pink_4", U'\0', VPublic, {{"mike", VPublic}}, 2, "", "helps with 815"});
  n->flags.push_back({"f816__lan_x", K_vec_int, "élan-x", U'\0', VPublic, {{"dun", VPublic}, {"victor_y", VPublic}}, -1, "", "helps with 818"});
  n->poss.push_back({"f819_rest", K_vec_buf, "", -1, ""});
  return n; }
struct R9 {
  best::str hazel; int f742__ber = 0; best::vec<best::strbuf> india; G746 f771_dun; best::rune f773_xray; S776 f821_cargo_lock; best::vec<int> f824_papa; best::vec<best::str> f827_violet; Quiet f830_pos; best::str f832_pos;
  constexpr friend auto BestReflect(auto& m, R9*) { return m.infer().with(cli::app{.authors = "people 835", .version = "1.835", .copyright_year = 2835})
    .with(&R9::hazel, cli::flag{.letter = U's', .vis = cli::Hidden, .arg = "ARG740", .count = cli::Repeated, .help = "helps 741a\nand 741b"}, cli::alias{"maroon", cli::Public})
    .with(&R9::f742__ber, cli::flag{.name = "über", .letter = U'l', .vis = cli::Invisible, .count = cli::Repeated})
    .with(&R9::india, cli::flag{.letter = U'o', .arg = "ARG744", .help = "ünï help 745"})
    .with(&R9::f771_dun, cli::group{.name = "dun", .letter = U'X', .help = "helps with 772"})
    .with(&R9::f773_xray, cli::flag{.name = "xray", .vis = cli::Hidden, .arg = "ARG774", .help = "helps with 775"})
    .with(&R9::f821_cargo_lock, cli::subcommand{.name = "cargo-lock", .vis = cli::Invisible, .help = "helps with 822"}, cli::alias{"indigo"})
    .with(&R9::f824_papa, cli::flag{.name = "papa", .help = "helps 826a\nand 826b"})
    .with(&R9::f827_violet, cli::flag{.name = "violet", .vis = cli::Hidden, .arg = "ARG828", .count = cli::Repeated, .help = "helps 829a\nand 829b"}, cli::alias{"foxtrot"})
    .with(&R9::f832_pos, cli::positional{.name = "POS833", .help = "helps 834a\nand 834b"});
  }
};
inline void dump(Map& m, const std::string& p, const R9& v) { put(m, p + "hazel", v.hazel); put(m, p + "f742__ber", v.f742__ber); put(m, p + "india", v.india); dump(m, p + "f771_dun.", v.f771_dun); put(m, p + "f773_xray", v.f773_xray); dump(m, p + "f821_cargo_lock.", v.f821_cargo_lock); put(m, p + "f824_papa", v.f824_papa); put(m, p + "f827_violet", v.f827_violet); put(m, p + "f830_pos", v.f830_pos); put(m, p + "f832_pos", v.f832_pos); }
inline Node* node_R9() { auto n = new Node; n->flags.push_back({"hazel", K_str, "hazel", U's', VHidden, {{"maroon", VPublic}}, 2, "ARG740", "helps 741a\nand 741b"});
  n->flags.push_back({"f742__ber", K_int, "über", U'l', VInvisible, {}, 2, "", ""});
  n->flags.push_back({"india", K_vec_buf, "india", U'o', VPublic, {}, -1, "ARG744", "ünï help 745"});
  n->groups.push_back({"f771_dun", "dun", U'X', VPublic, {}, "helps with 772", node_G746()});
  n->flags.push_back({"f773_xray", K_rune, "xray", U'\0', VHidden, {}, -1, "ARG774", "helps with 775"});
  n->subs.push_back({"f821_cargo_lock", "cargo-lock", VInvisible, {{"indigo", VInvisible}}, "helps with 822", "", node_S776()});
  n->flags.push_back({"f824_papa", K_vec_int, "papa", U'\0', VPublic, {}, -1, "", "helps 826a\nand 826b"});
  n->flags.push_back({"f827_violet", K_vec_str, "violet", U'\0', VHidden, {{"foxtrot", VHidden}}, 2, "ARG828", "helps 829a\nand 829b"});
  n->poss.push_back({"f830_pos", K_quiet, "", -1, ""});
  n->poss.push_back({"f832_pos", K_str, "POS833", -1, "helps 834a\nand 834b"});
  n->year = 2835;
  n->has_app = true; n->authors = "people 835"; n->version = "1.835";
  return n; }
DEFINITION(R9)
#endif
#ifdef PART_F
struct S842 {
  uint8_t f843_indigo = 0; best::rune f845_pos; best::rune f848_pos; best::vec<best::strbuf> f851_rest;
  constexpr friend auto BestReflect(auto& m, S842*) { return m.infer()
    .with(&S842::f843_indigo, cli::flag{.name = "indigo"})
    .with(&S842::f845_pos, cli::positional{.count = cli::Optional, .help = "helps with 847"})
    .with(&S842::f848_pos, cli::positional{.count = cli::Optional, .help = "helps with 850"})
    .with(&S842::f851_rest, cli::positional{.name = "POS852"});
  }
};
inline void dump(Map& m, const std::string& p, const S842& v) { put(m, p + "f843_indigo", v.f843_indigo); put(m, p + "f845_pos", v.f845_pos); put(m, p + "f848_pos", v.f848_pos); put(m, p + "f851_rest", v.f851_rest); }
inline Node* node_S842() { auto n = new Node; n->flags.push_back({"f843_indigo", K_u8, "indigo", U'\0', VPublic, {}, -1, "", ""});
  n->poss.push_back({"f845_pos", K_rune, "", 0, "helps with 847"});
  n->poss.push_back({"f848_pos", K_rune, "", 0, "helps with 850"});
  n->poss.push_back({"f851_rest", K_vec_buf, "POS852", -1, ""});
  return n; }
struct G839 {
  best::option<bool> india; S842 gold; best::vec<best::strbuf> violet;
  constexpr friend auto BestReflect(auto& m, G839*) { return m.infer()
    .with(&G839::india, cli::flag{.help = "helps 841a\nand 841b"}, cli::alias{"juliet", cli::Delete})
    .with(&G839::gold, cli::subcommand{.vis = cli::Delete, .help = "helps with 853", .about = "about 854\nmore"})
    .with(&G839::violet, cli::flag{.vis = cli::Invisible, .count = cli::Repeated, .help = "helps with 856"});
  }
};
inline void dump(Map& m, const std::string& p, const G839& v) { put(m, p + "india", v.india); dump(m, p + "gold.", v.gold); put(m, p + "violet", v.violet); }
inline Node* node_G839() { auto n = new Node; n->flags.push_back({"india", K_opt_bool, "india", U'\0', VPublic, {{"juliet", VDelete}}, -1, "", "helps 841a\nand 841b"});
  n->subs.push_back({"gold", "gold", VDelete, {}, "helps with 853", "about 854\nmore", node_S842()});
  n->flags.push_back({"violet", K_vec_buf, "violet", U'\0', VInvisible, {}, 2, "", "helps with 856"});
  return n; }
struct G866 {
  best::option<int> juliet; bool echo = false; int64_t hazel = 0;
  constexpr friend auto BestReflect(auto& m, G866*) { return m.infer()
    .with(&G866::juliet, cli::flag{.arg = "ARG867", .help = "helps 868a\nand 868b"})
    .with(&G866::echo, cli::flag{.letter = U'd', .vis = cli::Invisible, .help = "helps with 870"})
    .with(&G866::hazel, cli::flag{.arg = "ARG871", .count = cli::Optional, .help = "helps with 872"});
  }
};
inline void dump(Map& m, const std::string& p, const G866& v) { put(m, p + "juliet", v.juliet); put(m, p + "echo", v.echo); put(m, p + "hazel", v.hazel); }
inline Node* node_G866() { auto n = new Node; n->flags.push_back({"juliet", K_opt_int, "juliet", U'\0', VPublic, {}, -1, "ARG867", "helps 868a\nand 868b"});
  n->flags.push_back({"echo", K_bool, "echo", U'd', VInvisible, {}, -1, "", "helps with 870"});
  n->flags.push_back({"hazel", K_i64, "hazel", U'\0', VPublic, {}, 0, "ARG871", "helps with 872"});
  return n; }
struct S875 {
  best::vec<best::str> quartz; best::vec<int> delta_t; Celsius uniform; best::vec<best::strbuf> f882_oscar; int f885_pos = 0; int64_t f888_pos = 0; Quiet f890_pos; best::vec<best::str> f893_rest;
  constexpr friend auto BestReflect(auto& m, S875*) { return m.infer()
    .with(&S875::quartz, cli::flag{.vis = cli::Hidden, .arg = "ARG876", .help = "helps 877a\nand 877b"}, cli::alias{"blue_sky", cli::Invisible}, cli::alias{"hotel_id", cli::Delete})
    .with(&S875::delta_t, cli::flag{.vis = cli::Hidden, .help = "helps 879a\nand 879b"})
    .with(&S875::uniform, cli::flag{.letter = U'n', .vis = cli::Hidden, .arg = "ARG880", .count = cli::Repeated, .help = "helps with 881"})
    .with(&S875::f882_oscar, cli::flag{.name = "oscar", .letter = U's', .arg = "ARG883", .help = "helps 884a\nand 884b"})
    .with(&S875::f885_pos, cli::positional{.count = cli::Required, .help = "helps with 887"})
    .with(&S875::f888_pos, cli::positional{.name = "POS889", .count = cli::Required})
    .with(&S875::f890_pos, cli::positional{.help = "helps 892a\nand 892b"});
  }
};
inline void dump(Map& m, const std::string& p, const S875& v) { put(m, p + "quartz", v.quartz); put(m, p + "delta_t", v.delta_t); put(m, p + "uniform", v.uniform); put(m, p + "f882_oscar", v.f882_oscar); put(m, p + "f885_pos", v.f885_pos); put(m, p + "f888_pos", v.f888_pos); put(m, p + "f890_pos", v.f890_pos); put(m, p + "f893_rest", v.f893_rest); }
inline Node* node_S875() { auto n = new Node; n->flags.push_back({"quartz", K_vec_str, "quartz", U'\0', VHidden, {{"blue_sky", VInvisible}, {"hotel_id", VDelete}}, -1, "ARG876", "helps 877a\nand 877b"});
  n->flags.push_back({"delta_t", K_vec_int, "delta_t", U'\0', VHidden, {}, -1, "", "helps 879a\nand 879b"});
  n->flags.push_back({"uniform", K_custom, "uniform", U'n', VHidden, {}, 2, "ARG880", "helps with 881"});
  n->flags.push_back({"f882_oscar", K_vec_buf, "oscar", U's', VPublic, {}, -1, "ARG883", "helps 884a\nand 884b"});
  n->poss.push_back({"f885_pos", K_int, "", 1, "helps with 887"});
  n->poss.push_back({"f888_pos", K_i64, "POS889", 1, ""});
  n->poss.push_back({"f890_pos", K_quiet, "", -1, "helps 892a\nand 892b"});
  n->poss.push_back({"f893_rest", K_vec_str, "", -1, ""});
  return n; }
struct S836 {
  int64_t white_noise = 0; G839 f857_november_x; int yankee = 0; best::vec<best::str> f861__lan_x; int xray = 0; G866 f873_quartz; S875 hazel; int64_t f897_pos = 0; best::vec<best::strbuf> f900_rest;
  constexpr friend auto BestReflect(auto& m, S836*) { return m.infer()
    .with(&S836::white_noise, cli::flag{.count = cli::Optional, .help = "helps with 838"})
    .with(&S836::f857_november_x, cli::group{.vis = cli::Hidden, .help = "helps with 858"})
    .with(&S836::yankee, cli::flag{.help = "helps with 860"})
    .with(&S836::f861__lan_x, cli::flag{.name = "élan-x", .letter = U'l', .help = "helps with 863"})
    .with(&S836::xray, cli::flag{.letter = U'a', .help = "helps with 865"}, cli::alias{"sierra", cli::Hidden})
    .with(&S836::f873_quartz, cli::group{.name = "quartz", .help = "helps with 874"})
    .with(&S836::hazel, cli::subcommand{.help = "helps with 895", .about = "about 896\nmore"})
    .with(&S836::f897_pos, cli::positional{.name = "POS898", .help = "helps with 899"})
    .with(&S836::f900_rest, cli::positional{.name = "POS901"});
  }
};
inline void dump(Map& m, const std::string& p, const S836& v) { put(m, p + "white_noise", v.white_noise); dump(m, p + "f857_november_x.", v.f857_november_x); put(m, p + "yankee", v.yankee); put(m, p + "f861__lan_x", v.f861__lan_x); put(m, p + "xray", v.xray); dump(m, p + "f873_quartz.", v.f873_quartz); dump(m, p + "hazel.", v.hazel); put(m, p + "f897_pos", v.f897_pos); put(m, p + "f900_rest", v.f900_rest); }
inline Node* node_S836() { auto n = new Node; n->flags.push_back({"white_noise", K_i64, "white_noise", U'\0', VPublic, {}, 0, "", "helps with 838"});
  n->groups.push_back({"f857_november_x", "", U'\0', VHidden, {}, "helps with 858", node_G839()});
  n->flags.push_back({"yankee", K_int, "yankee", U'\0', VPublic, {}, -1, "", "helps with 860"});
  n->flags.push_back({"f861__lan_x", K_vec_str, "élan-x", U'l', VPublic, {}, -1, "", "helps with 863"});
  n->flags.push_back({"xray", K_int, "xray", U'a', VPublic, {{"sierra", VHidden}}, -1, "", "helps with 865"});
  n->groups.push_back({"f873_quartz", "quartz", U'\0', VPublic, {}, "helps with 874", node_G866()});
  n->subs.push_back({"hazel", "hazel", VPublic, {}, "helps with 895", "about 896\nmore", node_S875()});
  n->poss.push_back({"f897_pos", K_i64, "POS898", -1, "helps with 899"});
  n->poss.push_back({"f900_rest", K_vec_buf, "POS901", -1, ""});
  return n; }
struct G920 {
  int f921_yankee = 0; int64_t juliet = 0; Celsius f926_romeo; Quiet delta_t;
  constexpr friend auto BestReflect(auto& m, G920*) { return m.infer()
    .with(&G920::f921_yankee, cli::flag{.name = "yankee", .letter = U'o', .count = cli::Optional, .help = "helps 923a\nand 923b"})
    .with(&G920::juliet, cli::flag{.help = "helps with 925"}, cli::alias{"gold"})
    .with(&G920::f926_romeo, cli::flag{.name = "romeo", .letter = U'x', .arg = "ARG927", .help = "helps 928a\n928b\n928c, the last"}, cli::alias{"uniform", cli::Public}, cli::alias{"blue_sky"})
    .with(&G920::delta_t, cli::flag{.letter = U'f', .arg = "ARG929", .help = "helps with 930"}, cli::alias{"echo", cli::Delete});
  }
};
inline void dump(Map& m, const std::string& p, const G920& v) { put(m, p + "f921_yankee", v.f921_yankee); put(m, p + "juliet", v.juliet); put(m, p + "f926_romeo", v.f926_romeo); put(m, p + "delta_t", v.delta_t); }
inline Node* node_G920() { auto n = new Node; n->flags.push_back({"f921_yankee", K_int, "yankee", U'o', VPublic, {}, 0, "", "helps 923a\nand 923b"});
  n->flags.push_back({"juliet", K_i64, "juliet", U'\0', VPublic, {{"gold", VPublic}}, -1, "", "helps with 925"});
  n->flags.push_back({"f926_romeo", K_custom, "romeo", U'x', VPublic, {{"uniform", VPublic}, {"blue_sky", VPublic}}, -1, "ARG927", "helps 928a\n928b\n928c, the last"});
  n->flags.push_back({"delta_t", K_quiet, "delta_t", U'f', VPublic, {{"echo", VDelete}}, -1, "ARG929", "helps with 930"});
  return n; }
struct G909 {
  best::option<bool> f910_teal; best::vec<int> f913_violet; best::vec<best::str> white_noise; best::option<bool> maroon; G920 f931_victor_y;
  constexpr friend auto BestReflect(auto& m, G909*) { return m.infer()
    .with(&G909::f910_teal, cli::flag{.name = "teal", .help = "helps with 912"})
    .with(&G909::f913_violet, cli::flag{.name = "violet", .count = cli::Repeated, .help = "helps 915a\nand 915b"})
    .with(&G909::white_noise, cli::flag{.letter = U'λ', .count = cli::Repeated, .help = "helps with 917"})
    .with(&G909::maroon, cli::flag{.letter = U'p', .vis = cli::Hidden, .count = cli::Repeated, .help = "helps 919a\nand 919b"}, cli::alias{"bravo", cli::Delete}, cli::alias{"delta_t", cli::Hidden})
    .with(&G909::f931_victor_y, cli::group{.name = "victor_y", .help = "helps with 932"});
  }
};
inline void dump(Map& m, const std::string& p, const G909& v) { put(m, p + "f910_teal", v.f910_teal); put(m, p + "f913_violet", v.f913_violet); put(m, p + "white_noise", v.white_noise); put(m, p + "maroon", v.maroon); dump(m, p + "f931_victor_y.", v.f931_victor_y); }
inline Node* node_G909() { auto n = new Node; n->flags.push_back({"f910_teal", K_opt_bool, "teal", U'\0', VPublic, {}, -1, "", "helps with 912"});
  n->flags.push_back({"f913_violet", K_vec_int, "violet", U'\0', VPublic, {}, 2, "", "helps 915a\nand 915b"});
  n->flags.push_back({"white_noise", K_vec_str, "white_noise", U'λ', VPublic, {}, 2, "", "helps with 917"});
  n->flags.push_back({"maroon", K_opt_bool, "maroon", U'p', VHidden, {{"bravo", VDelete}, {"delta_t", VHidden}}, 2, "", "helps 919a\nand 919b"});
  n->groups.push_back({"f931_victor_y", "victor_y", U'\0', VPublic, {}, "helps with 932", node_G920()});
  return n; }
struct G941 {
  best::option<int> f942_violet; int f945_gold = 0;
  constexpr friend auto BestReflect(auto& m, G941*) { return m.infer()
    .with(&G941::f942_violet, cli::flag{.name = "violet", .letter = U'e', .vis = cli::Invisible, .arg = "ARG943", .count = cli::Repeated, .help = "helps 944a\n944b\n944c, the last"})
    .with(&G941::f945_gold, cli::flag{.name = "gold", .vis = cli::Invisible, .help = "helps 947a\n947b\n947c, the last"}, cli::alias{"amber", cli::Delete});
  }
};
inline void dump(Map& m, const std::string& p, const G941& v) { put(m, p + "f942_violet", v.f942_violet); put(m, p + "f945_gold", v.f945_gold); }
inline Node* node_G941() { auto n = new Node; n->flags.push_back({"f942_violet", K_opt_int, "violet", U'e', VInvisible, {}, 2, "ARG943", "helps 944a\n944b\n944c, the last"});
  n->flags.push_back({"f945_gold", K_int, "gold", U'\0', VInvisible, {{"amber", VDelete}}, -1, "", "helps 947a\n947b\n947c, the last"});
  return n; }
struct G935 {
  best::option<best::rune> november_x; best::str f938_amber; G941 f948_mike;
  constexpr friend auto BestReflect(auto& m, G935*) { return m.infer()
    .with(&G935::november_x, cli::flag{.count = cli::Repeated, .help = "helps with 937"}, cli::alias{"quartz", cli::Delete}, cli::alias{"violet", cli::Public})
    .with(&G935::f938_amber, cli::flag{.name = "amber", .arg = "ARG939", .count = cli::Repeated, .help = "helps with 940"}, cli::alias{"gold", cli::Invisible}, cli::alias{"yankee", cli::Delete})
    .with(&G935::f948_mike, cli::group{.letter = U'Ñ', .vis = cli::Hidden, .help = "helps with 949"});
  }
};
inline void dump(Map& m, const std::string& p, const G935& v) { put(m, p + "november_x", v.november_x); put(m, p + "f938_amber", v.f938_amber); dump(m, p + "f948_mike.", v.f948_mike); }
inline Node* node_G935() { auto n = new Node; n->flags.push_back({"november_x", K_opt_rune, "november_x", U'\0', VPublic, {{"quartz", VDelete}, {"violet", VPublic}}, 2, "", "helps with 937"});
  n->flags.push_back({"f938_amber", K_str, "amber", U'\0', VPublic, {{"gold", VInvisible}, {"yankee", VDelete}}, 2, "ARG939", "helps with 940"});
  n->groups.push_back({"f948_mike", "", U'Ñ', VHidden, {}, "helps with 949", node_G941()});
  return n; }
struct R10 {
  S836 ebony; best::vec<best::str> f904_hotel_id; best::vec<int> f906_navy_3; G909 f933_violet; G935 f950_india; best::option<int> f952_pos; best::rune f955_pos; best::vec<best::strbuf> f957_rest;
  constexpr friend auto BestReflect(auto& m, R10*) { return m.infer().with(cli::app{.authors = "people 959", .about = "about app 959\nin lines", .version = "1.959", .url = "https://u959", .license = "LIC-959"})
    .with(&R10::ebony, cli::subcommand{.vis = cli::Hidden, .help = "helps with 902"}, cli::alias{"mike", cli::Invisible})
    .with(&R10::f904_hotel_id, cli::flag{.name = "hotel_id"}, cli::alias{"yankee", cli::Hidden})
    .with(&R10::f906_navy_3, cli::flag{.name = "navy-3", .count = cli::Repeated, .help = "helps with 908"}, cli::alias{"über", cli::Delete})
    .with(&R10::f933_violet, cli::group{.name = "violet", .letter = U'W', .help = "helps with 934"})
    .with(&R10::f950_india, cli::group{.name = "india", .letter = U'Q', .help = "helps with 951"}, cli::alias{"olive", cli::Invisible})
    .with(&R10::f952_pos, cli::positional{.name = "POS953", .count = cli::Optional, .help = "ünï help 954"})
    .with(&R10::f955_pos, cli::positional{.count = cli::Optional})
    .with(&R10::f957_rest, cli::positional{.name = "POS958"});
  }
};
inline void dump(Map& m, const std::string& p, const R10& v) { dump(m, p + "ebony.", v.ebony); put(m, p + "f904_hotel_id", v.f904_hotel_id); put(m, p + "f906_navy_3", v.f906_navy_3); dump(m, p + "f933_violet.", v.f933_violet); dump(m, p + "f950_india.", v.f950_india); put(m, p + "f952_pos", v.f952_pos); put(m, p + "f955_pos", v.f955_pos); put(m, p + "f957_rest", v.f957_rest); }
inline Node* node_R10() { auto n = new Node; n->subs.push_back({"ebony", "ebony", VHidden, {{"mike", VInvisible}}, "helps with 902", "", node_S836()});
  n->flags.push_back({"f904_hotel_id", K_vec_str, "hotel_id", U'\0', VPublic, {{"yankee", VHidden}}, -1, "", ""});
  n->flags.push_back({"f906_navy_3", K_vec_int, "navy-3", U'\0', VPublic, {{"über", VDelete}}, 2, "", "helps with 908"});
  n->groups.push_back({"f933_violet", "violet", U'W', VPublic, {}, "helps with 934", node_G909()});
  n->groups.push_back({"f950_india", "india", U'Q', VPublic, {{"olive", VInvisible}}, "helps with 951", node_G935()});
  n->poss.push_back({"f952_pos", K_opt_int, "POS953", 0, "ünï help 954"});
  n->poss.push_back({"f955_pos", K_rune, "", 0, ""});
  n->poss.push_back({"f957_rest", K_vec_buf, "POS958", -1, ""});
  n->has_app = true; n->authors = "people 959"; n->about = "about app 959\nin lines"; n->version = "1.959"; n->url = "https://u959"; n->license = "LIC-959";
  return n; }
DEFINITION(R10)
struct G960 {
  Quiet lima; best::rune f963_hotel_id; best::rune f966_khaki_2;
  constexpr friend auto BestReflect(auto& m, G960*) { return m.infer()
    .with(&G960::lima, cli::flag{.letter = U'q', .vis = cli::Invisible, .help = "helps with 962"}, cli::alias{"gold"})
    .with(&G960::f963_hotel_id, cli::flag{.name = "hotel_id", .letter = U's', .vis = cli::Invisible, .help = "helps with 965"})
    .with(&G960::f966_khaki_2, cli::flag{.name = "khaki-2", .letter = U'a', .arg = "ARG967", .count = cli::Optional, .help = "helps with 968"});
  }
};
inline void dump(Map& m, const std::string& p, const G960& v) { put(m, p + "lima", v.lima); put(m, p + "f963_hotel_id", v.f963_hotel_id); put(m, p + "f966_khaki_2", v.f966_khaki_2); }
inline Node* node_G960() { auto n = new Node; n->flags.push_back({"lima", K_quiet, "lima", U'q', VInvisible, {{"gold", VInvisible}}, -1, "", "helps with 962"});
  n->flags.push_back({"f963_hotel_id", K_rune, "hotel_id", U's', VInvisible, {}, -1, "", "helps with 965"});
  n->flags.push_back({"f966_khaki_2", K_rune, "khaki-2", U'a', VPublic, {}, 0, "ARG967", "helps with 968"});
  return n; }
struct G980 {
  best::option<int> teal; best::vec<bool> f983_alpha; bool echo = false; best::vec<best::strbuf> oscar;
  constexpr friend auto BestReflect(auto& m, G980*) { return m.infer()
    .with(&G980::teal, cli::flag{.letter = U'a', .vis = cli::Invisible, .help = "helps 982a\n982b\n982c, the last"})
    .with(&G980::f983_alpha, cli::flag{.name = "alpha", .letter = U'g', .help = "helps 985a\nand 985b"})
    .with(&G980::echo, cli::flag{.arg = "ARG986", .count = cli::Repeated})
    .with(&G980::oscar, cli::flag{.letter = U'🐈', .count = cli::Optional, .help = "helps with 988"}, cli::alias{"indigo", cli::Delete});
  }
};
inline void dump(Map& m, const std::string& p, const G980& v) { put(m, p + "teal", v.teal); put(m, p + "f983_alpha", v.f983_alpha); put(m, p + "echo", v.echo); put(m, p + "oscar", v.oscar); }
inline Node* node_G980() { auto n = new Node; n->flags.push_back({"teal", K_opt_int, "teal", U'a', VInvisible, {}, -1, "", "helps 982a\n982b\n982c, the last"});
  n->flags.push_back({"f983_alpha", K_vec_bool, "alpha", U'g', VPublic, {}, -1, "", "helps 985a\nand 985b"});
  n->flags.push_back({"echo", K_bool, "echo", U'\0', VPublic, {}, 2, "ARG986", ""});
  n->flags.push_back({"oscar", K_vec_buf, "oscar", U'🐈', VPublic, {{"indigo", VDelete}}, 0, "", "helps with 988"});
  return n; }
struct G976 {
  bool f977__lan_x = false; Quiet tango; G980 f989_teal; best::option<int> cargo_lock;
  constexpr friend auto BestReflect(auto& m, G976*) { return m.infer()
    .with(&G976::f977__lan_x, cli::flag{.name = "élan-x", .letter = U'o', .arg = "ARG978", .count = cli::Optional})
    .with(&G976::tango, cli::flag{.letter = U'c', .count = cli::Repeated}, cli::alias{"navy-3"})
    .with(&G976::f989_teal, cli::group{.letter = U'W', .help = "helps with 990"})
    .with(&G976::cargo_lock, cli::flag{.letter = U'w', .help = "helps 992a\n992b\n992c, the last"});
  }
};
inline void dump(Map& m, const std::string& p, const G976& v) { put(m, p + "f977__lan_x", v.f977__lan_x); put(m, p + "tango", v.tango); dump(m, p + "f989_teal.", v.f989_teal); put(m, p + "cargo_lock", v.cargo_lock); }
inline Node* node_G976() { auto n = new Node; n->flags.push_back({"f977__lan_x", K_bool, "élan-x", U'o', VPublic, {}, 0, "ARG978", ""});
  n->flags.push_back({"tango", K_quiet, "tango", U'c', VPublic, {{"navy-3", VPublic}}, 2, "", ""});
  n->groups.push_back({"f989_teal", "", U'W', VPublic, {}, "helps with 990", node_G980()});
  n->flags.push_back({"cargo_lock", K_opt_int, "cargo-lock", U'w', VPublic, {}, -1, "", "helps 992a\n992b\n992c, the last"});
  return n; }
struct S975 {
  G976 f993_papa; best::strbuf blue_sky; best::vec<best::strbuf> f997_rest;
  constexpr friend auto BestReflect(auto& m, S975*) { return m.infer()
    .with(&S975::f993_papa, cli::group{.name = "papa", .letter = U'Ñ', .vis = cli::Invisible, .help = "helps 994a\nand 994b"})
    .with(&S975::blue_sky, cli::flag{.letter = U'7', .arg = "ARG995", .help = "helps 996a\n996b\n996c, the last"}, cli::alias{"romeo"});
  }
};
inline void dump(Map& m, const std::string& p, const S975& v) { dump(m, p + "f993_papa.", v.f993_papa); put(m, p + "blue_sky", v.blue_sky); put(m, p + "f997_rest", v.f997_rest); }
inline Node* node_S975() { auto n = new Node; n->groups.push_back({"f993_papa", "papa", U'Ñ', VInvisible, {}, "helps 994a\nand 994b", node_G976()});
  n->flags.push_back({"blue_sky", K_strbuf, "blue_sky", U'7', VPublic, {{"romeo", VPublic}}, -1, "ARG995", "helps 996a\n996b\n996c, the last"});
  n->poss.push_back({"f997_rest", K_vec_buf, "", -1, ""});
  return n; }
struct R11 {
  G960 f969_tango; best::vec<best::strbuf> f970_india; best::option<int> ebony; S975 f999_kilo_watt; best::vec<best::str> f1002_echo; int f1005_red = 0; int f1008_papa = 0; best::vec<int> f1011_yankee; G960 f1014_blue_sky; G960 f1016_lima; best::option<int> f1017_pos; best::strbuf f1019_pos;
  constexpr friend auto BestReflect(auto& m, R11*) { return m.infer().with(cli::app{.authors = "people 1022", .version = "1.1022", .url = "https://u1022", .license = "LIC-1022"})
    .with(&R11::f969_tango, cli::group{.name = "tango", .vis = cli::Delete})
    .with(&R11::f970_india, cli::flag{.name = "india", .letter = U'r', .vis = cli::Invisible, .help = "helps with 972"})
    .with(&R11::ebony, cli::flag{.letter = U'i', .count = cli::Optional, .help = "helps 974a\nand 974b"}, cli::alias{"sierra", cli::Delete})
    .with(&R11::f999_kilo_watt, cli::subcommand{.name = "kilo-watt", .help = "helps 1000a\nand 1000b"}, cli::alias{"violet"})
    .with(&R11::f1002_echo, cli::flag{.name = "echo", .letter = U'a', .help = "helps 1004a\nand 1004b"})
    .with(&R11::f1005_red, cli::flag{.name = "red", .letter = U'y', .help = "helps with 1007"}, cli::alias{"teal", cli::Delete})
    .with(&R11::f1008_papa, cli::flag{.name = "papa", .letter = U'é', .help = "helps with 1010"})
    .with(&R11::f1011_yankee, cli::flag{.name = "yankee", .letter = U'p', .help = "helps 1013a\n1013b\n1013c, the last"}, cli::alias{"lemon"})
    .with(&R11::f1014_blue_sky, cli::group{.name = "blue_sky", .help = "helps with 1015"})
    .with(&R11::f1016_lima, cli::group{.name = "lima", .letter = U'C'})
    .with(&R11::f1019_pos, cli::positional{.help = "helps 1021a\nand 1021b"});
  }
};
inline void dump(Map& m, const std::string& p, const R11& v) { dump(m, p + "f969_tango.", v.f969_tango); put(m, p + "f970_india", v.f970_india); put(m, p + "ebony", v.ebony); dump(m, p + "f999_kilo_watt.", v.f999_kilo_watt); put(m, p + "f1002_echo", v.f1002_echo); put(m, p + "f1005_red", v.f1005_red); put(m, p + "f1008_papa", v.f1008_papa); put(m, p + "f1011_yankee", v.f1011_yankee); dump(m, p + "f1014_blue_sky.", v.f1014_blue_sky); dump(m, p + "f1016_lima.", v.f1016_lima); put(m, p + "f1017_pos", v.f1017_pos); put(m, p + "f1019_pos", v.f1019_pos); }
inline Node* node_R11() { auto n = new Node; n->groups.push_back({"f969_tango", "tango", U'\0', VDelete, {}, "", node_G960()});
  n->flags.push_back({"f970_india", K_vec_buf, "india", U'r', VInvisible, {}, -1, "", "helps with 972"});
  n->flags.push_back({"ebony", K_opt_int, "ebony", U'i', VPublic, {{"sierra", VDelete}}, 0, "", "helps 974a\nand 974b"});
  n->subs.push_back({"f999_kilo_watt", "kilo-watt", VPublic, {{"violet", VPublic}}, "helps 1000a\nand 1000b", "", node_S975()});
  n->flags.push_back({"f1002_echo", K_vec_str, "echo", U'a', VPublic, {}, -1, "", "helps 1004a\nand 1004b"});
  n->flags.push_back({"f1005_red", K_int, "red", U'y', VPublic, {{"teal", VDelete}}, -1, "", "helps with 1007"});
  n->flags.push_back({"f1008_papa", K_int, "papa", U'é', VPublic, {}, -1, "", "helps with 1010"});
  n->flags.push_back({"f1011_yankee", K_vec_int, "yankee", U'p', VPublic, {{"lemon", VPublic}}, -1, "", "helps 1013a\n1013b\n1013c, the last"});
  n->groups.push_back({"f1014_blue_sky", "blue_sky", U'\0', VPublic, {}, "helps with 1015", node_G960()});
  n->groups.push_back({"f1016_lima", "lima", U'C', VPublic, {}, "", node_G960()});
  n->poss.push_back({"f1017_pos", K_opt_int, "", -1, ""});
  n->poss.push_back({"f1019_pos", K_strbuf, "", -1, "helps 1021a\nand 1021b"});
  n->has_app = true; n->authors = "people 1022"; n->version = "1.1022"; n->url = "https://u1022"; n->license = "LIC-1022";
  return n; }
DEFINITION(R11)
#endif
