// Generated by tools/gen_cli.py 12 20251.
#ifdef PART_A
struct G7 {
  best::strbuf f8_foxtrot; int f11_lima = 0;
  constexpr friend auto BestReflect(auto& m, G7*) { return m.infer()
    .with(&G7::f8_foxtrot, cli::flag{.name = "foxtrot", .vis = cli::Hidden, .help = "helps with 10"})
    .with(&G7::f11_lima, cli::flag{.name = "lima", .help = "helps 13a\nand 13b"}, cli::alias{"papa"});
  }
};
inline void dump(Map& m, const std::string& p, const G7& v) { put(m, p + "f8_foxtrot", v.f8_foxtrot); put(m, p + "f11_lima", v.f11_lima); }
inline Node* node_G7() { auto n = new Node; n->flags.push_back({"f8_foxtrot", K_strbuf, "foxtrot", U'\0', VHidden, {}, -1, "", "helps with 10"});
  n->flags.push_back({"f11_lima", K_int, "lima", U'\0', VPublic, {{"papa", VPublic}}, -1, "", "helps 13a\nand 13b"});
  return n; }
struct S22 {
  int64_t echo = 0; best::rune f25_copper; bool f28_pos = false; best::vec<bool> f31_rest;
  constexpr friend auto BestReflect(auto& m, S22*) { return m.infer()
    .with(&S22::echo, cli::flag{.letter = U'i', .help = "helps 24a\nand 24b"})
    .with(&S22::f25_copper, cli::flag{.name = "copper", .vis = cli::Hidden, .arg = "ARG26", .count = cli::Repeated, .help = "helps with 27"}, cli::alias{"teal"}, cli::alias{"gold", cli::Delete})
    .with(&S22::f28_pos, cli::positional{.count = cli::Optional, .help = "helps 30a\n30b\n30c, the last"});
  }
};
inline void dump(Map& m, const std::string& p, const S22& v) { put(m, p + "echo", v.echo); put(m, p + "f25_copper", v.f25_copper); put(m, p + "f28_pos", v.f28_pos); put(m, p + "f31_rest", v.f31_rest); }
inline Node* node_S22() { auto n = new Node; n->flags.push_back({"echo", K_i64, "echo", U'i', VPublic, {}, -1, "", "helps 24a\nand 24b"});
  n->flags.push_back({"f25_copper", K_rune, "copper", U'\0', VHidden, {{"teal", VHidden}, {"gold", VDelete}}, 2, "ARG26", "helps with 27"});
  n->poss.push_back({"f28_pos", K_bool, "", 0, "helps 30a\n30b\n30c, the last"});
  n->poss.push_back({"f31_rest", K_vec_bool, "", -1, ""});
  return n; }
struct G15 {
  bool f16_kilo_watt = false; int64_t whiskey = 0; best::str umber; S22 f33_foxtrot; best::option<int> f35_hotel_id;
  constexpr friend auto BestReflect(auto& m, G15*) { return m.infer()
    .with(&G15::f16_kilo_watt, cli::flag{.name = "kilo-watt", .vis = cli::Invisible, .arg = "ARG17", .count = cli::Optional, .help = "helps 18a\n18b\n18c, the last"}, cli::alias{"xray", cli::Invisible})
    .with(&G15::whiskey, cli::flag{.vis = cli::Invisible}, cli::alias{"jade_green", cli::Invisible})
    .with(&G15::umber, cli::flag{.letter = U't', .count = cli::Repeated, .help = "helps with 21"}, cli::alias{"white_noise", cli::Hidden})
    .with(&G15::f33_foxtrot, cli::subcommand{.name = "foxtrot", .vis = cli::Hidden})
    .with(&G15::f35_hotel_id, cli::flag{.name = "hotel_id", .letter = U'g', .help = "helps with 37"}, cli::alias{"quebec-city"}, cli::alias{"yankee", cli::Hidden});
  }
};
inline void dump(Map& m, const std::string& p, const G15& v) { put(m, p + "f16_kilo_watt", v.f16_kilo_watt); put(m, p + "whiskey", v.whiskey); put(m, p + "umber", v.umber); dump(m, p + "f33_foxtrot.", v.f33_foxtrot); put(m, p + "f35_hotel_id", v.f35_hotel_id); }
inline Node* node_G15() { auto n = new Node; n->flags.push_back({"f16_kilo_watt", K_bool, "kilo-watt", U'\0', VInvisible, {{"xray", VInvisible}}, 0, "ARG17", "helps 18a\n18b\n18c, the last"});
  n->flags.push_back({"whiskey", K_i64, "whiskey", U'\0', VInvisible, {{"jade_green", VInvisible}}, -1, "", ""});
  n->flags.push_back({"umber", K_str, "umber", U't', VPublic, {{"white_noise", VHidden}}, 2, "", "helps with 21"});
  n->subs.push_back({"f33_foxtrot", "foxtrot", VHidden, {}, "", "", node_S22()});
  n->flags.push_back({"f35_hotel_id", K_opt_int, "hotel_id", U'g', VPublic, {{"quebec-city", VPublic}, {"yankee", VHidden}}, -1, "", "helps with 37"});
  return n; }
struct S40 {
  uint8_t f41_cargo_lock = 0; best::strbuf zulu;
  constexpr friend auto BestReflect(auto& m, S40*) { return m.infer()
    .with(&S40::f41_cargo_lock, cli::flag{.name = "cargo-lock", .letter = U'd', .arg = "ARG42"}, cli::alias{"élan-x", cli::Invisible})
    .with(&S40::zulu, cli::flag{.letter = U'b', .arg = "ARG43", .count = cli::Repeated, .help = "helps with 44"}, cli::alias{"indigo"});
  }
};
inline void dump(Map& m, const std::string& p, const S40& v) { put(m, p + "f41_cargo_lock", v.f41_cargo_lock); put(m, p + "zulu", v.zulu); }
inline Node* node_S40() { auto n = new Node; n->flags.push_back({"f41_cargo_lock", K_u8, "cargo-lock", U'd', VPublic, {{"élan-x", VInvisible}}, -1, "ARG42", ""});
  n->flags.push_back({"zulu", K_strbuf, "zulu", U'b', VPublic, {{"indigo", VPublic}}, 2, "ARG43", "helps with 44"});
  return n; }
struct S48 {
  Celsius f49_silver_9; int64_t f52_copper = 0; best::strbuf f55_pos; best::option<best::rune> f58_pos; int f61_pos = 0;
  constexpr friend auto BestReflect(auto& m, S48*) { return m.infer()
    .with(&S48::f49_silver_9, cli::flag{.name = "silver-9", .vis = cli::Delete, .arg = "ARG50", .count = cli::Optional, .help = "helps with 51"})
    .with(&S48::f52_copper, cli::flag{.name = "copper", .letter = U'm', .vis = cli::Hidden, .count = cli::Repeated, .help = "helps with 54"}, cli::alias{"echo"})
    .with(&S48::f55_pos, cli::positional{.count = cli::Required, .help = "helps 57a\nand 57b"})
    .with(&S48::f58_pos, cli::positional{.count = cli::Required, .help = "helps with 60"})
    .with(&S48::f61_pos, cli::positional{.count = cli::Required, .help = "helps with 63"});
  }
};
inline void dump(Map& m, const std::string& p, const S48& v) { put(m, p + "f49_silver_9", v.f49_silver_9); put(m, p + "f52_copper", v.f52_copper); put(m, p + "f55_pos", v.f55_pos); put(m, p + "f58_pos", v.f58_pos); put(m, p + "f61_pos", v.f61_pos); }
inline Node* node_S48() { auto n = new Node; n->flags.push_back({"f49_silver_9", K_custom, "silver-9", U'\0', VDelete, {}, 0, "ARG50", "helps with 51"});
  n->flags.push_back({"f52_copper", K_i64, "copper", U'm', VHidden, {{"echo", VHidden}}, 2, "", "helps with 54"});
  n->poss.push_back({"f55_pos", K_strbuf, "", 1, "helps 57a\nand 57b"});
  n->poss.push_back({"f58_pos", K_opt_rune, "", 1, "helps with 60"});
  n->poss.push_back({"f61_pos", K_int, "", 1, "helps with 63"});
  return n; }
struct R0 {
  best::vec<bool> f1_whiskey; best::vec<int> f4_lima; G7 f14_hotel_id; G15 f38_romeo; S40 f45_ebony; S48 f64_copper; best::vec<int> f67_na_ve;
  constexpr friend auto BestReflect(auto& m, R0*) { return m.infer()
    .with(&R0::f1_whiskey, cli::flag{.name = "whiskey", .letter = U'j', .vis = cli::Hidden, .arg = "ARG2", .help = "helps with 3"})
    .with(&R0::f4_lima, cli::flag{.name = "lima", .help = "helps with 6"})
    .with(&R0::f14_hotel_id, cli::group{.letter = U'C'})
    .with(&R0::f38_romeo, cli::group{.name = "romeo", .help = "helps with 39"})
    .with(&R0::f45_ebony, cli::subcommand{.name = "ebony", .vis = cli::Invisible, .help = "helps with 46", .about = "about 47\nmore"})
    .with(&R0::f64_copper, cli::subcommand{.name = "copper", .help = "helps with 65"})
    .with(&R0::f67_na_ve, cli::flag{.name = "naïve", .letter = U'r', .vis = cli::Delete, .arg = "ARG68"});
  }
};
inline void dump(Map& m, const std::string& p, const R0& v) { put(m, p + "f1_whiskey", v.f1_whiskey); put(m, p + "f4_lima", v.f4_lima); dump(m, p + "f14_hotel_id.", v.f14_hotel_id); dump(m, p + "f38_romeo.", v.f38_romeo); dump(m, p + "f45_ebony.", v.f45_ebony); dump(m, p + "f64_copper.", v.f64_copper); put(m, p + "f67_na_ve", v.f67_na_ve); }
inline Node* node_R0() { auto n = new Node; n->flags.push_back({"f1_whiskey", K_vec_bool, "whiskey", U'j', VHidden, {}, -1, "ARG2", "helps with 3"});
  n->flags.push_back({"f4_lima", K_vec_int, "lima", U'\0', VPublic, {}, -1, "", "helps with 6"});
  n->groups.push_back({"f14_hotel_id", "", U'C', VPublic, {}, "", node_G7()});
  n->groups.push_back({"f38_romeo", "romeo", U'\0', VPublic, {}, "helps with 39", node_G15()});
  n->subs.push_back({"f45_ebony", "ebony", VInvisible, {}, "helps with 46", "about 47\nmore", node_S40()});
  n->subs.push_back({"f64_copper", "copper", VPublic, {}, "helps with 65", "", node_S48()});
  n->flags.push_back({"f67_na_ve", K_vec_int, "naïve", U'r', VDelete, {}, -1, "ARG68", ""});
  return n; }
DEFINITION(R0)
struct S79 {
  best::vec<best::strbuf> f80__lan_x; best::vec<bool> hazel; uint8_t india = 0; best::vec<bool> f87_yankee; Celsius f90_pos; bool f93_pos = false; Quiet f96_pos;
  constexpr friend auto BestReflect(auto& m, S79*) { return m.infer()
    .with(&S79::f80__lan_x, cli::flag{.name = "élan-x", .letter = U'a', .vis = cli::Hidden, .help = "helps with 82"}, cli::alias{"romeo", cli::Invisible})
    .with(&S79::hazel, cli::flag{.vis = cli::Hidden, .arg = "ARG83", .count = cli::Optional, .help = "helps with 84"}, cli::alias{"teal", cli::Delete}, cli::alias{"alpha"})
    .with(&S79::india, cli::flag{.count = cli::Required, .help = "helps 86a\n86b\n86c, the last"}, cli::alias{"juliet"})
    .with(&S79::f87_yankee, cli::flag{.name = "yankee", .vis = cli::Invisible, .arg = "ARG88", .help = "helps 89a\n89b\n89c, the last"}, cli::alias{"lima"})
    .with(&S79::f90_pos, cli::positional{.count = cli::Required, .help = "helps 92a\nand 92b"})
    .with(&S79::f93_pos, cli::positional{.name = "POS94", .count = cli::Required, .help = "ünï help 95"})
    .with(&S79::f96_pos, cli::positional{.count = cli::Optional, .help = "ünï help 98"});
  }
};
inline void dump(Map& m, const std::string& p, const S79& v) { put(m, p + "f80__lan_x", v.f80__lan_x); put(m, p + "hazel", v.hazel); put(m, p + "india", v.india); put(m, p + "f87_yankee", v.f87_yankee); put(m, p + "f90_pos", v.f90_pos); put(m, p + "f93_pos", v.f93_pos); put(m, p + "f96_pos", v.f96_pos); }
inline Node* node_S79() { auto n = new Node; n->flags.push_back({"f80__lan_x", K_vec_buf, "élan-x", U'a', VHidden, {{"romeo", VInvisible}}, -1, "", "helps with 82"});
  n->flags.push_back({"hazel", K_vec_bool, "hazel", U'\0', VHidden, {{"teal", VDelete}, {"alpha", VHidden}}, 0, "ARG83", "helps with 84"});
  n->flags.push_back({"india", K_u8, "india", U'\0', VPublic, {{"juliet", VPublic}}, 1, "", "helps 86a\n86b\n86c, the last"});
  n->flags.push_back({"f87_yankee", K_vec_bool, "yankee", U'\0', VInvisible, {{"lima", VInvisible}}, -1, "ARG88", "helps 89a\n89b\n89c, the last"});
  n->poss.push_back({"f90_pos", K_custom, "", 1, "helps 92a\nand 92b"});
  n->poss.push_back({"f93_pos", K_bool, "POS94", 1, "ünï help 95"});
  n->poss.push_back({"f96_pos", K_quiet, "", 0, "ünï help 98"});
  return n; }
struct G75 {
  best::vec<best::str> f76_jade_green; S79 kilo_watt; uint8_t f101_tango = 0; Celsius yankee;
  constexpr friend auto BestReflect(auto& m, G75*) { return m.infer()
    .with(&G75::f76_jade_green, cli::flag{.name = "jade_green", .letter = U'n', .vis = cli::Invisible, .count = cli::Repeated, .help = "helps 78a\nand 78b"}, cli::alias{"sierra", cli::Invisible})
    .with(&G75::kilo_watt, cli::subcommand{.help = "helps 99a\n99b\n99c, the last"}, cli::alias{"foxtrot"})
    .with(&G75::f101_tango, cli::flag{.name = "tango", .letter = U'q'}, cli::alias{"victor_y", cli::Delete}, cli::alias{"zulu", cli::Public})
    .with(&G75::yankee, cli::flag{.help = "helps with 104"});
  }
};
inline void dump(Map& m, const std::string& p, const G75& v) { put(m, p + "f76_jade_green", v.f76_jade_green); dump(m, p + "kilo_watt.", v.kilo_watt); put(m, p + "f101_tango", v.f101_tango); put(m, p + "yankee", v.yankee); }
inline Node* node_G75() { auto n = new Node; n->flags.push_back({"f76_jade_green", K_vec_str, "jade_green", U'n', VInvisible, {{"sierra", VInvisible}}, 2, "", "helps 78a\nand 78b"});
  n->subs.push_back({"kilo_watt", "kilo-watt", VPublic, {{"foxtrot", VPublic}}, "helps 99a\n99b\n99c, the last", "", node_S79()});
  n->flags.push_back({"f101_tango", K_u8, "tango", U'q', VPublic, {{"victor_y", VDelete}, {"zulu", VPublic}}, -1, "", ""});
  n->flags.push_back({"yankee", K_custom, "yankee", U'\0', VPublic, {}, -1, "", "helps with 104"});
  return n; }
struct S71 {
  best::vec<best::str> f72_jade_green; G75 f105_navy_3; G75 f107_red; best::option<best::rune> f109_romeo; Celsius f112__ber; Quiet f115_pos; bool f118_pos = false; best::vec<best::str> f121_rest;
  constexpr friend auto BestReflect(auto& m, S71*) { return m.infer()
    .with(&S71::f72_jade_green, cli::flag{.name = "jade_green", .letter = U'p', .count = cli::Repeated, .help = "helps 74a\nand 74b"}, cli::alias{"teal", cli::Delete})
    .with(&S71::f105_navy_3, cli::group{.name = "navy-3", .help = "helps with 106"})
    .with(&S71::f107_red, cli::group{.name = "red", .letter = U'Ñ', .help = "helps with 108"})
    .with(&S71::f109_romeo, cli::flag{.name = "romeo", .letter = U'm', .arg = "ARG110", .help = "helps with 111"}, cli::alias{"alpha", cli::Invisible})
    .with(&S71::f112__ber, cli::flag{.name = "über", .letter = U'a', .count = cli::Repeated, .help = "helps with 114"}, cli::alias{"mike", cli::Public}, cli::alias{"hotel_id", cli::Invisible})
    .with(&S71::f115_pos, cli::positional{.name = "POS116", .count = cli::Optional, .help = "helps with 117"})
    .with(&S71::f118_pos, cli::positional{.name = "POS119", .help = "helps with 120"});
  }
};
inline void dump(Map& m, const std::string& p, const S71& v) { put(m, p + "f72_jade_green", v.f72_jade_green); dump(m, p + "f105_navy_3.", v.f105_navy_3); dump(m, p + "f107_red.", v.f107_red); put(m, p + "f109_romeo", v.f109_romeo); put(m, p + "f112__ber", v.f112__ber); put(m, p + "f115_pos", v.f115_pos); put(m, p + "f118_pos", v.f118_pos); put(m, p + "f121_rest", v.f121_rest); }
inline Node* node_S71() { auto n = new Node; n->flags.push_back({"f72_jade_green", K_vec_str, "jade_green", U'p', VPublic, {{"teal", VDelete}}, 2, "", "helps 74a\nand 74b"});
  n->groups.push_back({"f105_navy_3", "navy-3", U'\0', VPublic, {}, "helps with 106", node_G75()});
  n->groups.push_back({"f107_red", "red", U'Ñ', VPublic, {}, "helps with 108", node_G75()});
  n->flags.push_back({"f109_romeo", K_opt_rune, "romeo", U'm', VPublic, {{"alpha", VInvisible}}, -1, "ARG110", "helps with 111"});
  n->flags.push_back({"f112__ber", K_custom, "über", U'a', VPublic, {{"mike", VPublic}, {"hotel_id", VInvisible}}, 2, "", "helps with 114"});
  n->poss.push_back({"f115_pos", K_quiet, "POS116", 0, "helps with 117"});
  n->poss.push_back({"f118_pos", K_bool, "POS119", -1, "helps with 120"});
  n->poss.push_back({"f121_rest", K_vec_str, "", -1, ""});
  return n; }
struct G138 {
  best::rune f139_victor_y; best::vec<best::strbuf> f142_red; best::vec<best::str> quebec_city;
  constexpr friend auto BestReflect(auto& m, G138*) { return m.infer()
    .with(&G138::f139_victor_y, cli::flag{.name = "victor_y", .vis = cli::Hidden, .help = "helps 141a\nand 141b"}, cli::alias{"copper"})
    .with(&G138::f142_red, cli::flag{.name = "red", .letter = U'c', .count = cli::Optional, .help = "helps with 144"}, cli::alias{"uniform", cli::Public}, cli::alias{"tango", cli::Invisible})
    .with(&G138::quebec_city, cli::flag{.vis = cli::Hidden, .count = cli::Repeated, .help = "ünï help 146"}, cli::alias{"élan-x"}, cli::alias{"golf-ball", cli::Hidden});
  }
};
inline void dump(Map& m, const std::string& p, const G138& v) { put(m, p + "f139_victor_y", v.f139_victor_y); put(m, p + "f142_red", v.f142_red); put(m, p + "quebec_city", v.quebec_city); }
inline Node* node_G138() { auto n = new Node; n->flags.push_back({"f139_victor_y", K_rune, "victor_y", U'\0', VHidden, {{"copper", VHidden}}, -1, "", "helps 141a\nand 141b"});
  n->flags.push_back({"f142_red", K_vec_buf, "red", U'c', VPublic, {{"uniform", VPublic}, {"tango", VInvisible}}, 0, "", "helps with 144"});
  n->flags.push_back({"quebec_city", K_vec_str, "quebec-city", U'\0', VHidden, {{"élan-x", VHidden}, {"golf-ball", VHidden}}, 2, "", "ünï help 146"});
  return n; }
struct G131 {
  int64_t red = 0; Quiet blue_sky; best::str f136_uniform; G138 f147_quartz;
  constexpr friend auto BestReflect(auto& m, G131*) { return m.infer()
    .with(&G131::red, cli::flag{.count = cli::Required, .help = "helps with 133"})
    .with(&G131::blue_sky, cli::flag{.letter = U'u', .count = cli::Repeated, .help = "helps with 135"})
    .with(&G131::f136_uniform, cli::flag{.name = "uniform", .vis = cli::Invisible, .count = cli::Repeated})
    .with(&G131::f147_quartz, cli::group{.name = "quartz", .letter = U'Ñ', .vis = cli::Invisible});
  }
};
inline void dump(Map& m, const std::string& p, const G131& v) { put(m, p + "red", v.red); put(m, p + "blue_sky", v.blue_sky); put(m, p + "f136_uniform", v.f136_uniform); dump(m, p + "f147_quartz.", v.f147_quartz); }
inline Node* node_G131() { auto n = new Node; n->flags.push_back({"red", K_i64, "red", U'\0', VPublic, {}, 1, "", "helps with 133"});
  n->flags.push_back({"blue_sky", K_quiet, "blue_sky", U'u', VPublic, {}, 2, "", "helps with 135"});
  n->flags.push_back({"f136_uniform", K_str, "uniform", U'\0', VInvisible, {}, 2, "", ""});
  n->groups.push_back({"f147_quartz", "quartz", U'Ñ', VInvisible, {}, "", node_G138()});
  return n; }
struct S154 {
  best::str f155_delta_t; best::vec<bool> f158_silver_9; best::vec<bool> f161_papa; best::vec<int> f164_hotel_id; bool f167_pos = false; best::option<best::rune> f170_pos; best::vec<best::strbuf> f173_rest;
  constexpr friend auto BestReflect(auto& m, S154*) { return m.infer()
    .with(&S154::f155_delta_t, cli::flag{.name = "delta_t", .vis = cli::Hidden, .arg = "ARG156", .count = cli::Repeated, .help = "helps with 157"}, cli::alias{"alpha", cli::Delete}, cli::alias{"red", cli::Public})
    .with(&S154::f158_silver_9, cli::flag{.name = "silver-9", .letter = U'e', .help = "helps with 160"}, cli::alias{"navy-3"})
    .with(&S154::f161_papa, cli::flag{.name = "papa", .letter = U'é', .count = cli::Repeated, .help = "helps 163a\nand 163b"})
    .with(&S154::f164_hotel_id, cli::flag{.name = "hotel_id", .letter = U'v', .vis = cli::Delete, .count = cli::Repeated, .help = "ünï help 166"})
    .with(&S154::f167_pos, cli::positional{.count = cli::Required, .help = "helps 169a\nand 169b"})
    .with(&S154::f170_pos, cli::positional{.name = "POS171", .count = cli::Optional, .help = "helps 172a\n172b\n172c, the last"});
  }
};
inline void dump(Map& m, const std::string& p, const S154& v) { put(m, p + "f155_delta_t", v.f155_delta_t); put(m, p + "f158_silver_9", v.f158_silver_9); put(m, p + "f161_papa", v.f161_papa); put(m, p + "f164_hotel_id", v.f164_hotel_id); put(m, p + "f167_pos", v.f167_pos); put(m, p + "f170_pos", v.f170_pos); put(m, p + "f173_rest", v.f173_rest); }
inline Node* node_S154() { auto n = new Node; n->flags.push_back({"f155_delta_t", K_str, "delta_t", U'\0', VHidden, {{"alpha", VDelete}, {"red", VPublic}}, 2, "ARG156", "helps with 157"});
  n->flags.push_back({"f158_silver_9", K_vec_bool, "silver-9", U'e', VPublic, {{"navy-3", VPublic}}, -1, "", "helps with 160"});
  n->flags.push_back({"f161_papa", K_vec_bool, "papa", U'é', VPublic, {}, 2, "", "helps 163a\nand 163b"});
  n->flags.push_back({"f164_hotel_id", K_vec_int, "hotel_id", U'v', VDelete, {}, 2, "", "ünï help 166"});
  n->poss.push_back({"f167_pos", K_bool, "", 1, "helps 169a\nand 169b"});
  n->poss.push_back({"f170_pos", K_opt_rune, "POS171", 0, "helps 172a\n172b\n172c, the last"});
  n->poss.push_back({"f173_rest", K_vec_buf, "", -1, ""});
  return n; }
struct G178 {
  uint8_t copper = 0; int f180_pink_4 = 0;
  constexpr friend auto BestReflect(auto& m, G178*) { return m.infer()
    .with(&G178::copper, cli::flag{.letter = U'i', .count = cli::Repeated}, cli::alias{"olive", cli::Invisible})
    .with(&G178::f180_pink_4, cli::flag{.name = "pink_4"});
  }
};
inline void dump(Map& m, const std::string& p, const G178& v) { put(m, p + "copper", v.copper); put(m, p + "f180_pink_4", v.f180_pink_4); }
inline Node* node_G178() { auto n = new Node; n->flags.push_back({"copper", K_u8, "copper", U'i', VPublic, {{"olive", VInvisible}}, 2, "", ""});
  n->flags.push_back({"f180_pink_4", K_int, "pink_4", U'\0', VPublic, {}, -1, "", ""});
  return n; }
struct S153 {
  S154 f175_indigo; G178 f182_teal; G178 f184_silver_9; best::vec<int> tango; best::vec<best::str> f188_rest;
  constexpr friend auto BestReflect(auto& m, S153*) { return m.infer()
    .with(&S153::f175_indigo, cli::subcommand{.name = "indigo", .vis = cli::Hidden, .help = "helps with 176", .about = "about 177\nmore"}, cli::alias{"cargo-lock", cli::Invisible})
    .with(&S153::f182_teal, cli::group{.name = "teal", .help = "helps with 183"})
    .with(&S153::f184_silver_9, cli::group{.name = "silver-9", .vis = cli::Invisible, .help = "helps with 185"})
    .with(&S153::tango, cli::flag{.count = cli::Required, .help = "helps with 187"});
  }
};
inline void dump(Map& m, const std::string& p, const S153& v) { dump(m, p + "f175_indigo.", v.f175_indigo); dump(m, p + "f182_teal.", v.f182_teal); dump(m, p + "f184_silver_9.", v.f184_silver_9); put(m, p + "tango", v.tango); put(m, p + "f188_rest", v.f188_rest); }
inline Node* node_S153() { auto n = new Node; n->subs.push_back({"f175_indigo", "indigo", VHidden, {{"cargo-lock", VInvisible}}, "helps with 176", "about 177\nmore", node_S154()});
  n->groups.push_back({"f182_teal", "teal", U'\0', VPublic, {}, "helps with 183", node_G178()});
  n->groups.push_back({"f184_silver_9", "silver-9", U'\0', VInvisible, {}, "helps with 185", node_G178()});
  n->flags.push_back({"tango", K_vec_int, "tango", U'\0', VPublic, {}, 1, "", "helps with 187"});
  n->poss.push_back({"f188_rest", K_vec_str, "", -1, ""});
  return n; }
struct R1 {
  best::vec<bool> f69_oscar; S71 f123__ber; bool f126_hotel_id = false; best::vec<best::str> tango; G131 f148_gold; best::option<bool> f150_indigo; S153 sierra; best::vec<best::strbuf> ebony; best::option<bool> f194_uniform; int f197_pos = 0; uint8_t f200_pos = 0; best::option<bool> f203_pos;
  constexpr friend auto BestReflect(auto& m, R1*) { return m.infer().with(cli::app{.name = "app206", .about = "about app 206\nin lines", .url = "https://u206", .copyright_year = 2206, .license = "LIC-206"})
    .with(&R1::f69_oscar, cli::flag{.name = "oscar", .letter = U'b', .vis = cli::Invisible}, cli::alias{"kilo-watt"})
    .with(&R1::f123__ber, cli::subcommand{.name = "über", .help = "helps with 124", .about = "about 125\nmore"}, cli::alias{"olive", cli::Invisible})
    .with(&R1::f126_hotel_id, cli::flag{.name = "hotel_id", .letter = U'λ', .arg = "ARG127", .count = cli::Optional, .help = "helps 128a\nand 128b"}, cli::alias{"copper"})
    .with(&R1::tango, cli::flag{.letter = U't', .vis = cli::Delete, .count = cli::Repeated, .help = "helps with 130"})
    .with(&R1::f148_gold, cli::group{.name = "gold", .help = "helps 149a\n149b\n149c, the last"})
    .with(&R1::f150_indigo, cli::flag{.name = "indigo", .letter = U'a', .help = "helps with 152"}, cli::alias{"romeo", cli::Delete}, cli::alias{"fawn-grey", cli::Hidden})
    .with(&R1::sierra, cli::subcommand{.vis = cli::Invisible, .help = "helps with 190"})
    .with(&R1::ebony, cli::flag{.help = "helps with 193"}, cli::alias{"golf-ball", cli::Hidden})
    .with(&R1::f194_uniform, cli::flag{.name = "uniform", .letter = U'e', .arg = "ARG195", .count = cli::Optional, .help = "helps with 196"}, cli::alias{"navy-3", cli::Invisible})
    .with(&R1::f197_pos, cli::positional{.help = "helps with 199"})
    .with(&R1::f200_pos, cli::positional{.help = "helps with 202"})
    .with(&R1::f203_pos, cli::positional{.name = "POS204", .help = "helps 205a\nand 205b"});
  }
};
inline void dump(Map& m, const std::string& p, const R1& v) { put(m, p + "f69_oscar", v.f69_oscar); dump(m, p + "f123__ber.", v.f123__ber); put(m, p + "f126_hotel_id", v.f126_hotel_id); put(m, p + "tango", v.tango); dump(m, p + "f148_gold.", v.f148_gold); put(m, p + "f150_indigo", v.f150_indigo); dump(m, p + "sierra.", v.sierra); put(m, p + "ebony", v.ebony); put(m, p + "f194_uniform", v.f194_uniform); put(m, p + "f197_pos", v.f197_pos); put(m, p + "f200_pos", v.f200_pos); put(m, p + "f203_pos", v.f203_pos); }
inline Node* node_R1() { auto n = new Node; n->flags.push_back({"f69_oscar", K_vec_bool, "oscar", U'b', VInvisible, {{"kilo-watt", VInvisible}}, -1, "", ""});
  n->subs.push_back({"f123__ber", "über", VPublic, {{"olive", VInvisible}}, "helps with 124", "about 125\nmore", node_S71()});
  n->flags.push_back({"f126_hotel_id", K_bool, "hotel_id", U'λ', VPublic, {{"copper", VPublic}}, 0, "ARG127", "helps 128a\nand 128b"});
  n->flags.push_back({"tango", K_vec_str, "tango", U't', VDelete, {}, 2, "", "helps with 130"});
  n->groups.push_back({"f148_gold", "gold", U'\0', VPublic, {}, "helps 149a\n149b\n149c, the last", node_G131()});
  n->flags.push_back({"f150_indigo", K_opt_bool, "indigo", U'a', VPublic, {{"romeo", VDelete}, {"fawn-grey", VHidden}}, -1, "", "helps with 152"});
  n->subs.push_back({"sierra", "sierra", VInvisible, {}, "helps with 190", "", node_S153()});
  n->flags.push_back({"ebony", K_vec_buf, "ebony", U'\0', VPublic, {{"golf-ball", VHidden}}, -1, "", "helps with 193"});
  n->flags.push_back({"f194_uniform", K_opt_bool, "uniform", U'e', VPublic, {{"navy-3", VInvisible}}, 0, "ARG195", "helps with 196"});
  n->poss.push_back({"f197_pos", K_int, "", -1, "helps with 199"});
  n->poss.push_back({"f200_pos", K_u8, "", -1, "helps with 202"});
  n->poss.push_back({"f203_pos", K_opt_bool, "POS204", -1, "helps 205a\nand 205b"});
  n->year = 2206;
  n->has_app = true; n->name = "app206"; n->about = "about app 206\nin lines"; n->url = "https://u206"; n->license = "LIC-206";
  return n; }
DEFINITION(R1)
#endif
#ifdef PART_B
struct S215 {
  best::option<bool> f216_fawn_grey; bool f219_hazel = false; best::option<best::rune> f222_pos; bool f225_pos = false; int f228_pos = 0;
  constexpr friend auto BestReflect(auto& m, S215*) { return m.infer()
    .with(&S215::f216_fawn_grey, cli::flag{.name = "fawn-grey", .letter = U'c', .count = cli::Optional, .help = "helps 218a\n218b\n218c, the last"})
    .with(&S215::f219_hazel, cli::flag{.name = "hazel", .count = cli::Optional, .help = "helps 221a\nand 221b"}, cli::alias{"xray"})
    .with(&S215::f222_pos, cli::positional{.name = "POS223", .help = "helps with 224"})
    .with(&S215::f225_pos, cli::positional{.count = cli::Optional, .help = "helps 227a\n227b\n227c, the last"})
    .with(&S215::f228_pos, cli::positional{.name = "POS229", .help = "helps with 230"});
  }
};
inline void dump(Map& m, const std::string& p, const S215& v) { put(m, p + "f216_fawn_grey", v.f216_fawn_grey); put(m, p + "f219_hazel", v.f219_hazel); put(m, p + "f222_pos", v.f222_pos); put(m, p + "f225_pos", v.f225_pos); put(m, p + "f228_pos", v.f228_pos); }
inline Node* node_S215() { auto n = new Node; n->flags.push_back({"f216_fawn_grey", K_opt_bool, "fawn-grey", U'c', VPublic, {}, 0, "", "helps 218a\n218b\n218c, the last"});
  n->flags.push_back({"f219_hazel", K_bool, "hazel", U'\0', VPublic, {{"xray", VPublic}}, 0, "", "helps 221a\nand 221b"});
  n->poss.push_back({"f222_pos", K_opt_rune, "POS223", -1, "helps with 224"});
  n->poss.push_back({"f225_pos", K_bool, "", 0, "helps 227a\n227b\n227c, the last"});
  n->poss.push_back({"f228_pos", K_int, "POS229", -1, "helps with 230"});
  return n; }
struct G233 {
  best::vec<best::str> f234_jade_green; best::option<int> mike;
  constexpr friend auto BestReflect(auto& m, G233*) { return m.infer()
    .with(&G233::f234_jade_green, cli::flag{.name = "jade_green", .vis = cli::Invisible, .count = cli::Repeated, .help = "helps with 236"}, cli::alias{"gold", cli::Delete}, cli::alias{"xray", cli::Public})
    .with(&G233::mike, cli::flag{.vis = cli::Delete, .count = cli::Required, .help = "helps 238a\nand 238b"});
  }
};
inline void dump(Map& m, const std::string& p, const G233& v) { put(m, p + "f234_jade_green", v.f234_jade_green); put(m, p + "mike", v.mike); }
inline Node* node_G233() { auto n = new Node; n->flags.push_back({"f234_jade_green", K_vec_str, "jade_green", U'\0', VInvisible, {{"gold", VDelete}, {"xray", VPublic}}, 2, "", "helps with 236"});
  n->flags.push_back({"mike", K_opt_int, "mike", U'\0', VDelete, {}, 1, "", "helps 238a\nand 238b"});
  return n; }
struct S241 {
  best::vec<bool> f242_whiskey; uint8_t f245_pos = 0; best::strbuf f248_pos; best::vec<best::str> f251_rest;
  constexpr friend auto BestReflect(auto& m, S241*) { return m.infer()
    .with(&S241::f242_whiskey, cli::flag{.name = "whiskey", .letter = U'd', .vis = cli::Delete, .arg = "ARG243", .count = cli::Repeated, .help = "helps with 244"})
    .with(&S241::f245_pos, cli::positional{.name = "POS246", .count = cli::Optional, .help = "helps with 247"})
    .with(&S241::f248_pos, cli::positional{.name = "POS249", .count = cli::Optional, .help = "helps with 250"});
  }
};
inline void dump(Map& m, const std::string& p, const S241& v) { put(m, p + "f242_whiskey", v.f242_whiskey); put(m, p + "f245_pos", v.f245_pos); put(m, p + "f248_pos", v.f248_pos); put(m, p + "f251_rest", v.f251_rest); }
inline Node* node_S241() { auto n = new Node; n->flags.push_back({"f242_whiskey", K_vec_bool, "whiskey", U'd', VDelete, {}, 2, "ARG243", "helps with 244"});
  n->poss.push_back({"f245_pos", K_u8, "POS246", 0, "helps with 247"});
  n->poss.push_back({"f248_pos", K_strbuf, "POS249", 0, "helps with 250"});
  n->poss.push_back({"f251_rest", K_vec_str, "", -1, ""});
  return n; }
struct G256 {
  best::vec<bool> f257_hotel_id; uint8_t f260_tango = 0;
  constexpr friend auto BestReflect(auto& m, G256*) { return m.infer()
    .with(&G256::f257_hotel_id, cli::flag{.name = "hotel_id", .letter = U'7', .count = cli::Repeated, .help = "helps 259a\n259b\n259c, the last"})
    .with(&G256::f260_tango, cli::flag{.name = "tango", .letter = U'i', .vis = cli::Hidden, .arg = "ARG261", .help = "helps with 262"});
  }
};
inline void dump(Map& m, const std::string& p, const G256& v) { put(m, p + "f257_hotel_id", v.f257_hotel_id); put(m, p + "f260_tango", v.f260_tango); }
inline Node* node_G256() { auto n = new Node; n->flags.push_back({"f257_hotel_id", K_vec_bool, "hotel_id", U'7', VPublic, {}, 2, "", "helps 259a\n259b\n259c, the last"});
  n->flags.push_back({"f260_tango", K_u8, "tango", U'i', VHidden, {}, -1, "ARG261", "helps with 262"});
  return n; }
struct G269 {
  best::option<bool> f270_na_ve; int lemon = 0; best::option<int> bravo;
  constexpr friend auto BestReflect(auto& m, G269*) { return m.infer()
    .with(&G269::f270_na_ve, cli::flag{.name = "naïve", .letter = U'c', .arg = "ARG271", .count = cli::Optional, .help = "helps with 272"})
    .with(&G269::lemon, cli::flag{.letter = U'7', .arg = "ARG273", .help = "helps with 274"})
    .with(&G269::bravo, cli::flag{.help = "helps with 276"});
  }
};
inline void dump(Map& m, const std::string& p, const G269& v) { put(m, p + "f270_na_ve", v.f270_na_ve); put(m, p + "lemon", v.lemon); put(m, p + "bravo", v.bravo); }
inline Node* node_G269() { auto n = new Node; n->flags.push_back({"f270_na_ve", K_opt_bool, "naïve", U'c', VPublic, {}, 0, "ARG271", "helps with 272"});
  n->flags.push_back({"lemon", K_int, "lemon", U'7', VPublic, {}, -1, "ARG273", "helps with 274"});
  n->flags.push_back({"bravo", K_opt_int, "bravo", U'\0', VPublic, {}, -1, "", "helps with 276"});
  return n; }
struct S265 {
  best::rune f266_jade_green; G269 f277_foxtrot; best::option<bool> f279_pos; Celsius f282_pos; int f284_pos = 0; best::vec<best::str> f287_rest;
  constexpr friend auto BestReflect(auto& m, S265*) { return m.infer()
    .with(&S265::f266_jade_green, cli::flag{.name = "jade_green", .arg = "ARG267", .help = "helps 268a\n268b\n268c, the last"})
    .with(&S265::f277_foxtrot, cli::group{.help = "helps with 278"})
    .with(&S265::f279_pos, cli::positional{.name = "POS280", .count = cli::Required, .help = "helps with 281"})
    .with(&S265::f282_pos, cli::positional{.name = "POS283", .count = cli::Required})
    .with(&S265::f284_pos, cli::positional{.name = "POS285", .count = cli::Required, .help = "helps 286a\n286b\n286c, the last"})
    .with(&S265::f287_rest, cli::positional{.name = "POS288"});
  }
};
inline void dump(Map& m, const std::string& p, const S265& v) { put(m, p + "f266_jade_green", v.f266_jade_green); dump(m, p + "f277_foxtrot.", v.f277_foxtrot); put(m, p + "f279_pos", v.f279_pos); put(m, p + "f282_pos", v.f282_pos); put(m, p + "f284_pos", v.f284_pos); put(m, p + "f287_rest", v.f287_rest); }
inline Node* node_S265() { auto n = new Node; n->flags.push_back({"f266_jade_green", K_rune, "jade_green", U'\0', VPublic, {}, -1, "ARG267", "helps 268a\n268b\n268c, the last"});
  n->groups.push_back({"f277_foxtrot", "", U'\0', VPublic, {}, "helps with 278", node_G269()});
  n->poss.push_back({"f279_pos", K_opt_bool, "POS280", 1, "helps with 281"});
  n->poss.push_back({"f282_pos", K_custom, "POS283", 1, ""});
  n->poss.push_back({"f284_pos", K_int, "POS285", 1, "helps 286a\n286b\n286c, the last"});
  n->poss.push_back({"f287_rest", K_vec_str, "POS288", -1, ""});
  return n; }
struct G255 {
  G256 f263_hazel; S265 f289_lemon; best::vec<bool> f292_tango;
  constexpr friend auto BestReflect(auto& m, G255*) { return m.infer()
    .with(&G255::f263_hazel, cli::group{.name = "hazel", .letter = U'C', .help = "helps with 264"})
    .with(&G255::f289_lemon, cli::subcommand{.name = "lemon", .help = "helps 290a\nand 290b"}, cli::alias{"umber", cli::Delete})
    .with(&G255::f292_tango, cli::flag{.name = "tango", .count = cli::Repeated});
  }
};
inline void dump(Map& m, const std::string& p, const G255& v) { dump(m, p + "f263_hazel.", v.f263_hazel); dump(m, p + "f289_lemon.", v.f289_lemon); put(m, p + "f292_tango", v.f292_tango); }
inline Node* node_G255() { auto n = new Node; n->groups.push_back({"f263_hazel", "hazel", U'C', VPublic, {}, "helps with 264", node_G256()});
  n->subs.push_back({"f289_lemon", "lemon", VPublic, {{"umber", VDelete}}, "helps 290a\nand 290b", "", node_S265()});
  n->flags.push_back({"f292_tango", K_vec_bool, "tango", U'\0', VPublic, {}, 2, "", ""});
  return n; }
struct R2 {
  best::vec<best::str> copper; Celsius f209_romeo; bool f212_na_ve = false; S215 quartz; G233 f239_jade_green; S241 echo; G255 f294_khaki_2; int64_t f296_navy_3 = 0; best::rune f299_victor_y; int64_t f302_pos = 0;
  constexpr friend auto BestReflect(auto& m, R2*) { return m.infer().with(cli::app{.name = "app305", .authors = "people 305", .about = "about app 305\nin lines", .version = "1.305", .url = "https://u305", .license = "LIC-305"})
    .with(&R2::copper, cli::flag{.letter = U'd', .vis = cli::Hidden, .arg = "ARG207", .count = cli::Required, .help = "ünï help 208"})
    .with(&R2::f209_romeo, cli::flag{.name = "romeo", .letter = U'e', .vis = cli::Hidden, .count = cli::Required, .help = "helps with 211"})
    .with(&R2::f212_na_ve, cli::flag{.name = "naïve", .count = cli::Repeated, .help = "helps with 214"}, cli::alias{"gold", cli::Delete}, cli::alias{"white_noise", cli::Invisible})
    .with(&R2::quartz, cli::subcommand{.help = "helps 231a\nand 231b"})
    .with(&R2::f239_jade_green, cli::group{.name = "jade_green", .letter = U'X', .vis = cli::Invisible, .help = "helps 240a\nand 240b"})
    .with(&R2::echo, cli::subcommand{.help = "helps 253a\n253b\n253c, the last", .about = "about 254\nmore"}, cli::alias{"pink_4"})
    .with(&R2::f294_khaki_2, cli::group{.help = "helps 295a\nand 295b"})
    .with(&R2::f296_navy_3, cli::flag{.name = "navy-3", .letter = U'j', .count = cli::Repeated, .help = "helps 298a\nand 298b"})
    .with(&R2::f299_victor_y, cli::flag{.name = "victor_y", .letter = U'f', .count = cli::Optional, .help = "helps 301a\n301b\n301c, the last"}, cli::alias{"alpha", cli::Hidden}, cli::alias{"zulu", cli::Public})
    .with(&R2::f302_pos, cli::positional{.name = "POS303", .help = "helps 304a\nand 304b"});
  }
};
inline void dump(Map& m, const std::string& p, const R2& v) { put(m, p + "copper", v.copper); put(m, p + "f209_romeo", v.f209_romeo); put(m, p + "f212_na_ve", v.f212_na_ve); dump(m, p + "quartz.", v.quartz); dump(m, p + "f239_jade_green.", v.f239_jade_green); dump(m, p + "echo.", v.echo); dump(m, p + "f294_khaki_2.", v.f294_khaki_2); put(m, p + "f296_navy_3", v.f296_navy_3); put(m, p + "f299_victor_y", v.f299_victor_y); put(m, p + "f302_pos", v.f302_pos); }
inline Node* node_R2() { auto n = new Node; n->flags.push_back({"copper", K_vec_str, "copper", U'd', VHidden, {}, 1, "ARG207", "ünï help 208"});
  n->flags.push_back({"f209_romeo", K_custom, "romeo", U'e', VHidden, {}, 1, "", "helps with 211"});
  n->flags.push_back({"f212_na_ve", K_bool, "naïve", U'\0', VPublic, {{"gold", VDelete}, {"white_noise", VInvisible}}, 2, "", "helps with 214"});
  n->subs.push_back({"quartz", "quartz", VPublic, {}, "helps 231a\nand 231b", "", node_S215()});
  n->groups.push_back({"f239_jade_green", "jade_green", U'X', VInvisible, {}, "helps 240a\nand 240b", node_G233()});
  n->subs.push_back({"echo", "echo", VPublic, {{"pink_4", VPublic}}, "helps 253a\n253b\n253c, the last", "about 254\nmore", node_S241()});
  n->groups.push_back({"f294_khaki_2", "", U'\0', VPublic, {}, "helps 295a\nand 295b", node_G255()});
  n->flags.push_back({"f296_navy_3", K_i64, "navy-3", U'j', VPublic, {}, 2, "", "helps 298a\nand 298b"});
  n->flags.push_back({"f299_victor_y", K_rune, "victor_y", U'f', VPublic, {{"alpha", VHidden}, {"zulu", VPublic}}, 0, "", "helps 301a\n301b\n301c, the last"});
  n->poss.push_back({"f302_pos", K_i64, "POS303", -1, "helps 304a\nand 304b"});
  n->has_app = true; n->name = "app305"; n->authors = "people 305"; n->about = "about app 305\nin lines"; n->version = "1.305"; n->url = "https://u305"; n->license = "LIC-305";
  return n; }
DEFINITION(R2)
struct S307 {
  Celsius alpha; best::str f310_pos; Celsius f313_pos; best::vec<bool> f316_rest;
  constexpr friend auto BestReflect(auto& m, S307*) { return m.infer()
    .with(&S307::alpha, cli::flag{.arg = "ARG308", .help = "helps with 309"})
    .with(&S307::f310_pos, cli::positional{.name = "POS311", .count = cli::Optional, .help = "ünï help 312"})
    .with(&S307::f313_pos, cli::positional{.count = cli::Optional, .help = "helps with 315"});
  }
};
inline void dump(Map& m, const std::string& p, const S307& v) { put(m, p + "alpha", v.alpha); put(m, p + "f310_pos", v.f310_pos); put(m, p + "f313_pos", v.f313_pos); put(m, p + "f316_rest", v.f316_rest); }
inline Node* node_S307() { auto n = new Node; n->flags.push_back({"alpha", K_custom, "alpha", U'\0', VPublic, {}, -1, "ARG308", "helps with 309"});
  n->poss.push_back({"f310_pos", K_str, "POS311", 0, "ünï help 312"});
  n->poss.push_back({"f313_pos", K_custom, "", 0, "helps with 315"});
  n->poss.push_back({"f316_rest", K_vec_bool, "", -1, ""});
  return n; }
struct S324 {
  int f325_victor_y = 0; best::vec<best::strbuf> f328_whiskey; Quiet f331_amber; int uniform = 0; best::str f336_pos; best::option<best::rune> f339_pos; best::vec<best::strbuf> f342_rest;
  constexpr friend auto BestReflect(auto& m, S324*) { return m.infer()
    .with(&S324::f325_victor_y, cli::flag{.name = "victor_y", .letter = U'z', .count = cli::Optional, .help = "helps 327a\nand 327b"}, cli::alias{"copper"})
    .with(&S324::f328_whiskey, cli::flag{.name = "whiskey", .letter = U'u', .vis = cli::Hidden, .help = "ünï help 330"})
    .with(&S324::f331_amber, cli::flag{.name = "amber", .arg = "ARG332", .count = cli::Optional, .help = "helps with 333"})
    .with(&S324::uniform, cli::flag{.vis = cli::Invisible, .arg = "ARG334", .help = "helps with 335"})
    .with(&S324::f336_pos, cli::positional{.name = "POS337", .count = cli::Required, .help = "helps with 338"})
    .with(&S324::f339_pos, cli::positional{.count = cli::Required, .help = "helps with 341"})
    .with(&S324::f342_rest, cli::positional{.name = "POS343"});
  }
};
inline void dump(Map& m, const std::string& p, const S324& v) { put(m, p + "f325_victor_y", v.f325_victor_y); put(m, p + "f328_whiskey", v.f328_whiskey); put(m, p + "f331_amber", v.f331_amber); put(m, p + "uniform", v.uniform); put(m, p + "f336_pos", v.f336_pos); put(m, p + "f339_pos", v.f339_pos); put(m, p + "f342_rest", v.f342_rest); }
inline Node* node_S324() { auto n = new Node; n->flags.push_back({"f325_victor_y", K_int, "victor_y", U'z', VPublic, {{"copper", VPublic}}, 0, "", "helps 327a\nand 327b"});
  n->flags.push_back({"f328_whiskey", K_vec_buf, "whiskey", U'u', VHidden, {}, -1, "", "ünï help 330"});
  n->flags.push_back({"f331_amber", K_quiet, "amber", U'\0', VPublic, {}, 0, "ARG332", "helps with 333"});
  n->flags.push_back({"uniform", K_int, "uniform", U'\0', VInvisible, {}, -1, "ARG334", "helps with 335"});
  n->poss.push_back({"f336_pos", K_str, "POS337", 1, "helps with 338"});
  n->poss.push_back({"f339_pos", K_opt_rune, "", 1, "helps with 341"});
  n->poss.push_back({"f342_rest", K_vec_buf, "POS343", -1, ""});
  return n; }
struct G320 {
  best::str f321_white_noise; S324 f344_alpha; Celsius umber; best::rune f348_kilo_watt; best::option<bool> golf_ball;
  constexpr friend auto BestReflect(auto& m, G320*) { return m.infer()
    .with(&G320::f321_white_noise, cli::flag{.name = "white_noise", .letter = U'f', .vis = cli::Invisible, .count = cli::Required, .help = "helps 323a\n323b\n323c, the last"})
    .with(&G320::f344_alpha, cli::subcommand{.name = "alpha", .about = "about 345\nmore"})
    .with(&G320::umber, cli::flag{.letter = U's', .vis = cli::Hidden, .help = "helps with 347"}, cli::alias{"lemon", cli::Invisible})
    .with(&G320::f348_kilo_watt, cli::flag{.name = "kilo-watt", .arg = "ARG349", .count = cli::Optional})
    .with(&G320::golf_ball, cli::flag{.vis = cli::Invisible, .help = "helps with 351"});
  }
};
inline void dump(Map& m, const std::string& p, const G320& v) { put(m, p + "f321_white_noise", v.f321_white_noise); dump(m, p + "f344_alpha.", v.f344_alpha); put(m, p + "umber", v.umber); put(m, p + "f348_kilo_watt", v.f348_kilo_watt); put(m, p + "golf_ball", v.golf_ball); }
inline Node* node_G320() { auto n = new Node; n->flags.push_back({"f321_white_noise", K_str, "white_noise", U'f', VInvisible, {}, 1, "", "helps 323a\n323b\n323c, the last"});
  n->subs.push_back({"f344_alpha", "alpha", VPublic, {}, "", "about 345\nmore", node_S324()});
  n->flags.push_back({"umber", K_custom, "umber", U's', VHidden, {{"lemon", VInvisible}}, -1, "", "helps with 347"});
  n->flags.push_back({"f348_kilo_watt", K_rune, "kilo-watt", U'\0', VPublic, {}, 0, "ARG349", ""});
  n->flags.push_back({"golf_ball", K_opt_bool, "golf-ball", U'\0', VInvisible, {}, -1, "", "helps with 351"});
  return n; }
struct R3 {
  bool lemon = false; S307 pink_4; G320 f352_echo; best::vec<int> kilo_watt; G320 f356_violet; Quiet f358_pos; int f361_pos = 0;
  constexpr friend auto BestReflect(auto& m, R3*) { return m.infer().with(cli::app{.name = "app364", .version = "1.364", .url = "https://u364", .copyright_year = 2364, .license = "LIC-364"})
    .with(&R3::lemon, cli::flag{.letter = U'b', .count = cli::Repeated}, cli::alias{"navy-3", cli::Invisible}, cli::alias{"papa", cli::Delete})
    .with(&R3::pink_4, cli::subcommand{.help = "helps with 318"})
    .with(&R3::f352_echo, cli::group{.name = "echo", .help = "ünï help 353"})
    .with(&R3::kilo_watt, cli::flag{.letter = U'l', .help = "helps with 355"}, cli::alias{"quebec-city"}, cli::alias{"xray"})
    .with(&R3::f356_violet, cli::group{.name = "violet", .help = "helps with 357"})
    .with(&R3::f358_pos, cli::positional{.help = "helps with 360"})
    .with(&R3::f361_pos, cli::positional{.name = "POS362", .help = "ünï help 363"});
  }
};
inline void dump(Map& m, const std::string& p, const R3& v) { put(m, p + "lemon", v.lemon); dump(m, p + "pink_4.", v.pink_4); dump(m, p + "f352_echo.", v.f352_echo); put(m, p + "kilo_watt", v.kilo_watt); dump(m, p + "f356_violet.", v.f356_violet); put(m, p + "f358_pos", v.f358_pos); put(m, p + "f361_pos", v.f361_pos); }
inline Node* node_R3() { auto n = new Node; n->flags.push_back({"lemon", K_bool, "lemon", U'b', VPublic, {{"navy-3", VInvisible}, {"papa", VDelete}}, 2, "", ""});
  n->subs.push_back({"pink_4", "pink_4", VPublic, {}, "helps with 318", "", node_S307()});
  n->groups.push_back({"f352_echo", "echo", U'\0', VPublic, {}, "ünï help 353", node_G320()});
  n->flags.push_back({"kilo_watt", K_vec_int, "kilo-watt", U'l', VPublic, {{"quebec-city", VPublic}, {"xray", VPublic}}, -1, "", "helps with 355"});
  n->groups.push_back({"f356_violet", "violet", U'\0', VPublic, {}, "helps with 357", node_G320()});
  n->poss.push_back({"f358_pos", K_quiet, "", -1, "helps with 360"});
  n->poss.push_back({"f361_pos", K_int, "POS362", -1, "ünï help 363"});
  n->year = 2364;
  n->has_app = true; n->name = "app364"; n->version = "1.364"; n->url = "https://u364"; n->license = "LIC-364";
  return n; }
DEFINITION(R3)
#endif
#ifdef PART_C
struct G365 {
  Celsius f366_foxtrot;
  constexpr friend auto BestReflect(auto& m, G365*) { return m.infer()
    .with(&G365::f366_foxtrot, cli::flag{.name = "foxtrot", .vis = cli::Hidden, .count = cli::Repeated});
  }
};
inline void dump(Map& m, const std::string& p, const G365& v) { put(m, p + "f366_foxtrot", v.f366_foxtrot); }
inline Node* node_G365() { auto n = new Node; n->flags.push_back({"f366_foxtrot", K_custom, "foxtrot", U'\0', VHidden, {}, 2, "", ""});
  return n; }
struct G380 {
  Celsius f381_romeo; best::vec<bool> f384_blue_sky; best::vec<best::str> f387_indigo; int64_t amber = 0;
  constexpr friend auto BestReflect(auto& m, G380*) { return m.infer()
    .with(&G380::f381_romeo, cli::flag{.name = "romeo", .letter = U'x', .count = cli::Repeated, .help = "helps 383a\nand 383b"}, cli::alias{"sierra"})
    .with(&G380::f384_blue_sky, cli::flag{.name = "blue_sky", .letter = U'f', .count = cli::Optional, .help = "helps with 386"}, cli::alias{"über"})
    .with(&G380::f387_indigo, cli::flag{.name = "indigo", .letter = U'g', .vis = cli::Invisible, .help = "helps 389a\n389b\n389c, the last"}, cli::alias{"navy-3"})
    .with(&G380::amber, cli::flag{.vis = cli::Hidden, .arg = "ARG390", .count = cli::Optional, .help = "helps 391a\n391b\n391c, the last"});
  }
};
inline void dump(Map& m, const std::string& p, const G380& v) { put(m, p + "f381_romeo", v.f381_romeo); put(m, p + "f384_blue_sky", v.f384_blue_sky); put(m, p + "f387_indigo", v.f387_indigo); put(m, p + "amber", v.amber); }
inline Node* node_G380() { auto n = new Node; n->flags.push_back({"f381_romeo", K_custom, "romeo", U'x', VPublic, {{"sierra", VPublic}}, 2, "", "helps 383a\nand 383b"});
  n->flags.push_back({"f384_blue_sky", K_vec_bool, "blue_sky", U'f', VPublic, {{"über", VPublic}}, 0, "", "helps with 386"});
  n->flags.push_back({"f387_indigo", K_vec_str, "indigo", U'g', VInvisible, {{"navy-3", VInvisible}}, -1, "", "helps 389a\n389b\n389c, the last"});
  n->flags.push_back({"amber", K_i64, "amber", U'\0', VHidden, {}, 0, "ARG390", "helps 391a\n391b\n391c, the last"});
  return n; }
struct G370 {
  uint8_t f371_zulu = 0; best::str f374_hazel; best::rune f377_umber; G380 f392_khaki_2;
  constexpr friend auto BestReflect(auto& m, G370*) { return m.infer()
    .with(&G370::f371_zulu, cli::flag{.name = "zulu", .letter = U'z', .count = cli::Repeated, .help = "helps 373a\nand 373b"}, cli::alias{"juliet", cli::Invisible})
    .with(&G370::f374_hazel, cli::flag{.name = "hazel", .letter = U'd', .help = "helps 376a\nand 376b"}, cli::alias{"oscar"})
    .with(&G370::f377_umber, cli::flag{.name = "umber", .count = cli::Repeated, .help = "helps with 379"})
    .with(&G370::f392_khaki_2, cli::group{.letter = U'Q', .vis = cli::Invisible, .help = "ünï help 393"});
  }
};
inline void dump(Map& m, const std::string& p, const G370& v) { put(m, p + "f371_zulu", v.f371_zulu); put(m, p + "f374_hazel", v.f374_hazel); put(m, p + "f377_umber", v.f377_umber); dump(m, p + "f392_khaki_2.", v.f392_khaki_2); }
inline Node* node_G370() { auto n = new Node; n->flags.push_back({"f371_zulu", K_u8, "zulu", U'z', VPublic, {{"juliet", VInvisible}}, 2, "", "helps 373a\nand 373b"});
  n->flags.push_back({"f374_hazel", K_str, "hazel", U'd', VPublic, {{"oscar", VPublic}}, -1, "", "helps 376a\nand 376b"});
  n->flags.push_back({"f377_umber", K_rune, "umber", U'\0', VPublic, {}, 2, "", "helps with 379"});
  n->groups.push_back({"f392_khaki_2", "", U'Q', VInvisible, {}, "ünï help 393", node_G380()});
  return n; }
struct S402 {
  best::vec<best::str> f403_olive; best::vec<int> papa; Celsius f408_november_x;
  constexpr friend auto BestReflect(auto& m, S402*) { return m.infer()
    .with(&S402::f403_olive, cli::flag{.name = "olive", .letter = U'l', .vis = cli::Invisible, .arg = "ARG404", .count = cli::Optional, .help = "helps with 405"}, cli::alias{"juliet"})
    .with(&S402::papa, cli::flag{.help = "ünï help 407"})
    .with(&S402::f408_november_x, cli::flag{.name = "november_x", .arg = "ARG409", .count = cli::Repeated, .help = "helps 410a\nand 410b"});
  }
};
inline void dump(Map& m, const std::string& p, const S402& v) { put(m, p + "f403_olive", v.f403_olive); put(m, p + "papa", v.papa); put(m, p + "f408_november_x", v.f408_november_x); }
inline Node* node_S402() { auto n = new Node; n->flags.push_back({"f403_olive", K_vec_str, "olive", U'l', VInvisible, {{"juliet", VInvisible}}, 0, "ARG404", "helps with 405"});
  n->flags.push_back({"papa", K_vec_int, "papa", U'\0', VPublic, {}, -1, "", "ünï help 407"});
  n->flags.push_back({"f408_november_x", K_custom, "november_x", U'\0', VPublic, {}, 2, "ARG409", "helps 410a\nand 410b"});
  return n; }
struct R4 {
  G365 f368_tango; G370 f394_india; best::option<best::rune> silver_9; G365 f398_hazel; uint8_t yankee = 0; S402 xray; Celsius f412_pos;
  constexpr friend auto BestReflect(auto& m, R4*) { return m.infer()
    .with(&R4::f368_tango, cli::group{.name = "tango", .letter = U'X', .help = "helps 369a\nand 369b"})
    .with(&R4::f394_india, cli::group{.name = "india", .vis = cli::Delete, .help = "helps with 395"})
    .with(&R4::silver_9, cli::flag{.count = cli::Required, .help = "ünï help 397"})
    .with(&R4::f398_hazel, cli::group{.letter = U'Q', .help = "helps 399a\n399b\n399c, the last"})
    .with(&R4::yankee, cli::flag{.count = cli::Repeated, .help = "helps 401a\n401b\n401c, the last"}, cli::alias{"november_x", cli::Hidden}, cli::alias{"dun", cli::Delete})
    .with(&R4::xray, cli::subcommand{.about = "about 411\nmore"})
    .with(&R4::f412_pos, cli::positional{.help = "helps with 414"});
  }
};
inline void dump(Map& m, const std::string& p, const R4& v) { dump(m, p + "f368_tango.", v.f368_tango); dump(m, p + "f394_india.", v.f394_india); put(m, p + "silver_9", v.silver_9); dump(m, p + "f398_hazel.", v.f398_hazel); put(m, p + "yankee", v.yankee); dump(m, p + "xray.", v.xray); put(m, p + "f412_pos", v.f412_pos); }
inline Node* node_R4() { auto n = new Node; n->groups.push_back({"f368_tango", "tango", U'X', VPublic, {}, "helps 369a\nand 369b", node_G365()});
  n->groups.push_back({"f394_india", "india", U'\0', VDelete, {}, "helps with 395", node_G370()});
  n->flags.push_back({"silver_9", K_opt_rune, "silver-9", U'\0', VPublic, {}, 1, "", "ünï help 397"});
  n->groups.push_back({"f398_hazel", "", U'Q', VPublic, {}, "helps 399a\n399b\n399c, the last", node_G365()});
  n->flags.push_back({"yankee", K_u8, "yankee", U'\0', VPublic, {{"november_x", VHidden}, {"dun", VDelete}}, 2, "", "helps 401a\n401b\n401c, the last"});
  n->subs.push_back({"xray", "xray", VPublic, {}, "", "about 411\nmore", node_S402()});
  n->poss.push_back({"f412_pos", K_custom, "", -1, "helps with 414"});
  return n; }
DEFINITION(R4)
struct S424 {
  Celsius pink_4; bool cargo_lock = false; best::str f428_pos; best::vec<bool> f431_rest;
  constexpr friend auto BestReflect(auto& m, S424*) { return m.infer()
    .with(&S424::pink_4, cli::flag{.letter = U'p', .vis = cli::Invisible, .arg = "ARG425", .help = "helps with 426"})
    .with(&S424::cargo_lock, cli::flag{.letter = U'o', .vis = cli::Delete, .arg = "ARG427"})
    .with(&S424::f428_pos, cli::positional{.count = cli::Optional, .help = "helps with 430"});
  }
};
inline void dump(Map& m, const std::string& p, const S424& v) { put(m, p + "pink_4", v.pink_4); put(m, p + "cargo_lock", v.cargo_lock); put(m, p + "f428_pos", v.f428_pos); put(m, p + "f431_rest", v.f431_rest); }
inline Node* node_S424() { auto n = new Node; n->flags.push_back({"pink_4", K_custom, "pink_4", U'p', VInvisible, {}, -1, "ARG425", "helps with 426"});
  n->flags.push_back({"cargo_lock", K_bool, "cargo-lock", U'o', VDelete, {}, -1, "ARG427", ""});
  n->poss.push_back({"f428_pos", K_str, "", 0, "helps with 430"});
  n->poss.push_back({"f431_rest", K_vec_bool, "", -1, ""});
  return n; }
struct S416 {
  best::vec<best::strbuf> yankee; best::option<bool> violet; best::str f421__ber; S424 f433_hotel_id; best::str f436_pos; best::vec<bool> f439_rest;
  constexpr friend auto BestReflect(auto& m, S416*) { return m.infer()
    .with(&S416::yankee, cli::flag{.count = cli::Optional, .help = "ünï help 418"})
    .with(&S416::violet, cli::flag{.letter = U'é', .vis = cli::Hidden, .arg = "ARG419", .help = "helps with 420"})
    .with(&S416::f421__ber, cli::flag{.name = "über", .letter = U'a', .arg = "ARG422", .help = "ünï help 423"})
    .with(&S416::f433_hotel_id, cli::subcommand{.name = "hotel_id", .help = "helps with 434"})
    .with(&S416::f436_pos, cli::positional{.count = cli::Optional, .help = "helps with 438"});
  }
};
inline void dump(Map& m, const std::string& p, const S416& v) { put(m, p + "yankee", v.yankee); put(m, p + "violet", v.violet); put(m, p + "f421__ber", v.f421__ber); dump(m, p + "f433_hotel_id.", v.f433_hotel_id); put(m, p + "f436_pos", v.f436_pos); put(m, p + "f439_rest", v.f439_rest); }
inline Node* node_S416() { auto n = new Node; n->flags.push_back({"yankee", K_vec_buf, "yankee", U'\0', VPublic, {}, 0, "", "ünï help 418"});
  n->flags.push_back({"violet", K_opt_bool, "violet", U'é', VHidden, {}, -1, "ARG419", "helps with 420"});
  n->flags.push_back({"f421__ber", K_str, "über", U'a', VPublic, {}, -1, "ARG422", "ünï help 423"});
  n->subs.push_back({"f433_hotel_id", "hotel_id", VPublic, {}, "helps with 434", "", node_S424()});
  n->poss.push_back({"f436_pos", K_str, "", 0, "helps with 438"});
  n->poss.push_back({"f439_rest", K_vec_bool, "", -1, ""});
  return n; }
struct G445 {
  best::option<best::rune> fawn_grey;
  constexpr friend auto BestReflect(auto& m, G445*) { return m.infer()
    .with(&G445::fawn_grey, cli::flag{.vis = cli::Hidden, .arg = "ARG446", .count = cli::Repeated, .help = "helps with 447"});
  }
};
inline void dump(Map& m, const std::string& p, const G445& v) { put(m, p + "fawn_grey", v.fawn_grey); }
inline Node* node_G445() { auto n = new Node; n->flags.push_back({"fawn_grey", K_opt_rune, "fawn-grey", U'\0', VHidden, {}, 2, "ARG446", "helps with 447"});
  return n; }
struct G454 {
  int64_t f455_november_x = 0; best::str maroon; int f460_hazel = 0; best::str red;
  constexpr friend auto BestReflect(auto& m, G454*) { return m.infer()
    .with(&G454::f455_november_x, cli::flag{.name = "november_x", .arg = "ARG456", .count = cli::Repeated, .help = "helps with 457"})
    .with(&G454::maroon, cli::flag{.letter = U'x', .arg = "ARG458", .help = "helps with 459"})
    .with(&G454::f460_hazel, cli::flag{.name = "hazel", .vis = cli::Delete, .count = cli::Required, .help = "helps with 462"})
    .with(&G454::red, cli::flag{.letter = U'l', .count = cli::Repeated, .help = "ünï help 464"}, cli::alias{"cargo-lock", cli::Invisible});
  }
};
inline void dump(Map& m, const std::string& p, const G454& v) { put(m, p + "f455_november_x", v.f455_november_x); put(m, p + "maroon", v.maroon); put(m, p + "f460_hazel", v.f460_hazel); put(m, p + "red", v.red); }
inline Node* node_G454() { auto n = new Node; n->flags.push_back({"f455_november_x", K_i64, "november_x", U'\0', VPublic, {}, 2, "ARG456", "helps with 457"});
  n->flags.push_back({"maroon", K_str, "maroon", U'x', VPublic, {}, -1, "ARG458", "helps with 459"});
  n->flags.push_back({"f460_hazel", K_int, "hazel", U'\0', VDelete, {}, 1, "", "helps with 462"});
  n->flags.push_back({"red", K_str, "red", U'l', VPublic, {{"cargo-lock", VInvisible}}, 2, "", "ünï help 464"});
  return n; }
struct S466 {
  best::str f467_tango; best::str f470_hazel; int f473__lan_x = 0; Celsius f475_pos; best::vec<int> f478_rest;
  constexpr friend auto BestReflect(auto& m, S466*) { return m.infer()
    .with(&S466::f467_tango, cli::flag{.name = "tango", .vis = cli::Hidden, .help = "ünï help 469"})
    .with(&S466::f470_hazel, cli::flag{.name = "hazel", .letter = U't', .arg = "ARG471", .count = cli::Optional, .help = "helps 472a\nand 472b"}, cli::alias{"khaki-2"})
    .with(&S466::f473__lan_x, cli::flag{.name = "élan-x", .letter = U'p', .arg = "ARG474"})
    .with(&S466::f475_pos, cli::positional{.name = "POS476", .count = cli::Optional, .help = "helps with 477"})
    .with(&S466::f478_rest, cli::positional{.name = "POS479"});
  }
};
inline void dump(Map& m, const std::string& p, const S466& v) { put(m, p + "f467_tango", v.f467_tango); put(m, p + "f470_hazel", v.f470_hazel); put(m, p + "f473__lan_x", v.f473__lan_x); put(m, p + "f475_pos", v.f475_pos); put(m, p + "f478_rest", v.f478_rest); }
inline Node* node_S466() { auto n = new Node; n->flags.push_back({"f467_tango", K_str, "tango", U'\0', VHidden, {}, -1, "", "ünï help 469"});
  n->flags.push_back({"f470_hazel", K_str, "hazel", U't', VPublic, {{"khaki-2", VPublic}}, 0, "ARG471", "helps 472a\nand 472b"});
  n->flags.push_back({"f473__lan_x", K_int, "élan-x", U'p', VPublic, {}, -1, "ARG474", ""});
  n->poss.push_back({"f475_pos", K_custom, "POS476", 0, "helps with 477"});
  n->poss.push_back({"f478_rest", K_vec_int, "POS479", -1, ""});
  return n; }
struct G443 {
  bool hotel_id = false; G445 f448_fawn_grey; best::str lemon; best::rune f451_silver_9; G454 f465_mike; S466 f480_quebec_city;
  constexpr friend auto BestReflect(auto& m, G443*) { return m.infer()
    .with(&G443::hotel_id, cli::flag{.arg = "ARG444"}, cli::alias{"india", cli::Public})
    .with(&G443::f448_fawn_grey, cli::group{.letter = U'C'})
    .with(&G443::lemon, cli::flag{.letter = U'd', .vis = cli::Hidden, .help = "helps 450a\nand 450b"}, cli::alias{"tango", cli::Invisible})
    .with(&G443::f451_silver_9, cli::flag{.name = "silver-9", .help = "helps 453a\nand 453b"}, cli::alias{"oscar"}, cli::alias{"alpha"})
    .with(&G443::f465_mike, cli::group{.name = "mike", .letter = U'Ñ', .vis = cli::Hidden}, cli::alias{"golf-ball", cli::Hidden})
    .with(&G443::f480_quebec_city, cli::subcommand{.name = "quebec-city"});
  }
};
inline void dump(Map& m, const std::string& p, const G443& v) { put(m, p + "hotel_id", v.hotel_id); dump(m, p + "f448_fawn_grey.", v.f448_fawn_grey); put(m, p + "lemon", v.lemon); put(m, p + "f451_silver_9", v.f451_silver_9); dump(m, p + "f465_mike.", v.f465_mike); dump(m, p + "f480_quebec_city.", v.f480_quebec_city); }
inline Node* node_G443() { auto n = new Node; n->flags.push_back({"hotel_id", K_bool, "hotel_id", U'\0', VPublic, {{"india", VPublic}}, -1, "ARG444", ""});
  n->groups.push_back({"f448_fawn_grey", "", U'C', VPublic, {}, "", node_G445()});
  n->flags.push_back({"lemon", K_str, "lemon", U'd', VHidden, {{"tango", VInvisible}}, -1, "", "helps 450a\nand 450b"});
  n->flags.push_back({"f451_silver_9", K_rune, "silver-9", U'\0', VPublic, {{"oscar", VPublic}, {"alpha", VPublic}}, -1, "", "helps 453a\nand 453b"});
  n->groups.push_back({"f465_mike", "mike", U'Ñ', VHidden, {{"golf-ball", VHidden}}, "", node_G454()});
  n->subs.push_back({"f480_quebec_city", "quebec-city", VPublic, {}, "", "", node_S466()});
  return n; }
struct G484 {
  best::vec<best::strbuf> romeo; Quiet blue_sky; best::strbuf f489_alpha;
  constexpr friend auto BestReflect(auto& m, G484*) { return m.infer()
    .with(&G484::romeo, cli::flag{.letter = U'd', .arg = "ARG485", .help = "helps with 486"})
    .with(&G484::blue_sky, cli::flag{.letter = U'w', .vis = cli::Delete, .help = "ünï help 488"})
    .with(&G484::f489_alpha, cli::flag{.name = "alpha", .vis = cli::Invisible, .arg = "ARG490", .help = "helps with 491"}, cli::alias{"élan-x", cli::Invisible}, cli::alias{"delta_t"});
  }
};
inline void dump(Map& m, const std::string& p, const G484& v) { put(m, p + "romeo", v.romeo); put(m, p + "blue_sky", v.blue_sky); put(m, p + "f489_alpha", v.f489_alpha); }
inline Node* node_G484() { auto n = new Node; n->flags.push_back({"romeo", K_vec_buf, "romeo", U'd', VPublic, {}, -1, "ARG485", "helps with 486"});
  n->flags.push_back({"blue_sky", K_quiet, "blue_sky", U'w', VDelete, {}, -1, "", "ünï help 488"});
  n->flags.push_back({"f489_alpha", K_strbuf, "alpha", U'\0', VInvisible, {{"élan-x", VInvisible}, {"delta_t", VInvisible}}, -1, "ARG490", "helps with 491"});
  return n; }
struct G494 {
  best::vec<best::str> f495_xray; best::vec<best::str> amber; best::vec<int> f500_alpha;
  constexpr friend auto BestReflect(auto& m, G494*) { return m.infer()
    .with(&G494::f495_xray, cli::flag{.name = "xray", .letter = U'x', .arg = "ARG496", .count = cli::Optional, .help = "helps 497a\nand 497b"})
    .with(&G494::amber, cli::flag{.help = "helps with 499"}, cli::alias{"indigo", cli::Delete})
    .with(&G494::f500_alpha, cli::flag{.name = "alpha", .count = cli::Repeated}, cli::alias{"juliet"});
  }
};
inline void dump(Map& m, const std::string& p, const G494& v) { put(m, p + "f495_xray", v.f495_xray); put(m, p + "amber", v.amber); put(m, p + "f500_alpha", v.f500_alpha); }
inline Node* node_G494() { auto n = new Node; n->flags.push_back({"f495_xray", K_vec_str, "xray", U'x', VPublic, {}, 0, "ARG496", "helps 497a\nand 497b"});
  n->flags.push_back({"amber", K_vec_str, "amber", U'\0', VPublic, {{"indigo", VDelete}}, -1, "", "helps with 499"});
  n->flags.push_back({"f500_alpha", K_vec_int, "alpha", U'\0', VPublic, {{"juliet", VPublic}}, 2, "", ""});
  return n; }
struct R5 {
  best::option<bool> delta_t; S416 hazel; G443 f482_ebony; G484 f492_november_x; G494 f502_amber; best::option<int> f504_navy_3; best::vec<int> f506_rest;
  constexpr friend auto BestReflect(auto& m, R5*) { return m.infer().with(cli::app{.about = "about app 508\nin lines", .version = "1.508", .copyright_year = 2508, .license = "LIC-508"})
    .with(&R5::delta_t, cli::flag{.letter = U'w', .count = cli::Repeated})
    .with(&R5::hazel, cli::subcommand{.vis = cli::Hidden, .help = "helps with 441"})
    .with(&R5::f482_ebony, cli::group{.name = "ebony", .vis = cli::Invisible, .help = "helps with 483"})
    .with(&R5::f492_november_x, cli::group{.name = "november_x", .help = "helps 493a\n493b\n493c, the last"}, cli::alias{"tango"})
    .with(&R5::f502_amber, cli::group{.name = "amber", .help = "helps 503a\nand 503b"})
    .with(&R5::f504_navy_3, cli::flag{.name = "navy-3", .letter = U'a'}, cli::alias{"juliet"});
  }
};
inline void dump(Map& m, const std::string& p, const R5& v) { put(m, p + "delta_t", v.delta_t); dump(m, p + "hazel.", v.hazel); dump(m, p + "f482_ebony.", v.f482_ebony); dump(m, p + "f492_november_x.", v.f492_november_x); dump(m, p + "f502_amber.", v.f502_amber); put(m, p + "f504_navy_3", v.f504_navy_3); put(m, p + "f506_rest", v.f506_rest); }
inline Node* node_R5() { auto n = new Node; n->flags.push_back({"delta_t", K_opt_bool, "delta_t", U'w', VPublic, {}, 2, "", ""});
  n->subs.push_back({"hazel", "hazel", VHidden, {}, "helps with 441", "", node_S416()});
  n->groups.push_back({"f482_ebony", "ebony", U'\0', VInvisible, {}, "helps with 483", node_G443()});
  n->groups.push_back({"f492_november_x", "november_x", U'\0', VPublic, {{"tango", VPublic}}, "helps 493a\n493b\n493c, the last", node_G484()});
  n->groups.push_back({"f502_amber", "amber", U'\0', VPublic, {}, "helps 503a\nand 503b", node_G494()});
  n->flags.push_back({"f504_navy_3", K_opt_int, "navy-3", U'a', VPublic, {{"juliet", VPublic}}, -1, "", ""});
  n->poss.push_back({"f506_rest", K_vec_int, "", -1, ""});
  n->year = 2508;
  n->has_app = true; n->about = "about app 508\nin lines"; n->version = "1.508"; n->license = "LIC-508";
  return n; }
DEFINITION(R5)
#endif
#ifdef PART_D
struct S510 {
  bool f511_amber = false; best::vec<int> f514_november_x; int tango = 0; Quiet f519_pos; best::vec<int> f522_rest;
  constexpr friend auto BestReflect(auto& m, S510*) { return m.infer()
    .with(&S510::f511_amber, cli::flag{.name = "amber", .letter = U't', .help = "ünï help 513"})
    .with(&S510::f514_november_x, cli::flag{.name = "november_x", .letter = U'k', .arg = "ARG515", .help = "helps 516a\nand 516b"}, cli::alias{"fawn-grey"}, cli::alias{"dun"})
    .with(&S510::tango, cli::flag{.help = "helps with 518"}, cli::alias{"foxtrot", cli::Invisible}, cli::alias{"delta_t"})
    .with(&S510::f519_pos, cli::positional{.count = cli::Optional, .help = "helps with 521"})
    .with(&S510::f522_rest, cli::positional{.name = "POS523"});
  }
};
inline void dump(Map& m, const std::string& p, const S510& v) { put(m, p + "f511_amber", v.f511_amber); put(m, p + "f514_november_x", v.f514_november_x); put(m, p + "tango", v.tango); put(m, p + "f519_pos", v.f519_pos); put(m, p + "f522_rest", v.f522_rest); }
inline Node* node_S510() { auto n = new Node; n->flags.push_back({"f511_amber", K_bool, "amber", U't', VPublic, {}, -1, "", "ünï help 513"});
  n->flags.push_back({"f514_november_x", K_vec_int, "november_x", U'k', VPublic, {{"fawn-grey", VPublic}, {"dun", VPublic}}, -1, "ARG515", "helps 516a\nand 516b"});
  n->flags.push_back({"tango", K_int, "tango", U'\0', VPublic, {{"foxtrot", VInvisible}, {"delta_t", VPublic}}, -1, "", "helps with 518"});
  n->poss.push_back({"f519_pos", K_quiet, "", 0, "helps with 521"});
  n->poss.push_back({"f522_rest", K_vec_int, "POS523", -1, ""});
  return n; }
struct G529 {
  best::option<bool> india; best::strbuf alpha;
  constexpr friend auto BestReflect(auto& m, G529*) { return m.infer()
    .with(&G529::india, cli::flag{.letter = U'y'})
    .with(&G529::alpha, cli::flag{.vis = cli::Hidden, .help = "helps 532a\nand 532b"}, cli::alias{"naïve", cli::Invisible});
  }
};
inline void dump(Map& m, const std::string& p, const G529& v) { put(m, p + "india", v.india); put(m, p + "alpha", v.alpha); }
inline Node* node_G529() { auto n = new Node; n->flags.push_back({"india", K_opt_bool, "india", U'y', VPublic, {}, -1, "", ""});
  n->flags.push_back({"alpha", K_strbuf, "alpha", U'\0', VHidden, {{"naïve", VInvisible}}, -1, "", "helps 532a\nand 532b"});
  return n; }
struct S509 {
  S510 echo; best::vec<bool> f526_khaki_2; G529 f533_lima; best::vec<best::str> f535_bravo; best::vec<best::strbuf> oscar; bool f540_pos = false; best::vec<int> f543_rest;
  constexpr friend auto BestReflect(auto& m, S509*) { return m.infer()
    .with(&S509::echo, cli::subcommand{.vis = cli::Hidden, .help = "helps with 524", .about = "about 525\nmore"})
    .with(&S509::f526_khaki_2, cli::flag{.name = "khaki-2", .letter = U'p', .vis = cli::Invisible, .count = cli::Optional, .help = "ünï help 528"}, cli::alias{"jade_green"}, cli::alias{"olive"})
    .with(&S509::f533_lima, cli::group{.letter = U'X', .vis = cli::Invisible, .help = "helps with 534"})
    .with(&S509::f535_bravo, cli::flag{.name = "bravo", .letter = U'g', .help = "helps with 537"})
    .with(&S509::oscar, cli::flag{.arg = "ARG538", .count = cli::Optional, .help = "helps 539a\n539b\n539c, the last"}, cli::alias{"navy-3", cli::Public})
    .with(&S509::f540_pos, cli::positional{.count = cli::Optional, .help = "helps 542a\n542b\n542c, the last"});
  }
};
inline void dump(Map& m, const std::string& p, const S509& v) { dump(m, p + "echo.", v.echo); put(m, p + "f526_khaki_2", v.f526_khaki_2); dump(m, p + "f533_lima.", v.f533_lima); put(m, p + "f535_bravo", v.f535_bravo); put(m, p + "oscar", v.oscar); put(m, p + "f540_pos", v.f540_pos); put(m, p + "f543_rest", v.f543_rest); }
inline Node* node_S509() { auto n = new Node; n->subs.push_back({"echo", "echo", VHidden, {}, "helps with 524", "about 525\nmore", node_S510()});
  n->flags.push_back({"f526_khaki_2", K_vec_bool, "khaki-2", U'p', VInvisible, {{"jade_green", VInvisible}, {"olive", VInvisible}}, 0, "", "ünï help 528"});
  n->groups.push_back({"f533_lima", "", U'X', VInvisible, {}, "helps with 534", node_G529()});
  n->flags.push_back({"f535_bravo", K_vec_str, "bravo", U'g', VPublic, {}, -1, "", "helps with 537"});
  n->flags.push_back({"oscar", K_vec_buf, "oscar", U'\0', VPublic, {{"navy-3", VPublic}}, 0, "ARG538", "helps 539a\n539b\n539c, the last"});
  n->poss.push_back({"f540_pos", K_bool, "", 0, "helps 542a\n542b\n542c, the last"});
  n->poss.push_back({"f543_rest", K_vec_int, "", -1, ""});
  return n; }
struct G549 {
  uint8_t sierra = 0;
  constexpr friend auto BestReflect(auto& m, G549*) { return m.infer()
    .with(&G549::sierra, cli::flag{.letter = U'c', .arg = "ARG550", .count = cli::Repeated, .help = "helps 551a\nand 551b"});
  }
};
inline void dump(Map& m, const std::string& p, const G549& v) { put(m, p + "sierra", v.sierra); }
inline Node* node_G549() { auto n = new Node; n->flags.push_back({"sierra", K_u8, "sierra", U'c', VPublic, {}, 2, "ARG550", "helps 551a\nand 551b"});
  return n; }
struct S563 {
  best::option<int> f564_bravo; best::option<bool> foxtrot; best::vec<bool> victor_y; int f570_pos = 0; int64_t f573_pos = 0;
  constexpr friend auto BestReflect(auto& m, S563*) { return m.infer()
    .with(&S563::f564_bravo, cli::flag{.name = "bravo", .vis = cli::Invisible, .arg = "ARG565", .count = cli::Required, .help = "helps 566a\nand 566b"})
    .with(&S563::foxtrot, cli::flag{.arg = "ARG567", .count = cli::Repeated})
    .with(&S563::victor_y, cli::flag{.count = cli::Repeated, .help = "ünï help 569"})
    .with(&S563::f570_pos, cli::positional{.name = "POS571", .count = cli::Required, .help = "helps 572a\nand 572b"})
    .with(&S563::f573_pos, cli::positional{.help = "helps with 575"});
  }
};
inline void dump(Map& m, const std::string& p, const S563& v) { put(m, p + "f564_bravo", v.f564_bravo); put(m, p + "foxtrot", v.foxtrot); put(m, p + "victor_y", v.victor_y); put(m, p + "f570_pos", v.f570_pos); put(m, p + "f573_pos", v.f573_pos); }
inline Node* node_S563() { auto n = new Node; n->flags.push_back({"f564_bravo", K_opt_int, "bravo", U'\0', VInvisible, {}, 1, "ARG565", "helps 566a\nand 566b"});
  n->flags.push_back({"foxtrot", K_opt_bool, "foxtrot", U'\0', VPublic, {}, 2, "ARG567", ""});
  n->flags.push_back({"victor_y", K_vec_bool, "victor_y", U'\0', VPublic, {}, 2, "", "ünï help 569"});
  n->poss.push_back({"f570_pos", K_int, "POS571", 1, "helps 572a\nand 572b"});
  n->poss.push_back({"f573_pos", K_i64, "", -1, "helps with 575"});
  return n; }
struct S556 {
  uint8_t f557_tango = 0; best::str f560_copper; S563 golf_ball; best::option<int> yankee; bool f580_pos = false; best::option<bool> f583_pos; best::str f586_pos; best::vec<best::str> f589_rest;
  constexpr friend auto BestReflect(auto& m, S556*) { return m.infer()
    .with(&S556::f557_tango, cli::flag{.name = "tango", .letter = U'n', .count = cli::Repeated, .help = "helps with 559"})
    .with(&S556::f560_copper, cli::flag{.name = "copper", .letter = U'c', .arg = "ARG561", .help = "helps 562a\n562b\n562c, the last"}, cli::alias{"white_noise", cli::Hidden})
    .with(&S556::golf_ball, cli::subcommand{.vis = cli::Hidden, .help = "helps 576a\nand 576b", .about = "about 577\nmore"})
    .with(&S556::yankee, cli::flag{.arg = "ARG578", .help = "helps 579a\nand 579b"})
    .with(&S556::f580_pos, cli::positional{.help = "helps 582a\n582b\n582c, the last"})
    .with(&S556::f583_pos, cli::positional{.name = "POS584", .help = "ünï help 585"})
    .with(&S556::f586_pos, cli::positional{.name = "POS587", .count = cli::Optional, .help = "ünï help 588"});
  }
};
inline void dump(Map& m, const std::string& p, const S556& v) { put(m, p + "f557_tango", v.f557_tango); put(m, p + "f560_copper", v.f560_copper); dump(m, p + "golf_ball.", v.golf_ball); put(m, p + "yankee", v.yankee); put(m, p + "f580_pos", v.f580_pos); put(m, p + "f583_pos", v.f583_pos); put(m, p + "f586_pos", v.f586_pos); put(m, p + "f589_rest", v.f589_rest); }
inline Node* node_S556() { auto n = new Node; n->flags.push_back({"f557_tango", K_u8, "tango", U'n', VPublic, {}, 2, "", "helps with 559"});
  n->flags.push_back({"f560_copper", K_str, "copper", U'c', VPublic, {{"white_noise", VHidden}}, -1, "ARG561", "helps 562a\n562b\n562c, the last"});
  n->subs.push_back({"golf_ball", "golf-ball", VHidden, {}, "helps 576a\nand 576b", "about 577\nmore", node_S563()});
  n->flags.push_back({"yankee", K_opt_int, "yankee", U'\0', VPublic, {}, -1, "ARG578", "helps 579a\nand 579b"});
  n->poss.push_back({"f580_pos", K_bool, "", -1, "helps 582a\n582b\n582c, the last"});
  n->poss.push_back({"f583_pos", K_opt_bool, "POS584", -1, "ünï help 585"});
  n->poss.push_back({"f586_pos", K_str, "POS587", 0, "ünï help 588"});
  n->poss.push_back({"f589_rest", K_vec_str, "", -1, ""});
  return n; }
struct R6 {
  S509 whiskey; best::rune copper; G549 f552_yankee; int64_t victor_y = 0; S556 f591_na_ve; Celsius lemon; Celsius f595_pos; best::rune f598_pos; best::str f601_pos;
  constexpr friend auto BestReflect(auto& m, R6*) { return m.infer().with(cli::app{.authors = "people 604", .about = "about app 604\nin lines", .version = "1.604", .url = "https://u604", .copyright_year = 2604})
    .with(&R6::whiskey, cli::subcommand{.help = "helps with 545", .about = "about 546\nmore"}, cli::alias{"golf-ball", cli::Delete})
    .with(&R6::copper, cli::flag{.letter = U'r', .help = "ünï help 548"})
    .with(&R6::f552_yankee, cli::group{.name = "yankee", .letter = U'Q', .help = "helps 553a\n553b\n553c, the last"}, cli::alias{"blue_sky", cli::Hidden})
    .with(&R6::victor_y, cli::flag{.vis = cli::Hidden, .arg = "ARG554", .help = "helps 555a\n555b\n555c, the last"}, cli::alias{"olive", cli::Public})
    .with(&R6::f591_na_ve, cli::subcommand{.name = "naïve", .vis = cli::Hidden}, cli::alias{"hotel_id", cli::Delete})
    .with(&R6::lemon, cli::flag{.letter = U'd', .vis = cli::Delete, .arg = "ARG593", .help = "helps with 594"})
    .with(&R6::f595_pos, cli::positional{.name = "POS596", .help = "helps with 597"})
    .with(&R6::f598_pos, cli::positional{.help = "helps with 600"})
    .with(&R6::f601_pos, cli::positional{.name = "POS602", .count = cli::Optional, .help = "helps with 603"});
  }
};
inline void dump(Map& m, const std::string& p, const R6& v) { dump(m, p + "whiskey.", v.whiskey); put(m, p + "copper", v.copper); dump(m, p + "f552_yankee.", v.f552_yankee); put(m, p + "victor_y", v.victor_y); dump(m, p + "f591_na_ve.", v.f591_na_ve); put(m, p + "lemon", v.lemon); put(m, p + "f595_pos", v.f595_pos); put(m, p + "f598_pos", v.f598_pos); put(m, p + "f601_pos", v.f601_pos); }
inline Node* node_R6() { auto n = new Node; n->subs.push_back({"whiskey", "whiskey", VPublic, {{"golf-ball", VDelete}}, "helps with 545", "about 546\nmore", node_S509()});
  n->flags.push_back({"copper", K_rune, "copper", U'r', VPublic, {}, -1, "", "ünï help 548"});
  n->groups.push_back({"f552_yankee", "yankee", U'Q', VPublic, {{"blue_sky", VHidden}}, "helps 553a\n553b\n553c, the last", node_G549()});
  n->flags.push_back({"victor_y", K_i64, "victor_y", U'\0', VHidden, {{"olive", VPublic}}, -1, "ARG554", "helps 555a\n555b\n555c, the last"});
  n->subs.push_back({"f591_na_ve", "naïve", VHidden, {{"hotel_id", VDelete}}, "", "", node_S556()});
  n->flags.push_back({"lemon", K_custom, "lemon", U'd', VDelete, {}, -1, "ARG593", "helps with 594"});
  n->poss.push_back({"f595_pos", K_custom, "POS596", -1, "helps with 597"});
  n->poss.push_back({"f598_pos", K_rune, "", -1, "helps with 600"});
  n->poss.push_back({"f601_pos", K_str, "POS602", 0, "helps with 603"});
  n->year = 2604;
  n->has_app = true; n->authors = "people 604"; n->about = "about app 604\nin lines"; n->version = "1.604"; n->url = "https://u604";
  return n; }
DEFINITION(R6)
struct G609 {
  best::vec<best::str> f610_oscar;
  constexpr friend auto BestReflect(auto& m, G609*) { return m.infer()
    .with(&G609::f610_oscar, cli::flag{.name = "oscar", .letter = U'b', .help = "helps 612a\n612b\n612c, the last"}, cli::alias{"indigo", cli::Public});
  }
};
inline void dump(Map& m, const std::string& p, const G609& v) { put(m, p + "f610_oscar", v.f610_oscar); }
inline Node* node_G609() { auto n = new Node; n->flags.push_back({"f610_oscar", K_vec_str, "oscar", U'b', VPublic, {{"indigo", VPublic}}, -1, "", "helps 612a\n612b\n612c, the last"});
  return n; }
struct G608 {
  G609 f613_hazel; Quiet khaki_2;
  constexpr friend auto BestReflect(auto& m, G608*) { return m.infer()
    .with(&G608::f613_hazel, cli::group{.name = "hazel", .letter = U'Q', .vis = cli::Invisible, .help = "helps 614a\nand 614b"}, cli::alias{"whiskey", cli::Hidden})
    .with(&G608::khaki_2, cli::flag{.help = "ünï help 616"}, cli::alias{"romeo", cli::Hidden}, cli::alias{"juliet", cli::Delete});
  }
};
inline void dump(Map& m, const std::string& p, const G608& v) { dump(m, p + "f613_hazel.", v.f613_hazel); put(m, p + "khaki_2", v.khaki_2); }
inline Node* node_G608() { auto n = new Node; n->groups.push_back({"f613_hazel", "hazel", U'Q', VInvisible, {{"whiskey", VHidden}}, "helps 614a\nand 614b", node_G609()});
  n->flags.push_back({"khaki_2", K_quiet, "khaki-2", U'\0', VPublic, {{"romeo", VHidden}, {"juliet", VDelete}}, -1, "", "ünï help 616"});
  return n; }
struct S607 {
  G608 f617_gold; best::option<int> jade_green; best::option<int> f621_teal; best::option<int> f624_amber; int f627_pos = 0; best::option<int> f630_pos; best::vec<bool> f633_rest;
  constexpr friend auto BestReflect(auto& m, S607*) { return m.infer()
    .with(&S607::f617_gold, cli::group{.name = "gold", .help = "ünï help 618"})
    .with(&S607::jade_green, cli::flag{.help = "helps with 620"})
    .with(&S607::f621_teal, cli::flag{.name = "teal", .arg = "ARG622", .help = "helps with 623"}, cli::alias{"red", cli::Hidden})
    .with(&S607::f624_amber, cli::flag{.name = "amber", .vis = cli::Hidden, .help = "helps 626a\nand 626b"}, cli::alias{"dun", cli::Delete})
    .with(&S607::f627_pos, cli::positional{.name = "POS628", .count = cli::Optional, .help = "helps with 629"})
    .with(&S607::f630_pos, cli::positional{.name = "POS631", .count = cli::Optional, .help = "helps with 632"});
  }
};
inline void dump(Map& m, const std::string& p, const S607& v) { dump(m, p + "f617_gold.", v.f617_gold); put(m, p + "jade_green", v.jade_green); put(m, p + "f621_teal", v.f621_teal); put(m, p + "f624_amber", v.f624_amber); put(m, p + "f627_pos", v.f627_pos); put(m, p + "f630_pos", v.f630_pos); put(m, p + "f633_rest", v.f633_rest); }
inline Node* node_S607() { auto n = new Node; n->groups.push_back({"f617_gold", "gold", U'\0', VPublic, {}, "ünï help 618", node_G608()});
  n->flags.push_back({"jade_green", K_opt_int, "jade_green", U'\0', VPublic, {}, -1, "", "helps with 620"});
  n->flags.push_back({"f621_teal", K_opt_int, "teal", U'\0', VPublic, {{"red", VHidden}}, -1, "ARG622", "helps with 623"});
  n->flags.push_back({"f624_amber", K_opt_int, "amber", U'\0', VHidden, {{"dun", VDelete}}, -1, "", "helps 626a\nand 626b"});
  n->poss.push_back({"f627_pos", K_int, "POS628", 0, "helps with 629"});
  n->poss.push_back({"f630_pos", K_opt_int, "POS631", 0, "helps with 632"});
  n->poss.push_back({"f633_rest", K_vec_bool, "", -1, ""});
  return n; }
struct G642 {
  int64_t f643_lima = 0; best::vec<bool> f646__lan_x; best::option<int> f648_umber; best::vec<best::strbuf> f651_sierra;
  constexpr friend auto BestReflect(auto& m, G642*) { return m.infer()
    .with(&G642::f643_lima, cli::flag{.name = "lima", .help = "helps with 645"})
    .with(&G642::f646__lan_x, cli::flag{.name = "élan-x", .letter = U'g', .vis = cli::Delete, .arg = "ARG647"})
    .with(&G642::f648_umber, cli::flag{.name = "umber", .vis = cli::Delete, .count = cli::Optional, .help = "helps with 650"})
    .with(&G642::f651_sierra, cli::flag{.name = "sierra", .letter = U's', .count = cli::Optional, .help = "ünï help 653"}, cli::alias{"yankee", cli::Hidden});
  }
};
inline void dump(Map& m, const std::string& p, const G642& v) { put(m, p + "f643_lima", v.f643_lima); put(m, p + "f646__lan_x", v.f646__lan_x); put(m, p + "f648_umber", v.f648_umber); put(m, p + "f651_sierra", v.f651_sierra); }
inline Node* node_G642() { auto n = new Node; n->flags.push_back({"f643_lima", K_i64, "lima", U'\0', VPublic, {}, -1, "", "helps with 645"});
  n->flags.push_back({"f646__lan_x", K_vec_bool, "élan-x", U'g', VDelete, {}, -1, "ARG647", ""});
  n->flags.push_back({"f648_umber", K_opt_int, "umber", U'\0', VDelete, {}, 0, "", "helps with 650"});
  n->flags.push_back({"f651_sierra", K_vec_buf, "sierra", U's', VPublic, {{"yankee", VHidden}}, 0, "", "ünï help 653"});
  return n; }
struct G639 {
  best::vec<bool> mike; G642 f654_indigo; best::option<int> f656_foxtrot; Quiet f658_quebec_city; Quiet f661_romeo;
  constexpr friend auto BestReflect(auto& m, G639*) { return m.infer()
    .with(&G639::mike, cli::flag{.letter = U'k', .vis = cli::Hidden, .count = cli::Optional, .help = "ünï help 641"})
    .with(&G639::f654_indigo, cli::group{.help = "helps 655a\nand 655b"})
    .with(&G639::f656_foxtrot, cli::flag{.name = "foxtrot", .arg = "ARG657"}, cli::alias{"maroon", cli::Delete})
    .with(&G639::f658_quebec_city, cli::flag{.name = "quebec-city", .vis = cli::Invisible, .count = cli::Required, .help = "helps 660a\n660b\n660c, the last"})
    .with(&G639::f661_romeo, cli::flag{.name = "romeo", .vis = cli::Hidden, .arg = "ARG662", .help = "helps 663a\nand 663b"});
  }
};
inline void dump(Map& m, const std::string& p, const G639& v) { put(m, p + "mike", v.mike); dump(m, p + "f654_indigo.", v.f654_indigo); put(m, p + "f656_foxtrot", v.f656_foxtrot); put(m, p + "f658_quebec_city", v.f658_quebec_city); put(m, p + "f661_romeo", v.f661_romeo); }
inline Node* node_G639() { auto n = new Node; n->flags.push_back({"mike", K_vec_bool, "mike", U'k', VHidden, {}, 0, "", "ünï help 641"});
  n->groups.push_back({"f654_indigo", "", U'\0', VPublic, {}, "helps 655a\nand 655b", node_G642()});
  n->flags.push_back({"f656_foxtrot", K_opt_int, "foxtrot", U'\0', VPublic, {{"maroon", VDelete}}, -1, "ARG657", ""});
  n->flags.push_back({"f658_quebec_city", K_quiet, "quebec-city", U'\0', VInvisible, {}, 1, "", "helps 660a\n660b\n660c, the last"});
  n->flags.push_back({"f661_romeo", K_quiet, "romeo", U'\0', VHidden, {}, -1, "ARG662", "helps 663a\nand 663b"});
  return n; }
struct G670 {
  best::vec<best::str> copper; best::rune f673_quebec_city; best::vec<int> sierra;
  constexpr friend auto BestReflect(auto& m, G670*) { return m.infer()
    .with(&G670::copper, cli::flag{.help = "helps 672a\n672b\n672c, the last"})
    .with(&G670::f673_quebec_city, cli::flag{.name = "quebec-city", .vis = cli::Delete, .help = "ünï help 675"})
    .with(&G670::sierra, cli::flag{.help = "helps 677a\n677b\n677c, the last"}, cli::alias{"ebony"});
  }
};
inline void dump(Map& m, const std::string& p, const G670& v) { put(m, p + "copper", v.copper); put(m, p + "f673_quebec_city", v.f673_quebec_city); put(m, p + "sierra", v.sierra); }
inline Node* node_G670() { auto n = new Node; n->flags.push_back({"copper", K_vec_str, "copper", U'\0', VPublic, {}, -1, "", "helps 672a\n672b\n672c, the last"});
  n->flags.push_back({"f673_quebec_city", K_rune, "quebec-city", U'\0', VDelete, {}, -1, "", "ünï help 675"});
  n->flags.push_back({"sierra", K_vec_int, "sierra", U'\0', VPublic, {{"ebony", VPublic}}, -1, "", "helps 677a\n677b\n677c, the last"});
  return n; }
struct G666 {
  best::strbuf f667_bravo; G670 f678_november_x;
  constexpr friend auto BestReflect(auto& m, G666*) { return m.infer()
    .with(&G666::f667_bravo, cli::flag{.name = "bravo", .help = "helps with 669"}, cli::alias{"olive", cli::Invisible})
    .with(&G666::f678_november_x, cli::group{.name = "november_x", .vis = cli::Hidden, .help = "helps with 679"}, cli::alias{"romeo"});
  }
};
inline void dump(Map& m, const std::string& p, const G666& v) { put(m, p + "f667_bravo", v.f667_bravo); dump(m, p + "f678_november_x.", v.f678_november_x); }
inline Node* node_G666() { auto n = new Node; n->flags.push_back({"f667_bravo", K_strbuf, "bravo", U'\0', VPublic, {{"olive", VInvisible}}, -1, "", "helps with 669"});
  n->groups.push_back({"f678_november_x", "november_x", U'\0', VHidden, {{"romeo", VHidden}}, "helps with 679", node_G670()});
  return n; }
struct S684 {
  best::vec<best::str> juliet; best::option<int> f687_pos;
  constexpr friend auto BestReflect(auto& m, S684*) { return m.infer()
    .with(&S684::juliet, cli::flag{.letter = U'd', .count = cli::Repeated, .help = "ünï help 686"})
    .with(&S684::f687_pos, cli::positional{.name = "POS688", .help = "helps with 689"});
  }
};
inline void dump(Map& m, const std::string& p, const S684& v) { put(m, p + "juliet", v.juliet); put(m, p + "f687_pos", v.f687_pos); }
inline Node* node_S684() { auto n = new Node; n->flags.push_back({"juliet", K_vec_str, "juliet", U'd', VPublic, {}, 2, "", "ünï help 686"});
  n->poss.push_back({"f687_pos", K_opt_int, "POS688", -1, "helps with 689"});
  return n; }
struct G638 {
  G639 f664_fawn_grey; G666 f680_white_noise; best::vec<best::strbuf> f681_na_ve; S684 kilo_watt; Celsius f691_silver_9; best::vec<best::str> f694_lemon;
  constexpr friend auto BestReflect(auto& m, G638*) { return m.infer()
    .with(&G638::f664_fawn_grey, cli::group{.letter = U'X', .help = "ünï help 665"})
    .with(&G638::f680_white_noise, cli::group{.name = "white_noise", .letter = U'W'})
    .with(&G638::f681_na_ve, cli::flag{.name = "naïve", .count = cli::Repeated, .help = "helps with 683"}, cli::alias{"delta_t", cli::Invisible})
    .with(&G638::kilo_watt, cli::subcommand{})
    .with(&G638::f691_silver_9, cli::flag{.name = "silver-9", .letter = U'y', .count = cli::Repeated, .help = "helps 693a\nand 693b"}, cli::alias{"violet", cli::Delete}, cli::alias{"teal", cli::Delete})
    .with(&G638::f694_lemon, cli::flag{.name = "lemon", .letter = U'g', .vis = cli::Delete, .count = cli::Optional, .help = "ünï help 696"});
  }
};
inline void dump(Map& m, const std::string& p, const G638& v) { dump(m, p + "f664_fawn_grey.", v.f664_fawn_grey); dump(m, p + "f680_white_noise.", v.f680_white_noise); put(m, p + "f681_na_ve", v.f681_na_ve); dump(m, p + "kilo_watt.", v.kilo_watt); put(m, p + "f691_silver_9", v.f691_silver_9); put(m, p + "f694_lemon", v.f694_lemon); }
inline Node* node_G638() { auto n = new Node; n->groups.push_back({"f664_fawn_grey", "", U'X', VPublic, {}, "ünï help 665", node_G639()});
  n->groups.push_back({"f680_white_noise", "white_noise", U'W', VPublic, {}, "", node_G666()});
  n->flags.push_back({"f681_na_ve", K_vec_buf, "naïve", U'\0', VPublic, {{"delta_t", VInvisible}}, 2, "", "helps with 683"});
  n->subs.push_back({"kilo_watt", "kilo-watt", VPublic, {}, "", "", node_S684()});
  n->flags.push_back({"f691_silver_9", K_custom, "silver-9", U'y', VPublic, {{"violet", VDelete}, {"teal", VDelete}}, 2, "", "helps 693a\nand 693b"});
  n->flags.push_back({"f694_lemon", K_vec_str, "lemon", U'g', VDelete, {}, 0, "", "ünï help 696"});
  return n; }
struct S712 {
  uint8_t golf_ball = 0; best::strbuf f715_jade_green; int64_t f718_silver_9 = 0; best::vec<bool> f721_victor_y;
  constexpr friend auto BestReflect(auto& m, S712*) { return m.infer()
    .with(&S712::golf_ball, cli::flag{.letter = U'f', .vis = cli::Invisible, .arg = "ARG713", .help = "helps with 714"}, cli::alias{"yankee", cli::Public})
    .with(&S712::f715_jade_green, cli::flag{.name = "jade_green", .letter = U'x', .arg = "ARG716", .count = cli::Required, .help = "helps 717a\nand 717b"})
    .with(&S712::f718_silver_9, cli::flag{.name = "silver-9", .letter = U'o', .count = cli::Optional, .help = "helps with 720"}, cli::alias{"khaki-2"}, cli::alias{"red"})
    .with(&S712::f721_victor_y, cli::flag{.name = "victor_y", .letter = U'z', .vis = cli::Hidden, .count = cli::Optional, .help = "helps 723a\nand 723b"});
  }
};
inline void dump(Map& m, const std::string& p, const S712& v) { put(m, p + "golf_ball", v.golf_ball); put(m, p + "f715_jade_green", v.f715_jade_green); put(m, p + "f718_silver_9", v.f718_silver_9); put(m, p + "f721_victor_y", v.f721_victor_y); }
inline Node* node_S712() { auto n = new Node; n->flags.push_back({"golf_ball", K_u8, "golf-ball", U'f', VInvisible, {{"yankee", VPublic}}, -1, "ARG713", "helps with 714"});
  n->flags.push_back({"f715_jade_green", K_strbuf, "jade_green", U'x', VPublic, {}, 1, "ARG716", "helps 717a\nand 717b"});
  n->flags.push_back({"f718_silver_9", K_i64, "silver-9", U'o', VPublic, {{"khaki-2", VPublic}, {"red", VPublic}}, 0, "", "helps with 720"});
  n->flags.push_back({"f721_victor_y", K_vec_bool, "victor_y", U'z', VHidden, {}, 0, "", "helps 723a\nand 723b"});
  return n; }
struct R7 {
  best::vec<best::strbuf> red; S607 f635_ebony; G638 f697_india; G638 f699_silver_9; best::option<bool> quebec_city; int64_t f702_victor_y = 0; best::rune f705_yankee; best::vec<int> whiskey; G638 f710_kilo_watt; S712 f724_umber; best::vec<best::str> f727_rest;
  constexpr friend auto BestReflect(auto& m, R7*) { return m.infer().with(cli::app{.authors = "people 729", .version = "1.729", .url = "https://u729", .copyright_year = 2729, .license = "LIC-729"})
    .with(&R7::red, cli::flag{.letter = U'w', .arg = "ARG605", .count = cli::Optional, .help = "helps with 606"}, cli::alias{"xray", cli::Invisible})
    .with(&R7::f635_ebony, cli::subcommand{.name = "ebony", .vis = cli::Delete, .help = "helps 636a\nand 636b", .about = "about 637\nmore"})
    .with(&R7::f697_india, cli::group{.name = "india", .help = "helps with 698"}, cli::alias{"lemon"})
    .with(&R7::f699_silver_9, cli::group{.name = "silver-9", .help = "ünï help 700"})
    .with(&R7::quebec_city, cli::flag{.arg = "ARG701", .count = cli::Optional})
    .with(&R7::f702_victor_y, cli::flag{.name = "victor_y", .letter = U'k', .vis = cli::Invisible, .arg = "ARG703", .help = "helps 704a\nand 704b"}, cli::alias{"pink_4", cli::Delete}, cli::alias{"hotel_id", cli::Hidden})
    .with(&R7::f705_yankee, cli::flag{.name = "yankee", .help = "helps with 707"}, cli::alias{"olive", cli::Delete})
    .with(&R7::whiskey, cli::flag{.letter = U'g', .vis = cli::Invisible, .arg = "ARG708", .count = cli::Repeated, .help = "helps 709a\nand 709b"}, cli::alias{"copper", cli::Invisible})
    .with(&R7::f710_kilo_watt, cli::group{.name = "kilo-watt", .help = "helps with 711"})
    .with(&R7::f724_umber, cli::subcommand{.name = "umber", .help = "helps with 725"}, cli::alias{"zulu", cli::Hidden})
    .with(&R7::f727_rest, cli::positional{.name = "POS728"});
  }
};
inline void dump(Map& m, const std::string& p, const R7& v) { put(m, p + "red", v.red); dump(m, p + "f635_ebony.", v.f635_ebony); dump(m, p + "f697_india.", v.f697_india); dump(m, p + "f699_silver_9.", v.f699_silver_9); put(m, p + "quebec_city", v.quebec_city); put(m, p + "f702_victor_y", v.f702_victor_y); put(m, p + "f705_yankee", v.f705_yankee); put(m, p + "whiskey", v.whiskey); dump(m, p + "f710_kilo_watt.", v.f710_kilo_watt); dump(m, p + "f724_umber.", v.f724_umber); put(m, p + "f727_rest", v.f727_rest); }
inline Node* node_R7() { auto n = new Node; n->flags.push_back({"red", K_vec_buf, "red", U'w', VPublic, {{"xray", VInvisible}}, 0, "ARG605", "helps with 606"});
  n->subs.push_back({"f635_ebony", "ebony", VDelete, {}, "helps 636a\nand 636b", "about 637\nmore", node_S607()});
  n->groups.push_back({"f697_india", "india", U'\0', VPublic, {{"lemon", VPublic}}, "helps with 698", node_G638()});
  n->groups.push_back({"f699_silver_9", "silver-9", U'\0', VPublic, {}, "ünï help 700", node_G638()});
  n->flags.push_back({"quebec_city", K_opt_bool, "quebec-city", U'\0', VPublic, {}, 0, "ARG701", ""});
  n->flags.push_back({"f702_victor_y", K_i64, "victor_y", U'k', VInvisible, {{"pink_4", VDelete}, {"hotel_id", VHidden}}, -1, "ARG703", "helps 704a\nand 704b"});
  n->flags.push_back({"f705_yankee", K_rune, "yankee", U'\0', VPublic, {{"olive", VDelete}}, -1, "", "helps with 707"});
  n->flags.push_back({"whiskey", K_vec_int, "whiskey", U'g', VInvisible, {{"copper", VInvisible}}, 2, "ARG708", "helps 709a\nand 709b"});
  n->groups.push_back({"f710_kilo_watt", "kilo-watt", U'\0', VPublic, {}, "helps with 711", node_G638()});
  n->subs.push_back({"f724_umber", "umber", VPublic, {{"zulu", VHidden}}, "helps with 725", "", node_S712()});
  n->poss.push_back({"f727_rest", K_vec_str, "POS728", -1, ""});
  n->year = 2729;
  n->has_app = true; n->authors = "people 729"; n->version = "1.729"; n->url = "https://u729"; n->license = "LIC-729";
  return n; }
DEFINITION(R7)
#endif
#ifdef PART_E
struct S735 {
  best::option<bool> f736_cargo_lock;
  constexpr friend auto BestReflect(auto& m, S735*) { return m.infer()
    .with(&S735::f736_cargo_lock, cli::flag{.name = "cargo-lock", .vis = cli::Hidden, .arg = "ARG737", .count = cli::Required, .help = "helps 738a\nand 738b"});
  }
};
inline void dump(Map& m, const std::string& p, const S735& v) { put(m, p + "f736_cargo_lock", v.f736_cargo_lock); }
inline Node* node_S735() { auto n = new Node; n->flags.push_back({"f736_cargo_lock", K_opt_bool, "cargo-lock", U'\0', VHidden, {}, 1, "ARG737", "helps 738a\nand 738b"});
  return n; }
struct S732 {
  int f733_na_ve = 0; S735 f739__lan_x; int64_t f742_pos = 0; Quiet f745_pos; best::option<best::rune> f747_pos;
  constexpr friend auto BestReflect(auto& m, S732*) { return m.infer()
    .with(&S732::f733_na_ve, cli::flag{.name = "naïve", .letter = U'é', .arg = "ARG734"}, cli::alias{"umber"})
    .with(&S732::f739__lan_x, cli::subcommand{.name = "élan-x", .help = "helps with 740", .about = "about 741\nmore"})
    .with(&S732::f742_pos, cli::positional{.count = cli::Optional, .help = "helps with 744"})
    .with(&S732::f747_pos, cli::positional{.name = "POS748", .count = cli::Optional, .help = "helps with 749"});
  }
};
inline void dump(Map& m, const std::string& p, const S732& v) { put(m, p + "f733_na_ve", v.f733_na_ve); dump(m, p + "f739__lan_x.", v.f739__lan_x); put(m, p + "f742_pos", v.f742_pos); put(m, p + "f745_pos", v.f745_pos); put(m, p + "f747_pos", v.f747_pos); }
inline Node* node_S732() { auto n = new Node; n->flags.push_back({"f733_na_ve", K_int, "naïve", U'é', VPublic, {{"umber", VPublic}}, -1, "ARG734", ""});
  n->subs.push_back({"f739__lan_x", "élan-x", VPublic, {}, "helps with 740", "about 741\nmore", node_S735()});
  n->poss.push_back({"f742_pos", K_i64, "", 0, "helps with 744"});
  n->poss.push_back({"f745_pos", K_quiet, "", -1, ""});
  n->poss.push_back({"f747_pos", K_opt_rune, "POS748", 0, "helps with 749"});
  return n; }
struct S757 {
  best::option<int> f758_white_noise; int november_x = 0; int64_t oscar = 0; best::vec<best::strbuf> quebec_city; best::strbuf f766_pos; best::strbuf f768_pos; best::vec<best::strbuf> f771_rest;
  constexpr friend auto BestReflect(auto& m, S757*) { return m.infer()
    .with(&S757::f758_white_noise, cli::flag{.name = "white_noise"}, cli::alias{"lima"}, cli::alias{"golf-ball", cli::Delete})
    .with(&S757::november_x, cli::flag{.letter = U'v', .vis = cli::Invisible, .arg = "ARG760", .count = cli::Repeated, .help = "helps with 761"})
    .with(&S757::oscar, cli::flag{.letter = U'λ', .help = "helps with 763"}, cli::alias{"teal", cli::Hidden})
    .with(&S757::quebec_city, cli::flag{.letter = U'é', .vis = cli::Invisible, .arg = "ARG764", .count = cli::Repeated, .help = "helps 765a\nand 765b"})
    .with(&S757::f766_pos, cli::positional{.name = "POS767", .count = cli::Required})
    .with(&S757::f768_pos, cli::positional{.count = cli::Required, .help = "helps with 770"})
    .with(&S757::f771_rest, cli::positional{.name = "POS772"});
  }
};
inline void dump(Map& m, const std::string& p, const S757& v) { put(m, p + "f758_white_noise", v.f758_white_noise); put(m, p + "november_x", v.november_x); put(m, p + "oscar", v.oscar); put(m, p + "quebec_city", v.quebec_city); put(m, p + "f766_pos", v.f766_pos); put(m, p + "f768_pos", v.f768_pos); put(m, p + "f771_rest", v.f771_rest); }
inline Node* node_S757() { auto n = new Node; n->flags.push_back({"f758_white_noise", K_opt_int, "white_noise", U'\0', VPublic, {{"lima", VPublic}, {"golf-ball", VDelete}}, -1, "", ""});
  n->flags.push_back({"november_x", K_int, "november_x", U'v', VInvisible, {}, 2, "ARG760", "helps with 761"});
  n->flags.push_back({"oscar", K_i64, "oscar", U'λ', VPublic, {{"teal", VHidden}}, -1, "", "helps with 763"});
  n->flags.push_back({"quebec_city", K_vec_buf, "quebec-city", U'é', VInvisible, {}, 2, "ARG764", "helps 765a\nand 765b"});
  n->poss.push_back({"f766_pos", K_strbuf, "POS767", 1, ""});
  n->poss.push_back({"f768_pos", K_strbuf, "", 1, "helps with 770"});
  n->poss.push_back({"f771_rest", K_vec_buf, "POS772", -1, ""});
  return n; }
struct S756 {
  S757 zulu; uint8_t silver_9 = 0; best::vec<int> f777_rest;
  constexpr friend auto BestReflect(auto& m, S756*) { return m.infer()
    .with(&S756::zulu, cli::subcommand{.vis = cli::Hidden, .help = "helps with 773"}, cli::alias{"alpha", cli::Hidden})
    .with(&S756::silver_9, cli::flag{.letter = U'b', .vis = cli::Invisible, .help = "helps with 776"})
    .with(&S756::f777_rest, cli::positional{.name = "POS778"});
  }
};
inline void dump(Map& m, const std::string& p, const S756& v) { dump(m, p + "zulu.", v.zulu); put(m, p + "silver_9", v.silver_9); put(m, p + "f777_rest", v.f777_rest); }
inline Node* node_S756() { auto n = new Node; n->subs.push_back({"zulu", "zulu", VHidden, {{"alpha", VHidden}}, "helps with 773", "", node_S757()});
  n->flags.push_back({"silver_9", K_u8, "silver-9", U'b', VInvisible, {}, -1, "", "helps with 776"});
  n->poss.push_back({"f777_rest", K_vec_int, "POS778", -1, ""});
  return n; }
struct G784 {
  best::vec<best::str> f785_zulu; best::strbuf pink_4; best::vec<best::strbuf> f790_hazel; int gold = 0;
  constexpr friend auto BestReflect(auto& m, G784*) { return m.infer()
    .with(&G784::f785_zulu, cli::flag{.name = "zulu", .vis = cli::Hidden, .arg = "ARG786", .count = cli::Optional, .help = "helps with 787"})
    .with(&G784::pink_4, cli::flag{.help = "helps with 789"})
    .with(&G784::f790_hazel, cli::flag{.name = "hazel", .count = cli::Optional, .help = "helps 792a\nand 792b"})
    .with(&G784::gold, cli::flag{.count = cli::Repeated, .help = "helps with 794"}, cli::alias{"whiskey", cli::Delete});
  }
};
inline void dump(Map& m, const std::string& p, const G784& v) { put(m, p + "f785_zulu", v.f785_zulu); put(m, p + "pink_4", v.pink_4); put(m, p + "f790_hazel", v.f790_hazel); put(m, p + "gold", v.gold); }
inline Node* node_G784() { auto n = new Node; n->flags.push_back({"f785_zulu", K_vec_str, "zulu", U'\0', VHidden, {}, 0, "ARG786", "helps with 787"});
  n->flags.push_back({"pink_4", K_strbuf, "pink_4", U'\0', VPublic, {}, -1, "", "helps with 789"});
  n->flags.push_back({"f790_hazel", K_vec_buf, "hazel", U'\0', VPublic, {}, 0, "", "helps 792a\nand 792b"});
  n->flags.push_back({"gold", K_int, "gold", U'\0', VPublic, {{"whiskey", VDelete}}, 2, "", "helps with 794"});
  return n; }
struct G783 {
  G784 f795_golf_ball; int f797_dun = 0;
  constexpr friend auto BestReflect(auto& m, G783*) { return m.infer()
    .with(&G783::f795_golf_ball, cli::group{.letter = U'W', .help = "helps 796a\nand 796b"})
    .with(&G783::f797_dun, cli::flag{.name = "dun", .letter = U't', .help = "helps with 799"}, cli::alias{"xray", cli::Delete});
  }
};
inline void dump(Map& m, const std::string& p, const G783& v) { dump(m, p + "f795_golf_ball.", v.f795_golf_ball); put(m, p + "f797_dun", v.f797_dun); }
inline Node* node_G783() { auto n = new Node; n->groups.push_back({"f795_golf_ball", "", U'W', VPublic, {}, "helps 796a\nand 796b", node_G784()});
  n->flags.push_back({"f797_dun", K_int, "dun", U't', VPublic, {{"xray", VDelete}}, -1, "", "helps with 799"});
  return n; }
struct R8 {
  Quiet indigo; S732 bravo; best::rune white_noise; best::rune lima; S756 copper; best::rune f781_blue_sky; G783 f800_khaki_2; best::vec<best::strbuf> quebec_city; best::str cargo_lock; best::option<int> f806_pos;
  constexpr friend auto BestReflect(auto& m, R8*) { return m.infer()
    .with(&R8::indigo, cli::flag{.letter = U'y', .help = "helps with 731"}, cli::alias{"lemon", cli::Invisible})
    .with(&R8::bravo, cli::subcommand{.vis = cli::Hidden, .help = "helps 750a\n750b\n750c, the last"})
    .with(&R8::white_noise, cli::flag{.count = cli::Repeated, .help = "helps with 753"})
    .with(&R8::lima, cli::flag{.letter = U'7', .vis = cli::Hidden, .help = "helps with 755"})
    .with(&R8::copper, cli::subcommand{.help = "helps with 779", .about = "about 780\nmore"})
    .with(&R8::f781_blue_sky, cli::flag{.name = "blue_sky", .letter = U'd'})
    .with(&R8::f800_khaki_2, cli::group{.name = "khaki-2", .letter = U'Q', .help = "helps 801a\nand 801b"})
    .with(&R8::quebec_city, cli::flag{.help = "helps 803a\nand 803b"})
    .with(&R8::cargo_lock, cli::flag{.letter = U'r', .count = cli::Repeated, .help = "helps with 805"}, cli::alias{"papa"});
  }
};
inline void dump(Map& m, const std::string& p, const R8& v) { put(m, p + "indigo", v.indigo); dump(m, p + "bravo.", v.bravo); put(m, p + "white_noise", v.white_noise); put(m, p + "lima", v.lima); dump(m, p + "copper.", v.copper); put(m, p + "f781_blue_sky", v.f781_blue_sky); dump(m, p + "f800_khaki_2.", v.f800_khaki_2); put(m, p + "quebec_city", v.quebec_city); put(m, p + "cargo_lock", v.cargo_lock); put(m, p + "f806_pos", v.f806_pos); }
inline Node* node_R8() { auto n = new Node; n->flags.push_back({"indigo", K_quiet, "indigo", U'y', VPublic, {{"lemon", VInvisible}}, -1, "", "helps with 731"});
  n->subs.push_back({"bravo", "bravo", VHidden, {}, "helps 750a\n750b\n750c, the last", "", node_S732()});
  n->flags.push_back({"white_noise", K_rune, "white_noise", U'\0', VPublic, {}, 2, "", "helps with 753"});
  n->flags.push_back({"lima", K_rune, "lima", U'7', VHidden, {}, -1, "", "helps with 755"});
  n->subs.push_back({"copper", "copper", VPublic, {}, "helps with 779", "about 780\nmore", node_S756()});
  n->flags.push_back({"f781_blue_sky", K_rune, "blue_sky", U'd', VPublic, {}, -1, "", ""});
  n->groups.push_back({"f800_khaki_2", "khaki-2", U'Q', VPublic, {}, "helps 801a\nand 801b", node_G783()});
  n->flags.push_back({"quebec_city", K_vec_buf, "quebec-city", U'\0', VPublic, {}, -1, "", "helps 803a\nand 803b"});
  n->flags.push_back({"cargo_lock", K_str, "cargo-lock", U'r', VPublic, {{"papa", VPublic}}, 2, "", "helps with 805"});
  n->poss.push_back({"f806_pos", K_opt_int, "", -1, ""});
  return n; }
DEFINITION(R8)
struct S816 {
  Quiet f817_jade_green; best::vec<best::str> f820_na_ve; best::rune olive; best::str zulu; Quiet f827_pos; best::vec<best::strbuf> f830_rest;
  constexpr friend auto BestReflect(auto& m, S816*) { return m.infer()
    .with(&S816::f817_jade_green, cli::flag{.name = "jade_green", .help = "helps with 819"}, cli::alias{"cargo-lock"}, cli::alias{"pink_4", cli::Invisible})
    .with(&S816::f820_na_ve, cli::flag{.name = "naïve", .arg = "ARG821", .help = "helps 822a\n822b\n822c, the last"}, cli::alias{"mike", cli::Hidden}, cli::alias{"amber"})
    .with(&S816::olive, cli::flag{.letter = U'j', .count = cli::Repeated, .help = "ünï help 824"}, cli::alias{"ebony"})
    .with(&S816::zulu, cli::flag{.count = cli::Optional, .help = "helps 826a\n826b\n826c, the last"})
    .with(&S816::f827_pos, cli::positional{.name = "POS828", .count = cli::Required, .help = "helps 829a\nand 829b"});
  }
};
inline void dump(Map& m, const std::string& p, const S816& v) { put(m, p + "f817_jade_green", v.f817_jade_green); put(m, p + "f820_na_ve", v.f820_na_ve); put(m, p + "olive", v.olive); put(m, p + "zulu", v.zulu); put(m, p + "f827_pos", v.f827_pos); put(m, p + "f830_rest", v.f830_rest); }
inline Node* node_S816() { auto n = new Node; n->flags.push_back({"f817_jade_green", K_quiet, "jade_green", U'\0', VPublic, {{"cargo-lock", VPublic}, {"pink_4", VInvisible}}, -1, "", "helps with 819"});
  n->flags.push_back({"f820_na_ve", K_vec_str, "naïve", U'\0', VPublic, {{"mike", VHidden}, {"amber", VPublic}}, -1, "ARG821", "helps 822a\n822b\n822c, the last"});
  n->flags.push_back({"olive", K_rune, "olive", U'j', VPublic, {{"ebony", VPublic}}, 2, "", "ünï help 824"});
  n->flags.push_back({"zulu", K_str, "zulu", U'\0', VPublic, {}, 0, "", "helps 826a\n826b\n826c, the last"});
  n->poss.push_back({"f827_pos", K_quiet, "POS828", 1, "helps 829a\nand 829b"});
  n->poss.push_back({"f830_rest", K_vec_buf, "", -1, ""});
  return n; }
struct G810 {
  best::str f811_copper; best::option<int> f813_papa; S816 alpha;
  constexpr friend auto BestReflect(auto& m, G810*) { return m.infer()
    .with(&G810::f811_copper, cli::flag{.name = "copper", .vis = cli::Hidden, .count = cli::Repeated}, cli::alias{"golf-ball", cli::Invisible}, cli::alias{"lemon", cli::Invisible})
    .with(&G810::f813_papa, cli::flag{.name = "papa", .count = cli::Repeated, .help = "helps with 815"})
    .with(&G810::alpha, cli::subcommand{.about = "about 832\nmore"}, cli::alias{"zulu", cli::Invisible});
  }
};
inline void dump(Map& m, const std::string& p, const G810& v) { put(m, p + "f811_copper", v.f811_copper); put(m, p + "f813_papa", v.f813_papa); dump(m, p + "alpha.", v.alpha); }
inline Node* node_G810() { auto n = new Node; n->flags.push_back({"f811_copper", K_str, "copper", U'\0', VHidden, {{"golf-ball", VInvisible}, {"lemon", VInvisible}}, 2, "", ""});
  n->flags.push_back({"f813_papa", K_opt_int, "papa", U'\0', VPublic, {}, 2, "", "helps with 815"});
  n->subs.push_back({"alpha", "alpha", VPublic, {{"zulu", VInvisible}}, "", "about 832\nmore", node_S816()});
  return n; }
struct G809 {
  G810 f833_quartz; best::option<best::rune> xray; best::strbuf f837_echo; Quiet f840_november_x; best::option<best::rune> f843__ber;
  constexpr friend auto BestReflect(auto& m, G809*) { return m.infer()
    .with(&G809::f833_quartz, cli::group{.name = "quartz", .help = "helps with 834"})
    .with(&G809::xray, cli::flag{.vis = cli::Hidden, .arg = "ARG835", .help = "helps with 836"})
    .with(&G809::f837_echo, cli::flag{.name = "echo", .help = "ünï help 839"})
    .with(&G809::f840_november_x, cli::flag{.name = "november_x", .letter = U'7', .help = "helps with 842"}, cli::alias{"juliet", cli::Invisible})
    .with(&G809::f843__ber, cli::flag{.name = "über", .help = "helps with 845"}, cli::alias{"jade_green", cli::Delete}, cli::alias{"red", cli::Invisible});
  }
};
inline void dump(Map& m, const std::string& p, const G809& v) { dump(m, p + "f833_quartz.", v.f833_quartz); put(m, p + "xray", v.xray); put(m, p + "f837_echo", v.f837_echo); put(m, p + "f840_november_x", v.f840_november_x); put(m, p + "f843__ber", v.f843__ber); }
inline Node* node_G809() { auto n = new Node; n->groups.push_back({"f833_quartz", "quartz", U'\0', VPublic, {}, "helps with 834", node_G810()});
  n->flags.push_back({"xray", K_opt_rune, "xray", U'\0', VHidden, {}, -1, "ARG835", "helps with 836"});
  n->flags.push_back({"f837_echo", K_strbuf, "echo", U'\0', VPublic, {}, -1, "", "ünï help 839"});
  n->flags.push_back({"f840_november_x", K_quiet, "november_x", U'7', VPublic, {{"juliet", VInvisible}}, -1, "", "helps with 842"});
  n->flags.push_back({"f843__ber", K_opt_rune, "über", U'\0', VPublic, {{"jade_green", VDelete}, {"red", VInvisible}}, -1, "", "helps with 845"});
  return n; }
struct S857 {
  best::option<best::rune> bravo; int f860__ber = 0; Quiet f863_pos; best::str f866_pos; Quiet f868_pos; best::vec<best::str> f871_rest;
  constexpr friend auto BestReflect(auto& m, S857*) { return m.infer()
    .with(&S857::bravo, cli::flag{.letter = U'j', .vis = cli::Hidden, .count = cli::Optional, .help = "helps with 859"})
    .with(&S857::f860__ber, cli::flag{.name = "über", .count = cli::Repeated, .help = "helps with 862"})
    .with(&S857::f863_pos, cli::positional{.name = "POS864", .count = cli::Required, .help = "helps 865a\nand 865b"})
    .with(&S857::f866_pos, cli::positional{.name = "POS867", .count = cli::Required})
    .with(&S857::f868_pos, cli::positional{.count = cli::Required, .help = "helps with 870"});
  }
};
inline void dump(Map& m, const std::string& p, const S857& v) { put(m, p + "bravo", v.bravo); put(m, p + "f860__ber", v.f860__ber); put(m, p + "f863_pos", v.f863_pos); put(m, p + "f866_pos", v.f866_pos); put(m, p + "f868_pos", v.f868_pos); put(m, p + "f871_rest", v.f871_rest); }
inline Node* node_S857() { auto n = new Node; n->flags.push_back({"bravo", K_opt_rune, "bravo", U'j', VHidden, {}, 0, "", "helps with 859"});
  n->flags.push_back({"f860__ber", K_int, "über", U'\0', VPublic, {}, 2, "", "helps with 862"});
  n->poss.push_back({"f863_pos", K_quiet, "POS864", 1, "helps 865a\nand 865b"});
  n->poss.push_back({"f866_pos", K_str, "POS867", 1, ""});
  n->poss.push_back({"f868_pos", K_quiet, "", 1, "helps with 870"});
  n->poss.push_back({"f871_rest", K_vec_str, "", -1, ""});
  return n; }
struct G854 {
  best::option<int> f855_whiskey; S857 f873_maroon; Quiet red;
  constexpr friend auto BestReflect(auto& m, G854*) { return m.infer()
    .with(&G854::f855_whiskey, cli::flag{.name = "whiskey", .letter = U'r', .vis = cli::Delete, .count = cli::Repeated})
    .with(&G854::f873_maroon, cli::subcommand{.name = "maroon", .help = "helps 874a\n874b\n874c, the last", .about = "about 875\nmore"}, cli::alias{"indigo", cli::Invisible})
    .with(&G854::red, cli::flag{.letter = U'7', .arg = "ARG876", .help = "ünï help 877"}, cli::alias{"yankee", cli::Public});
  }
};
inline void dump(Map& m, const std::string& p, const G854& v) { put(m, p + "f855_whiskey", v.f855_whiskey); dump(m, p + "f873_maroon.", v.f873_maroon); put(m, p + "red", v.red); }
inline Node* node_G854() { auto n = new Node; n->flags.push_back({"f855_whiskey", K_opt_int, "whiskey", U'r', VDelete, {}, 2, "", ""});
  n->subs.push_back({"f873_maroon", "maroon", VPublic, {{"indigo", VInvisible}}, "helps 874a\n874b\n874c, the last", "about 875\nmore", node_S857()});
  n->flags.push_back({"red", K_quiet, "red", U'7', VPublic, {{"yankee", VPublic}}, -1, "ARG876", "ünï help 877"});
  return n; }
struct G886 {
  best::vec<best::str> f887__lan_x; best::option<int> f890__ber;
  constexpr friend auto BestReflect(auto& m, G886*) { return m.infer()
    .with(&G886::f887__lan_x, cli::flag{.name = "élan-x", .count = cli::Repeated, .help = "helps 889a\n889b\n889c, the last"})
    .with(&G886::f890__ber, cli::flag{.name = "über", .letter = U'i', .help = "helps with 892"}, cli::alias{"copper", cli::Delete});
  }
};
inline void dump(Map& m, const std::string& p, const G886& v) { put(m, p + "f887__lan_x", v.f887__lan_x); put(m, p + "f890__ber", v.f890__ber); }
inline Node* node_G886() { auto n = new Node; n->flags.push_back({"f887__lan_x", K_vec_str, "élan-x", U'\0', VPublic, {}, 2, "", "helps 889a\n889b\n889c, the last"});
  n->flags.push_back({"f890__ber", K_opt_int, "über", U'i', VPublic, {{"copper", VDelete}}, -1, "", "helps with 892"});
  return n; }
struct G883 {
  best::option<int> quebec_city; G886 f893_golf_ball; bool sierra = false; best::strbuf f897_india; best::str f900_umber;
  constexpr friend auto BestReflect(auto& m, G883*) { return m.infer()
    .with(&G883::quebec_city, cli::flag{.help = "helps with 885"}, cli::alias{"white_noise"}, cli::alias{"papa", cli::Hidden})
    .with(&G883::f893_golf_ball, cli::group{.vis = cli::Invisible, .help = "ünï help 894"})
    .with(&G883::sierra, cli::flag{.letter = U't', .vis = cli::Hidden, .count = cli::Repeated, .help = "helps with 896"}, cli::alias{"uniform", cli::Hidden})
    .with(&G883::f897_india, cli::flag{.name = "india", .letter = U'🐈', .vis = cli::Hidden, .count = cli::Repeated, .help = "helps with 899"})
    .with(&G883::f900_umber, cli::flag{.name = "umber", .letter = U'd', .vis = cli::Invisible, .count = cli::Repeated, .help = "helps with 902"});
  }
};
inline void dump(Map& m, const std::string& p, const G883& v) { put(m, p + "quebec_city", v.quebec_city); dump(m, p + "f893_golf_ball.", v.f893_golf_ball); put(m, p + "sierra", v.sierra); put(m, p + "f897_india", v.f897_india); put(m, p + "f900_umber", v.f900_umber); }
inline Node* node_G883() { auto n = new Node; n->flags.push_back({"quebec_city", K_opt_int, "quebec-city", U'\0', VPublic, {{"white_noise", VPublic}, {"papa", VHidden}}, -1, "", "helps with 885"});
  n->groups.push_back({"f893_golf_ball", "", U'\0', VInvisible, {}, "ünï help 894", node_G886()});
  n->flags.push_back({"sierra", K_bool, "sierra", U't', VHidden, {{"uniform", VHidden}}, 2, "", "helps with 896"});
  n->flags.push_back({"f897_india", K_strbuf, "india", U'🐈', VHidden, {}, 2, "", "helps with 899"});
  n->flags.push_back({"f900_umber", K_str, "umber", U'd', VInvisible, {}, 2, "", "helps with 902"});
  return n; }
struct S853 {
  G854 f878_bravo; best::option<int> f880_foxtrot; G883 f903_hotel_id; bool f904_pos = false;
  constexpr friend auto BestReflect(auto& m, S853*) { return m.infer()
    .with(&S853::f878_bravo, cli::group{.vis = cli::Hidden, .help = "helps 879a\nand 879b"})
    .with(&S853::f880_foxtrot, cli::flag{.name = "foxtrot", .letter = U'a', .count = cli::Repeated, .help = "ünï help 882"})
    .with(&S853::f903_hotel_id, cli::group{.letter = U'X'})
    .with(&S853::f904_pos, cli::positional{.help = "helps 906a\nand 906b"});
  }
};
inline void dump(Map& m, const std::string& p, const S853& v) { dump(m, p + "f878_bravo.", v.f878_bravo); put(m, p + "f880_foxtrot", v.f880_foxtrot); dump(m, p + "f903_hotel_id.", v.f903_hotel_id); put(m, p + "f904_pos", v.f904_pos); }
inline Node* node_S853() { auto n = new Node; n->groups.push_back({"f878_bravo", "", U'\0', VHidden, {}, "helps 879a\nand 879b", node_G854()});
  n->flags.push_back({"f880_foxtrot", K_opt_int, "foxtrot", U'a', VPublic, {}, 2, "", "ünï help 882"});
  n->groups.push_back({"f903_hotel_id", "", U'X', VPublic, {}, "", node_G883()});
  n->poss.push_back({"f904_pos", K_bool, "", -1, "helps 906a\nand 906b"});
  return n; }
struct S922 {
  best::strbuf olive; best::option<int> f925_lima; best::option<bool> teal; best::option<best::rune> f930_pos; Quiet f933_pos;
  constexpr friend auto BestReflect(auto& m, S922*) { return m.infer()
    .with(&S922::olive, cli::flag{.help = "helps with 924"})
    .with(&S922::f925_lima, cli::flag{.name = "lima", .arg = "ARG926", .count = cli::Repeated, .help = "helps 927a\n927b\n927c, the last"}, cli::alias{"maroon"})
    .with(&S922::teal, cli::flag{.vis = cli::Hidden, .arg = "ARG928", .count = cli::Repeated, .help = "helps with 929"}, cli::alias{"amber"})
    .with(&S922::f930_pos, cli::positional{.name = "POS931", .help = "ünï help 932"})
    .with(&S922::f933_pos, cli::positional{.help = "helps 935a\nand 935b"});
  }
};
inline void dump(Map& m, const std::string& p, const S922& v) { put(m, p + "olive", v.olive); put(m, p + "f925_lima", v.f925_lima); put(m, p + "teal", v.teal); put(m, p + "f930_pos", v.f930_pos); put(m, p + "f933_pos", v.f933_pos); }
inline Node* node_S922() { auto n = new Node; n->flags.push_back({"olive", K_strbuf, "olive", U'\0', VPublic, {}, -1, "", "helps with 924"});
  n->flags.push_back({"f925_lima", K_opt_int, "lima", U'\0', VPublic, {{"maroon", VPublic}}, 2, "ARG926", "helps 927a\n927b\n927c, the last"});
  n->flags.push_back({"teal", K_opt_bool, "teal", U'\0', VHidden, {{"amber", VHidden}}, 2, "ARG928", "helps with 929"});
  n->poss.push_back({"f930_pos", K_opt_rune, "POS931", -1, "ünï help 932"});
  n->poss.push_back({"f933_pos", K_quiet, "", -1, "helps 935a\nand 935b"});
  return n; }
struct G913 {
  best::strbuf lima; uint8_t khaki_2 = 0; best::strbuf tango; Celsius f919_na_ve; S922 f936_kilo_watt;
  constexpr friend auto BestReflect(auto& m, G913*) { return m.infer()
    .with(&G913::lima, cli::flag{.vis = cli::Delete, .count = cli::Repeated, .help = "helps with 915"})
    .with(&G913::khaki_2, cli::flag{.letter = U'c', .vis = cli::Delete})
    .with(&G913::tango, cli::flag{.letter = U'n', .vis = cli::Invisible, .count = cli::Repeated, .help = "helps with 918"}, cli::alias{"cargo-lock", cli::Hidden})
    .with(&G913::f919_na_ve, cli::flag{.name = "naïve", .letter = U'w', .arg = "ARG920", .help = "helps with 921"}, cli::alias{"quebec-city"})
    .with(&G913::f936_kilo_watt, cli::subcommand{.name = "kilo-watt", .vis = cli::Delete, .help = "helps with 937", .about = "about 938\nmore"});
  }
};
inline void dump(Map& m, const std::string& p, const G913& v) { put(m, p + "lima", v.lima); put(m, p + "khaki_2", v.khaki_2); put(m, p + "tango", v.tango); put(m, p + "f919_na_ve", v.f919_na_ve); dump(m, p + "f936_kilo_watt.", v.f936_kilo_watt); }
inline Node* node_G913() { auto n = new Node; n->flags.push_back({"lima", K_strbuf, "lima", U'\0', VDelete, {}, 2, "", "helps with 915"});
  n->flags.push_back({"khaki_2", K_u8, "khaki-2", U'c', VDelete, {}, -1, "", ""});
  n->flags.push_back({"tango", K_strbuf, "tango", U'n', VInvisible, {{"cargo-lock", VHidden}}, 2, "", "helps with 918"});
  n->flags.push_back({"f919_na_ve", K_custom, "naïve", U'w', VPublic, {{"quebec-city", VPublic}}, -1, "ARG920", "helps with 921"});
  n->subs.push_back({"f936_kilo_watt", "kilo-watt", VDelete, {}, "helps with 937", "about 938\nmore", node_S922()});
  return n; }
struct G947 {
  best::str ebony;
  constexpr friend auto BestReflect(auto& m, G947*) { return m.infer()
    .with(&G947::ebony, cli::flag{.letter = U'k', .arg = "ARG948", .count = cli::Optional, .help = "helps with 949"});
  }
};
inline void dump(Map& m, const std::string& p, const G947& v) { put(m, p + "ebony", v.ebony); }
inline Node* node_G947() { auto n = new Node; n->flags.push_back({"ebony", K_str, "ebony", U'k', VPublic, {}, 0, "ARG948", "helps with 949"});
  return n; }
struct S942 {
  best::option<bool> f943_kilo_watt; best::rune whiskey; G947 f950_blue_sky; best::option<bool> f952_navy_3; int jade_green = 0; best::strbuf f957_pos; int f960_pos = 0; best::vec<best::strbuf> f963_rest;
  constexpr friend auto BestReflect(auto& m, S942*) { return m.infer()
    .with(&S942::f943_kilo_watt, cli::flag{.name = "kilo-watt", .letter = U'g'}, cli::alias{"cargo-lock", cli::Hidden}, cli::alias{"élan-x", cli::Hidden})
    .with(&S942::whiskey, cli::flag{.arg = "ARG945", .count = cli::Repeated, .help = "helps with 946"}, cli::alias{"ebony", cli::Hidden}, cli::alias{"violet", cli::Invisible})
    .with(&S942::f950_blue_sky, cli::group{.name = "blue_sky", .vis = cli::Invisible, .help = "helps with 951"})
    .with(&S942::f952_navy_3, cli::flag{.name = "navy-3", .letter = U'l', .count = cli::Repeated, .help = "helps 954a\nand 954b"})
    .with(&S942::jade_green, cli::flag{.vis = cli::Delete, .count = cli::Optional, .help = "helps with 956"})
    .with(&S942::f957_pos, cli::positional{.help = "helps 959a\n959b\n959c, the last"})
    .with(&S942::f960_pos, cli::positional{.name = "POS961", .help = "helps with 962"});
  }
};
inline void dump(Map& m, const std::string& p, const S942& v) { put(m, p + "f943_kilo_watt", v.f943_kilo_watt); put(m, p + "whiskey", v.whiskey); dump(m, p + "f950_blue_sky.", v.f950_blue_sky); put(m, p + "f952_navy_3", v.f952_navy_3); put(m, p + "jade_green", v.jade_green); put(m, p + "f957_pos", v.f957_pos); put(m, p + "f960_pos", v.f960_pos); put(m, p + "f963_rest", v.f963_rest); }
inline Node* node_S942() { auto n = new Node; n->flags.push_back({"f943_kilo_watt", K_opt_bool, "kilo-watt", U'g', VPublic, {{"cargo-lock", VHidden}, {"élan-x", VHidden}}, -1, "", ""});
  n->flags.push_back({"whiskey", K_rune, "whiskey", U'\0', VPublic, {{"ebony", VHidden}, {"violet", VInvisible}}, 2, "ARG945", "helps with 946"});
  n->groups.push_back({"f950_blue_sky", "blue_sky", U'\0', VInvisible, {}, "helps with 951", node_G947()});
  n->flags.push_back({"f952_navy_3", K_opt_bool, "navy-3", U'l', VPublic, {}, 2, "", "helps 954a\nand 954b"});
  n->flags.push_back({"jade_green", K_int, "jade_green", U'\0', VDelete, {}, 0, "", "helps with 956"});
  n->poss.push_back({"f957_pos", K_strbuf, "", -1, "helps 959a\n959b\n959c, the last"});
  n->poss.push_back({"f960_pos", K_int, "POS961", -1, "helps with 962"});
  n->poss.push_back({"f963_rest", K_vec_buf, "", -1, ""});
  return n; }
struct G980 {
  best::rune f981_mike; best::rune amber;
  constexpr friend auto BestReflect(auto& m, G980*) { return m.infer()
    .with(&G980::f981_mike, cli::flag{.name = "mike", .vis = cli::Invisible, .arg = "ARG982", .count = cli::Required, .help = "helps 983a\n983b\n983c, the last"}, cli::alias{"juliet", cli::Delete})
    .with(&G980::amber, cli::flag{.arg = "ARG984", .count = cli::Repeated, .help = "helps with 985"});
  }
};
inline void dump(Map& m, const std::string& p, const G980& v) { put(m, p + "f981_mike", v.f981_mike); put(m, p + "amber", v.amber); }
inline Node* node_G980() { auto n = new Node; n->flags.push_back({"f981_mike", K_rune, "mike", U'\0', VInvisible, {{"juliet", VDelete}}, 1, "ARG982", "helps 983a\n983b\n983c, the last"});
  n->flags.push_back({"amber", K_rune, "amber", U'\0', VPublic, {}, 2, "ARG984", "helps with 985"});
  return n; }
struct S992 {
  best::option<bool> f993_dun; best::option<bool> f996_papa; int f998_pos = 0; best::rune f1000_pos; uint8_t f1003_pos = 0;
  constexpr friend auto BestReflect(auto& m, S992*) { return m.infer()
    .with(&S992::f993_dun, cli::flag{.name = "dun", .letter = U'l', .count = cli::Required, .help = "helps with 995"})
    .with(&S992::f996_papa, cli::flag{.name = "papa", .letter = U't', .arg = "ARG997", .count = cli::Repeated})
    .with(&S992::f998_pos, cli::positional{.name = "POS999", .count = cli::Required})
    .with(&S992::f1003_pos, cli::positional{.name = "POS1004", .help = "ünï help 1005"});
  }
};
inline void dump(Map& m, const std::string& p, const S992& v) { put(m, p + "f993_dun", v.f993_dun); put(m, p + "f996_papa", v.f996_papa); put(m, p + "f998_pos", v.f998_pos); put(m, p + "f1000_pos", v.f1000_pos); put(m, p + "f1003_pos", v.f1003_pos); }
inline Node* node_S992() { auto n = new Node; n->flags.push_back({"f993_dun", K_opt_bool, "dun", U'l', VPublic, {}, 1, "", "helps with 995"});
  n->flags.push_back({"f996_papa", K_opt_bool, "papa", U't', VPublic, {}, 2, "ARG997", ""});
  n->poss.push_back({"f998_pos", K_int, "POS999", 1, ""});
  n->poss.push_back({"f1000_pos", K_rune, "", -1, ""});
  n->poss.push_back({"f1003_pos", K_u8, "POS1004", -1, "ünï help 1005"});
  return n; }
struct G979 {
  G980 f986_umber; best::vec<bool> oscar; best::vec<int> blue_sky; S992 foxtrot; best::strbuf f1008_maroon;
  constexpr friend auto BestReflect(auto& m, G979*) { return m.infer()
    .with(&G979::f986_umber, cli::group{.vis = cli::Hidden, .help = "helps with 987"})
    .with(&G979::oscar, cli::flag{.help = "helps 989a\nand 989b"}, cli::alias{"gold", cli::Hidden})
    .with(&G979::blue_sky, cli::flag{.letter = U's', .arg = "ARG990", .count = cli::Repeated, .help = "helps with 991"}, cli::alias{"victor_y", cli::Hidden}, cli::alias{"hotel_id", cli::Delete})
    .with(&G979::foxtrot, cli::subcommand{.help = "helps with 1006", .about = "about 1007\nmore"})
    .with(&G979::f1008_maroon, cli::flag{.name = "maroon", .letter = U'n', .vis = cli::Invisible, .help = "helps with 1010"});
  }
};
inline void dump(Map& m, const std::string& p, const G979& v) { dump(m, p + "f986_umber.", v.f986_umber); put(m, p + "oscar", v.oscar); put(m, p + "blue_sky", v.blue_sky); dump(m, p + "foxtrot.", v.foxtrot); put(m, p + "f1008_maroon", v.f1008_maroon); }
inline Node* node_G979() { auto n = new Node; n->groups.push_back({"f986_umber", "", U'\0', VHidden, {}, "helps with 987", node_G980()});
  n->flags.push_back({"oscar", K_vec_bool, "oscar", U'\0', VPublic, {{"gold", VHidden}}, -1, "", "helps 989a\nand 989b"});
  n->flags.push_back({"blue_sky", K_vec_int, "blue_sky", U's', VPublic, {{"victor_y", VHidden}, {"hotel_id", VDelete}}, 2, "ARG990", "helps with 991"});
  n->subs.push_back({"foxtrot", "foxtrot", VPublic, {}, "helps with 1006", "about 1007\nmore", node_S992()});
  n->flags.push_back({"f1008_maroon", K_strbuf, "maroon", U'n', VInvisible, {}, -1, "", "helps with 1010"});
  return n; }
struct S941 {
  S942 f965_victor_y; int f968_romeo = 0; best::option<bool> f971_silver_9; best::strbuf quebec_city; uint8_t f976_hazel = 0; G979 f1011_yankee; best::strbuf f1013_pos; best::vec<best::str> f1016_rest;
  constexpr friend auto BestReflect(auto& m, S941*) { return m.infer()
    .with(&S941::f965_victor_y, cli::subcommand{.name = "victor_y", .vis = cli::Hidden, .help = "helps with 966"}, cli::alias{"tango", cli::Invisible})
    .with(&S941::f968_romeo, cli::flag{.name = "romeo", .letter = U'w', .vis = cli::Hidden, .count = cli::Optional, .help = "helps with 970"}, cli::alias{"fawn-grey"})
    .with(&S941::f971_silver_9, cli::flag{.name = "silver-9", .help = "helps 973a\nand 973b"})
    .with(&S941::quebec_city, cli::flag{.vis = cli::Hidden, .help = "helps with 975"})
    .with(&S941::f976_hazel, cli::flag{.name = "hazel", .letter = U'u', .vis = cli::Hidden, .count = cli::Repeated, .help = "ünï help 978"})
    .with(&S941::f1011_yankee, cli::group{.name = "yankee", .vis = cli::Hidden, .help = "ünï help 1012"}, cli::alias{"mike"})
    .with(&S941::f1013_pos, cli::positional{.help = "helps 1015a\nand 1015b"});
  }
};
inline void dump(Map& m, const std::string& p, const S941& v) { dump(m, p + "f965_victor_y.", v.f965_victor_y); put(m, p + "f968_romeo", v.f968_romeo); put(m, p + "f971_silver_9", v.f971_silver_9); put(m, p + "quebec_city", v.quebec_city); put(m, p + "f976_hazel", v.f976_hazel); dump(m, p + "f1011_yankee.", v.f1011_yankee); put(m, p + "f1013_pos", v.f1013_pos); put(m, p + "f1016_rest", v.f1016_rest); }
inline Node* node_S941() { auto n = new Node; n->subs.push_back({"f965_victor_y", "victor_y", VHidden, {{"tango", VInvisible}}, "helps with 966", "", node_S942()});
  n->flags.push_back({"f968_romeo", K_int, "romeo", U'w', VHidden, {{"fawn-grey", VHidden}}, 0, "", "helps with 970"});
  n->flags.push_back({"f971_silver_9", K_opt_bool, "silver-9", U'\0', VPublic, {}, -1, "", "helps 973a\nand 973b"});
  n->flags.push_back({"quebec_city", K_strbuf, "quebec-city", U'\0', VHidden, {}, -1, "", "helps with 975"});
  n->flags.push_back({"f976_hazel", K_u8, "hazel", U'u', VHidden, {}, 2, "", "ünï help 978"});
  n->groups.push_back({"f1011_yankee", "yankee", U'\0', VHidden, {{"mike", VHidden}}, "ünï help 1012", node_G979()});
  n->poss.push_back({"f1013_pos", K_strbuf, "", -1, "helps 1015a\nand 1015b"});
  n->poss.push_back({"f1016_rest", K_vec_str, "", -1, ""});
  return n; }
struct G1021 {
  best::vec<best::strbuf> yankee; int64_t f1024_quebec_city = 0;
  constexpr friend auto BestReflect(auto& m, G1021*) { return m.infer()
    .with(&G1021::yankee, cli::flag{.help = "helps 1023a\n1023b\n1023c, the last"})
    .with(&G1021::f1024_quebec_city, cli::flag{.name = "quebec-city", .help = "helps with 1026"});
  }
};
inline void dump(Map& m, const std::string& p, const G1021& v) { put(m, p + "yankee", v.yankee); put(m, p + "f1024_quebec_city", v.f1024_quebec_city); }
inline Node* node_G1021() { auto n = new Node; n->flags.push_back({"yankee", K_vec_buf, "yankee", U'\0', VPublic, {}, -1, "", "helps 1023a\n1023b\n1023c, the last"});
  n->flags.push_back({"f1024_quebec_city", K_i64, "quebec-city", U'\0', VPublic, {}, -1, "", "helps with 1026"});
  return n; }
struct R9 {
  G809 f846_navy_3; best::option<int> olive; best::vec<int> f850_mike; S853 f907_maroon; best::option<int> f910__lan_x; G913 f939_ebony; S941 f1018_delta_t; G1021 f1027_fawn_grey; Quiet f1029_pos; Celsius f1032_pos; uint8_t f1035_pos = 0; best::vec<int> f1038_rest;
  constexpr friend auto BestReflect(auto& m, R9*) { return m.infer().with(cli::app{.name = "app1040", .authors = "people 1040", .version = "1.1040", .url = "https://u1040", .license = "LIC-1040"})
    .with(&R9::f846_navy_3, cli::group{.help = "helps 847a\n847b\n847c, the last"})
    .with(&R9::olive, cli::flag{.vis = cli::Hidden, .arg = "ARG848", .count = cli::Required, .help = "helps with 849"})
    .with(&R9::f850_mike, cli::flag{.name = "mike", .letter = U'i', .arg = "ARG851", .help = "helps 852a\nand 852b"}, cli::alias{"alpha"}, cli::alias{"oscar", cli::Hidden})
    .with(&R9::f907_maroon, cli::subcommand{.name = "maroon", .help = "helps 908a\nand 908b", .about = "about 909\nmore"}, cli::alias{"amber"})
    .with(&R9::f910__lan_x, cli::flag{.name = "élan-x", .letter = U't', .vis = cli::Delete, .help = "helps 912a\n912b\n912c, the last"})
    .with(&R9::f939_ebony, cli::group{.vis = cli::Hidden, .help = "helps with 940"})
    .with(&R9::f1018_delta_t, cli::subcommand{.name = "delta_t", .vis = cli::Hidden, .help = "helps 1019a\nand 1019b"}, cli::alias{"foxtrot"})
    .with(&R9::f1027_fawn_grey, cli::group{.letter = U'W', .vis = cli::Hidden, .help = "helps 1028a\nand 1028b"})
    .with(&R9::f1029_pos, cli::positional{.name = "POS1030", .count = cli::Optional, .help = "helps with 1031"})
    .with(&R9::f1032_pos, cli::positional{.help = "helps with 1034"})
    .with(&R9::f1035_pos, cli::positional{.name = "POS1036", .help = "helps with 1037"});
  }
};
inline void dump(Map& m, const std::string& p, const R9& v) { dump(m, p + "f846_navy_3.", v.f846_navy_3); put(m, p + "olive", v.olive); put(m, p + "f850_mike", v.f850_mike); dump(m, p + "f907_maroon.", v.f907_maroon); put(m, p + "f910__lan_x", v.f910__lan_x); dump(m, p + "f939_ebony.", v.f939_ebony); dump(m, p + "f1018_delta_t.", v.f1018_delta_t); dump(m, p + "f1027_fawn_grey.", v.f1027_fawn_grey); put(m, p + "f1029_pos", v.f1029_pos); put(m, p + "f1032_pos", v.f1032_pos); put(m, p + "f1035_pos", v.f1035_pos); put(m, p + "f1038_rest", v.f1038_rest); }
inline Node* node_R9() { auto n = new Node; n->groups.push_back({"f846_navy_3", "", U'\0', VPublic, {}, "helps 847a\n847b\n847c, the last", node_G809()});
  n->flags.push_back({"olive", K_opt_int, "olive", U'\0', VHidden, {}, 1, "ARG848", "helps with 849"});
  n->flags.push_back({"f850_mike", K_vec_int, "mike", U'i', VPublic, {{"alpha", VPublic}, {"oscar", VHidden}}, -1, "ARG851", "helps 852a\nand 852b"});
  n->subs.push_back({"f907_maroon", "maroon", VPublic, {{"amber", VPublic}}, "helps 908a\nand 908b", "about 909\nmore", node_S853()});
  n->flags.push_back({"f910__lan_x", K_opt_int, "élan-x", U't', VDelete, {}, -1, "", "helps 912a\n912b\n912c, the last"});
  n->groups.push_back({"f939_ebony", "", U'\0', VHidden, {}, "helps with 940", node_G913()});
  n->subs.push_back({"f1018_delta_t", "delta_t", VHidden, {{"foxtrot", VHidden}}, "helps 1019a\nand 1019b", "", node_S941()});
  n->groups.push_back({"f1027_fawn_grey", "", U'W', VHidden, {}, "helps 1028a\nand 1028b", node_G1021()});
  n->poss.push_back({"f1029_pos", K_quiet, "POS1030", 0, "helps with 1031"});
  n->poss.push_back({"f1032_pos", K_custom, "", -1, "helps with 1034"});
  n->poss.push_back({"f1035_pos", K_u8, "POS1036", -1, "helps with 1037"});
  n->poss.push_back({"f1038_rest", K_vec_int, "", -1, ""});
  n->has_app = true; n->name = "app1040"; n->authors = "people 1040"; n->version = "1.1040"; n->url = "https://u1040"; n->license = "LIC-1040";
  return n; }
DEFINITION(R9)
#endif
#ifdef PART_F
struct G1042 {
  int64_t mike = 0; best::option<bool> xray; best::option<int> f1047_tango;
  constexpr friend auto BestReflect(auto& m, G1042*) { return m.infer()
    .with(&G1042::mike, cli::flag{.letter = U'g', .count = cli::Repeated, .help = "helps with 1044"})
    .with(&G1042::xray, cli::flag{.help = "ünï help 1046"})
    .with(&G1042::f1047_tango, cli::flag{.name = "tango", .letter = U's', .vis = cli::Invisible, .count = cli::Optional, .help = "helps with 1049"}, cli::alias{"delta_t", cli::Hidden}, cli::alias{"lemon"});
  }
};
inline void dump(Map& m, const std::string& p, const G1042& v) { put(m, p + "mike", v.mike); put(m, p + "xray", v.xray); put(m, p + "f1047_tango", v.f1047_tango); }
inline Node* node_G1042() { auto n = new Node; n->flags.push_back({"mike", K_i64, "mike", U'g', VPublic, {}, 2, "", "helps with 1044"});
  n->flags.push_back({"xray", K_opt_bool, "xray", U'\0', VPublic, {}, -1, "", "ünï help 1046"});
  n->flags.push_back({"f1047_tango", K_opt_int, "tango", U's', VInvisible, {{"delta_t", VHidden}, {"lemon", VInvisible}}, 0, "", "helps with 1049"});
  return n; }
struct G1041 {
  G1042 f1050_xray; best::vec<best::str> pink_4; best::vec<best::strbuf> f1053_gold;
  constexpr friend auto BestReflect(auto& m, G1041*) { return m.infer()
    .with(&G1041::f1050_xray, cli::group{.name = "xray"}, cli::alias{"khaki-2", cli::Invisible})
    .with(&G1041::pink_4, cli::flag{.arg = "ARG1051", .count = cli::Optional, .help = "helps with 1052"})
    .with(&G1041::f1053_gold, cli::flag{.name = "gold", .letter = U'a', .count = cli::Repeated, .help = "helps with 1055"}, cli::alias{"uniform"});
  }
};
inline void dump(Map& m, const std::string& p, const G1041& v) { dump(m, p + "f1050_xray.", v.f1050_xray); put(m, p + "pink_4", v.pink_4); put(m, p + "f1053_gold", v.f1053_gold); }
inline Node* node_G1041() { auto n = new Node; n->groups.push_back({"f1050_xray", "xray", U'\0', VPublic, {{"khaki-2", VInvisible}}, "", node_G1042()});
  n->flags.push_back({"pink_4", K_vec_str, "pink_4", U'\0', VPublic, {}, 0, "ARG1051", "helps with 1052"});
  n->flags.push_back({"f1053_gold", K_vec_buf, "gold", U'a', VPublic, {{"uniform", VPublic}}, 2, "", "helps with 1055"});
  return n; }
struct S1070 {
  int64_t f1071_dun = 0; bool f1074_alpha = false; Quiet f1077_cargo_lock; int f1080_pos = 0; bool f1083_pos = false; best::vec<bool> f1086_rest;
  constexpr friend auto BestReflect(auto& m, S1070*) { return m.infer()
    .with(&S1070::f1071_dun, cli::flag{.name = "dun", .letter = U'i', .vis = cli::Hidden, .help = "ünï help 1073"}, cli::alias{"indigo", cli::Public}, cli::alias{"india", cli::Delete})
    .with(&S1070::f1074_alpha, cli::flag{.name = "alpha", .count = cli::Repeated, .help = "helps 1076a\nand 1076b"})
    .with(&S1070::f1077_cargo_lock, cli::flag{.name = "cargo-lock", .count = cli::Repeated, .help = "ünï help 1079"}, cli::alias{"red"})
    .with(&S1070::f1080_pos, cli::positional{.count = cli::Optional, .help = "helps 1082a\nand 1082b"})
    .with(&S1070::f1083_pos, cli::positional{.help = "helps with 1085"})
    .with(&S1070::f1086_rest, cli::positional{.name = "POS1087"});
  }
};
inline void dump(Map& m, const std::string& p, const S1070& v) { put(m, p + "f1071_dun", v.f1071_dun); put(m, p + "f1074_alpha", v.f1074_alpha); put(m, p + "f1077_cargo_lock", v.f1077_cargo_lock); put(m, p + "f1080_pos", v.f1080_pos); put(m, p + "f1083_pos", v.f1083_pos); put(m, p + "f1086_rest", v.f1086_rest); }
inline Node* node_S1070() { auto n = new Node; n->flags.push_back({"f1071_dun", K_i64, "dun", U'i', VHidden, {{"indigo", VPublic}, {"india", VDelete}}, -1, "", "ünï help 1073"});
  n->flags.push_back({"f1074_alpha", K_bool, "alpha", U'\0', VPublic, {}, 2, "", "helps 1076a\nand 1076b"});
  n->flags.push_back({"f1077_cargo_lock", K_quiet, "cargo-lock", U'\0', VPublic, {{"red", VPublic}}, 2, "", "ünï help 1079"});
  n->poss.push_back({"f1080_pos", K_int, "", 0, "helps 1082a\nand 1082b"});
  n->poss.push_back({"f1083_pos", K_bool, "", -1, "helps with 1085"});
  n->poss.push_back({"f1086_rest", K_vec_bool, "POS1087", -1, ""});
  return n; }
struct S1069 {
  S1070 whiskey; best::strbuf f1090_khaki_2; best::vec<best::str> f1093__ber; int dun = 0; best::vec<int> f1098_rest;
  constexpr friend auto BestReflect(auto& m, S1069*) { return m.infer()
    .with(&S1069::whiskey, cli::subcommand{.help = "ünï help 1088", .about = "about 1089\nmore"})
    .with(&S1069::f1090_khaki_2, cli::flag{.name = "khaki-2", .letter = U'λ', .count = cli::Repeated, .help = "helps with 1092"})
    .with(&S1069::f1093__ber, cli::flag{.name = "über", .letter = U'n', .count = cli::Repeated, .help = "helps with 1095"})
    .with(&S1069::dun, cli::flag{.letter = U'w', .help = "helps 1097a\nand 1097b"}, cli::alias{"india"});
  }
};
inline void dump(Map& m, const std::string& p, const S1069& v) { dump(m, p + "whiskey.", v.whiskey); put(m, p + "f1090_khaki_2", v.f1090_khaki_2); put(m, p + "f1093__ber", v.f1093__ber); put(m, p + "dun", v.dun); put(m, p + "f1098_rest", v.f1098_rest); }
inline Node* node_S1069() { auto n = new Node; n->subs.push_back({"whiskey", "whiskey", VPublic, {}, "ünï help 1088", "about 1089\nmore", node_S1070()});
  n->flags.push_back({"f1090_khaki_2", K_strbuf, "khaki-2", U'λ', VPublic, {}, 2, "", "helps with 1092"});
  n->flags.push_back({"f1093__ber", K_vec_str, "über", U'n', VPublic, {}, 2, "", "helps with 1095"});
  n->flags.push_back({"dun", K_int, "dun", U'w', VPublic, {{"india", VPublic}}, -1, "", "helps 1097a\nand 1097b"});
  n->poss.push_back({"f1098_rest", K_vec_int, "", -1, ""});
  return n; }
struct R10 {
  G1041 f1056_zulu; Quiet golf_ball; best::str f1060_pink_4; G1041 f1063_papa; best::rune alpha; Celsius ebony; S1069 f1100_jade_green; best::vec<best::strbuf> violet; best::str f1104_pos; best::option<best::rune> f1107_pos; best::vec<int> f1110_rest;
  constexpr friend auto BestReflect(auto& m, R10*) { return m.infer().with(cli::app{.authors = "people 1112", .version = "1.1112", .url = "https://u1112", .copyright_year = 3112})
    .with(&R10::f1056_zulu, cli::group{.name = "zulu", .letter = U'W', .vis = cli::Hidden, .help = "helps with 1057"})
    .with(&R10::golf_ball, cli::flag{.count = cli::Optional, .help = "helps 1059a\nand 1059b"}, cli::alias{"echo"})
    .with(&R10::f1060_pink_4, cli::flag{.name = "pink_4", .letter = U'u', .vis = cli::Delete, .help = "helps with 1062"})
    .with(&R10::f1063_papa, cli::group{.name = "papa", .help = "helps 1064a\nand 1064b"})
    .with(&R10::alpha, cli::flag{.letter = U'v', .vis = cli::Hidden, .arg = "ARG1065", .count = cli::Repeated, .help = "helps with 1066"}, cli::alias{"olive", cli::Delete}, cli::alias{"whiskey", cli::Hidden})
    .with(&R10::ebony, cli::flag{.count = cli::Required, .help = "helps with 1068"})
    .with(&R10::f1100_jade_green, cli::subcommand{.name = "jade_green", .help = "helps 1101a\n1101b\n1101c, the last", .about = "about 1102\nmore"}, cli::alias{"naïve", cli::Hidden})
    .with(&R10::violet, cli::flag{.letter = U'm'}, cli::alias{"fawn-grey", cli::Public}, cli::alias{"xray", cli::Delete})
    .with(&R10::f1104_pos, cli::positional{.name = "POS1105", .help = "helps 1106a\nand 1106b"})
    .with(&R10::f1107_pos, cli::positional{.name = "POS1108", .help = "helps 1109a\nand 1109b"});
  }
};
inline void dump(Map& m, const std::string& p, const R10& v) { dump(m, p + "f1056_zulu.", v.f1056_zulu); put(m, p + "golf_ball", v.golf_ball); put(m, p + "f1060_pink_4", v.f1060_pink_4); dump(m, p + "f1063_papa.", v.f1063_papa); put(m, p + "alpha", v.alpha); put(m, p + "ebony", v.ebony); dump(m, p + "f1100_jade_green.", v.f1100_jade_green); put(m, p + "violet", v.violet); put(m, p + "f1104_pos", v.f1104_pos); put(m, p + "f1107_pos", v.f1107_pos); put(m, p + "f1110_rest", v.f1110_rest); }
inline Node* node_R10() { auto n = new Node; n->groups.push_back({"f1056_zulu", "zulu", U'W', VHidden, {}, "helps with 1057", node_G1041()});
  n->flags.push_back({"golf_ball", K_quiet, "golf-ball", U'\0', VPublic, {{"echo", VPublic}}, 0, "", "helps 1059a\nand 1059b"});
  n->flags.push_back({"f1060_pink_4", K_str, "pink_4", U'u', VDelete, {}, -1, "", "helps with 1062"});
  n->groups.push_back({"f1063_papa", "papa", U'\0', VPublic, {}, "helps 1064a\nand 1064b", node_G1041()});
  n->flags.push_back({"alpha", K_rune, "alpha", U'v', VHidden, {{"olive", VDelete}, {"whiskey", VHidden}}, 2, "ARG1065", "helps with 1066"});
  n->flags.push_back({"ebony", K_custom, "ebony", U'\0', VPublic, {}, 1, "", "helps with 1068"});
  n->subs.push_back({"f1100_jade_green", "jade_green", VPublic, {{"naïve", VHidden}}, "helps 1101a\n1101b\n1101c, the last", "about 1102\nmore", node_S1069()});
  n->flags.push_back({"violet", K_vec_buf, "violet", U'm', VPublic, {{"fawn-grey", VPublic}, {"xray", VDelete}}, -1, "", ""});
  n->poss.push_back({"f1104_pos", K_str, "POS1105", -1, "helps 1106a\nand 1106b"});
  n->poss.push_back({"f1107_pos", K_opt_rune, "POS1108", -1, "helps 1109a\nand 1109b"});
  n->poss.push_back({"f1110_rest", K_vec_int, "", -1, ""});
  n->year = 3112;
  n->has_app = true; n->authors = "people 1112"; n->version = "1.1112"; n->url = "https://u1112";
  return n; }
DEFINITION(R10)
struct S1117 {
  uint8_t amber = 0; uint8_t f1120_pos = 0; uint8_t f1122_pos = 0; best::option<int> f1125_pos; best::vec<best::strbuf> f1128_rest;
  constexpr friend auto BestReflect(auto& m, S1117*) { return m.infer()
    .with(&S1117::amber, cli::flag{.letter = U'v', .vis = cli::Invisible, .help = "helps 1119a\nand 1119b"})
    .with(&S1117::f1120_pos, cli::positional{.name = "POS1121", .count = cli::Required})
    .with(&S1117::f1122_pos, cli::positional{.help = "helps 1124a\nand 1124b"})
    .with(&S1117::f1125_pos, cli::positional{.count = cli::Optional, .help = "helps 1127a\n1127b\n1127c, the last"});
  }
};
inline void dump(Map& m, const std::string& p, const S1117& v) { put(m, p + "amber", v.amber); put(m, p + "f1120_pos", v.f1120_pos); put(m, p + "f1122_pos", v.f1122_pos); put(m, p + "f1125_pos", v.f1125_pos); put(m, p + "f1128_rest", v.f1128_rest); }
inline Node* node_S1117() { auto n = new Node; n->flags.push_back({"amber", K_u8, "amber", U'v', VInvisible, {}, -1, "", "helps 1119a\nand 1119b"});
  n->poss.push_back({"f1120_pos", K_u8, "POS1121", 1, ""});
  n->poss.push_back({"f1122_pos", K_u8, "", -1, "helps 1124a\nand 1124b"});
  n->poss.push_back({"f1125_pos", K_opt_int, "", 0, "helps 1127a\n1127b\n1127c, the last"});
  n->poss.push_back({"f1128_rest", K_vec_buf, "", -1, ""});
  return n; }
struct G1137 {
  bool maroon = false; best::rune f1140_na_ve; best::option<int> f1143_delta_t;
  constexpr friend auto BestReflect(auto& m, G1137*) { return m.infer()
    .with(&G1137::maroon, cli::flag{.count = cli::Repeated, .help = "helps with 1139"}, cli::alias{"lemon", cli::Public})
    .with(&G1137::f1140_na_ve, cli::flag{.name = "naïve", .help = "helps with 1142"})
    .with(&G1137::f1143_delta_t, cli::flag{.name = "delta_t", .vis = cli::Hidden});
  }
};
inline void dump(Map& m, const std::string& p, const G1137& v) { put(m, p + "maroon", v.maroon); put(m, p + "f1140_na_ve", v.f1140_na_ve); put(m, p + "f1143_delta_t", v.f1143_delta_t); }
inline Node* node_G1137() { auto n = new Node; n->flags.push_back({"maroon", K_bool, "maroon", U'\0', VPublic, {{"lemon", VPublic}}, 2, "", "helps with 1139"});
  n->flags.push_back({"f1140_na_ve", K_rune, "naïve", U'\0', VPublic, {}, -1, "", "helps with 1142"});
  n->flags.push_back({"f1143_delta_t", K_opt_int, "delta_t", U'\0', VHidden, {}, -1, "", ""});
  return n; }
struct S1147 {
  best::rune f1148_white_noise; best::vec<best::str> f1151_rest;
  constexpr friend auto BestReflect(auto& m, S1147*) { return m.infer()
    .with(&S1147::f1148_white_noise, cli::flag{.name = "white_noise", .help = "ünï help 1150"})
    .with(&S1147::f1151_rest, cli::positional{.name = "POS1152"});
  }
};
inline void dump(Map& m, const std::string& p, const S1147& v) { put(m, p + "f1148_white_noise", v.f1148_white_noise); put(m, p + "f1151_rest", v.f1151_rest); }
inline Node* node_S1147() { auto n = new Node; n->flags.push_back({"f1148_white_noise", K_rune, "white_noise", U'\0', VPublic, {}, -1, "", "ünï help 1150"});
  n->poss.push_back({"f1151_rest", K_vec_str, "POS1152", -1, ""});
  return n; }
struct G1133 {
  best::str quartz; best::strbuf hotel_id; G1137 f1145_kilo_watt; S1147 f1153_copper; best::vec<int> f1156_olive;
  constexpr friend auto BestReflect(auto& m, G1133*) { return m.infer()
    .with(&G1133::quartz, cli::flag{.letter = U'k', .vis = cli::Delete, .arg = "ARG1134"})
    .with(&G1133::hotel_id, cli::flag{.letter = U'm', .vis = cli::Hidden, .help = "helps 1136a\nand 1136b"}, cli::alias{"yankee", cli::Delete})
    .with(&G1133::f1145_kilo_watt, cli::group{.letter = U'Ñ', .help = "ünï help 1146"})
    .with(&G1133::f1153_copper, cli::subcommand{.name = "copper", .help = "helps with 1154"})
    .with(&G1133::f1156_olive, cli::flag{.name = "olive", .arg = "ARG1157", .help = "helps with 1158"});
  }
};
inline void dump(Map& m, const std::string& p, const G1133& v) { put(m, p + "quartz", v.quartz); put(m, p + "hotel_id", v.hotel_id); dump(m, p + "f1145_kilo_watt.", v.f1145_kilo_watt); dump(m, p + "f1153_copper.", v.f1153_copper); put(m, p + "f1156_olive", v.f1156_olive); }
inline Node* node_G1133() { auto n = new Node; n->flags.push_back({"quartz", K_str, "quartz", U'k', VDelete, {}, -1, "ARG1134", ""});
  n->flags.push_back({"hotel_id", K_strbuf, "hotel_id", U'm', VHidden, {{"yankee", VDelete}}, -1, "", "helps 1136a\nand 1136b"});
  n->groups.push_back({"f1145_kilo_watt", "", U'Ñ', VPublic, {}, "ünï help 1146", node_G1137()});
  n->subs.push_back({"f1153_copper", "copper", VPublic, {}, "helps with 1154", "", node_S1147()});
  n->flags.push_back({"f1156_olive", K_vec_int, "olive", U'\0', VPublic, {}, -1, "ARG1157", "helps with 1158"});
  return n; }
struct G1132 {
  G1133 f1159_whiskey; best::option<int> f1161_romeo; bool f1164__lan_x = false; int64_t f1167_echo = 0;
  constexpr friend auto BestReflect(auto& m, G1132*) { return m.infer()
    .with(&G1132::f1159_whiskey, cli::group{.name = "whiskey", .help = "helps 1160a\n1160b\n1160c, the last"})
    .with(&G1132::f1161_romeo, cli::flag{.name = "romeo", .vis = cli::Hidden, .help = "helps with 1163"})
    .with(&G1132::f1164__lan_x, cli::flag{.name = "élan-x", .letter = U'u', .arg = "ARG1165", .count = cli::Required, .help = "helps with 1166"}, cli::alias{"maroon"}, cli::alias{"indigo", cli::Hidden})
    .with(&G1132::f1167_echo, cli::flag{.name = "echo", .letter = U'x', .count = cli::Optional, .help = "helps with 1169"}, cli::alias{"khaki-2", cli::Hidden});
  }
};
inline void dump(Map& m, const std::string& p, const G1132& v) { dump(m, p + "f1159_whiskey.", v.f1159_whiskey); put(m, p + "f1161_romeo", v.f1161_romeo); put(m, p + "f1164__lan_x", v.f1164__lan_x); put(m, p + "f1167_echo", v.f1167_echo); }
inline Node* node_G1132() { auto n = new Node; n->groups.push_back({"f1159_whiskey", "whiskey", U'\0', VPublic, {}, "helps 1160a\n1160b\n1160c, the last", node_G1133()});
  n->flags.push_back({"f1161_romeo", K_opt_int, "romeo", U'\0', VHidden, {}, -1, "", "helps with 1163"});
  n->flags.push_back({"f1164__lan_x", K_bool, "élan-x", U'u', VPublic, {{"maroon", VPublic}, {"indigo", VHidden}}, 1, "ARG1165", "helps with 1166"});
  n->flags.push_back({"f1167_echo", K_i64, "echo", U'x', VPublic, {{"khaki-2", VHidden}}, 0, "", "helps with 1169"});
  return n; }
struct R11 {
  best::vec<int> f1113_uniform; best::vec<best::str> f1115_dun; S1117 quebec_city; G1132 f1170_november_x; best::rune gold; best::vec<bool> f1173_echo; bool f1176_navy_3 = false; int64_t f1179_pos = 0; Celsius f1181_pos; int f1184_pos = 0;
  constexpr friend auto BestReflect(auto& m, R11*) { return m.infer().with(cli::app{.name = "app1187", .authors = "people 1187", .version = "1.1187", .url = "https://u1187", .copyright_year = 3187, .license = "LIC-1187"})
    .with(&R11::f1113_uniform, cli::flag{.name = "uniform", .letter = U'f', .count = cli::Repeated})
    .with(&R11::f1115_dun, cli::flag{.name = "dun", .count = cli::Repeated}, cli::alias{"alpha"}, cli::alias{"zulu"})
    .with(&R11::quebec_city, cli::subcommand{.vis = cli::Hidden, .help = "ünï help 1130", .about = "about 1131\nmore"}, cli::alias{"white_noise", cli::Invisible})
    .with(&R11::f1170_november_x, cli::group{.name = "november_x", .vis = cli::Hidden, .help = "helps with 1171"})
    .with(&R11::gold, cli::flag{.letter = U's', .arg = "ARG1172", .count = cli::Repeated}, cli::alias{"cargo-lock", cli::Delete}, cli::alias{"indigo", cli::Delete})
    .with(&R11::f1173_echo, cli::flag{.name = "echo", .count = cli::Repeated, .help = "helps 1175a\nand 1175b"}, cli::alias{"whiskey"})
    .with(&R11::f1176_navy_3, cli::flag{.name = "navy-3", .letter = U'd', .count = cli::Optional, .help = "helps with 1178"}, cli::alias{"papa"})
    .with(&R11::f1179_pos, cli::positional{.name = "POS1180"})
    .with(&R11::f1181_pos, cli::positional{.help = "helps with 1183"})
    .with(&R11::f1184_pos, cli::positional{.count = cli::Optional, .help = "helps with 1186"});
  }
};
inline void dump(Map& m, const std::string& p, const R11& v) { put(m, p + "f1113_uniform", v.f1113_uniform); put(m, p + "f1115_dun", v.f1115_dun); dump(m, p + "quebec_city.", v.quebec_city); dump(m, p + "f1170_november_x.", v.f1170_november_x); put(m, p + "gold", v.gold); put(m, p + "f1173_echo", v.f1173_echo); put(m, p + "f1176_navy_3", v.f1176_navy_3); put(m, p + "f1179_pos", v.f1179_pos); put(m, p + "f1181_pos", v.f1181_pos); put(m, p + "f1184_pos", v.f1184_pos); }
inline Node* node_R11() { auto n = new Node; n->flags.push_back({"f1113_uniform", K_vec_int, "uniform", U'f', VPublic, {}, 2, "", ""});
  n->flags.push_back({"f1115_dun", K_vec_str, "dun", U'\0', VPublic, {{"alpha", VPublic}, {"zulu", VPublic}}, 2, "", ""});
  n->subs.push_back({"quebec_city", "quebec-city", VHidden, {{"white_noise", VInvisible}}, "ünï help 1130", "about 1131\nmore", node_S1117()});
  n->groups.push_back({"f1170_november_x", "november_x", U'\0', VHidden, {}, "helps with 1171", node_G1132()});
  n->flags.push_back({"gold", K_rune, "gold", U's', VPublic, {{"cargo-lock", VDelete}, {"indigo", VDelete}}, 2, "ARG1172", ""});
  n->flags.push_back({"f1173_echo", K_vec_bool, "echo", U'\0', VPublic, {{"whiskey", VPublic}}, 2, "", "helps 1175a\nand 1175b"});
  n->flags.push_back({"f1176_navy_3", K_bool, "navy-3", U'd', VPublic, {{"papa", VPublic}}, 0, "", "helps with 1178"});
  n->poss.push_back({"f1179_pos", K_i64, "POS1180", -1, ""});
  n->poss.push_back({"f1181_pos", K_custom, "", -1, "helps with 1183"});
  n->poss.push_back({"f1184_pos", K_int, "", 0, "helps with 1186"});
  n->year = 3187;
  n->has_app = true; n->name = "app1187"; n->authors = "people 1187"; n->version = "1.1187"; n->url = "https://u1187"; n->license = "LIC-1187";
  return n; }
DEFINITION(R11)
#endif
