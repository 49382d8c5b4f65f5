// An interface of 40 methods with 0 to 12 parameters of mixed types (written by a script once).
class Many : public best::interface_base<Many> { public: BEST_INTERFACE(Many, (i64, m0, ()),
    (int, m1, (Tok p0), const),
    (void, m2, (u8 p0, u8 p1)),
    (i64&, m3, (Tok p0, int p1, i64& p2), const),
    (i64, m4, (i64 p0, int p1, i64 p2, int p3)),
    (int, m5, (u8 p0, i64& p1, i64 p2, i64& p3, Tok p4), const),
    (void, m6, (int p0, Tok p1, i64 p2, int p3, i64 p4, i64& p5)),
    (i64&, m7, (u8 p0, i64 p1, i64& p2, i64 p3, int p4, i64 p5, Tok p6), const),
    (i64, m8, (Tok p0, i64& p1, i64 p2, i64 p3, int p4, int p5, i64 p6, i64 p7)),
    (int, m9, (i64 p0, i64 p1, u8 p2, u8 p3, i64 p4, Tok p5, i64 p6, i64 p7, i64 p8), const),
    (void, m10, (i64& p0, u8 p1, int p2, u8 p3, i64& p4, i64 p5, i64 p6, u8 p7, int p8, u8 p9)),
    (i64&, m11, (u8 p0, Tok p1, Tok p2, int p3, Tok p4, u8 p5, int p6, u8 p7, u8 p8, u8 p9, i64& p10), const),
    (i64, m12, (u8 p0, i64 p1, i64& p2, i64& p3, i64 p4, int p5, u8 p6, int p7, u8 p8, i64& p9, int p10, Tok p11)),
    (int, m13, (), const),
    (void, m14, (i64& p0)),
    (i64&, m15, (u8 p0, i64& p1), const),
    (i64, m16, (Tok p0, int p1, i64& p2)),
    (int, m17, (int p0, i64 p1, Tok p2, i64 p3), const),
    (void, m18, (int p0, i64 p1, i64& p2, u8 p3, Tok p4)),
    (i64&, m19, (u8 p0, Tok p1, u8 p2, i64& p3, int p4, Tok p5), const),
    (i64, m20, (u8 p0, u8 p1, int p2, i64& p3, int p4, i64 p5, u8 p6)),
    (int, m21, (Tok p0, Tok p1, u8 p2, i64 p3, u8 p4, u8 p5, Tok p6, int p7), const),
    (void, m22, (u8 p0, u8 p1, u8 p2, i64 p3, int p4, i64 p5, u8 p6, i64& p7, i64 p8)),
    (i64&, m23, (int p0, int p1, Tok p2, Tok p3, i64& p4, int p5, i64 p6, Tok p7, u8 p8, u8 p9), const),
    (i64, m24, (i64& p0, i64& p1, i64 p2, int p3, int p4, i64& p5, u8 p6, i64 p7, i64 p8, Tok p9, i64 p10)),
    (int, m25, (i64& p0, int p1, i64 p2, i64& p3, u8 p4, i64 p5, int p6, i64& p7, u8 p8, i64 p9, i64& p10, Tok p11), const),
    (void, m26, ()),
    (i64&, m27, (i64 p0), const),
    (i64, m28, (Tok p0, i64& p1)),
    (int, m29, (i64& p0, u8 p1, i64& p2), const),
    (void, m30, (u8 p0, u8 p1, i64& p2, i64& p3)),
    (i64&, m31, (i64 p0, int p1, i64& p2, Tok p3, i64 p4), const),
    (i64, m32, (i64& p0, u8 p1, i64 p2, int p3, i64& p4, u8 p5)),
    (int, m33, (Tok p0, Tok p1, Tok p2, u8 p3, int p4, u8 p5, Tok p6), const),
    (void, m34, (int p0, u8 p1, u8 p2, Tok p3, u8 p4, i64& p5, u8 p6, u8 p7)),
    (i64&, m35, (u8 p0, i64 p1, Tok p2, int p3, i64& p4, Tok p5, u8 p6, u8 p7, u8 p8), const),
    (i64, m36, (i64& p0, u8 p1, Tok p2, u8 p3, u8 p4, u8 p5, u8 p6, i64& p7, u8 p8, i64 p9)),
    (int, m37, (i64& p0, u8 p1, u8 p2, Tok p3, i64 p4, Tok p5, i64 p6, i64 p7, u8 p8, i64& p9, u8 p10), const),
    (void, m38, (int p0, i64& p1, i64 p2, Tok p3, Tok p4, Tok p5, i64& p6, u8 p7, Tok p8, Tok p9, u8 p10, int p11)),
    (i64&, m39, (), const)); };
struct Impl { mutable i64 sum = 0;
  i64 m0() { u64 h = 0;  sum = (i64)h; note(1000, this); return (i64)h; }
  int m1(Tok p0) const { u64 h = 1; h = hcomb(h, (u64)p0.get());  sum = (i64)h; note(1001, this); return (int)h; }
  void m2(u8 p0, u8 p1) { u64 h = 2; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  sum = (i64)h; note(1002, this); }
  i64& m3(Tok p0, int p1, i64& p2) const { u64 h = 3; h = hcomb(h, (u64)p0.get());  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2); p2 += 3; sum = (i64)h; note(1003, this); return sum; }
  i64 m4(i64 p0, int p1, i64 p2, int p3) { u64 h = 4; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3);  sum = (i64)h; note(1004, this); return (i64)h; }
  int m5(u8 p0, i64& p1, i64 p2, i64& p3, Tok p4) const { u64 h = 5; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4.get()); p1 += 2; p3 += 4; sum = (i64)h; note(1005, this); return (int)h; }
  void m6(int p0, Tok p1, i64 p2, int p3, i64 p4, i64& p5) { u64 h = 6; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1.get());  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5); p5 += 6; sum = (i64)h; note(1006, this); }
  i64& m7(u8 p0, i64 p1, i64& p2, i64 p3, int p4, i64 p5, Tok p6) const { u64 h = 7; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5);  h = hcomb(h, (u64)p6.get()); p2 += 3; sum = (i64)h; note(1007, this); return sum; }
  i64 m8(Tok p0, i64& p1, i64 p2, i64 p3, int p4, int p5, i64 p6, i64 p7) { u64 h = 8; h = hcomb(h, (u64)p0.get());  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5);  h = hcomb(h, (u64)p6);  h = hcomb(h, (u64)p7); p1 += 2; sum = (i64)h; note(1008, this); return (i64)h; }
  int m9(i64 p0, i64 p1, u8 p2, u8 p3, i64 p4, Tok p5, i64 p6, i64 p7, i64 p8) const { u64 h = 9; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5.get());  h = hcomb(h, (u64)p6);  h = hcomb(h, (u64)p7);  h = hcomb(h, (u64)p8);  sum = (i64)h; note(1009, this); return (int)h; }
  void m10(i64& p0, u8 p1, int p2, u8 p3, i64& p4, i64 p5, i64 p6, u8 p7, int p8, u8 p9) { u64 h = 10; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5);  h = hcomb(h, (u64)p6);  h = hcomb(h, (u64)p7);  h = hcomb(h, (u64)p8);  h = hcomb(h, (u64)p9); p0 += 1; p4 += 5; sum = (i64)h; note(1010, this); }
  i64& m11(u8 p0, Tok p1, Tok p2, int p3, Tok p4, u8 p5, int p6, u8 p7, u8 p8, u8 p9, i64& p10) const { u64 h = 11; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1.get());  h = hcomb(h, (u64)p2.get());  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4.get());  h = hcomb(h, (u64)p5);  h = hcomb(h, (u64)p6);  h = hcomb(h, (u64)p7);  h = hcomb(h, (u64)p8);  h = hcomb(h, (u64)p9);  h = hcomb(h, (u64)p10); p10 += 11; sum = (i64)h; note(1011, this); return sum; }
  i64 m12(u8 p0, i64 p1, i64& p2, i64& p3, i64 p4, int p5, u8 p6, int p7, u8 p8, i64& p9, int p10, Tok p11) { u64 h = 12; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5);  h = hcomb(h, (u64)p6);  h = hcomb(h, (u64)p7);  h = hcomb(h, (u64)p8);  h = hcomb(h, (u64)p9);  h = hcomb(h, (u64)p10);  h = hcomb(h, (u64)p11.get()); p2 += 3; p3 += 4; p9 += 10; sum = (i64)h; note(1012, this); return (i64)h; }
  int m13() const { u64 h = 13;  sum = (i64)h; note(1013, this); return (int)h; }
  void m14(i64& p0) { u64 h = 14; h = hcomb(h, (u64)p0); p0 += 1; sum = (i64)h; note(1014, this); }
  i64& m15(u8 p0, i64& p1) const { u64 h = 15; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1); p1 += 2; sum = (i64)h; note(1015, this); return sum; }
  i64 m16(Tok p0, int p1, i64& p2) { u64 h = 16; h = hcomb(h, (u64)p0.get());  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2); p2 += 3; sum = (i64)h; note(1016, this); return (i64)h; }
  int m17(int p0, i64 p1, Tok p2, i64 p3) const { u64 h = 17; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2.get());  h = hcomb(h, (u64)p3);  sum = (i64)h; note(1017, this); return (int)h; }
  void m18(int p0, i64 p1, i64& p2, u8 p3, Tok p4) { u64 h = 18; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4.get()); p2 += 3; sum = (i64)h; note(1018, this); }
  i64& m19(u8 p0, Tok p1, u8 p2, i64& p3, int p4, Tok p5) const { u64 h = 19; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1.get());  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5.get()); p3 += 4; sum = (i64)h; note(1019, this); return sum; }
  i64 m20(u8 p0, u8 p1, int p2, i64& p3, int p4, i64 p5, u8 p6) { u64 h = 20; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5);  h = hcomb(h, (u64)p6); p3 += 4; sum = (i64)h; note(1020, this); return (i64)h; }
  int m21(Tok p0, Tok p1, u8 p2, i64 p3, u8 p4, u8 p5, Tok p6, int p7) const { u64 h = 21; h = hcomb(h, (u64)p0.get());  h = hcomb(h, (u64)p1.get());  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5);  h = hcomb(h, (u64)p6.get());  h = hcomb(h, (u64)p7);  sum = (i64)h; note(1021, this); return (int)h; }
  void m22(u8 p0, u8 p1, u8 p2, i64 p3, int p4, i64 p5, u8 p6, i64& p7, i64 p8) { u64 h = 22; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5);  h = hcomb(h, (u64)p6);  h = hcomb(h, (u64)p7);  h = hcomb(h, (u64)p8); p7 += 8; sum = (i64)h; note(1022, this); }
  i64& m23(int p0, int p1, Tok p2, Tok p3, i64& p4, int p5, i64 p6, Tok p7, u8 p8, u8 p9) const { u64 h = 23; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2.get());  h = hcomb(h, (u64)p3.get());  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5);  h = hcomb(h, (u64)p6);  h = hcomb(h, (u64)p7.get());  h = hcomb(h, (u64)p8);  h = hcomb(h, (u64)p9); p4 += 5; sum = (i64)h; note(1023, this); return sum; }
  i64 m24(i64& p0, i64& p1, i64 p2, int p3, int p4, i64& p5, u8 p6, i64 p7, i64 p8, Tok p9, i64 p10) { u64 h = 24; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5);  h = hcomb(h, (u64)p6);  h = hcomb(h, (u64)p7);  h = hcomb(h, (u64)p8);  h = hcomb(h, (u64)p9.get());  h = hcomb(h, (u64)p10); p0 += 1; p1 += 2; p5 += 6; sum = (i64)h; note(1024, this); return (i64)h; }
  int m25(i64& p0, int p1, i64 p2, i64& p3, u8 p4, i64 p5, int p6, i64& p7, u8 p8, i64 p9, i64& p10, Tok p11) const { u64 h = 25; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5);  h = hcomb(h, (u64)p6);  h = hcomb(h, (u64)p7);  h = hcomb(h, (u64)p8);  h = hcomb(h, (u64)p9);  h = hcomb(h, (u64)p10);  h = hcomb(h, (u64)p11.get()); p0 += 1; p3 += 4; p7 += 8; p10 += 11; sum = (i64)h; note(1025, this); return (int)h; }
  void m26() { u64 h = 26;  sum = (i64)h; note(1026, this); }
  i64& m27(i64 p0) const { u64 h = 27; h = hcomb(h, (u64)p0);  sum = (i64)h; note(1027, this); return sum; }
  i64 m28(Tok p0, i64& p1) { u64 h = 28; h = hcomb(h, (u64)p0.get());  h = hcomb(h, (u64)p1); p1 += 2; sum = (i64)h; note(1028, this); return (i64)h; }
  int m29(i64& p0, u8 p1, i64& p2) const { u64 h = 29; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2); p0 += 1; p2 += 3; sum = (i64)h; note(1029, this); return (int)h; }
  void m30(u8 p0, u8 p1, i64& p2, i64& p3) { u64 h = 30; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3); p2 += 3; p3 += 4; sum = (i64)h; note(1030, this); }
  i64& m31(i64 p0, int p1, i64& p2, Tok p3, i64 p4) const { u64 h = 31; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3.get());  h = hcomb(h, (u64)p4); p2 += 3; sum = (i64)h; note(1031, this); return sum; }
  i64 m32(i64& p0, u8 p1, i64 p2, int p3, i64& p4, u8 p5) { u64 h = 32; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5); p0 += 1; p4 += 5; sum = (i64)h; note(1032, this); return (i64)h; }
  int m33(Tok p0, Tok p1, Tok p2, u8 p3, int p4, u8 p5, Tok p6) const { u64 h = 33; h = hcomb(h, (u64)p0.get());  h = hcomb(h, (u64)p1.get());  h = hcomb(h, (u64)p2.get());  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5);  h = hcomb(h, (u64)p6.get());  sum = (i64)h; note(1033, this); return (int)h; }
  void m34(int p0, u8 p1, u8 p2, Tok p3, u8 p4, i64& p5, u8 p6, u8 p7) { u64 h = 34; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3.get());  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5);  h = hcomb(h, (u64)p6);  h = hcomb(h, (u64)p7); p5 += 6; sum = (i64)h; note(1034, this); }
  i64& m35(u8 p0, i64 p1, Tok p2, int p3, i64& p4, Tok p5, u8 p6, u8 p7, u8 p8) const { u64 h = 35; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2.get());  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5.get());  h = hcomb(h, (u64)p6);  h = hcomb(h, (u64)p7);  h = hcomb(h, (u64)p8); p4 += 5; sum = (i64)h; note(1035, this); return sum; }
  i64 m36(i64& p0, u8 p1, Tok p2, u8 p3, u8 p4, u8 p5, u8 p6, i64& p7, u8 p8, i64 p9) { u64 h = 36; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2.get());  h = hcomb(h, (u64)p3);  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5);  h = hcomb(h, (u64)p6);  h = hcomb(h, (u64)p7);  h = hcomb(h, (u64)p8);  h = hcomb(h, (u64)p9); p0 += 1; p7 += 8; sum = (i64)h; note(1036, this); return (i64)h; }
  int m37(i64& p0, u8 p1, u8 p2, Tok p3, i64 p4, Tok p5, i64 p6, i64 p7, u8 p8, i64& p9, u8 p10) const { u64 h = 37; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3.get());  h = hcomb(h, (u64)p4);  h = hcomb(h, (u64)p5.get());  h = hcomb(h, (u64)p6);  h = hcomb(h, (u64)p7);  h = hcomb(h, (u64)p8);  h = hcomb(h, (u64)p9);  h = hcomb(h, (u64)p10); p0 += 1; p9 += 10; sum = (i64)h; note(1037, this); return (int)h; }
  void m38(int p0, i64& p1, i64 p2, Tok p3, Tok p4, Tok p5, i64& p6, u8 p7, Tok p8, Tok p9, u8 p10, int p11) { u64 h = 38; h = hcomb(h, (u64)p0);  h = hcomb(h, (u64)p1);  h = hcomb(h, (u64)p2);  h = hcomb(h, (u64)p3.get());  h = hcomb(h, (u64)p4.get());  h = hcomb(h, (u64)p5.get());  h = hcomb(h, (u64)p6);  h = hcomb(h, (u64)p7);  h = hcomb(h, (u64)p8.get());  h = hcomb(h, (u64)p9.get());  h = hcomb(h, (u64)p10);  h = hcomb(h, (u64)p11); p1 += 2; p6 += 7; sum = (i64)h; note(1038, this); }
  i64& m39() const { u64 h = 39;  sum = (i64)h; note(1039, this); return sum; }
};
static void call_many(Ctx& c, best::dynptr<Many> p, Impl& obj, int m) { auto& g = c.rng; switch (m) {
  case 0: {   u64 h = 0;  bool ok; ok = p->m0() == (i64)h; VH_CHECK(ok, "many-methods", "method 0 of 40"); break; }
  case 1: { i64 v0 = g.range(-120, 120);  u64 h = 1; h = hcomb(h, (u64)(int)v0); bool ok; ok = p->m1(Tok((int)v0)) == (int)h; VH_CHECK(ok, "many-methods", "method 1 of 40"); break; }
  case 2: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120);  u64 h = 2; h = hcomb(h, (u64)(u8)v0); h = hcomb(h, (u64)(u8)v1); bool ok; p->m2((u8)v0, (u8)v1); ok = obj.sum == (i64)h; VH_CHECK(ok, "many-methods", "method 2 of 40"); break; }
  case 3: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 w2 = v2; u64 h = 3; h = hcomb(h, (u64)(int)v0); h = hcomb(h, (u64)(int)v1); h = hcomb(h, (u64)v2); bool ok; i64& r = p->m3(Tok((int)v0), (int)v1, w2); ok = r == (i64)h && &r == &obj.sum; VH_CHECK(ok && w2 == v2 + 3, "many-methods", "method 3 of 40"); break; }
  case 4: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120);  u64 h = 4; h = hcomb(h, (u64)v0); h = hcomb(h, (u64)(int)v1); h = hcomb(h, (u64)v2); h = hcomb(h, (u64)(int)v3); bool ok; ok = p->m4(v0, (int)v1, v2, (int)v3) == (i64)h; VH_CHECK(ok, "many-methods", "method 4 of 40"); break; }
  case 5: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 w1 = v1; i64 w3 = v3; u64 h = 5; h = hcomb(h, (u64)(u8)v0); h = hcomb(h, (u64)v1); h = hcomb(h, (u64)v2); h = hcomb(h, (u64)v3); h = hcomb(h, (u64)(int)v4); bool ok; ok = p->m5((u8)v0, w1, v2, w3, Tok((int)v4)) == (int)h; VH_CHECK(ok && w1 == v1 + 2 && w3 == v3 + 4, "many-methods", "method 5 of 40"); break; }
  case 6: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 w5 = v5; u64 h = 6; h = hcomb(h, (u64)(int)v0); h = hcomb(h, (u64)(int)v1); h = hcomb(h, (u64)v2); h = hcomb(h, (u64)(int)v3); h = hcomb(h, (u64)v4); h = hcomb(h, (u64)v5); bool ok; p->m6((int)v0, Tok((int)v1), v2, (int)v3, v4, w5); ok = obj.sum == (i64)h; VH_CHECK(ok && w5 == v5 + 6, "many-methods", "method 6 of 40"); break; }
  case 7: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 w2 = v2; u64 h = 7; h = hcomb(h, (u64)(u8)v0); h = hcomb(h, (u64)v1); h = hcomb(h, (u64)v2); h = hcomb(h, (u64)v3); h = hcomb(h, (u64)(int)v4); h = hcomb(h, (u64)v5); h = hcomb(h, (u64)(int)v6); bool ok; i64& r = p->m7((u8)v0, v1, w2, v3, (int)v4, v5, Tok((int)v6)); ok = r == (i64)h && &r == &obj.sum; VH_CHECK(ok && w2 == v2 + 3, "many-methods", "method 7 of 40"); break; }
  case 8: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 v7 = g.range(-120, 120); i64 w1 = v1; u64 h = 8; h = hcomb(h, (u64)(int)v0); h = hcomb(h, (u64)v1); h = hcomb(h, (u64)v2); h = hcomb(h, (u64)v3); h = hcomb(h, (u64)(int)v4); h = hcomb(h, (u64)(int)v5); h = hcomb(h, (u64)v6); h = hcomb(h, (u64)v7); bool ok; ok = p->m8(Tok((int)v0), w1, v2, v3, (int)v4, (int)v5, v6, v7) == (i64)h; VH_CHECK(ok && w1 == v1 + 2, "many-methods", "method 8 of 40"); break; }
  case 9: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 v7 = g.range(-120, 120); i64 v8 = g.range(-120, 120);  u64 h = 9; h = hcomb(h, (u64)v0); h = hcomb(h, (u64)v1); h = hcomb(h, (u64)(u8)v2); h = hcomb(h, (u64)(u8)v3); h = hcomb(h, (u64)v4); h = hcomb(h, (u64)(int)v5); h = hcomb(h, (u64)v6); h = hcomb(h, (u64)v7); h = hcomb(h, (u64)v8); bool ok; ok = p->m9(v0, v1, (u8)v2, (u8)v3, v4, Tok((int)v5), v6, v7, v8) == (int)h; VH_CHECK(ok, "many-methods", "method 9 of 40"); break; }
  case 10: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 v7 = g.range(-120, 120); i64 v8 = g.range(-120, 120); i64 v9 = g.range(-120, 120); i64 w0 = v0; i64 w4 = v4; u64 h = 10; h = hcomb(h, (u64)v0); h = hcomb(h, (u64)(u8)v1); h = hcomb(h, (u64)(int)v2); h = hcomb(h, (u64)(u8)v3); h = hcomb(h, (u64)v4); h = hcomb(h, (u64)v5); h = hcomb(h, (u64)v6); h = hcomb(h, (u64)(u8)v7); h = hcomb(h, (u64)(int)v8); h = hcomb(h, (u64)(u8)v9); bool ok; p->m10(w0, (u8)v1, (int)v2, (u8)v3, w4, v5, v6, (u8)v7, (int)v8, (u8)v9); ok = obj.sum == (i64)h; VH_CHECK(ok && w0 == v0 + 1 && w4 == v4 + 5, "many-methods", "method 10 of 40"); break; }
  case 11: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 v7 = g.range(-120, 120); i64 v8 = g.range(-120, 120); i64 v9 = g.range(-120, 120); i64 v10 = g.range(-120, 120); i64 w10 = v10; u64 h = 11; h = hcomb(h, (u64)(u8)v0); h = hcomb(h, (u64)(int)v1); h = hcomb(h, (u64)(int)v2); h = hcomb(h, (u64)(int)v3); h = hcomb(h, (u64)(int)v4); h = hcomb(h, (u64)(u8)v5); h = hcomb(h, (u64)(int)v6); h = hcomb(h, (u64)(u8)v7); h = hcomb(h, (u64)(u8)v8); h = hcomb(h, (u64)(u8)v9); h = hcomb(h, (u64)v10); bool ok; i64& r = p->m11((u8)v0, Tok((int)v1), Tok((int)v2), (int)v3, Tok((int)v4), (u8)v5, (int)v6, (u8)v7, (u8)v8, (u8)v9, w10); ok = r == (i64)h && &r == &obj.sum; VH_CHECK(ok && w10 == v10 + 11, "many-methods", "method 11 of 40"); break; }
  case 12: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 v7 = g.range(-120, 120); i64 v8 = g.range(-120, 120); i64 v9 = g.range(-120, 120); i64 v10 = g.range(-120, 120); i64 v11 = g.range(-120, 120); i64 w2 = v2; i64 w3 = v3; i64 w9 = v9; u64 h = 12; h = hcomb(h, (u64)(u8)v0); h = hcomb(h, (u64)v1); h = hcomb(h, (u64)v2); h = hcomb(h, (u64)v3); h = hcomb(h, (u64)v4); h = hcomb(h, (u64)(int)v5); h = hcomb(h, (u64)(u8)v6); h = hcomb(h, (u64)(int)v7); h = hcomb(h, (u64)(u8)v8); h = hcomb(h, (u64)v9); h = hcomb(h, (u64)(int)v10); h = hcomb(h, (u64)(int)v11); bool ok; ok = p->m12((u8)v0, v1, w2, w3, v4, (int)v5, (u8)v6, (int)v7, (u8)v8, w9, (int)v10, Tok((int)v11)) == (i64)h; VH_CHECK(ok && w2 == v2 + 3 && w3 == v3 + 4 && w9 == v9 + 10, "many-methods", "method 12 of 40"); break; }
  case 13: {   u64 h = 13;  bool ok; ok = p->m13() == (int)h; VH_CHECK(ok, "many-methods", "method 13 of 40"); break; }
  case 14: { i64 v0 = g.range(-120, 120); i64 w0 = v0; u64 h = 14; h = hcomb(h, (u64)v0); bool ok; p->m14(w0); ok = obj.sum == (i64)h; VH_CHECK(ok && w0 == v0 + 1, "many-methods", "method 14 of 40"); break; }
  case 15: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 w1 = v1; u64 h = 15; h = hcomb(h, (u64)(u8)v0); h = hcomb(h, (u64)v1); bool ok; i64& r = p->m15((u8)v0, w1); ok = r == (i64)h && &r == &obj.sum; VH_CHECK(ok && w1 == v1 + 2, "many-methods", "method 15 of 40"); break; }
  case 16: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 w2 = v2; u64 h = 16; h = hcomb(h, (u64)(int)v0); h = hcomb(h, (u64)(int)v1); h = hcomb(h, (u64)v2); bool ok; ok = p->m16(Tok((int)v0), (int)v1, w2) == (i64)h; VH_CHECK(ok && w2 == v2 + 3, "many-methods", "method 16 of 40"); break; }
  case 17: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120);  u64 h = 17; h = hcomb(h, (u64)(int)v0); h = hcomb(h, (u64)v1); h = hcomb(h, (u64)(int)v2); h = hcomb(h, (u64)v3); bool ok; ok = p->m17((int)v0, v1, Tok((int)v2), v3) == (int)h; VH_CHECK(ok, "many-methods", "method 17 of 40"); break; }
  case 18: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 w2 = v2; u64 h = 18; h = hcomb(h, (u64)(int)v0); h = hcomb(h, (u64)v1); h = hcomb(h, (u64)v2); h = hcomb(h, (u64)(u8)v3); h = hcomb(h, (u64)(int)v4); bool ok; p->m18((int)v0, v1, w2, (u8)v3, Tok((int)v4)); ok = obj.sum == (i64)h; VH_CHECK(ok && w2 == v2 + 3, "many-methods", "method 18 of 40"); break; }
  case 19: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 w3 = v3; u64 h = 19; h = hcomb(h, (u64)(u8)v0); h = hcomb(h, (u64)(int)v1); h = hcomb(h, (u64)(u8)v2); h = hcomb(h, (u64)v3); h = hcomb(h, (u64)(int)v4); h = hcomb(h, (u64)(int)v5); bool ok; i64& r = p->m19((u8)v0, Tok((int)v1), (u8)v2, w3, (int)v4, Tok((int)v5)); ok = r == (i64)h && &r == &obj.sum; VH_CHECK(ok && w3 == v3 + 4, "many-methods", "method 19 of 40"); break; }
  case 20: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 w3 = v3; u64 h = 20; h = hcomb(h, (u64)(u8)v0); h = hcomb(h, (u64)(u8)v1); h = hcomb(h, (u64)(int)v2); h = hcomb(h, (u64)v3); h = hcomb(h, (u64)(int)v4); h = hcomb(h, (u64)v5); h = hcomb(h, (u64)(u8)v6); bool ok; ok = p->m20((u8)v0, (u8)v1, (int)v2, w3, (int)v4, v5, (u8)v6) == (i64)h; VH_CHECK(ok && w3 == v3 + 4, "many-methods", "method 20 of 40"); break; }
  case 21: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 v7 = g.range(-120, 120);  u64 h = 21; h = hcomb(h, (u64)(int)v0); h = hcomb(h, (u64)(int)v1); h = hcomb(h, (u64)(u8)v2); h = hcomb(h, (u64)v3); h = hcomb(h, (u64)(u8)v4); h = hcomb(h, (u64)(u8)v5); h = hcomb(h, (u64)(int)v6); h = hcomb(h, (u64)(int)v7); bool ok; ok = p->m21(Tok((int)v0), Tok((int)v1), (u8)v2, v3, (u8)v4, (u8)v5, Tok((int)v6), (int)v7) == (int)h; VH_CHECK(ok, "many-methods", "method 21 of 40"); break; }
  case 22: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 v7 = g.range(-120, 120); i64 v8 = g.range(-120, 120); i64 w7 = v7; u64 h = 22; h = hcomb(h, (u64)(u8)v0); h = hcomb(h, (u64)(u8)v1); h = hcomb(h, (u64)(u8)v2); h = hcomb(h, (u64)v3); h = hcomb(h, (u64)(int)v4); h = hcomb(h, (u64)v5); h = hcomb(h, (u64)(u8)v6); h = hcomb(h, (u64)v7); h = hcomb(h, (u64)v8); bool ok; p->m22((u8)v0, (u8)v1, (u8)v2, v3, (int)v4, v5, (u8)v6, w7, v8); ok = obj.sum == (i64)h; VH_CHECK(ok && w7 == v7 + 8, "many-methods", "method 22 of 40"); break; }
  case 23: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 v7 = g.range(-120, 120); i64 v8 = g.range(-120, 120); i64 v9 = g.range(-120, 120); i64 w4 = v4; u64 h = 23; h = hcomb(h, (u64)(int)v0); h = hcomb(h, (u64)(int)v1); h = hcomb(h, (u64)(int)v2); h = hcomb(h, (u64)(int)v3); h = hcomb(h, (u64)v4); h = hcomb(h, (u64)(int)v5); h = hcomb(h, (u64)v6); h = hcomb(h, (u64)(int)v7); h = hcomb(h, (u64)(u8)v8); h = hcomb(h, (u64)(u8)v9); bool ok; i64& r = p->m23((int)v0, (int)v1, Tok((int)v2), Tok((int)v3), w4, (int)v5, v6, Tok((int)v7), (u8)v8, (u8)v9); ok = r == (i64)h && &r == &obj.sum; VH_CHECK(ok && w4 == v4 + 5, "many-methods", "method 23 of 40"); break; }
  case 24: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 v7 = g.range(-120, 120); i64 v8 = g.range(-120, 120); i64 v9 = g.range(-120, 120); i64 v10 = g.range(-120, 120); i64 w0 = v0; i64 w1 = v1; i64 w5 = v5; u64 h = 24; h = hcomb(h, (u64)v0); h = hcomb(h, (u64)v1); h = hcomb(h, (u64)v2); h = hcomb(h, (u64)(int)v3); h = hcomb(h, (u64)(int)v4); h = hcomb(h, (u64)v5); h = hcomb(h, (u64)(u8)v6); h = hcomb(h, (u64)v7); h = hcomb(h, (u64)v8); h = hcomb(h, (u64)(int)v9); h = hcomb(h, (u64)v10); bool ok; ok = p->m24(w0, w1, v2, (int)v3, (int)v4, w5, (u8)v6, v7, v8, Tok((int)v9), v10) == (i64)h; VH_CHECK(ok && w0 == v0 + 1 && w1 == v1 + 2 && w5 == v5 + 6, "many-methods", "method 24 of 40"); break; }
  case 25: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 v7 = g.range(-120, 120); i64 v8 = g.range(-120, 120); i64 v9 = g.range(-120, 120); i64 v10 = g.range(-120, 120); i64 v11 = g.range(-120, 120); i64 w0 = v0; i64 w3 = v3; i64 w7 = v7; i64 w10 = v10; u64 h = 25; h = hcomb(h, (u64)v0); h = hcomb(h, (u64)(int)v1); h = hcomb(h, (u64)v2); h = hcomb(h, (u64)v3); h = hcomb(h, (u64)(u8)v4); h = hcomb(h, (u64)v5); h = hcomb(h, (u64)(int)v6); h = hcomb(h, (u64)v7); h = hcomb(h, (u64)(u8)v8); h = hcomb(h, (u64)v9); h = hcomb(h, (u64)v10); h = hcomb(h, (u64)(int)v11); bool ok; ok = p->m25(w0, (int)v1, v2, w3, (u8)v4, v5, (int)v6, w7, (u8)v8, v9, w10, Tok((int)v11)) == (int)h; VH_CHECK(ok && w0 == v0 + 1 && w3 == v3 + 4 && w7 == v7 + 8 && w10 == v10 + 11, "many-methods", "method 25 of 40"); break; }
  case 26: {   u64 h = 26;  bool ok; p->m26(); ok = obj.sum == (i64)h; VH_CHECK(ok, "many-methods", "method 26 of 40"); break; }
  case 27: { i64 v0 = g.range(-120, 120);  u64 h = 27; h = hcomb(h, (u64)v0); bool ok; i64& r = p->m27(v0); ok = r == (i64)h && &r == &obj.sum; VH_CHECK(ok, "many-methods", "method 27 of 40"); break; }
  case 28: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 w1 = v1; u64 h = 28; h = hcomb(h, (u64)(int)v0); h = hcomb(h, (u64)v1); bool ok; ok = p->m28(Tok((int)v0), w1) == (i64)h; VH_CHECK(ok && w1 == v1 + 2, "many-methods", "method 28 of 40"); break; }
  case 29: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 w0 = v0; i64 w2 = v2; u64 h = 29; h = hcomb(h, (u64)v0); h = hcomb(h, (u64)(u8)v1); h = hcomb(h, (u64)v2); bool ok; ok = p->m29(w0, (u8)v1, w2) == (int)h; VH_CHECK(ok && w0 == v0 + 1 && w2 == v2 + 3, "many-methods", "method 29 of 40"); break; }
  case 30: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 w2 = v2; i64 w3 = v3; u64 h = 30; h = hcomb(h, (u64)(u8)v0); h = hcomb(h, (u64)(u8)v1); h = hcomb(h, (u64)v2); h = hcomb(h, (u64)v3); bool ok; p->m30((u8)v0, (u8)v1, w2, w3); ok = obj.sum == (i64)h; VH_CHECK(ok && w2 == v2 + 3 && w3 == v3 + 4, "many-methods", "method 30 of 40"); break; }
  case 31: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 w2 = v2; u64 h = 31; h = hcomb(h, (u64)v0); h = hcomb(h, (u64)(int)v1); h = hcomb(h, (u64)v2); h = hcomb(h, (u64)(int)v3); h = hcomb(h, (u64)v4); bool ok; i64& r = p->m31(v0, (int)v1, w2, Tok((int)v3), v4); ok = r == (i64)h && &r == &obj.sum; VH_CHECK(ok && w2 == v2 + 3, "many-methods", "method 31 of 40"); break; }
  case 32: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 w0 = v0; i64 w4 = v4; u64 h = 32; h = hcomb(h, (u64)v0); h = hcomb(h, (u64)(u8)v1); h = hcomb(h, (u64)v2); h = hcomb(h, (u64)(int)v3); h = hcomb(h, (u64)v4); h = hcomb(h, (u64)(u8)v5); bool ok; ok = p->m32(w0, (u8)v1, v2, (int)v3, w4, (u8)v5) == (i64)h; VH_CHECK(ok && w0 == v0 + 1 && w4 == v4 + 5, "many-methods", "method 32 of 40"); break; }
  case 33: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120);  u64 h = 33; h = hcomb(h, (u64)(int)v0); h = hcomb(h, (u64)(int)v1); h = hcomb(h, (u64)(int)v2); h = hcomb(h, (u64)(u8)v3); h = hcomb(h, (u64)(int)v4); h = hcomb(h, (u64)(u8)v5); h = hcomb(h, (u64)(int)v6); bool ok; ok = p->m33(Tok((int)v0), Tok((int)v1), Tok((int)v2), (u8)v3, (int)v4, (u8)v5, Tok((int)v6)) == (int)h; VH_CHECK(ok, "many-methods", "method 33 of 40"); break; }
  case 34: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 v7 = g.range(-120, 120); i64 w5 = v5; u64 h = 34; h = hcomb(h, (u64)(int)v0); h = hcomb(h, (u64)(u8)v1); h = hcomb(h, (u64)(u8)v2); h = hcomb(h, (u64)(int)v3); h = hcomb(h, (u64)(u8)v4); h = hcomb(h, (u64)v5); h = hcomb(h, (u64)(u8)v6); h = hcomb(h, (u64)(u8)v7); bool ok; p->m34((int)v0, (u8)v1, (u8)v2, Tok((int)v3), (u8)v4, w5, (u8)v6, (u8)v7); ok = obj.sum == (i64)h; VH_CHECK(ok && w5 == v5 + 6, "many-methods", "method 34 of 40"); break; }
  case 35: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 v7 = g.range(-120, 120); i64 v8 = g.range(-120, 120); i64 w4 = v4; u64 h = 35; h = hcomb(h, (u64)(u8)v0); h = hcomb(h, (u64)v1); h = hcomb(h, (u64)(int)v2); h = hcomb(h, (u64)(int)v3); h = hcomb(h, (u64)v4); h = hcomb(h, (u64)(int)v5); h = hcomb(h, (u64)(u8)v6); h = hcomb(h, (u64)(u8)v7); h = hcomb(h, (u64)(u8)v8); bool ok; i64& r = p->m35((u8)v0, v1, Tok((int)v2), (int)v3, w4, Tok((int)v5), (u8)v6, (u8)v7, (u8)v8); ok = r == (i64)h && &r == &obj.sum; VH_CHECK(ok && w4 == v4 + 5, "many-methods", "method 35 of 40"); break; }
  case 36: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 v7 = g.range(-120, 120); i64 v8 = g.range(-120, 120); i64 v9 = g.range(-120, 120); i64 w0 = v0; i64 w7 = v7; u64 h = 36; h = hcomb(h, (u64)v0); h = hcomb(h, (u64)(u8)v1); h = hcomb(h, (u64)(int)v2); h = hcomb(h, (u64)(u8)v3); h = hcomb(h, (u64)(u8)v4); h = hcomb(h, (u64)(u8)v5); h = hcomb(h, (u64)(u8)v6); h = hcomb(h, (u64)v7); h = hcomb(h, (u64)(u8)v8); h = hcomb(h, (u64)v9); bool ok; ok = p->m36(w0, (u8)v1, Tok((int)v2), (u8)v3, (u8)v4, (u8)v5, (u8)v6, w7, (u8)v8, v9) == (i64)h; VH_CHECK(ok && w0 == v0 + 1 && w7 == v7 + 8, "many-methods", "method 36 of 40"); break; }
  case 37: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 v7 = g.range(-120, 120); i64 v8 = g.range(-120, 120); i64 v9 = g.range(-120, 120); i64 v10 = g.range(-120, 120); i64 w0 = v0; i64 w9 = v9; u64 h = 37; h = hcomb(h, (u64)v0); h = hcomb(h, (u64)(u8)v1); h = hcomb(h, (u64)(u8)v2); h = hcomb(h, (u64)(int)v3); h = hcomb(h, (u64)v4); h = hcomb(h, (u64)(int)v5); h = hcomb(h, (u64)v6); h = hcomb(h, (u64)v7); h = hcomb(h, (u64)(u8)v8); h = hcomb(h, (u64)v9); h = hcomb(h, (u64)(u8)v10); bool ok; ok = p->m37(w0, (u8)v1, (u8)v2, Tok((int)v3), v4, Tok((int)v5), v6, v7, (u8)v8, w9, (u8)v10) == (int)h; VH_CHECK(ok && w0 == v0 + 1 && w9 == v9 + 10, "many-methods", "method 37 of 40"); break; }
  case 38: { i64 v0 = g.range(-120, 120); i64 v1 = g.range(-120, 120); i64 v2 = g.range(-120, 120); i64 v3 = g.range(-120, 120); i64 v4 = g.range(-120, 120); i64 v5 = g.range(-120, 120); i64 v6 = g.range(-120, 120); i64 v7 = g.range(-120, 120); i64 v8 = g.range(-120, 120); i64 v9 = g.range(-120, 120); i64 v10 = g.range(-120, 120); i64 v11 = g.range(-120, 120); i64 w1 = v1; i64 w6 = v6; u64 h = 38; h = hcomb(h, (u64)(int)v0); h = hcomb(h, (u64)v1); h = hcomb(h, (u64)v2); h = hcomb(h, (u64)(int)v3); h = hcomb(h, (u64)(int)v4); h = hcomb(h, (u64)(int)v5); h = hcomb(h, (u64)v6); h = hcomb(h, (u64)(u8)v7); h = hcomb(h, (u64)(int)v8); h = hcomb(h, (u64)(int)v9); h = hcomb(h, (u64)(u8)v10); h = hcomb(h, (u64)(int)v11); bool ok; p->m38((int)v0, w1, v2, Tok((int)v3), Tok((int)v4), Tok((int)v5), w6, (u8)v7, Tok((int)v8), Tok((int)v9), (u8)v10, (int)v11); ok = obj.sum == (i64)h; VH_CHECK(ok && w1 == v1 + 2 && w6 == v6 + 7, "many-methods", "method 38 of 40"); break; }
  case 39: {   u64 h = 39;  bool ok; i64& r = p->m39(); ok = r == (i64)h && &r == &obj.sum; VH_CHECK(ok, "many-methods", "method 39 of 40"); break; }
} }
