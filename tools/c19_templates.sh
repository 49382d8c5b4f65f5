#!/bin/bash
# Regenerates harness/c19_templates.inc from the generator in harness/c19.cc (fixed seeds).
set -e
cd "$(dirname "$0")/.."
T=$(mktemp -d)
cat > $T/g.cc <<'G'
#define PART_A
#include "c19.cc"
#include <cstdio>
int main() { struct P { const char* n; int args; u64 base; int count; } ps[] = {{"B", 2, 1000, 160}, {"C", 2, 2000, 160}, {"D", 3, 20000, 160}, {"E", 3, 30000, 160}, {"F", 3, 40000, 160}, {"G", 3, 50000, 160}, {"H", 2, 60000, 160}, {"I", 2, 70000, 160}};
 printf("// Generated by tools/c19_templates.sh; offered to the compiler by c19.cc.\n");
 for (auto& p : ps) { printf("#ifdef SET_%s\n", p.n); for (int i = 0; i < p.count; i++) { auto s = make(p.base + i, p.args, 1 + (int)(mix(p.base + i) % 5)); printf("OFFER(\""); for (size_t k = 0; k < s.n; k++) { u8 ch = s.c[k]; if (ch == '"' || ch == '\\') printf("\\%c", ch); else if (ch == '?') printf("\\?"); else if (ch < 32 || ch >= 127) printf("\\%03o", ch); else putchar(ch); } printf("\");\n"); } printf("#endif\n"); } }
namespace vh { Reg::Reg(const char*, u64, u64, Fn) {} void Ctx::event(const char*, u64) {} void Ctx::state(u64) {} void Ctx::eval(u64) {} void Ctx::sample(const std::string&) {} void fail(Ctx&, const char*, const char*, int, const char*, ...) {} std::string show(const std::string& s) { return s; } std::string fmt(const char*, ...) { return ""; } }
G
clang++-18 -std=c++20 -stdlib=libc++ -w -iquote "${VERIF_REPO:-/repo}" -iquote harness $T/g.cc ${VERIF_REPO:-/repo}/best/{text/format.cc,log/internal/crash.cc,memory/allocator.cc,iter/bounds.cc} -o $T/g
$T/g > harness/c19_templates.inc
/bin/rm -r "$T"
