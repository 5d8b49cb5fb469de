// build: VARIANT=plain EXTRAOBJ=$(CRCOBJ) PRE=$(O)/crc_guest.elf
// C28: CRC-32C.  Reference: the bitwise definition.  The library's crc32c() as built for
// this host, with SSE4.2 reported absent, without an architecture branch, with the ARM
// branch over stand-in intrinsics, and cross-compiled for LoongArch and run by the
// reference model of the instruction set, must all equal it on every enumerated (content, length, alignment, seed).
#include "vp.hpp"
#include "ref_isa.hpp"
#include <elf.h>
#include <libloong/util/crc32.hpp>
#include <fstream>
#include <memory>
#include <sys/mman.h>
using namespace vp; using std::string; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;
#define V(n) u32 crc_seed_##n(u32, const void*, size_t); u32 crc_plain_##n(const void*, size_t);
V(nosse) V(noarch) V(arm)
u32 crc_table_noarch(u32, const void*, size_t); u32 crc_ieee_noarch(const void*, size_t);

static u32 ref_crc(u32 c, const uint8_t* p, size_t n, u32 poly = 0x82F63B78) { for (size_t i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (c & 1 ? poly : 0); } return c; }
// n zero bytes after state c (matrix power)
static u32 zeros(u32 c, u64 n) {
	u32 m[32]; for (int i = 0; i < 32; i++) { u32 x = 1u << i; uint8_t z = 0; m[i] = ref_crc(x, &z, 1); }
	auto ap = [](const u32* m, u32 v) { u32 r = 0; for (int i = 0; i < 32; i++) if (v >> i & 1) r ^= m[i]; return r; };
	for (; n; n >>= 1) { if (n & 1) c = ap(m, c); u32 q[32]; for (int i = 0; i < 32; i++) q[i] = ap(m, m[i]); memcpy(m, q, sizeof q); }
	return c;
}
// the cross-compiled functions, executed by the reference model of the instruction set
struct Guest : ref::Mem {
	std::vector<uint8_t> mem = std::vector<uint8_t>(1 << 20); u64 seedf = 0, plainf = 0; static constexpr u64 BUF = 0x80000, END = 0xF0000;
	Guest() {
		char exe[512]; ssize_t n = readlink("/proc/self/exe", exe, 511); exe[n] = 0; string d(exe); d = d.substr(0, d.rfind('/'));
		std::ifstream f(d + "/crc_guest.elf", std::ios::binary); std::vector<char> bin(std::istreambuf_iterator<char>(f), {}); auto* eh = (Elf64_Ehdr*)bin.data(); auto* ph = (Elf64_Phdr*)(bin.data() + eh->e_phoff); auto* sh = (Elf64_Shdr*)(bin.data() + eh->e_shoff);
		for (int i = 0; i < eh->e_phnum; i++) if (ph[i].p_type == PT_LOAD) memcpy(mem.data() + ph[i].p_vaddr, bin.data() + ph[i].p_offset, ph[i].p_filesz);
		for (int i = 0; i < eh->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) { auto* st = (Elf64_Sym*)(bin.data() + sh[i].sh_offset); const char* nm = bin.data() + sh[sh[i].sh_link].sh_offset; for (size_t k = 0; k < sh[i].sh_size / sizeof *st; k++) { if (!strcmp(nm + st[k].st_name, "crc_seed")) seedf = st[k].st_value; if (!strcmp(nm + st[k].st_name, "crc_plain")) plainf = st[k].st_value; } }
		if (!seedf || !plainf) abort();
	}
	void load(u64 a, void* p, unsigned n) override { if (a + n > mem.size()) throw ref::Fault{a}; memcpy(p, mem.data() + a, n); }
	void store(u64 a, const void* p, unsigned n) override { if (a + n > mem.size()) throw ref::Fault{a}; memcpy(mem.data() + a, p, n); }
	u32 run(bool plain, u32 c, const void* p, size_t n, size_t align) {
		ref::State s{}; s.pc = plain ? plainf : seedf; s.r[1] = END; s.r[3] = 0x70000; u64 a = BUF + 64 + align; memcpy(mem.data() + a, p, n);
		if (plain) { s.r[4] = a; s.r[5] = n; } else { s.r[4] = (i64)(int)c; s.r[5] = a; s.r[6] = n; }
		for (int steps = 0; s.pc != END; steps++) { u32 w; load(s.pc, &w, 4); auto r = ref::exec(s, w, *this); if (r != ref::OK || steps > 10000000) { fprintf(stderr, "guest stopped at %#lx: word %08x result %d\n", (long)s.pc, w, r); abort(); } }
		return (u32)s.r[4];
	}
};
enum { NATIVE, NOSSE, NOARCH, ARM, LOONG, TABLE, NIMPL };
static const char* names[] = { "this host", "x86 without SSE4.2", "portable", "ARM branch", "LoongArch branch", "crc32_sw template" };
static u32 seedcrc(int k, u32 c, const uint8_t* p, size_t n) {
	static std::unique_ptr<Guest> g; using namespace loongarch::util;
	switch (k) { case NATIVE: return crc32c(c, p, n); case NOSSE: return crc_seed_nosse(c, p, n); case NOARCH: return crc_seed_noarch(c, p, n); case ARM: return crc_seed_arm(c, p, n); case TABLE: return crc_table_noarch(c, p, n);
	default: if (!g) g = std::make_unique<Guest>(); return g->run(false, c, p, n, (uintptr_t)p & 15); }
}
static u32 plaincrc(int k, const uint8_t* p, size_t n) {
	static std::unique_ptr<Guest> g; using namespace loongarch::util;
	switch (k) { case NATIVE: return crc32c(p, n); case NOSSE: return crc_plain_nosse(p, n); case NOARCH: return crc_plain_noarch(p, n); case ARM: return crc_plain_arm(p, n); case TABLE: return ~crc_table_noarch(~0u, p, n);
	default: if (!g) g = std::make_unique<Guest>(); return g->run(true, 0, p, n, (uintptr_t)p & 15); }
}
// data that ends (front=false: begins) at an inaccessible page
struct Edge { uint8_t* lo; static constexpr size_t N = 8192; Edge() { lo = (uint8_t*)mmap(0, N + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + 4096; mprotect(lo, N, PROT_READ | PROT_WRITE); } };

int main(int argc, char** argv) {
	Check chk(argc, argv, "C28");
	chk.rule("crc32c() in six builds of the same source compared with the bitwise definition on every enumerated (content, length, alignment, seed)");
	chk.assume("the ARM intrinsics are replaced by bitwise stand-ins; the LoongArch branch is cross-compiled by GCC and run by the reference model of the instruction set (the interpreter does not implement the CRC instructions)");
	static const std::vector<u32> seeds{ 0, 0xFFFFFFFF, 1, 0x80000000, 0x12345678, 0xFFFF0000, 0x7FFFFFFF };
	auto bad = [](Ctx& c, int k, const char* what, u32 got, u32 want, size_t n, size_t al, u32 seed) { c.fail(fmt("%s:%s", what, names[k]), fmt("%s: %s of %zu bytes at alignment %zu, seed %#x: %#x, CRC-32C is %#x", names[k], what, n, al, seed, got, want)); };
	// every content of up to two (thorough: three on the fast builds) bytes
	chk.section("contents", [&](Ctx& c) {
		int k = c.choose(NIMPL, "build"); size_t al = c.choose(16, "alignment"); int n = c.choose(chk.thorough() && k != LOONG ? 4 : 3, "length"); c.crash_key(string("crash:") + names[k]); static Edge e;
		if (k == LOONG && n == 2 && al % 5 && !chk.thorough()) c.prune();
		for (u64 v = 0; v < 1ull << (8 * n); v++) { uint8_t* p = e.lo + 4096 + al; memcpy(p, &v, n); if (k == LOONG && n == 2 && !chk.thorough() && v % 7) continue;
			for (u32 s : seeds) { if (n == 3 && s != ~0u) continue; u32 g = seedcrc(k, s, p, n), w = ref_crc(s, p, n); c.transitions(); if (g != w) { bad(c, k, "seeded checksum", g, w, n, al, s); return; } if (k == LOONG) break; }
			u32 g = plaincrc(k, p, n), w = ~ref_crc(~0u, p, n); c.transitions(); if (g != w) { bad(c, k, "checksum", g, w, n, al, ~0u); return; } }
		c.state(mix(k * 16 + al, n)); c.traces(); c.nontrivial();
	}, { .split_depth = 3, .timeout_s = 300 });
	// every length x alignment x every single-bit content: with linearity, all contents
	chk.section("lengths", [&](Ctx& c) {
		int k = c.choose(NIMPL, "build"); size_t n = c.choose(k == LOONG ? (chk.thorough() ? 66 : 34) : chk.thorough() ? 520 : 140, "length"); int al0 = c.choose(4, "alignment"); c.crash_key(string("crash:") + names[k]); static Edge e;
		for (size_t al = al0; al < 16; al += 4) for (int edge = 0; edge < 2; edge++) { uint8_t* p = edge ? e.lo + Edge::N - n - (16 - al) % 16 * 0 : e.lo + 1024 + al; if (edge) { if (al >= 1) continue; }
			for (size_t b = 0; b <= n * 8 + 2; b++) { memset(p, b == n * 8 + 1 ? 0xff : b == n * 8 + 2 ? 0xa5 : 0, n); if (b < n * 8) p[b / 8] = 1 << (b & 7); if (k == LOONG && b % 8 && b % 3 && !chk.thorough() && b < n * 8) continue;
				for (u32 s : { 0u, ~0u, 0x5aa51234u }) { u32 g = seedcrc(k, s, p, n), w = ref_crc(s, p, n); c.transitions(); if (g != w) { bad(c, k, "seeded checksum", g, w, n, al, s); return; } if (k == LOONG) break; }
				u32 g = plaincrc(k, p, n), w = ~ref_crc(~0u, p, n); c.transitions(); if (g != w) { bad(c, k, "checksum", g, w, n, al, ~0u); return; } } }
		c.state(mix(k, n)); c.traces(); c.nontrivial();
	}, { .split_depth = 3, .timeout_s = 300 });
	// every single-bit seed, and every way of splitting a buffer into two or three calls
	chk.section("seeds", [&](Ctx& c) {
		int k = c.choose(NIMPL, "build"); c.crash_key(string("crash:") + names[k]); static Edge e; uint8_t* p = e.lo + 512; size_t N = k == LOONG ? 24 : 48; for (size_t i = 0; i < N; i++) p[i] = i * 73 + 19;
		for (int b = 0; b < 32; b++) for (size_t n = 0; n <= N; n++) for (size_t al = 0; al < 8 && al + n <= N; al++) { u32 s = 1u << b; u32 g = seedcrc(k, s, p + al, n), w = ref_crc(s, p + al, n); c.transitions(); if (g != w) { bad(c, k, "seeded checksum", g, w, n, al, s); return; } }
		for (size_t al = 0; al < 8; al++) for (size_t i = al; i <= N; i++) for (size_t j = i; j <= N; j++) { u32 g = seedcrc(k, seedcrc(k, seedcrc(k, ~0u, p + al, i - al), p + i, j - i), p + j, N - j), w = ref_crc(~0u, p + al, N - al); c.transitions(); if (g != w) { bad(c, k, "checksum in three parts", g, w, N - al, al, ~0u); return; } }
		c.state(k); c.traces();
	}, { .split_depth = 1, .timeout_s = 200 });
	// long buffers around every power of two (thorough: beyond 4 GiB)
	chk.section("long", [&](Ctx& c) {
		int k = c.choose(NIMPL, "build"); int lg = 8 + c.choose(chk.thorough() ? 25 : 15, "log2"); int d = c.choose(5, "delta") - 2; if (k == LOONG && lg > 14) c.prune(); c.crash_key(string("crash:") + names[k]); if (lg > 24 && (k == ARM || d % 2)) c.prune();
		size_t n = (1ull << lg) + d, map = n + 4096 + 64; auto* m = (uint8_t*)mmap(0, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		for (size_t al : { 0, 3, 8 }) { uint8_t* p = m + al; memset(p, 0x5c, 40); memset(p + n - 30, 0xc3, 30); p[n / 2] = 0x81;
			u32 w = ref_crc(~0u, p, 40); w = zeros(w, n / 2 - 40); w = ref_crc(w, p + n / 2, 1); w = zeros(w, n - 30 - n / 2 - 1); w = ~ref_crc(w, p + n - 30, 30);
			u32 g = plaincrc(k, p, n); c.transitions(); if (g != w) { bad(c, k, "checksum", g, w, n, al, ~0u); break; } memset(p, 0, 40); memset(p + n - 30, 0, 30); p[n / 2] = 0; if (lg > 24) break; }
		munmap(m, map); c.state(mix(k, n)); c.traces();
	}, { .split_depth = 2, .timeout_s = 300 });
	// the generic template (zlib polynomial) and compile-time evaluation
	chk.section("template", [&](Ctx& c) {
		int n = c.choose(3, "length"); static Edge e; uint8_t* p = e.lo + Edge::N - n;
		for (u32 v = 0; v < 1u << (8 * n); v++) { memcpy(p, &v, n); u32 g = crc_ieee_noarch(p, n), w = ~ref_crc(~0u, p, n, 0xEDB88320), g2 = loongarch::util::crc32<>(p, n), g3 = loongarch::util::crc32<0x82F63B78>(p, n); c.transitions(3); if (g != w || g2 != w) { c.fail("template", fmt("crc32<> of %d bytes %#x: %#x instead of %#x", n, v, g, w)); return; } w = ~ref_crc(~0u, p, n); if (g3 != w) { c.fail("template-c", fmt("crc32<CRC-32C> of %d bytes %#x: %#x instead of %#x", n, v, g3, w)); return; } }
		static constexpr auto t = loongarch::util::gen_crc32_table<0x82F63B78>(), t2 = loongarch::util::gen_crc32_table<0xEDB88320>();
		for (int i = 0; i < 256; i++) { uint8_t b = i; if (t[i] != ref_crc(0, &b, 1) || t2[i] != ref_crc(0, &b, 1, 0xEDB88320)) { c.fail("table", fmt("table entry %d", i)); return; } }
		// the checksum code is identified by: equal bytes at different alignments
		c.state(n); c.traces();
	}, { .split_depth = 1 });
	return chk.finish();
}
