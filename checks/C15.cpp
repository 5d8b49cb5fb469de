// build: VARIANT=asan
// C15: every accelerated memory/string function, called by the guest through its system call
// and through the patched C-library symbols, compared with a byte-level reference that reads
// guest memory one byte at a time.
#include "vp.hpp"
#include "elfgen.hpp"
#include <libloong/machine.hpp>
#include <algorithm>
#include <memory>
using namespace vp; using namespace loongarch; using std::string; typedef uint64_t u64; typedef int64_t i64; typedef std::vector<uint8_t> Bytes;
static constexpr u64 MM = 0x16000, RO = 0x1000, DATA = 0x2000, TOP = 0x3000, MID = 0x8000; // program: [RO,TOP), stack above; MID is inside the last area
enum Fn { MEMCPY, MEMSET, MEMCMP, MEMMOVE, MEMCHR, STRLEN, STRNLEN, STRCMP, STRNCMP, NFN };
static const char* NAME[] = { "memcpy", "memset", "memcmp", "memmove", "memchr", "strlen", "strnlen", "strcmp", "strncmp" };
static const int NR[] = { 508, 509, 510, 511, 507, 500, 501, 502, 503 };
static const std::vector<std::pair<string, int>> SYMS = { { "__memcpy_lsx", 0 }, { "__memcpy_lasx", 0 }, { "__memcpy_aligned", 0 }, { "__memcpy_unaligned", 0 }, { "__memset_lsx", 1 }, { "__memset_lasx", 1 }, { "__memset_aligned", 1 }, { "__memset_unaligned", 1 },
	{ "__memcmp_lsx", 2 }, { "__memcmp_lasx", 2 }, { "__memcmp_aligned", 2 }, { "__memmove_lsx", 3 }, { "__memmove_lasx", 3 }, { "__memmove_aligned", 3 }, { "__memmove_unaligned", 3 }, { "__memchr_lsx", 4 }, { "__memchr_lasx", 4 }, { "__memchr_aligned", 4 },
	{ "__strlen_lsx", 5 }, { "__strlen_lasx", 5 }, { "__strlen_aligned", 5 }, { "__strnlen_lsx", 6 }, { "__strnlen_lasx", 6 }, { "__strnlen_aligned", 6 }, { "__strcmp_lsx", 7 }, { "__strcmp_lasx", 7 }, { "__strcmp_aligned", 7 }, { "__strncmp_lsx", 8 }, { "__strncmp_lasx", 8 }, { "__strncmp_aligned", 8 } };
// RO: syscall 0, stop; RO+0x20: jirl ra,t0,0 (call through t0), stop; RO+0x40+32*i: the function with symbol i, entered at +8: ori a0,zero,0x7ff; ret
static u64 faddr(int i) { return RO + 0x40 + 32 * i + 8; }
static const elfgen::Image& image() { static elfgen::Image im = [] { using namespace elfgen; std::vector<u32> w(0x1000 / 4, 0x00150000); w[0] = 0x002b0000; w[8] = 0x4c000181; std::vector<elfgen::Symbol> sy; for (size_t i = 0; i < SYMS.size(); i++) { int k = (faddr(i) - RO) / 4; w[k - 2] = 0x03400000; w[k - 1] = 0x03400000; w[k] = 0x039ffc04; w[k + 1] = 0x4c000020; sy.push_back({ SYMS[i].first, faddr(i), 8 }); }
	sy.push_back({ "nearby", RO, 4 }); return build({ { RO, R | X, words(w) }, { DATA, R | W, Bytes(0x1000, 0) } }, RO, sy, RO, 0x1000, true); }(); return im; }
struct Ref { bool must = false, may = false; u64 a0 = 0; bool sign = false; int s = 0; u64 wlo = 0, whi = 0; bool any = false; Bytes out; };
static u64 LO, WLO; // lowest readable / writable address of the machine
struct Sys {
	std::unique_ptr<Machine> m; Bytes model; u64 cases = 0; string pre;
	Sys() { auto o = std::make_shared<MachineOptions>(); o->memory_max = MM; o->stack_size = 0x2000; o->brk_size = 0x1000; o->use_shared_execute_segments = false; m = std::make_unique<Machine>(std::string_view((const char*)image().file.data(), image().file.size()), *o); m->set_options(o); m->setup_accelerated_syscalls(); LO = m->memory.rodata_start(); WLO = m->memory.data_start(); model.assign(mem(), mem() + MM); }
	uint8_t* mem() { return (uint8_t*)m->memory.arena_ptr(); }
	void put(u64 a, const uint8_t* p, size_t n) { memcpy(mem() + a, p, n); memcpy(model.data() + a, p, n); }
	bool rd(u64 a, u64 n) const { return a >= LO && a <= MM && n <= MM - a; } bool wr(u64 a, u64 n) const { return a >= WLO && a <= MM && n <= MM - a; }
	int byte(u64 a) const { return a >= LO && a < MM ? model[a] : -1; }
	Ref ref(int f, u64 x, u64 y, u64 n) { Ref r; switch (f) {
		case MEMCPY: case MEMMOVE: r.a0 = x; if (!n) break; r.must = !wr(x, n) || !rd(y, n); r.wlo = x; r.whi = n > ~x ? ~0ull : x + n; if (!r.must) { r.out.assign(&model[y], &model[y] + n); r.any = f == MEMCPY && x != y && x < y + n && y < x + n; } break;
		case MEMSET: r.a0 = x; if (!n) break; r.must = !wr(x, n); r.wlo = x; r.whi = n > ~x ? ~0ull : x + n; if (!r.must) r.out.assign(n, (uint8_t)y); break;
		case MEMCMP: case STRCMP: case STRNCMP: { r.sign = true; if (f == STRCMP) n = ~0ull; for (u64 i = 0; i < n; i++) { int p = byte(x + i), q = byte(y + i); if (p < 0 || q < 0 || x + i < x || y + i < y) { r.must = true; break; } if (p != q) { r.s = p < q ? -1 : 1; if (f == MEMCMP) r.may = !rd(x, n) || !rd(y, n); else r.may = !term(x + i, n - i) || !term(y + i, n - i); break; } if (!p && f != MEMCMP) break; } break; }
		case MEMCHR: r.a0 = 0; for (u64 i = 0; i < n; i++) { int p = byte(x + i); if (p < 0) { r.must = true; break; } if (p == (int)(uint8_t)y) { r.a0 = x + i; break; } } break;
		case STRLEN: n = ~0ull; case STRNLEN: { if (f == STRNLEN) n = y; u64 i = 0; for (; i < n; i++) { int p = byte(x + i); if (p < 0) { r.must = true; break; } if (!p) break; } r.a0 = i; break; } }
		return r; }
	// a string of at most n bytes ends inside memory
	bool term(u64 a, u64 n) const { for (u64 i = 0; i < n; i++) { int p = byte(a + i); if (p < 0) return false; if (!p) return true; } return true; }
	static constexpr u64 REGS = 0x5555000000000000ull;
	// how: -1 the system call, otherwise called through that symbol; mode 0 simulate, 1 inaccurate, 2 a host call, 3 the code before the function runs into it
	void call(Ctx& c, int f, u64 x, u64 y, u64 n, int how = -1, int mode = 0) {
		auto& R = m->cpu.registers(); auto& cpu = m->cpu; cases++; for (int i = 1; i < 32; i++) R.get(i) = REGS + i * 0x0101; R.get(4) = x; R.get(5) = y; R.get(6) = n; R.get(3) = 0x7000; u64 pc = RO; if (how < 0) { R.get(11) = NR[f]; R.get(12) = faddr(0); } else { pc = RO + 0x20; R.get(12) = faddr(how) - (mode == 3 ? 8 : 0); }
		u64 save[32]; for (int i = 0; i < 32; i++) save[i] = R.get(i); Ref r = ref(f, x, y, n); auto who = [&] { return pre + fmt("%s(%#lx,%#lx,%#lx) by %s, mode %d", NAME[f], (long)x, (long)y, (long)n, how < 0 ? "system call" : SYMS[how].first.c_str(), mode); };
		c.transitions(); bool threw = false; int et = -1; string what; R.pc = pc; try { if (mode == 2) { m->memory.set_exit_address(RO + 4); m->vmcall(faddr(how), x, y, n); } else if (mode == 1) cpu.simulate_inaccurate(pc); else if (!m->simulate(1000, 0)) { c.fail("timeout", who() + ": does not stop"); return; } } catch (const MachineException& e) { threw = true; et = e.type(); what = e.what(); }
		string fn = string(NAME[f]) + ":"; if (threw && et != PROTECTION_FAULT) { c.fail(fn + "exception", who() + ": " + what); return; }
		if (threw && !r.must && !r.may) c.fail(fn + "refused", who() + ": faults, but a C function does not (" + what + ")"); if (!threw && r.must) c.fail(fn + "unfaulted", who() + fmt(": returned %#lx although it leaves memory", (long)R.get(4)));
		if (!threw && !r.must) { u64 a0 = R.get(4); if (r.sign) { i64 v = (i64)a0; int s = v < 0 ? -1 : v > 0; if (v != (int)v || s != r.s) c.fail(fn + "result", who() + fmt(": returned %ld, expected sign %d", (long)v, r.s)); } else if (a0 != r.a0) c.fail(fn + "result", who() + fmt(": returned %#lx, expected %#lx", (long)a0, (long)r.a0)); c.nontrivial();
			if (mode != 2) { u64 want = pc + 8; if (R.pc != want) c.fail(fn + "pc", who() + fmt(": continued to pc %#lx instead of %#lx", (long)R.pc, (long)want)); for (int i = 0; i < 32; i++) if (i != 4 && !(i == 1 && how >= 0) && R.get(i) != save[i]) c.fail(fn + "register", who() + fmt(": register %d is %#lx instead of %#lx", i, (long)R.get(i), (long)save[i])); } }
		// memory
		if (!threw && !r.must && r.out.size() && !r.any) memcpy(&model[r.wlo], r.out.data(), r.out.size()); uint8_t* A = mem(); u64 lo = r.wlo, hi = r.whi; bool loose = threw || r.any; if (memcmp(A, model.data(), MM)) for (u64 i = 0; i < MM; i++) if (A[i] != model[i]) { if (!(loose && i >= lo && i < hi && i >= WLO)) { c.fail(fn + "memory", who() + fmt(": byte %#lx is %#x instead of %#x", (long)i, A[i], model[i])); memcpy(A, model.data(), MM); return; } model[i] = A[i]; } }
};
static Sys& sys() { static Sys s; return s; }
static Bytes word(int k, int len, const Bytes& al) { Bytes b(len); for (int i = 0; i < len; i++) { b[i] = al[k % al.size()]; k /= al.size(); } return b; }
static int ipow(int a, int b) { int r = 1; while (b--) r *= a; return r; }
static string hex(const Bytes& b) { string s; for (auto x : b) s += fmt("%02x", x); return s; }
int main(int argc, char** argv) {
	Check chk(argc, argv, "C15"); bool T = chk.thorough(); const u64 BIG = ~0ull; static const Bytes AL{ 0, 'a', 0x80 };
	chk.rule("a case is one function call by the guest (content, alignment, length, overlap, position in memory); it is nontrivial when the C function returns a result");
	chk.assume("where the C standard leaves the result undefined (overlapping memcpy, operands of comparisons that end outside memory after the first difference) only confinement is checked");
	std::vector<u64> places = { MID, MID + 7, 0 }; // 0: the object ends with memory
	chk.section("strings", [&](Ctx& c) { // strlen, strnlen, memchr on every content
		auto& s = sys(); int L = T ? 8 : 6; u64 pl = c.pick(places, "place"); int len = c.choose(L + 1, "len"); bool zero = c.flag("outside bytes"); std::vector<u64> ns; for (int i = 0; i <= len + 2; i++) ns.push_back(i); for (u64 x : std::vector<u64>{ 4096, MM, 1ull << 31, 1ull << 32, (1ull << 32) + 1, 1ull << 63, BIG }) ns.push_back(x);
		Bytes env(40, zero ? 0 : 0x61); u64 base = pl ? pl : MM - len; for (int k = 0, e = ipow(3, len); k < e; k++) { Bytes b = word(k, len, AL); s.put(base - 16, env.data(), std::min<u64>(40, MM - base + 16)); s.put(base, b.data(), len); s.pre = "content " + hex(b) + ": "; c.at("strings %s at %#lx", hex(b).c_str(), (long)base);
			s.call(c, STRLEN, base, 0, 0); for (u64 n : ns) { s.call(c, STRNLEN, base, n, 0); for (u64 ch : std::vector<u64>{ 0, 'a', 0x80, 1, 0xffffffffffffff80ull, 0x161, 0x100 }) s.call(c, MEMCHR, base, ch, n); } } s.pre.clear(); c.state(hash_bytes(&base, 8) + len * 2 + zero); if (c.want_sample()) c.sample(fmt("all contents of %d bytes at %#lx", len, (long)base)); }, { .split_depth = 3, .timeout_s = 300 });
	chk.section("compare", [&](Ctx& c) { // memcmp, strcmp, strncmp on every pair of contents
		auto& s = sys(); int L = T ? 5 : 4; u64 p1 = c.pick(places, "place 1"), p2 = c.pick(places, "place 2"); int l1 = c.choose(L + 1, "len 1"), l2 = c.choose(L + 1, "len 2"); if (p1 == p2 && !p1) c.prune(); u64 b1 = p1 ? p1 : MM - l1, b2 = (p2 ? p2 + (p1 ? 64 : 0) : MM - l2); Bytes env(40, 0x61); std::vector<u64> ns{ 0, 1, 2, 3, 4, 5, 6, 1ull << 32, 1ull << 63, BIG };
		for (int k = 0, e = ipow(3, l1); k < e; k++) for (int j = 0, g = ipow(3, l2); j < g; j++) { Bytes x = word(k, l1, AL), y = word(j, l2, AL); s.put(b1 - 16, env.data(), std::min<u64>(40, MM - b1 + 16)); s.put(b2 - 16, env.data(), std::min<u64>(40, MM - b2 + 16)); s.put(b1, x.data(), l1); s.put(b2, y.data(), l2); if (p1) { uint8_t z = 0; s.put(b1 + l1 + 2, &z, 1); } if (p2) { uint8_t z = 0; s.put(b2 + l2 + 2, &z, 1); } s.pre = "content " + hex(x) + " and " + hex(y) + ": "; c.at("compare %s %s at %#lx %#lx", hex(x).c_str(), hex(y).c_str(), (long)b1, (long)b2);
			s.call(c, STRCMP, b1, b2, 0); for (u64 n : ns) { s.call(c, STRNCMP, b1, b2, n); if (n < 7 || j % 7 == 0) s.call(c, MEMCMP, b1, b2, n); } } s.pre.clear(); c.state(mix(mix(b1, b2), l1 * 8 + l2)); }, { .split_depth = 4, .timeout_s = 300 });
	chk.section("signs", [&](Ctx& c) { // every pair of byte values after a common prefix
		auto& s = sys(); static const std::vector<int> pre{ 0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 65 }; int n = c.pick(pre, "prefix"); Bytes b(n + 2, 0x55); b[n + 1] = 0; int v = c.choose(256, "byte"); b[n] = v; s.put(MID, b.data(), b.size()); for (int w = 0; w < 256; w++) { b[n] = w; s.put(MID + 0x101, b.data(), b.size()); for (int d = 0; d < 2; d++) { u64 x = d ? MID + 0x101 : MID, y = d ? MID : MID + 0x101; s.call(c, MEMCMP, x, y, n + 1); s.call(c, STRCMP, x, y, 0); s.call(c, STRNCMP, x, y, n + 1); s.call(c, STRNCMP, x, y, n); s.call(c, STRNCMP, x, y, BIG); } } c.state(n * 256 + v); }, { .split_depth = 2, .timeout_s = 100 });
	chk.section("copies", [&](Ctx& c) { // every overlap, alignment and length
		auto& s = sys(); int N = T ? 40 : 20; int d = c.choose(N, "dst"), a = c.choose(N, "src"); bool end = c.flag("end"); Bytes b(2 * N + 4); u64 base = end ? MM - 2 * N : MID; for (int n = 0; n <= N + (end ? 2 : 0); n++) { for (int f : { MEMCPY, MEMMOVE }) { for (size_t i = 0; i < b.size(); i++) b[i] = i * 5 + n * 3 + 1; s.put(base, b.data(), std::min<u64>(b.size(), MM - base)); s.call(c, f, base + d, base + a, n); } for (u64 v : std::vector<u64>{ 0, 0x80, 0xffffffffffffff01ull, 0x1234 }) s.call(c, MEMSET, base + d, v, n); } c.state(d * 64 + a + end * 4096); }, { .split_depth = 3, .timeout_s = 100 });
	chk.section("long", [&](Ctx& c) { // lengths around and beyond a page
		auto& s = sys(); static const std::vector<int> lens{ 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 16383, 16384, 16385, 20000 }; int n = c.pick(lens, "length"); int al = c.choose(3, "align"); bool end = c.flag("end"); u64 x = end ? MM - n - 1 : MID + al, y = 0x3000 + 5 * al; if (end && al) c.prune(); Bytes b(n + 1); for (int i = 0; i < n; i++) b[i] = 'a' + i % 23; b[n] = 0; s.put(x, b.data(), n + 1);
		s.call(c, STRLEN, x, 0, 0); for (u64 k : std::vector<u64>{ (u64)n - 1, (u64)n, (u64)n + 1, 4095, 4096, 4097, BIG }) { s.call(c, STRNLEN, x, k, 0); s.call(c, MEMCHR, x, 0, k); s.call(c, MEMCHR, x, 1, k); }
		std::vector<int> at{ -1, 0, 1, n / 2, 4094, 4095, 4096, 4097, 8192, n - 2, n - 1, n }; for (int p : at) { if (p > n) continue; for (int v = -1; v <= 1; v++) { Bytes q = b; if (p >= 0) q[p] += v; if (p == n && v < 0) continue; q.push_back(0); s.put(y, q.data(), q.size()); for (int d = 0; d < 2; d++) { u64 g = d ? y : x, h = d ? x : y; s.call(c, STRCMP, g, h, 0); for (u64 k : std::vector<u64>{ (u64)std::max(p, 0), (u64)std::max(p, 0) + 1, (u64)n, (u64)n + 1, 4096, 4097 }) { s.call(c, STRNCMP, g, h, k); s.call(c, MEMCMP, g, h, k); } } } }
		s.call(c, MEMCPY, y, x, n); s.call(c, MEMMOVE, y + 1, y, n); s.call(c, MEMMOVE, y, y + 1, n); s.call(c, MEMSET, y, 7, n); c.state(n * 8 + al * 2 + end); }, { .split_depth = 3, .timeout_s = 200 });
	chk.section("edges", [&](Ctx& c) { // all combinations of boundary addresses and lengths
		auto& s = sys(); std::vector<u64> ad{ 0, 1, LO - 1, LO, LO + 1, WLO - 1, WLO, WLO + 1, MID, MM - 65, MM - 9, MM - 8, MM - 1, MM, MM + 1, MM + 63, MM + 64, MM + 4096, 1ull << 31, 1ull << 32, (1ull << 32) + MID, 1ull << 63, (1ull << 63) + MID, BIG - MM, BIG - 8, BIG }; auto ns = std::vector<u64>{ 0, 1, 2, 8, 9, 64, 65, MM - MID, MM - MID + 1, MM - MID + 64, MM - LO, MM - LO + 1, MM - WLO, MM - WLO + 1, MM, 1ull << 31, 1ull << 32, 1ull << 63, BIG - MID, BIG - MID + 1, BIG - 1, BIG };
		u64 x = c.pick(ad, "first"), y = c.pick(ad, "second"); static Bytes img; if (img.empty()) { img.assign(MM, 'q'); memcpy(img.data(), s.model.data(), DATA); for (u64 i = DATA; i < MM; i++) img[i] = i % 251 ? 'q' : i % 7 ? 'q' : 0x90; } c.at("edges %#lx %#lx", (long)x, (long)y);
		for (int term = 0; term < 2; term++) for (int f = 0; f < NFN; f++) for (u64 n : ns) { if (f == STRLEN || f == STRCMP) { if (n) continue; } u64 a2 = f == STRNLEN ? n : y; if (f == STRNLEN && y != ad[0]) continue; s.put(DATA, img.data() + DATA, MM - DATA); if (term) { uint8_t z = 0; s.put(MM - 1, &z, 1); s.put(WLO + 16, &z, 1); } s.call(c, f, x, a2, n); if (f == MEMCHR || f == MEMSET) { s.call(c, f, x, 0, n); s.call(c, f, x, 'q', n); } } c.state(mix(x, y)); }, { .split_depth = 2, .timeout_s = 300 });
	chk.section("patched", [&](Ctx& c) { // the C library's entry points
		auto& s = sys(); int k = c.choose(SYMS.size(), "symbol"), mode = c.choose(4, "mode"); int f = SYMS[k].second; static const char txt[] = "hello world\0helloworld\0\0\xff\x80z"; auto fresh = [&] { s.put(MID, (const uint8_t*)txt, sizeof txt); Bytes z(64, 0x33); s.put(MM - 64, z.data(), 64); }; for (u64 x : std::vector<u64>{ MID, MID + 12, MM - 16, MM, 0, LO }) for (u64 y : std::vector<u64>{ MID, MID + 3, MID + 12, 'o', 5, BIG, 0 }) for (u64 n : std::vector<u64>{ 0, 1, 5, 6, 16, 17, BIG }) { fresh(); s.call(c, f, x, y, n, k, mode); } c.state(k * 4 + mode); if (c.want_sample()) c.sample(SYMS[k].first + fmt(" mode %d", mode)); }, { .split_depth = 2, .timeout_s = 100 });
	chk.section("symbols", [&](Ctx& c) { // symbols that are not code: refused or ignored, nothing else changes
		int k = c.choose(SYMS.size(), "symbol"); static const std::vector<u64> at{ 1, 2, 4, RO - 4, RO, RO + 0x40, TOP - 4, TOP, DATA, DATA + 8, MM - 4, MM, 1ull << 32, BIG - 3, BIG }; u64 a = c.pick(at, "address"); using namespace elfgen; std::vector<u32> w(0x1000 / 4, 0x00150000); w[0] = 0x002b0000; w[8] = 0x4c000181; auto im = build({ { RO, R | X, words(w) }, { DATA, R | W, Bytes(0x1000, 0) } }, RO, std::vector<elfgen::Symbol>{ elfgen::Symbol{ SYMS[k].first, a, 8 } }, RO, 0x1000, true); c.at("%s at %#lx", SYMS[k].first.c_str(), (long)a);
		auto o = std::make_shared<MachineOptions>(); o->memory_max = MM; o->stack_size = 0x2000; o->brk_size = 0x1000; o->use_shared_execute_segments = false; std::unique_ptr<Machine> m; c.transitions(); try { m = std::make_unique<Machine>(std::string_view((const char*)im.file.data(), im.file.size()), *o); } catch (const MachineException&) { return; } m->set_options(o); Bytes before(m->memory.arena_ptr(), m->memory.arena_ptr() + MM); bool threw = false; try { m->setup_accelerated_syscalls(); } catch (const MachineException&) { threw = true; }
		if (threw && a >= RO && a < TOP - 0x1000 && a % 4 == 0) c.fail("symbols:refused", fmt("%s at %#lx was refused", SYMS[k].first.c_str(), (long)a)); if (memcmp(before.data(), m->memory.arena_ptr(), MM)) c.fail("symbols:memory", "guest memory changed"); auto& R = m->cpu.registers(); for (int v = 0; v < 2; v++) { u64 pc = v ? RO + 0x80 : RO + 8; R.pc = pc; R.get(4) = 77; try { m->simulate(100, 0); } catch (const MachineException& e) { c.fail("symbols:code", fmt("%s at %#lx: other code fails: %s", SYMS[k].first.c_str(), (long)a, e.what())); } if (R.pc != pc + 4) c.fail("symbols:code", fmt("%s at %#lx: other code went to %#lx", SYMS[k].first.c_str(), (long)a, (long)R.pc)); } c.nontrivial(); c.state(k * 16 + a); }, { .split_depth = 2 });
	return chk.finish();
}
