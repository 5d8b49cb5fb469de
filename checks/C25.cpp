// build: VARIANT=asan
// C25: the initial process stack.  Every list of arguments and environment strings (lengths
// around the alignment boundaries) and every stack size up to what is needed; the stack is
// read back the way a C library does.
#include "vp.hpp"
#include "elfgen.hpp"
#include <libloong/machine.hpp>
#include <algorithm>
using namespace vp; using namespace loongarch; using std::string; typedef uint64_t u64; typedef std::vector<string> Strs;
static constexpr u64 MM = 0x40000, PG = 4096, DATAEND = 0x13000;
// the ELF header and program headers are part of the first segment in image 0
static const elfgen::Image& image(int k) { static std::vector<elfgen::Image> v = [] { using namespace elfgen; std::vector<elfgen::Image> v; std::vector<uint8_t> text = words({ 0x00150000, 0x00150000, 0x00150000, 0x00150000 });
	auto im = build({ { 0x10000, R | X, text }, { 0x12000, R | W, std::vector<uint8_t>(0x100, 7), 0xf00 } }, 0x10000); v.push_back(im);
	auto im2 = build({ { 0x10000, R | X, text }, { 0x12000, R | W, std::vector<uint8_t>(0x100, 7), 0xf00 } }, 0x10000); auto* p = im2.phdr(0); p->offset = 0; p->filesz = p->memsz = im2.segoff[0] + 16; p->vaddr = p->paddr = 0x10000; im2.ehdr()->entry = 0x10000 + im2.segoff[0]; v.push_back(im2);
	auto im3 = im2; im3.phdr(0)->vaddr = 0x11040; im3.phdr(0)->offset = 0x40; im3.phdr(0)->filesz = im3.phdr(0)->memsz = im3.segoff[0] + 16 - 0x40; im3.ehdr()->entry = 0x11000 + im3.segoff[0]; v.push_back(im3); return v; }(); return v[k]; }
static string str(int len, int seed) { string s; for (int i = 0; i < len; i++) { int ch = (seed * 37 + i * 11 + 1) & 255; s.push_back(ch ? ch : 'x'); } return s; }
static string show(const Strs& a, const Strs& e) { string s = "arguments"; for (auto& x : a) s += fmt(" %zu", x.size()); s += ", environment"; for (auto& x : e) s += fmt(" %zu", x.size()); return s + " (lengths)"; }
struct Cfg { int img = 1; u64 stack = 0x2000; u64 brk = 0x1000; int host_sp = 0; bool twice = false; };
static bool run(Ctx& c, const Strs& a, const Strs& e, Cfg g) {
	string who = fmt("image %d, stack of %#lx%s%s, ", g.img, (long)g.stack, g.host_sp ? fmt(", sp moved by %d", g.host_sp).c_str() : "", g.twice ? ", second call" : "") + show(a, e); c.at("%s", who.c_str()); c.transitions(); auto& im = image(g.img);
	auto o = std::make_shared<MachineOptions>(); o->memory_max = MM; o->brk_size = g.brk; o->stack_size = g.stack; o->use_shared_execute_segments = false; Machine m(im.file, *o); m.set_options(o); uint8_t* A = (uint8_t*)m.memory.arena_ptr(); u64 top = m.memory.stack_address(), bottom = top - g.stack; if (g.twice) try { m.setup_linux({ "first" }, {}); } catch (const MachineException&) { return false; } m.cpu.reg(REG_SP) -= g.host_sp; u64 sp0 = m.cpu.reg(REG_SP);
	for (u64 i = DATAEND; i < MM; i++) A[i] = i * 13 + (i >> 8); static std::vector<uint8_t> before; before.assign(A, A + MM); bool threw = false; string what; try { m.setup_linux(a, e); } catch (const MachineException& x) { threw = true; what = x.what(); }
	u64 sp = m.cpu.reg(REG_SP); u64 lo = bottom, hi = sp0; for (u64 i = 0; i < MM; i++) if (A[i] != before[i] && (i < lo || i >= hi)) { c.fail("outside", who + fmt(": memory at %#lx was changed, the stack is [%#lx,%#lx)%s", (long)i, (long)lo, (long)hi, threw ? " (an exception was raised)" : "")); return false; }
	u64 need = 0; for (auto& s : a) need += s.size() + 1; for (auto& s : e) need += s.size() + 1; need += (a.size() + e.size() + 3) * 8 + 64 + 14 * 16;
	if (threw) { if (need + 16 <= sp0 - bottom) c.fail("refused", who + ": refused although it fits: " + what); return false; }
	auto bad = [&](const char* k, const string& t) { c.fail(k, who + fmt(" (sp=%#lx): ", (long)sp) + t); return false; }; if (sp % 16) return bad("alignment", "sp is not aligned to 16 bytes"); if (sp < bottom || sp > sp0) return bad("outside", "sp is outside the stack");
	std::vector<std::pair<u64, u64>> used; u64 p = sp; bool oob = false; auto w = [&]() -> u64 { if (p + 8 > sp0) { oob = true; return 0; } u64 v; memcpy(&v, A + p, 8); p += 8; return v; };
	u64 argc = w(); if (argc != a.size()) return bad("argc", fmt("argc is %ld", (long)argc)); auto strings = [&](const Strs& l, const char* nm) { for (size_t i = 0; i < l.size(); i++) { u64 q = w(); if (q < sp || q >= sp0 || q + l[i].size() + 1 > sp0) return bad(nm, fmt("%s[%zu] points to %#lx, outside the stack", nm, i, (long)q)); if (memcmp(A + q, l[i].c_str(), l[i].size() + 1)) return bad(nm, fmt("%s[%zu] reads back differently", nm, i)); used.push_back({ q, q + l[i].size() + 1 }); } if (u64 t = w()) return bad(nm, fmt("%s is not terminated (%#lx)", nm, (long)t)); return true; };
	if (!strings(a, "argv") || !strings(e, "envp")) return false; std::map<u64, u64> aux; for (int i = 0;; i++) { u64 k = w(), v = w(); if (oob || i > 64) return bad("auxv", "the auxiliary vector has no end"); if (!k) break; if (aux.count(k)) return bad("auxv", fmt("entry %ld is repeated", (long)k)); aux[k] = v; } used.push_back({ sp, p });
	elfgen::Ehdr h; memcpy(&h, im.file.data(), 64); u64 ph = g.img == 0 ? 0 : g.img == 1 ? 0x10040 : 0x11040; std::vector<std::pair<u64, u64>> want{ { 4, 56 }, { 5, h.phnum }, { 6, 4096 }, { 9, h.entry }, { 7, 0 } }; if (ph) want.push_back({ 3, ph }); for (auto& x : want) if ((!aux.count(x.first) && x.first != 7) || aux[x.first] != x.second) return bad("auxv", fmt("entry %ld is %#lx instead of %#lx", (long)x.first, (long)(aux.count(x.first) ? aux[x.first] : -1), (long)x.second));
	if (g.img == 0 && aux.count(3) && aux[3]) return bad("auxv", fmt("AT_PHDR is %#lx although the headers are not in memory", (long)aux[3])); if (g.img && memcmp(A + aux[3], im.file.data() + 64, 56 * h.phnum)) return bad("auxv", "AT_PHDR does not point to the program headers");
	for (u64 k : { 11, 12, 13, 14 }) if (!aux.count(k)) return bad("auxv", fmt("entry %ld is missing", (long)k)); if (aux[11] != aux[12] || aux[13] != aux[14]) return bad("auxv", "real and effective ids differ"); if (!aux.count(25) || aux[25] < sp || aux[25] + 16 > sp0) return bad("auxv", "AT_RANDOM is not on the stack"); used.push_back({ aux[25], aux[25] + 16 });
	std::sort(used.begin(), used.end()); for (size_t i = 1; i < used.size(); i++) if (used[i].first < used[i - 1].second) return bad("overlap", fmt("[%#lx,%#lx) and [%#lx,%#lx) overlap", (long)used[i - 1].first, (long)used[i - 1].second, (long)used[i].first, (long)used[i].second));
	for (u64 i = 0; i < MM; i++) if (A[i] != before[i] && i < sp) return bad("below", fmt("memory at %#lx, below sp, was changed", (long)i));
	c.nontrivial(); c.state(mix(sp0 - sp, a.size() * 100 + e.size())); if (c.want_sample()) c.sample(who + fmt(": sp=%#lx", (long)sp)); return true;
}
int main(int argc, char** argv) {
	Check chk(argc, argv, "C25"); bool T = chk.thorough();
	chk.rule("every list of 1-4 arguments and 0-3 environment strings with lengths around the alignment boundaries, and every stack size from nothing to more than is needed, on programs with and without mapped program headers; the stack is read back as a C library does and all other memory compared");
	chk.assume("arguments contain no NUL bytes"); chk.assume("additional auxiliary vector entries are allowed");
	chk.section("layout", [T](Ctx& c) { static const std::vector<int> L = T ? std::vector<int>{ 0, 1, 2, 6, 7, 8, 9, 14, 15, 16, 17, 31 } : std::vector<int>{ 0, 1, 7, 8, 15, 22 }; int na = 1 + c.choose(4, "arguments"), ne = c.choose(4, "environment"); Cfg g; g.img = c.choose(na + ne < 4 ? 3 : 1, "image") + (na + ne < 4 ? 0 : 1); Strs a, e; for (int i = 0; i < na; i++) a.push_back(str(i > 1 && ne > 1 ? L[(i * 5 + ne) % L.size()] : c.pick(L, "length"), i)); for (int i = 0; i < ne; i++) e.push_back(str(i > 1 ? L[(i + na) % L.size()] : c.pick(L, "length"), i + 9)); run(c, a, e, g); c.traces(); }, { .split_depth = 4 });
	chk.section("counts", [](Ctx& c) { int na = 1 + c.choose(24, "arguments"), ne = c.choose(24, "environment"); for (int len : { 0, 5, 20 }) for (int d : { 0, 1, 7, 8, 15, 16, 24 }) { Strs a, e; for (int i = 0; i < na; i++) a.push_back(str((len + i * d) % 33, i)); for (int i = 0; i < ne; i++) e.push_back(str((len + i * 3) % 40, i + 50)); Cfg g; g.stack += d; run(c, a, e, g); } c.traces(); }, { .split_depth = 2 });
	chk.section("stack size", [T](Ctx& c) { static const std::vector<std::pair<Strs, Strs>> V{ { { "a" }, {} }, { { "prog", "x" }, { "A=1" } }, { { str(200, 1), "" }, { str(30, 2), str(31, 3), "" } }, { { "", "", "" }, {} }, { { str(1000, 4) }, { str(500, 5) } } }; auto& v = c.pick(V, "strings"); int part = c.choose(64, "part"); u64 brk = c.flag("no break area") ? 0 : 0x1000; u64 max = 0; for (auto& s : v.first) max += s.size() + 9; for (auto& s : v.second) max += s.size() + 9; max += 400; for (u64 st = part; st < max; st += 64) { Cfg g; g.stack = st; g.brk = brk; run(c, v.first, v.second, g); if (T) { g.host_sp = 24; if (st >= 24) run(c, v.first, v.second, g); } } c.traces(); }, { .split_depth = 3 });
	chk.section("huge", [](Ctx& c) { static const std::vector<size_t> N{ 0x1eff, 0x1f00, 0x1f80, 0x2000, 0x2fff, 0x3000, 0x12000, 0x13000, 0x14000, 0x15000, 0x16000, MM, 2 * MM, 1 << 22 }; size_t n = c.pick(N, "bytes"); int how = c.choose(5, "shape"); Strs a{ "p" }, e; switch (how) { case 0: a.push_back(string(n, 'a')); break; case 1: e.push_back(string(n, 'e')); break; case 2: a.assign(n / 9 + 1, ""); break; case 3: e.assign(n / 9, ""); break; default: e.push_back(string(n / 2, 'e')); a.push_back(string(n - n / 2, 'a')); e.push_back("last"); } Cfg g; run(c, a, e, g); c.traces(); }, { .split_depth = 2 });
	chk.section("stack pointer", [](Ctx& c) { int d = c.choose(65, "moved by"); int n = c.choose(17, "length"); Cfg g; g.host_sp = d; g.twice = c.flag("second call"); run(c, { str(n, 1), "b" }, { "E=1" }, g); run(c, { str(n, 1) }, { "E=1" }, g); c.traces(); }, { .split_depth = 2 });
	// stacks the host made, and machines without any stack
	chk.section("host stack", [](Ctx& c) { static const std::vector<u64> SP{ 0, 1, 8, 0x100, 0x10000, 0x20000, 0x20010, 0x20100, 0x20200, 0x3fff0, 0x40000, 0x40010, 0x40100, 1ull << 32, ~0ull, 1ull << 63 }; u64 sp0 = c.pick(SP, "sp"); int n = c.choose(40, "arguments"); string who = fmt("sp=%#lx, %d arguments", (long)sp0, n); c.at("%s", who.c_str()); c.transitions(); Machine m{ std::string_view{} }; m.memory.allocate_custom_arena(MM, 0x10000, 0x20000); uint8_t* A = (uint8_t*)m.memory.arena_ptr(); for (u64 i = 0; i < MM + 64; i++) A[i] = i; m.memory.set_stack_address(sp0); m.cpu.reg(REG_SP) = sp0; Strs a; for (int i = 0; i < n; i++) a.push_back(str(i, i)); bool threw = false; try { m.setup_linux(a, {}); } catch (const MachineException&) { threw = true; } for (u64 i = 0; i < MM + 64; i++) if (A[i] != (uint8_t)i && (i < 0x20000 || i >= std::min(sp0, MM))) { c.fail("host:outside", who + fmt(": memory at %#lx was changed", (long)i)); break; } u64 need = n * (n + 1) / 2 + (n + 3) * 8 + 320; if (n == 0) OK(c, threw, "no arguments", who + ": accepted without a program name"); else if (!threw) { u64 sp = m.cpu.reg(REG_SP), v = 0; OK(c, sp >= 0x20000 && sp < MM && sp % 16 == 0 && (memcpy(&v, A + sp, 8), v == n), "host:layout", who + fmt(": sp=%#lx, argc=%ld", (long)sp, (long)v)); c.nontrivial(); } else OK(c, sp0 < 0x20000 + need || sp0 > MM, "host:refused", who + ": refused although it fits"); c.traces(); }, { .split_depth = 2 });
	return chk.finish();
}
