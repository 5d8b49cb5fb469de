// C30: system calls that the host defines receive exactly the guest's arguments and deliver exactly their results
// build: VARIANT=asan CHECKX=-O0
#include "vp.hpp"
#include "elfgen.hpp"
#include <libloong/machine.hpp>
#include <sys/mman.h>
#include <cstring>
#include <map>
#include <memory>
#include <tuple>
#include <utility>
using namespace loongarch; using namespace vp; using std::string; typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;
static constexpr u64 MM = 0x10000, CODE = 0x1000, DATA = 0x2000, MID = 0x8000; static constexpr int NR = 300;
struct Pod { u32 a; u64 b; char c[5]; }; enum E32 : int { E_A = 1 }; enum class E8 : uint8_t { A = 1 }; enum class E64 : int64_t { A = 1 };
enum Kind { I8, U8, I16, U16, I32, U32, I64, U64, BOOL, EN32, EN8, EN64, F32, F64, STR, VIEW, POD, PTR, CPTR, NK };
static const char* KN[] = { "int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "bool", "enum:int", "enum:uint8_t", "enum:int64_t", "float", "double", "string", "string_view", "struct", "struct*", "const char*" };
template <int K> struct TypeOf; 
#define TY(k, t) template <> struct TypeOf<k> { using type = t; };
TY(I8, int8_t) TY(U8, uint8_t) TY(I16, int16_t) TY(U16, uint16_t) TY(I32, int32_t) TY(U32, uint32_t) TY(I64, int64_t) TY(U64, uint64_t) TY(BOOL, bool) TY(EN32, E32) TY(EN8, E8) TY(EN64, E64) TY(F32, float) TY(F64, double) TY(STR, std::string) TY(VIEW, std::string_view) TY(POD, Pod) TY(PTR, Pod*) TY(CPTR, const char*)
// what a handler saw
struct Got { u64 bits = 0; const void* p = nullptr; u64 n = 0; string s; bool operator==(const Got& o) const { return bits == o.bits && p == o.p && n == o.n && s == o.s; } };
static std::vector<Got> g_got; static int g_calls; static Machine* g_machine; static void (*g_result)(Machine&); static u64 g_value;
template <class T> static void put(const T& v) { Got g;
	if constexpr (std::is_same_v<T, std::string>) g.s = v; else if constexpr (std::is_same_v<T, std::string_view>) { g.p = v.size() ? v.data() : nullptr; g.n = v.size(); }
	else if constexpr (std::is_pointer_v<T>) g.p = v; else if constexpr (std::is_same_v<T, Pod>) { g.bits = v.a; g.n = v.b; g.s.assign(v.c, 5); }
	else memcpy(&g.bits, &v, sizeof v);
	g_got.push_back(g); }
template <int... K> static void handler(Machine& m) { g_calls++; g_machine = &m; auto t = m.sysargs<typename TypeOf<K>::type...>(); std::apply([](auto&... a) { (put(a), ...); }, t); if (g_result) g_result(m); }
template <int K, int I> static void single(Machine& m) { g_calls++; g_machine = &m; put(m.sysarg<typename TypeOf<K>::type>(I)); if (g_result) g_result(m); }
typedef void (*Fn)(Machine&); struct Sig { std::vector<int> k; Fn f; string name() const { string s; for (int x : k) s += (s.empty() ? "" : ",") + string(KN[x]); return "(" + s + ")"; } };
static std::vector<Sig> sigs1, sigs2, sigs3, sigs8; static std::vector<std::tuple<int, int, Fn>> singles;
template <size_t... I> static void make1(std::index_sequence<I...>) { (sigs1.push_back({ { (int)I }, handler<(int)I> }), ...); }
template <size_t... I> static void make2(std::index_sequence<I...>) { (sigs2.push_back({ { (int)I / NK, (int)I % NK }, handler<(int)I / NK, (int)I % NK> }), ...); }
static constexpr int TR[6] = { I32, U64, F64, STR, VIEW, EN8 };
template <size_t... I> static void make3(std::index_sequence<I...>) { (sigs3.push_back({ { TR[I / 36], TR[I / 6 % 6], TR[I % 6] }, handler<TR[I / 36], TR[I / 6 % 6], TR[I % 6]> }), ...); }
template <int K> static void make8() { sigs8.push_back({ { K, K, K, K, K, K, K, K }, handler<K, K, K, K, K, K, K, K> }); }
template <size_t... I> static void makes(std::index_sequence<I...>) { (singles.push_back({ (int)I / 8, (int)I % 8, single<(int)I / 8, (int)I % 8> }), ...); }
static bool isfp(int k) { return k == F32 || k == F64; } static int width(int k) { return k == VIEW ? 2 : 1; }
// the values of an argument: one register, or address and length
struct Val { u64 a, b; };
static std::vector<Val> values(int k, bool few) { std::vector<Val> v; switch (k) {
	case BOOL: return { { 0, 0 }, { 1, 0 } };
	case F32: case F64: v = { { 0, 0 }, { 0x3ff8000000000000 | 0x3fc00000, 0 }, { 0xfff4000000000001, 0 }, { 0x7ff80000ff800001, 0 }, { 0x8000000000000000 | 0x80000000, 0 }, { 1, 0 } }; break;
	case STR: v = { { MID, 0 }, { MID + 5, 0 }, { MM - 3, 0 }, { CODE + 0x20, 0 }, { MM, 0 }, { 0, 0 }, { ~0ull, 0 }, { (1ull << 32) + MID, 0 }, { DATA, 0 } }; break;
	case VIEW: v = { { MID, 5 }, { MID, 0 }, { MM - 4, 4 }, { MM - 4, 5 }, { CODE, 16 }, { 0, 1 }, { MID, ~0ull }, { ~0ull - 3, 4 }, { ~0ull - 3, 8 }, { MM, 1 }, { MID, (1ull << 32) + 5 }, { DATA, 5000 } }; break;
	case POD: case PTR: v = { { MID, 0 }, { MM - sizeof(Pod), 0 }, { MM - sizeof(Pod) + 8, 0 }, { CODE + 0x20, 0 }, { 0, 0 }, { MM, 0 }, { ~7ull, 0 }, { (1ull << 32) + MID, 0 } }; break;
	case CPTR: v = { { MID + 1, 0 }, { MM - 1, 0 }, { MM, 0 }, { CODE, 0 }, { 0, 0 }, { ~0ull, 0 } }; break;
	default: v = { { 0, 0 }, { 1, 0 }, { 0x7f, 0 }, { 0xffffffffffffff80, 0 }, { 0x123456789abcdef0, 0 }, { 0xffffffff80000000, 0 }, { 0x80000000, 0 }, { 0x7fff8000, 0 }, { ~0ull, 0 } }; }
	if (few) { size_t n = isfp(k) ? 3 : k == STR || k == VIEW ? 6 : 4; std::vector<Val> w; for (size_t i = 0; i < n; i++) w.push_back(v[i * v.size() / n]); return w; } return v; }
struct Sys {
	Ctx& c; std::unique_ptr<Machine> m; std::shared_ptr<MachineOptions> opt; std::vector<uint8_t> model; string who; int mode = 0;
	Sys(Ctx& c) : c(c) { opt = std::make_shared<MachineOptions>(); opt->use_shared_execute_segments = false; m = std::make_unique<Machine>(std::string_view{}, *opt); m->set_options(opt); m->memory.allocate_custom_arena(MM, CODE, DATA);
		u32 code[8] = { 0x002b0000 | NR, 0x00150000, 0x002b0000, 0x00150000, 0x00150000, 0x00150000, 0x00150000, 0x00150000 }; auto* p = mem(); for (u64 a = CODE; a < MM; a++) p[a] = 0x21 + a * 7 % 90; memcpy(p + CODE, code, 32); m->cpu.init_execute_area(code, CODE, 32); p[CODE + 0x29] = 0; memcpy(p + MID, "hello", 6); memcpy(p + MM - 3, "ab", 3); model.assign(p, p + MM); }
	uint8_t* mem() { return (uint8_t*)m->memory.arena_ptr(); }
	bool rd(u64 a, u64 n) { return a >= CODE && a <= MM && n <= MM - a; }
	// expected: 0 the value, 1 an exception, 2 either
	int expect(int k, u64 a, u64 b, Got& g) { auto* A = mem(); switch (k) {
		case I8: case U8: case EN8: g.bits = a & 0xff; return 0; case I16: case U16: g.bits = a & 0xffff; return 0; case I32: case U32: case EN32: case F32: g.bits = a & 0xffffffff; return 0; case BOOL: g.bits = a & 1; return 0;
		case STR: { if (!rd(a, 1)) return 1; u64 n = 0; while (a + n < MM && A[a + n] && n < 4096) n++; g.s.assign((char*)A + a, n); return n == 4096 || a + n == MM ? 2 : 0; }
		case VIEW: if (b && !rd(a, b)) return 1; g.n = b; g.p = b ? A + a : nullptr; return b ? 0 : 2;
		case POD: { if (!rd(a, sizeof(Pod))) return 1; Pod x; memcpy(&x, A + a, sizeof x); g.bits = x.a; g.n = x.b; g.s.assign(x.c, 5); return 0; }
		case PTR: if (!rd(a, sizeof(Pod))) return 1; g.p = A + a; return 0; case CPTR: if (!rd(a, 1)) return 1; g.p = A + a; return 0;
		default: g.bits = a; return 0; } }
	int run(u64 pc) { auto& r = m->cpu.registers(); r.pc = pc; try { if (mode == 0) m->simulate(1000, 0); else if (mode == 1) m->cpu.simulate_inaccurate(pc); else { m->set_max_instructions(UINT64_MAX); m->cpu.step_one(false); } } catch (const MachineException& e) { return e.type(); } catch (const std::exception&) { return 1000; } return -1; }
	void fill(u64 seed) { auto& r = m->cpu.registers(); for (int i = 1; i < 32; i++) r.get(i) = mix(seed, i); r.get(1) = CODE + 4; for (int i = 0; i < 32; i++) for (int k = 0; k < 4; k++) r.getvr(i).du[k] = mix(seed + 77, i * 4 + k); }
	bool bad(const char* key, const string& t) { return OK(c, false, key, who + ": " + t); }
	bool same(Registers& before, int a0, int fa0) { auto& r = m->cpu.registers(); for (int i = 0; i < 32; i++) if (i != a0 && r.get(i) != before.get(i)) return bad("registers", fmt("r%d is %#lx, was %#lx", i, (long)r.get(i), (long)before.get(i))); for (int i = 0; i < 32; i++) if (i != fa0 && memcmp(&r.getvr(i), &before.getvr(i), 32)) return bad("registers", fmt("vector register %d has changed", i)); if (memcmp(mem() + CODE, model.data() + CODE, MM - CODE)) return bad("memory", "guest memory has changed"); return true; }
	// one call with these argument values
	bool call(const std::vector<int>& ks, const std::vector<Val>& vs, int at = -1) {
		static u64 seed = 0; fill(seed++ % 5); auto& r = m->cpu.registers(); int ii = at >= 0 ? at : 0, ff = ii; std::vector<Got> want; int st = 0; who = mode == 0 ? "simulate, handler" : mode == 1 ? "inaccurate, handler" : "step, handler"; if (at >= 0) who += fmt(" argument %d of", at);
		for (size_t i = 0; i < ks.size(); i++) { int k = ks[i]; auto v = vs[i]; who += fmt(" %s=%#lx", KN[k], (long)v.a); if (k == VIEW) who += fmt("+%#lx", (long)v.b); if (isfp(k)) { r.getvr(ff++).du[0] = v.a; } else { r.get(4 + ii++) = v.a; if (k == VIEW) r.get(4 + ii++) = v.b; } Got g; int e = expect(k, v.a, v.b, g); want.push_back(g); if (e == 1 && st != 1) st = 1; else if (e == 2 && st == 0) st = 2; }
		Registers before = r; g_got.clear(); g_calls = 0; g_machine = nullptr; c.at("%s", who.c_str()); c.transitions(); c.traces(); int ex = run(CODE);
		if (g_calls != 1 || g_machine != m.get()) return bad("called", fmt("the handler was called %d times, or for another machine", g_calls));
		if (ex >= 0) { if (st == 0) return bad("refused", fmt("raised exception %d although every argument is fine", ex)); if (ex == 1000) return bad("refused", "raised an exception that is not a machine exception"); if (!same(before, -1, -1)) return false; return true; }
		if (st == 1) return bad("accepted", "an argument outside of the guest's memory was accepted"); c.nontrivial();
		if (g_got.size() != want.size()) return bad("arguments", fmt("%zu arguments", g_got.size())); for (size_t i = 0; i < want.size(); i++) if (!(g_got[i] == want[i])) { auto& g = g_got[i]; auto& w = want[i]; return bad("arguments", fmt("argument %zu arrived as %#lx/%ld/%ld/\"%s\" instead of %#lx/%ld/%ld/\"%s\"", i, (long)g.bits, (long)(g.p ? (u64)g.p - (u64)mem() : 0), (long)g.n, g.s.substr(0, 20).c_str(), (long)w.bits, (long)(w.p ? (u64)w.p - (u64)mem() : 0), (long)w.n, w.s.substr(0, 20).c_str())); }
		if (g_result) return true; if (r.pc != CODE + 8 && r.pc != CODE + 4) return bad("pc", fmt("goes on at %#lx", (long)r.pc)); return same(before, -1, -1); }
};
template <class T> static void give(Machine& m) { T v; memcpy(&v, &g_value, sizeof v); m.set_result<T>(v); } template <class T> static void give2(Machine& m) { T v; memcpy(&v, &g_value, sizeof v); m.set_result(v); }
template <class T> static u64 back(Machine& m) { T v = m.return_value<T>(); u64 b = 0; memcpy(&b, &v, sizeof v); return b; }
int main(int argc, char** argv) {
	Check chk(argc, argv, "C30"); bool T = chk.thorough(); make1(std::make_index_sequence<NK>()); make2(std::make_index_sequence<NK * NK>()); make3(std::make_index_sequence<216>()); makes(std::make_index_sequence<NK * 8>()); make8<I8>(); make8<U16>(); make8<I32>(); make8<U32>(); make8<U64>(); make8<BOOL>(); make8<EN32>(); make8<F32>(); make8<F64>(); make8<STR>(); make8<POD>(); make8<CPTR>();
	sigs8.push_back({ { I64, F64, U32, F32, STR, F64, I8, F32, VIEW, F64, EN8, F32, POD, F64, F32 }, handler<I64, F64, U32, F32, STR, F64, I8, F32, VIEW, F64, EN8, F32, POD, F64, F32> }); sigs8.push_back({ { VIEW, VIEW, VIEW, VIEW }, handler<VIEW, VIEW, VIEW, VIEW> }); sigs8.push_back({ { F64, F64, F64, F64, F64, F64, F64, F64, I32, VIEW, STR, U64 }, handler<F64, F64, F64, F64, F64, F64, F64, F64, I32, VIEW, STR, U64> });
	chk.rule("every signature of one and two arguments over 19 types, of three over six, and long ones: every combination of argument values at the edges of types and of guest memory, in every way of running, against a model of which register holds what");
	chk.assume("a boolean argument is 0 or 1"); chk.assume("where a view is empty or a string has no end, either an exception or the readable part is fine");
	auto all = [](Ctx& c, const Sig& s, bool few) { Machine::install_syscall_handler(NR, s.f); g_result = nullptr; Sys y(c); y.mode = c.choose(3, "mode"); std::vector<std::vector<Val>> v; u64 tot = 1; for (int k : s.k) { v.push_back(values(k, few)); tot *= v.back().size(); } for (u64 j = 0; j < tot; j++) { u64 r = j; std::vector<Val> x; for (auto& d : v) { x.push_back(d[r % d.size()]); r /= d.size(); } if (!y.call(s.k, x)) return; } c.state(hash_bytes(s.name().data(), s.name().size())); if (c.want_sample()) c.sample(s.name() + fmt(", %lu combinations", (unsigned long)tot)); };
	chk.section("one and two", [&](Ctx& c) { int i = c.choose(sigs1.size() + sigs2.size(), "signature"); all(c, i < (int)sigs1.size() ? sigs1[i] : sigs2[i - sigs1.size()], false); }, { .split_depth = 2, .timeout_s = 100 });
	chk.section("three", [&](Ctx& c) { all(c, c.pick(sigs3, "signature"), !T); }, { .split_depth = 2, .timeout_s = 200 });
	chk.section("many", [&](Ctx& c) { // one argument varies at a time, the others are all different
		auto& s = c.pick(sigs8, "signature"); Machine::install_syscall_handler(NR, s.f); g_result = nullptr; Sys y(c); y.mode = c.choose(3, "mode"); for (size_t rot = 0; rot < 13; rot++) for (size_t i = 0; i < s.k.size(); i++) for (auto& v : values(s.k[i], false)) { std::vector<Val> x; for (size_t j = 0; j < s.k.size(); j++) { auto d = values(s.k[j], false); Got g; Val p{}; for (size_t t = 0; t < d.size(); t++) { p = d[(rot + j + t) % d.size()]; if (y.expect(s.k[j], p.a, p.b, g) == 0) break; } x.push_back(p); } x[i] = v; if (!y.call(s.k, x)) return; } c.state(hash_bytes(s.name().data(), s.name().size())); }, { .split_depth = 2, .timeout_s = 100 });
	chk.section("single", [&](Ctx& c) { auto& [k, at, f] = c.pick(singles, "argument"); if (k == VIEW && at == 7) c.prune(); Machine::install_syscall_handler(NR, f); g_result = nullptr; Sys y(c); y.mode = c.choose(3, "mode"); for (auto& v : values(k, false)) if (!y.call({ k }, { v }, at)) return; c.state(k * 8 + at); }, { .split_depth = 2, .timeout_s = 100 });
	chk.section("results", [&](Ctx& c) { // what the guest gets back, and what the host reads of it
		struct R { int k; void (*give)(Machine&); void (*give2)(Machine&); u64 (*back)(Machine&); };
#define RR(k, t) { k, give<t>, give2<t>, back<t> }
		static const std::vector<R> rs{ RR(I8, int8_t), RR(U8, uint8_t), RR(I16, int16_t), RR(U16, uint16_t), RR(I32, int32_t), RR(U32, uint32_t), RR(I64, int64_t), RR(U64, uint64_t), RR(BOOL, bool), RR(F32, float), RR(F64, double), { EN32, give<E32>, give2<E32>, 0 }, { EN8, give<E8>, give2<E8>, 0 }, { EN64, give<E64>, give2<E64>, 0 } };
		auto& x = c.pick(rs, "type"); Sys y(c); y.mode = c.choose(3, "mode"); int how = c.choose(2, "how"); Machine::install_syscall_handler(NR, handler<U64>);
		for (auto& v : values(x.k, false)) { u64 raw = v.a; int w = x.k == I8 || x.k == U8 || x.k == EN8 || x.k == BOOL ? 8 : x.k == I16 || x.k == U16 ? 16 : x.k == I32 || x.k == U32 || x.k == EN32 || x.k == F32 ? 32 : 64; u64 t = w == 64 ? raw : raw & ((1ull << w) - 1); u64 want = x.k == I8 ? (u64)(i64)(int8_t)t : x.k == I16 ? (u64)(i64)(int16_t)t : w == 32 ? (u64)(i64)(int32_t)t : t;
			g_value = raw; g_result = how ? x.give2 : x.give; y.who = fmt("a result of type %s, bits %#lx", KN[x.k], (long)t); y.fill(3); auto& r = y.m->cpu.registers(); Registers before = r; g_got.clear(); c.transitions(); c.traces(); c.at("%s", y.who.c_str()); int ex = y.run(CODE); g_result = nullptr; if (ex >= 0) { y.bad("result", fmt("raised %d", ex)); return; }
			if (isfp(x.k)) { u64 got = r.getvr(0).du[0]; if (w == 32) got &= 0xffffffff; if (got != t) { y.bad("result", fmt("the guest gets %#lx", (long)got)); return; } if (!y.same(before, -1, 0)) return; } else { if (r.get(4) != want) { y.bad(fmt("result:%s", KN[x.k]).c_str(), fmt("the guest gets %#lx instead of %#lx", (long)r.get(4), (long)want)); return; } if (!y.same(before, 4, -1)) return; }
			if (x.back) { for (u64 hi : { 0ull, 0xabcdef0123456700ull << (w < 64 ? w : 0) }) { if (x.k == BOOL) hi = 0; if (isfp(x.k)) r.getvr(0).du[0] = w == 32 ? t | (hi & ~0xffffffffull) : t; else r.get(4) = w == 64 ? t : t | (hi & ~((1ull << w) - 1)); u64 b = x.back(*y.m); if (b != t) { y.bad("return_value", fmt("return_value gives %#lx", (long)b)); return; } } } c.nontrivial(); } c.state(x.k * 2 + how); }, { .split_depth = 2, .timeout_s = 100 });
	chk.section("registration", [&](Ctx& c) { // handlers by number, and what has none
		Sys y(c); y.mode = c.choose(3, "mode"); bool imm = c.flag("immediate"); static int seen, unk; Machine::set_unknown_syscall_handler([](Machine& m, int n) { unk++; seen = n; m.set_result<int>(-38); }); static const unsigned MAX = LA_SYSCALLS_MAX; auto h1 = +[](Machine& m) { g_calls += 1; m.set_result<int>(11); }; auto h2 = +[](Machine& m) { g_calls += 100; m.set_result<int>(22); };
		auto** tab = Machine::get_syscall_handlers(); std::vector<Machine::syscall_t*> all(tab, tab + MAX); for (unsigned n : std::vector<unsigned>{ MAX, MAX + 1, 1024, 0x7fffffff, 0x80000000, ~0u }) { Machine::install_syscall_handler(n, h1); OK(c, !memcmp(all.data(), tab, sizeof(void*) * MAX), "registration", fmt("registering %u changed another number", n)); }
		for (unsigned n = 0; n < MAX + 8; n++) { if (imm && (n == 0 || n >= 1024)) continue; int k = n < MAX ? c.thorough() ? 3 : 2 : 1; for (int i = 0; i < k; i++) { auto* old = n < MAX ? tab[n] : nullptr; Machine::install_syscall_handler(n, i == 0 ? h1 : i == 1 ? h2 : h1); g_calls = 0; unk = 0; y.fill(n); auto& r = y.m->cpu.registers(); u64 pc = CODE + 8; if (imm) { u32 w[8] = { 0x002b0000 | n, 0x00150000, 0x002b0000, 0x00150000, 0x00150000, 0x00150000, 0x00150000, 0x00150000 }; memcpy(y.mem() + CODE, w, 32); y.m->memory.evict_execute_segments(); y.m->cpu.init_execute_area(w, CODE, 32); y.model.assign(y.mem(), y.mem() + MM); pc = CODE; } else r.get(11) = n; Registers before = r; y.who = fmt("system call %u", n); c.at("%s", y.who.c_str()); c.transitions(); c.traces(); int ex = y.run(pc);
			if (ex >= 0) { y.bad("registration", fmt("raised %d", ex)); return; } u64 want = n >= MAX ? -38 : i == 1 ? 22 : 11; if (g_calls != (n >= MAX ? 0 : i == 1 ? 100 : 1) || unk != (n >= MAX) || (unk && seen != (int)n) || r.get(4) != want) { y.bad("registration", fmt("handler calls %d, unknown calls %d (number %d), result %ld", g_calls, unk, seen, (long)r.get(4))); return; } if (!y.same(before, 4, -1)) return; if (n < MAX) tab[n] = old; } } c.nontrivial(); c.state(imm); }, { .split_depth = 2, .timeout_s = 100 });
	chk.section("time", [&](Ctx& c) { // the host's clock reaches the destination register
		Sys y(c); y.mode = c.choose(3, "mode"); static u64 val; static int calls; for (u64 v : { 0ull, 1ull, 0x123456789abcdef0ull, 1ull << 63, ~0ull }) for (int rd = 0; rd < 32; rd++) { val = v; calls = 0; Machine::set_rdtime([](Machine& m) -> uint64_t { calls++; g_machine = &m; return val; }); u32 w[8] = { 0x00006800u | (u32)rd, 0x00150000, 0x00150000, 0x00150000, 0x00150000, 0x00150000, 0x00150000, 0x00150000 }; memcpy(y.mem() + CODE, w, 32); y.m->memory.evict_execute_segments(); y.m->cpu.init_execute_area(w, CODE, 32); y.model.assign(y.mem(), y.mem() + MM); y.fill(rd); auto& r = y.m->cpu.registers(); Registers before = r; y.who = fmt("rdtime.d r%d, time %#lx", rd, (long)v); c.at("%s", y.who.c_str()); c.transitions(); c.traces(); int ex = y.run(CODE); if (ex >= 0) { y.bad("time", fmt("raised %d", ex)); return; } if (rd && (r.get(rd) != v || calls != 1 || g_machine != y.m.get())) { y.bad("time", fmt("got %#lx, %d calls", (long)r.get(rd), calls)); return; } if (!y.same(before, rd ? rd : -1, -1)) return; c.nontrivial(); } c.state(y.mode); }, { .split_depth = 1, .timeout_s = 100 });
	chk.section("pushing", [&](Ctx& c) { // data that the host puts on the guest's stack
		Sys y(c); auto& m = *y.m; int n = c.choose(70, "size"); for (u64 sp0 : std::vector<u64>{ MM, MID, MID + 8, MID - 3, DATA + 16, DATA + 15, DATA + (u64)n, DATA, 0, 8, MM + 16, MM + 64, ~0ull, 1ull << 32 }) { std::vector<uint8_t> d(n + 1); for (int i = 0; i < n; i++) d[i] = 0xc0 ^ i; u64 sp = sp0; y.who = fmt("pushing %d bytes at %#lx", n, (long)sp0); c.at("%s", y.who.c_str()); c.transitions(); c.traces(); u64 want = sp0 - ((n + 15) & ~15); bool fits = want >= DATA && want <= sp0 && want <= MM && (u64)n <= MM - want; u64 r; try { r = m.stack_push(sp, d.data(), n); } catch (const MachineException&) { if (fits) { y.bad("push", "refused"); return; } if (memcmp(y.mem() + CODE, y.model.data() + CODE, MM - CODE)) { y.bad("push", "refused, but memory has changed"); return; } continue; }
			if (!fits && n) { y.bad("push", "accepted outside of the guest's memory"); return; } if (r != sp || r != want) { y.bad("push", fmt("the data is at %#lx, the stack pointer is %#lx", (long)r, (long)sp)); return; } if (!n) continue; memcpy(&y.model[r], d.data(), n); if (memcmp(y.mem() + CODE, y.model.data() + CODE, MM - CODE)) { y.bad("push", "memory differs"); return; } c.nontrivial(); } c.state(n); }, { .split_depth = 1, .timeout_s = 100 });
	chk.section("placement", [&](Ctx& c) { // a machine directly before its guest memory, as the emulator does it
		static const std::vector<u64> mx{ 0x20000, 0x20001, 0x20fff, 0x21000, 0x21040, 0x40000, 1 << 20 }; u64 mm = c.pick(mx, "memory"); auto info = MachineOptions::estimate_cpu_relative_arena_size_for(mm); string who = fmt("room for a machine with %#lx bytes", (long)mm); c.at("%s", who.c_str()); c.transitions(); c.traces(); OK(c, info.total_size >= info.arena_offset + info.arena_size && info.arena_offset >= sizeof(Machine) && info.arena_size >= mm, "placement", who + fmt(": total %#lx, arena at %#lx of %#lx bytes", (long)info.total_size, (long)info.arena_offset, (long)info.arena_size));
		u64 tot = (info.total_size + 4095) & ~4095ull; auto* p = (uint8_t*)mmap(0, tot + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + tot, 4096, PROT_NONE); 
		elfgen::Seg seg{ 0x10000, 5, {}, 0x100 }; u32 code[] = { 0x002b0000 | NR, 0x00150000 }; seg.bytes.assign((uint8_t*)code, (uint8_t*)code + 8); elfgen::Seg ds{ 0x11000, 6, {}, 0x100 }; ds.bytes.assign(16, 7); auto im = elfgen::build({ seg, ds }, 0x10000); auto o = std::make_shared<MachineOptions>(); o->memory_max = mm; o->brk_size = 0x1000; o->stack_size = 0x2000; o->use_shared_execute_segments = false; o->custom_arena_pointer = p + info.arena_offset; o->custom_arena_size = info.arena_size; std::string_view sv((char*)im.file.data(), im.file.size());
		auto* m = new (p) Machine(sv, *o); m->set_options(o); std::vector<uint8_t> self(p, p + sizeof(Machine)); OK(c, m->memory.arena_size() >= mm, "placement", who + fmt(": the guest has %#lx bytes", (long)m->memory.arena_size())); for (u64 a = 0x11000; a < mm; a++) m->memory.write<uint8_t>(a, 0xff); for (u64 a = mm - 64; a + 8 <= mm; a++) m->memory.write<u64>(a, ~0ull); OK(c, !memcmp(self.data(), p, sizeof(Machine)), "placement", who + ": writing guest memory changed the machine"); Machine::install_syscall_handler(NR, handler<U64>); g_result = nullptr; g_calls = 0; g_machine = 0; m->cpu.registers().pc = 0x10000; m->cpu.registers().get(1) = 0x10004; m->simulate(100, 0); OK(c, g_calls == 1 && g_machine == m, "placement", who + ": the program did not run"); m->~Machine(); p[info.arena_offset] = 1; p[tot - 1] = 1; munmap(p, tot + 4096); c.nontrivial(); c.state(mm); }, { .split_depth = 1, .timeout_s = 100 });
	return chk.finish();
}
