// build: VARIANT=plain PRE=$(O)/guest_calls.elf CHECKX=-O0
// C11: calls into guest functions follow the calling convention and are re-entrant.
// args: every argument-kind list up to a length, against the LoongArch lp64d convention.
// returns: every return type over a grid of values.  limits: every instruction limit of
// every function and call form.  nested: every tree of nested calls from a system call.
#include "vp.hpp"
#include <libloong/machine.hpp>
#include <fstream>
#include <utility>
using namespace vp; using namespace loongarch; typedef uint64_t u64; typedef int64_t i64; using std::string;
static string g_dir; static Machine* M; static std::shared_ptr<MachineOptions> g_opt; static u64 STACK; static constexpr u64 WIN = 0x8000;  // watched part of the stack
static std::vector<uint8_t> g_elf, g_pat, g_data0; static u64 DATA, DATALEN; static Registers g_regs0;
static std::map<string, u64> g_sym;
static void (*g_handler)(Machine&) = nullptr;
static void setup() {
	if (M) return; char buf[512]; ssize_t n = readlink("/proc/self/exe", buf, 511); buf[n] = 0; string d(buf); d = d.substr(0, d.rfind('/'));
	std::ifstream f(d + "/guest_calls.elf", std::ios::binary); g_elf.assign(std::istreambuf_iterator<char>(f), {}); if (g_elf.empty()) { fprintf(stderr, "no guest program\n"); abort(); }
	g_opt = std::make_shared<MachineOptions>(); g_opt->memory_max = 16u << 20; g_opt->stack_size = 1 << 20; M = new Machine(g_elf, *g_opt); M->set_options(g_opt);
	for (auto s : { "fast_exit", "add2", "fib", "fill", "nest", "nest2", "crash", "strsum", "many", "manyf", "mixed", "ucmp", "icmp", "structsum", "reti", "retd", "retf", "align", "spin", "sink" }) { g_sym[s] = M->address_of(s); if (!g_sym[s]) { fprintf(stderr, "no symbol %s\n", s); abort(); } }
	M->memory.set_exit_address(g_sym["fast_exit"]); STACK = M->memory.stack_address() & ~15ull; g_pat.resize(WIN); for (size_t i = 0; i < WIN; i++) g_pat[i] = 0x11 + i * 7;
	DATA = M->memory.data_start(); DATALEN = 0x1000; g_data0.assign((uint8_t*)M->memory.arena_ptr() + DATA, (uint8_t*)M->memory.arena_ptr() + DATA + DATALEN); 
	Machine::install_syscall_handler(400, [](Machine& m) { if (g_handler) g_handler(m); });
	auto& r = M->cpu.registers(); for (int i = 1; i < 32; i++) if (i != 3) r.get(i) = 0x1111111111110000ull * i + i; for (int i = 0; i < 32; i++) for (int k = 0; k < 4; k++) r.getvr(i).du[k] = 0x7000000000000000ull + i * 256 + k; r.get(3) = STACK - 0x800; r.pc = g_sym["add2"]; g_regs0 = r;
}
static uint8_t* mem(u64 a) { return (uint8_t*)M->memory.arena_ptr() + a; }
static void reset(u64 stack_addr) { M->memory.set_stack_address(stack_addr); M->cpu.registers() = g_regs0; memcpy(mem(STACK - WIN + 64), g_pat.data(), WIN); memcpy(mem(DATA), g_data0.data(), DATALEN); M->set_instruction_counter(0); M->set_max_instructions(0); }

// ---------------------------------------------------------------- argument kinds
struct Small { int32_t a; char c[5]; }; struct Big { u64 a[5]; double d; }; enum class E32 : uint32_t { V = 0x80000001 }; enum class E8 : int8_t { V = -3 };
enum Kind { U32, I64, F32, F64, STR, SMALL, I8, U16, I32, CSTR, BOOL, U64, ENUM32, ENUM8, BIG, GSTR, NKIND };
static const char* KN[] = { "uint32", "int64", "float", "double", "string", "struct", "int8", "uint16", "int32", "char*", "bool", "uint64", "enum:uint32", "enum:int8", "bigstruct", "guest-string" };
static int g_var;                                                       // which set of values
static std::vector<string> g_text;                                      // backing of char*
template <int K> static auto value(int pos) {
	u64 x = g_var == 0 ? 0x8123456789abcdefull + pos * 0x0101010101010101ull : g_var == 1 ? ~0ull - pos : pos;
	if constexpr (K == I8) return (int8_t)x; else if constexpr (K == U16) return (uint16_t)x; else if constexpr (K == I32) return (int32_t)(g_var == 0 ? x | 0x80000000 : x); else if constexpr (K == U32) return (uint32_t)(g_var == 0 ? x | 0x80000000 : x);
	else if constexpr (K == I64) return (i64)x; else if constexpr (K == U64) return (u64)x; else if constexpr (K == BOOL) return (bool)(x & 1); else if constexpr (K == F32) return (float)(g_var ? -1.5f * pos : 3.25f + pos); else if constexpr (K == F64) return (double)(g_var ? -1e300 / (pos + 1) : 0.1 + pos);
	else if constexpr (K == CSTR) return (const char*)g_text[pos].c_str(); else if constexpr (K == STR) return string(g_text[pos]);
	else if constexpr (K == SMALL) { Small s; memset(&s, 0x40 + pos, sizeof s); s.a = (int)x; return s; } else if constexpr (K == BIG) { Big s; for (int i = 0; i < 5; i++) s.a[i] = x * (i + 1); s.d = pos; return s; }
	else if constexpr (K == ENUM32) return (E32)((uint32_t)x | 0x80000000); else if constexpr (K == ENUM8) return (E8)x; else { GuestStdString s(*M); s.set_string(*M, 0, g_var == 2 ? "" : "guest" + std::to_string(pos)); return s; }
}
struct Want { int kind; string bytes; u64 val; int width; bool fp, ptr; size_t align; };      // bytes: pointed-to contents, or val
template <int K> static Want want(int pos) {
	auto v = value<K>(pos); Want w{ K, "", 0, 8, false, false, 1 };
	if constexpr (K == F32 || K == F64) { w.fp = true; w.width = sizeof v; memcpy(&w.val, &v, sizeof v); }
	else if constexpr (K == CSTR || K == STR) { w.ptr = true; w.bytes = string(v); w.bytes.push_back(0); } else if constexpr (K == SMALL || K == BIG) { w.ptr = true; w.bytes.assign((char*)&v, sizeof v); w.align = alignof(decltype(v)); }
	else if constexpr (K == GSTR) { w.ptr = true; w.align = 8; w.bytes = v.to_string(*M); }
	else if constexpr (sizeof v == 4) w.val = (u64)(i64)(int32_t)(uint32_t)v; else if constexpr (K == BOOL) w.val = v; else w.val = (u64)(i64)v;
	return w;
}
enum Api { TIMED, VM, VMLIM, PRE, NAPI };
static string words(const std::vector<Want>& w) { string s; for (auto& x : w) s += string(s.empty() ? "" : ",") + KN[x.kind]; return "(" + s + ")"; }
struct Fixed { u64 r[32]; uint8_t v[32][32]; };
static Registers g_seen; static std::vector<uint8_t> g_mem; static bool g_ran;
// the function that is called: one STOP instruction; it sees the registers as they were set up
template <int... K, size_t... P> static int call_impl(int api, std::index_sequence<P...>) {
	u64 f = g_sym["fast_exit"];
	try {
		if (api == TIMED) M->timed_vmcall(f, 1000, value<K>(P)...); else if (api == VM) M->vmcall<i64>(f, value<K>(P)...); else if (api == VMLIM) M->vmcall<i64, 1000>(f, value<K>(P)...);
		else { g_handler = [](Machine& m) { g_seen = m.cpu.registers(); memcpy(g_mem.data(), mem(STACK - WIN + 64), WIN); g_ran = true; m.stop(); }; M->preempt<true, true>(1000, f, value<K>(P)...); }
	} catch (const MachineException& e) { return e.type(); } catch (const std::exception&) { return 100; }
	return -1;
}
template <int... K> static int call(int api) { return call_impl<K...>(api, std::make_index_sequence<sizeof...(K)>()); }
template <int... K, size_t... P> static std::vector<Want> wants_impl(std::index_sequence<P...>) { return { want<K>(P)... }; }
template <int... K> static std::vector<Want> wants() { return wants_impl<K...>(std::make_index_sequence<sizeof...(K)>()); }
struct Sig { int (*call)(int); std::vector<Want> (*wants)(); };
template <int... K> static Sig sig() { return { &call<K...>, &wants<K...> }; }

// lp64d: floating point to FA0-7, then like an integer; everything else to A0-7, then the stack
static void judge(Ctx& c, const std::vector<Want>& w, const Registers& now, u64 top, const string& who) {
	auto& r = const_cast<Registers&>(now); u64 sp = r.get(3); int gi = 0, fi = 0, si = 0; u64 lo = sp; auto K = [&](int i) { return "args:" + string(KN[w[i].kind]); };
	if (!OK(c, sp % 16 == 0, "args:alignment", who + fmt(": stack pointer %#lx at entry", (long)sp))) return;
	if (!OK(c, sp <= top && sp >= top - 0x4000, "args:stack", who + fmt(": stack pointer %#lx at entry, stack starts at %#lx", (long)sp, (long)top))) return;
	std::vector<std::pair<u64, u64>> used; std::vector<u64> ptr(w.size(), 0);
	for (size_t i = 0; i < w.size(); i++) {
		u64 got; string where;
		if (w[i].fp && fi < 8) { got = r.getvr(fi).du[0]; where = fmt("fa%d", fi++); } else if (gi < 8) { got = r.get(4 + gi); where = fmt("a%d", gi++); } else { memcpy(&got, mem(sp + 8 * si), 8); where = fmt("stack+%d", 8 * si); used.push_back({ sp + 8 * si, 8 }); si++; }
		if (w[i].ptr) { ptr[i] = got;
			if (!OK(c, got >= sp && got < top && w[i].bytes.size() <= top - got, K(i), who + fmt(": argument %zu (%s) is %#lx, not inside the stack [%#lx,%#lx)", i, where.c_str(), (long)got, (long)sp, (long)top))) return;
			if (w[i].kind == GSTR) { u64 q[2]; memcpy(q, mem(got), 16); if (!OK(c, (top % 16 || got % 8 == 0) && q[0] == got + 16 && q[1] == w[i].bytes.size() && !memcmp(mem(q[0]), w[i].bytes.c_str(), w[i].bytes.size() + 1), K(i), who + fmt(": argument %zu: the string object at %#lx points to %#lx, length %lu", i, (long)got, (long)q[0], (long)q[1]))) return; used.push_back({ got, 32 }); continue; }
			if (!OK(c, !memcmp(mem(got), w[i].bytes.data(), w[i].bytes.size()), K(i), who + fmt(": argument %zu: the copy at %#lx is not intact", i, (long)got))) return;
			if (!OK(c, top % 16 || got % w[i].align == 0, K(i), who + fmt(": argument %zu is at the misaligned address %#lx", i, (long)got))) return;
			used.push_back({ got, w[i].bytes.size() }); continue; }
		u64 m = w[i].width == 4 ? 0xffffffffull : ~0ull;
		if (!OK(c, (got & m) == (w[i].val & m), K(i), who + fmt(": argument %zu (%s) is %#lx, expected %#lx", i, where.c_str(), (long)got, (long)w[i].val))) return;
	}
	for (size_t i = 0; i < used.size(); i++) for (size_t j = 0; j < i; j++) if (!OK(c, used[i].first >= used[j].first + used[j].second || used[j].first >= used[i].first + used[i].second, "args:overlap", who + ": two arguments share stack bytes")) return;
	OK(c, r.get(1) == M->memory.exit_address(), "args:ra", who + fmt(": the return address is %#lx", (long)r.get(1)));
	for (int i : { 0, 2, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31 }) if (!OK(c, r.get(i) == const_cast<Registers&>(g_regs0).get(i), "args:saved", who + fmt(": r%d was changed to %#lx", i, (long)r.get(i)))) return;
	for (int i = 24; i < 32; i++) if (!OK(c, r.getvr(i).du[0] == const_cast<Registers&>(g_regs0).getvr(i).du[0], "args:saved", who + fmt(": f%d was changed", i))) return;
	for (u64 a = top; a < STACK + 64; a++) if (!OK(c, *mem(a) == g_pat[a - (STACK - WIN + 64)], "args:above", who + fmt(": memory above the stack (%#lx) was changed", (long)a))) return;
	for (u64 a = STACK - WIN + 64; a < sp; a++) if (!OK(c, *mem(a) == g_pat[a - (STACK - WIN + 64)], "args:below", who + fmt(": memory below the stack pointer (%#lx) was changed", (long)a))) return;
	c.state(mix(mix(gi, fi), mix(si, sp - top)));
}
static void one(Ctx& c, const Sig& s, int api, u64 off) {
	g_text.clear(); for (int i = 0; i < 24; i++) g_text.push_back(string(g_var == 2 ? 0 : i * 3 % 40, 'a' + i)); u64 base = STACK + off; reset(base); auto w = s.wants(); string who = words(w) + fmt(" values %d, stack +%ld, %s", g_var, (long)off, api == TIMED ? "timed_vmcall" : api == VM ? "vmcall" : api == VMLIM ? "vmcall with limit" : "preempt"); c.at("%s", who.c_str()); c.traces();
	u64 top = base; if (api == PRE) top = g_regs0.get(3);
	int ex = s.call(api); if (!OK(c, ex == -1, "args:exception", who + fmt(": exception %d", ex))) return;
	if (api == PRE) { // the registers at entry are gone again; only that they are restored, and the memory above the interrupted stack pointer
		auto& r = M->cpu.registers(); auto& o = g_regs0; for (int i = 0; i < 32; i++) if (i != 4) if (!OK(c, r.get(i) == o.get(i), "args:restored", who + fmt(": r%d is %#lx after the call, was %#lx", i, (long)r.get(i), (long)o.get(i)))) return;
		for (int i = 0; i < 32; i++) if (!OK(c, !memcmp(&r.getvr(i), &o.getvr(i), 32), "args:restored", who + fmt(": vector register %d was not restored", i))) return; if (!OK(c, r.pc == o.pc, "args:restored", who + ": the program counter was not restored")) return;
		for (u64 a = top; a < STACK + 64; a++) if (!OK(c, *mem(a) == g_pat[a - (STACK - WIN + 64)], "args:above", who + fmt(": memory of the interrupted stack (%#lx) was changed", (long)a))) return; return; }
	judge(c, w, M->cpu.registers(), top, who); c.nontrivial();
}
// tables of signatures
static constexpr int NK = 7;     // kinds enumerated in the complete lists
template <int N, size_t... I> static std::vector<Sig> table(std::index_sequence<I...>) { if constexpr (N == 0) return { sig<>() }; else if constexpr (N == 1) return { sig<(int)I>()... }; else if constexpr (N == 2) return { sig<(int)(I / NK), (int)(I % NK)>()... }; else return { sig<(int)(I / NK / NK), (int)(I / NK % NK), (int)(I % NK)>()... }; }
template <int K, size_t... I> static Sig rep(std::index_sequence<I...>) { return sig<(I, K)...>(); }
template <int K, size_t... N> static std::vector<Sig> homogeneous(std::index_sequence<N...>) { return { rep<K>(std::make_index_sequence<N>())... }; }
template <size_t... K> static std::vector<Sig> all_homogeneous(std::index_sequence<K...>) { std::vector<Sig> r; (([&] { auto v = homogeneous<(int)K>(std::make_index_sequence<13>()); r.insert(r.end(), v.begin(), v.end()); })(), ...); return r; }
// n of one kind, then m of another, then one of a third
template <int A, int B, int C, size_t... I, size_t... J> static Sig mix2(std::index_sequence<I...>, std::index_sequence<J...>) { return sig<(I, A)..., (J, B)..., C>(); }
template <int A, int B, int C, size_t... X> static std::vector<Sig> mixed(std::index_sequence<X...>) { return { mix2<A, B, C>(std::make_index_sequence<X / 4 + 5>(), std::make_index_sequence<X % 4 * 3>())... }; }

// ---------------------------------------------------------------- guest functions
struct Fn { const char* name; i64 a, b; i64 (*ref)(i64, i64); };
static i64 rfib(i64 n, i64) { return n < 2 ? n : rfib(n - 1, 0) + rfib(n - 2, 0); }
static i64 rfill(i64 seed, i64 n) { u64 a[8]; for (u64 i = 0; i < 8; i++) a[i] = seed * (i + 1); for (i64 k = 0; k < n; k++) for (int i = 0; i < 8; i++) a[i] = a[i] + a[(i + 3) & 7] * k; u64 s = 0; for (int i = 0; i < 8; i++) s = s * 31 + a[i]; return s; }
static i64 radd(i64 a, i64 b) { return a + b; }
static i64 rnest(i64 v, i64 r) { i64 s1 = v * 7 + v, s2 = (v + 11) ^ (v * 3), s3 = (v << 5) - (v ^ 0x55); return s1 * 3 + s2 * 5 + s3 * 7 + ~v + r * 1000003 + (i64)(v * 0.5 * 4); }
static const std::vector<Fn> FN = { { "add2", 5, -7, radd }, { "fib", 4, 0, rfib }, { "fill", 12345, 3, rfill } };
static std::vector<uint8_t> stack_above(u64 sp) { auto p = mem(sp); return { p, mem(STACK + 64) }; }
static string regs_diff(Registers& a, Registers& b, bool a0) { for (int i = 0; i < 32; i++) if (!(i == 4 && !a0) && a.get(i) != b.get(i)) return fmt("r%d is %#lx, was %#lx", i, (long)a.get(i), (long)b.get(i)); for (int i = 0; i < 32; i++) if (memcmp(&a.getvr(i), &b.getvr(i), 32)) return fmt("vector register %d differs", i); for (int i = 0; i < 8; i++) if (a.cf(i) != b.cf(i)) return "condition flags differ"; if (a.fcsr() != b.fcsr()) return "fcsr differs"; if (a.pc != b.pc) return fmt("pc is %#lx, was %#lx", (long)a.pc, (long)b.pc); return ""; }

// ---------------------------------------------------------------- nested calls
// what each system call 400 does, by level; the guest's argument selects the plan entry
struct Act { int form, fn, limit; };   // form: 0 nothing, 1 preempt<1,1>, 2 preempt<0,1>
static Ctx* g_c; static std::vector<Act> g_plan; static int g_level; static string g_who; static std::vector<i64> g_ret; static u64 g_nested;
static i64 expected(int lvl, i64 v);
static const std::vector<const char*> NF = { "add2", "fib", "crash", "spin", "nest" };
static void on_call(Machine& m) {
	Ctx& c = *g_c; int lvl = g_level++; Act a = lvl < (int)g_plan.size() ? g_plan[lvl] : Act{ 0, 0, 0 }; i64 r = 3; auto saved = m.cpu.registers(); u64 sp = m.cpu.reg(3), cnt = m.instruction_counter(), max = m.max_instructions(); auto stk = stack_above(sp);
	if (a.form) {
		u64 f = g_sym[NF[a.fn]]; int ex = -1; u64 lim = a.limit == 0 ? 100000 : a.limit == 1 ? 5 : 1; i64 got = 0;
		try { got = a.form == 1 ? m.preempt<true, true>(lim, f, 9 + lvl, 4) : m.preempt<false, true>(lim, f, 9 + lvl, 4); } catch (const MachineException& e) { ex = e.type(); }
		bool cut = m.instruction_limit_reached(); u64 used = 0; string d = regs_diff(m.cpu.registers(), saved, ex >= 0);
		OK(c, d.empty(), "nested:registers", g_who + fmt(": level %d, after the nested call: ", lvl) + d);
		OK(c, stack_above(sp) == stk, "nested:stack", g_who + fmt(": level %d: the nested call changed the interrupted stack", lvl));
		string n = NF[a.fn]; i64 want = n == "add2" ? 13 + lvl : n == "fib" ? rfib(9 + lvl, 0) : n == "nest" ? expected(lvl + 1, 9 + lvl) : 0;
		if (n == "crash") OK(c, lim < 100 ? ex == PROTECTION_FAULT || ex == MACHINE_TIMEOUT || (ex == -1 && a.form == 2) : ex == PROTECTION_FAULT, "nested:exception", g_who + fmt(": the crash ended with %d", ex));
		else if (n == "spin") OK(c, a.form == 1 ? ex == MACHINE_TIMEOUT : ex == -1, "nested:limit", g_who + fmt(": an endless loop ended with exception %d, cut off %d", ex, cut));
		else if (lim == 100000) { OK(c, ex == -1, "nested:exception", g_who + fmt(": nested %s raised %d", n.c_str(), ex)); OK(c, got == want, "nested:result", g_who + fmt(": nested %s returned %ld, expected %ld", n.c_str(), (long)got, (long)want)); }
		else if (n != "add2" || lim == 1) OK(c, (a.form == 1 && ex == MACHINE_TIMEOUT) || (a.form == 2 && ex == -1) || (ex == -1 && got == want), "nested:limit", g_who + fmt(": nested %s with limit %lu ended with %d, returned %ld", n.c_str(), (long)lim, ex, (long)got));
		r = lim == 100000 && ex == -1 && n != "crash" && n != "spin" ? got : 3; c.transitions();
	}
	// (an interrupted execution with its own limit keeps it)
	if (max && max != UINT64_MAX) OK(c, m.max_instructions() == max && m.instruction_counter() >= cnt && m.instruction_counter() <= cnt + 100000, "nested:budget", g_who + fmt(": level %d: limit %lu counter %lu became %lu, %lu", lvl, (long)max, (long)cnt, (long)m.max_instructions(), (long)m.instruction_counter()));
	m.cpu.reg(4) = r; if (g_level == lvl + 1 || true) g_ret.push_back(r);
}
static int g_xlevel;
static i64 expected(int lvl, i64 v) { // value nest(v) returns when its system call is number lvl
	i64 r = 3; if (lvl < (int)g_plan.size()) { auto& a = g_plan[lvl]; string n = NF[a.fn]; if (a.form && a.limit == 0) { if (n == "add2") r = 13 + lvl; else if (n == "fib") r = rfib(9 + lvl, 0); else if (n == "nest") r = expected(lvl + 1, 9 + lvl); } }
	return rnest(v, r);
}
static u64 count_of(u64 f, i64 a, i64 b) { reset(STACK); M->timed_vmcall(f, 1000000, a, b); return M->instruction_counter(); }

int main(int argc, char** argv) {
	Check chk(argc, argv, "C11"); bool T = chk.thorough();
	chk.rule("every list of up to three of seven argument kinds, every homogeneous list of sixteen kinds up to twelve, and long integer/floating-point mixtures x values x call form against the lp64d convention; every return type x boundary values; every instruction limit x function x call form, then resuming or calling again; every tree of nested preempted calls from a system call up to depth three");
	chk.assume("128-bit integers, long double and string_view arguments are not supported by the library's interface and not judged; nested calls are made with preempt and register saving; vmcall always starts at the top of the stack");
	auto args = [&](const char* name, const std::vector<Sig>& t, int split) { chk.section(name, [&t](Ctx& c) { setup(); g_mem.resize(WIN); int i = c.choose((int)t.size(), "signature"); for (int api = 0; api < NAPI; api++) for (g_var = 0; g_var < 3; g_var++) for (u64 off : { 0, 8, 1 }) one(c, t[i], api, off); if (c.want_sample()) { g_var = 0; c.sample(words(t[i].wants())); } }, { .split_depth = split }); };
	static auto t0 = table<0>(std::make_index_sequence<1>()), t1 = table<1>(std::make_index_sequence<NK>()), t2 = table<2>(std::make_index_sequence<NK * NK>()), t3 = table<3>(std::make_index_sequence<NK * NK * NK>());
	static auto th = all_homogeneous(std::make_index_sequence<NKIND>());
	static std::vector<Sig> tm = [] { std::vector<Sig> r; auto add = [&](std::vector<Sig> v) { r.insert(r.end(), v.begin(), v.end()); }; auto X = std::make_index_sequence<24>(); add(mixed<I32, F64, I64>(X)); add(mixed<F64, U32, F32>(X)); add(mixed<F32, F64, I8>(X)); add(mixed<F64, STR, SMALL>(X)); return r; }();
	static std::vector<Sig> ts = t0; ts.insert(ts.end(), t1.begin(), t1.end()); ts.insert(ts.end(), t2.begin(), t2.end());
	args("args-short", ts, 1); args("args-three", t3, 1); args("args-same", th, 1); args("args-mixed", tm, 1);
	chk.section("overflow", [](Ctx& c) { // arguments that do not fit on the stack
		setup(); static const std::vector<size_t> len = { 0x100, 0x20000, 0xfffff, 0x100000, 0x200000, 0x1800000 }; static const std::vector<u64> where = { 0, 16, 32, 0x1000 }; size_t n = c.pick(len); u64 w = c.pick(where); u64 lo = M->memory.data_start(); u64 base = lo + w; string who = fmt("a string of %zu bytes, the stack starts %lu bytes above the first writable byte", n, (long)w); c.at("%s", who.c_str());
		string s(n, 'x'); reset(STACK); std::vector<uint8_t> before(mem(0), mem(DATA + 0x1000)); M->memory.set_stack_address(base); int ex = -1; try { M->timed_vmcall(g_sym["fast_exit"], 100, s); } catch (const MachineException& e) { ex = e.type(); } c.traces();
		if (n + 16 > w) { OK(c, ex == PROTECTION_FAULT, "overflow", who + fmt(": exception %d", ex)); OK(c, !memcmp(mem(0), before.data(), before.size()), "overflow", who + ": memory was changed"); } else { OK(c, ex == -1, "overflow", who + fmt(": exception %d", ex)); }
		memcpy(mem(0), before.data(), 0) ; memcpy(mem(DATA), g_data0.data(), DATALEN); M->memory.set_stack_address(STACK); int ex2 = -1; i64 r = 0; try { r = M->vmcall<i64>(g_sym["add2"], 1, 2); } catch (const std::exception&) { ex2 = 1; } OK(c, ex2 == -1 && r == 3, "overflow", who + ": the next call failed"); c.nontrivial(); }, { .split_depth = 1 });
	chk.section("returns", [](Ctx& c) {
		setup(); static const std::vector<u64> V = [] { std::vector<u64> v; for (int b = 0; b < 64; b++) for (int d = -1; d < 2; d++) { v.push_back((1ull << b) + d); v.push_back(-((1ull << b) + d)); } return v; }(); u64 x = c.pick(V); u64 f = g_sym["reti"]; reset(STACK); c.traces();
		auto t = [&]<typename R>(const char* n) { R a = M->vmcall<R>(f, x); OK(c, a == (R)x, string("returns:") + n, fmt("%s from %#lx is %#lx", n, (long)x, (long)(u64)a)); R b = M->vmcall<R, 10000>(f, x); OK(c, b == (R)x, string("returns:") + n, fmt("%s (with limit) from %#lx", n, (long)x)); R d = M->vmcall<R>("reti", x); OK(c, d == (R)x, string("returns:") + n, fmt("%s (by name) from %#lx", n, (long)x)); };
		t.operator()<int8_t>("int8"); t.operator()<uint8_t>("uint8"); t.operator()<int16_t>("int16"); t.operator()<uint16_t>("uint16"); t.operator()<int32_t>("int32"); t.operator()<uint32_t>("uint32"); t.operator()<int64_t>("int64"); t.operator()<uint64_t>("uint64"); t.operator()<bool>("bool"); t.operator()<E8>("enum:int8"); t.operator()<E32>("enum:uint32");
		double d; memcpy(&d, &x, 8); double r = M->vmcall<double>(g_sym["retd"], d); OK(c, !memcmp(&r, &d, 8), "returns:double", fmt("double from %#lx", (long)x)); r = M->vmcall<double, 100>(g_sym["retd"], d); OK(c, !memcmp(&r, &d, 8), "returns:double", fmt("double (with limit) from %#lx", (long)x)); float fl; uint32_t lo = x; memcpy(&fl, &lo, 4); if (fl == fl) { float q = M->vmcall<float>(g_sym["retf"], fl); OK(c, !memcmp(&q, &fl, 4), "returns:float", fmt("float from %#x", lo)); q = M->vmcall<float, 100>("retf", fl); OK(c, !memcmp(&q, &fl, 4), "returns:float", fmt("float (by name) from %#x", lo)); }
		OK(c, (M->preempt<true, true>(1000, f, x)) == x && M->cpu.reg(4) == x, "returns:preempt", fmt("preempt from %#lx", (long)x)); OK(c, (M->preempt<true, false>(1000, "reti", x)) == x, "returns:preempt", fmt("preempt (by name) from %#lx", (long)x)); M->timed_vmcall(f, 100, x); OK(c, M->cpu.reg(4) == x, "returns:timed", fmt("timed_vmcall from %#lx", (long)x));
		int a = (int)x, b2 = (int)(x >> 3); OK(c, M->vmcall<int>(g_sym["icmp"], a, b2) == (a < b2 ? 1 : a == b2 ? 2 : 3), "returns:icmp", fmt("icmp(%d,%d)", a, b2)); unsigned ua = (unsigned)x, ub = (unsigned)(x >> 1); OK(c, M->vmcall<unsigned>("ucmp", ua, ub) == (ua < ub ? 1u : ua == ub ? 2u : 3u), "returns:ucmp", fmt("ucmp(%u,%u)", ua, ub));
		OK(c, M->vmcall<i64>("many", 1, 2, 3, 4, 5, 6, 7, 8, x, 10, 11, (int)x) == (i64)(1 + 4 + 9 + 16 + 25 + 36 + 49 + 64 + x * 9 + 100 + 121 + (u64)(i64)(int)x * 12), "returns:many", fmt("many with %#lx", (long)x)); OK(c, M->vmcall<double>("manyf", 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.5, 10.25) == 1 + 4 + 9 + 16 + 25 + 36 + 49 + 64 + 9.5 * 9 + 102.5, "returns:manyf", "manyf");
		OK(c, (M->vmcall<u64>("align") & 15) == 0, "returns:align", "misaligned stack pointer"); int ex = -1; try { M->vmcall<int>("no_such_function", 1); } catch (const MachineException& e) { ex = e.type(); } OK(c, ex == INVALID_PROGRAM, "returns:unknown", fmt("calling an unknown function: %d", ex)); c.nontrivial(); }, { .split_depth = 1 });
	// every limit of every function and call form
	chk.section("limits", [T](Ctx& c) {
		setup(); g_handler = nullptr; auto& f = c.pick(FN); static const std::vector<const char*> forms = { "timed_vmcall", "vmcall", "preempt<1,1>", "preempt<1,0>", "preempt<0,1>", "preempt<0,0>" }; int form = c.choose(6, "call form"); int after = c.choose(4, "then"); u64 a = g_sym[f.name]; u64 N = count_of(a, f.a, f.b); i64 want = f.ref(f.a, f.b); u64 lim = c.choose(std::min<u64>(N + 4, T ? 4000 : 400), "limit"); if (form == 1 && lim != 3 && lim != 60) c.prune();
		string who = fmt("%s (%lu instructions), %s with limit %lu", f.name, (long)N, forms[form], (long)lim); c.at("%s", who.c_str()); c.traces(); reset(STACK); auto regs = M->cpu.registers(); auto stk = stack_above(regs.get(3)); int ex = -1; i64 got = 0;
		try { switch (form) { case 0: M->timed_vmcall(a, lim, f.a, f.b); got = M->cpu.reg(4); break; case 1: got = lim == 3 ? M->vmcall<i64, 3>(a, f.a, f.b) : M->vmcall<i64, 60>(a, f.a, f.b); break; case 2: got = M->preempt<true, true>(lim, a, f.a, f.b); break; case 3: got = M->preempt<true, false>(lim, a, f.a, f.b); break; case 4: got = M->preempt<false, true>(lim, a, f.a, f.b); break; default: got = M->preempt<false, false>(lim, a, f.a, f.b); } } catch (const MachineException& e) { ex = e.type(); }
		bool cut = ex == MACHINE_TIMEOUT || ((form >= 4) && M->instruction_limit_reached());
		OK(c, ex == -1 || (ex == MACHINE_TIMEOUT && form < 4), "limits:exception", who + fmt(": exception %d", ex)); if (lim >= N) OK(c, !cut, "limits:early", who + ": cut off although the limit suffices"); if (lim + 64 < N) OK(c, cut, "limits:none", who + ": not cut off"); if (!cut) OK(c, got == want, "limits:result", who + fmt(": returned %ld, expected %ld", (long)got, (long)want));
		if (form == 2 || form == 4) { string d = regs_diff(M->cpu.registers(), regs, ex >= 0); OK(c, d.empty(), "limits:registers", who + ": " + d); OK(c, stack_above(regs.get(3)) == stk, "limits:stack", who + ": the interrupted stack was changed"); }
		if (form == 3 || (form == 5 && !cut)) OK(c, M->cpu.reg(3) == regs.get(3), "limits:stack", who + fmt(": the stack pointer is %#lx, was %#lx", (long)M->cpu.reg(3), (long)regs.get(3)));
		if (cut) c.nontrivial(); bool resumable = cut && (form == 0 || form == 1 || form == 5);
		if (after == 0 && resumable) { bool s = M->simulate(1000000, M->instruction_counter()); OK(c, s && (i64)M->cpu.reg(4) == want, "limits:resume", who + fmt(": continuing the call ends with %ld, expected %ld", (long)M->cpu.reg(4), (long)want)); }
		else if (after == 1) { i64 r = M->vmcall<i64>(g_sym["add2"], 40, 2); OK(c, r == 42, "limits:next", who + fmt(": the next vmcall returned %ld", (long)r)); }
		else if (after == 2) { i64 r = 0; int e2 = -1; try { r = M->preempt<true, true>(1000000, a, f.a, f.b); } catch (const MachineException& e) { e2 = e.type(); } OK(c, e2 == -1 && r == want, "limits:next", who + fmt(": the next preempt returned %ld (exception %d)", (long)r, e2)); }
		else { int e2 = -1; try { M->timed_vmcall(a, N + 64, f.a, f.b); } catch (const MachineException& e) { e2 = e.type(); } OK(c, e2 == -1 && (i64)M->cpu.reg(4) == want, "limits:next", who + fmt(": the next timed_vmcall gave %ld (exception %d)", (long)M->cpu.reg(4), e2)); }
		c.state(mix(M->cpu.pc(), mix(lim, cut))); }, { .split_depth = 3 });
	// histories at top level: calls never disturb each other
	chk.section("sequence", [T](Ctx& c) {
		setup(); g_handler = [](Machine& m) { m.cpu.reg(4) = 3; }; static u64 nfib = 0; if (!nfib) { reset(STACK); nfib = count_of(g_sym["fib"], 5, 0); if (nfib + 64 > 400) { fprintf(stderr, "fib(5) takes %lu\n", (long)nfib); abort(); } }
		reset(STACK); static const std::vector<u64> before{ 0, 1000000, 1ull << 40 }; u64 cnt = c.pick(before, "instruction counter before"); M->set_instruction_counter(cnt); string who = fmt("counter %lu:", (long)cnt); int len = T ? 6 : 5; for (int i = 0; i < len; i++) {
			int k = c.choose(10, "call"); int ex = -1; i64 got = 0, want = 0; int wex = -1; auto regs = M->cpu.registers(); auto stk = regs.get(3) <= STACK ? stack_above(regs.get(3)) : std::vector<uint8_t>(); bool saved = false;
			try { switch (k) { case 0: who += " vmcall fib"; got = M->vmcall<i64>(g_sym["fib"], 5); want = 5; break; case 1: who += " timed fib cut"; wex = MACHINE_TIMEOUT; M->timed_vmcall(g_sym["fib"], 20, 12); break; case 2: who += " preempt nest"; saved = true; got = M->preempt<true, true>(100000, g_sym["nest"], 6, 0); want = rnest(6, 3); break; case 3: who += " preempt spin cut"; saved = true; wex = MACHINE_TIMEOUT; M->preempt<true, true>(50, g_sym["spin"], 1); break; case 4: who += " vmcall crash"; wex = PROTECTION_FAULT; M->vmcall<i64>(g_sym["crash"], 1); break; case 5: who += " preempt crash"; saved = true; wex = PROTECTION_FAULT; M->preempt<true, true>(1000, g_sym["crash"], 1); break; case 6: who += " preempt unsaved fill"; got = M->preempt<true, false>(100000, g_sym["fill"], 3, 2); want = rfill(3, 2); if (M->cpu.reg(3) != regs.get(3)) c.fail("sequence:stack", who + ": stack pointer not released"); break; case 7: who += " vmcall<400> fib"; got = M->vmcall<i64, 400>(g_sym["fib"], 5); want = 5; break; case 8: who += " vmcall<50> spin"; wex = MACHINE_TIMEOUT; (M->vmcall<i64, 50>(g_sym["spin"], 1)); break; default: who += " vmcall strings"; got = M->vmcall<i64>("strsum", string("hello")); { i64 r = 0; for (char ch : string("hello")) r = r * 131 + ch; want = r; } } } catch (const MachineException& e) { ex = e.type(); }
			c.transitions(); if (!OK(c, ex == wex && got == want, "sequence:result", who + fmt(": exception %d (expected %d), result %ld (expected %ld)", ex, wex, (long)got, (long)want))) return;
			if (saved) { string d = regs_diff(M->cpu.registers(), regs, ex >= 0); if (!OK(c, d.empty(), "sequence:registers", who + ": " + d)) return; if (regs.get(3) <= STACK) if (!OK(c, stack_above(regs.get(3)) == stk, "sequence:stack", who + ": the interrupted stack was changed")) return; }
		} c.traces(); c.nontrivial(); c.state(hash_bytes(who.data(), who.size())); }, { .split_depth = 2 });
	chk.section("nested", [T](Ctx& c) {
		setup(); g_c = &c; g_plan.clear(); g_level = 0; g_ret.clear(); int depth = 0; string who; bool more = true;
		while (more && depth < (T ? 5 : 3)) { int k = c.choose((int)NF.size() * 6 + 1, "nested call"); if (!k) { g_plan.push_back({ 0, 0, 0 }); break; } k--; Act a{ k % 2 + 1, k / 6, k / 2 % 3 }; g_plan.push_back(a); who += fmt(" > preempt<%d,1> %s limit %d", a.form == 1, NF[a.fn], a.limit); more = a.fn == 4 && a.limit == 0; depth++; }
		int outer = c.choose(4, "outer form"); g_who = fmt("outer form %d:", outer) + who; c.at("%s", g_who.c_str()); g_handler = on_call; i64 want = expected(0, 21);
		// number of instructions of the outer call alone
		static u64 N0 = 0; auto plan = g_plan; if (!N0) { g_plan.clear(); N0 = count_of(g_sym["nest"], 21, 7); g_plan = plan; }
		auto run = [&](u64 limit) { reset(STACK); g_level = 0; int ex = -1; i64 got = 0; auto regs = M->cpu.registers();
			try { if (outer == 0) { M->timed_vmcall(g_sym["nest"], limit, 21, 7); got = M->cpu.reg(4); } else if (outer == 1) got = M->vmcall<i64>(g_sym["nest"], 21, 7); else if (outer == 2) got = M->preempt<true, true>(limit, g_sym["nest"], 21, 7); else { M->timed_vmcall(g_sym["nest"], 10000000, 21, 7); got = M->cpu.reg(4); } } catch (const MachineException& e) { ex = e.type(); } c.traces();
			if (outer == 2) { string d = regs_diff(M->cpu.registers(), regs, ex >= 0); OK(c, d.empty(), "nested:registers", g_who + ": after the outer call: " + d); }
			if (limit >= N0 + 1000000) { OK(c, ex == -1 && got == want, "nested:result", g_who + fmt(": returned %ld (exception %d), expected %ld", (long)got, ex, (long)want)); if (outer == 0) { u64 n = M->instruction_counter(); OK(c, n >= N0, "nested:counter", g_who + fmt(": the counter says %lu, the outer call alone takes %lu", (long)n, (long)N0)); } }
			else if (ex == -1) OK(c, got == want, "nested:result", g_who + fmt(" with limit %lu: returned %ld, expected %ld", (long)limit, (long)got, (long)want)); else OK(c, ex == MACHINE_TIMEOUT, "nested:exception", g_who + fmt(" with limit %lu: exception %d", (long)limit, ex)); };
		run(N0 + 10000000); if (outer == 0 || outer == 2) { for (u64 l = 0; l <= N0 + 1; l += 1) run(l); } else { for (int k = 0; k < 2; k++) run(N0 + 10000000); }
		c.nontrivial(); c.state(hash_bytes(g_who.data(), g_who.size())); }, { .split_depth = 2 });
	chk.section("nested-twice", [T](Ctx& c) { // two host calls from one guest function
		setup(); g_c = &c; g_plan.clear(); g_who = "nest2:"; for (int i = 0; i < 2; i++) { int k = c.choose((int)(NF.size() - 1) * 6 + 1, "nested call"); if (!k) { g_plan.push_back({ 0, 0, 0 }); continue; } k--; Act a{ k % 2 + 1, k / 6, k / 2 % 3 }; g_plan.push_back(a); g_who += fmt(" preempt<%d,1> %s limit %d;", a.form == 1, NF[a.fn], a.limit); }
		g_handler = on_call; g_level = 0; reset(STACK); i64 want = expected(0, 5) ^ (expected(1, 6) * 3), got = 0; int ex = -1; try { got = M->vmcall<i64>(g_sym["nest2"], 5, 7); } catch (const MachineException& e) { ex = e.type(); } c.traces(); OK(c, ex == -1 && got == want, "nested:result", g_who + fmt(" returned %ld (exception %d), expected %ld", (long)got, ex, (long)want)); 
		g_level = 0; reset(STACK); ex = -1; try { M->timed_vmcall(g_sym["nest2"], 100000, 5, 7); got = M->cpu.reg(4); } catch (const MachineException& e) { ex = e.type(); } OK(c, ex == -1 && got == want, "nested:result", g_who + fmt(" (timed) returned %ld (exception %d), expected %ld", (long)got, ex, (long)want)); c.nontrivial(); }, { .split_depth = 1 });
	return chk.finish();
}
