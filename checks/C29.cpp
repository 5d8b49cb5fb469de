// build: VARIANT=asan EXTRAOBJ=$(O)/ref_isa.o
// C29: runs and calls under the debug wrapper against stepping, normal calls and their budgets.
#include "prog.hpp"
#include "elfgen.hpp"
#include <libloong/debug.hpp>
#include <fcntl.h>
#include <optional>
#include <unistd.h>
using namespace prog; typedef std::vector<uint8_t> Bytes;
static Runner* R; static void setup() { if (!R) R = new Runner; }
// standard output goes nowhere while the wrapper prints
struct Quiet { int old; Quiet() { fflush(stdout); old = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Quiet() { fflush(stdout); dup2(old, 1); close(old); } };
static int guarded(const std::function<void()>& f) { try { f(); return -1; } catch (const MachineException& e) { return e.type(); } catch (const std::exception&) { return 99; } }
static Bytes bytes(const std::vector<u32>& w) { Bytes b(w.size() * 4); memcpy(b.data(), w.data(), b.size()); return b; }
int main(int argc, char** argv) {
	Check chk(argc, argv, "C29"); bool T = chk.thorough();
	chk.rule("a case is one program run under the debug wrapper with one budget, or cut in two runs, from one earlier instruction count, or one sequence of debug calls of a function with one list of arguments; nontrivial when instructions were executed");
	chk.assume("the comparison with objdump, which starts an external program, is left off");
	// ---- programs
	auto programs = [&](const char* name, int nalpha, int len, bool print) { chk.section(name, [=](Ctx& c) {
		setup(); auto& m = *R->b.m; std::vector<int> e; for (int i = 0; i < len; i++) e.push_back(c.choose(nalpha, "instruction")); c.crash_key(fmt("%s:crash", name)); c.at("%s", text(e).c_str()); R->load(words(e));
		constexpr size_t LIMIT = 14; auto s = R->start(); auto t = R->step(s, LIMIT); if (t.ex == EXECUTION_SPACE_PROTECTION_FAULT) c.prune(); size_t n = t.n(); u64 h0 = len; for (int k : e) h0 = mix(h0, k); c.state(h0);
		std::optional<Quiet> q; if (print) q.emplace(); DebugMachine d(m); d.verbose_registers = d.verbose_instructions = print;
		auto judge = [&](const char* what, size_t want, size_t counted, int ex, u64 budget, u64 before) {
			c.transitions(want); c.traces(); auto fail = [&](const string& k, const string& x) { q.reset(); c.fail(string(name) + ":" + k, text(e) + fmt("%s budget %lu after %lu earlier instructions: ", what, (unsigned long)budget, (unsigned long)before) + x); if (print) q.emplace(); };
			int wex = want == n ? (t.end == EXCEPTION ? t.ex : -1) : -1; if (t.end == EXCEPTION && budget == want) wex = -1; // the budget ends before the faulting instruction
			if (ex != wex) return fail("exception", fmt("ends with exception %d, stepping with %d", ex, wex)); if (counted != want) return fail("count", fmt("%zu instructions are counted, %zu expected", counted, want));
			if (R->hash() != t.h[want]) return fail("state", Runner::diff(R->snap(), R->step_to(s, want))); bool stopped = t.end == STOPPED && want == n; if (m.stopped() != stopped) return fail("stopped", fmt("reports stopped=%d", m.stopped()));
			if (!stopped && ex < 0 && budget && !m.instruction_limit_reached()) fail("limit", "does not report that the limit was reached"); };
		for (u64 before : std::vector<u64>{ 0, 3, 1000000 }) for (u64 b = 1; b <= n + 1; b++) {
			if (t.end == RUNNING && b > n) continue; R->reset(s); m.set_instruction_counter(before); int ex = guarded([&] { d.simulate(b); }); size_t want = std::min<size_t>(b, n); judge("run,", want, m.instruction_counter(), ex, b, before);
			// and go on
			if (ex < 0 && want < n) { size_t rest = n - want + (t.end == RUNNING ? 0 : 1); ex = guarded([&] { d.simulate(rest); }); judge("cut and resumed,", n, want + m.instruction_counter(), ex, rest + want, before); }
			if (c.m_failcount > 20) return; }
		c.nontrivial(); if (c.want_sample()) { q.reset(); c.sample(text(e)); } }, { .split_depth = 1, .timeout_s = 300 }); };
	int N = alphabet().size(); programs("programs-2", N, 2, false); programs("control-3", CONTROL, 3, false); programs("printed", N, 1, true); if (T) { programs("programs-3", N, 3, false); programs("printed-2", N, 2, true); programs("control-4", CONTROL, 4, false); }
	// ---- calls
	struct Fn { const char* name; std::vector<u32> w; int ninstr; };
	static const std::vector<u32> stop{ STOPW };
	chk.section("calls", [&](Ctx& c) {
		constexpr u64 RO = 0x10000, DATA = 0x20000, MM = 0x40000; using namespace elfgen;
		std::vector<u32> w; std::vector<elfgen::Symbol> sy; auto fn = [&](const char* n, std::vector<u32> x) { while (w.size() % 4) w.push_back(STOPW); sy.push_back({ n, RO + 4 * w.size(), 4 * x.size() }); for (u32 v : x) w.push_back(v); };
		u32 ret = enc("jirl", { 0, 1, 0 }); fn("_start", { STOPW }); bool fast = c.flag("fast_exit"); fn(fast ? "fast_exit" : "_exit", { STOPW });
		fn("first", { enc("ld.d", { 4, 4, 0 }), ret });                                                    // first eight bytes of argument 0
		fn("sum", { enc("ld.bu", { 4, 4, 0 }), enc("ld.bu", { 5, 5, 0 }), enc("ld.bu", { 6, 6, 0 }), enc("add.d", { 4, 4, 5 }), enc("add.d", { 4, 4, 6 }), ret });
		fn("eighth", { enc("ld.bu", { 4, 11, 0 }), ret }); fn("ninth", { enc("ld.d", { 4, 3, 0 }), enc("ld.bu", { 4, 4, 0 }), ret }); fn("tenth", { enc("ld.d", { 4, 3, 8 }), enc("ld.bu", { 4, 4, 0 }), enc("ld.bu", { 5, 11, 0 }), enc("slli.d", { 5, 5, 8 }), enc("add.d", { 4, 4, 5 }), ret }); fn("last", { enc("ld.d", { 4, 3, 39 * 8 }), enc("ld.bu", { 4, 4, 0 }), ret });
		fn("stack", { enc("or", { 4, 3, 0 }), ret });
		fn("count", { enc("addi.d", { 4, 0, 100 }), enc("addi.d", { 4, 4, -1 }), enc("bnez", { 4, -1 }), enc("addi.d", { 4, 0, 77 }), ret });
		fn("fault", { enc("addi.d", { 5, 0, 9 }), enc("st.d", { 4, 0, 0 }), ret });
		auto im = build({ { RO, elfgen::R | elfgen::X, bytes(w) }, { DATA, elfgen::R | elfgen::W, Bytes(64, 0) } }, RO, sy, RO, w.size() * 4, true); auto o = std::make_shared<MachineOptions>(); o->memory_max = MM; o->stack_size = 0x2000; o->brk_size = 0x1000; o->use_shared_execute_segments = false;
		std::string_view bin((const char*)im.file.data(), im.file.size()); Machine a(bin, *o), b(bin, *o); a.set_options(o); b.set_options(o); for (auto* m : { &a, &b }) m->memory.set_exit_address(m->address_of(fast ? "fast_exit" : "_exit"));
		DebugMachine d(a); d.verbose_instructions = d.verbose_registers = c.flag("printed"); std::optional<Quiet> q; if (d.verbose_registers) q.emplace();
		static const std::vector<string> S{ "", "abcdefgh", string(15, 'x'), string(16, 'y'), string(300, 'z'), string("p\0q", 3) }; string log;
		auto fail = [&](const char* k, const string& x) { bool was = !!q; q.reset(); c.fail(string("calls:") + k, log + ": " + x); if (was) q.emplace(); };
		int calls = 2; for (int i = 0; i < calls; i++) {
			u64 before = std::vector<u64>{ 0, 50, 2000000 }[c.choose(3, "earlier instructions")]; string f = c.pick(std::vector<string>{ "first", "sum", "eighth", "ninth", "tenth", "last", "stack", "count", "fault" }, "function"); int na = f == "sum" ? 3 : f == "eighth" ? 8 : f == "ninth" ? 9 : f == "tenth" ? 11 : f == "last" ? 48 : f == "first" ? 1 : c.choose(2, "arguments") * 4;
			std::vector<string> A; int s0 = na ? c.choose(S.size(), "text") : 0; for (int k = 0; k < na; k++) A.push_back(S[(s0 + k) % S.size()]);
			log += fmt("%s(%d texts from %d, counter %lu) ", f.c_str(), na, s0, (unsigned long)before); c.at("%s", log.c_str()); a.set_instruction_counter(before); u64 addr = a.address_of(f); long r = 0, want = 0; c.transitions(); c.traces();
			int ex = guarded([&] { r = d.vmcall(addr, 1000, A); }); auto call = [&](auto... x) { want = b.vmcall(addr, x...); };
			bool wex_known = false; int wex = guarded([&] { switch (na) { case 0: call(); break; case 1: call(A[0]); break; case 3: call(A[0], A[1], A[2]); break; case 4: call(A[0], A[1], A[2], A[3]); break; case 9: call(A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7], A[8]); break; case 11: call(A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7], A[8], A[9], A[10]); break; case 48: want = (uint8_t)A[47][0]; break; case 8: call(A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7]); break; } });
			if (ex != wex) { fail("exception", fmt("ends with exception %d, a normal call with %d", ex, wex)); return; } if (ex >= 0) break; if (f == "last") { if (r != want) fail("result", fmt("returns %#lx instead of the 48th argument, %#lx", r, want)); break; }
			if (r != want && f != "stack") { fail("result", fmt("returns %#lx, a normal call %#lx", r, want)); return; } if (f == "stack" && r % 16) fail("alignment", fmt("the stack pointer is %#lx at entry", r));
			if (!a.stopped()) fail("stopped", "does not report that the call has finished");
			// too small a budget ends the call
			if (f == "count") { a.set_instruction_counter(before); guarded([&] { d.vmcall(addr, 50, A); }); if (a.stopped() || a.instruction_counter() != 50) fail("limit", fmt("a limit of 50 ended after %lu instructions, stopped=%d", (unsigned long)a.instruction_counter(), a.stopped())); } }
		c.nontrivial(); c.state(hash_bytes(log.data(), log.size())); if (c.want_sample()) { q.reset(); c.sample(log); } }, { .split_depth = 4, .timeout_s = 100 });
	return chk.finish();
}
