// build: VARIANT=plain EXTRAOBJ=$(O)/ref_isa.o
// C10: instruction budgets stop any guest, and resuming a cut-off run loses nothing.
#include "prog.hpp"
#include <libloong/debug.hpp>
using namespace prog;
static Runner* R; static void setup() { if (!R) R = new Runner; }
constexpr size_t LIMIT = 40;
struct Out { int ex; bool ret; };
static Out run(Runner& R, u64 max, u64 counter) { try { return { -1, R.b.m->simulate(max, counter) }; } catch (const MachineException& e) { return { (int)e.type(), false }; } catch (const std::exception&) { return { 100, false }; } }
// one slice: budget for m more instructions, starting after `done` instructions of the trace, the counter starting at c0. Returns the number executed, or -1 after a failure
static i64 slice(Ctx& c, const Runner::Trace& t, size_t done, u64 m, u64 c0, const string& key, const std::function<string()>& text) {
	auto& M = *R->b.m; auto bad = [&](const string& d) { c.fail(key, fmt("%s: after %zu instructions, budget %lu (counter from %lu): %s", text().c_str(), done, (long)m, (long)c0, d.c_str())); return -1; };
	g_seen.clear(); Out o = run(*R, c0 + m, c0); u64 n = M.instruction_counter() - c0; c.traces();
	if (M.instruction_counter() < c0) return bad(fmt("the counter went back to %lu", (long)M.instruction_counter()));
	size_t e = done + n; if (e > t.n()) return bad(t.end == RUNNING ? fmt("executed %lu instructions", (long)n) : fmt("executed %lu instructions, the program has %zu left", (long)n, t.n() - done));
	if (R->hash() != t.h[e]) return bad(fmt("the counter says %lu instructions, but the state is not the one after them", (long)n));
	bool end = e == t.n() && t.end != RUNNING;
	if (o.ex >= 0) { if (e != t.n() || t.end != EXCEPTION || o.ex != t.ex) return bad(fmt("exception %d after %lu", o.ex, (long)n)); return n; }
	for (size_t k = done + (m ? m : 1); k < e; k++) if (t.pc[k] != t.pc[k - 1] + 4) return bad(fmt("went on past a jump at instruction %zu although the budget was used up", k - done));
	bool stop = end && t.end == STOPPED;
	if (o.ret != stop) return bad(fmt("simulate returned %d, the machine %s", o.ret, stop ? "stopped" : "was cut off"));
	if (M.stopped() != stop) return bad(fmt("stopped()=%d", M.stopped())); if (M.instruction_limit_reached() != !stop) return bad(fmt("instruction_limit_reached()=%d", M.instruction_limit_reached()));
	if (!stop && n < m) return bad(fmt("cut off after only %lu instructions", (long)n));
	size_t k = 0; for (u64 at : t.calls) if (at >= done && at < e) { if (k >= g_seen.size()) return bad("a system call was skipped"); u64 v = g_seen[k++]; if (v < c0 + (at - done) || v > c0 + (at - done) + 1) return bad(fmt("system call at instruction %lu saw the counter %lu", (long)(at - done), (long)v)); }
	if (k != g_seen.size()) return bad("a system call was made twice");
	return n;
}
int main(int argc, char** argv) {
	Check chk(argc, argv, "C10");
	chk.rule("every program up to a length over an instruction alphabet (data, memory, faults, branches, calls, system calls that stop, jump or throw), cut off with every budget and resumed with every pair of budgets: the state at each cut equals the state after exactly as many single steps as the counter says, never passes a taken jump after the budget is used up, and the run reports truthfully whether it was cut off; every branch instruction in every loop shape stops within its budget");
	auto budgets = [&](const char* name, int nalpha, int len, int maxm) { chk.section(name, [=](Ctx& c) {
		setup(); std::vector<int> e; for (int i = 0; i < len; i++) e.push_back(c.choose(nalpha, "instruction")); c.crash_key(fmt("%s:crash", name)); c.at("%s", text(e).c_str());
		R->load(words(e)); auto s = R->start(); auto t = R->step(s, LIMIT); c.transitions(t.n()); u64 h = len; for (int k : e) h = mix(h, k); c.state(h);
		for (int m = 0; m <= maxm; m++) { R->reset(s); if (slice(c, t, 0, m, m & 1 ? 0 : 1000, name, [&] { return text(e); }) < 0) return; if (t.end != RUNNING && (size_t)m > t.n()) break; }
		if (t.end != RUNNING) { R->reset(s); slice(c, t, 0, UINT64_MAX - 2000, 1000, name, [&] { return text(e); }); } c.nontrivial();
		// exact stepping
		if (t.end != EXCEPTION || t.n()) for (int m : { 1, 2, 5 }) { R->reset(s); R->b.m->set_max_instructions(7 + m); R->b.m->set_instruction_counter(7); size_t want = std::min<size_t>(m, t.n()); int ex = -1; try { R->b.m->cpu.simulate_precise(); } catch (const MachineException& x) { ex = x.type(); } if (ex == EXECUTION_SPACE_PROTECTION_FAULT) continue; u64 n = R->b.m->instruction_counter() - 7; if (t.end == EXCEPTION && t.ex == EXECUTION_SPACE_PROTECTION_FAULT && (size_t)m > t.n()) continue;
			int wex = t.end == EXCEPTION && (size_t)m > t.n() ? t.ex : -1; if (n != want || R->hash() != t.h[want] || ex != wex) { c.fail("precise", fmt("%s: simulate_precise with a budget of %d executed %lu, exception %d (expected %zu, %d)", text(e).c_str(), m, (long)n, ex, want, wex)); return; } }
		if (c.want_sample()) c.sample(text(e));
	}, { .split_depth = 2, .timeout_s = 60 }); };
	int N = alphabet().size(); budgets("budgets-3", N, 3, 10); budgets("budgets-4", CONTROL, 4, 8); if (chk.thorough()) { budgets("budgets-5", CONTROL, 5, 8); budgets("budgets-4-all", N, 4, 6); }
	auto slices = [&](const char* name, int nalpha, int len, int maxm) { chk.section(name, [=](Ctx& c) {
		setup(); std::vector<int> e; for (int i = 0; i < len; i++) e.push_back(c.choose(nalpha, "instruction")); c.crash_key(fmt("%s:crash", name)); c.at("%s", text(e).c_str());
		R->load(words(e)); auto s = R->start(); auto t = R->step(s, LIMIT); c.transitions(t.n());
		for (int m1 = 1; m1 <= maxm; m1++) for (int m2 = 1; m2 <= maxm; m2++) for (int keep = 0; keep < 2; keep++) {
			R->reset(s); size_t done = 0; for (int k = 0; k < 64; k++) { i64 n = slice(c, t, done, k & 1 ? m2 : m1, keep ? done : 0, name, [&] { return fmt("%s sliced %d/%d", text(e).c_str(), m1, m2); }); if (n < 0) return; done += n; if (done == t.n() && t.end != RUNNING) break; if (t.end == RUNNING && done + 12 > t.n()) break; if (k == 63) { c.fail(name, text(e) + " does not finish in 64 slices"); return; } }
			if (t.end == STOPPED && !R->b.m->stopped()) { c.fail(name, text(e) + " did not report the stop"); return; } }
		u64 h = len; for (int k : e) h = mix(h, k); c.state(h); c.nontrivial();
	}, { .split_depth = 2, .timeout_s = 60 }); };
	slices("slices-3", N, 3, 2); slices("slices-control-3", CONTROL, 3, 5); slices("slices-control-4", CONTROL, 4, 3); if (chk.thorough()) slices("slices-control-5", CONTROL, 5, 2);
	// ---- every way of looping forever
	chk.section("endless", [](Ctx& c) {
		setup(); static const std::vector<const char*> br = { "b", "bl", "jirl", "beq", "bne", "blt", "bge", "bltu", "bgeu", "beqz", "bnez", "bceqz", "bcnez", "syscall", "syscall-immediate" };
		string n = br[c.choose(br.size(), "branch")]; int shape = c.choose(5, "loop shape"); u64 m = c.pick(std::vector<u64>{ 1, 2, 3, 7, 100, 4096, 100000 }, "budget"); int seg = c.choose(2, "second segment"); c.crash_key("endless:" + n); c.at("%s shape %d budget %lu", n.c_str(), shape, (long)m);
		// shapes: 0 onto itself; 1 back over one instruction; 2 forward over a stop and back; 3 taken and untaken alternately; 4 a long body
		auto jump = [&](int d) -> std::vector<u32> { if (n == "b" || n == "bl") return { enc(n.c_str(), { d }) }; if (n == "jirl") return { enc("jirl", { 0, 17, 0 }) }; if (n == "beqz" || n == "bnez") return { enc(n.c_str(), { n == "beqz" ? 0 : 7, d }) }; if (n == "bceqz" || n == "bcnez") return { enc(n.c_str(), { n == "bceqz" ? 0 : 1, d }) }; if (n == "syscall") return { enc("syscall", { 0 }) };
			bool eq = n == "beq" || n == "bge" || n == "bgeu"; return { enc(n.c_str(), { eq ? 7 : 0, 7, d }) }; };
		if (n == "syscall-immediate") { c.prune(); }
		std::vector<u32> p; int body = shape == 4 ? 300 : shape == 1 || shape == 3 ? 1 : 0; size_t target = 0;
		if (shape == 3) p.push_back(enc("beq", { 0, 7, 5 }));   // never taken
		if (shape == 2) { auto j = jump(2); p.push_back(n == "jirl" || n == "syscall" ? enc("b", { 2 }) : j[0]); p.push_back(STOPW); p.push_back(enc("addi.d", { 6, 6, 1 })); }
		for (int i = 0; i < body; i++) p.push_back(enc("addi.d", { 6, 6, 1 }));
		auto j = jump(-(int)p.size()); p.push_back(j[0]); size_t period = p.size() - (shape == 2 ? 1 : 0);
		R->load(p); auto s = R->start(); u64 entry = s.pc; s.r[7] = 1; s.r[6] = 0; s.cf[0] = 0; s.cf[1] = 1; s.r[17] = R->at(target); s.r[13] = R->at(target); s.r[11] = 3;
		if (seg) { std::vector<u32> q(R->PAD, STOPW); q.insert(q.end(), p.begin(), p.end()); q.insert(q.end(), R->PAD, STOPW); R->b.m->memory.create_execute_segment(*R->b.opt, (const uint8_t*)q.data(), 0x40000000, q.size() * 4, false); u64 d = 0x40000000 - R->CODE; s.pc += d; s.r[17] += d; s.r[13] += d; entry = s.pc; }
		R->reset(s); Out o = run(*R, m, 0); u64 k = R->b.m->instruction_counter(); c.traces(); c.state(mix(hash_bytes(n.data(), n.size()), shape * 1000 + m * 2 + seg)); c.nontrivial();
		string who = fmt("%s, loop shape %d, budget %lu%s", n.c_str(), shape, (long)m, seg ? ", second segment" : "");
		if (o.ex >= 0) { c.fail("endless:" + n, fmt("%s: exception %d", who.c_str(), o.ex)); return; }
		if (o.ret || R->b.m->stopped() || !R->b.m->instruction_limit_reached()) c.fail("endless:" + n, who + ": not reported as cut off");
		if (k < m || k >= m + period) c.fail("endless:" + n, fmt("%s: executed %lu instructions, a pass takes %zu", who.c_str(), (long)k, period));
		else if (k % period == 0 && R->b.m->cpu.pc() != entry) c.fail("endless:" + n, fmt("%s: stopped at %#lx", who.c_str(), (long)R->b.m->cpu.pc()));
		R->b.m->memory.evict_execute_segments();
	}, { .split_depth = 2, .timeout_s = 30 });
	// ---- the debugger's own loop
	chk.section("debugger", [](Ctx& c) {
		setup(); std::vector<int> e; for (int i = 0; i < 3; i++) e.push_back(c.choose(CONTROL, "instruction")); c.crash_key("debugger:crash"); c.at("%s", text(e).c_str());
		R->load(words(e)); auto s = R->start(); auto t = R->step(s, LIMIT); c.transitions(t.n()); if (t.end == EXCEPTION && t.ex == EXECUTION_SPACE_PROTECTION_FAULT) c.prune();
		DebugMachine dbg(*R->b.m); dbg.verbose_instructions = dbg.verbose_registers = false;
		for (u64 m = 1; m <= 12; m++) { R->reset(s); int ex = -1; try { dbg.simulate(m); } catch (const MachineException& x) { ex = x.type(); } u64 n = R->b.m->instruction_counter(), want = std::min<u64>(m, t.n()); int wex = t.end == EXCEPTION && m > t.n() ? t.ex : -1; c.traces();
			bool stop = t.end == STOPPED && m >= t.n(); if (n != want || R->hash() != t.h[want] || ex != wex || (ex < 0 && R->b.m->stopped() != stop)) { c.fail("debugger", fmt("%s with a budget of %lu executed %lu, exception %d, stopped %d (expected %lu, %d, %d)", text(e).c_str(), (long)m, (long)n, ex, R->b.m->stopped(), (long)want, wex, stop)); return; } }
		u64 h = 7; for (int k : e) h = mix(h, k); c.state(h); c.nontrivial();
	}, { .split_depth = 2, .timeout_s = 60 });
	return chk.finish();
}
