// build: VARIANT=plain EXTRAOBJ=$(O)/ref_isa.o
// C09: single-stepping, simulate, simulate_inaccurate and repeated runs agree.
#include "prog.hpp"
using namespace prog;
static Runner* R; static void setup() { if (!R) R = new Runner; }
constexpr size_t LIMIT = 48;

// run the loaded program in every mode and compare with stepping
static bool compare(Ctx& c, const ref::State& s, const string& key, const std::function<string()>& text, size_t limit = LIMIT) {
	auto& b = R->b; auto t = R->step(s, limit); c.transitions(t.n()); bool good = true;
	auto bad = [&](const char* what, const string& d) { good = false; c.fail(key + ":" + what, text() + " [" + what + "] " + d); };
	if (t.ex >= 1000) bad("step", "an instruction that raised an exception changed registers or memory");
	auto judge = [&](const char* what, int ex, size_t n) { u64 h = R->hash(); if (n < t.h.size() && h == t.h[n] && ex == (n == t.n() ? t.ex : -1)) return;
		if (ex != (n == t.n() ? t.ex : -1)) { bad(what, fmt("ended with exception %d, stepping with %d (%s)", ex, t.ex, Runner::diff(R->snap(), R->step_to(s, n)).c_str())); return; }
		Snap a = R->snap(); bad(what, Runner::diff(a, R->step_to(s, std::min(n, t.n())))); };
	for (int round = 0; round < 2; round++) {       // twice: the second time on code that has been rewritten
		R->reset(s); int ex = b.run(SIM, s.pc, t.end == RUNNING ? limit : UINT64_MAX); size_t n = b.m->instruction_counter(); c.traces();
		if (t.end == RUNNING) { if (n <= t.n()) judge("simulate", ex, n); else { auto t2 = R->step(s, n); if (t2.end == RUNNING && t2.n() == n) { R->reset(s); ex = b.run(SIM, s.pc, limit); u64 h = R->hash(); if (h != t2.h[n]) bad("simulate", Runner::diff(R->snap(), R->step_to(s, n))); } } }
		else { if (n != t.n()) bad("simulate", fmt("counted %zu instructions, stepping executes %zu", n, t.n())); judge("simulate", ex, t.n()); R->reset(s); ex = b.run(FAST, s.pc); judge("simulate_inaccurate", ex, t.n()); c.traces(); c.nontrivial(); }
	}
	return good;
}
int main(int argc, char** argv) {
	Check chk(argc, argv, "C09");
	chk.rule("every supported instruction in every register-aliasing pattern, every ordered pair of all supported instructions, and every program up to a length over an alphabet of data, memory, faulting, branching, calling and system-call instructions: single-stepping, simulate (counter, exceptions) and simulate_inaccurate, each also a second time on the same decoded code, must end with identical registers (all 256 vector bits), flags, memory, program counter and exception; long straight-line blocks around every internal size limit");
	static std::vector<const ref::Op*> ops; for (auto& n : supported()) { auto* op = ref::find_name(n); if (op && classify(op) != BRANCH && n != "syscall" && n != "break" && n != "dbcl" && n.substr(0, 6) != "cpucfg") ops.push_back(op); }
	auto word = [](const ref::Op* op, int d, int j, int k, int imm) { u32 w = op->match; bool mem = ref::is_mem(op); for (auto& f : ref::fields(op)) { int n; if (strchr("rfvx", f.kind)) { n = f.pos == 0 ? d : f.pos == 5 ? (mem ? 20 : j) : f.pos == 10 ? (mem && f.kind == 'r' && op->name[0] != 'a' ? 21 : k) : 7; } else if (f.kind == 'c') n = (f.pos + d) & 7; else if (f.kind == 'q') n = 0; else n = mem ? (imm & 1) : imm; w = ref::put(w, f, n); } return w; };
	chk.section("pairs", [&](Ctx& c) {
		setup(); int i = c.choose(ops.size(), "first instruction"); c.crash_key("pairs:crash");
		for (size_t j = 0; j < ops.size(); j++) for (int v = 0; v < (c.thorough() ? 4 : 2); v++) {
			c.at("%s; %s", ops[i]->name, ops[j]->name); std::vector<u32> p = { word(ops[i], 4, 5, 6, v * 5 + 1), v & 1 ? word(ops[j], 4, 4, 6, 3) : word(ops[j], 5, 4, v & 2 ? 4 : 6, 2) }; R->load(p);
			compare(c, R->start(), fmt("pairs:%s+%s", ops[i]->name, ops[j]->name), [&] { return fmt("%s; %s (%#x %#x)", ops[i]->name, ops[j]->name, p[0], p[1]); }); if (c.m_failcount > 40) return; }
		c.state(i); if (c.want_sample()) c.sample(fmt("%s followed by every other instruction", ops[i]->name));
	}, { .split_depth = 1, .timeout_s = 300 });
	// every supported instruction in every register-aliasing pattern
	static std::vector<const ref::Op*> every; for (auto& n : supported()) { auto* op = ref::find_name(n); if (op && n != "syscall" && n != "dbcl" && n.substr(0, 6) != "cpucfg") every.push_back(op); }
	chk.section("operands", [&](Ctx& c) {
		setup(); auto* op = c.pick(every, "instruction"); c.crash_key(string("operands:crash:") + op->name); std::vector<ref::Field> regs, imms; for (auto& f : ref::fields(op)) (strchr("rfvxckq", f.kind) ? regs : imms).push_back(f);
		static const int RG[] = { 0, 1, 20, 13 }; u64 total = 1; for (auto& f : regs) total *= strchr("ckq", f.kind) ? 2 : 4; bool br = ref::is_branch(op);
		for (u64 t = 0; t < total; t++) for (int im = 0; im < (imms.empty() ? 1 : br ? 5 : 4); im++) for (int st = 0; st < 3; st++) {
			u64 x = t; u32 w = op->match; for (auto& f : regs) { if (strchr("ckq", f.kind)) { w = ref::put(w, f, (x & 1) ? 3 & ((1 << ref::width(f)) - 1) : 0); x /= 2; } else { w = ref::put(w, f, RG[x & 3]); x /= 4; } }
			for (size_t i = 0; i < imms.size(); i++) { u64 n = 1ull << ref::width(imms[i]); i64 v = im == 0 ? 0 : im == 1 ? 2 + i : im == 2 ? n - 1 - (br ? 1 : 0) : im == 3 ? (br ? 1 : n / 2 + 1) : 3; w = ref::put(w, imms[i], v); }
			std::vector<u32> p = { w, enc("addi.d", { 5, 5, 1 }), enc("addi.d", { 6, 6, 2 }), enc("addi.d", { 7, 7, 4 }) }; R->load(p); auto s = R->start(); if (br) { s.r[1] = R->at(1); s.r[13] = R->at(2); s.r[20] = R->at(3) + (st == 2 ? 2 : 0); } if (st == 1) { s.r[1] = 0x8000000000000001; s.r[13] = ~0ull; s.r[20] = 0x7fffffff80000005; for (int k = 0; k < 32; k++) for (int q = 0; q < 4; q++) s.v[k].d[q] = s.v[k].d[q] * 3 ^ 0x7ff0000000000000; } if (st == 2 && !br) { s.r[1] = 8; s.r[13] = 16; s.r[20] = R->b.data + 0x20; }
			c.at("%s %#x state %d", op->name, w, st); compare(c, s, string("operands:") + op->name, [&] { return fmt("%s %#x, state %d", op->name, w, st); }); if (c.m_failcount > 40) return; }
		c.state(op->match); }, { .split_depth = 1, .timeout_s = 300 });
	auto programs = [&](const char* name, int nalpha, int len) { chk.section(name, [=](Ctx& c) {
		setup(); std::vector<int> e; for (int i = 0; i < len; i++) e.push_back(c.choose(nalpha, "instruction")); c.crash_key(fmt("%s:crash", name)); c.at("%s", text(e).c_str());
		R->load(words(e)); compare(c, R->start(), name, [&] { return text(e); }); u64 h = len; for (int k : e) h = mix(h, k); c.state(h); if (c.want_sample()) c.sample(text(e));
	}, { .split_depth = 2, .timeout_s = 300 }); };
	int N = alphabet().size(); programs("programs-3", N, 3); programs("control-4", CONTROL, 4); if (chk.thorough()) { programs("programs-4", N, 4); programs("control-5", CONTROL, 5); }
	// ---- long straight-line code around the limits of the decoder's block length
	chk.section("long-blocks", [&](Ctx& c) {
		static const std::vector<int> sizes = { 62, 63, 64, 65, 126, 127, 128, 254, 255, 256, 257, 1023, 1024, 1025, 16381, 16382, 16383, 16384, 16385, 16386, 32765, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537 };
		int n = c.pick(sizes, "block length"); int tail = c.choose(6, "what ends the block"); int head = c.choose(3, "start"); c.crash_key("long-blocks:crash"); c.at("%d instructions, tail %d", n, tail);
		u64 len = 4 * (u64)(n + 64); Box b(0x1000 + len + 0x1000, 0x1000, 0x1000 + len); std::vector<u32> p;
		if (head == 1) p.push_back(enc("b", { 2 })), p.push_back(STOPW); while ((int)p.size() < n) p.push_back(p.size() % 3 == 0 ? enc("addi.d", { 4, 4, 1 }) : p.size() % 3 == 1 ? enc("pcaddi", { 5, 1 }) : enc("add.d", { 6, 6, 5 }));
		size_t e = p.size(); if (tail == 0) p.push_back(STOPW); if (tail == 1) p.push_back(enc("b", { 1 })); if (tail == 2) p.push_back(enc("ld.d", { 4, 22, 0 })); if (tail == 3) p.push_back(0xffffffff); if (tail == 4) { p.push_back(enc("bnez", { 4, 2 })); p.push_back(enc("addi.d", { 4, 4, 100 })); } if (tail == 5) p.push_back(enc("bl", { 1 })); (void)e;
		while (p.size() < (size_t)n + 60) p.push_back(STOPW); b.load_program(p);
		auto s = base_state(); s.r[22] = 0x7fffffff0000; s.pc = 0x1000 + (head == 2 ? 4 * 7 : 0);
		b.set(s); b.m->set_max_instructions(UINT64_MAX); size_t steps = 0; int ex = -1; while (steps < 200000) { ex = b.run(STEP, b.m->cpu.pc()); if (ex >= 0) break; steps++; if (b.m->stopped()) break; }
		std::vector<u64> want; for (int i = 0; i < 32; i++) want.push_back(b.m->cpu.reg(i)); want.push_back(b.m->cpu.pc()); c.transitions(steps);
		for (int mode : { SIM, FAST, SIM }) { b.set(s); int x = b.run(mode, s.pc); string d; if (x != ex) d = fmt("exception %d, stepping %d", x, ex); for (int i = 0; i < 32; i++) if (b.m->cpu.reg(i) != want[i]) d = fmt("r%d=%#lx, stepping %#lx", i, (long)b.m->cpu.reg(i), (long)want[i]); if (b.m->cpu.pc() != want[32]) d = fmt("pc=%#lx, stepping %#lx", (long)b.m->cpu.pc(), (long)want[32]); if (mode == SIM && b.m->instruction_counter() != steps) d += fmt(" counter=%lu, stepping %zu", (long)b.m->instruction_counter(), steps);
			c.traces(); if (!d.empty()) c.fail(fmt("long-blocks:%s", mode_name(mode)), fmt("block of %d instructions, ending %d, start %d (%s): %s", n, tail, head, mode_name(mode), d.c_str())); }
		c.state(mix(n, tail * 3 + head)); c.nontrivial();
	}, { .split_depth = 2, .timeout_s = 100 });
	return chk.finish();
}
