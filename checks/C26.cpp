// build: VARIANT=plain EXTRAOBJ=$(O)/ref_isa.o
// C26: an exception leaves the machine consistent and usable.
#include "prog.hpp"
using namespace prog;
static Runner* R; static void setup() { if (!R) R = new Runner; }
static bool g_allow = false;      // the host has installed the missing system call
struct Fault { string name; std::vector<u32> w; int at; int kind; };   // the word that faults, and how the host repairs it: 0 by giving r22/r23 a usable value, 1 by skipping the instruction, 2 by providing the system call, 3 by choosing another jump target
enum { REG, SKIP, CALL, TARGET };
static const std::vector<Fault>& faults() { static const std::vector<Fault> F = [] { std::vector<Fault> F;
	for (auto& n : supported()) { auto* op = ref::find_name(n); if (!op || !ref::is_mem(op) || n == "preld" || n == "preldx") continue; u32 w = op->match; bool am = n.substr(0, 2) == "am";
		for (auto& f : ref::fields(op)) { i64 v; if (strchr("rfvx", f.kind)) v = f.pos == 0 ? 5 : f.pos == 5 ? (am ? 22 : 22) : f.pos == 10 ? (am ? 6 : 21) : 7; else v = 0; if (am) v = f.pos == 0 ? 5 : f.pos == 5 ? 22 : 6; w = ref::put(w, f, v); }
		F.push_back({ n, { w }, 0, REG }); }
	F.push_back({ "invalid", { 0xffffffff }, 0, SKIP }); F.push_back({ "invalid (low bits)", { 0x00000001 }, 0, SKIP });
	F.push_back({ "syscall (throws)", { enc("addi.d", { 11, 0, 2 }), enc("syscall", { 0 }) }, 1, SKIP }); F.push_back({ "syscall (unknown)", { enc("addi.d", { 11, 0, 9 }), enc("syscall", { 0 }) }, 1, SKIP }); F.push_back({ "syscall (installed later)", { enc("addi.d", { 11, 0, 10 }), enc("syscall", { 0 }) }, 1, CALL });
	F.push_back({ "jirl outside", { enc("jirl", { 0, 22, 0 }) }, 0, TARGET }); F.push_back({ "jirl (link) outside", { enc("jirl", { 1, 22, 0 }) }, 0, TARGET }); F.push_back({ "b outside", { enc("b", { 0x10000 }) }, 0, TARGET });
	F.push_back({ "jirl misaligned", { enc("jirl", { 0, 14, 0 }) }, 0, SKIP });
	return F; }(); return F; }
int main(int argc, char** argv) {
	Check chk(argc, argv, "C26");
	chk.rule("every instruction that can raise an exception (all memory instructions with addresses below, above and in read-only memory, invalid words, break, system calls, bad jumps) behind every sequence of up to two other instructions, straight-line or inside a loop: in every mode the exception leaves exactly the state after the instructions before it, its address in the program counter and the exact count; after the host repairs the cause and continues, the run ends like one that never failed");
	static std::vector<int> pre; for (int i = 0; i < (int)alphabet().size(); i++) { auto& n = alphabet()[i].name; if (i >= 4 && i < CONTROL && n != "syscall 0" && n != "syscall 4 (memory)") continue; if (n.find("r22") != string::npos) continue; pre.push_back(i); }
	auto judge = [](Ctx& c, const std::vector<u32>& p, size_t at, const Fault& f, u64 badaddr, const string& who) {
		// p: the program, p[at] raises
		R->load(p); auto s = R->start(); s.r[22] = f.kind == TARGET ? 0x55550000 : badaddr; s.r[14] = R->at(0) + 2; s.r[21] = 0; u64 good = R->b.data + 0x60; auto& b = R->b; auto& M = *b.m; g_allow = false;
		auto fail = [&](const char* k, const string& d) { c.fail(fmt("%s:%s", f.name.c_str(), k), who + ": " + d); };
		auto t = R->step(s, 64); c.transitions(t.n()); if (t.end != EXCEPTION) { fail("none", fmt("no exception (ended %d)", t.end)); return false; }
		if (t.ex >= 1000) { fail("effect", "the faulting instruction changed registers or memory"); return false; }
		size_t n = t.n(); u64 fpc = R->at(at); bool jump = f.kind == TARGET; if (jump ? false : t.pc[n] != fpc) { fail("pc", fmt("stepping leaves the program counter at %#lx, not %#lx", (long)t.pc[n], (long)fpc)); return false; }
		auto repair = [&] { auto& r = M.cpu.registers(); if (f.kind == REG) r.get(22) = good; else if (f.kind == SKIP) r.pc = fpc + 4; else if (f.kind == CALL) g_allow = true; else r.pc = fpc + 4; };
		// the yardstick for the continuation: step on after the repair
		R->step_to(s, n); repair(); size_t more = 0; int ex2 = -1; for (; more < 64 && !M.stopped(); more++) { if (!R->in_code(M.cpu.pc())) { ex2 = -2; break; } int x = b.run(STEP, M.cpu.pc()); if (x >= 0) { ex2 = x; break; } } u64 want = R->hash();
		bool twice = ex2 != -1 || !M.stopped();    // does not finish after one repair (a loop): only the exception itself is judged
		for (int round = 0; round < 2; round++) for (int mode : { SIM, FAST }) {
			g_allow = false; R->reset(s); int ex = b.run(mode, s.pc); c.traces();
			if (ex != t.ex) { fail(mode_name(mode), fmt("exception %d, stepping raises %d", ex, t.ex)); return false; }
			if (R->hash() != t.h[n]) { fail(mode_name(mode), "after the exception: " + Runner::diff(R->snap(), R->step_to(s, n))); return false; }
			if (mode == SIM && M.instruction_counter() != n) { fail(mode_name(mode), fmt("the counter says %lu, %zu instructions completed", (long)M.instruction_counter(), n)); return false; }
			if (M.stopped()) { fail(mode_name(mode), "the machine claims to have been stopped"); return false; }
			if (twice) continue;
			// inspecting does not disturb
			(void)M.cpu.current_instruction_to_string(); (void)M.cpu.registers().to_string();
			repair(); u64 c0 = M.instruction_counter(); ex = -1; try { if (mode == SIM) M.simulate(UINT64_MAX, c0); else M.cpu.simulate_inaccurate(M.cpu.pc()); } catch (const MachineException& e) { ex = e.type(); } catch (const std::exception&) { ex = 100; }
			if (ex >= 0) { fail("continue", fmt("continuing (%s) raised exception %d", mode_name(mode), ex)); return false; }
			if (mode == SIM && M.instruction_counter() != c0 + more) { fail("continue", fmt("continuing counted %lu instructions, stepping %zu", (long)(M.instruction_counter() - c0), more)); return false; }
			if (R->hash() != want) { fail("continue", fmt("continuing (%s) ends in another state than stepping on: pc=%#lx", mode_name(mode), (long)M.cpu.pc())); return false; }
		}
		c.nontrivial(); return true; };
	static const std::vector<u64> bad = { 0x7fff0000, 0, 0x1000 - 1, 0x1000, 0x2000 - 1, 0x2100, UINT64_MAX - 3, 1ull << 63, 0xffffffff };
	auto install = [] { Machine::install_syscall_handler(10, [](Machine& m) { if (!g_allow) throw MachineException(UNIMPLEMENTED_SYSCALL, "not yet"); m.cpu.reg(4) = 77; }); };
	chk.section("straight", [&](Ctx& c) {
		setup(); install(); auto& F = faults(); const Fault& f = F[c.choose(F.size(), "faulting instruction")]; int k1 = c.choose(pre.size() + 1, "first"); c.crash_key("straight:" + f.name);
		for (int k2 = 0; k2 <= (int)pre.size(); k2++) for (int tail = 0; tail < 3; tail++) for (u64 a : bad) {
			bool store = f.name.find("st") != string::npos || f.name[0] == 'a' || f.name.substr(0, 2) == "sc"; if (f.kind != REG && a != bad[0]) break; if (f.kind == REG && !store && (a == 0x1000 || a == 0x1fff)) continue; if (f.kind == REG && f.name.substr(0, 2) == "sc" ) continue; if (a != bad[0] && (k2 % 5 || tail)) continue;
			std::vector<u32> p; string t; for (int k : { k1, k2 }) if (k) { for (u32 w : alphabet()[pre[k - 1]].w) p.push_back(w); t += alphabet()[pre[k - 1]].name + "; "; }
			size_t at = p.size() + f.at; p.insert(p.end(), f.w.begin(), f.w.end()); if (tail == 1) { p.push_back(enc("add.d", { 6, 6, 4 })); p.push_back(enc("st.d", { 6, 20, 8 })); } if (tail == 2) { p.push_back(enc("b", { 2 })); p.push_back(0xffffffff); p.push_back(enc("vld", { 9, 20, 16 })); }
			c.at("%s%s", t.c_str(), f.name.c_str()); if (!judge(c, p, at, f, a, fmt("%s%s (address %#lx), tail %d", t.c_str(), f.name.c_str(), (long)a, tail))) return; }
		c.state(mix(k1, &f - &F[0])); if (c.want_sample()) c.sample("faulting: " + f.name);
	}, { .split_depth = 2, .timeout_s = 100 });
	if (chk.thorough()) chk.section("straight-3", [&](Ctx& c) {
		setup(); install(); auto& F = faults(); const Fault& f = F[c.choose(F.size(), "faulting instruction")]; if (f.name.substr(0, 2) == "sc") c.prune(); int k1 = c.choose(pre.size(), "first"); c.crash_key("straight:" + f.name);
		for (int k2 = 0; k2 < (int)pre.size(); k2++) for (int k3 = 0; k3 < (int)pre.size(); k3++) { std::vector<u32> p; string t; for (int k : { k1, k2, k3 }) { for (u32 w : alphabet()[pre[k]].w) p.push_back(w); t += alphabet()[pre[k]].name + "; "; }
			size_t at = p.size() + f.at; p.insert(p.end(), f.w.begin(), f.w.end()); p.push_back(enc("add.d", { 6, 6, 4 })); c.at("%s%s", t.c_str(), f.name.c_str()); if (!judge(c, p, at, f, bad[0], t + f.name)) return; c.state(hash_bytes(p.data(), p.size() * 4)); }
	}, { .split_depth = 2, .timeout_s = 300 });
	// sc only accesses memory with the link bit set; behind ll
	chk.section("store-conditional", [&](Ctx& c) {
		setup(); install(); const char* n = c.choose(2, "width") ? "sc.d" : "sc.w"; u64 a = bad[c.choose(bad.size(), "address")]; int k = c.choose(pre.size(), "first"); if (alphabet()[pre[k]].name.substr(0, 2) == "sc") c.prune(); c.crash_key("sc"); Fault f{ n, {}, 0, REG };
		std::vector<u32> p = alphabet()[pre[k]].w; p.push_back(enc("ll.d", { 7, 20, 0 })); p.push_back(enc(n, { 5, 22, 0 })); c.state(mix(a, k)); judge(c, p, p.size() - 1, f, a, fmt("%s; ll.d; %s at %#lx", alphabet()[pre[k]].name.c_str(), n, (long)a));
	}, { .split_depth = 1, .timeout_s = 100 });
	// the faulting instruction is reached by branches, on the n-th pass of a loop, in the delay of a call
	chk.section("loops", [&](Ctx& c) {
		setup(); install(); auto& F = faults(); const Fault& f = F[c.choose(F.size(), "faulting instruction")]; int shape = c.choose(4, "shape"); int k = c.choose(pre.size(), "other instruction"); int pass = c.choose(3, "pass"); c.crash_key("loops:" + f.name); if (f.name.substr(0, 2) == "sc") c.prune();
		// the loop counts r8 down (r7 when the fault is due) and jumps to the faulting instruction behind the loop
		std::vector<u32> p; auto& w = alphabet()[pre[k]].w; auto add = [&](u32 x) { p.push_back(x); };
		add(enc("addi.d", { 8, 0, pass })); size_t top = p.size();
		for (u32 x : w) add(x);
		if (shape == 0) { add(enc("beqz", { 8, 3 })); add(enc("addi.d", { 8, 8, -1 })); add(enc("b", { -(int)(p.size() - top) })); }
		if (shape == 1) { add(enc("addi.d", { 8, 8, -1 })); add(enc("bge", { 8, 0, -(int)(p.size() - top) })); }
		if (shape == 2) { add(enc("bl", { 2 })); add(STOPW); add(enc("addi.d", { 9, 9, 1 })); }
		if (shape == 3) { add(enc("bne", { 8, 8, 4 })); add(enc("beq", { 8, 8, 2 })); add(STOPW); }
		size_t at = p.size() + f.at; p.insert(p.end(), f.w.begin(), f.w.end()); add(enc("addi.d", { 9, 9, 3 }));
		if (f.name == "jirl (link) outside" || true) { c.at("loop %s", f.name.c_str()); judge(c, p, at, f, bad[0], fmt("shape %d, pass %d, %s; %s", shape, pass, alphabet()[pre[k]].name.c_str(), f.name.c_str())); }
		c.state(mix(mix(shape, pass), mix(k, &f - &F[0])));
	}, { .split_depth = 2, .timeout_s = 100 });
	return chk.finish();
}
