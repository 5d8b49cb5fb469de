// Small guest programs built from an alphabet of instructions, executed step by step
// (the yardstick) and by the dispatchers.
#pragma once
#include "isa.hpp"
namespace prog {
using namespace isa;
// encode an instruction: operands in assembler order, raw field values (branch offsets and scaled immediates in units)
inline u32 enc(const char* name, std::initializer_list<i64> v) {
	auto* op = ref::find_name(name); if (!op) { fprintf(stderr, "no instruction %s\n", name); abort(); }
	u32 w = op->match; auto f = ref::fields(op); size_t k = 0; for (i64 x : v) { if (k >= f.size()) { fprintf(stderr, "operands of %s\n", name); abort(); } w = ref::put(w, f[k++], x); } return w;
}
struct Elem { string name; std::vector<u32> w; };

// the instruction counter every system call has seen, in order
inline std::vector<u64> g_seen;
// a snapshot of everything a guest can see
struct Snap { u64 r[32]; uint8_t v[32][32]; uint8_t cf[8]; u32 fcsr; bool ll; u64 pc; std::vector<uint8_t> mem; };
enum End { RUNNING, STOPPED, EXCEPTION };
struct Runner {
	Box b; std::vector<uint8_t> mem0; u64 code_len = 0;
	static constexpr u64 CODE = 0x1000, PAD = 8;                // PAD stop words in front of and behind the program
	Runner() : b(0x2000 + 0x100, 0x1000, 0x2000) {
		mem0.assign(b.arena + b.data, b.arena + b.size);
		auto in = [](int n, Machine::syscall_t* h) { Machine::install_syscall_handler(n, h); };
		in(0, [](Machine& m) { g_seen.push_back(m.instruction_counter()); m.cpu.reg(4) = m.cpu.reg(4) * 3 + 1; });
		in(1, [](Machine& m) { g_seen.push_back(m.instruction_counter()); m.stop(); });
		in(2, [](Machine& m) { g_seen.push_back(m.instruction_counter()); throw MachineException(ILLEGAL_OPERATION, "syscall 2"); });
		in(3, [](Machine& m) { g_seen.push_back(m.instruction_counter()); m.cpu.registers().pc = m.cpu.reg(13) - 4; });
		in(4, [](Machine& m) { g_seen.push_back(m.instruction_counter()); u64 a = m.memory.data_start() + 8; m.memory.write<u64>(a, m.memory.read<u64>(a) + 1); m.cpu.reg(0) = 0; });
		in(5, [](Machine& m) { g_seen.push_back(m.instruction_counter()); m.cpu.registers().pc = m.cpu.reg(13) - 4; m.stop(); });
		Machine::set_rdtime([](Machine&) -> uint64_t { return 0x1122334455667788; });
	}
	u64 at(size_t i) const { return CODE + 4 * (PAD + i); }
	void load(const std::vector<u32>& p) { std::vector<u32> q(PAD, STOPW); q.insert(q.end(), p.begin(), p.end()); q.insert(q.end(), PAD, STOPW); b.load_program(q); code_len = q.size() * 4; }
	bool in_code(u64 a) const { return a >= CODE && a < CODE + code_len; }
	ref::State start() const {
		ref::State s = base_state(); s.pc = at(0);
		s.r[4] = 3; s.r[5] = 4; s.r[6] = 100; s.r[20] = b.data + 0x40; s.r[21] = 8; s.r[22] = 0x7fff0000; s.r[13] = at(2); s.r[14] = at(1) + 2; s.r[1] = at(3); s.r[11] = 0;
		for (int i = 1; i < 4; i++) { double d = i * 1.5; memcpy(&s.v[i].d[0], &d, 8); } return s; }
	void reset(const ref::State& s) { b.set(s); memcpy(b.arena + b.data, mem0.data(), mem0.size()); b.m->set_max_instructions(UINT64_MAX); b.m->set_instruction_counter(0); }
	u64 hash() const { auto& r = b.m->cpu.registers(); u64 h = hash_bytes(&r.get(0), 32 * 8); h = hash_bytes(&r.getvr(0), 32 * sizeof(r.getvr(0)), h); for (int i = 0; i < 8; i++) h = mix(h, r.cf(i)); h = mix(h, r.fcsr()); h = mix(h, b.m->cpu.ll_bit()); h = mix(h, r.pc); return hash_bytes(b.arena + b.data, b.size - b.data, h); }
	Snap snap() const { Snap s; auto& r = b.m->cpu.registers(); for (int i = 0; i < 32; i++) { s.r[i] = r.get(i); memcpy(s.v[i], &r.getvr(i), 32); } for (int i = 0; i < 8; i++) s.cf[i] = r.cf(i); s.fcsr = r.fcsr(); s.ll = b.m->cpu.ll_bit(); s.pc = r.pc; s.mem.assign(b.arena + b.data, b.arena + b.size); return s; }
	static string diff(const Snap& a, const Snap& e) {
		if (a.pc != e.pc) return fmt("pc=%#lx, stepping gives %#lx", (long)a.pc, (long)e.pc);
		for (int i = 0; i < 32; i++) if (a.r[i] != e.r[i]) return fmt("r%d=%#lx, stepping gives %#lx", i, (long)a.r[i], (long)e.r[i]);
		for (int i = 0; i < 32; i++) if (memcmp(a.v[i], e.v[i], 32)) { int k = 0; while (a.v[i][k] == e.v[i][k]) k++; return fmt("v%d byte %d=%#x, stepping gives %#x", i, k, a.v[i][k], e.v[i][k]); }
		if (memcmp(a.cf, e.cf, 8)) return "condition flags differ"; if (a.fcsr != e.fcsr) return "fcsr differs"; if (a.ll != e.ll) return "ll bit differs";
		for (size_t k = 0; k < a.mem.size(); k++) if (a.mem[k] != e.mem[k]) return fmt("memory +%#zx=%#x, stepping gives %#x", k, a.mem[k], e.mem[k]);
		return ""; }
	// ---- stepping
	struct Trace { std::vector<u64> pc, h, calls; End end = RUNNING; int ex = -1; size_t n() const { return pc.size() - 1; } };   // state i: after i instructions
	Trace step(const ref::State& s, size_t limit) {
		reset(s); g_seen.clear(); Trace t; auto push = [&] { t.pc.push_back(b.m->cpu.pc()); t.h.push_back(hash()); }; push();
		while (t.n() < limit) {
			u64 pc = b.m->cpu.pc(); if (!in_code(pc)) { t.end = EXCEPTION; t.ex = EXECUTION_SPACE_PROTECTION_FAULT; break; }
			int ex = b.run(STEP, pc); if (g_seen.size() > t.calls.size()) t.calls.push_back(t.n()); if (ex >= 0) { t.end = EXCEPTION; t.ex = ex; if (hash() != t.h.back()) t.ex = 1000 + ex; break; }
			push(); if (b.m->stopped()) { t.end = STOPPED; break; }
		} return t; }
	Snap step_to(const ref::State& s, size_t n) { reset(s); for (size_t i = 0; i < n; i++) b.run(STEP, b.m->cpu.pc()); return snap(); }
};
inline const std::vector<Elem>& alphabet() { static const std::vector<Elem> A = [] { std::vector<Elem> A; auto e = [&](const char* t, u32 w) { A.push_back({ t, { w } }); }; auto sys = [&](const char* t, int n) { A.push_back({ t, { enc("addi.d", { 11, 0, n }), enc("syscall", { 0 }) } }); };
	// control flow first: the first CONTROL entries are used for longer programs
	e("addi.d r4,r4,1", enc("addi.d", { 4, 4, 1 })); e("st.d r4,r20,0", enc("st.d", { 4, 20, 0 })); e("ld.d r5,r20,0", enc("ld.d", { 5, 20, 0 })); e("addi.d r0,r4,5", enc("addi.d", { 0, 4, 5 }));
	e("beq r4,r5,+2", enc("beq", { 4, 5, 2 })); e("bne r4,r5,-2", enc("bne", { 4, 5, -2 })); e("beqz r4,+2", enc("beqz", { 4, 2 })); e("bnez r4,-1", enc("bnez", { 4, -1 })); e("blt r4,r5,+3", enc("blt", { 4, 5, 3 })); e("bgeu r5,r4,-3", enc("bgeu", { 5, 4, -3 }));
	e("b +2", enc("b", { 2 })); e("b -2", enc("b", { -2 })); e("b 0", enc("b", { 0 })); e("bl +2", enc("bl", { 2 })); e("jirl r0,r1,0", enc("jirl", { 0, 1, 0 })); e("jirl r1,r13,0", enc("jirl", { 1, 13, 0 })); e("jirl r0,r14,0", enc("jirl", { 0, 14, 0 })); e("jirl r1,r22,0", enc("jirl", { 1, 22, 0 }));
	e("ld.d r4,r22,0", enc("ld.d", { 4, 22, 0 })); e("st.w r4,r22,0", enc("st.w", { 4, 22, 0 }));
	sys("syscall 0", 0); sys("syscall 1 (stop)", 1); sys("syscall 2 (throws)", 2); sys("syscall 3 (jumps)", 3); sys("syscall 4 (memory)", 4); sys("syscall 5 (jumps, stops)", 5); sys("syscall 9 (none)", 9);
	e("break", enc("break", { 0 })); e("invalid", 0xffffffff); e("stop", STOPW); e("bceqz fcc0,+2", enc("bceqz", { 0, 2 })); e("bcnez fcc1,-2", enc("bcnez", { 1, -2 }));
	// data
	e("add.d r5,r4,r5", enc("add.d", { 5, 4, 5 })); e("sub.w r4,r5,r4", enc("sub.w", { 4, 5, 4 })); e("or r6,r4,r0", enc("or", { 6, 4, 0 })); e("mul.d r4,r4,r5", enc("mul.d", { 4, 4, 5 })); e("div.d r5,r6,r4", enc("div.d", { 5, 6, 4 })); e("ld.b r6,r20,1", enc("ld.b", { 6, 20, 1 })); e("st.b r5,r20,1", enc("st.b", { 5, 20, 1 })); e("ldx.w r6,r20,r21", enc("ldx.w", { 6, 20, 21 })); e("stx.h r5,r20,r21", enc("stx.h", { 5, 20, 21 }));
	e("amadd.d r6,r5,r20", enc("amadd.d", { 6, 5, 20 })); e("ll.d r4,r20,0", enc("ll.d", { 4, 20, 0 })); e("sc.d r5,r20,0", enc("sc.d", { 5, 20, 0 })); e("pcaddi r4,4", enc("pcaddi", { 4, 4 })); e("pcaddu18i r5,1", enc("pcaddu18i", { 5, 1 })); e("lu12i.w r6,-5", enc("lu12i.w", { 6, -5 })); e("bstrpick.d r4,r5,9,2", enc("bstrpick.d", { 4, 5, 9, 2 })); e("maskeqz r4,r5,r6", enc("maskeqz", { 4, 5, 6 })); e("dbar", enc("dbar", { 0 })); e("rdtime.d r6,r0", enc("rdtime.d", { 6, 0 }));
	e("vld v1,r20,0", enc("vld", { 1, 20, 0 })); e("vst v1,r20,16", enc("vst", { 1, 20, 16 })); e("xvld x2,r20,8", enc("xvld", { 2, 20, 8 })); e("xvst x2,r20,32", enc("xvst", { 2, 20, 32 })); e("fadd.d f1,f2,f3", enc("fadd.d", { 1, 2, 3 })); e("fld.d f2,r20,8", enc("fld.d", { 2, 20, 8 })); e("fld.s f3,r20,8", enc("fld.s", { 3, 20, 8 })); e("fst.d f1,r20,8", enc("fst.d", { 1, 20, 8 })); e("vadd.d v2,v1,v1", enc("vadd.d", { 2, 1, 1 })); e("fcmp.clt.d fcc0,f1,f2", enc("fcmp.clt.d", { 0, 1, 2 })); e("fmadd.d f1,f2,f3,f1", enc("fmadd.d", { 1, 2, 3, 1 })); e("movfr2gr.d r4,f1", enc("movfr2gr.d", { 4, 1 })); e("movgr2fr.d f2,r4", enc("movgr2fr.d", { 2, 4 })); e("xvld x1,r22,0", enc("xvld", { 1, 22, 0 })); e("vst v1,r22,0", enc("vst", { 1, 22, 0 })); e("amswap.w r4,r5,r22", enc("amswap.w", { 4, 5, 22 }));
	e("fst.d f1,r22,0", enc("fst.d", { 1, 22, 0 })); e("ldx.d r4,r20,r22", enc("ldx.d", { 4, 20, 22 })); e("stptr.d r4,r22,0", enc("stptr.d", { 4, 22, 0 }));
	return A; }(); return A; }
constexpr int CONTROL = 32;
inline string text(const std::vector<int>& e) { string t; for (int k : e) t += alphabet()[k].name + "; "; return t; }
inline std::vector<u32> words(const std::vector<int>& e) { std::vector<u32> p; for (int k : e) for (u32 x : alphabet()[k].w) p.push_back(x); return p; }
} // namespace prog
