// build: VARIANT=plain EXTRAOBJ=$(O)/ref_isa.o
// C08: register zero always reads as zero.
// words: every instruction word whose destination field (bits 4..0) is zero, followed by an
// instruction that reads r0.  effects: every supported instruction with destination r0
// against the reference (its side effects still happen).  pairs: every such instruction
// followed by every instruction that can read r0.  calls/histories: system calls and
// library operations.
#include "sweep.hpp"
#include <libloong/posix/signals.hpp>
#include <libloong/posix/threads.hpp>
using namespace isa;
static Box* box; static std::vector<uint8_t> pristine;
static void setup() { if (!box) { box = new Box; pristine.assign(box->arena, box->arena + box->size + 64); } }

// instruction fields that name a general register
static std::vector<ref::Field> gprs(const ref::Op* op) { std::vector<ref::Field> v; for (auto& f : ref::fields(op)) if (f.kind == 'r') v.push_back(f); return v; }
static bool writes_gpr0(const ref::Op* op) { for (auto& f : gprs(op)) if (f.pos == 0) return true; return false; }
static ref::State memory_state(const ref::Op* op, u32 w) {     // operands that make an access hit the data area
	ref::State s = base_state(); s.ll = true; s.ll_addr = box->data + 0x1000; if (!ref::is_mem(op)) return s;
	u32 rj = w >> 5 & 31, rk = w >> 10 & 31; i64 off = 0; bool idx = true; for (auto& f : ref::fields(op)) if (f.kind == 'o' || f.kind == 's') { off = (i64)(ref::get(w, f) << (64 - ref::width(f))) >> (64 - ref::width(f)) << f.shift; idx = false; }
	if (!strncmp(op->name, "am", 2)) idx = false; u64 t = box->data + 0x1000;
	if (rj) s.r[rj] = t - off; if (idx) { if (rk && rk != rj) { s.r[rk] = 0x40; if (rj) s.r[rj] = t - 0x40; else s.r[rk] = t; } else if (rk && rk == rj) s.r[rj] = t / 2; }
	return s;
}

int main(int argc, char** argv) {
	Check chk(argc, argv, "C08");
	chk.rule("every instruction word with a zero destination field x execution mode, followed by readers of register zero; every supported instruction with destination r0 compared with the reference model; every pair (writer of r0, reader of r0); every installed system call and library operation: register zero is zero afterwards");
	chk.section("words", [&](Ctx& c) {
		setup(); Box& b = *box; u32 top = c.choose(1024, "bits 31..22"); c.at("bits 31..22 = %#x", top); c.crash_key(fmt("crash:%#x", top)); auto base = base_state(); for (int i = 1; i < 32; i++) base.r[i] = i & 1 ? b.data + 0x1000 : i * 16; base.ll = true;
		bool br = top >> 4 >= 0x10 && top >> 4 < 0x1c; std::vector<u32> rjs{ 5, 0 }; if (chk.thorough()) rjs = { 5, 0, 1, 8, 31, 3 };
		static const u32 readers[] = { 0x02c00406 /* addi.d r6,r0,1 */, 0x00109806 | 7 << 5 & 0 /* placeholder */, 0x00101c06 /* add.w.. */, 0 };
		auto* add = ref::find_name("add.d"); auto* sub = ref::find_name("sub.d"); auto enc3 = [](const ref::Op* o, int d, int j, int k) { return o->match | d | j << 5 | k << 10; }; u32 rd1[2] = { enc3(add, 6, 0, 7), enc3(sub, 6, 7, 0) }; (void)readers;
		size_t cap = b.capacity(); std::vector<u32> ws; u64 fails0 = c.m_failcount;
		auto flush = [&] { if (ws.empty()) return; std::vector<u32> p; for (size_t k = 0; k < ws.size(); k++) { p.push_back(ws[k]); p.push_back(rd1[k & 1]); p.push_back(STOPW); p.push_back(STOPW); } b.load_program(p);
			for (size_t k = 0; k < ws.size() && c.m_failcount - fails0 < 60; k++) { if (ws[k] == STOPW) continue; for (int mode = 0; mode < (br ? 1 : NMODES); mode++) { auto s = base; s.pc = b.addr(k); b.set(s); int ex = b.run(mode, s.pc); c.transitions();
					if (ex < 0 && mode == STEP && b.m->cpu.pc() == s.pc + 4 && b.m->cpu.reg(0) == 0) ex = b.run(STEP, s.pc + 4);
					u64 z = b.m->cpu.reg(0); bool stop = mode != STEP; if (z || (ex < 0 && !br && b.m->cpu.pc() >= s.pc + 8 && b.m->cpu.pc() <= s.pc + 16 && b.m->cpu.reg(6) != b.m->cpu.reg(7))) { auto* op = ref::find(ws[k]); c.fail(fmt("words:%s", op ? op->name : "reserved"), fmt("word %#010x (%s, %s) with destination r0: r0=%#lx, then %s r6,... reads r0 as %#lx", ws[k], op ? op->name : "reserved", mode_name(mode), (long)z, k & 1 ? "sub.d" : "add.d", (long)(k & 1 ? b.m->cpu.reg(7) - b.m->cpu.reg(6) : b.m->cpu.reg(6) - b.m->cpu.reg(7)))); } (void)stop; } }
			memcpy(b.arena, b.shadow.data(), b.data); memcpy(b.arena + b.data, pristine.data() + b.data, b.size + 64 - b.data); ws.clear(); };
		for (u32 mid = 0; mid < 4096; mid++) for (u32 rj : rjs) { ws.push_back(top << 22 | mid << 10 | rj << 5); if (ws.size() == cap) flush(); }
		flush(); c.state(top); c.traces(); c.nontrivial();
	}, { .split_depth = 1, .timeout_s = 300 });
	static std::vector<const ref::Op*> ops, writers, readers; for (auto& n : supported()) if (auto* op = ref::find_name(n)) { ops.push_back(op); }
	for (auto* op : ops) if (ref::has_ref(op)) { auto g = gprs(op); if (g.empty()) continue; if (writes_gpr0(op)) writers.push_back(op); readers.push_back(op); }
	chk.section("effects", [&](Ctx& c) {
		setup(); Box& b = *box; auto* op = c.pick(writers, "instruction"); c.at("%s", op->name); c.crash_key(string(op->name) + ":crash"); Sweep s(c, b, op); auto ims = s.immediates(s.imms.size() > 1 ? 64 : chk.thorough() ? 4096 : 300);
		std::vector<u32> ws; std::vector<ref::State> st; for (auto& im : ims) for (int rj : { 0, 5, 9, 31 }) for (int rk : { 0, 5, 7 }) { std::vector<int> rg; for (auto& f : s.regs) rg.push_back(f.kind == 'r' ? f.pos == 0 ? 0 : f.pos == 5 ? rj : rk : s.canon(rg.size())); u32 w = s.word(rg, im); if (ref::find(w) != op) continue;
			ws.push_back(w); }
		std::sort(ws.begin(), ws.end()); ws.erase(std::unique(ws.begin(), ws.end()), ws.end());
		for (size_t p = 0; p < ws.size() && !s.stop(); p += b.capacity()) { size_t n = std::min(b.capacity(), ws.size() - p); std::vector<u32> q(ws.begin() + p, ws.begin() + p + n); b.load_words(q);
			for (size_t k = 0; k < n && !s.stop(); k++) { if (ref::is_mem(op)) { for (int ll = 0; ll < 2; ll++) { auto m = memory_state(op, q[k]); m.ll = ll; check_one(c, b, s.oc, q[k], k, m); } u32 rj = q[k] >> 5 & 31; auto m = memory_state(op, q[k]); if (rj) { m.r[rj] = 0x10; check_one(c, b, s.oc, q[k], k, m); } }
				else if (ref::is_branch(op)) { for (int v = 0; v < 4; v++) { auto m = base_state(); int rj = q[k] >> 5 & 31; if (rj) m.r[rj] = v == 0 ? 0 : v == 1 ? b.addr(0) : v == 2 ? ~0ull : b.addr(3); m.pc = b.addr(k); ref::State e = m; ref::exec_op(e, op, q[k], b, false); b.set(m); int ex = b.run(STEP, m.pc); c.transitions(); u64 got = b.m->cpu.pc(); bool inside = e.pc >= b.code && e.pc < b.code + n * 16 && !(e.pc & 3); if (inside && (ex >= 0 || got != e.pc || b.m->cpu.reg(0))) c.fail(string(op->name) + ":branch", fmt("%s word %#010x with r%d=%#lx: pc=%#lx r0=%#lx, expected pc %#lx", op->name, q[k], rj, (long)m.r[rj], (long)got, (long)b.m->cpu.reg(0), (long)e.pc)); if (b.m->cpu.reg(0)) c.fail(string(op->name) + ":branch", "r0 changed"); } }
				else for (u64 v : s.imms.size() ? int_values(false).small : int_values(false).full) { auto m = base_state(); for (int i = 1; i < 32; i++) m.r[i] = v + (i == 7 ? 3 : 0); check_one(c, b, s.oc, q[k], k, m); } }
			if (!b.mem_same() || !b.code_same()) { memcpy(b.arena, b.shadow.data(), b.size + 64); } }
		c.state(op->match); if (c.want_sample()) c.sample(fmt("%s r0,... : %zu words", op->name, ws.size()));
	}, { .split_depth = 1, .timeout_s = 300 });
	// writer of r0 immediately followed by a reader of r0 (rewritten pairs, fast paths)
	chk.section("pairs", [&](Ctx& c) {
		setup(); Box& b = *box; auto* wop = c.pick(writers, "writer"); c.at("%s then ...", wop->name); c.crash_key(string(wop->name) + ":pair-crash"); if (ref::is_branch(wop)) c.prune();
		Sweep ws(c, b, wop); auto wi = ws.immediates(3); u64 fails0 = c.m_failcount; std::vector<u32> first; for (size_t i = 0; i < wi.size() && first.size() < (chk.thorough() ? 4 : 2); i++) { std::vector<int> rg; for (auto& f : ws.regs) rg.push_back(f.kind == 'r' ? f.pos == 0 ? 0 : f.pos == 5 ? 5 : 7 : ws.canon(rg.size())); u32 w = ws.word(rg, wi[wi.size() > 1 ? (i ? wi.size() - 1 : 1) : 0]); if (ref::find(w) == wop) first.push_back(w); }
		struct Case { u32 w, r; const ref::Op* rop; }; std::vector<Case> cs;
		for (u32 w : first) for (auto* rop : readers) { if (ref::is_branch(rop)) continue; Sweep rs(c, b, rop); auto ri = rs.immediates(3); auto& im = ri[ri.size() / 2]; auto g = gprs(rop); bool dst = writes_gpr0(rop);
			for (int alias = 0; alias < 3; alias++) { std::vector<int> rg; for (auto& f : rs.regs) rg.push_back(f.kind == 'r' ? f.pos == 0 ? (dst && !ref::is_mem(rop) ? 6 : 0) : f.pos == 5 ? (alias == 1 ? 9 : 0) : (alias == 2 ? 9 : 0) : rs.canon(rg.size())); u32 r = rs.word(rg, im); if (ref::find(r) == rop) cs.push_back({ w, r, rop }); } }
		for (size_t p = 0; p < cs.size(); p += b.capacity()) { size_t n = std::min(b.capacity(), cs.size() - p); std::vector<u32> prog; for (size_t k = 0; k < n; k++) { prog.push_back(cs[p + k].w); prog.push_back(cs[p + k].r); prog.push_back(STOPW); prog.push_back(STOPW); } b.load_program(prog);
			for (size_t k = 0; k < n; k++) { auto& q = cs[p + k]; auto s = memory_state(wop, q.w); s.pc = b.addr(k); if (ref::is_mem(q.rop)) s.r[9] = b.data + 0x800; ref::State e = s; b.stored = false; auto r1 = ref::exec_op(e, wop, q.w, b, true); if (r1 != ref::OK) continue; ref::State mid = e; auto r2 = ref::exec_op(e, q.rop, q.r, b, true); OpCase o1(wop), o2(q.rop); ref::Lax lx; lx.nan32 = o1.lax.nan32 || o2.lax.nan32; lx.nan64 = o1.lax.nan64 || o2.lax.nan64; lx.zero_sign = o1.lax.zero_sign || o2.lax.zero_sign;
				if (r2 == ref::OK || r2 == ref::FAULTED) for (int mode = 0; mode < NMODES; mode++) { b.set(s); int ex = b.run(mode, s.pc); if (ex < 0 && mode == STEP) ex = b.run(STEP, s.pc + 4); c.transitions(2); c.traces(); string d; if (r2 == ref::OK ? ex >= 0 : ex != PROTECTION_FAULT) d = fmt("ended with %d", ex); else d = diff(b, r2 == ref::OK ? e : mid, lx, o1.fcsr_mask & o2.fcsr_mask); if (d.empty() && !b.mem_same()) d = "memory differs";
					if (b.stored || !d.empty()) memcpy(b.arena + b.data, b.pristine.data() + b.data, b.size + 64 - b.data);
					if (!d.empty()) { c.fail(fmt("pair:%s", wop->name), fmt("%s (%#010x) with destination r0, then %s (%#010x) reading r0 (%s): %s", wop->name, q.w, q.rop->name, q.r, mode_name(mode), d.c_str())); if (c.m_failcount - fails0 > 40) return; }
					if (b.stored && mode + 1 < NMODES) {} }
				if (b.stored) memcpy(b.shadow.data() + b.data, b.pristine.data() + b.data, b.size + 64 - b.data); } }
		c.state(wop->match); c.nontrivial();
	}, { .split_depth = 1, .timeout_s = 300 });
	return chk.finish();
}
