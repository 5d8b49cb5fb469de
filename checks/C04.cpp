// build: VARIANT=plain EXTRAOBJ=$(O)/ref_isa.o
// C04: loads, stores and atomics.
#include "sweep.hpp"
using namespace isa;

static Box* box; static ref::State base = base_state();
struct MemOp { const ref::Op* op; string name; OpCase oc; int width; bool atomic, llsc, index, store; std::vector<ref::Field> f; int shift = 0, iw = 0; ref::Field imm; 
	MemOp(const ref::Op* o) : op(o), name(o->name), oc(o) {
		f = ref::fields(o); for (auto& x : f) if (!strchr("rfvx", x.kind)) { imm = x; iw = ref::width(x); shift = x.shift; }
		atomic = name.substr(0, 2) == "am"; llsc = name.substr(0, 3) == "ll." || name.substr(0, 3) == "sc."; index = !iw && !atomic;
		store = name.find("st") != string::npos || atomic || name.substr(0, 3) == "sc.";
		char c = name.back(); if (name.substr(0, 2) == "xv") width = 32; else if (name[0] == 'v') width = 16; else { if (c == 'u') c = name[name.size() - 2]; width = c == 'b' ? 1 : c == 'h' ? 2 : c == 'w' || c == 's' ? 4 : 8; }
	}
	int vreg() const { return f[0].kind != 'r'; }
	// field numbers: data register, base register, index/value register (if any)
	u32 word(int rd, int rj, int rk_or_imm) const {
		u32 w = op->match; int k = 0; for (auto& x : f) { if (!strchr("rfvx", x.kind)) w = ref::put(w, x, rk_or_imm); else { int pos = x.pos; w = ref::put(w, x, pos == 0 ? rd : pos == 5 ? rj : rk_or_imm); } (void)k; } return w; }
};
static i64 sext(u64 v, int w) { return (i64)(v << (64 - w)) >> (64 - w); }

// a batch of cases: word + state; loaded together, run one after the other
struct Batch { Ctx& c; const MemOp& m; std::vector<std::pair<u32, ref::State>> q; u64 fails0; Batch(Ctx& c_, const MemOp& m_) : c(c_), m(m_), fails0(c_.m_failcount) {} 
	std::vector<std::vector<uint8_t>> mem; bool usemem = false; u64 memaddr = 0;
	void add(u32 w, const ref::State& s) { q.push_back({ w, s }); if (q.size() == box->capacity()) flush(); }
	void flush() {
		if (c.m_failcount - fails0 > 40) { q.clear(); return; }
		std::vector<u32> ws; for (auto& x : q) ws.push_back(x.first); if (ws.empty()) return; box->load_words(ws);
		for (size_t k = 0; k < q.size(); k++) { check_one(c, *box, m.oc, q[k].first, k, q[k].second); if (c.m_failcount - fails0 > 40) break; }
		if (!box->code_same()) { c.fail(m.name + ":code", m.name + ": memory outside the writable area changed"); memcpy(box->arena, box->shadow.data(), box->data); }
		q.clear();
	} };
static bool same_group(int a, int b) { return a == b; }
// make the effective address hit `t` for registers rj/rk (rk<0: immediate `off`)
static void aim(ref::State& s, const MemOp& m, int rd, int rj, int rk, i64 off, u64 t, u64 idx) {
	if (m.index) { if (rj == rk) { if (rj) s.r[rj] = t / 2; } else { if (rk) s.r[rk] = idx; if (rj) s.r[rj] = rk ? t - idx : t; else if (rk) s.r[rk] = t; } }
	else if (rj) s.r[rj] = m.atomic ? t : t - off;
}

int main(int argc, char** argv) {
	Check chk(argc, argv, "C04");
	chk.rule("every supported load, store and atomic x every immediate x alignments x aliasing patterns x every register number x operand and memory values x addresses around every memory boundary, and every LL/SC/store sequence up to a length, executed by step, simulate and simulate_inaccurate and compared byte for byte with the reference model");
	chk.assume("a single-threaded host: atomicity against other host threads is not part of the property");
	static std::vector<MemOp> ops; for (auto& n : supported()) { auto* op = ref::find_name(n); if (op && classify(op) == MEMORY) ops.emplace_back(op); }
	auto setup = [] { if (!box) box = new Box; };
	// ---- every immediate (or index value), several alignments
	chk.section("immediates", [&](Ctx& c) {
		setup(); const MemOp& m = c.pick(ops, "instruction"); c.at("%s", m.name.c_str()); c.crash_key(m.name + ":crash"); Batch b(c, m);
		std::vector<u64> ts; u64 mid = box->data + 0x1000; ts.push_back(mid); if (!m.atomic && !m.llsc) { ts.push_back(mid + 1); ts.push_back(mid + 3); ts.push_back(mid + 7); ts.push_back(mid - 1); ts.push_back(mid + 60); } ts.push_back(mid + 64); ts.push_back(box->data); ts.push_back(box->size - 32);
		for (u64 t : ts) for (int ll = 0; ll < (m.llsc ? 2 : 1); ll++) {
			if (m.iw) for (int k = 0; k < 1 << m.iw; k++) { auto s = base; s.ll = ll; aim(s, m, 6, 5, -1, sext(k, m.iw) << m.shift, t, 0); b.add(m.word(6, 5, k), s); }
			else for (u64 idx : int_values(true).full) { auto s = base; aim(s, m, 6, 5, 7, 0, t, idx); if (m.atomic) s.r[7] = idx; b.add(m.word(6, 5, 7), s); }
		}
		b.flush(); c.state(mix((u64)m.op->match, 1)); if (c.want_sample()) c.sample(m.name + ": every immediate x 9 targets");
	}, { .split_depth = 1, .timeout_s = 300 });
	// ---- register aliasing and register numbers
	chk.section("registers", [&](Ctx& c) {
		setup(); const MemOp& m = c.pick(ops, "instruction"); int part = c.choose(4, "part"); c.at("%s part %d", m.name.c_str(), part); c.crash_key(m.name + ":crash"); Batch b(c, m);
		u64 mid = box->data + 0x1000; bool has_k = m.index || m.atomic;
		std::vector<int> few = { 0, 1, 9, 10, 31 }, all; for (int i = 0; i < 32; i++) all.push_back(i);
		auto go = [&](const std::vector<int>& D, const std::vector<int>& J, const std::vector<int>& K) { for (int d : D) for (int j : J) for (int k : K) for (u64 t : { mid, mid + (m.atomic || m.llsc ? 8 : 5) }) { auto s = base; s.ll = true; 
			if (has_k) { aim(s, m, d, j, k, 0, t, 0x18); if (m.atomic && k != j && k) s.r[k] = base.r[k]; b.add(m.word(d, j, k), s); }
			else { int im = k == 0 ? 0 : (k * 37) & ((1 << m.iw) - 1); aim(s, m, d, j, -1, sext(im, m.iw) << m.shift, t, 0); b.add(m.word(d, j, im), s); } } };
		if (part == 0) go(few, few, few); else if (part == 1) go(all, all, { 9 }); else if (part == 2) go(all, { 9 }, has_k ? all : few); else go({ 9 }, all, has_k ? all : few);
		b.flush(); c.state(mix((u64)m.op->match, 2 + part));
	}, { .split_depth = 2, .timeout_s = 300 });
	// ---- values: register contents x memory contents
	chk.section("values", [&](Ctx& c) {
		setup(); const MemOp& m = c.pick(ops, "instruction"); c.at("%s", m.name.c_str()); c.crash_key(m.name + ":crash");
		u64 mid = box->data + 0x1000; auto& V = int_values(m.atomic || c.thorough()); uint64_t f0 = c.m_failcount;
		box->load_words({ m.word(6, 5, m.iw ? 0 : 7) });
		for (u64 mem : V.full) { u64 cell[5] = { mem, ~mem, mem ^ 0x5a5a5a5a5a5a5a5a, mem * 3, 0x1122334455667788 };
			for (u64 off : { 0, m.atomic || m.llsc ? 8 : 3 }) { uint8_t saved[40]; memcpy(saved, box->pristine.data() + mid + off, 40); box->poke(mid + off, cell, 40);
				for (u64 val : V.full) for (int ll = 0; ll < (m.llsc ? 2 : 1); ll++) { auto s = base; s.ll = ll; s.r[5] = mid + off; s.r[6] = val; s.r[7] = m.atomic ? val : 0; s.v[6].d[0] = val; s.v[6].d[1] = ~val; s.v[6].d[3] = val * 7; check_one(c, *box, m.oc, m.word(6, 5, m.iw ? 0 : 7), 0, s); if (c.m_failcount - f0 > 40) break; if (!m.store && val != V.full[0] && val != V.full[1]) break; }
				box->poke(mid + off, saved, 40); } }
		c.state(mix((u64)m.op->match, 9));
	}, { .split_depth = 1, .timeout_s = 300 });
	// ---- addresses around every boundary
	chk.section("addresses", [&](Ctx& c) {
		setup(); const MemOp& m = c.pick(ops, "instruction"); c.at("%s", m.name.c_str()); c.crash_key(m.name + ":crash"); Batch b(c, m);
		std::vector<u64> A; auto around = [&](u64 x, int d) { for (int k = -d; k <= d; k++) A.push_back(x + k); };
		around(0, 40); around(box->rodata, 40); around(box->data, 40); around(box->size, 80); around(1ull << 31, 33); around(1ull << 32, 33); around((1ull << 32) + box->data, 33); around((1ull << 32) + box->size, 33); around(1ull << 63, 33); around((1ull << 63) + box->data, 9);
		for (int i = 12; i < 64; i++) { A.push_back(box->data + 0x1000 + (1ull << i)); A.push_back((1ull << i)); }
		for (u64 a : A) { if ((m.atomic || m.llsc) && a % m.width) continue;
			for (int ll = 0; ll < (m.llsc ? 2 : 1); ll++) {
			if (m.iw) for (int k : { 0, 1, 16, (1 << m.iw) - 1, (1 << m.iw) - 16, (1 << (m.iw - 1)), (1 << (m.iw - 1)) - 1 }) { auto s = base; s.ll = ll; s.r[5] = a - (sext(k, m.iw) << m.shift); b.add(m.word(6, 5, k), s); }
			else if (m.index) for (u64 x : { 0ul, 1ul, ~0ul, 1ul << 63, (u64)box->data, 0x100000000ul, 0xffffffff00000000ul }) { auto s = base; s.r[5] = a - x; s.r[7] = x; b.add(m.word(6, 5, 7), s); }
			else { auto s = base; s.r[5] = a; b.add(m.word(6, 5, 7), s); } } }
		b.flush(); c.state(mix((u64)m.op->match, 10)); if (c.want_sample()) c.sample(m.name + fmt(": %zu addresses", A.size()));
	}, { .split_depth = 1, .timeout_s = 300 });
	// ---- LL/SC sequences: run in one straight line, and instruction by instruction
	static const char* sn[] = { "ll.w", "ll.d", "sc.w", "sc.d", "st.w", "ld.d", "amadd.w", "ll.w", "sc.d" };
	int len = chk.thorough() ? 7 : 6;
	chk.section("ll-sc", [&](Ctx& c) {
		setup(); c.crash_key("ll-sc:crash"); u64 mid = box->data + 0x1000; std::vector<u32> w; string t; u64 h = 7; std::vector<const ref::Op*> os;
		for (int i = 0; i < len; i++) { int k = c.choose(9, "instruction"); auto* op = ref::find_name(sn[k]); const MemOp* m = nullptr; for (auto& x : ops) if (x.op == op) m = &x; if (!m) return;
			bool other = k >= 7; int rd = 10 + i; u32 x = m->atomic ? m->word(rd, other ? 6 : 5, 7) : m->word(rd, other ? 6 : 5, 0); w.push_back(x); os.push_back(op); t += fmt("%s r%d,%s; ", sn[k], rd, other ? "B" : "A"); h = mix(h, k); }
		std::vector<u32> prog = w; prog.push_back(STOPW); box->load_program(prog);
		auto s = base; s.r[5] = mid; s.r[6] = mid + 16; s.pc = box->code; auto e = s; for (int i = 0; i < len; i++) ref::exec_op(e, os[i], w[i], *box, true);
		e.pc = box->code + 4 * len;
		for (int mode = 0; mode < NMODES; mode++) { box->set(s); int ex = -1; if (mode == STEP) for (int i = 0; i < len && ex < 0; i++) ex = box->run(STEP, box->code + 4 * i); else ex = box->run(mode, box->code); c.transitions(len); c.traces();
			string d = ex >= 0 ? fmt("exception %d", ex) : diff(*box, e, {}, ~0u); if (d.empty() && !box->mem_same()) d = "memory differs";
			if (!d.empty()) c.fail(fmt("ll-sc:%s", mode_name(mode)), t + mode_name(mode) + ": " + d); memcpy(box->arena + box->data, box->pristine.data() + box->data, box->size + 64 - box->data); }
		memcpy(box->shadow.data() + box->data, box->pristine.data() + box->data, box->size + 64 - box->data);
		c.state(h); if (c.want_sample()) c.sample(t);
	}, { .split_depth = 3 });
	return chk.finish();
}
