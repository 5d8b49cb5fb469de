// build: VARIANT=plain EXTRAOBJ=$(O)/ref_isa.o
// C05: branches, jumps and calls.
#include "sweep.hpp"
using namespace isa;
static ref::State base = base_state();
struct Br { const ref::Op* op; string n; char cls; /* r: two registers, z: one register, c: condition flag, b: unconditional, j: jirl */ ref::Field imm; int w;
	Br(const char* name) : op(ref::find_name(name)), n(name) { for (auto& f : ref::fields(op)) if (!strchr("rfvxc", f.kind)) imm = f; w = ref::width(imm);
		cls = n == "jirl" ? 'j' : n == "b" || n == "bl" ? 'b' : n.substr(0, 2) == "bc" ? 'c' : n == "beqz" || n == "bnez" ? 'z' : 'r'; }
	u32 word(i64 off, int rj = 5, int rd = 6) const { u32 x = op->match; for (auto& f : ref::fields(op)) { if (f.kind == 'r') x = ref::put(x, f, f.pos == 0 ? rd : rj); if (f.kind == 'c') x = ref::put(x, f, rj & 7); } return ref::put(x, imm, off); } };
// operands that make it taken / not taken
static void operands(ref::State& s, const Br& b, bool taken) {
	s.r[5] = 100; s.r[6] = 100; s.cf[5] = 0;
	if (b.n == "bne") s.r[6] = 101; if (b.n == "blt" || b.n == "bltu") s.r[6] = 200; if (b.n == "bnez") s.r[5] = 1; if (b.n == "beqz") s.r[5] = 0; if (b.n == "bcnez") s.cf[5] = 1;
	if (taken) return;
	if (b.n == "beq") s.r[6] = 1; if (b.n == "bne") s.r[6] = 100; if (b.n == "blt" || b.n == "bltu") s.r[6] = 99; if (b.n == "bge" || b.n == "bgeu") s.r[6] = 101; if (b.n == "bnez") s.r[5] = 0; if (b.n == "beqz") s.r[5] = 1; if (b.n == "bcnez") s.cf[5] = 0; if (b.n == "bceqz") s.cf[5] = 1;
}
static const ref::Lax nolax;
// `stop_at(pc)`: execution arriving there stops at once (a STOP word)
static bool run_branch(Ctx& c, Box& b, const Br& br, u32 w, u64 at, ref::State s, std::function<bool(u64)> stop_at, int modes = 7, const char* tag = "") {
	s.pc = at; auto e = s; bool good = true; ref::exec_op(e, br.op, w, b, false);
	for (int mode = 0; mode < NMODES; mode++) { if (!(modes >> mode & 1)) continue;
		b.set(s); int ex = b.run(mode, at); c.transitions(); u64 pc = b.m->cpu.pc(); string d;
		if (e.pc & 3) { if (ex < 0) d = "no exception for a misaligned target"; else d = diff(b, s, nolax, ~0u); }
		else if (mode == STEP) { if (ex >= 0) d = fmt("exception %d", ex); else if (pc != e.pc) d = fmt("pc=%#lx, expected %#lx", (long)pc, (long)e.pc); else d = diff(b, e, nolax, ~0u); }
		else if (stop_at(e.pc)) { if (ex >= 0) d = fmt("exception %d on the way to %#lx", ex, (long)e.pc); else if (pc != e.pc + 4) d = fmt("stopped at pc=%#lx, expected %#lx", (long)pc, (long)e.pc + 4); else d = diff(b, e, nolax, ~0u); }
		else { if (ex < 0) d = fmt("no exception for a target outside executable code (%#lx)", (long)e.pc); else d = diff(b, e, nolax, ~0u); }
		if (!d.empty()) { good = false; c.fail(fmt("%s:%s%s", br.n.c_str(), mode_name(mode), tag), fmt("%s word %#010x at %#lx%s (%s): %s", br.n.c_str(), w, (long)at, regs_text(br.op, w, s).c_str(), mode_name(mode), d.c_str())); } }
	c.traces(); return good;
}
// Code of N words in which every word is STOP or a branch; layout k: words whose index has
// bit k set are STOP.  Offsets whose lowest set bit is k lead from a branch to a STOP.
static void layout(Ctx& c, const Br& br, int k, u64 limit) {       // all offsets with |off| < limit, lowest set bit k
	u64 N = 2 * limit; Box b(0x1000 + 4 * N + 0x10000, 0x1000, 0x1000 + 4 * N); std::vector<u32> p(N, STOPW); std::vector<std::pair<u64, i64>> cases; u64 step = 1ull << k;
	// offsets, assigned to branch positions: positive from the low half, negative from the high half
	u64 lo = 0, hi = limit; auto next = [&](u64& x) { while (x >> k & 1) x++; return x++; };
	for (u64 o = step; o < limit; o += 2 * step) { u64 x = next(lo); p[x] = br.word(o); cases.push_back({ x, (i64)o }); u64 y = next(hi); p[y] = br.word(-(i64)o); cases.push_back({ y, -(i64)o }); }
	if (step == limit >> 1) {} 
	b.load_program(p); ref::State s = base; operands(s, br, true); ref::State n = base; operands(n, br, false); u64 f0 = c.m_failcount;
	auto stop = [&](u64 a) { return a >= b.code && a < b.code + 4 * N && p[(a - b.code) / 4] == STOPW; };
	for (auto& [x, o] : cases) {
		auto t = s; t.pc = b.addr(0) + 4 * x; auto e = t; ref::exec_op(e, br.op, p[x], b, false); u64 at = t.pc; bool isj = br.cls == 'j'; (void)isj;
		if (e.pc != at + 4 * o) { c.fail("reference", "reference disagrees with the offset"); return; }
		for (int mode = SIM; mode < NMODES; mode++) { // lean version of run_branch
			b.set(t); int ex = b.run(mode, at); c.transitions(); if (__builtin_expect(ex >= 0 || b.m->cpu.pc() != e.pc + 4, 0)) c.fail(fmt("%s:offset:%s", br.n.c_str(), mode_name(mode)), fmt("%s offset %ld (%s): %s pc=%#lx, expected %#lx", br.n.c_str(), (long)o * 4, mode_name(mode), ex >= 0 ? fmt("exception %d", ex).c_str() : "", (long)b.m->cpu.pc(), (long)e.pc + 4)); }
		if (c.m_failcount - f0 > 40) break;
		if (((x * 2654435761u) >> 8 & 63) == 0) { if (!run_branch(c, b, br, p[x], at, s, stop)) break; }
	}
	c.traces(cases.size() * 2); c.nontrivial(cases.size()); c.state(mix(br.op->match, k + 100));
}

int main(int argc, char** argv) {
	Check chk(argc, argv, "C05");
	chk.rule("every branch, jump and call instruction x every offset its encoding can hold (taken, by single-stepping; and by both dispatchers inside a code segment laid out so that every offset leads to a stop word) x operand cross product x every register number x targets inside, outside, misaligned and in another execute segment");
	static std::vector<Br> all; for (auto n : { "beq", "bne", "blt", "bge", "bltu", "bgeu", "beqz", "bnez", "bceqz", "bcnez", "b", "bl", "jirl" }) all.emplace_back(n);
	static std::unique_ptr<Box> box; auto setup = [] { if (!box) box = std::make_unique<Box>(); };
	// ---- single-stepping: every offset
	chk.section("step-offsets", [&](Ctx& c) {
		setup(); const Br& br = c.pick(all, "instruction"); int hi = br.w > 16 ? c.choose(br.w > 21 ? 64 : 8, "offset part") : 0; int parts = br.w > 21 ? 64 : br.w > 16 ? 8 : 1; c.crash_key(br.n + ":crash");
		u64 n = (1ull << br.w) / parts; ref::State s = base, t = base; operands(s, br, true); operands(t, br, false); s.pc = t.pc = 0x2000; u64 f0 = c.m_failcount; auto& cpu = box->m->cpu;
		bool quickbig = false;
		for (u64 k = 0; k < n; k++) { u64 off = hi * n + k; if (quickbig && (off & 15) > 1 && (off & 15) < 15) continue; u32 w = br.word(off); i64 o = ((i64)(off << (64 - br.w)) >> (64 - br.w)) * 4;
			// decoded from memory at the program counter, as step does
			memcpy(box->arena + 0x2000, &w, 4); if (br.cls == 'j') { s.r[5] = 0x2000 - o + 0x40; }
			if ((k & 1023) == 0) { box->set(s); } cpu.registers().pc = 0x2000; if (br.cls == 'j') cpu.registers().get(5) = s.r[5]; 
			int ex = box->run(STEP, 0x2000); u64 want = br.cls == 'j' ? 0x2040 : 0x2000 + o; c.transitions();
			if (ex >= 0 || cpu.registers().pc != want) { c.fail(br.n + ":step-offset", fmt("%s word %#x offset %ld: pc=%#lx expected %#lx (exception %d)", br.n.c_str(), w, (long)o, (long)cpu.registers().pc, (long)want, ex)); if (c.m_failcount - f0 > 20) return; }
			if (br.n == "bl" && cpu.registers().get(1) != 0x2004) { c.fail("bl:link", fmt("bl offset %ld: ra=%#lx", (long)o, (long)cpu.registers().get(1))); return; }
			if (br.cls != 'b' && br.cls != 'j' && (k & 3) == 0) { auto q = cpu.registers().get(5); box->set(t); ex = box->run(STEP, 0x2000); if (ex >= 0 || cpu.registers().pc != 0x2004) c.fail(br.n + ":not-taken", fmt("%s word %#x not taken: pc=%#lx", br.n.c_str(), w, (long)cpu.registers().pc)); box->set(s); (void)q; } }
		c.traces(n); c.state(mix(br.op->match, hi));
	}, { .split_depth = 2, .timeout_s = 800 });
	// ---- both dispatchers: every offset of the 16-bit branches, offsets of the 21/26-bit ones up to a limit
	chk.section("offsets", [&](Ctx& c) {
		int i = c.choose(12, "instruction"); const Br& br = all[i]; u64 limit = br.cls == 'r' ? 32768 : br.w == 21 ? 1 << 20 : c.thorough() ? 1 << 24 : 1 << 22; int bits = 0; while (1ull << bits < limit) bits++;
		int k = c.choose(bits, "lowest set bit of the offset"); c.crash_key(br.n + ":crash"); c.at("%s layout %d", br.n.c_str(), k); layout(c, br, k, limit);
		if (c.want_sample()) c.sample(fmt("%s: all offsets below %#lx words with lowest set bit %d", br.n.c_str(), (long)limit, k));
	}, { .split_depth = 2, .timeout_s = 600 });
	// ---- every offset with few set bits / all-ones patterns inside a large segment (farthest reach)
	chk.section("far", [&](Ctx& c) {
		int i = c.choose(7, "instruction"); static const int idx[] = { 6, 7, 8, 9, 10, 11, 12 }; const Br& br = all[idx[i]]; c.crash_key(br.n + ":crash"); c.at("%s", br.n.c_str());
		u64 N = br.w == 16 ? 1 << 17 : 1 << 22; i64 lim = br.w == 16 ? 32768 : 1 << 20; if (br.w == 26) lim = N / 2 - 8;
		std::set<i64> offs; for (int a = 0; a < br.w - 1; a++) for (int d = -2; d <= 2; d++) for (int b = -1; b < a; b++) { i64 x = (1ll << a) + (b < 0 ? 0 : 1ll << b) + d; if (x < lim && x > 2) offs.insert(x); if (-x >= -lim && -x < -2) offs.insert(-x); } offs.insert(lim - 1); offs.insert(-lim);
		Box b(0x1000 + 4 * N + 0x10000, 0x1000, 0x1000 + 4 * N); std::vector<u32> p(N, STOPW); u64 mid = N / 2; std::vector<std::pair<u64, i64>> cases;
		// many branches near the middle, at even positions that no offset hits
		u64 pos = mid; std::set<u64> used, targets; std::vector<i64> left(offs.begin(), offs.end());
		for (i64 o : left) { for (u64 x = pos; ; x += 2) { if (x >= mid + 100000) break; if (used.count(x) || targets.count(x) || used.count(x + o) || x + o >= N) continue; used.insert(x); targets.insert(x + o); p[x] = br.word(o); cases.push_back({ x, o }); pos = x > mid + 4000 ? mid : x; break; } }
		b.load_program(p); ref::State s = base, n = base; operands(s, br, true); operands(n, br, false); auto stop = [&](u64 a) { return a >= b.code && a < b.code + 4 * N && p[(a - b.code) / 4] == STOPW; };
		if (cases.size() + 3 < offs.size()) c.fail("harness", fmt("only %zu of %zu offsets placed", cases.size(), offs.size()));
		for (auto& [x, o] : cases) { auto t = s; u64 at = b.code + 4 * x; if (br.cls == 'j') t.r[5] = at; if (!run_branch(c, b, br, p[x], at, t, stop, 7, ":far")) break;
			if (br.cls != 'b' && br.cls != 'j' && stop(at + 4)) run_branch(c, b, br, p[x], at, n, stop, 7, ":far-not-taken"); }
		c.nontrivial(cases.size()); c.state(mix(br.op->match, 3));
	}, { .split_depth = 1, .timeout_s = 300 });
	// ---- operand values, aliasing, register numbers
	chk.section("operands", [&](Ctx& c) {
		setup(); int i = c.choose(13, "instruction"); int part = c.choose(4, "part"); const Br& br = all[i]; if (br.cls == 'b' && part) c.prune(); c.crash_key(br.n + ":crash"); u64 f0 = c.m_failcount;
		// slots: [branch, STOP, -, STOP]: +3 words or -1 word (the previous slot's last STOP)
		for (int off : { 3, -1, 7, 401 }) {
			auto in = [&](u64 a) { if (a < box->code || a >= box->data) return false; u32 w; memcpy(&w, box->arena + a, 4); return w == STOPW; };
			auto& V = int_values(true).full; auto& S = int_values(c.thorough()).full;
			auto load = [&](std::vector<u32> ws) { ws.resize(box->capacity(), STOPW); box->load_words(ws); };
			if (br.cls == 'j') {
				if (part == 0) { std::vector<u32> ws(box->capacity(), br.word(off)); load(ws); // targets
					for (u64 k : { 5ul, 100ul, (u64)box->capacity() / 2 }) { std::vector<u64> T; for (u64 x = 0; x < 64; x++) { T.push_back(box->addr(k) + x - 32); T.push_back(box->code + x - 32); T.push_back(box->data + x - 32); T.push_back(x); T.push_back(box->size + x - 32); T.push_back((1ull << 32) + box->addr(3) + x); T.push_back((1ull << 31) + x); T.push_back((1ull << 63) + box->addr(3) + x); T.push_back(~0ull - x); T.push_back((1ull << x) + box->addr(2) + 4); T.push_back(1ull << x); }
						for (u64 t : T) { auto s = base; s.r[5] = t - 4 * off; if ((t & 3) == 0 && t >= box->code && t < box->data && !in(t)) continue; run_branch(c, *box, br, br.word(off), box->addr(k), s, in, 7, ":target"); if (c.m_failcount - f0 > 40) return; } } }
				if (part == 1) for (int rd = 0; rd < 32; rd++) { std::vector<u32> ws; for (int rj = 0; rj < 32; rj++) ws.push_back(br.word(off, rj, rd)); load(ws); for (int rj = 0; rj < 32; rj++) { auto s = base; if (rj) s.r[rj] = box->addr(200) + 4 - 4 * off; run_branch(c, *box, br, ws[rj], box->addr(rj), s, in, 7, ":registers"); } }
				if (part == 2) for (int first = 0; first < 65536; first += 512) { std::vector<u32> ws; for (int k = 0; k < 512; k++) ws.push_back(br.word(first + k)); load(ws); for (int k = 0; k < 512; k++) { auto s = base; s.r[5] = box->addr(600) + 4 - (i64)(int16_t)(first + k) * 4; run_branch(c, *box, br, ws[k], box->addr(k), s, in, 6, ":immediate"); } if (off != 3 || c.m_failcount - f0 > 40) break; }
				if (part == 3) { std::vector<u32> ws(box->capacity(), br.word(off, 5, 5)); load(ws); for (u64 t : { box->addr(7) + 4, box->addr(9) + 12, box->addr(9) + 5, (u64)8 }) { auto s = base; s.r[5] = t - 4 * off; run_branch(c, *box, br, ws[0], box->addr(50), s, in, 7, ":same-register"); } }
				continue;
			}
			if (part == 0) { std::vector<u32> ws(box->capacity(), br.word(off)); load(ws);
				if (br.cls == 'r') { for (u64 a : V) for (u64 b : S) for (int sw = 0; sw < 2; sw++) { auto s = base; s.r[5] = sw ? b : a; s.r[6] = sw ? a : b; run_branch(c, *box, br, ws[0], box->addr(150), s, in, 7, ":values"); if (c.m_failcount - f0 > 40) return; } for (u64 a : V) for (i64 d : { 0, 1, -1 }) { auto s = base; s.r[5] = a; s.r[6] = a + d; run_branch(c, *box, br, ws[0], box->addr(150), s, in, 7, ":values"); } }
				else if (br.cls == 'z') for (u64 a : V) { auto s = base; s.r[5] = a; run_branch(c, *box, br, ws[0], box->addr(150), s, in, 7, ":values"); }
				else if (br.cls == 'c') for (int m = 0; m < 256; m++) { auto s = base; for (int q = 0; q < 8; q++) s.cf[q] = m >> q & 1; run_branch(c, *box, br, ws[0], box->addr(150), s, in, 7, ":values"); }
				else { run_branch(c, *box, br, ws[0], box->addr(150), base, in, 7, ":values"); }
			}
			if (part == 1) for (int rd = 0; rd < (br.cls == 'r' ? 32 : 1); rd++) { int nj = br.cls == 'c' ? 8 : 32; std::vector<u32> ws; for (int rj = 0; rj < nj; rj++) ws.push_back(br.word(off, rj, rd)); std::vector<u32> w2(160, STOPW); w2.insert(w2.end(), ws.begin(), ws.end()); load(w2);
				for (int rj = 0; rj < nj; rj++) for (u64 a : { 0ul, 1ul, ~0ul, 1ul << 63 }) for (u64 d : { 0ul, 1ul, ~0ul }) { auto s = base; if (rj) s.r[rj] = a; if (rd) s.r[rd] = d; if (br.cls == 'c') s.cf[rj] = a != 0; run_branch(c, *box, br, ws[rj], box->addr(160 + rj), s, in, 7, ":registers"); if (c.m_failcount - f0 > 40) return; } }
			// not taken, every 16-bit offset
			if (part == 2 && off == 3 && br.cls != 'b') for (int first = 0; first < 65536; first += 512) { std::vector<u32> ws; for (int k = 0; k < 512; k++) ws.push_back(br.word(br.w == 16 ? first + k : (first + k) * 32 + 5)); load(ws); auto s = base; operands(s, br, false); for (int k = 0; k < 512; k++) run_branch(c, *box, br, ws[k], box->addr(k), s, in, 6, ":not-taken"); if (c.m_failcount - f0 > 40) return; }
			// taken, targets outside the segment
			if (part == 3 && off == 3) { std::vector<i64> offs; for (int a = 12; a < br.w - 1; a++) for (i64 d : { 0, 1, -1, 3 }) { offs.push_back((1ll << a) + d); offs.push_back(-(1ll << a) + d); } offs.push_back((1ll << (br.w - 1)) - 1); for (i64 x = -4; x <= 4; x++) { offs.push_back(-1200 + x); offs.push_back((i64)(box->data - box->addr(300)) / 4 + x); offs.push_back((i64)(box->code - box->addr(300)) / 4 + x); }
				for (i64 o : offs) { std::vector<u32> ws(box->capacity(), STOPW); ws[300] = br.word(o); box->load_words(ws); auto s = base; operands(s, br, true); u64 t = box->addr(300) + 4 * o; if (t >= box->code && t < box->data && !in(t)) continue; run_branch(c, *box, br, ws[300], box->addr(300), s, in, 7, ":outside"); if (c.m_failcount - f0 > 40) return; } }
		}
		c.state(mix(br.op->match, 50 + part)); c.nontrivial();
	}, { .split_depth = 2, .timeout_s = 300 });
	// ---- several execute segments
	chk.section("segments", [&](Ctx& c) {
		const Br& br = c.pick(all, "instruction"); int from = c.choose(3, "from segment"), to = c.choose(5, "to"); int where = c.choose(3, "position"); c.crash_key(br.n + ":crash");
		Box b(0x20000, 0x1000, 0x10000); static const u64 S[] = { 0x1000, 0x4000, 0x8000 }; const u64 L = 0x400;   // 3 segments, gaps between them
		u64 at = S[from] + (where == 0 ? 0 : where == 1 ? 0x200 : L - 8); u64 target = to < 3 ? S[to] + (where == 2 ? L - 16 : 0x40) : to == 3 ? S[from] + L + 0x40 : 0x20000 - 0x100;
		if (target == at) c.prune(); i64 o = ((i64)target - (i64)at) / 4; if (br.w == 16 && br.cls != 'j' && (o < -32768 || o > 32767)) c.prune();
		b.m->memory.evict_execute_segments();
		for (int k = 0; k < 3; k++) { std::vector<u32> p(L / 4, STOPW); if (k == from) p[(at - S[k]) / 4] = br.word(br.cls == 'j' ? 0 : o); memcpy(b.arena + S[k], p.data(), L); memcpy(b.shadow.data() + S[k], p.data(), L); if (k == 0) b.m->cpu.init_execute_area(p.data(), S[0], L); else b.m->memory.create_execute_segment(*b.opt, p.data(), S[k], L, false); }
		auto s = base; operands(s, br, true); if (br.cls == 'j') s.r[5] = target; auto stop = [&](u64 a) { for (u64 x : S) if (a >= x && a < x + L) return true; return false; };
		run_branch(c, b, br, br.word(br.cls == 'j' ? 0 : o), at, s, stop, 6, ":segments");
		if (br.cls != 'b' && br.cls != 'j') { auto n = base; operands(n, br, false); run_branch(c, b, br, br.word(o), at, n, stop, 6, ":segments"); }
		c.state(mix(mix(br.op->match, from * 5 + to), where)); if (c.want_sample()) c.sample(fmt("%s from %#lx to %#lx (segments of %#lx bytes at %#lx, %#lx, %#lx)", br.n.c_str(), (long)at, (long)target, (long)L, (long)S[0], (long)S[1], (long)S[2]));
	}, { .split_depth = 2 });
	return chk.finish();
}
