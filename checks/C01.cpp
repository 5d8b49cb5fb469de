// build: VARIANT=plain EXTRAOBJ=$(O)/ref_isa.o
// C01: guest instructions cannot touch memory outside the guest's arena.
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "isa.hpp"
using namespace isa;
// The arena is placed between inaccessible pages, so that an access outside it cannot go unnoticed.
static bool g_guard = false; static constexpr size_t G = 4 << 20; struct Map { char* p; char* base; size_t total; }; static std::vector<Map>& maps() { static std::vector<Map> m; return m; }
extern "C" void* mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) noexcept {
	if (!g_guard || a || fd != -1) return (void*)syscall(SYS_mmap, a, len, prot, flags, fd, off);
	g_guard = false; size_t r = (len + 4095) & ~4095ul; char* b = (char*)syscall(SYS_mmap, nullptr, r + 2 * G, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) return b;
	mprotect(b + G, r, prot); char* p = b + G + ((r - len) & ~63ul); maps().push_back({ p, b, r + 2 * G }); return p; }
extern "C" int munmap(void* p, size_t n) noexcept { for (auto& m : maps()) if (m.p == p) { syscall(SYS_munmap, m.base, m.total); m.p = nullptr; return 0; } return syscall(SYS_munmap, p, n); }

struct Layout { u64 size, ro, da; }; static const std::vector<Layout> layouts = { { 0x6000 - 64, 0x1000, 0x4000 }, { 0x3fc0, 0x1240, 0x2345 }, { 0x1fc0, 0x40, 0x1f88 }, { 0x3fc0, 0x2000, 0x2000 }, { 0x1f80, 0, 0x1000 } };
static Box& boxof(int k) { static std::unique_ptr<Box> b[8]; if (!b[k]) { g_guard = true; b[k] = std::make_unique<Box>(layouts[k].size, layouts[k].ro, layouts[k].da); g_guard = false; b[k]->code = layouts[k].ro ? layouts[k].ro : 0x40; } return *b[k]; }
struct MemOp { const ref::Op* op; string name; std::vector<ref::Field> f; ref::Field imm; int iw = 0, shift = 0, width; bool atomic, sc, store, hint, index;
	MemOp(const ref::Op* o) : op(o), name(o->name) { f = ref::fields(o); for (auto& x : f) if (!strchr("rfvx", x.kind)) { imm = x; iw = ref::width(x); shift = x.shift; } hint = name.substr(0, 4) == "prel"; atomic = name.substr(0, 2) == "am"; sc = name.substr(0, 3) == "sc."; store = name.find("st") != string::npos || atomic || sc; index = !iw && !atomic;
		char c = name.back(); if (name.substr(0, 2) == "xv") width = 32; else if (name[0] == 'v') width = 16; else { if (c == 'u') c = name[name.size() - 2]; width = c == 'b' ? 1 : c == 'h' ? 2 : c == 'w' || c == 's' ? 4 : 8; }
		size_t p; if ((name.substr(0, 5) == "vstel" || name.substr(0, 6) == "xvstel" || (p = name.find("repl")) != string::npos)) width = c == 'b' ? 1 : c == 'h' ? 2 : c == 'w' ? 4 : 8; }
	u32 word(int rd, int rj, int x) const { u32 w = op->match; for (auto& q : f) { if (!strchr("rfvx", q.kind)) { if (q.kind == imm.kind && q.pos == imm.pos) w = ref::put(w, q, x); } else w = ref::put(w, q, q.pos == 0 ? rd : q.pos == 5 ? rj : x); } return w; } };
static i64 sext(u64 v, int w) { return (i64)(v << (64 - w)) >> (64 - w); }
static u64 regs_hash(Box& b) { auto& r = b.m->cpu.registers(); u64 h = hash_bytes(&r.get(0), 256); h = hash_bytes(&r.getvr(0), 32 * sizeof(r.getvr(0)), h); for (int i = 0; i < 8; i++) h = mix(h, r.cf(i)); h = mix(h, r.fcsr()); return mix(h, b.m->cpu.ll_bit()); }

// the word is loaded in slot 0; a is its effective address
static bool one(Ctx& c, Box& b, const MemOp& m, ref::State s, u64 a, const string& how) {
	s.pc = b.addr(0); u64 lo = m.store ? b.data : b.rodata;
	for (int mode = 0; mode < NMODES; mode++) {
		b.set(s); u64 h0 = regs_hash(b); c.at("%s at %#lx %s (%s)", m.name.c_str(), (long)a, how.c_str(), mode_name(mode)); int ex = b.run(mode, s.pc); c.transitions(); string d;
		bool outside = a < lo || a >= b.size; u64 n = b.size + 64; 
		if (ex >= 0) { if (ex != PROTECTION_FAULT) d = fmt("exception %d", ex); else if (regs_hash(b) != h0) d = "a refused access changed a register"; else if (memcmp(b.arena, b.shadow.data(), n)) d = "a refused access changed memory"; }
		else if (m.hint || (m.sc && !s.ll)) { if (memcmp(b.arena, b.shadow.data(), n)) d = "changed memory"; }
		else if (outside) d = m.store ? "stored outside writable memory without an exception" : "loaded from outside readable memory without an exception";
		else { u64 e = m.store ? a + m.width : a; if (memcmp(b.arena, b.shadow.data(), a) || (e < n && memcmp(b.arena + e, b.shadow.data() + e, n - e))) { u64 k = 0; while (b.arena[k] == b.shadow[k] || (k >= a && k < e)) k++; d = fmt("changed memory at %#lx", (long)k); } }
		memcpy(b.arena, b.shadow.data(), n);
		if (!d.empty()) { c.fail(fmt("%s:%s", m.name.c_str(), mode_name(mode)), fmt("%s accessing %#lx %s (readable [%#lx,%#lx), writable from %#lx, %s): %s", m.name.c_str(), (long)a, how.c_str(), (long)b.rodata, (long)b.size, (long)b.data, mode_name(mode), d.c_str())); return false; }
	}
	c.nontrivial(); return true;
}
int main(int argc, char** argv) {
	Check chk(argc, argv, "C01");
	chk.rule("every load, store, vector, prefetch and atomic instruction x 5 memory layouts x every address within 70 bytes of 0, the readable, the writable and the end boundary, and around 2^31, 2^32, 2^47, 2^63, 2^64 and boundary + 2^k for all k, reached through base, offset (all extremes) and index splits including sums that wrap around 2^64, in three modes, with inaccessible pages around the arena: every access starting outside faults with registers and memory unchanged, every other one changes only its own bytes");
	chk.assume("an access that starts inside may extend into the 64-byte guard tail the library allocates behind the arena");
	static std::vector<MemOp> ops; for (auto& n : supported()) { auto* op = ref::find_name(n); if (op && (classify(op) == MEMORY || n.substr(0, 4) == "prel")) ops.emplace_back(op); }
	chk.section("addresses", [&](Ctx& c) {
		int k = c.choose(layouts.size(), "layout"); const MemOp& m = ops[c.choose(ops.size(), "instruction")]; auto& b = boxof(k); c.crash_key(m.name + ":crash"); int W = c.thorough() ? 200 : 70;
		std::vector<u64> A; auto around = [&](u64 x, int d) { for (int i = -d; i <= d; i++) A.push_back(x + i); };
		around(0, W); around(b.rodata, W); around(b.data, W); around(b.size, W); around(b.size + 64, 35); for (u64 x : { 1ull << 31, 1ull << 32, 1ull << 47, 1ull << 63, (1ull << 32) + b.size, (1ull << 32) + b.data, (1ull << 32) + b.rodata, (1ull << 63) + b.data, (1ull << 31) + b.size }) around(x, 33);
		for (int i = 12; i < 64; i++) for (u64 base : { (u64)0, b.data, b.size - 32, b.rodata + 8 }) { A.push_back(base + (1ull << i)); A.push_back(base - (1ull << i)); }
		auto base = base_state();
		struct Split { int imm; u64 idx; }; std::vector<Split> S; if (m.iw) for (int v : { 0, 1, (1 << m.iw) - 1, 1 << (m.iw - 1), (1 << (m.iw - 1)) - 1, 5 % (1 << m.iw) }) S.push_back({ v, 0 }); else if (m.index) for (u64 x : std::vector<u64>{ 0, 1, ~0ull, 1ull << 63, b.data, 0x100000000ull, 0xffffffff00000000ull, 0xffffffffull, 0x80000000ull }) S.push_back({ 7, x }); else S.push_back({ 7, 0 });
		for (auto& sp : S) { u32 w = m.word(6, 5, sp.imm); b.load_words({ w }); memcpy(b.shadow.data(), b.arena, b.size + 64); int wrong = 0;
			for (u64 a : A) for (int ll = 0; ll < (m.sc ? 2 : 1); ll++) { auto s = base; s.ll = ll; i64 off = m.iw ? sext(sp.imm, m.iw) * (1ll << m.shift) : 0; s.r[5] = a - off - (m.index ? sp.idx : 0); if (m.index) s.r[7] = sp.idx; 
				if (!one(c, b, m, s, a, m.iw ? fmt("(offset %ld)", (long)off) : m.index ? fmt("(index %#lx)", (long)sp.idx) : "") && ++wrong > 3) break; }
			c.state(mix(mix(w, k), S.size())); c.traces(); if (wrong) break; }
		if (c.want_sample()) c.sample(m.name + fmt(": %zu addresses x %zu splits, layout %d", A.size(), S.size(), k));
	}, { .split_depth = 2, .timeout_s = 100 });
	// registers: the same register as base, index and destination
	chk.section("aliases", [&](Ctx& c) {
		int k = c.choose(layouts.size(), "layout"); const MemOp& m = ops[c.choose(ops.size(), "instruction")]; auto& b = boxof(k); c.crash_key(m.name + ":crash"); auto base = base_state();
		for (int rd : { 0, 5, 7, 9 }) for (int rj : { 0, 5, 7 }) for (int x : { 0, 5, 7 }) { if (m.iw && x) continue; u32 w = m.word(rd, rj, x); b.load_words({ w }); memcpy(b.shadow.data(), b.arena, b.size + 64);
			for (u64 e : { (u64)0, b.rodata, b.data, b.size, (u64)1 << 32, (u64)1 << 63 }) for (int d = -34; d <= 34; d++) { u64 a = e + d; auto s = base; s.ll = true; if (m.index && rj == x && rj) { if (a & 1) continue; s.r[rj] = a / 2 + (d & 2 ? 1ull << 63 : 0); } else { if (m.index) s.r[x] = x ? 0x1234567800000000 : 0; s.r[rj] = rj ? a - (m.index ? s.r[x] : 0) : 0; if (!rj) { if (!m.index || !x) a = 0; else s.r[x] = a; } } if (m.atomic && rj && x == rj) {} s.r[0] = 0;
				if (!one(c, b, m, s, a, fmt("(rd=%d rj=%d rk=%d)", rd, rj, x))) return; } c.state(mix(w, k)); }
		c.traces();
	}, { .split_depth = 2, .timeout_s = 100 });
	// more than 4 GiB of memory: addresses above 2^32 are themselves, not their low halves
	chk.section("large", [&](Ctx& c) {
		static std::unique_ptr<Box> bb; const MemOp& m = ops[c.choose(ops.size(), "instruction")]; if (m.hint) c.prune(); c.crash_key(m.name + ":crash"); static std::unique_ptr<Machine> M; static std::shared_ptr<MachineOptions> opt; constexpr u64 SZ = (6ull << 30) + 4096; static uint8_t* ar;
		if (!M) { opt = std::make_shared<MachineOptions>(); opt->use_shared_execute_segments = false; M = std::make_unique<Machine>(std::string_view{}, *opt); M->set_options(opt); M->memory.allocate_custom_arena(SZ, 0x1000, 0x2000); ar = const_cast<uint8_t*>(M->memory.arena_ptr()); }
		u32 p[4] = { m.word(6, 5, m.iw ? 0 : 7), STOPW, STOPW, STOPW }; memcpy(ar + 0x1000, p, 16); M->memory.evict_execute_segments(); M->cpu.init_execute_area(p, 0x1000, 16); auto base = base_state();
		for (u64 a : std::vector<u64>{ 1ull << 31, (1ull << 31) + 0x2000, 1ull << 32, (1ull << 32) + 0x2000, (1ull << 32) + 0x2468, (5ull << 30) + 0x3000, (1ull << 32) - 0x1000, SZ - 64, SZ, SZ + 64, SZ - 4096 - (2ull << 30), SZ + (1ull << 32), 2 * SZ }) for (int mode = 0; mode < NMODES; mode++) for (u64 split : { (u64)0, (u64)1 << 32, (u64)1 << 63 }) { if (!m.index && split) continue;
			c.at("%s at %#lx of %#lx (%s)", m.name.c_str(), (long)a, (long)SZ, mode_name(mode)); u64 alias = a & 0xffffffff, cell[4] = { 0x1111, 0x2222, 0x3333, 0x4444 }, other[4] = { 0xa1a1a1a1a1a1a1a1, 0xb2b2b2b2b2b2b2b2, 0xc3c3c3c3c3c3c3c3, 0xd4d4d4d4d4d4d4d4 }; bool in = a < SZ, sep = in && alias != a && alias >= 0x2000;
			if (in) memcpy(ar + a, cell, 32); if (alias != a && alias >= 0x2000) memcpy(ar + alias, other, 32); auto& r = M->cpu.registers(); for (int i = 0; i < 32; i++) { r.get(i) = base.r[i]; memset(&r.getvr(i), 0x77, 32); } r.get(5) = a - split; r.get(7) = m.index ? split : 9; r.get(6) = 0x0102030405060708; M->cpu.set_ll_bit(true);
			int ex = -1; try { r.pc = 0x1000; if (mode == STEP) M->cpu.step_one(false); else if (mode == SIM) M->cpu.simulate(0x1000, 0, UINT64_MAX); else M->cpu.simulate_inaccurate(0x1000); } catch (const MachineException& e) { ex = e.type(); } c.transitions(); string d;
			if (in != (ex < 0)) d = in ? fmt("exception %d", ex) : "no exception"; if (alias != a && alias >= 0x2000 && memcmp(ar + alias, other, 32)) d = "changed the memory at the low half of the address";
			if (in && ex < 0 && m.store && !memcmp(ar + a, cell, 32) ) d = "stored nothing there"; if (in && ex < 0 && !m.store && m.f[0].kind == 'r' && sep && m.width >= 1) { u64 v = r.get(6); if ((v & 0xff) != 0x11) d = fmt("loaded %#lx", (long)v); } if (in && ex < 0 && !m.store && m.f[0].kind != 'r') { if (r.getvr(6).bu[0] != 0x11) d = fmt("loaded %#x", r.getvr(6).bu[0]); }
			if (in) memset(ar + a, 0, 32); if (alias != a && alias >= 0x2000) memset(ar + alias, 0, 32);
			if (!d.empty()) { c.fail(fmt("large:%s", m.name.c_str()), fmt("%s at %#lx in a 6 GiB guest (%s): %s", m.name.c_str(), (long)a, mode_name(mode), d.c_str())); return; } }
		c.state(hash_bytes(m.name.data(), m.name.size())); c.traces(); c.nontrivial();
	}, { .split_depth = 1, .timeout_s = 100 });
	return chk.finish();
}
