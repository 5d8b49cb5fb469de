// build: VARIANT=masked EXTRAOBJ=$(O)/ref_isa.o PRE=$(BUILD)/masked32/C24
// C24: in a build with masked memory every guest access stays inside the arena, and accesses
// in range behave as in the checked build.  This file is built twice, with a 15-bit and with a
// 32-bit mask; the second program is a worker of the first.
#include "isa.hpp"
#include "elfgen.hpp"
#include <unistd.h>
#include <sys/wait.h>
using namespace isa;
static_assert(LA_MASKED_MEMORY_BITS == 15 || LA_MASKED_MEMORY_BITS == 32);
static constexpr u64 SZ = 1ull << LA_MASKED_MEMORY_BITS, PAGE = 4096, CODE = 0x1000, DATA = 0x4000;
static i64 sext(u64 v, int w) { return (i64)(v << (64 - w)) >> (64 - w); }
static std::vector<uint8_t> program() { std::vector<u32> code(0x2000 / 4, STOPW); std::vector<elfgen::Seg> segs; elfgen::Seg t; t.vaddr = CODE; t.flags = 5; t.bytes.assign((uint8_t*)code.data(), (uint8_t*)(code.data() + code.size())); t.memsz = t.bytes.size(); elfgen::Seg d; d.vaddr = DATA; d.flags = 6; d.bytes.assign(0x100, 7); d.memsz = 0x1000; return elfgen::build({ t, d }, CODE, {}, CODE, 0x2000).file; }
// The arena lies between inaccessible pages; of a 4 GiB arena only a few windows are accessible.
// The rest of its last page holds a pattern nothing may change.
struct MBox : Box {
	struct Win { u64 lo, hi; }; std::vector<Win> win; std::vector<std::vector<uint8_t>> shadows, start; uint8_t* region = nullptr; size_t regsize = 0;
	std::vector<std::pair<u64, std::vector<uint8_t>>> log;
	MBox() : Box(nullptr) {
		size = SZ; rodata = CODE; data = DATA; code = CODE; if (SZ == 0x8000) win = { { 0, SZ + PAGE } }; else win = { { 0, 0x8000 }, { SZ / 2 - PAGE, SZ / 2 + PAGE }, { SZ - PAGE, SZ + PAGE } };
		u64 before = 1ull << 33; regsize = before + SZ + PAGE + before; region = (uint8_t*)mmap(nullptr, regsize, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (region == MAP_FAILED) { perror("mmap"); abort(); } arena = region + before;
		for (auto& w : win) if (mprotect(arena + w.lo, w.hi - w.lo, PROT_READ | PROT_WRITE)) abort();
		opt = std::make_shared<MachineOptions>(); opt->use_shared_execute_segments = false; opt->memory_max = 0x8000; opt->stack_size = 0x1000; opt->brk_size = 0x1000; opt->custom_arena_pointer = arena; opt->custom_arena_size = SZ + 64; static auto elf = program();
		m = std::make_unique<Machine>(std::string_view((char*)elf.data(), elf.size()), *opt); m->set_options(opt); if (m->memory.arena_ptr() != arena) abort();
		for (unsigned i = 0; i < LA_SYSCALLS_MAX; i++) Machine::install_syscall_handler(i, [](Machine&) { throw MachineException(UNIMPLEMENTED_SYSCALL, "syscall"); });
		for (auto& w : win) { for (u64 i = w.lo; i < w.hi; i++) if (i < CODE || i >= DATA) arena[i] = (uint8_t)(i * 37 + (i >> 8) * 101 + 11); shadows.emplace_back(arena + w.lo, arena + w.hi); } start = shadows;
	}
	uint8_t* sh(u64 a, unsigned n) { for (size_t i = 0; i < win.size(); i++) if (a >= win[i].lo && a + n <= win[i].hi) return shadows[i].data() + (a - win[i].lo); return nullptr; }
	bool inside(u64 a, unsigned n) { return sh(a & (SZ - 1), n); }
	void load(u64 a, void* p, unsigned n) override { auto* s = sh(a & (SZ - 1), n); if (!s) abort(); memcpy(p, s, n); }
	void store(u64 a, const void* p, unsigned n) override { auto* s = sh(a & (SZ - 1), n); if (!s) abort(); log.push_back({ a & (SZ - 1), std::vector<uint8_t>(s, s + n) }); memcpy(s, p, n); }
	string changed() { for (size_t i = 0; i < win.size(); i++) if (memcmp(arena + win[i].lo, shadows[i].data(), shadows[i].size())) for (u64 a = win[i].lo; a < win[i].hi; a++) if (arena[a] != shadows[i][a - win[i].lo]) return fmt("memory at %#lx is %#x, expected %#x", (long)a, arena[a], shadows[i][a - win[i].lo]); return ""; }
	void restore() { for (size_t i = 0; i < win.size(); i++) memcpy(arena + win[i].lo, start[i].data(), start[i].size()); }
	void program_words(const std::vector<u32>& w) { std::vector<u32> p; for (u32 x : w) { p.push_back(x); p.push_back(STOPW); p.push_back(B0); p.push_back(STOPW); } m->memory.evict_execute_segments(); memcpy(arena + CODE, p.data(), p.size() * 4); m->cpu.init_execute_area(p.data(), CODE, p.size() * 4); memcpy(shadows[0].data() + CODE, p.data(), p.size() * 4); memcpy(start[0].data() + CODE, p.data(), p.size() * 4); }
};
struct MemOp { const ref::Op* op; string name; OpCase oc; int width; bool atomic, llsc, index; std::vector<ref::Field> f; int shift = 0, iw = 0;
	MemOp(const ref::Op* o) : op(o), name(o->name), oc(o) { f = ref::fields(o); for (auto& x : f) if (!strchr("rfvx", x.kind)) { iw = std::max<int>(iw, ref::width(x)); shift = x.shift; } atomic = name.substr(0, 2) == "am"; llsc = name.substr(0, 3) == "ll." || name.substr(0, 3) == "sc."; index = !iw && !atomic;
		char c = name.back(); if (name.substr(0, 2) == "xv") width = 32; else if (name[0] == 'v') width = 16; else { if (c == 'u') c = name[name.size() - 2]; width = c == 'b' ? 1 : c == 'h' ? 2 : c == 'w' || c == 's' ? 4 : 8; } }
	u32 word(int rd, int rj, int rk, i64 imm) const { u32 w = op->match; for (auto& x : f) w = ref::put(w, x, !strchr("rfvx", x.kind) ? imm : x.pos == 0 ? rd : x.pos == 5 ? rj : rk); return w; } };
static std::vector<MemOp>& ops() { static std::vector<MemOp> v = [] { std::vector<MemOp> r; for (auto& n : supported()) { auto* op = ref::find_name(n); if (op && classify(op) == MEMORY) r.emplace_back(op); } return r; }(); return v; }
// the results of running one instruction's cases
struct Out { std::function<void(const string&, const string&)> fail; u64 runs = 0, cases = 0, bad = 0; };
static void run_cases(MBox& b, const MemOp& m, const std::vector<std::pair<u32, ref::State>>& q, Out& o) {
	for (size_t p = 0; p < q.size() && o.bad < 20; p += 256) { size_t n = std::min<size_t>(256, q.size() - p); std::vector<u32> w; for (size_t k = 0; k < n; k++) w.push_back(q[p + k].first); b.program_words(w);
		for (size_t k = 0; k < n && o.bad < 20; k++) { ref::State s = q[p + k].second; s.pc = CODE + 16 * k; ref::State e = s; b.log.clear(); ref::Result res = ref::exec_op(e, m.op, w[k], b, true); o.cases++; if (res == ref::NOREF) { o.fail("no-reference:" + m.name, "the check has no reference"); o.bad++; break; } if (res == ref::UNDEF) { for (auto it = b.log.rbegin(); it != b.log.rend(); ++it) memcpy(b.sh(it->first, it->second.size()), it->second.data(), it->second.size()); continue; }
			for (int mode = 0; mode < NMODES; mode++) { b.set(s); int ex = b.run(mode, s.pc); o.runs++; string d = res == ref::OK ? (ex >= 0 ? fmt("raised exception %d", ex) : diff(b, e, m.oc.lax, m.oc.fcsr_mask)) : (ex < 0 ? "no exception" : ""); if (d.empty()) d = b.changed(); b.restore(); if (!d.empty()) { o.bad++; o.fail(m.name + ":" + mode_name(mode), fmt("%s word %#010x%s (%s): %s", m.name.c_str(), w[k], regs_text(m.op, w[k], s).c_str(), mode_name(mode), d.c_str())); } }
			for (auto it = b.log.rbegin(); it != b.log.rend(); ++it) memcpy(b.sh(it->first, it->second.size()), it->second.data(), it->second.size()); } } }
static std::vector<u64> addresses(MBox& b, const MemOp& m, bool thorough) {
	std::vector<u64> A, base; auto around = [&](u64 x, int d) { for (int k = -d; k <= d; k++) base.push_back(x + k); };
	around(0, 40); around(CODE, 9); around(DATA, 33); around(SZ / 2, 33); around(SZ - 64, 33); around(SZ, 80); for (u64 x : base) { A.push_back(x); A.push_back(x + SZ); A.push_back(x - SZ); A.push_back(x + (1ull << 63)); for (int i = LA_MASKED_MEMORY_BITS + 1; i < 63; i++) { A.push_back(x + (1ull << i)); if (thorough) A.push_back(x - (1ull << i)); } }
	if (thorough) for (u64 x = 0; x < 0x8000; x += m.atomic || m.llsc ? m.width : 1) { A.push_back(x); A.push_back(x - SZ * 5); }
	for (int i = 0; i < 64; i++) { A.push_back(1ull << i); A.push_back((1ull << i) - 1); A.push_back(~0ull << i); A.push_back(DATA + 0x800 + (1ull << i)); }
	std::vector<u64> r; for (u64 a : A) { if ((m.atomic || m.llsc) && a % m.width) continue; if (b.inside(a, m.width)) r.push_back(a); } std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
static void do_op(MBox& b, const MemOp& m, bool thorough, Out& o) {
	static ref::State base = base_state(); std::vector<std::pair<u32, ref::State>> q;
	for (u64 a : addresses(b, m, thorough)) for (int ll = 0; ll < (m.llsc ? 2 : 1); ll++) { auto s = base; s.ll = ll; 
		if (m.iw) for (int k : { 0, 1, (1 << m.iw) - 1, 1 << (m.iw - 1), (1 << (m.iw - 1)) - 1 }) { s.r[5] = a - (sext(k, m.iw) << m.shift); q.push_back({ m.word(6, 5, 7, k), s }); }
		else if (m.index) for (u64 x : std::vector<u64>{ 0, ~0ull, 1ull << 63, DATA, 0xffffffff00000000 }) { s.r[5] = a - x; s.r[7] = x; q.push_back({ m.word(6, 5, 7, 0), s }); }
		else { s.r[5] = a; q.push_back({ m.word(6, 5, 7, 0), s }); } }
	// every immediate (or index) from registers at both ends of the address space and of the arena
	auto at = [&](u64 from, u64 off, u32 w, int idx) { u64 a = from + off; if (!b.inside(a, m.width) || m.llsc && a % m.width) return; auto s = base; s.ll = true; s.r[5] = from; if (idx) s.r[7] = off; q.push_back({ w, s }); };
	for (u64 from : std::vector<u64>{ 0, SZ - 8, SZ, SZ / 2, ~0ull - 7, 1ull << 63 }) { if (m.iw) for (int k = 0; k < 1 << m.iw; k++) at(from, sext(k, m.iw) << m.shift, m.word(6, 5, 7, k), 0); else if (m.index) for (int i = 0; i < 64; i++) for (u64 x : { 1ull << i, ~0ull << i, (1ull << i) - 1 }) at(from, x, m.word(6, 5, 7, 0), 1); }
	run_cases(b, m, q, o);
}
static int worker(int argc, char** argv) { MBox* b = new MBox; Out o; o.fail = [](const string& k, const string& t) { printf("FAIL\t%s\t%s\n", k.c_str(), t.c_str()); }; int i = atoi(argv[2]); if (i < 0 || i >= (int)ops().size()) return 2; do_op(*b, ops()[i], atoi(argv[3]), o); printf("DONE\t%lu\t%lu\n", o.runs, o.cases); fflush(stdout); _exit(0); }

int main(int argc, char** argv) {
	if (argc == 4 && !strcmp(argv[1], "--worker")) return worker(argc, argv);
	Check chk(argc, argv, "C24"); bool T = chk.thorough();
	chk.rule("a case is one memory instruction with one address and immediate, run by step, simulate and simulate_inaccurate, one host interface with one range, or one arena configuration; it is nontrivial when the address is not in the arena or the range is accepted");
	chk.assume("stores below the data segment land in the arena: a masked build has no read-only memory for guest instructions; the masks built are 15 and 32 bits, the latter with only parts of the arena accessible");
	static MBox* box; auto setup = [&]() -> MBox& { if (!box) box = new MBox; return *box; };
	chk.section("instructions", [&](Ctx& c) { int i = c.choose(ops().size(), "instruction"); auto& b = setup(); const MemOp& m = ops()[i]; c.at("%s", m.name.c_str()); c.crash_key(m.name + ":crash"); Out o; o.fail = [&](const string& k, const string& t) { c.fail(k, t); }; do_op(b, m, T, o); c.transitions(o.runs); c.traces(o.cases); c.nontrivial(); c.state(mix(i, 15)); if (c.want_sample()) c.sample(fmt("%s: %lu addresses and immediates", m.name.c_str(), (long)o.cases)); }, { .split_depth = 1, .timeout_s = 300 });
	static string dir = [] { char b[512]; ssize_t n = readlink("/proc/self/exe", b, 511); b[n < 0 ? 0 : n] = 0; string d(b); d = d.substr(0, d.rfind('/')); return d.substr(0, d.rfind('/')); }();
	chk.section("32-bit mask", [&](Ctx& c) { int i = c.choose(ops().size(), "instruction"); const MemOp& m = ops()[i]; c.at("%s", m.name.c_str()); FILE* f = popen(fmt("%s/masked32/C24 --worker %d %d 2>&1", dir.c_str(), i, (int)T).c_str(), "r"); if (!f) { perror("popen"); abort(); } char line[4096]; bool done = false; while (fgets(line, sizeof line, f)) { string l(line); while (!l.empty() && l.back() == '\n') l.pop_back(); if (l.substr(0, 5) == "FAIL\t") { auto p = l.find('\t', 5); c.fail(l.substr(5, p - 5), l.substr(p + 1)); } u64 a, n; if (sscanf(line, "DONE\t%lu\t%lu", &a, &n) == 2) { done = true; c.transitions(a); c.traces(n); } } int st = pclose(f); if (!done) c.fail(m.name + ":crash", m.name + fmt(": an access left the arena or the accessible part of it (status %#x)", st)); c.nontrivial(); c.state(mix(i, 32)); }, { .split_depth = 1, .timeout_s = 300 });
	// ---- pairs of accesses: a store and a load through different aliases see the same byte
	chk.section("aliases", [&](Ctx& c) {
		auto& b = setup(); static const char* st[] = { "st.b", "st.d", "stx.w", "fst.d", "vst", "xvst", "amswap.d" }; static const char* ld[] = { "ld.bu", "ld.d", "ldx.hu", "fld.d", "vld", "xvld", "ll.d" }; auto get = [](const char* n) -> const MemOp& { for (auto& m : ops()) if (m.name == n) return m; abort(); }; const MemOp& s = get(st[c.choose(7, "store")]); const MemOp& l = get(ld[c.choose(7, "load")]);
		const std::vector<u64> H{ 0, SZ, SZ * 2, 1ull << 31, 1ull << 32, 1ull << 63, 0 - SZ, ~0ull << 32 }; u64 h1 = c.pick(H, "alias"), h2 = c.pick(H, "alias"); c.at("%s %s", s.name.c_str(), l.name.c_str());
		for (u64 a : std::vector<u64>{ 0, 8, CODE - 8, DATA - 16, DATA, DATA + 0x888, SZ - 32, SZ - 8 }) for (int d : { 0, 8, -8, 3, 7 }) { u64 x = a + d; if (x >= SZ || (l.llsc && x % 8)) continue; static ref::State base = base_state(); auto q = base; q.r[5] = a + h1; q.r[8] = x + h2; q.r[7] = 0; if (s.atomic) q.r[7] = 0x1122334455667788; std::vector<u32> p{ s.word(6, 5, 7, 0), l.word(9, 8, 7, 0), STOPW }; if (s.atomic && l.index) continue; b.m->memory.evict_execute_segments(); memcpy(b.arena + CODE + 0x800, p.data(), 12); memcpy(b.shadows[0].data() + CODE + 0x800, p.data(), 12); memcpy(b.start[0].data() + CODE + 0x800, p.data(), 12); b.m->cpu.init_execute_area(p.data(), CODE + 0x800, 12);
			b.log.clear(); q.pc = CODE + 0x800; auto e = q; if (ref::exec_op(e, s.op, p[0], b, true) != ref::OK || ref::exec_op(e, l.op, p[1], b, true) != ref::OK) { c.fail("reference", "no result"); return; }
			for (int mode = 0; mode < NMODES; mode++) { b.set(q); int ex = b.run(mode, q.pc); if (mode == STEP && ex < 0) ex = b.run(mode, q.pc + 4); c.transitions(2); string dd = ex >= 0 ? fmt("raised exception %d", ex) : diff(b, e, {}, ~0u); if (dd.empty()) dd = b.changed(); b.restore(); if (!dd.empty()) c.fail(fmt("aliases:%s", mode_name(mode)), fmt("%s at %#lx then %s at %#lx (%s): ", s.name.c_str(), (long)q.r[5], l.name.c_str(), (long)q.r[8], mode_name(mode)) + dd); }
			for (auto it = b.log.rbegin(); it != b.log.rend(); ++it) memcpy(b.sh(it->first, it->second.size()), it->second.data(), it->second.size()); c.traces(); }
		if (h1 || h2) c.nontrivial(); c.state(mix(h1, h2));
	}, { .split_depth = 2 });
	// ---- what the host sees
	chk.section("host", [&](Ctx& c) {
		auto& b = setup(); auto& mem = b.m->memory; static const char* FN[] = { "memarray<u8>", "memarray<u64>", "writable_memarray<u32>", "copy_to_guest", "copy_from_guest", "memset", "memcmp", "strlen", "memstring", "memview", "read", "write" }; int fn = c.choose(12, "function"); std::vector<u64> A; for (u64 x : std::vector<u64>{ 0, CODE, DATA, SZ, SZ * 2, 1ull << 32, 1ull << 63, 0 }) for (int k : { -65, -64, -33, -9, -8, -1, 0, 1, 7, 63, 64, 65 }) A.push_back(x + k); u64 a = c.pick(A, "address"); std::vector<u64> L{ 0, 1, 2, 8, 32, 64, 65, 4096, SZ - 1, SZ, SZ + 1, SZ + 64, SZ - a, SZ - a + 1, SZ + 64 - a, DATA - a, 1ull << 32, 1ull << 61, 1ull << 63, ~0ull, ~0ull - a, 0 - a };
		for (u64 n : L) { string what = fmt("%s(%#lx, %#lx)", FN[fn], (long)a, (long)n); c.at("%s", what.c_str()); c.crash_key(string(FN[fn]) + ":crash"); bool ok = true; u64 w = fn == 1 ? 8 : fn == 2 ? 4 : 1, bytes = n > ~0ull / w ? ~0ull : n * w; auto in = [&](u64 lo) { return a >= lo && a <= SZ && bytes <= SZ - a; }; bool writes = fn == 2 || fn == 3 || fn == 5; static std::vector<uint8_t> buf(SZ + 256, 0x5a); bool expect = in(writes ? DATA : CODE); std::function<string()> chk2 = [] { return string(); };
			if ((fn == 3 || fn == 4) && n > buf.size()) { if (expect) abort(); }
			const uint8_t* p = nullptr; auto got = [&](const void* q) { p = (const uint8_t*)q; }; c.transitions();
			try { switch (fn) { case 0: got(mem.memarray<uint8_t>(a, n)); break; case 1: got(mem.memarray<u64>(a, n)); break; case 2: got(mem.writable_memarray<u32>(a, n)); break; case 3: mem.copy_to_guest(a, buf.data(), n); break; case 4: mem.copy_from_guest(buf.data(), a, n); break; case 5: mem.memset(a, 0x5a, n); break; case 6: (void)mem.memcmp(a, CODE, n); expect = expect && n <= SZ - CODE; break; case 7: { u64 k = mem.strlen(a, n); expect = a >= CODE && a <= SZ; if (a < SZ && k > std::min(n, SZ - a)) c.fail("host:strlen", what + " is longer than the arena"); break; } case 8: { auto s = mem.memstring(a, n); expect = a >= CODE && a <= SZ; if (s.size() > std::min(n, SZ - a)) c.fail("host:memstring", what + " is longer than the arena"); break; } case 9: got(mem.memview(a, n).data()); break; case 10: { u64 v = mem.read<u64>(a), x; b.load(a, &x, 8); expect = true; if (v != x) c.fail("host:read", what + ": wrong value"); break; } case 11: b.log.clear(); mem.write<u64>(a, n); b.store(a, &n, 8); expect = true; break; } }
			catch (const MachineException& e) { ok = false; if (fn == 6) expect = expect && n <= SZ - CODE; if (fn >= 7 && fn <= 8) expect = a >= CODE && (a < SZ || (a == SZ && n == 0)); if (fn >= 10) expect = true; if (e.type() != PROTECTION_FAULT) c.fail(string("host:exception:") + FN[fn], what + ": " + e.what()); }
			catch (const std::exception& e) { c.fail(string("host:exception:") + FN[fn], what + ": " + e.what()); ok = expect; }
			if (ok != expect) { if (!(fn >= 7 && fn <= 8 && a == SZ)) c.fail(string("host:") + FN[fn], what + (ok ? ": accepted" : ": refused")); } else if (ok && p && p != b.arena + a) c.fail(string("host:") + FN[fn], what + ": returns another place");
			if (ok && (fn == 3 || fn == 5)) { if (expect) { b.log.clear(); std::vector<uint8_t> z(bytes, 0x5a); b.store(a, z.data(), bytes); } } string d = b.changed(); if (!d.empty()) c.fail(string("host:") + FN[fn] + ":memory", what + ": " + d); if (ok && (writes || fn == 11)) { for (auto it = b.log.rbegin(); it != b.log.rend(); ++it) memcpy(b.sh(it->first, it->second.size()), it->second.data(), it->second.size()); } b.log.clear(); b.restore(); if (fn == 4) std::fill(buf.begin(), buf.end(), 0x5a); if (ok) c.nontrivial(); }
		c.state(mix(fn, a)); c.traces();
	}, { .split_depth = 1 });
	// ---- arenas and limits: host and guest agree on what is where
	chk.section("configurations", [&](Ctx& c) {
		const std::vector<u64> MAX{ 0x6000, 0x7000, 0x8000, 0x8040, 0x9000, 0xa000, 0x10000, 0x40000 }; auto o = std::make_shared<MachineOptions>(); o->use_shared_execute_segments = false; o->memory_max = c.pick(MAX, "memory_max"); o->stack_size = c.pick(std::vector<u64>{ 0x800, 0x1000, 0x4000 }, "stack"); o->brk_size = c.pick(std::vector<u64>{ 0, 0x1000, 0x2000, 0x8000 }, "brk"); const std::vector<u64> CUS{ 0, 0x7fff, 0x8000, 0x803f, 0x8040, 0x9000, 0xa000, 0x10000, 0x40040 }; u64 cs = c.pick(CUS, "custom arena"); u64 top = c.pick(std::vector<u64>{ 0x5000, 0x7000, 0x8000, 0x9000, 0x10000 }, "end of data"); string what = fmt("memory_max %#lx, stack %#lx, brk %#lx, custom %#lx, data up to %#lx", (long)o->memory_max, (long)o->stack_size, (long)o->brk_size, (long)cs, (long)top); c.at("%s", what.c_str());
		std::vector<uint8_t> elf; { std::vector<u32> code(8, STOPW); const MemOp* st = nullptr; for (auto& m : ops()) if (m.name == "st.d") st = &m; code[0] = st->word(6, 5, 0, 0); elfgen::Seg t; t.vaddr = CODE; t.flags = 5; t.bytes.assign((uint8_t*)code.data(), (uint8_t*)(code.data() + 8)); t.memsz = 32; elfgen::Seg d; d.vaddr = DATA; d.flags = 6; d.bytes.assign(0x40, 7); d.memsz = top - DATA; elf = elfgen::build({ t, d }, CODE, {}, CODE, 32).file; }
		std::vector<uint8_t> mem(cs + 64 + 64, 0xee); if (cs) { o->custom_arena_pointer = mem.data() + 64; o->custom_arena_size = cs; } c.transitions(); std::unique_ptr<Machine> m; try { m = std::make_unique<Machine>(elf, *o); } catch (const MachineException& e) { bool small = top + o->brk_size + o->stack_size > std::min<u64>(o->memory_max, SZ); if (!small && (!cs || cs >= SZ + 64 || cs < o->memory_max)) c.fail("configuration:refused", what + ": " + e.what()); for (size_t i = 0; i < 64; i++) if (mem[i] != 0xee || mem[mem.size() - 1 - i] != 0xee) { c.fail("configuration:outside", what + ": memory around the arena changed"); break; } c.state(1); return; }
		auto& M = m->memory; if (M.arena_size() > SZ) c.fail("configuration:size", what + fmt(": the arena has %#lx bytes, more than the mask allows", (long)M.arena_size())); std::vector<u64> P{ DATA, M.heap_address(), M.stack_address() - 16, M.stack_address() - 8 }; u64 lo = M.mmap_start(); try { for (int i = 0; i < 100; i++) { u64 a = M.mmap_allocate(PAGE); P.push_back(a); P.push_back(a + PAGE - 8); } c.fail("configuration:mmap", what + ": memory never ends"); } catch (const MachineException&) {} (void)lo;
		M.memset(DATA, 0, 8); for (u64 a : P) { if (a > SZ - 8) { c.fail("configuration:layout", what + fmt(": %#lx is used but is not in the masked arena", (long)a)); continue; } m->cpu.registers().get(5) = a; m->cpu.registers().get(6) = ~a; try { m->cpu.registers().pc = CODE; m->cpu.step_one(false); u64 v; M.copy_from_guest(&v, a, 8); if (v != ~a) c.fail("configuration:agree", what + fmt(": the guest stores at %#lx and the host reads something else there", (long)a)); } catch (const MachineException& e) { c.fail("configuration:exception", what + ": " + e.what()); } }
		for (size_t i = 0; i < 64; i++) if (mem[i] != 0xee || (cs && mem[mem.size() - 1 - i] != 0xee)) { c.fail("configuration:outside", what + ": memory around the arena changed"); break; } c.nontrivial(); c.traces(); c.state(mix(M.arena_size(), M.mmap_start()));
	}, { .split_depth = 2 });
	return chk.finish();
}
