// build: VARIANT=sched
// C13: two or three host threads create, run, query, accelerate, evict, replace and destroy
// machines that share decoded code, under every schedule up to a preemption bound.
#include "vp.hpp"
#include "elfgen.hpp"
#include "sched.hpp"
#include <libloong/machine.hpp>
#include <memory>
using namespace vp; using namespace loongarch; using std::string; typedef uint64_t u64; typedef uint32_t u32; typedef std::vector<uint8_t> Bytes;
static constexpr u64 RO = 0x1000, DATA = 0x2000, SRC = DATA + 64;
static u32 crc32c(const u32* w, size_t n) { u32 c = ~0u; for (size_t i = 0; i < n * 4; i++) { c ^= ((const uint8_t*)w)[i]; for (int k = 0; k < 8; k++) c = c >> 1 ^ (c & 1 ? 0x82F63B78u : 0); } return ~c; }
// Programs load a0..a2, call a function that the library can accelerate (memcpy, 8 bytes), add k and stop.
// 0, 1: different results; 2: like 1, but with the length and the CRC32-C of 0; 3: the same, with one more word
static std::vector<u32> program(int k) {
	auto code = [](int v) { return std::vector<u32>{ 0x14000044, 0x14000045, 0x02810005 | 5 << 5, 0x02802006, 0x54001000, 0x02c00000 | (u32)v << 10 | 4 << 5 | 4, 0x00150000, 0x00150000,
		0x02811c04 | 0, 0x4c000020, 0x03400000, 0x00150000 }; }; // f at RO+32: a0 = 71; ret
	auto p0 = code(5); if (k == 0) return p0; auto p = code(9); if (k == 1) return p; if (k == 3) p.push_back(0); u32 want = crc32c(p0.data(), p0.size()); p.back() = 0; u32 base = crc32c(p.data(), p.size()); u64 rows[32]; // solve L(w) = want ^ base over GF(2)
	for (int i = 0; i < 32; i++) { p.back() = 1u << i; rows[i] = (u64)(crc32c(p.data(), p.size()) ^ base) << 32 | 1u << i; } u32 goal = want ^ base, w = 0; for (int b = 31; b >= 0; b--) { u64 m = 1ull << (32 + b); int q = -1; for (int i = 0; i < 32; i++) if (rows[i] & m && !(rows[i] >> 32 >> b >> 1)) { q = i; break; } if (q < 0) continue; u64 r = rows[q]; if (goal >> b & 1) { goal ^= r >> 32; w ^= (u32)r; } for (int i = 0; i < 32; i++) if (rows[i] & m) rows[i] ^= r; }
	p.back() = w; return p; }
static const std::vector<u32>& prog(int k) { static std::vector<u32> P[4] = { program(0), program(1), program(2), program(3) }; return P[k]; }
static int expect(int k, bool acc) { return (k == 0 ? 5 : 9) + (acc ? 0 : 71); }
static const elfgen::Image& image(int k) { static auto mk = [](int k) { using namespace elfgen; auto w = prog(k); return build({ { RO, R | X, words(w) }, { DATA, R | W, Bytes(128, 7) } }, RO, { { "__memcpy_aligned", RO + 32, 8 } }, RO, w.size() * 4, true); }; static elfgen::Image I[4] = { mk(0), mk(1), mk(2), mk(3) }; return I[k]; }
static std::shared_ptr<MachineOptions> options(int arena) { auto o = std::make_shared<MachineOptions>(); o->memory_max = 0x10000 + 0x4000 * arena; o->stack_size = 0x1000; o->brk_size = 0x1000; o->use_shared_execute_segments = true; return o; }
struct Worker { // one host thread's work
	string script; int p, arena; bool acc = false; std::unique_ptr<Machine> m; std::shared_ptr<DecodedExecuteSegment> held; std::vector<std::weak_ptr<DecodedExecuteSegment>> seen; int cur = 0;
	void note() { seen.push_back(m->memory.exec_segment_for(RO)); }
	void step(char op) {
		switch (op) {
		case 'c': { auto o = options(arena); m = std::make_unique<Machine>(std::string_view((const char*)image(p).file.data(), image(p).file.size()), *o); m->set_options(o); cur = p; acc = false; note(); break; }
		case 'r': { auto& R = m->cpu.registers(); R.pc = RO; R.get(4) = 1; string err; try { if (!m->simulate(200, 0)) err = "does not stop"; } catch (const std::exception& e) { err = e.what(); } u64 want = expect(cur, acc) + (acc ? 0x2000 : 0); if (err.empty() && R.get(4) != want) err = fmt("result %#lx instead of %#lx", (long)R.get(4), (long)want); if (err.size()) sched::fail("wrong-code", "program " + std::to_string(cur) + (acc ? " (accelerated)" : "") + " in script " + script + ": " + err); break; }
		case 'a': m->setup_accelerated_syscalls(); acc = true; note(); break;
		case 'e': m->memory.evict_execute_segments(); acc = false; m->cpu.init_execute_area(prog(cur).data(), RO, prog(cur).size() * 4); note(); break;
		case 'x': cur = cur ? 0 : 1; acc = false; m->cpu.init_execute_area(prog(cur).data(), RO, prog(cur).size() * 4); note(); break;
		case 'q': held = m->memory.exec_segment_for(RO); if (held.get() != &m->cpu.current_execute_segment() && !m->cpu.current_execute_segment().empty()) sched::fail("query", "the machine executes another segment than the one it has"); break;
		case 'u': { auto h = held; if (!h || h->exec_begin() != RO || h->exec_end() < RO + 48) sched::fail("query", "a held segment changed"); held.reset(); h.reset(); break; }
		case 'd': m.reset(); break; } }
	void run() { for (char op : script) step(op); }
};
int main(int argc, char** argv) {
	Check chk(argc, argv, "C13"); bool T = chk.thorough();
	chk.rule("a case is one complete schedule of the threads; states are the final sharing configurations, transitions the synchronising operations executed");
	chk.assume("sequentially consistent interleavings of the synchronising operations; plain accesses are only required to be race-free");
	chk.assume("the process-wide system-call table is configuration: concurrent installation of handlers is not counted as a data race");
	for (int k = 0; k < 4; k++) image(k);
	auto explore = [](Ctx& c, std::vector<Worker> proto, int warm, int bound) {
		sched::isolated(c, [&](Ctx& c) {
			sched::exempt(Machine::get_syscall_handlers(), LA_SYSCALLS_MAX * sizeof(void*));
			std::unique_ptr<Worker> w0; auto mk = [&] { w0 = std::make_unique<Worker>(); w0->script = "warm"; w0->p = proto[0].p; w0->arena = proto[0].arena; w0->step('c'); };
			if (warm) { mk(); if (warm == 2) w0->step('d'); }
			std::vector<std::function<void()>> fns; for (auto& w : proto) fns.push_back([&w] { w.run(); });
			sched::run(c, fns, bound); c.nontrivial(); c.traces();
			// quiescent: machines with the same code share it, machines with other code do not
			std::vector<Worker*> all; for (auto& w : proto) all.push_back(&w); if (w0) all.push_back(w0.get()); u64 h = 0;
			for (auto* a : all) for (auto* b : all) if (a < b && a->m && b->m) { bool same = a->m->memory.exec_segment_for(RO).get() == b->m->memory.exec_segment_for(RO).get(); bool want = a->cur == b->cur && a->arena == b->arena && !a->acc && !b->acc; if (a->cur != b->cur && (a->cur >= 2 || b->cur >= 2)) want = false; bool col = false; for (auto* x : all) if (x->p >= 2 || x->cur >= 2) col = true; /* a private copy is fine when the checksum is taken */
				if (same && !want) c.fail("shared-wrongly", fmt("programs %d and %d (arena %d and %d) use the same decoded code", a->cur, b->cur, a->arena, b->arena)); if (!same && want && !col) c.fail("not-shared", "machines with the same program have separate decoded code"); h = mix(h, same * 2 + want); }
			for (auto* a : all) { if (a->m) a->step('r'); a->held.reset(); } for (auto* a : all) a->m.reset(); int live = 0; for (auto* a : all) for (auto& s : a->seen) if (!s.expired()) live++; if (live) c.fail("not-reclaimed", fmt("%d decoded segments are still alive after their last machine was destroyed", live)); sched::state(mix(h, sched::points()));
		}); };
	// programs of the two threads, arenas
	struct Rel { const char* n; int p1, p2, a1, a2; }; static const std::vector<Rel> rels{ { "same", 0, 0, 0, 0 }, { "different code", 0, 1, 0, 0 }, { "same checksum", 0, 2, 0, 0 }, { "same checksum, longer", 0, 3, 0, 0 }, { "different arena", 0, 0, 0, 1 } };
	static const std::vector<string> scripts{ "c", "crd", "crerd", "card", "cqrud", "cxrd", "crdc", "cear" };
	auto two = [&](Ctx& c, const string& s1, const string& s2, const Rel& r, int warm, int bound) {
		std::vector<Worker> w(2); w[0].script = s1; w[0].p = r.p1; w[0].arena = r.a1; w[1].script = s2; w[1].p = r.p2; w[1].arena = r.a2; c.at("%s %s %s warm %d", s1.c_str(), s2.c_str(), r.n, warm); explore(c, std::move(w), warm, bound); if (c.want_sample()) c.sample(fmt("%s | %s, %s, warm %d", s1.c_str(), s2.c_str(), r.n, warm)); };
	chk.section("pairs", [&](Ctx& c) {
		auto& s1 = c.pick(scripts, "script 1"); auto& s2 = c.pick(scripts, "script 2"); auto& r = c.pick(rels, "programs"); int warm = c.choose(3, "warm"); if (!T && warm == 2 && r.p2 > 1) c.prune(); if (&s1 > &s2 && r.p1 == r.p2 && r.a1 == r.a2) c.prune();
		two(c, s1, s2, r, warm, 1); }, { .split_depth = 4, .timeout_s = 60 });
	chk.section("two preemptions", [&](Ctx& c) {
		static const std::vector<string> quick{ "crd", "card" }, deep{ "crd", "card", "cxrd" }; auto& S = T ? deep : quick; auto& s1 = c.pick(S, "script 1"); auto& s2 = c.pick(S, "script 2"); auto& r = c.pick(rels, "programs"); int warm = c.choose(2, "warm"); if (!T && (s1 != "crd" && s2 != "crd" || warm && s1 != s2)) c.prune(); if (&s1 > &s2 && r.p1 == r.p2 && r.a1 == r.a2) c.prune();
		two(c, s1, s2, r, warm, 2); }, { .split_depth = 5, .timeout_s = 60 });
	if (T) chk.section("three preemptions", [&](Ctx& c) { auto& r = rels[c.choose(2) * 2]; two(c, "crd", "crd", r, 0, 3); }, { .split_depth = 4, .timeout_s = 60 });
	chk.section("three threads", [&](Ctx& c) {
		static const std::vector<string> S{ "crd", "card", "cxd" }; std::vector<Worker> w(3); string n; bool diff = false; for (int i = 0; i < 3; i++) { w[i].script = S[c.choose(S.size(), "script")]; w[i].p = i ? c.choose(3, "program") : 0; w[i].arena = 0; n += w[i].script + " "; diff |= w[i].p != 0; } int warm = c.choose(T ? 3 : 1, "warm"); if (!T && w[1].script > w[2].script) c.prune(); c.at("%s", n.c_str()); explore(c, std::move(w), warm, 1); }, { .split_depth = 6, .timeout_s = 60 });
	return chk.finish();
}
