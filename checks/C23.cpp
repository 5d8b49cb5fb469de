// build: VARIANT=asan
// C23: histories of operations on two or three machines, some of them performed from inside a
// system call of a running machine.  A model predicts every run; after every operation each
// machine that was not its target must have unchanged memory, registers and counters.
#include "vp.hpp"
#include "elfgen.hpp"
#include <libloong/machine.hpp>
#include <memory>
#include <sys/wait.h>
using namespace vp; using namespace loongarch; using std::string; typedef uint64_t u64; typedef uint32_t u32; typedef std::vector<uint8_t> Bytes;
static constexpr u64 RO = 0x1000, DATA = 0x2000, ENTRY = RO + 16, SYS = 400;
static u32 crc32c(const u32* w, size_t n) { u32 c = ~0u; for (size_t i = 0; i < n * 4; i++) { c ^= ((const uint8_t*)w)[i]; for (int k = 0; k < 8; k++) c = c >> 1 ^ (c & 1 ? 0x82F63B78u : 0); } return ~c; }
static constexpr int K[4] = { 1, 3, 7, 7 }; // what a program adds; 2 has the checksum of 0; 3: 2's code, longer
static std::vector<u32> raw(int k, u32 fill) { u32 v = K[k]; std::vector<u32> w{ 0x02800000 | 71 << 10 | 5, 0x4c000020, fill, 0x03400000, // f: a1 = 71; ret
	0x1400004c, 0x28c00184, 0x02c00000 | v << 10 | 4 << 5 | 4, 0x29c00184, 0x02800000 | (u32)SYS << 10 | 11, 0x002b0000, 0x02c00000 | (16 * v) << 10 | 4 << 5 | 4, 0x00150005, 0x00150006, 0x57ffcfff, 0x02c00000 | v << 10 | 7 << 5 | 7, 0x03400000 }; return w; }
// t0 = DATA; a0 = [t0] + k; [t0] = a0; a7 = 600; syscall; a0 += 16k; a1 = a2 = 0; f(); a3 += k; nop; (end of the area: the second one follows)
static std::vector<u32> program(int k) { if (k < 2) return raw(k, 0x03400000); auto t = raw(0, 0x03400000); u32 goal = crc32c(t.data(), t.size()); auto p = raw(k, 0); u32 base = crc32c(p.data(), p.size()); u64 rows[32]; for (int i = 0; i < 32; i++) { p[2] = 1u << i; rows[i] = (u64)(crc32c(p.data(), p.size()) ^ base) << 32 | 1u << i; } goal ^= base; u32 w = 0; int used = 0;
	for (int b = 31; b >= 0; b--) { int q = -1; for (int i = used; i < 32; i++) if (rows[i] >> (32 + b) & 1) { q = i; break; } if (q < 0) continue; std::swap(rows[q], rows[used]); for (int i = 0; i < 32; i++) if (i != used && rows[i] >> (32 + b) & 1) rows[i] ^= rows[used]; used++; } for (int i = 0; i < used; i++) { int top = 63 - __builtin_clzll(rows[i]); if (goal >> (top - 32) & 1) { goal ^= rows[i] >> 32; w ^= (u32)rows[i]; } }
	p[2] = w; return p; }
static const std::vector<u32>& prog(int k) { static std::vector<u32> P[3] = { program(0), program(1), program(2) }; return P[k]; }
static const u64 SEC = RO + 16 * 4; static const int S2[2] = { 1000, 2000 }; static constexpr int NINSTR = 13 + 1; // with f, without the second area
static std::vector<u32> sec(int k) { return { 0x02c00000 | (u32)S2[k] << 10 | 4 << 5 | 4, 0x00150000 }; }
struct Kind { const char* n; bool elf, share; int prog; u64 size; bool host = false; }; static const std::vector<Kind> kinds{ { "elf0", true, true, 0, 0x8000 }, { "elf1", true, true, 1, 0x8000 }, { "elf2 (same checksum as elf0)", true, true, 2, 0x8000 }, { "elf0 private", true, false, 0, 0x8000 }, { "elf0 larger", true, true, 0, 0xc000 }, { "bare0", false, true, 0, 0x8000 }, { "elf0 in a host arena", true, true, 0, 0x8000, true } };
static const elfgen::Image& image(int k) { auto mk = [](int k) { using namespace elfgen; return build({ { RO, R | X, words(prog(k)) }, { DATA, R | W, Bytes(64, 0) } }, ENTRY, { { "__memcpy_aligned", RO, 8 } }, RO, prog(k).size() * 4, true); }; static elfgen::Image I[3] = { mk(0), mk(1), mk(2) }; return I[k]; }
struct M { std::unique_ptr<Machine> m; const Kind* kind; int code = -1, second = -1; bool acc = false; u64 val = 0; Bytes mem; Bytes regs; u64 ctr = 0; std::vector<u64> a3; u64 r7 = 0; std::unique_ptr<uint8_t[]> host; };
static std::function<void(Machine&)> g_handler;
struct World {
	Ctx& c; std::vector<M> ms; std::vector<std::weak_ptr<DecodedExecuteSegment>> seen; string log; int busy = -1;
	World(Ctx& c, size_t n) : c(c), ms(n) {}
	~World() { g_handler = nullptr; }
	void note(M& x) { if (x.m) for (u64 a : std::vector<u64>{ RO, SEC }) { auto s = x.m->memory.exec_segment_for(a); if (!s->empty()) seen.push_back(s); } }
	void create(int i, const Kind& k) { M& x = ms[i]; x.kind = &k; x.m.reset(); auto o = std::make_shared<MachineOptions>(); o->memory_max = k.size; o->stack_size = 0x1000; o->brk_size = 0x1000; o->use_shared_execute_segments = k.share; if (k.host) { x.host = std::make_unique<uint8_t[]>(k.size + 0x2400); for (u64 a = 0; a < k.size + 0x2400; a++) x.host[a] = a * 7; memset(x.host.get() + 0x1200, 0, k.size + 64); o->custom_arena_pointer = x.host.get() + 0x1200; o->custom_arena_size = k.size; } x.acc = false; x.second = -1; x.val = 0; x.r7 = 0; x.code = k.prog;
		if (k.elf) { x.m = std::make_unique<Machine>(std::string_view((const char*)image(k.prog).file.data(), image(k.prog).file.size()), *o); x.m->set_options(o); } else { x.m = std::make_unique<Machine>(std::string_view{}, *o); x.m->set_options(o); x.m->memory.allocate_custom_arena(k.size, RO, DATA); x.m->memory.copy_into_arena_unsafe(RO, prog(k.prog).data(), prog(k.prog).size() * 4); x.m->cpu.init_execute_area(prog(k.prog).data(), RO, prog(k.prog).size() * 4); }
		Machine::install_syscall_handler(SYS, [](Machine& m) { if (g_handler) { auto h = std::move(g_handler); g_handler = nullptr; h(m); } }); note(x); save(i); }
	void save(int i) { M& x = ms[i]; if (!x.m) return; x.mem.assign(x.m->memory.arena_ptr(), x.m->memory.arena_ptr() + x.kind->size); x.regs.assign((uint8_t*)&x.m->cpu.registers(), (uint8_t*)(&x.m->cpu.registers() + 1)); x.ctr = x.m->instruction_counter(); }
	void others(int i) { for (size_t j = 0; j < ms.size(); j++) if ((int)j != i && (int)j != busy) { M& x = ms[j]; if (!x.m) continue; if (memcmp(x.mem.data(), x.m->memory.arena_ptr(), x.mem.size())) c.fail("isolation:memory", log + fmt(": memory of machine %d changed", (int)j)); if (memcmp(x.regs.data(), &x.m->cpu.registers(), sizeof(Registers))) c.fail("isolation:registers", log + fmt(": registers of machine %d changed", (int)j)); if (x.ctr != x.m->instruction_counter()) c.fail("isolation:counter", log + fmt(": counter of machine %d changed", (int)j)); } }
	void guard(int i) { M& x = ms[i]; if (x.host && x.m) for (u64 a = 0; a < x.kind->size + 0x2400; a++) if ((a < 0x1200 || a >= 0x1240 + x.kind->size) && x.host[a] != (uint8_t)(a * 7)) { c.fail("host-memory", log + fmt(": host memory at arena %+ld changed", (long)a - 0x1200)); break; } }
	void install(int i, int k) { M& x = ms[i]; x.m->memory.copy_into_arena_unsafe(RO, prog(k).data(), prog(k).size() * 4); x.m->cpu.init_execute_area(prog(k).data(), RO, prog(k).size() * 4); x.code = k; x.acc = false; note(x); }
	void second(int i, int k) { M& x = ms[i]; auto w = sec(k); MachineOptions o = x.m->options(); x.m->memory.copy_into_arena_unsafe(SEC, w.data(), w.size() * 4); x.m->memory.create_execute_segment(o, w.data(), SEC, w.size() * 4, false); x.second = k; note(x); }
	void evict(int i) { ms[i].m->memory.evict_execute_segments(); ms[i].code = ms[i].second = -1; ms[i].acc = false; }
	// from inside the system call of machine i (its model: at the instruction behind the call), operation h on machine t
	void run(int i, bool fast, std::function<void()> inside = nullptr) {
		M& x = ms[i]; auto& R = x.m->cpu.registers(); auto& cpu = x.m->cpu; const int k0 = x.code; const u64 before = x.val; const int outer = busy; if (k0 >= 0) x.val = before + K[k0]; R.pc = ENTRY; R.get(1) = 0x1234; R.get(3) = 0x4000; R.get(4) = 5; R.get(5) = 6; R.get(7) = x.r7; g_handler = nullptr; int calls = 0; if (inside) g_handler = [&](Machine& m) { calls++; if (&m != x.m.get()) c.fail("handler", log + ": a system call ran on the wrong machine"); busy = i; inside(); busy = outer; };
		int et = -1; u64 ed = 0; string what; bool stopped = true; c.transitions(); try { if (fast) cpu.simulate_inaccurate(ENTRY); else { x.m->set_instruction_counter(0); stopped = x.m->simulate(1000, 0); } } catch (const MachineException& e) { et = e.type(); ed = e.data(); what = e.what(); }
		u64 pc = 0, n = 0; int wet = -1; bool done = false; u64 a0 = 5, a1 = 6; // the model
		if (k0 < 0) { wet = EXECUTION_SPACE_PROTECTION_FAULT; pc = ENTRY; if (x.second >= 0) {} } else { a0 = before + K[k0]; n = 6; if (inside && calls != 1) c.fail("handler", log + fmt(": the system call ran %d times", calls));
			if (x.code < 0) { wet = EXECUTION_SPACE_PROTECTION_FAULT; pc = ENTRY + 24; } else { a0 += 16 * K[x.code]; a1 = x.acc ? 0 : 71; x.r7 += K[x.code]; n += 4 + (x.acc ? 1 : 2) + 2; if (x.second < 0) { wet = EXECUTION_SPACE_PROTECTION_FAULT; pc = SEC; } else { a0 += S2[x.second]; n += 2; pc = SEC + 8; done = true; } } }
		auto who = [&] { return log + fmt(": machine %d (%s)%s", i, x.kind->n, fast ? " inaccurate" : ""); };
		if (et != wet) { c.fail(wet < 0 ? "run:fails" : "run:stale", who() + fmt(": exception %d (%s) instead of %d", et, what.c_str(), wet)); return; } if (!stopped) { c.fail("run:timeout", who() + ": does not stop"); return; }
		if (R.get(4) != a0) c.fail("run:result", who() + fmt(": a0 is %ld instead of %ld", (long)R.get(4), (long)a0)); if (R.get(5) != a1) c.fail("run:function", who() + fmt(": a1 is %ld instead of %ld", (long)R.get(5), (long)a1)); if (R.get(7) != x.r7) c.fail("run:result", who() + fmt(": a3 is %ld instead of %ld", (long)R.get(7), (long)x.r7)); if (R.pc != pc) c.fail("run:pc", who() + fmt(": pc %#lx instead of %#lx", (long)R.pc, (long)pc)); if (et >= 0 && ed != pc) c.fail("run:data", who() + fmt(": exception data %#lx instead of %#lx", (long)ed, (long)pc));
		if (!fast && x.m->instruction_counter() != n) c.fail("run:counter", who() + fmt(": %ld instructions counted instead of %ld", (long)x.m->instruction_counter(), (long)n)); u64 v = *(u64*)(x.m->memory.arena_ptr() + DATA); if (v != x.val) c.fail("run:memory", who() + fmt(": stored %ld instead of %ld", (long)v, (long)x.val)); if (done) c.nontrivial(); (void)done; }
	enum { RUN, FAST, EVICT, INST0, INST1, INST2, SEC0, SEC1, ACCEL, RESET, DESTROY, NOPS };
	static const char* opname(int o) { static const char* n[] = { "run", "run-fast", "evict", "install 0", "install 1", "install 2", "second 0", "second 1", "accelerate", "reset", "recreate" }; return n[o]; }
	bool valid(int i, int op) { M& x = ms[i]; if (op == ACCEL && (x.code < 0 || !x.kind->elf)) return false; if (i == busy && (op == RUN || op == FAST || op == DESTROY)) return false; if (op != DESTROY && !x.m) return false; return true; }
	void apply(int i, int op) { M& x = ms[i]; switch (op) { case RUN: run(i, false); break; case FAST: run(i, true); break; case EVICT: evict(i); break; case INST0: case INST1: case INST2: install(i, op - INST0); break; case SEC0: case SEC1: second(i, op - SEC0); break; case ACCEL: x.m->setup_accelerated_syscalls(); x.acc = true; note(x); break;
		case RESET: { x.m->memory.reset(); x.code = x.second = -1; x.acc = false; x.val = 0; auto* p = x.m->memory.arena_ptr(); for (u64 a = 0; a < x.kind->size; a++) if (p[a]) { c.fail("reset:memory", log + fmt(": byte %#lx is not zero after reset", (long)a)); break; } break; } case DESTROY: { const Kind* k = x.kind; x.m.reset(); create(i, *k); break; } }
		if (i != busy) save(i); guard(i); c.transitions(); }
	void finish() { for (size_t i = 0; i < ms.size(); i++) { log += fmt("; final run %d", (int)i); run(i, i & 1); save(i); others(i); } for (size_t i = 0; i < ms.size(); i++) { ms[i].m.reset(); others(i); } for (auto& s : seen) if (!s.expired()) { c.fail("leak", log + ": decoded code is still alive although every machine is gone"); break; } u64 h = 0; for (auto& x : ms) h = mix(mix(h, x.val), x.r7 * 16 + x.acc + 4 * (x.second + 1)); c.state(h); }
};
int main(int argc, char** argv) {
	Check chk(argc, argv, "C23"); bool T = chk.thorough();
	chk.rule("a case is a history of operations on several machines ending with a run of each; states are final model states; nontrivial are runs that reach their end");
	chk.assume("execute segments do not partially overlap (equal, covering and adjacent areas are explored)"); chk.assume("the system-call table is process-wide configuration, so all machines here use the same handlers");
	using W = World;
	static const std::vector<std::pair<int, int>> pairs{ { 0, 0 }, { 0, 2 }, { 0, 1 }, { 0, 3 }, { 0, 4 }, { 0, 5 }, { 6, 0 }, { 2, 0 }, { 5, 2 } };
	chk.section("histories", [&](Ctx& c) { // D operations on two machines, each with and without a second area
		auto& kp = c.pick(pairs, "kinds"); int D = T && (&kp - &pairs[0]) < 3 ? 4 : 3; World w(c, 2); w.create(0, kinds[kp.first]); w.create(1, kinds[kp.second]); w.log = fmt("[%s | %s]", w.ms[0].kind->n, w.ms[1].kind->n); w.second(0, 0); w.save(0);
		for (int d = 0; d < D; d++) { int i = c.choose(2, "machine"), op = c.choose(W::NOPS, "op"); if (!w.valid(i, op)) c.prune(); w.log += fmt("; %s %d", W::opname(op), i); c.at("%s", w.log.c_str()); w.apply(i, op); w.others(i); } w.finish(); if (c.want_sample()) c.sample(w.log); }, { .split_depth = 4, .timeout_s = 60 });
	chk.section("inside", [&](Ctx& c) { // up to three operations from inside a system call, on the running machine or another
		auto& kp = c.pick(pairs, "kinds"); World w(c, 2); w.create(0, kinds[kp.first]); w.create(1, kinds[kp.second]); w.log = fmt("[%s | %s]", w.ms[0].kind->n, w.ms[1].kind->n); int n = 1 + c.choose(T ? 3 : 2, "ops"); bool fast = c.flag("fast"), pre = c.flag("second"); if (pre) { w.second(0, 1); w.save(0); w.second(1, 0); w.save(1); } if (c.flag("accelerated")) { if (!w.valid(0, W::ACCEL)) c.prune(); w.apply(0, W::ACCEL); }
		struct Op { int i, op; }; std::vector<Op> ops; for (int k = 0; k < n; k++) ops.push_back({ c.choose(2, "machine"), c.choose(W::NOPS, "op") }); bool bad = false; w.log += fast ? "; run-fast 0 with (" : "; run 0 with ("; for (auto& o : ops) w.log += fmt("%s %d, ", W::opname(o.op), o.i); w.log += ")"; c.at("%s", w.log.c_str());
		w.run(0, fast, [&] { for (auto& o : ops) { if (bad || !w.valid(o.i, o.op)) { bad = true; return; } auto keep = std::move(g_handler); g_handler = nullptr; w.apply(o.i, o.op); w.others(o.i); } }); if (bad) c.prune(); w.save(0); w.others(0); int k = w.ms[0].code; if (k >= 0) { w.log += "; again"; w.run(0, !fast); w.save(0); } w.finish(); if (c.want_sample()) c.sample(w.log); }, { .split_depth = 5, .timeout_s = 60 });
	chk.section("three", [&](Ctx& c) { // three machines with fewer operations, nested runs
		static const std::vector<int> ops{ W::RUN, W::DESTROY, W::EVICT, W::INST1, W::INST2, W::ACCEL, W::RESET }; int D = T ? 4 : 3; static const std::vector<std::vector<int>> sets{ { 0, 0, 0 }, { 0, 2, 1 } }; auto& s = c.pick(sets, "set"); World w(c, 3); for (int i = 0; i < 3; i++) w.create(i, kinds[s[i]]); w.log = fmt("[set %d]", (int)(&s - &sets[0]));
		for (int d = 0; d < D; d++) { int i = c.choose(3, "machine"), op = c.pick(ops, "op"); int in = c.choose(3, "inside"); if (!w.valid(i, op)) c.prune(); w.log += fmt("; %s %d", W::opname(op), i); if (in) { int h = (i + in) % 3; w.log += fmt(" inside %d", h); c.at("%s", w.log.c_str()); w.run(h, false, [&] { w.apply(i, op); w.others(i); }); w.save(h); if (w.ms[h].code < 0) c.prune(); } else { c.at("%s", w.log.c_str()); w.apply(i, op); } w.others(i); } w.finish(); }, { .split_depth = 4, .timeout_s = 60 });
	chk.section("failed", [&](Ctx& c) { // machines that fail to load or to install leave nothing behind
		World w(c, 2); w.create(0, kinds[0]); w.log = "[elf0]"; int n = 1 + c.choose(3, "failures"); for (int i = 0; i < n; i++) { int f = c.choose(6, "failure"); w.log += fmt("; failure %d", f); c.at("%s", w.log.c_str()); auto o = std::make_shared<MachineOptions>(); o->memory_max = 0x8000; o->stack_size = 0x1000; o->brk_size = 0x1000; o->use_shared_execute_segments = true; bool threw = false; auto im = image(f & 1); if (f < 2) im.phdr(1)->memsz = 0x100000; else if (f < 4) im.phdr(1)->vaddr = 0x7fff0000; c.transitions();
			try { if (f < 4) { Machine m(std::string_view((const char*)im.file.data(), im.file.size()), *o); } else w.ms[0].m->memory.create_execute_segment(w.ms[0].m->options(), prog(1).data(), f == 4 ? RO : SEC + 8, 7, f == 4); } catch (const std::exception&) { threw = true; } if (!threw) c.fail("failed:accepted", w.log + ": accepted"); w.others(-1); }
		w.create(1, kinds[1]); w.finish(); }, { .split_depth = 2 });
	chk.section("first machine", [&](Ctx& c) { // what is configured before the first machine of a process counts like afterwards
		int when = c.choose(3, "when"), what = c.choose(2, "what"); fflush(nullptr); pid_t pid = fork(); if (pid == 0) { static int hit; hit = 0; auto set = [&] { if (what) Machine::set_unknown_syscall_handler([](Machine&, int) { hit = 1; }); else Machine::install_syscall_handler(SYS, [](Machine&) { hit = 1; }); }; auto o = std::make_shared<MachineOptions>(); o->memory_max = 0x8000; o->stack_size = 0x1000; o->brk_size = 0x1000; if (when == 0) set(); if (when == 2) { Machine t(std::string_view{}, *o); }
			if (when == 2) set(); auto& im = image(0); Machine m(std::string_view((const char*)im.file.data(), im.file.size()), *o); if (when == 1) set(); m.set_options(o); int rc = 0; try { m.simulate(1000); } catch (const MachineException& e) { if (e.type() != EXECUTION_SPACE_PROTECTION_FAULT) rc = 2; } _exit(rc ? rc : hit ? 0 : 1); } int ws; waitpid(pid, &ws, 0); c.transitions(); c.nontrivial(); if (!WIFEXITED(ws) || WEXITSTATUS(ws)) c.fail(what ? "first:unknown handler" : "first:handler", fmt("a handler installed %s is not called (%d)", when == 0 ? "before the first machine" : when == 1 ? "after the first machine" : "between machines", ws)); c.state(when * 2 + what); }, { .split_depth = 1, .serial = true });
	return chk.finish();
}
