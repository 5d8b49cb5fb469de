// build: VARIANT=asan
// C17: guest threads and futexes.  Every sequence (to a depth) of thread operations, each
// made by the thread that runs at that moment through the real system calls, is compared
// with a model of threads, futex queues and register files.  The model accepts any choice
// of the next thread among those that can run.
#include "vp.hpp"
#include <libloong/machine.hpp>
#include <libloong/posix/threads.hpp>
#include <libloong/posix/signals.hpp>
#include <algorithm>
using namespace vp; using namespace loongarch; typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; using std::string;
static constexpr u64 CODE = 0x1000, DATA = 0x2000, SIZE = 0x3000, W[2] = { 0x2100, 0x2110 }, TIDW = 0x2200, ARGS = 0x2400, BADADDR = 0x7fff0000;
static constexpr int NSITE = 5; static u64 site(int i) { return CODE + 16 * i; }
enum OpK { YIELD, WAIT, WAITNE, WAITP, WAITB, WAIT64, WAKE, WAKEP, WAKEB, WAKE64, CLONE, CLONE3, EXIT, GETTID, SETCTID, KILLSELF, KILL, KILLNONE, KILL0, SETWORD, WAITBAD, WAKEHIGH, BITSET0, CLONEBAD, YIELDTO, YIELDTOR, UNBLOCK, CTIDHIGH, FUTEXBAD, EXITGROUP };
static const char* KN[] = { "yield", "wait", "wait(other value)", "wait(private)", "wait_bitset", "wait(time64)", "wake", "wake(private)", "wake_bitset", "wake(time64)", "clone", "clone3", "exit", "gettid", "set_tid_address", "tgkill(self)", "tgkill", "tgkill(unknown thread)", "tgkill(signal 0)", "store", "wait(unmapped)", "wake(address+4GiB)", "wait_bitset(mask 0)", "clone(unmapped tid word)", "yield_to", "yield_to(result)", "unblock", "set_tid_address(high)", "futex(bad op)", "exit_group" };
struct Op { int k; int a, b; string name() const { return string(KN[k]) + (k == WAKE || k == WAKEB || k == WAKEP || k == WAKE64 ? fmt("(w%d,%d)", a, b) : k == WAITB ? fmt("(w%d,mask %d)", a, b) : k == WAIT || k == WAITP || k == WAIT64 || k == WAITNE || k == SETWORD ? fmt("(w%d)", a) : k == CLONE || k == CLONE3 ? fmt("(flags %d)", a) : k == KILL || k == YIELDTO || k == UNBLOCK || k == YIELDTOR || k == KILL0 ? fmt("(#%d)", a) : ""); } };
struct Th { int st; Registers regs; u64 ctid, faddr; u32 mask; };      // st: 0 running, 1 ready, 2 blocked
static u64 g_arg; static int g_ret;
struct Sys {
	Ctx& c; string& who; int mode; std::unique_ptr<Machine> m; std::shared_ptr<MachineOptions> opt; std::map<int, Th> th; std::vector<int> blocked; int cur = 0, step = 0; std::vector<uint8_t> shadow; bool done = false; int clones = 0, threads_ever = 1;
	Sys(Ctx& c, string& who, int mode) : c(c), who(who), mode(mode) {
		opt = std::make_shared<MachineOptions>(); opt->memory_max = 1 << 20; opt->use_shared_execute_segments = false; m = std::make_unique<Machine>(std::string_view{}, *opt); m->set_options(opt); m->memory.allocate_custom_arena(SIZE, CODE, DATA);
		u32 code[NSITE * 4]; for (int i = 0; i < NSITE; i++) { code[4 * i] = 0x002b0000; code[4 * i + 1] = 0x00150000; code[4 * i + 2] = 0x00150000; code[4 * i + 3] = 0x00150000; } memcpy((char*)m->memory.arena_ptr() + CODE, code, sizeof code); m->cpu.init_execute_area(code, CODE, sizeof code);
		m->setup_linux_syscalls(); m->setup_posix_threads();
		Machine::install_syscall_handler(440, [](Machine& m) { g_ret = m.threads().yield_to((int)m.cpu.reg(4)); });
		Machine::install_syscall_handler(441, [](Machine& m) { g_ret = m.threads().yield_to((int)m.cpu.reg(4), true, 77); });
		Machine::install_syscall_handler(442, [](Machine& m) { m.threads().unblock((int)m.cpu.reg(4)); });
		auto* p = mem(); for (u64 a = DATA; a < SIZE; a++) p[a] = 0x80 + a * 13 % 97; put(W[0], 5); put(W[1], 0x90000009); shadow.assign(p + DATA, p + SIZE); th[0] = { 0, {}, 0, 0, 0 }; cur = m->gettid(); if (cur) { th.clear(); th[cur] = { 0, {}, 0, 0, 0 }; } main = cur;
	}
	int main;
	uint8_t* mem() { return (uint8_t*)m->memory.arena_ptr(); }
	void put(u64 a, u32 v) { memcpy(mem() + a, &v, 4); if (shadow.size()) memcpy(&shadow[a - DATA], &v, 4); } u32 val(u64 a) { u32 v; memcpy(&v, &shadow[a - DATA], 4); return v; } void model_put(u64 a, u32 v) { memcpy(&shadow[a - DATA], &v, 4); }
	std::vector<int> runnable() { std::vector<int> v; for (auto& [t, x] : th) if (x.st < 2) v.push_back(t); return v; }
	bool is_blocked(int t) { return th.count(t) && th[t].st == 2; }
	// FIFO wake; returns the number woken
	int wake(u64 addr, u64 n, u32 mask) { int k = 0; for (size_t i = 0; i < blocked.size() && (u64)k < n;) { auto& t = th[blocked[i]]; if (t.faddr == addr && (t.mask & mask)) { t.st = 1; blocked.erase(blocked.begin() + i); k++; } else i++; } return k; }
	void gone(int t) { auto& x = th[t]; u64 ctid = x.ctid; blocked.erase(std::remove(blocked.begin(), blocked.end(), t), blocked.end()); th.erase(t); if (ctid) { model_put(ctid, 0); wake(ctid, 1, ~0u); } }
	void fill(Registers& r) { step++; for (int i = 1; i < 32; i++) r.get(i) = mix(step * 32 + i, cur); for (int i = 0; i < 32; i++) for (int k = 0; k < 4; k++) r.getvr(i).du[k] = mix(step * 128 + i * 4 + k, 99 + cur); for (int i = 0; i < 8; i++) r.set_cf(i, (step + i) % 3 == 0); r.set_fcsr((step & 3) << 8); r.pc = site((step + cur) % NSITE); }
	static string diff(Registers& a, Registers& b) { for (int i = 0; i < 32; i++) if (a.get(i) != b.get(i)) return fmt("%s is %#lx, expected %#lx", i == 4 ? "the result" : fmt("r%d", i).c_str(), (long)a.get(i), (long)b.get(i)); for (int i = 0; i < 32; i++) if (memcmp(&a.getvr(i), &b.getvr(i), 32)) return fmt("vector register %d differs", i); for (int i = 0; i < 8; i++) if (a.cf(i) != b.cf(i)) return "a condition flag differs"; if (a.fcsr() != b.fcsr()) return "fcsr differs"; return ""; }
	bool bad(const char* key, const string& t) { c.fail(key, who + ": " + t); done = true; return false; }
	int run() { auto& r = m->cpu.registers(); try { m->set_instruction_counter(0); if (mode == 0) m->simulate(1000, 0); else if (mode == 1) m->cpu.simulate_inaccurate(r.pc); else { m->set_max_instructions(UINT64_MAX); m->cpu.step_one(false); if (!m->stopped()) m->cpu.step_one(false); } } catch (const MachineException& e) { return e.type(); } catch (const std::exception&) { return 100; } return -1; }
	bool memory_ok() { if (memcmp(mem() + DATA, shadow.data(), shadow.size())) { u64 a = DATA; while (mem()[a] == shadow[a - DATA]) a++; return bad("memory", fmt("the byte at %#lx is %#x, expected %#x", (long)a, mem()[a], shadow[a - DATA])); } return true; }
	// one operation of the running thread
	bool op(const Op& o) {
		auto& R = m->cpu.registers(); int pick = o.a; std::vector<int> others; for (auto& [t, x] : th) if (t != cur) others.push_back(t); if ((o.k == KILL || o.k == KILL0 || o.k == YIELDTO || o.k == YIELDTOR || o.k == UNBLOCK)) { if (pick >= (int)others.size() + (o.k != KILL)) c.prune(); pick = pick < (int)others.size() ? others[pick] : cur; }
		if ((o.k == CLONE || o.k == CLONE3) && clones >= 8) c.prune();
		who += (who.empty() ? "" : ", ") + fmt("[%d] ", cur) + o.name(); c.transitions();
		if (o.k == SETWORD) { put(W[o.a], val(W[o.a]) + 1); return true; }
		fill(R); auto arg = [&](int i) -> auto& { return R.get(4 + i); }; auto& nr = R.get(11); bool may_throw = false, block = false; i64 result = 0, alt = 0; bool has_alt = false; int want_child = 0; u64 child_sp = 0, child_tp = 0; u64 parent_w = 0, child_w = 0, child_ctid = 0;
		int self = cur; bool exits = false, stops = false; int yieldto = -1; u64 fa = 0; u32 fm = 0;
		u64 word = W[o.a & 1]; bool t64 = o.k == WAIT64 || o.k == WAKE64;
		switch (o.k) {
		case YIELD: nr = 124; break;
		case WAIT: case WAITP: case WAIT64: case WAITB: case WAITNE: case BITSET0: case WAITBAD: nr = t64 ? 422 : 98; arg(0) = o.k == WAITBAD ? BADADDR : word; arg(1) = (o.k == WAITB || o.k == BITSET0 ? 9 : 0) | (o.k == WAITP ? 128 : 0); arg(2) = val(word) + (o.k == WAITNE ? 1 : 0); if (step & 1) arg(2) = (i64)(int32_t)arg(2); arg(3) = 0; arg(5) = o.k == WAITB ? o.b : o.k == BITSET0 ? 0 : mix(step, 3);
			if (o.k == WAITNE) result = -11; else if (o.k == BITSET0) result = -22; else if (o.k == WAITBAD) { result = -14; may_throw = true; } else { block = true; fa = word; fm = o.k == WAITB ? (u32)o.b : ~0u; } break;
		case WAKE: case WAKEP: case WAKEB: case WAKE64: case WAKEHIGH: nr = t64 ? 422 : 98; arg(0) = word + (o.k == WAKEHIGH ? 1ull << 32 : 0); arg(1) = (o.k == WAKEB ? 10 : 1) | (o.k == WAKEP ? 128 : 0); arg(2) = o.k == WAKEHIGH ? 0x7fffffff : o.k == WAKEB ? 0x7fffffff : o.b == 9 ? 0x7fffffff : o.b; arg(5) = o.k == WAKEB ? o.b : mix(step, 4);
			result = o.k == WAKEHIGH ? 0 : wake(word, arg(2), o.k == WAKEB ? o.b : ~0u); if (o.k == WAKEHIGH) { has_alt = true; alt = -14; may_throw = true; } break;
		case FUTEXBAD: nr = 98; arg(0) = word; arg(1) = 15; arg(2) = 1; result = -38; has_alt = true; alt = -22; break;
		case CLONE: case CLONE3: case CLONEBAD: { int f = o.k == CLONEBAD ? 0 : o.a; int k = clones++; parent_w = f & 1 ? TIDW + 32 * k : 0; child_w = f & 2 ? TIDW + 32 * k + 8 : 0; child_ctid = f & 4 ? TIDW + 32 * k + 8 : 0; u64 flags = 0x3d0f00 & ~0x380000ull; flags = 0x00010f00 | (f & 1 ? 0x100000 : 0) | (f & 2 ? 0x1000000 : 0) | (f & 4 ? 0x200000 : 0) | (f & 8 ? 0 : 0x80000); child_sp = DATA + 0x800 + 16 * k; child_tp = f & 8 ? R.get(2) : DATA + 0x900 + 16 * k; u64 ptid = TIDW + 32 * k, ctid = ptid + 8; if (o.k == CLONEBAD) { flags |= o.a == 0 ? 0x100000 : 0x1000000; (o.a == 0 ? ptid : ctid) = BADADDR; may_throw = true; }
			if (o.k != CLONE3) { nr = 220; arg(0) = flags; arg(1) = child_sp; arg(2) = ptid; arg(3) = ctid; arg(4) = f & 32 ? 0x4321 : f & 8 ? 0 : child_tp; } else { nr = 435; u64 a[11] = { flags, 0, ctid, ptid, 0, child_sp - 0x40, 0x40, f & 8 ? 0x1234 : child_tp, 0, 0, 0 }; if (f & 16) { a[8] = ARGS + 0x80; a[9] = 0; } memcpy(mem() + ARGS, a, sizeof a); memcpy(&shadow[ARGS - DATA], a, sizeof a); arg(0) = ARGS; arg(1) = sizeof a; }
			want_child = 1; break; }
		case EXIT: nr = 93; arg(0) = 3; exits = true; break;
		case EXITGROUP: nr = 94; arg(0) = 3; stops = true; break;
		case GETTID: nr = 178; result = cur; break;
		case SETCTID: nr = 96; arg(0) = TIDW + 0x180 + 16 * (o.a & 3); if (o.a >= 4) arg(0) = W[0]; th[cur].ctid = arg(0); result = cur; break;
		case CTIDHIGH: nr = 96; arg(0) = 0; th[cur].ctid = 0; result = cur; break;
		case KILLSELF: nr = 131; arg(0) = 1; arg(1) = cur; arg(2) = 15; exits = true; break;
		case KILL: nr = 131; arg(0) = 1; arg(1) = pick; arg(2) = 15; if (pick == main) stops = true; break;
		case KILLNONE: nr = 131; arg(0) = 1; arg(1) = 4000; arg(2) = 15; result = -3; break;
		case KILL0: nr = 131; arg(0) = 1; arg(1) = pick; arg(2) = 0; result = 0; break;
		case YIELDTO: case YIELDTOR: nr = o.k == YIELDTO ? 440 : 441; arg(0) = pick; yieldto = pick; result = o.k == YIELDTO ? (i64)pick : 77; if (is_blocked(pick)) { result = pick; } break;
		case UNBLOCK: nr = 442; arg(0) = pick; result = pick; if (is_blocked(pick)) { th[pick].st = 1; blocked.erase(std::remove(blocked.begin(), blocked.end(), pick), blocked.end()); } break;
		}
		auto before = R; auto shadow0 = shadow; auto th0 = th; auto blocked0 = blocked; u64 pc = R.pc; g_ret = -1;
		// the model
		if (exits && cur == main) { if (th[cur].ctid) { model_put(th[cur].ctid, 0); } stops = true; }
		else if (exits) gone(cur); else if (o.k == KILL && pick != main) gone(pick); else if (o.k == KILL) { if (th[main].ctid) model_put(th[main].ctid, 0); }
		if (block) { auto& t = th[cur]; t.st = 2; t.faddr = fa; t.mask = fm; t.regs = before; t.regs.get(4) = 0; blocked.push_back(cur); }
		else if (th.count(cur)) { auto& t = th[cur]; t.st = 1; t.regs = before; t.regs.get(4) = result; }
		int ex = run(); int now = m->gettid(); c.at("%s", who.c_str());
		if (stops) { done = true; if (ex >= 0) return bad("stop", fmt("raised exception %d instead of ending the program", ex)); if (!m->stopped()) return bad("stop", "the machine did not stop"); if (R.pc != pc + 4) return bad("stop", fmt("execution went on to %#lx", (long)R.pc)); return memory_ok(); }
		auto can = runnable();
		if (can.empty() && !want_child) { // nothing can run: it has to be reported
			done = true; if (ex >= 0) return true;                     // by an exception
			if (block && now == self) {                                 // or by the wait returning
				auto e = before; i64 r = (i64)R.get(4); e.get(4) = R.get(4); if (!(r == 0 || r == -35 || r == -110 || r == -4 || r == -11)) return bad("deadlock", fmt("the wait returned %ld", (long)r)); string d = diff(R, e); if (!d.empty()) return bad("deadlock", d);
				if (R.pc != pc + 8) return bad("deadlock", fmt("execution goes on at %#lx", (long)R.pc)); u32 v; memcpy(&v, mem() + fa, 4); if (v == 0) model_put(fa, 0); blocked.pop_back(); th[self].st = 0; done = false; cur = self; return memory_ok(); }
			return bad("deadlock", fmt("no thread can run, but thread %d runs", now)); }
		if (ex >= 0) { if (!may_throw) return bad("exception", fmt("raised exception %d", ex)); // refused: nothing has changed
			shadow = shadow0; th = th0; blocked = blocked0; if (now != self) return bad("exception", fmt("after the exception thread %d is current", now)); th[self].st = 0; string d = diff(R, before); if (!d.empty()) return bad("exception", "after the exception " + d); if (want_child) clones--; return memory_ok(); }
		if (want_child) { // the child may or may not run first
			int tid; if (!th.count(now)) tid = now; else if (now == self) tid = (int)R.get(4); else c.prune(); if (tid <= 0) { if (may_throw && now == self) { th[self].regs.get(4) = R.get(4); cur = self; th[self].st = 0; return memory_ok(); } return bad("clone", fmt("clone returned %d", tid)); }
			if (th.count(tid)) return bad("clone", fmt("clone returned %d, which is a live thread", tid)); th[self].regs.get(4) = tid; Th t{ 1, before, child_ctid, 0, 0 }; t.regs.get(4) = 0; t.regs.get(3) = child_sp; t.regs.get(2) = child_tp; th[tid] = t; threads_ever++; if (parent_w) model_put(parent_w, tid); if (child_w) model_put(child_w, tid); can = runnable(); }
		if (std::find(can.begin(), can.end(), now) == can.end()) return bad("scheduled", fmt("thread %d runs, which is %s", now, th.count(now) ? "blocked" : "not alive"));
		if (yieldto >= 0) { bool ok = th.count(yieldto) && !is_blocked(yieldto); if (ok && now != yieldto) return bad("yield_to", fmt("thread %d runs instead of %d", now, yieldto)); if (!ok && now != self) return bad("yield_to", fmt("thread %d runs although %d is blocked", now, yieldto)); if (!ok && g_ret != 0) return bad("yield_to", "claims to have switched to a blocked thread"); }
		auto& t = th[now]; if (has_alt && now == self && R.get(4) == (u64)alt) t.regs.get(4) = alt; string d = diff(R, t.regs); if (!d.empty()) return bad("registers", fmt("thread %d goes on with %s", now, d.c_str())); if (R.pc != t.regs.pc + 8) return bad("registers", fmt("thread %d stopped at %#lx and goes on to %#lx", now, (long)t.regs.pc, (long)R.pc));
		for (auto& [k, x] : th) if (x.st == 0) x.st = 1; t.st = 0; cur = now; return memory_ok();
	}
	// everything that can run gets to run, and everything that is blocked can be woken, exactly once
	void drain() {
		for (int w = 0; w < 2 && !done; w++) op({ WAKE, w, 9 }); for (int i = 0; i < clones && !done; i++) { /* words of exited threads */ }
		for (int round = 0; round < 2 && !done; round++) { std::set<int> seen{ cur }; size_t n = runnable().size(); for (size_t i = 0; i < 2 * n && !done; i++) { if (!op({ YIELD, 0, 0 })) return; seen.insert(cur); } if (done) return; for (int t : runnable()) if (!seen.count(t)) { bad("starved", fmt("thread %d can run but never does", t)); return; } }
		// all other threads exit, one by one; none comes back
		for (int i = 0; i < 20 && !done && th.size() > 1; i++) { if (cur == main) { if (runnable().size() == 1) break; if (!op({ YIELD, 0, 0 })) return; } else if (!op({ EXIT, 0, 0 })) return; }
		if (!done && cur == main) op({ GETTID, 0, 0 });
	}
	u64 hash() { u64 h = cur; for (auto& [t, x] : th) h = mix(mix(h, t * 4 + x.st), x.faddr + x.mask + x.ctid); for (int t : blocked) h = mix(h, t); return mix(h, hash_bytes(shadow.data(), 0x180)); }
};
static void explore(Ctx& c, const std::vector<Op>& ops, int depth, int nmodes) {
	string who; int mode = nmodes > 1 ? c.choose(nmodes, "mode") : 0; Sys s(c, who, mode); who = ""; 
	for (int i = 0; i < depth && !s.done; i++) { auto& o = c.pick(ops, "operation"); if (!s.op(o)) break; c.state(mix(s.hash(), s.clones)); }
	if (!s.done) s.drain(); c.traces(); c.nontrivial(s.threads_ever > 1); if (c.want_sample() && s.threads_ever > 2) c.sample(who);
}
int main(int argc, char** argv) {
	Check chk(argc, argv, "C17"); bool T = chk.thorough();
	chk.rule("every sequence, to a depth, of thread operations, each made by whichever guest thread is running, through the real system calls, followed by a drain in which every thread must run and exit; compared with a model of threads, futexes and registers");
	chk.assume("futex waiters with equal claims are woken in the order in which they went to sleep"); chk.assume("any thread that can run may be scheduled next, as long as every one runs within twice the number of ready threads of yields");
	chk.section("core", [T](Ctx& c) { static const std::vector<Op> ops = { { YIELD }, { CLONE, 7 }, { WAIT, 0 }, { WAKE, 0, 1 }, { WAKE, 0, 9 }, { EXIT } }; explore(c, ops, T ? 9 : 7, 1); }, { .split_depth = 3 });
	chk.section("two-words", [T](Ctx& c) { static const std::vector<Op> ops = { { CLONE, 0 }, { WAIT, 0 }, { WAIT64, 1 }, { WAKE, 0, 1 }, { WAKE64, 1, 2 }, { WAITNE, 0 }, { SETWORD, 0 }, { EXIT } }; explore(c, ops, T ? 7 : 6, 1); }, { .split_depth = 3 });
	chk.section("bitset", [T](Ctx& c) { static const std::vector<Op> ops = { { CLONE, 0 }, { WAITB, 0, 1 }, { WAITB, 0, 2 }, { WAITB, 0, 3 }, { WAITP, 0 }, { WAKEB, 0, 1 }, { WAKEB, 0, 2 }, { WAKEP, 0, 1 }, { BITSET0, 0 } }; explore(c, ops, T ? 7 : 6, 1); }, { .split_depth = 3 });
	chk.section("exit", [T](Ctx& c) { static const std::vector<Op> ops = { { CLONE, 7 }, { CLONE3, 12 }, { SETCTID, 4 }, { WAIT, 0 }, { KILL, 0 }, { KILL, 1 }, { KILLSELF }, { EXIT }, { YIELD }, { WAKE, 0, 1 } }; explore(c, ops, T ? 7 : 5, 1); }, { .split_depth = 3 });
	chk.section("host", [T](Ctx& c) { static const std::vector<Op> ops = { { CLONE, 1 }, { WAIT, 0 }, { YIELDTO, 0 }, { YIELDTO, 1 }, { YIELDTOR, 0 }, { YIELDTO, 2 }, { UNBLOCK, 0 }, { UNBLOCK, 1 }, { EXIT }, { WAKE, 0, 1 }, { YIELD } }; explore(c, ops, T ? 6 : 5, 1); }, { .split_depth = 3 });
	chk.section("full", [T](Ctx& c) { static const std::vector<Op> ops = { { YIELD }, { CLONE, 7 }, { CLONE, 0 }, { CLONE, 1 }, { CLONE, 10 }, { CLONE, 40 }, { CLONE3, 7 }, { CLONE3, 28 }, { CLONE3, 8 }, { CLONEBAD, 0 }, { CLONEBAD, 1 }, { WAIT, 0 }, { WAIT, 1 }, { WAITP, 0 }, { WAIT64, 0 }, { WAITB, 0, 2 }, { WAITNE, 0 }, { WAKE, 0, 1 }, { WAKE, 0, 2 }, { WAKE, 0, 9 }, { WAKEP, 0, 1 }, { WAKE64, 0, 9 }, { WAKE, 1, 9 }, { WAKEB, 0, 1 }, { WAKEB, 0, 2 }, { WAKEHIGH, 0 }, { BITSET0, 0 }, { WAITBAD, 0 }, { FUTEXBAD, 0 }, { EXIT }, { GETTID }, { SETCTID, 0 }, { SETCTID, 4 }, { CTIDHIGH }, { KILLSELF }, { KILL, 0 }, { KILL, 1 }, { KILLNONE }, { KILL0, 0 }, { SETWORD, 0 }, { YIELDTO, 0 }, { YIELDTOR, 0 }, { UNBLOCK, 0 }, { EXITGROUP } }; explore(c, ops, T ? 4 : 3, 3); }, { .split_depth = 3 });
	chk.section("many", [](Ctx& c) { // far more threads than the library allows
		int mode = c.choose(3, "mode"); int flags = c.choose(2) ? 0 : 8; string who; Sys s(c, who, mode); int made = 0; for (int i = 0; i < 70 && !s.done; i++) { s.clones = 0; auto& R = s.m->cpu.registers(); s.fill(R); R.get(11) = 220; R.get(4) = 0x10f00 | (flags ? 0 : 0x80000); R.get(5) = DATA + 0x800; R.get(8) = DATA + 0x900; auto before = R; int cur = s.m->gettid(); int ex = s.run(); int now = s.m->gettid(); c.transitions(); if (ex >= 0) { OK(c, now == cur, "many:current", fmt("after %d threads, clone raised %d and left thread %d current instead of %d", made, ex, now, cur)); string d = Sys::diff(R, before); OK(c, d.empty(), "many:registers", fmt("after %d threads, clone raised %d: ", made, ex) + d); continue; } if (now == cur && (i64)R.get(4) < 0) continue; made++; }
		c.traces(); OK(c, made >= 40, "many:few", fmt("only %d threads could be created", made)); std::set<int> seen; for (int i = 0; i < 200; i++) { auto& R = s.m->cpu.registers(); s.fill(R); R.get(11) = 124; s.run(); seen.insert(s.m->gettid()); } OK(c, (int)seen.size() == made + 1, "many:lost", fmt("%d threads exist, %zu of them run", made + 1, seen.size())); c.nontrivial(); }, { .split_depth = 1 });
	return chk.finish();
}
