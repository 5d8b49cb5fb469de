// build: VARIANT=asan
// C18: signal actions, alternate stacks and delivery on the real system calls, compared with
// a model of the Linux LoongArch interface.
#include "vp.hpp"
#include <libloong/machine.hpp>
#include <libloong/posix/signals.hpp>
#include <libloong/posix/threads.hpp>
#include <algorithm>
using namespace vp; using namespace loongarch; typedef uint64_t u64; typedef int64_t i64; using std::string;
static constexpr u64 MM = 0xc000, RO = 0x1000, DATA = 0x2000, CODE = 0x1000, HAND = 0x1040, HRET = 0x1060, ACT = 0x3000, OLD = 0x3100, SS = 0x3200, OSS = 0x3300, STK = 0x9000, ALT = 0x4000, ALT2 = 0x6000;
static constexpr i64 EINVAL_ = -22, EPERM_ = -1, ENOMEM_ = -12, ESRCH_ = -3;
// 0: syscall, stop; handler at HAND: stop; handler at HRET: changes registers and returns
static const std::vector<uint32_t>& code() { static std::vector<uint32_t> v = [] { std::vector<uint32_t> v(64, 0x00150000); v[0] = 0x002b0000; int h = (HRET - CODE) / 4; v[h] = 0x03800400 | 12; v[h + 1] = 0x03800800 | 13; v[h + 2] = 0x03800c00 | 4; v[h + 3] = 0x4c000020; return v; }(); return v; }
struct KSA { u64 handler = 0, flags = 0, mask = 0; bool operator==(const KSA&) const = default; }; struct KSS { u64 sp = 0; int flags = 0; int pad = 0; u64 size = 0; };
struct Sys {
	Ctx& c; std::unique_ptr<Machine> m; std::shared_ptr<MachineOptions> opt; int mode; KSA act[65]; KSS alt; bool threads; string who; std::vector<u64> regs; u64 sp = STK; int resumed = 0;
	Sys(Ctx& c, int mode, bool threads) : c(c), mode(mode), threads(threads) { opt = std::make_shared<MachineOptions>(); opt->memory_max = MM; opt->use_shared_execute_segments = false; m = std::make_unique<Machine>(std::string_view{}, *opt); m->set_options(opt); m->memory.allocate_custom_arena(MM, RO, DATA); memcpy((uint8_t*)m->memory.arena_ptr() + CODE, code().data(), code().size() * 4); m->cpu.init_execute_area(code().data(), CODE, code().size() * 4); m->setup_linux_syscalls(); if (threads) m->setup_posix_threads(); who = threads ? "threads:" : "single:"; }
	uint8_t* mem() { return (uint8_t*)m->memory.arena_ptr(); }
	bool bad(const char* k, const string& t) { c.fail(k, who + ": " + t); return false; }
	u64 rnd(int i) { return 0x1111111111111111ull * (i + 1) ^ 0xabcdef; }
	// 0: an exception, 1: returned to the caller, 2: at a handler
	int call(int nr, std::vector<u64> a, i64& r) { auto& R = m->cpu.registers(); c.transitions(); for (int i = 1; i < 32; i++) R.get(i) = rnd(i); R.get(1) = CODE + 0x80; R.get(3) = sp; for (size_t i = 0; i < a.size(); i++) R.get(4 + i) = a[i]; R.get(11) = nr; for (int i = 0; i < 32; i++) R.getfl64(i) = i + 0.5; R.pc = CODE; regs.clear(); for (int i = 0; i < 32; i++) regs.push_back(R.get(i)); run(CODE); r = R.get(4); if (threw) return 0; return R.pc == CODE + 8 ? 1 : 2; }
	bool threw = false; int etype = -1; void run(u64 pc) { threw = false; try { if (mode == 0) m->simulate(1000, 0); else if (mode == 1) m->cpu.simulate_inaccurate(pc); else { m->set_max_instructions(UINT64_MAX); for (int i = 0; i < 100; i++) { bool st = *(uint32_t*)(mem() + (u64)m->cpu.pc()) == 0x00150000; m->cpu.step_one(false); if (st) break; } } } catch (const MachineException& e) { threw = true; etype = e.type(); } }
	bool query(int s) { i64 r; memset(mem() + OLD, 0x77, 64); int k = call(134, { (u64)s, 0, OLD, 8 }, r); KSA o; memcpy(&o, mem() + OLD, sizeof o); if (k != 1 || r) return bad("query", fmt("querying signal %d returns %ld", s, (long)r)); if (!(o == act[s])) return bad("query", fmt("signal %d has handler %#lx, flags %#lx, mask %#lx instead of %#lx, %#lx, %#lx", s, (long)o.handler, (long)o.flags, (long)o.mask, (long)act[s].handler, (long)act[s].flags, (long)act[s].mask)); for (int i = sizeof o; i < 64; i++) if (mem()[OLD + i] != 0x77) return bad("query:size", fmt("querying signal %d wrote behind the structure", s)); return true; }
	bool set(i64 s, const KSA& a, u64 ap = ACT, u64 op = OLD) {
		who += fmt(" sigaction(%ld,%s{%#lx,%#lx,%#lx},%#lx)", (long)s, ap == ACT ? "" : fmt("%#lx ", (long)ap).c_str(), (long)a.handler, (long)a.flags, (long)a.mask, (long)op); if (ap && ap <= MM) memcpy(mem() + ap, &a, sizeof a); memset(mem() + ACT + sizeof a, 0x99, 32); if (op != ap && ap != OLD) memset(mem() + OLD, 0x77, 64); i64 r; static std::vector<uint8_t> snap; snap.assign(mem(), mem() + MM); int k = call(134, { (u64)s, ap, op, 8 }, r); int n = (int)s; bool okp = (ap == 0 || (ap >= RO && ap <= MM - sizeof a)) && (op == 0 || (op >= DATA && op <= MM - sizeof a)); bool valid = n >= 1 && n <= 64 && !(ap && (n == 9 || n == 19));
		if (!valid) { if (k == 1 && r != EINVAL_) return bad("invalid", fmt("an invalid signal number returns %ld", (long)r)); if (k == 2) return bad("invalid", "control went elsewhere"); if (memcmp(snap.data(), mem(), MM)) return bad("invalid", "memory changed"); return true; }
		if (!okp) { if (k == 1 && (r >= 0 || r < -4095)) return bad("pointer", fmt("an invalid pointer returns %ld", (long)r)); if (k == 1 && r != -14) return bad("pointer", fmt("an invalid pointer returns %ld", (long)r)); bool half = ap >= RO && ap <= MM - sizeof a; if (half) { /* the action may have been set before the old one was written */ i64 q; memset(mem() + OLD, 0, 64); call(134, { (u64)n, 0, OLD, 8 }, q); KSA o; memcpy(&o, mem() + OLD, sizeof o); if (o == a) act[n] = a; } return true; }
		if (k != 1 || r) return bad("set", fmt("returns %ld", (long)r)); if (op) { KSA o; memcpy(&o, mem() + op, sizeof o); KSA e = act[n]; if (!(o == e)) return bad("old", fmt("the old action is %#lx, %#lx, %#lx instead of %#lx, %#lx, %#lx", (long)o.handler, (long)o.flags, (long)o.mask, (long)e.handler, (long)e.flags, (long)e.mask)); }
		for (u64 i = 0; i < MM; i++) if (mem()[i] != snap[i] && !(op && i >= op && i < op + sizeof a)) return bad("memory", fmt("memory at %#lx changed", (long)i)); if (ap) act[n] = a; return true; }
	bool on_alt() { return alt.size && sp > alt.sp && sp - alt.sp <= alt.size; }
	bool altstack(const KSS& n, u64 sp_, u64 op) {
		who += fmt(" sigaltstack(%s{%#lx,%d,%#lx},%#lx)", sp_ == SS ? "" : fmt("%#lx ", (long)sp_).c_str(), (long)n.sp, n.flags, (long)n.size, (long)op); if (sp_ && sp_ <= MM) memcpy(mem() + sp_, &n, sizeof n); if (op != sp_) memset(mem() + OSS, 0x55, 64); i64 r; int k = call(132, { sp_, op }, r); bool okp = (!sp_ || (sp_ >= RO && sp_ <= MM - 24)) && (!op || (op >= DATA && op <= MM - 24)); KSS old = alt; bool nowon = on_alt(); old.flags = !alt.size ? 2 : nowon ? 1 : 0;
		if (!okp) { if (k == 1 && r != -14) return bad("altstack:pointer", fmt("an invalid pointer returns %ld", (long)r)); if (k == 0 && sp_ >= RO && sp_ <= MM - 24) { KSS q; i64 x; call(132, { 0, OSS }, x); memcpy(&q, mem() + OSS, 24); if (q.sp == n.sp && q.size == n.size) alt = n; } return k != 2; }
		i64 want = 0; if (sp_) { if (nowon) want = EPERM_; else if (n.flags == 2) want = 0; else if (n.flags != 0 && n.flags != 1) want = EINVAL_; else if (n.size < 2048) want = ENOMEM_; } if (k != 1 || r != want) return bad("altstack", fmt("returns %ld instead of %ld", (long)r, (long)want)); if (want) return true;
		if (op) { KSS q; memcpy(&q, mem() + op, 24); if (q.size != old.size || q.flags != old.flags || (old.size && q.sp != old.sp)) return bad("altstack:old", fmt("the old stack is {%#lx,%d,%#lx} instead of {%#lx,%d,%#lx}", (long)q.sp, q.flags, (long)q.size, (long)old.sp, old.flags, (long)old.size)); for (int i = 24; op == OSS && i < 64; i++) if (mem()[op + i] != 0x55) return bad("altstack:size", "memory behind the structure changed"); } if (sp_) { alt = n; if (n.flags == 2) alt.sp = alt.size = 0; } return true; }
	// nr 130 tkill(tid,sig), 131 tgkill(tgid,tid,sig)
	bool kill(int nr, i64 sig, u64 tid) {
		who += fmt(" %s(tid %ld,%ld)", nr == 130 ? "tkill" : "tgkill", (long)tid, (long)sig); i64 r; static std::vector<uint8_t> snap; snap.assign(mem(), mem() + MM); int k = call(nr, nr == 130 ? std::vector<u64>{ tid, (u64)sig } : std::vector<u64>{ 1, tid, (u64)sig }, r); int n = (int)sig; auto& R = m->cpu.registers(); if (n < 0 || n > 64) { if (k == 2 || (k == 1 && r != EINVAL_)) return bad("kill:invalid", fmt("signal number %d returns %ld", n, (long)r)); return true; }
		const KSA& a = n ? act[n] : act[64]; if (n == 0 || a.handler == 1) { if (k != 1 || r) return bad("kill:none", fmt("signal %d, which is %s, returns %ld (pc=%#lx)", n, n ? "ignored" : "no signal", (long)r, (long)R.pc)); return true; }
		if (a.handler == 0) { if (n == 6 && k == 0 && etype == GUEST_ABORT) return true; if (threads) return k != 2; if (k != 1 || r) return bad("kill:default", fmt("unhandled signal %d returns %ld", n, (long)r)); return true; }
		u64 h = a.handler; if (h % 4) { if (k == 1) return bad("kill:handler", "an unaligned handler was skipped"); return true; } if (h != HAND) { if (k == 1) return bad("kill:handler", "the handler was skipped"); return true; }
		if (k != 2 || R.pc != HAND + 4) return bad("kill:handler", fmt("the handler did not run (pc=%#lx, a0=%ld, exception %d)", (long)R.pc, (long)R.get(4), threw)); if (R.get(4) != (u64)n) return bad("kill:argument", fmt("the handler is given %ld instead of the signal number %d", (long)R.get(4), n));
		u64 s = R.get(3); bool sw = (a.flags & 0x08000000) && alt.size && !on_alt(); if (sw) { u64 top = alt.sp + alt.size; if (s > top || s + 4096 < top || s % 16 || (s <= alt.sp)) return bad("kill:altstack", fmt("the handler runs with sp=%#lx, the alternate stack is [%#lx,%#lx)", (long)s, (long)alt.sp, (long)top)); } else if (s > sp || s + 4096 < sp || s % 16) return bad("kill:stack", fmt("the handler runs with sp=%#lx, the interrupted code had %#lx", (long)s, (long)sp));
		for (int i : { 0, 2, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31 }) if (R.get(i) != regs[i]) return bad("kill:registers", fmt("register %d is %#lx instead of %#lx in the handler", i, (long)R.get(i), (long)regs[i])); for (int i = 0; i < 32; i++) if (R.getfl64(i) != i + 0.5) return bad("kill:registers", fmt("floating-point register %d changed", i));
		for (u64 i = 0; i < MM; i++) if (mem()[i] != snap[i] && !((sw && i >= alt.sp && i < alt.sp + alt.size) || (!sw && i < sp && i + 4096 >= sp))) return bad("kill:memory", fmt("memory at %#lx changed", (long)i)); c.nontrivial(); return true; }
};
int main(int argc, char** argv) {
	Check chk(argc, argv, "C18"); bool T = chk.thorough(); static const u64 ONS = 0x08000000, SI = 4, RESTART = 0x10000000, NODEFER = 0x40000000;
	chk.rule("every signal number and boundary value, all histories of sigaction, sigaltstack, tkill and tgkill to a depth over handlers, flags, masks, stacks and pointers, in three execution modes, with and without threads; old values, errors, memory and the registers at handler entry compared with a model");
	chk.assume("the second and third handler arguments are not provided (null)"); chk.assume("without threads an unhandled signal other than SIGABRT is dropped; with threads it ends the thread");
	chk.section("numbers", [](Ctx& c) { static const std::vector<i64> N = [] { std::vector<i64> v; for (int i = -4; i < 132; i++) v.push_back(i); for (i64 x : std::vector<i64>{ 255, 256, 257, 1024, 65536, INT32_MAX, INT32_MIN, (i64)1 << 32, ((i64)1 << 32) + 10, INT64_MAX, INT64_MIN, -64, -65, -63 }) v.push_back(x); return v; }(); bool th = c.flag("threads"); int mode = c.choose(3, "mode"); i64 n = c.pick(N, "signal"); Sys s(c, mode, th); c.at("%s %ld", s.who.c_str(), (long)n); s.set(n, { HAND, ONS | SI, 0x123456789abcdef1ull }) && s.set(n, { HAND, RESTART, ~0ull }) && s.kill(131, n, 0) && s.kill(130, n, 0); for (int i = 1; i <= 64; i++) if (!s.query(i)) break; c.state(n); c.traces(); if (c.want_sample()) c.sample(s.who); }, { .split_depth = 2 });
	static const std::vector<KSA> ACTS{ { 0, 0, 0 }, { 1, 0, 0 }, { HAND, 0, 0 }, { HAND, ONS, 1ull << 63 }, { HAND, SI | RESTART | NODEFER, 0x200 } };
	chk.section("histories", [T](Ctx& c) { bool th = c.flag("threads"); int mode = c.choose(T ? 3 : 1, "mode"); Sys s(c, mode, th); int D = T ? 4 : 3; static const std::vector<int> S{ 1, 2, 10, 64 }; for (int d = 0; d < D; d++) { int k = c.choose(4 * 5 + 4 * 2 + 5, "call"); c.at("%s", s.who.c_str()); bool ok; if (k < 20) ok = s.set(S[k / 5], ACTS[k % 5]); else if (k < 28) ok = (k & 1) && th && s.act[S[(k - 20) / 2]].handler == 0 ? true : s.kill(k & 1 ? 130 : 131, S[(k - 20) / 2], 0) && !(th && s.act[S[(k - 20) / 2]].handler == 0); else switch (k - 28) { case 0: ok = s.altstack({ ALT, 0, 0, 0x2000 }, SS, OSS); break; case 1: ok = s.altstack({ ALT2, 0, 0, 0x1000 }, SS, 0); break; case 2: ok = s.altstack({ ALT, 2, 0, 0x2000 }, SS, OSS); break; case 3: ok = s.altstack({}, 0, OSS); break; default: s.sp = s.sp == STK ? ALT + 0x1000 : s.sp == ALT + 0x1000 ? ALT + 0x2000 : STK; s.who += fmt(" sp=%#lx", (long)s.sp); ok = true; } if (!ok) return; } for (int i : S) if (!s.query(i)) return; u64 h = s.alt.sp + s.alt.size; for (int i : S) h = mix(h, s.act[i].handler + s.act[i].flags); c.state(h); c.traces(); }, { .split_depth = 3 });
	chk.section("pointers", [](Ctx& c) { static const std::vector<u64> P{ 0, ACT, OLD, 8, RO - 8, RO, DATA - 8, DATA - 24, DATA, MM - 24, MM - 23, MM - 8, MM, MM + 8, 1ull << 32, 1ull << 63, ~0ull, -8ull, -24ull }; u64 a = c.pick(P, "action"), o = c.pick(P, "old"); int which = c.choose(2, "call"); Sys s(c, 0, false); c.at("%s %#lx %#lx", s.who.c_str(), (long)a, (long)o); if (which == 0) { s.set(10, { HAND, ONS, 5 }); if (a == RO) c.prune(); s.set(10, { HAND, SI, 6 }, a, o) && s.query(10); } else { if (a == RO) c.prune(); s.altstack({ ALT, 0, 0, 0x2000 }, SS, 0); s.altstack({ ALT2, 0, 0, 0x3000 }, a, o) && s.altstack({}, 0, OSS); } c.traces(); }, { .split_depth = 2 });
	chk.section("stacks", [](Ctx& c) { static const std::vector<u64> SZ{ 0, 1, 2047, 2048, 2049, 0x1000, 0x2000, 0x2008, 1ull << 32, ~0ull }; static const std::vector<int> FL{ 0, 1, 2, 3, 4, -1, INT32_MIN }; u64 size = c.pick(SZ, "size"); int fl = c.pick(FL, "flags"); u64 base = ALT + c.pick(std::vector<int>{ 0, 4, 8, 16 }, "base"); int sp = c.choose(5, "sp"); Sys s(c, c.choose(3, "mode"), false); s.set(10, { HAND, ONS, 0 }); s.altstack({ ALT2, 0, 0, 0x1000 }, SS, OSS); s.sp = sp == 0 ? STK : sp == 1 ? ALT2 : sp == 2 ? ALT2 + 16 : sp == 3 ? ALT2 + 0x1000 : ALT2 + 0x1010; s.who += fmt(" sp=%#lx", (long)s.sp); c.at("%s", s.who.c_str()); s.altstack({ base, fl, 0, size }, SS, OSS) && s.altstack({}, 0, OSS) && (s.alt.size > 0x3000 || s.kill(131, 10, 0)); c.traces(); }, { .split_depth = 2 });
	chk.section("handlers", [](Ctx& c) { static const std::vector<u64> H{ HAND, HAND + 1, HAND + 2, HAND + 3, 2, 3, 4, 8, MM, ~0ull, -4ull, 1ull << 63, 0x3000, 0 , 1 }; u64 h = c.pick(H, "handler"); bool th = c.flag("threads"); int mode = c.choose(3, "mode"); int n = c.pick(std::vector<int>{ 6, 10, 17, 64 }, "signal"); if (mode == 2 && (h > MM - 4 || h == 2 || h == 3 || h == 4 || h == 8 || h == 0x3000) && h != HAND) c.prune(); if (th && h == 0) c.prune(); Sys s(c, mode, th); c.at("%s handler %#lx", s.who.c_str(), (long)h); s.set(n, { h, 0, 0 }) && s.query(n) && s.kill(130 + c.choose(2, "call"), n, 0); c.traces(); }, { .split_depth = 2 });
	// only the last action of a signal counts, wherever the alternate stack came between
	chk.section("replaced", [T](Ctx& c) {
		static const std::vector<KSA> A{ { 0, 0, 0 }, { 1, ONS, 4 }, { HAND, 0, 0 }, { HAND, ONS, 1ull << 63 }, { HAND, SI | RESTART | NODEFER, 0x200 }, { HAND, ONS | SI | RESTART | NODEFER, ~0ull } };
		bool th = c.flag("threads"); int mode = c.choose(3, "mode"), sig = c.pick(std::vector<int>{ 1, 10, 12, 64 }, "signal"), when = c.choose(4, "alternate stack"), N = T ? 4 : 3; Sys s(c, mode, th);
		for (int d = 0; d < N; d++) { if (when == d) if (!s.altstack({ ALT, 0, 0, 0x2000 }, SS, OSS)) return; KSA a = A[c.choose((int)A.size(), "action")]; c.at("%s", s.who.c_str()); if (!s.set(sig, a) || !s.query(sig)) return; if (d + 1 < N && a.handler == HAND && c.flag("deliver") && !s.kill(131, sig, 0)) return; }
		if (when == 3 && !s.altstack({ ALT2, 1, 0, 0x1000 }, SS, OSS)) return;
		if (th && s.act[sig].handler == 0) { c.traces(); return; }
		if (s.kill(c.flag("tkill") ? 130 : 131, sig, 0)) s.query(sig); c.state(mix(when, s.act[sig].handler + s.act[sig].flags)); c.traces(); }, { .split_depth = 4 });
	// other threads: signals arrive where they are sent
	chk.section("threads", [T](Ctx& c) { int mode = c.choose(3, "mode"); Sys s(c, mode, true); std::vector<KSS> alts(4); std::vector<u64> sps{ STK, 0xa000, 0xa800, 0xb000 }; auto& R = s.m->cpu.registers(); int nthreads = 1; int cur = 0; auto park = [&] { R.pc = CODE + 8; };
		s.set(10, { HAND, ONS, 0 }); s.set(12, { HAND, 0, 0 }); s.set(14, { 1, 0, 0 }); i64 r; std::vector<bool> blocked(4), dead(4);
		for (int d = 0; d < (T ? 5 : 4); d++) { int k = c.choose(12, "call"); c.at("%s thread %d", s.who.c_str(), cur); s.sp = sps[cur]; s.alt = alts[cur];
			if (k < 1) { if (nthreads > 2) c.prune(); s.who += fmt(" [%d] clone", cur); int kk = s.call(220, { 0x50f00, sps[nthreads], 0, 0, 0 }, r); /* the parent or the child may run next */ cur = s.m->gettid() ? s.m->gettid() : 0; nthreads++; if (cur >= nthreads) { s.bad("threads:clone", fmt("thread %d runs", cur)); return; } (void)kk; }
			else if (k < 2) { s.who += fmt(" [%d] altstack", cur); if (!s.altstack({ ALT + (u64)cur * 0x1000, 0, 0, 0x800 }, SS, OSS)) return; alts[cur] = s.alt; }
			else if (k < 11) { int t = (k - 2) / 3, sig = (k - 2) % 3 == 0 ? 10 : (k - 2) % 3 == 1 ? 12 : 14; bool exists = t < nthreads; s.who += fmt(" [%d] tgkill(%d,%d)", cur, t, sig); int kk = s.call(131, { 0, (u64)t, (u64)sig }, r); if (!exists) { if (kk != 1 || r != ESRCH_) { s.bad("threads:none", fmt("a signal to a thread that does not exist returns %ld", (long)r)); return; } } else if (sig == 14) { if (kk != 1 || r) { s.bad("threads:ignored", fmt("an ignored signal returns %ld", (long)r)); return; } } else { int now = s.m->gettid(); if (kk != 2 || R.pc != HAND + 4 || R.get(4) != (u64)sig) { s.bad("threads:handler", fmt("the handler of %d did not run (pc=%#lx, a0=%ld)", sig, (long)R.pc, (long)R.get(4))); return; } if (now != t) { s.bad("threads:target", fmt("the handler runs in thread %d", now)); return; } u64 want = sig == 10 && alts[t].size ? alts[t].sp + alts[t].size : sps[t]; if (R.get(3) > want || R.get(3) + 4096 < want) { s.bad("threads:stack", fmt("the handler of thread %d runs with sp=%#lx instead of %#lx", t, (long)R.get(3), (long)want)); return; } cur = now; c.nontrivial(); } }
			else { s.who += fmt(" [%d] yield", cur); s.call(124, {}, r); cur = s.m->gettid(); } }
		(void)park; c.state(mix(nthreads, cur)); c.traces(); }, { .split_depth = 3 });
	// a handler that returns continues the interrupted code with all its registers
	chk.section("return", [](Ctx& c) { int mode = c.choose(3, "mode"); bool th = c.flag("threads"), alt = c.flag("alternate stack"); Sys s(c, mode, th); if (alt) s.altstack({ ALT, 0, 0, 0x2000 }, SS, 0); s.set(10, { HRET, alt ? ONS : 0, 0 }); i64 r; s.who += " handler returns"; c.at("%s", s.who.c_str()); s.call(131, { 0, 0, 10 }, r); auto& R = s.m->cpu.registers(); bool same = R.pc == CODE + 8; for (int i = 1; i < 32; i++) if (i != 4 && R.get(i) != s.regs[i]) same = false; if (!same || r) c.fail("return", s.who + fmt(": the interrupted code does not continue as it was (pc=%#lx, a0=%ld)", (long)R.pc, (long)r)); c.traces(); }, { .split_depth = 1 });
	chk.section("blocked", [](Ctx& c) { int mode = c.choose(3, "mode"); bool th = c.flag("threads"); int how = c.choose(3, "how"); Sys s(c, mode, th); s.set(10, { HAND, 0, 0 }); i64 r; u64 set = 1ull << 9; memcpy(s.mem() + ACT, &set, 8); memset(s.mem() + OLD, 0x77, 8); s.call(135, { how == 0 ? 0ull : 2ull, ACT, how == 2 ? 0 : OLD, 8 }, r); if (r) c.fail("blocked:result", s.who + fmt(" rt_sigprocmask returns %ld", (long)r)); int k = s.call(131, { 0, 0, 10 }, r); if (k != 1) c.fail("blocked", s.who + ": the handler of a blocked signal runs"); c.traces(); }, { .split_depth = 1 });
	return chk.finish();
}
