// build: VARIANT=asan
// C16: mapping and break requests give disjoint ranges inside guest memory.  Every sequence
// (to a depth) of mmap, munmap, brk and host requests on small guest memories is compared
// with a page-granular model; every live range is filled with its own pattern and checked
// after every request.
#include "vp.hpp"
#include "elfgen.hpp"
#include <libloong/machine.hpp>
#include <algorithm>
using namespace vp; using namespace loongarch; typedef uint64_t u64; typedef int64_t i64; using std::string;
static constexpr u64 PG = 4096, CODE = 0x10000, DATAP = 0x20000;
static const elfgen::Image& elf() { static elfgen::Image im = [] { std::vector<uint8_t> data(0x100); for (int i = 0; i < 0x100; i++) data[i] = i * 7 + 1; return elfgen::build({ { CODE, elfgen::R | elfgen::X, elfgen::words({ 0x002b0000, 0x00150000, 0x00150000, 0x00150000 }) }, { DATAP, elfgen::R | elfgen::W, data, 0x1800 } }, CODE); }(); return im; }
struct Layout { u64 brk, stack; int pages; u64 extra; };          // pages (and bytes) left for mappings
enum K { MMAP, HINT, FIXED, MUNMAP, UNMAPL, BRK, HALLOC, HFREE, HFREEX, MADV, MPROT };
struct Op { K k; u64 a = 0, b = 0; };
struct Range { u64 addr, len; uint8_t pat; bool host; };           // len in whole pages
struct Sys {
	Ctx& c; const Layout& L; string who; std::unique_ptr<Machine> m; std::shared_ptr<MachineOptions> opt; std::vector<Range> live; u64 arena, start, stack_lo, stack_hi, brk_lo, brk_hi; int mode; uint8_t pat = 1; std::vector<uint8_t> low; bool dead = false, reuse = false;
	uint8_t* mem() { return (uint8_t*)m->memory.arena_ptr(); }
	Sys(Ctx& c, const Layout& L, int mode) : c(c), L(L), mode(mode) {
		auto up = [](u64 x) { return (x + PG - 1) & ~(PG - 1); }; brk_lo = 0x22000; brk_hi = brk_lo + up(L.brk); stack_lo = brk_hi; stack_hi = stack_lo + L.stack; start = up(stack_hi); arena = start + L.pages * PG + L.extra;
		opt = std::make_shared<MachineOptions>(); opt->memory_max = arena; opt->brk_size = L.brk; opt->stack_size = L.stack; opt->use_shared_execute_segments = false; m = std::make_unique<Machine>(elf().file, *opt); m->set_options(opt); m->setup_linux_syscalls();
		who = fmt("brk %#lx, stack %#lx, room for %d pages and %lu bytes:", (long)L.brk, (long)L.stack, L.pages, (long)L.extra);
		u64 st = m->memory.stack_address(); if (st > arena || st - L.stack < DATAP + 0x1800 || st % 16) { c.fail("layout", who + fmt(" the stack is [%#lx,%#lx), memory ends at %#lx", (long)(st - L.stack), (long)st, (long)arena)); dead = true; return; }
		stack_hi = st; stack_lo = st - L.stack; for (u64 a = CODE + 16; a < DATAP; a++) mem()[a] = 0x55; for (u64 a = DATAP + 0x1800; a < start; a++) mem()[a] = 0x66 + a % 31; low.assign(mem() + CODE, mem() + start);
	}
	bool bad(const char* k, const string& t) { c.fail(k, who + ": " + t); dead = true; return false; }
	void fill(Range& r) { r.pat = pat++; for (u64 i = 0; i < r.len; i++) mem()[r.addr + i] = r.pat ^ (i >> 12); }
	bool grant(u64 a, u64 len, bool host, bool zero) { u64 n = (len + PG - 1) & ~(PG - 1);
		if (a % PG) return bad("alignment", fmt("granted %#lx", (long)a)); if (n < len || a > arena || n > arena - a) return bad("outside", fmt("granted [%#lx,+%#lx), memory ends at %#lx", (long)a, (long)len, (long)arena));
		if (a < DATAP + 0x1800) return bad("program", fmt("granted [%#lx,+%#lx), inside the program", (long)a, (long)len)); if (a < stack_hi && a + n > stack_lo) return bad("stack", fmt("granted [%#lx,+%#lx), the stack is [%#lx,%#lx)", (long)a, (long)len, (long)stack_lo, (long)stack_hi)); if (a < brk_hi && a + n > brk_lo && L.brk) return bad("heap", fmt("granted [%#lx,+%#lx), the break area is [%#lx,%#lx)", (long)a, (long)len, (long)brk_lo, (long)brk_hi));
		for (auto& r : live) if (a < r.addr + r.len && r.addr < a + n) return bad("overlap", fmt("granted [%#lx,+%#lx), but [%#lx,+%#lx) is live", (long)a, (long)len, (long)r.addr, (long)r.len));
		if (zero) for (u64 i = 0; i < n; i++) if (mem()[a + i]) return bad("zero", fmt("the new range [%#lx,+%#lx) is not zero at %#lx", (long)a, (long)len, (long)(a + i)));
		live.push_back({ a, n, 0, host }); fill(live.back()); bump = std::max(bump, a + n); return true; }
	// everything from here on has never been mapped, or was given back last and in one piece: it can be mapped (again)
	u64 bump = 0; void gave_back(u64 a, u64 end) { if (end == bump && a >= start) bump = a; } bool refused(u64 len) { u64 b = std::max(bump, start), end = start + (u64)L.pages * PG; return len && b <= end && len <= end - b; }
	void unmap(u64 a, u64 end) { std::vector<Range> v; for (auto r : live) { if (r.host || end <= r.addr || a >= r.addr + r.len) { v.push_back(r); continue; } if (r.addr < a) v.push_back({ r.addr, a - r.addr, r.pat, false }); if (end < r.addr + r.len) { Range q{ end, r.addr + r.len - end, r.pat, false }; v.push_back(q); fill(v.back()); } } live = v; }
	bool check() { for (auto& r : live) for (u64 i = 0; i < r.len; i += 61) if (mem()[r.addr + i] != (uint8_t)(r.pat ^ (i >> 12))) return bad("contents", fmt("the live range [%#lx,+%#lx) has changed at %#lx", (long)r.addr, (long)r.len, (long)(r.addr + i))); if (memcmp(low.data(), mem() + CODE, low.size())) return bad("contents", "memory below the mappings has changed"); return true; }
	// returns false for an exception
	bool call(int nr, std::vector<u64> args, u64& r) { auto& R = m->cpu.registers(); for (int i = 0; i < 8; i++) R.get(4 + i) = 0x4000 + i; for (size_t i = 0; i < args.size(); i++) R.get(4 + i) = args[i]; R.get(11) = nr; R.pc = CODE; try { if (mode == 0) m->simulate(1000, 0); else if (mode == 1) m->cpu.simulate_inaccurate(CODE); else { m->set_max_instructions(UINT64_MAX); m->cpu.step_one(false); } } catch (const MachineException&) { return false; } r = R.get(4); return true; }
	static bool err(u64 r) { return r >= (u64)-4095; }
	// the protections and kinds of mapping (shared, private, without reservation, for a stack) take turns
	int nmap = 0; static constexpr u64 PR[4] = { 3, 3, 7, 1 }, FL[5] = { 0x22, 0x21, 0x4022, 0x20022, 0x22 };
	bool op(const Op& o) { nmap++;
		u64 r = 0, A = o.a, n; auto nth = [&](u64 i, bool host) -> Range* { for (auto& x : live) if (x.host == host && !i--) return &x; return nullptr; }; c.transitions();
		auto big = [&](u64 len) { return len == ~1ull ? arena : len == ~2ull ? arena - start : len == ~3ull ? (u64)L.pages * PG + 1 : len; };
		switch (o.k) {
		case MMAP: case HINT: { u64 len = big(o.a), hint = o.k == HINT ? o.b == 0 ? start : o.b == 1 ? CODE : o.b == 2 ? 0x1234 : ~0ull & ~4095ull : 0; who += fmt(" mmap(%#lx,%#lx)", (long)hint, (long)len); if (!call(222, { hint, len, PR[nmap % 4], FL[nmap % 5], ~0ull, 0 }, r)) return bad("exception", "raised an exception"); who += fmt("=%#lx", (long)r); if (err(r)) { if (refused(len)) return bad("refused", "although there is room"); return check(); } if (!len) return bad("empty", "an empty mapping was granted"); return grant(r, len, false, true) && check(); }
		case FIXED: { auto* x = nth(o.b & 3, false); u64 base = 0, len = big(o.a); switch (o.b >> 2) { case 0: if (!x) c.prune(); base = x->addr; break; case 1: if (!x) c.prune(); base = x->addr + PG; break; case 2: base = CODE; break; case 3: base = stack_lo & ~(PG - 1); break; case 4: base = arena & ~(PG - 1); break; case 5: base = start + 0x10; break; case 6: base = start + L.pages * PG - PG; break; case 7: base = -PG; break; case 8: base = brk_lo; break; case 9: base = 0; break; default: base = DATAP; } u64 up = (len + PG - 1) & ~(PG - 1); 
			if (up >= len && base + up >= base) for (auto& h : live) if (h.host && h.addr < base + up && base < h.addr + h.len) c.prune();
			who += fmt(" mmap(%#lx,%#lx,FIXED)", (long)base, (long)len); if (!call(222, { base, len, PR[nmap % 4], FL[nmap % 5] | 0x10, ~0ull, 0 }, r)) return bad("exception", "raised an exception"); who += fmt("=%#lx", (long)r); if (err(r)) return check(); if (!len) return bad("empty", "an empty mapping was granted"); if (r != base) return bad("fixed", "a fixed mapping was put elsewhere"); unmap(base, base + up); return grant(r, len, false, true) && check(); }
		case MUNMAP: { auto* x = nth(o.a, false); if (!x) c.prune(); u64 a = x->addr, len = x->len; if (o.b == 1) len = PG; else if (o.b == 2) { if (len < 2 * PG) c.prune(); a += PG; len -= PG; } else if (o.b == 3) len -= 100; else if (o.b == 4) { if (len < 3 * PG) c.prune(); a += PG; len = PG; } who += fmt(" munmap(%#lx,%#lx)", (long)a, (long)len); if (!call(215, { a, len }, r)) return bad("exception", "raised an exception"); if (!err(r)) { if (r) return bad("munmap", fmt("returned %#lx", (long)r)); unmap(a, (a + len + PG - 1) & ~(PG - 1)); gave_back(a, (a + len + PG - 1) & ~(PG - 1)); } return check(); }
		case UNMAPL: { // ranges that are not (only) mappings
			u64 a, len, top = m->memory.mmap_address(); switch (o.a) { case 0: a = CODE; len = top - CODE; break; case 1: a = stack_lo; len = top - stack_lo; break; case 2: a = DATAP; len = PG; break; case 3: a = top + PG; len = -PG; break; case 4: a = arena; len = top - arena; break; case 5: a = start + 1; len = PG; break; case 6: a = start; len = 0; break; case 7: a = start; len = ~0ull; break; case 8: a = 0; len = top; break; case 9: a = stack_lo - PG; len = 2 * PG; break; case 10: a = -PG; len = 2 * PG; break; default: a = top; len = PG; } for (auto& h : live) if (h.host && len && a + len > a && h.addr < a + len && a < h.addr + h.len) c.prune();
			who += fmt(" munmap(%#lx,%#lx)", (long)a, (long)len); if (!call(215, { a, len }, r)) return bad("exception", "raised an exception"); if (!err(r) && len && a + len > a && a % PG == 0) { unmap(a, (a + len + PG - 1) & ~(PG - 1)); reuse = true; } return check(); }
		case BRK: { u64 v = o.a == 0 ? 0 : o.a == 1 ? brk_lo : o.a == 2 ? brk_lo + PG : o.a == 3 ? brk_hi : o.a == 4 ? brk_hi + 1 : o.a == 5 ? start : o.a == 6 ? arena + 1 : o.a == 7 ? ~0ull : 1; who += fmt(" brk(%#lx)", (long)v); if (!call(214, { v }, r)) return bad("exception", "raised an exception"); who += fmt("=%#lx", (long)r); if (r && !err(r) && (r < brk_lo || r > brk_hi)) return bad("brk", fmt("the break is %#lx, its area is [%#lx,%#lx]", (long)r, (long)brk_lo, (long)brk_hi)); return check(); }
		case HALLOC: { u64 len = big(o.a); who += fmt(" mmap_allocate(%#lx)", (long)len); try { r = m->memory.mmap_allocate(len); } catch (const MachineException&) { if (refused(len)) return bad("refused", "although there is room"); who += " failed"; return check(); } who += fmt("=%#lx", (long)r); if (!len) return check(); return grant(r, len, true, true) && check(); }
		case HFREE: { auto* x = nth(o.a, true); if (!x) c.prune(); u64 a = x->addr, len = x->len - (o.b ? 4032 : 0); who += fmt(" mmap_deallocate(%#lx,%#lx)", (long)a, (long)len); m->memory.mmap_deallocate(a, len); gave_back(a, x->addr + x->len); live.erase(live.begin() + (x - live.data())); return check(); }
		case HFREEX: { u64 a = o.a == 0 ? CODE : o.a == 1 ? stack_lo : m->memory.mmap_address() + PG, len = m->memory.mmap_address() - a; for (auto& h : live) if (h.host || o.a < 2) c.prune(); who += fmt(" mmap_deallocate(%#lx,%#lx)", (long)a, (long)len); m->memory.mmap_deallocate(a, len); return check(); }
		case MADV: case MPROT: { auto* x = nth(o.a, false); u64 a = o.b == 2 ? CODE : o.b == 3 ? -PG : x ? x->addr : 0; if (!a) c.prune(); u64 len = o.b == 1 ? PG : o.b == 3 ? 2 * PG : x ? x->len : PG; who += fmt(" %s(%#lx,%#lx)", o.k == MADV ? "madvise" : "mprotect", (long)a, (long)len); if (!call(o.k == MADV ? 233 : 226, { a, len, (u64)(o.k == MADV ? 4 : 3) }, r)) return bad("exception", "raised an exception"); if (o.k == MADV && !err(r) && x && o.b < 2) { for (u64 i = 0; i < len; i++) if (mem()[a + i]) return bad("dontneed", fmt("after MADV_DONTNEED memory at %#lx is not zero", (long)(a + i))); Range t{ a, len, x->pat, false }; for (u64 i = 0; i < len; i++) mem()[a + i] = x->pat ^ (i >> 12); } return check(); }
		} (void)A; (void)n; return true;
	}
};
static void explore(Ctx& c, const std::vector<Layout>& ls, const std::vector<Op>& ops, int depth, int nmodes) { auto& L = c.pick(ls, "layout"); int mode = nmodes > 1 ? c.choose(nmodes, "mode") : 0; Sys s(c, L, mode); c.at("%s", s.who.c_str()); for (int i = 0; i < depth && !s.dead; i++) { auto& o = c.pick(ops, "request"); c.at("%s", s.who.c_str()); if (!s.op(o)) break; u64 h = 0; for (auto& r : s.live) h = mix(h, r.addr + r.len + r.host); c.state(mix(h, s.m->memory.mmap_address())); } c.traces(); if (!s.live.empty()) c.nontrivial(); if (c.want_sample() && s.live.size() > 1) c.sample(s.who); }
int main(int argc, char** argv) {
	Check chk(argc, argv, "C16"); bool T = chk.thorough(); static const u64 P = PG, A = ~1ull, REST = ~2ull, OVER = ~3ull;
	chk.rule("every sequence, to a depth, of mapping requests (guest system calls and host calls, sizes from one byte to 2^64-1, fixed addresses inside and outside the mapping area) on small memories, compared with a page model; every live range keeps its own contents");
	chk.assume("a guest that unmaps or maps over ranges the host has allocated does so at its own risk"); chk.assume("brk may refuse every request by returning 0");
	static const std::vector<Layout> ls = { { 0x3000, 0x4000, 6, 0 }, { 0x1000, 0x1010, 4, 1000 }, { 0, 0x2000, 3, 0 } };
	chk.section("core", [T](Ctx& c) { static const std::vector<Op> ops = { { MMAP, P }, { MMAP, 2 * P }, { MMAP, 2 * P + 1 }, { MUNMAP, 0, 0 }, { MUNMAP, 1, 0 }, { MUNMAP, 2, 0 }, { MUNMAP, 0, 1 }, { MUNMAP, 0, 2 }, { FIXED, P, 0 }, { HALLOC, 100 }, { HFREE, 0, 1 } }; explore(c, ls, ops, T ? 6 : 5, 1); }, { .split_depth = 3 });
	chk.section("sizes", [T](Ctx& c) { static std::vector<Op> ops = [] { std::vector<Op> v; for (u64 s : std::vector<u64>{ 0, 1, P - 1, P, P + 1, 3 * P, A, REST, OVER, 1ull << 31, 1ull << 32, (1ull << 32) + P, 1ull << 62, 1ull << 63, -P, -P - 1, -P + 1, ~0ull }) { v.push_back({ MMAP, s }); v.push_back({ HALLOC, s }); v.push_back({ FIXED, s, 0 }); } v.push_back({ MUNMAP, 0, 0 }); v.push_back({ HFREE, 0, 0 }); return v; }(); explore(c, ls, ops, 3, T ? 3 : 1); }, { .split_depth = 2 });
	chk.section("full", [T](Ctx& c) { static std::vector<Op> ops = [] { std::vector<Op> v = { { MMAP, P }, { MMAP, 3 * P }, { HINT, P, 0 }, { HINT, 2 * P, 1 }, { HINT, P, 2 }, { HINT, P, 3 }, { HALLOC, P }, { HALLOC, 2 * P + 5 }, { HFREE, 0, 0 }, { HFREE, 1, 1 }, { HFREEX, 0 }, { HFREEX, 1 }, { HFREEX, 2 }, { MADV, 0, 0 }, { MADV, 0, 1 }, { MADV, 0, 2 }, { MADV, 0, 3 }, { MPROT, 0, 0 }, { MPROT, 0, 3 } }; for (u64 i = 0; i < 5; i++) { v.push_back({ MUNMAP, 0, i }); v.push_back({ MUNMAP, 1, i }); } for (u64 i = 0; i < 12; i++) v.push_back({ UNMAPL, i }); for (u64 i = 0; i < 9; i++) v.push_back({ BRK, i }); for (u64 i = 0; i < 11; i++) { v.push_back({ FIXED, P, i << 2 }); v.push_back({ FIXED, 2 * P, i << 2 }); if (i == 1) v.push_back({ FIXED, P, 5 }); } return v; }(); explore(c, ls, ops, T ? 4 : 3, 1); }, { .split_depth = 3 });
	// does the program, its break area and its stack fit: every size of guest memory
	chk.section("loading", [](Ctx& c) { static const std::vector<u64> sz{ 0, 1, 0x800, 0x1000, 0x1001, 0x3000, 1ull << 20, 1ull << 32, 1ull << 63, -P, ~0ull, -0x22000ull, -0x22000ull - P, -0x23000ull }; u64 b = c.pick(sz, "brk size"), st = c.pick(sz, "stack size"); for (u64 mm = 0x20000; mm <= 0x30000; mm += c.thorough() ? 0x80 : 0x400) for (int d = -1; d < 2; d++) { auto o = std::make_shared<MachineOptions>(); o->memory_max = mm + d; o->brk_size = b; o->stack_size = st; o->use_shared_execute_segments = false; c.transitions(); string w = fmt("memory %#lx, brk %#lx, stack %#lx", (long)(mm + d), (long)b, (long)st); c.at("%s", w.c_str());
			u64 need = 0x22000; auto add = [&](u64 x) { u64 u = (x + PG - 1) & ~(PG - 1); if (u < x || need + u < need) need = ~0ull; else need += u; }; if (need != ~0ull) add(b); if (need != ~0ull) add(st); bool fits = need <= mm + d;
			try { Machine m(elf().file, *o); u64 sp = m.memory.stack_address(); OK(c, sp <= mm + d && sp >= 0x22000 && (st <= sp - 0x22000), "loading:stack", w + fmt(": loaded, with the stack ending at %#lx", (long)sp)); c.nontrivial(); if (m.memory.mmap_address() > mm + d) {} }
			catch (const MachineException&) { OK(c, !fits || mm + d - need < 2 * PG, "loading:refused", w + ": refused although everything fits"); } } c.traces(); }, { .split_depth = 2 });
	return chk.finish();
}
