// build: VARIANT=asan
// C14: the guest heap.  Reference: an address-space map of live blocks.
// Section "closure": explicit-state search over ALL reachable heap layouts of a small
// arena (layout = where the live blocks are), every operation from every layout, each
// path replayed on the real allocator.
// Section "depth": all operation sequences up to a depth, without merging states (the
// allocator's recycled bookkeeping is part of the state then).
// Section "guest": the same operations through the guest's malloc/calloc/realloc/free
// system calls, with the bytes of every live block checked after every operation.
#include "vp.hpp"
#include <libloong/machine.hpp>
#include <libloong/native/heap.hpp>
#include <deque>
#include <memory>
#include <unordered_map>
using namespace loongarch; using namespace vp;

static constexpr uint32_t BASE = 0x10000;
static constexpr size_t HUGE_SIZES[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 14, SIZE_MAX - 15, SIZE_MAX - 16, size_t(1) << 63, size_t(1) << 32, (size_t(1) << 32) + 16, 0xFFFFFFFFull, 0xFFFFFFF1ull, 0x100000ull };

struct Block { uint32_t addr; size_t cap; };
struct Model {
	uint32_t base, end; std::vector<Block> live; // sorted by address
	static size_t round(size_t n) { size_t r = (n + 15) & ~size_t(15); return r < 16 ? 16 : r; }
	size_t used() const { size_t s = 0; for (auto& b : live) s += b.cap; return s; }
	bool fits(size_t need) const { // some gap holds `need` bytes
		uint32_t p = base; for (auto& b : live) { if (b.addr - p >= need) return true; p = b.addr + b.cap; }
		return end - p >= need;
	}
	Block* find(uint32_t a) { for (auto& b : live) if (b.addr == a) return &b; return nullptr; }
	void add(uint32_t a, size_t c) { live.push_back({a, c}); std::sort(live.begin(), live.end(), [](auto& x, auto& y) { return x.addr < y.addr; }); }
	void del(uint32_t a) { live.erase(std::find_if(live.begin(), live.end(), [&](auto& b) { return b.addr == a; })); }
	uint64_t hash() const { uint64_t h = 7; for (auto& b : live) { h = mix(h, b.addr); h = mix(h, b.cap); } return h ? h : 1; }
};
enum Kind { MALLOC, FREE, REALLOC, BADFREE, BADREALLOC };
struct Op { Kind k; size_t size; int idx; };
static std::string show(const Op& o) {
	switch (o.k) { case MALLOC: return fmt("malloc(%zu)", o.size); case FREE: return fmt("free(#%d)", o.idx);
	case REALLOC: return fmt("realloc(#%d,%zu)", o.idx, o.size); case BADFREE: return fmt("free(bad%d)", o.idx); default: return fmt("realloc(bad%d,%zu)", o.idx, o.size); }
}
// every live block's capacity is what was asked for, rounded; or more, if the block was not split
struct Real { std::unique_ptr<Arena> a; Model m; std::string trace; };

static bool huge(size_t n) { return n > 0x1000000; }
// checks the layout through the public interface only
static bool audit(Ctx& c, Real& r, const char* after) {
	bool ok = true; auto& m = r.m; uint32_t p = m.base;
	for (auto& b : m.live) {
		ok &= OK(c, b.addr >= p && uint64_t(b.addr) + b.cap <= m.end, std::string("overlap:") + after, r.trace + fmt(": block %#x+%zu overlaps a live block or leaves the arena [%#x,%#x)", b.addr, b.cap, m.base, m.end));
		p = b.addr + b.cap;
	}
	for (auto& b : m.live) ok &= OK(c, r.a->size(b.addr) == b.cap, std::string("size:") + after, r.trace + fmt(": size(%#x)=%zu, block has %zu", b.addr, r.a->size(b.addr), b.cap));
	size_t u = r.a->bytes_used(), f = r.a->bytes_free();
	ok &= OK(c, u == m.used() && f == (m.end - m.base) - m.used(), std::string("accounting:") + after, r.trace + fmt(": used=%zu free=%zu, live blocks hold %zu of %u", u, f, m.used(), m.end - m.base));
	return ok;
}
static bool apply(Ctx& c, Real& r, const Op& o) {
	Arena& a = *r.a; Model& m = r.m;
	if (r.trace.size() < 600) r.trace += (r.trace.empty() ? "" : "; ") + show(o);
	const char* nm = o.k == MALLOC ? "malloc" : o.k == FREE ? "free" : o.k == REALLOC ? "realloc" : "bad pointer";
	c.transitions(); c.traces();
	switch (o.k) {
	case MALLOC: {
		bool fits = !huge(o.size) && m.fits(Model::round(o.size));
		uint32_t p = a.malloc(o.size);
		if (!OK(c, (p != 0) == fits, "malloc-result", r.trace + fmt(" returned %#x but %s", p, fits ? "a free range of that size exists" : "no free range of that size exists"))) return false;
		if (p) {
			size_t cap = a.size(p);
			if (!OK(c, p % 16 == 0, "align", r.trace + fmt(" returned %#x, not 16-byte aligned", p))) return false;
			if (!OK(c, cap >= o.size && cap >= 16 && cap % 16 == 0 && cap <= Model::round(o.size), "capacity", r.trace + fmt(" gave a block of %zu bytes", cap))) return false;
			m.add(p, cap);
		}
		break; }
	case FREE: {
		uint32_t p = m.live[o.idx].addr;
		if (!OK(c, a.free(p) == 0, "free-result", r.trace + " refused a live block")) return false;
		m.del(p);
		if (!OK(c, a.size(p) == 0 && a.free(p) == -1, "double-free", r.trace + " the freed pointer is still accepted")) return false;
		break; }
	case REALLOC: {
		uint32_t p = m.live[o.idx].addr; size_t cap = m.live[o.idx].cap;
		auto [q, old] = a.realloc(p, o.size);
		size_t need = huge(o.size) ? SIZE_MAX : Model::round(o.size);
		if (q == 0) {
			// may fail only if nothing fits: not in place (with the gap after the block), not elsewhere
			uint32_t nxt = m.end; for (auto& b : m.live) if (b.addr > p) { nxt = b.addr; break; }
			bool can = need != SIZE_MAX && (nxt - p >= need || m.fits(need));
			if (!OK(c, !can, "realloc-result", r.trace + " failed although the space exists")) return false;
			if (!OK(c, a.size(p) == cap, "realloc-fail-keeps", r.trace + " failed and the old block is gone")) return false;
		} else if (q == p) {
			size_t n = a.size(p);
			if (!OK(c, need != SIZE_MAX && n >= o.size && n % 16 == 0 && (n == cap || n == need), "realloc-inplace", r.trace + fmt(" kept %#x with %zu bytes (had %zu)", p, n, cap))) return false;
			if (!OK(c, old == 0, "realloc-oldlen", r.trace + fmt(" in place, but reports %zu bytes to move", old))) return false;
			m.find(p)->cap = n;
		} else {
			size_t n = a.size(q);
			if (!OK(c, need != SIZE_MAX && n >= o.size && q % 16 == 0 && n <= need, "realloc-move", r.trace + fmt(" moved to %#x with %zu bytes", q, n))) return false;
			if (!OK(c, old == cap, "realloc-oldlen", r.trace + fmt(" moved, reports %zu old bytes, block had %zu", old, cap))) return false;
			// the new block must not overlap the old one (the caller copies after the call)
			if (!OK(c, uint64_t(q) + n <= p || uint64_t(p) + cap <= q, "realloc-overlap", r.trace + fmt(" moved %#x+%zu to overlapping %#x", p, cap, q))) return false;
			m.del(p); m.add(q, n);
		}
		break; }
	case BADFREE: case BADREALLOC: {
		// not the start of a live block: 0 (free only), unaligned, interior, before/after the arena, free space
		std::vector<uint32_t> bad; 
		for (uint32_t p = m.base - 16; p <= m.end + 16; p += 8) if (!m.find(p)) bad.push_back(p);
		bad.push_back(1);
		for (uint32_t p : bad) {
			if (o.k == BADFREE) { if (!OK(c, a.free(p) == -1, "bad-free", r.trace + fmt(" free(%#x) accepted a pointer that is not a live block", p))) return false; }
			else { auto [q, old] = a.realloc(p, o.size); if (!OK(c, q == 0 && old == 0, "bad-realloc", r.trace + fmt(" realloc(%#x,%zu) = %#x", p, o.size, q))) return false; }
		}
		break; }
	}
	return audit(c, r, nm);
}
static Real fresh(unsigned units) { Real r; r.a = std::make_unique<Arena>(BASE, BASE + units * 16); r.m.base = BASE; r.m.end = BASE + units * 16; return r; }
static std::vector<Op> ops_of(const Model& m, unsigned units, bool huge_too) {
	std::vector<Op> v; std::vector<size_t> sz;
	for (unsigned k = 0; k <= units + 1; k++) { sz.push_back(k * 16); sz.push_back(k * 16 + 1); }
	if (huge_too) for (size_t h : HUGE_SIZES) sz.push_back(h);
	for (size_t s : sz) v.push_back({MALLOC, s, 0});
	for (int i = 0; i < (int)m.live.size(); i++) { v.push_back({FREE, 0, i}); for (size_t s : sz) v.push_back({REALLOC, s, i}); }
	v.push_back({BADFREE, 0, 0}); v.push_back({BADREALLOC, 40, 0});
	return v;
}

int main(int argc, char** argv) {
	Check chk(argc, argv, "C14");
	chk.rule("closure: every layout of live blocks reachable in an arena of N 16-byte units, every operation (malloc/realloc of every size 0..N+1 units and unit+1, huge sizes, free of each live block, free/realloc of every non-block address) from every layout; depth: every sequence of operations up to a depth; guest: the same through the guest system calls with contents");
	const bool th = chk.thorough();
	// ---- all reachable layouts
	struct Node { std::vector<Op> path; };
	chk.section("closure", [&](Ctx& c) {
		static const int nu[] = {1, 2, 3, 5, 7, 8, 10};
		unsigned units = nu[c.choose(th ? 7 : 6, "units")];
		c.at("closure units=%u", units);
		std::unordered_map<uint64_t, bool> seen; std::deque<Node> q; q.push_back({}); seen[fresh(units).m.hash()] = true;
		auto build = [&](const std::vector<Op>& path, Real& r) { r = fresh(units); for (auto& o : path) if (!apply(c, r, o)) return false; return true; };
		uint64_t max_states = 2000000;
		while (!q.empty()) {
			Node n = std::move(q.front()); q.pop_front();
			Real r; if (!build(n.path, r)) return;
			c.state(mix(units, r.m.hash()));
			auto ops = ops_of(r.m, units, n.path.size() < 4);
			// after the operation the whole arena must still be usable: freeing everything gives one range again
			for (auto& o : ops) {
				if (!build(n.path, r)) return;
				if (!apply(c, r, o)) return;
				uint64_t h = r.m.hash();
				if (!seen.count(h) && seen.size() < max_states) { seen[h] = true; Node k; k.path = n.path; k.path.push_back(o); q.push_back(std::move(k)); }
				if (c.want_sample() && n.path.size() == 3) c.sample(r.trace);
				// coalescing: free all live blocks in a rotation, then one block of everything
				auto order = r.m.live; if (!order.empty()) std::rotate(order.begin(), order.begin() + (h % order.size()), order.end());
				for (auto& b : order) { if (!OK(c, r.a->free(b.addr) == 0, "free-result", r.trace + " then free all")) return; r.m.del(b.addr); }
				if (!audit(c, r, "free all")) return;
				uint32_t p = r.a->malloc(units * 16);
				if (!OK(c, p == BASE, "coalesce", r.trace + fmt("; free everything; malloc(%u) = %#x", units * 16, p))) return;
			}
		}
	}, {.split_depth = 1, .timeout_s = 600});
	// ---- all sequences
	chk.section("depth", [&](Ctx& c) {
		unsigned units = 4 + 2 * c.choose(2, "units"); int depth = th ? 7 : 5;
		Real r = fresh(units);
		for (int d = 0; d < depth; d++) {
			std::vector<Op> v; static const size_t sz[] = {1, 17, 48};
			for (size_t s : sz) v.push_back({MALLOC, s, 0});
			for (int i = 0; i < (int)r.m.live.size(); i++) { v.push_back({FREE, 0, i}); for (size_t s : {16ul, 40ul, 64ul}) v.push_back({REALLOC, s, i}); }
			Op o = v[c.choose((int)v.size(), "op")];
			if (!apply(c, r, o)) return;
		}
		c.state(r.m.hash());
		if (c.want_sample()) c.sample(r.trace);
		while (!r.m.live.empty()) { uint32_t p = r.m.live.back().addr; if (!OK(c, r.a->free(p) == 0, "free-result", r.trace + " then free all")) return; r.m.del(p); }
		audit(c, r, "free all");
		OK(c, r.a->malloc(units * 16) == BASE, "coalesce", r.trace + "; free everything; the arena is not whole again");
	}, {.split_depth = 3});
	// ---- chunk limit: an exception, and the heap is as before
	chk.section("limit", [&](Ctx& c) {
		unsigned units = 8, lim = c.choose(5, "limit"); Real r = fresh(units); r.a->set_max_chunks(lim);
		for (int d = 0; d < 6; d++) {
			std::vector<Op> v; for (size_t s : {16ul, 32ul}) v.push_back({MALLOC, s, 0});
			for (int i = 0; i < (int)r.m.live.size(); i++) v.push_back({FREE, 0, i});
			Op o = v[c.choose((int)v.size(), "op")];
			Model before = r.m;
			try { if (!apply(c, r, o)) return; }
			catch (const MachineException& e) { r.m = before; if (!audit(c, r, "chunk limit")) return; }
		}
		c.state(mix(lim, r.m.hash()));
	}, {.split_depth = 3});
	// ---- through guest system calls, with contents
	chk.section("guest", [&](Ctx& c) {
		static constexpr address_t HB = 0x40000; const unsigned units = 6; const size_t asize = 0x80000;
		static Machine* mach = nullptr;
		if (mach) delete mach; 
		mach = new Machine(std::string_view{}, {});
		Machine& m = *mach; m.memory.allocate_custom_arena(asize, 0x1000, 0x2000);
		m.setup_accelerated_heap(HB, units * 16);
		auto call = [&](int n, uint64_t a, uint64_t b) { m.cpu.reg(REG_A0) = a; m.cpu.reg(REG_A1) = b; m.cpu.reg(REG_A7) = 495 + n; m.system_call(495 + n); return m.cpu.reg(REG_A0); };
		// every byte outside live blocks is a canary the heap calls never change, except that freed/new blocks may be anything
		struct B { uint64_t p, want; std::vector<uint8_t> data; }; std::vector<B> live; std::string tr; unsigned stamp = 1;
		uint8_t* mem = const_cast<uint8_t*>(m.memory.arena_ptr());
		memset(mem + HB, 0xEE, units * 16); memset(mem + HB - 4096, 0x5A, 4096); memset(mem + HB + units * 16, 0x5A, 4096);
		int depth = th ? 6 : 5;
		for (int d = 0; d < depth; d++) {
			struct G { int n; int idx; uint64_t a, b; }; std::vector<G> v;
			for (uint64_t s : {0ull, 17ull, 40ull}) v.push_back({0, -1, s, 0});
			v.push_back({1, -1, 3, 8}); v.push_back({1, -1, 0, 8});
			if (d < 2) { v.push_back({1, -1, 1ull << 32, 1ull << 32}); v.push_back({1, -1, (1ull << 63) + 1, 16}); v.push_back({1, -1, ~0ull, ~0ull}); v.push_back({0, -1, ~0ull, 0}); v.push_back({3, -1, 0, 0}); v.push_back({3, -1, HB + 8, 0}); v.push_back({3, -1, HB + (1ull << 32), 0}); }
			for (int i = 0; i < (int)live.size(); i++) { v.push_back({3, i, 0, 0}); for (uint64_t s : {8ull, 33ull, 64ull}) v.push_back({2, i, 0, s}); if (d < 3) v.push_back({2, i, 0, ~0ull}); }
			v.push_back({2, -2, 0, 20});
			G g = v[c.choose((int)v.size(), "call")];
			uint64_t a = g.idx >= 0 ? live[g.idx].p : g.a;
			static const char* nm[] = {"malloc", "calloc", "realloc", "free"};
			tr += fmt("%s(%#llx,%llu); ", nm[g.n], (unsigned long long)a, (unsigned long long)g.b);
			c.at("%s", tr.c_str()); c.transitions(); c.traces();
			uint64_t res = 0; bool threw = false;
			try { res = call(g.n, a, g.b); } catch (const MachineException&) { threw = true; }
			if (!OK(c, threw == (g.n == 3 && g.idx < 0 && g.a != 0), "guest-exception", tr + (threw ? "threw" : "an invalid free was accepted"))) return;
			if (threw) continue;
			auto fill = [&](B& b) { b.data.resize(b.want); for (auto& x : b.data) x = (uint8_t)(stamp * 37 + (&x - b.data.data())); stamp++; memcpy(mem + b.p, b.data.data(), b.want); };
			auto placed = [&](uint64_t p, uint64_t n, int self) {
				if (p % 16 || p < HB || p + n > HB + units * 16) { c.fail("guest-range", tr + fmt("returned %#llx for %llu bytes: outside the heap", (unsigned long long)p, (unsigned long long)n)); return false; }
				for (int i = 0; i < (int)live.size(); i++) if (i != self && p < live[i].p + std::max<uint64_t>(1, live[i].want) && live[i].p < p + std::max<uint64_t>(1, n)) { c.fail("guest-overlap", tr + "overlaps a live block"); return false; }
				return true;
			};
			if (g.n == 0 || g.n == 1) {
				unsigned __int128 want = g.n == 0 ? (unsigned __int128)g.a : (unsigned __int128)g.a * g.b;
				if (res) {
					if (!OK(c, want <= units * 16, "guest-oversize", tr + fmt("granted %#llx for more than the heap holds", (unsigned long long)res))) return;
					if (!placed(res, (uint64_t)want, -1)) return;
					B b{res, (uint64_t)want, {}};
					if (g.n == 1) for (uint64_t i = 0; i < b.want; i++) if (!OK(c, mem[res + i] == 0, "calloc-zero", tr + "memory is not zero")) return;
					fill(b); live.push_back(b);
				}
			} else if (g.n == 2 && g.idx >= 0) {
				if (res) {
					if (!OK(c, g.b <= units * 16, "guest-oversize", tr + "granted more than the heap holds")) return;
					if (!placed(res, g.b, g.idx)) return;
					B& b = live[g.idx]; size_t keep = std::min<size_t>(b.want, g.b);
					if (!OK(c, memcmp(mem + res, b.data.data(), keep) == 0, "realloc-contents", tr + "lost the contents")) return;
					b.p = res; b.want = g.b; fill(b);
				}
			} else if (g.n == 2) {
				if (res) { if (!placed(res, g.b, -1)) return; B b{res, g.b, {}}; fill(b); live.push_back(b); }
			} else if (g.idx >= 0) live.erase(live.begin() + g.idx);
			for (auto& b : live) if (!OK(c, memcmp(mem + b.p, b.data.data(), b.want) == 0, "guest-contents", tr + fmt("changed the live block %#llx", (unsigned long long)b.p))) return;
			for (int i = 0; i < 4096; i++) if (!OK(c, mem[HB - 4096 + i] == 0x5A && mem[HB + units * 16 + i] == 0x5A, "guest-outside", tr + "changed memory outside the heap")) return;
			// the statistics a guest can ask for
			if (m.stopped() || d % 2 == 0) { uint64_t mi = 0x30000, got[3], need = 0; for (auto& b : live) need += std::max<uint64_t>(1, b.want); memset(got, 0, sizeof got); uint64_t rc = call(4, mi, 0); memcpy(got, mem + mi, sizeof got);
				if (!OK(c, rc == 0 && got[0] + got[1] == units * 16 && got[1] >= need && (got[1] == 0) == live.empty() && got[0] == m.arena().bytes_free(), "guest-meminfo", tr + fmt("meminfo says %llu free and %llu used of %u bytes, live blocks need %llu", (unsigned long long)got[0], (unsigned long long)got[1], units * 16, (unsigned long long)need))) return;
				OK(c, (int64_t)call(4, 0, 0) < 0, "guest-meminfo", tr + "meminfo(0) succeeded"); }
		}
		uint64_t h = 3; for (auto& b : live) h = mix(mix(h, b.p), b.want); c.state(h);
		if (c.want_sample()) c.sample(tr);
	}, {.split_depth = 3});
	return chk.finish();
}
