// build: VARIANT=plain EXTRAOBJ=$(O)/ref_isa.o
// C02: the host-side memory API accepts exactly the ranges that lie inside guest memory, and touches nothing else.
#include "isa.hpp"
#include <libloong/guest_datatypes.hpp>
using namespace isa;
struct S24 { u64 a, b, c; }; struct S3 { uint8_t x[3]; };
struct Op { const char* name; int esz; bool write; };
enum { COPY_TO, COPY_FROM, MEMSET, MEMCMP1, MEMCMP2, ARR1, ARR2, ARR8, ARR24, ARR3, WARR1, WARR8, WARR24, VIEW, SYSVIEW, UNSAFE, NOPS };
static const Op ops[NOPS] = { { "copy_to_guest", 1, true }, { "copy_from_guest", 1, false }, { "memset", 1, true }, { "memcmp (first)", 1, false }, { "memcmp (second)", 1, false }, { "memarray<u8>", 1, false }, { "memarray<u16>", 2, false }, { "memarray<u64>", 8, false }, { "memarray<24 bytes>", 24, false }, { "memarray<3 bytes>", 3, false }, { "writable_memarray<u8>", 1, true }, { "writable_memarray<u64>", 8, true }, { "writable_memarray<24 bytes>", 24, true }, { "memview", 1, false }, { "sysarg<string_view>", 1, false }, { "copy_into_arena_unsafe", 1, true } };
struct Layout { u64 size, ro, da; };
static const std::vector<Layout> layouts = { { 0x6000, 0x1000, 0x4000 }, { 0x3000 - 8, 0x1230, 0x2345 }, { 0x2001, 1, 0x2000 }, { 0x5000, 0x3000, 0x3000 }, { 0x1040, 0, 0 } };
struct World { Box b; std::vector<uint8_t> model, buf, img; Layout l;
	World(Layout l_) : b(l_.size, l_.ro, l_.da), l(l_) { model.resize(l.size + 64); for (u64 i = 0; i < model.size(); i++) model[i] = 1 + (i * 7 + i / 251) % 255; memcpy(b.arena, model.data(), model.size()); buf.resize(0x8000); img.resize(0x8000); for (size_t i = 0; i < img.size(); i++) img[i] = 0x80 ^ (i * 11); }
	bool intact() const { return memcmp(b.arena, model.data(), model.size()) == 0; } };
static World& world(int k) { static std::unique_ptr<World> w[8]; if (!w[k]) w[k] = std::make_unique<World>(layouts[k]); return *w[k]; }

static bool one(Ctx& c, World& w, int o, u64 a, u64 n) {
	auto& M = w.b.m->memory; const Op& op = ops[o]; u64 lo = o == UNSAFE ? 0 : op.write ? w.l.da : w.l.ro; bool over = n > UINT64_MAX / op.esz; u64 len = n * op.esz;
	bool inside = !over && a >= lo && a <= w.l.size && len <= w.l.size - a; bool free_choice = n == 0 && !(a >= lo && a < w.l.size);
	auto bad = [&](const string& d) { c.fail(op.name, fmt("%s(%#lx, %#lx) with memory [%#lx,%#lx) writable from %#lx: %s", op.name, (long)a, (long)n, (long)w.l.ro, (long)w.l.size, (long)w.l.da, d.c_str())); memcpy(w.b.arena, w.model.data(), w.model.size()); return false; };
	c.at("%s(%#lx, %#lx)", op.name, (long)a, (long)n); c.transitions();
	int ex = -1; const void* p = nullptr; int cmp = 0; memset(w.buf.data(), 0xEE, 0x80); bool small = len <= 0x7000 && !over; if (small && (o == COPY_FROM)) memset(w.buf.data(), 0xEE, len + 0x40);
	// ranges that must be refused are refused before the host buffer is touched
	u64 other = w.l.ro; 
	try { switch (o) {
		case COPY_TO: M.copy_to_guest(a, w.img.data(), n); break;
		case COPY_FROM: M.copy_from_guest(w.buf.data(), a, n); break;
		case MEMSET: M.memset(a, 0, n); break;
		case MEMCMP1: if (inside && len > w.l.size - other) return true; cmp = M.memcmp(a, other, n); break;
		case MEMCMP2: if (inside && len > w.l.size - other) return true; cmp = M.memcmp(other, a, n); break;
		case ARR1: p = M.memarray<uint8_t>(a, n); break; case ARR2: p = M.memarray<uint16_t>(a, n); break; case ARR8: p = M.memarray<u64>(a, n); break; case ARR24: p = M.memarray<S24>(a, n); break; case ARR3: p = M.memarray<S3>(a, n); break;
		case WARR1: p = M.writable_memarray<uint8_t>(a, n); break; case WARR8: p = M.writable_memarray<u64>(a, n); break; case WARR24: p = M.writable_memarray<S24>(a, n); break;
		case VIEW: { auto v = M.memview(a, n); p = v.data(); if (v.size() != n) return bad("view has another length"); break; }
		case SYSVIEW: { w.b.m->cpu.reg(5) = a; w.b.m->cpu.reg(6) = n; auto v = w.b.m->sysarg<std::string_view>(1); p = v.data(); if (v.size() != n) return bad("view has another length"); break; }
		case UNSAFE: M.copy_into_arena_unsafe(a, w.img.data(), n); break;
	} } catch (const MachineException& e) { ex = e.type(); } catch (const std::exception& e) { ex = 100; }
	if (ex >= 0 && ex != PROTECTION_FAULT) return bad(fmt("exception %d", ex));
	if (ex >= 0 && inside && !free_choice) return bad("refused, although all of it lies inside"); if (ex < 0 && !inside && !free_choice) return bad("accepted, although not all of it lies inside");
	if (ex < 0 && inside) {
		if (p && p != w.b.arena + a) return bad("points somewhere else");
		if (o == COPY_FROM) { if (memcmp(w.buf.data(), w.model.data() + a, len)) return bad("copied wrong bytes"); if (w.buf[len] != 0xEE) return bad("wrote behind the buffer"); }
		if (o == MEMCMP1 || o == MEMCMP2) { int e = memcmp(w.model.data() + a, w.model.data() + other, len); if (o == MEMCMP2) e = -e; if ((cmp > 0) != (e > 0) || (cmp < 0) != (e < 0)) return bad(fmt("result %d, expected sign %d", cmp, e)); }
		if (o == COPY_TO || o == UNSAFE || o == MEMSET) { if (len) { bool ok = o == MEMSET ? true : memcmp(w.b.arena + a, w.img.data(), len) == 0; if (o == MEMSET) for (u64 i = 0; i < len && ok; i++) ok = w.b.arena[a + i] == 0; if (!ok) return bad("wrong bytes written"); memcpy(w.b.arena + a, w.model.data() + a, len); } }
		c.nontrivial();
	} else if (o == COPY_FROM && w.buf[0] != 0xEE) return bad("refused, but the buffer has changed");
	if (!w.intact()) return bad("changed bytes outside the range"); return true;
}
int main(int argc, char** argv) {
	Check chk(argc, argv, "C02");
	chk.rule("every operation x every start address and length with both ends at each boundary (0, start of readable, start of writable, end of memory, end of the guard tail, 2^32, 2^63, 2^64) +-9 and every element count around the multiples that overflow 64 bits, in 5 memory layouts; all start addresses x all lengths near the end exhaustively; strings with the terminator at every position around the limits: accepted exactly when inside, exact bytes, nothing else changed");
	chk.assume("empty ranges outside readable memory may be accepted or refused");
	chk.section("boundaries", [](Ctx& c) {
		int k = c.choose(layouts.size(), "layout"); int o = c.choose(NOPS, "operation"); auto& w = world(k); auto& l = w.l; c.crash_key(fmt("boundaries:%s", ops[o].name));
		std::vector<u64> edge = { 0, l.ro, l.da, l.size, l.size + 64, (l.ro + l.size) / 2, 1ull << 32, 1ull << 63, 0 }, pts; for (u64 e : edge) for (int d = -9; d <= 9; d++) pts.push_back(e + d);
		std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
		u64 esz = ops[o].esz; std::vector<u64> extra = { 0, 1, 2, 3, 63, 64, 65, 0x100, 1ull << 31, 1ull << 32, 1ull << 40, 1ull << 62, 1ull << 63, UINT64_MAX, UINT64_MAX - 1 }; for (u64 q : std::vector<u64>{ UINT64_MAX / esz, (1ull << 63) / esz, (1ull << 32) / esz, UINT64_MAX / esz / 2 }) for (int d = -2; d <= 3; d++) extra.push_back(q + d); for (u64 d = 0; d <= 40; d++) extra.push_back(0 - d);
		for (u64 a : pts) { c.state(mix(a, o * 8 + k)); for (u64 e : pts) { u64 len = e - a; if (!one(c, w, o, a, len / esz)) return; if (esz > 1 && (!one(c, w, o, a, len / esz + 1) || !one(c, w, o, a, (0 - a) / esz + e / esz))) return; } for (u64 n : extra) if (!one(c, w, o, a, n)) return; }
		// element counts whose product wraps to a small number
		if (esz > 1) for (u64 a : pts) for (u64 wrap = 0; wrap <= 64; wrap++) { __uint128_t t = ((__uint128_t)1 << 64) + wrap; if (t % esz) continue; if (!one(c, w, o, a, (u64)(t / esz))) return; }
		c.traces(); if (c.want_sample()) c.sample(fmt("%s in layout %d", ops[o].name, k));
	}, { .split_depth = 2, .timeout_s = 200 });
	chk.section("near-end", [](Ctx& c) {
		int k = c.choose(layouts.size(), "layout"); int o = c.choose(NOPS, "operation"); auto& w = world(k); c.crash_key(fmt("near-end:%s", ops[o].name)); int W = c.thorough() ? 700 : 140;
		for (u64 base : { w.l.size, w.l.ro, w.l.da }) for (int d = -W; d <= W; d++) { u64 a = base + d; c.state(mix(a, o * 8 + k)); for (int n = 0; n <= W; n++) if (!one(c, w, o, a, n)) return; } c.traces();
	}, { .split_depth = 2, .timeout_s = 400 });
	chk.section("typed", [](Ctx& c) {      // single values: checked by their start address, the guard tail absorbs the rest
		int k = c.choose(layouts.size(), "layout"); auto& w = world(k); auto& M = w.b.m->memory; c.crash_key("typed");
		auto sweep = [&](auto zero, const char* t) { using T = decltype(zero); std::vector<u64> pts; for (u64 e : { (u64)0, w.l.ro, w.l.da, w.l.size, w.l.size + 64, (u64)1 << 32, (u64)1 << 63 }) for (int d = -80; d <= 80; d++) pts.push_back(e + d);
			for (u64 a : pts) for (int wr = 0; wr < 2; wr++) { c.at("%s %s at %#lx", wr ? "write" : "read", t, (long)a); c.transitions(); c.state(mix(a, sizeof(T) * 2 + wr)); u64 lo = wr ? w.l.da : w.l.ro; bool inside = a >= lo && a <= w.l.size - sizeof(T), outside = a < lo || a >= w.l.size; int ex = -1; T v; memset(&v, 0, sizeof v);
				try { if (wr) M.write<T>(a, v); else v = M.read<T>(a); } catch (const MachineException& e) { ex = e.type(); } string d;
				if (inside && ex >= 0) d = "refused"; if (outside && ex != PROTECTION_FAULT) d = "accepted"; if (inside && ex < 0 && !wr && memcmp(&v, w.model.data() + a, sizeof v)) d = "wrong value"; if (ex < 0 && wr && !outside) { if (memcmp(w.b.arena + a, &v, sizeof v)) d = "not written"; memcpy(w.b.arena + a, w.model.data() + a, sizeof v); } if (!w.intact()) { d += " changed other bytes"; memcpy(w.b.arena, w.model.data(), w.model.size()); }
				if (!d.empty()) { c.fail(fmt("typed:%s %s", wr ? "write" : "read", t), fmt("%s %s at %#lx (memory [%#lx,%#lx), writable from %#lx): %s", wr ? "write" : "read", t, (long)a, (long)w.l.ro, (long)w.l.size, (long)w.l.da, d.c_str())); return; } } };
		sweep((uint8_t)0, "u8"); sweep((uint16_t)0, "u16"); sweep((uint32_t)0, "u32"); sweep((u64)0, "u64"); sweep(S24{}, "24 bytes"); sweep(std::array<u64, 4>{}, "32 bytes"); c.traces(); c.nontrivial();
	}, { .split_depth = 1, .timeout_s = 100 });
	chk.section("strings", [](Ctx& c) {
		int k = c.choose(layouts.size(), "layout"); auto& w = world(k); auto& M = w.b.m->memory; auto& l = w.l; c.crash_key("strings"); int what = c.choose(5, "function"); static const char* names[] = { "strlen", "memstring", "sysarg<string>", "strlen (default limit)", "GuestStdString-like view" };
		std::vector<u64> starts; for (u64 e : { (u64)0, l.ro, l.da, (l.ro + l.size) / 2, l.size, l.size + 64, (u64)1 << 32, (u64)1 << 63 }) for (int d = -20; d <= 20; d++) starts.push_back(e + d); if (l.size > 4200) for (int d = -3; d <= 3; d++) starts.push_back(l.size - 4096 + d);
		for (u64 a : starts) for (int tz : { -1, 0, 1, 2, 7, 8, 15, 19, 20, 21, 4094, 4095, 4096, 4097 }) {
			bool in = a >= l.ro && a < l.size; u64 z = a + tz; bool zero = tz >= 0 && in && z < l.size + 64; uint8_t keep = 0; if (zero) { keep = w.b.arena[z]; w.b.arena[z] = 0; }
			std::vector<u64> lim = { 0, 1, 2, 7, 8, 9, 20, 21, 4095, 4096, 4097, 1ull << 31, 1ull << 32, 1ull << 63, UINT64_MAX, UINT64_MAX - 1, 0 - a, 0 - a - 1, 0 - a + 1, l.size - a, l.size - a + 1, l.size - a - 1 }; if (what == 2 || what == 3) lim = { 4096 };
			for (u64 n : lim) { if (what == 4) { n = n & 31; } c.at("%s(%#lx, %#lx)", names[what], (long)a, (long)n); c.transitions(); c.state(mix(a, tz * 7 + what)); int ex = -1; u64 got = 0; string s;
				try { if (what == 0) got = M.strlen(a, n); else if (what == 1) { s = M.memstring(a, n); got = s.size(); } else if (what == 2) { w.b.m->cpu.reg(4) = a; s = w.b.m->sysarg<std::string>(0); got = s.size(); } else if (what == 3) got = M.strlen(a); else { auto v = M.memview(a, n); s = string(v); got = s.size(); } } catch (const MachineException& e) { ex = e.type(); } catch (const std::exception&) { ex = 100; }
				string d; u64 room = in ? l.size - a : 0; u64 want = what == 4 ? n : std::min(n, room); if (what != 4 && tz >= 0 && zero && (u64)tz < want) want = tz; bool must_throw = !in && n != 0 && !(a == l.size && what != 4) ; if (what == 4 && in && n > room) must_throw = true;
				if (ex >= 0 && ex != PROTECTION_FAULT) d = fmt("exception %d", ex); else if (must_throw && ex < 0) d = fmt("accepted, result %lu", (long)got); else if (in && !must_throw && ex >= 0) d = "refused"; else if (in && ex < 0) { if (got != want) d = fmt("length %lu, expected %lu", (long)got, (long)want); else if (what != 0 && what != 3 && memcmp(s.data(), w.b.arena + a, got)) d = "wrong text"; }
				if (!d.empty()) { c.fail(fmt("strings:%s", names[what]), fmt("%s(%#lx, limit %#lx), terminator after %d, memory [%#lx,%#lx): %s", names[what], (long)a, (long)n, tz, (long)l.ro, (long)l.size, d.c_str())); if (zero) w.b.arena[z] = keep; return; } }
			if (zero) w.b.arena[z] = keep; } c.traces(); c.nontrivial(); if (!w.intact()) c.fail("strings:changed", "memory changed");
	}, { .split_depth = 2, .timeout_s = 200 });
	// values pushed for a guest call: the stack grows down from every address around the start of writable memory
	chk.section("stack-push", [](Ctx& c) {
		int k = c.choose(layouts.size(), "layout"); auto& w = world(k); auto& l = w.l; auto& m = *w.b.m; c.crash_key("stack-push"); static u32 stop[16]; for (u32& x : stop) x = STOPW; m.cpu.init_execute_area(stop, 0x1000, sizeof stop); std::vector<u64> tops; for (u64 e : { l.da, l.size, (u64)64, (u64)0, (u64)1 << 63 }) for (int d = -96; d <= 96; d += 1) tops.push_back(e + d);
		for (u64 top : tops) for (size_t n : { 0, 1, 15, 16, 17, 24, 40, 64 }) for (int kind = 0; kind < 2; kind++) { c.at("push of %zu bytes at %#lx", n, (long)top); c.transitions(); c.state(mix(top, n * 2 + kind)); m.memory.set_stack_address(top); int ex = -1; string arg(n, 'x'); for (int i = 0; i < 12; i++) m.cpu.reg(i) = 0; S24 st{ 1, 2, 3 };
			try { if (kind == 0) m.timed_vmcall(0x1000, 10, arg); else m.timed_vmcall(0x1000, 10, st); } catch (const MachineException& e) { ex = e.type(); } size_t len = kind == 0 ? n + 1 : sizeof st, al = (len + 15) & ~15ul; u64 a = top - al; bool inside = a >= l.da && a <= l.size && len <= l.size - a; string d;
			if (ex >= 0 && ex != PROTECTION_FAULT) d = fmt("exception %d", ex); else if ((ex < 0) != inside) d = inside ? "refused" : "accepted"; else if (ex < 0) { u64 p = m.cpu.reg(4); const void* src = kind == 0 ? (const void*)arg.c_str() : &st; if (p < l.da || p + len > l.size || p + len > top) d = fmt("pushed at %#lx", (long)p); else if (memcmp(w.b.arena + p, src, len)) d = "wrong bytes"; else if (m.cpu.reg(3) > p || (m.cpu.reg(3) & 15)) d = fmt("stack pointer %#lx", (long)m.cpu.reg(3)); else memcpy(w.b.arena + p, w.model.data() + p, len); }
			if (!w.intact() && d.empty()) d = "changed other bytes"; if (!d.empty()) { memcpy(w.b.arena, w.model.data(), w.model.size()); c.fail("stack-push", fmt("pushing %zu bytes below %#lx (writable [%#lx,%#lx)): %s", len, (long)top, (long)l.da, (long)l.size, d.c_str())); return; } }
		c.traces(); c.nontrivial();
	}, { .split_depth = 1, .timeout_s = 100 });
	return chk.finish();
}
