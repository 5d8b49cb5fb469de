// Enumerates, for one instruction, every combination of encoding fields and operand
// values of a bounded domain and compares every execution with the reference.
#pragma once
#include "isa.hpp"
namespace isa {
struct Values { std::vector<u64> full, small, tiny; };   // values for one source register
inline const Values& int_values(bool thorough) {
	static const Values q = [] { Values v;
		v.full = { 0, 1, 2, 3, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, ~0ull, ~1ull, 0xffffffff80000000, 0xffffffff7fffffff, 0x0123456789abcdef, 0xfedcba9876543210, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0xdeadbeefcafebabe, 0x80017ffe8001fffe };
		v.small = { 0, 1, 33, 64, 0x80000000, 0x7fffffff, ~0ull, 0x8000000000000000, 0x0123456789abcdef, 0xfedcba9876543210 };
		v.tiny = { 0x8123456789abcdef, 0xfffffffffffffffe, 5 }; return v; }();
	static const Values t = [] { Values v = q; for (int i = 0; i < 64; i++) { v.full.push_back(1ull << i); v.full.push_back((1ull << i) - 1); v.full.push_back(~((1ull << i) - 1)); } for (int i = 0; i < 256; i += 5) v.full.push_back(i);
		std::sort(v.full.begin(), v.full.end()); v.full.erase(std::unique(v.full.begin(), v.full.end()), v.full.end()); return v; }();
	return thorough ? t : q;
}
inline const std::vector<u64>& f32_values() { static const std::vector<u64> v = { 0, 0x80000000, 1, 0x80000001, 0x007fffff, 0x00800000, 0x00800001, 0x3f800000, 0xbf800000, 0x3f800001, 0x40000000, 0xc0400000, 0x3f000000, 0x3effffff, 0x3fc00000, 0xbfc00000, 0x40200000, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7fc12345, 0x7f800001, 0xff812345, 0x4effffff, 0x4f000000, 0xcf000000, 0xcf000001, 0x4f800000, 0x5effffff, 0x5f000000, 0xdf000000, 0xdf000001, 0x4b7fffff, 0x34000000, 0x33800000, 0x0c123456, 0x42280000 }; return v; }
inline const std::vector<u64>& f64_values() { static const std::vector<u64> v = { 0, 0x8000000000000000, 1, 0x8000000000000001, 0x000fffffffffffff, 0x0010000000000000, 0x3ff0000000000000, 0xbff0000000000000, 0x3ff0000000000001, 0x4000000000000000, 0xc008000000000000, 0x3fe0000000000000, 0x3fdfffffffffffff, 0x3ff8000000000000, 0xbff8000000000000, 0x4004000000000000, 0x7fefffffffffffff, 0xffefffffffffffff, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000000, 0x7ff8000000012345, 0x7ff0000000000001, 0xfff0000000012345, 0x41dfffffffc00000, 0x41dfffffffffffff, 0x41e0000000000000, 0xc1e0000000000000, 0xc1e0000000200000, 0xc1e00000001fffff, 0x41efffffffe00000, 0x43dfffffffffffff, 0x43e0000000000000, 0xc3e0000000000000, 0xc3e0000000000001, 0x47efffffe0000000, 0x47efffffefffffff, 0x47effffff0000000, 0x3690000000000000, 0x3680000000000000, 0x36a0000000000001, 0x380fffffffffffff, 0x3810000000000000, 0x4330000000000001, 0x3cb0000000000000, 0x3ca0000000000000 }; return v; }
// fill a vector register: lane k of width `bits` gets values[(k*step + start) % n]
inline ref::V256 lanes_of(const std::vector<u64>& vals, int bits, unsigned start, unsigned step) { ref::V256 v; for (int k = 0; k < 256 / bits; k++) { u64 x = vals[(k * step + start) % vals.size()]; memcpy(v.b + k * bits / 8, &x, bits / 8); } return v; }

// element width an instruction works with, and whether as floating point
inline int elem_bits(const string& n) { auto p = n.find('.'); if (n == "xvpermi.q" || n == "xvreplve0.q") return 64; if (p == string::npos) return 8; char c = 0; string s = n.substr(p + 1); auto q = s.rfind('.'); string l = q == string::npos ? s : s.substr(q + 1); c = l[0]; return c == 'b' || c == 'v' ? 8 : c == 'h' ? 16 : c == 'w' || c == 's' ? 32 : 64; }
inline bool fp_elem(const string& n) { return n.substr(0, 2) == "vf" && n.substr(0, 6) != "vfrstp" && n.find("ffint") == string::npos || n.substr(0, 3) == "xvf" && n.substr(0, 7) != "xvfrstp" && n.find("ffint") == string::npos; }
inline std::vector<u64> lane_values(const string& n, bool thorough) {
	int b = elem_bits(n);
	if (fp_elem(n)) { bool s = n.size() > 2 && n.substr(n.size() - 2) == ".s"; std::vector<u64> v = s ? f32_values() : f64_values(); return v; }
	u64 mx = b == 64 ? ~0ull : (1ull << b) - 1, sg = 1ull << (b - 1); std::vector<u64> v = { 0, 1, 2, 3, sg, sg - 1, sg + 1, mx, mx - 1, mx / 3, (u64)b - 1, (u64)b, 5, 16, 17, 31, mx / 5 * 2, 0x123456789abcdef1ull & mx, 0xfedcba9876543210ull & mx };
	if (thorough) for (int i = 0; i < b; i++) { v.push_back(1ull << i); v.push_back(~(1ull << i) & mx); }
	return v;
}

struct Sweep {
	Ctx& c; Box& b; OpCase oc; std::vector<ref::Field> regs, imms; bool thorough; string name;
	Sweep(Ctx& c_, Box& b_, const ref::Op* op) : c(c_), b(b_), oc(op), thorough(c_.thorough()), name(op->name) { for (auto& f : ref::fields(op)) if (strchr("rfvxckq", f.kind)) regs.push_back(f); else imms.push_back(f); }
	u32 word(const std::vector<int>& rg, const std::vector<i64>& im) const { u32 w = oc.op->match; for (size_t i = 0; i < regs.size(); i++) w = ref::put(w, regs[i], rg[i]); for (size_t i = 0; i < imms.size(); i++) w = ref::put(w, imms[i], im[i]); return w; }
	// all immediates if there are at most `cap`, otherwise a boundary subset of every field
	std::vector<std::vector<i64>> immediates(u64 cap) const {
		u64 total = 1; for (auto& f : imms) total <<= ref::width(f); std::vector<std::vector<i64>> per;
		for (auto& f : imms) { std::vector<i64> v; u64 n = 1ull << ref::width(f); if (total <= cap) for (u64 i = 0; i < n; i++) v.push_back(i); else { for (u64 i : std::initializer_list<u64>{ 0ul, 1ul, 2ul, 3ul, n / 2 - 1, n / 2, n / 2 + 1, n - 1, n - 2, n / 3, n / 5, n / 3 * 2 }) v.push_back(i % n); if (cap >= 256) for (u64 i = 4; i < n; i *= 2) { v.push_back(i); v.push_back(i - 1); v.push_back((n - i) % n); } std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); } per.push_back(v); }
		std::vector<std::vector<i64>> r{{}}; for (auto& v : per) { std::vector<std::vector<i64>> q; for (auto& p : r) for (i64 x : v) { q.push_back(p); q.back().push_back(x); } r = q; }
		if (r.size() > cap * 8 && cap < 256) { std::vector<std::vector<i64>> q; for (size_t i = 0; i < r.size(); i += r.size() / (cap * 4) + 1) q.push_back(r[i]); r = q; }
		return r;
	}
	int canon(size_t i) const { static const int g[] = { 5, 6, 7, 8 }; return regs[i].kind == 'c' || regs[i].kind == 'q' || regs[i].kind == 'k' ? std::min((int)(1 << ref::width(regs[i])) - 1, 3 - (int)i) & 7 : g[i]; }
	// operand domain of register field i (size, and assignment of value j)
	size_t domain(size_t i, int level) const {
		switch (regs[i].kind) { case 'r': { auto& v = int_values(thorough); return level == 0 ? v.full.size() : level == 1 ? v.small.size() : v.tiny.size(); }
		case 'f': return level == 0 ? fvals().size() : level == 1 ? (fvals().size() + 3) / 4 : 3;
		case 'v': case 'x': { size_t n = lane_values(name, thorough).size(); return level == 0 ? n : level == 1 ? 7 : 2; } case 'c': return 2; default: return 1; }
	}
	const std::vector<u64>& fvals() const { static std::vector<u64> both = [] { auto v = f64_values(); for (u64 x : f32_values()) v.push_back(0xffffffff00000000ull | x); return v; }(); static std::vector<u64> ints = int_values(false).full;
		if (name.substr(0, 5) == "ffint") return ints; auto e = name.size() > 2 ? name.substr(name.size() - 2) : ""; if (name == "fcvt.d.s" || (e == ".s")) { static std::vector<u64> s = [] { std::vector<u64> v; u64 k = 0x1111111100000000ull; for (u64 x : f32_values()) { v.push_back(k | x); k ^= 0x2222222200000000ull; } return v; }(); return s; }
		return e == ".d" ? f64_values() : both; }
	void assign(ref::State& s, size_t i, int reg, size_t j, int level) const {
		if (level == 1 && regs[i].kind != 'r') j = j * (regs[i].kind == 'f' ? 4 : 5) + 1; if (level == 2) j = j * 3 + 1;
		switch (regs[i].kind) { case 'r': { auto& v = int_values(thorough); if (reg) s.r[reg] = level == 0 ? v.full[j] : level == 1 ? v.small[j] : v.tiny[j % v.tiny.size()]; break; }
		case 'f': s.v[reg].d[0] = fvals()[j % fvals().size()]; break;
		case 'v': case 'x': { auto v = lane_values(name, thorough); s.v[reg] = lanes_of(v, elem_bits(name), j, 1 + 2 * i); break; }
		case 'c': s.cf[reg & 7] = j & 1; break; }
	}
	std::vector<u64> sources() const { return {}; }
	uint64_t fails0 = c.m_failcount; bool stop() const { return c.m_failcount - fails0 > 60; }
	void run_words(const std::vector<std::pair<std::vector<int>, std::vector<i64>>>& ws, int level, const ref::State& base) {
		for (size_t p = 0; p < ws.size() && !stop(); p += b.capacity()) {
			size_t n = std::min(b.capacity(), ws.size() - p); std::vector<u32> words; for (size_t k = 0; k < n; k++) words.push_back(word(ws[p + k].first, ws[p + k].second));
			b.load_words(words);
			for (size_t k = 0; k < n && !stop(); k++) operands(words[k], k, ws[p + k].first, level, base);
			if (!b.code_same()) { c.fail(name + ":code", name + ": memory outside the data area changed"); memcpy(b.arena, b.shadow.data(), b.data); }
			if (!b.mem_same()) { c.fail(name + ":memory", name + ": memory changed by an instruction that must not"); memcpy(b.arena, b.shadow.data(), b.size + 64); }
		}
	}
	void operands(u32 w, size_t k, const std::vector<int>& rg, int level, const ref::State& base) {
		// the destination (field 0) is a source too for some instructions: give it a few values
		std::vector<size_t> n(regs.size()), j(regs.size(), 0); u64 total = 1;
		for (size_t i = 0; i < regs.size(); i++) { n[i] = domain(i, level); if (level == 0 && regs.size() >= 3 && regs[i].kind != 'c') { if (i == 0) n[i] = std::min<size_t>(n[i], 2); else if (regs.size() > 3) n[i] = std::min<size_t>(n[i], 24); } total *= n[i]; }
		for (u64 t = 0; t < total; t++) {
			ref::State s = base; u64 x = t; for (size_t i = regs.size(); i-- > 0;) { j[i] = x % n[i]; x /= n[i]; }
			for (size_t i = 0; i < regs.size(); i++) assign(s, i, rg[i], j[i], level);
			check_one(c, b, oc, w, k, s); if (stop()) return;
		}
	}
	std::vector<int> canonical() const { std::vector<int> r; for (size_t i = 0; i < regs.size(); i++) r.push_back(canon(i)); return r; }
	enum { PARTS = 4 };
	void part(int p, const ref::State& base) {
		std::vector<std::pair<std::vector<int>, std::vector<i64>>> ws; auto can = canonical();
		if (p == 0) { for (auto& im : immediates(imms.empty() ? 1 : thorough ? 64 : 12)) ws.push_back({ can, im }); run_words(ws, 0, base); }            // operand values
		if (p == 1) { if (imms.empty()) return; for (auto& im : immediates(thorough ? 1 << 20 : 1 << 14)) ws.push_back({ can, im }); run_words(ws, imms.size() > 1 || thorough ? 2 : 1, base); } // every immediate
		if (p == 2) { // aliasing patterns
			auto ims = immediates(3); if (ims.size() > 4) { std::vector<std::vector<i64>> q; for (size_t i = 0; i < 4; i++) q.push_back(ims[i * (ims.size() - 1) / 3]); ims = q; }
			std::vector<int> rg(regs.size(), 0); u64 total = 1; for (size_t i = 0; i < regs.size(); i++) total *= (strchr("ckq", regs[i].kind) ? 2 : 4);
			for (u64 t = 0; t < total; t++) { u64 x = t; for (size_t i = 0; i < regs.size(); i++) { if (strchr("ckq", regs[i].kind)) { rg[i] = (x % 2) ? 5 & ((1 << ref::width(regs[i])) - 1) : 0; x /= 2; } else { static const int a[] = { 0, 9, 10, 31 }; rg[i] = a[x % 4]; x /= 4; } } for (auto& im : ims) ws.push_back({ rg, im }); }
			run_words(ws, regs.size() > 2 ? 2 : 1, base); }
		if (p == 3) { // every register number in every field
			auto ims = immediates(1); std::vector<i64> im = ims[ims.size() / 2]; u64 total = 1; bool all = thorough || regs.size() <= 2; for (auto& f : regs) total <<= ref::width(f);
			if (all && total <= (1 << 20)) { for (u64 t = 0; t < total; t++) { u64 x = t; std::vector<int> rg; for (auto& f : regs) { rg.push_back(x & ((1 << ref::width(f)) - 1)); x >>= ref::width(f); } ws.push_back({ rg, im }); } }
			else for (size_t i = 0; i < regs.size(); i++) for (size_t k = 0; k < regs.size(); k++) for (int a = 0; a < (1 << ref::width(regs[i])); a++) for (int d = 0; d < (1 << ref::width(regs[k])); d++) { auto rg = can; rg[i] = a; rg[k] = d; if (i == k && a != d) continue; if (i > k) continue; ws.push_back({ rg, im }); }
			run1(ws, base); }
	}
	void run1(const std::vector<std::pair<std::vector<int>, std::vector<i64>>>& ws, const ref::State& base) {
		for (size_t p = 0; p < ws.size() && !stop(); p += b.capacity()) {
			size_t n = std::min(b.capacity(), ws.size() - p); std::vector<u32> words; for (size_t k = 0; k < n; k++) words.push_back(word(ws[p + k].first, ws[p + k].second));
			b.load_words(words);
			for (size_t k = 0; k < n && !stop(); k++) { ref::State s = base; if (special) special(s, ws[p + k].first); check_one(c, b, oc, words[k], k, s); }
		}
	}
	std::function<void(ref::State&, const std::vector<int>&)> special;
};
} // namespace isa
