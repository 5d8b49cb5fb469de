// Runs single instructions on the real interpreter and on the reference model and
// compares everything: registers, vector registers, condition flags, memory, exceptions.
#pragma once
#include "vp.hpp"
#include "ref_isa.hpp"
#include <libloong/machine.hpp>
#include <memory>
#include <string>
#include <vector>
#include <sys/mman.h>

namespace isa {
using namespace vp; using std::string;
using namespace loongarch;
using u64 = uint64_t; using i64 = int64_t; using u32 = uint32_t;

enum Mode { STEP, SIM, FAST, NMODES };
inline const char* mode_name(int m) { static const char* n[] = { "step", "simulate", "simulate_inaccurate" }; return n[m]; }
constexpr u32 STOPW = 0x00150000;               // or zero, zero, zero
constexpr u32 B0 = 0x50000000;                  // b 0

struct Box : ref::Mem {
	u64 size, rodata, data, code;
	std::shared_ptr<MachineOptions> opt;
	std::unique_ptr<Machine> m;
	uint8_t* arena; std::vector<uint8_t> shadow, pristine; bool stored = false; // pristine: memory every run starts from
	explicit Box(u64 size_ = 0x6000, u64 rodata_ = 0x1000, u64 data_ = 0x4000) : size(size_), rodata(rodata_), data(data_), code(rodata_) {
		opt = std::make_shared<MachineOptions>(); opt->use_shared_execute_segments = false;
#ifdef LA_BINARY_TRANSLATION
		opt->translate_enabled = false;
#endif
		m = std::make_unique<Machine>(std::string_view{}, *opt); m->set_options(opt);
		m->memory.allocate_custom_arena(size, rodata, data);
		arena = const_cast<uint8_t*>(m->memory.arena_ptr()); shadow.assign(size + 64, 0);
		for (unsigned i = 0; i < LA_SYSCALLS_MAX; i++) Machine::install_syscall_handler(i, [](Machine&) { throw MachineException(UNIMPLEMENTED_SYSCALL, "syscall"); });
		Machine::set_unknown_syscall_handler([](Machine&, int) { throw MachineException(UNIMPLEMENTED_SYSCALL, "syscall"); });
		for (u64 i = data; i < size + 64; i++) arena[i] = (uint8_t)(i * 37 + (i >> 8) * 101 + 11);
		memcpy(shadow.data(), arena, size + 64); pristine = shadow;
	}
	explicit Box(std::nullptr_t) : size(0), rodata(0), data(0), code(0), arena(nullptr) {} // the owner sets it up
	void poke(u64 a, const void* p, size_t n) { memcpy(arena + a, p, n); memcpy(shadow.data() + a, p, n); memcpy(pristine.data() + a, p, n); }
	size_t capacity() const { return (data - code) / 16; }
	u64 addr(size_t k) const { return code + 16 * k; }
	// slot k: [word, STOP, b 0, STOP]
	void load_words(const std::vector<u32>& w) {
		std::vector<u32> p; p.reserve(w.size() * 4); for (u32 x : w) { p.push_back(x); p.push_back(STOPW); p.push_back(B0); p.push_back(STOPW); }
		load_program(p);
	}
	void load_program(const std::vector<u32>& p, u64 at = 0) {
		if (!at) at = code;
		m->memory.evict_execute_segments();
		memcpy(arena + at, p.data(), p.size() * 4); memcpy(shadow.data() + at, p.data(), p.size() * 4);
		m->cpu.init_execute_area(p.data(), at, p.size() * 4);
	}
	// reference memory
	void load(u64 a, void* p, unsigned n) override { if (a < rodata || a >= size) throw ref::Fault{a}; memcpy(p, shadow.data() + a, n); }
	void store(u64 a, const void* p, unsigned n) override { if (a < data || a >= size) throw ref::Fault{a}; memcpy(shadow.data() + a, p, n); stored = true; }

	void set(const ref::State& s) {
		auto& r = m->cpu.registers();
		for (int i = 0; i < 32; i++) r.get(i) = s.r[i];
		for (int i = 0; i < 32; i++) memcpy(&r.getvr(i), &s.v[i], 32);
		for (int i = 0; i < 8; i++) r.set_cf(i, s.cf[i]);
		r.set_fcsr(s.fcsr); r.pc = s.pc; m->cpu.set_ll_bit(s.ll);
	}
	// -1: no exception, otherwise the exception type; 100: other C++ exception
	int run(int mode, u64 pc, u64 max = UINT64_MAX) {
		try {
			m->cpu.registers().pc = pc;
			if (mode == STEP) m->cpu.step_one(false);
			else if (mode == SIM) m->cpu.simulate(pc, 0, max);
			else m->cpu.simulate_inaccurate(pc);
			return -1;
		} catch (const MachineException& e) { return (int)e.type(); }
		catch (const std::exception& e) { return 100; }
	}
	bool mem_same() const { return memcmp(arena + data, shadow.data() + data, size + 64 - data) == 0; }
	bool code_same() const { return memcmp(arena, shadow.data(), data) == 0; }
};

inline ref::State base_state() {
	ref::State s; memset(&s, 0, sizeof(s)); u64 x = 0x1234567;
	auto nx = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
	for (int i = 0; i < 50; i++) nx();
	for (int i = 1; i < 32; i++) s.r[i] = nx();
	for (int i = 0; i < 32; i++) { for (int k = 0; k < 4; k++) s.v[i].d[k] = nx(); s.vdef[i] = 256; }
	for (int i = 0; i < 8; i++) s.cf[i] = i & 1;
	return s;
}

inline bool same_f32(u32 a, u32 b, const ref::Lax& l) {
	if (a == b) return true;
	if (l.nan32 && (a & 0x7fffffff) > 0x7f800000 && (b & 0x7fffffff) > 0x7f800000) return true;
	return l.zero_sign && !((a | b) & 0x7fffffff);
}
inline bool same_f64(u64 a, u64 b, const ref::Lax& l) {
	if (a == b) return true;
	if (l.nan64 && (a & ~(1ull << 63)) > 0x7ff0000000000000ull && (b & ~(1ull << 63)) > 0x7ff0000000000000ull) return true;
	return l.zero_sign && !((a | b) & ~(1ull << 63));
}
// what differs between the machine and the expected state ("" = nothing)
inline string diff(Box& b, const ref::State& e, const ref::Lax& l, u32 fcsr_mask, int skip_r = -1, int skip_v = -1) {
	auto& r = b.m->cpu.registers();
	for (int i = 0; i < 32; i++) if (i != skip_r || i == 0) if (r.get(i) != e.r[i]) return fmt("r%d=%#lx, expected %#lx", i, (long)r.get(i), (long)e.r[i]);
	for (int i = 0; i < 32; i++) if (i != skip_v) {
		auto& v = r.getvr(i); const auto& x = e.v[i];
		if (memcmp(&v, &x, e.vdef[i] / 8) == 0) continue;
		if (l.nan32 && !(l.nan64)) { bool ok = true; for (int k = 0; k < std::max(1, e.vdef[i] / 32); k++) if (!same_f32(v.wu[k], x.w[k], l)) { ok = false; return fmt("v%d lane w%d=%#x, expected %#x", i, k, v.wu[k], x.w[k]); } if (ok) continue; }
		if (l.nan64) { bool ok = true; for (int k = 0; k < std::max(1, e.vdef[i] / 64); k++) if (!same_f64(v.du[k], x.d[k], l)) { ok = false; return fmt("v%d lane d%d=%#lx, expected %#lx", i, k, (long)v.du[k], (long)x.d[k]); } if (ok) continue; }
		for (int k = 0; k < e.vdef[i] / 32; k++) if (v.wu[k] != x.w[k]) return fmt("v%d word %d=%#x, expected %#x", i, k, v.wu[k], x.w[k]);
		return fmt("v%d differs", i);
	}
	for (int i = 0; i < 8; i++) if (!!r.cf(i) != !!e.cf[i]) return fmt("fcc%d=%d, expected %d", i, r.cf(i), e.cf[i]);
	if ((r.fcsr() ^ e.fcsr) & fcsr_mask) return fmt("fcsr=%#x, expected %#x", r.fcsr(), e.fcsr);
	if (b.m->cpu.ll_bit() != e.ll) return fmt("ll bit=%d, expected %d", b.m->cpu.ll_bit(), e.ll);
	return "";
}

struct OpCase {       // one instruction word resolved
	const ref::Op* op; bool mem; ref::Lax lax; u32 fcsr_mask;
	explicit OpCase(const ref::Op* o) : op(o), mem(ref::is_mem(o)), lax(ref::lax(o)) { bool fp = o->name[0] == 'f' || !strncmp(o->name, "vf", 2) || !strncmp(o->name, "xvf", 3); fcsr_mask = fp ? 0x31f : ~0u; }
};
inline string regs_text(const ref::Op* op, u32 w, const ref::State& s) {
	string t; for (auto& f : ref::fields(op)) { int n = (int)ref::get(w, f);
		if (f.kind == 'r') t += fmt(" r%d=%#lx", n, (long)s.r[n]); else if (f.kind == 'f') t += fmt(" f%d=%#lx", n, (long)s.v[n].d[0]);
		else if (f.kind == 'v') t += fmt(" v%d=%016lx_%016lx", n, (long)s.v[n].d[1], (long)s.v[n].d[0]); else if (f.kind == 'x') t += fmt(" x%d=%016lx_%016lx_%016lx_%016lx", n, (long)s.v[n].d[3], (long)s.v[n].d[2], (long)s.v[n].d[1], (long)s.v[n].d[0]);
		else t += fmt(" imm=%d", n); }
	return t;
}
// run word w (already loaded at slot k) from state s in all modes, compare with the reference
inline bool check_one(Ctx& c, Box& b, const OpCase& oc, u32 w, size_t k, ref::State s, const string& key = "") {
	bool good = true; s.pc = b.addr(k);
	ref::State e = s; b.stored = false;
	ref::Result res = ref::exec_op(e, oc.op, w, b, oc.mem);
	if (res == ref::NOREF) { c.fail(string("no-reference:") + oc.op->name, "the check has no reference for this instruction"); return false; }
	for (int mode = 0; mode < NMODES; mode++) {
		b.set(s); int ex = b.run(mode, s.pc); c.transitions(); c.traces();
		string d;
		if (res == ref::FAULTED) { if (ex != PROTECTION_FAULT) d = ex < 0 ? "no exception, expected a protection fault" : fmt("exception %d, expected a protection fault", ex); else d = diff(b, e, oc.lax, oc.fcsr_mask); }
		else if (res == ref::OK) { if (ex >= 0) d = fmt("raised exception %d", ex); else { d = diff(b, e, oc.lax, oc.fcsr_mask); if (d.empty() && mode == STEP && b.m->cpu.pc() != e.pc) d = fmt("pc=%#lx, expected %#lx", (long)b.m->cpu.pc(), (long)e.pc);  if (d.empty() && mode != STEP && !ref::is_branch(oc.op) && e.pc == s.pc + 4 && w != 0x00150000 && b.m->cpu.pc() != s.pc + 8) d = fmt("stopped at pc=%#lx, expected to stop at the next instruction", (long)b.m->cpu.pc()); } }
		else if (res == ref::UNDEF) { if (ex < 0) { auto u = s; u.ll = b.m->cpu.ll_bit(); d = diff(b, u, oc.lax, oc.fcsr_mask, w & 31, w & 31); } }
		else { if (ex < 0) d = "no exception for a trapping instruction"; }
		if (oc.mem) {
			if (d.empty() && res != ref::UNDEF && !b.mem_same()) { u64 a = b.data; while (a < b.size + 64 && b.arena[a] == b.shadow[a]) a++; d = fmt("memory at %#lx is %#x, expected %#x", (long)a, b.arena[a], b.shadow[a]); }
			memcpy(b.arena + b.data, b.pristine.data() + b.data, b.size + 64 - b.data);
		}
		if (!d.empty()) { good = false; c.fail(key.empty() ? fmt("%s:%s", oc.op->name, mode_name(mode)) : key, fmt("%s word %#010x%s (%s): %s", oc.op->name, w, regs_text(oc.op, w, s).c_str(), mode_name(mode), d.c_str())); }
	}
	if (oc.mem) memcpy(b.shadow.data() + b.data, b.arena + b.data, b.size + 64 - b.data);
	return good;
}

// the instructions the library supports (fixed list, one per line in supported.inc)
inline const std::vector<string>& supported() { static const std::vector<string> v = {
#include "supported.inc"
	}; return v; }
enum Class { INTEGER, MEMORY, BRANCH, FLOAT, VECTOR, OTHER };
inline Class classify(const ref::Op* op) {
	string n = op->name; if (ref::is_mem(op)) return MEMORY; if (ref::is_branch(op)) return BRANCH;
	if (n[0] == 'v' || n.substr(0, 2) == "xv") return VECTOR;
	if (n[0] == 'f' || n.substr(0, 3) == "mov") return FLOAT;
	if (n == "syscall" || n == "break" || n == "dbcl" || n.substr(0, 6) == "rdtime" || n == "cpucfg") return OTHER;
	return INTEGER;
}
} // namespace isa
