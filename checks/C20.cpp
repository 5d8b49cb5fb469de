// build: VARIANT=plain EXTRAOBJ=$(O)/ref_isa.o
// C20: every instruction word is executed as what it is, or refused.
#include "sweep.hpp"
using namespace isa;

// instructions without a reference here that the library implements: what they may do
enum Special { NONE, NOTHING, ANY_RD, ANY_RD_RJ, RAISES };
static Special special_of(const string& n) {
	if (n == "dbar" || n == "ibar" || n == "preld" || n == "preldx") return NOTHING;
	if (n == "cpucfg") return ANY_RD; if (n.substr(0, 6) == "rdtime") return ANY_RD_RJ;
	if (n == "syscall" || n == "break" || n == "dbcl") return RAISES;
	return NONE;
}
static bool refused(int ex) { return ex == ILLEGAL_OPCODE || ex == UNIMPLEMENTED_INSTRUCTION; }

static std::set<string>& supported_set() { static std::set<string> s(supported().begin(), supported().end()); return s; }

static void words(Ctx& c, Box& b, const std::vector<u32>& ws, const std::vector<uint8_t>& pristine) {
	b.load_words(ws);
	std::vector<uint8_t> code(b.arena, b.arena + b.data);
	auto base = base_state();
	// operands that make every memory access hit the data area
	for (int i = 1; i < 32; i++) base.r[i] = i & 1 ? b.data + 0x1000 : i * 16;
	for (size_t k = 0; k < ws.size(); k++) {
		u32 w = ws[k]; if (w == STOPW) continue;       // the library's own end-of-run marker
		const ref::Op* op = ref::find(w); ref::State s = base; s.pc = b.addr(k); s.ll = true; s.ll_addr = b.data + 0x1000;
		string name = op ? op->name : "reserved"; bool mem = op && ref::is_mem(op), br = op && ref::is_branch(op);
		if (mem) { u32 rj = w >> 5 & 31; if (rj) { i64 off = 0; for (auto& f : ref::fields(op)) if (f.kind == 'o') off = (i64)(ref::get(w, f) << (64 - ref::width(f))) >> (64 - ref::width(f)) << f.shift; s.r[rj] = b.data + 0x1000 - off; for (auto& f : ref::fields(op)) if (f.kind == 'r' && f.pos == 10 && (w >> 10 & 31) != rj && (w >> 10 & 31)) s.r[w >> 10 & 31] = 8; } }
		ref::State e = s; b.stored = false; ref::Result res = op ? (ref::has_ref(op) ? ref::exec_op(e, op, w, b, true) : ref::NOREF) : ref::RESERVED;
		Special sp = op ? special_of(name) : NONE; bool sup = op && supported_set().count(name);
		OpCase* oc = nullptr; static std::map<const ref::Op*, OpCase*> cases; if (op) { auto& p = cases[op]; if (!p) p = new OpCase(op); oc = p; }
		static const ref::Lax nolax;
		for (int mode = 0; mode < (br ? 1 : NMODES); mode++) {
			b.set(s); int ex = b.run(mode, s.pc); c.transitions(); string d; const char* what = "effect";
			if (refused(ex)) { auto u = s; if (sup && sp != RAISES && res != ref::UNDEF && !(name == "break")) { d = "refused, but the instruction is supported"; what = "refused"; } else d = diff(b, u, nolax, ~0u); if (!b.mem_same()) { if (!(b.stored)) d = "refused, but memory changed"; } }
			else if (!op) { d = ex < 0 ? "executed, but no instruction has this encoding" : fmt("raised exception %d, but no instruction has this encoding", ex); what = "reserved"; }
			else if (sp == NOTHING) { if (ex >= 0) d = fmt("raised %d", ex); else d = diff(b, s, nolax, ~0u); }
			else if (sp == RAISES) { if (ex < 0) d = "did not raise"; else d = ""; }
			else if (sp == ANY_RD || sp == ANY_RD_RJ) { if (ex >= 0) d = fmt("raised %d", ex); else { auto u = s; if (sp == ANY_RD_RJ && (w >> 5 & 31)) u.r[w >> 5 & 31] = b.m->cpu.reg(w >> 5 & 31); d = diff(b, u, nolax, ~0u, w & 31); } }
			else if (res == ref::NOREF) { d = "executed, but the library does not implement it"; what = "unsupported"; }
			else if (res == ref::UNDEF) { if (ex < 0) { auto u = s; u.ll = b.m->cpu.ll_bit(); u.r[0] = 0; d = diff(b, u, oc->lax, oc->fcsr_mask, w & 31, w & 31); if (ref::is_branch(op)) d = ""; } }
			else if (res == ref::FAULTED) { if (ex != PROTECTION_FAULT) d = fmt("ended with %d, expected a protection fault", ex); else d = diff(b, s, nolax, ~0u); }
			else if (res == ref::OK) { if (br) { if (ex >= 0 && ex != EXECUTION_SPACE_PROTECTION_FAULT && ex != MISALIGNED_INSTRUCTION) d = fmt("raised %d", ex); else if (ex < 0) { d = diff(b, e, oc->lax, ~0u); if (d.empty() && b.m->cpu.pc() != e.pc) d = fmt("pc=%#lx, expected %#lx", (long)b.m->cpu.pc(), (long)e.pc); } }
				else if (ex >= 0) d = fmt("raised exception %d", ex); else { d = diff(b, e, oc->lax, oc->fcsr_mask); if (d.empty() && mode == STEP && b.m->cpu.pc() != e.pc) d = fmt("pc=%#lx, expected %#lx", (long)b.m->cpu.pc(), (long)e.pc); } }
			// a plain instruction is followed by the next one: the run ends at the STOP behind it
			if (d.empty() && ex < 0 && mode != STEP && !br && op && (res == ref::OK || sp == NOTHING || sp == ANY_RD || sp == ANY_RD_RJ) && b.m->cpu.pc() != b.addr(k) + 8) { d = fmt("the run ended at pc=%#lx, expected %#lx", (long)b.m->cpu.pc(), (long)b.addr(k) + 8); what = "flow"; }
			bool touched = !b.mem_same();
			if (!refused(ex) && ex < 0 && d.empty() && res != ref::UNDEF && touched) d = "memory differs from the reference";
			if (touched || mem) memcpy(b.arena + b.data, pristine.data() + b.data, b.size + 64 - b.data);
			if (!d.empty()) { string key = string(what) + ":" + (op ? name : fmt("%#05x", w >> 20)); c.fail(key, fmt("word %#010x (%s, %s): %s", w, name.c_str(), mode_name(mode), d.c_str())); }
		}
		if (b.stored) memcpy(b.shadow.data() + b.data, pristine.data() + b.data, b.size + 64 - b.data);
		c.traces(); if (res == ref::OK) c.nontrivial();
	}
	if (memcmp(b.arena, code.data(), b.data)) { c.fail("code-changed", "memory outside the data area changed"); }
}

int main(int argc, char** argv) {
	Check chk(argc, argv, "C20");
	chk.rule("every value of the instruction bits 31..10 x a set of values of the low ten bits (thorough: more values), executed by step, simulate and simulate_inaccurate: the word either has the effect the reference model gives its encoding or is refused with nothing changed; encodings no instruction has must be refused");
	chk.assume("the word 0x00150000 (or zero,zero,zero) is libloong's own stop marker");
	static Box* box = nullptr; static std::vector<uint8_t> pristine;
	// low-order bits: (rj, rd); both reserved-bit patterns of condition-flag fields occur
	std::vector<u32> lows = { 5u << 5 | 6, 0u << 5 | 0, 9u << 5 | 24 }; if (chk.thorough()) for (u32 x : std::vector<u32>{ 31u << 5 | 31, 8u << 5 | 3, 3u << 5 | 8, 16u << 5 | 16, 1u << 5 | 1, 2u << 5 | 4, 4u << 5 | 2, 15u << 5 | 15, 0u << 5 | 7, 7u << 5 | 0, 24u << 5 | 12, 20u << 5 | 29, 27u << 5 | 21 }) lows.push_back(x);
	chk.section("words", [&](Ctx& c) {
		if (!box) { box = new Box; pristine.assign(box->arena, box->arena + box->size + 64); }
		u32 top = c.choose(1024, "bits 31..22"); c.at("bits 31..22 = %#x", top); c.crash_key(fmt("crash:%#x", top));
		std::vector<u32> ws; auto flush = [&] { if (!ws.empty()) words(c, *box, ws, pristine); ws.clear(); };
		for (u32 mid = 0; mid < 4096; mid++) for (u32 l : lows) { ws.push_back(top << 22 | mid << 10 | l); if (ws.size() == box->capacity()) flush(); }
		flush(); c.state(top);
		if (c.want_sample()) c.sample(fmt("words %#x..: bits 31..22 = %#x, all 4096 values of bits 21..10, %zu low parts", top << 22, top, lows.size()));
	}, { .split_depth = 1, .timeout_s = 600 });
	// every low part of words whose top bits belong to an instruction
	chk.section("low-bits", [&](Ctx& c) {
		if (!box) { box = new Box; pristine.assign(box->arena, box->arena + box->size + 64); }
		int i = c.choose(ref::nops, "instruction"); u32 m = ref::optable[i].match; c.at("%s", ref::optable[i].name); c.crash_key(string("crash:") + ref::optable[i].name);
		std::vector<u32> ws; auto flush = [&] { if (!ws.empty()) words(c, *box, ws, pristine); ws.clear(); };
		for (u32 l = 0; l < 1024; l++) { ws.push_back((m & ~1023u) | l); if (ws.size() == box->capacity()) flush(); }
		flush(); c.state(vp::mix(i, 77));
	}, { .split_depth = 1, .timeout_s = 600 });
	return chk.finish();
}
