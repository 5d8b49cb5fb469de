// build: VARIANT=asan EXTRAOBJ=$(O)/ref_isa.o
// C27: symbol lookup, backtraces and disassembly for every symbol table, register state and code content.
#include "isa.hpp"
#include "elfgen.hpp"
#include <libloong/debug.hpp>
#include <cxxabi.h>
#include <cmath>
#include <unistd.h>
using namespace isa; typedef std::vector<uint8_t> Bytes;
static constexpr u64 MM = 0x10000, RO = 0x1000, DATA = 0x2000;
struct Sym { string name; u64 value, size; uint8_t type; };
static bool counts(const Sym& s) { return (s.type == 1 || s.type == 2) && s.value && s.name.size(); }
struct Sys { std::unique_ptr<Machine> m; std::vector<Sym> syms;
	Sys(const std::vector<Sym>& v) : syms(v) { using namespace elfgen; std::vector<elfgen::Symbol> sy; for (auto& s : v) sy.push_back({ s.name, s.value, s.size, s.type }); std::vector<u32> w(64, 0x00150000);
		auto im = build({ { RO, elfgen::R | elfgen::X, words(w) }, { DATA, elfgen::R | elfgen::W, Bytes(64, 0) } }, RO, sy, RO, 256, true); auto o = std::make_shared<MachineOptions>(); o->memory_max = MM; o->stack_size = 0x1000; o->brk_size = 0x1000; o->use_shared_execute_segments = false;
		m = std::make_unique<Machine>(std::string_view((const char*)im.file.data(), im.file.size()), *o); m->set_options(o); }
	// the symbols that are right for an address: those containing it, otherwise those with the closest start below it
	std::vector<const Sym*> right(u64 a) const { std::vector<const Sym*> r; for (auto& s : syms) if (counts(s) && a >= s.value && a - s.value < s.size) r.push_back(&s); if (r.size()) return r; u64 best = 0; for (auto& s : syms) if (counts(s) && s.value <= a) best = std::max(best, s.value); for (auto& s : syms) if (counts(s) && s.value == best && best && best <= a) r.push_back(&s); return r; }
};
static string demangle(const string& n) { if (n.compare(0, 2, "_Z")) return n; int st = 0; char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st); string r = !st && d ? d : n; free(d); return r; }
static string shown(const Sym& s, u64 a) { return demangle(s.name) + (a != s.value ? fmt("+0x%lx", (long)(a - s.value)) : ""); }
static string brief(const string& s) { return s.size() > 60 ? s.substr(0, 50) + fmt("...(%zu)", s.size()) : s; }
// the symbol of one address through every interface; returns an acceptable text for it
static bool lookup(Ctx& c, Sys& y, u64 a, const string& who) {
	auto ok = y.right(a); auto* s = y.m->lookup_symbol(a); bool good = !s ? ok.empty() : false; if (s) for (auto* r : ok) if (r->name == s->name && r->value == s->address && r->size == s->size) good = true; c.transitions();
	OK(c, good, "lookup", who + fmt(": lookup_symbol(%#lx) is %s (%#lx+%#lx), expected %s", (long)a, s ? brief(s->name).c_str() : "nothing", s ? (long)s->address : 0, s ? (long)s->size : 0, ok.empty() ? "nothing" : brief(ok[0]->name).c_str()));
	for (int off = 0; off < 2; off++) { auto t = y.m->lookup_demangled_symbol(a, off); good = ok.empty() && t.empty(); for (auto* r : ok) if (t == (off ? shown(*r, a) : demangle(r->name))) good = true; OK(c, good, "demangled", who + fmt(": the name of %#lx is '%s', expected '%s'", (long)a, brief(t).c_str(), ok.empty() ? "" : brief(shown(*ok[0], a)).c_str())); }
	if (ok.size()) c.nontrivial(); return good;
}
static bool line_ok(const Sys& y, const string& l, const string& no, u64 a) { string p = "#" + no + fmt(": 0x%016lx ", (long)a); if (l.compare(0, p.size(), p)) return false; string t = l.substr(p.size()); auto ok = y.right(a); if (ok.empty()) return t.empty(); for (auto* r : ok) if (t == shown(*r, a)) return true; return false; }
static std::vector<string> lines(const string& s) { std::vector<string> r; size_t p = 0; while (p < s.size()) { size_t q = s.find('\n', p); if (q == string::npos) { r.push_back(s.substr(p) + "<no end of line>"); break; } r.push_back(s.substr(p, q - p)); p = q + 1; } return r; }
static void backtrace(Ctx& c, Sys& y, u64 init, u64 pc, u64 ra, u64 sp, const string& who) {
	auto& R = y.m->cpu.registers(); R.pc = pc; R.get(1) = ra; R.get(3) = sp; string w = who + fmt(": backtrace(%#lx) at pc %#lx, ra %#lx, sp %#lx", (long)init, (long)pc, (long)ra, (long)sp); c.at("%s", w.substr(0, 180).c_str()); auto t = lines(y.m->backtrace(init)); c.transitions();
	std::vector<u64> e; const char* A = (const char*)y.m->memory.arena_ptr(); u64 p = sp, v = ra; while (v && e.size() < 64) { e.push_back(v); if (p < y.m->memory.rodata_start() || p >= y.m->memory.arena_size()) break; memcpy(&v, A + p, 8); p += 8; }
	OK(c, t.size() == 1 + e.size(), "backtrace:length", w + fmt(" has %zu lines instead of %zu", t.size(), 1 + e.size())); if (t.empty()) return; OK(c, line_ok(y, t[0], "-", init ? init : pc), "backtrace:first", w + ": first line is '" + brief(t[0]) + "'");
	for (size_t i = 0; i + 1 < t.size() && i < e.size(); i++) OK(c, line_ok(y, t[i + 1], std::to_string(i), e[i]), "backtrace:line", w + fmt(": line %zu is '%s' for %#lx", i, brief(t[i + 1]).c_str(), (long)e[i]));
	OK(c, R.pc == pc && R.get(1) == ra && R.get(3) == sp, "backtrace:state", w + ": changed a register"); if (e.size()) c.nontrivial();
}
struct Text { string mnemonic; std::vector<string> ops; bool has = false; u64 target = 0; };
static Text parse(string s) { Text t; for (auto& ch : s) if (ch == '\t') ch = ' '; auto h = s.find('#'); if (h != string::npos) { string x = s.substr(h + 1); while (x.size() && x[0] == ' ') x.erase(0, 1); if (x.compare(0, 2, "0x") == 0) { t.has = true; t.target = strtoull(x.c_str(), nullptr, 16); } s.resize(h); }
	size_t p = s.find(' '); t.mnemonic = s.substr(0, p); if (p == string::npos) return t; s = s.substr(p); while (1) { size_t q = s.find(','); string o = s.substr(0, q); size_t b = o.find_first_not_of(' '), e = o.find_last_not_of(' '); o = b == string::npos ? "" : o.substr(b, e - b + 1); char* end; long v = strtol(o.c_str(), &end, 0); if (o.size() && !*end) o = std::to_string(v); if (o.size()) t.ops.push_back(o); if (q == string::npos) break; s = s.substr(q + 1); } return t; }
static bool same(const Text& a, const Text& b) { return a.mnemonic == b.mnemonic && a.ops == b.ops && (!a.has || !b.has || a.target == b.target); }
static bool is_placeholder(const string& t) { return t.compare(0, 6, "UNIMPL") == 0 || t.compare(0, 7, "ILLEGAL") == 0 || t.compare(0, 2, "0x") == 0; }
// what the GNU disassembler prints for the words, with the given options
static std::vector<string> objdump(const std::vector<u32>& w, const char* opt, u64 vma) { char f[] = "/tmp/vp-c27-XXXXXX"; int fd = mkstemp(f); size_t n = w.size() * 4; if (write(fd, w.data(), n) != (ssize_t)n) abort(); close(fd); string cmd = fmt("loongarch64-linux-gnu-objdump -D -z -b binary -mLoongarch64 %s --adjust-vma=%#lx %s", opt, (long)vma, f); std::vector<string> r; FILE* p = popen(cmd.c_str(), "r"); char b[512]; while (p && fgets(b, 512, p)) { char* t = strchr(b, '\t'); if (!t || !isxdigit(t[1])) continue; t = strchr(t + 1, '\t'); if (!t && 0) continue; string s = t ? t + 1 : ""; while (s.size() && (s.back() == '\n' || s.back() == ' ')) s.pop_back(); r.push_back(s); } if (p) pclose(p); unlink(f); return r; }
static Machine& blank() { static std::unique_ptr<Machine> m = [] { MachineOptions o; o.memory_max = MM; o.use_shared_execute_segments = false; return std::make_unique<Machine>(std::string_view{}, o); }(); return *m; }
static string text(Ctx& c, u32 w, u64 pc) { auto& m = blank(); m.cpu.registers().pc = pc; la_instruction i; i.whole = w; string t = m.cpu.to_string(i); if (t.empty() || t.size() > 254) c.fail("text:length", fmt("word %08x disassembles to %zu characters", w, t.size())); for (unsigned char ch : t) if (ch < 0x20 || ch > 0x7e) { c.fail("text:characters", fmt("word %08x disassembles to unprintable text", w)); break; } if (m.cpu.registers().pc != pc) c.fail("text:state", fmt("disassembling %08x changed pc", w)); return t; }

int main(int argc, char** argv) {
	Check chk(argc, argv, "C27"); bool T = chk.thorough();
	chk.rule("a case is one symbol table with one queried address, one register and stack state with its backtrace, or one instruction word with its text; it is nontrivial when a symbol is found, the backtrace has entries, or the word is an instruction");
	chk.assume("when several symbols contain an address, or are equally close below it, any of them is right; past the end of every symbol the closest one below is reported, as documented in the code");
	chk.assume("the text of an instruction is right when it equals the GNU disassembler's, with or without aliases, up to number formats; a word the library does not implement is reported as such");
	chk.section("lookup", [&](Ctx& c) {
		static const std::vector<u64> V{ 0, 1, 0x1000, 0x1010, 0x1020, ~0ull - 0xf }, S{ 0, 1, 0x10, 0x18, 0x30, ~0ull - 0x100f, ~0ull }; static const char* N[] = { "alpha", "beta", "gamma", "delta" };
		int n = c.choose(T ? 4 : 3, "symbols") + (T ? 0 : 0); std::vector<Sym> v; for (int i = 0; i < n; i++) { u64 a = c.pick(V, "value"), s = c.pick(S, "size"); int t = i == 0 ? c.choose(3, "type") : 2; v.push_back({ N[i], a, s, (uint8_t)t }); }
		Sys y(v); string who; for (auto& s : v) who += fmt("%s=%#lx+%#lx/%d ", s.name.c_str(), (long)s.value, (long)s.size, s.type); std::vector<u64> Q; for (u64 a : V) for (u64 s : S) for (int d = -1; d <= 1; d++) { Q.push_back(a + d); Q.push_back(a + s + d); } std::sort(Q.begin(), Q.end()); Q.erase(std::unique(Q.begin(), Q.end()), Q.end());
		for (u64 q : Q) lookup(c, y, q, who); for (int i = 0; i < 4; i++) { u64 a = y.m->address_of(N[i]), e = 0; for (auto& s : v) if (s.name == N[i] && counts(s)) e = s.value; OK(c, a == e, "address", who + fmt(": address_of(%s) is %#lx", N[i], (long)a)); } OK(c, y.m->address_of("") == 0 && y.m->address_of("alph") == 0 && y.m->address_of("alphaa") == 0, "address", who + ": address of a name no symbol has"); c.state(hash_bytes(who.data(), who.size())); c.traces(); if (c.want_sample()) c.sample(who);
	}, { .split_depth = 3 });
	chk.section("names", [&](Ctx& c) {
		static const std::vector<string> N = [] { std::vector<string> v{ "main", "f", "i", "v", "d", "St6vectorIiE", "_Z3foov", "_Z1fiPKc", "_ZN1a1bE", "_Z", "_ZN", "_Z9", "_Z999999999999999999999x", "_Zzzzz", "%s%n%d%99999999d", "a b", "\x80\xff\x01", "_ZNSt6vectorIiSaIiEE9push_backEOi", "__Z3foov" }; for (int n : { 255, 256, 4000, 4069, 4070, 4071, 4072, 4073, 4074, 4075, 4076, 4077, 4095, 4096, 4097, 5000, 9000, 100000 }) v.push_back(string(n, 'x')); for (int d : { 20, 100, 200, 500, 1000 }) { string s = "_Z1f"; for (int i = 0; i < d; i++) s += "P"; v.push_back(s + "v"); s = "_Z1f"; for (int i = 0; i < d; i++) s += "1AI"; v.push_back(s + "i" + string(d, 'E')); } return v; }();
		const string& a = N[c.choose(N.size(), "name")]; const string& b = N[c.choose(T ? N.size() : 8, "other")]; Sys y({ { a, RO, 0x10, 2 }, { b, RO + 0x10, 0, 2 } }); c.state(hash_bytes(a.data(), a.size(), b.size())); c.traces(); string who = brief(a) + "," + brief(b); for (u64 q : std::vector<u64>{ RO, RO + 4, RO + 0x10, RO + 0x14, MM, ~0ull }) { lookup(c, y, q, who); backtrace(c, y, 0, q, RO + 4, MM - 8, who); backtrace(c, y, q, 0, RO + 0x18, MM - 16, who); }
		if (a != b) OK(c, y.m->address_of(a) == RO && y.m->address_of(b) == RO + 0x10, "address", who + ": wrong address of a name"); if (c.want_sample()) c.sample(who);
	}, { .split_depth = 2 });
	chk.section("backtrace", [&](Ctx& c) {
		static const std::vector<Sym> SY{ { "start", RO, 0x10, 2 }, { "_Z4workv", RO + 0x10, 0, 2 }, { "data", DATA, 0x20, 1 }, { string(4080, 'l'), RO + 0x40, 8, 2 } }; static std::unique_ptr<Sys> yp; if (!yp) yp = std::make_unique<Sys>(SY); auto& y = *yp; auto& mem = y.m->memory;
		static const u64 ENDS = mem.arena_size(), LO = mem.rodata_start(); static const std::vector<u64> SP{ ENDS - 0x100, ENDS - 0x200 + 8, ENDS - 0x208, ENDS - 0x201, ENDS - 4, ENDS - 8, ENDS - 16, ENDS - 9, ENDS - 1, ENDS, ENDS + 1, ENDS + 56, LO, LO - 1, LO - 8, 0, 1, 7, ~0ull, ~0ull - 7, 1ull << 63, DATA, DATA + 3, (1ull << 32) + DATA };
		static const std::vector<u64> V{ 0, RO, RO + 0x14, RO + 0x44, DATA + 8, ~0ull, 1, LO - 1, MM };
		u64 sp = c.pick(SP, "sp"), ra = c.pick(V, "ra"), pc = c.pick(V, "pc"), init = c.pick(std::vector<u64>{ 0, RO + 4, ~0ull, MM - 1 }, "initial"); int n = T ? 3 : 2; bool in = sp >= DATA && sp <= ENDS - 8 * n; char* A = (char*)mem.arena_ptr();
		int fill = c.choose(3, "stack"); static int filled = -1; static Bytes now; if (filled != fill) { for (u64 p = DATA; p + 8 <= ENDS; p += 8) { u64 v = fill == 0 ? 0 : fill == 1 ? V[1 + (p / 8) % (V.size() - 1)] : (p & 0x1f8) ? RO + (p & 0xf8) : 0; memcpy(A + p, &v, 8); } memset(A + ENDS, 0x11, 64); now.assign(A, A + ENDS + 64); filled = fill; }
		if (in && fill == 0) for (int i = 0; i < n; i++) { u64 v = V[c.choose(V.size(), "word")]; memcpy(A + sp + 8 * i, &v, 8); memcpy(&now[sp + 8 * i], &v, 8); if (!v) break; }
		backtrace(c, y, init, pc, ra, sp, "program"); OK(c, !memcmp(A, now.data(), now.size()), "backtrace:memory", "a backtrace changed guest memory"); if (fill == 0) { memcpy(A + DATA, std::vector<char>(ENDS - DATA).data(), ENDS - DATA); std::fill(now.begin() + DATA, now.begin() + ENDS, 0); } c.state(mix(mix(sp, ra), mix(pc, init))); c.traces();
	}, { .split_depth = 2 });
	// every implemented instruction with its fields, against the GNU disassembler
	chk.section("instructions", [&](Ctx& c) {
		auto& sup = supported(); const string& n = sup[c.choose(sup.size(), "instruction")]; auto* op = ref::find_name(n); if (!op) c.prune(); c.crash_key(n + ":crash"); auto fs = ref::fields(op); std::vector<u32> W; auto add = [&](const std::vector<u64>& v) { u32 w = op->match; for (size_t i = 0; i < fs.size(); i++) w = ref::put(w, fs[i], v[i]); W.push_back(w); };
		std::vector<std::vector<u64>> dom; for (auto& f : fs) { int wd = ref::width(f); std::vector<u64> d; u64 N = 1ull << wd; if (N <= 32) for (u64 i = 0; i < N; i++) d.push_back(i); else { for (int b = 0; b < wd; b++) { d.push_back(1ull << b); d.push_back((1ull << b) - 1); d.push_back((N - (1ull << b)) % N); d.push_back((N - (1ull << b) - 1) % N); } d.push_back(0x5555555 % N); if (T) for (u64 i = 0; i < N && i < 4096; i++) d.push_back(i * (N / std::min<u64>(N, 4096))); std::sort(d.begin(), d.end()); d.erase(std::unique(d.begin(), d.end()), d.end()); } dom.push_back(d); }
		u64 total = 1; for (auto& d : dom) total *= d.size(); u64 cap = T ? 2000000 : 40000; std::vector<u64> v(fs.size());
		if (total <= cap) for (u64 t = 0; t < total; t++) { u64 x = t; for (size_t i = 0; i < fs.size(); i++) { v[i] = dom[i][x % dom[i].size()]; x /= dom[i].size(); } add(v); }
		else for (int base = 0; base < 4; base++) { auto b = [&](size_t i) { return base == 0 ? (u64)0 : base == 1 ? (1ull << ref::width(fs[i])) - 1 : (u64)(base + 3 * i) % (1ull << ref::width(fs[i])); }; for (size_t i = 0; i < fs.size(); i++) for (size_t j = i; j < fs.size(); j++) { for (size_t k = 0; k < fs.size(); k++) v[k] = b(k); for (u64 p : dom[i]) { v[i] = p; if (i == j) { add(v); continue; } for (u64 q : dom[j]) { v[j] = q; add(v); } } } }
		std::sort(W.begin(), W.end()); W.erase(std::unique(W.begin(), W.end()), W.end()); std::erase_if(W, [&](u32 w) { return ref::find(w) != op; });
		if (n == "syscall" || n == "break") std::erase_if(W, [&](u32 w) { return w & 0x7fff; }); // other codes are not implemented
		for (u64 vma : { (u64)0, (u64)0x120000000 }) { auto A = objdump(W, "-M no-aliases", vma), B = objdump(W, "", vma); if (A.size() != W.size() || B.size() != W.size()) { c.fail("oracle", n + fmt(": the disassembler printed %zu lines for %zu words", A.size(), W.size())); return; } int wrong = 0;
			for (size_t i = 0; i < W.size(); i++) { string t = text(c, W[i], vma + 4 * i); c.transitions(); Text o = parse(t); if (same(o, parse(A[i])) || same(o, parse(B[i])) || (t == "nop" && n == "andi" && !(W[i] & 31))) continue; if (++wrong <= 3) c.fail("text:" + n, fmt("word %08x at %#lx is '%s', but disassembles to '%s'", W[i], (long)(vma + 4 * i), B[i].c_str(), t.c_str())); } if (wrong) break; }
		c.nontrivial(); c.state(op->match); c.traces(); if (c.want_sample()) c.sample(n + fmt(": %zu words", W.size()));
	}, { .split_depth = 1, .timeout_s = 300 });
	// all opcodes: a text that names an instruction names the right one
	chk.section("words", [&](Ctx& c) {
		u32 slice = c.choose(256, "slice"); std::vector<u32> lows{ 0, 0x3ff, 0x155 }; if (T) for (u32 i = 0; i < 1024; i += 33) lows.push_back(i); std::sort(lows.begin(), lows.end()); lows.erase(std::unique(lows.begin(), lows.end()), lows.end());
		for (u32 low : lows) { std::vector<u32> W; for (u32 i = 0; i < 1u << 14; i++) W.push_back(((slice << 14 | i) << 10) | low); std::vector<string> t; std::vector<u32> K; std::vector<string> KT; for (u32 w : W) { string s = text(c, w, 0x1000); c.transitions(); if (!is_placeholder(s)) { K.push_back(w); KT.push_back(s); } } if (K.empty()) continue;
			auto A = objdump(K, "-M no-aliases", 0), B = objdump(K, "", 0); if (A.size() != K.size() || B.size() != K.size()) { c.fail("oracle", fmt("the disassembler printed %zu lines for %zu words", A.size(), K.size())); return; }
			for (size_t i = 0; i < K.size(); i++) { string mn = parse(KT[i]).mnemonic; if (mn == parse(A[i]).mnemonic || mn == parse(B[i]).mnemonic || (mn == "nop" && parse(A[i]).mnemonic == "andi")) continue; c.fail("name:" + mn, fmt("word %08x is '%s', but disassembles to '%s'", K[i], B[i].c_str(), KT[i].c_str())); } c.nontrivial(); }
		c.state(slice); c.traces();
	}, { .split_depth = 1, .timeout_s = 800 });
	chk.section("current", [&](Ctx& c) {
		// the text of the instruction at pc, and the text of the registers, for every register state
		static std::unique_ptr<Sys> yp; if (!yp) yp = std::make_unique<Sys>(std::vector<Sym>{ { "start", RO, 0x10, 2 } }); auto& m = *yp->m; u64 E = m.memory.arena_size(), LO = m.memory.rodata_start(); std::vector<u64> P; for (u64 b : std::vector<u64>{ (u64)0, LO, RO, RO + 256, DATA, E, E + 64, 1ull << 32, 1ull << 63, ~0ull, (1ull << 32) + RO }) for (int d = -9; d <= 9; d++) P.push_back(b + d);
		u64 pc = c.pick(P, "pc"); int pat = c.choose(5, "registers"); auto& R = m.cpu.registers(); for (int i = 1; i < 32; i++) R.get(i) = pat == 0 ? 0 : pat == 1 ? ~0ull : pat == 2 ? 1ull << (2 * i) : pat == 3 ? 0x0123456789abcdefull * i : 1ull << 63; R.pc = pc; string t = m.cpu.current_instruction_to_string(); c.transitions();
		bool rd = pc >= LO && pc < E; if (rd) { u32 w; memcpy(&w, (char*)m.memory.arena_ptr() + pc, 4); la_instruction i; i.whole = w; OK(c, t == m.cpu.to_string(i) && !t.empty(), "current", fmt("text at %#lx is '%s'", (long)pc, t.c_str())); c.nontrivial(); } else OK(c, !is_placeholder(t) && t.find('$') == string::npos && !t.empty(), "current", fmt("text at unreadable %#lx is '%s'", (long)pc, t.c_str()));
		string s = R.to_string(); std::vector<u64> got; for (size_t p = 0; (p = s.find(": 0x", p)) != string::npos; p += 4) got.push_back(strtoull(s.c_str() + p + 2, nullptr, 16)); bool ok = got.size() == 33 && got[0] == pc; for (int i = 0; ok && i < 32; i++) ok = got[1 + i] == R.get(i); OK(c, ok, "registers", fmt("the text of the registers does not show them (pattern %d, pc %#lx)", pat, (long)pc)); c.state(mix(pc, pat)); c.traces();
	}, { .split_depth = 1 });
	return chk.finish();
}
