// build: VARIANT=asan
// C12: the ELF loader.  Well-formed images and all their single and pairwise field mutations
// and truncations are loaded from a buffer surrounded by inaccessible memory and compared
// with an independent reading of the file.
#include "vp.hpp"
#include "elfgen.hpp"
#include <libloong/machine.hpp>
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
#include <algorithm>
#include <optional>
using namespace vp; using namespace loongarch; using std::string; using elfgen::u64; using elfgen::u32; using elfgen::u16; typedef std::vector<uint8_t> Bytes;
static constexpr u64 MM = 0x40000, BRK = 0x1000, STK = 0x1000, PG = 4096;
static u32 li(int k) { return 0x03800004 | k << 10; }              // ori $a0, $zero, k
static constexpr u32 STOP = 0x00150000;
static Bytes code(int n, int k0) { std::vector<u32> w; for (int i = 0; i < n; i++) { w.push_back(li(k0 + i)); w.push_back(STOP); } return elfgen::words(w); }
static Bytes pattern(int n, int s) { Bytes b(n); for (int i = 0; i < n; i++) b[i] = i * 7 + s; return b; }
struct Base { string name; elfgen::Image im; };
static const std::vector<Base>& bases() { static std::vector<Base> v = [] { using namespace elfgen; std::vector<Base> v; auto cat = [](Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
	v.push_back({ "text+data", build({ { 0x10000, R | X, cat(pattern(64, 1), code(4, 16)) }, { 0x14010, R | W, pattern(48, 3), 0x1100 } }, 0x10040, { { "main", 0x10040, 16 }, { "data", 0x14010, 8, 1 }, { "z", 0x10050, 0 }, { "note", 0x10048, 4, 0 }, { "main2", 0x10058, 8 } }, 0x10040, 32) });
	v.push_back({ "one segment, no sections", build({ { 0x11004, R | W | X, code(3, 5), 0x40 } }, 0x11004) });
	v.push_back({ "iplt+text", build({ { 0x10000, R | X, cat(cat(pattern(32, 9), code(4, 40)), pattern(40, 8)) }, { 0x18000, R | W, pattern(8, 2) } }, 0x10030, { { "f", 0x10030, 8 } }, 0x10030, 16, true, 0x10020) });
	v.push_back({ "two code segments", build({ { 0x10000, R | X, code(2, 70) }, { 0x12000, R | X, code(2, 80) }, { 0x14000, R, pattern(24, 5) }, { 0x15000, R | W, {}, 0x800 } }, 0x12000) });
	v.push_back({ "dynamic symbols", build({ { 0x10000, R | X, code(2, 90) }, { 0x12000, R | W, pattern(16, 5), 0x20 } }, 0x10000, { { "g", 0x10008, 8 }, { "var", 0x12000, 8, 1 } }, 0x10000, 16, true, 0, true) });
	{ auto im = build({ { 0, 4, {} }, { 0x13000, R | W, pattern(24, 7), 0x100 }, { 0x10000, R | X, code(2, 99) }, { 0x13080, R, {}, 0 } }, 0x10000, { { "h", 0x10000, 8 } }, 0x10000, 16); im.phdr(0)->type = 6; im.phdr(3)->type = 7; im.phdr(0)->offset = 64; im.phdr(0)->vaddr = 0x10040; v.push_back({ "unordered segments, program header and TLS entries", im }); }
	{ auto im = build({ { 0x10000, R | X, code(2, 99) } }, 0x10000); auto b = im.file; Phdr p = *im.phdr(0); p.filesz = b.size(); p.memsz = b.size(); p.offset = 0; p.vaddr = p.paddr = 0x20000; memcpy(b.data() + 64, &p, sizeof p); im.file = b; im.ehdr()->entry = 0x20000 + im.segoff[0]; v.push_back({ "headers inside the segment", im }); }
	return v; }(); return v; }
struct Field { string name; u64 off; int size; };
static std::vector<Field> fields(const elfgen::Image& im, bool all) { std::vector<Field> f; auto add = [&](const string& n, u64 o, int s) { f.push_back({ n, o, s }); };
	add("e_class", 4, 1); add("e_data", 5, 1); add("e_type", 16, 2); add("e_machine", 18, 2); add("e_entry", 24, 8); add("e_phoff", 32, 8); add("e_shoff", 40, 8); add("e_ehsize", 52, 2); add("e_phentsize", 54, 2); add("e_phnum", 56, 2); add("e_shentsize", 58, 2); add("e_shnum", 60, 2); add("e_shstrndx", 62, 2); if (all) { add("magic", 0, 4); add("e_version", 20, 4); add("e_flags", 48, 4); }
	for (int i = 0; i < im.phnum; i++) { u64 b = im.phoff + i * 56; string p = fmt("ph[%d].", i); add(p + "type", b, 4); add(p + "flags", b + 4, 4); add(p + "offset", b + 8, 8); add(p + "vaddr", b + 16, 8); add(p + "filesz", b + 32, 8); add(p + "memsz", b + 40, 8); if (all) { add(p + "paddr", b + 24, 8); add(p + "align", b + 48, 8); } }
	for (int i = 0; i < im.shnum; i++) { u64 b = im.shoff + i * 64; string p = fmt("sh[%d].", i); if (i == 0 && !all) continue; add(p + "name", b, 4); add(p + "type", b + 4, 4); add(p + "addr", b + 16, 8); add(p + "offset", b + 24, 8); add(p + "size", b + 32, 8); add(p + "link", b + 40, 4); if (all) { add(p + "entsize", b + 56, 8); add(p + "info", b + 44, 4); add(p + "flags", b + 8, 8); } }
	for (int i = 0; i < im.nsyms; i++) { u64 b = im.symoff + i * 24; string p = fmt("sym[%d].", i); if (i == 0 && !all) continue; add(p + "name", b, 4); add(p + "info", b + 4, 1); add(p + "value", b + 8, 8); add(p + "size", b + 16, 8); if (all) { add(p + "shndx", b + 6, 2); add(p + "other", b + 5, 1); } }
	return f; }
static u64 get(const Bytes& b, const Field& f) { u64 v = 0; memcpy(&v, b.data() + f.off, f.size); return v; }
static void put(Bytes& b, const Field& f, u64 v) { memcpy(b.data() + f.off, &v, f.size); }
static std::vector<u64> values(const Bytes& b, const Field& f, int tier) { u64 v = get(b, f), n = b.size(); std::vector<u64> r{ 0, 1, v + 1, v - 1, v + 8, n, n - 8, ~0ull, -8ull, 1ull << 63, -n, -v, MM - v, 2, 3 }; if (tier > 0) for (u64 x : std::vector<u64>{ 4, 5, 6, 7, 8, 11, 16, v ^ 1, v ^ 4, v + 2, v + 3, v + 4, v - 4, v - 8, v * 2, v + 24, v + 56, v + 64, n - 1, n + 1, n - v, n - 24, n - 64, n - 6, n - 5, MM, MM + 1, MM - 1, 0x1000, 0x10000, 0x14010, 0x10040, 0x30000, 1ull << 31, 1ull << 32, (1ull << 32) + v, (1ull << 63) + v, (1ull << 63) - 1, -1ull - v, -4ull, -16ull, -24ull, -56ull, -64ull, -4096ull, -0x10000ull, -0x14010ull, 256, 257, 65535, 1ull << 58, (1ull << 58) + 1, 0xAAAAAAAAAAAAAABull }) r.push_back(x);
	u64 m = f.size == 8 ? ~0ull : (1ull << 8 * f.size) - 1; std::vector<u64> q; for (u64 x : r) { x &= m; if (x != v && std::find(q.begin(), q.end(), x) == q.end()) q.push_back(x); } return q; }
// what the file says
struct Want { enum V { LOAD, REJECT, EITHER } verdict = EITHER; string why; u64 entry = 0; std::vector<std::pair<string, u64>> syms; struct S { u64 va, fsz, msz, off; bool x; }; std::vector<S> segs; u64 text = 0, textend = 0; bool text_ok = false, sections_ok = false; };
static Want read_elf(const Bytes& b) {
	Want w; w.verdict = Want::REJECT; const u64 n = b.size(); auto in = [&](u64 o, u64 s) { return o <= n && s <= n - o; }; if (!n) { w.verdict = Want::EITHER; return w; } if (n < 64) { w.why = "shorter than an ELF header"; return w; } elfgen::Ehdr h; memcpy(&h, b.data(), 64); w.entry = h.entry;
	if (memcmp(h.ident, "\x7f" "ELF", 4) || h.machine != 258) { w.why = "not a LoongArch ELF file"; return w; } if (!h.phnum || h.phentsize != 56 || !in(h.phoff, (u64)h.phnum * 56)) { w.why = "invalid program header table"; return w; }
	u64 top = 0; bool either = h.ident[4] != 2 || h.ident[5] != 1 || h.version != 1 || h.phnum > 256 || h.type != 2 || h.ehsize != 64;
	for (int i = 0; i < h.phnum; i++) { elfgen::Phdr p; memcpy(&p, b.data() + h.phoff + i * 56, 56); if (p.type != 1) continue; if (!p.filesz && !p.memsz) { either = true; continue; } if (p.filesz > p.memsz) { w.why = "a segment is larger in the file than in memory"; return w; } if (p.memsz > MM || p.vaddr > MM - p.memsz) { w.why = "a segment outside guest memory"; return w; } if (p.filesz && !in(p.offset, p.filesz)) { w.why = "a segment outside the file"; return w; } top = std::max(top, p.vaddr + p.memsz); w.segs.push_back({ p.vaddr, p.filesz, p.memsz, p.offset, (p.flags & 1) != 0 }); }
	if (w.segs.empty()) { w.why = "no loadable segments"; if (either) w.verdict = Want::EITHER; return w; } if (top + BRK + STK + 3 * PG > MM) either = true;
	// sections
	bool ok = true; std::vector<elfgen::Shdr> sh; if (h.shoff && h.shnum) { if (h.shentsize != 64 || !in(h.shoff, (u64)h.shnum * 64)) ok = false; else { sh.resize(h.shnum); memcpy(sh.data(), b.data() + h.shoff, h.shnum * 64); for (auto& s : sh) if (s.type != 0 && s.type != 8 && !in(s.offset, s.size)) ok = false; if (h.shstrndx >= h.shnum) ok = false; } w.sections_ok = ok; }
	if (ok && sh.size()) { auto& st = sh[h.shstrndx]; auto name = [&](elfgen::Shdr& t, u32 o, string& r) { if (!in(t.offset, t.size) || o >= t.size) return false; auto* p = (const char*)b.data() + t.offset + o; u64 l = strnlen(p, t.size - o); if (l == t.size - o) return false; r.assign(p, l); return true; }; int tabs = 0, ntext = 0, nmatch = 0;
		if (st.type != 3) ok = false;
		for (size_t i = 0; ok && i < sh.size(); i++) { auto& s = sh[i]; if (s.type == 2 || s.type == 11) tabs++; string nm; if (!name(st, s.name, nm)) { ok = false; break; } if (s.type == 1 && nm == ".text") ntext++, w.text = s.addr, w.textend = s.addr + s.size, w.text_ok = s.addr + s.size > s.addr; if (s.type == 1 && nm == ".text" && !in(s.offset, s.size)) ok = false; if (nm == ".text" && s.type != 1) ok = false;
			for (auto& g : w.segs) if (nm == ".text" && s.addr >= g.va && s.addr + s.size <= g.va + g.fsz) nmatch++; }
		for (size_t i = 0; ok && i < sh.size(); i++) { auto& s = sh[i]; if (s.type != 2 && s.type != 11) continue; if (s.link >= sh.size() || sh[s.link].type != 3 || s.entsize != 24 || s.size % 24) { ok = false; break; } for (u64 k = 0; k < s.size / 24; k++) { elfgen::Sym y; memcpy(&y, b.data() + s.offset + k * 24, 24); string nm; if (!name(sh[s.link], y.name, nm)) { ok = false; continue; } int ty = y.info & 15; if ((ty == 1 || ty == 2) && y.shndx && y.value && !nm.empty()) w.syms.push_back({ nm, y.value }); } }
		if (tabs > 1) ok = false; if (ntext > 1 || (ntext && nmatch > 1)) ok = false; w.sections_ok = ok; if (!ok) { w.syms.clear(); either = true; } }
	else if (!ok) either = true;
	w.verdict = either ? Want::EITHER : Want::LOAD; return w;
}
struct Area { uint8_t* mid; static constexpr u64 HUGE_ = 8ull << 30, SZ = 1 << 20; Area() { auto* p = (uint8_t*)mmap(nullptr, 2 * HUGE_ + SZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mid = p + HUGE_; mprotect(mid, SZ, PROT_READ | PROT_WRITE); __asan_poison_memory_region(mid, SZ); }
	uint8_t* place(const Bytes& b) { auto* p = mid + SZ - b.size(); if (b.size()) { __asan_unpoison_memory_region(p, b.size()); memcpy(p, b.data(), b.size()); } return p; } void done(const Bytes& b) { if (b.size()) __asan_poison_memory_region(mid + SZ - b.size(), b.size()); } };
static u64 vmsize() { FILE* f = fopen("/proc/self/statm", "r"); unsigned long v = 0; fscanf(f, "%lu", &v); fclose(f); return v * PG; }
static bool try_load(uint8_t* p, u64 n, std::unique_ptr<Machine>& m, const std::shared_ptr<MachineOptions>& o, string& what) { try { m = std::make_unique<Machine>(std::string_view((char*)p, n), *o); m->set_options(o); return true; } catch (const MachineException& e) { what = e.what(); return false; } catch (const std::bad_alloc&) { what = "bad_alloc"; return false; } }
static void load(Ctx& c, const Bytes& b, const string& who, bool leaks = false, uint8_t* custom = nullptr) {
	static Area area; static auto opt = [] { auto o = std::make_shared<MachineOptions>(); o->memory_max = MM; o->brk_size = BRK; o->stack_size = STK; o->use_shared_execute_segments = false; return o; }(); auto o = opt; if (custom) { o = std::make_shared<MachineOptions>(*opt); o->custom_arena_pointer = custom; o->custom_arena_size = MM + 64; }
	c.at("%s", who.c_str()); c.transitions(); Want w = read_elf(b); auto* p = area.place(b); std::unique_ptr<Machine> m; string what; u64 vm = leaks ? vmsize() : 0; bool ok = try_load(p, b.size(), m, o, what); auto fin = [&] { m.reset(); area.done(b); };
	if (leaks && !ok && vmsize() >= vm + MM) { vm = vmsize(); for (int i = 0; i < 16; i++) try_load(p, b.size(), m, o, what); if (vmsize() >= vm + 15 * MM) c.fail("leak", who + ": refused (" + what + "), but the guest memory stays allocated"); }
	if (b.empty()) return fin(); if (ok && w.verdict == Want::REJECT) { c.fail("accepted:" + w.why, who + ": loaded although it has " + w.why); return fin(); } if (!ok) { if (w.verdict == Want::LOAD) c.fail("refused", who + ": a well-formed program is refused: " + what); return fin(); }
	c.nontrivial(); const uint8_t* A = (const uint8_t*)m->memory.arena_ptr(); static Bytes exp; exp.assign(MM, 0); for (auto& s : w.segs) if (s.fsz) memcpy(exp.data() + s.va, b.data() + s.off, s.fsz);
	bool overlap = false; for (size_t i = 0; i < w.segs.size(); i++) for (size_t j = 0; j < i; j++) if (w.segs[i].va < w.segs[j].va + w.segs[j].msz && w.segs[j].va < w.segs[i].va + w.segs[i].msz) overlap = true;
	if (!overlap) { bool eq; if (custom) { eq = true; for (auto& s : w.segs) if (memcmp(A + s.va, exp.data() + s.va, s.msz)) eq = false; } else eq = !memcmp(A, exp.data(), MM); if (!eq) { u64 i = 0; while (A[i] == exp[i] || (custom && std::none_of(w.segs.begin(), w.segs.end(), [&](auto& s) { return i >= s.va && i < s.va + s.msz; }))) i++; c.fail("contents", who + fmt(": memory at %#lx is %02x, the file says %02x", (long)i, A[i], exp[i])); return fin(); } }
	if (custom) { u64 h = m->memory.heap_address(), a = m->memory.mmap_allocate(3 * PG); for (u64 i = 0; i < 3 * PG; i++) if (A[a + i] || (i < BRK && A[h + i])) { c.fail("custom:zero", who + fmt(": new memory at %#lx holds old data", (long)(A[a + i] ? a + i : h + i))); break; } }
	if ((u64)m->cpu.pc() != w.entry) c.fail("entry", who + fmt(": starts at %#lx, the file's entry is %#lx", (long)m->cpu.pc(), (long)w.entry));
	if (w.sections_ok) for (auto& s : w.syms) { u64 a = m->address_of(s.first); bool f = false; for (auto& t : w.syms) if (t.first == s.first && t.second == a) f = true; if (!f) { c.fail("symbols", who + fmt(": symbol '%s' is at %#lx, the file says %#lx", s.first.c_str(), (long)a, (long)s.second)); break; } }
	if (m->address_of("no such symbol")) c.fail("symbols", who + ": an unknown symbol has an address");
	// run it from its entry, and every known code word
	auto run = [&](u64 pc) { m->cpu.registers().get(4) = 0; m->cpu.registers().pc = pc; try { m->simulate(64, 0); } catch (const MachineException& e) { return false; } return true; }; run(w.entry);
	if (!overlap && w.verdict != Want::EITHER) { bool text = false; for (auto& s : w.segs) if (w.text_ok && w.text >= s.va && w.textend <= s.va + s.fsz) text = true;
		for (auto& s : w.segs) if (s.x && s.va % 4 == 0) { bool mine = text && w.text >= s.va && w.textend <= s.va + s.fsz; u64 lo = mine ? w.text : s.va, hi = mine ? w.textend : s.va + s.fsz; if (lo % 4) continue; for (u64 a = lo; a + 8 <= hi; a += 4) { u32 i, j; memcpy(&i, b.data() + s.off + (a - s.va), 4); memcpy(&j, b.data() + s.off + (a - s.va) + 4, 4); if ((i & 0xffc003ff) != 0x03800004 || j != STOP) continue; if (!run(a) || m->cpu.registers().get(4) != (i >> 10 & 0xfff)) { c.fail("code", who + fmt(": the instruction at %#lx does not run as in the file (a0=%#lx)", (long)a, (long)m->cpu.registers().get(4))); return fin(); } } } }
	c.state(mix(w.entry, w.segs.size() * 64 + w.syms.size() + (custom != nullptr))); if (c.want_sample()) c.sample(who + ": loaded"); fin();
}
int main(int argc, char** argv) {
	Check chk(argc, argv, "C12"); bool T = chk.thorough();
	chk.rule("well-formed ELF files with every truncation, every boundary value in every header, segment, section and symbol field, and every pair of such values, loaded from a file buffer surrounded by inaccessible memory; outcome, memory, entry, symbols and code compared with an independent reading of the file");
	chk.assume("files whose section headers or symbol tables are damaged, or with an unknown class, byte order, version or type, may be loaded or refused"); chk.assume("overlapping segments have no defined contents");
	chk.section("valid", [](Ctx& c) { auto& b = c.pick(bases(), "image"); load(c, b.im.file, b.name, true); c.traces(); }, { .split_depth = 1 });
	chk.section("single", [](Ctx& c) { auto& b = c.pick(bases(), "image"); static std::vector<std::vector<Field>> fs = [] { std::vector<std::vector<Field>> v; for (auto& b : bases()) v.push_back(fields(b.im, true)); return v; }(); auto& f = c.pick(fs[&b - bases().data()], "field"); for (u64 v : values(b.im.file, f, 1)) { Bytes m = b.im.file; put(m, f, v); c.crash_key("crash:" + f.name.substr(0, f.name.find('[')) + f.name.substr(f.name.find('.') + 1)); load(c, m, fmt("%s, %s = %#lx", b.name.c_str(), f.name.c_str(), (long)v), true); } c.traces(); }, { .split_depth = 2 });
	chk.section("truncated", [](Ctx& c) { auto& b = c.pick(bases(), "image"); int k = c.choose(16, "part"); for (u64 n = k; n < b.im.file.size(); n += 16) { load(c, Bytes(b.im.file.begin(), b.im.file.begin() + n), fmt("%s, first %ld bytes", b.name.c_str(), (long)n), n % 8 == 0); Bytes z = b.im.file; std::fill(z.begin() + n, z.end(), 0); load(c, z, fmt("%s, zeroes from byte %ld", b.name.c_str(), (long)n)); std::fill(z.begin() + n, z.end(), 0xff); load(c, z, fmt("%s, ones from byte %ld", b.name.c_str(), (long)n)); } c.traces(); }, { .split_depth = 2 });
	chk.section("bytes", [T](Ctx& c) { auto& b = c.pick(bases(), "image"); int k = c.choose(32, "part"); for (u64 n = k; n < b.im.file.size(); n += 32) for (int v = 0; v < 256; v += T || n < 64 ? 1 : 15) { Bytes z = b.im.file; if (z[n] == v) continue; z[n] = v; load(c, z, fmt("%s, byte %ld = %02x", b.name.c_str(), (long)n, v)); } c.traces(); }, { .split_depth = 2 });
	chk.section("strings", [](Ctx& c) { auto& b = c.pick(bases(), "image"); if (!b.im.shnum) c.prune(); int which = c.choose(3, "table"); auto cut = c.pick(std::vector<int>{ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 }, "cut"); bool last = c.flag("last"); Bytes z = b.im.file; auto* s0 = (elfgen::Shdr*)(z.data() + b.im.shoff); int idx = -1; for (int i = 0; i < b.im.shnum; i++) if (s0[i].type == 3 && (which == 0 || which == 2) == (s0[i].offset == b.im.stroff)) idx = i; auto s = s0[idx]; s.size -= std::min<u64>(cut, s.size); s0[idx] = s;
		if (which == 2) { for (u64 i = 0; i < b.im.nsyms; i++) { auto* y = (elfgen::Sym*)(z.data() + b.im.symoff) + i; y->name = s.size > 2 ? s.size - 2 : 0; } } for (u64 i = s.offset; i < s.offset + s.size + cut; i++) if (!z[i]) z[i] = 'A'; if (last) { // move the table to the end of the file
			Bytes t(z.begin() + s.offset, z.begin() + s.offset + s.size); u64 o = z.size(); z.insert(z.end(), t.begin(), t.end()); ((elfgen::Shdr*)(z.data() + b.im.shoff))[idx].offset = o; } load(c, z, fmt("%s, table %d unterminated, cut by %d%s", b.name.c_str(), which, cut, last ? ", at the end of the file" : "")); c.traces(); }, { .split_depth = 2 });
	chk.section("pairs", [T](Ctx& c) { auto& b = c.pick(bases(), "image"); static std::vector<std::vector<Field>> fs = [] { std::vector<std::vector<Field>> v; for (auto& b : bases()) v.push_back(fields(b.im, false)); return v; }(); auto& F = fs[&b - bases().data()]; int i = c.choose(F.size(), "field"); auto& f = F[i]; auto vals = values(b.im.file, f, T ? 1 : 0); for (u64 v : vals) { Bytes m = b.im.file; put(m, f, v); for (size_t j = i + 1; j < F.size(); j++) { auto& g = F[j]; c.crash_key("crash:" + f.name.substr(0, f.name.find('[')) + f.name.substr(f.name.find('.') + 1) + "," + g.name.substr(0, g.name.find('[')) + g.name.substr(g.name.find('.') + 1)); for (u64 x : values(m, g, 0)) { Bytes q = m; put(q, g, x); load(c, q, fmt("%s, %s = %#lx, %s = %#lx", b.name.c_str(), f.name.c_str(), (long)v, g.name.c_str(), (long)x)); } } } c.traces(); }, { .split_depth = 2, .timeout_s = 600 });
	// the host's own arena: holds old data, and stays the host's
	chk.section("custom arena", [](Ctx& c) { auto& b = c.pick(bases(), "image"); int off = c.flag("unaligned") ? 0x40 : 0; auto* p = (uint8_t*)mmap(nullptr, MM + 3 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p, PG, PROT_NONE); memset(p + PG, 0xA5, MM + 2 * PG); string who = b.name + " in an arena of the host"; load(c, b.im.file, who, false, p + PG + off); c.at("%s, after the machine is gone", who.c_str()); c.crash_key("custom:unmapped"); volatile uint8_t s = 0; for (u64 i = 0; i < MM + PG; i += 64) s += p[PG + i]; for (u64 i = off + MM + 64; i < MM + 2 * PG; i++) if (p[PG + i] != 0xA5) { c.fail("custom:outside", who + fmt(": byte %ld after the arena was changed", (long)(i - MM - off))); break; } munmap(p, MM + 3 * PG); c.traces(); }, { .split_depth = 1 });
	return chk.finish();
}
