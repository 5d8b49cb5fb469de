// Builds small LoongArch ELF files.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace elfgen {
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16;
struct Ehdr { uint8_t ident[16]; u16 type, machine; u32 version; u64 entry, phoff, shoff; u32 flags; u16 ehsize, phentsize, phnum, shentsize, shnum, shstrndx; };
struct Phdr { u32 type, flags; u64 offset, vaddr, paddr, filesz, memsz, align; };
struct Shdr { u32 name, type; u64 flags, addr, offset, size; u32 link, info; u64 addralign, entsize; };
struct Sym { u32 name; uint8_t info, other; u16 shndx; u64 value, size; };
enum { R = 4, W = 2, X = 1 };
struct Seg { u64 vaddr; u32 flags; std::vector<uint8_t> bytes; u64 memsz = 0; };
struct Symbol { std::string name; u64 value, size; uint8_t type = 2; };
struct Section { std::string name; u32 type; u64 addr; u64 offset, size; u32 link = 0; };
struct Image { // offsets of the parts, for mutation
	std::vector<uint8_t> file; u64 phoff = 64, shoff = 0, symoff = 0, stroff = 0, shstroff = 0; int phnum = 0, shnum = 0, nsyms = 0; std::vector<u64> segoff;
	Ehdr* ehdr() { return (Ehdr*)file.data(); } Phdr* phdr(int i) { return (Phdr*)(file.data() + phoff) + i; } Shdr* shdr(int i) { return (Shdr*)(file.data() + shoff) + i; }
};
inline std::vector<uint8_t> words(const std::vector<u32>& w) { std::vector<uint8_t> b(w.size() * 4); memcpy(b.data(), w.data(), b.size()); return b; }
// text: (address, size) of a .text section, or size 0 for no sections at all
inline Image build(const std::vector<Seg>& segs, u64 entry, const std::vector<Symbol>& syms = {}, u64 text = 0, u64 textsize = 0, bool sections = false, u64 iplt = 0, bool dynamic = false) {
	Image im; auto& f = im.file; im.phnum = segs.size(); f.resize(64 + segs.size() * sizeof(Phdr));
	std::vector<Phdr> ph; for (auto& s : segs) { while (f.size() % 16) f.push_back(0); im.segoff.push_back(f.size()); ph.push_back({ 1, s.flags, f.size(), s.vaddr, s.vaddr, s.bytes.size(), s.memsz ? s.memsz : s.bytes.size(), 0x1000 }); f.insert(f.end(), s.bytes.begin(), s.bytes.end()); }
	std::vector<Shdr> sh;
	if (sections || syms.size() || textsize) {
		while (f.size() % 8) f.push_back(0); im.symoff = f.size(); std::string str("\0", 1); std::vector<Sym> sv{ Sym{} }; for (auto& s : syms) { sv.push_back({ (u32)str.size(), s.type, 0, 1, s.value, s.size }); str += s.name; str.push_back(0); } im.nsyms = sv.size(); auto* p = (uint8_t*)sv.data(); f.insert(f.end(), p, p + sv.size() * sizeof(Sym));
		im.stroff = f.size(); f.insert(f.end(), str.begin(), str.end()); u64 strend = f.size(); im.shstroff = f.size(); std::string ss("\0.text\0.symtab\0.strtab\0.shstrtab\0.iplt\0", 39); f.insert(f.end(), ss.begin(), ss.end()); u64 ssend = f.size(); while (f.size() % 8) f.push_back(0);
		u64 toff = 0; for (size_t i = 0; i < segs.size(); i++) if (text >= segs[i].vaddr && text < segs[i].vaddr + segs[i].bytes.size()) toff = im.segoff[i] + text - segs[i].vaddr;
		sh = { Shdr{}, { textsize ? 1u : 0u, 1, 6, text, toff, textsize, 0, 0, 4, 0 }, { 7, 2, 0, 0, im.symoff, sv.size() * sizeof(Sym), 3, 1, 8, 24 }, { 15, 3, 0, 0, im.stroff, strend - im.stroff, 0, 0, 1, 0 }, { 23, 3, 0, 0, im.shstroff, ssend - im.shstroff, 0, 0, 1, 0 } };
		if (dynamic) { auto t = sh[2]; t.type = 11; sh.push_back(t); sh[2].type = 0x6ffffff0; }
		if (iplt) { auto t = sh[1]; t.name = 33; t.addr = iplt; t.offset -= text - iplt; t.size = text - iplt; sh[0] = Shdr{}; sh.insert(sh.begin() + 1, t); for (auto& x : sh) if (x.type == 2 || x.type == 11) x.link++; }
		im.shoff = f.size(); im.shnum = sh.size(); auto* q = (uint8_t*)sh.data(); f.insert(f.end(), q, q + sh.size() * sizeof(Shdr));
	}
	Ehdr h{ { 0x7f, 'E', 'L', 'F', 2, 1, 1 }, 2, 258, 1, entry, im.phoff, im.shoff, 0, 64, sizeof(Phdr), (u16)im.phnum, sizeof(Shdr), (u16)im.shnum, (u16)(im.shnum ? (iplt ? 5 : 4) : 0) };
	memcpy(f.data(), &h, 64); memcpy(f.data() + 64, ph.data(), ph.size() * sizeof(Phdr)); return im;
}
}
