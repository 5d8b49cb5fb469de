// Reference model of LoongArch (LA64 + LSX/LASX subset), written from the architecture
// manual; independent of libloong's decoder and handlers.  The encodings come from the
// GNU binutils opcode table (optable.inc).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace ref {

union V256 { uint8_t b[32]; uint16_t h[16]; uint32_t w[8]; uint64_t d[4]; unsigned __int128 q[2]; float f[8]; double g[4]; };

struct Fault { uint64_t addr; };      // memory access refused

// guest memory as the reference sees it
struct Mem {
	virtual void load(uint64_t addr, void* p, unsigned n) = 0;       // may throw Fault
	virtual void store(uint64_t addr, const void* p, unsigned n) = 0;
};

struct State {
	uint64_t r[32]; V256 v[32]; uint8_t cf[8]; uint32_t fcsr; uint64_t pc; bool ll; uint64_t ll_addr;
	uint16_t vdef[32];                // number of defined low bits in v[i]
};

enum Result {
	OK,              // executed; pc already advanced or redirected
	UNDEF,           // the manual leaves the result undefined for this encoding/operands
	NOREF,           // no reference for this instruction
	RESERVED,        // no instruction has this encoding
	TRAP,            // syscall / break / always-exception
	FAULTED
};

struct Op { const char* name; uint32_t match, mask; const char* fmt; };
extern const Op optable[]; extern const int nops;
const Op* find(uint32_t w);           // nullptr: reserved
const Op* find_name(const std::string& n);
bool has_ref(const Op* op);
Result exec(State& s, uint32_t w, Mem& m);
Result exec_op(State& s, const Op* op, uint32_t w, Mem& m, bool mem);   // same, decoded already

// operand fields of an instruction
struct Field { char kind; /* r f v x c u s o(ffset signed) b(ranch) q(fcsr) */ int pos, len; int pos2 = 0, len2 = 0; int shift = 0; bool plus1 = false; };
std::vector<Field> fields(const Op* op);
uint32_t put(uint32_t w, const Field& f, int64_t v);   // raw field value
int64_t get(uint32_t w, const Field& f);               // raw (zero-extended) field value
inline unsigned width(const Field& f) { return f.len + f.len2; }

// which result bits may differ because the manual leaves them open (NaN payloads)
enum Kind { K_INT, K_F32, K_F64, K_V };
struct Lax { bool nan32 = false, nan64 = false; bool zero_sign = false; };
Lax lax(const Op* op);
bool is_mem(const Op* op);            // accesses memory
bool is_branch(const Op* op);

} // namespace ref
