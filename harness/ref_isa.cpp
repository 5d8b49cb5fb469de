#include "ref_isa.hpp"
#include <cmath>
#include <limits>
#include <unordered_map>
#include <map>
#include <functional>
#include <algorithm>
namespace ref {
const Op optable[] = {
#include "optable.inc"
};
const int nops = sizeof(optable) / sizeof(optable[0]);
using i8 = int8_t; using i16 = int16_t; using i32 = int32_t; using i64 = int64_t; using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using i128 = __int128; using u128 = unsigned __int128; using std::string;

static inline i64 sx(u64 v, int bits) { return (i64)(v << (64 - bits)) >> (64 - bits); }
static inline u64 s32(u64 v) { return (u64)(i64)(i32)v; }
struct I { // decoded fields
	u32 w; u32 rd() const { return w & 31; } u32 rj() const { return w >> 5 & 31; } u32 rk() const { return w >> 10 & 31; } u32 ra() const { return w >> 15 & 31; }
	i64 si12() const { return sx(w >> 10 & 0xfff, 12); } u64 ui12() const { return w >> 10 & 0xfff; }
	i64 si14() const { return sx(w >> 10 & 0x3fff, 14); } i64 si16() const { return sx(w >> 10 & 0xffff, 16); } i64 si20() const { return sx(w >> 5 & 0xfffff, 20); }
	u32 ui5() const { return w >> 10 & 31; } u32 ui6() const { return w >> 10 & 63; } u32 ui8() const { return w >> 10 & 255; }
	i64 off21() const { return sx(((u64)(w & 31) << 16) | (w >> 10 & 0xffff), 21) * 4; } i64 off26() const { return sx(((u64)(w & 1023) << 16) | (w >> 10 & 0xffff), 26) * 4; }
};
using Fn = std::function<Result(State&, I, Mem&)>;
static std::unordered_map<string, Fn> T;
static std::vector<const Fn*> FN; static std::map<u32, std::vector<int>> buckets;

static void wr(State& s, u32 d, u64 v) { if (d) s.r[d] = v; }
static void fw32(State& s, u32 d, u32 bits) { s.v[d].w[0] = bits; s.vdef[d] = 32; }
static void fw64(State& s, u32 d, u64 bits) { s.v[d].d[0] = bits; s.vdef[d] = 64; }
static void fwS(State& s, u32 d, float f) { u32 b; memcpy(&b, &f, 4); fw32(s, d, b); }
static void fwD(State& s, u32 d, double f) { u64 b; memcpy(&b, &f, 8); fw64(s, d, b); }
static float fS(State& s, u32 i) { return s.v[i].f[0]; } static double fD(State& s, u32 i) { return s.v[i].g[0]; }
static void vw(State& s, u32 d, const V256& r, bool lasx) { if (lasx) { s.v[d] = r; s.vdef[d] = 256; } else { s.v[d].q[0] = r.q[0]; s.vdef[d] = 128; } }
static u64 rev_bytes(u64 v, int n) { u64 r = 0; for (int i = 0; i < n; i++) r |= (v >> 8 * i & 0xff) << 8 * (n - 1 - i); return r; }
static u64 rev_bits(u64 v, int n) { u64 r = 0; for (int i = 0; i < n; i++) r |= (v >> i & 1) << (n - 1 - i); return r; }
static u32 crc(u32 c, u64 m, int bits, u32 poly) { c ^= 0; for (int i = 0; i < bits; i++) { u32 b = (c ^ (u32)(m >> i)) & 1; c = (c >> 1) ^ (b ? poly : 0); } return c; }
template <class F> static i64 to_int(F x, int bits) { // truncating, saturating
	if (x != x) return 0; F t = std::trunc(x); F lim = std::ldexp((F)1, bits - 1);
	if (t >= lim) return bits == 32 ? INT32_MAX : INT64_MAX; if (t < -lim) return bits == 32 ? INT32_MIN : INT64_MIN; return (i64)t;
}
template <class F, class U> static u32 fclass(F x, U b) {
	constexpr int mb = sizeof(U) == 4 ? 23 : 52, eb = sizeof(U) == 4 ? 8 : 11; U m = b & ((U(1) << mb) - 1), e = b >> mb & ((U(1) << eb) - 1); bool n = b >> (sizeof(U) * 8 - 1);
	if (e == (U(1) << eb) - 1) { if (m) return (m >> (mb - 1)) & 1 ? 2 : 1; return n ? 4 : 64; }
	if (e == 0) { if (m) return n ? 16 : 256; return n ? 32 : 512; }
	return n ? 8 : 128;
}
template <class F> static bool fcond(u32 c, F a, F b) { // cAF..cUNE
	bool un = a != a || b != b, lt = a < b, eq = a == b, gt = a > b;
	switch (c >> 1) { case 0: return false; case 1: return lt; case 2: return eq; case 3: return lt || eq; case 4: return un; case 5: return un || lt; case 6: return un || eq; case 7: return un || lt || eq;
	case 8: return lt || gt; case 10: return lt || gt || eq; case 12: return un || lt || gt; } return false;
}
template <class F> static bool snan(F a) { if (a == a) return false; if (sizeof(F) == 4) { u32 b; memcpy(&b, &a, 4); return !(b >> 22 & 1); } u64 b; memcpy(&b, &a, 8); return !(b >> 51 & 1); }
template <class F> static F fmaxr(F a, F b) { if (snan(a) || snan(b)) return std::numeric_limits<F>::quiet_NaN(); if (a != a) return b; if (b != b) return a; return a > b ? a : b; }
template <class F> static F fminr(F a, F b) { if (snan(a) || snan(b)) return std::numeric_limits<F>::quiet_NaN(); if (a != a) return b; if (b != b) return a; return a < b ? a : b; }
static bool mem_load(Mem& m, u64 a, void* p, int n) { m.load(a, p, n); return true; }

template <class E> struct LaneOf; 
#define LANE(v, E, i) (((E*)(v).b)[i])

// ---- vector helpers: lane loops over 128 or 256 bits
template <class E, class F> static void lanes(V256& r, const V256& a, const V256& b, bool x, F f) { int n = (x ? 32 : 16) / sizeof(E); for (int i = 0; i < n; i++) LANE(r, E, i) = (E)f(LANE((V256&)a, E, i), LANE((V256&)b, E, i)); }
template <class F> static bool by_elem(const string& e, F f) {
	if (e == "b") { f(i8()); return true; } if (e == "h") { f(i16()); return true; } if (e == "w") { f(i32()); return true; } if (e == "d") { f(i64()); return true; }
	if (e == "bu") { f(u8()); return true; } if (e == "hu") { f(u16()); return true; } if (e == "wu") { f(u32()); return true; } if (e == "du") { f(u64()); return true; }
	return false;
}
template <class E, class F> static Fn bin3(bool x, F f) { return [x, f](State& s, I i, Mem&) { V256 r; lanes<E>(r, s.v[i.rj()], s.v[i.rk()], x, f); vw(s, i.rd(), r, x); return OK; }; }
template <class E, class F> static Fn imm2(bool x, F f) { return [x, f](State& s, I i, Mem&) { V256 r; lanes<E>(r, s.v[i.rj()], s.v[i.rj()], x, [&](E a, E) { return f(a, i); }); vw(s, i.rd(), r, x); return OK; }; }
template <class E, class F> static Fn un2(bool x, F f) { return [x, f](State& s, I i, Mem&) { V256 r; lanes<E>(r, s.v[i.rj()], s.v[i.rj()], x, [&](E a, E) { return f(a); }); vw(s, i.rd(), r, x); return OK; }; }
// permutations inside each 128-bit half: f(vd-half index i) -> {source 0=vj 1=vk 2=vd, element}
template <class E, class F> static Fn perm(bool x, F f) { return [x, f](State& s, I i, Mem&) { V256 r; int n = 16 / sizeof(E); for (int h = 0; h < (x ? 2 : 1); h++) for (int k = 0; k < n; k++) { auto [src, e] = f(k, n, i); const V256& v = src == 0 ? s.v[i.rj()] : src == 1 ? s.v[i.rk()] : s.v[i.rd()]; LANE(r, E, h * n + k) = LANE((V256&)v, E, h * n + e); } vw(s, i.rd(), r, x); return OK; }; }

static u64 addr_of(State& s, I i, i64 off) { return s.r[i.rj()] + (u64)off; }
template <class E> static Fn ld(std::function<i64(State&, I)> off) { return [off](State& s, I i, Mem& m) { E e; mem_load(m, s.r[i.rj()] + (u64)off(s, i), &e, sizeof(E)); wr(s, i.rd(), (u64)(i64)e); return OK; }; }
template <class E> static Fn st(std::function<i64(State&, I)> off) { return [off](State& s, I i, Mem& m) { E e = (E)s.r[i.rd()]; m.store(s.r[i.rj()] + (u64)off(s, i), &e, sizeof(E)); return OK; }; }
template <class E, class F> static Fn am(F f) { return [f](State& s, I i, Mem& m) {
	if (i.rd() && (i.rd() == i.rj() || i.rd() == i.rk())) return UNDEF; u64 a = s.r[i.rj()]; if (a % sizeof(E)) return UNDEF;
	E o; m.load(a, &o, sizeof(E)); E n = f(o, (E)s.r[i.rk()]); m.store(a, &n, sizeof(E)); wr(s, i.rd(), (u64)(i64)(std::make_signed_t<E>)o); return OK; }; }

static void build() {
	auto R3 = [&](const char* n, auto f) { T[n] = [f](State& s, I i, Mem&) { wr(s, i.rd(), (u64)f(s.r[i.rj()], s.r[i.rk()])); return OK; }; };
	auto R2 = [&](const char* n, auto f) { T[n] = [f](State& s, I i, Mem&) { wr(s, i.rd(), (u64)f(s.r[i.rj()])); return OK; }; };
	auto RI = [&](const char* n, auto f) { T[n] = [f](State& s, I i, Mem&) { wr(s, i.rd(), (u64)f(s.r[i.rj()], i)); return OK; }; };
	// ---- integer
	R3("add.w", [](u64 a, u64 b) { return s32(a + b); }); R3("add.d", [](u64 a, u64 b) { return a + b; });
	R3("sub.w", [](u64 a, u64 b) { return s32(a - b); }); R3("sub.d", [](u64 a, u64 b) { return a - b; });
	R3("slt", [](u64 a, u64 b) { return u64((i64)a < (i64)b); }); R3("sltu", [](u64 a, u64 b) { return u64(a < b); });
	R3("maskeqz", [](u64 a, u64 b) { return b == 0 ? 0 : a; }); R3("masknez", [](u64 a, u64 b) { return b != 0 ? 0 : a; });
	R3("nor", [](u64 a, u64 b) { return ~(a | b); }); R3("and", [](u64 a, u64 b) { return a & b; }); R3("or", [](u64 a, u64 b) { return a | b; }); R3("xor", [](u64 a, u64 b) { return a ^ b; });
	R3("orn", [](u64 a, u64 b) { return a | ~b; }); R3("andn", [](u64 a, u64 b) { return a & ~b; });
	R3("sll.w", [](u64 a, u64 b) { return s32((u32)a << (b & 31)); }); R3("srl.w", [](u64 a, u64 b) { return s32((u32)a >> (b & 31)); }); R3("sra.w", [](u64 a, u64 b) { return s32((i32)a >> (b & 31)); });
	R3("sll.d", [](u64 a, u64 b) { return a << (b & 63); }); R3("srl.d", [](u64 a, u64 b) { return a >> (b & 63); }); R3("sra.d", [](u64 a, u64 b) { return u64((i64)a >> (b & 63)); });
	auto ror32 = [](u32 a, u32 n) { n &= 31; return n ? (a >> n | a << (32 - n)) : a; }; auto ror64 = [](u64 a, u32 n) { n &= 63; return n ? (a >> n | a << (64 - n)) : a; };
	R3("rotr.w", [=](u64 a, u64 b) { return s32(ror32((u32)a, (u32)b)); }); R3("rotr.d", [=](u64 a, u64 b) { return ror64(a, (u32)b); });
	R3("mul.w", [](u64 a, u64 b) { return s32(a * b); }); R3("mulh.w", [](u64 a, u64 b) { return s32((u64)((i64)(i32)a * (i64)(i32)b) >> 32); }); R3("mulh.wu", [](u64 a, u64 b) { return s32(((u64)(u32)a * (u32)b) >> 32); });
	R3("mul.d", [](u64 a, u64 b) { return a * b; }); R3("mulh.d", [](u64 a, u64 b) { return (u64)(((i128)(i64)a * (i64)b) >> 64); }); R3("mulh.du", [](u64 a, u64 b) { return (u64)(((u128)a * b) >> 64); });
	R3("mulw.d.w", [](u64 a, u64 b) { return (u64)((i64)(i32)a * (i32)b); }); R3("mulw.d.wu", [](u64 a, u64 b) { return (u64)(u32)a * (u32)b; });
	// division: by zero the result is any value (checked separately: no crash, nothing else changes)
	auto D3 = [&](const char* n, bool w32, auto f) { T[n] = [f, w32](State& s, I i, Mem&) { u64 a = s.r[i.rj()], b = s.r[i.rk()];
		if (w32 && (s32(a) != a || s32(b) != b)) return UNDEF; // operands of 32-bit division must be sign-extended
		if ((w32 ? (u32)b : b) == 0) { return i.rd() ? UNDEF : OK; } wr(s, i.rd(), (u64)f(a, b)); return OK; }; };
	D3("div.w", true, [](u64 a, u64 b) { return s32((u64)((i64)(i32)a / (i64)(i32)b)); }); D3("mod.w", true, [](u64 a, u64 b) { return s32((u64)((i64)(i32)a % (i64)(i32)b)); });
	D3("div.wu", true, [](u64 a, u64 b) { return s32((u32)a / (u32)b); }); D3("mod.wu", true, [](u64 a, u64 b) { return s32((u32)a % (u32)b); });
	D3("div.d", false, [](u64 a, u64 b) { return (u64)(i64)((i128)(i64)a / (i64)b); }); D3("mod.d", false, [](u64 a, u64 b) { return (u64)(i64)((i128)(i64)a % (i64)b); });
	D3("div.du", false, [](u64 a, u64 b) { return a / b; }); D3("mod.du", false, [](u64 a, u64 b) { return a % b; });
	{ u32 p[2] = {0xEDB88320u, 0x82F63B78u}; const char* nm[2] = {"crc", "crcc"}; const char* e[4] = {"b", "h", "w", "d"};
	  for (int k = 0; k < 2; k++) for (int j = 0; j < 4; j++) { u32 poly = p[k]; int bits = 8 << j; R3((string(nm[k]) + ".w." + e[j] + ".w").c_str(), [=](u64 a, u64 b) { return s32(crc((u32)b, a, bits, poly)); }); } }
	RI("alsl.w", [](u64 a, I i) { return 0; }); 
	auto R3I = [&](const char* n, auto f) { T[n] = [f](State& s, I i, Mem&) { wr(s, i.rd(), (u64)f(s.r[i.rj()], s.r[i.rk()], i)); return OK; }; };
	R3I("alsl.w", [](u64 a, u64 b, I i) { return s32((a << ((i.w >> 15 & 3) + 1)) + b); }); R3I("alsl.wu", [](u64 a, u64 b, I i) { return (u64)(u32)((a << ((i.w >> 15 & 3) + 1)) + b); }); R3I("alsl.d", [](u64 a, u64 b, I i) { return (a << ((i.w >> 15 & 3) + 1)) + b; });
	R3I("bytepick.w", [](u64 a, u64 b, I i) { int sa = 8 * (i.w >> 15 & 3); return sa ? s32(((u32)b << sa) | ((u32)a >> (32 - sa))) : s32(b); });
	R3I("bytepick.d", [](u64 a, u64 b, I i) { int sa = 8 * (i.w >> 15 & 7); return sa ? (b << sa) | (a >> (64 - sa)) : b; });
	RI("slli.w", [](u64 a, I i) { return s32((u32)a << i.ui5()); }); RI("srli.w", [](u64 a, I i) { return s32((u32)a >> i.ui5()); }); RI("srai.w", [](u64 a, I i) { return s32((i32)a >> i.ui5()); }); RI("rotri.w", [=](u64 a, I i) { return s32(ror32((u32)a, i.ui5())); });
	RI("slli.d", [](u64 a, I i) { return a << i.ui6(); }); RI("srli.d", [](u64 a, I i) { return a >> i.ui6(); }); RI("srai.d", [](u64 a, I i) { return u64((i64)a >> i.ui6()); }); RI("rotri.d", [=](u64 a, I i) { return ror64(a, i.ui6()); });
	RI("slti", [](u64 a, I i) { return u64((i64)a < i.si12()); }); RI("sltui", [](u64 a, I i) { return u64(a < (u64)i.si12()); });
	RI("addi.w", [](u64 a, I i) { return s32(a + (u64)i.si12()); }); RI("addi.d", [](u64 a, I i) { return a + (u64)i.si12(); });
	RI("lu52i.d", [](u64 a, I i) { return (a & 0xFFFFFFFFFFFFFull) | (i.ui12() << 52); }); RI("andi", [](u64 a, I i) { return a & i.ui12(); }); RI("ori", [](u64 a, I i) { return a | i.ui12(); }); RI("xori", [](u64 a, I i) { return a ^ i.ui12(); });
	RI("addu16i.d", [](u64 a, I i) { return a + ((u64)i.si16() << 16); });
	T["lu12i.w"] = [](State& s, I i, Mem&) { wr(s, i.rd(), s32((u64)i.si20() << 12)); return OK; };
	T["lu32i.d"] = [](State& s, I i, Mem&) { wr(s, i.rd(), (s.r[i.rd()] & 0xffffffffu) | ((u64)i.si20() << 32)); return OK; };
	T["pcaddi"] = [](State& s, I i, Mem&) { wr(s, i.rd(), s.pc + (u64)i.si20() * 4); return OK; };
	T["pcalau12i"] = [](State& s, I i, Mem&) { wr(s, i.rd(), (s.pc + ((u64)i.si20() << 12)) & ~0xfffull); return OK; };
	T["pcaddu12i"] = [](State& s, I i, Mem&) { wr(s, i.rd(), s.pc + ((u64)i.si20() << 12)); return OK; };
	T["pcaddu18i"] = [](State& s, I i, Mem&) { wr(s, i.rd(), s.pc + ((u64)i.si20() << 18)); return OK; };
	auto bs = [&](const char* n, bool d, bool ins) { T[n] = [d, ins](State& s, I i, Mem&) { u32 l = d ? i.ui6() : i.ui5(), m = d ? i.w >> 16 & 63 : i.w >> 16 & 31; if (m < l) return UNDEF;
		u64 mask = (m - l == 63) ? ~0ull : ((1ull << (m - l + 1)) - 1); u64 a = s.r[i.rj()], r = ins ? (s.r[i.rd()] & ~(mask << l)) | ((a & mask) << l) : (a >> l) & mask; if (!d) { if (!ins) r = ((u32)a >> l) & mask; r = s32(r); } wr(s, i.rd(), r); return OK; }; };
	bs("bstrins.w", false, true); bs("bstrpick.w", false, false); bs("bstrins.d", true, true); bs("bstrpick.d", true, false);
	R2("clo.w", [](u64 a) { u32 v = ~(u32)a; return v ? __builtin_clz(v) : 32; }); R2("clz.w", [](u64 a) { u32 v = (u32)a; return v ? __builtin_clz(v) : 32; }); R2("cto.w", [](u64 a) { u32 v = ~(u32)a; return v ? __builtin_ctz(v) : 32; }); R2("ctz.w", [](u64 a) { u32 v = (u32)a; return v ? __builtin_ctz(v) : 32; });
	R2("clo.d", [](u64 a) { u64 v = ~a; return v ? __builtin_clzll(v) : 64; }); R2("clz.d", [](u64 v) { return v ? __builtin_clzll(v) : 64; }); R2("cto.d", [](u64 a) { u64 v = ~a; return v ? __builtin_ctzll(v) : 64; }); R2("ctz.d", [](u64 v) { return v ? __builtin_ctzll(v) : 64; });
	auto per = [](u64 a, int eb, int n, auto f) { u64 r = 0; u64 m = eb == 64 ? ~0ull : (1ull << eb) - 1; for (int i = 0; i < n; i++) r |= (f(a >> (eb * i) & m) & m) << (eb * i); return r; };
	R2("revb.2h", [=](u64 a) { return s32(per(a, 16, 2, [](u64 x) { return rev_bytes(x, 2); })); }); R2("revb.4h", [=](u64 a) { return per(a, 16, 4, [](u64 x) { return rev_bytes(x, 2); }); }); R2("revb.2w", [=](u64 a) { return per(a, 32, 2, [](u64 x) { return rev_bytes(x, 4); }); }); R2("revb.d", [](u64 a) { return rev_bytes(a, 8); });
	R2("revh.2w", [=](u64 a) { return per(a, 32, 2, [](u64 x) { return (x >> 16) | (x & 0xffff) << 16; }); }); R2("revh.d", [](u64 a) { return (a >> 48) | (a >> 32 & 0xffff) << 16 | (a >> 16 & 0xffff) << 32 | (a & 0xffff) << 48; });
	R2("bitrev.4b", [=](u64 a) { return s32(per(a, 8, 4, [](u64 x) { return rev_bits(x, 8); })); }); R2("bitrev.8b", [=](u64 a) { return per(a, 8, 8, [](u64 x) { return rev_bits(x, 8); }); }); R2("bitrev.w", [](u64 a) { return s32(rev_bits((u32)a, 32)); }); R2("bitrev.d", [](u64 a) { return rev_bits(a, 64); });
	R2("ext.w.h", [](u64 a) { return (u64)sx(a & 0xffff, 16); }); R2("ext.w.b", [](u64 a) { return (u64)sx(a & 0xff, 8); });
	T["dbar"] = T["ibar"] = T["preld"] = [](State&, I, Mem&) { return OK; };
	T["syscall"] = T["break"] = [](State&, I, Mem&) { return TRAP; };
	// ---- branches
	auto BR = [&](const char* n, auto f) { T[n] = [f](State& s, I i, Mem&) { if (f(s.r[i.rj()], s.r[i.rd()])) { s.pc += (u64)i.si16() * 4 - 4; } return OK; }; };
	BR("beq", [](u64 a, u64 b) { return a == b; }); BR("bne", [](u64 a, u64 b) { return a != b; }); BR("blt", [](u64 a, u64 b) { return (i64)a < (i64)b; }); BR("bge", [](u64 a, u64 b) { return (i64)a >= (i64)b; }); BR("bltu", [](u64 a, u64 b) { return a < b; }); BR("bgeu", [](u64 a, u64 b) { return a >= b; });
	T["beqz"] = [](State& s, I i, Mem&) { if (s.r[i.rj()] == 0) s.pc += i.off21() - 4; return OK; }; T["bnez"] = [](State& s, I i, Mem&) { if (s.r[i.rj()] != 0) s.pc += i.off21() - 4; return OK; };
	T["bceqz"] = [](State& s, I i, Mem&) { if (!s.cf[i.w >> 5 & 7]) s.pc += i.off21() - 4; return OK; }; T["bcnez"] = [](State& s, I i, Mem&) { if (s.cf[i.w >> 5 & 7]) s.pc += i.off21() - 4; return OK; };
	T["b"] = [](State& s, I i, Mem&) { s.pc += i.off26() - 4; return OK; }; T["bl"] = [](State& s, I i, Mem&) { s.r[1] = s.pc + 4; s.pc += i.off26() - 4; return OK; };
	T["jirl"] = [](State& s, I i, Mem&) { u64 t = s.r[i.rj()] + (u64)i.si16() * 4; wr(s, i.rd(), s.pc + 4); s.pc = t - 4; return OK; };
	// ---- memory
	auto o12 = [](State&, I i) { return i.si12(); }; auto ox = [](State& s, I i) { return (i64)s.r[i.rk()]; }; auto o14 = [](State&, I i) { return i.si14() * 4; };
	T["ld.b"] = ld<i8>(o12); T["ld.h"] = ld<i16>(o12); T["ld.w"] = ld<i32>(o12); T["ld.d"] = ld<i64>(o12); T["ld.bu"] = ld<u8>(o12); T["ld.hu"] = ld<u16>(o12); T["ld.wu"] = ld<u32>(o12);
	T["ldx.b"] = ld<i8>(ox); T["ldx.h"] = ld<i16>(ox); T["ldx.w"] = ld<i32>(ox); T["ldx.d"] = ld<i64>(ox); T["ldx.bu"] = ld<u8>(ox); T["ldx.hu"] = ld<u16>(ox); T["ldx.wu"] = ld<u32>(ox);
	T["ldptr.w"] = ld<i32>(o14); T["ldptr.d"] = ld<i64>(o14); T["stptr.w"] = st<u32>(o14); T["stptr.d"] = st<u64>(o14);
	T["st.b"] = st<u8>(o12); T["st.h"] = st<u16>(o12); T["st.w"] = st<u32>(o12); T["st.d"] = st<u64>(o12); T["stx.b"] = st<u8>(ox); T["stx.h"] = st<u16>(ox); T["stx.w"] = st<u32>(ox); T["stx.d"] = st<u64>(ox);
	auto FL = [&](const char* n, int sz, auto off) { T[n] = [sz, off](State& s, I i, Mem& m) { u64 e = 0; m.load(s.r[i.rj()] + (u64)off(s, i), &e, sz); if (sz == 4) fw32(s, i.rd(), (u32)e); else fw64(s, i.rd(), e); return OK; }; };
	auto FS = [&](const char* n, int sz, auto off) { T[n] = [sz, off](State& s, I i, Mem& m) { m.store(s.r[i.rj()] + (u64)off(s, i), s.v[i.rd()].b, sz); return OK; }; };
	FL("fld.s", 4, o12); FL("fld.d", 8, o12); FL("fldx.s", 4, ox); FL("fldx.d", 8, ox); FS("fst.s", 4, o12); FS("fst.d", 8, o12); FS("fstx.s", 4, ox); FS("fstx.d", 8, ox);
	auto VL = [&](const char* n, bool x, auto off) { T[n] = [x, off](State& s, I i, Mem& m) { V256 r; m.load(s.r[i.rj()] + (u64)off(s, i), r.b, x ? 32 : 16); vw(s, i.rd(), r, x); return OK; }; };
	auto VS = [&](const char* n, bool x, auto off) { T[n] = [x, off](State& s, I i, Mem& m) { m.store(s.r[i.rj()] + (u64)off(s, i), s.v[i.rd()].b, x ? 32 : 16); return OK; }; };
	VL("vld", false, o12); VL("xvld", true, o12); VL("vldx", false, ox); VL("xvldx", true, ox); VS("vst", false, o12); VS("xvst", true, o12); VS("vstx", false, ox); VS("xvstx", true, ox);
	// ll/sc
	T["ll.w"] = [](State& s, I i, Mem& m) { u64 a = s.r[i.rj()] + (u64)(i.si14() * 4); i32 e; m.load(a, &e, 4); wr(s, i.rd(), (u64)(i64)e); s.ll = true; s.ll_addr = a; return OK; };
	T["ll.d"] = [](State& s, I i, Mem& m) { u64 a = s.r[i.rj()] + (u64)(i.si14() * 4); i64 e; m.load(a, &e, 8); wr(s, i.rd(), (u64)e); s.ll = true; s.ll_addr = a; return OK; };
	auto SC = [&](const char* n, int sz) { T[n] = [sz](State& s, I i, Mem& m) { u64 a = s.r[i.rj()] + (u64)(i.si14() * 4); if (s.ll) { u64 e = s.r[i.rd()]; m.store(a, &e, sz); } wr(s, i.rd(), s.ll); s.ll = false; return OK; }; };
	SC("sc.w", 4); SC("sc.d", 8);
	for (int db = 0; db < 2; db++) { string b = db ? "_db" : "";
		auto A = [&](const char* n, auto f32, auto f64) { T[n + b + ".w"] = am<u32>(f32); T[n + b + ".d"] = am<u64>(f64); };
		A("amswap", [](u32 o, u32 v) { return v; }, [](u64 o, u64 v) { return v; }); A("amadd", [](u32 o, u32 v) { return o + v; }, [](u64 o, u64 v) { return o + v; });
		A("amand", [](u32 o, u32 v) { return o & v; }, [](u64 o, u64 v) { return o & v; }); A("amor", [](u32 o, u32 v) { return o | v; }, [](u64 o, u64 v) { return o | v; }); A("amxor", [](u32 o, u32 v) { return o ^ v; }, [](u64 o, u64 v) { return o ^ v; });
		A("ammax", [](u32 o, u32 v) { return (u32)std::max((i32)o, (i32)v); }, [](u64 o, u64 v) { return (u64)std::max((i64)o, (i64)v); }); A("ammin", [](u32 o, u32 v) { return (u32)std::min((i32)o, (i32)v); }, [](u64 o, u64 v) { return (u64)std::min((i64)o, (i64)v); });
		T["ammax" + b + ".wu"] = am<u32>([](u32 o, u32 v) { return std::max(o, v); }); T["ammax" + b + ".du"] = am<u64>([](u64 o, u64 v) { return std::max(o, v); }); T["ammin" + b + ".wu"] = am<u32>([](u32 o, u32 v) { return std::min(o, v); }); T["ammin" + b + ".du"] = am<u64>([](u64 o, u64 v) { return std::min(o, v); });
	}
	// ---- scalar floating point
	auto F3 = [&](const string& n, auto f) { T[n + ".s"] = [f](State& s, I i, Mem&) { fwS(s, i.rd(), f(fS(s, i.rj()), fS(s, i.rk()))); return OK; }; T[n + ".d"] = [f](State& s, I i, Mem&) { fwD(s, i.rd(), f(fD(s, i.rj()), fD(s, i.rk()))); return OK; }; };
	F3("fadd", [](auto a, auto b) { return a + b; }); F3("fsub", [](auto a, auto b) { return a - b; }); F3("fmul", [](auto a, auto b) { return a * b; }); F3("fdiv", [](auto a, auto b) { return a / b; }); F3("fmax", [](auto a, auto b) { return fmaxr(a, b); }); F3("fmin", [](auto a, auto b) { return fminr(a, b); });
	auto F4 = [&](const string& n, auto f) { T[n + ".s"] = [f](State& s, I i, Mem&) { fwS(s, i.rd(), f(fS(s, i.rj()), fS(s, i.rk()), fS(s, i.ra()))); return OK; }; T[n + ".d"] = [f](State& s, I i, Mem&) { fwD(s, i.rd(), f(fD(s, i.rj()), fD(s, i.rk()), fD(s, i.ra()))); return OK; }; };
	F4("fmadd", [](auto a, auto b, auto c) { return std::fma(a, b, c); }); F4("fmsub", [](auto a, auto b, auto c) { return std::fma(a, b, -c); }); F4("fnmadd", [](auto a, auto b, auto c) { return -std::fma(a, b, c); }); F4("fnmsub", [](auto a, auto b, auto c) { return -std::fma(a, b, -c); });
	auto FB = [&](const string& n, auto f) { T[n + ".s"] = [f](State& s, I i, Mem&) { fw32(s, i.rd(), (u32)f(s.v[i.rj()].w[0], (u32)0x80000000u)); return OK; }; T[n + ".d"] = [f](State& s, I i, Mem&) { fw64(s, i.rd(), (u64)f(s.v[i.rj()].d[0], (u64)1 << 63)); return OK; }; };
	FB("fabs", [](auto a, auto sgn) { return a & ~sgn; }); FB("fneg", [](auto a, auto sgn) { return a ^ sgn; }); FB("fmov", [](auto a, auto) { return a; });
	T["fclass.s"] = [](State& s, I i, Mem&) { fw32(s, i.rd(), fclass(fS(s, i.rj()), s.v[i.rj()].w[0])); return OK; }; T["fclass.d"] = [](State& s, I i, Mem&) { fw64(s, i.rd(), fclass(fD(s, i.rj()), s.v[i.rj()].d[0])); return OK; };
	T["fsqrt.s"] = [](State& s, I i, Mem&) { fwS(s, i.rd(), std::sqrt(fS(s, i.rj()))); return OK; }; T["fsqrt.d"] = [](State& s, I i, Mem&) { fwD(s, i.rd(), std::sqrt(fD(s, i.rj()))); return OK; };
	T["movgr2fr.w"] = [](State& s, I i, Mem&) { fw32(s, i.rd(), (u32)s.r[i.rj()]); return OK; }; T["movgr2fr.d"] = [](State& s, I i, Mem&) { fw64(s, i.rd(), s.r[i.rj()]); return OK; };
	T["movfr2gr.s"] = [](State& s, I i, Mem&) { wr(s, i.rd(), s32(s.v[i.rj()].w[0])); return OK; }; T["movfr2gr.d"] = [](State& s, I i, Mem&) { wr(s, i.rd(), s.v[i.rj()].d[0]); return OK; };
	T["movfr2cf"] = [](State& s, I i, Mem&) { s.cf[i.w & 7] = s.v[i.rj()].b[0] & 1; return OK; }; T["movcf2fr"] = [](State& s, I i, Mem&) { fw64(s, i.rd(), s.cf[i.w >> 5 & 7]); return OK; };
	T["movgr2cf"] = [](State& s, I i, Mem&) { s.cf[i.w & 7] = s.r[i.rj()] & 1; return OK; }; T["movcf2gr"] = [](State& s, I i, Mem&) { wr(s, i.rd(), s.cf[i.w >> 5 & 7]); return OK; };
	T["movfcsr2gr"] = [](State& s, I i, Mem&) { static const u32 view[4] = {0xffffffffu, 0x9fu, 0x1f1f0000u, 0x300u}; u32 k = i.rj(); if (k > 3) return UNDEF; wr(s, i.rd(), s32(s.fcsr & view[k])); return OK; };
	T["fcvt.s.d"] = [](State& s, I i, Mem&) { fwS(s, i.rd(), (float)fD(s, i.rj())); return OK; }; T["fcvt.d.s"] = [](State& s, I i, Mem&) { fwD(s, i.rd(), (double)fS(s, i.rj())); return OK; };
	T["ftintrz.w.s"] = [](State& s, I i, Mem&) { fw32(s, i.rd(), (u32)to_int(fS(s, i.rj()), 32)); return OK; }; T["ftintrz.w.d"] = [](State& s, I i, Mem&) { fw32(s, i.rd(), (u32)to_int(fD(s, i.rj()), 32)); return OK; };
	T["ftintrz.l.s"] = [](State& s, I i, Mem&) { fw64(s, i.rd(), (u64)to_int(fS(s, i.rj()), 64)); return OK; }; T["ftintrz.l.d"] = [](State& s, I i, Mem&) { fw64(s, i.rd(), (u64)to_int(fD(s, i.rj()), 64)); return OK; };
	T["ffint.s.w"] = [](State& s, I i, Mem&) { fwS(s, i.rd(), (float)(i32)s.v[i.rj()].w[0]); return OK; }; T["ffint.s.l"] = [](State& s, I i, Mem&) { fwS(s, i.rd(), (float)(i64)s.v[i.rj()].d[0]); return OK; }; T["ffint.d.w"] = [](State& s, I i, Mem&) { fwD(s, i.rd(), (double)(i32)s.v[i.rj()].w[0]); return OK; }; T["ffint.d.l"] = [](State& s, I i, Mem&) { fwD(s, i.rd(), (double)(i64)s.v[i.rj()].d[0]); return OK; };
	T["fsel"] = [](State& s, I i, Mem&) { fw64(s, i.rd(), s.v[s.cf[i.w >> 15 & 7] ? i.rk() : i.rj()].d[0]); return OK; };
	static const char* cn[] = {"af", "lt", "eq", "le", "un", "ult", "ueq", "ule", "ne", nullptr, "or", nullptr, "une"};
	for (int c = 0; c < 13; c++) if (cn[c]) for (int sg = 0; sg < 2; sg++) { u32 code = 2 * c + sg; string nm = string(sg ? "s" : "c") + cn[c];
		T["fcmp." + nm + ".s"] = [code](State& s, I i, Mem&) { s.cf[i.w & 7] = fcond(code, fS(s, i.rj()), fS(s, i.rk())); return OK; }; T["fcmp." + nm + ".d"] = [code](State& s, I i, Mem&) { s.cf[i.w & 7] = fcond(code, fD(s, i.rj()), fD(s, i.rk())); return OK; };
		for (int x = 0; x < 2; x++) { string p = x ? "xvfcmp." : "vfcmp.";
			T[p + nm + ".s"] = [code, x](State& s, I i, Mem&) { V256 r; for (int k = 0; k < (x ? 8 : 4); k++) r.w[k] = fcond(code, s.v[i.rj()].f[k], s.v[i.rk()].f[k]) ? ~0u : 0; vw(s, i.rd(), r, x); return OK; };
			T[p + nm + ".d"] = [code, x](State& s, I i, Mem&) { V256 r; for (int k = 0; k < (x ? 4 : 2); k++) r.d[k] = fcond(code, s.v[i.rj()].g[k], s.v[i.rk()].g[k]) ? ~0ull : 0; vw(s, i.rd(), r, x); return OK; }; } }
	// ---- vectors
	for (int xi = 0; xi < 2; xi++) { const bool x = xi; const string p = x ? "xv" : "v";
		for (const char* el : {"b", "h", "w", "d", "bu", "hu", "wu", "du"}) by_elem(el, [&](auto z) { using E = decltype(z); using U = std::make_unsigned_t<E>; using S = std::make_signed_t<E>; const string e = string(".") + el; constexpr int eb = sizeof(E) * 8; const bool sg = std::is_signed_v<E>;
			if (sg) {
				T[p + "add" + e] = bin3<U>(x, [](U a, U b) { return a + b; }); T[p + "sub" + e] = bin3<U>(x, [](U a, U b) { return a - b; }); T[p + "seq" + e] = bin3<U>(x, [](U a, U b) { return a == b ? ~U(0) : U(0); });
				T[p + "mul" + e] = bin3<U>(x, [](U a, U b) { return (u64)a * (u64)b; });
				T[p + "madd" + e] = [x](State& s, I i, Mem&) { V256 r; for (int k = 0; k < (x ? 32 : 16) / (int)sizeof(U); k++) LANE(r, U, k) = (U)((u64)LANE(s.v[i.rd()], U, k) + (u64)LANE(s.v[i.rj()], U, k) * (u64)LANE(s.v[i.rk()], U, k)); vw(s, i.rd(), r, x); return OK; };
				T[p + "msub" + e] = [x](State& s, I i, Mem&) { V256 r; for (int k = 0; k < (x ? 32 : 16) / (int)sizeof(U); k++) LANE(r, U, k) = (U)((u64)LANE(s.v[i.rd()], U, k) - (u64)LANE(s.v[i.rj()], U, k) * (u64)LANE(s.v[i.rk()], U, k)); vw(s, i.rd(), r, x); return OK; };
				T[p + "sll" + e] = bin3<U>(x, [](U a, U b) { return (u64)a << (b & (eb - 1)); }); T[p + "srl" + e] = bin3<U>(x, [](U a, U b) { return a >> (b & (eb - 1)); }); T[p + "sra" + e] = bin3<S>(x, [](S a, S b) { return a >> (b & (eb - 1)); });
				T[p + "slli" + e] = imm2<U>(x, [](U a, I i) { return (u64)a << (i.ui6() & (eb - 1)); }); T[p + "srli" + e] = imm2<U>(x, [](U a, I i) { return a >> (i.ui6() & (eb - 1)); }); T[p + "srai" + e] = imm2<S>(x, [](S a, I i) { return a >> (i.ui6() & (eb - 1)); });
				T[p + "bitrevi" + e] = imm2<U>(x, [](U a, I i) { return a ^ (U(1) << (i.ui6() & (eb - 1))); }); T[p + "bitseti" + e] = imm2<U>(x, [](U a, I i) { return a | (U(1) << (i.ui6() & (eb - 1))); }); T[p + "bitclri" + e] = imm2<U>(x, [](U a, I i) { return a & ~(U(1) << (i.ui6() & (eb - 1))); });
				T[p + "bitrev" + e] = bin3<U>(x, [](U a, U b) { return a ^ (U(1) << (b & (eb - 1))); }); T[p + "bitset" + e] = bin3<U>(x, [](U a, U b) { return a | (U(1) << (b & (eb - 1))); }); T[p + "bitclr" + e] = bin3<U>(x, [](U a, U b) { return a & ~(U(1) << (b & (eb - 1))); });
				T[p + "seqi" + e] = imm2<S>(x, [](S a, I i) { return a == (S)sx(i.ui5(), 5) ? S(-1) : S(0); });
				T[p + "pcnt" + e] = un2<U>(x, [](U a) { return __builtin_popcountll((u64)a); }); T[p + "neg" + e] = un2<U>(x, [](U a) { return (U)0 - a; });
				T[p + "clz" + e] = un2<U>(x, [](U a) { int n = 0; while (n < eb && !(a >> (eb - 1 - n) & 1)) n++; return n; }); T[p + "clo" + e] = un2<U>(x, [](U a) { int n = 0; while (n < eb && (a >> (eb - 1 - n) & 1)) n++; return n; });
				T[p + "ilvl" + e] = perm<U>(x, [](int k, int n, I) { return std::pair(k & 1 ? 0 : 1, k / 2); }); T[p + "ilvh" + e] = perm<U>(x, [](int k, int n, I) { return std::pair(k & 1 ? 0 : 1, n / 2 + k / 2); });
				T[p + "pickev" + e] = perm<U>(x, [](int k, int n, I) { return k < n / 2 ? std::pair(1, 2 * k) : std::pair(0, 2 * (k - n / 2)); }); T[p + "pickod" + e] = perm<U>(x, [](int k, int n, I) { return k < n / 2 ? std::pair(1, 2 * k + 1) : std::pair(0, 2 * (k - n / 2) + 1); });
				T[p + "packev" + e] = perm<U>(x, [](int k, int n, I) { return std::pair(k & 1 ? 0 : 1, k & ~1); }); T[p + "packod" + e] = perm<U>(x, [](int k, int n, I) { return std::pair(k & 1 ? 0 : 1, k | 1); });
				T[p + "replgr2vr" + e] = [x](State& s, I i, Mem&) { V256 r; for (int k = 0; k < (x ? 32 : 16) / (int)sizeof(U); k++) LANE(r, U, k) = (U)s.r[i.rj()]; vw(s, i.rd(), r, x); return OK; };
				T[p + "insgr2vr" + e] = [x](State& s, I i, Mem&) { V256 r = s.v[i.rd()]; int n = (x ? 32 : 16) / sizeof(U); LANE(r, U, i.ui5() & (n - 1)) = (U)s.r[i.rj()]; vw(s, i.rd(), r, x); return OK; };
				T[p + "replve" + e] = [x](State& s, I i, Mem&) { V256 r; int n = 16 / sizeof(U); for (int h = 0; h < (x ? 2 : 1); h++) for (int k = 0; k < n; k++) LANE(r, U, h * n + k) = LANE(s.v[i.rj()], U, h * n + (s.r[i.rk()] & (n - 1))); vw(s, i.rd(), r, x); return OK; };
				if (!x) T["vreplvei" + e] = perm<U>(false, [](int k, int n, I i) { return std::pair(0, int(i.ui5() & (n - 1))); }); else { T["xvrepl128vei" + e] = perm<U>(true, [](int k, int n, I i) { return std::pair(0, int(i.ui5() & (n - 1))); });
					T["xvreplve0" + e] = [](State& s, I i, Mem&) { V256 r; for (int k = 0; k < 32 / (int)sizeof(U); k++) LANE(r, U, k) = LANE(s.v[i.rj()], U, 0); vw(s, i.rd(), r, true); return OK; }; }
				T[p + "setanyeqz" + e] = [x](State& s, I i, Mem&) { bool any = false; for (int k = 0; k < (x ? 32 : 16) / (int)sizeof(U); k++) any |= LANE(s.v[i.rj()], U, k) == 0; s.cf[i.w & 7] = any; return OK; };
				T[p + "setallnez" + e] = [x](State& s, I i, Mem&) { bool all = true; for (int k = 0; k < (x ? 32 : 16) / (int)sizeof(U); k++) all &= LANE(s.v[i.rj()], U, k) != 0; s.cf[i.w & 7] = all; return OK; };
				T[p + "mskltz" + e] = [x](State& s, I i, Mem&) { V256 r{}; int n = 16 / sizeof(S); for (int h = 0; h < (x ? 2 : 1); h++) for (int k = 0; k < n; k++) if (LANE(s.v[i.rj()], S, h * n + k) < 0) r.d[2 * h] |= 1ull << k; vw(s, i.rd(), r, x); return OK; };
				T[p + "frstpi" + e] = [x](State& s, I i, Mem&) { V256 r = s.v[i.rd()]; int n = 16 / sizeof(S); for (int h = 0; h < (x ? 2 : 1); h++) { int k = 0; while (k < n && LANE(s.v[i.rj()], S, h * n + k) >= 0) k++; LANE(r, S, h * n + (i.ui5() % n)) = (S)k; } vw(s, i.rd(), r, x); return OK; };
			} else {
				T[p + "addi" + e] = imm2<U>(x, [](U a, I i) { return a + i.ui5(); }); T[p + "subi" + e] = imm2<U>(x, [](U a, I i) { return a - i.ui5(); });
			}
			T[p + "slt" + e] = bin3<E>(x, [](E a, E b) { return a < b ? E(-1) : E(0); }); T[p + "sle" + e] = bin3<E>(x, [](E a, E b) { return a <= b ? E(-1) : E(0); });
			T[p + "max" + e] = bin3<E>(x, [](E a, E b) { return a > b ? a : b; }); T[p + "min" + e] = bin3<E>(x, [](E a, E b) { return a < b ? a : b; });
			T[p + "pickve2gr" + e] = [x](State& s, I i, Mem&) { int n = (x ? 32 : 16) / sizeof(E); wr(s, i.rd(), (u64)(i64)LANE(s.v[i.rj()], E, i.ui5() & (n - 1))); return OK; };
		});
		T[p + "and.v"] = bin3<u64>(x, [](u64 a, u64 b) { return a & b; }); T[p + "or.v"] = bin3<u64>(x, [](u64 a, u64 b) { return a | b; }); T[p + "xor.v"] = bin3<u64>(x, [](u64 a, u64 b) { return a ^ b; }); T[p + "nor.v"] = bin3<u64>(x, [](u64 a, u64 b) { return ~(a | b); }); T[p + "orn.v"] = bin3<u64>(x, [](u64 a, u64 b) { return a | ~b; }); T[p + "andn.v"] = bin3<u64>(x, [](u64 a, u64 b) { return ~a & b; });
		T[p + "andi.b"] = imm2<u8>(x, [](u8 a, I i) { return a & i.ui8(); }); T[p + "ori.b"] = imm2<u8>(x, [](u8 a, I i) { return a | i.ui8(); }); T[p + "xori.b"] = imm2<u8>(x, [](u8 a, I i) { return a ^ i.ui8(); }); T[p + "nori.b"] = imm2<u8>(x, [](u8 a, I i) { return ~(a | i.ui8()); });
		T[p + "bitsel.v"] = [x](State& s, I i, Mem&) { V256 r; for (int k = 0; k < 4; k++) { u64 a = s.v[i.ra()].d[k]; r.d[k] = (s.v[i.rk()].d[k] & a) | (s.v[i.rj()].d[k] & ~a); } vw(s, i.rd(), r, x); return OK; };
		T[p + "bitseli.b"] = [x](State& s, I i, Mem&) { V256 r; for (int k = 0; k < 32; k++) { u8 d = s.v[i.rd()].b[k]; r.b[k] = (~d & s.v[i.rj()].b[k]) | (d & i.ui8()); } vw(s, i.rd(), r, x); return OK; };
		T[p + "shuf.b"] = [x](State& s, I i, Mem&) { V256 r; for (int h = 0; h < (x ? 2 : 1); h++) for (int k = 0; k < 16; k++) { u8 c = s.v[i.ra()].b[h * 16 + k]; if (c >= 32) return UNDEF; r.b[h * 16 + k] = c & 16 ? s.v[i.rj()].b[h * 16 + (c & 15)] : s.v[i.rk()].b[h * 16 + (c & 15)]; } vw(s, i.rd(), r, x); return OK; };
		T[p + "haddw.d.w"] = [x](State& s, I i, Mem&) { V256 r; for (int k = 0; k < (x ? 4 : 2); k++) r.d[k] = (u64)((i64)(i32)s.v[i.rj()].w[2 * k + 1] + (i64)(i32)s.v[i.rk()].w[2 * k]); vw(s, i.rd(), r, x); return OK; };
		T[p + "haddw.q.d"] = [x](State& s, I i, Mem&) { V256 r; for (int k = 0; k < (x ? 2 : 1); k++) r.q[k] = (u128)((i128)(i64)s.v[i.rj()].d[2 * k + 1] + (i128)(i64)s.v[i.rk()].d[2 * k]); vw(s, i.rd(), r, x); return OK; };
		T[p + "seteqz.v"] = [x](State& s, I i, Mem&) { bool z = true; for (int k = 0; k < (x ? 4 : 2); k++) z &= s.v[i.rj()].d[k] == 0; s.cf[i.w & 7] = z; return OK; }; T[p + "setnez.v"] = [x](State& s, I i, Mem&) { bool z = true; for (int k = 0; k < (x ? 4 : 2); k++) z &= s.v[i.rj()].d[k] == 0; s.cf[i.w & 7] = !z; return OK; };
		T[p + "msknz.b"] = [x](State& s, I i, Mem&) { V256 r{}; for (int h = 0; h < (x ? 2 : 1); h++) for (int k = 0; k < 16; k++) if (s.v[i.rj()].b[h * 16 + k]) r.d[2 * h] |= 1ull << k; vw(s, i.rd(), r, x); return OK; };
		T[p + "mskgez.b"] = [x](State& s, I i, Mem&) { V256 r{}; for (int h = 0; h < (x ? 2 : 1); h++) for (int k = 0; k < 16; k++) if ((i8)s.v[i.rj()].b[h * 16 + k] >= 0) r.d[2 * h] |= 1ull << k; vw(s, i.rd(), r, x); return OK; };
		T[p + "ldi"] = [x](State& s, I i, Mem&) { u32 im = i.w >> 5 & 0x1fff; V256 r{}; 
			if (!(im >> 12)) { i64 v = sx(im & 1023, 10); for (int k = 0; k < 32; k++) switch (im >> 10 & 3) { case 0: r.b[k] = (u8)v; break; case 1: r.h[k / 2] = (u16)v; break; case 2: r.w[k / 4] = (u32)v; break; default: r.d[k / 8] = (u64)v; } }
			else { u64 b = im & 255; u32 m = im >> 8 & 15; u64 d = 0; auto both = [](u64 v) { return v << 32 | v; };
				u32 f32 = ((b >> 7) << 31) | ((b >> 6 & 1 ? 0x1fu : 0x20u) << 25) | ((b & 63) << 19);
				switch (m) { case 0: d = both(b); break; case 1: d = both(b << 8); break; case 2: d = both(b << 16); break; case 3: d = both(b << 24); break; case 4: d = both(b << 16 | b); break; case 5: d = both(b << 24 | b << 8); break;
				case 6: d = both(b << 8 | 0xff); break; case 7: d = both(b << 16 | 0xffff); break; case 8: d = b * 0x0101010101010101ull; break; case 9: for (int k = 0; k < 8; k++) if (b >> k & 1) d |= 0xffull << (8 * k); break;
				case 10: d = both(f32); break; case 11: d = f32; break; case 12: d = ((b >> 7) << 63) | ((b >> 6 & 1 ? 0xffull : 0x100ull) << 54) | ((b & 63) << 48); break; default: return UNDEF; }
				for (int k = 0; k < 4; k++) r.d[k] = d; }
			vw(s, i.rd(), r, x); return OK; };
		auto VF3 = [&](const string& n, auto f) { T[p + n + ".s"] = [f, x](State& s, I i, Mem&) { V256 r; for (int k = 0; k < (x ? 8 : 4); k++) r.f[k] = f(s.v[i.rj()].f[k], s.v[i.rk()].f[k]); vw(s, i.rd(), r, x); return OK; }; T[p + n + ".d"] = [f, x](State& s, I i, Mem&) { V256 r; for (int k = 0; k < (x ? 4 : 2); k++) r.g[k] = f(s.v[i.rj()].g[k], s.v[i.rk()].g[k]); vw(s, i.rd(), r, x); return OK; }; };
		VF3("fadd", [](auto a, auto b) { return a + b; }); VF3("fsub", [](auto a, auto b) { return a - b; }); VF3("fmul", [](auto a, auto b) { return a * b; }); VF3("fdiv", [](auto a, auto b) { return a / b; });
		auto VF4 = [&](const string& n, auto f) { T[p + n + ".s"] = [f, x](State& s, I i, Mem&) { V256 r; for (int k = 0; k < (x ? 8 : 4); k++) r.f[k] = f(s.v[i.rj()].f[k], s.v[i.rk()].f[k], s.v[i.ra()].f[k]); vw(s, i.rd(), r, x); return OK; }; T[p + n + ".d"] = [f, x](State& s, I i, Mem&) { V256 r; for (int k = 0; k < (x ? 4 : 2); k++) r.g[k] = f(s.v[i.rj()].g[k], s.v[i.rk()].g[k], s.v[i.ra()].g[k]); vw(s, i.rd(), r, x); return OK; }; };
		VF4("fmadd", [](auto a, auto b, auto c) { return std::fma(a, b, c); }); VF4("fmsub", [](auto a, auto b, auto c) { return std::fma(a, b, -c); }); VF4("fnmadd", [](auto a, auto b, auto c) { return -std::fma(a, b, c); }); VF4("fnmsub", [](auto a, auto b, auto c) { return -std::fma(a, b, -c); });
		T[p + "ftintrz.w.s"] = [x](State& s, I i, Mem&) { V256 r; for (int k = 0; k < 8; k++) r.w[k] = (u32)to_int(s.v[i.rj()].f[k], 32); vw(s, i.rd(), r, x); return OK; };
		T[p + "ftintrz.l.d"] = [x](State& s, I i, Mem&) { V256 r; for (int k = 0; k < 4; k++) r.d[k] = (u64)to_int(s.v[i.rj()].g[k], 64); vw(s, i.rd(), r, x); return OK; };
	}
	T["xvpermi.q"] = [](State& s, I i, Mem&) { u32 m = i.ui8(); if (m & 0xcc) return UNDEF; V256 r; for (int k = 0; k < 2; k++) { u32 c = m >> (4 * k) & 3; r.q[k] = (c & 2) ? s.v[i.rd()].q[c & 1] : s.v[i.rj()].q[c & 1]; } vw(s, i.rd(), r, true); return OK; };
	T["xvpermi.d"] = [](State& s, I i, Mem&) { V256 r; for (int k = 0; k < 4; k++) r.d[k] = s.v[i.rj()].d[i.ui8() >> (2 * k) & 3]; vw(s, i.rd(), r, true); return OK; };
	T["xvpickve.w"] = [](State& s, I i, Mem&) { V256 r{}; r.w[0] = s.v[i.rj()].w[i.ui5() & 7]; vw(s, i.rd(), r, true); return OK; }; T["xvpickve.d"] = [](State& s, I i, Mem&) { V256 r{}; r.d[0] = s.v[i.rj()].d[i.ui5() & 3]; vw(s, i.rd(), r, true); return OK; };
	T["xvinsve0.w"] = [](State& s, I i, Mem&) { V256 r = s.v[i.rd()]; r.w[i.ui5() & 7] = s.v[i.rj()].w[0]; vw(s, i.rd(), r, true); return OK; }; T["xvinsve0.d"] = [](State& s, I i, Mem&) { V256 r = s.v[i.rd()]; r.d[i.ui5() & 3] = s.v[i.rj()].d[0]; vw(s, i.rd(), r, true); return OK; };
	T["xvreplve0.q"] = [](State& s, I i, Mem&) { V256 r; r.q[0] = r.q[1] = s.v[i.rj()].q[0]; vw(s, i.rd(), r, true); return OK; };
	// table by opcode
	FN.resize(nops);
	for (int k = 0; k < nops; k++) { auto it = T.find(optable[k].name); FN[k] = it == T.end() ? nullptr : &it->second; }
	for (int k = 0; k < nops; k++) { // bucket by top 6 bits
		u32 m = optable[k].mask >> 26, v = optable[k].match >> 26; for (u32 t = 0; t < 64; t++) if ((t & m) == v) buckets[t].push_back(k);
	}
}
static void init() { static bool done = (build(), true); (void)done; }
const Op* find(uint32_t w) { init(); for (int k : buckets[w >> 26]) if ((w & optable[k].mask) == optable[k].match) return &optable[k]; return nullptr; }
const Op* find_name(const std::string& n) { init(); for (int k = 0; k < nops; k++) if (n == optable[k].name) return &optable[k]; return nullptr; }
bool has_ref(const Op* op) { init(); return op && FN[op - optable]; }
Result exec_op(State& s, const Op* op, uint32_t w, Mem& m, bool mem) {
	const Fn* f = FN[op - optable]; if (!f) return NOREF;
	if (!mem) { Result r = (*f)(s, I{w}, m); s.r[0] = 0; if (r == OK) s.pc += 4; return r; }
	State save = s;
	try { Result r = (*f)(s, I{w}, m); s.r[0] = 0; if (r == OK) s.pc += 4; return r; } catch (const Fault&) { s = save; return FAULTED; }
}
Result exec(State& s, uint32_t w, Mem& m) { const Op* op = find(w); if (!op) return RESERVED; return exec_op(s, op, w, m, is_mem(op)); }
std::vector<Field> fields(const Op* op) {
	std::vector<Field> v; string f = op->fmt; size_t p = 0;
	while (p < f.size()) { size_t e = f.find(',', p); if (e == string::npos) e = f.size(); string t = f.substr(p, e - p); p = e + 1; Field x; size_t k = 0; string kind; while (k < t.size() && !isdigit(t[k])) kind += t[k++];
		x.kind = kind == "so" ? 'o' : kind == "sb" ? 'b' : kind == "fc" ? 'q' : kind == "cr" ? 'k' : kind[0];
		x.pos = strtol(t.c_str() + k, nullptr, 10); k = t.find(':', k); x.len = strtol(t.c_str() + k + 1, nullptr, 10); size_t bar = t.find('|'); if (bar != string::npos) { x.pos2 = strtol(t.c_str() + bar + 1, nullptr, 10); size_t c = t.find(':', bar); x.len2 = strtol(t.c_str() + c + 1, nullptr, 10); }
		size_t sh = t.find("<<"); if (sh != string::npos) x.shift = strtol(t.c_str() + sh + 2, nullptr, 10); if (t.find('+') != string::npos) x.plus1 = true; v.push_back(x); }
	return v;
}
uint32_t put(uint32_t w, const Field& f, int64_t v) { // two-part fields: the first part holds the HIGH bits
	if (!f.len2) { uint32_t m = ((f.len >= 32 ? 0 : (1u << f.len)) - 1); return (w & ~(m << f.pos)) | (((uint32_t)v & m) << f.pos); }
	uint32_t m1 = (1u << f.len) - 1, m2 = (1u << f.len2) - 1; w &= ~(m1 << f.pos) & ~(m2 << f.pos2); return w | (((uint32_t)(v >> f.len2) & m1) << f.pos) | (((uint32_t)v & m2) << f.pos2);
}
int64_t get(uint32_t w, const Field& f) { if (!f.len2) return w >> f.pos & ((1u << f.len) - 1); return ((int64_t)(w >> f.pos & ((1u << f.len) - 1)) << f.len2) | (w >> f.pos2 & ((1u << f.len2) - 1)); }
static bool pre(const char* n, const char* p) { return strncmp(n, p, strlen(p)) == 0; }
Lax lax(const Op* op) { Lax l; const char* n = op->name; bool fp = (n[0] == 'f' && !pre(n, "fld") && !pre(n, "fst") && !pre(n, "fabs") && !pre(n, "fneg") && !pre(n, "fmov") && !pre(n, "fclass") && !pre(n, "fsel") && !pre(n, "ftint") && !pre(n, "fcmp")) || ((pre(n, "vf") || pre(n, "xvf")) && !strstr(n, "fcmp") && !strstr(n, "ftint") && !strstr(n, "frstp"));
	if (fp) { l.nan32 = strstr(n, ".s") && !pre(n, "fcvt.d") ; l.nan64 = strstr(n, ".d") && !pre(n, "fcvt.s"); if (pre(n, "fcvt.s")) { l.nan32 = true; } if (pre(n, "ffint.s")) l.nan64 = false; l.zero_sign = pre(n, "fmax") || pre(n, "fmin"); } return l; }
bool is_mem(const Op* op) { const char* n = op->name; return pre(n, "ld") || pre(n, "st") || pre(n, "fld") || pre(n, "fst") || pre(n, "vld") ? !strstr(n, "ldi") || pre(n, "vldr") : pre(n, "vst") || pre(n, "xvst") || (pre(n, "xvld") && !pre(n, "xvldi")) || pre(n, "am") || pre(n, "ll.") || pre(n, "sc."); }
bool is_branch(const Op* op) { const char* n = op->name; static const char* b[] = {"b", "bl", "beq", "bne", "blt", "bge", "bltu", "bgeu", "beqz", "bnez", "bceqz", "bcnez", "jirl"}; for (auto x : b) if (!strcmp(x, n)) return true; return false; }
} // namespace ref
