// Guest side of C21: libstdc++'s own string and vector, used on objects the host has made.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <vector>
#define X extern "C" __attribute__((noinline, used))
X void fast_exit() { asm volatile(".word 0x00150000"); __builtin_unreachable(); }
static inline long sys(long n, long x, long y = 0) { register long a0 asm("a0") = x; register long a1 asm("a1") = y; register long a7 asm("a7") = n; asm volatile("syscall 0" : "+r"(a0) : "r"(a1), "r"(a7) : "memory", "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8"); return a0; }
[[noreturn]] static void die() { asm volatile("ld.d $zero, $zero, 8"); fast_exit(); __builtin_unreachable(); }
void* operator new(size_t n) { void* p = (void*)sys(495, n); if (!p) die(); return p; }
void operator delete(void* p) noexcept { if (p) sys(498, (long)p); }
void operator delete(void* p, size_t) noexcept { if (p) sys(498, (long)p); }
extern "C" { void* memcpy(void* d, const void* s, size_t n) { char* p = (char*)d; const char* q = (const char*)s; while (n--) { *p++ = *q++; asm(""); } return d; }
void* memmove(void* d, const void* s, size_t n) { char* p = (char*)d; const char* q = (const char*)s; if (p <= q) while (n--) { *p++ = *q++; asm(""); } else while (n--) { p[n] = q[n]; asm(""); } return d; }
void* memset(void* d, int c, size_t n) { char* p = (char*)d; while (n--) { *p++ = c; asm(""); } return d; }
int memcmp(const void* a, const void* b, size_t n) { for (size_t i = 0; i < n; i++) { int d = ((unsigned char*)a)[i] - ((unsigned char*)b)[i]; if (d) return d; } return 0; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) { n++; asm(""); } return n; } }
namespace std { void __throw_length_error(const char*) { die(); } void __throw_logic_error(const char*) { die(); } void __throw_out_of_range_fmt(const char*, ...) { die(); } void __throw_bad_alloc() { die(); } void __throw_bad_array_new_length() { die(); } void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { die(); } }
typedef unsigned long u64; typedef std::string S; typedef std::vector<int> VI; typedef std::vector<S> VS; typedef std::vector<VI> VV;
static u64 mix(u64 h, u64 x) { return (h ^ x) * 0x9e3779b97f4a7c15ul + (h >> 29); }
// the elements as one number; 0: not a usable structure
X u64 s_hash(const S* s) { if (s->capacity() < s->size() || s->capacity() < 15 || s->c_str()[s->size()] || s->data() != s->c_str()) return 0; u64 h = mix(1, s->size()); for (char c : *s) h = mix(h, (unsigned char)c); return h | 1; }
X u64 vi_hash(const VI* v) { if (v->capacity() < v->size()) return 0; u64 h = mix(2, v->size()); for (int x : *v) h = mix(h, (unsigned)x); return h | 1; }
X u64 vs_hash(const VS* v) { if (v->capacity() < v->size()) return 0; u64 h = mix(3, v->size()); for (auto& s : *v) { u64 x = s_hash(&s); if (!x) return 0; h = mix(h, x); } return h | 1; }
X u64 vv_hash(const VV* v) { if (v->capacity() < v->size()) return 0; u64 h = mix(4, v->size()); for (auto& s : *v) { u64 x = vi_hash(&s); if (!x) return 0; h = mix(h, x); } return h | 1; }
X void s_new(S* s) { new (s) S; }
X void s_append(S* s, long n, long c) { s->append(n, c); }
X void s_assign(S* s, long n, long c) { s->assign(n, c); }
X void s_shrink(S* s) { s->shrink_to_fit(); }
X void s_take(S* a, S* b) { *a = std::move(*b); b->clear(); }
X void s_swap(S* a, S* b) { a->swap(*b); }
X void s_end(S* s) { s->~S(); }
X void vi_new(VI* v) { new (v) VI; }
X void vi_push(VI* v, int x) { v->push_back(x); }
X void vi_front(VI* v, int x) { v->insert(v->begin(), x); }
X void vi_shrink(VI* v) { v->shrink_to_fit(); }
X void vi_end(VI* v) { v->~VI(); }
X void vs_new(VS* v) { new (v) VS; }
X void vs_push(VS* v, long n, long c) { v->emplace_back(n, c); }
X void vs_front(VS* v) { if (v->size()) v->erase(v->begin()); }
X void vs_short(VS* v) { for (auto& s : *v) if (s.size() > 3) s.resize(3); }
X void vs_swap(VS* v) { if (v->size() > 1) std::swap(v->front(), v->back()); }
X void vs_end(VS* v) { v->~VS(); }
X void vv_new(VV* v) { new (v) VV; }
X void vv_push(VV* v, long n, int x) { v->emplace_back(n, x); }
X void vv_add(VV* v, int x) { for (auto& i : *v) i.push_back(x); }
X void vv_end(VV* v) { v->~VV(); }
X u64 by_value(S s, long k, S t) { return mix(mix(s_hash(&s), k), s_hash(&t)); }
static char area[32768] __attribute__((aligned(64))); X long area_addr() { return (long)area; }
volatile long keep; extern "C" void _start() { keep = 1; fast_exit(); }
