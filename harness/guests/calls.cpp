// Guest functions for C11, compiled by the LoongArch cross compiler.
#include <stddef.h>
#include <stdint.h>
#define X extern "C" __attribute__((noinline, used))
X void fast_exit() { asm volatile(".word 0x00150000"); __builtin_unreachable(); }
static inline long host(long n, long x) { register long a0 asm("a0") = x; register long a7 asm("a7") = n; asm volatile("syscall 0" : "+r"(a0) : "r"(a7) : "memory", "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8"); return a0; }
X long add2(long a, long b) { return a + b; }
X long fib(long n) { return n < 2 ? n : fib(n - 1) + fib(n - 2); }
X long fill(long seed, long n) { volatile long a[8]; for (long i = 0; i < 8; i++) a[i] = seed * (i + 1); for (long k = 0; k < n; k++) for (long i = 0; i < 8; i++) a[i] = a[i] + a[(i + 3) & 7] * k; long s = 0; for (long i = 0; i < 8; i++) s = s * 31 + a[i]; return s; }
// keeps values in saved registers and on the stack across a host call
X long nest(long v, long hostarg) { volatile long keep[4] = { v, v * 3, v ^ 0x55, ~v }; long s1 = v * 7, s2 = v + 11, s3 = v << 5; double d = v * 0.5; long r = host(400, hostarg); s1 += keep[0]; s2 ^= keep[1]; s3 -= keep[2]; return s1 * 3 + s2 * 5 + s3 * 7 + keep[3] + r * 1000003 + (long)(d * 4); }
X long nest2(long v, long hostarg) { long a = nest(v, hostarg); long b = nest(v + 1, hostarg); return a ^ (b * 3); }
X long crash(long v) { volatile long keep[2] = { v, v + 1 }; *(volatile long*)8 = keep[0]; return keep[1]; }
X long strsum(const char* s) { long r = 0; while (*s) r = r * 131 + (unsigned char)*s++; return r; }
X long many(long a, long b, long c, long d, long e, long f, long g, long h, long i, long j, long k, long l) { return a + b * 2 + c * 3 + d * 4 + e * 5 + f * 6 + g * 7 + h * 8 + i * 9 + j * 10 + k * 11 + l * 12; }
X double manyf(double a, double b, double c, double d, double e, double f, double g, double h, double i, double j) { return a + b * 2 + c * 3 + d * 4 + e * 5 + f * 6 + g * 7 + h * 8 + i * 9 + j * 10; }
X long mixed(int a, float f, const char* s, unsigned b, double d, signed char c, unsigned short u, long h, float g, long i, int j, unsigned k) { return (long)a * 2 + (long)(f * 4) + strsum(s) + (long)(int)b * 3 + (long)(d * 8) + c * 5 + u * 7 + h * 11 + (long)(g * 2) + i * 13 + (long)j * 17 + (long)k * 19; }
X unsigned ucmp(unsigned a, unsigned b) { return a < b ? 1 : a == b ? 2 : 3; }
X int icmp(int a, int b) { return a < b ? 1 : a == b ? 2 : 3; }
struct S { long a; int b; char c[5]; };
X long structsum(const S* s, const S* t) { long r = s->a * 3 + s->b; for (int i = 0; i < 5; i++) r = r * 7 + s->c[i]; r = r * 31 + t->a * 3 + t->b; for (int i = 0; i < 5; i++) r = r * 7 + t->c[i]; return r; }
X long reti(long v) { return v; }
X double retd(double v) { return v; }
X float retf(float v) { return v; }
X long align() { long sp; asm volatile("move %0, $sp" : "=r"(sp)); return sp; }
X long spin(long n) { for (;;) { n = n * 3 + 1; asm volatile("" : "+r"(n)); } }
volatile long sink;
void (*volatile const table[])() = { fast_exit, (void (*)())add2 };
extern "C" void _start() { sink = 1; table[0](); }
