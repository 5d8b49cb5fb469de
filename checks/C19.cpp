// build: VARIANT=asan
// C19: every installed system call with every combination of boundary arguments, run by the
// guest.  Compared with a table of Linux results; guest memory is compared byte for byte and a
// seccomp filter stops and records every host system call made on the guest's behalf.
#include "vp.hpp"
#include <libloong/machine.hpp>
#include <libloong/native/heap.hpp>
#include <libloong/posix/signals.hpp>
#include <libloong/posix/threads.hpp>
#include <algorithm>
#include <memory>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <ucontext.h>
#include <time.h>
#include <poll.h>
using namespace vp; using namespace loongarch; using std::string; typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef std::vector<uint8_t> Bytes;

// ---- host system calls are trapped; outside guest calls they are carried out by raw_syscall
extern "C" long raw_syscall(long nr, long a, long b, long c, long d, long e, long f); extern "C" char raw_syscall_ip[];
asm(".text\n.globl raw_syscall\n.type raw_syscall,@function\nraw_syscall: mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n.globl raw_syscall_ip\nraw_syscall_ip: ret\n");
static volatile int g_in_guest = 0; static volatile long g_host_calls = 0, g_host_nr = 0; static bool g_filter = false;
__attribute__((no_sanitize("address"))) static void on_sys(int, siginfo_t* si, void* u) { auto* g = ((ucontext_t*)u)->uc_mcontext.gregs; long nr = si->si_syscall; if (g_in_guest) { g_host_calls = g_host_calls + 1; g_host_nr = nr; g[REG_RAX] = nr == SYS_write ? g[REG_RDX] : -ENOSYS; return; } g[REG_RAX] = raw_syscall(nr, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]); }
static void install_filter() {
	static bool done = false; if (done) return; done = true; struct sigaction sa {}; sa.sa_sigaction = on_sys; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &sa, nullptr); u64 ip = (u64)raw_syscall_ip; std::vector<sock_filter> f; auto ld = [&](u32 off) { f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, off)); };
	ld(offsetof(seccomp_data, instruction_pointer)); f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (u32)ip, 0, 3)); ld(offsetof(seccomp_data, instruction_pointer) + 4); f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (u32)(ip >> 32), 0, 1)); f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)); ld(offsetof(seccomp_data, nr));
	for (int nr : { SYS_mmap, SYS_munmap, SYS_mremap, SYS_madvise, SYS_brk, SYS_futex, SYS_mprotect, SYS_rt_sigaction, SYS_rt_sigprocmask, SYS_rt_sigreturn, SYS_sigaltstack, SYS_exit, SYS_exit_group, SYS_clock_gettime, SYS_gettimeofday, SYS_getpid, SYS_gettid, SYS_tgkill }) { f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (u32)nr, 0, 1)); f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)); } f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
	sock_fprog p{ (unsigned short)f.size(), f.data() }; if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0) g_filter = true; }


static constexpr u64 RO = 0x1000, DATA = 0x2000, CODE = 0x1000, MID = 0x6000, HEAP = 0x8000, HEAPSZ = 0x1000, STK = 0xb000;
static char* g_out; static size_t g_outn; // what the guest printed
struct Res { bool threw = false; int et = -1; string what; i64 r = 0; u64 pc = 0; string out; bool stopped = false; };
struct Sys {
	Ctx& c; std::unique_ptr<Machine> m; u64 MM; Bytes model; string who; bool threads, heap, verbose; FILE* real; int mode = 0; u64 mmap_lo = 0;
	Sys(Ctx& c, int cfg, bool verbose = false, u64 mm = 0xc000) : c(c), MM(mm), threads(cfg & 1), heap(cfg & 2), verbose(verbose) {
		auto o = std::make_shared<MachineOptions>(); o->memory_max = MM; o->use_shared_execute_segments = false; o->verbose_syscalls = verbose; m = std::make_unique<Machine>(std::string_view{}, *o); m->set_options(o); m->memory.allocate_custom_arena(MM, RO, DATA); static std::vector<u32> code = [] { std::vector<u32> v(64, 0x00150000); v[0] = 0x002b0000; return v; }(); memcpy(mem() + CODE, code.data(), 256); m->cpu.init_execute_area(mem() + CODE, CODE, 256);
		m->setup_linux_syscalls(); if (threads) m->setup_posix_threads(); if (heap) { m->setup_accelerated_heap(HEAP, HEAPSZ); m->setup_accelerated_syscalls(); } for (u64 i = DATA; i < MM; i++) mem()[i] = (i * 7 + (i >> 8)) | 1; sync(); real = stdout; stdout = open_memstream(&g_out, &g_outn); mmap_lo = m->memory.mmap_start(); install_filter(); }
	~Sys() { fclose(stdout); free(g_out); stdout = real; }
	uint8_t* mem() { return (uint8_t*)m->memory.arena_ptr(); } void sync() { model.assign(mem(), mem() + MM); }
	bool rd(u64 a, u64 n) const { return a >= RO && a <= MM && n <= MM - a; } bool wr(u64 a, u64 n) const { return a >= DATA && a <= MM && n <= MM - a; }
	template <typename T> T get(u64 a) const { T t; memcpy(&t, &model[a], sizeof t); return t; }
	bool bad(const string& k, const string& t) { c.fail(k, who + ": " + t); return false; }
	u64 rnd(int i) { return 0x1111111111111111ull * (i % 16 + 1) ^ 0xabcdef; }
	Res call(u64 nr, const u64* a) {
		auto& R = m->cpu.registers(); Res q; c.transitions(); u64 save[32]; for (int i = 1; i < 32; i++) save[i] = R.get(i) = rnd(i); save[0] = 0; R.get(1) = save[1] = CODE + 0x80; R.get(3) = save[3] = STK; for (int i = 0; i < 6; i++) R.get(4 + i) = save[4 + i] = a[i]; R.get(11) = save[11] = nr; R.pc = CODE; fflush(stdout); fseek(stdout, 0, SEEK_SET); g_host_calls = 0; 
		g_in_guest = 1; try { if (mode == 0) q.stopped = m->simulate(1000, 0); else if (mode == 1) m->cpu.simulate_inaccurate(CODE); else { m->set_max_instructions(UINT64_MAX); for (int i = 0; i < 8 && m->max_instructions(); i++) m->cpu.step_one(); } } catch (const MachineException& e) { q.threw = true; q.et = e.type(); q.what = e.what(); } g_in_guest = 0;
		if (g_host_calls && !(verbose && g_host_nr == SYS_write)) bad(fmt("%ld:host", (long)nr), fmt("the host made its own system call %ld", (long)g_host_nr)); fflush(stdout); q.out.assign(g_out, ftell(stdout)); q.r = R.get(4); q.pc = R.pc;
		if (!q.threw && !jumps(nr)) { for (int i = 0; i < 32; i++) if (i != 4 && R.get(i) != save[i]) bad(fmt("%ld:register", (long)nr), fmt("register %d is %#lx instead of %#lx", i, (long)R.get(i), (long)save[i])); u64 want = CODE + 8; if (nr == 93 || nr == 94) want = CODE + 4; if (q.pc != want && !(nr == 93 || nr == 94)) bad(fmt("%ld:pc", (long)nr), fmt("continued to %#lx", (long)q.pc)); }
		if (!verbose && nr != 64 && nr != 66 && q.out.size()) bad(fmt("%ld:output", (long)nr), "printed " + q.out); return q; }
	static bool jumps(u64 nr) { return nr == 220 || nr == 435 || nr == 124 || nr == 130 || nr == 131 || nr == 98 || nr == 422; }
	// bytes outside the given ranges are as before; takes over the new contents
	void confined(u64 nr, std::vector<std::pair<u64, u64>> ranges) { uint8_t* A = mem(); if (!memcmp(A, model.data(), MM)) return; for (u64 i = 0; i < MM; i++) if (A[i] != model[i]) { bool in = false; for (auto& p : ranges) if (i >= p.first && i - p.first < p.second) in = true; if (!in) { bad(fmt("%ld:memory", (long)nr), fmt("byte %#lx changed from %#x to %#x", (long)i, model[i], A[i])); break; } } memcpy(A, model.data(), MM); }
};
static bool iserr(i64 r) { return r < 0 && r >= -4095; }
static const std::map<int, const char*> NAMES = { { 25, "fcntl" }, { 29, "ioctl" }, { 56, "openat" }, { 57, "close" }, { 63, "read" }, { 64, "write" }, { 66, "writev" }, { 73, "ppoll" }, { 78, "readlinkat" }, { 80, "fstat" }, { 93, "exit" }, { 94, "exit_group" }, { 96, "set_tid_address" }, { 98, "futex" }, { 99, "set_robust_list" }, { 101, "nanosleep" }, { 113, "clock_gettime" }, { 123, "sched_getaffinity" }, { 124, "sched_yield" }, { 130, "tkill" }, { 131, "tgkill" }, { 132, "sigaltstack" }, { 134, "rt_sigaction" }, { 135, "rt_sigprocmask" }, { 167, "prctl" }, { 169, "gettimeofday" }, { 172, "getpid" }, { 174, "getuid" }, { 175, "geteuid" }, { 176, "getgid" }, { 177, "getegid" }, { 178, "gettid" }, { 214, "brk" }, { 215, "munmap" }, { 220, "clone" }, { 222, "mmap" }, { 226, "mprotect" }, { 233, "madvise" }, { 261, "prlimit64" }, { 278, "getrandom" }, { 291, "statx" }, { 422, "futex_time64" }, { 435, "clone3" }, { 495, "malloc" }, { 496, "calloc" }, { 497, "realloc" }, { 498, "free" }, { 499, "meminfo" } };
// number of arguments each call looks at, by kind: p pointer, n length, f descriptor, i small integer
static string kinds(int nr) { static const std::map<int, string> K = { { 25, "fii" }, { 29, "fip" }, { 56, "fpii" }, { 57, "f" }, { 63, "fpn" }, { 64, "fpn" }, { 66, "fpn" }, { 73, "pnpp" }, { 78, "fppn" }, { 80, "fp" }, { 93, "i" }, { 94, "i" }, { 96, "p" }, { 98, "piippi" }, { 99, "pn" }, { 101, "pp" }, { 113, "ip" }, { 123, "inp" }, { 124, "" }, { 130, "ii" }, { 131, "iii" }, { 132, "pp" }, { 134, "ippn" }, { 135, "ippn" }, { 167, "ippn" }, { 169, "pp" }, { 178, "" }, { 214, "p" }, { 215, "pn" }, { 220, "ippp" }, { 222, "pniifn" }, { 226, "pni" }, { 233, "pni" }, { 261, "iipp" }, { 278, "pni" }, { 291, "fpiip" }, { 422, "piippi" }, { 435, "pn" }, { 495, "n" }, { 496, "nn" }, { 497, "pn" }, { 498, "p" }, { 499, "p" } }; auto it = K.find(nr); return it == K.end() ? (nr >= 172 && nr <= 177 ? "" : "pnp") : it->second; }
static std::vector<u64> values(char k, u64 MM, bool T) { std::vector<u64> v;
	switch (k) { case 'p': v = { 0, 1, RO - 8, RO, DATA - 8, DATA - 1, DATA, MID, MID + 1, HEAP, MM - 128, MM - 24, MM - 16, MM - 8, MM - 1, MM, MM + 8, 1ull << 32, (1ull << 32) + MID, 1ull << 63, ~7ull, ~0ull }; if (T) for (u64 x : std::vector<u64>{ RO - 1, DATA - 16, DATA + 4, HEAP + HEAPSZ - 8, STK, MM - 127, MM - 88, MM - 15, MM - 4, MM + 63, MM + 64, MM + 4096, 1ull << 31 }) v.push_back(x); break;
	case 'n': v = { 0, 1, 7, 8, 9, 16, 88, 128, 1024, 1025, 4096, MM - MID, MM - MID + 1, 1ull << 20, 1ull << 31, 1ull << 32, 1ull << 63, ~0ull - MID, ~0ull }; if (T) for (u64 x : std::vector<u64>{ 2, 15, 17, 24, 64, 127, 4095, 4097, MM, MM - DATA, MM - DATA + 1, (1ull << 32) + 8, (1ull << 61) + 1 }) v.push_back(x); break;
	case 'f': v = { 0, 1, 2, 3, 100, 0x7fffffff, 0x80000000, 0xffffffff, 1ull << 32, (1ull << 32) + 1, ~0ull, (u64)-100 }; break;
	default: v = { 0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 15, 16, 17, 34, 50, 64, 65, 128, 129, 137, 0x7fffffff, 0x80000000, 0xfffffffa, 0xfffffffe, 1ull << 32, (1ull << 32) + 1, ~0ull, (u64)(i64)((~1 << 3) | 2), 0x3d0f00, 0x01200011 }; } return v; }
// what Linux (or the sandbox's documented stand-in) may return and where it may write; "" when fine
static string judge(Sys& s, int nr, const u64* a, const Res& q, std::vector<std::pair<u64, u64>>& W) {
	auto rd = [&](u64 x, u64 n) { return s.rd(x, n); }; auto wr = [&](u64 x, u64 n) { return s.wr(x, n); }; auto got = [&] { return q.threw ? "raised " + q.what : fmt("returned %ld", (long)q.r); }; bool pf = (q.threw && q.et == PROTECTION_FAULT) || (!q.threw && q.r == -14); bool fails = q.threw || iserr(q.r); auto is = [&](i64 v) { return !q.threw && q.r == v; }; string no; auto ck = [&](bool ok, const char* want) { if (!ok && no.empty()) no = got() + ", expected " + want; return ok; }; int fd = (int)a[0]; const uint8_t* A = s.mem(); auto at64 = [&](u64 x) { u64 v; memcpy(&v, A + x, 8); return v; };
	if (!q.threw && !iserr(q.r) && q.r < 0 && nr != 93 && nr != 94 && !(nr == 66 || nr == 64) && q.pc == CODE + 8) return got() + ", which is neither a result nor an error number";
	switch (nr) {
	case 64: if (fd != 1 && fd != 2) ck(is(-9), "EBADF"); else if (rd(a[1], a[2])) { if (ck(is(a[2]), "the length")) { if (q.out != string((const char*)&s.model[a[1]], a[2])) no = "printed something else"; } } else if (a[2]) ck(pf, "a fault"); if (q.out.size() && !(fd == 1 || fd == 2)) no = "printed to another descriptor"; break;
	case 66: { if (fd != 1 && fd != 2) { ck(is(-9) || (a[2] > 1024 && fails), "EBADF"); if (q.out.size()) no = "printed to another descriptor"; break; } if (a[2] > 1024) { ck(fails, "an error"); break; } string all; bool fault = false; std::vector<size_t> ends{ 0 }; for (u64 i = 0; i < a[2]; i++) { u64 x = a[1] + 16 * i; if (!rd(x, 16)) { fault = true; break; } u64 b = s.get<u64>(x), l = s.get<u64>(x + 8); if (l && !rd(b, l)) { fault = true; break; } if (l) all.append((const char*)&s.model[b], l); ends.push_back(all.size()); }
		if (fault) { ck(fails || (u64)q.r == q.out.size(), "a fault or a partial length"); if (all.compare(0, q.out.size(), q.out)) no = "printed something else"; } else { ck(is(all.size()), "the sum of the lengths"); if (q.out != all && no.empty()) no = fmt("printed %zu other bytes instead of %zu", q.out.size(), all.size()); } break; }
	case 63: if (fd == 0) ck(is(0), "end of file"); else ck(fails, "an error"); break;
	case 56: case 29: case 291: ck(fails, "an error"); break;
	case 57: if (fd >= 0 && fd <= 2) ck(is(0) || fails, "success"); else ck(is(-9), "EBADF"); break;
	case 25: if (fd < 0 || fd > 2) ck(is(-9), "EBADF"); break;
	case 80: W.push_back({ a[1], 128 }); if (fd < 0 || fd > 2) ck(is(-9), "EBADF"); else if (wr(a[1], 128)) ck(is(0), "success"); else ck(fails, "a fault"); if (fails && !q.threw) W.pop_back(); break;
	case 78: { bool isself = rd(a[1], 15) && !memcmp(&s.model[a[1]], "/proc/self/exe", 15); W.push_back({ a[2], a[3] }); if ((int)a[3] <= 0) ck(fails, "an error"); else if (!isself) ck(fails, "an error"); else if (wr(a[2], std::min<u64>(a[3], 4096))) { if (ck(!fails && q.r > 0 && (u64)q.r <= a[3] && wr(a[2], q.r) && !memchr(A + a[2], 0, q.r), "the length of a path")) W = { { a[2], (u64)q.r } }; } else if (!wr(a[2], 1)) ck(pf, "a fault"); break; }
	case 73: { u64 n = a[1]; if (n > 1024) { ck(fails, "an error"); break; } if (!n) { ck(is(0) || pf, "none ready"); break; } if (!wr(a[0], n * 8)) { ck(pf, "a fault"); break; } i64 ready = 0; for (u64 i = 0; i < n; i++) { int f = s.get<int>(a[0] + 8 * i); int ev = (uint16_t)s.get<short>(a[0] + 8 * i + 4), re; uint16_t t; memcpy(&t, A + a[0] + 8 * i + 6, 2); re = t; W.push_back({ a[0] + 8 * i + 6, 2 }); if (re) ready++; if (f < 0 && re) no = fmt("negative descriptor %d has events %#x", f, re); if (f > 2 && re != POLLNVAL && no.empty()) no = fmt("descriptor %d, which is not open, has events %#x instead of POLLNVAL", f, re); if (f >= 0 && f <= 2 && (re & ~(ev | POLLERR | POLLHUP))) no = fmt("descriptor %d has events %#x, of %#x", f, re, ev); if (f >= 0 && f <= 2 && (ev & (POLLIN | POLLOUT)) && !(re & ev)) no = fmt("descriptor %d is not ready", f); } ck(is(ready), fmt("%ld ready descriptors", (long)ready).c_str()); break; }
	case 278: W.push_back({ a[0], a[1] }); if (wr(a[0], a[1])) ck(!fails && (u64)q.r <= a[1] && (q.r > 0 || !a[1]), "a length"); else if (a[1] && !wr(a[0], 1)) ck(pf, "a fault"); else if (a[1]) ck(fails || wr(a[0], q.r), "a fault"); if (a[1] > ~a[0]) W.back().second = ~a[0]; break;
	case 261: if (a[3]) W.push_back({ a[3], 16 }); if ((u32)a[1] >= 16) ck(fails, "EINVAL"); else if (a[3] && !wr(a[3], 16)) ck(pf, "a fault"); else { ck(is(0), "success"); if (no.empty() && a[3] && at64(a[3]) > at64(a[3] + 8)) no = "the limit exceeds the maximum"; } break;
	case 113: { struct timespec t; if (a[1]) W.push_back({ a[1], 16 }); int id = (int)a[0]; bool known = id >= 0 && id <= 11 && clock_gettime(id, &t) == 0; if (!known) { W.clear(); ck(fails, "EINVAL"); } else if (!a[1]) ck(is(0) || fails, "an error"); else if (!wr(a[1], 16)) ck(pf, "a fault"); else if (ck(is(0), "success")) { i64 sec = at64(a[1]), ns = at64(a[1] + 8); i64 d = (t.tv_sec - sec) * 1000000000 + t.tv_nsec - ns; if (ns < 0 || ns > 999999999 || d < -100000000 || d > 20000000000) no = fmt("the time is %ld.%ld instead of %ld.%ld", (long)sec, (long)ns, (long)t.tv_sec, t.tv_nsec); } break; }
	case 169: { if (a[0]) W.push_back({ a[0], 16 }); if (a[1]) W.push_back({ a[1], 8 }); struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (a[0] && !wr(a[0], 16)) ck(pf, "a fault"); else if (a[0] && (!a[1] || ck(is(0) || fails, "success")) && (a[1] || ck(is(0), "success")) && is(0)) { i64 sec = at64(a[0]), us = at64(a[0] + 8); i64 d = (t.tv_sec - sec) * 1000000 + t.tv_nsec / 1000 - us; if (us < 0 || us > 999999 || d < -2000000 || d > 20000000) no = fmt("the time is %ld.%ld", (long)sec, (long)us); } break; }
	case 101: { if (a[1]) W.push_back({ a[1], 16 }); if (!a[0]) break; if (!rd(a[0], 16)) { ck(pf, "a fault"); break; } i64 sec = s.get<i64>(a[0]), ns = s.get<i64>(a[0] + 8); if (sec < 0 || ns < 0 || ns > 999999999) ck(fails, "EINVAL"); else if (!a[1] || wr(a[1], 16)) ck(is(0), "success"); break; }
	case 123: W.push_back({ a[2], std::min<u64>(a[1], 8) }); if (a[1] < 8 || a[1] % 8) ck(fails, "EINVAL"); else if (!a[2] || !wr(a[2], 8)) ck(fails, "a fault"); else if (ck(is(8), "the size of the mask") && !at64(a[2])) no = "no processor in the mask"; break;
	case 96: case 178: ck(is(s.m->gettid()), "the thread"); break; case 172: ck(!fails, "a process"); break; case 174: case 175: case 176: case 177: ck(is(1000), "1000"); break;
	case 132: W.push_back({ a[1], a[1] ? 24 : 0 }); break; case 134: W.push_back({ a[2], a[2] ? 24 : 0 }); if ((int)a[0] < 1 || (int)a[0] > 64) { W.clear(); ck(fails, "EINVAL"); } break; case 135: W.push_back({ a[2], a[2] ? 8 : 0 }); break; case 167: W.push_back({ a[1], a[1] ? 16 : 0 }); break;
	case 93: case 94: ck(!q.threw && q.stopped && q.r == (i64)a[0], "the end of the program"); break;
	case 215: case 226: case 233: W.push_back({ a[0], a[1] > ~a[0] ? ~a[0] : (a[1] + 4095) & ~4095ull }); ck(fails || is(0), "a result"); break;
	case 222: if (!fails) { u64 n = (a[1] + 4095) & ~4095ull; W.push_back({ (u64)q.r, n }); ck(q.r % 4096 == 0 && wr(q.r, n) && a[1], "a mapping"); } break;
	case 214: ck(fails || q.r == 0 || wr(q.r, 0), "the break"); break;
	case 98: case 422: W.push_back({ a[0], 4 }); ck(fails || (q.r >= 0 && q.r <= 1), "a result"); break;
	case 220: W.push_back({ a[2], 4 }); W.push_back({ a[3], 4 }); break; case 435: if (rd(a[0], 88)) { W.push_back({ s.get<u64>(a[0] + 16), 4 }); W.push_back({ s.get<u64>(a[0] + 24), 4 }); } else ck(fails, "a fault"); break;
	case 495: if (q.r && !fails) ck(wr(q.r, std::max<u64>(a[0], 1)) && (u64)q.r >= HEAP && q.r + a[0] <= HEAP + HEAPSZ, "a heap block"); break; case 496: if (q.r && !fails) { u64 n = a[0] * a[1]; bool ov = a[0] && n / a[0] != a[1]; if (ck(!ov && (u64)q.r >= HEAP && n <= HEAPSZ && q.r + n <= HEAP + HEAPSZ, "a heap block")) W.push_back({ (u64)q.r, n }); } break; case 497: W.push_back({ HEAP, HEAPSZ }); break; case 499: if (a[0]) { W.push_back({ a[0], 24 }); if (wr(a[0], 24)) ck(is(0), "success"); else ck(pf, "a fault"); } break;
	}
	return no; }
static bool one(Sys& s, int nr, const u64* a) { Ctx& c = s.c; auto it = NAMES.find(nr); string nm = it == NAMES.end() ? fmt("system call %d", nr) : it->second; auto who = [&] { string t = nm + "("; string k = kinds(nr); for (size_t i = 0; i < k.size(); i++) t += fmt(i ? ",%#lx" : "%#lx", (long)a[i]); return t + fmt("), mode %d%s%s", s.mode, s.threads ? ", threads" : "", s.verbose ? ", verbose" : ""); }; s.who = who(); c.at("%s", s.who.c_str()); Res q = s.call(nr, a); std::vector<std::pair<u64, u64>> W; string no = judge(s, nr, a, q, W); if (no.size()) s.bad(fmt("%d:result", nr), no); s.confined(nr, W); if (!q.threw && !iserr(q.r)) c.nontrivial(); return no.empty(); }
int main(int argc, char** argv) {
	Check chk(argc, argv, "C19"); bool T = chk.thorough();
	chk.rule("a case is one system call made by the guest with one combination of boundary arguments in one configuration (plain, threads, heap; verbose or not) and execution mode; nontrivial when it returns a result");
	chk.assume("mprotect, madvise, prctl, fcntl (on open descriptors), rt_sigprocmask and set_robust_list are stand-ins that report success; a raised MachineException is accepted wherever Linux returns an error");
	chk.assume("the seccomp monitor sees system calls of the process, not effects through the vDSO");
	static std::vector<int> nrs; for (auto& p : NAMES) nrs.push_back(p.first);
	chk.section("arguments", [&](Ctx& c) { // all combinations
		int nr = c.pick(nrs, "call"); int cfg = c.choose(4, "configuration"); string k = kinds(nr); bool th = nr == 124 || nr == 220 || nr == 435 || nr == 422, hp = nr >= 495; if ((th && !(cfg & 1)) || (hp && !(cfg & 2))) c.prune(); if (!T && (cfg == 3 || (cfg == 2 && !hp))) c.prune(); if (k.size() > 0) (void)0; std::vector<std::vector<u64>> v; for (char x : k) v.push_back(values(x, 0xc000, T)); u64 first = k.empty() ? 0 : c.pick(v[0], "first"); 
		// calls with many arguments: the later ones take fewer values, unless thorough
		u64 total = 1; for (size_t i = 1; i < v.size(); i++) total *= v[i].size(); u64 cap = T ? 12000 : 4000; for (size_t i = v.size(); i-- > 1 && total > cap;) { while (v[i].size() > 5 && total > cap) { total /= v[i].size(); std::vector<u64> w; for (size_t j = 0; j < v[i].size(); j++) if (j % 3 != 1) w.push_back(v[i][j]); if (w.size() == v[i].size()) break; v[i] = w; total *= w.size(); } }
		bool fresh = nr == 220 || nr == 435 || nr == 130 || nr == 131 || nr == 222 || (cfg & 1) || hp; std::unique_ptr<Sys> s; for (int mode = 0; mode < (T ? 3 : 1); mode++) { if (mode == 2 && (nr == 93 || nr == 94)) continue; for (u64 j = 0; j < total; j++) { if (!s || (fresh && j % (nr == 222 || hp ? 16 : 1) == 0)) { s.reset(); s = std::make_unique<Sys>(c, cfg); if (hp) { u64 z[6] = { 40, 0, 0, 0, 0, 0 }; s->who = "preparing"; s->call(495, z); s->call(495, z); s->call(498, std::vector<u64>{ HEAP, 0, 0, 0, 0, 0 }.data()); s->sync(); } } s->mode = mode; u64 a[6] = { first, 0, 0, 0, 0, 0 }; u64 r = j; for (size_t i = 1; i < v.size(); i++) { a[i] = v[i][r % v[i].size()]; r /= v[i].size(); } for (size_t i = std::max<size_t>(v.size(), 1); i < 6; i++) a[i] = ~0ull - i; one(*s, nr, a); } s.reset(); }
		c.state(mix(mix(nr, cfg), first)); if (c.want_sample()) c.sample(fmt("%s, first argument %#lx, %lu combinations", NAMES.at(nr), (long)first, (unsigned long)total)); }, { .split_depth = 3, .timeout_s = 200 });
	chk.section("contents", [&](Ctx& c) { // calls whose arguments point to structures
		int what = c.choose(6, "what"), cfg = c.choose(2, "configuration"), mode = c.choose(3, "mode"); Sys s(c, cfg); s.mode = mode; auto put = [&](u64 at, const void* p, size_t n) { memcpy(s.mem() + at, p, n); memcpy(&s.model[at], p, n); }; u64 MM = s.MM;
		if (what == 0) { // writev: every list of up to three buffers
			std::vector<std::pair<u64, u64>> B{ { MID, 5 }, { MID + 7, 0 }, { 0, 0 }, { MM - 4, 4 }, { MM - 4, 5 }, { 0, 1 }, { DATA, 4096 }, { MID, ~0ull }, { 1ull << 63, 1 }, { RO, 16 }, { MM, 0 } }; int n = c.choose(4, "buffers"); for (u64 at : std::vector<u64>{ MID + 0x100, MM - 16 * (u64)n, DATA, MM - 8 }) { u64 tot = 1; for (int i = 0; i < n; i++) tot *= B.size(); for (u64 j = 0; j < tot; j++) { u64 r = j; for (int i = 0; i < n; i++) { auto b = B[r % B.size()]; r /= B.size(); if (at + 16 * i + 16 <= MM) put(at + 16 * i, &b, 16); } for (u64 fd : std::vector<u64>{ 1, 2, 0, 5 }) { u64 a[6] = { fd, at, (u64)n, 0, 0, 0 }; one(s, 66, a); if (fd > 1 && j % 16) break; } } } c.state(n); }
		else if (what == 1) { std::vector<int> F{ -1, 0, 1, 2, 3, 1000, INT32_MIN }; std::vector<int> E{ 0, POLLIN, POLLOUT, POLLIN | POLLOUT }; int n = c.choose(3, "descriptors"); for (u64 at : std::vector<u64>{ MID, MM - 8 * (u64)n, MID + 1 }) { u64 tot = 1; for (int i = 0; i < n; i++) tot *= F.size() * E.size(); for (u64 j = 0; j < tot; j++) { u64 r = j; for (int i = 0; i < n; i++) { struct { int fd; short ev, re; } p{ F[r % F.size()], 0, (short)0x7777 }; r /= F.size(); p.ev = E[r % E.size()]; r /= E.size(); put(at + 8 * i, &p, 8); } u64 a[6] = { at, (u64)n, 0, 0, 0, 0 }; one(s, 73, a); } } c.state(100 + n); }
		else if (what == 2) { static const std::vector<string> P{ "/proc/self/exe", "/proc/self/exeX", "/proc/self/ex", "/proc/self/", "/etc/passwd", "", "/tmp/program", "self" }; for (auto& p : P) for (u64 at : std::vector<u64>{ MID, MID + 3, MM - p.size() - 1, DATA }) for (u64 buf : std::vector<u64>{ MID + 0x100, MM - 1, MM - 12, MM - 11, MM, 0, DATA - 1, ~0ull }) for (u64 n : std::vector<u64>{ 0, 1, 11, 12, 13, 100, 4096, 1ull << 31, (1ull << 32), ~0ull }) { put(at, p.c_str(), p.size() + 1); u64 a[6] = { (u64)-100, at, buf, n, 0, 0 }; one(s, 78, a); } c.state(200); }
		else if (what == 3) { for (i64 sec : std::vector<i64>{ 0, 1, 1000000000, INT64_MAX, -1, INT64_MIN }) for (i64 ns : std::vector<i64>{ 0, 1, 999999999, 1000000000, -1, INT64_MAX, INT64_MIN }) for (u64 at : std::vector<u64>{ MID, MM - 16, MID + 1 }) for (u64 rem : std::vector<u64>{ 0, MID, MID + 0x40, MM - 16, MM - 8, 8 }) { i64 t[2] = { sec, ns }; put(at, t, 16); u64 a[6] = { at, rem, 0, 0, 0, 0 }; one(s, 101, a); } c.state(300); }
		else if (what == 4) { for (u64 n : std::vector<u64>{ 0, 1, 64, 4095, 4096, MM - DATA }) for (u64 at : std::vector<u64>{ DATA, MM - n, MID }) { if (at < DATA || at + n > MM) continue; for (int pat = 0; pat < 3; pat++) { Bytes b(n); for (u64 i = 0; i < n; i++) b[i] = pat == 0 ? 0 : pat == 1 ? '%' : i * 31 + 7; put(at, b.data(), n); for (u64 fd : std::vector<u64>{ 1, 2 }) { u64 a[6] = { fd, at, n, 0, 0, 0 }; one(s, 64, a); } } } c.state(400); }
		else { struct K { u64 h, f, m; }; for (u64 sp : std::vector<u64>{ MID, MM - 24, MM - 23, DATA - 8, RO, 0 }) for (u64 op : std::vector<u64>{ 0, MID, MID + 8, MM - 24, MM - 23, DATA - 8 }) for (int nr : { 132, 134 }) { K k{ CODE + 8, 0, 4096 }; if (sp >= DATA && sp + 24 <= MM) put(sp, &k, 24); u64 a[6] = { nr == 132 ? sp : 10, nr == 132 ? op : sp, nr == 132 ? 0 : op, 8, 0, 0 }; one(s, nr, a); } c.state(500); }
		}, { .split_depth = 4, .timeout_s = 200 });
	chk.section("big", [&](Ctx& c) { // large buffers
		u64 n = c.pick(std::vector<u64>{ (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 2 << 20 }, "length"); Sys s(c, 0, false, 0x300000); for (int k = 0; k < 3; k++) { u64 iov[6] = { MID + 0x100, n, MID, 3, MID + 8, 5 }; if (k == 1) std::swap(iov[0], iov[2]), std::swap(iov[1], iov[3]); memcpy(s.mem() + MID, iov, 48); s.sync(); u64 a[6] = { 1, MID, (u64)k + 1, 0, 0, 0 }; one(s, 66, a); u64 w[6] = { 2, DATA + 5, n, 0, 0, 0 }; one(s, 64, w); u64 g[6] = { DATA + 3, n, 0, 0, 0, 0 }; one(s, 278, g); } c.state(n); }, { .split_depth = 1, .timeout_s = 100 });
	chk.section("verbose", [&](Ctx& c) { // the diagnostics do not change anything
		int nr = c.pick(nrs, "call"), cfg = c.choose(4, "configuration"); if ((nr >= 495 && !(cfg & 2)) || ((nr == 124 || nr == 220 || nr == 435 || nr == 422) && !(cfg & 1)) || nr == 64 || nr == 66) c.prune(); u64 v[5] = { 0, 1, MID, ~0ull, 1ull << 63 }; string k = kinds(nr); u64 tot = 1; for (size_t i = 0; i < k.size() && i < 4; i++) tot *= 5; std::unique_ptr<Sys> s; for (u64 j = 0; j < tot; j++) { if (!s || cfg) { s.reset(); s = std::make_unique<Sys>(c, cfg, true); } u64 r = j, a[6]; for (int i = 0; i < 6; i++) { a[i] = v[r % 5]; r /= 5; if (i >= 4) a[i] = v[3 + i % 2]; } one(*s, nr, a); } s.reset(); c.state(nr * 4 + cfg); }, { .split_depth = 2, .timeout_s = 200 });
	chk.section("unknown", [&](Ctx& c) { // every number
		int cfg = c.choose(4, "configuration"), mode = c.choose(3, "mode"); Sys s(c, cfg); s.mode = mode; std::vector<u64> ns; for (u64 i = 0; i < 700; i++) ns.push_back(i); for (u64 x : std::vector<u64>{ 1023, 1024, 4096, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff }) ns.push_back(x); for (u64 nr : ns) { if (NAMES.count((int)nr) || (nr >= 495 && nr <= 511)) continue; u64 a[6] = { MID, 8, MID, 8, MID, 8 }; s.who = fmt("system call %lu", (unsigned long)nr); c.at("%s", s.who.c_str()); Res q = s.call(nr, a); if (!(q.threw && q.et == UNIMPLEMENTED_SYSCALL) && !(!q.threw && q.r == -38)) s.bad("unknown", q.threw ? "raised " + q.what : fmt("returned %ld", (long)q.r)); s.confined(nr, {}); } c.state(cfg * 3 + mode); c.nontrivial(); }, { .split_depth = 2, .timeout_s = 100 });
	chk.section("monitor", [&](Ctx& c) { Sys s(c, 0); c.transitions(); bool was = g_filter; g_in_guest = 1; g_host_calls = 0; syscall(SYS_getppid); g_in_guest = 0; if (was && !g_host_calls) c.fail("monitor", "the monitor does not see host system calls"); long n = syscall(SYS_getppid); if (was && n <= 0) c.fail("monitor", "system calls outside the guest fail"); c.state(was); c.sample(was ? "host system calls are monitored" : "seccomp is not available here: host system calls are not monitored"); }, { .split_depth = 0, .serial = true });
	return chk.finish();
}
