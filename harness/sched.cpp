#include "sched.hpp"
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <new>
#include <unordered_map>

namespace sched {
static constexpr int MAXT = 5; // 0: the controller
static constexpr int MAXTAPE = 4000;
struct Out {
	int ntape, status, arg; int tape[MAXTAPE]; int arity[MAXTAPE];
	uint64_t trans, traces, nontriv; int nstates; uint64_t states[64];
	int nfails; struct { char key[200]; char text[600]; } fails[8];
};
static Out* g_out;
static vp::Ctx* g_ctx;

[[noreturn]] static void finish(int status, int arg = 0) {
	auto& c = *g_ctx;
	g_out->ntape = (int)c.m_pos;
	memcpy(g_out->tape, c.m_tape.data(), sizeof(int) * c.m_pos);
	memcpy(g_out->arity, c.m_arity.data(), sizeof(int) * std::min(c.m_pos, c.m_arity.size()));
	g_out->trans = c.m_trans; g_out->traces = c.m_traces; g_out->nontriv = c.m_nontriv;
	g_out->status = status; g_out->arg = arg;
	_exit(0);
}
static void put_fail(const std::string& k, const std::string& t) {
	if (g_out->nfails >= 8) return;
	auto& f = g_out->fails[g_out->nfails++];
	snprintf(f.key, sizeof f.key, "%s", k.c_str()); snprintf(f.text, sizeof f.text, "%s", t.c_str());
}
void fail(const std::string& k, const std::string& t) { put_fail(k, t); }
void state(uint64_t h) { if (g_out->nstates < 64) g_out->states[g_out->nstates++] = h; }

void isolated(vp::Ctx& c, const std::function<void(vp::Ctx&)>& body) {
	if (!g_out) g_out = (Out*)mmap(nullptr, sizeof(Out), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	g_out->nfails = g_out->nstates = 0; g_out->ntape = (int)c.m_pos;
	memcpy(g_out->tape, c.m_tape.data(), 4 * c.m_pos); memcpy(g_out->arity, c.m_arity.data(), 4 * c.m_pos); g_out->status = -1;
	g_out->trans = g_out->traces = g_out->nontriv = 0;
	fflush(nullptr);
	static bool pinned = false; if (!pinned) { pinned = true; cpu_set_t s; sched_getaffinity(0, sizeof s, &s); const int n = CPU_COUNT(&s); int k = getpid() % n; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &s) && k-- == 0) { CPU_ZERO(&s); CPU_SET(i, &s); ::sched_setaffinity(0, sizeof s, &s); break; } }
	const pid_t pid = fork();
	if (pid == 0) {
		g_ctx = &c;
		c.m_sh = nullptr; c.m_out = nullptr; c.m_keep_fails = true; c.m_fails.clear();
		c.m_trans = c.m_traces = c.m_nontriv = 0; c.m_states = nullptr;
		struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
		for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, SIG_DFL);
		alarm(20);
		int st = 0, arg = 0;
		try { body(c); }
		catch (int n) { st = 1; arg = n; }
		catch (vp::Abandon&) { st = 2; }
		for (auto& f : c.m_fails) put_fail(f.first, f.second);
		finish(st, arg);
	}
	int ws = 0; while (waitpid(pid, &ws, 0) < 0) {}
	if (g_out->status < 0) { // died: the decisions so far are in the shared tape
		c.fail(std::string("crash|signal ") + std::to_string(WTERMSIG(ws)), "a thread crashed or hung in this schedule");
		// keep what was decided, so that the search goes on behind it
	}
	c.m_tape.assign(g_out->tape, g_out->tape + g_out->ntape);
	c.m_arity.assign(g_out->arity, g_out->arity + g_out->ntape);
	c.m_pos = g_out->ntape;
	c.m_trans += g_out->trans; c.m_traces += g_out->traces; c.m_nontriv += g_out->nontriv;
	for (int i = 0; i < g_out->nstates; i++) c.state(g_out->states[i]);
	for (int i = 0; i < g_out->nfails; i++) c.fail(g_out->fails[i].key, g_out->fails[i].text);
	if (g_out->status == 1) throw (int)g_out->arg;
	if (g_out->status == 2) throw vp::Abandon();
}

// ---------------------------------------------------------------- threads
struct VC { uint32_t c[MAXT] = {}; void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Thread { int id; std::function<void()> fn; sem_t sem; pthread_t pt; VC vc; const void* blocked = nullptr; bool done = false; char* lo; char* hi; };
static Thread g_th[MAXT]; static int g_n; static bool g_on = false;
static int g_preempt; static uint64_t g_points; static sem_t g_main;
static thread_local Thread* me = nullptr;
static thread_local int in_rt = 0; // inside the run-time
struct Guard { Guard() { in_rt++; } ~Guard() { in_rt--; } };
#define ACTIVE (me != nullptr && g_on && in_rt == 0)

template <typename T> struct Alloc { // keeps the run-time's own tables away from operator new
	using value_type = T; Alloc() = default; template <typename U> Alloc(const Alloc<U>&) {}
	T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { ::free(p); }
	template <typename U> bool operator==(const Alloc<U>&) const { return true; }
};
template <typename K, typename V> using Map = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, Alloc<std::pair<const K, V>>>;
struct Sync { VC vc; int owner = -1; int once = 0; };
static Map<uintptr_t, Sync>& syncs() { using M = Map<uintptr_t, Sync>; static auto* m = new (malloc(sizeof(M))) M; return *m; }

static int choose(int n) {
	try { const int v = g_ctx->choose(n); const int i = (int)g_ctx->m_pos; g_out->tape[i-1] = v; g_out->arity[i-1] = n; g_out->ntape = i; return v; }
	catch (int v) { finish(1, v); }
	catch (vp::Abandon&) { finish(2); }
}
static void switch_to(Thread* t) {
	if (t == me) return;
	Thread* self = me; sem_post(&t->sem);
	while (sem_wait(&self->sem)) {}
}
static int enabled(Thread** out, bool with_me) {
	int n = 0; if (with_me) out[n++] = me;
	for (int i = 1; i <= g_n; i++) if (&g_th[i] != me && !g_th[i].done && !g_th[i].blocked) out[n++] = &g_th[i];
	return n;
}
static void point() {
	if (++g_points > 50000) { put_fail("livelock", "no end after 50000 synchronising operations"); finish(0); }
	g_ctx->m_trans++;
	if (g_preempt <= 0) return;
	Thread* e[MAXT]; const int n = enabled(e, true);
	if (n < 2) return;
	const int k = choose(n);
	if (k) { g_preempt--; switch_to(e[k]); }
}
static void block(const void* on) {
	me->blocked = on;
	Thread* e[MAXT]; const int n = enabled(e, false);
	if (n == 0) { put_fail("deadlock", "every thread waits for another"); finish(0); }
	switch_to(e[n > 1 ? choose(n) : 0]);
}
static void wake(const void* on) { for (int i = 1; i <= g_n; i++) if (g_th[i].blocked == on) g_th[i].blocked = nullptr; }
static void thread_end() {
	me->done = true; g_th[0].vc.join(me->vc);
	Thread* e[MAXT]; const int n = enabled(e, false);
	if (n) { Thread* t = e[n > 1 ? choose(n) : 0]; sem_post(&t->sem); return; }
	for (int i = 1; i <= g_n; i++) if (!g_th[i].done) { put_fail("deadlock", "a thread waits for a lock that nobody holds or that was never released"); finish(0); }
	sem_post(&g_main);
}
static void acquire(uintptr_t a) { me->vc.join(syncs()[a].vc); }
static void release(uintptr_t a) { syncs()[a].vc.join(me->vc); me->vc.c[me->id]++; }

// ---------------------------------------------------------------- plain accesses
struct Cell { uint32_t w; uint32_t r[MAXT - 1]; uint32_t wpc, rpc; }; // epochs: id<<24 | clock
struct Page { Cell c[64]; };
static constexpr uint32_t FREED = 0xFFu << 24;
static Map<uintptr_t, Page*>& pages() { using M = Map<uintptr_t, Page*>; static auto* m = new (malloc(sizeof(M))) M; return *m; }
static uintptr_t g_last = ~0ull; static Page* g_lastp;
static Page* page(uintptr_t a, bool make = true) {
	const uintptr_t k = a >> 6; if (k == g_last) return g_lastp;
	auto& m = pages(); auto it = m.find(k);
	if (it == m.end()) {
		if (!make) return nullptr;
		static char* pool; static size_t used = 0, cap = 0;
		if (used + sizeof(Page) > cap) { pool = (char*)mmap(nullptr, cap = 64 << 20, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); used = 0; }
		Page* p = (Page*)(pool + used); used += sizeof(Page);
		it = m.emplace(k, p).first;
	}
	g_last = k; return g_lastp = it->second;
}
static std::vector<std::pair<uintptr_t, uintptr_t>> g_exempt;
void exempt(const void* p, size_t n) { g_exempt.push_back({(uintptr_t)p, (uintptr_t)p + n}); }
static Map<uintptr_t, uint32_t>& pcids() { using M = Map<uintptr_t, uint32_t>; static auto* m = new (malloc(sizeof(M))) M; return *m; }
static uintptr_t g_pcs[65536]; static uint32_t g_npc = 1;
static uint32_t pcid(void* pc) { static uintptr_t lpc; static uint32_t lid; if (lpc == (uintptr_t)pc) return lid; auto& v = pcids()[(uintptr_t)pc]; if (!v && g_npc < 65535) { v = g_npc; g_pcs[g_npc++] = (uintptr_t)pc; } lpc = (uintptr_t)pc; return lid = v; }
static std::string name(uint32_t id) {
	Dl_info i; if (!id || !dladdr((void*)g_pcs[id], &i) || !i.dli_sname) return "?";
	int st; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
	std::string s = st == 0 ? d : i.dli_sname; ::free(d);
	if (auto p = s.find('('); p != s.npos) s.resize(p);
	if (s.size() > 80) s.resize(80);
	return s;
}
static void access(uintptr_t a, size_t n, bool write, void* pc) {
	if (a >= (uintptr_t)me->lo && a < (uintptr_t)me->hi) return; // own stack
	const uint32_t ep = (uint32_t)me->id << 24 | me->vc.c[me->id]; uint32_t id = 0;
	for (size_t i = 0; i < n; i++) {
		Cell& c = page(a + i)->c[(a + i) & 63];
		if (write ? c.w == ep : c.r[me->id-1] == me->vc.c[me->id] && (c.w == ep || !c.w)) continue; // same epoch
		if (!id) id = pcid(pc);
		const char* bad = nullptr; uint32_t other = 0;
		if (c.w == FREED) { bad = "use of freed memory"; other = c.wpc; }
		else {
			const int wt = c.w >> 24;
			if (c.w && wt != me->id && (c.w & 0xFFFFFF) > me->vc.c[wt]) { bad = "data race"; other = c.wpc; }
			if (write && !bad) for (int t = 1; t < MAXT; t++)
				if (t != me->id && c.r[t-1] > me->vc.c[t]) { bad = "data race"; other = c.rpc; }
		}
		if (bad) {
			bool ex = false; for (auto& e : g_exempt) if (a >= e.first && a < e.second) ex = true;
			if (!ex) {
				std::string n1 = name(pcid(pc)), n2 = name(other);
				put_fail(std::string(bad) + "|" + n1 + "|" + n2, std::string(bad) + ": " + (write ? "write" : "read") + " in " + n1 + ", unordered with or after " + n2);
				if (c.w == FREED) finish(0);
			}
		}
		if (write) { c.w = ep; c.wpc = id; } else { c.r[me->id-1] = me->vc.c[me->id]; c.rpc = id; }
	}
}
static void clear(uintptr_t a, size_t n) { for (size_t i = 0; i < n; i++) if (Page* p = page(a + i, false)) memset(&p->c[(a + i) & 63], 0, sizeof(Cell)); }
static void mark_freed(uintptr_t a, size_t n, void* pc) {
	access(a, n, true, pc);
	const uint32_t id = pcid(pc);
	for (size_t i = 0; i < n; i++) { Cell& c = page(a + i)->c[(a + i) & 63]; c.w = FREED; c.wpc = id; }
}

static void* tmain(void* p) {
	Thread* t = (Thread*)p;
	pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
	t->lo = (char*)lo; t->hi = t->lo + sz;
	while (sem_wait(&t->sem)) {}
	me = t; t->fn(); { Guard g; thread_end(); } me = nullptr;
	return nullptr;
}
void run(vp::Ctx& c, std::vector<std::function<void()>> fns, int preemptions) {
	in_rt++;
	g_n = (int)fns.size(); g_preempt = preemptions; g_points = 0; sem_init(&g_main, 0, 0);
	for (int i = 0; i < MAXT; i++) { g_th[i].id = i; g_th[i].done = false; g_th[i].blocked = nullptr; for (auto& x : g_th[i].vc.c) x = 1; }
	pages().clear(); g_last = ~0ull; syncs().clear();
	for (int i = 1; i <= g_n; i++) { g_th[i].fn = fns[i-1]; sem_init(&g_th[i].sem, 0, 0);
		for (int k = 0; k < MAXT; k++) g_th[i].vc.c[k] = (k == i) ? 2 : 1;
		if (pthread_create(&g_th[i].pt, nullptr, tmain, &g_th[i])) abort(); }
	g_on = true;
	const int first = g_n > 1 ? choose(g_n) : 0;
	sem_post(&g_th[first + 1].sem);
	while (sem_wait(&g_main)) {}
	g_on = false;
	for (int i = 1; i <= g_n; i++) pthread_join(g_th[i].pt, nullptr);
	in_rt--;
}
uint64_t points() { return g_points; }
} // namespace sched

using namespace sched;
// ---------------------------------------------------------------- pthread and C++ run-time
template <typename F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
	if (!ACTIVE) { static decltype(real<int(*)(pthread_mutex_t*)>("")) f; if (!f) f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); }
	Guard g; point();
	auto a = (uintptr_t)m;
	while (syncs()[a].owner >= 0) {
		if (syncs()[a].owner == me->id) { put_fail("deadlock", "a thread locks a mutex that it already holds"); finish(0); }
		block(m);
	}
	syncs()[a].owner = me->id; acquire(a); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
	if (!ACTIVE) { static decltype(real<int(*)(pthread_mutex_t*)>("")) f; if (!f) f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
	Guard g; point(); auto a = (uintptr_t)m;
	if (syncs()[a].owner >= 0) return 16;
	syncs()[a].owner = me->id; acquire(a); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
	if (!ACTIVE) { static decltype(real<int(*)(pthread_mutex_t*)>("")) f; if (!f) f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); }
	Guard g; auto a = (uintptr_t)m;
	if (syncs()[a].owner != me->id) put_fail("unlock", "a thread unlocks a mutex that it does not hold");
	syncs()[a].owner = -1; release(a); wake(m); return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
	if (!ACTIVE) { static decltype(real<int(*)(pthread_once_t*, void(*)())>("")) f; if (!f) f = real<int(*)(pthread_once_t*, void(*)())>("pthread_once"); return f(o, fn); }
	{
		Guard g; point(); auto a = (uintptr_t)o;
		if (*o == 2) { acquire(a); return 0; } // done before the threads started, or here
		while (syncs()[a].once == 1) block(o);
		if (syncs()[a].once == 2) { acquire(a); return 0; }
		syncs()[a].once = 1;
	}
	fn();
	Guard g; auto a = (uintptr_t)o; release(a); syncs()[a].once = 2; *o = 2; wake(o); return 0;
}
int __cxa_guard_acquire(long long* gv) {
	if (!ACTIVE) { static decltype(real<int(*)(long long*)>("")) f; if (!f) f = real<int(*)(long long*)>("__cxa_guard_acquire"); return f(gv); }
	Guard g; point(); auto a = (uintptr_t)gv;
	while (true) {
		if (*(char*)gv) { acquire(a); return 0; }
		if (syncs()[a].once != 1) { syncs()[a].once = 1; return 1; }
		block(gv);
	}
}
void __cxa_guard_release(long long* gv) {
	if (!ACTIVE) { static decltype(real<void(*)(long long*)>("")) f; if (!f) f = real<void(*)(long long*)>("__cxa_guard_release"); f(gv); return; }
	Guard g; auto a = (uintptr_t)gv; *(char*)gv = 1; release(a); syncs()[a].once = 2; wake(gv);
}
void __cxa_guard_abort(long long* gv) {
	if (!ACTIVE) { static decltype(real<void(*)(long long*)>("")) f; if (!f) f = real<void(*)(long long*)>("__cxa_guard_abort"); f(gv); return; }
	Guard g; auto a = (uintptr_t)gv; syncs()[a].once = 0; wake(gv);
}
// ---------------------------------------------------------------- instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
#define ACC(n) \
	void __tsan_read##n(void* p) { if (ACTIVE) { Guard g; access((uintptr_t)p, n, false, PC); } } \
	void __tsan_write##n(void* p) { if (ACTIVE) { Guard g; access((uintptr_t)p, n, true, PC); } } \
	void __tsan_unaligned_read##n(void* p) { if (ACTIVE) { Guard g; access((uintptr_t)p, n, false, PC); } } \
	void __tsan_unaligned_write##n(void* p) { if (ACTIVE) { Guard g; access((uintptr_t)p, n, true, PC); } } \
	void __tsan_volatile_read##n(void* p) { if (ACTIVE) { Guard g; access((uintptr_t)p, n, false, PC); } } \
	void __tsan_volatile_write##n(void* p) { if (ACTIVE) { Guard g; access((uintptr_t)p, n, true, PC); } }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t n) { if (ACTIVE) { Guard g; access((uintptr_t)p, n, false, PC); } }
void __tsan_write_range(void* p, size_t n) { if (ACTIVE) { Guard g; access((uintptr_t)p, n, true, PC); } }
void __tsan_vptr_update(void** p, void* v) { if (ACTIVE && *p != v) { Guard g; access((uintptr_t)p, 8, true, PC); } }
void __tsan_vptr_read(void** p) { if (ACTIVE) { Guard g; access((uintptr_t)p, 8, false, PC); } }
static void at(void* p, int mo, bool load, bool store, void* pc) {
	// freed memory is not a place for atomics either
	for (int i = 0; i < 4; i++) if (Page* pg = page((uintptr_t)p + i, false)) if (pg->c[((uintptr_t)p + i) & 63].w == FREED) {
		put_fail("use of freed memory|" + name(pcid(pc)), "atomic access to freed memory in " + name(pcid(pc))); finish(0); }
	if (load && mo != 0 && mo != 3) acquire((uintptr_t)p);
	if (store && (mo == 3 || mo == 4 || mo == 5)) release((uintptr_t)p);
	else if (store && !load) syncs()[(uintptr_t)p].vc = VC(); // a plain store ends the release sequence
}
#define ATOMIC(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* a, int mo) { if (ACTIVE) { Guard g; point(); at((void*)a, mo, true, false, PC); } return __atomic_load_n(a, 5); } \
	void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { if (ACTIVE) { Guard g; point(); at((void*)a, mo, false, true, PC); } __atomic_store_n(a, v, 5); } \
	T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { if (ACTIVE) { Guard g; point(); at((void*)a, mo, true, true, PC); } return __atomic_exchange_n(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { if (ACTIVE) { Guard g; point(); at((void*)a, mo, true, true, PC); } return __atomic_fetch_add(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { if (ACTIVE) { Guard g; point(); at((void*)a, mo, true, true, PC); } return __atomic_fetch_sub(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { if (ACTIVE) { Guard g; point(); at((void*)a, mo, true, true, PC); } return __atomic_fetch_and(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { if (ACTIVE) { Guard g; point(); at((void*)a, mo, true, true, PC); } return __atomic_fetch_or(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { if (ACTIVE) { Guard g; point(); at((void*)a, mo, true, true, PC); } return __atomic_fetch_xor(a, v, 5); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { \
		if (ACTIVE) { Guard g; point(); const bool w = *a == *e; at((void*)a, w ? mo : fmo, true, w, PC); } return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { \
		return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { T x = e; __tsan_atomic##bits##_compare_exchange_strong(a, &x, v, mo, fmo); return x; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (ACTIVE) { Guard g; access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (ACTIVE) { Guard g; access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { if (ACTIVE) { Guard g; access((uintptr_t)d, n, true, PC); } return __real_memset(d, v, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (ACTIVE) { Guard g; access((uintptr_t)a, n, false, PC); access((uintptr_t)b, n, false, PC); } return __real_memcmp(a, b, n); }
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) {
	void* r = __real_mmap(a, n, p, f, fd, o);
	if (ACTIVE) { Guard g; for (uintptr_t x = (uintptr_t)r & ~63ull; x < (uintptr_t)r + n; x += 64) { auto it = pages().find(x >> 6); if (it != pages().end()) { memset(it->second, 0, sizeof(Page)); } } }
	return r;
}
}
// ---------------------------------------------------------------- heap: never reused while threads run
static void* alloc(size_t n, size_t al) {
	void* p = al <= 16 ? malloc(n ? n : 1) : aligned_alloc(al, (n + al - 1) & ~(al - 1));
	if (!p) abort();
	if (ACTIVE) { Guard g; clear((uintptr_t)p, malloc_usable_size(p)); }
	return p;
}
static void dealloc(void* p, void* pc) {
	if (!p) return;
	if (ACTIVE) { Guard g; mark_freed((uintptr_t)p, malloc_usable_size(p), pc); return; }
	if (me == nullptr && g_on) return;
	::free(p);
}
void* operator new(size_t n) { return alloc(n, 16); }
void* operator new[](size_t n) { return alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { dealloc(p, PC); }
void operator delete[](void* p) noexcept { dealloc(p, PC); }
void operator delete(void* p, size_t) noexcept { dealloc(p, PC); }
void operator delete[](void* p, size_t) noexcept { dealloc(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { dealloc(p, PC); }
