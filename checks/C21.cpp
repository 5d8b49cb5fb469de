// build: VARIANT=asan PRE=$(O)/guest_cxx.elf
// C21: host views of guest strings, vectors and scoped objects against the host's own containers
// and the guest's own C++ library, for every sequence of host and guest operations up to a depth.
#include "vp.hpp"
#include <unistd.h>
#include <libloong/machine.hpp>
#include <libloong/guest_datatypes.hpp>
#include <fstream>
#include <memory>
#include <optional>
using namespace vp; using namespace loongarch; using std::string; typedef uint64_t u64; typedef std::vector<int> VI; typedef std::vector<string> VS; typedef std::vector<VI> VV;
#ifndef GUEST_DIR
#define GUEST_DIR "."
#endif
static std::string exe_dir() { char b[512]; ssize_t n = readlink("/proc/self/exe", b, 511); b[n < 0 ? 0 : n] = 0; std::string d(b); return d.substr(0, d.rfind('/')); }
static const std::vector<uint8_t>& program() { static std::vector<uint8_t> b = [] { std::ifstream f(exe_dir() + "/guest_cxx.elf", std::ios::binary); return std::vector<uint8_t>(std::istreambuf_iterator<char>(f), {}); }(); return b; }
static constexpr u64 MM = 1 << 18;
static u64 gmix(u64 h, u64 x) { return (h ^ x) * 0x9e3779b97f4a7c15ul + (h >> 29); }
static u64 hash(const string& s) { u64 h = gmix(1, s.size()); for (char c : s) h = gmix(h, (unsigned char)c); return h | 1; }
static u64 hash(const VI& v) { u64 h = gmix(2, v.size()); for (int x : v) h = gmix(h, (unsigned)x); return h | 1; }
static u64 hash(const VS& v) { u64 h = gmix(3, v.size()); for (auto& x : v) h = gmix(h, hash(x)); return h | 1; }
static u64 hash(const VV& v) { u64 h = gmix(4, v.size()); for (auto& x : v) h = gmix(h, hash(x)); return h | 1; }
static string show(const string& s) { return s.size() > 20 ? fmt("'%s...'(%zu)", s.substr(0, 8).c_str(), s.size()) : "'" + s + "'"; }
static string show(const VI& v) { string r = "{"; for (int x : v) r += fmt("%d,", x); return r + "}"; }
static string show(const VS& v) { string r = "{"; for (auto& x : v) r += show(x) + ","; return r + "}"; }
static string show(const VV& v) { string r = "{"; for (auto& x : v) r += show(x) + ","; return r + "}"; }
struct World {
	std::unique_ptr<char[]> mem; std::unique_ptr<Machine> m; u64 area, heap, size; int badfree = 0; bool dirty = false; u64 base; std::map<string, u64> fn;
	World(u64 heapsize) : size(heapsize) { mem.reset(new char[MM + 64]()); auto o = std::make_shared<MachineOptions>(); o->memory_max = MM; o->stack_size = 0x4000; o->brk_size = 0x1000; o->use_shared_execute_segments = false; o->custom_arena_pointer = mem.get(); o->custom_arena_size = MM;
		m = std::make_unique<Machine>(std::string_view((const char*)program().data(), program().size()), *o); m->set_options(o); m->memory.set_exit_address(m->address_of("fast_exit")); area = call("area_addr"); heap = area + 0x1000; m->setup_accelerated_heap(heap, size); m->arena().on_unknown_free([this](auto, auto) { badfree++; return -1; }); base = m->arena().bytes_used(); }
	template <class... A> u64 call(const string& f, A&&... a) { auto& p = fn[f]; if (!p) p = m->address_of(f); if (!p) abort(); return (u64)m->vmcall(p, std::forward<A>(a)...); }
	template <class T> T* at(u64 a) { return m->memory.writable_memarray<T>(a, 1); }
	u64 used() { return m->arena().bytes_used() - base; }
	void drain() { for (u64 p = heap; p < heap + size; p += 16) if (m->arena().size(p)) m->arena().free(p); badfree = 0; memset(mem.get() + area, 0, 0x1000); }
	bool inside(u64 p, u64 n) { return p >= m->memory.data_start() && p <= MM && n <= MM - p; }
};
static World& world(int k, Ctx& c) { static std::unique_ptr<World> w[3]; static u64 fails = 0; if (!w[k] || w[k]->dirty || c.m_failcount != fails) { // also when a history was given up half way
		 w[k].reset(); w[k] = std::make_unique<World>(k == 0 ? 0x4000 : k == 1 ? 160 : 0x800); fails = c.m_failcount; } w[k]->badfree = 0; return *w[k]; }
struct Run { Ctx& c; World& w; string log; bool small; int bad = 0; bool begun = w.dirty = true; ~Run() { if (!std::uncaught_exceptions()) w.dirty = false; } void fail(const string& k, const string& t) { c.fail(k, log + ": " + t); bad++; }
	// runs an operation; true when it succeeded (the model may then be updated)
	template <class F> bool op(const string& n, F f) { log += (log.empty() ? "" : " ") + n; c.at("%s", log.substr(0, 250).c_str()); c.transitions(); try { f(); return true; } catch (const std::bad_alloc&) { if (!small) fail(n.substr(0, n.find('(')) + ":memory", "no memory although the heap has room"); } catch (const MachineException& e) { fail(n.substr(0, n.find('(')) + ":exception", e.what()); } catch (const std::exception& e) { fail(n.substr(0, n.find('(')) + ":exception", e.what()); } return false; }
	template <class F> void refused(const string& n, F f) { log += " " + n; c.transitions(); try { f(); } catch (const std::out_of_range&) { return; } catch (const std::exception& e) { fail(n + ":exception", e.what()); return; } fail(n + ":accepted", "does not throw std::out_of_range"); }
	void freed() { if (w.badfree) fail("badfree", fmt("%d times something is freed that is not allocated", w.badfree)); w.badfree = 0; }
	void block(const char* what, u64 p, u64 need) { u64 n = w.m->arena().size(p); if (n < need) fail(string(what) + ":block", fmt("the block at %#lx has %lu bytes of the %lu claimed", (long)p, (long)n, (long)need)); } };
static string content(int n, char a) { string s; for (int i = 0; i < n; i++) s += char(a + i % 23); return s; }
// ---- strings
static void check(Run& r, const char* who, u64 addr, const string& want) { auto& m = *r.w.m; auto* s = r.w.at<GuestStdString>(addr);
	try { if (s->to_string(m) != want || s->to_view(m) != want || s->size() != want.size() || s->empty() != want.empty()) r.fail("string:host", fmt("%s holds %s for the host, expected ", who, show(s->to_string(m)).c_str()) + show(want)); GuestStdString copy = *s; if (copy.to_string(m) != want || copy.to_view(m) != want) r.fail("string:copy", fmt("a host copy of %s holds %s, expected ", who, show(copy.to_string(m)).c_str()) + show(want));
		if (u64 h = r.w.call("s_hash", addr); h != hash(want)) r.fail("string:guest", string(who) + (h ? " holds other text for the guest than " : " is not a usable string for the guest, expected ") + show(want)); if (s->size() > 15) r.block(who, s->ptr, s->capacity + 1); } catch (const std::exception& e) { r.fail("string:exception", string(who) + ": " + e.what()); } }
static void check(Run& r, const char* who, u64 addr, const VI& want) { auto& m = *r.w.m; auto* v = r.w.at<GuestStdVector<int>>(addr); try { if (v->size() != want.size() || v->empty() != want.empty() || v->capacity() < v->size() || (want.size() && v->to_vector(m) != want)) { r.fail("vector:host", fmt("%s has %zu elements for the host, expected ", who, v->size()) + show(want)); return; } for (size_t i = 0; i < want.size(); i++) if (v->at(m, i) != want[i] || v->as_array(m)[i] != want[i] || v->address_at(i) != v->data() + 4 * i) r.fail("vector:element", fmt("%s element %zu is wrong, expected ", who, i) + show(want));
		if (want.size() && (v->begin(m) + want.size() != v->end(m))) r.fail("vector:range", "begin and end"); for (int k = 0; k < 2; k++) try { k ? (void)v->at(m, want.size()) : (void)v->address_at(want.size()); r.fail("vector:bounds", "an element beyond the end is returned"); } catch (const std::out_of_range&) {}
		if (u64 h = r.w.call("vi_hash", addr); h != hash(want)) r.fail("vector:guest", string(who) + (h ? " has other elements for the guest than " : " is not a usable vector for the guest, expected ") + show(want)); if (v->capacity()) r.block(who, v->data(), v->capacity_bytes()); } catch (const std::exception& e) { r.fail("vector:exception", string(who) + ": " + e.what()); } }
static void check(Run& r, const char* who, u64 addr, const VS& want) { auto& m = *r.w.m; auto* v = r.w.at<GuestStdVector<GuestStdString>>(addr); try { if (v->size() != want.size() || v->capacity() < v->size() || (want.size() && v->to_string_vector(m) != want)) { r.fail("strings:host", fmt("%s has %zu elements for the host, expected ", who, v->size()) + show(want)); return; } for (size_t i = 0; i < want.size(); i++) if (v->at(m, i).to_string(m) != want[i]) r.fail("strings:element", fmt("%s element %zu is wrong, expected ", who, i) + show(want));
		if (u64 h = r.w.call("vs_hash", addr); h != hash(want)) r.fail("strings:guest", string(who) + (h ? " has other elements for the guest than " : " is not a usable vector for the guest, expected ") + show(want)); if (v->capacity()) r.block(who, v->data(), v->capacity_bytes()); for (size_t i = 0; i < want.size(); i++) if (want[i].size() > 15) r.block("element", v->at(m, i).ptr, v->at(m, i).capacity + 1); } catch (const std::exception& e) { r.fail("strings:exception", string(who) + ": " + e.what()); } }
static void check(Run& r, const char* who, u64 addr, const VV& want) { auto& m = *r.w.m; auto* v = r.w.at<GuestStdVector<GuestStdVector<int>>>(addr); try { if (v->size() != want.size() || v->capacity() < v->size()) { r.fail("nested:host", fmt("%s has %zu elements for the host, expected ", who, v->size()) + show(want)); return; } for (size_t i = 0; i < want.size(); i++) { auto& e = v->at(m, i); if (e.size() != want[i].size() || (e.size() && e.to_vector(m) != want[i])) r.fail("nested:element", fmt("%s element %zu is wrong, expected ", who, i) + show(want)); if (e.capacity()) r.block("element", e.data(), e.capacity_bytes()); }
		if (u64 h = r.w.call("vv_hash", addr); h != hash(want)) r.fail("nested:guest", string(who) + (h ? " has other elements for the guest than " : " is not a usable vector for the guest, expected ") + show(want)); } catch (const std::exception& e) { r.fail("nested:exception", string(who) + ": " + e.what()); } }

struct Fixed { GuestStdString name; GuestStdVector<GuestStdString> lines; int n; void fix_addresses(Machine& m, address_t self) { name.fix_addresses(m, self + offsetof(Fixed, name)); lines.fix_addresses(m, self + offsetof(Fixed, lines)); } };
template <class T> struct Slots { std::unique_ptr<ScopedArenaObject<T>> p[2]; int state[2] = { 0, 0 }; }; // 0 none, 1 moved from, 2 a value

int main(int argc, char** argv) {
	Check chk(argc, argv, "C21"); bool T = chk.thorough();
	chk.rule("a case is one history of host and guest operations on two guest objects of one type in one heap (large, or too small so that allocations fail), checked after every operation by the host view and by the guest's own libstdc++ code, or one corrupt structure with one operation; it is nontrivial when the objects hold elements");
	chk.assume("the guest uses the native heap of the library; a host copy of a guest string is used while the original lives");
	auto heap_choice = [](Ctx& c) { int k = c.choose(2, "heap"); return k; };
	chk.section("string", [&](Ctx& c) {
		int k = heap_choice(c); auto& w = world(k, c); auto& m = *w.m; Run r{ c, w, k ? "small heap," : "", k == 1 }; u64 A[2] = { w.area, w.area + 0x80 }; string M[2]; new (w.at<char>(A[0])) GuestStdString(m, A[0], ""); w.call("s_new", A[1]); if (c.flag("host copy")) { GuestStdString s(m, "from the host, long enough"); *w.at<GuestStdString>(A[1]) = s; w.at<GuestStdString>(A[1])->move(A[1]); M[1] = "from the host, long enough"; r.log += "B=long"; } int D = T ? 5 : 4; char next = 'A';
		for (int d = 0; d < D && !r.bad; d++) { auto S = [&](int i) { return w.at<GuestStdString>(A[i]); }; auto set = [&](int i, int n, int how) { string t = content(n, next++); if (r.op(fmt("set(%c,%d%s)", 'A' + i, n, how ? ",copied" : ""), [&] { if (how == 0) S(i)->set_string(m, A[i], t); else S(i)->set_string(m, A[i], t.data(), t.size(), false); })) M[i] = t; };
			switch (c.choose(k ? 13 : 21, "operation")) {
			case 0: set(0, 0, 0); break; case 1: set(0, 3, 0); break; case 2: set(0, 15, 0); break; case 3: set(0, 16, 0); break; case 4: set(0, 40, 0); break; case 5: set(0, 33, 1); break; case 6: set(1, 60, 0); break; case 7: set(1, 5, 1); break;
			case 8: if (r.op("own(A)", [&] { auto v = S(0)->to_view(m); S(0)->set_string(m, A[0], v); })) {} break;
			case 9: if (r.op("tail(A)", [&] { auto v = S(0)->to_view(m); S(0)->set_string(m, A[0], v.substr(v.size() / 3)); })) M[0] = M[0].substr(M[0].size() / 3); break;
			case 10: if (r.op("free(A)", [&] { S(0)->free(m); if (S(0)->size() || !S(0)->to_string(m).empty()) throw std::runtime_error("not empty after free"); S(0)->set_string(m, A[0], ""); })) M[0].clear(); break;
			case 11: r.op("relocate(A)", [&] { u64 to = A[0] == w.area ? w.area + 0x148 : w.area; memcpy(w.at<char>(to), w.at<char>(A[0]), 32); memset(w.at<char>(A[0]), 0x55, 32); A[0] = to; S(0)->fix_addresses(m, to); }); break;
			case 12: if (r.op("set(A,B)", [&] { auto v = S(1)->to_view(m); S(0)->set_string(m, A[0], v); })) M[0] = M[1]; break;
			case 13: if (r.op("guest append(A,4)", [&] { w.call("s_append", A[0], 4, 'x'); })) M[0] += "xxxx"; break;
			case 14: if (r.op("guest append(A,30)", [&] { w.call("s_append", A[0], 30, 'y'); })) M[0] += string(30, 'y'); break;
			case 15: if (r.op("guest assign(A,2)", [&] { w.call("s_assign", A[0], 2, 'z'); })) M[0] = "zz"; break;
			case 16: r.op("guest shrink(A)", [&] { w.call("s_shrink", A[0]); }); break;
			case 17: if (r.op("guest A=move(B)", [&] { w.call("s_take", A[0], A[1]); })) { M[0] = M[1]; M[1].clear(); } break;
			case 18: if (r.op("guest swap", [&] { w.call("s_swap", A[0], A[1]); })) std::swap(M[0], M[1]); break;
			case 19: if (r.op("guest assign(B,1)", [&] { w.call("s_assign", A[1], 1, 'q'); })) M[1] = "q"; break;
			case 20: r.op("by value(A,B)", [&] { GuestStdString a = *S(0), b = *S(1); u64 h = w.call("by_value", a, 77, b); if (h != gmix(gmix(hash(M[0]), 77), hash(M[1]))) throw std::runtime_error("the guest gets other strings by value"); }); break; }
			if (r.bad) break; check(r, "A", A[0], M[0]); check(r, "B", A[1], M[1]); r.freed(); c.state(mix(mix(hash(M[0]), hash(M[1])), w.used())); }
		if (!r.bad) { if (M[0].size() + M[1].size()) c.nontrivial(); r.op("free(A) free(B)", [&] { w.at<GuestStdString>(A[0])->free(m); if (k) w.at<GuestStdString>(A[1])->free(m); else w.call("s_end", A[1]); }); r.freed(); if (w.used()) r.fail("leak", fmt("%ld bytes are still allocated when both strings are gone", (long)w.used())); } c.traces(); if (c.want_sample()) c.sample(r.log);
	}, { .split_depth = 3 });
	chk.section("vector", [&](Ctx& c) {
		typedef GuestStdVector<int> V; int k = heap_choice(c); auto& w = world(k, c); auto& m = *w.m; Run r{ c, w, k ? "small heap," : "", k == 1 }; u64 A[2] = { w.area, w.area + 0x80 }; VI M[2]; auto P = [&](int i) { return w.at<V>(A[i]); }; w.call("vi_new", A[1]);
		switch (c.choose(4, "creation")) { case 0: new (P(0)) V(); break; case 1: r.op("new(3)", [&] { new (P(0)) V(m, 3); M[0] = VI(3); }); break; case 2: r.op("new({1,2})", [&] { new (P(0)) V(m, VI{ 1, 2 }); M[0] = { 1, 2 }; }); break; case 3: new (P(0)) V(m, VI{}); break; }
		int D = T ? 5 : 4, x = 10; if (!r.bad) { check(r, "A", A[0], M[0]); }
		for (int d = 0; d < D && !r.bad; d++) { auto& a = M[0]; x += 7; V* v = P(0);
			switch (c.choose(k ? 22 : 26, "operation")) {
			case 0: if (r.op("push", [&] { const int y = x; v->push_back(m, y); })) a.push_back(x); break; case 1: if (r.op("push&&", [&] { v->push_back(m, int(x)); })) a.push_back(x); break;
			case 2: if (a.empty()) c.prune(); if (r.op("push(own)", [&] { v->push_back(m, v->at(m, 0)); })) a.push_back(int(a[0])); break;
			case 3: if (a.empty()) r.refused("pop", [&] { v->pop_back(m); }); else if (r.op("pop", [&] { v->pop_back(m); })) a.pop_back(); break;
			case 4: if (r.op("append(2)", [&] { int y[2] = { x, x + 1 }; v->append(m, y, 2); })) { a.push_back(x); a.push_back(x + 1); } break; case 5: r.op("append(0)", [&] { if (v->capacity()) v->append(m, &x, 0); }); break;
			case 6: if (a.empty()) c.prune(); if (r.op("append(own)", [&] { v->append(m, v->as_array(m), v->size()); })) { VI t = a; a.insert(a.end(), t.begin(), t.end()); } break;
			case 7: if (r.op("clear", [&] { v->clear(m); })) a.clear(); break; case 8: if (r.op("assign(3)", [&] { v->assign(m, VI{ x, 1, 2 }); })) a = { x, 1, 2 }; break; case 9: if (r.op("assign(9)", [&] { VI t(9, x); v->assign(m, t.data(), 9); })) a = VI(9, x); break; case 10: if (r.op("assign(0)", [&] { v->assign(m, VI{}); })) a.clear(); break;
			case 11: if (a.size() < 2) c.prune(); if (r.op("assign(own tail)", [&] { v->assign(m, v->as_array(m) + 1, v->size() - 1); })) a.erase(a.begin()); break;
			case 12: if (r.op("resize(0)", [&] { v->resize(m, 0); })) a.resize(0); break; case 13: if (r.op("resize(1)", [&] { v->resize(m, 1); })) a.resize(1); break; case 14: if (r.op("resize(6)", [&] { v->resize(m, 6); })) a.resize(6); break; case 15: if (r.op("resize(20)", [&] { v->resize(m, 20); })) a.resize(20); break;
			case 16: r.op("reserve(5)", [&] { v->reserve(m, 5); if (v->capacity() < 5) throw std::runtime_error("capacity after reserve"); }); break; case 17: r.op("reserve(17)", [&] { v->reserve(m, 17); if (v->capacity() < 17) throw std::runtime_error("capacity after reserve"); }); break;
			case 18: if (r.op("free", [&] { v->free(m); })) a.clear(); break; case 19: if (r.op("move to B", [&] { P(1)->free(m); new (P(1)) V(std::move(*P(0))); if (P(0)->size() || P(0)->capacity()) throw std::runtime_error("still there"); })) { M[1] = M[0]; a.clear(); } break;
			case 20: r.op("relocate(A)", [&] { u64 to = A[0] == w.area ? w.area + 0x148 : w.area; memcpy(w.at<char>(to), w.at<char>(A[0]), 24); memset(w.at<char>(A[0]), 0x55, 24); A[0] = to; P(0)->fix_addresses(m, to); }); break;
			case 21: if (r.op("write", [&] { for (auto* p = v->size() ? v->begin(m) : nullptr, *e = v->size() ? v->end(m) : nullptr; p != e; ++p) *p += 3; })) for (int& y : a) y += 3; break;
			case 22: if (r.op("guest push", [&] { w.call("vi_push", A[0], x); })) a.push_back(x); break; case 23: if (r.op("guest insert", [&] { w.call("vi_front", A[0], x); })) a.insert(a.begin(), x); break; case 24: r.op("guest shrink", [&] { w.call("vi_shrink", A[0]); }); break; case 25: if (r.op("guest push B", [&] { w.call("vi_push", A[1], x); })) M[1].push_back(x); break; }
			if (r.bad) break; check(r, "A", A[0], M[0]); check(r, "B", A[1], M[1]); r.freed(); c.state(mix(mix(hash(M[0]), hash(M[1])), w.used())); }
		if (!r.bad) { if (M[0].size() + M[1].size()) c.nontrivial(); r.op("free(A) free(B)", [&] { P(0)->free(m); P(0)->free(m); w.call("vi_end", A[1]); }); r.freed(); if (w.used()) r.fail("leak", fmt("%ld bytes are still allocated when both vectors are gone", (long)w.used())); } c.traces(); if (c.want_sample()) c.sample(r.log);
	}, { .split_depth = 3 });
	chk.section("strings", [&](Ctx& c) {
		typedef GuestStdVector<GuestStdString> V; int k = c.flag("small heap") ? 2 : 0; auto& w = world(k, c); auto& m = *w.m; if (k) k = 1; World* small = nullptr; static std::unique_ptr<World> sw; if (k) { if (!sw || sw->dirty || sw->used()) sw = std::make_unique<World>(320); small = sw.get(); } World& u = small ? *small : w; auto& mm = *u.m; (void)m; u.badfree = 0;
		Run r{ c, u, k ? "small heap," : "", k == 1 }; u64 A = u.area; VS M; auto P = [&] { return u.at<V>(A); }; switch (c.choose(3, "creation")) { case 0: u.call("vs_new", A); break; case 1: new (P()) V(); r.op("new({short,long})", [&] { new (P()) V(mm, VS{ "short", content(21, 'a') }); M = { "short", content(21, 'a') }; }); break; case 2: new (P()) V(); r.op("new(2)", [&] { new (P()) V(mm, 2); M = VS(2); }); break; }
		int D = T ? 5 : 4; char x = 'A'; if (!r.bad) check(r, "A", A, M);
		for (int d = 0; d < D && !r.bad; d++) { auto& a = M; x++; V* v = P(); auto S = [&](int n) { return content(n, x); };
			switch (c.choose(k ? 18 : 22, "operation")) {
			case 0: if (r.op("push(view 4)", [&] { v->push_back(mm, std::string_view(S(4))); })) a.push_back(S(4)); break; case 1: if (r.op("push(view 24)", [&] { string t = S(24); v->push_back(mm, std::string_view(t)); })) a.push_back(S(24)); break;
			case 2: if (r.op("push(string 15)", [&] { v->push_back(mm, GuestStdString(mm, S(15))); })) a.push_back(S(15)); break;
			case 3: { GuestStdString s; if (r.op("make(25)", [&] { s.set_string(mm, 0, S(25)); }) && r.op("push(string 25)", [&] { try { v->push_back(mm, s); } catch (...) { s.free(mm); throw; } })) a.push_back(S(25)); break; }
			case 4: if (a.empty()) r.refused("pop", [&] { v->pop_back(mm); }); else if (r.op("pop", [&] { v->pop_back(mm); })) a.pop_back(); break;
			case 5: if (r.op("clear", [&] { v->clear(mm); })) a.clear(); break; case 6: if (r.op("resize(0)", [&] { v->resize(mm, 0); })) a.resize(0); break; case 7: if (r.op("resize(1)", [&] { v->resize(mm, 1); })) a.resize(1); break; case 8: if (r.op("resize(5)", [&] { v->resize(mm, 5); })) a.resize(5); break;
			case 9: r.op("reserve(3)", [&] { v->reserve(mm, 3); }); break; case 10: r.op("reserve(7)", [&] { v->reserve(mm, 7); }); break; case 11: if (r.op("free", [&] { v->free(mm); })) a.clear(); break;
			case 12: if (a.empty()) c.prune(); if (r.op("set(first,30)", [&] { v->at(mm, 0).set_string(mm, v->address_at(0), S(30)); })) a[0] = S(30); break; case 13: if (a.empty()) c.prune(); if (r.op("set(last,2)", [&] { v->at(mm, v->size() - 1).set_string(mm, v->address_at(v->size() - 1), S(2)); })) a.back() = S(2); break;
			case 14: if (r.op("append(short,short)", [&] { GuestStdString t[2] = { GuestStdString(mm, S(3)), GuestStdString(mm, S(6)) }; v->append(mm, t, 2); })) { a.push_back(S(3)); a.push_back(S(6)); } break;
			case 15: if (r.op("assign(short)", [&] { v->assign(mm, std::vector<GuestStdString>{ GuestStdString(mm, S(7)), GuestStdString(mm, "") }); })) a = { S(7), "" }; break;
			case 16: r.op("relocate", [&] { u64 to = A == u.area ? u.area + 0x148 : u.area; memcpy(u.at<char>(to), u.at<char>(A), 24); memset(u.at<char>(A), 0x55, 24); A = to; P()->fix_addresses(mm, to); }); break;
			case 17: if (r.op("move out and back", [&] { V t(std::move(*v)); if (v->size()) throw std::runtime_error("still there"); new (v) V(std::move(t)); })) {} break;
			case 18: if (r.op("guest push(20)", [&] { u.call("vs_push", A, 20, x); })) a.push_back(string(20, x)); break; case 19: if (r.op("guest shorten", [&] { u.call("vs_short", A); })) for (auto& s : a) if (s.size() > 3) s.resize(3); break; case 20: if (r.op("guest swap", [&] { u.call("vs_swap", A); })) if (a.size() > 1) std::swap(a.front(), a.back()); break; case 21: if (r.op("guest erase", [&] { u.call("vs_front", A); })) if (a.size()) a.erase(a.begin()); break; }
			if (r.bad) break; check(r, "A", A, M); r.freed(); c.state(mix(hash(M), u.used())); }
		if (!r.bad) { if (M.size()) c.nontrivial(); bool g = !k && c.flag("guest frees"); r.op("free", [&] { if (g) u.call("vs_end", A); else P()->free(mm); }); r.freed(); if (u.used()) r.fail("leak", fmt("%ld bytes are still allocated when the vector is gone", (long)u.used())); } if (r.bad) sw.reset(); c.traces(); if (c.want_sample()) c.sample(r.log);
	}, { .split_depth = 3 });
	chk.section("nested", [&](Ctx& c) {
		typedef GuestStdVector<int> I; typedef GuestStdVector<I> V; int k = heap_choice(c); auto& w = world(k, c); auto& m = *w.m; Run r{ c, w, k ? "small heap," : "", k == 1 }; u64 A = w.area; VV M; auto P = [&] { return w.at<V>(A); }; if (c.flag("guest creates")) w.call("vv_new", A); else new (P()) V(); int D = T ? 6 : 5, x = 3;
		for (int d = 0; d < D && !r.bad; d++) { auto& a = M; x++; V* v = P();
			switch (c.choose(k ? 11 : 13, "operation")) {
			case 0: if (r.op("push({x,1})", [&] { v->push_back(m, VI{ x, 1 }); })) a.push_back({ x, 1 }); break; case 1: if (r.op("push({})", [&] { v->push_back(m, VI{}); })) a.push_back({}); break;
			case 2: if (a.empty()) r.refused("pop", [&] { v->pop_back(m); }); else if (r.op("pop", [&] { v->pop_back(m); })) a.pop_back(); break; case 3: if (r.op("clear", [&] { v->clear(m); })) a.clear(); break; case 4: if (r.op("resize(1)", [&] { v->resize(m, 1); })) a.resize(1); break; case 5: if (r.op("resize(3)", [&] { v->resize(m, 3); })) a.resize(3); break; case 6: r.op("reserve(6)", [&] { v->reserve(m, 6); }); break; case 7: if (r.op("free", [&] { v->free(m); })) a.clear(); break;
			case 8: if (a.empty()) c.prune(); if (r.op("first.push", [&] { v->at(m, 0).push_back(m, x); })) a[0].push_back(x); break; case 9: if (a.empty()) c.prune(); if (r.op("last.assign(3)", [&] { v->at(m, v->size() - 1).assign(m, VI{ x, x, x }); })) a.back() = { x, x, x }; break; case 10: if (a.empty()) c.prune(); if (r.op("first.free", [&] { v->at(m, 0).free(m); })) a[0].clear(); break;
			case 11: if (r.op("guest push", [&] { w.call("vv_push", A, 3, x); })) a.push_back(VI(3, x)); break; case 12: if (r.op("guest add", [&] { w.call("vv_add", A, x); })) for (auto& i : a) i.push_back(x); break; }
			if (r.bad) break; check(r, "A", A, M); r.freed(); c.state(mix(hash(M), w.used())); }
		if (!r.bad) { if (M.size()) c.nontrivial(); bool g = !k && c.flag("guest frees"); r.op("free", [&] { if (g) w.call("vv_end", A); else P()->free(m); }); r.freed(); if (w.used()) r.fail("leak", fmt("%ld bytes are still allocated when the vector is gone", (long)w.used())); } c.traces(); if (c.want_sample()) c.sample(r.log);
	}, { .split_depth = 3 });
	// ---- scoped objects
	auto scoped = [&]<class O, class Mo>(Ctx& c, O*, Mo*, std::type_identity_t<std::vector<std::function<void(Run&, std::unique_ptr<ScopedArenaObject<O>>&, Mo&, bool&)>>> ops, std::type_identity_t<std::function<void(Run&, ScopedArenaObject<O>&, const Mo&)>> verify, int D) {
		int k = c.choose(2, "heap"); auto& w = world(k, c); Run r{ c, w, k ? "small heap," : "", k == 1 }; std::unique_ptr<ScopedArenaObject<O>> p[2]; Mo M[2]; bool live[2] = { false, false }; int n = ops.size();
		for (int d = 0; d < D && !r.bad; d++) { int o = c.choose(2 * n + 6, "operation"); int i = o < 2 * n ? o / n : 0;
			if (o < 2 * n) { r.log += i ? " B" : " A"; ops[o % n](r, p[i], M[i], live[i]); }
			else if (o == 2 * n) { if (!p[0]) c.prune(); r.op("destroy A", [&] { p[0].reset(); }); live[0] = false; }
			else if (o == 2 * n + 1) { if (!p[0] || !p[1]) c.prune(); r.op("A=move(B)", [&] { *p[0] = std::move(*p[1]); }); M[0] = M[1]; live[0] = live[1]; live[1] = false; }
			else if (o == 2 * n + 2) { if (!p[0] || !p[1]) c.prune(); r.op("B=move(A)", [&] { *p[1] = std::move(*p[0]); }); M[1] = M[0]; live[1] = live[0]; live[0] = false; }
			else if (o == 2 * n + 3) { if (!p[0]) c.prune(); r.op("A=move(A)", [&] { auto& x = *p[0]; *p[0] = std::move(x); }); }
			else if (o == 2 * n + 4) { if (!p[0] || !live[0]) c.prune(); r.op("A=*A", [&] { *p[0] = **p[0]; }); }
			else { if (!p[1]) c.prune(); r.op("destroy B", [&] { p[1].reset(); }); live[1] = false; }
			for (int j = 0; j < 2 && !r.bad; j++) { if (p[j] && live[j]) { if (!w.m->arena().size(p[j]->address())) r.fail("scoped:address", "the object is not in an allocated block"); else verify(r, *p[j], M[j]); } } r.freed(); c.state(mix(w.used(), live[0] + 2 * live[1])); }
		if (live[0] || live[1]) c.nontrivial(); r.op("destroy", [&] { p[0].reset(); p[1].reset(); }); r.freed(); if (!r.bad && w.used()) r.fail("leak", fmt("%ld bytes are still allocated when both objects are gone", (long)w.used())); c.traces(); if (c.want_sample()) c.sample(r.log); };
	// an object is made again in the same place of a history only after the old one is gone
#define MAKE(text, expr, value) [](Run& r, std::unique_ptr<ScopedArenaObject<Obj>>& p, Mod& M, bool& live) { if (p) r.c.prune(); auto& m = *r.w.m; (void)m; if (r.op(text, [&] { p.reset(expr); })) { M = value; live = true; } }
#define CHANGE(text, stmt, value) [](Run& r, std::unique_ptr<ScopedArenaObject<Obj>>& p, Mod& M, bool& live) { if (!p) r.c.prune(); auto& m = *r.w.m; (void)m; if (r.op(text, [&] { stmt; })) { M = value; live = true; } }
#define USE(text, stmt, value) [](Run& r, std::unique_ptr<ScopedArenaObject<Obj>>& p, Mod& M, bool& live) { if (!p || !live) r.c.prune(); auto& m = *r.w.m; (void)m; if (r.op(text, [&] { stmt; })) { value; } }
	chk.section("scoped string", [&](Ctx& c) { typedef GuestStdString Obj; typedef string Mod; typedef ScopedArenaObject<Obj> Sc; static const string L = content(30, 'l'), L2 = content(44, 'm');
		scoped(c, (Obj*)nullptr, (Mod*)nullptr, { MAKE("new", new Sc(m), ""), MAKE("new(long)", new Sc(m, L), L), CHANGE("=long", *p = std::string_view(L2), L2), CHANGE("=short", *p = std::string_view("short"), "short"), CHANGE("=string(short)", *p = GuestStdString(m, "value"), "value"), USE("set", (*p)->set_string(m, p->address(), L), M = L), USE("guest append", if (r.small) r.c.prune(); r.w.call("s_append", *p, 20, 'k'), M += string(20, 'k')), USE("guest assign", r.w.call("s_assign", *p, 1, 'k'), M = "k") },
			[](Run& r, Sc& s, const Mod& M) { check(r, "the string", s.address(), M); }, T ? 5 : 4); }, { .split_depth = 3 });
	chk.section("scoped vector", [&](Ctx& c) { typedef GuestStdVector<int> Obj; typedef VI Mod; typedef ScopedArenaObject<Obj> Sc;
		scoped(c, (Obj*)nullptr, (Mod*)nullptr, { MAKE("new", new Sc(m), VI{}), MAKE("new({1,2,3})", new Sc(m, VI{ 1, 2, 3 }), (VI{ 1, 2, 3 })), CHANGE("={4,5}", *p = (VI{ 4, 5 }), (VI{ 4, 5 })), CHANGE("=20", *p = VI(20, 7), VI(20, 7)), USE("push", (*p)->push_back(m, 9), M.push_back(9)), USE("guest push", if (r.small) r.c.prune(); r.w.call("vi_push", *p, 8), M.push_back(8)) },
			[](Run& r, Sc& s, const Mod& M) { check(r, "the vector", s.address(), M); }, T ? 6 : 5); }, { .split_depth = 3 });
	chk.section("scoped strings", [&](Ctx& c) { typedef GuestStdVector<GuestStdString> Obj; typedef VS Mod; typedef ScopedArenaObject<Obj> Sc; static const string L = content(30, 'l');
		scoped(c, (Obj*)nullptr, (Mod*)nullptr, { MAKE("new", new Sc(m), VS{}), MAKE("new({..})", new Sc(m, VS{ "a", L }), (VS{ "a", L })), USE("push(short)", (*p)->push_back(m, std::string_view("bb")), M.push_back("bb")), USE("push(long)", (*p)->push_back(m, std::string_view(L)), M.push_back(L)), USE("guest push", if (r.small) r.c.prune(); r.w.call("vs_push", *p, 18, 'g'), M.push_back(string(18, 'g'))) },
			[](Run& r, Sc& s, const Mod& M) { check(r, "the vector", s.address(), M); }, T ? 6 : 5); }, { .split_depth = 3 });
	chk.section("scoped composite", [&](Ctx& c) { typedef Fixed Obj; typedef VS Mod; typedef ScopedArenaObject<Obj> Sc; static const string L = content(30, 'l');
		// the owner of a composite frees its parts
		int k = c.choose(2, "heap"); auto& w = world(k, c); auto& m = *w.m; Run r{ c, w, k ? "small heap," : "", k == 1 }; string n = c.flag("long name") ? L : "name"; VS lines; int nl = c.choose(3, "lines"); for (int i = 0; i < nl; i++) lines.push_back(c.flag("long line") ? L : "x"); GuestStdString gs; GuestStdVector<GuestStdString> gv;
		r.op("composite", [&] { try { gs.set_string(m, 0, n); gv = GuestStdVector<GuestStdString>(m, lines); Sc s(m, gs, gv, 5); check(r, "name", s.address() + offsetof(Fixed, name), n); check(r, "lines", s.address() + offsetof(Fixed, lines), lines); if (s->n != 5) r.fail("composite", "wrong number"); s->name.set_string(m, s.address() + offsetof(Fixed, name), L); gs = s->name; check(r, "name", s.address() + offsetof(Fixed, name), L); Fixed f = *s; s = f; check(r, "name", s.address() + offsetof(Fixed, name), L); check(r, "lines", s.address() + offsetof(Fixed, lines), lines); } catch (...) { gs.free(m); gv.free(m); throw; } gs.free(m); gv.free(m); }); r.freed(); c.nontrivial(); c.traces(); c.state(mix(nl, hash(n))); if (!r.bad && w.used()) r.fail("leak", fmt("%ld bytes are still allocated when the composite is gone", (long)w.used()));
	}, { .split_depth = 1 });
	// ---- Rust
	chk.section("rust string", [&](Ctx& c) { typedef GuestRustString Obj; typedef string Mod; typedef ScopedArenaObject<Obj> Sc; static const string L = content(30, 'l');
		scoped(c, (Obj*)nullptr, (Mod*)nullptr, { MAKE("new", new Sc(m), ""), MAKE("new(long)", new Sc(m, L), L), USE("set(5)", (*p)->set_string(m, "other"), M = "other"), USE("set(60)", (*p)->set_string(m, content(60, 'r')), M = content(60, 'r')), USE("set(copied)", (*p)->set_string(m, L.data(), 9, false), M = L.substr(0, 9)), USE("set()", (*p)->set_string(m, ""), M = ""), USE("own tail", auto v = (*p)->to_view(m); (*p)->set_string(m, v.substr(v.size() / 2)), M = M.substr(M.size() / 2)), USE("free", (*p)->free(m), M = "") , USE("guest empty", (*p)->free(m); (*p)->ptr = 1, M = "") },
			[](Run& r, Sc& s, const Mod& M) { auto& m = *r.w.m; if (s->to_string(m) != M || s->to_view(m) != M || s->size() != M.size() || s->empty() != M.empty() || s->capacity < s->len) r.fail("rust:host", "holds " + show(s->to_string(m)) + ", expected " + show(M)); if (s->capacity) r.block("string", s->ptr, s->capacity); else if (s->len) r.fail("rust:capacity", "text without capacity"); }, T ? 5 : 4); }, { .split_depth = 3 });
	chk.section("rust vector", [&](Ctx& c) { typedef GuestRustVector<int> Obj; typedef VI Mod; typedef ScopedArenaObject<Obj> Sc;
		scoped(c, (Obj*)nullptr, (Mod*)nullptr, { MAKE("new", new Sc(m, size_t(0)), VI{}), MAKE("new(3)", new Sc(m, size_t(3)), VI(3)), MAKE("new({1,2})", new Sc(m, VI{ 1, 2 }), (VI{ 1, 2 })), USE("assign(9)", (*p)->assign(m, VI(9, 4)), M = VI(9, 4)), USE("assign(1)", (*p)->assign(m, VI{ 6 }), M = VI{ 6 }), USE("assign()", (*p)->assign(m, VI{}), M.clear()), USE("write", for (size_t i = 0; i < (*p)->size(); i++) (*p)->at(m, i) += 2, for (int& x : M) x += 2), USE("free", (*p)->free(m), M.clear()), USE("guest empty", (*p)->free(m); (*p)->ptr = 4, M.clear()) },
			[](Run& r, Sc& s, const Mod& M) { auto& m = *r.w.m; if (s->to_vector(m) != M || s->size() != M.size() || s->empty() != M.empty() || s->capacity < s->len) r.fail("rust:host", fmt("has %zu elements, expected ", s->size()) + show(M)); for (size_t i = 0; i < M.size() && i < s->size(); i++) if (s->at(m, i) != M[i] || s->as_array(m)[i] != M[i]) r.fail("rust:element", fmt("element %zu, expected ", i) + show(M)); try { s->at(m, M.size()); r.fail("rust:bounds", "an element beyond the end is returned"); } catch (const std::out_of_range&) {} if (s->capacity) r.block("vector", s->ptr, s->capacity * 4); }, T ? 5 : 4); }, { .split_depth = 3 });
	chk.section("rust strings", [&](Ctx& c) { typedef GuestRustVector<GuestRustString> Obj; typedef VS Mod; typedef ScopedArenaObject<Obj> Sc; static const string L = content(30, 'l');
		scoped(c, (Obj*)nullptr, (Mod*)nullptr, { MAKE("new", new Sc(m, size_t(0)), VS{}), MAKE("new({a,long})", new Sc(m, VS{ "a", L }), (VS{ "a", L })), MAKE("new({,a,b})", new Sc(m, VS{ "", "a", "bb" }), (VS{ "", "a", "bb" })), MAKE("new(2)", new Sc(m, size_t(2)), VS(2)), USE("set", if (M.empty()) r.c.prune(); (*p)->at(m, 0).set_string(m, L), M[0] = L), USE("free", (*p)->free(m), M.clear()) },
			[](Run& r, Sc& s, const Mod& M) { auto& m = *r.w.m; if (s->size() != M.size()) { r.fail("rust:host", fmt("has %zu elements, expected ", s->size()) + show(M)); return; } for (size_t i = 0; i < M.size(); i++) if (s->at(m, i).to_string(m) != M[i]) r.fail("rust:element", fmt("element %zu, expected ", i) + show(M)); }, T ? 6 : 5); }, { .split_depth = 3 });
	// ---- inconsistent structures
	chk.section("corrupt", [&](Ctx& c) {
		auto& w = world(2, c); auto& m = *w.m; static const char* TN[] = { "string", "vector<int>", "vector<string>", "vector<vector>", "rust string", "rust vector", "rust strings", "vector<vector<string>>" }; int t = c.choose(8, "type"); u64 blk = m.arena().malloc(64), other = m.arena().malloc(48); u64 self = w.area + 0x200; memset(w.at<char>(blk), 0, 64);
		const std::vector<u64> F{ 0, 1, 8, 15, 16, 24, 64, blk, blk + 8, blk + 24, blk + 32, blk + 64, blk + 65, other, self, self + 16, MM - 40, MM - 8, MM, MM + 8, MM + 64, m.memory.rodata_start(), 1ull << 24, 1ull << 32, (1ull << 61) + 1, 1ull << 62, 1ull << 63, ~0ull - 23, ~0ull - 7, ~0ull }; u64 f[3]; for (auto& x : f) x = c.pick(F, "field"); bool sc = false; int op = c.choose(14, "operation"); string who = fmt("%s {%#lx,%#lx,%#lx} operation %d", TN[t], (long)f[0], (long)f[1], (long)f[2], op); c.at("%s", who.c_str()); c.crash_key(fmt("%s:crash", TN[t]));
		// nested structures inside the block are corrupt as well
		if (t >= 2) for (int i = 0; i < 8; i++) { u64 v = f[(i + 1) % 3]; memcpy(w.at<char>(blk) + 8 * i, &v, 8); } memcpy(w.at<char>(self), f, 24); memset(w.at<char>(self) + 24, 0, 8); string done; static std::vector<uint8_t> code; if (code.empty()) code.assign((uint8_t*)w.mem.get(), (uint8_t*)w.mem.get() + m.memory.data_start());
		auto run = [&](auto fnc) { c.transitions(); try { fnc(); done = "ok"; } catch (const MachineException& e) { done = "machine"; } catch (const std::bad_alloc&) { done = "memory"; } catch (const std::exception& e) { done = "refused"; } };
		auto vec = [&](auto* v, auto value) { switch (op) { case 0: run([&] { (void)v->to_vector(m).size(); }); break; case 1: run([&] { v->at(m, 0) = v->at(m, v->size() - 1); }); break; case 2: run([&] { auto* p = v->as_array(m); if (v->size()) { auto x = p[0]; p[v->size() - 1] = x; } }); break; case 3: run([&] { v->push_back(m, value); }); break; case 4: run([&] { v->pop_back(m); }); break; case 5: run([&] { v->clear(m); }); break; case 6: run([&] { v->resize(m, 2); }); break; case 7: run([&] { v->reserve(m, 3); }); break; case 8: run([&] { v->free(m); }); break; case 9: run([&] { v->assign(m, { value, value }); }); break; case 10: run([&] { std::remove_reference_t<decltype(value)> y[2] = { value, value }; v->append(m, y, 2); }); break; case 11: run([&] { v->fix_addresses(m, self); }); break; case 13: run([&] { v->resize(m, 0); }); break; default: sc = true; } };
		auto dtor = [&]<class O>(O*) { run([&] { std::unique_ptr<ScopedArenaObject<O>> s; if constexpr (is_guest_rustvector<O>::value) s.reset(new ScopedArenaObject<O>(m, size_t(0))); else s.reset(new ScopedArenaObject<O>(m)); memcpy(&**s, f, 24); s.reset(); }); };
		switch (t) {
		case 0: { auto* s = w.at<GuestStdString>(self); switch (op) { case 0: run([&] { s->to_string(m); }); break; case 1: run([&] { for (char ch : s->to_view(m)) done += ch; }); break; case 2: run([&] { s->set_string(m, self, "short"); }); break; case 3: run([&] { s->set_string(m, self, content(20, 'a')); }); break; case 4: run([&] { s->free(m); }); break; case 5: run([&] { s->fix_addresses(m, self); }); break; case 6: run([&] { s->to_string(m, 8); if (f[1] > 15 && f[1] > 8) c.fail("limit", who + ": a string longer than the limit is returned"); }); break; case 7: dtor((GuestStdString*)0); break; default: c.prune(); } break; }
		case 1: vec(w.at<GuestStdVector<int>>(self), 5); if (sc) dtor((GuestStdVector<int>*)0); break;
		case 2: { auto* v = w.at<GuestStdVector<GuestStdString>>(self); if (op == 12) run([&] { v->to_string_vector(m); }); else vec(v, GuestStdString(m, "ab")); if (sc) dtor((GuestStdVector<GuestStdString>*)0); if (op == 13) dtor((GuestStdVector<GuestStdString>*)0); break; }
		case 3: vec(w.at<GuestStdVector<GuestStdVector<int>>>(self), GuestStdVector<int>()); if (sc) dtor((GuestStdVector<GuestStdVector<int>>*)0); break;
		case 7: vec(w.at<GuestStdVector<GuestStdVector<GuestStdString>>>(self), GuestStdVector<GuestStdString>()); if (sc) dtor((GuestStdVector<GuestStdVector<GuestStdString>>*)0); break;
		case 4: { auto* s = w.at<GuestRustString>(self); switch (op) { case 0: run([&] { s->to_string(m); }); break; case 1: run([&] { for (char ch : s->to_view(m)) done += ch; }); break; case 2: run([&] { s->set_string(m, "short"); }); break; case 3: run([&] { s->set_string(m, ""); }); break; case 4: run([&] { s->free(m); }); break; case 5: dtor((GuestRustString*)0); break; default: c.prune(); } break; }
		case 5: case 6: { auto rv = [&](auto* v, auto value) { switch (op) { case 0: run([&] { (void)v->to_vector(m).size(); }); break; case 1: run([&] { v->at(m, 0) = v->at(m, v->size() - 1); }); break; case 2: run([&] { auto* p = v->as_array(m); if (v->size()) { auto x = p[0]; p[v->size() - 1] = x; } }); break; case 3: run([&] { v->assign(m, { value, value }); }); break; case 4: run([&] { v->free(m); }); break; case 5: sc = true; break; default: c.prune(); } }; if (t == 5) { rv(w.at<GuestRustVector<int>>(self), 7); if (sc) dtor((GuestRustVector<int>*)0); } else { rv(w.at<GuestRustVector<GuestRustString>>(self), GuestRustString()); if (sc) dtor((GuestRustVector<GuestRustString>*)0); } break; } }
		if (memcmp(code.data(), w.mem.get(), code.size())) { c.fail("readonly", who + ": read-only guest memory changed"); memcpy(w.mem.get(), code.data(), code.size()); } if (done == "ok") c.nontrivial(); w.drain(); if (w.used()) c.fail("heap", who + ": the heap cannot be emptied any more"); c.state(mix(mix(f[0], f[1]), mix(f[2], t))); c.traces(); if (c.want_sample()) c.sample(who + ": " + done);
	}, { .split_depth = 3 });
	return chk.finish();
}
