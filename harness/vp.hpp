// Exhaustive-exploration framework.
//
// A check is a set of "sections".  A section is a body that asks the explorer for
// decisions (ctx.choose(n)); the explorer runs the body once for every possible
// sequence of decisions (stateless depth-first enumeration), split over forked
// worker processes.  A worker that dies (signal, sanitizer abort) or hangs is a
// finding for the decision sequence ("tape") it was running; the exploration goes
// on with the next tape.  Every finding is replayed in a fresh process before it is
// reported.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unistd.h>

namespace vp {

struct Abandon {};      // thrown by ctx.prune()

uint64_t hash_bytes(const void* p, size_t n, uint64_t seed = 0x9E3779B97F4A7C15ull);
inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h;
}
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

struct Shared; // per-worker slot
class Ctx {
public:
	// one decision out of n (>= 1)
	int choose(int n, const char* what = "");
	template <typename C> const auto& pick(const C& c, const char* what = "") { return c[choose((int)c.size(), what)]; }
	bool flag(const char* what = "") { return choose(2, what) == 1; }
	// this sequence of decisions is not a case (not counted)
	[[noreturn]] void prune() { throw Abandon(); }
	// a violation: key identifies what fails, text describes this case
	void fail(const std::string& key, const std::string& text);
	bool ok(bool cond, const std::string& key, const std::string& text) { if (!cond) fail(key, text); return cond; }
	// measurements
	void state(uint64_t h);             // a distinct model state / outcome
	void transitions(uint64_t n = 1) { m_trans += n; }
	void traces(uint64_t n = 1) { m_traces += n; }  // traces compared against the real code
	void nontrivial(uint64_t n = 1) { m_nontriv += n; }
	bool want_sample() const { return m_samples_left > 0; }
	void sample(const std::string& s);
	// remembered in shared memory: shown if the worker dies in this case
	void at(const char* f, ...) __attribute__((format(printf, 2, 3)));
	// key used if the process dies/hangs from here on (default: "crash")
	void crash_key(const std::string& k);
	bool thorough() const;
	bool replaying = false;
	const std::string& section() const { return m_section; }
	// internal
	std::vector<int> m_tape, m_arity; size_t m_pos = 0; int m_stop_depth = -1;
	Shared* m_sh = nullptr; std::string m_section;
	uint64_t m_trans = 0, m_traces = 0, m_nontriv = 0; int m_samples_left = 0;
	std::vector<std::pair<std::string,std::string>> m_fails;
	FILE* m_out = nullptr; std::set<std::string> m_failkeys; uint64_t m_failcount = 0;
	struct StateSet; StateSet* m_states = nullptr;
	bool m_keep_fails = false;
};

// like Ctx::ok, but key and text are only built on failure
#define OK(c, cond, key, text) (__builtin_expect(!!(cond), 1) ? true : ((c).fail(key, text), false))

using Body = std::function<void(Ctx&)>;

struct SectionOpts {
	int split_depth = 2;        // decisions used to split work between workers
	int timeout_s = 40;         // one tape may take this long
	bool serial = false;        // one worker only
};

class Check {
public:
	Check(int argc, char** argv, const char* id, const char* level = "model_checking");
	void section(const std::string& name, Body body, SectionOpts o = {});
	// run several times: before exploration in every worker (process-local set-up)
	void on_worker_start(std::function<void()> f) { m_worker_start = std::move(f); }
	bool thorough() const { return m_thorough; }
	void assume(const std::string& s) { m_assume.push_back(s); }
	void extra(const std::string& k, const std::string& json) { m_extra[k] = json; }
	void rule(const std::string& s) { m_rule = s; }
	int finish();
	static bool g_thorough;
private:
	struct Finding { std::string section, key, text, tape; uint64_t count; };
	void run_worker(const std::string& name, Body& body, const SectionOpts& o, int w,
		const std::vector<std::vector<int>>& prefixes, const std::string& base, int resume_from);
	std::string m_id, m_level, m_rule, m_dir; bool m_thorough = false; int m_workers = 8;
	std::string m_replay_section, m_replay_tape; bool m_replay = false; std::string m_only;
	std::function<void()> m_worker_start;
	std::vector<std::string> m_assume; std::map<std::string,std::string> m_extra;
	uint64_t m_tapes = 0, m_trans = 0, m_traces = 0, m_nontriv = 0, m_states_n = 0; bool m_states_capped = false;
	std::vector<std::string> m_samples; std::vector<std::string> m_sections_json;
	std::map<std::string, Finding> m_findings; // section|key
	double m_t0 = 0; bool m_replay_hit = false; int m_replay_rc = 0;
	uint64_t m_unreproduced = 0; int m_hangs = 0, m_confirmed = 0;
};

} // namespace vp
