#include "vp.hpp"
#include <cstdarg>
#include <cerrno>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <exception>

namespace vp {

bool Check::g_thorough = false;
bool Ctx::thorough() const { return Check::g_thorough; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
	const uint8_t* b = (const uint8_t*)p;
	while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = mix(h, v); b += 8; n -= 8; }
	uint64_t v = 0; memcpy(&v, b, n); return mix(h, v ^ (uint64_t(n) << 56));
}
std::string fmt(const char* f, ...) {
	char buf[4096]; va_list ap; va_start(ap, f); int n = vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	if (n < 0) n = 0; return std::string(buf, std::min<size_t>(n, sizeof(buf) - 1));
}

static constexpr int MAXTAPE = 4000;
struct Shared {
	volatile int prefix; volatile int busy; volatile int done; volatile int ntape;
	volatile uint64_t beat;
	int tape[MAXTAPE]; int arity[MAXTAPE];
	char key[256]; char at[2048];
	volatile uint64_t tapes, trans, traces, nontriv;
};
struct Global { volatile int next_prefix; };

struct Ctx::StateSet {
	std::vector<uint64_t> tab; size_t n = 0; bool capped = false; bool has0 = false;
	StateSet() : tab(1 << 12, 0) {}
	void add(uint64_t h) {
		if (!h) { has0 = true; return; }
		if (capped) return;
		size_t m = tab.size() - 1, i = h & m;
		while (tab[i]) { if (tab[i] == h) return; i = (i + 1) & m; }
		tab[i] = h; n++;
		if (n * 2 > tab.size()) {
			if (tab.size() >= (1u << 24)) { capped = true; return; }
			std::vector<uint64_t> o(tab.size() * 2, 0); o.swap(tab);
			m = tab.size() - 1;
			for (uint64_t v : o) if (v) { size_t j = v & m; while (tab[j]) j = (j + 1) & m; tab[j] = v; }
		}
	}
};

int Ctx::choose(int n, const char*) {
	if (n <= 0) { fprintf(stderr, "choose(%d)\n", n); abort(); }
	if (m_pos < m_tape.size()) {
		int v = m_tape[m_pos];
		if (m_arity.size() <= m_pos) m_arity.push_back(n);
		m_arity[m_pos] = n;
		m_pos++;
		if (v >= n) { if (replaying) throw Abandon(); fprintf(stderr, "tape mismatch\n"); abort(); }
		if (m_sh && (int)m_pos <= MAXTAPE) { m_sh->tape[m_pos-1] = v; m_sh->arity[m_pos-1] = n; m_sh->ntape = (int)m_pos; }
		if (m_stop_depth > 0 && (int)m_pos >= m_stop_depth) throw (int)n; // prefix collection
		return v;
	}
	if (m_stop_depth >= 0 && (int)m_pos >= m_stop_depth) throw (int)n; // prefix collection
	m_tape.push_back(0); m_arity.resize(m_pos); m_arity.push_back(n); m_pos++;
	if (m_pos > MAXTAPE) { fprintf(stderr, "tape too long\n"); abort(); }
	if (m_sh) { m_sh->tape[m_pos-1] = 0; m_sh->arity[m_pos-1] = n; m_sh->ntape = (int)m_pos; }
	if (m_stop_depth > 0 && (int)m_pos >= m_stop_depth) throw (int)n; // prefix collection
	return 0;
}
static std::string tape_str(const std::vector<int>& t) { std::string s; for (int v : t) { if (!s.empty()) s += ","; s += std::to_string(v); } return s; }
static std::string oneline(const std::string& s) { std::string r; for (char c : s) { if (c == '\t') r += ' '; else if (c == '\n') r += " | "; else r += c; } return r; }
void Ctx::fail(const std::string& key, const std::string& text) {
	if (m_keep_fails) { m_fails.emplace_back(key, text); return; }
	m_failcount++;
	if (m_failkeys.size() < 2000 && m_failkeys.insert(key).second && m_out) {
		fprintf(m_out, "F\t%s\t%s\t%s\n", oneline(key).c_str(), tape_str(std::vector<int>(m_tape.begin(), m_tape.begin() + m_pos)).c_str(), oneline(text).c_str());
		fflush(m_out);
	}
}
void Ctx::state(uint64_t h) { if (m_states) m_states->add(h); }
void Ctx::sample(const std::string& s) { if (m_samples_left > 0 && m_out) { m_samples_left--; fprintf(m_out, "S\t%s\n", oneline(s).c_str()); } }
void Ctx::at(const char* f, ...) { if (!m_sh) return; va_list ap; va_start(ap, f); vsnprintf(m_sh->at, sizeof m_sh->at, f, ap); va_end(ap); }
void Ctx::crash_key(const std::string& k) { if (m_sh) { snprintf(m_sh->key, sizeof m_sh->key, "%s", k.c_str()); } }

static bool next_tape(std::vector<int>& t, std::vector<int>& ar, size_t fixed) {
	// ar may be shorter/longer than t; both describe the executed tape
	while (t.size() > fixed) {
		size_t i = t.size() - 1;
		if (t[i] + 1 < ar[i]) { t[i]++; ar.resize(i); return true; }
		t.pop_back(); ar.resize(t.size());
	}
	return false;
}

Check::Check(int argc, char** argv, const char* id, const char* level) : m_id(id), m_level(level) {
	m_t0 = now();
	const char* tier = getenv("VERIF_TIER");
	std::string t = tier ? tier : "quick";
	const char* ev = getenv("VP_EVIDENCE_DIR"); m_dir = ev ? ev : "/verif/evidence";
	const char* w = getenv("VP_WORKERS"); if (w) m_workers = atoi(w);
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--tier" && i + 1 < argc) t = argv[++i];
		else if (a == "--only" && i + 1 < argc) m_only = argv[++i];
		else if (a == "--replay" && i + 1 < argc) {
			m_replay = true; std::ifstream f(argv[++i]); std::string l;
			while (std::getline(f, l)) {
				if (l.rfind("section=", 0) == 0) m_replay_section = l.substr(8);
				if (l.rfind("tape=", 0) == 0) m_replay_tape = l.substr(5);
			}
		}
	}
	m_thorough = g_thorough = (t == "thorough");
	mkdir(m_dir.c_str(), 0777);
	setvbuf(stdout, nullptr, _IOLBF, 0);
}

static void run_body(Body& b, Ctx& c) {
	try { b(c); }
	catch (const Abandon&) { throw; }
	catch (const std::exception& e) { c.fail(std::string("uncaught:") + e.what(), std::string("exception escaped the case: ") + e.what()); }
}

void Check::run_worker(const std::string& name, Body& body, const SectionOpts& o, int w,
	const std::vector<std::vector<int>>& prefixes, const std::string& base, int resume) { (void)name;(void)body;(void)o;(void)w;(void)prefixes;(void)base;(void)resume; }

struct WorkerState { pid_t pid = 0; int resume = 0; double last_t = 0; uint64_t last_beat = 0; };

void Check::section(const std::string& name, Body body, SectionOpts o) {
	if (!m_only.empty() && name.find(m_only) == std::string::npos) return;
	if (!m_replay && !m_thorough && m_confirmed > 0 && now() - m_t0 > 600) { printf("section %-34s skipped: violations found and time is up\n", name.c_str()); return; }
	double t0 = now();
	if (m_replay) {
		if (name != m_replay_section) return;
		m_replay_hit = true;
		if (m_worker_start) m_worker_start();
		Ctx c; c.m_section = name; c.replaying = true; c.m_keep_fails = true;
		std::stringstream ss(m_replay_tape); std::string x; while (std::getline(ss, x, ',')) if (!x.empty()) c.m_tape.push_back(atoi(x.c_str()));
		try { run_body(body, c); } catch (const Abandon&) { printf("REPLAY: pruned\n"); }
		for (auto& f : c.m_fails) printf("REPLAY FAIL key=%s\n  %s\n", f.first.c_str(), f.second.c_str());
		if (c.m_fails.empty()) printf("REPLAY: no failure\n"); else m_replay_rc = 1;
		return;
	}
	// work split
	std::vector<std::vector<int>> prefixes; std::string tmp = m_dir + "/.tmp-" + m_id + "-" + std::to_string(getpid());
	auto* G = (Global*)mmap(nullptr, sizeof(Global), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	{
		// collected in a forked child, so that body side effects stay out of the parent
		std::string pf = tmp + ".prefix"; fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			alarm(o.timeout_s + 60);
			if (m_worker_start) m_worker_start();
			FILE* f = fopen(pf.c_str(), "w"); if (!f) _exit(3);
			std::vector<int> t, ar; bool more = true;
			while (more) {
				Ctx c; c.m_section = name; c.m_tape = t; c.m_arity = ar; c.m_stop_depth = o.split_depth; c.m_keep_fails = true;
				bool pruned = false; bool deeper = false;
				try { run_body(body, c); } catch (const Abandon&) { pruned = true; } catch (int) { deeper = true; }
				t.assign(c.m_tape.begin(), c.m_tape.begin() + std::min(c.m_pos, c.m_tape.size())); ar = c.m_arity; ar.resize(t.size());
				(void)deeper; (void)pruned;
				fprintf(f, "%s\n", tape_str(t).c_str());
				more = next_tape(t, ar, 0);
			}
			fclose(f); _exit(0);
		}
		int st; waitpid(pid, &st, 0);
		std::ifstream in(pf); std::string l; bool any = false;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
			while (std::getline(in, l)) { any = true; std::vector<int> v; std::stringstream ss(l); std::string x; while (std::getline(ss, x, ',')) if (!x.empty()) v.push_back(atoi(x.c_str())); prefixes.push_back(v); }
		if (!any) prefixes = {{}}; // the split run died: let the workers meet it
		unlink(pf.c_str());
	}
	int W = o.serial ? 1 : std::min<int>(m_workers, (int)prefixes.size()); if (W < 1) W = 1;
	auto* S = (Shared*)mmap(nullptr, sizeof(Shared) * W, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	G->next_prefix = 0;
	std::vector<WorkerState> ws(W);
	auto start = [&](int w) {
		fflush(stdout);
		pid_t pid = fork();
		if (pid) { ws[w].pid = pid; ws[w].last_t = now(); ws[w].last_beat = S[w].beat; return; }
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (m_worker_start) m_worker_start();
		Shared* sh = &S[w];
		Ctx c; c.m_section = name; c.m_sh = sh; c.m_states = new Ctx::StateSet;
		c.m_out = fopen((tmp + ".w" + std::to_string(w)).c_str(), "a");
		c.m_samples_left = 2;
		std::vector<int> t, ar; size_t fixed = 0; bool have = false;
		if (ws[w].resume) { // continue after the tape that killed the predecessor
			c.m_samples_left = 0;
			const auto& p = prefixes[sh->prefix]; fixed = p.size();
			int n = sh->ntape;
			t.assign(sh->tape, sh->tape + n); ar.assign(sh->arity, sh->arity + n);
			if (n < (int)fixed) have = false; else have = next_tape(t, ar, fixed);
		}
		for (;;) {
			if (!have) {
				int i = __sync_fetch_and_add(&G->next_prefix, 1);
				if (i >= (int)prefixes.size()) break;
				sh->prefix = i; t = prefixes[i]; ar.clear(); fixed = t.size();
			}
			do {
				c.m_tape = t; c.m_arity = ar; c.m_pos = 0; sh->ntape = 0; sh->key[0] = 0; sh->at[0] = 0;
				sh->beat++; sh->busy = 1;
				bool counted = true;
				try { run_body(body, c); } catch (const Abandon&) { counted = false; }
				if (counted) sh->tapes++;
				sh->trans = sh->trans + c.m_trans; c.m_trans = 0; sh->traces = sh->traces + c.m_traces; c.m_traces = 0; sh->nontriv = sh->nontriv + c.m_nontriv; c.m_nontriv = 0;
				t.assign(c.m_tape.begin(), c.m_tape.begin() + c.m_pos); ar = c.m_arity; ar.resize(t.size());
			} while (next_tape(t, ar, fixed));
			have = false;
		}
		sh->busy = 0; sh->done = 1;
		// distinct states
		FILE* sf = fopen((tmp + ".s" + std::to_string(w)).c_str(), "ab");
		if (c.m_states->has0) { uint64_t z = 1; fwrite(&z, 8, 1, sf); }
		for (uint64_t v : c.m_states->tab) if (v) fwrite(&v, 8, 1, sf);
		fclose(sf);
		if (c.m_states->capped) fprintf(c.m_out, "C\n");
		fclose(c.m_out);
		_exit(0);
	};
	for (int w = 0; w < W; w++) start(w);
	// a case without an answer is a finding; once there is one the others get less time
	int hangs = 0; bool cut = false; auto limit = [&] { return m_hangs ? std::min(o.timeout_s, 10) : o.timeout_s; };
	int alive = W; std::vector<std::string> deaths; // lines: key \t tape \t text
	std::vector<int> ndeath(W, 0);
	while (alive > 0) {
		int st; pid_t p = waitpid(-1, &st, WNOHANG);
		if (p == 0) {
			double n = now();
			for (int w = 0; w < W; w++) if (ws[w].pid) {
				if (S[w].beat != ws[w].last_beat) { ws[w].last_beat = S[w].beat; ws[w].last_t = n; }
				else if (n - ws[w].last_t > limit()) { m_hangs++; hangs++; snprintf(S[w].at + strlen(S[w].at), sizeof(S[w].at) - strlen(S[w].at), " [no answer in %d s]", limit()); kill(ws[w].pid, SIGKILL); ws[w].last_t = n; }
			}
			if (!cut && (hangs >= 4 || (!m_thorough && n - m_t0 > 600 && (hangs || !deaths.empty() || !m_findings.empty())))) { cut = true; for (int w = 0; w < W; w++) if (ws[w].pid) kill(ws[w].pid, SIGKILL); }
			usleep(5000); continue;
		}
		if (p < 0) break;
		for (int w = 0; w < W; w++) if (ws[w].pid == p) {
			ws[w].pid = 0;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S[w].done) { alive--; break; }
			if (cut && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !strstr(S[w].at, "[no answer in")) { alive--; break; }   // stopped, not a finding
			int n = S[w].ntape; if (n < 0) n = 0; if (n > MAXTAPE) n = MAXTAPE;
			std::string why = WIFSIGNALED(st) ? fmt("signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("exit %d", WEXITSTATUS(st));
			std::string key = S[w].key[0] ? S[w].key : "crash";
			deaths.push_back(oneline(key) + "\t" + tape_str(std::vector<int>(S[w].tape, S[w].tape + n)) + "\t" + oneline("process died: " + why + "; at: " + S[w].at));
			S[w].tapes++;
			if (cut || ++ndeath[w] > 200) { alive--; break; }
			ws[w].resume = 1; start(w);
		}
	}
	// merge
	uint64_t tapes = 0, trans = 0, traces = 0, nontriv = 0;
	std::vector<uint64_t> all; bool capped = false;
	auto add = [&](const std::string& key, const std::string& tape, const std::string& text) {
		auto& f = m_findings[name + "|" + key];
		if (f.count++ == 0) { f.section = name; f.key = key; f.tape = tape; f.text = text; }
	};
	for (int w = 0; w < W; w++) {
		tapes += S[w].tapes; trans += S[w].trans; traces += S[w].traces; nontriv += S[w].nontriv;
		std::string fn = tmp + ".w" + std::to_string(w); std::ifstream in(fn); std::string l;
		while (std::getline(in, l)) {
			if (l[0] == 'S') { if (m_samples.size() < 400) m_samples.push_back("[" + name + "] " + l.substr(2)); }
			else if (l[0] == 'C') capped = true;
			else if (l[0] == 'F') { size_t a = l.find('\t', 2), b = l.find('\t', a + 1); add(l.substr(2, a - 2), l.substr(a + 1, b - a - 1), l.substr(b + 1)); }
		}
		unlink(fn.c_str());
		fn = tmp + ".s" + std::to_string(w); FILE* sf = fopen(fn.c_str(), "rb");
		if (sf) { uint64_t buf[4096]; size_t n; while ((n = fread(buf, 8, 4096, sf)) > 0) all.insert(all.end(), buf, buf + n); fclose(sf); unlink(fn.c_str()); }
	}
	for (auto& d : deaths) { size_t a = d.find('\t'), b = d.find('\t', a + 1); add(d.substr(0, a), d.substr(a + 1, b - a - 1), d.substr(b + 1)); }
	std::sort(all.begin(), all.end()); uint64_t states = std::unique(all.begin(), all.end()) - all.begin();
	m_states_capped |= capped;
	munmap(S, sizeof(Shared) * W); munmap(G, sizeof(Global));
	m_tapes += tapes; m_trans += trans; m_traces += traces; m_nontriv += nontriv; m_states_n += states;
	m_sections_json.push_back(fmt("{\"section\":\"%s\",\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"wall_s\":%.2f}",
		name.c_str(), (unsigned long long)tapes, (unsigned long long)states, (unsigned long long)trans, (unsigned long long)traces, now() - t0));
	printf("section %-34s executions=%llu states=%llu%s transitions=%llu traces=%llu %.1fs\n", name.c_str(), (unsigned long long)tapes,
		(unsigned long long)states, capped ? "+" : "", (unsigned long long)trans, (unsigned long long)traces, now() - t0);
	// confirm the findings of this section by replaying each in a fresh process
	for (auto it = m_findings.begin(); it != m_findings.end();) {
		auto& f = it->second;
		if (f.section != name) { ++it; continue; }
		bool again = !m_thorough && m_confirmed > 0 && now() - m_t0 > 500;    // enough is known: report the rest as met
		for (int tries = 0; tries < 2 && !again; tries++) {
			int pfd[2]; if (pipe(pfd)) break; fflush(stdout);
			pid_t pid = fork();
			if (pid == 0) {
				close(pfd[0]); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
				alarm(limit() + 5);
				if (m_worker_start) m_worker_start();
				Ctx c; c.m_section = name; c.replaying = true; c.m_keep_fails = true;
				std::stringstream ss(f.tape); std::string x; while (std::getline(ss, x, ',')) if (!x.empty()) c.m_tape.push_back(atoi(x.c_str()));
				try { run_body(body, c); } catch (const Abandon&) {}
				for (auto& g : c.m_fails) if (oneline(g.first) == f.key) { char y = 1; if (write(pfd[1], &y, 1)) {} break; }
				_exit(0);
			}
			close(pfd[1]); char y = 0; ssize_t r = read(pfd[0], &y, 1); close(pfd[0]);
			int st; waitpid(pid, &st, 0);
			bool died = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
			bool was_death = f.text.rfind("process died", 0) == 0;
			if (r == 1 || (was_death && died)) again = true;
		}
		if (!again) { printf("note: finding not reproduced by replay, dropped: %s %s: %s\n", name.c_str(), f.key.c_str(), f.text.c_str()); m_unreproduced++; it = m_findings.erase(it); }
		else { m_confirmed++; ++it; }
	}
}

static std::string jesc(const std::string& s) {
	std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) r += fmt("\\u%04x", c); else r += c; } return r;
}

int Check::finish() {
	if (m_replay) { if (!m_replay_hit) printf("no such section\n"); return m_replay_rc; }
	// known findings:  finding: property=<id> key=<key> :: description
	std::map<std::string, std::string> known; const char* kf = getenv("VP_KNOWN"); std::ifstream in(kf ? kf : "/verif/known_findings.txt"); std::string l;
	while (std::getline(in, l)) {
		std::string pre = "finding: property=" + m_id + " key=";
		if (l.rfind(pre, 0) != 0) continue;
		size_t e = l.find(" :: "); std::string key = l.substr(pre.size(), e == std::string::npos ? std::string::npos : e - pre.size());
		known[key] = e == std::string::npos ? "" : l.substr(e + 4);
	}
	int nviol = 0, nknown = 0; std::set<std::string> reported;
	mkdir((m_dir + "/replay").c_str(), 0777);
	for (auto& kv : m_findings) {
		auto& f = kv.second; std::string full = f.section + "|" + f.key;
		auto k = known.find(full); if (k == known.end()) k = known.find(f.key);
		if (k != known.end()) { nknown++; if (reported.insert(k->first).second) printf("KNOWN-FINDING: property=%s %s :: %s\n", m_id.c_str(), k->first.c_str(), k->second.c_str()); continue; }
		nviol++;
		std::string path = m_dir + "/replay/" + m_id + "-" + std::to_string(nviol) + ".txt";
		std::ofstream o(path); o << "property=" << m_id << "\nsection=" << f.section << "\nkey=" << f.key << "\ntape=" << f.tape << "\ntier=" << (m_thorough ? "thorough" : "quick") << "\ntext=" << f.text << "\n";
		if (nviol <= 400) { printf("VIOLATION property=%s replay=%s\n", m_id.c_str(), path.c_str()); printf("  %s: %s\n", full.c_str(), f.text.c_str()); }
	}
	if (nviol > 400) printf("  ... and %d more\n", nviol - 400);
	const char* sd = getenv("VERIF_SEED");
	std::ofstream o(m_dir + "/" + m_id + ".json");
	o << "{\n \"property\": \"" << m_id << "\",\n \"tier\": \"" << (m_thorough ? "thorough" : "quick") << "\",\n \"seed\": " << (sd ? atol(sd) : 1)
	  << ",\n \"level\": \"" << m_level << "\",\n \"coverage\": {\n";
	o << "  \"states\": " << m_states_n << ",\n  \"transitions\": " << m_trans << ",\n  \"traces_validated_against_impl\": " << m_traces
	  << ",\n  \"executions\": " << m_tapes << ",\n  \"exhaustive\": true,\n  \"states_is_lower_bound\": " << (m_states_capped ? "true" : "false")
	  << ",\n  \"rule\": \"" << jesc(m_rule) << "\",\n  \"known_findings_hit\": " << nknown << ",\n  \"findings_not_reproduced\": " << m_unreproduced;
	for (auto& e : m_extra) o << ",\n  \"" << e.first << "\": " << e.second;
	o << ",\n  \"sections\": ["; for (size_t i = 0; i < m_sections_json.size(); i++) o << (i ? ",\n   " : "\n   ") << m_sections_json[i]; o << "\n  ]";
	o << ",\n  \"samples\": ["; size_t step = std::max<size_t>(1, m_samples.size() / 24); bool first = true;
	for (size_t i = 0; i < m_samples.size(); i += step) { o << (first ? "\n   " : ",\n   ") << "\"" << jesc(m_samples[i].substr(0, 600)) << "\""; first = false; } o << "\n  ]\n },\n";
	o << " \"assumptions\": ["; for (size_t i = 0; i < m_assume.size(); i++) o << (i ? ", " : "") << "\"" << jesc(m_assume[i]) << "\""; o << "],\n";
	o << " \"wall_s\": " << fmt("%.2f", now() - m_t0) << ",\n \"violations\": " << nviol << "\n}\n";
	o.close();
	printf("%s %s: executions=%llu states=%llu transitions=%llu traces=%llu known=%d violations=%d wall=%.1fs\n", m_id.c_str(), m_thorough ? "thorough" : "quick",
		(unsigned long long)m_tapes, (unsigned long long)m_states_n, (unsigned long long)m_trans, (unsigned long long)m_traces, nknown, nviol, now() - m_t0);
	return nviol ? 1 : 0;
}

} // namespace vp
