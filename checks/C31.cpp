// C31: the emulator runs a program with the outcome the program has, whatever its options
// build: VARIANT=plain CHECKX=-O0
#include "vp.hpp"
#include "elfgen.hpp"
#define main laemu_main
#include "../emulator/src/main.cpp"
#undef main
#include <cmath>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>
using namespace vp; using std::string; typedef uint64_t u64; typedef uint32_t u32;
static constexpr u64 TEXT = 0x10000, DATA = 0x20000;
static u32 addid(int d, int j, int i) { return 0x02c00000 | ((u32)i & 4095) << 10 | j << 5 | d; } static u32 ori(int d, int j, int i) { return 0x03800000 | ((u32)i & 4095) << 10 | j << 5 | d; } static u32 lu12i(int d, u32 i) { return 0x14000000 | (i & 0xfffff) << 5 | d; }
static void li(std::vector<u32>& v, int r, u32 x) { v.push_back(lu12i(r, x >> 12)); v.push_back(ori(r, r, x & 4095)); }
// what a program does: its output, how it ends (0 exit, 1 a fault), and how many instructions it takes
struct Prog { string name; std::vector<u32> code; string out; int code_ = 0, fault = 0; u64 count = 0; bool args = false; u64 need = 0; };
static string writefile(const string& dir, const string& name, const void* p, size_t n) { string f = dir + "/" + name; int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (write(fd, p, n) != (ssize_t)n) abort(); close(fd); return f; }
static string text() { return string("Hello,\n\x01\xff\0world\n", 15); }
static std::vector<Prog> programs() { std::vector<Prog> v; auto fin = [&](Prog p) { v.push_back(p); };
	for (int code : { 0, 1, 7, 127, 128, 255, 256, 511, -1, -128, 0x7fffffff, (int)0x80000000 }) { Prog p; p.name = fmt("exit(%d)", code); li(p.code, 4, code); p.code.push_back(ori(11, 0, 93)); p.code.push_back(0x002b0000); p.code_ = code; p.count = 4; fin(p); }
	{ Prog p; p.name = "write, exit(3)"; p.code = { ori(4, 0, 1) }; li(p.code, 5, DATA); p.code.push_back(ori(6, 0, 15)); p.code.push_back(ori(11, 0, 64)); p.code.push_back(0x002b0000); p.code.push_back(ori(4, 0, 3)); p.code.push_back(ori(11, 0, 94)); p.code.push_back(0x002b0000); p.out = text(); p.code_ = 3; p.count = 9; fin(p);
		p.name = "write, fault"; p.code.resize(6); p.code.push_back(0x28c00004); p.fault = 1; p.count = 7; fin(p); p.name = "write, illegal instruction"; p.code[6] = 0xffffffff; fin(p); p.name = "write, jump to nowhere"; p.code[6] = 0x4c000000 | 4 << 5; fin(p); 
		p.name = "write to 2, exit(4)"; p.fault = 0; p.code.resize(6); p.code[0] = ori(4, 0, 2); p.code.push_back(ori(4, 0, 4)); p.code.push_back(ori(11, 0, 94)); p.code.push_back(0x002b0000); p.count = 9; p.code_ = 4; fin(p); }
	for (int n : { 1, 2, 100 }) { Prog p; p.name = fmt("%d rounds, exit(9)", n); p.code = { ori(12, 0, n), ori(5, 0, 9), 0x02fffd8c, 0x47fffd9f, 0x001500a4, 0x0381740b, 0x002b0000 }; p.code_ = 9; p.count = 2 + 2 * n + 3; fin(p); }
	{ Prog p; p.name = "arguments"; p.args = true; p.code = { 0x28c00078, 0x02c02077, 0x03800819, 0x28c002e5, 0x02c022f7, 0x400028a0, 0x001500ac, 0x2a00018d, 0x02c0058c, 0x47fff9bf, 0x00119586, 0x03800404, 0x0381000b, 0x002b0000, 0x53ffd7ff, 0x02ffff39, 0x47ffcf3f, 0x00150304, 0x0381780b, 0x002b0000 }; fin(p); }
	{ Prog p; p.name = "many kinds of instructions"; li(p.code, 5, DATA); p.code.insert(p.code.end(), { 0x000054c6, 0x000054e7, 0x00005508, 0x000048c6, 0x000048e7, 0x2a0000a6, 0x2b0000a0, 0x700a0000, 0x700a0421, 0x70000862, ori(4, 0, 6), ori(11, 0, 94), 0x002b0000 }); p.code_ = 6; p.count = p.code.size(); fin(p); }
	{ Prog p; p.name = "stop"; p.code = { ori(4, 0, 5), 0x002b0000 | 1, 0 }; p.code[1] = 0x00150000; p.name = "reads stdin"; li(p.code = {}, 5, DATA); p.code.insert(p.code.end(), { ori(4, 0, 0), ori(6, 0, 3), ori(11, 0, 63), 0x002b0000, ori(11, 0, 94), 0x002b0000 }); p.count = 8; fin(p); }
	return v; }
static std::vector<uint8_t> image(const std::vector<u32>& code) { elfgen::Seg s{ TEXT, 5, elfgen::words(code) }, d{ DATA, 6, {} }; d.bytes.resize(4096); string t = text(); memcpy(d.bytes.data(), t.data(), t.size()); return elfgen::build({ s, d }, TEXT).file; }
struct Out { string out, err; int status = -1, sig = 0; };
static string slurp(const string& f) { string s; int fd = open(f.c_str(), O_RDONLY); char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
struct Emu {
	Ctx& c; string dir, who; Emu(Ctx& c) : c(c) { char t[] = "/tmp/vp_c31_XXXXXX"; dir = mkdtemp(t); } ~Emu() { for (const char* f : { "out", "err", "p", "q" }) unlink((dir + "/" + f).c_str()); rmdir(dir.c_str()); }
	Out run(std::vector<string> argv) { Out o; who.clear(); for (auto& a : argv) { string x = a; if (x.rfind(dir + "/", 0) == 0) x = x.substr(dir.size() + 1); who += (who.empty() ? "laemu" : " '" + x + "'"); } c.at("%s", who.c_str()); c.transitions(); c.traces(); fflush(stdout); fflush(stderr); string fo = dir + "/out", fe = dir + "/err"; pid_t p = fork();
		if (!p) { int a = open(fo.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644), b = open(fe.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644), z = open("/dev/null", O_RDONLY); dup2(z, 0); dup2(a, 1); dup2(b, 2); alarm(60); for (int s : { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL }) signal(s, SIG_DFL); std::vector<char*> av; for (auto& s : argv) av.push_back(strdup(s.c_str())); av.push_back(nullptr); optind = 0; int r = laemu_main(argv.size(), av.data()); fflush(stdout); fflush(stderr); _exit(r); }
		int st = 0; waitpid(p, &st, 0); if (WIFEXITED(st)) o.status = WEXITSTATUS(st); else o.sig = WTERMSIG(st); o.out = slurp(fo); o.err = slurp(fe); if (o.err.find("Sanitizer") != string::npos || o.err.find(": runtime error: ") != string::npos) o.sig = 999; return o; }
	bool bad(const char* k, const Out& o, const string& t) { return OK(c, false, k, who + ": " + t + fmt(" (status %d, signal %d, ", o.status, o.sig) + "stdout \"" + o.out.substr(0, 150) + "\", stderr \"" + o.err.substr(0, 300) + "\")"); }
	// a program that was started: all that its options allow to be seen
	bool check(const Prog& p, const Out& o, const std::vector<string>& args, u64 fuel, bool silent, bool timing, bool stats, bool verbose) {
		string want = p.out; int code = p.code_; bool known = true; u64 count = p.count; if (p.args) { want.clear(); for (auto& a : args) { want += a; want.push_back(0); } want += string("LC_ALL=C\0USER=groot", 20); code = args.size(); known = false; }
		if (o.sig) return bad("crash", o, "the emulator died"); bool out_of_fuel = fuel && known && fuel < count; 
		if (out_of_fuel) { // a budget may be passed by up to one block, never stop too early
			if (o.status != 255 && !(o.status == (code & 255) && !p.fault)) return bad("fuel", o, "status"); if (!silent && o.status == 255 && !p.fault && (code & 255) != 255 && o.err.find("Execution timeout after ") == string::npos) return bad("fuel", o, "no report of the timeout"); auto at = o.err.find("Execution timeout after "); if (at != string::npos) { u64 n = strtoull(o.err.c_str() + at + 24, 0, 10); if (n < fuel || n > count) return bad("fuel", o, fmt("stopped after %lu instructions, the limit is %lu", n, fuel)); } return true; }
		int st = p.fault ? 255 : code & 255; if (o.status != st) return bad("status", o, fmt("expected status %d", st));
		if (verbose) { size_t w = 0; for (char ch : o.out) if (w < want.size() && ch == want[w]) w++; if (w < want.size()) return bad("output", o, "the program's output is missing"); }
		else { if (o.out.compare(0, want.size(), want)) return bad("output", o, "the program's output differs"); string rest = o.out.substr(want.size()); if (stats && !p.fault) { auto e = rest.find("Total instructions in cache: "); if (e == string::npos) return bad("stats", o, "no statistics"); auto nl = rest.find('\n', e); u64 total = strtoull(rest.c_str() + e + 29, 0, 10), sum = 0; std::map<string, u64> lines; size_t a = 0, b; bool body = false; while ((b = rest.find('\n', a)) != string::npos && a < e) { string l = rest.substr(a, b - a); a = b + 1; char nm[64]; u64 n; double pc; if (l.rfind("--------", 0) == 0) body = true; else if (body && sscanf(l.c_str(), "%63s %lu %lf%%", nm, &n, &pc) == 3) { sum += n; if (std::fabs(pc - 100.0 * n / p.code.size()) > 0.011) return bad("stats", o, "a percentage is wrong"); } } if (total != p.code.size() || sum != total) return bad("stats", o, fmt("the statistics count %lu and say %lu of %zu instructions", sum, total, p.code.size())); rest = rest.substr(nl + 1); }
			string msg = p.fault ? "" : fmt("Program exited with code %d", code); if (silent) msg = ""; if (msg.empty()) { if (!rest.empty()) return bad("output", o, "there is other output"); } else { if (rest.compare(0, msg.size(), msg) || rest.back() != '\n' || std::count(rest.begin(), rest.end(), '\n') != 1) return bad("report", o, "expected " + msg); if (fuel) { if (known) { string n = msg + fmt(" after %lu instructions", count); if (rest.compare(0, n.size(), n)) return bad("report", o, "expected " + n); } } else if (timing ? rest.find(" seconds)") == string::npos : rest != msg + "\n") return bad("report", o, "expected " + msg); } }
		if (p.fault ? o.err.find("Machine exception: ") == string::npos : !o.err.empty() && !verbose) return bad("errors", o, p.fault ? "the fault is not reported" : "reports an error"); c.nontrivial(); return true; }
};
int main(int argc, char** argv) {
	Check chk(argc, argv, "C31"); bool T = chk.thorough(); static const std::vector<Prog> P = programs();
	chk.rule("every program of a list x every subset of options in short and long form, every instruction limit around the length of a program, every list of up to two guest arguments over difficult texts, every memory size x access, every kind of bad file: status, output and reports of the real main() in a process of its own");
	chk.assume("a limit may be passed by the rest of a block"); chk.assume("the emulator is built without binary translation, where the translation options change nothing");
	chk.section("options", [&](Ctx& c) { auto& p = c.pick(P, "program"); Emu e(c); auto im = image(p.code); string f = writefile(e.dir, "p", im.data(), im.size());
		static const std::vector<std::vector<string>> S{ { "-s", "--silent" }, { "-t", "--timing" }, { "--precise" }, { "--stats", "--sta" }, { "-v", "--verbose" }, { "-n", "--no-translate" } }; int n = T ? 64 : 32; for (int m = 0; m < n; m++) { bool sil = m & 1, tim = m & 2, sta = m & 8, ver = m & 16; for (int form = 0; form < 2; form++) { std::vector<string> a{ "laemu" }; for (int i = 0; i < 6; i++) if (m >> i & 1) a.push_back(S[i][form % S[i].size()]); if (form && m % 3 == 0) std::reverse(a.begin() + 1, a.end()); if (form && (m & 3) == 3) { a = { "laemu", "-ts" }; for (int i = 2; i < 6; i++) if (m >> i & 1) a.push_back(S[i][0]); } a.push_back(f); auto o = e.run(a); if (!e.check(p, o, { f }, 0, sil, tim, sta, ver)) return; } } c.state(hash_bytes(p.name.data(), p.name.size())); if (c.want_sample()) c.sample(p.name); }, { .split_depth = 1, .timeout_s = 200 });
	chk.section("limits", [&](Ctx& c) { auto& p = c.pick(P, "program"); if (p.args) c.prune(); Emu e(c); auto im = image(p.code); string f = writefile(e.dir, "p", im.data(), im.size()); std::vector<u64> fs{ 1, 2, p.count - 1, p.count, p.count + 1, 1000000, ~0ull, 1ull << 32 }; for (u64 i = 3; i < p.count && i < (T ? 300 : 12); i++) fs.push_back(i);
		for (u64 fuel : fs) for (int mode = 0; mode < 4; mode++) { std::vector<string> a{ "laemu" }; string n = fuel == ~0ull && mode ? (mode == 1 ? "max" : "MAX") : fmt("%lu", fuel); if (mode & 1) a.push_back("--fuel=" + n); else { a.push_back("-f"); a.push_back(n); } if (mode & 2) a.push_back("--precise"); if (mode == 3) a.push_back("-s"); a.push_back(f); auto o = e.run(a); if (!e.check(p, o, { f }, fuel, mode == 3, false, false, false)) return; if (fuel < p.count && mode >= 2 && !o.sig) { bool t = o.status == 255 && (mode == 3 || o.err.find(fmt("Execution timeout after %lu instructions", fuel)) != string::npos); if (!t) { e.bad("fuel", o, "precise execution did not stop at its limit"); return; } } } c.state(hash_bytes(p.name.data(), p.name.size())); }, { .split_depth = 1, .timeout_s = 200 });
	chk.section("arguments", [&](Ctx& c) { // what follows the program's name belongs to the program
		static const std::vector<string> A{ "", "a", "-v", "-s", "--help", "-h", "--", "-", "-f", "5", "--fuel=3", "--precise", "-m1", "--unknown", "-X", "two words", "\xc3\xa9\n", string(5000, 'x') }; auto& p = P[0].args ? P[0] : *std::find_if(P.begin(), P.end(), [](auto& x) { return x.args; }); int n = c.choose(3, "count"); std::vector<string> g; for (int i = 0; i < n; i++) g.push_back(c.pick(A, "argument")); Emu e(c); auto im = image(p.code); string f = writefile(e.dir, "p", im.data(), im.size()); for (int m = 0; m < 4; m++) { std::vector<string> a{ "laemu" }; if (m & 1) a.push_back("-s"); if (m & 2) a.push_back("--"); a.push_back(f); std::vector<string> want{ f }; for (auto& x : g) { a.push_back(x); want.push_back(x); } auto o = e.run(a); if (!e.check(p, o, want, 0, m & 1, false, false, false)) return; } c.state(n); }, { .split_depth = 2, .timeout_s = 200 });
	chk.section("memory", [&](Ctx& c) { // the guest has the memory it was given
		static const std::vector<u64> M{ 16, 17, 64, 512, 1024, 4095, 4096 }; u64 mb = c.pick(M, "MiB"), end = mb << 20; Emu e(c); for (u64 a : std::initializer_list<u64>{ end - 8, end - 4096, end + 64, end + 4096, end * 2, 0x30000ull, DATA, 0x1000ull, 0ull, TEXT }) { Prog p; li(p.code, 23, a & 0xffffffff); p.code.push_back(0x16000000u | (u32)(a >> 32 & 0xfffff) << 5 | 23); p.code.insert(p.code.end(), { 0x03801c0c, 0x29c002ec, 0x28c002e4, 0x0381780b, 0x002b0000 }); p.name = fmt("store at %#lx", a); p.code_ = 7; p.count = 8; p.fault = a >= TEXT + 64 && a + 8 <= end ? 0 : 1; auto im = image(p.code); string f = writefile(e.dir, "p", im.data(), im.size()); for (int m = 0; m < 3; m++) { std::vector<string> v{ "laemu" }; if (m) { v.push_back("-m"); v.push_back(fmt("%lu", mb)); } else v.push_back(fmt("--memory=%lu", mb)); if (m == 2) v.push_back("--precise"); v.push_back(f); auto o = e.run(v); e.who += ", " + p.name; if (!e.check(p, o, { f }, 0, false, false, false, false)) return; } } c.state(mb); }, { .split_depth = 1, .timeout_s = 200 });
	chk.section("sizes", [&](Ctx& c) { // a size that cannot be had is refused
		static const std::vector<string> M{ "0", "1", "2", "3", "4", "8", "1048576", "16777216", "134217727", "134217728", "17592186044415", "17592186044416", "17592186044417", "18446744073709551615", "99999999999999999999", "-1", "abc", "" }; auto& s = c.pick(M, "size"); auto& p = c.pick(P, "program"); Emu e(c); auto im = image(p.code); string f = writefile(e.dir, "p", im.data(), im.size()); auto o = e.run({ "laemu", "-m", s, f }); if (o.sig) { e.bad("crash", o, "the emulator died"); return; } bool ran = o.err.empty() || o.out.size(); if (ran) { e.check(p, o, { f }, 0, false, false, false, false); } else if (o.status == 0 || o.err.empty()) { e.bad("refusal", o, "refused without an error"); return; } c.state(hash_bytes(s.data(), s.size())); }, { .split_depth = 1, .timeout_s = 200 });
	chk.section("files", [&](Ctx& c) { // whatever is not a program is refused
		Emu e(c); auto im = image(P[12].code); string f = writefile(e.dir, "p", im.data(), im.size()); auto refused = [&](const Out& o, const char* what) { if (o.sig) return e.bad("crash", o, what); if (!o.status) return e.bad("refusal", o, string(what) + ", but the status is success"); if (o.err.empty()) return e.bad("refusal", o, string(what) + " without an error"); if (o.out.find("exited") != string::npos) return e.bad("refusal", o, string(what) + ": ran"); c.nontrivial(); return true; }; int k = c.choose(5, "kind");
		if (k == 0) { if (!refused(e.run({ "laemu", e.dir + "/missing" }), "a missing file")) return; if (!refused(e.run({ "laemu", e.dir }), "a directory")) return; if (!refused(e.run({ "laemu" }), "no file")) return; if (!refused(e.run({ "laemu", "-s", "--" }), "no file")) return; if (!refused(e.run({ "laemu", "--nonsense", f }), "an unknown option")) return; if (!refused(e.run({ "laemu", "-Q", f }), "an unknown option")) return; if (!refused(e.run({ "laemu", f + "/x" }), "a file below a file")) return; for (const char* h : { "-h", "--help", "--he" }) { auto o = e.run({ "laemu", h, f }); if (o.sig || o.status || o.out.find("Usage:") == string::npos || o.out.find("exited") != string::npos) { e.bad("help", o, "help"); return; } } }
		else if (k == 1) { for (size_t n = 0; n < im.size(); n += n < 200 ? 1 : 97) { string q = writefile(e.dir, "q", im.data(), n); auto o = e.run({ "laemu", q }); if (o.sig) { e.bad("crash", o, fmt("the first %zu bytes", n)); return; } if (n < 64 + 112 && !refused(o, "a cut program")) return; if (!o.status) { e.bad("refusal", o, "a cut program"); return; } } }
		else if (k == 2) { for (int i = 0; i < 20; i++) for (int v = 0; v < 256; v += i == 4 || i == 16 || i == 18 ? 1 : 15) { auto x = im; if (x[i] == v) continue; x[i] = v; string q = writefile(e.dir, "q", x.data(), x.size()); auto o = e.run({ "laemu", q }); if (o.sig) { e.bad("crash", o, fmt("byte %d is %d", i, v)); return; } bool must = i < 5 || i == 18 || i == 19; if (must) { if (!refused(o, fmt("byte %d is %d", i, v).c_str())) return; } else if (o.status == 0) { e.bad("status", o, fmt("byte %d is %d", i, v)); return; } } }
		else if (k == 3) { std::vector<uint8_t> z(100000, 0); for (int fill : { 0, 0x7f, 0xff, 0x23 }) { std::fill(z.begin(), z.end(), fill); string q = writefile(e.dir, "q", z.data(), z.size()); if (!refused(e.run({ "laemu", q }), "not a program")) return; } const char* sh = "#!/bin/sh\nexit 0\n"; string q = writefile(e.dir, "q", sh, strlen(sh)); if (!refused(e.run({ "laemu", q }), "a script")) return; }
		else { for (const char* x : { "-f", "-m", "--fuel", "--memory", "-O" }) if (!refused(e.run({ "laemu", x }), "an option without its value")) return; }
		c.state(k); }, { .split_depth = 1, .timeout_s = 200 });
	return chk.finish();
}
