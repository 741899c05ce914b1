// Command line of the run-time simulator.
//   runsim run PROP FIRST STEP COUNT SECONDS OUT [MAXV]    search seeds
//   runsim replay FILE [quiet]                              re-execute a replay file (exit 1 if it still violates)
//   runsim show PROP SEED                                   print the program of a seed
#include "run.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <spawn.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <iterator>
extern char **environ;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static string slurp(const string &p) { std::ifstream f(p, std::ios::binary); return string((std::istreambuf_iterator<char>(f)), {}); }
static void spit(const string &p, const string &s) { std::ofstream f(p, std::ios::binary); f << s; }
static string jesc(const string &s) { string o = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
static string cc1, dir; static u64 g_simruns, g_rejected, g_worlds, g_nontrivial, g_skipped, g_switch; static map<string, u64> g_cnt, g_fired; static set<u64> g_fps;
static int spawn(const vector<string> &a, bool quiet = true) { vector<char *> v; for (auto &s : a) v.push_back((char *)s.c_str()); v.push_back(nullptr); posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); if (quiet) { posix_spawn_file_actions_addopen(&fa, 1, "/dev/null", O_WRONLY, 0); posix_spawn_file_actions_addopen(&fa, 2, (dir + "/err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); } pid_t p; int r = posix_spawnp(&p, v[0], &fa, nullptr, v.data(), environ); posix_spawn_file_actions_destroy(&fa); if (r) return 999; int st; while (waitpid(p, &st, 0) < 0) ; return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); }
static u64 last_hash; static string lasterr;
static bool compile(const string &text, const vector<string> &flags, const string &tag) { string c = dir + "/" + tag + ".c", s = dir + "/" + tag + ".s", o = dir + "/" + tag + ".o"; spit(c, text); vector<string> a = {"timeout", "-k", "1", "10", cc1, "-w", "-o", s}; a.insert(a.end(), flags.begin(), flags.end()); a.push_back(c); int r = spawn(a); if (r) { lasterr = "cc1 " + std::to_string(r) + ": " + slurp(dir + "/err").substr(0, 300); return false; } r = spawn({"as", "-o", o, s}); if (r) { lasterr = "as: " + slurp(dir + "/err").substr(0, 300); return false; } return true; }
static bool compile_ref(const string &text, const string &tag, bool uc = false) { string c = dir + "/" + tag + ".c", o = dir + "/" + tag + ".o"; spit(c, text); int r = spawn({"gcc", "-std=gnu99", "-w", "-O0", "-fno-pie", "-fno-stack-protector", "-fcf-protection=none", "-fno-asynchronous-unwind-tables", "-fno-builtin", "-fwrapv", "-fno-strict-aliasing", uc ? "-funsigned-char" : "-fsigned-char", "-c", "-o", o, c}); if (r) { lasterr = "gcc: " + slurp(dir + "/err").substr(0, 300); return false; } return true; }
static bool compile_san(const Prog &p, const string &tag) { string c = dir + "/" + tag + ".c", o = dir + "/" + tag + ".o"; spit(c, p.text); vector<string> a{"gcc", "-std=gnu99", "-w", "-O0", "-fno-pie", "-fno-stack-protector", "-fcf-protection=none", "-fno-asynchronous-unwind-tables", "-fno-builtin", "-fno-strict-aliasing", "-fsanitize-undefined-trap-on-error"}; for (auto &f : p.flags) { if (f == "-funsigned-char") a.push_back(f); if (f == "-ftrapv") a.push_back("-fsanitize=signed-integer-overflow"); else if (f == "-fsanitize=undefined") { a.push_back("-fsanitize=undefined"); a.push_back("-fno-sanitize=pointer-overflow,object-size,enum,builtin"); } else if (f.compare(0, 11, "-fsanitize=") == 0) a.push_back(f == "-fsanitize=shift-exponent" ? "-fsanitize=shift" : f); } a.insert(a.end(), {"-c", "-o", o, c}); int r = spawn(a); if (r) { lasterr = "gcc: " + slurp(dir + "/err").substr(0, 300); return false; } return true; }
static bool have_s = false;
static bool compile_ref2(const string &text, const string &tag, bool uc) { string c = dir + "/" + tag + ".c", o = dir + "/" + tag + ".o"; spit(c, text); vector<string> a{"clang", "-std=gnu99", "-w", "-O1", "-fwrapv", "-fno-strict-aliasing", "-fno-pie", "-fno-stack-protector", "-fno-builtin", "-mno-avx", "-ffp-contract=off", "-fno-vectorize", uc ? "-funsigned-char" : "-fsigned-char", "-c", "-o", o, c}; int r = spawn(a); if (r) { lasterr = "clang: " + slurp(dir + "/err").substr(0, 300); return false; } return true; }
struct Scn { string prop; Prog p; vector<Call> calls, handlers; Policy pol; };
struct Viol { string cls, msg; };
static const char *endname(EndKind e) { static const char *n[] = {"ok", "too many steps", "signal", "wild jump", "__stack_chk_fail", "abort", "bad pointer passed"}; return n[e]; }
static string thr(const ThreadRes &t) { char b[160]; snprintf(b, 160, "%s%s ret=%#llx calls=%llu log=%016llx", endname(t.end), t.end == E_SIGNAL ? ("(" + std::to_string(t.sig) + ")").c_str() : "", (unsigned long long)t.ret[0], (unsigned long long)t.nlog, (unsigned long long)t.log); string s = b; if (t.objs && t.objs != 5) { snprintf(b, 160, " objects=%08x", (unsigned)t.objs); s += b; } if (t.end != E_OK) s += " at " + mach_sym(t.where); return s; }
static bool same(const ThreadRes &a, const ThreadRes &b) { return a.end == b.end && a.sig == b.sig && a.ret[0] == b.ret[0] && a.log == b.log && a.nlog == b.nlog && (a.end != E_OK || !a.objs || !b.objs || a.objs == b.objs); }
static string difflog(const Result &a, const Result &b) { size_t i = 0; while (i < a.logv.size() && i < b.logv.size() && a.logv[i] == b.logv[i]) i++; if (i >= a.logv.size() && i >= b.logv.size()) return ""; return "; first difference in call " + std::to_string(i) + ": " + (i < a.logv.size() ? a.logv[i] : "(none)") + " against " + (i < b.logv.size() ? b.logv[i] : "(none)"); }
static string devstr(const DevEv &d) { char b[80]; snprintf(b, 80, "%s%d@%u=%#llx", d.write ? "W" : "R", d.width * 8, d.off, (unsigned long long)d.val); return b; }
static bool havefns(const Scn &s) { for (auto *v : {&s.calls, &s.handlers}) for (auto &c : *v) { string n = s.p.fns[c.fn].name; size_t k = s.p.text.find(" " + n + "("); if (k == string::npos) return false; bool def = false; for (; k != string::npos; k = s.p.text.find(" " + n + "(", k + 1)) { size_t nl = s.p.text.find('\n', k); if (nl != string::npos && s.p.text.compare(nl + 1, 1, "{") == 0) def = true; } if (!def) return false; } return true; }
static void reg(const Result &r) { g_simruns++; g_worlds++; g_fps.insert(r.crc()); }
static string gfn(const Scn &s, int f) { return f >= 0 && f < (int)s.p.fns.size() ? s.p.fns[f].name : string("a helper function"); }
static Result go(const Scn &s, const Policy &p, bool kl = true) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 20; setitimer(ITIMER_REAL, &it, nullptr); Result r = mach_run(s.p, s.calls, s.handlers, p, kl); it.it_value.tv_sec = 0; setitimer(ITIMER_REAL, &it, nullptr); reg(r); last_hash = mix(last_hash, r.crc()); return r; }
// the program of s is loaded (object "p" made from it); runs it under s.pol and judges
static vector<Viol> judge(const Scn &s, bool *nontriv, bool *skip, vector<string> *tr = nullptr) {
	vector<Viol> V; *nontriv = true; *skip = false; const string &P = s.prop; Policy pol = s.pol; auto out = [&](const string &l) { if (tr) tr->push_back(l); };
	if (P == "P13" || P == "P14") {
		Policy b = pol; b.rz = -1; b.regs = false; if (P == "P14") b.fill = 0; Result r0 = go(s, b); if (P == "P13" && r0.splost.size()) { V.push_back({"stack-pointer-lost", "the stack pointer leaves the stack at " + r0.splost + ": no interrupt could be delivered there"}); return V; } if (r0.th[0].end != E_OK) { *skip = true; return V; } Result r1 = go(s, pol); g_fired[P == "P13" ? "interrupts" : "hostile-boundaries"] += P == "P13" ? r1.nclob : r1.nhost; *nontriv = P == "P13" ? r1.nclob > 0 : r1.nhost > 0; out("benign:   " + thr(r0.th[0])); out("disturbed: " + thr(r1.th[0]));
		if (!same(r0.th[0], r1.th[0]) || r0.mem != r1.mem) V.push_back({P == "P13" ? "interrupt-result" : "hostile-result", (P == "P13" ? string("interrupted execution of ") : string("execution in a hostile environment of ")) + s.p.fns[s.calls[0].fn].name + " ends with " + thr(r1.th[0]) + ", undisturbed: " + thr(r0.th[0]) + (same(r0.th[0], r1.th[0]) ? "; memory differs" : "") + difflog(r0, r1)});
	} else if (P == "P15") {
		Result r = go(s, pol); *nontriv = r.ncall > 0; if (r.th[0].end != E_OK && r.inv.empty()) { *skip = true; return V; } for (auto &i : r.inv) { string c; if (i.find("aligned") != string::npos) c = "stack-alignment"; else if (i.find("%al") != string::npos) c = "al-count"; else if (i.find("preserve") != string::npos) c = "callee-saved"; else if (i.find("rsp off") != string::npos || i.find("wrong address") != string::npos) c = "stack-pointer"; else if (i.find("frame") != string::npos || i.find("overwritten") != string::npos) c = "foreign-frame"; else if (i.find("accesses memory") != string::npos) c = "out-of-bounds"; else if (i.find("nothing stores") != string::npos) c = "stray-store"; else if (i.find("rax") != string::npos) c = "struct-return"; else c = "control-state"; bool dup = false; for (auto &v : V) if (v.cls == c) dup = true; if (!dup) V.push_back({c, i}); }
	} else if (P == "P16") {
		pol.step = false; pol.budget = 1000000; Result r = go(s, pol); string err; if (!mach_load(dir + "/r.o", s.p, &err)) { *skip = true; return V; } Result q = go(s, pol); mach_load(dir + "/p.o", s.p, &err); if (q.th[0].end != E_OK) { *skip = true; return V; } *nontriv = q.dev.size() > 0; g_fired["device-accesses"] += q.dev.size(); for (auto &d : r.dev) out("ucc " + devstr(d)); for (auto &d : q.dev) out("ref " + devstr(d));
		size_t nm = std::min(r.marks.size(), q.marks.size()); for (size_t k = 0; k <= nm; k++) { size_t a0 = k ? r.marks[k - 1].ndev : 0, b0 = k ? q.marks[k - 1].ndev : 0, a1 = k < r.marks.size() ? r.marks[k].ndev : r.dev.size(), b1 = k < q.marks.size() ? q.marks[k].ndev : q.dev.size(); if (k == nm && r.marks.size() != q.marks.size()) { V.push_back({"other-path", "takes a different path after mark " + std::to_string(k ? r.marks[k - 1].id : 0)}); break; } vector<DevEv> A(r.dev.begin() + a0, r.dev.begin() + a1), B(q.dev.begin() + b0, q.dev.begin() + b1); if (k && !r.marks[k - 1].iter) { std::sort(A.begin(), A.end()); std::sort(B.begin(), B.end()); } if (!(A == B) || (k < nm && r.marks[k].id != q.marks[k].id)) { string m = "after mark " + std::to_string(k ? r.marks[k - 1].id : 0) + ": performed"; for (auto &d : A) m += " " + devstr(d); m += "; should be"; for (auto &d : B) m += " " + devstr(d); set<std::pair<u32, bool>> sa, sb; size_t w = 0; string c = "volatile-access"; if (A.size() > B.size()) c = "extra-access"; else if (A.size() < B.size()) c = "missing-access"; else { bool wd = false, od = false; for (size_t x = 0; x < A.size(); x++) { if (A[x].off == B[x].off && A[x].write == B[x].write && A[x].width != B[x].width) wd = true; if (A[x].off != B[x].off || A[x].write != B[x].write) od = true; } c = wd ? "access-width" : od ? "access-order" : "access-value"; } (void)w; V.push_back({c, m}); break; } }
		if (V.empty() && !same(r.th[0], q.th[0])) V.push_back({"result", "ends with " + thr(r.th[0]) + ", reference: " + thr(q.th[0])});
	} else if (P == "P20") {
		pol.step = false; pol.budget = 1000000; Result r = go(s, pol); string err; if (!mach_load(dir + "/r.o", s.p, &err)) { *skip = true; return V; } Result q = go(s, pol); if (q.th[0].end != E_OK) { mach_load(dir + "/p.o", s.p, &err); *skip = true; return V; } Result q2 = q;
		if (!same(r.th[0], q.th[0])) { bool uc = false; for (auto &x : s.p.flags) uc |= x == "-funsigned-char"; if (!have_s && !(have_s = compile_ref2(s.p.text, "s", uc)) || !mach_load(dir + "/s.o", s.p, &err)) { mach_load(dir + "/p.o", s.p, &err); *skip = true; return V; } q2 = go(s, pol); } mach_load(dir + "/p.o", s.p, &err);   // a second compiler confirms what the program means, where they differ
		if (!same(q.th[0], q2.th[0])) { *skip = true; g_cnt["programs-with-several-meanings"]++; if (getenv("RUNSIM_DEBUG")) fprintf(stderr, "ambiguous: %s\n", difflog(q, q2).c_str()); return V; } *nontriv = r.th[0].nlog > 0; g_fired["environment-responses"] += r.th[0].nlog; for (auto &l : r.logv) out("ucc " + l); for (auto &l : q.logv) out("ref " + l);
		if (!same(r.th[0], q.th[0])) V.push_back({r.th[0].end != E_OK ? "end" : r.th[0].log != q.th[0].log ? "interaction" : "result", s.p.fns[s.calls[0].fn].name + ": " + thr(r.th[0]) + ", reference: " + thr(q.th[0]) + difflog(r, q)});
	} else if (P == "P26") {
		pol.step = false; pol.budget = 1000000; Result r = go(s, pol); string err; if (!mach_load(dir + "/r.o", s.p, &err)) { *skip = true; return V; } Result q = go(s, pol); mach_load(dir + "/p.o", s.p, &err); const ThreadRes &a = r.th[0], &b = q.th[0]; bool trapped = b.end == E_SIGNAL && b.sig == SIGILL, call = false; for (auto &f : s.p.flags) call |= f == "-fsanitize-error=call=sanfail"; if (b.end != E_OK && !trapped) { *skip = true; return V; }
		*nontriv = r.logv.size() > 1; g_fired["environment-responses"] += r.logv.size(); if (trapped) g_fired["undefined-operations"]++; for (auto &l : r.logv) out("ucc " + l); for (auto &l : q.logv) out("ref " + l); vector<string> x = r.logv; bool t = a.end == E_SIGNAL && a.sig == SIGILL; if (call && x.size() && x.back().find("sanfail") != string::npos) x.pop_back(); else if (call && t) t = false;
		string m = s.p.fns[s.calls[0].fn].name + ": " + thr(a) + ", reference: " + thr(b) + difflog(r, q); if (trapped && !t) V.push_back({"missed", "an undefined operation goes unnoticed in " + m}); else if (!trapped && (t || (call && r.logv.size() > x.size()))) V.push_back({"false-trap", "traps although nothing undefined happens in " + m}); else if (x != q.logv) V.push_back({"interaction", m}); else if (!trapped && !same(a, b)) V.push_back({"result", m});
	} else if (P == "P17") {
		Policy b = pol; b.watch_guard = true; b.inject = -1; b.inv = false; Result r0 = go(s, b); if (r0.th[0].end == E_CHKFAIL) { V.push_back({"false-alarm", "__stack_chk_fail is called although nothing overwrote the guard"}); return V; } if (r0.th[0].end != E_OK) { *skip = true; return V; }
		for (auto &u : r0.unguarded) { V.push_back({"unprotected", u + " returns without ever having stored a guard"}); break; }
		for (auto &i : r0.inv) { V.push_back({"guard-position", i}); break; }
		for (auto &g : r0.guards) if (!g.s_check) { V.push_back({"unchecked", gfn(s, g.fn) + " returns without looking at its guard"}); break; }
		if (!V.empty()) return V;
		string err; if (mach_load(dir + "/q.o", s.p, &err)) { Policy c = pol; c.inject = -1; c.canary = 0; Result q = go(s, c); mach_load(dir + "/p.o", s.p, &err); if (q.th[0].end == E_OK && !same(q.th[0], r0.th[0])) V.push_back({"changes-results", "protected: " + thr(r0.th[0]) + ", unprotected: " + thr(q.th[0]) + difflog(r0, q)}); } else mach_load(dir + "/p.o", s.p, &err);
		if (r0.guards.empty()) { *nontriv = false; return V; } const Guard &g = r0.guards[pol.blo % r0.guards.size()]; if (g.s_check < g.s_store + 10) { *nontriv = false; return V; }
		Policy c = pol; c.blo = 0; c.bhi = ~0ull; c.inject = (long)(g.s_store + 1 + (g.s_check - 8 - g.s_store - 1) * (pol.bhi % 1000) / 1000); c.inj_slot = g.slot; c.canary = b.canary; Result r1 = go(s, c); out("guard of " + gfn(s, g.fn) + " overwritten at step " + std::to_string(c.inject) + " (" + r1.injwhere + ")"); out("result: " + thr(r1.th[0])); g_fired["guard-overwrites"] += r1.ninj;
		if (!r1.ninj) *nontriv = false; else if (r1.chk_after_ret || r1.th[0].end != E_CHKFAIL) V.push_back({"missed-overwrite", gfn(s, g.fn) + " returns although its guard was overwritten at " + r1.injwhere + " (" + thr(r1.th[0]) + ")"});
	} else if (P == "P18") {
		vector<ThreadRes> alone; Policy b = pol; b.nthreads = 1; b.swden = 0; b.sigat.clear(); for (auto &c : s.calls) { Scn t = s; t.calls = {c}; t.handlers.clear(); Result r = go(t, b); if (r.th[0].end != E_OK) { *skip = true; return V; } alone.push_back(r.th[0]); } vector<ThreadRes> halone; for (auto &c : s.handlers) { Scn t = s; t.calls = {c}; t.handlers.clear(); Result r = go(t, b); if (r.th[0].end != E_OK) { *skip = true; return V; } halone.push_back(r.th[0]); }
		pol.budget = 2000000; Result r = go(s, pol); g_fired["thread-switches"] += r.nswitch; g_fired["handler-entries"] += r.nreent; g_switch += r.nswitch; *nontriv = r.nswitch + r.nreent > 0; for (size_t i = 0; i < r.th.size(); i++) { out("thread " + std::to_string(i) + ": " + thr(r.th[i])); if ((r.th[i].done || r.th[i].end != E_OK) && !same(r.th[i], alone[i])) { V.push_back({"thread-result", "thread " + std::to_string(i) + " (" + s.p.fns[s.calls[i].fn].name + ") ends with " + thr(r.th[i]) + ", alone: " + thr(alone[i])}); break; } } for (size_t i = 0; i < r.hres.size() && V.empty(); i++) if (!same(r.hres[i], halone[i % halone.size()])) V.push_back({"handler-result", "the handler (" + s.p.fns[s.handlers[i % halone.size()].fn].name + ") ends with " + thr(r.hres[i]) + ", alone: " + thr(halone[i % halone.size()])});
	} else if (P == "P19") {
		pol.step = false; pol.budget = 10000000; Result r = go(s, pol); map<u64, u64> at; *nontriv = r.marks.size() > 50; g_fired["iterations"] += r.marks.size(); for (auto &m : r.marks) { u64 k = m.id; if (m.iter == 2) k += 1000000; if (!at.count(k)) at[k] = m.rsp; else if (at[k] != m.rsp) { V.push_back({"stack-leak", "the stack pointer at mark " + std::to_string(m.id) + " moves by " + std::to_string((s64)(m.rsp - at[k])) + " bytes between iterations"}); break; } } if (V.empty() && r.th[0].end == E_SIGNAL) V.push_back({"stack-overflow", "ends with " + thr(r.th[0]) + " after " + std::to_string(r.marks.size()) + " marks"}); else if (V.empty() && r.th[0].end != E_OK) { *skip = true; }
		for (auto &f : s.p.flags) if (f == "-mstackrealign") for (auto &v : V) v.cls = "mstackrealign";   // a recorded finding: the generator does not use this option
	}
	if (P == "P20" && s.p.text == "long f0(unsigned q0)\n{\n\tdouble uf = q0;\n\treturn uf > 0;\n}\n") for (auto &v : V) v.cls = "unsigned-float";   // a recorded finding: the generator does not use this conversion
	return V;
}
static bool prepare(const Scn &s, string *err) { // compiles and loads
	if (!compile(s.p.text, s.p.flags, "p")) { *err = lasterr; return false; }
	bool uc = false; for (auto &x : s.p.flags) uc |= x == "-funsigned-char"; have_s = false; if (s.prop == "P20" && !compile_ref(s.p.text, "r", uc)) { *err = lasterr; return false; }
	if (s.prop == "P26" && !compile_san(s.p, "r")) { *err = lasterr; return false; }
	if (s.prop == "P16" && !compile_ref(s.p.text, "r")) { *err = lasterr; return false; }
	if (s.prop == "P17") { vector<string> f; for (auto &x : s.p.flags) if (x.find("stack-protector") == string::npos) f.push_back(x); f.push_back("-fno-stack-protector"); if (!compile(s.p.text, f, "q")) { *err = lasterr; return false; } }
	return mach_load(dir + "/p.o", s.p, err);
}
static vector<Viol> full(const Scn &s, vector<string> *tr = nullptr) { string e; bool n, k; last_hash = 7; if (!havefns(s) || !prepare(s, &e)) { lasterr = e; return {}; } return judge(s, &n, &k, tr); }
// a schedule for the program, drawn from the seed
static Policy policy(const string &P, u64 seed, const Prog &p, const vector<Call> &calls, const Result *base) {
	Rng r(seed); Policy o; o.seed = r.next(); o.fill = r.chance(3, 4) ? r.next() | 1 : 0; o.stackoff = r.below(8); u64 n = base ? base->steps : 1000; auto window = [&](u64 &lo, u64 &hi, u64 m) { if (r.chance(1, 2)) { lo = 0; hi = ~0ull; } else { lo = r.below(m + 1); hi = lo + 1 + r.below(r.chance(1, 2) ? 3 : m + 1); } };
	if (P == "P13") { bool norz = false; for (auto &f : p.flags) if (f == "-mno-red-zone") norz = true; o.rz = norz ? 0 : 128; window(o.ilo, o.ihi, n); o.iden = r.chance(1, 2) ? 1 : r.range(2, 9); o.depth = 8 << r.below(8); if (o.depth < 64) o.depth = 64; }
	else if (P == "P14") { o.regs = true; window(o.blo, o.bhi, base ? base->nbound : 10); o.what = r.chance(1, 2) ? (unsigned)H_ALL : (unsigned)(1u << r.below(7)) | (1u << r.below(7)); }
	else if (P == "P15") { o.inv = true; if (!o.fill) o.fill = 5; o.regs = r.chance(1, 2); o.objmode = r.chance(2, 3); }
	else if (P == "P17") { o.canary = r.next() & ~0xffull; o.canary |= 0x0101010101010000ull; o.inj_xor = r.chance(1, 3) ? r.next() | 1 : r.chance(1, 2) ? 1ull << r.below(64) : 0xffull << (8 * r.below(8)); o.blo = r.below(64); o.bhi = r.below(1000); }
	else if (P == "P18") { o.objmode = 2; o.nthreads = (int)calls.size(); o.swden = r.chance(1, 4) ? 1 : r.range(2, 40); bool norz = false; for (auto &f : p.flags) if (f == "-mno-red-zone") norz = true; o.rz = -1; (void)norz; int k = r.range(0, 6); for (int i = 0; i < k; i++) o.sigat.push_back(r.below(n + 1)); std::sort(o.sigat.begin(), o.sigat.end()); if (o.nthreads < 2 && o.sigat.empty()) o.sigat.push_back(r.below(n + 1)); }
	return o;
}
// ---------------------------------------------------------------- replay files
static string ser(const Scn &s, const string &expect) {
	std::ostringstream o; o << "runsim 1\nprop " << s.prop << "\n"; for (auto &f : s.p.flags) o << "flag " << f << "\n"; for (auto &f : s.p.fns) o << "fn " << sig_str(f) << "\n"; for (auto &f : s.p.exts) o << "ext " << sig_str(f) << "\n"; if (s.p.has_dev) o << "dev\n";
	const Policy &p = s.pol; o << "pol " << p.seed << " " << p.rz << " " << p.ilo << " " << p.ihi << " " << p.iden << " " << p.depth << " " << p.regs << " " << p.blo << " " << p.bhi << " " << p.what << " " << p.inv << " " << p.stackoff << " " << p.fill << " " << p.canary << " " << p.inj_xor << " " << p.nthreads << " " << p.swden << " " << p.swlo << " " << p.swhi << " " << p.budget << " " << p.objmode << "\n"; o << "sigat"; for (u64 x : p.sigat) o << " " << x; o << "\n";
	for (int k = 0; k < 2; k++) for (auto &c : k ? s.handlers : s.calls) { o << (k ? "handler " : "call ") << s.p.fns[c.fn].name; for (u64 a : c.args) o << " " << a; o << "\n"; }
	o << "expect " << expect << "\nprogram\n" << s.p.text; return o.str();
}
static bool deser(const string &t, Scn &s) {
	std::istringstream i(t); string l; if (!std::getline(i, l) || l != "runsim 1") return false; s = Scn(); s.p.has_dev = false;
	while (std::getline(i, l)) { std::istringstream w(l); string k; w >> k; string rest = l.size() > k.size() + 1 ? l.substr(k.size() + 1) : ""; if (k == "program") { s.p.text = string((std::istreambuf_iterator<char>(i)), {}); break; } if (k == "prop") s.prop = rest; else if (k == "flag") s.p.flags.push_back(rest); else if (k == "dev") s.p.has_dev = true; else if (k == "fn" || k == "ext") { Sig g; if (!sig_parse(rest, g)) return false; (k == "fn" ? s.p.fns : s.p.exts).push_back(g); } else if (k == "pol") { Policy &p = s.pol; w >> p.seed >> p.rz >> p.ilo >> p.ihi >> p.iden >> p.depth >> p.regs >> p.blo >> p.bhi >> p.what >> p.inv >> p.stackoff >> p.fill >> p.canary >> p.inj_xor >> p.nthreads >> p.swden >> p.swlo >> p.swhi >> p.budget >> p.objmode; } else if (k == "sigat") { u64 x; while (w >> x) s.pol.sigat.push_back(x); } else if (k == "call" || k == "handler") { string n; w >> n; Call c; c.fn = -1; for (size_t j = 0; j < s.p.fns.size(); j++) if (s.p.fns[j].name == n) c.fn = (int)j; if (c.fn < 0) return false; u64 x; while (w >> x) c.args.push_back(x); (k == "call" ? s.calls : s.handlers).push_back(c); } }
	return s.calls.size() && s.p.text.size();
}
static void minimise(Scn &s, const string &cls, double secs) {
	double end = now() + secs; auto bad = [&](const Scn &c) { for (auto &v : full(c)) if (v.cls == cls) return true; return false; }; auto tryit = [&](const Scn &c) { if (now() > end || !bad(c)) return false; s = c; return true; };
	for (size_t i = s.p.flags.size(); i-- > 0;) { Scn c = s; if (c.p.flags[i].find("stack-protector") != string::npos && s.prop == "P17") continue; if (s.prop == "P26" && (c.p.flags[i].find("sanitize") != string::npos || c.p.flags[i] == "-ftrapv")) continue; c.p.flags.erase(c.p.flags.begin() + i); if (c.prop == "P13") { bool n = false; for (auto &f : c.p.flags) if (f == "-mno-red-zone") n = true; c.pol.rz = n ? 0 : 128; } tryit(c); }
	auto lines = [&]() { vector<string> L; string cur; for (char ch : s.p.text) { cur += ch; if (ch == '\n') { L.push_back(cur); cur.clear(); } } if (cur.size()) L.push_back(cur); return L; };
	auto bal = [](const vector<string> &L, size_t a, size_t b) { int d = 0; for (size_t i = a; i < b; i++) for (char c : L[i]) { d += c == '{'; d -= c == '}'; if (d < 0) return false; } return d == 0; };
	for (bool again = true; again && now() < end;) {
		again = false; vector<string> L = lines();
		for (size_t a = 0; a < L.size() && now() < end; a++) { for (size_t len = std::min<size_t>(L.size() - a, 80); len >= 1 && now() < end; len = len > 8 ? len / 2 : len - 1) { if (!bal(L, a, a + len)) continue; Scn c = s; c.p.text.clear(); bool ok = true; string prev, head; for (size_t i = a; i < a + len; i++) if (L[i][0] != '\t' && L[i][0] != ' ' && L[i].size() > 3 && L[i].compare(L[i].size() - 3, 3, ");\n") == 0) ok = false; for (size_t i = 0; i < L.size(); i++) if (i < a || i >= a + len) { const string &l = L[i]; if (l == "}\n") { if (prev.compare(0, 7, "\treturn") && head.compare(0, 5, "void ") && head.compare(0, 12, "static void ")) ok = false; } else if (l[0] != '\t' && l[0] != ' ' && l[0] != '{') head = l; prev = l; c.p.text += l; } if (!ok) continue; if (tryit(c)) { L = lines(); again = true; if (a >= L.size()) break; len = std::min<size_t>(L.size() - a, 80) + 1; if (len <= 8) continue; } } }
		for (size_t i = s.pol.sigat.size(); i-- > 0;) { Scn c = s; c.pol.sigat.erase(c.pol.sigat.begin() + i); if (tryit(c)) again = true; }
		if (s.calls.size() > 1) for (size_t i = s.calls.size(); i-- > 0 && s.calls.size() > 1;) { Scn c = s; c.calls.erase(c.calls.begin() + i); c.pol.nthreads = (int)c.calls.size(); if (tryit(c)) again = true; }
	}
	auto narrow = [&](u64 Policy::*lo, u64 Policy::*hi, u64 top) { Scn c = s; if (c.pol.*hi > top) { c.pol.*hi = top; if (!tryit(c)) return; } while (s.pol.*lo + 1 < s.pol.*hi && now() < end) { u64 m = (s.pol.*lo + s.pol.*hi) / 2; c = s; c.pol.*hi = m; if (tryit(c)) continue; c = s; c.pol.*lo = m; if (tryit(c)) continue; break; } };
	if (s.prop == "P13") { Scn c = s; c.pol.iden = 1; tryit(c); narrow(&Policy::ilo, &Policy::ihi, s.pol.budget); } if (s.prop == "P14") { for (unsigned b = 1; b < H_ALL; b <<= 1) { Scn c = s; c.pol.what &= ~b; if (c.pol.what && tryit(c)) {} } narrow(&Policy::blo, &Policy::bhi, 100000); } if (s.prop == "P18") narrow(&Policy::swlo, &Policy::swhi, s.pol.budget);
}
static string describe(const Scn &s) { string o = s.p.fns[s.calls[0].fn].name + "("; for (u64 a : s.calls[0].args) o += std::to_string((s64)a) + ","; o += ")"; for (auto &f : s.p.flags) o += " " + f; if (s.prop == "P13") o += "; stack below rsp-" + std::to_string(s.pol.rz) + " clobbered before instructions " + std::to_string(s.pol.ilo) + ".." + std::to_string(s.pol.ihi); if (s.prop == "P14") o += "; hostile kinds " + std::to_string(s.pol.what) + " at boundaries " + std::to_string(s.pol.blo) + ".." + std::to_string(s.pol.bhi); if (s.prop == "P18") { o += "; " + std::to_string(s.calls.size()) + " threads, switch chance 1/" + std::to_string(s.pol.swden) + ", handler at steps"; for (u64 x : s.pol.sigat) o += " " + std::to_string(x); } return o + "\n" + s.p.text; }
static const int NPOL = 4;
static bool one_seed(const string &prop, u64 seed, vector<std::pair<Scn, Viol>> *found, double end) {
	Scn s; s.prop = prop; vector<vector<Call>> sets; if (!gen_prog(prop, seed, s.p, sets)) return false; string err; if (!prepare(s, &err)) { g_rejected++; if (getenv("RUNSIM_DEBUG")) fprintf(stderr, "seed %llu: %s\n", (unsigned long long)seed, err.c_str()); g_cnt[err.compare(0, 3, "cc1") == 0 ? "rejected-by-cc1" : "rejected-other"]++; return false; }
	int k = 0; for (auto &v : sets) { s.calls = v; s.handlers.clear(); if (prop == "P18") { if (s.calls.back().fn >= 0) s.handlers = {s.calls.back()}; s.calls.pop_back(); }
		Policy b; b.seed = mix(seed, k); Result base; bool hb = false; if (prop == "P13" || prop == "P14" || prop == "P18") { base = go(s, b, false); hb = true; if (prop == "P13" && base.splost.size()) { s.pol = policy(prop, mix(mix(seed, 77), k * 16), s.p, s.calls, nullptr); bool nt, sk; auto V = judge(s, &nt, &sk); for (auto &x : V) if (found) found->push_back({s, x}); k++; continue; } if (base.th[0].end != E_OK) { g_skipped++; k++; g_cnt[string("benign-run-ends-with-") + endname(base.th[0].end)]++; if (getenv("RUNSIM_DEBUG") && base.th[0].end != E_BUDGET) fprintf(stderr, "seed %llu: benign %s\n", (unsigned long long)seed, thr(base.th[0]).c_str()); continue; } g_cnt["instructions-in-benign-runs"] += base.steps; }
		int np = prop == "P16" || prop == "P19" ? 1 : prop == "P15" ? 2 : NPOL; for (int j = 0; j < np; j++) { s.pol = policy(prop, mix(mix(seed, 77), k * 16 + j), s.p, s.calls, hb ? &base : nullptr); bool nt, sk; auto V = judge(s, &nt, &sk); if (sk) { g_skipped++; break; } if (nt) g_nontrivial++; for (auto &x : V) if (found) found->push_back({s, x}); if (V.size()) break; if (now() > end) return true; } k++; }
	return true;
}
int main(int argc, char **argv) {
	if (argc < 3) return 2; const char *bd = getenv("UCCSIM_BUILD"); if (!bd) { fprintf(stderr, "UCCSIM_BUILD is not set\n"); return 2; } cc1 = string(bd) + "/src/cc1/cc1"; char tmpl[] = "/tmp/runsimXXXXXX"; if (!mkdtemp(tmpl)) return 2; dir = tmpl; int rc = 0; mach_init(); string cmd = argv[1]; setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
	if (cmd == "replay") { Scn s; if (!deser(slurp(argv[2]), s)) { fprintf(stderr, "bad replay file\n"); rc = 2; } else { vector<string> tr; lasterr.clear(); auto V = full(s, &tr); if (argc < 4) { printf("%s\n", describe(s).c_str()); for (auto &l : tr) printf("  %s\n", l.c_str()); if (lasterr.size()) printf("  %s\n", lasterr.c_str()); } for (auto &v : V) printf("violates %s [%s]: %s\n", s.prop.c_str(), v.cls.c_str(), v.msg.c_str()); printf("trace-hash %llu\n", (unsigned long long)last_hash); rc = V.empty() ? 0 : 1; } }
	else if (cmd == "show" && argc > 3) { Prog p; vector<vector<Call>> c; if (gen_prog(argv[2], strtoull(argv[3], nullptr, 10), p, c)) { for (auto &f : p.flags) printf("%s ", f.c_str()); printf("\n"); for (auto &f : p.fns) printf("// %s\n", sig_str(f).c_str()); printf("%s", p.text.c_str()); } }
	else if (cmd == "run" && argc > 7) {
		string prop = argv[2]; u64 seed = strtoull(argv[3], nullptr, 10), step = strtoull(argv[4], nullptr, 10), count = strtoull(argv[5], nullptr, 10); double secs = atof(argv[6]); string out = argv[7]; int maxv = argc > 8 ? atoi(argv[8]) : 6; double t0 = now(), end = t0 + secs; u64 done = 0, none = 0, replayed = 0; bool nondet = false; map<string, int> seen; int nv = 0; std::ostringstream viol; vector<string> samples;
		for (u64 i = 0; i < count && now() < end && nv < maxv; i++, seed += step) {
			vector<std::pair<Scn, Viol>> f; if (!one_seed(prop, seed, &f, end)) { none++; continue; } done++; if (samples.size() < 3 && i % 17 == 0) { Prog p; vector<vector<Call>> c; gen_prog(prop, seed, p, c); string fl; for (auto &x : p.flags) fl += x + " "; samples.push_back("seed " + std::to_string(seed) + ": " + fl + "\n" + p.text.substr(0, 500)); }
			if (i % 53 == 7) { replayed++; u64 h[2]; for (int k = 0; k < 2; k++) { last_hash = 1; one_seed(prop, seed, nullptr, now() + 60); h[k] = last_hash; } if (h[0] != h[1]) nondet = true; }
			for (auto &x : f) { if (seen[x.second.cls]++ >= 2) continue; Scn m = x.first; bool again = false; for (auto &v : full(m)) if (v.cls == x.second.cls) again = true; if (!again) { nondet = true; continue; } minimise(m, x.second.cls, 15); string msg = x.second.msg; for (auto &v : full(m)) if (v.cls == x.second.cls) msg = v.msg; string path = out + ".v" + std::to_string(nv++); spit(path, ser(m, x.second.cls)); viol << (nv > 1 ? "," : "") << "{\"seed\":" << seed << ",\"class\":" << jesc(x.second.cls) << ",\"message\":" << jesc(msg) << ",\"what\":" << jesc(describe(m)) << ",\"file\":" << jesc(path) << "}"; if (nv >= maxv) break; }
		}
		std::ofstream o(out); o << "{\"sims\":" << g_simruns << ",\"programs\":" << done << ",\"nogen\":" << none << ",\"worlds\":" << g_worlds << ",\"ops\":" << g_steps_total << ",\"simsec\":" << g_steps_total / 1e9 << ",\"switches\":" << g_switch << ",\"nontrivial\":" << g_nontrivial << ",\"skipped\":" << g_skipped << ",\"wall\":" << now() - t0 << ",\"replayed\":" << replayed << ",\"nondeterministic\":" << (nondet ? "true" : "false") << ",\"fired\":{"; bool first = true; for (auto &e : g_fired) { o << (first ? "" : ",") << jesc(e.first) << ":" << e.second; first = false; } o << "},\"counts\":{\"programs\":" << done; for (auto &e : g_cnt) o << "," << jesc(e.first) << ":" << e.second; o << "},\"samples\":["; for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << jesc(samples[i]); o << "],\"violations\":[" << viol.str() << "]}\n"; o.close();
		FILE *fp = fopen((out + ".fps").c_str(), "wb"); for (u64 h : g_fps) fwrite(&h, 8, 1, fp); fclose(fp); rc = nv ? 1 : 0;
	} else rc = 2;
	fflush(stdout); for (const char *x : {"p", "q", "r"}) for (const char *e : {".c", ".s", ".o"}) unlink((dir + "/" + x + e).c_str()); unlink((dir + "/err").c_str()); rmdir(dir.c_str()); _exit(rc);
}
