// Oracles: the properties P01..P12 as checks over one simulated history.
#include "scen.h"
#include <cstring>
#include <cstdlib>
#include <ctime>
#include <csignal>
#include <algorithm>
#include <sstream>
#include <fcntl.h>

// ------------------------------------------------------------ helpers
static string dirn(const string &p) { size_t k = p.rfind('/'); return k == string::npos ? "." : k == 0 ? "/" : p.substr(0, k); }
static string resolve(const SnapMap &m, string p) { for (int i = 0; i < 8; i++) { auto it = m.find(p); if (it == m.end() || it->second.type != I_SYMLINK) return p; p = path_norm(dirn(p), it->second.data); } return p; }
static const Snap *get(const SnapMap &m, const string &p) { auto it = m.find(p); return it == m.end() ? nullptr : &it->second; }
static string stname(int st) { if (st == -1) return "did not terminate"; if (st & 0x7f) return "killed by signal " + std::to_string(st & 0x7f); return "exit status " + std::to_string(st >> 8); }
static string brief(const string &a, const string &b) { // where do two byte strings differ
	size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	auto cut = [&](const string &s) { string o; size_t from = i > 20 ? i - 20 : 0; for (size_t k = from; k < s.size() && k < i + 40; k++) { unsigned char c = s[k]; if (c == '\n') o += "\\n"; else if (c < 32 || c >= 127) { char h[8]; snprintf(h, 8, "\\x%02x", c); o += h; } else o += (char)c; } return o; };
	return std::to_string(a.size()) + " vs " + std::to_string(b.size()) + " bytes, first difference at byte " + std::to_string(i) + ": `" + cut(a) + "` vs `" + cut(b) + "`";
}
static bool prefix_of(const string &p, const string &s) { return s.compare(0, p.size(), p) == 0; }
static char ikind(const Input &i) {
	if (i.x == "c") return 'c'; if (i.x == "cpp-output") return 'i'; if (i.x == "assembler" || i.x == "asm") return 's'; if (i.x == "assembler-with-cpp" || i.x == "asm-with-cpp") return 'S';
	if (i.path == "-") return 'c'; size_t d = i.path.rfind('.'); if (d != string::npos && i.path.size() == d + 2 && strchr("cisS", i.path[d + 1])) return i.path[d + 1]; return 'o';
}
// temp file names are allowed to differ between runs
static string norm_tmp(const string &s, const string &tmpdir) {
	string d = (tmpdir.empty() ? "/tmp" : tmpdir) + "/", o; size_t i = 0;
	while (i < s.size()) { if (s.compare(i, d.size(), d) == 0) { size_t j = i + d.size(); while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '.' || s[j] == '_' || s[j] == '-')) j++; o += "<TMP>"; i = j; } else o += s[i++]; }
	return o;
}
static string norm_pid(const string &s) { return s; }

// ------------------------------------------------------------ fault-free reference runs
struct RunOut { int status; string out, err; SnapMap after; bool bad = false; };
static map<u64, shared_ptr<RunOut>> ref_cache;
static u64 snap_hash(const SnapMap &m) { u64 h = 7; for (auto &e : m) { h = hash_str(e.first, h); h = mix(h, e.second.type * 4096 + e.second.mode); h = hash_str(e.second.data, h); } return h; }
static shared_ptr<RunOut> ref_run(const Scenario &s, const SnapMap &fs, const Inv &v, long now_us, const vector<string> &nenv) {
	Scenario t; t.prop = "ref"; t.env = s.env; Phase p; p.inv.push_back(v); p.n.now_us = now_us; p.n.env = nenv;
	u64 h = mix(snap_hash(fs), hash_str(ser([&] { Scenario q = t; q.ph.push_back(p); return q; }())));
	auto it = ref_cache.find(h); if (it != ref_cache.end()) return it->second;
	for (auto &e : fs) { if (prefix_of("/dev", e.first) || prefix_of("/bin", e.first) || prefix_of("/ref", e.first)) continue; FileSpec f; f.path = e.first; f.type = e.second.type; f.mode = e.second.mode; f.data = e.second.data; f.mtime = e.second.mtime; t.files.push_back(f); }
	t.ph.push_back(p); Runner r; r.begin(t); PhaseRes pr; g_quiet = true; r.run(t.ph[0], pr); g_quiet = false;
	auto o = std::make_shared<RunOut>(); o->status = pr.inv[0].status; o->out = pr.inv[0].out; o->err = pr.inv[0].err; o->after = pr.after; o->bad = !pr.w.bug.empty() || !pr.w.memerrors.empty() || pr.w.budget_hit;
	if (ref_cache.size() > 64) ref_cache.clear(); ref_cache[h] = o; return o;
}
struct Expect { bool ok = true; vector<Output> outs; vector<string> data; string dep; bool have_dep = false; map<string, string> temps; string why; };
static Inv plain(const Inv &v) { Inv r; r.flags = v.flags; r.cwd = v.cwd; r.sin = v.sin; return r; }
static SnapMap ref_fs(const SnapMap &before, const vector<Inv> &all) {
	SnapMap fs = before; set<string> ins; for (auto &v : all) for (auto &i : v.in) ins.insert(path_norm(v.cwd, i.path));
	auto drop = [&](const string &p) { if (!p.empty() && !ins.count(p) && prefix_of("/w", p)) fs.erase(p); };
	for (auto &v : all) { for (auto &o : outputs_of(v)) if (!o.is_stdout) drop(o.path); drop(dep_of(v)); for (auto &t : temps_of(v)) drop(t); }
	for (auto it = fs.begin(); it != fs.end();) if (prefix_of("/tmp/", it->first) && it->second.type != I_DIR) it = fs.erase(it); else ++it;
	return fs;
}
static Expect expect(const Scenario &s, const Phase &p, const SnapMap &before, const Inv &v, bool aux = true) {
	Expect e; e.outs = outputs_of(v); SnapMap fs = ref_fs(before, p.inv); long now = p.n.now_us; vector<string> env; // the canonical environment
	auto fail = [&](const string &w) { e.ok = false; if (e.why.empty()) e.why = w; };
	map<int, string> per; auto single = [&](int i, int mode, string *d) -> bool {
		Inv r = plain(v); r.mode = mode; r.in = {v.in[i]}; bool cap = mode == 'E' || mode == 'M'; if (!cap && mode != 'y') r.out = "/ref/o"; auto o = ref_run(s, fs, r, now, env);
		if (o->status != 0) { fail("input " + v.in[i].path + ": " + stname(o->status) + ": " + o->err.substr(0, 200)); return false; }
		if (d) { if (cap) *d = o->out; else { auto *f = get(o->after, "/ref/o"); *d = f ? f->data : ""; } } return true; };
	bool link = v.mode == 'l'; SnapMap lfs = fs; vector<Input> lin;
	for (int i = 0; i < (int)v.in.size(); i++) {
		char k = ikind(v.in[i]); string d; 
		if (v.mode == 'y') { if (k == 'c' || k == 'i') single(i, 'y', nullptr); else if (k == 'S') single(i, 'E', nullptr); continue; }
		if (link) { if (k == 'o') { lin.push_back({v.in[i].path, ""}); continue; } if (single(i, 'c', &d)) { string n = "/ref/in" + std::to_string(i) + ".o"; Snap sn{0, I_REG, 0644, d, 0}; lfs["/w/.ref" + std::to_string(i) + ".o"] = sn; lin.push_back({"/w/.ref" + std::to_string(i) + ".o", ""}); } continue; }
		bool takes = false; for (auto &o : e.outs) for (int j : o.inputs) if (j == i) takes = true;
		// earlier stages still run for inputs the mode does not use?  (they are skipped: "unused")
		if (!takes) { if (v.mode == 'S' && k == 'S') single(i, 'E', nullptr); continue; }
		if (single(i, v.mode, &d)) per[i] = d;
	}
	if (link) { string d; if (e.ok) { Inv r = plain(v); r.mode = 'l'; r.in = lin; r.out = "/ref/exe"; auto o = ref_run(s, lfs, r, now, env); if (o->status != 0) fail("link: " + stname(o->status) + ": " + o->err.substr(0, 200)); else { auto *f = get(o->after, "/ref/exe"); d = f ? f->data : ""; } } e.data.push_back(d); }
	else for (auto &o : e.outs) { string d; for (int i : o.inputs) d += per[i]; e.data.push_back(d); }
	if (!aux || !e.ok) return e;
	if (!dep_of(v).empty() && v.md) { Inv r = v; r.save_temps = r.verbose = r.timed = false; r.wrapper = ""; r.um = 022; r.outk = OUT_CAP; r.joined = false; auto o = ref_run(s, fs, r, now, env); auto *f = get(o->after, dep_of(v)); if (f) { e.dep = f->data; e.have_dep = true; } else if (o->status != 0) fail("with -MD: " + stname(o->status) + ": " + o->err.substr(0, 200)); }
	if (v.save_temps && v.mode != 'E' && v.mode != 'M') { map<string, int> cnt; for (int i = 0; i < (int)v.in.size(); i++) { Inv one = v; one.in = {v.in[i]}; for (auto &t : temps_of(one)) cnt[t]++; }
		for (int i = 0; i < (int)v.in.size(); i++) { char k = ikind(v.in[i]); Inv one = v; one.in = {v.in[i]}; for (auto &t : temps_of(one)) { if (cnt[t] > 1) continue; char x = t.back(); string d; bool out = false; for (auto &o : e.outs) if (o.path == t) out = true; if (out) continue; bool ok = e.ok; string why = e.why; if (x == 'i' && k == 'c') { if (single(i, 'E', &d)) e.temps[t] = d; } else if (x == 's' && (k == 'c' || k == 'i')) { if (single(i, 'S', &d)) e.temps[t] = d; } e.ok = ok; e.why = why; } } }
	return e;
}

// ------------------------------------------------------------ shared context
struct Cx { Scenario &s; vector<Violation> v; void add(const string &cls, const string &msg) { v.push_back({cls, msg}); } };
static bool stdout_unusable(const Inv &v) { return v.outk == OUT_FULL || v.outk == OUT_LIMIT; }
static string outdesc(const Output &o) { return o.is_stdout ? "standard output" : o.path; }
static void common(Cx &c, const PhaseRes &r) { // holds for every simulated run
	if (r.w.bug == "deadlock") c.add("hang", "the processes of the invocation wait for each other for ever");
	if (r.w.budget_hit) c.add("hang", "no termination within the step budget");
	for (size_t i = 0; i < r.inv.size(); i++) if (r.inv[i].status == -1 && r.w.bug.empty() && !r.w.budget_hit) c.add("hang", "invocation " + std::to_string(i) + " never ended");
	if (c.s.prop == "P07" || c.s.prop == "P12") for (auto &m : r.w.memerrors) c.add("memory", m);
}

// ------------------------------------------------------------ P01, P02 outputs
static void check_success(Cx &c, const Phase &p, const PhaseRes &r, int i, const Expect &e, const char *tag) {
	const Inv &v = p.inv[i]; const InvRes &x = r.inv[i]; if (x.status != 0) return;
	if (!e.ok) { c.add(string(tag) + "success-despite-error", "exit status 0 although the undisturbed run fails (" + e.why + ")"); return; }
	for (size_t k = 0; k < e.outs.size(); k++) {
		auto &o = e.outs[k]; const string &want = e.data[k];
		if (o.is_stdout) { if (v.outk == OUT_NULL) continue; if (v.outk == OUT_FULL) { if (!want.empty()) c.add(string(tag) + "lost-stdout", "exit status 0 although none of the " + std::to_string(want.size()) + " bytes of output could be written to standard output"); continue; } if (x.out != want) c.add(string(tag) + "wrong-stdout", "exit status 0 but standard output is wrong: " + brief(x.out, want)); continue; }
		auto *b = get(r.before, o.path); if (b && (b->type == I_NULL || b->type == I_FULL)) { if (b->type == I_FULL && !want.empty()) c.add(string(tag) + "lost-output", "exit status 0 although the output went to a full device"); continue; }
		auto *f = get(r.after, resolve(r.after, o.path)); if (!f) { c.add(string(tag) + "missing-output", "exit status 0 but " + o.path + " does not exist"); continue; }
		if (f->data != want) c.add(string(tag) + "wrong-output", "exit status 0 but " + o.path + " is wrong: " + brief(f->data, want));
	}
	if (e.have_dep && v.md) { string d = dep_of(v); auto *f = get(r.after, d); if (!f) c.add(string(tag) + "missing-dep", "exit status 0 but dependency file " + d + " does not exist"); else if (f->data != e.dep) c.add(string(tag) + "wrong-dep", "exit status 0 but dependency file " + d + " is wrong: " + brief(f->data, e.dep)); }
}
static void check_failure(Cx &c, const Phase &p, const PhaseRes &r, int i, const Expect &e) {
	const Inv &v = p.inv[i]; if (r.inv[i].status == 0) return;
	for (size_t k = 0; k < e.outs.size(); k++) {
		auto &o = e.outs[k]; if (o.is_stdout) continue; auto *b = get(r.before, o.path), *a = get(r.after, o.path);
		if (b && b->type != I_REG) continue; if (a && a->type != I_REG) continue; if (!a) continue;
		if (std::find(r.w.failed_unlinks.begin(), r.w.failed_unlinks.end(), o.path) != r.w.failed_unlinks.end()) continue;
		if (b && b->data == a->data) continue; if (e.ok && a->data == e.data[k]) continue;
		if (!e.ok && o.inputs.size() == 1 && v.mode != 'l') { // maybe this one's own input is fine
			Inv one = v; one.in = {v.in[o.inputs[0]]}; one.md = false; one.mf = ""; Phase q = p; Expect f = expect(c.s, q, r.before, one, false); if (f.ok && f.data.size() && f.data[0] == a->data) continue; }
		c.add("partial-output", stname(r.inv[i].status) + " but " + o.path + " is left " + (a->data.empty() ? "empty" : "with wrong content") + (b ? " (it existed before)" : " (it did not exist before)") + (e.ok ? ": " + brief(a->data, e.data[k]) : ""));
	}
}
// ------------------------------------------------------------ P03 temporaries
static void check_temps(Cx &c, const Phase &p, const PhaseRes &r, int i, const Expect *e) {
	const Inv &v = p.inv[i]; string td = p.n.tmpdir.empty() ? "/tmp" : p.n.tmpdir; set<string> outs; for (auto &o : outputs_of(v)) if (!o.is_stdout) { outs.insert(o.path); outs.insert(resolve(r.before, o.path)); }
	set<string> mine; for (auto &k : r.w.creates) if (k.drv == i && k.prog == PR_UCC) {
		if (outs.count(k.path) || k.path == dep_of(v)) continue; mine.insert(k.path);
		if (v.save_temps && temps_of(v).count(k.path)) continue;
		if (v.save_temps) { c.add("save-temps-elsewhere", "with -save-temps the driver opened " + k.path + " for writing"); continue; }
		if (k.existed) c.add("temp-existing", "the driver opened the existing file " + k.path + " for writing as a temporary");
		else if (!k.excl) c.add("temp-not-exclusive", "temporary " + k.path + " was not created exclusively");
		if (k.mode & 077) { char b[16]; snprintf(b, 16, "%04o", k.mode); c.add("temp-mode", "temporary " + k.path + " has mode " + b); }
		if (dirn(k.path) != td) c.add("temp-dir", "temporary " + k.path + " is not directly in " + td);
	}
	for (auto &t : r.after) if (mine.count(t.first) && !r.before.count(t.first) && !temps_of(v).count(t.first)) { if (std::find(r.w.failed_unlinks.begin(), r.w.failed_unlinks.end(), t.first) != r.w.failed_unlinks.end()) continue; c.add("temp-left", stname(r.inv[i].status) + " and temporary file " + t.first + " is left behind"); }
	if (p.inv.size() == 1) for (auto &t : r.after) if (dirn(t.first) == td && !r.before.count(t.first) && !mine.count(t.first) && !outs.count(t.first) && t.first != dep_of(v) && !temps_of(v).count(t.first)) { if (std::find(r.w.failed_unlinks.begin(), r.w.failed_unlinks.end(), t.first) != r.w.failed_unlinks.end()) continue; c.add("temp-left", "file " + t.first + " is left behind in the temporary directory"); }
	if (e && e->ok && r.inv[i].status == 0 && v.save_temps) for (auto &t : e->temps) { auto *f = get(r.after, t.first); if (!f) c.add("save-temps-missing", "-save-temps intermediate " + t.first + " does not exist"); else if (f->data != t.second) c.add("save-temps-wrong", "-save-temps intermediate " + t.first + " is wrong: " + brief(f->data, t.second)); }
}
// ------------------------------------------------------------ P04 containment
static void check_contained(Cx &c, const Phase &p, const PhaseRes &r) {
	set<string> ok, tm; auto id_of = [&](const string &q) { auto *b = get(r.before, resolve(r.before, q)); return b ? b->id : 0; };
	for (auto &v : p.inv) { set<u64> ins; for (auto &i : v.in) if (i.path != "-") if (u64 id = id_of(path_norm(v.cwd, i.path))) ins.insert(id); auto mine = [&](const string &q) { u64 id = id_of(q); return id && ins.count(id); }; // an input, under whatever name, is no output unless it was named as one
		for (auto &o : outputs_of(v)) if (!o.is_stdout && (v.out.empty() ? !mine(o.path) : true)) { auto *b = get(r.before, o.path); if (b && b->type == I_SYMLINK) ok.insert(resolve(r.before, o.path)); else if (!b || b->type == I_REG) ok.insert(o.path); } string d = dep_of(v); if (!d.empty() && (!v.mf.empty() || !mine(d))) ok.insert(d); for (auto &t : temps_of(v)) if (!mine(t)) ok.insert(t); }
	for (auto &k : r.w.creates) if (k.prog == PR_UCC && !k.existed && k.excl) tm.insert(k.path);
	for (auto &b : r.before) { if (ok.count(b.first)) continue; auto *a = get(r.after, b.first); if (!a) { c.add("removed", "removed " + b.first + ", which is none of its outputs"); continue; }
		if (a->type != b.second.type || a->id != b.second.id) c.add("replaced", "replaced " + b.first + ", which is none of its outputs"); else if (a->data != b.second.data) c.add("modified", "modified " + b.first + ", which is none of its outputs: " + brief(a->data, b.second.data)); else if (a->mode != b.second.mode) c.add("modified", "changed the permissions of " + b.first); }
	for (auto &a : r.after) if (!r.before.count(a.first) && !ok.count(a.first) && !tm.count(a.first)) c.add("created", "created " + a.first + ", which is none of its outputs");
}
// ------------------------------------------------------------ P05 stages
struct Stage { int pid; u64 s0, s1; int status; bool ended; string name; };
static vector<Stage> stages_of(const PhaseRes &r, int drv) {
	vector<Stage> v; int dp = 0; auto it = r.w.drv_pid.find(drv); if (it != r.w.drv_pid.end()) dp = it->second;
	for (auto &e : r.w.execs) { if (e.drv != drv || e.ex == 0 || e.ppid != dp) continue; Stage *s = nullptr; for (auto &x : v) if (x.pid == e.pid) s = &x; if (!s) { v.push_back({e.pid, e.seq0, 0, 0, false, prog_names[e.prog]}); s = &v.back(); } s->status = e.status; s->ended = e.ended; s->s1 = e.seq1; if (e.prog != PR_WRAP) s->name = prog_names[e.prog]; }
	return v;
}
static void check_stages(Cx &c, const Phase &p, const PhaseRes &r, int i, const Expect &e) {
	auto st = stages_of(r, i); int ds = r.inv[i].status; bool drvfault = false;
	for (auto &f : r.w.faults) if (f.fired && f.drv == i && f.ex == 0) { drvfault = true; if ((f.cls == OP_FORK || f.cls == OP_EXEC) && ds == 0) c.add("unstarted-ignored", string("exit status 0 although a stage could not be started (") + op_names[f.cls] + " failed)"); }
	for (size_t k = 0; k + 1 < st.size(); k++) if (!st[k].ended || st[k + 1].s0 < st[k].s1) c.add("overlap", "stage " + st[k + 1].name + " was started before stage " + st[k].name + " had ended");
	for (size_t k = 0; k < st.size(); k++) if (st[k].ended && st[k].status != 0) {
		if (k + 1 < st.size()) c.add("later-stage", "stage " + st[k].name + " ended with " + stname(st[k].status) + " but " + st[k + 1].name + " was started afterwards");
		if (ds == 0) c.add("failure-ignored", "stage " + st[k].name + " ended with " + stname(st[k].status) + " but ucc exits 0");
		else if ((st[k].status & 0x7f) && !drvfault && ds != (128 + (st[k].status & 0x7f)) << 8) c.add("signal-status", "stage " + st[k].name + " " + stname(st[k].status) + " but ucc ended with " + stname(ds));
		break; }
	for (auto &s : st) if (!s.ended) c.add("not-waited", "stage " + s.name + " was still running when ucc ended");
	bool any = false; for (auto &f : r.w.faults) if (f.fired) any = true;
	if (!any && !stdout_unusable(p.inv[i]) && e.ok && ds != 0) { bool ro = false; for (auto &o : e.outs) { auto *b = o.is_stdout ? nullptr : get(r.before, o.path); if (b && (!(b->mode & 0200) || b->type == I_FULL)) ro = true; } if (!ro) c.add("spurious-failure", "no stage failed and the undisturbed build succeeds, but ucc ended with " + stname(ds) + ": " + r.inv[i].err.substr(0, 300)); }
}
// ------------------------------------------------------------ comparison of two runs of the same invocation (P06, P08)
static void compare(Cx &c, const Inv &v, const InvRes &a, const SnapMap &am, const string &atmp, const InvRes &b, const SnapMap &bm, const string &btmp, const char *an, const char *bn, const set<string> &skip, bool files) {
	string both = string(" (") + an + " vs " + bn + ")";
	if (a.status != b.status) { c.add("status", stname(a.status) + " vs " + stname(b.status) + both + "; " + a.err.substr(0, 150) + " | " + b.err.substr(0, 150)); return; }
	string ea = norm_tmp(a.err, atmp), eb = norm_tmp(b.err, btmp), oa = norm_tmp(a.out, atmp), ob = norm_tmp(b.out, btmp);
	if (v.timed) oa = ob = "";
	if (ea != eb) c.add("diagnostics", "diagnostics differ: " + brief(ea, eb) + both); if (oa != ob) c.add("stdout", "standard output differs: " + brief(oa, ob) + both);
	if (!files) return; set<string> paths; for (auto &o : outputs_of(v)) if (!o.is_stdout) paths.insert(o.path); if (!dep_of(v).empty()) paths.insert(dep_of(v)); for (auto &t : temps_of(v)) paths.insert(t);
	for (auto &q : paths) { if (skip.count(q)) continue; auto *x = get(am, resolve(am, q)), *y = get(bm, resolve(bm, q)); if (!x != !y) { c.add("file", q + (x ? " exists only in the first run" : " exists only in the second run") + both); continue; } if (x && x->data != y->data) c.add("file", q + " differs: " + brief(x->data, y->data) + both); }
}
// ------------------------------------------------------------ P10 make rules
bool parse_rule(const string &t, vector<string> &targets, vector<string> &pre, string *err) {
	vector<string> *o = &targets; string w; bool in = false, colon = false; auto endw = [&]() { if (in) o->push_back(w); w.clear(); in = false; };
	for (size_t i = 0; i < t.size(); i++) {
		char c = t[i];
		if (c == '\\' && i + 1 < t.size()) { char d = t[i + 1]; if (d == '\n') { endw(); i++; continue; }
			size_t n = 0; while (i + n < t.size() && t[i + n] == '\\') n++; char nx = i + n < t.size() ? t[i + n] : 0;
			if (nx == ' ' || nx == '\t' || nx == '#' || nx == ':' ) { for (size_t k = 0; k < n / 2; k++) w += '\\'; in = true; if (n % 2) { w += nx; i += n; } else i += n - 1; continue; }
			w += string(n, '\\'); in = true; i += n - 1; continue; }
		if (c == '$') { if (i + 1 < t.size() && t[i + 1] == '$') { w += '$'; in = true; i++; continue; } *err = "unescaped `$'"; return false; }
		if (c == '#') { *err = "unescaped `#'"; return false; }
		if (c == '\n') { endw(); if (i + 1 < t.size()) { *err = "more than one line"; return false; } break; }
		if (c == ' ' || c == '\t') { endw(); continue; }
		if (c == ':' && !colon && (i + 1 == t.size() || isspace((unsigned char)t[i + 1]))) { endw(); colon = true; o = &pre; continue; }
		w += c; in = true;
	}
	endw(); if (!colon) { *err = "no `:'"; return false; } if (targets.size() != 1) { *err = std::to_string(targets.size()) + " targets"; return false; } return true;
}

// ------------------------------------------------------------ the checks
static vector<string> split_lines(const string &s) { vector<string> v; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == string::npos) e = s.size(); v.push_back(s.substr(p, e - p)); p = e + 1; } return v; }
static string fmt_date(const struct tm &t) { static const char *M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; char b[64]; snprintf(b, 64, "%s %02d %d", M[t.tm_mon], t.tm_mday, t.tm_year + 1900); return b; }
static string fmt_time(const struct tm &t) { char b[64]; snprintf(b, 64, "%02d:%02d:%02d", t.tm_hour, t.tm_min, t.tm_sec); return b; }
static string fmt_asc(const struct tm &t) { static const char *D[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}; string d = fmt_date(t); char b[96]; snprintf(b, 96, "%s %s %s %d", D[t.tm_wday], d.substr(0, 6).c_str(), fmt_time(t).c_str(), t.tm_year + 1900); return b; }
static struct tm utc(long s) { time_t t = s; struct tm o; gmtime_r(&t, &o); return o; }

static void check_time(Cx &c, const Scenario &s, const Phase &p, const PhaseRes &r) {
	string tz, sde; bool have_sde = false; for (auto &e : p.n.env) { if (prefix_of("TZ=", e)) tz = e.substr(3); if (prefix_of("SOURCE_DATE_EPOCH=", e)) sde = e.substr(18), have_sde = true; }
	long off = 0; if (!tz.empty()) { size_t k = 0; while (k < tz.size() && !strchr("+-0123456789", tz[k])) k++; off = -atol(tz.c_str() + k) * 3600; }
	bool valid = true, far = false; long ev = 0; if (have_sde) { valid = !sde.empty() && sde.size() < 19; for (char ch : sde) if (!isdigit((unsigned char)ch)) valid = false; if (valid) ev = atol(sde.c_str()); far = valid && ev > 253402300799l; if (far && (r.inv[0].status != 0 || ev > 67767976233532799l)) valid = false; }
	if (have_sde && !valid) { bool huge = !sde.empty() && sde.find_first_not_of("0123456789") == string::npos; if (r.inv[0].status == 0) c.add("bad-epoch", "SOURCE_DATE_EPOCH=" + sde + (huge ? " (out of range)" : "") + " was accepted"); return; }
	if (r.inv[0].status != 0) { c.add("failed", "preprocessing failed: " + r.inv[0].err.substr(0, 200)); return; }
	map<char, set<string>> got; for (auto &l : split_lines(r.inv[0].out)) if (l.size() > 4 && strchr("DTS", l[0]) && isdigit((unsigned char)l[1])) { size_t a = l.find('"'), b = l.rfind('"'); if (a == string::npos || b <= a) { c.add("format", "macro expanded to `" + l + "'"); continue; } got[l[0]].insert(l.substr(a + 1, b - a - 1)); }
	for (auto &g : got) if (g.second.size() > 1) c.add("inconsistent", string(g.first == 'D' ? "__DATE__" : g.first == 'T' ? "__TIME__" : "__TIMESTAMP__") + " has two values in one run: " + *g.second.begin() + " and " + *std::next(g.second.begin()));
	if (c.v.size()) return; auto one = [&](char k) { return got[k].empty() ? string() : *got[k].begin(); }; string D = one('D'), T = one('T'), S = one('S');
	if (D.empty() || T.empty() || S.empty()) { c.add("format", "a macro is missing from the output"); return; }
	if (have_sde) { struct tm t = utc(ev); if (D != fmt_date(t)) c.add("epoch-date", "SOURCE_DATE_EPOCH=" + sde + ": __DATE__ is `" + D + "', should be `" + fmt_date(t) + "'"); if (T != fmt_time(t)) c.add("epoch-time", "SOURCE_DATE_EPOCH=" + sde + ": __TIME__ is `" + T + "', should be `" + fmt_time(t) + "'"); if (S != fmt_asc(t)) c.add("epoch-timestamp", "SOURCE_DATE_EPOCH=" + sde + ": __TIMESTAMP__ is `" + S + "', should be `" + fmt_asc(t) + "'"); return; }
	vector<long> reads; for (auto &k : r.w.clock_reads) for (auto &e : r.w.execs) if (e.drv == k.drv && e.ex == k.ex && e.prog == PR_CPP) reads.push_back(k.us / 1000000);
	bool ok = false; string exp; for (long t : reads) for (long o : {0l, off}) { struct tm m = utc(t + o); if (exp.size() < 200) exp += (exp.empty() ? "" : ", ") + fmt_date(m) + " " + fmt_time(m); if (D == fmt_date(m) && T == fmt_time(m)) ok = true; }
	if (!ok) c.add("clock", "__DATE__ __TIME__ are `" + D + "' `" + T + "' but the clock readings of the run were: " + exp);
	const Inv &v = p.inv[0]; if (v.in[0].path != "-") { string path = path_norm(v.cwd, v.in[0].path); long mt = 0; for (auto &f : s.files) if (f.path == path) mt = f.mtime; struct tm m = utc(mt + off); if (S != fmt_asc(m)) c.add("timestamp", "__TIMESTAMP__ is `" + S + "', should be `" + fmt_asc(m) + "' (modification time of the source file)"); }
}
// do the #define's of the scenario's files refer to each other in a cycle?
static bool macro_cycle(const Scenario &s) {
	map<string, set<string>> g; auto idc = [](unsigned char c) { return isalnum(c) || c == '_' || c == '$'; };
	auto scan = [&](const string &d) { for (size_t i = 0; i < d.size(); i++) { if (d[i] != '#' && !(d[i] == '%' && i + 1 < d.size() && d[i + 1] == ':') && !(d.compare(i, 3, "?\?=") == 0)) continue; size_t j = i + 1; auto ws = [&] { while (j < d.size() && (d[j] == ' ' || d[j] == '\t' || d[j] == ':' || d[j] == '?' || d[j] == '=' || d[j] == '\f' || d[j] == '\v' || (d[j] == '\\' && j + 1 < d.size() && d[j + 1] == '\n'))) j += d[j] == '\\' ? 2 : 1; }; ws(); if (d.compare(j, 6, "define")) continue; j += 6; ws(); string n; while (j < d.size() && idc(d[j])) n += d[j++]; string w; for (; j <= d.size(); j++) { char c = j < d.size() ? d[j] : '\n'; if (c == '\\' && j + 1 < d.size() && d[j + 1] == '\n') { j++; continue; } if (idc(c)) { w += c; continue; } if (w.size()) { g[n].insert(w); w.clear(); } if (c == '\n') break; } } };
	for (auto &f : s.files) scan(f.data); for (auto &p : s.ph) { for (auto &e : p.edits) scan(e.data); for (auto &v : p.inv) scan(v.sin); }
	for (auto &e : g) { set<string> seen; vector<string> st(e.second.begin(), e.second.end()); while (st.size()) { string x = st.back(); st.pop_back(); if (x == e.first) return true; if (!seen.insert(x).second || !g.count(x)) continue; st.insert(st.end(), g[x].begin(), g[x].end()); } }
	return false;
}
static bool has_clock_macro(const Scenario &s) { auto f = [](const string &d) { return d.find("__TIME") != string::npos || d.find("__DATE__") != string::npos; }; for (auto &x : s.files) if (f(x.data)) return true; for (auto &p : s.ph) for (auto &v : p.inv) if (f(v.sin)) return true; return false; }

vector<Violation> check(Scenario &s, bool events, vector<string> *trace) {
	Cx c{s, {}}; const string &P = s.prop; Runner run; run.begin(s); vector<PhaseRes> res(s.ph.size());
	auto tr = [&](const PhaseRes &r) { if (trace) for (auto &e : r.w.events) trace->push_back(e); };
	u64 fb[F_NKINDS]; memcpy(fb, G.fired, sizeof fb);
	if (P == "P06") {
		for (size_t k = 0; k < 2; k++) { Runner r2; r2.begin(s); r2.run(s.ph[k], res[k], false, events); tr(res[k]); }
		if (has_clock_macro(s)) return c.v; for (auto &r : res) if (!r.w.bug.empty() && r.w.bug != "deadlock") { G.skipped++; return c.v; }
		const Inv &v = s.ph[0].inv[0]; compare(c, v, res[0].inv[0], res[0].after, s.ph[0].n.tmpdir, res[1].inv[0], res[1].after, s.ph[1].n.tmpdir, "canonical", "varied environment", {}, true);
		if (c.v.empty()) for (auto &m : res[1].w.memerrors) { bool both = false; for (auto &n : res[0].w.memerrors) if (n.substr(0, 12) == m.substr(0, 12)) both = true; if (!both) c.add("memory", m); }
		if (res[0].inv[0].status == 0) G.cnt["exit-0"]++; else G.cnt["exit-nonzero"]++; if (res[0].inv[0].status == 0) G.nontrivial++; return c.v;
	}
	for (size_t k = 0; k < s.ph.size(); k++) {
		Phase &p = s.ph[k]; PhaseRes &r = res[k]; run.run(p, r, false, events); tr(r);
		if (!r.w.bug.empty() && r.w.bug != "deadlock") { G.skipped++; return c.v; }
		bool fired = false; for (auto &f : r.w.faults) if (f.fired) { fired = true; G.cnt[string("fault@") + op_names[f.cls]]++; }
		for (auto &x : r.inv) G.cnt[x.status == 0 ? "exit-0" : "exit-nonzero"]++;
		if (P >= "P01" && P <= "P05") {
			common(c, r); Expect e; if (P != "P04") e = expect(s, p, r.before, p.inv[0], P == "P01" || P == "P03"); if (fired || !p.inh.empty() || p.inv[0].outk != OUT_CAP || !e.ok) G.nontrivial++;
			if (P == "P01") check_success(c, p, r, 0, e, ""); if (P == "P02") check_failure(c, p, r, 0, e); if (P == "P03") check_temps(c, p, r, 0, &e); if (P == "P04") check_contained(c, p, r); if (P == "P05") check_stages(c, p, r, 0, e);
		} else if (P == "P07") {
			common(c, r); if (fired) { G.nontrivial++; Expect e = expect(s, p, r.before, p.inv[0], false); check_success(c, p, r, 0, e, "oom-"); 
				for (auto &x : r.w.execs) if (x.ended && (x.status & 0x7f) && (x.status & 0x7f) != SIGABRT && !x.by_fault) c.add("signal", string(prog_names[x.prog]) + " " + stname(x.status) + " when an allocation fails: " + x.death); }
		} else if (P == "P08") {
			common(c, r); if (r.w.nswitch > 2) G.nontrivial++; map<string, int> tcount; for (auto &v : p.inv) for (auto &t : temps_of(v)) tcount[t]++; 
			for (size_t i = 0; i < p.inv.size(); i++) {
				Phase q; q.n = p.n; q.n.switch_pct = 0; q.inv = {p.inv[i]}; for (auto f : p.faults) if (f.drv == (int)i) { f.drv = 0; f.fired = false; q.faults.push_back(f); }
				Runner r2; r2.begin(s); PhaseRes a; r2.run(q, a); set<string> skip; for (auto &t : tcount) if (t.second > 1) skip.insert(t.first); for (auto &t : temps_of(p.inv[i])) for (size_t j = 0; j < p.inv.size(); j++) if (j != i) for (auto &o : outputs_of(p.inv[j])) if (o.path == t) skip.insert(t);
				Cx d{s, {}}; compare(d, p.inv[i], a.inv[0], a.after, p.n.tmpdir, r.inv[i], r.after, p.n.tmpdir, "alone", "concurrent", skip, true); for (auto &x : d.v) c.add(x.cls, "invocation " + std::to_string(i) + ": " + x.msg);
				Cx t{s, {}}; check_temps(t, p, r, (int)i, nullptr); for (auto &x : t.v) if (x.cls == "temp-existing" || x.cls == "temp-not-exclusive" || x.cls == "temp-left") c.add(x.cls, x.msg);
			}
		} else if (P == "P09") {
			common(c, r); if (k || r.before.size() > 12) G.nontrivial++; if (p.faults.size()) continue; const Inv &v = p.inv[0]; Expect e = expect(s, p, r.before, v); check_success(c, p, r, 0, e, ""); check_failure(c, p, r, 0, e);
			bool ro = false; for (auto &o : e.outs) { auto *b = o.is_stdout ? nullptr : get(r.before, o.path); if (b && (!(b->mode & 0200) || b->type == I_FULL)) ro = true; }
			if (r.inv[0].status != 0 && e.ok && !ro) c.add("history-failure", "each input compiles alone but together / here ucc ended with " + stname(r.inv[0].status) + ": " + r.inv[0].err.substr(0, 300));
			if (r.inv[0].status == 0) for (auto &o : e.outs) { if (o.is_stdout || r.before.count(o.path)) continue; auto *a = get(r.after, o.path); if (!a || a->type != I_REG) continue; unsigned want = (v.mode == 'l' ? 0777u : 0666u) & ~v.um; if (a->mode != want) { char b[80]; snprintf(b, 80, "has mode %04o, umask %03o calls for %04o", a->mode, v.um, want); c.add("mode", "new output " + o.path + " " + b); } }
		} else if (P == "P10") {
			common(c, r); G.nontrivial++; const Inv &v = p.inv[0]; if (r.inv[0].status != 0) { Inv pl = v; pl.md = false; pl.mf = ""; if (pl.mode == 'M') pl.mode = 'E'; Phase q = p; q.inv = {pl}; Expect e = expect(s, q, r.before, pl, false); if (e.ok) c.add("dep-failure", "compiles without dependency output but with it: " + stname(r.inv[0].status) + ": " + r.inv[0].err.substr(0, 300)); return c.v; }
			string text; if (v.mode == 'M') { if (v.out.empty()) text = r.inv[0].out; else { auto *f = get(r.after, path_norm(v.cwd, v.out)); text = f ? f->data : ""; } } else { auto *f = get(r.after, dep_of(v)); if (!f) { c.add("no-dep", "no dependency file " + dep_of(v)); return c.v; } text = f->data; }
			vector<string> tg, pre; string err; if (!parse_rule(text, tg, pre, &err)) { c.add("dep-syntax", "make cannot read the rule (" + err + "): " + text.substr(0, 300)); return c.v; }
			set<string> named, dup, readset, allread; for (auto &x : pre) { if (!dup.insert(x).second) c.add("dep-dup", "prerequisite listed twice: " + x); named.insert(path_norm(v.cwd, x)); }
			for (auto &e : r.w.execs) if (e.prog == PR_CPP) for (auto &x : e.reads) { string q = path_norm(e.cwd, x); if (q == "/dev/null") continue; allread.insert(q); if (prefix_of("/usr/", q) || prefix_of("/ucc/", q) || prefix_of("/w/sys/", q)) continue; readset.insert(q); }
			for (auto &q : readset) if (!named.count(q)) c.add("dep-missing", "the preprocessor read " + q + " but the rule does not name it: " + text.substr(0, 400));
			for (auto &q : named) if (!allread.count(q)) c.add("dep-bogus", "the rule names " + q + ", which was not read: " + text.substr(0, 400));
			if (c.v.empty() && v.mode != 'M') { Inv pl = v; pl.md = false; pl.mf = ""; Phase q = p; q.inv = {pl}; Expect e = expect(s, q, r.before, pl, false); check_success(c, q, r, 0, e, "md-"); }
			if (k && c.v.empty()) { // would make have rebuilt?
				PhaseRes &o = res[k - 1]; string ot; if (v.mode == 'M') { if (v.out.empty()) ot = o.inv[0].out; else { auto *f = get(o.after, path_norm(v.cwd, v.out)); ot = f ? f->data : ""; } } else { auto *f = get(o.after, dep_of(v)); ot = f ? f->data : ""; }
				vector<string> t2, p2; if (o.inv[0].status == 0 && parse_rule(ot, t2, p2, &err)) { bool changed = false; for (auto &x : p2) { string q = path_norm(v.cwd, x); auto *a = get(o.before, q), *b = get(r.before, q); if (!a || !b || a->data != b->data) changed = true; }
					bool sysch = false; for (auto &b : r.before) if (prefix_of("/w/sys/", b.first)) { auto *a = get(o.before, b.first); if (!a || a->data != b.second.data) sysch = true; }
					if (!changed && !sysch) { G.cnt["rebuild-skipped"]++; auto outs = outputs_of(v); for (auto &w : outs) { string x = w.is_stdout ? o.inv[0].out : get(o.after, w.path) ? get(o.after, w.path)->data : "", y = w.is_stdout ? r.inv[0].out : get(r.after, w.path) ? get(r.after, w.path)->data : ""; if (x != y) c.add("stale", "no recorded prerequisite changed but " + outdesc(w) + " would be rebuilt differently: " + brief(x, y)); } } else G.cnt["rebuild-needed"]++; } }
			if (c.v.size()) return c.v;
		} else if (P == "P11") { common(c, r); G.nontrivial++; check_time(c, s, p, r); }
		else if (P == "P12") {
			common(c, r); G.nontrivial++; for (auto &x : r.w.execs) if (x.ended && x.prog <= PR_CC1 && (x.status & 0x7f) && (x.status & 0x7f) != SIGABRT) c.add("signal", string(prog_names[x.prog]) + " " + stname(x.status) + " " + x.death);
			if (s.kind == "unterminated" && r.inv[0].status == 0) c.add("accepted", "a source file that ends inside a comment or conditional is accepted with exit status 0");
			if (c.v.size() && macro_cycle(s)) { bool only = true; for (auto &x : c.v) if (x.cls != "hang" && x.msg.find("stack overflow") == string::npos && x.msg.find("budget exceeded") == string::npos) only = false; if (only) { string m = c.v[0].msg; c.v.clear(); c.add("macro-cycle", "cpp does not terminate on macros whose definitions refer to each other: " + m); } }
			if (c.v.empty() && p.faults.empty()) { Phase q = p; q.n.seed = mix(p.n.seed, 99); Runner r2; r2.begin(s); PhaseRes a; r2.run(q, a); if (!has_clock_macro(s)) compare(c, p.inv[0], r.inv[0], r.after, p.n.tmpdir, a.inv[0], a.after, q.n.tmpdir, "one memory layout", "another memory layout", {}, false); }
		}
		if (c.v.size() && P != "P09") break; if (c.v.size()) break;
	}
	for (int i = 0; i < F_NKINDS; i++) (void)fb[i];
	return c.v;
}
