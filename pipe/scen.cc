// Scenario model: serialisation, worlds, reference runs.
#include "scen.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <sstream>
#include <fstream>

string g_inc, g_corpus; Stats G; bool g_quiet = false;
void set_cfg(const string &inc, const string &corpus) { g_inc = inc; g_corpus = corpus; }

// ------------------------------------------------------------ serialisation
static string esc(const string &s) { string o; char b[8]; for (unsigned char c : s) { if (c <= ' ' || c == '%' || c >= 127) { snprintf(b, sizeof b, "%%%02X", c); o += b; } else o += (char)c; } return o.empty() ? "%" : o; }
static string unesc(const string &s) { if (s == "%") return ""; string o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i]; return o; }
string ser(const Scenario &s) {
	std::ostringstream o; o << "scenario 1\nprop " << s.prop << "\nkind " << esc(s.kind) << "\nseed " << s.seed << "\n";
	for (auto &n : s.notes) o << "note " << esc(n) << "\n";
	for (auto &e : s.env) o << "env " << esc(e) << "\n";
	auto file = [&](const char *k, const FileSpec &f) { o << k << " " << esc(f.path) << " " << f.type << " " << f.mode << " " << f.mtime << " " << esc(f.data) << "\n"; };
	for (auto &f : s.files) file("file", f);
	for (auto &p : s.ph) {
		o << "phase\n"; auto &n = p.n;
		o << "nuis " << n.seed << " " << n.hostile << " " << n.short_io << " " << n.leave_partial << " " << n.switch_pct << " " << n.tick_max << " " << n.now_us << " " << n.pid0 << " " << esc(n.tmpdir) << " " << n.jump_at << " " << n.jump << "\n";
		for (auto &e : n.env) o << "nenv " << esc(e) << "\n";
		for (auto &f : p.edits) file("edit", f);
		for (auto &f : p.removes) o << "remove " << esc(f) << "\n";
		for (auto &v : p.inv) {
			o << "inv " << v.mode << " " << esc(v.out) << " " << v.joined << " " << v.save_temps << " " << v.verbose << " " << v.timed << " " << v.optafter << " " << v.md << " " << esc(v.mf) << " " << esc(v.wrapper) << " " << esc(v.cwd) << " " << v.um << " " << esc(v.sin) << " " << v.outk << " " << v.outn << "\n";
			for (auto &i : v.in) o << "in " << esc(i.path) << " " << esc(i.x) << "\n";
			for (auto &f : v.flags) o << "flag " << esc(f) << "\n";
		}
		for (auto &f : p.faults) o << "fault " << f.drv << " " << f.ex << " " << f.cls << " " << f.nth << " " << f.kind << " " << f.param << "\n";
		for (auto &h : p.inh) o << "inherit " << h.drv << " " << h.status << " " << h.at << "\n";
	}
	return o.str();
}
bool deser(const string &t, Scenario &s, string *err) {
	std::istringstream is(t); string line; s = Scenario(); bool ok = false;
	while (std::getline(is, line)) {
		if (line.empty() || line[0] == '#') continue; std::istringstream l(line); string k; l >> k; auto S = [&]() { string x; l >> x; return unesc(x); };
		if (k == "scenario") ok = true; else if (k == "prop") l >> s.prop; else if (k == "kind") s.kind = S(); else if (k == "seed") l >> s.seed; else if (k == "note") s.notes.push_back(S()); else if (k == "env") s.env.push_back(S());
		else if (k == "file" || k == "edit") { FileSpec f; f.path = S(); l >> f.type >> f.mode >> f.mtime; f.data = S(); if (k == "file") s.files.push_back(f); else s.ph.back().edits.push_back(f); }
		else if (k == "phase") s.ph.emplace_back();
		else if (k == "nuis") { auto &n = s.ph.back().n; l >> n.seed >> n.hostile >> n.short_io >> n.leave_partial >> n.switch_pct >> n.tick_max >> n.now_us >> n.pid0; n.tmpdir = S(); l >> n.jump_at >> n.jump; }
		else if (k == "nenv") s.ph.back().n.env.push_back(S()); else if (k == "remove") s.ph.back().removes.push_back(S());
		else if (k == "inv") { Inv v; l >> v.mode; v.out = S(); l >> v.joined >> v.save_temps >> v.verbose >> v.timed >> v.optafter >> v.md; v.mf = S(); v.wrapper = S(); v.cwd = S(); l >> v.um; v.sin = S(); l >> v.outk >> v.outn; s.ph.back().inv.push_back(v); }
		else if (k == "in") { Input i; i.path = S(); i.x = S(); s.ph.back().inv.back().in.push_back(i); }
		else if (k == "flag") s.ph.back().inv.back().flags.push_back(S());
		else if (k == "fault") { Fault f; l >> f.drv >> f.ex >> f.cls >> f.nth >> f.kind >> f.param; s.ph.back().faults.push_back(f); }
		else if (k == "inherit") { World::Inh h; l >> h.drv >> h.status >> h.at; h.pid = 0; s.ph.back().inh.push_back(h); }
		else if (k == "expect" || k == "expect-hash") {} else { if (err) *err = "unknown line: " + line; return false; }
	}
	return ok;
}

// ------------------------------------------------------------ invocation model
vector<string> build_args(const Inv &v) {
	vector<string> a, o;
	switch (v.mode) { case 'E': o.push_back("-E"); break; case 'S': o.push_back("-S"); break; case 'c': o.push_back("-c"); break; case 'y': o.push_back("-fsyntax-only"); break; case 'M': o.push_back("-MM"); break; }
	if (!v.out.empty()) { if (v.joined) o.push_back("-o" + v.out); else { o.push_back("-o"); o.push_back(v.out); } }
	if (v.save_temps) o.push_back("-save-temps"); if (v.verbose) o.push_back("-v"); if (v.timed) o.push_back("-time");
	if (v.md) o.push_back("-MD"); if (!v.mf.empty()) { o.push_back("-MF"); o.push_back(v.mf); }
	if (!v.wrapper.empty()) { o.push_back("-wrapper"); o.push_back(v.wrapper); }
	for (auto &f : v.flags) o.push_back(f);
	if (!v.optafter) a = o;
	string cx; bool dash = false;
	for (auto &i : v.in) { if (i.x != cx) { a.push_back("-x"); a.push_back(i.x.empty() ? "none" : i.x); cx = i.x; } (void)dash; a.push_back(i.path); }
	if (v.optafter) a.insert(a.end(), o.begin(), o.end());
	return a;
}
static string bname(const string &p) { size_t k = p.rfind('/'); return k == string::npos ? p : p.substr(k + 1); }
static string with_ext(const string &in, char ext) { string b = bname(in); size_t n = b.size(); if (n > 2 && b[n - 2] == '.') { b[n - 1] = ext; return b; } size_t d = b.rfind('.'); if (d != string::npos && d > 0) return b.substr(0, d + 1) + ext; return b + "." + ext; }
static char kind_of(const Input &i) { // c i s S o
	if (i.x == "c") return 'c'; if (i.x == "cpp-output") return 'i'; if (i.x == "assembler" || i.x == "asm") return 's'; if (i.x == "assembler-with-cpp" || i.x == "asm-with-cpp") return 'S';
	if (i.path == "-") return 'c'; size_t d = i.path.rfind('.'); if (d != string::npos && i.path.size() == d + 2) { char c = i.path[d + 1]; if (strchr("cisS", c)) return c; } return 'o';
}
static string absp(const Inv &v, const string &p) { return path_norm(v.cwd, p); }
// does an input of this kind produce something in this mode?
static bool takes(char k, int mode) { switch (mode) { case 'E': case 'M': return k == 'c' || k == 'S'; case 'S': case 'y': return k == 'c' || k == 'i'; case 'c': return k != 'o'; } return true; }
vector<Output> outputs_of(const Inv &v) {
	vector<Output> r; int n = (int)v.in.size();
	if (v.mode == 'y') return r;
	if (v.mode == 'l') { Output o; o.path = absp(v, v.out.empty() ? "a.out" : v.out); for (int i = 0; i < n; i++) o.inputs.push_back(i); r.push_back(o); return r; }
	if (v.mode == 'E' || v.mode == 'M' || (v.mode == 'S' && v.out == "-")) { Output o; if (v.out.empty() || v.out == "-") o.is_stdout = true; else o.path = absp(v, v.out); for (int i = 0; i < n; i++) if (takes(kind_of(v.in[i]), v.mode)) o.inputs.push_back(i); if (o.inputs.size()) r.push_back(o); return r; }
	for (int i = 0; i < n; i++) { if (!takes(kind_of(v.in[i]), v.mode)) continue; Output o; o.inputs = {i}; o.path = absp(v, v.out.empty() ? with_ext(v.in[i].path, v.mode == 'S' ? 's' : 'o') : v.out); r.push_back(o); }
	return r;
}
string dep_of(const Inv &v) {
	if (v.mf.empty() && !v.md) return "";
	if (!v.mf.empty()) return absp(v, v.mf);
	if (!v.out.empty()) return absp(v, v.mode == 'E' || v.mode == 'M' ? v.out : v.out + ".d");
	string b = bname(v.in[0].path); size_t d = b.rfind('.'); return absp(v, d != string::npos ? b.substr(0, d) + ".d" : b + ".d");
}
set<string> temps_of(const Inv &v) { // names -save-temps may write
	set<string> r; if (!v.save_temps) return r;
	for (auto &i : v.in) { char k = kind_of(i); if (k == 'o') continue; if (k == 'c' || k == 'S') r.insert(absp(v, with_ext(i.path, 'i'))); if (k == 'c' || k == 'i') r.insert(absp(v, with_ext(i.path, 's'))); r.insert(absp(v, with_ext(i.path, 'o'))); if (k == 'S') r.insert(absp(v, with_ext(i.path, 's'))); }
	for (auto &i : v.in) r.erase(absp(v, i.path));
	return r;
}
string describe(const Scenario &s) {
	std::ostringstream o;
	for (size_t p = 0; p < s.ph.size(); p++) { for (auto &v : s.ph[p].inv) { o << "ucc"; for (auto &a : build_args(v)) o << " " << (a.find(' ') != string::npos ? "'" + a + "'" : a); if (v.outk == OUT_FULL) o << " >/dev/full"; if (v.outk == OUT_LIMIT) o << " >(stdout full after " << v.outn << " bytes)"; o << "; "; }
		for (auto &f : s.ph[p].faults) { o << "[fault: " << fault_names[f.kind]; if (f.kind == F_ERRNO || f.kind == F_CLOSE_ERR) o << " " << errname(f.param); else o << " " << f.param; o << " at invocation " << f.drv << " process " << f.ex << " " << op_names[f.cls] << " #" << f.nth << "] "; }
		for (auto &h : s.ph[p].inh) o << "[inherited child of invocation " << h.drv << " exits with status " << h.status << " after " << h.at << " operations] "; }
	return o.str();
}

// ------------------------------------------------------------ worlds
static void put_prog(World &w, const string &path, int prog) { auto n = vfs_node(w, path, I_PROG, 0755); n->prog = prog; }
void base_world(World &w, const vector<FileSpec> &files) {
	w.root = std::make_shared<Inode>(); w.root->type = I_DIR; w.root->mode = 0755; w.next_ino = 10;
	put_prog(w, "/ucc/src/ucc/ucc", PR_UCC); put_prog(w, "/ucc/src/cpp2/cpp", PR_CPP); put_prog(w, "/ucc/src/cc1/cc1", PR_CC1);
	for (int p = PR_AS; p < PR_N; p++) put_prog(w, string("/bin/") + prog_names[p], p);
	vfs_hostdir(w, "/ucc/src/include", g_inc); vfs_put(w, "/ucc/src/rt/dsohandle.o", "SIMLIB dsohandle", 0644);
	for (const char *f : {"Scrt1.o", "crt1.o", "rcrt1.o", "gcrt1.o", "crti.o", "crtn.o"}) vfs_put(w, string("/usr/lib/x86_64-linux-gnu/") + f, string("SIMLIB ") + f);
	vfs_put(w, "/usr/lib/libc.so", "SIMLIB libc"); vfs_put(w, "/usr/lib/libm.so", "SIMLIB libm");
	vfs_hostdir(w, "/usr/include", "/usr/include"); vfs_mkdirs(w, "/usr/local/include");
	vfs_node(w, "/dev/null", I_NULL, 0666); vfs_node(w, "/dev/full", I_FULL, 0666);
	vfs_mkdirs(w, "/tmp", 0777); vfs_mkdirs(w, "/w"); vfs_mkdirs(w, "/ref");
	for (auto &f : files) { InodeP i; if (f.type == I_DIR) { i = vfs_mkdirs(w, f.path); i->mode = f.mode; } else if (f.type == I_SYMLINK && f.data.compare(0, 9, "hardlink:") == 0) { i = vfs_hardlink(w, f.path, f.data.substr(9)); if (!i) continue; } else if (f.type == I_SYMLINK) i = vfs_symlink(w, f.path, f.data); else { i = vfs_node(w, f.path, (InodeType)f.type, f.mode); i->data = f.data; } i->mtime = f.mtime; }
}
static void snapshot(World &w, SnapMap &m) { map<string, InodeP> l; vfs_list(w, l); for (auto &e : l) { if (e.second->type == I_PROG || e.first.compare(0, 5, "/ucc/") == 0 || e.first.compare(0, 5, "/usr/") == 0) continue; m[e.first] = {e.second->id, e.second->type, e.second->mode, e.second->type == I_DIR || e.second->type == I_CAP ? string() : e.second->data, e.second->mtime}; } }

void Runner::begin(Scenario &sc) { s = &sc; World w; base_world(w, sc.files); root = w.root; next_ino = w.next_ino; }
void Runner::run(const Phase &p, PhaseRes &r, bool oplog, bool events) {
	World &w = r.w; w.root = root; w.next_ino = next_ino; const Nuis &n = p.n;
	w.now_us = n.now_us; w.next_pid = n.pid0; w.sched = Rng(mix(n.seed, 1)); w.layout = Rng(mix(n.seed, 2)); w.misc = Rng(mix(n.seed, 3));
	w.hostile = n.hostile; w.short_io = n.short_io; w.stub_leaves_partial = n.leave_partial; w.switch_pct = n.switch_pct; w.tick_max = n.tick_max; w.clock_jump_at = n.jump_at; w.clock_jump = n.jump;
	w.faults = p.faults; w.inherited = p.inh; w.want_oplog = oplog; w.want_events = events; w.step_budget = 3000000;
	if (!n.tmpdir.empty()) vfs_mkdirs(w, n.tmpdir, 0777);
	for (auto &f : p.edits) { InodeP old = vfs_lookup(w, f.path, false); if (old && old->type == I_REG && f.type == I_REG) { old->data = f.data; old->mode = f.mode; old->mtime = f.mtime; } else { InodeP i; if (f.type == I_SYMLINK) i = vfs_symlink(w, f.path, f.data); else if (f.type == I_DIR) i = vfs_mkdirs(w, f.path, f.mode); else { i = vfs_node(w, f.path, (InodeType)f.type, f.mode); i->data = f.data; } i->mtime = f.mtime; } }
	for (auto &f : p.removes) { size_t k = f.rfind('/'); InodeP d = vfs_lookup(w, k ? f.substr(0, k) : "/"); if (d) d->ents.erase(f.substr(k + 1)); }
	snapshot(w, r.before);
	vector<InodeP> os, es;
	for (auto &v : p.inv) {
		auto mk = [&](InodeType t) { auto i = std::make_shared<Inode>(); i->type = t; i->mode = 0600; i->id = 0; return i; };
		InodeP in = mk(I_REG); in->data = v.sin; InodeP out = mk(v.outk == OUT_FULL ? I_FULL : v.outk == OUT_NULL ? I_NULL : I_CAP); if (v.outk == OUT_LIMIT) out->full_after = v.outn; InodeP er = mk(I_CAP);
		vector<string> a{"/ucc/src/ucc/ucc"}; auto b = build_args(v); a.insert(a.end(), b.begin(), b.end());
		vector<string> env{"PATH=/bin:/usr/bin"}; if (!n.tmpdir.empty()) env.push_back("TMPDIR=" + n.tmpdir); env.insert(env.end(), s->env.begin(), s->env.end()); env.insert(env.end(), n.env.begin(), n.env.end());
		os.push_back(out); es.push_back(er);
		world_spawn(w, a, env, v.cwd, v.um, in, out, er);
	}
	world_run(w);
	for (size_t i = 0; i < p.inv.size(); i++) { InvRes x; x.status = w.drv_status.count((int)i) ? w.drv_status[(int)i] : -1; x.out = os[i]->data; x.err = es[i]->data; r.inv.push_back(x); }
	snapshot(w, r.after);
	root = w.root; next_ino = w.next_ino;
	if (!g_quiet) { G.worlds++; G.ops += w.nops; G.simsec += (w.now_us - n.now_us) / 1e6; G.switches += w.nswitch; for (int i = 0; i < F_NKINDS; i++) G.fired[i] += w.fired[i]; }
	u64 h = w.evhash; for (auto &x : r.inv) { h = mix(h, (u64)(unsigned)x.status); h = hash_str(x.out, h); h = hash_str(x.err, h); } for (auto &e : r.after) { h = hash_str(e.first, h); h = hash_str(e.second.data, h); h = mix(h, e.second.mode * 8 + e.second.type); }
	w.evhash = h; if (!g_quiet) G.fps.insert(h);
}
