// Stub tools (not code under test): as, ld, sh, cat, cp, mv, rm, a generic wrapper.
// They run as ordinary simulated processes through the same kernel calls and faults,
// and report every error the way the real tools do (exit status != 0).
#include "sim.h"
#include <cstring>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>

static int say(const string &s) { k_write(2, s.data(), s.size()); return 1; }
static int slurp(int fd, string &o) { char b[1024]; for (;;) { long r = k_read(fd, b, sizeof b); if (r == -EINTR) continue; if (r < 0) return (int)-r; if (!r) return 0; o.append(b, r); } }
static int spew(int fd, const string &d) { size_t o = 0; while (o < d.size()) { size_t n = std::min<size_t>(d.size() - o, 2048); long r = k_write(fd, d.data() + o, n); if (r == -EINTR) continue; if (r < 0) return (int)-r; o += r; } return 0; }
static int load(const char *who, const string &p, string &d) {
	if (p == "-") { int e = slurp(0, d); if (e) return say(string(who) + ": read: " + strerror(e) + "\n"); return 0; }
	int fd = k_open(p.c_str(), O_RDONLY, 0); if (fd < 0) return say(string(who) + ": " + p + ": " + strerror(-fd) + "\n");
	int e = slurp(fd, d); k_close(fd); if (e) return say(string(who) + ": " + p + ": " + strerror(e) + "\n"); return 0;
}
static int store(const char *who, const string &p, const string &d, unsigned mode, bool tool) {
	int fd = k_open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, mode); if (fd < 0) return say(string(who) + ": " + p + ": " + strerror(-fd) + "\n");
	int e = spew(fd, d); int c = k_close(fd); if (!e && c < 0) e = -c;
	if (e) { say(string(who) + ": " + p + ": " + strerror(e) + "\n"); KStat st; if (tool && !W->stub_leaves_partial && k_stat(p.c_str(), &st, false) == 0 && st.type == I_REG) k_unlink(p.c_str(), false); return 1; }
	return 0;
}
static string objwrap(const string &body) { return "SIMOBJ " + std::to_string(body.size()) + " " + std::to_string(hash_str(body)) + "\n" + body + "\n.end\n"; }
static bool objok(const string &o, string *body) { size_t n; unsigned long long h; int off = 0; if (sscanf(o.c_str(), "SIMOBJ %zu %llu\n%n", &n, &h, &off) < 2 || !off) return false; if (o.size() != off + n + 6 || o.substr(off + n) != "\n.end\n") return false; string b = o.substr(off, n); if (hash_str(b) != h) return false; if (body) *body = b; return true; }

static int do_as(vector<string> &a) {
	string in, out = "a.out", opts; bool have = false;
	for (size_t i = 1; i < a.size(); i++) { if (a[i] == "-o" && i + 1 < a.size()) out = a[++i]; else if (a[i][0] == '-' && a[i] != "-") opts += a[i] + " "; else { if (have) return say("as: too many inputs\n"); in = a[i]; have = true; } }
	if (!have) in = "-";
	for (auto &o : {string("-Z"), string("--bad")}) if (opts.find(o) != string::npos) return say("as: unrecognized option\n");
	string d; if (load("as", in, d)) return 1;
	if (d.find(".simerror") != string::npos) return say("as: Error: bad directive\n");
	return store("as", out, objwrap("opts=" + opts + "\n" + d), 0666, true);
}
static int do_ld(vector<string> &a) {
	string out = "a.out", acc; vector<string> L;
	for (size_t i = 1; i < a.size(); i++) if (a[i].compare(0, 2, "-L") == 0) L.push_back(a[i].substr(2));
	for (size_t i = 1; i < a.size(); i++) {
		if (a[i] == "-o" && i + 1 < a.size()) { out = a[++i]; continue; }
		if (a[i] == "-dynamic-linker" || a[i] == "-z") { acc += a[i] + " " + a[i + 1] + "\n"; i++; continue; }
		if (a[i] == "--bad") return say("ld: unrecognized option\n");
		if (a[i].compare(0, 2, "-l") == 0) { string f; KStat st; for (auto &d : L) for (const char *ext : {".so", ".a"}) if (f.empty()) { string c = d + "/lib" + a[i].substr(2) + ext; if (k_stat(c.c_str(), &st, true) == 0) f = c; } if (f.empty()) return say("ld: cannot find " + a[i] + "\n"); string d; if (load("ld", f, d)) return 1; acc += a[i] + " => " + f + " " + std::to_string(hash_str(d)) + "\n"; continue; }
		if (a[i][0] == '-') { acc += a[i] + "\n"; continue; }
		string d, b; if (load("ld", a[i], d)) return 1;
		if (d.compare(0, 6, "SIMLIB") == 0) { acc += "lib " + std::to_string(hash_str(d)) + "\n"; continue; }
		if (!objok(d, &b)) return say("ld: " + a[i] + ": file format not recognized\n");
		if (b.find("undefined_ref_sym") != string::npos) return say("ld: undefined reference\n");
		acc += "obj " + b + "\n";
	}
	KStat st; if (k_stat(out.c_str(), &st, false) == 0 && st.type == I_REG) k_unlink(out.c_str(), false);
	return store("ld", out, "SIMEXE\n" + acc + "SIMEXE-END\n", 0777, true);
}
static int do_cat(const vector<string> &a, int ofd) {
	bool any = false, dd = false; for (size_t i = 1; i < a.size(); i++) { if (!dd && a[i] == "--") { dd = true; continue; } any = true; int fd = a[i] == "-" && !dd ? 0 : k_open(a[i].c_str(), O_RDONLY, 0); if (fd < 0) return say("cat: " + a[i] + ": " + strerror(-fd) + "\n");
		char b[1500]; for (;;) { long r = k_read(fd, b, sizeof b); if (r == -EINTR) continue; if (r < 0) return say("cat: " + a[i] + ": " + strerror((int)-r) + "\n"); if (!r) break; int e = spew(ofd, string(b, r)); if (e) return say(string("cat: write error: ") + strerror(e) + "\n"); } if (fd) k_close(fd); }
	if (!any) { string d; int e = slurp(0, d); if (e) return 1; if (spew(ofd, d)) return 1; }
	int c = k_close(ofd); if (c < 0) return say("cat: write error\n");
	return 0;
}
static int do_cp(vector<string> a, bool mv) {
	vector<string> f; bool dd = false; for (size_t i = 1; i < a.size(); i++) { if (!dd && a[i] == "--") { dd = true; continue; } if (!dd && a[i].size() > 1 && a[i][0] == '-') continue; f.push_back(a[i]); }
	if (f.size() != 2) return say("cp: usage\n"); string dst = f[1]; KStat st; if (k_stat(dst.c_str(), &st, true) == 0 && st.type == I_DIR) { size_t k = f[0].rfind('/'); dst += "/" + (k == string::npos ? f[0] : f[0].substr(k + 1)); }
	if (mv) { int r = k_rename(f[0].c_str(), dst.c_str()); if (r == 0) return 0; return say(string("mv: ") + strerror(-r) + "\n"); }
	string d; if (load("cp", f[0], d)) return 1; unsigned m = 0666; if (k_stat(f[0].c_str(), &st, true) == 0) m = st.mode; return store("cp", dst, d, m, false);
}
static int do_rm(vector<string> a) { bool force = false, dd = false; int rc = 0; for (size_t i = 1; i < a.size(); i++) { if (!dd && a[i] == "--") { dd = true; continue; } if (!dd && a[i].size() > 1 && a[i][0] == '-') { if (a[i].find('f') != string::npos) force = true; continue; } int r = k_unlink(a[i].c_str(), false); if (r < 0 && !(force && r == -ENOENT)) rc = say("rm: " + a[i] + ": " + strerror(-r) + "\n"); } return rc; }

// ---- a small POSIX-ish shell: words, quotes, $0..$9 "$@", > >> <, ; && || newline, exec, test -f, if-less
static int run_simple(vector<string> w, int ofd);
static string find_path(const string &n) { if (n.find('/') != string::npos) return n; for (const char *d : {"/bin/", "/usr/bin/"}) { KStat st; string c = d + n; if (k_stat(c.c_str(), &st, true) == 0) return c; } return ""; }
static int external(vector<string> w) {
	string p = find_path(w[0]); if (p.empty()) { say("sh: " + w[0] + ": not found\n"); return 127; }
	int pid = k_fork(); if (pid < 0) { say("sh: cannot fork\n"); return 2; }
	if (pid == 0) { k_exec(p, cur ? w : w, cur->env); k_exit(126); }
	int st = 0; if (k_wait(pid, &st, 0) < 0) return 2; if ((st & 0x7f) == 0) return (st >> 8) & 0xff; return 128 + (st & 0x7f);
}
static int do_sh(vector<string> &a) {
	size_t i = 1; bool eflag = false, cflag = false; while (i < a.size() && a[i].size() > 1 && a[i][0] == '-') { if (a[i] == "--") { i++; break; } for (char ch : a[i].substr(1)) { if (ch == 'c') cflag = true; if (ch == 'e') eflag = true; } i++; }
	if (!cflag || i >= a.size()) return say("sh: only -c is supported\n");
	string s = a[i++]; vector<string> pos(a.begin() + i, a.end()); if (pos.empty()) pos.push_back("sh");
	size_t p = 0; int rc = 0; int connector = 0; // 0 always, 1 &&, 2 ||
	while (p < s.size()) {
		vector<string> w; string rin, rout; bool app = false, done = false; int next = 0, pend = 0; // pend: 1 >, 2 >>, 3 <
		while (p < s.size() && !done) {
			char c = s[p];
			if (c == ' ' || c == '\t') { p++; continue; }
			if (c == '\n' || c == ';') { p++; done = true; break; }
			if (s.compare(p, 2, "&&") == 0) { p += 2; next = 1; done = true; break; }
			if (s.compare(p, 2, "||") == 0) { p += 2; next = 2; done = true; break; }
			if (c == '&' || c == '|' || c == '(' || c == ')' || c == '`') { say(string("sh: syntax error near ") + c + "\n"); return 2; }
			if (s.compare(p, 2, ">>") == 0) { p += 2; pend = 2; continue; }
			if (s.compare(p, 2, ">|") == 0) { p += 2; pend = 1; continue; }
			if (c == '>') { p++; pend = 1; continue; }
			if (c == '<') { p++; pend = 3; continue; }
			if (c == '#') { while (p < s.size() && s[p] != '\n') p++; continue; }
			string word; bool quoted = false, multi = false; vector<string> exp;
			auto dollar = [&](bool q) { p++; if (p < s.size() && s[p] == '{') { size_t e = s.find('}', p); string n = s.substr(p + 1, e - p - 1); p = e + 1; if (n.size() == 1 && isdigit(n[0])) { size_t k = n[0] - '0'; if (k < pos.size()) word += pos[k]; } return; } if (p < s.size() && isdigit((unsigned char)s[p])) { size_t k = s[p++] - '0'; if (k < pos.size()) word += pos[k]; } else if (p < s.size() && (s[p] == '@' || s[p] == '*')) { p++; multi = true; for (size_t k = 1; k < pos.size(); k++) exp.push_back(pos[k]); } else if (p < s.size() && (isalpha((unsigned char)s[p]) || s[p] == '_')) { string n; while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) n += s[p++]; for (auto &e : cur->env) if (e.compare(0, n.size() + 1, n + "=") == 0) word += e.substr(n.size() + 1); } else word += '$'; (void)q; };
			while (p < s.size()) {
				c = s[p];
				if (c == '\'') { quoted = true; size_t e = s.find('\'', p + 1); if (e == string::npos) { say("sh: unterminated quote\n"); return 2; } word += s.substr(p + 1, e - p - 1); p = e + 1; }
				else if (c == '"') { quoted = true; p++; while (p < s.size() && s[p] != '"') { if (s[p] == '\\' && p + 1 < s.size() && strchr("\\\"$`", s[p + 1])) { word += s[p + 1]; p += 2; } else if (s[p] == '$') dollar(true); else word += s[p++]; } if (p >= s.size()) { say("sh: unterminated quote\n"); return 2; } p++; }
				else if (c == '\\') { if (p + 1 < s.size()) word += s[p + 1]; p += 2; quoted = true; }
				else if (c == '$') dollar(false);
				else if (strchr(" \t\n;&|<>()", c)) break;
				else word += c, p++;
			}
			if (pend) { if (pend == 3) rin = word; else rout = word, app = pend == 2; if (word.empty()) { say("sh: cannot open : No such file\n"); return 2; } pend = 0; }
			else if (multi) { for (auto &x : exp) w.push_back(x); }
			else if (quoted || !word.empty()) w.push_back(word);
		}
		bool skip = (connector == 1 && rc != 0) || (connector == 2 && rc == 0); connector = next;
		if (skip || (w.empty() && rout.empty() && rin.empty())) continue;
		int so = k_dup(1, 10), si = k_dup(0, 10); bool fail = false;
		if (!rin.empty()) { int fd = k_open(rin.c_str(), O_RDONLY, 0); if (fd < 0) { rc = 2; fail = true; say("sh: cannot open " + rin + ": " + strerror(-fd) + "\n"); } else { k_dup2(fd, 0); k_close(fd); } }
		if (!fail && !rout.empty()) { int fd = k_open(rout.c_str(), O_WRONLY | O_CREAT | (app ? O_APPEND : O_TRUNC), 0666); if (fd < 0) { rc = 2; fail = true; say("sh: cannot create " + rout + ": " + strerror(-fd) + "\n"); } else { k_dup2(fd, 1); k_close(fd); } }
		if (!fail) { while (!w.empty() && (w[0] == "exec" || w[0] == "command")) w.erase(w.begin()); if (w.empty()) rc = 0; else rc = run_simple(w, 1); }
		k_dup2(so, 1); k_dup2(si, 0); k_close(so); k_close(si);
		if (eflag && rc) return rc;
	}
	return rc;
}
static int run_simple(vector<string> w, int ofd) {
	if (w[0] == "cat" || w[0] == "/bin/cat") { int d = k_dup(ofd, 10); return do_cat(w, d); }
	if (w[0] == "cp") return do_cp(w, false);
	if (w[0] == "mv") return do_cp(w, true);
	if (w[0] == "rm") return do_rm(w);
	if (w[0] == "true" || w[0] == ":") return 0;
	if (w[0] == "false") return 1;
	if (w[0] == "exit") return w.size() > 1 ? atoi(w[1].c_str()) : 0;
	if (w[0] == "umask" && w.size() > 1) { k_umask((unsigned)strtol(w[1].c_str(), nullptr, 8)); return 0; }
	if (w[0] == "echo" || w[0] == "printf") { string o; for (size_t i = 1; i < w.size(); i++) o += (i > 1 ? " " : "") + w[i]; o += "\n"; return spew(ofd, o) ? 1 : 0; }
	return external(w);
}
static int do_wrap(vector<string> &a) { // execs the rest of its arguments
	size_t i = 1; while (i < a.size() && a[i].compare(0, 2, "--") == 0) i++; // own options
	if (i >= a.size()) return say("wrap: nothing to run\n");
	vector<string> r(a.begin() + i, a.end()); string p = find_path(r[0]); if (p.empty()) { say("wrap: " + r[0] + ": not found\n"); return 127; }
	int e = k_exec(p, r, cur->env); say("wrap: " + r[0] + ": " + strerror(-e) + "\n"); return 126;
}
int stub_main(int prog) {
	vector<string> a = cur->argv;
	switch (prog) {
		case PR_AS: return do_as(a); case PR_LD: return do_ld(a); case PR_SH: return do_sh(a); case PR_CAT: { return do_cat(a, 1); }
		case PR_CP: return do_cp(a, false); case PR_MV: return do_cp(a, true); case PR_RM: return do_rm(a); case PR_WRAP: return do_wrap(a);
		case PR_TRUE: case PR_DSYM: return 0; case PR_FALSE: return 1;
	}
	return 99;
}
