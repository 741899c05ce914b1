// Seeded scenario generators, one family per property.
#include "scen.h"
#include <cerrno>
#include <csignal>
#include <cstring>
#include <fstream>
#include <algorithm>

// ------------------------------------------------------------ C sources
static string num(long n) { return std::to_string(n); }
struct SrcOpt { int funcs = 3; vector<string> incl; int err = 0; bool comments = true; string tag; bool main_fn = true; };
enum { ERR_NONE, ERR_SYNTAX, ERR_SEM, ERR_CPP, ERR_AS, ERR_LD, ERR_INC, ERR_LATE, ERR_N };
static string expr(Rng &r, int d, const vector<string> &v) {
	if (d <= 0 || r.chance(1, 4)) return r.chance(1, 2) && v.size() ? r.pick(v) : num(r.range(0, 999));
	static const vector<string> ops{"+", "-", "*", "&", "|", "^", "<", ">", "==", "&&", "||"};
	switch (r.below(6)) { case 0: return "(" + expr(r, d - 1, v) + " ? " + expr(r, d - 1, v) + " : " + expr(r, d - 1, v) + ")"; case 1: return "-(" + expr(r, d - 1, v) + ")"; case 2: return "~(" + expr(r, d - 1, v) + ")"; default: return "(" + expr(r, d - 1, v) + " " + r.pick(ops) + " " + expr(r, d - 1, v) + ")"; }
}
string gen_c(Rng &r, const SrcOpt &o) {
	string s, t = o.tag.empty() ? string(1, (char)('a' + r.below(26))) : o.tag;
	if (o.comments && r.chance(1, 2)) s += "/* unit " + t + "\n   generated */\n";
	for (auto &i : o.incl) s += "#include " + i + "\n";
	if (o.err == ERR_CPP) s += r.chance(1, 2) ? "#error stop here\n" : "#if 1\n";
	if (o.err == ERR_INC) s += "#include \"no_such_header.h\"\n";
	if (r.chance(1, 3)) s += "#define K_" + t + " " + num(r.range(1, 99)) + "\n#define ADD_" + t + "(a, b) ((a) + (b))\n"; else s += "#define K_" + t + " 5\n#define ADD_" + t + "(a, b) ((a) + (b) + 1)\n";
	if (r.chance(1, 2)) s += "struct S_" + t + " { int a; char b[" + num(r.range(1, 20)) + "]; long c; };\nstatic struct S_" + t + " s_" + t + " = { 1, \"" + string(r.below(1) + 0, 'x') + "\", K_" + t + " };\n"; else s += "struct S_" + t + " { int a; long c; };\nstruct S_" + t + " s_" + t + ";\n";
	int n = o.funcs;
	for (int i = 0; i < n; i++) {
		string f = "f" + num(i) + "_" + t;
		switch (r.below(16)) {
			case 7: { static const char *at[] = {"constructor", "destructor", "constructor(200)", "constructor(150)", "destructor(300)"}; for (int k = 0, m = r.range(1, 5); k < m; k++) s += "__attribute__((" + string(at[r.chance(2, 3) ? r.below(2) : r.below(5)]) + ")) " + string(r.chance(1, 2) ? "static " : "") + "void " + f + "_" + num(k) + "(void) { extern int cnt_" + t + "; cnt_" + t + " += " + num(k) + "; }\n"; break; }
			case 8: s += "static inline int " + f + "_i(int a) { static int calls = " + num(r.range(1, 9)) + "; return a + calls++; }\nint " + f + "(int a) { return " + f + "_i(a) + " + f + "_i(" + num(r.below(50)) + "); }\n"; break;
			case 9: s += "union U_" + f + " { float f; unsigned u : " + num(r.range(2, 31)) + "; struct { short a : 5, b : 7; unsigned c : 3; } s; };\nint " + f + "(union U_" + f + " *p, int v) { p->s.b = v; p->s.c += 3; p->u ^= " + num(r.below(99)) + "; return p->s.a + p->u; }\n"; break;
			case 10: s += "struct S3_" + f + " { long a, b, c; };\nstruct S3_" + f + " " + f + "(int n) { struct S3_" + f + " x = { .b = n, .c = " + num(r.below(100)) + " }, *p = &(struct S3_" + f + "){ 1, 2, n }; x.a = p->c; return n > 3 ? x : *p; }\n"; break;
			case 11: s += "int " + f + "(int n) { static const void *tab[] = { &&l0, &&l1, &&l2 }; int x = 0; goto *tab[n % 3]; l0: x++; l1: x += " + num(r.range(2, 60)) + "; l2: return x + ({ int q_ = x; q_ << 2; }); }\n"; break;
			case 12: s += "__asm(\"# note " + f + "\");\nint " + f + "_w(int) __attribute__((weak));\n__attribute__((section(\".sec_" + num(r.below(3)) + "\"))) int " + f + "_v" + (r.chance(1, 2) ? " = " + num(r.below(9)) : string()) + ";\nint " + f + "(int a) { return " + f + "_w ? " + f + "_w(a) : a; }\n"; break;
			case 13: s += "int wide_" + f + "[] = L\"w" + num(r.below(100)) + "\\x41\"; static const double dt_" + f + "[] = { 1.5, -2.25e10, " + num(r.below(99)) + ".125, 0 }; double " + f + "(double x, int i) { return x / 3.7 + dt_" + f + "[i & 3] - 2.5f; }\n"; break;
			case 14: s += "typedef int (*fp_" + f + ")(int, ...); static int " + f + "_t(int a, ...) { __builtin_va_list l; __builtin_va_start(l, a); int x = __builtin_va_arg(l, int) + (int)__builtin_va_arg(l, long); __builtin_va_end(l); return x; }\nint " + f + "(int a) { fp_" + f + " p = " + f + "_t; return p(a, a + 1, (long)" + num(r.below(77)) + ") + _Generic(a, int: 1, char: 2, default: 3); }\n"; break;
			case 15: s += "static void cl_" + f + "(int *p) { *p = 0; }\nint " + f + "(int n) { int v __attribute__((cleanup(cl_" + f + "))) = n; for (int i = 0; i < n; i++) { int w __attribute__((cleanup(cl_" + f + "))) = i; char vl[i + 1]; vl[i] = w; if (vl[i] == 5) continue; if (w == " + num(r.range(6, 20)) + ") return v; } return v + 1; }\n"; break;
			case 0: s += "int " + f + "(int a, int b)\n{\n\tint i, x = " + num(r.range(0, 50)) + ";\n\tfor(i = 0; i < a; i++)\n\t\tx += " + expr(r, 3, {"a", "b", "i", "x"}) + ";\n\treturn x;\n}\n"; break;
			case 1: s += "static const char *" + f + "_names[] = { \"one " + num(r.below(1000)) + "\", \"two\", \"thr\\tee\\n\" };\nconst char *" + f + "(int i) { return " + f + "_names[i % 3]; }\n"; break;
			case 2: s += "long " + f + "(struct S_" + t + " *p, long n) {\n\tlong q = " + expr(r, 2, {"n"}) + ";\n\tswitch(n & 7){ case 0: q = p->a; break; case 1: q = p->c; break; case 2 ... 4: q += ADD_" + t + "(q, n); default: q--; }\n\twhile(q > 100) q -= " + num(r.range(1, 30)) + ";\n\treturn q;\n}\n"; break;
			case 3: s += "double " + f + "(double d, float g) { double z = d * " + num(r.range(1, 9)) + ".5; if(z > g) z -= g; return z + " + num(r.range(0, 9)) + "; }\n"; break;
			case 4: s += "int " + f + "(void) { static int count" + (r.chance(1, 2) ? " = " + num(r.range(1, 5)) : string()) + "; int arr[" + num(r.range(2, 30)) + "] = { 1, 2 }; return count++ + arr[1] + " + expr(r, 3, {"count"}) + "; }\n"; break;
			case 5: s += "int tab_" + f + "[] = {"; for (int k = 0, m = r.range(1, 120); k < m; k++) s += num(r.range(-9999, 9999)) + ","; s += "};\nunsigned char " + f + "(unsigned i) { return tab_" + f + "[i] >> 3; }\n"; break;
			default: s += "extern int ext_" + t + "(int, ...);\nint " + f + "(int a, long b, char c) { " + (r.chance(1, 2) ? "int v[a + 1]; v[a] = (int)b; a = v[a]; " : "") + "return ext_" + t + "(a, b, c, \"fmt %d\\n\", " + expr(r, 2, {"a", "b"}) + "); }\n"; break;
		}
		if (o.comments && r.chance(1, 4)) s += "// note " + num(i) + "\n";
		if (o.err == ERR_SYNTAX && i == n / 2) s += "int oops(int { return 3;\n";
	}
	if (o.err == ERR_SEM) s += "int bad(void) { return undeclared_thing + 1; }\n";
	if (o.err == ERR_AS) s += "__asm(\".simerror\");\n";
	if (o.err == ERR_LD) s += "extern int undefined_ref_sym(void); int useit(void) { return undefined_ref_sym(); }\n";
	if (o.main_fn) s += "int main_" + t + "(int argc, char **argv) { return argc + K_" + t + " + (int)s_" + t + ".a; }\n";
	if (o.err == ERR_LATE) s += "int late(void) { return 1 }\n";
	return s;
}
static string gen_hdr(Rng &r, const string &guard, const vector<string> &incl = {}) {
	string s = "#ifndef H_" + guard + "\n#define H_" + guard + "\n"; for (auto &i : incl) s += "#include " + i + "\n";
	int n = r.range(0, 3); for (int i = 0; i < n; i++) s += "#define V" + num(i) + "_" + guard + " " + num(r.range(0, 9999)) + "\n";
	s += "extern int x_" + guard + "_" + num(r.below(100)) + ";\nenum { E_" + guard + " = " + num(r.below(1000)) + " };\n";
	if (r.chance(1, 5)) { s += "/*"; for (int i = 0, m = r.range(1, 120); i < m; i++) s += " filler line " + num(i) + " of the header\n"; s += "*/\n"; }
	return s + "#endif\n";
}
static string simobj(const string &body) { return "SIMOBJ " + num(body.size()) + " " + std::to_string(hash_str(body)) + "\n" + body + "\n.end\n"; }
static vector<std::pair<string, string>> corpus;
void load_corpus() {
	if (corpus.size()) return; std::ifstream f(g_corpus, std::ios::binary); string all((std::istreambuf_iterator<char>(f)), {}); size_t p = 0;
	while (p < all.size() && all.compare(p, 3, "@@ ") == 0) { size_t e = all.find('\n', p); string h = all.substr(p + 3, e - p - 3); size_t sp = h.rfind(' '); size_t n = (size_t)atol(h.substr(sp + 1).c_str()); corpus.emplace_back(h.substr(0, sp), all.substr(e + 1, n)); p = e + 1 + n + 1; }
}
const vector<std::pair<string, string>> &the_corpus() { load_corpus(); return corpus; }

// ------------------------------------------------------------ invocations
static const vector<string> odd_names{"o p", "a;b", "q'uote", "do$lar", "pa(r)en", "st*r", "x&y", "lt<gt>", "semi;touch zz", "ba`ck`tick", "d\"q", "back\\slash", "ha#sh", "ti~lde", "br[a]", "pi|pe", "nl$(x)", "ex!cl", "eq=ual", "comma,d", "per%cent", "-dash", "--", "-rf", "sp  ace"};
struct GenCtx { Rng r; Scenario &s; int nfile = 0; set<string> used; vector<string> hdrs; GenCtx(u64 seed, Scenario &sc) : r(seed), s(sc) {} };
static void addfile(Scenario &s, const string &path, const string &data, unsigned mode = 0644) { FileSpec f; f.path = path; f.data = data; f.mode = mode; s.files.push_back(f); }
static void gen_headers(GenCtx &g) {
	int n = g.r.range(0, 3);
	for (int i = 0; i < n; i++) {
		string nm = "h" + num(i) + ".h"; bool inc = g.r.chance(1, 3); vector<string> sub; if (g.hdrs.size() && g.r.chance(1, 3)) { string h = g.r.pick(g.hdrs); if (!(inc && h[0] == '"')) sub.push_back(h); }
		addfile(g.s, (inc ? "/w/inc/" : "/w/") + nm, gen_hdr(g.r, "h" + num(i), sub)); g.hdrs.push_back(inc ? "<" + nm + ">" : "\"" + nm + "\"");
	}
}
static Input gen_input(GenCtx &g, Inv &v, int errkind, bool allow_odd) {
	Rng &r = g.r; Input in; int id = g.nfile++; string t = string(1, (char)('a' + id)); string dir = r.chance(1, 6) ? "sub/" : ""; string base = t + (r.chance(1, 3) ? num(r.below(100)) : "");
	int k = r.range(0, 19); // c mostly
	if (allow_odd && r.chance(1, 6)) { base = r.pick(odd_names); if (base[0] == '-' ) base = "n" + base; base += t; }
	if (errkind) k = 0;
	auto src = [&](int err) { SrcOpt o; o.tag = t; o.err = err; o.funcs = r.chance(1, 3) ? r.range(0, 2) : r.chance(1, 6) ? r.range(10, 30) : r.range(2, 7); for (auto &h : g.hdrs) if (r.chance(1, 2)) o.incl.push_back(dir.empty() || h[0] == '<' ? h : "\"../" + h.substr(1)); return gen_c(r, o); };
	if (k < 12) { in.path = dir + base + ".c"; addfile(g.s, "/w/" + in.path, src(errkind)); }
	else if (k == 12) { in.path = "-"; if (r.chance(1, 2)) in.x = "c"; if (!v.sin.empty()) { in.path = dir + base + ".c"; in.x = ""; addfile(g.s, "/w/" + in.path, src(0)); } else v.sin = src(0); }
	else if (k == 13) { in.path = dir + base + ".i"; SrcOpt o; o.tag = t; o.comments = false; string c = gen_c(r, o); string f; size_t p = 0; while (p < c.size()) { size_t e = c.find('\n', p); string l = c.substr(p, e - p); p = e + 1; if (l.empty() || l[0] == '#' || l.find("K_") != string::npos || l.find("ADD_") != string::npos || l.find("S_") != string::npos || l.find("s_") != string::npos) { if (l.size() && l.find('{') != string::npos) {} continue; } } f = "int gi_" + t + " = " + num(r.below(1000)) + ";\nint fi_" + t + "(int a) { return a + gi_" + t + "; }\n"; addfile(g.s, "/w/" + in.path, f); }
	else if (k == 14) { in.path = dir + base + ".s"; string f = ".text\n"; for (int i = 0, n = r.range(1, 40); i < n; i++) f += "l_" + t + num(i) + ": nop\n"; addfile(g.s, "/w/" + in.path, f); }
	else if (k == 15) { in.path = dir + base + ".S"; string f = "#define N " + num(r.below(99)) + "\n#ifdef __ASSEMBLER__\n.text\n#else\nint not_asm;\n#endif\n"; for (int i = 0, n = r.range(1, 40); i < n; i++) f += "\tmov $N, %eax\n"; addfile(g.s, "/w/" + in.path, f); }
	else if (k == 16) { in.path = dir + base + (r.chance(1, 2) ? ".o" : ".obj"); addfile(g.s, "/w/" + in.path, simobj("prebuilt " + t + num(r.below(1000)))); }
	else if (k == 17) { in.path = "lib" + t + ".a"; addfile(g.s, "/w/" + in.path, "SIMLIB " + t); }
	else if (k == 18) { static const vector<string> ex{"", ".cpp", ".txt", ".C", ".inc", "."}; in.path = dir + base + r.pick(ex); in.x = "c"; addfile(g.s, "/w/" + in.path, src(0)); }
	else { in.path = dir + base + ".c"; in.x = r.chance(1, 2) ? "c" : ""; addfile(g.s, "/w/" + in.path, src(0)); }
	return in;
}
static bool clash(const Inv &v) { // outputs must be distinct and differ from inputs
	set<string> ins, os; for (auto &i : v.in) { string p = path_norm(v.cwd, i.path); if (!ins.insert(p).second) return true; }
	for (auto &o : outputs_of(v)) if (!o.is_stdout && !os.insert(o.path).second) return true;
	auto t = temps_of(v); (void)t; string d = dep_of(v); if (!d.empty() && os.count(d)) return true;
	return false;
}
static Inv gen_inv(GenCtx &g, bool rich) {
	Rng &r = g.r; Inv v; int m = r.range(0, 11); v.mode = m < 2 ? 'E' : m < 4 ? 'S' : m < 8 ? 'c' : m < 10 ? 'l' : m < 11 ? 'M' : 'y';
	int n = r.chance(1, 2) ? 1 : r.range(1, 3); int errpos = rich && r.chance(1, 5) ? (int)r.below(n) : -1;
	v.save_temps = r.chance(1, 8); v.verbose = r.chance(1, 8); v.timed = r.chance(1, 16) && v.mode != 'E' && v.mode != 'M'; v.optafter = r.chance(1, 5);
	if (r.chance(1, 8)) v.wrapper = r.chance(1, 2) ? "/bin/wrap" : "/bin/wrap,--opt";
	for (int i = 0; i < n; i++) { v.in.push_back(gen_input(g, v, i == errpos ? r.range(1, ERR_N - 1) : 0, r.chance(1, 3))); }
	if (r.chance(1, 2)) { int k = r.range(0, 7); static const vector<string> fl{"-g", "-O2", "-DX=1", "-std=c99", "-fno-pic", "-fstack-protector-all", "-w", "-fno-common", "-U__x", "-P", "-Wall"}; for (int i = 0; i < k && i < 3; i++) { string f = r.pick(fl); if (f == "-P" && v.mode != 'E') continue; v.flags.push_back(f); } }
	v.flags.push_back("-Iinc");
	if (r.chance(1, 20)) v.flags.push_back(r.chance(1, 2) ? "-Wa,--bad" : "-Wl,--bad");
	for (auto &i : v.in) if (i.path == "-") v.save_temps = false; // -.o would be an option to ld
	bool multi_out = v.mode == 'S' || v.mode == 'c'; int outs = 0; { Inv t = v; t.out.clear(); outs = (int)outputs_of(t).size(); }
	if (v.mode != 'y' && r.chance(3, 5) && (!multi_out || (n == 1 && outs == 1))) {
		int k = r.range(0, 15); const char *e = v.mode == 'E' ? ".i" : v.mode == 'S' ? ".s" : v.mode == 'c' ? ".o" : v.mode == 'M' ? ".dep" : "";
		if (k < 6) v.out = string("out") + e; else if (k < 8) { v.out = string("bld/res") + e; } else if (k < 12) v.out = r.pick(odd_names) + e; else if (k == 12) v.out = "/dev/null"; else if (k == 13 && (v.mode == 'E' || v.mode == 'S')) v.out = "-"; else if (k == 14) { v.out = string("lnk") + e; FileSpec f; f.path = "/w/" + v.out; f.type = I_SYMLINK; f.data = "target_file"; g.s.files.push_back(f); addfile(g.s, "/w/target_file", "precious\n"); } else v.out = "../w/./up" + string(e);
		if (v.out == "--") v.out = "x--"; v.joined = v.out != "-" && r.chance(1, 4);
	}
	if (r.chance(1, 6) && n == 1 && v.mode != 'M' && v.mode != 'y') { char kk = v.in[0].path.back(); if ((kk == 'c' || kk == 'S') && v.in[0].path != "-") { v.md = true; if (v.mode == 'E' || r.chance(1, 2)) v.mf = r.chance(1, 2) ? "deps.mk" : "bld/d.d"; } }
	if (v.optafter) { bool x = false; for (auto &i : v.in) if (!i.x.empty()) x = true; (void)x; }
	if (r.chance(1, 10) && (v.mode == 'E' || v.mode == 'M' || (v.mode == 'S' && v.out == "-"))) { v.outk = r.chance(1, 3) ? OUT_FULL : OUT_LIMIT; v.outn = r.chance(1, 2) ? r.range(0, 200) : r.range(0, 9000); }
	if (v.out == "-") v.timed = false;
	v.um = r.chance(2, 3) ? 022 : r.pick(vector<unsigned>{0, 002, 027, 077});
	return v;
}
static void add_dirs(Scenario &s) { for (auto d : {"/w/inc", "/w/bld", "/w/sub"}) { FileSpec f; f.path = d; f.type = I_DIR; f.mode = 0755; s.files.insert(s.files.begin(), f); } }
static void stale(GenCtx &g, const Inv &v) { // outputs left by an earlier build
	Rng &r = g.r;
	for (auto &o : outputs_of(v)) if (!o.is_stdout && r.chance(1, 3)) { bool have = o.path == "/dev/null"; for (auto &f : g.s.files) if (f.path == o.path) have = true; if (have) continue; string d; int n = r.chance(1, 4) ? 0 : r.chance(1, 2) ? r.range(1, 100) : r.range(5000, 40000); for (int i = 0; i < n; i++) d += (char)('A' + (i * 7 + i / 50) % 26); addfile(g.s, o.path, d, r.chance(1, 8) ? 0444 : 0644); }
	if (r.chance(1, 2)) addfile(g.s, "/w/unrelated.txt", "keep me\n"); if (r.chance(1, 4)) addfile(g.s, "/tmp/ucc.stale1", "someone else's\n"); if (r.chance(1, 4)) addfile(g.s, "/w/o", "file named o\n");
}
static void gen_nuis(Rng &r, Nuis &n, bool hostile_ok = true) {
	n.seed = r.next(); n.hostile = hostile_ok && r.chance(1, 4); n.short_io = r.chance(1, 4); n.leave_partial = r.chance(1, 3); n.pid0 = r.range(2, 60000); n.tick_max = r.chance(1, 3) ? 100000 : 1; n.now_us = 1500000000000000l + (long)r.below(500000000) * 1000000l;
	if (r.chance(1, 3)) n.tmpdir = r.chance(1, 2) ? "/tmp/mine" : "/w/tmp.d";
}
// ------------------------------------------------------------ faults
static int tool_or(Rng &r, const vector<int> &v) { return r.pick(v); }
static bool pick_fault(Rng &r, const string &prop, const vector<OpRec> &log, size_t from, const vector<ExecRec> &ex, Fault &f, bool global_ok) {
	if (log.size() <= from) return false;
	vector<double> w(OP_NCLASS, 0); auto set = [&](int c, double x) { w[c] = x; };
	set(OP_OPENR, 1); set(OP_OPENW, 2); set(OP_READ, 3); set(OP_WRITE, 5); set(OP_CLOSE, 2); set(OP_MKSTEMP, 1); set(OP_FORK, .6); set(OP_EXEC, .6); set(OP_UNLINK, prop == "P03" ? 1 : .2); set(OP_RENAME, 2); set(OP_ANY, prop == "P05" ? 8 : 2);
	if (prop == "P05") set(OP_EXEC, 4), set(OP_FORK, 3);
	if (prop == "P12") for (int c = 0; c < OP_NCLASS; c++) w[c] = c == OP_READ ? 1 : 0;
	vector<size_t> byc[OP_NCLASS]; for (size_t i = from; i < log.size(); i++) byc[log[i].cls].push_back(i);
	double tot = 0; for (int c = 0; c < OP_NCLASS; c++) { if (c == OP_ANY) { bool any = false; for (auto &e : ex) if (e.ex > 0) any = true; if (!any) w[c] = 0; } else if (byc[c].empty()) w[c] = 0; tot += w[c]; }
	if (tot <= 0) return false;
	double x = (double)r.below(1000000) / 1e6 * tot; int c = 0; for (; c < OP_NCLASS; c++) { if (x < w[c]) break; x -= w[c]; } if (c >= OP_NCLASS) return false;
	f = Fault();
	if (c == OP_ANY) {
		vector<const ExecRec *> v; for (auto &e : ex) if (e.ex > 0 && e.anyops > 0) v.push_back(&e); if (v.empty()) return false; auto *e = r.pick(v);
		f.drv = e->drv; f.ex = e->ex; f.cls = OP_ANY; f.nth = r.chance(1, 4) ? (int)std::max(0, e->anyops - 1 - (int)r.below(3)) : (int)r.below(e->anyops);
		if (r.chance(2, 3)) { f.kind = F_KILL; f.param = r.pick(vector<int>{SIGKILL, SIGSEGV, SIGTERM, SIGABRT, SIGXCPU, SIGPIPE, SIGBUS, SIGHUP}); } else { f.kind = F_EXIT; f.param = r.pick(vector<int>{1, 2, 3, 127, 255, 128, 64}); }
		return true;
	}
	const OpRec *o = &log[r.pick(byc[c])]; if (c == OP_WRITE || c == OP_READ || c == OP_CLOSE) for (int k = 0; k < 3 && o->path == "<stderr>"; k++) o = &log[r.pick(byc[c])];
	f.drv = o->drv; f.ex = o->ex; f.cls = c; f.nth = o->nth; f.kind = F_ERRNO;
	switch (c) {
		case OP_OPENR: f.param = tool_or(r, {EACCES, EMFILE, ENFILE, EIO, ENOMEM}); break;
		case OP_OPENW: case OP_MKSTEMP: if (global_ok && r.chance(1, 4)) { f.kind = r.chance(1, 2) ? F_DISKFULL : F_DISKFULL_TMP; f.param = r.range(1, 4); } else f.param = tool_or(r, {ENOSPC, EACCES, EROFS, EMFILE, EDQUOT, EIO}); break;
		case OP_READ: if (r.chance(1, 4)) { f.kind = F_SHORT; f.param = r.range(1, 9); } else f.param = tool_or(r, {EIO, EIO, ESTALE, EINTR}); break;
		case OP_WRITE: switch (global_ok ? r.below(6) : r.below(3)) { case 0: case 1: f.param = tool_or(r, {ENOSPC, EIO, EDQUOT, EFBIG}); break; case 2: f.kind = F_SHORT; f.param = (int)r.below(5000); break; case 3: f.kind = F_SHORT_ERR; f.param = (int)r.below(5000); break; case 4: f.kind = F_DISKFULL; break; default: f.kind = F_DISKFULL_TMP; f.param = r.range(1, 5); } break;
		case OP_CLOSE: f.kind = F_CLOSE_ERR; f.param = tool_or(r, {EIO, ENOSPC, EDQUOT}); break;
		case OP_UNLINK: f.param = tool_or(r, {EACCES, EBUSY, EROFS, EIO}); break;
		case OP_RENAME: f.param = tool_or(r, {EACCES, ENOSPC, EXDEV, EROFS}); break;
		case OP_FORK: f.param = tool_or(r, {EAGAIN, ENOMEM}); break;
		case OP_EXEC: f.param = tool_or(r, {ENOENT, EACCES, ENOMEM, ETXTBSY, E2BIG, ENOEXEC}); break;
		default: return false;
	}
	return true;
}
static void plan_faults(GenCtx &g, Phase &p, Runner base, int n, const string &prop, bool global_ok) {
	for (int k = 0; k < n; k++) {
		PhaseRes r; Scenario tmp; Runner b = base; // fresh file system each time
		b.begin(g.s); b.run(p, r, true);
		size_t from = 0; if (k) { // prefer operations after the first fault: the clean-up path
			for (size_t i = 0; i < r.w.oplog.size(); i++) { auto &o = r.w.oplog[i]; auto &f = p.faults[0]; if (o.drv == f.drv && o.ex == f.ex && o.cls == f.cls && o.nth == f.nth) from = i + 1; } if (from >= r.w.oplog.size()) from = 0; }
		Fault f; if (pick_fault(g.r, prop, r.w.oplog, from, r.w.execs, f, global_ok)) p.faults.push_back(f);
	}
}
static void gen_alias(GenCtx &g, Inv &v) { // the default output of an input is that input, under this name or another
	Rng &r = g.r; Scenario &s = g.s; Inv n; n.cwd = v.cwd; n.um = v.um; n.verbose = v.verbose; n.flags = v.flags; n.optafter = v.optafter; n.save_temps = r.chance(1, 4); n.mode = r.chance(1, 2) ? 'S' : 'c';
	SrcOpt o; o.tag = "al"; o.funcs = r.range(1, 4); string e = n.mode == 'S' ? ".s" : ".o", nm = r.chance(1, 4) ? r.pick(odd_names) : "al"; if (nm[0] == '-') nm = "n" + nm; nm += e; string src = gen_c(r, o); Input in; in.x = "c"; FileSpec f; f.path = "/w/" + nm; f.type = I_SYMLINK;
	switch (r.below(8)) {
		case 0: addfile(s, "/w/" + nm, src); in.path = nm; break;
		case 1: addfile(s, "/w/" + nm, src); in.path = "./" + nm; break;
		case 2: addfile(s, "/w/" + nm, src); in.path = "sub/../" + nm; break;
		case 3: addfile(s, "/w/" + nm, src); in.path = "/w/" + nm; break;
		case 4: addfile(s, "/w/sub/" + nm, src); f.data = "sub/" + nm; s.files.push_back(f); in.path = "sub/" + nm; break;
		case 5: addfile(s, "/w/sub/" + nm, src); f.data = "hardlink:/w/sub/" + nm; s.files.push_back(f); in.path = "sub/" + nm; break;
		case 6: addfile(s, "/w/sub/" + nm, src); f.data = "hardlink:/w/sub/" + nm; s.files.push_back(f); in.path = nm; break;
		default: addfile(s, "/w/al.c", src); f.data = r.chance(1, 2) ? "al.c" : "hardlink:/w/al.c"; f.path = "/w/al" + e; s.files.push_back(f); in.path = "al.c"; in.x = "";
	}
	if (r.chance(1, 3)) { SrcOpt q; q.tag = "b"; q.funcs = 2; addfile(s, "/w/b.c", gen_c(r, q)); Input b; b.path = "b.c"; b.x = "c"; if (r.chance(1, 2)) n.in.push_back(b), n.in.push_back(in); else n.in.push_back(in), n.in.push_back(b); } else n.in.push_back(in);
	v = n; s.notes.push_back("alias");
}
static bool gen_single(GenCtx &g) { // P01..P05: one invocation, faults
	Rng &r = g.r; Scenario &s = g.s; add_dirs(s); gen_headers(g); Phase p; Inv v = gen_inv(g, true); if (clash(v)) return false; if (s.prop == "P04" && mix(s.seed, 404) % 6 == 0) gen_alias(g, v); else stale(g, v); p.inv.push_back(v); gen_nuis(r, p.n);
	if (s.prop == "P05" && r.chance(1, 3)) { int n = r.range(1, 3); for (int i = 0; i < n; i++) { World::Inh h; h.drv = 0; h.status = r.chance(1, 2) ? 0 : r.chance(1, 2) ? 256 * r.range(1, 3) : 9; h.at = r.chance(1, 3) ? 0 : r.range(1, 150); h.pid = 0; p.inh.push_back(h); } p.n.switch_pct = r.pick(vector<int>{5, 20, 50, 80}); }
	int nf = r.chance(1, 6) ? 0 : r.chance(3, 4) ? 1 : r.range(2, 3); if (v.outk != OUT_CAP && r.chance(1, 2)) nf = 0;
	s.ph.push_back(p); Runner b; plan_faults(g, s.ph[0], b, nf, s.prop, true); return true;
}
static bool corpus_inv(GenCtx &g, Inv &v, bool targets = true) {
	Rng &r = g.r; auto &C = the_corpus(); auto &c = C[r.below(C.size())]; addfile(g.s, "/w/a/b/t.c", c.second); addfile(g.s, "/w/a/ocheck-init.c", "do { } while(0);\n"); addfile(g.s, "/w/a/b/ocheck-init.c", "do { } while(0);\n"); addfile(g.s, "/w/ocheck-init.c", "do { } while(0);\n");
	g.s.notes.push_back("corpus " + c.first); v.in.push_back({"a/b/t.c", ""}); int m = r.range(0, 9); v.mode = m < 2 ? 'E' : m < 8 ? 'S' : 'c'; if (r.chance(1, 2)) v.out = m < 2 ? "o.i" : m < 8 ? "o.s" : "o.o";
	static const vector<string> fl{"-g", "-g", "-g", "-O2", "-std=c89", "-std=c99", "-std=c11", "-fstack-protector-all", "-fno-semantic-interposition", "-fsanitize=undefined", "-ftrapv", "-finline-functions", "-fshow-inlined", "-fno-const-fold", "-fpic", "-fno-pic", "-fpie", "-P", "-dM", "-C", "-CC", "-H", "-Wall", "-Wextra", "-w", "-fplan9-extensions", "-fms-extensions", "-fleading-underscore", "-fno-common", "-ftrack-initial-fname", "-ffreestanding", "-fsigned-char", "-funsigned-char", "-Weverything", "-pedantic", "-emit=style", "-fsyntax-only", "-mno-red-zone", "-fverbose-asm", "-fdump-type-tree", "-fsanitize=bounds", "-fsanitize-error=trap"};
	if (r.chance(2, 3)) for (int i = r.range(1, 3); i > 0; i--) { string f = r.pick(fl); if (f == "-fsyntax-only") { v.mode = 'y'; v.out.clear(); continue; } if ((f == "-P" || f == "-dM" || f == "-C" || f == "-CC") && v.mode != 'E') continue; v.flags.push_back(f); }
	if (targets && r.chance(1, 8)) { v.flags.push_back("-target"); v.flags.push_back(r.pick(vector<string>{"x86_64-linux", "x86_64-darwin", "i386-linux", "x86_64-freebsd", "x86_64-cygwin"})); }
	for (auto &f : v.flags) if (f.compare(0, 5, "-emit") == 0 && v.mode == 'c') v.mode = 'S';
	return true;
}
static bool gen_repro(GenCtx &g) { // P06
	Rng &r = g.r; Scenario &s = g.s; add_dirs(s); Phase a; Inv v;
	if (r.chance(3, 4)) { corpus_inv(g, v); v.um = 022; v.verbose = r.chance(1, 16); } else { gen_headers(g); v = gen_inv(g, true); v.outk = OUT_CAP; v.timed = false; if (clash(v)) return false; }
	a.inv.push_back(v); a.n.seed = r.next(); Phase b = a; b.n.seed = r.next(); b.n.hostile = true; b.n.short_io = r.chance(2, 3); b.n.pid0 = r.range(2, 4000000); b.n.tick_max = r.chance(1, 2) ? 3000000 : 50; b.n.now_us = (long)r.below(4000000000ul) * 1000000l; b.n.tmpdir = r.pick(vector<string>{"", "/tmp/other", "/w/zz.tmp", "/t"}); if (r.chance(1, 2)) { b.n.jump_at = r.range(1, 400); b.n.jump = r.range(-1000000, 1000000) * 1000000l; }
	static const vector<string> junk{"LANG=de_DE.UTF-8", "LC_ALL=tr_TR.UTF-8", "TERM=xterm-256color", "HOME=/root", "USER=someone", "COLUMNS=40", "UCC_DEBUG=1", "DEBUG=1", "PWD=/elsewhere", "TZ=XXX-5", "CFLAGS=-O3", "CPATH=/w/bogus", "MALLOC_PERTURB_=7", "SHELL=/bin/zsh", "GCC_COLORS=x", "POSIXLY_CORRECT=1", "LINES=3", "EDITOR=vi"};
	for (int i = r.range(0, 6); i > 0; i--) b.n.env.push_back(r.pick(junk)); s.ph.push_back(a); s.ph.push_back(b); return true;
}
static bool gen_oom(GenCtx &g) { // P07
	Rng &r = g.r; Scenario &s = g.s; add_dirs(s); Phase p; Inv v; if (r.chance(1, 2)) corpus_inv(g, v); else { gen_headers(g); v = gen_inv(g, true); v.outk = OUT_CAP; if (clash(v)) return false; }
	v.timed = false; p.inv.push_back(v); gen_nuis(r, p.n); p.n.short_io = false; s.ph.push_back(p); Runner b; b.begin(s); PhaseRes res; b.run(s.ph[0], res, true);
	vector<const ExecRec *> c; for (auto &e : res.w.execs) if (e.prog <= PR_CC1 && e.allocs > 0) c.push_back(&e); if (c.empty()) return false; auto *e = r.pick(c); for (int k = 0; k < 2 && e->prog == PR_UCC; k++) e = r.pick(c);
	Fault f; f.drv = e->drv; f.ex = e->ex; f.cls = OP_ALLOC; f.nth = r.chance(1, 6) ? (int)r.below(std::min(e->allocs, 60)) : (int)r.below(e->allocs); f.kind = r.chance(1, 2) ? F_ALLOC1 : F_ALLOCALL; s.ph[0].faults.push_back(f); return true;
}
static bool gen_conc(GenCtx &g) { // P08
	Rng &r = g.r; Scenario &s = g.s; add_dirs(s); gen_headers(g); Phase p; int n = r.range(2, 4); set<string> all; 
	for (int i = 0; i < n; i++) {
		Inv v = gen_inv(g, true); v.outk = OUT_CAP; v.timed = false; if (v.out == "/dev/null" && r.chance(1, 2)) v.out = "nn" + num(i); if (!v.out.empty() && v.out != "-" && v.out != "/dev/null") v.out += num(i); v.mf = v.mf.empty() ? "" : "deps" + num(i) + ".mk"; if (v.md && v.mf.empty() && v.mode == 'l' && v.out.empty()) v.mf = "d" + num(i) + ".mk";
		if (v.mode == 'l' && v.out.empty()) v.out = "prog" + num(i); if (clash(v)) return false; bool bad = false; auto chk = [&](const string &x) { if (x != "/dev/null" && !all.insert(x).second) bad = true; };
		for (auto &o : outputs_of(v)) if (!o.is_stdout) chk(o.path); for (auto &t : temps_of(v)) if (!all.count(t)) chk(t); if (!dep_of(v).empty()) chk(dep_of(v)); if (bad) return false; p.inv.push_back(v);
	}
	// nobody's output may be somebody else's input
	for (auto &v : p.inv) for (auto &i : v.in) if (all.count(path_norm(v.cwd, i.path))) return false;
	gen_nuis(r, p.n); p.n.short_io = false; p.n.switch_pct = r.pick(vector<int>{5, 20, 50, 100}); s.ph.push_back(p);
	if (r.chance(1, 2)) { Runner b; plan_faults(g, s.ph[0], b, r.range(1, 2), s.prop, false); }
	return true;
}
static bool gen_hist(GenCtx &g) { // P09
	Rng &r = g.r; Scenario &s = g.s; add_dirs(s); gen_headers(g); int n = r.range(1, 4); Inv base = gen_inv(g, false); base.outk = OUT_CAP; if (clash(base)) return false; stale(g, base);
	vector<string> srcs; for (auto &i : base.in) srcs.push_back(path_norm(base.cwd, i.path));
	for (int k = 0; k < n; k++) {
		Phase p; Inv v = base; v.um = r.pick(vector<unsigned>{022, 0, 002, 027, 077, 022});
		if (k) { // change sources, flags, order of inputs; sometimes another mode to the same output
			for (auto &i : v.in) if (i.path != "-" && r.chance(1, 2)) { string pth = path_norm(v.cwd, i.path); for (auto &f : s.files) if (f.path == pth && f.type == I_REG) { FileSpec e = f; size_t d = pth.rfind('.'); string x = d == string::npos ? "" : pth.substr(d); SrcOpt o; o.tag = "n" + num(k); o.funcs = r.chance(1, 2) ? 0 : r.range(1, 9); o.err = r.chance(1, 6) ? r.range(1, ERR_N - 1) : 0; if (x == ".c" || i.x == "c") e.data = gen_c(r, o); else if (x == ".i") e.data = "int only" + num(k) + ";\n"; else if (x == ".s" || x == ".S") e.data = "nop # " + num(k) + "\n"; else continue; p.edits.push_back(e); } }
			if (v.in.size() > 1 && r.chance(1, 2)) std::swap(v.in[0], v.in[v.in.size() - 1]);
			if (v.in.size() > 1 && r.chance(1, 4)) v.in.pop_back(); if (r.chance(1, 6)) { v.save_temps = !v.save_temps; for (auto &i : v.in) if (i.path == "-") v.save_temps = false; }
			if (clash(v)) return false;
		}
		gen_nuis(r, p.n); p.inv.push_back(v); s.ph.push_back(p);
	}
	if (n > 1 && r.chance(1, 3)) { Phase &p = s.ph[0]; Runner b; Scenario t = s; t.ph = {p}; plan_faults(g, p, b, 1, s.prop, true); }
	return true;
}
// P10: include graphs and edits
static bool gen_deps(GenCtx &g) {
	Rng &r = g.r; Scenario &s = g.s; for (auto d : {"/w/inc", "/w/inc/deep", "/w/sub", "/w/bld", "/w/sys", "/w/sp ace"}) { FileSpec f; f.path = d; f.type = I_DIR; f.mode = 0755; s.files.push_back(f); }
	int nh = r.range(1, 8); struct H { string path; vector<string> forms; }; vector<H> hs;
	static const vector<string> dirs{"/w/", "/w/inc/", "/w/inc/deep/", "/w/sub/", "/w/sys/", "/w/sp ace/"};
	for (int i = 0; i < nh; i++) {
		string d = r.pick(dirs); string nm = "h" + num(i); if (r.chance(1, 6)) nm += r.pick(vector<string>{" sp", "#h", "$d", "%p", "&a", "-", "+x", ".x", "'q", "(p)", ":c"}); nm += r.chance(1, 8) ? ".inc" : ".h"; if (r.chance(1, 12)) nm = string(r.range(60, 120), 'L') + nm;
		H h; h.path = d + nm; if (r.chance(1, 5)) h.forms = {"<" + h.path + ">", "\"" + h.path + "\""}; else if (d == "/w/") h.forms = {"\"" + nm + "\"", "\"./" + nm + "\"", "\"inc/../" + nm + "\""}; else if (d == "/w/inc/") h.forms = {"<" + nm + ">", "\"" + nm + "\"", "\"inc/" + nm + "\""}; else if (d == "/w/inc/deep/") h.forms = {"<deep/" + nm + ">", "\"deep/" + nm + "\"", "\"inc/deep/" + nm + "\""}; else if (d == "/w/sub/") h.forms = {"\"sub/" + nm + "\"", "\"" + h.path + "\""}; else if (d == "/w/sys/") h.forms = {"<" + nm + ">", "\"" + nm + "\""}; else h.forms = {"\"sp ace/" + nm + "\"", "<" + nm + ">"};
		string body = r.chance(2, 3) ? "#ifndef G" + num(i) + "\n#define G" + num(i) + "\n" : "";
		string pre = body; for (size_t k = 0; k < hs.size(); k++) if (r.chance(1, 3)) { string f = r.pick(hs[k].forms); if (f[0] == '"' && d != "/w/" && f.compare(0, 4, "\"/w/") != 0) f = "\"" + hs[k].path + "\""; if (r.chance(1, 6)) pre += "#define WHICH" + num(i) + num(k) + " " + f + "\n#include WHICH" + num(i) + num(k) + "\n"; else if (r.chance(1, 6)) pre += "#if 0\n#include \"never" + num(k) + ".h\"\n#endif\n#include " + f + "\n"; else pre += "#include " + f + "\n"; }
		pre += "int v" + num(i) + "[" + num(r.range(1, 50)) + "];\n"; if (body.empty()) pre = "\nextern " + pre; else pre += "#endif\n"; 
		addfile(s, h.path, pre); hs.push_back(h);
	}
	string src; for (auto &h : hs) if (r.chance(2, 3)) { string f = r.pick(h.forms); if (r.chance(1, 8)) src += "#define INC " + f + "\n#include INC\n#undef INC\n"; else src += "#include " + f + "\n"; if (r.chance(1, 8)) src += "#include " + f + "\n"; }
	if (r.chance(1, 4)) src += "#include <stddef.h>\n"; src += "int mainvar = " + num(r.below(1000)) + ";\n";
	string sn = r.pick(vector<string>{"x.c", "x.c", "x.c", "src file.c", "d$x.c", "noext", "a.b.c", "h#x.c"}); addfile(s, "/w/" + sn, src);
	Inv v; v.mode = r.pick(vector<int>{'c', 'c', 'S', 'E', 'M', 'M'}); Input in; in.path = r.chance(1, 6) ? "/w/" + sn : r.chance(1, 6) ? "./" + sn : sn; if (sn == "noext") in.x = "c"; v.in.push_back(in); v.flags = {"-Iinc", "-isystem", "sys", "-Isp ace"}; if (r.chance(1, 5)) v.flags.push_back("-P");
	if (v.mode != 'M') { v.md = true; if (v.mode == 'E' || r.chance(2, 3)) v.mf = r.chance(1, 2) ? "dep.mk" : "bld/my deps.d"; if (r.chance(2, 3)) v.out = v.mode == 'E' ? "out.i" : v.mode == 'S' ? "out.s" : "out.o"; if (v.mode == 'E' && v.out.empty()) v.mf = "dep.mk"; } else if (r.chance(1, 2)) v.out = "deps.out";
	if (clash(v)) return false;
	int n = r.range(1, 4); for (int k = 0; k < n; k++) { Phase p; gen_nuis(r, p.n); p.inv.push_back(v); if (k) { int m = r.range(0, 2); for (int j = 0; j < m; j++) { auto &h = r.pick(hs); for (auto &f : s.files) if (f.path == h.path) { FileSpec e = f; e.data = r.chance(1, 4) && k > 1 ? f.data : f.data + "extern int edit" + num(k) + num(j) + ";\n"; if (r.chance(1, 4)) { string nn = "/w/new" + num(k) + num(j) + ".h"; FileSpec nf; nf.path = nn; nf.data = "extern int n" + num(r.below(99)) + ";\n"; p.edits.push_back(nf); e.data = "#include \"" + nn + "\"\n" + e.data; } p.edits.push_back(e); } } } s.ph.push_back(p); }
	return true;
}
static bool gen_time(GenCtx &g) { // P11
	Rng &r = g.r; Scenario &s = g.s; add_dirs(s); Phase p; Inv v;
	string uses; auto use = [&](int i) { string x; if (r.chance(2, 3)) x += "D" + num(i) + " __DATE__;\n"; if (r.chance(2, 3)) x += "T" + num(i) + " __TIME__;\n"; if (r.chance(2, 3)) x += "S" + num(i) + " __TIMESTAMP__;\n"; return x; };
	int nh = r.range(0, 2); string src; for (int i = 0; i < nh; i++) { addfile(s, "/w/t" + num(i) + ".h", use(10 + i) + (r.chance(1, 2) ? string(r.range(100, 9000), '\n') : "")); s.files.back().mtime = (long)r.below(2000000000); }
	src = use(0); for (int i = 0; i < nh; i++) src += "#include \"t" + num(i) + ".h\"\n" + use(i + 1); src += use(7); src += "D8 __DATE__;\nT8 __TIME__;\nS8 __TIMESTAMP__;\n";
	bool sin = r.chance(1, 8); v.mode = 'E'; if (sin) { v.in.push_back({"-", ""}); v.sin = src; } else { v.in.push_back({r.chance(1, 2) ? "x.c" : "sub/x.c", ""}); if (v.in[0].path == "sub/x.c") for (int i = 0; i < nh; i++) v.flags.push_back("-I."); addfile(s, "/w/" + v.in[0].path, src); }
	auto clock = [&]() -> long { // interesting instants
		struct tm t; memset(&t, 0, sizeof t); t.tm_year = r.range(70, 137); switch (r.below(6)) { case 0: t.tm_mon = 11; t.tm_mday = r.range(25, 31); break; case 1: t.tm_mon = 0; t.tm_mday = r.range(1, 7); break; case 2: t.tm_mon = 1; t.tm_mday = r.range(27, 29); break; case 3: t.tm_mon = 2; t.tm_mday = 1; break; default: t.tm_mon = r.range(0, 11); t.tm_mday = r.range(1, 28); }
		t.tm_hour = r.chance(1, 2) ? 23 : r.range(0, 23); t.tm_min = r.chance(1, 2) ? 59 : r.range(0, 59); t.tm_sec = r.chance(1, 2) ? 59 : r.range(0, 59); return (long)timegm(&t); };
	for (auto &f : s.files) if (f.type == I_REG) f.mtime = clock(); 
	gen_nuis(r, p.n); p.n.now_us = clock() * 1000000l + (long)r.below(1000000); p.n.tick_max = r.pick(vector<int>{1, 100000, 3000000, 500000000}); if (r.chance(1, 3)) { p.n.jump_at = r.range(1, 120); p.n.jump = r.range(-100000, 100000) * 1000000l; }
	if (r.chance(1, 3)) p.n.env.push_back(string("TZ=") + r.pick(vector<string>{"XXX-5", "YYY8", "UTC0", "ZZZ-13"}));
	if (r.chance(1, 3)) { int k = r.range(0, 9); s.notes.push_back("sde"); p.n.env.push_back("SOURCE_DATE_EPOCH=" + (k < 7 ? std::to_string(clock()) : r.pick(vector<string>{"12x", "99999999999999999999999", "abc", "1 2", "9223372036854775807", "", "-5", "+5", " 5", "18446744073709551615", "253402300800"}))); }
	p.inv.push_back(v); s.ph.push_back(p); return true;
}
// P12: damaged inputs
static bool gen_damage(GenCtx &g) {
	Rng &r = g.r; Scenario &s = g.s; add_dirs(s); gen_headers(g); Phase p; Inv v; if (r.chance(2, 3)) { corpus_inv(g, v); v.mode = 'E'; v.out.clear(); vector<string> f; for (auto &x : v.flags) if (x.compare(0, 5, "-emit") != 0) f.push_back(x); v.flags = f; } else { SrcOpt o; o.funcs = r.range(0, 4); o.tag = "a"; for (auto &h : g.hdrs) o.incl.push_back(h); addfile(s, "/w/a.c", gen_c(r, o)); v.in.push_back({"a.c", ""}); v.mode = 'E'; v.flags = {"-Iinc"}; }
	if (r.chance(1, 8)) v.flags.push_back("-trigraphs"); if (r.chance(1, 8)) v.flags.push_back("-digraphs");
	string main = path_norm("/w", v.in[0].path); vector<FileSpec *> c; for (auto &f : s.files) if (f.type == I_REG && f.path.find("ocheck") == string::npos) c.push_back(&f); FileSpec *t = nullptr; for (auto f : c) if (f->path == main) t = f; if (r.chance(1, 4)) t = r.pick(c); if (!t) return false; string &d = t->data;
	int k = r.range(0, 9); s.kind = "damage";
	static const vector<string> frag{"/*", "*/", "#if 1\n", "#", "\"", "'", "\\\n", "\\", "??/", "<:", "##", "#include \"", "#define F(", "(", ")", "__VA_ARGS__", "#line ", "# 3 \"x", "\r", "//", "#else\n", "#endif\n", "#elif", "@", "$", "defined(", "%:", "0x", "1e+", "L'", "u8\"", "_Pragma(\"", "#pragma", "\v\f", "#if (", "#if 1 ? ", "#if 1 /", "#if 0 % 0\n", "#ifdef", "__COUNTER__", "__has_include(", "__has_include(<", "#undef", "#error", "...", "#define A A\n", "__FILE__##", "#define X(a) #a\nX(", "#define Y(...) __VA_ARGS__##a\nY()"};
	static const vector<string> open{"\n/* open comment", "\n#if 1\n", "\n#ifdef Q\n", "\n#ifndef Q\n#else\n", "\n#if 0\n /* x */ \n", "\n/* a * / b", "\n#if 1\n#if 0\n#endif\n", "\nint q; /*"};
	if (k == 0) { d += r.pick(open); if (r.chance(1, 2)) d += "\n"; s.kind = "unterminated"; if (t->path != main) s.kind = "damage"; }
	else { int n = r.range(1, 4); for (int i = 0; i < n && d.size(); i++) switch (r.below(8)) { case 0: case 1: d.resize(r.below(d.size() + 1)); break; case 2: d[r.below(d.size())] ^= (char)(1 << r.below(8)); break; case 3: { size_t a = r.below(d.size()), l = r.below(std::min<size_t>(64, d.size() - a) + 1); d.erase(a, l); break; } case 4: { size_t a = r.below(d.size()), l = r.below(std::min<size_t>(200, d.size() - a) + 1); d.insert(r.below(d.size()), d.substr(a, l)); break; } case 5: case 6: d.insert(r.below(d.size() + 1), r.pick(frag)); break; default: { size_t a = r.below(d.size()); for (size_t j = a; j < d.size() && j < a + 512; j++) d[j] = 0; if (r.chance(1, 2)) d[a] = (char)r.below(256); } } }
	gen_nuis(r, p.n); p.n.hostile = true; p.inv.push_back(v); s.ph.push_back(p);
	if (s.kind == "damage" && r.chance(1, 6)) { s.ph[0].n.short_io = r.chance(1, 2); Runner b; plan_faults(g, s.ph[0], b, 1, "P12", false); }
	return true;
}
bool gen(const string &prop, u64 seed, Scenario &s) {
	s = Scenario(); s.prop = prop; s.seed = seed; GenCtx g(mix(seed, hash_str(prop)), s); s.kind = "g";
	if (prop >= "P01" && prop <= "P05") return gen_single(g);
	if (prop == "P06") return gen_repro(g); if (prop == "P07") return gen_oom(g); if (prop == "P08") return gen_conc(g); if (prop == "P09") return gen_hist(g); if (prop == "P10") return gen_deps(g); if (prop == "P11") return gen_time(g); if (prop == "P12") return gen_damage(g);
	return false;
}
