// Program generator: seeded C programs (no undefined behaviour that could trap or diverge, always terminating).
#include "run.h"
#include <cstdlib>
#include <cstring>
#include <algorithm>
static string S(long v) { return std::to_string(v); }
string sig_str(const Sig &s) { string o = s.name + " " + s.ret + S(s.retsize) + " "; for (auto &q : s.par) o += string(1, q.t) + (q.t == 'p' ? S(q.size) : "") + ","; if (s.par.empty()) o += "-"; o += string(" ") + (s.variadic ? "v" : "-") + (s.prot ? "p" : "-"); return o; }
bool sig_parse(const string &l, Sig &s) { size_t a = l.find(' '), b = l.find(' ', a + 1), c = l.find(' ', b + 1); if (a == string::npos || b == string::npos || c == string::npos || c + 2 >= l.size() + 0) return false; s = Sig(); s.name = l.substr(0, a); s.ret = l[a + 1]; s.retsize = atoi(l.c_str() + a + 2); string p = l.substr(b + 1, c - b - 1); if (p != "-") { size_t i = 0; while (i < p.size()) { size_t e = p.find(',', i); Par q; q.t = p[i]; q.size = q.t == 'p' ? atoi(p.c_str() + i + 1) : 0; s.par.push_back(q); if (e == string::npos) break; i = e + 1; } } s.variadic = l[c + 1] == 'v'; s.prot = l[c + 2] == 'p'; return true; }
static const char *cname(char t) { switch (t) { case 'v': return "void"; case 'b': return "_Bool"; case 'c': return "signed char"; case 'C': return "unsigned char"; case 's': return "short"; case 'S': return "unsigned short"; case 'i': return "int"; case 'I': return "unsigned"; case 'l': return "long"; case 'L': return "unsigned long"; case 'f': return "float"; case 'd': return "double"; } return "?"; }
static const char INTS[] = "bcCsSiiIIlL", SCAL[] = "bcCsSiiIIlLffdd"; static bool isf(char t) { return t == 'f' || t == 'd'; }
struct SType { const char *name, *decl; char cls; int size; vector<std::pair<string, char>> m; };
static const vector<SType> ST = {
	{"T0", "typedef struct { int a; unsigned b; } T0;", 'A', 8, {{"a", 'i'}, {"b", 'I'}}}, {"T1", "typedef struct { long a, b; } T1;", 'A', 16, {{"a", 'l'}, {"b", 'l'}}}, {"T2", "typedef struct { double x, y; } T2;", 'A', 16, {{"x", 'd'}, {"y", 'd'}}},
	{"T3", "typedef struct { long a; double x; } T3;", 'A', 16, {{"a", 'l'}, {"x", 'd'}}}, {"T4", "typedef struct { double x; long a; } T4;", 'A', 16, {{"x", 'd'}, {"a", 'l'}}}, {"T5", "typedef struct { long a, b, c; } T5;", 'M', 24, {{"a", 'l'}, {"b", 'l'}, {"c", 'l'}}},
	{"T6", "typedef struct { int a[10]; double x; } T6;", 'M', 48, {{"x", 'd'}, {"a[3]", 'i'}, {"a[7]", 'i'}}}, {"T7", "typedef struct { short a; short b; int c; char d[4]; } T7;", 'A', 12, {{"a", 's'}, {"b", 's'}, {"c", 'i'}, {"d[2]", 'c'}}}, {"T8", "typedef struct { char a[17]; } T8;", 'M', 17, {{"a[0]", 'c'}, {"a[16]", 'c'}}},
	{"T9", "typedef struct { long a; struct { float f; int g; } n; short h[40]; char *p; } T9;", 'M', 104, {{"a", 'l'}, {"n.f", 'f'}, {"n.g", 'i'}, {"h[0]", 's'}, {"h[39]", 's'}}}, {"T10", "typedef struct { char a; } T10;", 'A', 1, {{"a", 'c'}}}, {"T11", "typedef struct { float x, y, z; } T11;", 'A', 12, {{"x", 'f'}, {"y", 'f'}, {"z", 'f'}}}, {"T13", "typedef struct { char a[3]; } T13;", 'A', 3, {{"a[0]", 'c'}, {"a[2]", 'c'}}}, {"T14", "typedef struct { char a[7]; } T14;", 'A', 7, {{"a[0]", 'c'}, {"a[6]", 'c'}}}, {"T15", "typedef struct { short a[3]; } T15;", 'A', 6, {{"a[0]", 's'}, {"a[2]", 's'}}}, {"T12", "typedef struct { unsigned char a, b; unsigned short c; } T12;", 'A', 4, {{"a", 'C'}, {"b", 'C'}, {"c", 'S'}}}, {"T16", "typedef struct { char a[11]; } T16;", 'A', 11, {{"a[0]", 'c'}, {"a[7]", 'c'}, {"a[10]", 'c'}}}, {"T17", "typedef struct { short a[7]; } T17;", 'A', 14, {{"a[0]", 's'}, {"a[3]", 's'}, {"a[6]", 's'}}}, {"T18", "typedef struct { long a; char c[3]; } T18;", 'A', 16, {{"a", 'l'}, {"c[0]", 'c'}, {"c[2]", 'c'}}} };
struct Var { string name; char t; int n; int st; bool vla, ptr, ro; string len; };
#include "snip.h"
struct Cfg { bool globals = true, floats = true, vla = true, structs = true, ptrs = true, ext = true, calls = true, arr = true, safe = false, det = false; int nf_lo = 2, nf_hi = 5, stmts = 6, depth = 3; };
struct Fn { Sig s; int st; long cost; bool callable; bool entry = true; };
struct PG {
	Rng r; Cfg c; string body; vector<Fn> fns; vector<Sig> exts; vector<Var> vars; int nv = 0, loops = 0; long mult = 1, cost = 0; string ind; bool leaf = false, spall = false; char ret = 'v'; int retst = -1; bool sp17 = false; set<int> usedst; int labels = 0; bool clean = false, vhelp = false; bool inexpr = false; vector<string> arrs; size_t fnbase = 0; bool canp = false; struct Can { string n; int sz, b; }; vector<Can> cans; bool padp = false, adj = false, dg = false;
	explicit PG(u64 s) : r(s) {}
	void L(const string &s) { body += ind + s + "\n"; cost += 4 * mult; }
	string nn(const char *p) { return p + S(nv++); }
	char T() { return c.floats ? SCAL[r.below(sizeof SCAL - 1)] : INTS[r.below(sizeof INTS - 1)]; }
	string lit(char t) { if (isf(t)) { string v = S(r.range(-200, 200)) + "." + S(r.below(4) * 25); return t == 'f' ? v + "f" : v; } static const char *k[] = {"0", "1", "2", "3", "7", "-1", "100", "255", "256", "32767", "65535", "0x7fffffff", "0x55aa33cc", "-128", "12345"}; string v = k[r.below(15)]; if ((t == 'l' || t == 'L') && r.chance(1, 3)) return "0x123456789abcdefL"; if (v[0] == '-') return "(" + v + ")"; return v; }
	const Var *pick(std::function<bool(const Var &)> f) { vector<const Var *> m; for (auto &v : vars) if (f(v)) m.push_back(&v); return m.empty() ? nullptr : m[r.below(m.size())]; }
	string index(const Var &v, int d) { if (v.vla) return "(unsigned)(" + I(d) + ") % (unsigned)(" + v.len + ")"; return r.chance(1, 2) ? S(r.below(v.n)) : "(" + I(d) + ") & " + S(v.n - 1); }
	// an lvalue of scalar type; *t receives its type
	string LV(char *t, int d, bool wantf, bool any) {
		for (int k = 0; k < 4; k++) { const Var *v = pick([&](const Var &x) { return !x.ro && (any || x.st >= 0 || isf(x.t) == wantf); }); if (!v) break; if (v->st >= 0) { auto &m = ST[v->st].m[r.below(ST[v->st].m.size())]; if (!any && isf(m.second) != wantf) continue; *t = m.second; return v->name + (v->ptr ? "->" : ".") + m.first; } *t = v->t; if (v->n || v->vla) return v->name + "[" + index(*v, d > 0 ? d - 1 : 0) + "]"; if (v->ptr) return "*" + v->name; return v->name; }
		return "";
	}
	string rv(bool f, int d) { const Var *v = pick([&](const Var &x) { return x.st >= 0 || isf(x.t) == f; }); if (v && v->st >= 0) { auto &m = ST[v->st].m[r.below(ST[v->st].m.size())]; if (isf(m.second) == f) return v->name + (v->ptr ? "->" : ".") + m.first; v = pick([&](const Var &x) { return x.st < 0 && isf(x.t) == f; }); } if (!v || v->st >= 0) return f ? lit('d') : lit('i'); if (v->n || v->vla) return v->name + "[" + index(*v, d > 0 ? d - 1 : 0) + "]"; return (v->ptr ? "*" : "") + v->name; }
	string arg(const Par &q, int d) {
		if (q.t != 'p') return isf(q.t) ? F(d) : (r.chance(1, 3) ? I(d) : string("(") + cname(q.t) + ")(" + I(d) + ")");
		if (c.det) { bool sf = false; if (q.st >= 0) { const Var *v = pick([&](const Var &x) { return x.st == q.st && !x.ro; }); if (v) return (v->ptr ? "" : "&") + v->name; for (auto &m : ST[q.st].m) sf |= isf(m.second); if (sf) return ""; }
			const Var *v = pick([&](const Var &x) { return x.st < 0 && x.n && !x.ro && !x.vla && x.n * tsz(x.t) >= q.size && x.name.find('.') == string::npos && (isf(q.e) ? x.t == q.e : !isf(x.t) && x.t != 'b'); }); return v ? "(void *)" + v->name : ""; }
		const Var *v = pick([&](const Var &x) { return x.st < 0 && x.n && !x.ro && !x.vla && x.n * tsz(x.t) >= q.size; }); if (v) return "(void *)" + v->name; return "";
	}
	static int tsz(char t) { switch (t) { case 'b': case 'c': case 'C': return 1; case 's': case 'S': return 2; case 'i': case 'I': case 'f': return 4; } return 8; }
	string callargs(const Sig &s, int d) { string o; for (size_t i = 0; i < s.par.size(); i++) { if (s.variadic && i + 1 == s.par.size()) { if (i) o += ", "; int n = r.range(0, r.chance(1, 4) ? 14 : 5); bool ad = c.floats && r.chance(1, 10); if (ad) n = r.range(7, 13); string f, a; for (int k = 0; k < n; k++) { char t = ad && r.chance(7, 8) ? 'd' : "ilLIdd"[r.below(c.floats ? 6 : 4)]; f += t; a += string(", (") + cname(t) + ")(" + (t == 'd' ? F(d - 1) : I(d - 1)) + ")"; } o += "\"" + f + "\"" + a; break; } string a = arg(s.par[i], d - 1); if (a.empty()) return "!"; o += (i ? ", " : "") + a; } return o; }
	string call(bool f, int d) { // a call yielding a float or an integer
		if (leaf) return ""; for (int k = 0; k < 4; k++) {
			if (c.calls && fns.size() && r.chance(1, 2)) { const Fn &g = fns[r.below(fns.size())]; if (!g.callable || mult * g.cost > 4000 || cost + mult * g.cost > 12000) continue; if (g.st >= 0) { auto &m = ST[g.st].m[r.below(ST[g.st].m.size())]; if (isf(m.second) != f) continue; string a = callargs(g.s, d); if (a == "!") continue; cost += mult * g.cost; return g.s.name + "(" + a + ")." + m.first; } if (g.s.ret == 'v' || isf(g.s.ret) != f) continue; string a = callargs(g.s, d); if (a == "!") continue; cost += mult * g.cost; if (!g.s.variadic && r.chance(1, 6)) return "(*(" + fptype(g, "") + ")" + g.s.name + ")(" + a + ")"; return g.s.name + "(" + a + ")"; }
			if (c.ext && exts.size()) { const Sig &g = exts[r.below(exts.size())]; if (g.ret == 'v' || isf(g.ret) != f) continue; string a = callargs(g, d); if (a == "!") continue; cost += 20 * mult; return g.name + "(" + a + ")"; }
		} return ""; }
	string fptype(const Fn &g, const string &nm) { string o = rettype(g) + " (*" + nm + ")("; for (size_t i = 0; i < g.s.par.size(); i++) o += (i ? ", " : "") + string(g.s.par[i].t == 'p' ? "void *" : cname(g.s.par[i].t)); if (g.s.par.empty()) o += "void"; return o + ")"; }
	string rettype(const Fn &g) { return g.st >= 0 ? ST[g.st].name : cname(g.s.ret); }
	string I(int d) {
		if (d <= 0) return r.chance(1, 4) ? lit('i') : rv(false, 0);
		if (c.det && r.chance(1, 3)) return DI(d);
		switch (r.below(c.floats ? 24 : 22)) {
		case 0: return lit("iIlL"[r.below(4)]); case 1: case 2: return rv(false, d);
		case 3: case 4: case 5: case 6: { static const char *o[] = {"+", "-", "*", "&", "|", "^"}; string l = I(d - 1), q = I(d - 1); string u = r.chance(1, 2) ? "(unsigned)" : "(unsigned long)"; return "(" + u + "(" + l + ") " + o[r.below(6)] + " " + (c.det ? u : "") + "(" + q + "))"; }
		case 7: return "((unsigned)(" + I(d - 1) + ") " + (r.chance(1, 2) ? "/" : "%") + " ((unsigned)(" + I(d - 1) + ") | 1u))"; case 8: if (c.safe) return "((int)(" + I(d - 1) + ") " + (r.chance(1, 2) ? "/" : "%") + " " + S(r.range(2, 40)) + ")"; return "((long)(" + I(d - 1) + ") " + (r.chance(1, 2) ? "/" : "%") + " " + S(r.range(2, 40)) + ")";
		case 9: return "((" + string(r.chance(1, 2) ? "unsigned" : "unsigned long") + ")(" + I(d - 1) + ") " + (r.chance(1, 2) ? "<<" : ">>") + " ((" + I(d - 1) + ") & 15))";
		case 10: case 11: { static const char *o[] = {"<", ">", "<=", ">=", "==", "!="}; return "((" + I(d - 1) + ") " + o[r.below(6)] + " (" + I(d - 1) + "))"; }
		case 12: return "((" + I(d - 1) + ") " + (r.chance(1, 2) ? "&&" : "||") + " (" + I(d - 1) + "))"; case 13: return string("(") + (r.chance(1, 2) ? "!" : "~") + "(" + I(d - 1) + "))";
		case 14: return "((" + I(d - 1) + ") ? (" + I(d - 1) + ") : (" + I(d - 1) + "))"; case 15: return string("(") + cname(INTS[r.below(sizeof INTS - 1)]) + ")(" + I(d - 1) + ")";
		case 16: case 17: case 18: { if (c.det) return rv(false, d); string s = call(false, d); return s.size() ? s : rv(false, d); }
		case 19: { if (c.det) return DI(d); char t; string v = LV(&t, d, false, false); if (v.empty()) return rv(false, d); if (isf(t) || t == 'b') return "(" + v + " = " + I(d - 1) + ")"; switch (r.below(5)) { case 0: return "(" + v + ")++"; case 1: return "--(" + v + ")"; case 2: return "(" + v + " " + string(1, "+-^|&"[r.below(5)]) + "= " + I(d - 1) + ")"; default: return "(" + v + " = " + I(d - 1) + ")"; } }
		case 20: if (r.chance(1, 4)) return string("\"a\\001bcd\\377fgh\"[") + I(d - 1) + " & 7]"; if (c.structs && r.chance(1, 4)) { int st = r.below(ST.size()); for (auto &m : ST[st].m) if (!isf(m.second)) { usedst.insert(st); return string("((") + ST[st].name + "){ " + init(st) + " })." + m.first; } } if (r.chance(1, 2)) return "((int[4]){" + I(d - 1) + ", " + I(0) + ", " + I(0) + ", " + I(d - 1) + "})[(" + I(d - 1) + ") & 3]"; return "(" + I(d - 1) + ", " + I(d - 1) + ")";
		case 21: { string n = nn("e"); if (inexpr) return rv(false, d); return "({ long " + n + " = " + I(d - 1) + "; " + n + " += " + I(d - 1) + "; " + n + "; })"; }
		case 22: { static const char *o[] = {"<", ">", "==", "!=", "<=", ">="}; return "((" + F(d - 1) + ") " + o[r.below(6)] + " (" + F(d - 1) + "))"; }
		case 23: if (c.det) return DI(d); return c.safe ? rv(false, d) : string(r.chance(1, 2) ? "(int)(" : "(long)(") + F(d - 1) + ")"; }
		return "1";
	}
	// in the mode for comparing with a reference (c.det): pure expressions whose value C fixes
	string DI(int d) { const Var *v; switch (r.below(c.floats ? 20 : 15)) {
		case 0: return "((short)(" + I(d - 1) + ") " + string(1, "+-*"[r.below(3)]) + " (" + string(cname("cCsS"[r.below(3)])) + ")(" + I(d - 1) + "))"; case 1: return "((int)(" + I(d - 1) + ") >> ((" + I(d - 1) + ") & 31))"; case 2: return "((long)(" + I(d - 1) + ") >> ((" + I(d - 1) + ") & 63))";
		case 3: return "((unsigned)(" + I(d - 1) + ") " + (r.chance(1, 2) ? "<<" : ">>") + " ((" + I(d - 1) + ") & 31))"; case 4: return "((unsigned long)(" + I(d - 1) + ") " + (r.chance(1, 2) ? "<<" : ">>") + " ((" + I(d - 1) + ") & 63))";
		case 5: return "((" + string(r.chance(1, 2) ? "short" : "long)(int") + ")(" + I(d - 1) + ") " + (r.chance(1, 2) ? "/" : "%") + " ((" + cname("cs"[r.below(2)]) + ")(" + I(d - 1) + ") | 1))"; case 6: return "((unsigned long)(" + I(d - 1) + ") " + (r.chance(1, 2) ? "/" : "%") + " ((unsigned long)(" + I(d - 1) + ") | 1))"; case 7: return "((" + I(d - 1) + ") " + string(1, "&|^"[r.below(3)]) + " (" + I(d - 1) + "))";
		case 8: return "(-(int)(" + string(cname("cCsS"[r.below(4)])) + ")(" + I(d - 1) + "))"; case 9: case 10: case 11: v = pick([&](const Var &x) { return x.n && !x.vla && x.st < 0 && !isf(x.t) && x.name.find('.') == string::npos; }); if (!v) return rv(false, d); switch (r.below(5)) { case 0: return "*(" + v->name + " + (" + index(*v, d - 1) + "))"; case 1: return "(&" + v->name + "[" + index(*v, d - 1) + "] - " + v->name + ")"; case 2: return "(&" + v->name + "[" + index(*v, d - 1) + "] " + (r.chance(1, 2) ? "<" : "==") + " " + v->name + " + (" + index(*v, 0) + "))"; case 3: return "(" + index(*v, d - 1) + ")[" + v->name + "]"; default: return "sizeof(" + v->name + "[0])"; }
		case 12: return "((" + string(cname(INTS[r.below(sizeof INTS - 1)])) + ")(" + I(d - 1) + ") == (" + cname(INTS[r.below(sizeof INTS - 1)]) + ")(" + I(d - 1) + "))"; case 13: return "(((" + I(d - 1) + ") & 1) + ((" + I(d - 1) + ") != 0))"; case 14: return "((" + string(cname("iIlL"[r.below(4)])) + ")" + lit('l') + " " + string(1, "&|^"[r.below(3)]) + " " + lit('i') + ")";
		case 15: case 16: { string f = F(d - 1); return "((" + f + ") > -1e4 && (" + f + ") < 1e4 ? (" + cname("ilsc"[r.below(3)]) + ")(" + f + ") : 7)"; } case 17: { string f = F(d - 1); return "((" + f + ") >= 0 && (" + f + ") < 1e9 ? (" + cname("IL"[r.below(2)]) + ")(" + f + ") : 9u)"; } case 18: return "(!(" + F(d - 1) + "))"; case 19: return "((" + F(d - 1) + ") " + (r.chance(1, 2) ? "&&" : "||") + " (" + I(d - 1) + "))"; }
		return "1"; }
	string DF(int d) { switch (r.below(6)) { case 0: return "(-(" + F(d - 1) + "))"; case 1: return "((" + F(d - 1) + ") / " + (r.chance(1, 2) ? "2.5)" : "-0.75f)"); case 2: return "((" + string(r.chance(1, 2) ? "float" : "double") + ")(" + cname("csilCSL"[r.below(7)]) + ")(" + I(d - 1) + "))"; case 3: return "((" + I(d - 1) + ") ? (" + F(d - 1) + ") : (int)(" + I(d - 1) + "))"; case 4: return "((" + F(d - 1) + ") " + string(1, "+-*"[r.below(3)]) + " (int)(" + I(d - 1) + "))"; } return "((float)(" + F(d - 1) + "))"; }
	// an expression with side effects, sequenced so that they happen in one order only
	string X(int d) { if (d > 0) switch (r.below(9)) { case 0: return "(" + X(d - 1) + " && " + X(d - 1) + ")"; case 1: return "(" + X(d - 1) + " || " + X(d - 1) + ")"; case 2: return "(" + X(d - 1) + ", " + X(d - 1) + ")"; case 3: return "(" + X(d - 1) + " ? " + X(d - 1) + " : " + X(d - 1) + ")"; case 4: return "(" + X(d - 1) + ", " + I(1) + ")"; case 5: return "(" + string(1, "!~-"[r.below(2)]) + "(int)(" + X(d - 1) + "))"; case 6: return "((unsigned)(" + X(d - 1) + ") " + string(1, "+-*&|^"[r.below(6)]) + " (unsigned)" + lit('i') + ")"; case 7: return "(" + I(1) + " && " + X(d - 1) + ")"; }
		string s; if (r.chance(1, 2)) { s = call(false, 2); if (s.size()) return s; } char t; string v = LV(&t, 1, false, false); if (v.empty()) return I(1); if (isf(t) || t == 'b') return "(int)(" + v + " = " + (isf(t) ? "(int)(" : "(") + I(1) + "))"; auto as = [&]() -> string { switch (r.below(6)) { case 0: return "(" + v + ")++"; case 1: return "--(" + v + ")"; case 2: return "(" + v + " " + string(1, "+-^|&"[r.below(5)]) + "= " + I(2) + ")"; case 3: return "(" + v + ")--"; case 4: return "++(" + v + ")"; } return "(" + v + " = " + I(2) + ")"; }; string x = as(); return v.compare(0, 2, "_b") ? x : "((long)" + x + ")"; }   // whether the value of an assignment to a bit-field is promoted like the bit-field is not settled
	string C(int d) { return c.det && r.chance(1, 3) ? X(d) : I(d); }   // a condition
	string F(int d) {
		if (d <= 0) return r.chance(1, 4) ? lit("fd"[r.below(2)]) : rv(true, 0);
		switch (r.below(10)) { case 0: return lit("fd"[r.below(2)]); case 1: case 2: return rv(true, d); case 3: case 4: case 5: { static const char *o[] = {"+", "-", "*"}; return "((" + F(d - 1) + ") " + o[r.below(3)] + " (" + F(d - 1) + "))"; } case 6: return string(r.chance(1, 2) ? "(float)(" : "(double)(") + (r.chance(1, 2) ? "int" : "short") + ")(" + I(d - 1) + ")"; case 7: case 8: { if (c.det) return DF(d); string s = call(true, d); return s.size() ? s : rv(true, d); } case 9: return "((" + I(d - 1) + ") ? (" + F(d - 1) + ") : (" + F(d - 1) + "))"; }
		return "1.0";
	}
	string E(char t, int d) { return isf(t) ? F(d) : I(d); }
	void open() { ind += "\t"; } void close() { ind.pop_back(); }
	void retstmt() { if (retst >= 0) { const Var *v = pick([&](const Var &x) { return x.st == retst; }); if (v && r.chance(1, 2)) L("return " + string(v->ptr ? "*" : "") + v->name + ";"); else { for (auto &g : fns) if (g.st == retst && g.callable && !leaf && mult * g.cost < 1000 && r.chance(1, 3)) { string a = callargs(g.s, 1); if (a != "!") { cost += g.cost * mult; L("return " + g.s.name + "(" + a + ");"); return; } } string o = string("return (") + ST[retst].name + "){ "; o += init(retst); L(o + " };"); } } else if (ret == 'v') L("return;"); else L("return " + E(ret, c.depth - 1) + (dg ? isf(ret) ? " + (int)dg_;" : ret == 'b' ? " == (dg_ > 5);" : " + dg_;" : ";")); }
	string init(int st) { string o; bool first = true; for (auto &m : ST[st].m) { o += string(first ? "" : ", ") + "." + m.first + " = " + E(m.second, 1); first = false; } return o; }
	void declare(int kind) {
		if (kind == 0) { char t = T(); string n = nn("v"); L(string(r.chance(1, 12) ? "volatile " : "") + cname(t) + " " + n + " = " + E(t, 2) + ";"); vars.push_back({n, t, 0, -1, false, false, false, ""}); }
		else if (kind == 1 && c.arr && r.chance(1, 3)) {   // constant initialisers: string, brace list, compound literal, pointer to a compound literal; all modified later
			string nm = nn("a"); int n = 4 << r.below(2); char t = "cCsiIlLfd"[r.below(c.floats ? 9 : 7)]; string l; for (int i = 0; i < n; i++) l += (i ? ", " : "") + S(r.range(0, 99)); cost += 20 * n * mult;
			switch (r.below(5)) {
			case 0: t = 'C'; l = "\""; for (int i = 0; i < n - 1; i++) l += char('a' + r.below(26)); l += "\""; L("unsigned char " + nm + "[" + S(n) + "] = " + l + ";"); break;
			case 1: L(string(cname(t)) + " " + nm + "[" + S(n) + "] = { " + l + " };"); break;
			case 2: L(string(cname(t)) + " *" + nm + " = (" + cname(t) + "[" + S(n) + "]){ " + l + " };"); break;
			case 3: L(string(cname(t)) + " *" + nm + " = (" + cname(t) + "[]){ " + l + " };"); break;
			default: n = 16 << r.below(3); cost += 20 * n * mult; L(string(cname(t)) + " " + nm + "[" + S(n) + "] = { " + l + ", [" + S(n - 1) + "] = 3 };"); }
			vars.push_back({nm, t, n, -1, false, false, false, ""}); if (r.chance(2, 3)) L(nm + "[" + S(r.below(n)) + "] " + (r.chance(1, 2) ? "+= " : "= ") + E(t, 1) + ";"); if (r.chance(1, 3)) { string i = nn("i"); L("for (int " + i + " = 1; " + i + " < 4; " + i + "++) " + nm + "[" + i + "] += " + nm + "[" + i + " - 1];"); } }
		else if (kind == 3 && c.structs && r.chance(1, 4)) { int st = r.below(ST.size()); usedst.insert(st); string nm = nn("s"), l; for (auto &m : ST[st].m) l += string(l.size() ? ", ." : ".") + m.first + " = " + S(r.range(1, 99)); if (r.chance(1, 2)) { L(string(ST[st].name) + " " + nm + " = { " + l + " };"); vars.push_back({nm, 0, 0, st, false, false, false, ""}); } else { L(string(ST[st].name) + " *" + nm + " = &(" + ST[st].name + "){ " + l + " };"); vars.push_back({nm, 0, 0, st, false, true, false, ""}); } auto &m = ST[st].m[r.below(ST[st].m.size())]; L(nm + (vars.back().ptr ? "->" : ".") + m.first + " = " + E(m.second, 1) + ";"); }
		else if (kind == 1 && c.arr) { char t = T(); int n = 1 << r.range(1, 4); string nm = nn("a"); string e = E(t, 1); L(string(cname(t)) + " " + nm + "[" + S(n) + "]; for (int i_ = 0; i_ < " + S(n) + "; i_++) " + nm + "[i_] = i_ * 3 + 1;" ); cost += 10 * n * mult; vars.push_back({nm, t, n, -1, false, false, false, ""}); arrs.push_back(nm); if (sp17) L("ext_arr(" + nm + ", sizeof " + nm + ");"); (void)e; }
		else if (kind == 2 && c.vla) { char t = "cCsiIlL"[r.below(7)]; string ln = nn("n"), nm = nn("w"); L("unsigned " + ln + " = ((unsigned)(" + I(2) + ") & " + S((1 << r.range(1, 4)) - 1) + ") + 1; " + cname(t) + " " + nm + "[" + ln + "]; for (unsigned i_ = 0; i_ < " + ln + "; i_++) " + nm + "[i_] = i_ + 5;"); cost += 80 * mult; vars.push_back({nm, t, 0, -1, true, false, false, ln}); vars.push_back({ln, 'I', 0, -1, false, false, true, ""}); if (sp17) L("ext_arr(" + nm + ", sizeof " + nm + ");"); }
		else if (kind == 3 && c.structs) { int st = r.below(ST.size()); usedst.insert(st); string nm = nn("s"); vector<const Fn *> m; for (auto &g : fns) if (g.st == st && g.callable && !leaf && mult * g.cost < 1500) m.push_back(&g); string a; if (m.size() && r.chance(2, 3) && (a = callargs(m[0]->s, 1)) != "!") { cost += mult * m[0]->cost; L(string(ST[st].name) + " " + nm + " = " + m[0]->s.name + "(" + a + ");"); } else L(string(ST[st].name) + " " + nm + " = { " + init(st) + " };"); vars.push_back({nm, 0, 0, st, false, false, false, ""}); }
		else if (kind == 4) { const Var *v = pick([&](const Var &x) { return x.st < 0 && !x.vla && !x.ptr && !x.ro && x.name[0] != 'g' && x.name[0] != '_'; }); if (!v) return declare(0); string nm = nn("p"); Var w = *v; L(string(r.chance(1, 8) ? "volatile " : "") + cname(v->t) + " *" + nm + " = " + (v->n ? "" : "&") + v->name + ";"); w.name = nm; if (!w.n) w.ptr = true; vars.push_back(w); }
		else if (kind == 5) more();
		else declare(0);
	}
	void more() {
		auto add = [&](const string &n, char t, int cnt) { vars.push_back({n, t, cnt, -1, false, false, false, ""}); };
		switch (r.below(8)) {
		case 0: { string n = nn("u"); L("union { long l; unsigned i; unsigned char c[8]; short s; } " + n + " = { .l = " + I(2) + " };"); add(n + ".l", 'l', 0); add(n + ".i", 'I', 0); add(n + ".c", 'C', 8); add(n + ".s", 's', 0); break; }
		case 1: {
			static const struct { const char *n; int w; bool u; } ty[] = {{"int", 32, 0}, {"unsigned", 32, 1}, {"short", 16, 0}, {"unsigned short", 16, 1}, {"signed char", 8, 0}, {"unsigned char", 8, 1}, {"long", 64, 0}, {"unsigned long", 64, 1}, {"_Bool", 1, 1}};
			string n = nn("_b"), d, ini; int k = r.range(2, 6); bool st = c.det && r.chance(1, 4), ar = r.chance(1, 5); vector<std::pair<string, char>> ms;
			for (int i = 0; i < k || ms.empty(); i++) { auto &t = ty[r.below(9)]; string m = string(1, 'a' + i); int q = r.below(10);
				if (q == 0) { d += string(t.n) + " :" + (r.chance(1, 2) && t.w > 1 ? string("0") : S(r.range(1, t.w))) + "; "; continue; }
				if (q < 8) { int w = r.range(1, t.w); if (t.w == 64 && w > 31) w = r.chance(1, 2) ? 64 : 31; d += string(t.n) + " " + m + ":" + S(w) + "; "; ms.push_back({m, w == 64 ? 'l' : w == 32 && t.u ? 'I' : 'i'}); ini += (ini.empty() ? "" : ", ") + (st ? S(r.below(w > 6 ? 100 : 2)) : string(t.w == 1 ? "(_Bool)" : "") + "(" + I(1) + ")"); }
				else { d += string(t.n) + " " + m + "; "; ms.push_back({m, t.w == 64 ? 'l' : t.w == 32 && t.u ? 'I' : 'i'}); ini += (ini.empty() ? "" : ", ") + (st ? S(r.below(2)) : string(t.w == 1 ? "(_Bool)" : "") + "(" + I(1) + ")"); } }
			L((st ? "static struct { " : "struct { ") + d + "} " + n + (ar ? "[2] = { { " + ini + " }, { " + ini + " } };" : " = { " + ini + " };"));
			for (auto &m : ms) add(n + (ar ? r.chance(1, 2) ? "[1]." : "[0]." : ".") + m.first, m.second, 0); break; }
		case 7: { string n = nn("a"); static const int z[] = {3, 5, 6, 7, 9, 11, 13, 15, 18, 31, 35, 60, 67, 129}; int k = z[r.below(14)]; char t = "cCcs"[r.below(4)]; L(string(cname(t)) + " " + n + "[" + S(k) + "] = { " + (r.chance(1, 2) ? I(1) : string(r.chance(1, 2) ? "0" : "1, 2")) + " }; ext_arr(" + n + ", sizeof " + n + ");"); add(n, t, k >= 8 ? 8 : k >= 4 ? 4 : 2); cost += 20 * mult; break; }
		case 2: { string n = nn("a"); L(string(r.chance(1, 4) ? "unsigned char " : "char ") + n + "[16] = \"" + string(r.below(12), 'q') + "xyz\";"); add(n, 'C', 16); if (sp17) L("ext_arr(" + n + ", sizeof " + n + ");"); break; }
		case 3: { string n = nn("a"); char t = T(); L(string(cname(t)) + " " + n + "[8] = { " + E(t, 2) + ", " + E(t, 1) + ", [5] = " + E(t, 2) + (r.chance(1, 2) ? ", [6 ... 7] = 3" : "") + " };"); add(n, t, 8); if (sp17) L("ext_arr(" + n + ", sizeof " + n + ");"); break; }
		case 4: if (c.structs) { int st = r.below(ST.size()); usedst.insert(st); string n = nn("sa"); L(string(ST[st].name) + " " + n + "[4] = { { " + init(st) + " }, [2] = { " + init(st) + " } };"); for (int i = 0; i < 4; i++) vars.push_back({n + "[" + S(i) + "]", 0, 0, st, false, false, false, ""}); break; } declare(0); break;
		case 5: if (c.structs) { const Var *v = pick([&](const Var &x) { return x.st >= 0 && !x.ptr && !x.ro; }); if (v) { Var w = *v; string n = nn("ps"); L(string(ST[v->st].name) + " *" + n + " = &" + v->name + ";"); w.name = n; w.ptr = true; vars.push_back(w); break; } } declare(0); break;
		case 6: if (r.chance(1, 2)) { string n = nn("v"); L("__attribute__((cleanup(cl))) int " + n + " = " + I(2) + ";"); clean = true; cost += 60 * mult; add(n, 'i', 0); } else { string n = nn("_r"); L("register long " + n + " = " + I(2) + ";"); add(n, 'l', 0); } break;
		}
	}
	void chkcan(const Can &x) { cost += 20 * mult; L("ext_can(" + string(x.sz <= 8 ? "&" : "") + x.n + ", " + S(x.sz) + ", " + S(x.b) + ");"); }
	void mkcan() { static const char *ty[] = {"unsigned char", "unsigned short", "unsigned", "unsigned long"}; Can x; x.n = nn("c"); x.b = r.range(1, 255); int k = r.below(6); if (k < 4) { x.sz = 1 << k; string v = "0x"; char q[4]; snprintf(q, 4, "%02x", x.b); for (int i = 0; i < x.sz; i++) v += q; L(string(ty[k]) + " " + x.n + " = " + v + (k == 3 ? "ul;" : k == 2 ? "u;" : ";")); } else { x.sz = r.range(9, 40); if (c.vla && r.chance(1, 2)) { string q = nn("n"); L("unsigned " + q + " = " + S(x.sz) + "; unsigned char " + x.n + "[" + q + "];"); } else L("unsigned char " + x.n + "[" + S(x.sz) + "];"); L("for (int i_ = 0; i_ < " + S(x.sz) + "; i_++) " + x.n + "[i_] = " + S(x.b) + ";"); cost += 8 * x.sz * mult; } cans.push_back(x); }
	void canary() { if (!canp || leaf || inexpr || cost > 6000) return; if (r.chance(1, 3)) mkcan(); if (cans.size() && r.chance(1, 3)) chkcan(cans[r.below(cans.size())]); else if (c.globals && r.chance(1, 8)) { static const char *g[] = {"&gc0, 4, 17", "gc1, 9, 34", "gc2, 5, 0", "&gc3, 1, 51"}; cost += 20 * mult; L(string("ext_can(") + g[r.below(4)] + ");"); } }
	string obs(const Var &v, bool *fl) {   // an expression that shows part of what a variable holds
		string b = v.name; char t = v.t; if (v.st >= 0) { auto &m = ST[v.st].m[r.below(ST[v.st].m.size())]; t = m.second; b += (v.ptr ? "->" : ".") + m.first; } else if (v.vla) b += "[0]"; else if (v.n) b += "[" + S(r.below(v.n)) + "]"; else if (v.ptr) b = "*" + b; *fl = isf(t); return b; }
	void digest(size_t k) {   // lets the outcome of a run depend on what the variables of a scope hold when it ends
		if (k >= vars.size() || cost > 6000 || inexpr || !r.chance(1, 2)) return; if (leaf || !c.ext) { if (!dg) return; for (size_t i = k; i < vars.size(); i++) { bool f; string o = obs(vars[i], &f); L(f ? "dg_ += " + o + " > 1;" : "dg_ = dg_ * 3 + " + o + ";"); cost += 5 * mult; } return; }
		string f, a; int n = 0; for (size_t i = k; i < vars.size() && n < 12; i++, n++) { bool fl; string o = obs(vars[i], &fl); f += fl ? "d" : "l"; a += string(", (") + (fl ? "double" : "long") + ")" + o; } cost += 30 * mult; L("extv(\"" + f + "\"" + a + ");"); }
	void block(int n) { size_t k = vars.size(), kc = cans.size(); open(); for (int i = 0; i < n; i++) { canary(); stmt(); } digest(k); for (size_t i = kc; i < cans.size(); i++) chkcan(cans[i]); close(); vars.resize(k); cans.resize(kc); }
	set<string> snpre;
	void snneed(const string &s) { for (auto &q : SNIPPRE) { size_t n = strlen(q.name); for (size_t i = s.find(q.name); i != string::npos; i = s.find(q.name, i + 1)) if (!isalnum((unsigned char)s[i + n]) && s[i + n] != '_') { if (snpre.insert(q.name).second) snneed(string(q.text) + " "); break; } } }
	bool snippet() {   // a fixed piece of C, on values from the program around it
		const unsigned ns = sizeof SNIP / sizeof *SNIP; unsigned qi = r.below(ns); if (r.chance(1, 8)) for (int i = 0; i < 200 && !strstr(SNIP[qi].text, "sn_inr") && !strstr(SNIP[qi].text, "sn_fact") && !strstr(SNIP[qi].text, "sn_od(") && !strstr(SNIP[qi].text, "sn_iclamp"); i++) qi = r.below(ns);
		auto &q = SNIP[qi]; if (q.fl && !c.floats) return false; string n = nn("v"), t = q.text, k = n.substr(1); for (size_t i; (i = t.find('$')) != string::npos;) t.replace(i, 1, "_" + k);
		auto arg = [&]() { if (r.chance(1, 3)) { static const char *z[] = {"0", "1", "-1", "255", "-128", "32768", "65535", "2147483647", "-2147483648L", "4294967295L", "1311768467294899695L", "-9223372036854775807L", "7", "100"}; return string(z[r.below(14)]); } return I(2); };
		L("long " + n + " = 0;"); L("{ long v = 0, a = " + arg() + ", b = " + arg() + ";" + (q.fl ? " double f = " + F(1) + ";" : "")); if (q.fl) L("f = f > -1e6 && f < 1e6 ? f : 2.5;");
		for (size_t i = 0; i < t.size();) { size_t e = t.find('\n', i); if (e == string::npos) e = t.size(); L(t.substr(i, e - i)); i = e + 1; } L(n + " = v; }"); snneed(t + " "); cost += 300 * mult; vars.push_back({n, 'l', 0, -1, false, false, false, ""}); return true;
	}
	void stmt() {
		if (cost > 6000) { L(";"); return; }
		if (c.det && !leaf && !inexpr && mult < 20 && r.chance(1, 14) && snippet()) return;
		int x = r.below(20); if (c.det && r.chance(1, 5)) { string n = nn("v"); if (r.chance(1, 4)) { string s = call(true, 2); if (s.size()) { L("double " + n + " = " + s + ";"); vars.push_back({n, 'd', 0, -1, false, false, false, ""}); return; } } char t; do t = T(); while (isf(t)); L(string(cname(t)) + " " + n + " = " + X(r.range(0, 2)) + ";"); vars.push_back({n, t, 0, -1, false, false, false, ""}); return; }
		if (x < 4) { static const int kk[] = {0, 0, 1, 1, 2, 2, 3, 4, 5, 5}; declare(kk[r.below(10)]); }
		else if (x < 9) { char t; string v = LV(&t, 2, false, true); if (v.empty()) { declare(0); return; } if (r.chance(1, 3)) { if (isf(t)) L(v + " " + string(1, "+-*"[r.below(3)]) + "= " + F(2) + ";"); else if (t != 'b') L(v + " " + string(1, "+-*^|&"[r.below(6)]) + "= " + I(c.depth) + ";"); else L(v + " = " + I(2) + ";"); } else L(v + " = " + E(t, c.depth) + ";"); }
		else if (x < 11) { if (leaf || !c.ext) { L(I(2) + ";"); return; } const Sig &g = exts[r.below(exts.size())]; string a = callargs(g, c.depth); if (a == "!") return; cost += 20 * mult; L(g.name + "(" + a + ");"); }
		else if (x == 11) { for (auto it = fns.rbegin(); it != fns.rend(); ++it) if (it->callable && !leaf && c.calls && mult * it->cost < 3000 && r.chance(1, 2)) { string a = callargs(it->s, 2); if (a == "!") continue; cost += mult * it->cost; L(it->s.name + "(" + a + ");"); return; } L(";"); }
		else if (x == 12 || x == 13) { L("if (" + C(2) + ") {"); block(r.range(1, 3)); if (r.chance(1, 2)) { L("} else {"); block(r.range(1, 3)); } L("}"); }
		else if (x == 14 || x == 15) { if (mult > 20) { declare(0); return; } int n = r.range(1, 4); string v = nn("k"); int form = r.below(3); L(form == 0 ? "for (int " + v + " = 0; " + v + " < " + S(n) + "; " + v + "++) {" : form == 1 ? "{ int " + v + " = " + S(n) + "; while (" + v + "-- > 0) {" : "{ int " + v + " = 0; do {"); long m = mult; mult *= n; loops++; size_t q = vars.size(); vars.push_back({v, 'i', 0, -1, false, false, true, ""}); block(r.range(1, 3)); if (r.chance(1, 3)) { open(); L("if (" + I(1) + ") " + (r.chance(1, 2) ? "break;" : form == 2 ? "break;" : "continue;")); char t; string l = LV(&t, 1, false, true); if (l.size()) L(l + " = " + E(t, 2) + ";"); close(); } vars.resize(q); loops--; mult = m; L(form == 2 ? "} while (++" + v + " < " + S(n) + "); }" : form == 1 ? "} }" : "}"); }
		else if (x == 16) { L("switch ((" + C(2) + ") & 3) {"); open(); for (int k = 0; k < 3; k++) { L(k == 2 ? "default: {" : "case " + S(k) + ": {"); block(r.range(1, 2)); L("}"); if (r.chance(1, 2)) L("break;"); } L(";"); close(); L("}"); }
		else if (x == 17) { if (r.chance(1, 6) && labels < 2) { string l = nn("L"); labels++; L("{ void *t_[] = { &&" + l + "a, &&" + l + "b }; goto *t_[(" + I(2) + ") & 1];"); L(l + "a: {"); block(1); L("}"); L(l + "b: {"); block(1); L("} }"); } else if (r.chance(1, 3) && labels < 2) { string l = nn("L"); labels++; L("{ if (" + I(2) + ") goto " + l + "; {"); block(r.range(1, 2)); L("} " + l + ": ; }"); } else { L("if (" + I(1) + ") {"); open(); retstmt(); close(); L("}"); } }
		else if (x == 18) { L("{"); block(r.range(1, 3)); L("}"); }
		else { const Var *a = pick([&](const Var &v) { return v.st >= 0 && !v.ro; }); if (!a) { declare(3); return; } const Var *b = pick([&](const Var &v) { return v.st == a->st; }); L((a->ptr ? "*" : "") + a->name + " = " + (b->ptr ? "*" : "") + b->name + ";"); }
	}
	void func(int k, bool leafp) {
		Fn f; f.s.name = "f" + S(k); f.s.variadic = false; f.s.prot = false; f.st = -1; f.s.retsize = 0; leaf = leafp; vars.clear(); cans.clear(); arrs.clear(); labels = 0; dg = false; bool nosp = false; cost = 20; mult = 1; ind = "";
		int n = r.chance(1, 5) ? r.range(7, 11) : r.range(0, 6); if (c.structs && r.chance(1, 4)) { do f.st = r.below(ST.size()); while (ST[f.st].size == 3 || ST[f.st].size > 4 && ST[f.st].size < 8);   // cc1 does not return these
			 usedst.insert(f.st); f.s.ret = ST[f.st].cls; f.s.retsize = ST[f.st].size; } else f.s.ret = r.chance(1, 8) ? 'v' : T(); ret = f.s.ret; retst = f.st;
		bool fptr = false; vector<std::pair<string, Var>> pd; for (int i = 0; i < n; i++) { Par q; q.size = 0; q.t = T(); pd.push_back({"int *", {"q" + S(i), 'i', 4, -1, false, false, false, ""}}); if (c.ptrs && r.chance(adj ? 2 : 1, 9)) { q.t = 'p'; q.size = 16; Var &pv = pd.back().second; if (r.chance(2, 3)) { static const int nopad[] = {0, 1, 5, 6, 7, 8, 10, 11, 13, 14, 15, 16, 17, 18}; if (c.structs && r.chance(1, 3)) { do pv.st = nopad[r.below(14)]; while (pv.st >= (int)ST.size()); pv.n = 0; pv.ptr = true; pv.t = 't'; q.size = ST[pv.st].size; q.st = pv.st; if (c.det) fptr = true; usedst.insert(pv.st); pd.back().first = string(ST[pv.st].name) + " *"; } else { do pv.t = T(); while (pv.t == 'b'); pv.n = r.chance(1, 2) ? 0 : 1 << r.range(1, 3); pv.ptr = !pv.n; q.size = tsz(pv.t) * (pv.n ? pv.n : 1); q.e = pv.t; if (isf(pv.t) && c.det) fptr = true; pd.back().first = string(cname(pv.t)) + " *"; } } } f.s.par.push_back(q); }
		f.callable = true; if (fptr) f.entry = false; bool vary = !leafp && r.chance(1, 7), inl = false; string h;
		if (vary) { f.s.variadic = true; if (f.st >= 0 && (ST[f.st].cls != 'M' || r.chance(1, 4))) f.st = retst = -1; if (f.st < 0) { f.s.ret = ret = "ilLd"[r.below(c.floats ? 4 : 3)]; f.s.retsize = 0; } int nn_ = r.chance(1, 2) ? 0 : r.chance(1, 3) ? r.range(5, 12) : r.range(1, 4); f.s.par.clear(); h = rettype(f) + " " + f.s.name + "("; for (int i = 0; i < nn_; i++) { char t = T(); f.s.par.push_back({t, 0}); h += string(cname(t)) + " q" + S(i) + ", "; vars.push_back({"q" + S(i), t, 0, -1, false, false, false, ""}); } f.s.par.push_back({'p', 1}); h += "char *fm, ...)"; }
		else { if (k && r.chance(2, 5) && !(sp17 && r.chance(1, 2))) { static const char *lk[] = {"static ", "static inline ", "static inline __attribute__((always_inline)) ", "static __attribute__((noinline)) "}; h = lk[r.below(4)]; f.entry = false; inl = h.find("inline ") != string::npos && h.find("noinline") == string::npos; } h += rettype(f) + " " + f.s.name + "("; for (int i = 0; i < n; i++) { char t = f.s.par[i].t; h += (i ? ", " : "") + (t == 'p' ? pd[i].first : cname(t) + string(" ")) + "q" + S(i); if (t == 'p') vars.push_back(pd[i].second); else vars.push_back({"q" + S(i), t, 0, -1, false, false, false, ""}); } h += n ? ")" : "void)"; }
		if (c.globals) { vars.push_back({"g0", 'I', 0, -1, false, false, false, ""}); vars.push_back({"g1", 'l', 0, -1, false, false, false, ""}); vars.push_back({"ga", 'i', 8, -1, false, false, false, ""}); if (c.floats) vars.push_back({"gd", 'd', 0, -1, false, false, false, ""}); }
		L(h); L("{"); open();
		if (vary) { L("long x = 0; double y = 0; __builtin_va_list ap; __builtin_va_start(ap, fm);"); vars.push_back({"x", 'l', 0, -1, false, false, false, ""}); if (c.floats) vars.push_back({"y", 'd', 0, -1, false, false, false, ""}); if (r.chance(1, 2)) stmt(); if (r.chance(1, 3)) { vhelp = true; L("__builtin_va_list bp; __builtin_va_copy(bp, ap); x += vh(fm, bp);" + string(r.chance(1, 2) ? " __builtin_va_end(bp);" : "")); cost += 500; } L("while (*fm) { switch (*fm++) { case 'i': x = x * 3 + __builtin_va_arg(ap, int); break; case 'I': x += __builtin_va_arg(ap, unsigned); break; case 'l': x ^= __builtin_va_arg(ap, long); break; case 'L': x -= __builtin_va_arg(ap, unsigned long); break; case 'd': y = y / 2 + __builtin_va_arg(ap, double); break; } }"); L("__builtin_va_end(ap);"); cost += 500; if (r.chance(1, 2)) stmt(); if (retst >= 0) { auto &m = ST[retst].m[0]; L(string(ST[retst].name) + " rs = { " + init(retst) + " }; rs." + m.first + " = " + (isf(m.second) ? "y" : "x + (long)(y > -1e9 && y < 1e9 ? y : 0)") + "; return rs;"); } else L(string("return ") + (ret == 'd' ? "y + (int)x" : "x + (long)(y > -1e9 && y < 1e9 ? y : 0)") + ";"); }
		else { int ns = r.range(2, c.stmts); size_t np = vars.size(); if ((leaf || !c.ext) && ret != 'v' && retst < 0 && r.chance(2, 3)) { dg = true; L("long dg_ = 0;"); } for (auto &x : pd) if (x.second.st >= 0 && r.chance(1, 2)) { string v = nn("c"); L(string(ST[x.second.st].name) + " " + v + " = *" + x.second.name + "; " + v + "." + ST[x.second.st].m[0].first + " = " + (isf(ST[x.second.st].m[0].second) ? F(1) : I(1)) + "; *" + x.second.name + " = " + v + ";"); } if (sp17) { int pk = inl ? 9 : r.below(12); if (pk == 0) { string nm = nn("v"); char t = "csilLCI"[r.below(7)]; L(string(cname(t)) + " " + nm + " = " + I(2) + "; ext_arr(&" + nm + ", sizeof " + nm + ");"); vars.push_back({nm, t, 0, -1, false, false, false, ""}); } else if (pk == 1) { body.insert(body.rfind(h), "__attribute__((no_stack_protector)) "); nosp = true; declare(1); } else if (pk == 2 && !spall) { body.insert(body.rfind(h), "__attribute__((stack_protect)) "); declare(0); } else if (r.chance(1, 5) && c.vla) declare(2); else { string nm = nn("a"); char q = "cCsilL"[r.below(6)]; int k = q == 'c' || q == 'C' ? 8 << r.below(3) : 4 << r.below(3); L(string(cname(q)) + " " + nm + "[" + S(k) + "]; for (int i_ = 0; i_ < " + S(k) + "; i_++) " + nm + "[i_] = i_;"); cost += 10 * k; vars.push_back({nm, q, k, -1, false, false, false, ""}); L("ext_arr(" + nm + ", sizeof " + nm + ");"); } } int pk = padp && leafp && r.chance(3, 4) && ret != 'v' && retst < 0 ? r.range(1, 150) : 0; if (pk && r.chance(1, 2)) { if (r.chance(1, 2)) declare(0); declare(0); } if (pk) L("signed char pad[" + S(pk) + "]; pad[" + S(pk - 1) + "] = 9; pad[" + S(pk / 2) + "] = 8; pad[0] = 7;"); for (int i = 0; i < ns; i++) { canary(); if (i < 2) { static const int kk[] = {0, 0, 0, 1, 2, 3, 4, 5}; declare(kk[r.below(8)]); } else stmt(); } if (pk) L("if (pad[0] != 7" + string(pk > 2 ? " || pad[" + S(pk - 1) + "] != 9 || pad[" + S(pk / 2) + "] != 8" : "") + ") return 77;"); for (auto &x : cans) chkcan(x); digest(np); if (ret != 'v' || retst >= 0) retstmt(); else if (r.chance(1, 2)) retstmt(); }
		close(); L("}"); f.cost = cost; if (sp17) f.s.prot = (spall || !vary) && !nosp; fns.push_back(f);
	}
	void driver(int k) {   // an entry point that reaches every function callers cannot start a run with
		Fn f; f.s.name = "f" + S(k); f.s.variadic = f.s.prot = false; f.st = -1; f.s.retsize = 0; f.s.ret = ret = 'l'; retst = -1; f.s.par = {{'i', 0}, {'l', 0}}; leaf = false; vars.clear(); arrs.clear(); labels = 0; cost = 20; mult = 1; ind = ""; f.callable = false;
		vars.push_back({"q0", 'i', 0, -1, false, false, false, ""}); vars.push_back({"q1", 'l', 0, -1, false, false, false, ""}); L("long " + f.s.name + "(int q0, long q1)"); L("{"); open(); L("long x = q1; double y = 1; int a0[8] = { 1, q0, 3 };"); vars.push_back({"x", 'l', 0, -1, false, false, false, ""}); vars.push_back({"y", 'd', 0, -1, false, false, false, ""}); vars.push_back({"a0", 'i', 8, -1, false, false, false, ""}); if (!c.floats) vars.erase(vars.end() - 2);
		if (sp17) { L("ext_arr(a0, sizeof a0);"); f.s.prot = true; }
		if (c.det) { if (c.floats) { L("double a1[8] = { 1, q0, 3.5 }; float a2[8] = { 2, q1 & 255 };"); vars.push_back({"a1", 'd', 8, -1, false, false, false, ""}); vars.push_back({"a2", 'f', 8, -1, false, false, false, ""}); } vector<int> u(usedst.begin(), usedst.end()); for (int st : u) { string n = nn("s"); L(string(ST[st].name) + " " + n + " = { " + init(st) + " };"); vars.push_back({n, 0, 0, st, false, false, false, ""}); } }
		for (auto &g : fns) { if (!g.callable || (g.entry && g.st < 0 && !g.s.variadic && r.chance(3, 4)) || cost + g.cost > 9000) continue; string a = callargs(g.s, 2); if (a == "!") continue; cost += g.cost; string e = g.s.name + "(" + a + ")"; if (g.st >= 0) { auto &ms = ST[g.st].m; auto &m = ms[r.below(ms.size())]; if (r.chance(1, 3)) L("x += " + e + "." + m.first + " > 3;"); else { string v = nn("s"); L(string(ST[g.st].name) + " " + v + " = " + e + "; x ^= " + v + "." + m.first + " > 1;"); if (ST[g.st].m.size() > 1) vars.push_back({v, 't', 0, g.st, false, false, false, ""}); } } else if (g.s.ret == 'v') L(e + ";"); else if (isf(g.s.ret)) L(r.chance(1, 2) && c.floats ? "y = " + e + ";" : "x += " + e + " > 2;"); else L(string("x ") + "+^-"[r.below(3)] + "= " + e + ";"); }
		if (c.det) { if (c.globals) L("extv(\"Illl\", g0, g1, (long)ga[q0 & 7], (long)ga[1]);"); digest(2); } L("return x + (y > 2);"); close(); L("}"); f.cost = cost; fns.push_back(f);
	}
	void mkexts() {
		int n = r.range(2, 5); for (int i = 0; i < n; i++) { Sig s; s.name = "ext" + S(i); s.ret = r.chance(1, 6) ? 'v' : T(); s.retsize = 0; s.variadic = s.prot = false; int k = r.chance(1, 5) ? r.range(7, 12) : r.range(0, 6); for (int j = 0; j < k; j++) s.par.push_back({T(), 0}); exts.push_back(s); }
		Sig v; v.name = "extv"; v.ret = "il"[r.below(2)]; v.retsize = 0; v.variadic = true; v.prot = false; v.par = {{'p', 1}}; exts.push_back(v); if (r.chance(1, 2)) { Sig w = v; w.name = "extu"; w.par.clear(); int n = r.range(1, 4); for (int i = 0; i < n; i++) w.par.push_back({c.floats && r.chance(1, 2) ? "fd"[r.below(2)] : T(), 0}); w.par.push_back({'p', 1}); exts.push_back(w); } { Sig e; e.name = "extc"; e.ret = 'v'; e.retsize = 0; e.variadic = e.prot = false; e.par = {{'i', 0}}; exts.push_back(e); } if (c.ptrs) { Sig w; w.name = "extw"; w.ret = 'i'; w.retsize = 0; w.variadic = w.prot = false; w.par = {{'p', 8}, {'i', 0}}; exts.push_back(w); }
	}
	string extdecl(const Sig &s) { if (s.name == "extc") return ""; string o = string(cname(s.ret)) + " " + s.name + "("; for (size_t i = 0; i < s.par.size(); i++) o += (i ? ", " : "") + string(s.par[i].t == 'p' ? (s.variadic ? "char *" : "void *") : cname(s.par[i].t)); if (s.par.empty()) o += "void"; return o + (s.variadic ? ", ...)" : ")") + ";\n"; }
	string text() { string o; for (int s : usedst) o += string(ST[s].decl) + "\n"; for (auto &e : exts) o += extdecl(e); o += "void mark(int, int); void ext_arr(void *, int);" + string(canp ? " void ext_can(void *, int, int);" : "") + "\n"; o += "void extc(int);\n"; if (clean) o += "static void cl(int *p)\n{\n\textc(*p);\n}\n"; if (vhelp) o += "static long vh(char *q, __builtin_va_list ap)\n{\n\tlong x = 0;\n\tfor (; *q; q++) switch (*q) { case 'i': x += __builtin_va_arg(ap, int); break; case 'I': x += __builtin_va_arg(ap, unsigned); break; case 'l': case 'L': x ^= __builtin_va_arg(ap, long); break; case 'd': { double d = __builtin_va_arg(ap, double); x += d > 1e9 || d < -1e9 ? 1 : (long)d; } }\n\treturn x;\n}\n"; for (auto &q : SNIPPRE) if (snpre.count(q.name)) o += string(q.text) + "\n"; if (c.globals) { if (canp) o += "unsigned gc0 = 0x11111111; unsigned g0 = 17; unsigned char gc1[9] = { 34, 34, 34, 34, 34, 34, 34, 34, 34 }; long g1 = -5; char gc2[5]; int ga[8] = { 1, 2, 3, 4, 5, 6, 7, 8 }; char gc3 = 51;\n"; else o += "unsigned g0 = 17; long g1 = -5; int ga[8] = { 1, 2, 3, 4, 5, 6, 7, 8 };\n"; if (c.floats) o += "double gd = 2.5;\n"; } return o + body; }
};
vector<u64> gen_args(Rng &r, const Sig &s) { vector<u64> a; for (auto &q : s.par) { u64 v; switch (q.t) { case 'f': { float x = (float)((int)r.below(4001) - 2000) / 8; u32 y; __builtin_memcpy(&y, &x, 4); v = y; break; } case 'd': { double x = (double)((int)r.below(40001) - 20000) / 16; __builtin_memcpy(&v, &x, 8); break; } case 'b': v = r.below(2); break; case 'p': v = r.next(); break; default: v = r.chance(1, 2) ? r.below(20) : r.chance(1, 3) ? (u64)-(s64)r.below(300) : r.next(); } a.push_back(v); } return a; }
static void flagsfor(PG &g, Prog &p, const string &prop) {
	Rng &r = g.r; auto f = [&](const char *s, int n, int d) { if (r.chance(n, d)) p.flags.push_back(s); };
	if (prop == "P13" || prop == "P18") f("-mno-red-zone", 2, 5); else f("-mno-red-zone", 1, 8);
	f("-fpic", 1, 4); f("-O2", 1, 4); f("-fomit-frame-pointer", 1, 4); f("-fno-const-fold", 1, 8); f("-g", 1, 10); f("-fverbose-asm", 1, 16);
	f("-fno-integral-float-load", 1, 10); f("-fno-symbol-arith", 1, 12); f("-fno-inline-functions", 1, 8); f("-fno-thread-jumps", 1, 8); f("-mpreferred-stack-boundary=5", 1, 20); f("-fno-plt", 1, 12); if (r.chance(1, 4)) p.flags.push_back(r.chance(1, 2) ? "-mstringop-strategy=loop" : r.chance(1, 2) ? "-mstringop-strategy=libcall" : "-mstringop-strategy=libcall-threshold=" + S(4 << r.below(5))); f("-ffreestanding", 1, 30); f("-fpie", 1, 20); f("-ffinite-math-only", 1, 30); f("-frounding-math", 1, 30); f("-fno-semantic-interposition", 1, 20); f("-funsigned-char", 1, 20); f("-fdata-sections", 1, 30); f("-ffunction-sections", 1, 30); f("-fno-common", 1, 30); if (prop != "P16" && prop != "P20" && r.chance(1, 16)) { p.flags.push_back("-fpcc-struct-return"); for (auto *v : {&p.fns, &p.exts}) for (auto &s : *v) if (s.ret == 'A') s.ret = 'M'; } if (prop != "P16" && prop != "P17" && r.chance(1, 12)) { p.flags.push_back("-pg"); if (r.chance(1, 2)) p.flags.push_back("-mfentry"); }
	if (prop == "P17") p.flags.push_back(g.spall ? "-fstack-protector-all" : "-fstack-protector"); else if (prop != "P16" && prop != "P19" && prop != "P20" && prop != "P26") f(r.chance(1, 2) ? "-fstack-protector" : "-fstack-protector-all", 1, 8);
}
// ---------------------------------------------------------------- P16: programs over a device
static void gen_dev(u64 seed, Prog &p, vector<vector<Call>> &calls) {
	PG g(mix(seed, 16)); Rng &r = g.r; struct Obj { string lv; char t; }; vector<Obj> objs; string decl, ptrs; int off = 0; p.has_dev = true;
	decl = "typedef struct { int a; unsigned char b; short c; long d; } R0;\ntypedef struct { float x; int y; double z; } R1;\ntypedef struct { volatile int a; int p; volatile unsigned char b[3]; volatile short c; } R2;\ntypedef volatile int vint;\n";
	bool flprog = r.chance(1, 3); auto T = [&]() { return flprog ? "cCsSilfd"[r.below(8)] : "cCsSiIlL"[r.below(8)]; };   // cc1 converts unsigned to floating through a signed int: not what P16 is about
	for (int i = 0, n = r.range(5, 9); i < n; i++, off += 32) {
		string nm = "dv" + S(off); int k = r.below(10); bool viaptr = r.chance(1, 3); string pn = "p" + S(i);
		if (k < 4) { char t = T(); decl += string("extern volatile ") + cname(t) + " " + nm + ";\n"; if (viaptr) { ptrs += string("\tvolatile ") + cname(t) + " *" + (r.chance(1, 3) ? "const " : "") + pn + " = &" + nm + ";\n"; objs.push_back({r.chance(1, 4) ? pn + "[0]" : "*" + pn, t}); } else objs.push_back({r.chance(1, 8) ? "*&" + nm : nm, t}); }
		else if (k < 6) { char t = T(); decl += string("extern volatile ") + cname(t) + " " + nm + "[4];\n"; string b = nm; if (viaptr) { ptrs += string("\tvolatile ") + cname(t) + " *" + pn + " = " + nm + ";\n"; b = pn; } int x = r.below(3); objs.push_back({b + "[" + S(x) + "]", t}); objs.push_back({b + "[(i & 0) + 3]", t}); }
		else if (k == 8) { decl += "extern R2 " + nm + ";\n"; string b = nm + "."; if (viaptr) { ptrs += "\tR2 *" + pn + " = &" + nm + ";\n"; b = pn + "->"; } objs.push_back({b + "a", 'i'}); objs.push_back({b + "b[2]", 'C'}); objs.push_back({b + "c", 's'}); }
		else if (k == 9) { char t = "cCsSilL"[r.below(7)]; switch (r.below(4)) { case 0: decl += "extern vint " + nm + ";\n"; objs.push_back({nm, 'i'}); break; case 1: decl += string("extern ") + cname(t) + " " + nm + ";\n"; objs.push_back({string("*(volatile ") + cname(t) + " *)&" + nm, t}); break; case 2: decl += string("extern volatile ") + cname(t) + " " + nm + "[2][2];\n"; objs.push_back({nm + "[1][i & 1]", t}); break; default: decl += "extern const volatile " + string(cname(t)) + " " + nm + "c;\nextern volatile " + cname(t) + " " + nm + ";\n"; objs.push_back({r.chance(1, 2) ? "(&" + nm + ")[0]" : "*(&" + nm + " + 0)", t}); } }
		else { bool fl = flprog && r.chance(1, 2); decl += string("extern volatile ") + (fl ? "R1 " : "R0 ") + nm + ";\n"; string b = nm + "."; if (viaptr) { ptrs += string("\tvolatile ") + (fl ? "R1" : "R0") + " *" + pn + " = &" + nm + ";\n"; b = pn + "->"; } if (fl) { objs.push_back({b + "x", 'f'}); objs.push_back({b + "y", 'i'}); objs.push_back({b + "z", 'd'}); } else { objs.push_back({b + "a", 'i'}); objs.push_back({b + "b", 'C'}); objs.push_back({b + "c", 's'}); objs.push_back({b + "d", 'l'}); } }
	}
	decl += "extern int ext0(int, long); extern void mark(int, int);\n"; Sig e; e.name = "ext0"; e.ret = 'i'; e.retsize = 0; e.variadic = e.prot = false; e.par = {{'i', 0}, {'l', 0}}; p.exts.push_back(e);
	bool hrd = r.chance(1, 2); string hk = string("static ") + (r.chance(1, 2) ? "inline " : "") + (r.chance(1, 2) ? "__attribute__((always_inline)) " : ""); if (hrd) { for (char t : string("cCsSiIlL")) decl += hk + "long rd_" + t + "(volatile " + cname(t) + " *p) { return (long)*p; }\n" + hk + "void wr_" + t + "(volatile " + cname(t) + " *p, int v) { *p = v; }\n" + hk + "int ts_" + t + "(volatile " + cname(t) + " *p, int v) { if (*p) return v; *p += v; return 1; }\n"; }
	string body; int id = 0; string ind = "\t"; int nfn = r.range(1, 3); vector<Obj> used;
	auto L = [&](const string &s) { body += ind + s + "\n"; };
	vector<size_t> avail; auto fresh = [&]() { avail.clear(); for (size_t i = 0; i < objs.size(); i++) avail.push_back(i); };
	auto take = [&](int kind) -> Obj { // 0 any, 1 integer
		for (int k = 0; k < 20 && avail.size(); k++) { size_t x = r.below(avail.size()); Obj o = objs[avail[x]]; if (kind == 1 && isf(o.t)) continue; avail.erase(avail.begin() + x); return o; } return {"", 'i'}; };
	auto V = [&]() { static const char *v[] = {"x", "y", "i", "3", "-1", "0x1234", "x + i", "y ^ 5", "(x & 7)"}; return string(v[r.below(9)]); };
	std::function<void(int)> stmt = [&](int d) {
		bool ord = true; fresh(); Obj a = take(0), b = take(0), c = take(1), q = take(1); if (b.lv.empty() || c.lv.empty() || q.lv.empty()) return; string A = a.lv, B = b.lv, C = c.lv, Q = q.lv, s; string asx = r.chance(1, 2) ? "x" : "y"; const string P = "(" ;
		switch (r.below(66)) {
		case 0: s = A + ";"; break; case 1: s = "(void)" + A + ";"; break; case 2: case 3: s = A + " = " + V() + ";"; break; case 4: s = asx + " = " + C + ";"; break; case 5: s = asx + " += (int)" + C + ";"; break;
		case 6: case 7: if (isf(a.t)) s = A + " " + string(1, "+-*"[r.below(3)]) + "= " + V() + ";"; else s = A + " " + string(1, "+-*&|^"[r.below(6)]) + "= " + V() + ";"; break;
		case 8: s = "(" + C + ")" + (r.chance(1, 2) ? "++;" : "--;"); break; case 9: s = string(r.chance(1, 2) ? "++" : "--") + "(" + C + ");"; break; case 10: s = asx + " = (" + C + ")" + (r.chance(1, 2) ? "++;" : "--;"); break;
		case 11: s = asx + " = (" + C + ") + (" + Q + ");"; ord = false; break; case 12: s = asx + " = (" + C + ") && (" + Q + ");"; break; case 13: s = asx + " = (" + C + ") || (" + A + ");"; break; case 14: s = asx + " = (x & 1) ? (int)(" + C + ") : (int)(" + Q + ");"; break; case 15: s = asx + " = (" + C + ") ? " + V() + " : " + V() + ";"; break;
		case 16: s = "(" + A + "), (" + B + ");"; break; case 17: s = asx + " = ((" + A + "), (" + C + "));"; break; case 18: s = A + " = " + C + ";"; break; case 19: s = A + " = (" + A + ") + " + V() + ";"; break;
		case 20: s = asx + " = ext0((int)(" + C + "), (" + Q + "));"; ord = false; break; case 21: s = "ext0((int)(" + C + "), " + V() + ");"; break; case 22: s = asx + " = sizeof(" + A + ");"; break; case 23: s = asx + " = (" + C + ") " + (r.chance(1, 2) ? "* 0;" : "& 0;"); break;
		case 24: s = asx + " = " + string(r.chance(1, 2) ? "0 && (" : "1 || (") + A + ");"; break; case 25: s = asx + " = ((" + C + ") && 0) + ((" + Q + ") ? 5 : 5);"; ord = false; break; case 26: s = asx + " = ({ int t_ = (int)(" + C + "); t_ + 1; });"; break;
		case 27: s = "{ long t_[2] = { (" + C + "), 4 }; x += (int)t_[0]; }"; break; case 28: s = asx + " = " + string(1, "!~-"[r.below(3)]) + "(" + C + ");"; break; case 29: s = asx + " = (" + string(cname("cCsSiIlL"[r.below(8)])) + ")(" + C + ");"; break;
		case 30: s = "for (i = 0; i < 3; i++) " + A + " = i;"; break; case 31: s = "i = 4; while (--i && (" + C + ") != 3);"; break; case 32: if (d > 0) { L("mark(" + S(++id) + ", 0);"); L("if (" + C + ") {"); ind += "\t"; stmt(d - 1); ind.pop_back(); if (r.chance(1, 2)) { L("} else {"); ind += "\t"; stmt(d - 1); ind.pop_back(); } L("}"); } else s = "if (" + C + ") x++;"; break;
		case 33: s = "switch ((int)(" + C + ") & 3) { case 0: x++; break; case 1: " + B + " = 7; break; default: y++; }"; break; case 34: s = asx + " = (" + C + ") < (" + V() + ") ? 1 : 0;"; break; case 35: s = "do { y++; } while ((" + C + ") == 12345);"; break;
		}
		if (s.empty()) { string tn = string(1, c.t); bool nf = r.chance(1, 2); switch (r.below(30)) {
		case 0: case 1: if (hrd) s = asx + " = (int)rd_" + tn + "(&" + C + ");"; break; case 2: if (hrd) s = "wr_" + tn + "(&" + C + ", " + V() + ");"; break; case 3: if (hrd) s = asx + " += ts_" + tn + "(&" + C + ", " + V() + ");"; break;
		case 4: s = asx + " = (int)((" + C + ") ?: " + V() + ");"; break; case 5: s = "x = __builtin_expect((" + C + ") != 0, 1);"; break; case 6: s = "{ __typeof__(" + C + ") *t_ = &" + C + "; x += (int)*t_; }"; break; case 7: s = asx + " = _Generic((" + C + "), default: 7);"; break;
		case 8: s = C + " " + (nf ? "<<" : ">>") + "= 1;"; break; case 9: if (c.t != 'c' && c.t != 'C' && c.t != 's' && c.t != 'S') s = C + " " + (nf ? "/" : "%") + "= 3;"; break; case 10: s = asx + " = (int)((" + C + ") " + (nf ? "<< 1);" : "/ 3);"); break; case 11: s = "{ int l_[4] = { 1, 2, 3, 4 }; l_[(" + C + ") & 3]" + (nf ? "++;" : " += 3;") + " x += l_[0] + l_[2] * 3; }"; break;
		case 12: s = "{ int l_[4] = { 1, 2, 3, 4 }; x = l_[(" + C + ") & 3]; }"; break; case 13: s = "{ _Bool b_ = " + C + "; x += b_; }"; break; case 14: s = asx + " = !!(" + C + ");"; break; case 15: s = asx + " = ({ (" + C + "); 0; });"; break; case 16: s = "while ((x = (int)(" + C + ")) > 5 && i++ < 6);"; break;
		case 17: s = "(void)((" + A + ") + 1);"; break; case 18: s = "(void)((" + A + "), (" + B + "));"; break; case 19: s = "(void)(x > 3 ? (" + C + ") : (" + Q + "));"; break; case 20: s = "-(" + A + ");"; break; case 21: s = "(" + C + ") == 3;"; break; case 22: s = "for (i = 0; ((" + C + ") & 1) && i < 3; i++) y++;"; break;
		case 23: s = "if (!(" + C + ") || (" + Q + ") > 7) { " + B + " = 1; } else x++;"; break; case 24: s = "i = 0; do { " + A + " = i; if ((" + C + ") & 2) continue; x++; } while (i++ < 2);"; break; case 25: s = asx + " = (x++, (" + C + ")) + 1;"; break; case 26: s = "{ long t_ = (" + C + "), u_ = (" + Q + "); x ^= (int)(t_ - u_); }"; break;
		case 27: s = C + " " + string(1, "|&^"[r.below(3)]) + "= 1 << (x & 3);"; break; case 28: s = asx + " = (" + C + ") > (" + Q + ") ? 3 : 4;"; ord = false; break; case 29: s = "x = (int)__builtin_constant_p(" + C + ");"; break; } }
		if (s.size()) { L("mark(" + S(++id) + ", " + (ord ? "1" : "0") + ");"); L(s); }
	};
	for (int f = 0; f < nfn; f++) { Sig s; s.name = "f" + S(f); s.ret = r.chance(1, 2) ? 'i' : 'l'; s.retsize = 0; s.variadic = s.prot = false; s.par = {{'i', 0}, {'l', 0}}; p.fns.push_back(s); body += string(cname(s.ret)) + " " + s.name + "(int x, long y)\n{\n\tint i = 2;\n" + ptrs; int n = r.range(3, 10); for (int k = 0; k < n; k++) stmt(2); if (f && r.chance(1, 2)) { L("mark(" + S(++id) + ", 1);"); L("y += f" + S(f - 1) + "((int)y, x);"); } fresh(); Obj c = take(1); L("mark(" + S(++id) + ", 1);"); L(r.chance(1, 2) && c.lv.size() ? "return " + c.lv + ";" : "return x + (int)y;"); body += "}\n"; }
	p.text = decl + body; flagsfor(g, p, "P16"); for (int k = 0; k < 2; k++) { Call c; c.fn = nfn - 1; c.args = gen_args(r, p.fns[c.fn]); calls.push_back({c}); }
}
// ---------------------------------------------------------------- P19: long loops over variable-length arrays
static void gen_vla(u64 seed, Prog &p, vector<vector<Call>> &calls) {
	PG g(mix(seed, 19)); Rng &r = g.r; p.has_dev = false; string o = "void mark(int, int);\nint ext0(int, long);\n"; Sig e; e.name = "ext0"; e.ret = 'i'; e.retsize = 0; e.variadic = e.prot = false; e.par = {{'i', 0}, {'l', 0}}; p.exts.push_back(e);
	int nv = 0, id = 0, lab = 0; string body, ind = "\t"; auto L = [&](const string &s) { body += ind + s + "\n"; };
	auto vla = [&](const string &sz) { string n = "w" + S(nv++); const char *t = &"cCsiIlL"[r.below(7)]; string ty = cname(*t); int k = r.below(4); if (k == 0) L(ty + " " + n + "[" + sz + "][3]; " + n + "[0][1] = i; x += " + n + "[0][1];"); else L(ty + " " + n + "[" + sz + "]; " + n + "[0] = i; " + n + "[(" + sz + ") - 1] = x; x += " + n + "[0];"); return n; };
	auto size = [&]() { static const char *s[] = {"(i & 7) + 1", "n", "(x & 15) + 1", "(i * 5 & 63) + 1", "n + 3", "(i % 3) + 1"}; return string(s[r.below(6)]); };
	vector<string> helpers; int nh = r.range(0, 2);
	for (int h = 0; h < nh; h++) { body += "static int h" + S(h) + "(int n, int i, int x, long a, long b, long c, long d, int e)\n{\n"; if (r.chance(3, 4)) vla(size()); L("if (x & 1) return x + e;"); if (r.chance(1, 2)) { L("{"); ind += "\t"; vla(size()); L("if (x & 2) return (int)(x - d);"); ind = "\t"; L("}"); } L("return x + (int)(a ^ b) + n;"); body += "}\n"; }
	if (nh && r.chance(1, 2)) { body += "typedef struct { long a, b, c; int d[5]; } SS;\nstatic SS hs(int n, int i, int x)\n{\n"; vla(size()); L("SS s = { i, x, n, { 1, 2, 3 } };"); L("return s;"); body += "}\n"; helpers.push_back("hs"); }
	std::function<void(int, const string &)> inner = [&](int d, const string &brk) { // statements of a loop body
		for (int k = 0, n = r.range(2, 5); k < n; k++) switch (r.below(14)) {
		case 0: case 1: case 2: vla(size()); break;
		case 3: L("{"); ind += "\t"; vla(size()); if (r.chance(1, 2)) L("if (" + string(r.chance(1, 2) ? "x & 1" : "i % 5 == 2") + ") " + (r.chance(1, 2) && brk != "switch" ? "continue;" : brk == "none" ? ";" : "break;")); vla(size()); ind.pop_back(); L("}"); break;
		case 4: L("if (i % 7 == 3) continue;"); break; case 5: if (nh) L("x += h" + S(r.below(nh)) + "(n, i, x, i, x, n, 4, (int)sizeof(int));"); else L("x += ext0(i, x);"); break; case 6: L("x ^= ext0(i & 3, n);"); break;
		case 7: if (d > 0) { string j = "j" + S(nv++); L("for (int " + j + " = 0; " + j + " < " + S(r.range(1, 4)) + "; " + j + "++) {"); ind += "\t"; inner(d - 1, "loop"); ind.pop_back(); L("}"); } break;
		case 8: if (d > 0) { L("switch (x & 3) {"); L("case 0: {"); ind += "\t"; vla(size()); L("break;"); ind.pop_back(); L("}"); L("case 1: {"); ind += "\t"; vla(size()); if (r.chance(1, 2)) L("continue;"); ind.pop_back(); L("}"); L("default: x++;"); L("}"); } break;
		case 9: { string l = "L" + S(lab++); L("{"); ind += "\t"; vla(size()); L("if (x & 4) goto " + l + ";"); vla(size()); L("x++;"); ind.pop_back(); L("}"); L(l + ":;"); break; }
		case 10: { string l = "B" + S(lab++), c = "c" + S(nv++); L("{ int " + c + " = 0;"); L(l + ":;"); L("{"); ind += "\t"; vla(size()); L("if (" + c + "++ < " + S(r.range(1, 3)) + ") goto " + l + ";"); ind.pop_back(); L("} }"); break; }
		case 11: L("x += ({ " + string("int t_[") + size() + "]; t_[0] = x; t_[0] & 31; });"); break;
		case 12: if (helpers.size()) L("x += (int)hs(n, i, x).b;"); break;
		case 13: { string l = "T" + S(lab++), c = "c" + S(nv++); L("{ int " + c + " = 0;"); L(l + ": {"); ind += "\t"; vla(size()); L("do {"); ind += "\t"; vla(size()); L("if (" + c + "++ < 2) goto " + l + ";"); ind.pop_back(); L("} while (0);"); ind.pop_back(); L("} }"); break; }
		} };
	int nf = r.range(1, 2);
	for (int f = 0; f < nf; f++) { Sig s; s.name = "f" + S(f); s.ret = 'i'; s.retsize = 0; s.variadic = s.prot = false; s.par = {{'i', 0}, {'i', 0}}; p.fns.push_back(s); body += "int f" + S(f) + "(int iters, int x)\n{\n\tint i = 0, n = (x & 7) + 1;\n"; ind = "\t"; if (r.chance(1, 3)) { vla("n"); }
		int m = ++id; int form = r.below(4); if (form == 0) L("for (i = 0; i < iters; i++) {"); else if (form == 1) L("while (i++ < iters) {"); else if (form == 2) L("do {"); else { L("again: {"); }
		ind += "\t"; L("mark(" + S(m) + ", 0);"); if (form == 3) { for (int k = r.range(1, 3); k--;) vla(size()); if (r.chance(1, 2)) { L("do {"); ind += "\t"; inner(1, "loop"); ind.pop_back(); L("} while (0);"); } L("if (i++ < iters) goto again;"); } else inner(2, "loop"); ind.pop_back(); L(form == 2 ? "} while (i++ < iters);" : "}"); L("mark(" + S(m) + ", 1);"); if (f && r.chance(1, 2)) L("for (i = 0; i < 20; i++) { x += f0(3, 5); mark(" + S(m) + ", 2); }"); L("return x;"); body += "}\n"; }
	p.text = o + body; flagsfor(g, p, "P19"); for (int k = 0; k < 2; k++) { Call c; c.fn = nf - 1; c.args = {(u64)(k ? 8000 : 700), (u32)r.below(1000)}; calls.push_back({c}); }
}
// ---------------------------------------------------------------- P26: programs over the edge of what is defined, with sanitizers
static void gen_san(u64 seed, Prog &p, vector<vector<Call>> &calls) {
	PG g(mix(seed, 26)); Rng &r = g.r; p.has_dev = false; auto ext = [&](const char *n, char ret, const char *ps) { Sig e; e.name = n; e.ret = ret; e.retsize = 0; e.variadic = e.prot = false; for (; *ps; ps++) e.par.push_back({*ps, 0}); p.exts.push_back(e); };
	ext("ext0", 'I', "il"); ext("ext1", 'v', "l"); ext("sanfail", 'v', "");
	string o = "unsigned ext0(int, long); void ext1(long);\n"; bool so = false, dz = false, sh = false, vb = false, bo = false, nn = false, un = false, nu = false, al = false, fd = false, rn = false, bl = false, all = r.chance(1, 4);
	if (all) { p.flags.push_back("-fsanitize=undefined"); so = dz = sh = vb = bo = nn = un = nu = al = rn = bl = true; } else { auto f = [&](bool &b, const char *n) { if (r.chance(1, 3)) { b = true; p.flags.push_back(string("-fsanitize=") + n); } }; f(so, "signed-integer-overflow"); f(sh, r.chance(1, 2) ? "shift" : "shift-exponent"); f(vb, "vla-bound"); f(bo, "bounds"); f(nn, "nonnull-attribute"); f(dz, "integer-divide-by-zero"); f(un, "unreachable"); f(nu, "null"); f(al, "alignment"); f(fd, "float-divide-by-zero"); f(rn, "returns-nonnull-attribute"); f(bl, "bool"); if (!so && (dz || r.chance(1, 4))) { so = true; p.flags.push_back("-ftrapv"); } }
	bool call = r.chance(1, 3); p.flags.push_back(call ? "-fsanitize-error=call=sanfail" : "-fsanitize-error=trap");
	o += "static const int EI[] = { 0, 1, -1, 2, -2, 2147483647, -2147483647 - 1, 2147483646, -2147483647, 46340, 46341, -46341, 65536, 1073741824, -1073741824, 7, 12, 100 };\nstatic const long EL[] = { 0, 1, -1, 2, -3, 0x7fffffffffffffffL, -0x7fffffffffffffffL - 1, 0x7ffffffffffffffeL, 2147483647, -2147483648L, 2147483648L, 4294967295L, 4294967296L, 3037000499L, 3037000500L, -3037000500L, 0x4000000000000000L, 10 };\n";
	if (nn) o += "__attribute__((nonnull(2))) static int nonn(int a, int *p, int *q)\n{\n\treturn a + (q ? 5 : 7) + (p == q);\n}\n"; if (nn) o += "__attribute__((nonnull)) static long nonn2(char *p, long a, char *q)\n{\n\treturn a * 3 + (p == q);\n}\n"; if (rn) o += "static int gx = 5;\n__attribute__((returns_nonnull)) static int *rnn(int *p, int k)\n{\n\tif (k > 2) return p;\n\treturn k ? &gx : p;\n}\n"; o += "struct S { char c; short s; int i; long l; char t[3]; int b : 7; unsigned ub : 5; };\n"; o += "static long gl = 4; static int gi = 9; static short gs = 3; static struct S gS; static int ga[8];\n";
	int nf = r.range(1, 3), tmp = 0; string body; auto isg = [](const string &v) { return v[0] == 'g'; }; (void)isg;
	for (int f = 0; f < nf; f++) {
		Sig s; s.name = "f" + S(f); s.ret = 'l'; s.retsize = 0; s.variadic = s.prot = false; s.par = {{'i', 0}, {'l', 0}, {'I', 0}, {'L', 0}}; p.fns.push_back(s);
		bool off = r.chance(1, 10) && all; if (all) { so = dz = sh = vb = bo = nn = un = nu = al = rn = bl = !off; } body += string(off ? "__attribute__((no_sanitize(\"undefined\"))) " : "") + "long f" + S(f) + "(int i, long l, unsigned u, unsigned long v)\n{\n\tint j = i; long m = l; short s = 3; signed char c = 1; unsigned char uc = 2; float fl = 1; double d = 2; int a8[8] = { 1, 2, 3 }; char buf[40] __attribute__((aligned(16))) = { 1, 2, 3 }; _Bool b = 1; struct S t = { 1, 2, 3, 4 };\n\tint k = 0, *ip = &j; long *lp = &m; (void)k; (void)fl; (void)d; (void)uc; (void)c; (void)s; (void)b; (void)ip; (void)lp; (void)t; (void)buf[0];\n";
		string ind = "\t"; auto L = [&](const string &x) { body += ind + x + "\n"; }; auto pick = [&](std::initializer_list<const char *> l) { return string(*(l.begin() + r.below(l.size()))); };
		auto I = [&]() { return pick({"i", "j", "(int)gi", "*ip", "t.i", "a8[2]", "s", "c", "uc", "gs", "t.b", "3", "(i ^ j)", "t.s", "ga[1]", "b", "-5"}); }; auto W = [&]() { return pick({"l", "m", "gl", "*lp", "t.l", "i", "j", "9L", "s", "u", "(l | 1)"}); }; auto U = [&]() { return pick({"u", "v", "(unsigned)i", "(unsigned long)l", "t.ub", "7u"}); };
		auto LI = [&]() { return pick({"i", "j", "gi", "*ip", "t.i", "a8[k & 3]", "ga[5]"}); }; auto LW = [&]() { return pick({"l", "m", "gl", "*lp", "t.l"}); }; auto LN = [&]() { return pick({"s", "c", "uc", "gs", "t.s", "t.c"}); };
		auto shake = [&]() { switch (r.below(8)) { case 0: case 1: L(LI() + " = EI[ext0(" + S(r.below(9)) + ", 1) % 18];"); break; case 2: case 3: L(LW() + " = EL[ext0(" + S(r.below(9)) + ", 2) % 18];"); break; case 4: L("u = ext0(3, l);"); break; case 5: L("v = EL[ext0(4, 0) % 18];"); break; case 6: L(LN() + " = EI[ext0(5, i) % 18];"); break; default: L("k = ext0(6, 3) % 9;"); } };
		std::function<void(int)> stmt = [&](int dep) {
			if (r.chance(2, 3)) shake(); string R = "ext1"; bool ok = false; for (int tr = 0; tr < 40 && !ok; tr++) switch (r.below(46)) {
			case 0: case 1: if (so || off) { string ty = pick({"I", "W"}); string a = ty == "I" ? I() : W(), b = ty == "I" ? I() : W(); L("ext1(" + a + " " + string(1, "+-*"[r.below(3)]) + " " + b + ");"); ok = true; } break;
			case 2: if (so) { string a = LI(); L(a + " " + string(1, "+-*"[r.below(3)]) + "= " + I() + "; ext1(" + a + ");"); ok = true; } break;
			case 3: if (so) { string a = LW(); L(a + " " + string(1, "+-*"[r.below(3)]) + "= " + W() + "; ext1(" + a + ");"); ok = true; } break;
			case 4: if (so) { string a = r.chance(1, 2) ? LI() : LW(); L(r.chance(1, 2) ? "ext1((" + a + ")" + pick({"++", "--"}) + "); ext1(" + a + ");" : "ext1(" + pick({"++", "--"}) + "(" + a + "));"); ok = true; } break;
			case 5: if (so) { L("ext1(-" + (r.chance(1, 2) ? LI() : LW()) + ");"); ok = true; } break;
			case 6: { string a = LN(); L("ext1(" + a + pick({"++", "--"}) + "); ext1(" + a + ");"); ok = true; break; }
			case 7: { string a = LN(); L(a + " " + string(1, "+-*"[r.below(3)]) + "= " + pick({"s", "c", "3", "uc", "t.b"}) + "; ext1(" + a + ");"); ok = true; break; }
			case 8: L("ext1(" + U() + " " + string(1, "+-*"[r.below(3)]) + " " + U() + ");"); ok = true; break;
			case 9: L(string("u ") + string(1, "+-*"[r.below(3)]) + "= " + U() + "; v " + string(1, "+-*"[r.below(3)]) + "= " + U() + "; ext1(u + v); v++; --u;"); ok = true; break;
			case 10: case 11: if (dz && so) { bool w = r.chance(1, 2); string a = w ? W() : I(), b = w ? LW() : LI(); L("ext1(" + a + pick({" / ", " % "}) + b + ");"); ok = true; } break;
			case 12: if (dz) { L("ext1(" + U() + pick({" / ", " % "}) + pick({"u", "v", "uc", "t.ub"}) + ");"); ok = true; } break;
			case 13: if (dz && so) { bool w = r.chance(1, 2); string a = w ? LW() : LI(); L(a + pick({" /= ", " %= "}) + (w ? W() : I()) + "; ext1(" + a + ");"); ok = true; } break;
			case 14: if (dz) { string a = LN(); L(a + pick({" /= ", " %= "}) + pick({"s", "c", "uc", "u"}) + "; ext1(" + a + ");"); ok = true; } break;
			case 15: case 16: if (sh) { string a = pick({"i", "j", "l", "m", "u", "v", "gi", "s", "uc"}); L("ext1(" + a + " >> " + pick({"k", "i", "(k * 8)", "u", "l", "s", "c", "(k + 28)", "v"}) + ");"); ok = true; } break;
			case 17: case 18: if (sh) { string a = pick({"u", "v", "(u & 7)", "(int)(i & 15)", "(l & 15)"}); L("ext1(" + a + " << " + pick({"(k % 5)", "(k * 4)", "(i & 63)", "(u & 31)", "(s & 7)"}) + (a[0] == '(' && a != "(u & 7)" ? " % 20" : "") + ");"); ok = true; } break;
			case 19: if (sh) { L("u <<= " + pick({"k", "i", "(k * 5)", "l"}) + "; v >>= " + pick({"k", "j", "(k * 9)"}) + "; ext1(u + v);"); ok = true; } break;
			case 20: if (vb) { string z = pick({"k - 1", "(int)(i % 9)", "(long)(k - 4)", "s % 5"}); string n = "w" + S(tmp++); L("{ char " + n + "[" + z + "]; " + n + "[0] = 3; ext1(" + n + "[0] + sizeof " + n + "); }"); ok = true; } break;
			case 21: case 22: if (bo) { string z = pick({"k - 1", "(i & 15)", "k", "(s & 31) - 4", "u % 11"}); string n = "x" + S(tmp++); L("{ int " + n + " = " + z + "; if (" + n + " == 8) " + n + " = 0; ext1(" + pick({"a8[", "ga["}) + n + "]); }"); ok = true; } break;
			case 23: if (bo) { string n = "x" + S(tmp++); L("{ int " + n + " = (k & 7) + " + S(r.below(3)) + "; if (" + n + " == 8) " + n + " = 1; " + pick({"a8[", "ga["}) + n + "] " + pick({"= ", "+= "}) + "4; ext1(a8[1]); }"); ok = true; } break;
			case 24: if (bo) { string n = "x" + S(tmp++), w = "w" + S(tmp++); L("{ int " + n + " = k & 7; short " + w + "[" + S(r.range(5, 8)) + " + (k & 1)]; for (int q = 0; q < 5; q++) " + w + "[q] = q; if (" + n + " < 5) ext1(" + w + "[" + n + "]); }"); ok = true; } break;
			case 25: if (nn) { L("ext1(nonn(i, " + pick({"k & 1 ? &j : (int *)0", "&i", "ip", "(int *)(long)(k > 4)"}) + ", " + pick({"(int *)0", "ip", "&j"}) + "));"); ok = true; } break;
			case 26: if (nn) { L("ext1(nonn2(" + pick({"k & 2 ? buf : (char *)0", "buf + 1", "buf"}) + ", k, " + pick({"k & 4 ? buf : (char *)0", "buf"}) + "));"); ok = true; } break;
			case 27: if (un) { L("if (" + pick({"k == 3", "i > 5", "l == -1", "u > 0x70000000"}) + ") { ext1(8); __builtin_unreachable(); }"); ok = true; } break;
			case 28: if (un) { L("switch (k) { case 0: case 1: case 2: case 3: ext1(1); break; case 4: ext1(2); default: break; case 8: __builtin_unreachable(); }"); ok = true; } break;
			case 29: case 30: if (nu) { string n = "p" + S(tmp++); string ty = pick({"int", "long", "char", "short", "unsigned"}); L("{ " + ty + " *" + n + " = k & " + S(1 << r.below(3)) + " ? (" + ty + " *)(buf + 8) : (" + ty + " *)0; ext1(" + pick({"*", "1 + *", "!*"}) + n + "); }"); ok = true; } break;
			case 31: case 32: if (al) { string n = "p" + S(tmp++); string ty = pick({"int", "long", "char", "short", "unsigned", "double"}); L("{ " + ty + " *" + n + " = (" + ty + " *)(buf + " + pick({"k", "(u & 15)", "k * 2", "k * 4", "4"}) + "); ext1(" + (ty == "double" ? "0 != " : "") + "*" + n + "); }"); ok = true; } break;
			case 33: if (fd) { L("d = EI[ext0(7, 1) % 6]; fl = k - 2; ext1(" + pick({"5 / d > 1", "fl / d > 2", "d / fl < 0", "1 / fl == 3", "d / 4 > 2", "(d /= fl, d > 3)"}) + ");"); ok = true; } break;
			case 34: if (rn) { L("ext1(rnn(" + pick({"k & 1 ? ip : (int *)0", "ip", "(int *)0"}) + ", " + pick({"k", "k & 3", "1"}) + ") == &j);"); ok = true; } break;
			case 35: if (bl) { L("buf[5] = " + pick({"k", "k & 1", "u & 3", "-1 * (k & 1)"}) + "; ext1(*(_Bool *)(buf + 5));"); ok = true; } break;
			case 36: if (dep > 0) { L("for (int q" + S(tmp) + " = 0; q" + S(tmp) + " < 3; q" + S(tmp) + "++) {"); tmp++; ind += "\t"; stmt(dep - 1); stmt(dep - 1); ind.pop_back(); L("}"); ok = true; } break;
			case 37: if (dep > 0) { L("if (" + pick({"k & 1", "i > l", "u", "s < c"}) + ") {"); ind += "\t"; stmt(dep - 1); ind.pop_back(); L("} else {"); ind += "\t"; stmt(dep - 1); ind.pop_back(); L("}"); ok = true; } break;
			case 38: if (f && r.chance(1, 2)) { L("ext1(f" + S(r.below(f)) + "(i, m, u, v));"); ok = true; } break;
			case 39: L("ext1(" + pick({"i < j", "l > m ? 3 : 4", "(i & j) | (l ^ m)", "~i", "!l", "i == -1 && j != 3", "(short)i", "(char)l", "(long)u", "(int)v", "&a8[k & 7] - a8"}) + ");"); ok = true; break;
			case 40: if (so) { L("ext1((" + pick({"i > 3", "l < m", "k & 1", "b"}) + ") ? " + I() + " + " + I() + " : " + W() + " - " + W() + ");"); ok = true; } break;
			case 41: if (so) { L("if (" + pick({"k & 1", "i > 0", "u & 1"}) + " && " + I() + " * " + I() + " > 9) ext1(77);"); ok = true; } break;
			case 42: if (sh && r.chance(1, 2)) { L("ext1((" + pick({"(k - 3)", "(long)(k - 3)", "(s | -8)", "c % 50"}) + ") << " + pick({"2", "(k & 7)", "u % 9"}) + ");"); ok = true; } break;
			case 43: L("ip = k & 1 ? &j : " + pick({"&i", "a8", "&ga[2]"}) + "; lp = k & 2 ? &l : &m;"); ok = true; break;
			case 44: L("ext1(" + pick({"buf[k]", "t.t[k % 3]", "*(a8 + (k & 7))", "ga[k & 7]", "(&t)->l", "t.b"}) + ");"); ok = true; break;
			default: L(pick({"t.b = k;", "t.ub = i;", "b = k & 2;", "d = k; fl = d + 1;", "t.i = k; gS = t;", "s = k - 3; c = k * 2;"})); ok = true; } };
		int n = r.range(3, 9); for (int k = 0; k < n; k++) stmt(2); L("ext1(i); ext1(l); return " + pick({"u", "m", "v", "j"}) + ";"); body += "}\n";
	}
	p.text = o + body; flagsfor(g, p, "P26"); for (int k = 0; k < 8; k++) { Call c; c.fn = r.below(nf); c.args = gen_args(r, p.fns[c.fn]); calls.push_back({c}); }
}
bool gen_prog(const string &prop, u64 seed, Prog &p, vector<vector<Call>> &calls) {
	p = Prog(); calls.clear(); p.has_dev = false; if (prop == "P16") { gen_dev(seed, p, calls); return true; } if (prop == "P19") { gen_vla(seed, p, calls); return true; } if (prop == "P26") { gen_san(seed, p, calls); return true; }
	PG g(mix(seed, hash_str(prop))); Rng &r = g.r; Cfg &c = g.c; c.floats = r.chance(3, 4); c.vla = r.chance(1, 2); c.structs = r.chance(2, 3); c.stmts = r.range(3, 8); c.depth = r.range(2, 4); c.nf_lo = 2; c.nf_hi = 5; if (prop == "P18") c.globals = false; if (prop == "P20") c.det = true; g.canp = prop == "P15"; g.adj = prop == "P15" || prop == "P18"; g.padp = prop == "P13" || prop == "P18"; if (prop == "P17") { g.sp17 = true; g.spall = r.chance(1, 2); }
	g.mkexts(); int n = r.range(c.nf_lo, c.nf_hi); for (int i = 0; i < n; i++) g.func(i, r.chance(prop == "P13" ? 2 : 1, 5)); if (c.det || r.chance(2, 3)) g.driver(n); p.text = g.text(); p.exts = g.exts; for (auto &f : g.fns) p.fns.push_back(f.s); flagsfor(g, p, prop);
	vector<int> ok; for (size_t i = 0; i < p.fns.size(); i++) { const Sig &s = p.fns[i]; if (s.ret == 'A' || s.ret == 'M' || s.variadic || !g.fns[i].entry) continue; ok.push_back((int)i); } if (ok.empty()) return false;
	auto mk = [&](bool nop) { Call k; for (int t = 0; t < 20; t++) { k.fn = r.chance(1, 2) ? ok.back() : ok[r.below(ok.size())]; bool hasp = false; for (auto &q : p.fns[k.fn].par) if (q.t == 'p') hasp = true; if (!nop || !hasp) { k.args = gen_args(r, p.fns[k.fn]); return k; } } k.fn = -1; return k; };
	for (int k = 0; k < (prop == "P18" ? 3 : 4); k++) { vector<Call> v; if (prop == "P18") { int nt = r.range(1, 3); for (int t = 0; t < nt; t++) v.push_back(mk(false)); Call h = mk(true); v.push_back(h); } else v.push_back(mk(false)); calls.push_back(v); }   // P18: the last one is the handler
	return true;
}
