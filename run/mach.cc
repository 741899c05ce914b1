// The machine: loads an object file at fixed addresses and executes it under the simulator's control.
#include "run.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <ucontext.h>
#include <sys/mman.h>
#include <elf.h>
#include <fstream>
#include <algorithm>
#include <iterator>
u64 g_steps_total;
struct Ctx { greg_t g[NGREG]; u8 fx[512]; };
struct Frame { u64 entry_rsp, ra; u64 cs[6]; int fn; u32 mxcsr; u16 fcw; u64 guard; u64 gstep; bool checked; u64 gcheck; int gwait; std::vector<u64> stale; u64 lo; vector<u8> snap; vector<std::pair<u64, u64>> excl; u64 sret; u64 stepin; };
struct Act { int fn; ThreadRes res; u64 nx = 0; vector<Frame> shadow; bool prev_ok = false; u64 prev_rip = 0, prev_rsp = 0; Ctx saved; u64 fsread = 0; };   // saved: context of the interrupted activation
struct Thread { Ctx ctx; u64 base, top, canlo, canhi; vector<std::pair<u64, int>> objs; vector<Act> acts; bool done = false; };
static struct {
	const Prog *p; const Policy *pol; Result *R; bool keeplog;
	map<u64, int> fnat; map<u64, string> syms; vector<string> gates; map<string, int> gateof; vector<int> gateext; vector<u8> image; u64 dlen, clen; map<string, u64> fnaddr;
	vector<Thread> th; int cur; const vector<Call> *handlers; size_t nexthandler;
	Ctx host; bool running; bool devstep; u64 devoff; int devw; bool devwr, devtf; u64 devn[DEV_SZ]; u64 bound; u64 inj_entry; u64 devcnt;
} M;
static const char *const builtins[] = {"$exit", "$sigret", "memcpy", "memset", "memmove", "abort", "__stack_chk_fail", "mark", "ext_arr", "ext_can", "mcount", "__fentry__", nullptr};
enum { G_EXIT, G_SIGRET, G_MEMCPY, G_MEMSET, G_MEMMOVE, G_ABORT, G_CHKFAIL, G_MARK, G_ARR, G_CAN, G_MCOUNT, G_FENTRY, G_NBUILTIN };
static u64 gate_addr(int i) { return ADDR_GATE + 16 * (u64)i; }
string mach_sym(u64 a) { if (a >= ADDR_GATE && a < ADDR_GATE + GATE_SZ) { size_t i = (a - ADDR_GATE) / 16; return i < M.gates.size() ? M.gates[i] : "?"; } auto it = M.syms.upper_bound(a); char b[64]; if (it == M.syms.begin() || a < ADDR_CODE || a >= ADDR_CODE + M.clen) { snprintf(b, 64, "%#llx", (unsigned long long)a); return b; } --it; snprintf(b, 64, "+%#llx", (unsigned long long)(a - it->first)); return it->second + b; }
static bool inmem(u64 a, u64 n) { auto in = [&](u64 lo, u64 hi) { return a >= lo && a + n <= hi && a + n >= a; }; if (in(ADDR_DATA, ADDR_DATA + DATA_SZ)) return true; for (int i = 0; i < NOBJ; i++) if (in(ADDR_OBJ + i * 0x2000, ADDR_OBJ + i * 0x2000 + 0x1000)) return true; if (in(ADDR_SHR, ADDR_SHR + SHR_SZ)) return true; for (int i = 0; i < NSTK; i++) if (in(ADDR_STK + (u64)i * STK_STEP, ADDR_STK + (u64)i * STK_STEP + STK_SZ)) return true; return false; }
static int tsize(char t) { switch (t) { case 'b': case 'c': case 'C': return 1; case 's': case 'S': return 2; case 'i': case 'I': case 'f': return 4; case 'v': return 0; } return 8; }
static u64 lowmask(int n) { return n >= 8 ? ~0ull : (1ull << (8 * n)) - 1; }
static bool isf(char t) { return t == 'f' || t == 'd'; }
static const int IREG[6] = {REG_RDI, REG_RSI, REG_RDX, REG_RCX, REG_R8, REG_R9};
static void inv(const string &s) { if (M.R->inv.size() < 8 && std::find(M.R->inv.begin(), M.R->inv.end(), s) == M.R->inv.end()) M.R->inv.push_back(s); }

// ---------------------------------------------------------------- loading
bool mach_load(const string &obj, const Prog &p, string *err) {
	std::ifstream f(obj, std::ios::binary); string b((std::istreambuf_iterator<char>(f)), {}); auto bad = [&](const string &e) { *err = e; return false; };
	if (b.size() < sizeof(Elf64_Ehdr)) return bad("no object file");
	auto *eh = (Elf64_Ehdr *)b.data(); auto *sh = (Elf64_Shdr *)(b.data() + eh->e_shoff); int n = eh->e_shnum; vector<u64> addr(n, 0); u64 c = ADDR_CODE, d = ADDR_DATA + 64;
	mprotect((void *)(u64)ADDR_CODE, CODE_SZ, PROT_READ | PROT_WRITE | PROT_EXEC); memset((void *)(u64)ADDR_CODE, 0xCC, M.clen ? M.clen : 4096); memset((void *)(u64)ADDR_DATA, 0, M.dlen ? M.dlen : 4096);
	for (int i = 0; i < n; i++) { if (!(sh[i].sh_flags & SHF_ALLOC)) continue; u64 al = sh[i].sh_addralign ? sh[i].sh_addralign : 1; u64 &a = (sh[i].sh_flags & SHF_EXECINSTR) ? c : d; a = (a + al - 1) / al * al; addr[i] = a; if (a + sh[i].sh_size > ((sh[i].sh_flags & SHF_EXECINSTR) ? ADDR_CODE + CODE_SZ : ADDR_DATA + DATA_SZ / 2)) return bad("too large"); if (sh[i].sh_type != SHT_NOBITS) memcpy((void *)a, b.data() + sh[i].sh_offset, sh[i].sh_size); a += sh[i].sh_size; if (!(sh[i].sh_flags & SHF_EXECINSTR)) a += 16; }
	M.gates.clear(); M.gateof.clear(); M.gateext.clear(); for (int i = 0; builtins[i]; i++) { M.gateof[builtins[i]] = (int)M.gates.size(); M.gates.push_back(builtins[i]); M.gateext.push_back(-1); }
	for (size_t i = 0; i < p.exts.size(); i++) { if (M.gateof.count(p.exts[i].name)) continue; M.gateof[p.exts[i].name] = (int)M.gates.size(); M.gates.push_back(p.exts[i].name); M.gateext.push_back((int)i); }
	M.fnat.clear(); M.syms.clear(); M.fnaddr.clear(); map<string, u64> got; vector<u64> symv; const Elf64_Sym *sy = nullptr; const char *str = nullptr; int ns = 0;
	for (int i = 0; i < n; i++) if (sh[i].sh_type == SHT_SYMTAB) { sy = (Elf64_Sym *)(b.data() + sh[i].sh_offset); ns = sh[i].sh_size / sizeof(Elf64_Sym); str = b.data() + sh[sh[i].sh_link].sh_offset; }
	for (int i = 0; i < ns; i++) {
		u64 v = 0; string nm = str + sy[i].st_name;
		if (sy[i].st_shndx == SHN_UNDEF) { if (i && nm.size()) { if (nm.compare(0, 2, "dv") == 0) v = ADDR_DEV + strtoul(nm.c_str() + 2, nullptr, 10); else if (M.gateof.count(nm)) v = gate_addr(M.gateof[nm]); else if (nm == "_GLOBAL_OFFSET_TABLE_") v = ADDR_DATA; else return bad("undefined symbol " + nm); } }
		else if (sy[i].st_shndx == SHN_COMMON) { u64 al = sy[i].st_value ? sy[i].st_value : 8; d = (d + al - 1) / al * al; v = d; d += sy[i].st_size + 16; }
		else if (sy[i].st_shndx == SHN_ABS) v = sy[i].st_value;
		else v = addr[sy[i].st_shndx] + sy[i].st_value;
		symv.push_back(v); if (v >= ADDR_CODE && v < ADDR_CODE + CODE_SZ && nm.size() && nm[0] != '.' && ELF64_ST_TYPE(sy[i].st_info) != STT_SECTION) { M.syms[v] = nm; M.fnaddr[nm] = v; }
	}
	map<u64, u64> gslot; auto gotfor = [&](u64 v) { if (!gslot.count(v)) { d = (d + 7) & ~7ull; memcpy((void *)d, &v, 8); gslot[v] = d; d += 8; } return gslot[v]; };
	for (int i = 0; i < n; i++) if (sh[i].sh_type == SHT_RELA) {
		int t = sh[i].sh_info; if (!(sh[t].sh_flags & SHF_ALLOC)) continue; auto *r = (Elf64_Rela *)(b.data() + sh[i].sh_offset);
		for (size_t k = 0; k < sh[i].sh_size / sizeof *r; k++) { u64 P = addr[t] + r[k].r_offset, S = symv[ELF64_R_SYM(r[k].r_info)]; s64 A = r[k].r_addend; u64 v; switch (ELF64_R_TYPE(r[k].r_info)) { case R_X86_64_64: v = S + A; memcpy((void *)P, &v, 8); break; case R_X86_64_PC32: case R_X86_64_PLT32: v = S + A - P; memcpy((void *)P, &v, 4); break; case R_X86_64_32: case R_X86_64_32S: v = S + A; memcpy((void *)P, &v, 4); break; case R_X86_64_GOTPCREL: case R_X86_64_GOTPCRELX: case R_X86_64_REX_GOTPCRELX: v = gotfor(S) + A - P; memcpy((void *)P, &v, 4); break; case R_X86_64_PC64: v = S + A - P; memcpy((void *)P, &v, 8); break; default: return bad("relocation type " + std::to_string(ELF64_R_TYPE(r[k].r_info))); } }
	}
	M.clen = c - ADDR_CODE; M.dlen = d - ADDR_DATA; for (size_t i = 0; i < p.fns.size(); i++) if (M.fnaddr.count(p.fns[i].name)) M.fnat[M.fnaddr[p.fns[i].name]] = (int)i;
	M.image.assign((u8 *)(u64)ADDR_DATA, (u8 *)(u64)ADDR_DATA + M.dlen); mprotect((void *)(u64)ADDR_CODE, CODE_SZ, PROT_READ | PROT_EXEC); return true;
}

// ---------------------------------------------------------------- device: size and direction of an access
static bool decode(const u8 *q, int *w, bool *rd, bool *wr) {
	bool p66 = false, pf2 = false, pf3 = false, rexw = false; for (;; q++) { if (*q == 0x66) p66 = true; else if (*q == 0xF2) pf2 = true; else if (*q == 0xF3) pf3 = true; else if (*q == 0x64 || *q == 0x65 || *q == 0x2E || *q == 0x3E) ; else break; } if ((*q & 0xF0) == 0x40) { rexw = *q & 8; q++; }
	int osz = rexw ? 8 : p66 ? 2 : 4; int fsz = pf3 ? 4 : pf2 ? 8 : 16; u8 o = *q, m = q[1]; int reg = (m >> 3) & 7; *rd = true; *wr = false;
	if (o < 0x40 && (o & 7) < 4) { *w = (o & 1) ? osz : 1; if (!(o & 2) && (o >> 3) != 7) *wr = true; return true; }
	switch (o) {
	case 0x88: *w = 1; *rd = false; *wr = true; return true; case 0x89: *w = osz; *rd = false; *wr = true; return true; case 0x8A: *w = 1; return true; case 0x8B: *w = osz; return true;
	case 0xC6: *w = 1; *rd = false; *wr = true; return true; case 0xC7: *w = osz; *rd = false; *wr = true; return true; case 0x63: *w = 4; return true;
	case 0x80: case 0x82: *w = 1; *wr = reg != 7; return true; case 0x81: case 0x83: *w = osz; *wr = reg != 7; return true; case 0x84: *w = 1; return true; case 0x85: *w = osz; return true;
	case 0xF6: *w = 1; *wr = reg == 2 || reg == 3; return true; case 0xF7: *w = osz; *wr = reg == 2 || reg == 3; return true; case 0xFE: *w = 1; *wr = true; return true; case 0xFF: *w = reg < 2 ? osz : 8; *wr = reg < 2; return true;
	case 0xC0: case 0xD0: case 0xD2: *w = 1; *wr = true; return true; case 0xC1: case 0xD1: case 0xD3: *w = osz; *wr = true; return true; case 0x86: *w = 1; *wr = true; return true; case 0x87: *w = osz; *wr = true; return true; case 0x69: case 0x6B: *w = osz; return true; case 0x8F: *w = 8; *rd = false; *wr = true; return true;
	case 0xD9: *w = 4; *wr = reg >= 2; *rd = !*wr; return true; case 0xDD: *w = 8; *wr = reg >= 2; *rd = !*wr; return true; case 0xDB: *w = 4; *wr = reg >= 1; *rd = !*wr; return true; case 0xDF: *w = reg >= 5 ? 8 : 2; *wr = reg == 7 || (reg >= 1 && reg <= 3); *rd = !*wr; return true;
	case 0x0F: { u8 e = m; reg = (q[2] >> 3) & 7; switch (e) { case 0xB6: case 0xBE: *w = 1; return true; case 0xB7: case 0xBF: *w = 2; return true; case 0xAF: *w = osz; return true; case 0x10: *w = fsz; return true; case 0x11: *w = fsz; *rd = false; *wr = true; return true; case 0x28: case 0x6F: *w = 16; return true; case 0x29: case 0x7F: *w = 16; *rd = false; *wr = true; return true; case 0x12: case 0x16: *w = 8; return true; case 0x13: case 0x17: *w = 8; *rd = false; *wr = true; return true; case 0x2A: *w = rexw ? 8 : 4; return true; case 0x2C: case 0x2D: case 0x5A: *w = pf3 ? 4 : 8; return true; case 0x2E: case 0x2F: *w = p66 ? 8 : 4; return true; case 0x6E: *w = rexw ? 8 : 4; return true; case 0x7E: if (pf3) { *w = 8; return true; } *w = rexw ? 8 : 4; *rd = false; *wr = true; return true; case 0xD6: *w = 8; *rd = false; *wr = true; return true; case 0xB0: *w = 1; *wr = true; return true; case 0xB1: case 0xC1: *w = osz; *wr = true; return true; }
		if (e >= 0x51 && e <= 0x5F) { *w = fsz; return true; } if (e >= 0x90 && e <= 0x9F) { *w = 1; *rd = false; *wr = true; return true; } if (e >= 0x40 && e <= 0x4F) { *w = osz; return true; } if (e == 0xBA) { *w = osz; *wr = reg > 4; return true; } return false; }
	}
	return false;
}

// ---------------------------------------------------------------- contexts
static u8 *fxof(ucontext_t *uc) { return (u8 *)uc->uc_mcontext.fpregs; }
static void save(ucontext_t *uc, Ctx &c) { memcpy(c.g, uc->uc_mcontext.gregs, sizeof c.g); memcpy(c.fx, fxof(uc), 512); }
static void load(ucontext_t *uc, const Ctx &c) { greg_t keep[2] = {uc->uc_mcontext.gregs[REG_CSGSFS], uc->uc_mcontext.gregs[REG_OLDMASK]}; memcpy(uc->uc_mcontext.gregs, c.g, sizeof c.g); uc->uc_mcontext.gregs[REG_CSGSFS] = keep[0]; uc->uc_mcontext.gregs[REG_OLDMASK] = keep[1]; memcpy(fxof(uc), c.fx, 416); }
static Thread &T() { return M.th[M.cur]; }
static Act &A() { return T().acts.back(); }
static u64 garbage(Rng &r) { switch (r.below(5)) { case 0: return ~0ull; case 1: return 0xAAAAAAAAAAAAAAAAull ^ r.below(256); case 2: return ADDR_STK + r.below(STK_SZ); case 3: return r.next() & 0xffffffff; } return r.next(); }
static const Sig *cursig(int fn) { return fn >= 0 && fn < (int)M.p->fns.size() ? &M.p->fns[fn] : nullptr; }
static bool bwin(u64 k) { return M.pol->regs && k >= M.pol->blo && k < M.pol->bhi; }
// number of register and stack arguments of a call
static void argplace(const Sig &s, int *ni, int *nf, int *ns) { int i = s.ret == 'M', f = 0, st = 0; for (auto &q : s.par) { if (isf(q.t)) { if (f < 8) f++; else st++; } else if (i < 6) i++; else st++; } *ni = i; *nf = f; *ns = st; }
static void put_flags(greg_t *g, Rng &r) { g[REG_EFL] = (g[REG_EFL] & ~0x8D5ull) | (r.next() & 0x8D5); }
static void hostile_entry(ucontext_t *uc, const Sig &s, bool all) {
	u64 k = M.bound++; M.R->nbound++; if (!bwin(k)) return; M.R->nhost++; Rng r(mix(M.pol->seed, k * 2 + 1)); greg_t *g = uc->uc_mcontext.gregs; u8 *fx = fxof(uc); int ni, nf, ns; argplace(s, &ni, &nf, &ns); unsigned w = M.pol->what; u64 rsp = g[REG_RSP];
	if (s.variadic) { ni = 6; if (w & H_ENTRY) { u64 al = g[REG_RAX] & 0xff; al = al > 8 ? al : al + r.below(9 - al); g[REG_RAX] = (garbage(r) & ~0xffull) | al; } nf = 8; } else if (w & H_ENTRY) g[REG_RAX] = garbage(r);
	if (w & H_ENTRY) { g[REG_R10] = garbage(r); g[REG_R11] = garbage(r); for (int i = ni; i < 6; i++) g[IREG[i]] = garbage(r); }
	if (w & H_XMM) for (int i = nf; i < 16; i++) for (int j = 0; j < 2; j++) { u64 v = garbage(r); memcpy(fx + 160 + 16 * i + 8 * j, &v, 8); }
	if (w & H_NARROW) { int i = s.ret == 'M', f = 0, st = 0; for (auto &q : s.par) { int z = tsize(q.t); if (isf(q.t)) { if (f < 8) { u64 v = garbage(r); memcpy(fx + 160 + 16 * f + 8, &v, 8); if (z == 4) { u32 x = (u32)garbage(r); memcpy(fx + 160 + 16 * f + 4, &x, 4); } f++; } else { if (z == 4) { u32 x = (u32)garbage(r); memcpy((void *)(rsp + 8 + 8 * st + 4), &x, 4); } st++; } } else { u64 hi = garbage(r) << 32; if (i < 6) { if (z <= 4) g[IREG[i]] = (g[IREG[i]] & 0xffffffffull) | hi; i++; } else { if (z <= 4) { u32 x = hi >> 32; memcpy((void *)(rsp + 8 + 8 * st + 4), &x, 4); } st++; } } } }
	if (w & H_FLAGS) put_flags(g, r);
	if (w & H_STACKBELOW) { u64 pat = garbage(r); for (u64 a = (rsp & ~7ull) - 2048; a < (rsp & ~7ull); a += 8) *(u64 *)a = pat += 0x0101010101010101ull; }
	(void)all;
}
// after a callee returned: rsp already points past the return address
static void hostile_return(ucontext_t *uc, const Sig &s) {
	u64 k = M.bound++; M.R->nbound++; if (!bwin(k)) return; M.R->nhost++; Rng r(mix(M.pol->seed, k * 2)); greg_t *g = uc->uc_mcontext.gregs; u8 *fx = fxof(uc); unsigned w = M.pol->what; u64 rsp = g[REG_RSP]; int ni, nf, ns; argplace(s, &ni, &nf, &ns);
	if (w & H_CALLER_SAVED) { for (int x : {REG_RCX, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11}) g[x] = garbage(r); if (s.ret != 'A') g[REG_RDX] = garbage(r); if (s.ret == 'v' || isf(s.ret)) g[REG_RAX] = garbage(r); }
	if ((w & H_NARROW) && s.ret != 'A' && s.ret != 'M' && s.ret != 'v' && !isf(s.ret)) { u64 m = lowmask(tsize(s.ret)); g[REG_RAX] = (g[REG_RAX] & m) | (garbage(r) & ~m); }
	if (w & H_XMM) { for (int i = 0; i < 16; i++) { u64 lo = garbage(r), hi = garbage(r); if (s.ret == 'A' && i < 2) continue; if (i == 0 && isf(s.ret)) { memcpy(fx + 168, &hi, 8); if (s.ret == 'f') { u32 x = (u32)lo; memcpy(fx + 164, &x, 4); } continue; } memcpy(fx + 160 + 16 * i, &lo, 8); memcpy(fx + 168 + 16 * i, &hi, 8); } }
	if (w & H_FLAGS) put_flags(g, r);
	if (w & H_STACKBELOW) { u64 pat = garbage(r); for (u64 a = rsp - 2048; a < rsp; a += 8) *(u64 *)a = pat += 0x0101010101010101ull; }
	if ((w & H_ARGMEM) && ns && !s.variadic) for (int i = 0; i < ns; i++) *(u64 *)(rsp + 8 * i) = garbage(r);
}

static void finish(ucontext_t *uc);
static void thread_done(ucontext_t *uc, EndKind e, int sig) {
	Act &a = A(); a.res.end = e; a.res.sig = sig; a.res.where = uc->uc_mcontext.gregs[REG_RIP]; a.res.done = true;
	if (e != E_OK) { // a failing activation ends the whole run
		M.R->th.assign(M.th.size(), ThreadRes()); for (size_t i = 0; i < M.th.size(); i++) M.R->th[i] = M.th[i].acts[0].res; M.R->th[M.cur] = a.res; finish(uc); return;
	}
	T().done = true; for (size_t i = 1; i <= M.th.size(); i++) { int n = (M.cur + i) % M.th.size(); if (!M.th[n].done) { M.cur = n; load(uc, T().ctx); return; } }
	M.R->th.resize(M.th.size()); for (size_t i = 0; i < M.th.size(); i++) M.R->th[i] = M.th[i].acts[0].res; finish(uc);
}
static void finish(ucontext_t *uc) { M.running = false; load(uc, M.host); uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ull; }

static void logit(Act &a, u64 v, const string &s) { a.res.log = mix(a.res.log, v); if (M.keeplog) M.R->logv.push_back("thread " + std::to_string(M.cur) + (T().acts.size() > 1 ? " handler " : " ") + s); }
static string hex(u64 v) { char b[32]; snprintf(b, 32, "%#llx", (unsigned long long)v); return b; }
// an external function: reads its arguments as the ABI says, logs them, returns a value the seed decides
static void gate(ucontext_t *uc, int gi) {
	greg_t *g = uc->uc_mcontext.gregs; u8 *fx = fxof(uc); Act &a = A(); u64 rsp = g[REG_RSP]; const string &nm = M.gates[gi]; M.R->ncall++;
	if (gi == G_EXIT || gi == G_SIGRET) {
		const Sig &s = M.p->fns[a.fn]; u64 rax = g[REG_RAX], x0; memcpy(&x0, fx + 160, 8); if (s.ret == 'v' || s.ret == 'M' || s.ret == 'A') ; else if (isf(s.ret)) a.res.ret[0] = x0 & lowmask(tsize(s.ret)); else a.res.ret[0] = rax & lowmask(tsize(s.ret));
		if (gi == G_EXIT) { thread_done(uc, E_OK, 0); return; }
		a.res.done = true; M.R->hres.push_back(a.res); Ctx c = a.saved; T().acts.pop_back(); load(uc, c); return;
	}
	if (gi == G_MCOUNT || gi == G_FENTRY) { g[REG_RIP] = *(u64 *)rsp; g[REG_RSP] = rsp + 8; a.prev_ok = false; return; }   // preserve everything
	if (M.pol->inv && (rsp & 15) != 8) inv("stack is not 16-byte aligned at the call of " + nm + " from " + mach_sym(*(u64 *)rsp));
	const Sig *s = M.gateext[gi] >= 0 ? &M.p->exts[M.gateext[gi]] : nullptr; Sig tmp; u64 rv = 0; bool rf = false; double dv = 0; float fv = 0;
	auto bad = [&]() { thread_done(uc, E_BADARG, 0); };
	switch (gi) {
	case G_ABORT: thread_done(uc, E_ABORT, 0); return;
	case G_CHKFAIL: thread_done(uc, E_CHKFAIL, 0); return;
	case G_MEMCPY: case G_MEMMOVE: { u64 n = g[REG_RDX]; if (!inmem(g[REG_RDI], n) || !inmem(g[REG_RSI], n)) { bad(); return; } memmove((void *)g[REG_RDI], (void *)g[REG_RSI], n); rv = g[REG_RDI]; tmp.ret = 'p'; tmp.par = {{'p', 0}, {'p', 0}, {'L', 0}}; s = &tmp; break; }
	case G_MEMSET: { u64 n = g[REG_RDX]; if (!inmem(g[REG_RDI], n)) { bad(); return; } memset((void *)g[REG_RDI], (int)g[REG_RSI], n); rv = g[REG_RDI]; tmp.ret = 'p'; tmp.par = {{'p', 0}, {'i', 0}, {'L', 0}}; s = &tmp; break; }
	case G_MARK: { u32 id = g[REG_RDI], it = g[REG_RSI]; M.R->marks.push_back({id, it, rsp, M.R->dev.size()}); logit(a, mix(id, it), "mark " + std::to_string(id) + " " + std::to_string(it)); tmp.ret = 'v'; tmp.par = {{'i', 0}, {'i', 0}}; s = &tmp; break; }
	case G_CAN: { u64 ptr = g[REG_RDI], n = (u32)g[REG_RSI]; u8 b = (u8)g[REG_RDX]; if (!inmem(ptr, n)) { bad(); return; } if (M.pol->inv) for (u64 i = 0; i < n; i++) if (((u8 *)ptr)[i] != b) { inv("byte " + std::to_string(i) + " of a " + std::to_string(n) + "-byte object of " + mach_sym(*(u64 *)rsp) + " changes though nothing stores to it"); break; } tmp.ret = 'v'; tmp.par = {{'p', 0}, {'i', 0}, {'i', 0}}; s = &tmp; break; }
	case G_ARR: { u64 ptr = g[REG_RDI], n = (u32)g[REG_RSI]; if (!inmem(ptr, n)) { bad(); return; } if (M.pol->watch_guard && a.shadow.size()) { Frame &f = a.shadow.back(); if (f.guard) { if (f.guard < ptr + n) inv("the guard of " + mach_sym(*(u64 *)rsp) + " lies below a local array it has to protect"); else if (f.guard + 8 > f.entry_rsp) inv("the guard lies outside the frame"); } } u64 h = 0; for (u64 i = 0; i < n; i++) h = mix(h, ((u8 *)ptr)[i]); logit(a, h, "ext_arr(" + std::to_string(n) + " bytes: " + hex(h) + ")"); tmp.ret = 'v'; tmp.par = {{'p', 0}, {'i', 0}}; s = &tmp; break; }
	default: {
		u64 h = hash_str(nm); string txt = nm + "("; int i = s->ret == 'M', f = 0, st = 0; vector<Par> ps = s->par; u64 fmt = 0;
		for (size_t k = 0; k < ps.size(); k++) {
			Par q = ps[k]; u64 v; int z = tsize(q.t);
			if (isf(q.t)) { if (f < 8) { memcpy(&v, fx + 160 + 16 * f, 8); f++; } else v = *(u64 *)(rsp + 8 + 8 * st++); } else { if (i < 6) v = g[IREG[i++]]; else v = *(u64 *)(rsp + 8 + 8 * st++); }
			v &= lowmask(z);
			if (q.t == 'p') { if (s->variadic && k + 1 == s->par.size()) { fmt = v; for (u64 e = v; ; e++) { if (!inmem(e, 1) || e - v > 40) { bad(); return; } char c = *(char *)e; if (!c) break; ps.push_back({c, 0}); } v = 0; } else { if (!inmem(v, q.size)) { bad(); return; } u64 hh = 7; for (int j = 0; j < q.size; j++) hh = mix(hh, ((u8 *)v)[j]); if (nm.compare(0, 4, "extw") == 0) for (int j = 0; j < q.size; j++) ((u8 *)v)[j] = (u8)(mix(hh, j + a.nx) >> 13); v = hh; } }
			h = mix(h, v); if (M.keeplog) txt += (k ? ", " : "") + hex(v);
		}
		if (s->variadic && M.pol->inv) { int need = 0; for (auto &q : ps) need += isf(q.t); if (need > 8) need = 8; int al = g[REG_RAX] & 0xff; if (al < need || al > 8) inv("%al is " + std::to_string(al) + " at a variadic call passing " + std::to_string(need) + " vector registers"); }
		(void)fmt; logit(a, h, txt + ")"); a.res.nlog++; u64 q = mix(h, ++a.nx);
		switch (s->ret) { case 'v': break; case 'f': fv = (float)((double)(q & 0xffff) / 16 - 1024); rf = true; break; case 'd': dv = (double)(q & 0xffffff) / 64 - 65536; rf = true; break; case 'b': rv = q & 1; break; default: rv = (q & 0x300) ? q & lowmask(tsize(s->ret)) : q & 7; }
		// narrow results: what a real callee leaves above them is zero here, garbage under H_NARROW
	} }
	g[REG_RIP] = *(u64 *)rsp; g[REG_RSP] = rsp + 8;
	if (rf) { if (s->ret == 'f') { memset(fx + 160, 0, 16); memcpy(fx + 160, &fv, 4); } else { memset(fx + 160, 0, 16); memcpy(fx + 160, &dv, 8); } } else if (s->ret != 'v') g[REG_RAX] = rv;
	a.prev_ok = false; hostile_return(uc, *s);
}
static bool op_call(const u8 *q) { for (;; q++) if (*q != 0x66 && *q != 0xF2 && *q != 0xF3 && *q != 0x3E && (*q & 0xF0) != 0x40) break; return *q == 0xE8 || (*q == 0xFF && ((q[1] >> 3) & 7) == 2); }
static bool op_ret(const u8 *q) { while (*q == 0xF2 || *q == 0xF3) q++; return *q == 0xC3 || *q == 0xC2; }
static const int CS[6] = {REG_RBX, REG_RBP, REG_R12, REG_R13, REG_R14, REG_R15}; static const char *const CSN[6] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
static void push_frame(ucontext_t *uc, int fn) {
	greg_t *g = uc->uc_mcontext.gregs; u8 *fx = fxof(uc); Frame f; f.entry_rsp = g[REG_RSP]; f.ra = *(u64 *)f.entry_rsp; for (int i = 0; i < 6; i++) f.cs[i] = g[CS[i]]; f.fn = fn; memcpy(&f.mxcsr, fx + 24, 4); memcpy(&f.fcw, fx, 2); f.guard = 0; f.gstep = 0; f.checked = false; f.gcheck = 0; f.gwait = 0; f.sret = g[REG_RDI]; f.lo = 0; f.stepin = M.R->steps;
	Act &a = A(); const Sig *s = cursig(fn);
	if (M.pol->inv && s && a.shadow.size() && !s->variadic) { int ni, nf, ns; argplace(*s, &ni, &nf, &ns); f.lo = f.entry_rsp + 8 + 8 * ns; u64 hi = a.shadow.back().entry_rsp + 8; if (hi > f.lo && hi - f.lo < 65536) { f.snap.assign((u8 *)f.lo, (u8 *)hi); if (s->ret == 'M') f.excl.push_back({(u64)g[REG_RDI], (u64)g[REG_RDI] + s->retsize}); int i = s->ret == 'M', st = 0, nfl = 0; for (auto &q : s->par) { u64 v = 0; if (isf(q.t)) { if (nfl++ >= 8) st++; continue; } if (i < 6) v = g[IREG[i++]]; else v = *(u64 *)(f.entry_rsp + 8 + 8 * st++); if (q.t == 'p') f.excl.push_back({v, v + q.size}); } } }
	a.shadow.push_back(std::move(f));
}
static void on_call(ucontext_t *uc) {
	greg_t *g = uc->uc_mcontext.gregs; u64 rip = g[REG_RIP], rsp = g[REG_RSP]; auto it = M.fnat.find(rip); int fn = it == M.fnat.end() ? -1 : it->second; const Sig *s = cursig(fn);
	if (M.pol->inv) { if ((rsp & 15) != 8) inv("stack is not 16-byte aligned at the call of " + mach_sym(rip) + " from " + mach_sym(*(u64 *)rsp)); if (g[REG_EFL] & 0x400) inv("direction flag set at the call of " + mach_sym(rip)); if (s && s->variadic) { int need = 0; int fi = 0; for (auto &q : s->par) { if (isf(q.t)) need++; else if (q.t != 'p') fi++; } if (s->ret == 'M') fi++; static const int AR[] = {REG_RDI, REG_RSI, REG_RDX, REG_RCX, REG_R8, REG_R9}; u64 e = fi < 6 ? g[AR[fi]] : 0; if (fi >= 6) { int st = 0, ii = s->ret == 'M', ff = 0; for (auto &q : s->par) { if (q.t == 'p') break; if (isf(q.t)) { if (ff++ >= 8) st++; } else if (ii++ >= 6) st++; } e = *(u64 *)(rsp + 8 + 8 * st); } for (int n = 0; n < 40 && inmem(e, 1) && *(char *)e; n++, e++) need += isf(*(char *)e); if (need > 8) need = 8; int al = g[REG_RAX] & 0xff; if (al < need || al > 8) inv("%al is " + std::to_string(al) + " at the call of variadic " + s->name + " passing " + std::to_string(need) + " vector registers"); } }
	push_frame(uc, fn); if (s) hostile_entry(uc, *s, false);
	if (M.pol->watch_guard) for (u64 a = (rsp & ~7ull) - 4096; a < (rsp & ~7ull); a += 8) if (*(u64 *)a == M.pol->canary) *(u64 *)a = 0;
}
static void on_ret(ucontext_t *uc, u64 popped) {
	Act &a = A(); if (a.shadow.empty()) return; greg_t *g = uc->uc_mcontext.gregs; u8 *fx = fxof(uc); Frame f = std::move(a.shadow.back()); a.shadow.pop_back(); string nm = f.fn >= 0 ? M.p->fns[f.fn].name : "function";
	const Sig *s = cursig(f.fn);
	if (M.pol->inv) {
		if (popped != f.entry_rsp) inv(nm + " returns with rsp off by " + std::to_string((s64)(popped - f.entry_rsp))); if ((u64)g[REG_RIP] != f.ra) inv(nm + " returns to the wrong address");
		for (int i = 0; i < 6; i++) if ((u64)g[CS[i]] != f.cs[i]) inv(nm + " does not preserve " + CSN[i]);
		if (g[REG_EFL] & 0x400) inv(nm + " returns with the direction flag set"); u32 mx; u16 cw; memcpy(&mx, fx + 24, 4); memcpy(&cw, fx, 2); if ((mx & 0xFFC0) != (f.mxcsr & 0xFFC0)) inv(nm + " changes the SSE control bits"); if (cw != f.fcw) inv(nm + " changes the x87 control word"); if (fx[4]) inv(nm + " leaves values on the x87 stack");
		if (s && s->ret == 'M' && (u64)g[REG_RAX] != f.sret) inv(nm + " does not return the address of its result object in rax");
		for (size_t i = 0; i < f.snap.size(); i++) if (f.snap[i] != *(u8 *)(f.lo + i)) { u64 x = f.lo + i; bool ok = false; for (auto &e : f.excl) if (x >= e.first && x < e.second) ok = true; if (!ok) { inv(nm + " changes its caller's frame"); break; } }
	}
	if (M.pol->watch_guard) { if (f.guard) M.R->guards.push_back({f.fn, f.guard, f.entry_rsp, f.gstep, f.checked ? f.gcheck : 0, M.R->steps}); else if (s && s->prot) M.R->unguarded.push_back(nm); }
	if (M.inj_entry && f.entry_rsp == M.inj_entry) { M.R->chk_after_ret = true; M.inj_entry = 0; }
	if (s) hostile_return(uc, *s);
}
static void start_act(ucontext_t *uc, const Call &c, u64 top, int retgate) {
	// builds a call of a compiled function as a caller would, on the stack below top
	const Sig &s = M.p->fns[c.fn]; greg_t *g = uc->uc_mcontext.gregs; u8 *fx = fxof(uc); int ni, nf, ns; argplace(s, &ni, &nf, &ns); u64 rsp = (top - 8 * ns) & ~15ull; for (int i = 0; i < ns; i++) *(u64 *)(rsp + 8 * i) = 0;
	int i = 0, f = 0, st = 0; for (size_t k = 0; k < s.par.size(); k++) { u64 v = k < c.args.size() ? c.args[k] : 0; v &= lowmask(tsize(s.par[k].t)); if (s.par[k].t == 'c') v = (u32)(s64)(signed char)v; if (s.par[k].t == 's') v = (u32)(s64)(short)v; if (isf(s.par[k].t)) { if (f < 8) { memset(fx + 160 + 16 * f, 0, 16); memcpy(fx + 160 + 16 * f, &v, 8); f++; } else *(u64 *)(rsp + 8 * st++) = v; } else { if (i < 6) g[IREG[i++]] = v; else *(u64 *)(rsp + 8 * st++) = v; } }
	rsp -= 8; *(u64 *)rsp = gate_addr(retgate); g[REG_RSP] = rsp; g[REG_RIP] = M.fnaddr.at(s.name); g[REG_EFL] &= ~0x400ull;
	Act &a = A(); a.fn = c.fn; a.prev_ok = false; a.shadow.clear(); push_frame(uc, c.fn); hostile_entry(uc, s, true);
}
static u64 objs_of(int thr) { return ADDR_STK + (u64)thr * STK_STEP + STK_SZ - 4096; }
static const vector<Call> *g_threads;
// objects of all threads, packed side by side in the order (parameter, thread)
static u64 shared_obj(int thr, int k) {
	u64 o = ADDR_SHR + 64; for (int i = 0;; i++) for (size_t t = 0; t < g_threads->size(); t++) { const Sig &s = M.p->fns[(*g_threads)[t].fn]; int n = 0, sz = -1; for (auto &q : s.par) if (q.t == 'p' && n++ == i) { sz = q.size; break; } if (sz >= 0) { u64 al = sz & -sz; if (al > 8) al = 8; o = (o + al - 1) & ~(al - 1); } if ((int)t == thr && i == k) return o; if (sz >= 0) o += sz; }
}
static void setup_thread(ucontext_t *uc, int t, const Call &c0) {
	Thread &th = M.th[t]; M.cur = t; th.base = ADDR_STK + (u64)t * STK_STEP; th.top = th.base + STK_SZ; u64 *w = (u64 *)th.base, pat = M.pol->fill; for (size_t k = 0; k < STK_SZ / 8; k++) w[k] = pat ? (pat += 0x9E3779B97F4A7C15ull) : 0;
	Call c = c0; const Sig &s = M.p->fns[c.fn]; u64 o = objs_of(t); memset((void *)o, 0, 4096); if (!t) memset((void *)(u64)ADDR_SHR, 0, SHR_SZ); th.objs.clear(); int np = 0; for (size_t k = 0; k < s.par.size(); k++) if (s.par[k].t == 'p') { u64 seed = c.args[k]; u64 keep = o; int sz = s.par[k].size; if (M.pol->objmode == 1 && np < NOBJ) { o = ADDR_OBJ + np * 0x2000 + 0x1000 - sz; memset((void *)(ADDR_OBJ + (u64)np * 0x2000), 0, 0x1000); } if (M.pol->objmode == 2) o = shared_obj(t, np); np++; th.objs.push_back({o, sz}); for (int j = 0; j < s.par[k].size; j++) ((u8 *)o)[j] = (u8)(mix(seed, j) >> 17); c.args[k] = o; o = keep + (s.par[k].size + 31) / 16 * 16; }
	th.canhi = objs_of(t); th.canlo = th.canhi - 1024; for (u64 a = th.canlo; a < th.canhi; a += 8) *(u64 *)a = 0xC0FFEE0000000000ull + a;
	th.acts.clear(); th.acts.emplace_back(); greg_t *g = uc->uc_mcontext.gregs; u8 *fx = fxof(uc); for (int r : {REG_RAX, REG_RBX, REG_RCX, REG_RDX, REG_RSI, REG_RDI, REG_RBP, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15}) g[r] = 0; memset(fx + 32, 0, 128); memset(fx + 160, 0, 256); u16 cw = 0x37f; memcpy(fx, &cw, 2); memset(fx + 2, 0, 22); u32 mx = 0x1f80; memcpy(fx + 24, &mx, 4); g[REG_EFL] = 0x202;
	for (int k = 0; k < 6; k++) g[CS[k]] = M.pol->fill ? mix(M.pol->fill, k) : 0; g[REG_RAX] = s.variadic ? 8 : 0;
	start_act(uc, c, th.canlo - 16 * (u64)(M.pol->stackoff), G_EXIT); save(uc, th.ctx); th.done = false;
}
static u64 nfsread(const u8 *q) { if (q[0] != 0x64) return 0; for (int i = 1; i < 6; i++) if (q[i] == 0x28 && !q[i + 1] && !q[i + 2] && !q[i + 3]) return 1; return 0; }
// called at every instruction boundary; the instruction at rip has not run
static void boundary(ucontext_t *uc) {
	greg_t *g = uc->uc_mcontext.gregs; const Policy &P = *M.pol;
	for (;;) {
		u64 rip = g[REG_RIP], rsp = g[REG_RSP]; Act &a = A();
		if (a.prev_ok) { const u8 *q = (const u8 *)a.prev_rip; a.prev_ok = false;
			if (rsp == a.prev_rsp - 8 && op_call(q)) { bool isgate = rip >= ADDR_GATE && rip < ADDR_GATE + GATE_SZ; if (!isgate) { if (rip < ADDR_CODE || rip >= ADDR_CODE + M.clen) { thread_done(uc, E_WILD, 0); if (!M.running) return; continue; } on_call(uc); } }
			else if (rsp >= a.prev_rsp + 8 && op_ret(q)) on_ret(uc, a.prev_rsp); }
		rip = g[REG_RIP]; rsp = g[REG_RSP];
		if (rip >= ADDR_GATE && rip < ADDR_GATE + GATE_SZ) { size_t gi = (rip - ADDR_GATE) / 16; if ((rip & 15) || gi >= M.gates.size()) { thread_done(uc, E_WILD, 0); if (!M.running) return; continue; } gate(uc, (int)gi); if (!M.running) return; continue; }
		if (rip < ADDR_CODE || rip >= ADDR_CODE + M.clen) { thread_done(uc, E_WILD, 0); if (!M.running) return; continue; }
		u64 st = M.R->steps++; g_steps_total++; M.R->iphash = M.R->iphash * 0x100000001b3ull ^ rip; if (st >= P.budget) { thread_done(uc, E_BUDGET, 0); if (!M.running) return; continue; }
		if (rsp < M.R->lowsp) M.R->lowsp = rsp;
		Thread &th = T(); if (rsp < th.base + 8192 || rsp > th.top) { if (rsp > th.top || rsp < th.base - (1 << 20)) M.R->splost = mach_sym(rip); thread_done(uc, E_SIGNAL, SIGSEGV); if (!M.running) return; continue; }
		if (P.rz >= 0 && st >= P.ilo && st < P.ihi && (P.iden <= 1 || mix(P.seed, st) % P.iden == 0)) { M.R->nclob++; u64 hi = (rsp - P.rz) & ~7ull, lo = hi - P.depth, pat = mix(P.seed ^ 0x55, st); for (u64 x = lo; x < hi; x += 8) *(u64 *)x = pat; }
		if (P.watch_guard) { const u8 *q = (const u8 *)rip; if (a.shadow.size()) { Frame &f = a.shadow.back(); if (!f.guard && f.gwait) { f.gwait--; u64 lo = rsp > 256 ? (rsp - 256) & ~7ull : 0; for (u64 x = f.entry_rsp - 8; x >= lo; x -= 8) if (*(u64 *)x == P.canary && std::find(f.stale.begin(), f.stale.end(), x) == f.stale.end()) { f.guard = x; f.gstep = st; break; } } if (nfsread(q)) { if (!f.guard) { f.gwait = 8; f.stale.clear(); u64 lo = rsp > 256 ? (rsp - 256) & ~7ull : 0; for (u64 x = f.entry_rsp - 8; x >= lo; x -= 8) if (*(u64 *)x == P.canary) f.stale.push_back(x); } else { f.checked = true; f.gcheck = st; } } } }
		if (P.inject >= 0 && st == (u64)P.inject) { *(u64 *)P.inj_slot ^= P.inj_xor; M.R->ninj++; M.inj_entry = 0; for (size_t k = a.shadow.size(); k-- > 0;) if (a.shadow[k].entry_rsp > P.inj_slot) { M.inj_entry = a.shadow[k].entry_rsp; break; } M.R->injwhere = mach_sym(rip); }
		if (T().acts.size() == 1 && M.nexthandler < P.sigat.size() && st >= P.sigat[M.nexthandler] && M.handlers->size()) {
			const Call &hc = (*M.handlers)[M.nexthandler % M.handlers->size()]; M.nexthandler++; M.R->nreent++; T().acts.emplace_back(); Act &h = A(); save(uc, h.saved); u64 top = ((rsp - (P.rz == 0 ? 0 : 128)) & ~63ull) - 1024; for (u64 x = top - 64; x < top + 1024 && x + 8 <= rsp - (P.rz == 0 ? 0 : 128); x += 8) *(u64 *)x = mix(P.seed, x); Rng r(mix(P.seed, st ^ 0x5151)); for (int k : {REG_RAX, REG_RBX, REG_RCX, REG_RDX, REG_RSI, REG_RDI, REG_RBP, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15}) g[k] = garbage(r); if (M.p->fns[hc.fn].variadic) g[REG_RAX] = 8;
			start_act(uc, hc, top, G_SIGRET); continue; }
		if (P.nthreads > 1 && P.swden && st >= P.swlo && st < P.swhi && mix(P.seed, st ^ 0x777) % P.swden == 0) { int n = M.cur; for (size_t k = 1 + mix(P.seed, st) % (M.th.size() - 1), c = 0; c < M.th.size(); c++, k++) { int x = (M.cur + k) % M.th.size(); if (x != M.cur && !M.th[x].done) { n = x; break; } } if (n != M.cur) { M.R->nswitch++; a.prev_ok = false; save(uc, T().ctx); M.cur = n; load(uc, T().ctx); g[REG_EFL] |= 0x100; Act &b = A(); b.prev_ok = true; b.prev_rip = g[REG_RIP]; b.prev_rsp = g[REG_RSP]; return; } }
		a.prev_ok = true; a.prev_rip = rip; a.prev_rsp = rsp; g[REG_EFL] |= 0x100; return;
	}
}
extern "C" { void enter_site_end(); }
static inline u64 getfs() { u64 v; asm volatile("mov %%fs:0x28,%0" : "=r"(v)); return v; } static inline void setfs(u64 v) { asm volatile("mov %0,%%fs:0x28" ::"r"(v)); }
static void on_sig(int sig, siginfo_t *si, void *v) {
	ucontext_t *uc = (ucontext_t *)v; greg_t *g = uc->uc_mcontext.gregs; u64 rip = g[REG_RIP];
	if (sig == SIGALRM) { if (M.running) { thread_done(uc, E_BUDGET, 0); } return; }
	if (!M.running) { if (sig == SIGTRAP && rip == (u64)&enter_site_end) { save(uc, M.host); M.running = true; for (size_t i = 0; i < g_threads->size(); i++) setup_thread(uc, (int)i, (*g_threads)[i]); M.cur = 0; load(uc, M.th[0].ctx); if (M.pol->step) boundary(uc); return; }
		fprintf(stderr, "runsim: signal %d in the simulator itself at %#llx (addr %p)\n", sig, (unsigned long long)rip, si->si_addr); _exit(9); }
	if (M.devstep) { // the access has been executed
		M.devstep = false; if (sig != SIGTRAP) { mprotect((void *)(u64)ADDR_DEV, DEV_SZ, PROT_NONE); thread_done(uc, E_SIGNAL, sig); return; }
		if (M.devwr) { u64 x = 0; memcpy(&x, (void *)(ADDR_DEV + M.devoff), M.devw > 8 ? 8 : M.devw); M.R->dev.push_back({true, (u32)M.devoff, (u8)M.devw, x}); }
		mprotect((void *)(u64)ADDR_DEV, DEV_SZ, PROT_NONE); if (!M.pol->step) { g[REG_EFL] &= ~0x100ull; return; } boundary(uc); return; }
	if (sig == SIGTRAP) { if (!M.pol->step) { u64 r = rip - 1; if (r >= ADDR_GATE && r < ADDR_GATE + GATE_SZ && !(r & 15) && (r - ADDR_GATE) / 16 < M.gates.size()) { g[REG_RIP] = r; M.R->steps++; if (g[REG_RSP] < (greg_t)M.R->lowsp) M.R->lowsp = g[REG_RSP]; gate(uc, (int)((r - ADDR_GATE) / 16)); return; } thread_done(uc, E_WILD, 0); return; } boundary(uc); return; }
	if (sig == SIGSEGV && (u64)si->si_addr >= ADDR_DEV && (u64)si->si_addr < ADDR_DEV + DEV_SZ && rip >= ADDR_CODE && rip < ADDR_CODE + M.clen) {
		bool rd, wr; int w; if (!decode((const u8 *)rip, &w, &rd, &wr)) { thread_done(uc, E_BADARG, 1); return; } if (M.R->dev.size() > 20000) { thread_done(uc, E_BUDGET, 0); return; }
		M.devoff = (u64)si->si_addr - ADDR_DEV; M.devw = w; M.devwr = wr; if (M.devoff + w > DEV_SZ) { thread_done(uc, E_SIGNAL, sig); return; } mprotect((void *)(u64)ADDR_DEV, DEV_SZ, PROT_READ | PROT_WRITE); memset((void *)(u64)ADDR_DEV, 0, DEV_SZ);
		if (rd) { u64 x = mix(mix(M.pol->seed, M.devoff), ++M.devn[M.devoff]); if (x & 0x100000) x &= 7; x &= lowmask(w); for (int i = 0; i < w; i += 8) memcpy((void *)(ADDR_DEV + M.devoff + i), &x, w < 8 ? w : 8); M.R->dev.push_back({false, (u32)M.devoff, (u8)w, x}); }
		M.devstep = true; g[REG_EFL] |= 0x100; return; }
	if (sig == SIGSEGV && M.pol->objmode == 1 && (u64)si->si_addr >= ADDR_OBJ && (u64)si->si_addr < ADDR_OBJ + NOBJ * 0x2000ull) inv("accesses memory behind the end of an object passed to it at " + mach_sym(rip));
	else if (sig == SIGSEGV && rip >= ADDR_CODE && rip < ADDR_CODE + M.clen) inv("accesses memory outside its objects at " + mach_sym(rip));
	thread_done(uc, E_SIGNAL, sig);
}
void mach_init() {
	auto m = [](u64 a, u64 n, int pr) { void *p = mmap((void *)a, n, pr, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void *)a) { fprintf(stderr, "runsim: cannot map %#llx: %s\n", (unsigned long long)a, strerror(errno)); _exit(9); } };
	m(ADDR_CODE, CODE_SZ, PROT_READ | PROT_WRITE | PROT_EXEC); m(ADDR_GATE, GATE_SZ, PROT_READ | PROT_WRITE); memset((void *)(u64)ADDR_GATE, 0xCC, GATE_SZ); mprotect((void *)(u64)ADDR_GATE, GATE_SZ, PROT_READ | PROT_EXEC); m(ADDR_DATA, DATA_SZ, PROT_READ | PROT_WRITE); for (int i = 0; i < NSTK; i++) m(ADDR_STK + (u64)i * STK_STEP, STK_SZ, PROT_READ | PROT_WRITE); m(ADDR_DEV, DEV_SZ, PROT_NONE); for (int i = 0; i < NOBJ; i++) { m(ADDR_OBJ + (u64)i * 0x2000, 0x1000, PROT_READ | PROT_WRITE); m(ADDR_OBJ + (u64)i * 0x2000 + 0x1000, 0x1000, PROT_NONE); } m(ADDR_SHR, SHR_SZ, PROT_READ | PROT_WRITE);
	memset((void *)(u64)ADDR_CODE, 0xCC, CODE_SZ);
	stack_t ss; ss.ss_size = 1 << 20; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_flags = 0; sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigfillset(&sa.sa_mask); for (int s : {SIGTRAP, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
}
static __attribute__((noinline)) void enter() { asm volatile("int3\n\t.globl enter_site_end\nenter_site_end:\n\t" ::: "memory", "cc"); }
Result mach_run(const Prog &p, const vector<Call> &threads, const vector<Call> &handlers, const Policy &pol, bool keeplog) {
	Result R; M.p = &p; M.pol = &pol; M.R = &R; M.keeplog = keeplog; M.handlers = &handlers; M.nexthandler = 0; M.bound = 0; M.inj_entry = 0; M.devstep = false; memset(M.devn, 0, sizeof M.devn); memcpy((void *)(u64)ADDR_DATA, M.image.data(), M.image.size());
	M.th.assign(threads.size(), Thread()); g_threads = &threads; u64 old = getfs(); if (pol.canary) setfs(pol.canary); enter(); setfs(old);
	u64 h = 3; for (u64 a = ADDR_DATA; a + 8 <= ADDR_DATA + ((M.dlen + 7) & ~7ull); a += 8) h = mix(h, *(u64 *)a); for (size_t t = 0; t < threads.size(); t++) { for (u64 a = objs_of((int)t); a < objs_of((int)t) + 1024; a += 8) h = mix(h, *(u64 *)a); u64 c = M.th[t].canlo; for (; c < M.th[t].canhi; c += 8) if (*(u64 *)c != 0xC0FFEE0000000000ull + c) break; if (c < M.th[t].canhi && pol.inv) inv("memory above the caller's argument area was overwritten"); } for (size_t t = 0; t < threads.size(); t++) { ThreadRes &x = R.th[t]; x.objs = 5; for (auto &q : M.th[t].objs) for (int i = 0; i < q.second; i++) x.objs = mix(x.objs, *(u8 *)(q.first + i)); } R.mem = h;
	return R;
}
u64 Result::crc() const { u64 h = 1; for (auto *tv : {&th, &hres}) for (auto &t : *tv) { h = mix(h, t.end * 100 + t.sig); for (u64 r : t.ret) h = mix(h, r); h = mix(h, t.log); h = mix(h, t.nlog); } h = mix(h, mem); h = mix(h, steps); h = mix(h, iphash); for (auto &d : dev) h = mix(h, mix(d.off * 2 + d.write, d.val * 31 + d.width)); for (auto &s : inv) h = hash_str(s, h); return h; }
