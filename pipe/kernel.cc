// Simulated kernel: VFS, processes as coroutines, scheduler, faults, process memory.
#include "sim.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <csignal>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>

World *W; ProcP cur;
const char *const op_names[] = {"open-read","open-write","read","write","close","unlink","stat","fork","exec","wait","mkstemp","rename","misc","alloc","any"};
const char *const fault_names[] = {"errno","short","short-then-error","disk-full","disk-full-transient","close-error","kill","tool-exit","alloc-once","alloc-all"};
const char *const prog_names[] = {"ucc","cpp","cc1","as","ld","sh","cat","cp","mv","rm","wrap","true","false","dsymutil"};

u64 mix(u64 a, u64 b) { u64 z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15u); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
u64 hash_str(const string &s, u64 h) { for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; } return h; }
const char *errname(int e) {
	switch (e) { case EIO: return "EIO"; case ENOSPC: return "ENOSPC"; case EACCES: return "EACCES"; case EMFILE: return "EMFILE"; case ENFILE: return "ENFILE"; case EINTR: return "EINTR"; case EROFS: return "EROFS"; case EDQUOT: return "EDQUOT"; case ENOMEM: return "ENOMEM"; case EAGAIN: return "EAGAIN"; case ENOENT: return "ENOENT"; case ETXTBSY: return "ETXTBSY"; case E2BIG: return "E2BIG"; case EBUSY: return "EBUSY"; case ESTALE: return "ESTALE"; case ENOEXEC: return "ENOEXEC"; }
	static char b[24]; snprintf(b, sizeof b, "errno%d", e); return b;
}

// ------------------------------------------------------------------ VFS
static map<string, InodeP> host_cache;
static u64 host_id = 1000000000;
static InodeP host_node(const string &path) {
	auto it = host_cache.find(path);
	if (it != host_cache.end()) return it->second;
	struct stat st; InodeP r;
	if (stat(path.c_str(), &st) == 0) {
		if (S_ISDIR(st.st_mode)) { r = std::make_shared<Inode>(); r->type = I_DIR; r->mode = 0555; r->host = true; r->hostpath = path; }
		else if (S_ISREG(st.st_mode) && st.st_size < (4 << 20)) {
			FILE *f = fopen(path.c_str(), "r");
			if (f) { r = std::make_shared<Inode>(); r->mode = 0444; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r->data.append(b, n); fclose(f); }
		}
		if (r) { r->id = host_id++; r->mtime = 1000000000; }
	}
	host_cache[path] = r;
	return r;
}
static InodeP new_inode(World &w, InodeType t, unsigned mode) { auto i = std::make_shared<Inode>(); i->type = t; i->mode = mode; i->id = w.next_ino++; i->mtime = w.now_us / 1000000; return i; }

static void split(const string &p, vector<string> &out) { size_t i = 0; while (i < p.size()) { size_t j = p.find('/', i); if (j == string::npos) j = p.size(); if (j > i) { string c = p.substr(i, j - i); if (c != ".") out.push_back(c); } i = j + 1; } }
string path_norm(const string &cwd, const string &p) {
	vector<string> v, o; split((p.size() && p[0] == '/') ? p : cwd + "/" + p, v);
	for (auto &c : v) { if (c == "..") { if (o.size()) o.pop_back(); } else o.push_back(c); }
	string r; for (auto &c : o) r += "/" + c; return r.empty() ? "/" : r;
}
static InodeP dir_get(InodeP d, const string &n) {
	auto it = d->ents.find(n); if (it != d->ents.end()) return it->second;
	if (d->host) { InodeP c = host_node(d->hostpath + "/" + n); if (c) d->ents[n] = c; return c; }
	return nullptr;
}
struct Look { InodeP parent, ino; string name; int err = 0; };
static Look walk(World &w, const string &cwd, const string &path, bool follow, int depth = 0) {
	Look L; if (path.empty()) { L.err = ENOENT; return L; }
	if (depth > 20) { L.err = ELOOP; return L; }
	vector<string> v; split(path[0] == '/' ? path : cwd + "/" + path, v);
	bool trailing = path.back() == '/';
	vector<InodeP> st{w.root}; string curp = "";
	vector<string> names;
	for (size_t i = 0; i < v.size(); i++) {
		InodeP d = st.back();
		if (d->type != I_DIR) { L.err = ENOTDIR; return L; }
		bool last = i + 1 == v.size();
		if (v[i] == "..") { if (st.size() > 1) { st.pop_back(); names.pop_back(); } if (last) { L.ino = st.back(); L.parent = st.size() > 1 ? st[st.size() - 2] : w.root; L.name = names.size() ? names.back() : ""; return L; } continue; }
		if (!(d->mode & 0100)) { L.err = EACCES; return L; }
		if (v[i].size() > 255) { L.err = ENAMETOOLONG; return L; }
		InodeP c = dir_get(d, v[i]);
		if (c && c->type == I_SYMLINK && (!last || follow)) {
			string base; for (auto &n : names) base += "/" + n;
			string rest = c->data; for (size_t j = i + 1; j < v.size(); j++) rest += "/" + v[j];
			return walk(w, base.empty() ? "/" : base, rest, follow, depth + 1);
		}
		if (last) { L.parent = d; L.name = v[i]; L.ino = c; if (!c) L.err = ENOENT; else if (trailing && c->type != I_DIR) L.err = ENOTDIR; return L; }
		if (!c) { L.err = ENOENT; return L; }
		st.push_back(c); names.push_back(v[i]);
	}
	L.ino = w.root; L.parent = w.root; return L;
}
InodeP vfs_mkdirs(World &w, const string &path, unsigned mode) {
	vector<string> v; split(path, v); InodeP d = w.root;
	for (auto &n : v) { InodeP c = dir_get(d, n); if (!c) { c = new_inode(w, I_DIR, mode); d->ents[n] = c; } d = c; }
	return d;
}
static void splitdir(const string &p, string &dir, string &base) { size_t k = p.rfind('/'); dir = p.substr(0, k); base = p.substr(k + 1); }
InodeP vfs_put(World &w, const string &path, const string &data, unsigned mode) { string d, b; splitdir(path, d, b); InodeP p = vfs_mkdirs(w, d); InodeP i = new_inode(w, I_REG, mode); i->data = data; p->ents[b] = i; return i; }
InodeP vfs_node(World &w, const string &path, InodeType t, unsigned mode) { string d, b; splitdir(path, d, b); InodeP p = vfs_mkdirs(w, d); InodeP i = new_inode(w, t, mode); p->ents[b] = i; return i; }
InodeP vfs_hostdir(World &w, const string &path, const string &hostpath) { string d, b; splitdir(path, d, b); InodeP p = vfs_mkdirs(w, d); InodeP h = host_node(hostpath); if (h) p->ents[b] = h; return h; }
InodeP vfs_symlink(World &w, const string &path, const string &target) { InodeP i = vfs_node(w, path, I_SYMLINK, 0777); i->data = target; return i; }
InodeP vfs_hardlink(World &w, const string &path, const string &target) { InodeP t = vfs_lookup(w, target, true); if (!t) return t; string d, b; splitdir(path, d, b); vfs_mkdirs(w, d)->ents[b] = t; t->nlink++; return t; }
InodeP vfs_lookup(World &w, const string &path, bool follow) { Look L = walk(w, "/", path, follow); return L.err ? nullptr : L.ino; }
static void vlist(InodeP d, const string &pre, map<string, InodeP> &out) { for (auto &e : d->ents) { if (e.second->host || e.second->id >= 1000000000) continue; out[pre + "/" + e.first] = e.second; if (e.second->type == I_DIR) vlist(e.second, pre + "/" + e.first, out); } }
void vfs_list(World &w, map<string, InodeP> &out) { vlist(w.root, "", out); }

// ------------------------------------------------------------------ process memory
static const int NSLOT = 40, NSUB = 4;
static const u64 ALLOC_BUDGET = 200ul << 20;
static const size_t SUBSZ = 224ul << 20, STKSZ = 16ul << 20, SLOTSZ = 1ul << 30;
static char *const MBASE = (char *)0x200000000000;
struct Slot { Region heap[NSUB], stk; int refs = 0; };
static Slot slots[NSLOT];
Image images[3];
static Region imgreg[3];
extern "C" { extern char __start_simdata_ucc[], __stop_simdata_ucc[], __start_simdata_cpp[], __stop_simdata_cpp[], __start_simdata_cc1[], __stop_simdata_cc1[];
int ucc_main(int, char **, char **); int cpp_main(int, char **, char **); int cc1_main(int, char **, char **); }

extern "C" void ctx_swtch(void **save, void *load);
asm(R"(
.text
.globl ctx_swtch
ctx_swtch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
)");
static void *sched_sp;

static void extents(Proc &p, Region *r, char *&lo, char *&hi) {
	lo = hi = r->base;
	if (r >= imgreg && r < imgreg + 3) { lo = r->base; hi = r->base + r->size; return; }
	Slot &s = slots[p.slot];
	if (r == &s.stk) { lo = (char *)p.sp; hi = p.stk_hi; return; }
	for (int i = 0; i < p.heap.nsub; i++) if (r == &s.heap[i]) { auto &u = p.heap.sub[i]; if (u.down) lo = u.cur, hi = u.hi; else lo = u.lo, hi = u.cur; }
}
static void save_region(Proc &p, Region *r) { char *lo, *hi; extents(p, r, lo, hi); p.saved.emplace_back(r, string(lo, hi - lo)); r->owner = nullptr; }
static void load_proc(Proc &p) {
	for (Region *r : p.regions) if (r->owner != &p) {
		if (r->owner) save_region(*r->owner, r);
		for (size_t i = 0; i < p.saved.size(); i++) if (p.saved[i].first == r) { char *lo, *hi; extents(p, r, lo, hi); memcpy(lo, p.saved[i].second.data(), p.saved[i].second.size()); p.saved.erase(p.saved.begin() + i); break; }
		r->owner = &p;
	}
}
static void slot_release(Proc &p) {
	for (Region *r : p.regions) if (r->owner == &p) r->owner = nullptr;
	if (p.slot >= 0) {
		Slot &s = slots[p.slot];
		if (--s.refs == 0) {
			for (int i = 0; i < NSUB; i++) if (s.heap[i].used_hi > s.heap[i].used_lo) { madvise(s.heap[i].base + s.heap[i].used_lo, s.heap[i].used_hi - s.heap[i].used_lo, MADV_DONTNEED); s.heap[i].used_lo = s.heap[i].used_hi = 0; }
			madvise(s.stk.base, s.stk.size, MADV_DONTNEED);
		}
	}
	p.slot = -1; p.regions.clear(); p.saved.clear();
}
static void note_used(Region *r, char *lo, char *hi) {
	size_t a = (lo - r->base) & ~4095ul, b = (hi - r->base + 4095) & ~4095ul;
	if (r->used_hi == r->used_lo) r->used_lo = a, r->used_hi = b;
	else { if (a < r->used_lo) r->used_lo = a; if (b > r->used_hi) r->used_hi = b; }
}
static const u32 MAGIC_LIVE = 0xA110C8ED, MAGIC_FREE = 0xF4EEB10C; static const u64 CANARY = 0xC0DEFEEDBADC0FFEull;
static inline char *blk_pay(HeapBlk *b) { return (char *)(b + 1); }
static inline size_t rnd(size_t n) { return (n + 15) & ~15ul; }
static inline u64 *blk_can(HeapBlk *b) { return (u64 *)(blk_pay(b) + rnd(b->size)); }
static void fill(char *p, size_t n, u64 seed) { u64 x = seed | 1; size_t i = 0; for (; i + 8 <= n; i += 8) { x = x * 6364136223846793005ull + 1442695040888963407ull; u64 y = x ^ (x >> 29); memcpy(p + i, &y, 8); } for (; i < n; i++) p[i] = (char)(x >> (i & 7)); }
static HeapBlk *sub_carve(Proc &p, size_t n) {
	Heap &h = p.heap; int k = h.nsub > 1 ? (int)h.rng.below(h.nsub) : 0; auto &s = h.sub[k];
	size_t tot = sizeof(HeapBlk) + rnd(n) + 16; if (W->hostile) tot += 16 * h.rng.below(3);
	if ((size_t)(s.down ? s.cur - s.lo : s.hi - s.cur) < tot + 64) return nullptr;
	char *at; if (s.down) { s.cur -= tot; at = s.cur; } else { at = s.cur; s.cur += tot; }
	Region *r = &slots[p.slot].heap[k]; if (s.down) note_used(r, s.cur, s.hi); else note_used(r, s.lo, s.cur);
	HeapBlk *b = (HeapBlk *)at; b->pad = tot; return b;
}
void *heap_alloc(size_t n, bool zero) {
	Proc &p = *cur; Heap &h = p.heap;
	if ((h.total += n + 96) > ALLOC_BUDGET) { W->budget_hit = true; k_die(SIGXCPU, "allocation budget exceeded"); }
	if (n > SUBSZ / 2) { errno = ENOMEM; return nullptr; }
	HeapBlk *b = nullptr; u32 key = (u32)rnd(n);
	if (h.reuse) { auto it = h.freel.find(key); if (it != h.freel.end() && !it->second.empty()) {
		auto &v = it->second; size_t i = h.reuse == 1 ? v.size() - 1 : h.reuse == 2 ? 0 : h.rng.below(v.size()); b = v[i]; v.erase(v.begin() + i); } }
	if (!b) b = sub_carve(p, n);
	if (!b) { errno = ENOMEM; return nullptr; }
	b->size = (u32)n; b->magic = MAGIC_LIVE; *blk_can(b) = CANARY;
	if (rnd(n) > n) memset(blk_pay(b) + n, 0xC5, rnd(n) - n);
	if (zero) memset(blk_pay(b), 0, n); else if (h.garbage) fill(blk_pay(b), n, h.rng.next()); else memset(blk_pay(b), 0, n);
	h.live++; h.count++; return blk_pay(b);
}
static bool in_heap(Proc &p, void *q) { for (int i = 0; i < p.heap.nsub; i++) { auto &s = p.heap.sub[i]; if ((char *)q >= (s.down ? s.cur : s.lo) + 16 && (char *)q < (s.down ? s.hi : s.cur)) return true; } return false; }
static void bad_heap(const char *what) { if (cur->heap.corrupt.empty()) cur->heap.corrupt = what; k_die(SIGABRT, what); }
static bool pad_ok(HeapBlk *b) { if (*blk_can(b) != CANARY) return false; for (size_t i = b->size; i < rnd(b->size); i++) if ((u8)blk_pay(b)[i] != 0xC5) return false; return true; }
void heap_free(void *q) {
	if (!q) return; Proc &p = *cur;
	if (!in_heap(p, q) || ((uintptr_t)q & 15)) bad_heap("free() of a pointer not from malloc");
	HeapBlk *b = (HeapBlk *)q - 1;
	if (b->magic == MAGIC_FREE) bad_heap("double free");
	if (b->magic != MAGIC_LIVE) bad_heap("free() of a pointer not from malloc (or header overwritten)");
	if (!pad_ok(b)) bad_heap("heap overflow detected at free()");
	b->magic = MAGIC_FREE; p.heap.live--;
	if (p.heap.garbage) fill(blk_pay(b), b->size, 0x5A5A5A5A5A5A5A5Aull + p.heap.count); else memset(blk_pay(b), 0xDF, b->size < 64 ? b->size : 64);
	if (p.heap.reuse) p.heap.freel[(u32)rnd(b->size)].push_back(b);
}
size_t heap_size(void *q) { HeapBlk *b = (HeapBlk *)q - 1; return b->size; }
void *heap_realloc(void *q, size_t n) {
	if (!q) return heap_alloc(n, false);
	if (!in_heap(*cur, q) || ((HeapBlk *)q - 1)->magic != MAGIC_LIVE) bad_heap("realloc() of a bad pointer");
	if (!pad_ok((HeapBlk *)q - 1)) bad_heap("heap overflow detected at realloc()");
	if (n == 0) { heap_free(q); return nullptr; }
	void *r = heap_alloc(n, false); if (!r) return nullptr;
	size_t o = heap_size(q); memcpy(r, q, o < n ? o : n); heap_free(q); return r;
}
string heap_check(Proc &p) {
	if (!p.heap.corrupt.empty()) return p.heap.corrupt;
	for (int i = 0; i < p.heap.nsub; i++) { auto &s = p.heap.sub[i]; char *at = s.down ? s.cur : s.lo, *end = s.down ? s.hi : s.cur;
		while (at < end) { HeapBlk *b = (HeapBlk *)at; if (b->magic != MAGIC_LIVE && b->magic != MAGIC_FREE) return "heap block header overwritten"; if (b->magic == MAGIC_LIVE && !pad_ok(b)) return "heap overflow (write past the end of an allocation)"; if (b->pad < sizeof(HeapBlk) + 16 || b->pad > SUBSZ) return "heap block header overwritten"; at += b->pad; } }
	return "";
}

// ------------------------------------------------------------------ crash handling
static char altstk[256 << 10];
static volatile int crash_sig; static volatile void *crash_addr;
static bool in_sched = true;
static void crash_land() { char b[96]; snprintf(b, sizeof b, "signal %d at address %p", (int)crash_sig, (void *)crash_addr); if (crash_sig == SIGXCPU) W->budget_hit = true; char *sb = cur->slot >= 0 ? slots[cur->slot].stk.base : nullptr; if (crash_sig == SIGSEGV && sb && (char *)crash_addr < sb + 4096 && (char *)crash_addr >= sb - 65536) snprintf(b, sizeof b, "stack overflow"); else if (crash_sig == SIGXCPU) snprintf(b, sizeof b, "cpu budget exceeded"); cur->crashed = crash_sig != SIGXCPU; k_die(crash_sig, b); }
static void on_crash(int sig, siginfo_t *si, void *u) {
	if (sig == SIGVTALRM && (in_sched || !cur)) { struct itimerval it = {{0, 0}, {1, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr); return; }
	if (in_sched || !cur) { const char m[] = "simulator crashed\n"; (void)!write(2, m, sizeof m - 1); _exit(70); }
	crash_sig = sig == SIGVTALRM ? SIGXCPU : sig; crash_addr = si->si_addr;
	if (getenv("UCCSIM_DEBUG")) { ucontext_t *d = (ucontext_t *)u; fprintf(stderr, "crash sig %d rip %llx stack:", sig, (unsigned long long)d->uc_mcontext.gregs[REG_RIP]); u64 *sp = (u64 *)d->uc_mcontext.gregs[REG_RSP]; if (sig != SIGSEGV || (char *)sp > slots[cur->slot].stk.base + 4096) for (int i = 0, k = 0; i < 400 && k < 30; i++) if (sp[i] > 0x400000 && sp[i] < 0x800000) { fprintf(stderr, " %llx", (unsigned long long)sp[i]); k++; } fprintf(stderr, "\n"); }
	ucontext_t *c = (ucontext_t *)u; static char *land = nullptr;
	if (!land) land = (char *)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + (1 << 20) - 64;
	c->uc_mcontext.gregs[REG_RIP] = (greg_t)(void *)crash_land; c->uc_mcontext.gregs[REG_RSP] = (greg_t)(land - 8);
	c->uc_mcontext.gregs[REG_EFL] &= ~0x400;
}
static void arm_timer(int secs) { struct itimerval it = {{0, 0}, {secs, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr); }

void sim_init() {
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
	images[0] = {"ucc", __start_simdata_ucc, __stop_simdata_ucc, string(__start_simdata_ucc, __stop_simdata_ucc), ucc_main};
	images[1] = {"cpp", __start_simdata_cpp, __stop_simdata_cpp, string(__start_simdata_cpp, __stop_simdata_cpp), cpp_main};
	images[2] = {"cc1", __start_simdata_cc1, __stop_simdata_cc1, string(__start_simdata_cc1, __stop_simdata_cc1), cc1_main};
	for (int i = 0; i < 3; i++) { imgreg[i].base = images[i].lo; imgreg[i].size = images[i].hi - images[i].lo; }
	for (int i = 0; i < NSLOT; i++) {
		char *b = MBASE + i * SLOTSZ;
		char *m = (char *)mmap(b, NSUB * (SUBSZ + 4096) + STKSZ + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (m != b) { fprintf(stderr, "cannot map process memory\n"); exit(71); }
		for (int k = 0; k < NSUB; k++) { slots[i].heap[k].base = b + k * (SUBSZ + 4096); slots[i].heap[k].size = SUBSZ; mprotect(slots[i].heap[k].base, SUBSZ, PROT_READ | PROT_WRITE); }
		slots[i].stk.base = b + NSUB * (SUBSZ + 4096) + 4096; slots[i].stk.size = STKSZ; mprotect(slots[i].stk.base, STKSZ, PROT_READ | PROT_WRITE);
	}
}

// ------------------------------------------------------------------ scheduler
static void to_sched() { cur->saved_errno = errno; in_sched = true; ctx_swtch(&cur->sp, sched_sp); in_sched = false; errno = cur->saved_errno; }
static void proc_entry() {
	in_sched = false; errno = 0;
	libc_proc_start();
	if (cur->prog <= PR_CC1) {
		vector<string> &a = cur->argv; (void)a;
		char **argv = (char **)cur->stk_lo; // set by exec_setup: start of argv array
		char **envp = cur->plibc->environ_;
		int r = images[cur->prog].main((int)cur->argv.size(), argv, envp);
		libc_exit(r);
	}
	int r = stub_main(cur->prog);
	k_exit(r);
}
static void exec_setup(Proc &p, int prog) {
	Rng L(mix(W->layout.next(), 77));
	p.prog = prog; p.heap = Heap(); p.has_image = false; p.plibc = nullptr; p.crashed = false;
	memset(p.opcount, 0, sizeof p.opcount); p.alloc_all_fail = false; p.forked_child = false; p.opened.clear();
	p.ex = W->next_ex[p.drv]++;
	int s; vector<int> fr; for (int i = 0; i < NSLOT; i++) if (!slots[i].refs) fr.push_back(i);
	if (fr.empty()) { W->bug = "out of process slots"; s = 0; } else s = W->hostile ? fr[L.below(fr.size())] : fr[0];
	slots[s].refs++; p.slot = s; p.regions.clear(); p.saved.clear();
	Slot &S = slots[s];
	p.heap.rng = Rng(L.next()); p.heap.garbage = W->hostile; p.heap.reuse = W->hostile ? (int)L.below(4) : 1; p.heap.nsub = W->hostile ? 1 + (int)L.below(NSUB) : 1;
	for (int i = 0; i < p.heap.nsub; i++) { auto &u = p.heap.sub[i]; size_t off = W->hostile ? L.below(1024) * 4096 + L.below(256) * 16 : 0; u.down = W->hostile && L.chance(1, 2); u.lo = S.heap[i].base + (u.down ? 0 : off); u.hi = S.heap[i].base + SUBSZ - (u.down ? off : 0); u.cur = u.down ? u.hi : u.lo; p.regions.push_back(&S.heap[i]); S.heap[i].owner = &p; }
	p.regions.push_back(&S.stk); S.stk.owner = &p;
	if (prog <= PR_CC1) { Region *r = &imgreg[prog]; if (r->owner) save_region(*r->owner, r); r->owner = &p; memcpy(images[prog].lo, images[prog].pristine.data(), images[prog].pristine.size()); p.regions.push_back(r); p.has_image = true; }
	// stack: top holds PLibc, strings, argv, envp
	char *top = S.stk.base + STKSZ - 64 - (W->hostile ? L.below(4096) * 16 : 0);
	p.stk_hi = S.stk.base + STKSZ; char *q = top;
	auto down = [&](size_t n) { q -= (n + 15) & ~15ul; return q; };
	PLibc *pl = (PLibc *)down(sizeof(PLibc)); memset((void *)pl, 0, sizeof *pl); p.plibc = pl;
	vector<char *> av, ev;
	for (auto &a : p.argv) { char *t = down(a.size() + 1); memcpy(t, a.c_str(), a.size() + 1); av.push_back(t); }
	for (auto &a : p.env) { char *t = down(a.size() + 1); memcpy(t, a.c_str(), a.size() + 1); ev.push_back(t); }
	char **E = (char **)down(8 * (ev.size() + 1)); for (size_t i = 0; i < ev.size(); i++) E[i] = ev[i]; E[ev.size()] = nullptr;
	char **A = (char **)down(8 * (av.size() + 1)); for (size_t i = 0; i < av.size(); i++) A[i] = av[i]; A[av.size()] = nullptr;
	pl->environ_ = E; p.stk_lo = (char *)A;
	if (W->hostile) { q -= 256 << 10; fill(q, 256 << 10, L.next()); q += 256 << 10; }
	q = (char *)((uintptr_t)q & ~15ul); q -= 64;
	void **sp = (void **)q; *--sp = nullptr; *--sp = (void *)proc_entry; for (int i = 0; i < 6; i++) *--sp = nullptr;
	p.sp = sp;
	ExecRec er{p.drv, p.ex, prog, p.argv, 0, "", false, false, {}, p.um, 0}; er.seq0 = W->nops; er.pid = p.pid; er.ppid = p.ppid; er.cwd = p.cwd; W->execs.push_back(er);
	W->evhash = mix(W->evhash, 1000 + prog); for (auto &a : p.argv) W->evhash = hash_str(a, W->evhash);
	if (W->want_events) { string s = "exec d" + std::to_string(p.drv) + "/" + std::to_string(p.ex) + " " + prog_names[prog] + ":"; for (auto &a : p.argv) s += " " + a; W->events.push_back(s); }
}
static bool wake_inherited(World &w, bool all);
static ProcP find_pid(int pid) { for (auto &p : W->procs) if (p->pid == pid && p->st != P_DEAD) return p; return nullptr; }

static bool wake_inherited(World &w, bool all) {
	bool any = false;
	for (auto &ih : w.inherited) if (ih.at > 0 && ih.pid && (all || (long)w.nops >= ih.at)) { ih.at = 0; ProcP z = find_pid(ih.pid); if (!z || z->st != P_ELSEWHERE) continue; z->st = P_ZOMBIE; ProcP par = find_pid(z->ppid); if (par && par->st == P_WAIT) par->st = P_RUN; any = true; }
	return any;
}
int world_spawn(World &w, const vector<string> &argv, const vector<string> &env, const string &cwd, unsigned um, InodeP in, InodeP out, InodeP err) {
	W = &w; int drv = (int)w.drv_pid.size();
	auto p = std::make_shared<Proc>(); p->pid = w.next_pid; w.next_pid += 1 + (w.hostile ? (int)w.misc.below(50) : 0); p->ppid = 1; p->drv = drv; p->cwd = cwd; p->um = um; p->argv = argv; p->env = env;
	InodeP io[3] = {in, out, err};
	for (int i = 0; i < 3; i++) { auto o = std::make_shared<OpenFile>(); o->ino = io[i]; o->flags = i ? O_WRONLY | (io[i]->type == I_REG ? O_APPEND : 0) : O_RDONLY; o->path = i == 0 ? "<stdin>" : i == 1 ? "<stdout>" : "<stderr>"; p->fds.push_back(o); }
	w.procs.push_back(p); w.drv_pid[drv] = p->pid; w.next_ex[drv] = 0;
	exec_setup(*p, PR_UCC);
	for (auto &ih : w.inherited) if (ih.drv == drv) { auto z = std::make_shared<Proc>(); z->pid = ih.pid = w.next_pid++; z->ppid = p->pid; z->drv = -1; z->st = ih.at <= 0 ? P_ZOMBIE : P_ELSEWHERE; z->status = ih.status; w.procs.push_back(z); }
	return drv;
}
void world_run(World &w) {
	W = &w; ProcP last; in_sched = true; arm_timer(4);
	for (;;) {
		vector<ProcP> run; for (auto &p : w.procs) if (p->st == P_RUN) run.push_back(p);
		if (run.empty()) { if (wake_inherited(w, true)) continue; bool waiting = false; for (auto &p : w.procs) if (p->st == P_WAIT) waiting = true; if (waiting) w.bug = "deadlock"; break; }
		ProcP n;
		if (w.switch_pct && run.size() > 1) { n = run[w.sched.below(run.size())]; if (n != last) w.nswitch++; }
		else { n = nullptr; for (auto &p : run) if (p == last) n = p; if (!n || (last && last->retval > 0 && run.size() > 1 && w.switch_pct == 0)) n = run.back(); }
		if (w.procs.size() > 64) { vector<ProcP> keep; for (auto &p : w.procs) if (p->st != P_DEAD) keep.push_back(p); w.procs.swap(keep); }
		cur = n; last = n; load_proc(*n); libc_swap_in(*n);
		ctx_swtch(&sched_sp, n->sp); in_sched = true;
		if (n->st == P_ZOMBIE || n->st == P_DEAD) slot_release(*n);
		else if (n->exec_prog >= 0) { int pr = n->exec_prog; n->exec_prog = -1; slot_release(*n); exec_setup(*n, pr); }
		cur = nullptr;
		if (!w.bug.empty()) break;
	}
	arm_timer(0);
	for (auto &p : w.procs) if (p->slot >= 0) slot_release(*p);
	cur = nullptr;
}

// ------------------------------------------------------------------ operations & faults
static void ev(const string &s) { if (W->want_events) W->events.push_back("d" + std::to_string(cur->drv) + "/" + std::to_string(cur->ex) + (cur->forked_child ? "'" : "") + ":" + prog_names[cur->prog] + " " + s); }
static void fire(Fault &f) { f.fired = true; W->fired[f.kind]++; if (W->want_events) ev(string("** FAULT ") + fault_names[f.kind] + " " + (f.kind == F_ERRNO || f.kind == F_CLOSE_ERR ? errname(f.param) : std::to_string(f.param).c_str())); }
static Fault *op(OpClass c, const char *path) {
	Proc &p = *cur;
	W->nops++; W->now_us += 1 + (W->tick_max > 1 ? (long)W->misc.below(W->tick_max) : 0);
	if (!W->inherited.empty()) wake_inherited(*W, false);
	if (W->clock_jump_at >= 0 && (long)W->nops == W->clock_jump_at) W->now_us += W->clock_jump;
	if ((long)W->nops > W->step_budget) { W->budget_hit = true; k_die(SIGXCPU, "step budget"); }
	int nth = p.opcount[c]++, any = p.opcount[OP_ANY]++;
	W->evhash = mix(W->evhash, (u64)c * 131 + p.pid); if (path) W->evhash = hash_str(path, W->evhash);
	if (W->want_oplog && !p.forked_child) W->oplog.push_back({p.drv, p.ex, c, nth, (u8)p.prog, path ? path : ""});
	if (W->want_events) ev(string(op_names[c]) + "#" + std::to_string(nth) + " " + (path ? path : ""));
	if (W->switch_pct && (int)W->sched.below(100) < W->switch_pct) to_sched();
	Fault *hit = nullptr;
	for (auto &f : W->faults) if (f.drv == p.drv && f.ex == p.ex && !f.fired) {
		if (f.cls == OP_ANY && f.nth == any && !p.forked_child) { fire(f); if (f.kind == F_KILL) { p.injected_sig = f.param; k_die(f.param, "killed by injected signal"); } if (f.kind == F_EXIT) { p.injected_sig = -1; k_exit(f.param); } }
		else if (f.cls == c && f.nth == nth && (c == OP_EXEC || !p.forked_child) && !hit) hit = &f;
	}
	return hit;
}
bool k_alloc_ok() {
	Proc &p = *cur; int nth = p.opcount[OP_ALLOC]++; W->alloc_total++;
	if (p.alloc_all_fail) { errno = ENOMEM; return false; }
	for (auto &f : W->faults) if (f.cls == OP_ALLOC && f.drv == p.drv && f.ex == p.ex && f.nth == nth && !f.fired && !p.forked_child) { fire(f); if (f.kind == F_ALLOCALL) p.alloc_all_fail = true; errno = ENOMEM; return false; }
	return true;
}
void k_misc(const char *name, const char *arg) { op(OP_MISC, (string(name) + (arg ? string(" ") + arg : "")).c_str()); }
long k_now() { return W->now_us; }
void k_pause() { to_sched(); }

static int newfd(shared_ptr<OpenFile> o, int min = 0) { auto &v = cur->fds; for (size_t i = min; i < v.size(); i++) if (!v[i]) { v[i] = o; return (int)i; } while ((int)v.size() < min) v.push_back(nullptr); v.push_back(o); return (int)v.size() - 1; }
static void touch(const string &s) { W->touched.push_back("d" + std::to_string(cur->drv) + " " + prog_names[cur->prog] + " " + s); }
int k_open(const char *path, int flags, unsigned mode, int hint) {
	bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
	Fault *f = op(hint >= 0 ? (OpClass)hint : wr ? OP_OPENW : OP_OPENR, path);
	if (f) { if (f->kind == F_ERRNO) { fire(*f); return -f->param; } if (f->kind == F_DISKFULL) { fire(*f); W->diskfull_ops = -1; } if (f->kind == F_DISKFULL_TMP) { fire(*f); W->diskfull_ops = f->param; } }
	Look L = walk(*W, cur->cwd, path, !((flags & O_NOFOLLOW) || ((flags & O_CREAT) && (flags & O_EXCL))));
	InodeP i = L.ino; bool existed = !!i && !L.err;
	if (L.err && !(L.err == ENOENT && L.parent && (flags & O_CREAT))) return -L.err;
	if (existed) {
		if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
		if (i->type == I_SYMLINK) return -ELOOP;
		if (i->type == I_DIR) { if (wr) return -EISDIR; }
		else {
			if ((flags & O_ACCMODE) != O_WRONLY && !(i->mode & 0400)) return -EACCES;
			if ((flags & O_ACCMODE) != O_RDONLY && !(i->mode & 0200)) return -EACCES;
			if (i->type == I_PROG && wr) return -ETXTBSY;
		}
		if (flags & O_TRUNC && i->type == I_REG) { i->data.clear(); i->mtime = W->now_us / 1000000; }
	} else {
		if (!(L.parent->mode & 0200)) return -EACCES;
		i = std::make_shared<Inode>(); i->type = I_REG; i->mode = mode & ~cur->um & 07777; i->id = W->next_ino++; i->mtime = W->now_us / 1000000; L.parent->ents[L.name] = i;
	}
	if (wr) { W->creates.push_back({path_norm(cur->cwd, path), i->id, cur->drv, cur->prog, i->mode, !!(flags & O_EXCL), !!(flags & O_TRUNC), existed}); touch(string("open-write ") + path_norm(cur->cwd, path)); }
	else { cur->opened.push_back(path_norm(cur->cwd, path)); for (auto it = W->execs.rbegin(); it != W->execs.rend(); ++it) if (it->drv == cur->drv && it->ex == cur->ex) { it->reads.push_back(path); break; } }
	auto o = std::make_shared<OpenFile>(); o->ino = i; o->flags = flags; o->path = path;
	return newfd(o);
}
static OpenFile *getf(int fd) { if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd]) return nullptr; return cur->fds[fd].get(); }
long k_read(int fd, void *buf, size_t n) {
	OpenFile *o = getf(fd); Fault *f = op(OP_READ, o ? o->path.c_str() : "?"); o = getf(fd); if (!o) return -EBADF;
	if (f && f->kind == F_ERRNO) { fire(*f); return -f->param; }
	if (o->ino->type == I_DIR) return -EISDIR;
	if ((o->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
	if (o->ino->type != I_REG) return 0;
	const string &d = o->ino->data; if (o->off >= d.size()) return 0;
	size_t k = std::min(n, d.size() - o->off);
	if (f && f->kind == F_SHORT && f->param > 0 && (size_t)f->param < k) { fire(*f); k = f->param; }
	else if (W->short_io && k > 1 && W->misc.chance(1, 2)) k = 1 + W->misc.below(k);
	memcpy(buf, d.data() + o->off, k); o->off += k; return (long)k;
}
long k_write(int fd, const void *buf, size_t n) {
	OpenFile *o = getf(fd); Fault *f = op(OP_WRITE, o ? o->path.c_str() : "?"); o = getf(fd); if (!o) return -EBADF;
	if ((o->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
	size_t k = n;
	if (f) switch (f->kind) {
		case F_ERRNO: fire(*f); return -f->param;
		case F_SHORT: if (n > 1) { fire(*f); k = 1 + (size_t)f->param % (n - 1); } break;
		case F_SHORT_ERR: fire(*f); if (n > 1) { k = 1 + (size_t)f->param % (n - 1); W->next_write_fails = true; } else return -ENOSPC; break;
		case F_DISKFULL: fire(*f); W->diskfull_ops = -1; break;
		case F_DISKFULL_TMP: fire(*f); W->diskfull_ops = f->param > 0 ? f->param : 1; break;
	}
	if (k == n && n) {
		if (W->next_write_fails && o->ino->type == I_REG) { W->next_write_fails = false; return -ENOSPC; }
		if (W->diskfull_ops && o->ino->type == I_REG) { if (W->diskfull_ops > 0) W->diskfull_ops--; return -ENOSPC; }
	}
	switch (o->ino->type) {
		case I_FULL: return -ENOSPC;
		case I_NULL: return (long)n;
		case I_DIR: return -EISDIR;
		case I_CAP:
			if (o->ino->full_after >= 0 && (long)(o->ino->data.size() + k) > o->ino->full_after) { if ((long)o->ino->data.size() >= o->ino->full_after) return -(o->ino->cap_errno ? o->ino->cap_errno : ENOSPC); k = o->ino->full_after - o->ino->data.size(); }
			o->ino->data.append((const char *)buf, k); return (long)k;
		default: break;
	}
	string &d = o->ino->data; if (o->flags & O_APPEND) o->off = d.size();
	if (d.size() < o->off + k) d.resize(o->off + k);
	memcpy(&d[o->off], buf, k); o->off += k; o->ino->mtime = W->now_us / 1000000;
	return (long)k;
}
int k_close(int fd) {
	OpenFile *o = getf(fd); Fault *f = op(OP_CLOSE, o ? o->path.c_str() : "?"); if (!getf(fd)) return -EBADF;
	cur->fds[fd] = nullptr; if (f && f->kind == F_CLOSE_ERR) { fire(*f); return -f->param; } return 0;
}
int k_unlink(const char *path, bool dir_ok) {
	Fault *f = op(OP_UNLINK, path); string np = path_norm(cur->cwd, path);
	if (f && f->kind == F_ERRNO) { fire(*f); W->failed_unlinks.push_back(np); return -f->param; }
	Look L = walk(*W, cur->cwd, path, false); if (L.err) return -L.err;
	if (!(L.parent->mode & 0200)) return -EACCES;
	if (L.ino->type == I_DIR) { if (!dir_ok) return -EISDIR; if (!L.ino->ents.empty() || L.ino->host) return -ENOTEMPTY; }
	L.parent->ents.erase(L.name); L.ino->nlink--; touch("unlink " + np); return 0;
}
int k_rmdir(const char *path) { op(OP_UNLINK, path); Look L = walk(*W, cur->cwd, path, false); if (L.err) return -L.err; if (L.ino->type != I_DIR) return -ENOTDIR; if (!L.ino->ents.empty() || L.ino->host) return -ENOTEMPTY; L.parent->ents.erase(L.name); touch("rmdir " + path_norm(cur->cwd, path)); return 0; }
int k_rename(const char *a, const char *b) {
	Fault *f = op(OP_RENAME, a); if (f && f->kind == F_ERRNO) { fire(*f); return -f->param; }
	Look A = walk(*W, cur->cwd, a, false); if (A.err) return -A.err; Look B = walk(*W, cur->cwd, b, false);
	if (B.err && !(B.err == ENOENT && B.parent)) return -B.err;
	if (!(A.parent->mode & 0200) || !(B.parent->mode & 0200)) return -EACCES;
	if (!B.err && B.ino->type == I_DIR && A.ino->type != I_DIR) return -EISDIR;
	if (!B.err && B.ino == A.ino) return 0;
	A.parent->ents.erase(A.name); B.parent->ents[B.name] = A.ino;
	touch("rename " + path_norm(cur->cwd, a) + " -> " + path_norm(cur->cwd, b));
	W->creates.push_back({path_norm(cur->cwd, b), A.ino->id, cur->drv, cur->prog, A.ino->mode, false, true, !B.err}); return 0;
}
int k_link(const char *a, const char *b) { op(OP_RENAME, a); Look A = walk(*W, cur->cwd, a, false); if (A.err) return -A.err; Look B = walk(*W, cur->cwd, b, false); if (!B.err) return -EEXIST; if (!(B.err == ENOENT && B.parent)) return -B.err; if (!(B.parent->mode & 0200)) return -EACCES; B.parent->ents[B.name] = A.ino; A.ino->nlink++; touch("link " + path_norm(cur->cwd, b)); return 0; }
int k_symlink(const char *t, const char *b) { op(OP_RENAME, b); Look B = walk(*W, cur->cwd, b, false); if (!B.err) return -EEXIST; if (!(B.err == ENOENT && B.parent)) return -B.err; auto i = std::make_shared<Inode>(); i->type = I_SYMLINK; i->mode = 0777; i->data = t; i->id = W->next_ino++; B.parent->ents[B.name] = i; touch("symlink " + path_norm(cur->cwd, b)); return 0; }
static void fillst(InodeP i, KStat *s) { s->type = i->type; s->mode = i->mode; s->ino = i->id; s->size = i->data.size(); s->mtime = i->mtime; s->nlink = i->nlink; }
int k_stat(const char *path, KStat *st, bool follow) { Fault *f = op(OP_STAT, path); if (f && f->kind == F_ERRNO) { fire(*f); return -f->param; } Look L = walk(*W, cur->cwd, path, follow); if (L.err) return -L.err; fillst(L.ino, st); return 0; }
int k_fstat(int fd, KStat *st) { OpenFile *o = getf(fd); op(OP_STAT, o ? o->path.c_str() : "?"); if (!o) return -EBADF; fillst(o->ino, st); return 0; }
int k_access(const char *path, int mode) { Fault *f = op(OP_STAT, path); if (f && f->kind == F_ERRNO) { fire(*f); return -f->param; } Look L = walk(*W, cur->cwd, path, true); if (L.err) return -L.err; if ((mode & R_OK) && !(L.ino->mode & 0400)) return -EACCES; if ((mode & W_OK) && !(L.ino->mode & 0200)) return -EACCES; if ((mode & X_OK) && !(L.ino->mode & 0100)) return -EACCES; return 0; }
int k_readlink(const char *path, char *buf, size_t n) { op(OP_STAT, path); Look L = walk(*W, cur->cwd, path, false); if (L.err) return -L.err; if (L.ino->type != I_SYMLINK) return -EINVAL; size_t k = std::min(n, L.ino->data.size()); memcpy(buf, L.ino->data.data(), k); return (int)k; }
int k_mkdir(const char *path, unsigned mode) { op(OP_OPENW, path); Look L = walk(*W, cur->cwd, path, false); if (!L.err) return -EEXIST; if (!(L.err == ENOENT && L.parent)) return -L.err; if (!(L.parent->mode & 0200)) return -EACCES; auto i = std::make_shared<Inode>(); i->type = I_DIR; i->mode = mode & ~cur->um; i->id = W->next_ino++; L.parent->ents[L.name] = i; touch("mkdir " + path_norm(cur->cwd, path)); W->creates.push_back({path_norm(cur->cwd, path), i->id, cur->drv, cur->prog, i->mode, true, false, false}); return 0; }
int k_chmod(const char *path, unsigned mode) { op(OP_MISC, path); Look L = walk(*W, cur->cwd, path, true); if (L.err) return -L.err; L.ino->mode = mode & 07777; touch("chmod " + path_norm(cur->cwd, path)); return 0; }
int k_fchmod(int fd, unsigned mode) { OpenFile *o = getf(fd); op(OP_MISC, "fchmod"); if (!o) return -EBADF; o->ino->mode = mode & 07777; return 0; }
int k_trunc(const char *path, int fd, long len) { op(OP_WRITE, path ? path : "ftruncate"); InodeP i; if (path) { Look L = walk(*W, cur->cwd, path, true); if (L.err) return -L.err; i = L.ino; } else { OpenFile *o = getf(fd); if (!o) return -EBADF; i = o->ino; } if (i->type != I_REG) return -EINVAL; i->data.resize(len); return 0; }
int k_chdir(const char *path) { op(OP_MISC, path); Look L = walk(*W, cur->cwd, path, true); if (L.err) return -L.err; if (L.ino->type != I_DIR) return -ENOTDIR; cur->cwd = path_norm(cur->cwd, path); return 0; }
unsigned k_umask(unsigned m) { unsigned o = cur->um; cur->um = m & 0777; return o; }
int k_dup(int fd, int min) { if (!getf(fd)) return -EBADF; return newfd(cur->fds[fd], min); }
int k_dup2(int a, int b) { if (!getf(a)) return -EBADF; while ((int)cur->fds.size() <= b) cur->fds.push_back(nullptr); cur->fds[b] = cur->fds[a]; return b; }
long k_lseek(int fd, long off, int wh) { OpenFile *o = getf(fd); if (!o) return -EBADF; if (o->ino->type != I_REG) return -ESPIPE; long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)o->off : (long)o->ino->data.size(); if (base + off < 0) return -EINVAL; o->off = base + off; return (long)o->off; }

static volatile int fork_req; static ProcP fork_child;
int k_fork() {
	Fault *f = op(OP_FORK, nullptr); if (f && f->kind == F_ERRNO) { fire(*f); return -f->param; }
	// The child is an exact duplicate of this process' memory: registers are saved on the
	// stack by ctx_swtch, then every region is copied.
	auto c = std::make_shared<Proc>(); { Proc *raw = c.get(); *raw = *cur; }
	c->pid = W->next_pid; W->next_pid += 1 + (W->hostile ? (int)W->misc.below(50) : 0); c->ppid = cur->pid; c->forked_child = true; c->saved.clear();
	fork_child = c; c.reset();
	slots[cur->slot].refs++;
	cur->retval = fork_child->pid; fork_child->retval = 0;
	cur->saved_errno = errno;
	extern void fork_switch(void); fork_switch();
	return (int)cur->retval;
}
static void fork_complete() {
	// runs on the scheduler stack: cur->sp is valid now
	Proc &p = *cur, &c = *fork_child; c.sp = p.sp; c.saved_errno = p.saved_errno; c.regions = p.regions;
	for (Region *r : p.regions) { char *lo, *hi; extents(p, r, lo, hi); c.saved.emplace_back(r, string(lo, hi - lo)); }
	W->procs.push_back(fork_child); fork_child.reset();
}
void fork_switch() { fork_req = 1; in_sched = true;
	// emulate to_sched but let the hook duplicate first
	static char fstack[65536]; static void *fsp; (void)fstack; (void)fsp;
	extern void fork_tramp_switch(); fork_tramp_switch(); in_sched = false; errno = cur->saved_errno; }
static char tramp_stack[128 << 10]; static void *tramp_sp;
static void tramp_main() { for (;;) { fork_complete(); ctx_swtch(&tramp_sp, sched_sp); } }
void fork_tramp_switch() {
	if (!tramp_sp) { void **sp = (void **)(((uintptr_t)tramp_stack + sizeof tramp_stack - 64) & ~15ul); *--sp = nullptr; *--sp = (void *)tramp_main; for (int i = 0; i < 6; i++) *--sp = nullptr; tramp_sp = sp; }
	ctx_swtch(&cur->sp, tramp_sp);
}

static int find_prog(const string &path, int *prog) { Look L = walk(*W, cur->cwd, path, true); if (L.err) return L.err; if (L.ino->type == I_DIR) return EACCES; if (!(L.ino->mode & 0100)) return EACCES; if (L.ino->type != I_PROG) return ENOEXEC; *prog = L.ino->prog; return 0; }
int k_exec(const string &path, const vector<string> &argv, const vector<string> &env) {
	Fault *f = op(OP_EXEC, path.c_str()); if (f && f->kind == F_ERRNO) { fire(*f); return -f->param; }
	int prog; int e = find_prog(path, &prog); if (e) return -e;
	{ Proc &p = *cur;
	for (auto &o : p.fds) if (o && (o->flags & O_CLOEXEC)) o = nullptr;
	p.argv = argv; p.env = env; p.exec_prog = prog; }
	// abandon the current stack; the scheduler installs the new image
	void *junk; in_sched = true; ctx_swtch(&junk, sched_sp); abort();
}
static void note_end(int status) {
	Proc &p = *cur; for (auto it = W->execs.rbegin(); it != W->execs.rend(); ++it) if (it->drv == p.drv && it->ex == p.ex) { if (!p.forked_child) { it->ended = true; it->status = status; it->seq1 = W->nops; it->allocs = p.opcount[OP_ALLOC]; it->anyops = p.opcount[OP_ANY]; it->death = p.death; it->by_fault = p.injected_sig != 0; it->memfault = p.crashed; } break; }
	if (p.prog <= PR_CC1) { string h = p.crashed && p.heap.corrupt.empty() ? "" : heap_check(p); if (!h.empty()) W->memerrors.push_back(string(prog_names[p.prog]) + ": " + h); if (p.crashed) W->memerrors.push_back(string(prog_names[p.prog]) + ": " + p.death); }
	W->evhash = mix(W->evhash, 7777 + status);
	if (W->want_events) ev("ends status " + std::to_string(status) + " " + p.death);
}
static void finish(int status) {
	note_end(status); Proc &p = *cur; p.status = status; p.fds.clear();
	for (auto &c : W->procs) if (c->ppid == p.pid) { c->ppid = 1; if (c->st == P_ZOMBIE) c->st = P_DEAD; }
	if (W->drv_pid.count(p.drv) && W->drv_pid[p.drv] == p.pid) { W->drv_status[p.drv] = status; p.st = P_DEAD; }
	else { ProcP par = find_pid(p.ppid); if (!par || p.ppid == 1) p.st = P_DEAD; else { p.st = P_ZOMBIE; if (par->st == P_WAIT) par->st = P_RUN; } }
	in_sched = true; void *junk; ctx_swtch(&junk, sched_sp); abort();
}
void k_exit(int status) { finish((status & 0xff) << 8); abort(); }
void k_die(int sig, const char *why) { cur->death = why; if (sig == SIGABRT && cur->injected_sig == 0 && !cur->crashed && !cur->heap.corrupt.empty()) {} finish(sig & 0x7f); abort(); }
int k_wait(int pid, int *st, int options) {
	Fault *f = op(OP_WAIT, nullptr); if (f && f->kind == F_ERRNO) { fire(*f); return -f->param; }
	for (;;) {
		int have = 0; vector<Proc *> z;
		for (auto &c : W->procs) if (c->ppid == cur->pid && c->st != P_DEAD && (pid <= 0 || c->pid == pid)) { have++; if (c->st == P_ZOMBIE) z.push_back(c.get()); }
		if (z.size()) { Proc *c = z[z.size() > 1 ? W->sched.below(z.size()) : 0]; c->st = P_DEAD; if (st) *st = c->status; return c->pid; }
		if (!have) return -ECHILD;
		if (options & WNOHANG) return 0;
		cur->st = P_WAIT; to_sched();
	}
}
int k_kill(int pid, int sig) { op(OP_MISC, "kill"); if (sig == 0) return 0; if (pid == cur->pid || pid == 0) { k_die(sig, "raise"); } ProcP t = find_pid(pid); if (!t) return -ESRCH; touch("kill pid"); t->st = P_ZOMBIE; t->status = sig; slot_release(*t); return 0; }
