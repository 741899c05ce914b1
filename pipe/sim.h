// Deterministic simulator for the ucc compile pipeline: kernel interface.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
using std::string; using std::vector; using std::shared_ptr; using std::map; using std::set;

struct Rng {
	u64 s;
	explicit Rng(u64 seed = 1) : s(seed) { next(); next(); }
	u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
	bool chance(int num, int den) { return (int)below(den) < num; }
	template<class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
};
u64 mix(u64 a, u64 b);
u64 hash_str(const string &s, u64 h = 0xcbf29ce484222325ull);

// ---------------------------------------------------------------- VFS
enum InodeType { I_DIR, I_REG, I_NULL, I_FULL, I_CAP, I_PROG, I_SYMLINK };
struct Inode {
	InodeType type = I_REG;
	unsigned mode = 0644;
	string data;           // regular / capture / symlink target
	int prog = -1;
	map<string, shared_ptr<Inode>> ents;
	long mtime = 0;
	u64 id = 0;
	int nlink = 1;
	bool host = false;     // lazily mirrored host directory
	string hostpath;
	long full_after = -1;  // capture: writes beyond this many bytes fail with ENOSPC
	int cap_errno = 0;
};
typedef shared_ptr<Inode> InodeP;
struct OpenFile { InodeP ino; size_t off = 0; int flags = 0; string path; };

// ---------------------------------------------------------------- faults
enum OpClass { OP_OPENR, OP_OPENW, OP_READ, OP_WRITE, OP_CLOSE, OP_UNLINK, OP_STAT, OP_FORK, OP_EXEC, OP_WAIT, OP_MKSTEMP, OP_RENAME, OP_MISC, OP_ALLOC, OP_ANY, OP_NCLASS };
extern const char *const op_names[];
enum FaultKind {
	F_ERRNO,          // fail with errno param
	F_SHORT,          // short transfer (param bytes)
	F_SHORT_ERR,      // short transfer, then the next write on any file fails with ENOSPC
	F_DISKFULL,       // from here on every write fails with ENOSPC
	F_DISKFULL_TMP,   // as F_DISKFULL for param operations, then space is back
	F_CLOSE_ERR,
	F_KILL,           // process dies by signal param
	F_EXIT,           // process exits with status param (tools only)
	F_ALLOC1,         // one allocation fails
	F_ALLOCALL,       // every allocation from here fails
	F_NKINDS
};
extern const char *const fault_names[];
struct Fault {
	int drv = 0;      // driver (top-level process) index
	int ex = 0;       // ordinal of program execution below that driver (0 = the driver itself)
	int cls = 0;      // OpClass
	int nth = 0;      // occurrence index of that class in that program execution
	int kind = 0;
	int param = 0;
	bool fired = false;
};

struct OpRec { int drv, ex, cls, nth; u8 prog; string path; };

// ---------------------------------------------------------------- processes
enum ProgId { PR_UCC, PR_CPP, PR_CC1, PR_AS, PR_LD, PR_SH, PR_CAT, PR_CP, PR_MV, PR_RM, PR_WRAP, PR_TRUE, PR_FALSE, PR_DSYM, PR_N };
extern const char *const prog_names[];

struct Region { char *base; size_t size; struct Proc *owner = nullptr; size_t used_lo = 0, used_hi = 0; };

struct SFILE;
struct PLibc {            // per-process libc state, lives in the process's own memory
	SFILE *files;
	SFILE *in, *out, *err;
	void (*atexit_fn[64])(void);
	int natexit;
	char **environ_;
	char tmbuf[64];
	char ctimebuf[64];
	unsigned rand_state;
	char *strtok_save;
};

struct HeapBlk { u32 size; u32 magic; u64 pad; };
struct Heap {
	struct Sub { char *lo, *hi, *cur; bool down; };
	Sub sub[4]; int nsub = 0;
	map<u32, vector<HeapBlk *>> freel;
	int reuse = 0;        // 0 never, 1 lifo, 2 fifo, 3 random
	Rng rng{1};
	bool garbage = true;
	u64 live = 0, count = 0, peak = 0, total = 0;
	string corrupt;       // first corruption noticed
};

enum PState { P_RUN, P_WAIT, P_ZOMBIE, P_DEAD, P_ELSEWHERE };
struct Proc {
	int pid = 0, ppid = 0, prog = 0;
	int drv = 0, ex = 0;
	PState st = P_RUN;
	void *sp = nullptr;
	int slot = -1;               // memory slot it runs in
	char *stk_lo = nullptr, *stk_hi = nullptr;
	bool has_image = false;
	vector<std::pair<Region *, string>> saved; // regions not currently loaded
	vector<Region *> regions;
	vector<shared_ptr<OpenFile>> fds;
	string cwd = "/";
	unsigned um = 022;
	vector<string> argv, env;
	Heap heap;
	PLibc *plibc = nullptr;
	int saved_errno = 0;
	int status = 0;              // wait status
	long retval = 0;
	int opcount[OP_NCLASS] = {0};
	bool alloc_all_fail = false;
	int wait_pid = -1;
	bool forked_child = false;   // forked, not yet exec'd
	string death;                // description for crash
	int sigign = 0;
	bool crashed = false;        // died by a genuine memory fault/abort, not injected
	int injected_sig = 0;
	vector<int> *stub_exit = nullptr;
	u64 steps = 0;
	int exec_prog = -1;
	vector<string> opened;       // paths opened for reading
};
typedef shared_ptr<Proc> ProcP;

struct ExecRec { int drv, ex, prog; vector<string> argv; int status; string death; bool ended; bool by_fault; vector<string> reads; unsigned um; int memfault; u64 seq0 = 0, seq1 = 0; int allocs = 0, anyops = 0; int pid = 0, ppid = 0; string cwd; };

struct CreateRec { string path; u64 ino; int drv; int prog; unsigned mode; bool excl; bool trunc; bool existed; };

struct LayoutCfg {               // memory & environment nuisance parameters
	u64 seed = 0;
	bool hostile = false;        // randomise; otherwise canonical
};

struct World {
	InodeP root;
	u64 next_ino = 1;
	long now_us = 0;             // simulated wall clock
	int next_pid = 100;
	vector<ProcP> procs;
	Rng sched{1}, layout{1}, misc{1};
	bool hostile = false;        // hostile memory layout
	int switch_pct = 0;          // chance (percent) of a context switch at each operation
	int tick_max = 1;            // clock advance per op: 1..tick_max us
	bool short_io = false;       // randomly short reads
	vector<Fault> faults;
	int diskfull_ops = 0;        // >0: remaining failing writes; -1: forever
	bool next_write_fails = false;
	vector<OpRec> oplog; bool want_oplog = false;
	vector<ExecRec> execs;
	vector<CreateRec> creates;
	vector<string> touched;      // "op path" of mutating operations
	vector<string> events; bool want_events = false;
	map<int,int> next_ex;        // per driver
	map<int,int> drv_status;     // exit/wait status of drivers
	map<int,int> drv_pid;
	u64 evhash = 0x1234;         // hash over all operations: fingerprint of the execution
	u64 nops = 0, nswitch = 0;
	u64 fired[F_NKINDS] = {0};
	u64 alloc_total = 0;
	bool stub_leaves_partial = false;
	string bug;                  // harness trouble
	long step_budget = 20000000;
	bool budget_hit = false;
	vector<string> memerrors;    // memory errors seen in real programs
	vector<string> escaped;      // unlink etc outside
	struct Inh { int drv, status; long at; int pid; };
	vector<Inh> inherited;       // children a driver process inherits across exec; exit after `at` operations
	struct Clk { int drv, ex; long us; };
	vector<Clk> clock_reads;
	long clock_jump_at = -1, clock_jump = 0; // clock steps by clock_jump us at operation clock_jump_at
	vector<string> failed_unlinks;
	bool libc_sorted = false;
};
extern World *W;
extern ProcP cur;

// VFS helpers (harness side)
InodeP vfs_mkdirs(World &w, const string &path, unsigned mode = 0755);
InodeP vfs_put(World &w, const string &path, const string &data, unsigned mode = 0644);
InodeP vfs_node(World &w, const string &path, InodeType t, unsigned mode = 0666);
InodeP vfs_symlink(World &w, const string &path, const string &target);
InodeP vfs_hardlink(World &w, const string &path, const string &target);
InodeP vfs_lookup(World &w, const string &path, bool follow = true);
InodeP vfs_hostdir(World &w, const string &path, const string &hostpath); // read-only mirror
void vfs_list(World &w, map<string, InodeP> &out);  // all non-host entries, full path -> inode
string path_norm(const string &cwd, const string &p);

// run
int world_spawn(World &w, const vector<string> &argv, const vector<string> &env, const string &cwd, unsigned um,
	InodeP in, InodeP out, InodeP err);  // returns driver index
void world_run(World &w);

// kernel calls used by libc/stubs; return -errno on failure
int k_open(const char *path, int flags, unsigned mode, int cls_hint = -1);
long k_read(int fd, void *buf, size_t n);
long k_write(int fd, const void *buf, size_t n);
int k_close(int fd);
int k_unlink(const char *path, bool dir_ok);
int k_rmdir(const char *path);
int k_rename(const char *a, const char *b);
int k_link(const char *a, const char *b);
int k_symlink(const char *a, const char *b);
struct KStat { InodeType type; unsigned mode; u64 ino; u64 size; long mtime; int nlink; };
int k_stat(const char *path, KStat *st, bool follow);
int k_fstat(int fd, KStat *st);
int k_access(const char *path, int mode);
int k_readlink(const char *path, char *buf, size_t n);
int k_mkdir(const char *path, unsigned mode);
int k_chmod(const char *path, unsigned mode);
int k_fchmod(int fd, unsigned mode);
int k_trunc(const char *path, int fd, long len);
int k_chdir(const char *path);
unsigned k_umask(unsigned m);
int k_dup(int fd, int min);
int k_dup2(int a, int b);
long k_lseek(int fd, long off, int wh);
int k_fork(void);
int k_exec(const string &path, const vector<string> &argv, const vector<string> &env);
int k_wait(int pid, int *st, int options);
int k_kill(int pid, int sig);
void k_exit(int status) __attribute__((noreturn));
void k_die(int sig, const char *why) __attribute__((noreturn));
bool k_alloc_ok(void);
void k_misc(const char *name, const char *arg);
void k_pause(void);
long k_now(void);

// process memory
void *heap_alloc(size_t n, bool zero);
void heap_free(void *p);
void *heap_realloc(void *p, size_t n);
size_t heap_size(void *p);
void *heap_memalign(size_t al, size_t n);
string heap_check(Proc &p);

int stub_main(int prog);
void libc_proc_start(void);
void libc_flush_all(void);
void libc_exit(int code) __attribute__((noreturn));
extern "C" void *sim_stdin, *sim_stdout, *sim_stderr; extern "C" char **sim_environ;
void libc_swap_in(Proc &p);

struct Image { const char *name; char *lo, *hi; string pristine; int (*main)(int, char **, char **); };
extern Image images[3];
void sim_init();
const char *errname(int e);
