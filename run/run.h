// Run-time simulator: executes code compiled by the real cpp/cc1/as one instruction at a time
// (trap flag), under a seeded environment: interrupts, hostile callers and callees, a device,
// guard overwrites, thread switches.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t s64;
using std::string; using std::vector; using std::map; using std::set;
struct Rng {
	u64 s; explicit Rng(u64 seed = 1) : s(seed) { next(); next(); }
	u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
	bool chance(int num, int den) { return (int)below(den) < num; }
};
inline u64 mix(u64 a, u64 b) { u64 z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline u64 hash_str(const string &s, u64 h = 0xcbf29ce484222325ull) { for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull; return h; }

// ---- signatures.  ret: v void, b c C s S i I l L f d, or M<size> (memory), A<size> (registers)
// params: the same scalar letters, p<size> pointer to an object of that many bytes
struct Par { char t; int size; char e = 0; int st = -1; };
struct Sig { string name; char ret; int retsize; vector<Par> par; bool variadic; bool prot; };   // prot: -fstack-protector must protect it
struct Prog { string text; vector<Sig> fns; vector<Sig> exts; vector<string> flags; bool has_dev; };
string sig_str(const Sig &); bool sig_parse(const string &, Sig &);

// ---- machine
enum { ADDR_CODE = 0x20000000, CODE_SZ = 0x100000, ADDR_GATE = 0x20100000, GATE_SZ = 0x10000, ADDR_DATA = 0x20200000, DATA_SZ = 0x100000, ADDR_STK = 0x21000000, STK_STEP = 0x100000, STK_SZ = 0x40000, NSTK = 4, ADDR_DEV = 0x23000000, DEV_SZ = 0x1000, ADDR_OBJ = 0x24000000, NOBJ = 8, ADDR_SHR = 0x24100000, SHR_SZ = 0x2000 };
enum EndKind { E_OK, E_BUDGET, E_SIGNAL, E_WILD, E_CHKFAIL, E_ABORT, E_BADARG };
struct Call { int fn; vector<u64> args; };      // args: raw 64-bit images (integers or float bits)
struct DevEv { bool write; u32 off; u8 width; u64 val; bool operator==(const DevEv &o) const { return write == o.write && off == o.off && width == o.width && val == o.val; } bool operator<(const DevEv &o) const { return std::make_pair(std::make_pair(off, write), std::make_pair(width, val)) < std::make_pair(std::make_pair(o.off, o.write), std::make_pair(o.width, o.val)); } };
struct Mark { u64 id, iter, rsp; size_t ndev; };
struct Guard { int fn; u64 slot, entry, s_store, s_check, s_ret; };
struct Policy {
	u64 seed = 0;
	bool step = true;             // single-step (false: run natively, only gates and faults trap)
	// P13: asynchronous interrupts
	int rz = -1;                  // -1 none, 0 or 128: clobber everything below rsp-rz ...
	u64 ilo = 0, ihi = ~0ull;     // ... before the instructions numbered [ilo, ihi)
	int iden = 1;                 // ... each with chance 1/iden
	int depth = 512;
	// P14: hostile caller and callees, for boundary events numbered [blo, bhi)
	bool regs = false; u64 blo = 0, bhi = ~0ull;
	unsigned what = ~0u;          // bit set of hostile kinds (H_*)
	// P15
	bool inv = false; int stackoff = 0;
	// fill of fresh stack and registers
	u64 fill = 0;
	// P17
	u64 canary = 0; long inject = -1; u64 inj_slot = 0, inj_xor = 0; bool watch_guard = false;
	// P18
	int nthreads = 1; int swden = 0; u64 swlo = 0, swhi = ~0ull;
	vector<u64> sigat;            // steps at which a handler re-enters
	u64 budget = 60000;
	bool devhostile = false;
	int objmode = 0;              // where objects passed by pointer lie: 0 apart, 1 each ends at an unmapped page (P15), 2 all threads' side by side (P18)
};
enum { H_CALLER_SAVED = 1, H_NARROW = 2, H_FLAGS = 4, H_STACKBELOW = 8, H_ARGMEM = 16, H_XMM = 32, H_ENTRY = 64, H_ALL = 127 };
struct ThreadRes { EndKind end = E_OK; int sig = 0; u64 ret[4] = {0, 0, 0, 0}; u64 log = 0; u64 nlog = 0; u64 where = 0; bool done = false; u64 objs = 0; };
struct Result {
	vector<ThreadRes> th, hres; u64 mem = 0; u64 steps = 0, nbound = 0, ncall = 0, nclob = 0, nhost = 0, nswitch = 0, nreent = 0, ninj = 0; u64 iphash = 0;
	vector<string> inv; vector<DevEv> dev; vector<Mark> marks; vector<Guard> guards; vector<string> unguarded; u64 lowsp = ~0ull; vector<string> logv; bool guardhit = false; string injwhere, splost; u64 inj_fn = 0; bool chk_after_ret = false;
	vector<u64> switches; size_t ndevmax = 0; u64 crc() const;
};
struct Machine;
bool mach_load(const string &obj, const Prog &p, string *err);   // loads an object file into the fixed regions
void mach_init();
Result mach_run(const Prog &p, const vector<Call> &threads, const vector<Call> &handlers, const Policy &pol, bool keeplog = false);
string mach_sym(u64 addr);
extern u64 g_steps_total;
// ---- generator and properties
bool gen_prog(const string &prop, u64 seed, Prog &p, vector<vector<Call>> &calls);
vector<u64> gen_args(Rng &r, const Sig &s);
