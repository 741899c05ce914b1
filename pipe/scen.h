// Scenarios: explicit, serialisable descriptions of one simulated history.
#pragma once
#include "sim.h"
struct FileSpec { string path; int type = I_REG; unsigned mode = 0644; long mtime = 1700000000; string data; };
struct Input { string path, x; };
enum OutKind { OUT_CAP, OUT_FULL, OUT_LIMIT, OUT_NULL };
struct Inv {                       // one driver invocation
	int mode = 'c';                // E S c l(ink) y(syntax-only) M(-MM)
	vector<Input> in;
	string out; bool joined = false;
	vector<string> flags;
	bool save_temps = false, verbose = false, timed = false, optafter = false, md = false;
	string mf, wrapper;
	string cwd = "/w"; unsigned um = 022;
	string sin; int outk = OUT_CAP; long outn = 0;
};
struct Nuis {                      // nuisance parameters: must not matter
	u64 seed = 1; bool hostile = false, short_io = false, leave_partial = false; int switch_pct = 0, tick_max = 1;
	long now_us = 1800000000000000l; int pid0 = 100; string tmpdir = ""; vector<string> env; long jump_at = -1, jump = 0;
};
struct Phase { vector<FileSpec> edits; vector<string> removes; vector<Inv> inv; vector<Fault> faults; vector<World::Inh> inh; Nuis n; };
struct Scenario {
	string prop, kind; u64 seed = 0; vector<string> env; vector<FileSpec> files; vector<Phase> ph; vector<string> notes;
};
struct InvRes { int status = -1; string out, err; };
struct Snap { u64 id; int type; unsigned mode; string data; long mtime; };
typedef map<string, Snap> SnapMap;
struct PhaseRes { SnapMap before, after; vector<InvRes> inv; World w; };
struct Violation { string cls, msg; };
struct Output { string path; bool is_stdout = false; vector<int> inputs; };  // which inputs it is made of

string ser(const Scenario &s); bool deser(const string &t, Scenario &s, string *err);
vector<string> build_args(const Inv &v);
vector<Output> outputs_of(const Inv &v);
string dep_of(const Inv &v);
set<string> temps_of(const Inv &v);
string describe(const Scenario &s);

struct Runner {                    // owns the file system across phases
	InodeP root; u64 next_ino = 1; Scenario *s = nullptr;
	void begin(Scenario &sc);
	void run(const Phase &p, PhaseRes &r, bool oplog = false, bool events = false);
};
struct Ref { int status; vector<string> data; string err; };   // per output
void base_world(World &w, const vector<FileSpec> &files);
extern string g_inc, g_corpus;
void set_cfg(const string &inc, const string &corpus);

bool gen(const string &prop, u64 seed, Scenario &s);
vector<Violation> check(Scenario &s, bool events, vector<string> *trace);
struct Stats {
	u64 sims = 0, worlds = 0, nontrivial = 0, ops = 0; double simsec = 0; u64 fired[F_NKINDS] = {0}; map<string, u64> cnt; set<u64> fps; u64 switches = 0; u64 skipped = 0;
};
extern Stats G; extern bool g_quiet; // reference runs do not count
