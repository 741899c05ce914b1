// Command line of the pipeline simulator.
//   uccsim run PROP FIRST STEP COUNT SECONDS OUT    search seeds FIRST, FIRST+STEP, ...
//   uccsim replay FILE                              re-execute a replay file (exit 1 if it still violates)
//   uccsim show PROP SEED                           print the scenario of a seed and its trace
//   uccsim hash PROP SEED                           print the execution hash of a seed
#include "scen.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <algorithm>

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static double cpu() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static string slurp(const char *p) { std::ifstream f(p, std::ios::binary); return string((std::istreambuf_iterator<char>(f)), {}); }
static string jesc(const string &s) { string o = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
static bool fails(Scenario &s, const string &cls, string *msg) { Scenario c = s; for (auto &p : c.ph) for (auto &f : p.faults) f.fired = false; auto v = check(c, false, nullptr); for (auto &x : v) if (x.cls == cls) { if (msg) *msg = x.msg; return true; } return false; }

// Greedy minimisation: fewer phases, faults, invocations, inputs, flags, nuisances and lines.
static void minimise(Scenario &s, const string &cls, double secs) {
	double end = cpu() + secs; bool p6 = s.prop == "P06";
	auto tryit = [&](const Scenario &c) { if (cpu() > end) return false; Scenario t = c; if (!fails(t, cls, nullptr)) return false; s = c; return true; };
	for (bool again = true; again && cpu() < end;) {
		again = false;
		if (!p6) for (size_t i = s.ph.size(); i-- > 0 && s.ph.size() > 1;) { Scenario c = s; auto ed = c.ph[i].edits; c.ph.erase(c.ph.begin() + i); if (i < c.ph.size()) c.ph[i].edits.insert(c.ph[i].edits.begin(), ed.begin(), ed.end()); if (tryit(c)) again = true; }
		for (size_t p = 0; p < s.ph.size(); p++) {
			for (size_t i = s.ph[p].faults.size(); i-- > 0;) { Scenario c = s; c.ph[p].faults.erase(c.ph[p].faults.begin() + i); if (tryit(c)) again = true; }
			for (size_t i = s.ph[p].inh.size(); i-- > 0;) { Scenario c = s; c.ph[p].inh.erase(c.ph[p].inh.begin() + i); if (tryit(c)) again = true; }
			for (size_t i = s.ph[p].edits.size(); i-- > 0;) { Scenario c = s; c.ph[p].edits.erase(c.ph[p].edits.begin() + i); if (tryit(c)) again = true; }
			for (size_t i = s.ph[p].inv.size(); i-- > 0 && s.ph[p].inv.size() > 1;) { Scenario c = s; c.ph[p].inv.erase(c.ph[p].inv.begin() + i); vector<Fault> f; for (auto x : c.ph[p].faults) { if (x.drv == (int)i) continue; if (x.drv > (int)i) x.drv--; f.push_back(x); } c.ph[p].faults = f; if (tryit(c)) again = true; }
			for (size_t v = 0; v < s.ph[p].inv.size(); v++) {
				auto edit = [&](std::function<bool(Inv &)> f) { Scenario c = s; if (!f(c.ph[p].inv[v])) return; if (p6) { Inv k = c.ph[p].inv[v]; for (auto &q : c.ph) q.inv[v] = k; } if (tryit(c)) again = true; };
				for (size_t i = s.ph[p].inv[v].in.size(); i-- > 0 && s.ph[p].inv[v].in.size() > 1;) edit([&](Inv &x) { if (i >= x.in.size()) return false; x.in.erase(x.in.begin() + i); return true; });
				for (size_t i = s.ph[p].inv[v].flags.size(); i-- > 0;) edit([&](Inv &x) { if (i >= x.flags.size()) return false; if (i && x.flags[i - 1][0] == '-' && x.flags[i][0] != '-') { x.flags.erase(x.flags.begin() + i - 1, x.flags.begin() + i + 1); return true; } if (x.flags[i] == "-isystem" || x.flags[i] == "-target") return false; x.flags.erase(x.flags.begin() + i); return true; });
				edit([](Inv &x) { bool r = x.save_temps; x.save_temps = false; return r; }); edit([](Inv &x) { bool r = x.verbose; x.verbose = false; return r; }); edit([](Inv &x) { bool r = x.timed; x.timed = false; return r; });
				edit([](Inv &x) { bool r = x.optafter; x.optafter = false; return r; }); edit([](Inv &x) { bool r = x.joined; x.joined = false; return r; }); edit([](Inv &x) { bool r = !x.wrapper.empty(); x.wrapper = ""; return r; });
				edit([](Inv &x) { bool r = x.um != 022; x.um = 022; return r; }); edit([](Inv &x) { bool r = x.md; x.md = false; x.mf = ""; return r; }); edit([](Inv &x) { bool r = !x.out.empty(); x.out = ""; return r; });
			}
			auto nu = [&](std::function<bool(Nuis &)> f) { Scenario c = s; if (!f(c.ph[p].n)) return; if (tryit(c)) again = true; };
			nu([](Nuis &n) { bool r = n.hostile; n.hostile = false; return r; }); nu([](Nuis &n) { bool r = n.short_io; n.short_io = false; return r; }); nu([](Nuis &n) { bool r = n.leave_partial; n.leave_partial = false; return r; });
			nu([](Nuis &n) { bool r = n.switch_pct; n.switch_pct = 0; return r; }); nu([](Nuis &n) { bool r = n.tick_max > 1; n.tick_max = 1; return r; }); nu([](Nuis &n) { bool r = !n.tmpdir.empty(); n.tmpdir = ""; return r; }); nu([](Nuis &n) { bool r = n.jump_at >= 0; n.jump_at = -1; return r; });
			for (size_t i = s.ph[p].n.env.size(); i-- > 0;) nu([&](Nuis &n) { n.env.erase(n.env.begin() + i); return true; });
		}
		for (size_t i = s.files.size(); i-- > 0;) { if (s.files[i].type == I_DIR) continue; Scenario c = s; c.files.erase(c.files.begin() + i); if (tryit(c)) again = true; }
		for (size_t i = 0; i < s.files.size(); i++) { // lines
			if (s.files[i].type != I_REG) continue;
			for (int chunk = 64; chunk >= 1 && cpu() < end; chunk /= 4) {
				vector<string> L; { string cur; for (char ch : s.files[i].data) { cur += ch; if (ch == '\n') { L.push_back(cur); cur.clear(); } } if (cur.size()) L.push_back(cur); }
				for (size_t a = 0; a < L.size() && cpu() < end;) { vector<string> M(L.begin(), L.begin() + a); size_t b = std::min(L.size(), a + chunk); M.insert(M.end(), L.begin() + b, L.end()); Scenario c = s; c.files[i].data.clear(); for (auto &l : M) c.files[i].data += l; if (c.files[i].data.size() < s.files[i].data.size() && tryit(c)) { L = M; again = true; } else a += chunk; }
			}
		}
	}
}
static u64 exec_hash(const string &prop, u64 seed) { Scenario s; if (!gen(prop, seed, s)) return 0; set<u64> keep; keep.swap(G.fps); vector<string> tr; auto v = check(s, true, &tr); u64 h = 99; for (auto &t : tr) h = hash_str(t, h); for (auto f : G.fps) h = mix(h, f); for (auto &x : v) h = hash_str(x.msg, h); keep.insert(G.fps.begin(), G.fps.end()); G.fps.swap(keep); return h; }

int main(int argc, char **argv) {
	if (argc < 3) return 2;
	const char *root = getenv("UCCSIM_INC"), *corp = getenv("UCCSIM_CORPUS"); set_cfg(root ? root : "/repo/src/include", corp ? corp : "/verif/corpus/cases.txt");
	sim_init(); string cmd = argv[1];
	if (cmd == "replay") {
		string t = slurp(argv[2]), err; Scenario s; if (!deser(t, s, &err)) { fprintf(stderr, "bad replay file: %s\n", err.c_str()); return 2; }
		vector<string> tr; u64 f0[F_NKINDS]; memcpy(f0, G.fired, sizeof f0); auto v = check(s, true, &tr); u64 h = 99; for (auto &x : tr) h = hash_str(x, h); bool quiet = argc > 3;
		if (!quiet) { printf("%s\n", describe(s).c_str()); for (auto &x : tr) printf("  %s\n", x.c_str()); }
		for (auto &x : v) printf("violates %s [%s]: %s\n", s.prop.c_str(), x.cls.c_str(), x.msg.c_str()); printf("trace-hash %llu\n", (unsigned long long)h); return v.empty() ? 0 : 1;
	}
	string prop = argv[2];
	if (cmd == "show") { Scenario s; if (!gen(prop, strtoull(argv[3], nullptr, 10), s)) { printf("no scenario\n"); return 0; } printf("%s\n%s\n", ser(s).c_str(), describe(s).c_str()); vector<string> tr; auto v = check(s, true, &tr); if (argc > 4) for (auto &x : tr) printf("  %s\n", x.c_str()); for (auto &x : v) printf("[%s] %s\n", x.cls.c_str(), x.msg.c_str()); return !v.empty(); }
	if (cmd == "hash") { for (int i = 3; i < argc; i++) printf("%llu\n", (unsigned long long)exec_hash(prop, strtoull(argv[i], nullptr, 10))); return 0; }
	if (cmd != "run" || argc < 8) return 2;
	u64 seed = strtoull(argv[3], nullptr, 10), step = strtoull(argv[4], nullptr, 10), count = strtoull(argv[5], nullptr, 10); double secs = atof(argv[6]); string out = argv[7]; int maxv = argc > 8 ? atoi(argv[8]) : 6;
	double t0 = now(); u64 done = 0, none = 0; map<string, int> seen; std::ostringstream viol; int nv = 0; vector<string> samples; bool nondet = false; u64 last = seed, replayed = 0;
	std::ofstream hf(out + ".seeds"); 
	for (u64 i = 0; i < count && now() - t0 < secs && nv < maxv; i++, seed += step) {
		last = seed; Scenario s; if (!gen(prop, seed, s)) { none++; continue; } done++; G.sims++;
		Scenario s0 = s; auto v = check(s, false, nullptr);
		if (samples.size() < 3 && i % 37 == 0) samples.push_back("seed " + std::to_string(seed) + ": " + describe(s0));
		if (i % 97 == 5) { replayed++; if (exec_hash(prop, seed) != exec_hash(prop, seed)) nondet = true; }
		set<string> cl; for (auto &x : v) cl.insert(x.cls);
		for (auto &k : cl) { if (seen[k]++ >= 2) continue; Scenario m = s0; string msg; if (!fails(m, k, &msg)) { nondet = true; continue; } minimise(m, k, 12); fails(m, k, &msg); string path = out + ".v" + std::to_string(nv++); std::ofstream f(path); f << ser(m) << "expect " << [&] { string e; for (unsigned char c : k + ": " + msg) { char b[8]; if (c <= ' ' || c == '%' || c >= 127) { snprintf(b, 8, "%%%02X", c); e += b; } else e += (char)c; } return e; }() << "\n"; f.close(); viol << (nv > 1 ? "," : "") << "{\"seed\":" << seed << ",\"class\":" << jesc(k) << ",\"message\":" << jesc(msg) << ",\"what\":" << jesc(describe(m)) << ",\"file\":" << jesc(path) << "}"; }
	}
	std::ofstream o(out); o << "{\"sims\":" << done << ",\"nogen\":" << none << ",\"last_seed\":" << last << ",\"worlds\":" << G.worlds << ",\"ops\":" << G.ops << ",\"simsec\":" << G.simsec << ",\"switches\":" << G.switches << ",\"nontrivial\":" << G.nontrivial << ",\"skipped\":" << G.skipped << ",\"wall\":" << now() - t0 << ",\"replayed\":" << replayed << ",\"nondeterministic\":" << (nondet ? "true" : "false") << ",\"fired\":{";
	for (int i = 0; i < F_NKINDS; i++) o << (i ? "," : "") << "\"" << fault_names[i] << "\":" << G.fired[i]; o << "},\"counts\":{"; bool first = true; for (auto &e : G.cnt) { o << (first ? "" : ",") << jesc(e.first) << ":" << e.second; first = false; } o << "},\"samples\":["; for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << jesc(samples[i]); o << "],\"violations\":[" << viol.str() << "]}\n"; o.close();
	FILE *fp = fopen((out + ".fps").c_str(), "wb"); for (u64 h : G.fps) fwrite(&h, 8, 1, fp); fclose(fp);
	return nv ? 1 : 0;
}
