// simrun: the driver around the simulator.
//   simrun search PROP LIBDIR SEED WORKER NWORKERS SECONDS TIER OUTDIR    seeded search; stats in OUTDIR/w<k>.json, violations in OUTDIR/v<k>.case
//   simrun replay LIBDIR FILE [-q]                                        re-runs a case file; exit 1 when it violates its property
//   simrun minimise LIBDIR FILE OUT SECONDS                               shrinks a violating case
//   simrun one PROP LIBDIR SEED [v]                                       generates and runs the case of one seed
#include "props.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/personality.h>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_set>
using namespace sim;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& f, const std::string& t) { std::ofstream o(f + ".tmp", std::ios::binary); o << t; o.close(); rename((f + ".tmp").c_str(), f.c_str()); }
static std::string js(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
static bool setup(const std::string& dir, std::string& err)
{
   auto have = [&](const char* v) { std::string f = dir + "/" + v + ".so"; return access(f.c_str(), R_OK) == 0 ? f : std::string(); };
   const char* t = getenv("TMPDIR"); return init(have("sp"), have("mp"), have("st"), have("mt"), t && *t ? t : "/tmp", err);
}
static Case recorded(const Case& c, const Verdict& v) { Case d = c; for (size_t i = 0; i < d.runs.size() && i < v.results.size(); ++i) { d.runs[i].choices = v.results[i].choices; d.runs[i].strategy = S_REPLAY; d.runs[i].seed = 0; } return d; }
static std::string header(const Case& c, const Verdict& v)
{
   std::ostringstream o; o << "# property " << c.prop << "\n# violation [" << v.cls << "] " << v.text << "\n# seed " << c.seed << ", event hash " << std::hex << v.hash << std::dec << "\n# replay with: simrun replay LIBDIR THISFILE\n";
   for (size_t i = 0; i < v.results.size(); ++i) { auto& r = v.results[i]; o << "# run " << i << ": " << outcomeNames[r.outcome] << ", " << r.steps << " scheduling steps, " << r.switches << " switches, " << r.threads << " threads, " << r.messages << " messages, " << (i < c.runs.size() ? c.runs[i].choices.size() : 0) << " recorded choices\n";
      for (size_t n = 0; n < r.nodes.size(); ++n) { o << "#   node " << n << (r.nodes[n].exited ? " exited with status " + std::to_string(r.nodes[n].rc) : std::string(" did not exit")) << "\n"; std::istringstream a(r.nodes[n].durable), b(r.nodes[n].err); int k = 0; for (std::string l; std::getline(a, l) && k < 40; ++k) o << "#     out| " << l << "\n"; k = 0; for (std::string l; std::getline(b, l) && k < 30; ++k) o << "#     err| " << l << "\n"; }
      for (auto& n : r.notes) o << "#   note: " << n << "\n"; }
   return o.str();
}

struct Stats {
   uint64_t cases = 0, skipped = 0, undecided = 0, runs = 0, steps = 0, switches = 0, simTime = 0, threads = 0, messages = 0, accesses = 0, multi = 0, nontrivial = 0, det = 0, detBad = 0, replayBad = 0;
   uint64_t faults[F_KINDS] = {}, choices[C_KINDS] = {}, strat[S_KINDS] = {}, outcome[O_KINDS] = {};
   std::map<std::string, uint64_t> fam, scen, nodes; std::unordered_set<uint64_t> sched, states, keys; std::vector<std::string> samples; uint64_t maxThreads = 0, results = 0;
   std::map<std::string, uint64_t> damage;
   uint64_t faultRuns = 0, maxSteps = 0; double maxCase = 0;
};
static int search(const std::string& prop, const std::string& dir, uint64_t seed, int w, int nw, double secs, bool thorough, const std::string& out)
{
   std::string err; if (!setup(dir, err)) { fprintf(stderr, "%s\n", err.c_str()); return 2; }
   Stats s; double t0 = now(); int viol = 0; bool stop = false;
   for (uint64_t i = (uint64_t)w; !stop && now() - t0 < secs; i += (uint64_t)nw) {
      Rng q(seed * 0x9e3779b97f4a7c15ull + i); uint64_t cs = q.next() >> 1; Case c;
      if (!makeCase(prop, cs, thorough, c)) { ++s.skipped; continue; }
      double e0 = now(); Verdict v = evaluate(c); s.maxCase = std::max(s.maxCase, now() - e0); ++s.cases; if (!v.decided) { ++s.undecided; continue; }
      ++s.fam[c.p.family]; ++s.scen[c.scenario]; uint64_t key = 0;
      for (size_t k = 0; k < v.results.size(); ++k) {
         auto& r = v.results[k]; ++s.runs; s.steps += r.steps; s.maxSteps = std::max(s.maxSteps, r.steps); s.switches += r.switches; s.simTime += r.simTime; s.threads += r.threads; s.messages += r.messages; s.accesses += r.accesses; s.maxThreads = std::max(s.maxThreads, r.threads); ++s.outcome[r.outcome]; ++s.strat[c.runs[k].strategy]; ++s.nodes[std::to_string(c.runs[k].nodes)];
         bool f = false; for (int x = 0; x < F_KINDS; ++x) { s.faults[x] += r.faultsFired[x]; f |= r.faultsFired[x] > 0; } for (int x = 0; x < C_KINDS; ++x) s.choices[x] += r.choicesMade[x];
         if (!c.damage.empty()) { f = true; if (!k) ++s.damage[c.damage]; } s.faultRuns += f; if (s.sched.size() < 400000) s.sched.insert(r.schedHash); if (s.states.size() < 400000) for (auto x : r.states) s.states.insert(x);
         if (!c.damage.empty() || (r.threads > (uint64_t)c.runs[k].nodes && (r.switches > r.threads || f))) { ++s.multi; key ^= r.hash + k; }
      }
      if (key) { if (s.keys.size() < 400000 && s.keys.insert(key).second) ++s.nontrivial; }
      if (s.samples.size() < 2 && key && (i / (uint64_t)nw) % 7 == 0) { std::string x = "seed " + std::to_string(cs) + ", " + c.p.family + ", scenario " + c.scenario + ", input: " + c.p.inputText.substr(0, 200); for (auto& r : c.runs) { x += " | nodes " + std::to_string(r.nodes) + ", args"; for (auto& a : r.args[0]) x += " " + a; x += std::string(", strategy ") + strategyNames[r.strategy]; for (auto& f : r.faults) x += std::string(", fault ") + faultNames[f.kind] + " node " + std::to_string(f.node) + " at " + std::to_string(f.n); } for (auto& r : v.results) x += std::string(" -> ") + outcomeNames[r.outcome] + ", " + std::to_string(r.steps) + " steps, " + std::to_string(r.switches) + " switches"; s.samples.push_back(x); }
      if (!v.bad() && s.cases % 64 == 1) { // determinism sample: same seed again, then the recorded choices alone
         ++s.det; Verdict a = evaluate(c), b = evaluate(recorded(c, v)); if (a.hash != v.hash) ++s.detBad; if (b.hash != v.hash) ++s.replayBad;
      }
      if (v.bad()) {
         Verdict a = evaluate(c); Case d = recorded(c, v); Verdict b = evaluate(d);
         bool ok = a.hash == v.hash && a.cls == v.cls, okR = b.cls == v.cls;
         if (!okR) d = c;
         spit(out + "/v" + std::to_string(w) + "_" + std::to_string(viol) + ".case", header(d, v) + serialise(d));
         if (!ok) { ++s.detBad; spit(out + "/v" + std::to_string(w) + "_" + std::to_string(viol) + ".flaky", a.cls + " " + a.text); }
         ++viol; if (viol >= 3 || (ok && !getenv("SIM_KEEP_GOING"))) stop = true;
      }
   }
   std::ostringstream o; auto arr = [&](const char* n, const uint64_t* a, int k, const char* const* names) { o << ",\n" << js(n) << ": {"; bool first = true; for (int i = 0; i < k; ++i) if (a[i]) { o << (first ? "" : ", ") << js(names[i]) << ": " << a[i]; first = false; } o << "}"; };
   auto mp = [&](const char* n, const std::map<std::string, uint64_t>& m) { o << ",\n" << js(n) << ": {"; bool first = true; for (auto& x : m) { o << (first ? "" : ", ") << js(x.first) << ": " << x.second; first = false; } o << "}"; };
   o << "{\"cases\": " << s.cases << ", \"skipped\": " << s.skipped << ", \"undecided\": " << s.undecided << ", \"runs\": " << s.runs << ", \"steps\": " << s.steps << ", \"switches\": " << s.switches << ", \"sim_ns\": " << s.simTime << ", \"threads\": " << s.threads << ", \"messages\": " << s.messages << ", \"accesses\": " << s.accesses << ", \"multi\": " << s.multi << ", \"nontrivial\": " << s.nontrivial << ", \"det_checked\": " << s.det << ", \"det_bad\": " << s.detBad << ", \"replay_bad\": " << s.replayBad << ", \"max_threads\": " << s.maxThreads << ", \"fault_runs\": " << s.faultRuns << ", \"max_steps\": " << s.maxSteps << ", \"max_case_s\": " << s.maxCase << ", \"violations\": " << viol << ", \"seconds\": " << now() - t0;
   arr("faults", s.faults, F_KINDS, faultNames); arr("choices", s.choices, C_KINDS, choiceNames); arr("strategies", s.strat, S_KINDS, strategyNames); arr("outcomes", s.outcome, O_KINDS, outcomeNames); mp("families", s.fam); mp("scenarios", s.scen); mp("damage", s.damage); mp("nodes", s.nodes);
   o << ",\n\"samples\": ["; for (size_t i = 0; i < s.samples.size(); ++i) o << (i ? ", " : "") << js(s.samples[i]); o << "]}\n";
   auto dump = [&](const char* n, const std::unordered_set<uint64_t>& h) { std::vector<uint64_t> v(h.begin(), h.end()); std::ofstream f(out + "/w" + std::to_string(w) + "." + n, std::ios::binary); f.write((const char*)v.data(), (std::streamsize)(v.size() * 8)); };
   dump("sched", s.sched); dump("states", s.states); dump("keys", s.keys);
   spit(out + "/w" + std::to_string(w) + ".json", o.str());
   return 0;
}

static bool loadCase(const std::string& f, Case& c) { std::string err; if (!deserialise(slurp(f), c, err)) { fprintf(stderr, "%s: %s\n", f.c_str(), err.c_str()); return false; } return true; }

// ---- minimisation
struct Mini {
   Case best; Verdict bv; double end; std::string cls; int tries = 0;
   bool late() const { return now() > end; }
   bool attempt(const Case& d) { if (late()) return false; ++tries; Verdict v = evaluate(d); if (v.cls != cls) return false; best = d; bv = v; return true; }
   // the changed case, with the present choices, without any, or with a few fresh schedules
   bool attemptAny(const Case& d) {
      if (attempt(d)) return true; Case e = d; for (auto& r : e.runs) r.choices.clear(); if (attempt(e)) return true;
      for (int i = 0; i < 12 && !late(); ++i) { Case f = d; for (auto& r : f.runs) { r.choices.clear(); r.strategy = (Strategy)(1 + i % 6); r.seed = 1000 + (uint64_t)i; } ++tries; Verdict v = evaluate(f); if (v.cls == cls) { Case g = recorded(f, v); if (attempt(g)) return true; } }
      return false; }
   void choicesDD() {
      for (size_t k = 0; k < best.runs.size(); ++k) {
         { Case d = best; d.runs[k].choices.clear(); if (attempt(d)) continue; }
         size_t chunk = std::max<size_t>(1, best.runs[k].choices.size() / 2);
         while (!late()) { bool any = false; for (size_t i = 0; i < best.runs[k].choices.size() && !late();) { Case d = best; auto& ch = d.runs[k].choices; ch.erase(ch.begin() + (long)i, ch.begin() + (long)std::min(ch.size(), i + chunk)); if (attempt(d)) any = true; else i += chunk; } if (chunk == 1) { if (!any) break; } else chunk = std::max<size_t>(1, chunk / 2); }
      } }
   void go() {
      { Case d = best; d.runs.resize(best.runs.size()); choicesDD(); }
      for (size_t k = 0; k < best.runs.size(); ++k) { for (size_t i = 0; i < best.runs[k].faults.size();) { Case d = best; d.runs[k].faults.erase(d.runs[k].faults.begin() + (long)i); if (!attempt(d)) ++i; }
         auto flag = [&](auto f) { Case d = best; f(d.runs[k]); attempt(d); };
         flag([](RunSpec& r) { r.spurious = false; }); flag([](RunSpec& r) { r.eintr = false; }); flag([](RunSpec& r) { r.shortReads = false; }); flag([](RunSpec& r) { r.clockSteps = false; }); flag([](RunSpec& r) { r.bufMode = 0; }); flag([](RunSpec& r) { r.netMode = 0; });
         for (int rounds = 0; rounds < 3; ++rounds) { Case d = best; bool ch = false; for (auto& av : d.runs[k].args) for (size_t i = 0; i < av.size(); ++i) { int n; if (av[i] == "-t" && i + 1 < av.size() && (n = atoi(av[i + 1].c_str())) > 1) { av[i + 1] = std::to_string(rounds == 0 ? 1 : n - 1); ch = true; } else if (!av[i].compare(0, 3, "-t=") && (n = atoi(av[i].c_str() + 3)) > 1) { av[i] = "-t=" + std::to_string(rounds == 0 ? 1 : n - 1); ch = true; } else if (!av[i].compare(0, 10, "--threads=") && (n = atoi(av[i].c_str() + 10)) > 1) { av[i] = "--threads=" + std::to_string(rounds == 0 ? 1 : n - 1); ch = true; } } if (!ch) break; attemptAny(d); }
         while (best.runs[k].nodes > 1 && best.prop != "P24" && best.scenario != "reject") { Case d = best; auto& r = d.runs[k]; --r.nodes; r.args.pop_back(); r.cores.pop_back(); bool ok = true; for (auto& f : r.faults) if (f.node >= r.nodes) ok = false; if (!ok || !attemptAny(d)) break; }
      }
      const Problem& p = best.p; bool simple = p.maps.empty() && p.known.empty() && p.reduced.empty() && p.base.empty() && best.scenario != "resume" && best.prop != "P24";
      if (simple) for (size_t i = 0; i < best.p.gens.size() && !late();) {
         Case d = best; d.p.gens.erase(d.p.gens.begin() + (long)i); if (d.p.gens.empty()) break; Rng r(1); std::string old = d.p.inputText; render(d.p, r, false); Expected e = expect(d.p); bool ok = e.decided; for (auto& x : d.runs) for (auto& f : x.files) { if (f.path == "/sim/in") { if (f.text != old) ok = false; f.text = d.p.inputText; } }
         if (!ok || !attemptAny(d)) ++i; }
      choicesDD();
   }
};
static int minimise(const std::string& dir, const std::string& file, const std::string& out, double secs)
{
   std::string err; if (!setup(dir, err)) { fprintf(stderr, "%s\n", err.c_str()); return 2; }
   Case c; if (!loadCase(file, c)) return 2;
   Verdict v = evaluate(c); if (!v.bad()) { fprintf(stderr, "the case does not reproduce\n"); return 3; }
   Mini m; m.best = c; m.bv = v; m.cls = v.cls; m.end = now() + secs;
   { Case d = recorded(c, v); Verdict w = evaluate(d); if (w.cls == v.cls) { m.best = d; m.bv = w; } }
   m.go();
   size_t ch = 0; for (auto& r : m.best.runs) ch += r.choices.size();
   spit(out, header(m.best, m.bv) + serialise(m.best));
   printf("minimised with %d trial runs to %zu choices: [%s] %s\n", m.tries, ch, m.bv.cls.c_str(), m.bv.text.c_str());
   return 0;
}
int main(int n, char** a)
{
   if (personality(0xffffffff) != -1 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1 && !getenv("SIM_REEXEC")) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", a); }
   std::string m = n > 1 ? a[1] : "", err;
   if (m == "search" && n == 10) return search(a[2], a[3], strtoull(a[4], nullptr, 10), atoi(a[5]), atoi(a[6]), atof(a[7]), !strcmp(a[8], "thorough"), a[9]);
   if (m == "minimise" && n == 6) return minimise(a[2], a[3], a[4], atof(a[5]));
   if (m == "variants" && n == 3) { auto p = profileOf(a[2]); if (!p) return 2; puts(p->variants); return 0; }
   if (m == "replay" && n >= 4) {
      if (!setup(a[2], err)) { fprintf(stderr, "%s\n", err.c_str()); return 2; }
      Case c; if (!loadCase(a[3], c)) return 2; Verdict v = evaluate(c);
      if (n == 4) fputs(header(c, v).c_str(), stdout);
      printf("REPLAY property=%s hash=%016llx class=%s %s\n", c.prop.c_str(), (unsigned long long)v.hash, v.bad() ? v.cls.c_str() : "none", v.text.c_str());
      return v.bad() ? 1 : 0;
   }
   if (m == "one" && n >= 5) {
      if (!setup(a[3], err)) { fprintf(stderr, "%s\n", err.c_str()); return 2; }
      Case c; if (!makeCase(a[2], strtoull(a[4], nullptr, 10), false, c)) { puts("no case"); return 0; } Verdict v = evaluate(c);
      if (n > 5) { fputs(header(c, v).c_str(), stdout); Case d = recorded(c, v); fputs(serialise(d).c_str(), stdout); }
      printf("%s %s\n", v.bad() ? v.cls.c_str() : "ok", v.text.c_str()); return v.bad();
   }
   fprintf(stderr, "usage: see the head of sim/main.cpp\n"); return 2;
}
