#include "props.h"
#include "damage.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <set>
#include <sstream>
using namespace sim; using geom::Mat; using geom::Row;

static const Profile profiles[] = {
   { "P01", "sp" }, { "P02", "sp" }, { "P03", "sp" }, { "P04", "mp" }, { "P05", "sp mp" }, { "P06", "st mt" }, { "P07", "sp mp" }, { "P08", "sp mp" }, { "P09", "sp mp" },
   { "P10", "sp" }, { "P11", "sp mp" }, { "P12", "sp mp" }, { "P13", "sp mp" }, { "P14", "mp" }, { "P15", "mt mp" }, { "P16", "sp mp" }, { "P17", "sp mp" }, { "P22", "sp mp" }, { "P23", "mp" }, { "P24", "sp mp" },
};
const Profile* profileOf(const std::string& id) { for (auto& p : profiles) if (id == p.id) return &p; return nullptr; }

// ------------------------------------------------------------------------------------------- oracles
static bool isHang(const RunResult& r) { return r.outcome == O_DEADLOCK || r.outcome == O_STALL || r.outcome == O_STEPLIMIT || r.outcome == O_CPULIMIT; }
static bool isBroken(const RunResult& r) { return r.outcome == O_CRASH || r.outcome == O_MEMORY || r.outcome == O_MISUSE || r.outcome == O_MPI_ERROR || r.outcome == O_ENGINE; }
static bool succeeded(const RunResult& r) { if (r.outcome != O_DONE) return false; for (auto& n : r.nodes) if (!n.exited || n.rc) return false; return true; }
struct J { std::string cls, text; void set(const std::string& c, const std::string& t) { if (cls.empty()) { cls = c; text = t; } } };
static std::string describe(const RunResult& r)
{
   std::string s = outcomeNames[r.outcome]; if (!r.detail.empty()) s += " (" + r.detail + ")";
   for (size_t i = 0; i < r.nodes.size(); ++i) if (r.nodes[i].exited && r.nodes[i].rc) s += ", node " + std::to_string(i) + " exited with status " + std::to_string(r.nodes[i].rc);
   return s;
}
static std::string outputError(const Case& c, const Expected& e, const RunResult& r, bool partial)
{
   for (size_t i = 1; i < r.nodes.size(); ++i) if (!r.nodes[i].durable.empty()) return "node " + std::to_string(i) + " wrote to standard output: \"" + r.nodes[i].durable.substr(0, 60) + "\"";
   Output o = parseOutput(r.nodes[0].durable, c.p, c.dd, partial);
   std::string m = checkOutput(o, c.p, e, partial, c.dd);
   return m;
}
// the run must finish, successfully, with the whole right answer
static void mustBeExact(J& j, const Case& c, const Expected& e, const RunResult& r)
{
   if (isHang(r)) return j.set("hang", "the program does not terminate: " + describe(r));
   if (isBroken(r)) return j.set("crash", "the program fails: " + describe(r));
   if (!succeeded(r)) return j.set("status", "the program fails on a valid input: " + describe(r) + (r.nodes[0].err.size() ? ", it says: " + r.nodes[0].err.substr(r.nodes[0].err.size() > 200 ? r.nodes[0].err.size() - 200 : 0) : ""));
   std::string m = outputError(c, e, r, false); if (!m.empty()) j.set("output", m);
}
// the run may fail, but it must end, everything printed must be right, and success means complete
static void mustBeHonest(J& j, const Case& c, const Expected& e, const RunResult& r, bool gaps = false)
{
   if (isHang(r)) return j.set("hang", "the program neither succeeds nor fails: " + describe(r));
   if (isBroken(r)) return j.set("crash", "the program fails in an uncontrolled way: " + describe(r));
   if (r.outcome == O_EXITCALL || r.outcome == O_JOBABORT) { bool nz = r.outcome == O_JOBABORT; for (auto& n : r.nodes) nz |= n.rc != 0; if (!nz) j.set("status", "the program gives up with a success status: " + describe(r)); }
   if (succeeded(r)) { std::string m = outputError(c, e, r, false); if (!m.empty()) j.set("silent", "every process exits with status 0, but " + m); }
   else if (!gaps) { std::string m = outputError(c, e, r, true); if (!m.empty()) j.set("output", "after a failure, " + m); }
}
// after a write that failed once, later writes may go through: a failed run may leave a gap in its output
static bool hasGaps(const RunSpec& s) { for (auto& f : s.faults) if (f.kind == F_WRITE_EIO_ONCE) return true; return false; }
static Output salvage(const Case& c, const RunResult& r) { Output o = parseOutput(r.nodes[0].durable, c.p, c.dd, true); return o.ok ? o : Output(); }
static void exactlyOnce(J& j, const Case& c, const RunResult& r)
{
   if (!succeeded(r)) return;
   Output o = parseOutput(r.nodes[0].durable, c.p, c.dd, false); if (!o.ok) return;
   std::set<unsigned long> k, dn; size_t pos = 0; const std::string& t = r.nodes[0].said; unsigned long most = 0;
   while (pos < t.size()) {
      size_t nl = t.find('\n', pos); if (nl == std::string::npos) nl = t.size(); std::string line = t.substr(pos, nl - pos); pos = nl + 1; unsigned long a, b;
      if (sscanf(line.c_str(), "Processing #%lu of at least %lu class", &a, &b) == 2) { if (!k.insert(a).second) return j.set("repeat", "the expansion number " + std::to_string(a) + " was started twice"); if (a > b) return j.set("count", "announced \"" + line + "\""); most = std::max(most, b); }
      else if (sscanf(line.c_str(), "Done processing #%lu", &a) == 1) { if (!dn.insert(a).second) return j.set("repeat", "expansion number " + std::to_string(a) + " was finished twice"); if (!k.count(a)) return j.set("count", "expansion number " + std::to_string(a) + " was finished before it was started"); }
   }
   if (k.size() != o.rows.size() || (!k.empty() && *k.rbegin() != k.size())) return j.set("count", "the program printed " + std::to_string(o.rows.size()) + " classes but started " + std::to_string(k.size()) + " expansions (highest number " + std::to_string(k.empty() ? 0 : *k.rbegin()) + ")");
   if (most != o.rows.size() && !k.empty()) j.set("count", "the last progress line speaks of " + std::to_string(most) + " classes, but " + std::to_string(o.rows.size()) + " were printed");
   if (dn != k) j.set("count", std::to_string(k.size() - dn.size()) + " expansions were never reported as done");
}
static std::string sortedLines(const std::string& t) { std::vector<std::string> v; std::istringstream s(t); for (std::string l; std::getline(s, l);) v.push_back(l); std::sort(v.begin(), v.end()); std::string o; for (auto& l : v) o += l + "\n"; return o; }
static void mixHash(uint64_t& h, uint64_t v) { h = (h ^ v) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; }

static void dropKnown(RunSpec& s) { for (auto& a : s.args) for (size_t i = 0; i + 1 < a.size(); ++i) if (a[i] == "-k") { a.erase(a.begin() + (long)i, a.begin() + (long)i + 2); break; } }

// the number of threads a process has to use
static int threadsOf(const std::vector<std::string>& a, int cores)
{
   for (size_t k = 0; k < a.size(); ++k) { if (a[k] == "-t") return std::stoi(a[k + 1]); if (!a[k].compare(0, 10, "--threads=")) return std::stoi(a[k].substr(10)); }
   return std::max(1, cores);
}
Verdict evaluate(const Case& c)
{
   Verdict v; J j; Expected e = expect(c.p); v.hash = 1; v.decided = e.decided;
   if (!e.decided) return v;
   const std::string& P = c.prop; Mat known; std::string salvaged;
   for (size_t i = 0; i < c.runs.size(); ++i) {
      RunSpec s = c.runs[i];
      if (c.scenario == "resume" && i > 0) {
         if (known.empty()) dropKnown(s); else s.files.push_back({ -1, "/sim/kn", c.p.vertexMode ? knownText(c.p, known) : "Inequalities:\n" + salvaged });   // inequalities word for word, rows of vertices and rays as the input format spells them
      }
      if (s.hold) {   // whatever the minimiser made of the arguments
         if (s.holdNode >= s.nodes) break;
         s.hold = 0; for (size_t k = 0; k < s.args.size(); ++k) s.hold += threadsOf(s.args[k], s.cores[k]);
         if (s.holdNode) s.holdThreads = threadsOf(s.args[(size_t)s.holdNode], s.cores[(size_t)s.holdNode]);
      }
      v.results.push_back(run(s)); const RunResult& r = v.results.back(); mixHash(v.hash, r.outcome == O_CPULIMIT ? 77 : r.hash);
      if (r.outcome == O_CUTOFF) { // undecided, unless it has said more than any run has to say
         size_t said = 0; for (auto& n : r.nodes) said += n.err.size() + n.durable.size();
         if (said > 2000 * (e.results.size() + e.cone.size() + 100)) j.set("hang", "the program goes on forever: " + describe(r)); else v.decided = false;
         break;
      }
      if (r.outcome == O_ENGINE) { j.set("engine", "simulator error: " + r.detail); break; }
      if (P == "P01" || P == "P02" || P == "P03" || P == "P04" || P == "P13") mustBeExact(j, c, e, r);
      else if (P == "P05") {
         if (isHang(r)) j.set("hang", "the program does not terminate: " + describe(r));
         else if (r.outcome != O_DONE) j.set("end", "the program does not end normally: " + describe(r));
         else for (size_t k = 0; k < r.nodes.size(); ++k) { if (r.nodes[k].threadsLeft) j.set("threads", std::to_string(r.nodes[k].threadsLeft) + " threads of node " + std::to_string(k) + " were still running when the program ended"); if (r.nodes[k].rc) j.set("status", "the program fails on a valid input: " + describe(r)); }
      }
      else if (P == "P06") {
         for (auto& n : r.notes) if (n.compare(0, 5, "race:") == 0) j.set("race", n);
         if (isBroken(r)) j.set("memory", "memory or synchronisation error: " + describe(r));
         if (r.outcome == O_TERMINATE) j.set("memory", "the program dies: " + describe(r));
      }
      else if (P == "P07") {
         for (auto& n : r.notes) if (n.compare(0, 12, "not-flushed:") == 0) j.set("not-flushed", n);
         if (r.outcome == O_KILLED) { std::string m = outputError(c, e, r, true); if (!m.empty()) j.set("prefix", "the output left behind by a killed run is wrong: " + m); }
         else mustBeExact(j, c, e, r);
      }
      else if (P == "P08") {
         if (r.outcome == O_KILLED) { std::string m = outputError(c, e, r, true); if (!m.empty()) j.set("output", "the output left behind by a killed run is wrong: " + m); Output s = salvage(c, r); for (auto& row : s.rows) known.push_back(row); for (auto& l : s.rowText) salvaged += l + "\n"; }
         else { mustBeExact(j, c, e, r); if (c.scenario == "resume" && i > 0 && !known.empty() && j.cls == "output") j.text = "after a crash and a restart with the salvaged results, " + j.text; if (i + 1 < c.runs.size()) break; }
      }
      else if (P == "P09") {
         if (c.scenario == "exact") mustBeExact(j, c, e, r);
         else mustBeHonest(j, c, e, r);
      }
      else if (P == "P24") {
         if (isHang(r)) j.set("hang", "a damaged file is neither read nor rejected: " + describe(r)); else if (isBroken(r)) j.set("crash", "a damaged file makes the run fail in an uncontrolled way: " + describe(r));
         else if (succeeded(r)) j.set("silent", "a process reads a damaged file, but every process exits with status 0");
         else if (r.outcome == O_EXITCALL || r.outcome == O_JOBABORT || r.outcome == O_DONE) {
            bool nz = r.outcome == O_JOBABORT, said = false; for (auto& n : r.nodes) { nz |= n.rc != 0; said |= !n.err.empty(); }
            if (!nz) j.set("status", "a damaged file ends the run with a success status: " + describe(r)); else if (!said) j.set("quiet", "the run fails without a message: " + describe(r));
            if (c.scenario == "everywhere") { Output o = parseOutput(r.nodes[0].durable, c.p, c.dd, true); if (!o.rows.empty() || !o.equations.empty() || !o.bigRows.empty()) j.set("results", "results are printed for a damaged file"); }
            else { std::string m = outputError(c, e, r, true); if (!m.empty()) j.set("output", "one process rejects a damaged file, and " + m); }
         }
      }
      else if (c.scenario == "reject") {
         if (isHang(r)) j.set("hang", "a node rejects its input, but the distributed run never ends: " + describe(r)); else if (isBroken(r)) j.set("crash", "a node rejects its input and the run fails in an uncontrolled way: " + describe(r)); else if (succeeded(r)) j.set("silent", "a node cannot read its input, but every process exits with status 0");
      }
      else if (P == "P10" || P == "P11" || P == "P12" || P == "P14") { if (c.scenario == "benign") mustBeExact(j, c, e, r); else if (r.outcome != O_KILLED) mustBeHonest(j, c, e, r, hasGaps(c.runs[i])); }
      else if (P == "P15") {
         for (auto& n : r.notes) if (n.compare(0, 3, "mpi") == 0 || n.compare(0, 11, "send-buffer") == 0) j.set("mpi", n);
         if (r.outcome == O_MPI_ERROR) j.set("mpi", describe(r));
         if (r.outcome == O_JOBABORT || isHang(r)) j.set("job", "the distributed run does not shut down: " + describe(r));
      }
      else if (P == "P16") { if (isHang(r) || isBroken(r) || !succeeded(r)) { mustBeExact(j, c, e, r); } else exactlyOnce(j, c, r); }
      else if (P == "P22" || P == "P23") { for (auto& n : r.notes) if (n.compare(0, 5, "idle:") == 0 || n.compare(0, 6, "stuck:") == 0) j.set("idle", n); if (!succeeded(r)) mustBeExact(j, c, e, r); }
      else if (P == "P17") {
         if (!succeeded(r)) { mustBeExact(j, c, e, r); break; }
         if (i) { std::string a = sortedLines(v.results[0].nodes[0].durable), b = sortedLines(r.nodes[0].durable); if (a != b) { std::istringstream x(a), y(b); std::string l, m; while (true) { bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, m); if (!p && !q) break; if (!p) l = "(nothing)"; if (!q) m = "(nothing)"; if (l != m) break; } j.set("differs", "two runs of one problem print different results: \"" + l + "\" against \"" + m + "\""); } }
      }
      if (!j.cls.empty()) break;
   }
   v.cls = j.cls; v.text = j.text; return v;
}

// ------------------------------------------------------------------------------------------- workloads
struct Opt { bool mpi = false, traced = false; int minNodes = 2, maxNodes = 3, minT = 1, maxT = 4; bool intTypes = true, sorts = true, spurious = true; bool check = true; bool wide = false; std::string integer; bool noT = true; };
// Fixed-width types may overflow silently (documented), so they are only used where Hadamard's bound rules that out.
static double magnitude(const Problem& p)
{
   double m = 1; for (auto* g : { &p.gens, &p.eqs }) for (auto& row : *g) for (auto v : row) m = std::max(m, std::fabs((double)v));
   double h = 1; for (int i = 0; i < p.d; ++i) h *= m * std::sqrt((double)(p.d + 1)); return h * h * 16;
}
static RunSpec baseRun(Rng& r, const Problem& p, const Opt& o, bool dd)
{
   RunSpec s; s.mpi = o.mpi; s.traced = o.traced; s.nodes = o.mpi ? r.range(o.minNodes, o.maxNodes) : 1;
   int t = r.range(o.minT, o.maxT); if (r.chance(1, 3)) t = r.range(o.minT, std::max(o.minT, std::min(o.maxT, 2)));
   if (o.wide && r.chance(1, 40)) t = r.range(o.maxT, o.mpi ? (76 - 2 * s.nodes) / (2 * s.nodes - 1) : 66);   // a big machine
   std::vector<std::vector<std::string>> opts;
   int cores = r.range(1, 4);
   if (o.noT && !dd && r.chance(1, 12)) { cores = t; if (r.chance(1, 10)) cores = 0; }
   else { if (r.chance(1, 2)) opts.push_back({ "-t", std::to_string(t) }); else opts.push_back({ "--threads=" + std::to_string(t) }); }
   if (!o.integer.empty()) opts.push_back(r.chance(1, 2) ? std::vector<std::string>{ "-i", o.integer } : std::vector<std::string>{ "--integer-type=" + o.integer });
   else if (magnitude(p) > 2e9 || (o.intTypes && r.chance(1, 2))) { static const char* t4[] = { "16", "32", "64", "safe", "inf" }; int lo = magnitude(p) < 3e4 ? 0 : magnitude(p) < 2e9 ? 1 : magnitude(p) < 4e18 ? 2 : 4; int hi = p.gens.size() > 700 && lo < 4 ? 4 : 5; std::string x = t4[lo + (int)r.below((uint64_t)(hi - lo))]; opts.push_back(r.chance(1, 2) ? std::vector<std::string>{ "-i", x } : std::vector<std::string>{ "--integer-type=" + x }); }
   if (o.sorts && r.chance(1, 3)) { static const char* t5[] = { "lex_asc", "lex_desc", "nz_asc", "nz_desc", "rev" }; std::string x = t5[r.below(5)]; opts.push_back(r.chance(1, 2) ? std::vector<std::string>{ "-s", x } : std::vector<std::string>{ "--sorting=" + x }); }
   if (dd) opts.push_back(r.chance(1, 2) ? std::vector<std::string>{ "-m", "dd" } : std::vector<std::string>{ "--method=double-description" });
   else if (r.chance(1, 8)) opts.push_back(r.chance(1, 2) ? std::vector<std::string>{ "-m", "ad" } : std::vector<std::string>{ "--method=adjacency-decomposition" });
   if (!p.known.empty()) { s.files.push_back({ -1, "/sim/kn", p.knownText }); static const char* f[] = { "", "--known-data=", "--known-data=", "--known-" }; int k = (int)r.below(4); if (k == 0) opts.push_back({ "-k", "/sim/kn" }); else if (k < 3) opts.push_back({ std::string(f[k]) + "/sim/kn" }); else opts.push_back({ std::string("--known-") + (p.vertexMode ? "vertices" : "facets") + "=/sim/kn" }); }
   if (o.check && p.family.find("+huge") == std::string::npos && magnitude(p) < 1e13 && r.chance(1, 10)) opts.push_back({ r.chance(1, 2) ? "-c" : "--check" });
   opts.push_back({ "/sim/in" });
   for (size_t i = opts.size(); i > 1; --i) std::swap(opts[i - 1], opts[r.below(i)]);
   std::vector<std::string> av = { "panda" }; for (auto& x : opts) for (auto& y : x) av.push_back(y);
   s.files.push_back({ -1, "/sim/in", p.inputText });
   bool given = false; for (auto& x : opts) given |= !x[0].compare(0, 2, "-t") || !x[0].compare(0, 4, "--th");
   bool mixed = !given && r.chance(2, 3);    // nodes of different size, each with its own default number of threads
   for (int i = 0; i < s.nodes; ++i) { s.args.push_back(av); s.cores.push_back(mixed ? r.range(1, 4) : cores); }
   s.strategy = r.chance(1, 12) ? S_DEFAULT : (Strategy)(1 + r.below(6)); s.seed = r.next(); s.netMode = (int)r.below(4); s.bufMode = (int)r.below(4); if (s.bufMode == 3) s.bufMode = 3 + (int)r.below(60); s.spurious = o.spurious && r.chance(1, 3);
   return s;
}
static GenOpts sizes(Rng& r, bool thorough, bool traced)
{
   GenOpts o; unsigned k = (unsigned)r.below(100);
   if (traced) { o.size = k < 60 ? 0 : 1; o.big = k >= 98; }
   else { o.size = k < 45 ? 0 : k < 85 ? 1 : 2; o.big = k >= (thorough ? 90 : 95); }
   o.maxCoord = r.chance(1, 30) ? r.chance(1, 2) ? 40 : 250 : r.chance(1, 4) ? 9 : 3; return o;
}
static void stalls(Rng& r, RunSpec& s, uint64_t span) { int n = 1 + (int)r.below(3); for (int i = 0; i < n; ++i) s.faults.push_back(Fault{ F_STALL_NODE, (int)r.below((uint64_t)s.nodes), 1 + r.below(span ? span : 400), (int64_t)(1000ll << r.below(15)) }); }

bool makeCase(const std::string& P, uint64_t seed, bool thorough, Case& c)
{
   Rng r(seed ^ 0x70a9d4a0ull); r.next(); c = Case(); c.prop = P; c.seed = seed; c.scenario = "plain";
   const char* vs = profileOf(P)->variants; Opt o; bool two = strlen(vs) > 2;
   const char* var = two ? vs + 3 * r.below(2) : vs; o.mpi = var[0] == 'm'; o.traced = var[1] == 't';
   GenOpts g = sizes(r, thorough, o.traced); if (o.traced) g.crowd = 1; else if (P == "P03" || P == "P17") g.many = 2; else if (P == "P01" || P == "P02" || P == "P04" || P == "P05" || P == "P07" || P == "P08" || P == "P15" || P == "P16" || P == "P22") g.many = P == "P15" ? 3 : 1;
   o.maxT = 5; if (o.mpi) { o.maxT = 3; o.maxNodes = r.chance(1, 5) ? 4 : 3; }
   if (P == "P01" || P == "P02" || P == "P04" || P == "P05" || P == "P15" || P == "P16") { o.wide = !o.traced; if (o.mpi && !o.traced && r.chance(1, 25)) { o.minNodes = 5; o.maxNodes = 6; } }
   auto gen = [&] { Rng w = r.fork(11); c.p = generate(w, g); };
   auto probe = [&](const RunSpec& s) { return run(s); };
   if (P == "P01" || P == "P02") { g.mode = P == "P02"; g.maps = false; g.known = false; if (r.chance(1, 10)) o.maxT = 12; gen(); c.runs.push_back(baseRun(r, c.p, o, false)); return true; }
   if (P == "P03") { g.requireMaps = true; g.big = false; if (g.size == 0 && r.chance(1, 2)) g.size = 1; gen(); if (c.p.maps.empty()) return false; c.runs.push_back(baseRun(r, c.p, o, false)); return true; }
   if (P == "P04") { if (r.chance(1, 10)) o.minNodes = 1; gen(); RunSpec s = baseRun(r, c.p, o, false); if (r.chance(1, 3)) stalls(r, s, 40ull << r.below(6)); c.runs.push_back(s); return true; }
   if (P == "P05") { g.size = r.chance(2, 3) ? 0 : g.size; g.big = false; o.maxT = o.mpi ? 4 : 10; if (o.mpi && r.chance(1, 8)) o.minNodes = 1; gen(); RunSpec s = baseRun(r, c.p, o, false); s.spurious = r.chance(1, 2); if (o.mpi && r.chance(1, 3)) stalls(r, s, 400); c.runs.push_back(s); return true; }
   if (P == "P06") { if (o.mpi) o.maxNodes = 2; o.maxT = 4; g.known = true; gen(); RunSpec s = baseRun(r, c.p, o, false); if (r.chance(1, 4)) { s.clockSteps = true; } c.runs.push_back(s); return true; }
   if (P == "P07") {
      if (r.chance(1, 4)) { if (g.size < 2) g.size = 1 + (int)r.below(2); g.minResults = r.range(8, 20); } else if (g.size == 0) g.minResults = r.chance(1, 2) ? 3 : 0; gen(); RunSpec s = baseRun(r, c.p, o, false); 
      if (r.chance(4, 5)) { RunResult q = probe(s); if (r.chance(1, 2)) s.faults.push_back(Fault{ F_KILL_STEP, 0, 1 + r.below(q.steps), 0 }); else s.faults.push_back(Fault{ F_KILL_BYTES, 0, 1 + r.below(q.nodes[0].durable.size()), 0 }); c.scenario = "kill"; }
      if (r.chance(1, 4)) s.faults.push_back(Fault{ F_WRITE_SHORT, 0, r.below(7), 0 });
      c.runs.push_back(s); return true;
   }
   if (P == "P08") {
      if (r.chance(1, 2)) { g.requireKnown = true; g.big = false; gen(); if (c.p.known.empty()) return false; c.scenario = "known"; RunSpec s = baseRun(r, c.p, o, false); if (o.mpi && r.chance(1, 4)) stalls(r, s, 400); c.runs.push_back(s); return true; }
      g.known = false; if (g.size == 0) g.size = 1; g.minResults = 2; gen(); c.scenario = "resume"; c.p.known.clear(); c.p.knownText.clear();
      int phases = r.chance(1, 3) ? 3 : 2;
      for (int i = 0; i < phases; ++i) {
         Rng q = r.fork((uint64_t)i + 3); RunSpec s = baseRun(q, c.p, o, false); if (i) for (auto& a : s.args) { a.push_back("-k"); a.push_back("/sim/kn"); }
         if (i + 1 < phases) { RunSpec t = s; dropKnown(t); RunResult pr = probe(t); if (q.chance(1, 2)) s.faults.push_back(Fault{ F_KILL_STEP, 0, pr.steps / (uint64_t)(i ? 4 : 1) / 2 + q.below(pr.steps / 2 + 1), 0 }); else s.faults.push_back(Fault{ F_KILL_BYTES, 0, 1 + q.below(pr.nodes[0].durable.size()), 0 }); }
         c.runs.push_back(s);
      }
      return true;
   }
   if (P == "P09") {
      g.maps = false; g.known = false; g.big = false; g.crowd = 1; if (g.size == 2) g.size = 1;
      if (r.chance(1, 5)) g.maps = g.requireMaps = true; auto huge = [&] { return c.p.family.find("+huge") != std::string::npos; };
      bool inf = r.chance(2, 3), fits = false; static const long long sc[] = { 40, 1000, 65536, 1000000, 1ll << 28, 1ll << 30, 1ll << 30, 1ll << 30 }; g.maxCoord = 2;
      for (int i = 0; i < 12 && !fits; ++i) { Rng w = r.fork(11 + (uint64_t)i); g.huge = sc[r.below(8)]; c.p = generate(w, g); if (!huge()) continue; if (!inf) break; fits = resultsFitInt(c.p); }
      if (!huge()) return false;
      o.integer = inf ? "inf" : "safe"; c.scenario = fits ? "exact" : "safe"; o.noT = false; // results beyond int cannot be printed: that must be reported
      c.dd = !o.mpi && r.chance(1, 6); c.runs.push_back(baseRun(r, c.p, o, c.dd)); return true;
   }
   bool dd = (P == "P10" || P == "P11" || P == "P12") && !o.mpi && r.chance(1, 5);
   if (P == "P10" || P == "P14") {
      g.big = false; if (g.size == 2) g.size = 1; c.dd = dd; if (dd) g.known = false; gen(); RunSpec s = baseRun(r, c.p, o, dd);
      RunResult q = probe(s); int node = P == "P14" && r.chance(2, 3) ? r.range(1, s.nodes - 1) : 0; if (!o.mpi) node = 0;
      uint64_t per = q.allocs / (uint64_t)s.nodes + 1; unsigned k = (unsigned)r.below(10); c.scenario = "fault";
      if (k < 4) { s.faults.push_back(Fault{ F_ALLOC, node, 1 + r.below(per), 0 }); if (r.chance(1, 4)) s.faults.push_back(Fault{ F_ALLOC, r.chance(1, 2) ? node : (int)r.below((uint64_t)s.nodes), 1 + r.below(per), 0 }); }
      else if (k < 6) s.faults.push_back(Fault{ F_ALLOC_FROM, node, 1 + r.below(per), 0 });
      else if (k < 9) { if (P == "P14" && k == 8) { s.faults.push_back(Fault{ r.chance(1, 2) ? F_OPEN : F_READ_EIO, node, r.below(4), 2 }); if (s.faults.back().kind == F_READ_EIO) s.faults.back().n = r.below(c.p.inputText.size()); } else s.faults.push_back(Fault{ F_THREAD, node, 1 + r.below(o.mpi ? (q.threads + (uint64_t)s.nodes) / (uint64_t)s.nodes : q.threads), (int64_t)r.below(2) }); }
      else if (P == "P10") s.faults.push_back(Fault{ F_ALLOC, node, 1 + r.below(40), 0 });
      else { // input that one node, or every node, rejects
         std::string bad; int kind = (int)r.below(5);
         if (kind == 4) bad = r.chance(1, 2) ? "Maps\nb a\nNames\na b\nVertices\n0 0\n1 0\n0 1\n" : "Names\na b\nVertices\n0 0\n1 x\n0 1\n"; else if (kind <= 1) bad = ""; else if (kind == 2) bad = "Vertices\n1 2 3\n1 2\n"; else { for (auto& f : s.files) if (f.path == "/sim/in") f.path = "/sim/elsewhere"; }
         c.scenario = "reject"; bool all = r.chance(1, 2);
         if (all) for (auto& f : s.files) { if (f.path == "/sim/in") f.text = bad; } else if (kind != 3) s.files.insert(s.files.begin(), SimFile{ node, "/sim/in", bad }); else { for (auto& f : s.files) if (f.path == "/sim/elsewhere") f.path = "/sim/in"; s.args[(size_t)node] = { "panda", "/sim/missing" }; }
      }
      c.runs.push_back(s); return true;
   }
   if (P == "P24") {
      g.big = false; g.maxCoord = std::min(g.maxCoord, 40); c.dd = !o.mpi && r.chance(1, 5); if (c.dd) g.known = false; else if (r.chance(1, 4)) g.requireKnown = true; else if (r.chance(1, 3)) g.requireMaps = true;
      gen(); RunSpec s = baseRun(r, c.p, o, c.dd); std::string what; bool all = s.nodes == 1 || r.chance(1, 2), kn = !c.p.known.empty() && r.chance(1, 2); c.scenario = all ? "everywhere" : "one"; int node = (int)r.below((uint64_t)s.nodes);
      if (!c.dd && r.chance(1, 8)) { what = "an invalid option value"; // an option value that is not understood
         static const char* bad[][2] = { { "-i", "foo" }, { "-i", "24" }, { "-t", "foo" }, { "-t", "0" }, { "-t", "-1" }, { "-m", "foo" }, { "-s", "foo" }, { "-k", "/sim/none" }, { "--threads=x", "" }, { "--method=x", "" }, { "--integer-type=8", "" }, { "--sorting=x", "" } }; auto& b = bad[r.below(12)];
         for (int i = 0; i < s.nodes; ++i) if (all || i == node) { auto& a = s.args[(size_t)i]; if (b[1][0]) a.insert(a.begin() + 1, b[1]); a.insert(a.begin() + 1, b[0]); }
      } else {
         std::string path = kn ? "/sim/kn" : "/sim/in", t = damage::spoil(c.p, kn ? c.p.knownText : c.p.inputText, kn, r, what); if (t.empty()) return false;
         if (all) { for (auto& f : s.files) if (f.path == path) f.text = t; } else s.files.insert(s.files.begin(), SimFile{ node, path, t });
      } if (what.rfind(" in row ") != std::string::npos) what.erase(what.rfind(" in row ")); if (what.find('"') != std::string::npos) what = what.back() == '"' ? "an excess token that is no number" : "a token that is no number instead of one"; c.damage = (kn && what != "an invalid option value" ? "known data: " : "") + what + (all ? ", all processes" : ", one process");
      c.runs.push_back(s); return true;
   }
   if (P == "P11") {
      g.big = false; c.dd = dd; if (dd) g.known = false; gen(); RunSpec s = baseRun(r, c.p, o, dd); RunResult q = probe(s); uint64_t n = q.nodes[0].durable.size();
      c.scenario = "fault"; unsigned k = (unsigned)r.below(11) / 2;
      if (k == 5) { s.faults.push_back(Fault{ F_ERR_EIO, (int)r.below((uint64_t)s.nodes), r.chance(1, 4) ? 0 : r.below(q.nodes[0].err.size() + 1), 0 }); c.scenario = "benign"; }
      else if (k < 2) s.faults.push_back(Fault{ F_WRITE_ENOSPC, 0, r.below(n + 1), 0 }); else if (k < 4) s.faults.push_back(Fault{ F_WRITE_EIO_ONCE, 0, r.below(n), 0 }); else { s.faults.push_back(Fault{ F_WRITE_SHORT, 0, r.below(9), 0 }); c.scenario = "benign"; }
      if (k < 4 && r.chance(1, 3)) s.faults.push_back(Fault{ F_WRITE_SHORT, 0, r.below(9), 0 });
      c.runs.push_back(s); return true;
   }
   if (P == "P12") {
      g.big = false; c.dd = dd; if (dd) g.known = false; gen(); RunSpec s = baseRun(r, c.p, o, dd);
      s.eintr = r.chance(1, 2); s.shortReads = r.chance(2, 3); c.scenario = "benign"; int node = (int)r.below((uint64_t)s.nodes);
      if (r.chance(1, 2)) { c.scenario = "fault"; if (r.chance(1, 4)) { static const int er[] = { 13, 24, 5, 12 }; s.faults.push_back(Fault{ F_OPEN, node, 1 + r.below(4), er[r.below(4)] }); } else { bool kn = !c.p.known.empty() && r.chance(1, 2); s.faults.push_back(Fault{ F_READ_EIO, node, r.below((kn ? c.p.knownText : c.p.inputText).size() + 1), (kn ? 1 : 0) + (r.chance(1, 4) ? 2 : 0) }); } }
      else if (!s.eintr) s.shortReads = true;
      c.runs.push_back(s); return true;
   }
   if (P == "P13") {
      g.big = false; gen(); RunSpec s = baseRun(r, c.p, o, false); s.clockSteps = r.chance(1, 2);
      int n = 1 + (int)r.below(4); for (int i = 0; i < n; ++i) { static const int64_t j[] = { -86400000000000ll, -3600000000000ll, -1000000000ll, 1000000000ll, 60000000000ll, 31536000000000000ll }; s.faults.push_back(Fault{ F_CLOCK_JUMP, (int)r.below((uint64_t)s.nodes), 1 + r.below(60), j[r.below(6)] }); }
      for (int i = 0; i < s.nodes; ++i) if (r.chance(1, 6)) s.faults.push_back(Fault{ F_CLOCK_STOP, i, 1 + r.below(r.chance(1, 2) ? 3 : 60), 0 });
      c.runs.push_back(s); return true;
   }
   if (P == "P15") { g.big = false; if (g.size == 2) g.size = 1; o.maxT = 2; gen(); RunSpec s = baseRun(r, c.p, o, false); if (r.chance(1, 2)) s.netMode = 2 + (int)r.below(2); if (r.chance(1, 4)) stalls(r, s, 400); c.runs.push_back(s); return true; }
   if (P == "P22" || P == "P23") {
      g.minResults = r.chance(1, 3) ? 0 : r.range(3, 12); g.big = false; if (!o.mpi) o.maxT = r.chance(1, 10) ? 24 : 8; if (P == "P22" && r.chance(1, 25)) { g.size = 2; g.requireKnown = true; g.maps = false; g.minResults = 20; g.many = 40; if (o.mpi) o.maxT = o.maxNodes > 3 ? 9 : 12; else { o.minT = 17; o.maxT = 66; } } gen(); RunSpec s = baseRun(r, c.p, o, false);
      for (size_t k = 0; k < s.args.size(); ++k) s.hold += threadsOf(s.args[k], s.cores[k]);
      if (P == "P23") { RunSpec q = s; q.hold = 0; RunResult x = probe(q); s.holdNode = r.range(1, s.nodes - 1); s.holdThreads = threadsOf(s.args[(size_t)s.holdNode], s.cores[(size_t)s.holdNode]); s.holdAt = x.steps / (r.chance(1, 3) ? 20 : 3) + r.below(x.steps); }
      c.runs.push_back(s); return true;
   }
   if (P == "P16") { gen(); c.runs.push_back(baseRun(r, c.p, o, false)); return true; }
   if (P == "P17") {
      g.big = false; gen(); Rng fix = r.fork(5); Opt a = o; a.mpi = false; a.noT = false; 
      RunSpec s = baseRun(fix, c.p, a, false); s.strategy = S_DEFAULT; c.scenario = "pair"; if (!o.mpi) { c.runs.push_back(s); }
      int n = o.mpi ? 2 : 1;
      for (int i = 0; i < n; ++i) { // the same options, but another number of threads and nodes, and another schedule
         RunSpec t = s; t.mpi = o.mpi; t.nodes = o.mpi ? r.range(1, 3) : 1; t.seed = r.next(); t.strategy = (Strategy)(1 + r.below(6)); t.bufMode = (int)r.below(3); t.netMode = (int)r.below(4); int th = r.range(1, 5);
         std::vector<std::string> av = s.args[0]; for (size_t k = 0; k < av.size(); ++k) { if (av[k] == "-t") av[k + 1] = std::to_string(th); else if (!av[k].compare(0, 3, "-t=")) av[k] = "-t=" + std::to_string(th); else if (!av[k].compare(0, 10, "--threads=")) av[k] = "--threads=" + std::to_string(th); }
         t.args.assign((size_t)t.nodes, av); t.cores.assign((size_t)t.nodes, 2); c.runs.push_back(t);
      }
      return true;
   }
   return false;
}
