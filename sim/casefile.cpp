#include "casefile.h"
#include <cstring>
#include <sstream>
using geom::Mat; using geom::Row;
static void str(std::ostream& o, const char* k, const std::string& s) { o << k << ' ' << s.size() << ":" << s << '\n'; }
static void mat(std::ostream& o, const char* k, const Mat& m) { o << k << ' ' << m.size() << ' ' << (m.empty() ? 0 : m[0].size()); for (auto& r : m) { o << "  "; for (auto v : r) o << ' ' << v; } o << '\n'; }
std::string serialise(const Case& c)
{
   std::ostringstream o; o << "panda-sim-case 1\n";
   str(o, "property", c.prop); str(o, "scenario", c.scenario); o << "seed " << c.seed << "\ndd " << c.dd << '\n';
   const Problem& p = c.p; str(o, "family", p.family); o << "vertexMode " << p.vertexMode << "\nd " << p.d << "\nbig " << p.big << '\n';
   mat(o, "gens", p.gens); mat(o, "eqs", p.eqs); mat(o, "reduced", p.reduced); mat(o, "known", p.known); mat(o, "base", p.base); mat(o, "baseEqs", p.baseEqs);
   o << "names " << p.names.size() << '\n'; for (auto& n : p.names) str(o, "name", n);
   o << "maps " << p.maps.size() << '\n'; for (auto& m : p.maps) mat(o, "map", m);
   str(o, "inputText", p.inputText); str(o, "knownText", p.knownText);
   o << "runs " << c.runs.size() << '\n';
   for (auto& r : c.runs) {
      o << "run nodes " << r.nodes << " mpi " << r.mpi << " traced " << r.traced << " bufMode " << r.bufMode << " spurious " << r.spurious << " eintr " << r.eintr << " shortReads " << r.shortReads << " clockSteps " << r.clockSteps << " netMode " << r.netMode << " strategy " << (int)r.strategy << " seed " << r.seed << " stepLimit " << r.stepLimit << " cpuLimit " << r.cpuLimit << " hold " << r.hold << " holdNode " << r.holdNode << " holdThreads " << r.holdThreads << " holdAt " << r.holdAt << '\n';
      for (int i = 0; i < r.nodes; ++i) { o << "argc " << r.args[(size_t)i].size() << " cores " << r.cores[(size_t)i] << '\n'; for (auto& a : r.args[(size_t)i]) str(o, "arg", a); }
      o << "files " << r.files.size() << '\n'; for (auto& f : r.files) { o << "node " << f.node << '\n'; str(o, "path", f.path); str(o, "text", f.text); }
      o << "faults " << r.faults.size() << '\n'; for (auto& f : r.faults) o << sim::faultNames[f.kind] << " node " << f.node << " at " << f.n << " arg " << f.arg << '\n';
      o << "choices " << r.choices.size() << '\n'; for (auto& x : r.choices) o << sim::choiceNames[x.kind] << ' ' << x.a << ' ' << x.b << ' ' << x.v << '\n';
   }
   o << "end\n"; return o.str();
}
struct In_ {
   std::istringstream s; std::string err;
   explicit In_(const std::string& t) : s(t) {}
   bool word(const char* k) { std::string w; if (!(s >> w) || w != k) { if (err.empty()) err = std::string("expected ") + k + ", found " + w; return false; } return true; }
   template <class T> bool num(const char* k, T& v) { long long x = 0; unsigned long long u = 0; if (!word(k)) return false; std::string w; s >> w; if (!w.empty() && w[0] == '-') { x = strtoll(w.c_str(), nullptr, 10); v = (T)x; } else { u = strtoull(w.c_str(), nullptr, 10); v = (T)u; } return true; }
   bool str(const char* k, std::string& v) { if (!word(k)) return false; size_t n = 0; char c; if (!(s >> n) || !s.get(c) || c != ':') { err = std::string("bad string ") + k; return false; } v.resize(n); if (n) s.read(&v[0], (std::streamsize)n); return (bool)s; }
   bool mat(const char* k, Mat& m) { size_t r = 0, w = 0; if (!word(k) || !(s >> r >> w)) return false; m.assign(r, Row(w)); for (auto& x : m) for (auto& v : x) s >> v; return (bool)s; }
};
bool deserialise(const std::string& t, Case& c, std::string& error)
{
   size_t b = t.find("panda-sim-case 1\n"); if (b == std::string::npos) { error = "not a case file"; return false; }
   In_ in(t.substr(b)); in.word("panda-sim-case"); int ver; in.s >> ver;
   Problem& p = c.p; size_t n = 0;
   bool ok = in.str("property", c.prop) && in.str("scenario", c.scenario) && in.num("seed", c.seed) && in.num("dd", c.dd) && in.str("family", p.family) && in.num("vertexMode", p.vertexMode) && in.num("d", p.d) && in.num("big", p.big)
      && in.mat("gens", p.gens) && in.mat("eqs", p.eqs) && in.mat("reduced", p.reduced) && in.mat("known", p.known) && in.mat("base", p.base) && in.mat("baseEqs", p.baseEqs);
   ok = ok && in.num("names", n); p.names.resize(ok ? n : 0); for (auto& x : p.names) ok = ok && in.str("name", x);
   ok = ok && in.num("maps", n); p.maps.resize(ok ? n : 0); for (auto& x : p.maps) ok = ok && in.mat("map", x);
   ok = ok && in.str("inputText", p.inputText) && in.str("knownText", p.knownText) && in.num("runs", n);
   c.runs.resize(ok ? n : 0);
   for (auto& r : c.runs) {
      int st = 0; ok = ok && in.word("run") && in.num("nodes", r.nodes) && in.num("mpi", r.mpi) && in.num("traced", r.traced) && in.num("bufMode", r.bufMode) && in.num("spurious", r.spurious) && in.num("eintr", r.eintr) && in.num("shortReads", r.shortReads) && in.num("clockSteps", r.clockSteps) && in.num("netMode", r.netMode) && in.num("strategy", st) && in.num("seed", r.seed) && in.num("stepLimit", r.stepLimit) && in.num("cpuLimit", r.cpuLimit) && in.num("hold", r.hold) && in.num("holdNode", r.holdNode) && in.num("holdThreads", r.holdThreads) && in.num("holdAt", r.holdAt);
      r.strategy = (sim::Strategy)st; if (!ok) break;
      for (int i = 0; i < r.nodes && ok; ++i) { size_t k = 0; int co = 0; ok = in.num("argc", k) && in.num("cores", co); r.cores.push_back(co); r.args.emplace_back(ok ? k : 0); for (auto& a : r.args.back()) ok = ok && in.str("arg", a); }
      ok = ok && in.num("files", n); r.files.resize(ok ? n : 0); for (auto& f : r.files) ok = ok && in.num("node", f.node) && in.str("path", f.path) && in.str("text", f.text);
      ok = ok && in.num("faults", n); r.faults.resize(ok ? n : 0);
      for (auto& f : r.faults) { std::string k; in.s >> k; f.kind = 255; for (int i = 0; i < sim::F_KINDS; ++i) if (k == sim::faultNames[i]) f.kind = (uint8_t)i; ok = ok && f.kind != 255 && in.num("node", f.node) && in.num("at", f.n) && in.num("arg", f.arg); }
      ok = ok && in.num("choices", n); r.choices.resize(ok ? n : 0);
      for (auto& x : r.choices) { std::string k; in.s >> k >> x.a >> x.b >> x.v; x.kind = 255; for (int i = 0; i < sim::C_KINDS; ++i) if (k == sim::choiceNames[i]) x.kind = (uint8_t)i; ok = ok && x.kind != 255; }
   }
   ok = ok && in.word("end"); if (!ok) error = "malformed case file: " + in.err;
   return ok;
}
