// Damaged files: takes the text of an input or known-data file and spoils one row so that the file is certainly no longer
// well-formed, whatever it described before.
#pragma once
#include <algorithm>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "problem.h"
#include "rng.h"
namespace damage {
using std::string; using std::vector;
enum { NAMES, MAPS, POINTS, RAYS, INEQS, EQS, END, NONE };
inline int section(string l)
{
   while (!l.empty() && (l.back() == '\r' || l.back() == ':' || l.back() == ' ')) l.pop_back();
   for (const char* pre : { "Reduced ", "REDUCED_" }) if (!l.compare(0, 8, pre)) l.erase(0, 8);
   static const std::set<string> kw[] = { { "Names", "NAMES", "INDEX", "INDICES", "Indices", "NAMES_SECTION" }, { "Maps", "MAPS", "MAP_SECTION", "MAPS_SECTION" }, { "Vertices", "CONV_SECTION", "CONVEX_HULL", "CONVEX_HULL_SECTION" },
      { "Rays", "CONE_SECTION", "CONICAL_HULL", "CONICAL_HULL_SECTION" }, { "Inequalities", "INEQUALITY_SECTION", "INEQUALITIES", "INEQUALITIES_SECTION" }, { "Equations", "EQUATIONS", "EQUATION_SECTION", "EQUATIONS_SECTION" }, { "END" } };
   for (int i = 0; i <= END; ++i) if (kw[i].count(l)) return i;
   return NONE;
}
struct Text { vector<string> line; vector<int> sec; };    // sec: of a row; NONE for keywords, empty lines and the dimension
inline Text split(const string& t)
{
   Text x; std::istringstream s(t); string l; int cur = NONE;
   while (std::getline(s, l)) { int k = section(l); bool blank = l.find_first_not_of(" \t\r") == string::npos; if (k != NONE) cur = k == END ? (int)NONE : k; x.line.push_back(l); x.sec.push_back(k != NONE || blank || !l.compare(0, 3, "DIM") ? (int)NONE : cur); }
   return x;
}
inline string join(const Text& x) { string s; for (auto& l : x.line) { s += l; s += '\n'; } return s; }
struct RowText { string id; vector<string> tok; };
inline RowText row(const string& l)
{
   RowText r; size_t p = 0; if (!l.empty() && l[0] == '(') { p = l.find(')') + 1; r.id = l.substr(0, p) + " "; }
   std::istringstream s(l.substr(p)); string t; while (s >> t) r.tok.push_back(t); return r;
}
inline string text(const RowText& r) { string s = r.id; for (size_t i = 0; i < r.tok.size(); ++i) { if (i) s += ' '; s += r.tok[i]; } return s; }
inline bool relation(const string& t) { return t == "<=" || t == ">=" || t == "=" || t == "=="; }
inline bool numeric(const string& t) { return !t.empty() && t.find_first_not_of("+-0123456789/") == string::npos; }
// "" if nothing in the file can be spoilt for certain
inline string spoil(const Problem& p, const string& file, bool known, Rng& r, string& what)
{
   Text x = split(file); vector<size_t> rows; size_t sized = 0; bool dim = known || !p.names.empty();
   for (size_t i = 0; i < x.line.size(); ++i) { if (!x.line[i].compare(0, 3, "DIM")) { dim = true; if (r.chance(1, 6)) { Text y = x; y.line[i] = r.chance(1, 4) ? "DIM=x" : "DIM=" + std::to_string(p.d + (r.chance(1, 2) || !p.d ? 1 : -1)); what = "another dimension"; return join(y); } } if (x.sec[i] != NONE) rows.push_back(i); if (x.sec[i] >= POINTS && x.sec[i] <= EQS) ++sized; }
   if (rows.empty()) return "";
   auto put = [&](RowText& w, const string& t) { w.tok.insert(w.tok.begin() + (long)r.below(w.tok.size() + 1), t); };
   for (int attempt = 0; attempt < 20; ++attempt) {
      Text y = x; size_t i = rows[r.below(rows.size())]; int sec = x.sec[i]; RowText w = row(x.line[i]); if (w.tok.empty()) continue; unsigned k = (unsigned)r.below(8);
      bool named = false; for (auto& t : w.tok) if (!numeric(t) && !relation(t)) named = true;
      size_t j = i + 1 < x.line.size() && x.sec[i + 1] == sec ? i + 1 : 0; RowText v; if (j) v = row(x.line[j]);
      auto done = [&](const string& how) { what = how + " in row " + std::to_string(i + 1); y.line[i] = text(w); return join(y); };
      if (sec == NAMES) { if (p.vertexMode || w.tok.size() < 2) continue; if (k < 4) { w.tok.erase(w.tok.begin() + (long)r.below(w.tok.size())); return done("a missing name"); } put(w, "zzz"); return done("an excess name"); }
      if (sec == MAPS) {
         if (r.chance(1, 6)) { w.tok[r.below(w.tok.size())] += r.chance(1, 2) ? "-" : r.chance(1, 2) ? "+" : "-+1"; return done("a sign without a term"); }
         if (k < 2) { w.tok[r.below(w.tok.size())] = r.chance(1, 2) ? "zzz" : "1.5"; return done("an unknown variable"); }
         if (k < 4 && w.tok.size() > 1) { w.tok.erase(w.tok.begin() + (long)r.below(w.tok.size())); return done("a missing image"); }
         if (k < 6) { put(w, r.chance(1, 2) ? "1" : p.names[r.below(p.names.size())]); return done("an excess image"); }
         if (k == 6 && j) { w.tok.insert(w.tok.end(), v.tok.begin(), v.tok.end()); y.line.erase(y.line.begin() + (long)j); return done("a missing line break"); }
         if (k == 7 && w.tok.size() > 1) { size_t c = 1 + r.below(w.tok.size() - 1); RowText z; z.tok.assign(w.tok.begin() + (long)c, w.tok.end()); w.tok.resize(c); y.line.insert(y.line.begin() + (long)i + 1, text(z)); return done("an excess line break"); }
         continue;
      }
      bool pts = sec == POINTS || sec == RAYS, sure = dim || sized >= 3;   // rows of another length cannot become the norm
      static const char* junkP[] = { "x", "1.5", "99999999999", "-", "1/0", "?", "#", "--1", "1e3", "2147483648", "1/x" };
      static const char* junkR[] = { "?", "1.5", "99999999999", "/", "<", "=<", "#", "--1" };
      if (!pts && r.chance(1, 8)) { // a row that breaks off after a sign
         size_t n = r.below(w.tok.size()); if (!named) n = w.tok.size() - 1; w.tok.resize(n); w.tok.push_back(r.chance(3, 4) ? "-" : "+"); return done("a row that breaks off"); }
      if (k < 2) { string t = pts ? junkP[r.below(11)] : junkR[r.below(8)]; put(w, t); return done("an excess \"" + t + "\""); }
      if (k == 2) { string t = pts ? junkP[r.below(11)] : junkR[r.below(8)]; size_t q = r.below(w.tok.size()); if (!pts && relation(w.tok[q]) && (t == "=<" || t == "<")) {} else if (!pts && relation(w.tok[q])) continue; w.tok[q] = t; return done("\"" + t + "\" instead of a number"); }
      if (k == 3) { // a missing number
         size_t q = r.below(w.tok.size()); if (named) q = w.tok.size() - 1; else if (!sure || !numeric(w.tok[q]) || w.tok.size() < 2) continue;
         bool rel = named; for (auto& t : w.tok) rel |= relation(t); if (!named && rel && q + 1 != w.tok.size() && !sure) continue;
         if (!pts && !named && !rel && w.tok.size() < 3) continue;
         w.tok.erase(w.tok.begin() + (long)q); return done("a missing number"); }
      if (k == 4) { if (!named && !sure) continue; if (named) w.tok.push_back("7"); else put(w, "7"); return done("an excess number"); }
      if (k == 5) { // two rows in one
         if (!j) continue; bool n2 = false; for (auto& t : v.tok) if (!numeric(t) && !relation(t)) n2 = true; if (named != n2) continue; if (!named && !(known || sized >= 4 || dim)) continue;
         w.tok.insert(w.tok.end(), v.tok.begin(), v.tok.end()); y.line.erase(y.line.begin() + (long)j); return done("a missing line break"); }
      if (k == 6) { // one row in two
         if (named || !sure || w.tok.size() < 2 || !pts) continue; size_t c = 1 + r.below(w.tok.size() - 1); RowText z; z.tok.assign(w.tok.begin() + (long)c, w.tok.end()); w.tok.resize(c); y.line.insert(y.line.begin() + (long)i + 1, text(z)); return done("an excess line break"); }
      if (!pts) { // the wrong kind of relation, or none
         size_t q = 0; while (q < w.tok.size() && !relation(w.tok[q])) ++q; if (q == w.tok.size()) continue;
         if (named && r.chance(1, 2)) { w.tok.erase(w.tok.begin() + (long)q); return done("no relation"); }
         w.tok[q] = sec == EQS ? "<=" : "="; return done("the wrong relation"); }
   }
   return "";
}
}
