#include "problem.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <numeric>
#include <sstream>
using namespace geom;
static ll g_(ll a, ll b) { a = std::abs(a); b = std::abs(b); while (b) { ll t = a % b; a = b; b = t; } return a; }
static void normRow(Row& r) { ll g = 0; for (ll x : r) g = g_(g, x); if (g > 1) for (auto& x : r) x /= g; }
std::string rowStr(const Row& r) { std::string s = "("; for (size_t i = 0; i < r.size(); ++i) s += (i ? " " : "") + std::to_string(r[i]); return s + ")"; }
std::string bitsStr(const Bits& b) { std::string s; for (bool x : b) s += x ? '1' : '0'; return s; }

Mat Problem::cone() const {
   Mat m = gens;
   if (vertexMode) {
      for (auto& e : eqs) { m.push_back(e); Row n = e; for (auto& x : n) x = -x; m.push_back(n); }
      Row t(d + 1, 0); t[d] = -1; m.push_back(t);
   }
   return m;
}
static Row applyPoint(const Mat& M, const Row& g) { // affine map on a homogeneous point
   size_t d = M.size(); Row r(d + 1, 0); for (size_t i = 0; i < d; ++i) for (size_t j = 0; j <= d; ++j) r[i] += M[i][j] * g[j];
   r[d] = g[d]; normRow(r); return r;
}
static Row applyIneq(const Mat& M, const Row& a) { // a o M
   size_t d = M.size(); Row r(d + 1, 0); for (size_t i = 0; i < d; ++i) for (size_t j = 0; j <= d; ++j) r[j] += a[i] * M[i][j];
   r[d] += a[d]; normRow(r); return r;
}
Expected expect(const Problem& p) {
   Expected e;
   try {
      if (!p.base.empty()) { Problem q = p; q.gens = p.base; q.eqs = p.baseEqs; q.base.clear(); e = expect(q); e.cone = p.cone(); return e; }
      e.cone = p.cone(); Mat& c = e.cone; size_t w = p.d + 1;
      if (c.empty()) { e.why = "empty"; return e; }
      int rk = rank(c); e.eqRank = p.vertexMode ? 0 : (int)w - rk;
      if (p.vertexMode && rk != (int)w) { e.why = "polyhedron has a line"; return e; }
      if (!p.vertexMode && rk < 2) { e.why = "single point"; return e; }
      Facets f = facets(c, w);
      if (!p.vertexMode && !f.pointed) { e.why = "polyhedron has a line"; return e; }
      for (auto& b : f.incidence) {
         bool use = true;
         if (!p.vertexMode) { use = false; for (size_t i = 0; i < c.size(); ++i) if (b[i] && c[i][p.d] > 0) use = true; }
         if (use) e.results.insert(b);
      }
      if (!p.vertexMode) { bool anyv = false; for (auto& r : c) if (r[p.d] > 0) anyv = true; if (!anyv) { e.why = "no vertex"; return e; } }
      if (e.results.empty()) { e.why = "no results"; return e; }
      // classes
      std::vector<std::vector<int>> perms;
      for (auto& M : p.maps) {
         std::vector<int> perm; std::map<Row, int> idx; for (size_t i = 0; i < c.size(); ++i) { Row r = c[i]; normRow(r); if (!idx.count(r)) idx[r] = (int)i; else { e.why = "duplicate generator with maps"; return e; } }
         for (auto& g : c) { Row r = p.vertexMode ? applyIneq(M, g) : applyPoint(M, g); auto it = idx.find(r); if (it == idx.end()) { e.why = "map is no bijection"; return e; } perm.push_back(it->second); }
         perms.push_back(perm);
      }
      for (auto& b : e.results) {
         if (e.cls.count(b)) continue;
         int id = e.classes++; std::vector<Bits> q{b}; e.cls[b] = id;
         while (!q.empty()) { Bits x = q.back(); q.pop_back(); for (auto& pm : perms) { Bits y(x.size()); for (size_t i = 0; i < x.size(); ++i) y[i] = x[pm[i]]; 
            if (!e.results.count(y)) { e.why = "map does not preserve results"; return e; }
            if (!e.cls.count(y)) { e.cls[y] = id; q.push_back(y); } } }
      }
      e.decided = true;
   } catch (Overflow&) { e.why = "oracle overflow"; }
   return e;
}
static Row resultRow(const Problem& p, const Expected& e, const Bits& b) {
   Mat inc; for (size_t i = 0; i < b.size(); ++i) if (b[i]) inc.push_back(e.cone[i]);
   Mat ns = inc.empty() ? Mat() : nullspace(inc, p.d + 1);
   if (inc.empty()) for (int i = 0; i <= p.d; ++i) { Row r(p.d + 1, 0); r[i] = 1; ns.push_back(r); }
   for (auto& a : ns) { int sg = 0; bool ok = true; for (size_t i = 0; i < b.size(); ++i) { i128 s = dot(a, e.cone[i]); if (b[i] != (s == 0)) { ok = false; break; } if (s > 0) sg = 1; else if (s < 0) sg = -1; }
      if (ok) { Row r = a; if (sg > 0) for (auto& x : r) x = -x; return r; } }
   return {};
}
template <class T> static void shuffle(Rng& rng, std::vector<T>& v);
static void makeNames(Problem& p, Rng& rng, bool need);
static bool fits(i128 v) { return v <= 2147483647ll && v >= -2147483647ll; }
// r without the coordinates the equations (in echelon form) determine, in lowest terms
static std::vector<i128> normalForm(const Row& r, const Mat& eqs, i128& factor) {
   std::vector<i128> x(r.begin(), r.end()); factor = 1;
   for (auto& q : eqs) { size_t k = 0; while (!q[k]) ++k; if (!x[k]) { factor *= q[k]; for (auto& v : x) if (__builtin_mul_overflow(v, (i128)q[k], &v)) throw Overflow(); continue; } i128 a = x[k], f = q[k]; factor *= f; for (size_t j = 0; j < x.size(); ++j) { i128 y, z; if (__builtin_mul_overflow(x[j], f, &y) || __builtin_mul_overflow(a, (i128)q[j], &z) || __builtin_sub_overflow(y, z, &x[j])) throw Overflow(); } }
   return x;
}
static void lowest(std::vector<i128*> v) { i128 g = 0; for (auto x : v) { i128 a = g, b = *x < 0 ? -*x : *x; while (b) { i128 t = a % b; a = b; b = t; } g = a; } if (g > 1) for (auto x : v) *x /= g; }
bool resultsFitInt(const Problem& p) {
   try {
      Expected e = expect(p); if (!e.decided) return false;
      Problem q; if (!p.inverse.empty()) { if (e.eqRank || !p.eqs.empty()) return false; q = p; q.gens = p.base; q.eqs = p.baseEqs; q.base.clear(); e = expect(q); }
      Mat eqs = p.vertexMode ? Mat() : echelon(nullspace(e.cone, p.d + 1), p.d + 1); i128 f; if (eqs.size() > 3) return false;
      for (auto& r : eqs) for (ll v : r) if (!fits(v)) return false;
      for (auto& b : e.results) { Row r = resultRow(p.inverse.empty() ? p : q, e, b); if (r.empty()) return false; if (!p.inverse.empty()) r = p.vertexMode ? applyPoint(p.inverse, r) : applyIneq(p.inverse, r); auto x = normalForm(r, eqs, f); std::vector<i128*> ps; for (auto& v : x) ps.push_back(&v); lowest(ps); for (auto v : x) if (!fits(v)) return false; }
      // the maps, on inequalities modulo the equations
      for (auto& M : p.maps) {
         std::vector<std::vector<i128>> rows; std::vector<char> piv(p.d + 1, 0); for (auto& q : eqs) { size_t k = 0; while (!q[k]) ++k; piv[k] = 1; }
         for (int i = 0; i <= p.d; ++i) if (!piv[i]) { Row u(p.d + 1, 0), r(p.d + 1, 0); u[i] = 1; for (int a = 0; a < p.d; ++a) for (int b = 0; b <= p.d; ++b) r[b] += u[a] * M[a][b]; r[p.d] += u[p.d]; rows.push_back(normalForm(r, eqs, f)); }
         std::vector<i128*> ps; for (auto& r : rows) for (auto& v : r) ps.push_back(&v); lowest(ps); for (auto v : ps) if (!fits(*v)) return false;
      }
      return true;
   } catch (Overflow&) { return false; }
}
void blowUpSymmetric(Problem& p, Rng& rng, long long scale) {
   int d = p.d; auto val = [&] { ll v = (ll)rng.below((uint64_t)scale) + 1; if (rng.chance(1, 3)) { int top = 0; while ((2ll << top) <= scale) ++top; v = 1ll << (rng.chance(1, 2) ? top / 2 : rng.range(1, std::max(1, top))); if (rng.chance(1, 2)) v += rng.range(0, 1); } return v; };
   int copies = p.vertexMode || p.names.empty() ? 0 : rng.range(0, d <= 3 ? 2 : 1); std::vector<ll> c(1 + copies, 1); for (auto& x : c) x = val(); if (copies && rng.chance(3, 4)) c[0] = 1;
   bool sum = copies && rng.chance(1, 2);            // invariant sums instead of copies, where only coordinates are permuted
   for (auto& M : p.maps) for (auto& r : M) { int n = 0; for (ll v : r) n += v != 0; for (ll v : r) if (v && v != 1) sum = false; if (n != 1 || r[d]) sum = false; }
   int per = sum ? 1 : d, D = d + copies * per; if (D > 9) return;
   std::vector<int> perm(D); std::iota(perm.begin(), perm.end(), 0); shuffle(rng, perm);
   auto big = [&](const Row& g) { Row r(D + 1, 0); r[D] = g[d]; for (int i = 0; i < d; ++i) r[perm[i]] = c[0] * g[i]; for (int k = 0; k < copies; ++k) for (int i = 0; i < d; ++i) r[perm[sum ? d + k : d + k * d + i]] += c[1 + k] * g[i]; return r; };
   Mat g2; std::vector<Mat> m2; auto lim = [](const Row& r) { for (ll v : r) if (v > 2000000000ll || v < -2000000000ll) return false; return true; };
   for (auto& g : p.gens) { Row r = p.vertexMode ? g : big(g); if (p.vertexMode) { r[d] *= c[0]; normRow(r); } if (!lim(r)) return; g2.push_back(r); }
   for (auto& M : p.maps) {
      Mat N(D, Row(D + 1, 0));
      for (int i = 0; i < d; ++i) { if (p.vertexMode) { N[i] = M[i]; N[i][d] *= c[0]; continue; } for (int j = 0; j < d; ++j) N[perm[i]][perm[j]] = M[i][j]; N[perm[i]][D] = c[0] * M[i][d]; }
      for (int k = 0; k < copies; ++k) { if (sum) { N[perm[d + k]][perm[d + k]] = 1; continue; } for (int i = 0; i < d; ++i) { for (int j = 0; j < d; ++j) N[perm[d + k * d + i]][perm[d + k * d + j]] = M[i][j]; N[perm[d + k * d + i]][D] = c[1 + k] * M[i][d]; } }
      for (auto& r : N) if (!lim(r)) return; m2.push_back(N);
   }
   p.gens = g2; p.maps = m2; p.reduced.clear(); p.family += "+huge"; p.d = D; if (!p.names.empty()) { p.names.clear(); makeNames(p, rng, true); }
}
void addKnown(Problem& p, const Expected& e, Rng& rng, int mode) {
   std::vector<Row> all; for (auto& b : e.results) { Row r = resultRow(p, e, b); if (!r.empty()) all.push_back(r); }
   if (all.empty()) return;
   for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[rng.below(i)]);
   size_t n = mode == 0 ? 1 : mode == 1 ? all.size() : 1 + rng.below(all.size());
   Mat eq = p.vertexMode ? Mat() : nullspace(e.cone, p.d + 1);
   for (size_t i = 0; i < n; ++i) {
      Row r = all[i];
      for (auto& q : eq) { ll k = rng.range(-1, 1); for (size_t j = 0; j < r.size(); ++j) r[j] += k * q[j]; }
      if (rng.chance(1, 6) && (!p.vertexMode || r[p.d] == 0)) { ll k = rng.range(2, 3); for (auto& x : r) x *= k; }
      p.known.push_back(r);
      if (rng.chance(1, 8)) p.known.push_back(r);
   }
}
void blowUp(Problem& p, Rng& rng, long long scale) {
   // x = T y (+ c): lower triangular times upper triangular integer matrices with non-zero diagonal
   int d = p.d; Mat T(d, Row(d + 1, 0));
   bool special = rng.chance(2, 3), pure = rng.chance(1, 2);    // next to powers of two, where carries and borrows run through whole words
   auto val = [&]() -> ll {
      ll v = (ll)rng.below((uint64_t)scale) + 1;
      if (special) { int top = 0; while ((2ll << top) <= scale) ++top; v = (1ll << (rng.chance(pure ? 2 : 1, 3) ? top : rng.range(std::min(1, top), top))) + (pure || rng.chance(1, 2) ? 0 : rng.range(-1, 1)); if (v <= 0) v = 1; }
      return rng.chance(1, 2) ? v : -v; };
   Mat U; if (d > 4) scale = std::min(scale, (1ll << 30) / d);
   switch (rng.below(d > 2 ? 6 : 4)) {
   case 4: case 5: { // unimodular in two blocks, x = (y1 + C y2 + c, y2): huge minors, but an inverse of the same size
      scale = std::min(scale, 1ll << 28); int dense = rng.chance(1, 2) ? 3 : 1;
      std::vector<int> up(d), perm(d); int n = 0; for (int i = 0; i < d; ++i) { up[i] = rng.chance(1, 2); n += up[i]; } if (n == 0) up[0] = 1; if (n == d) up[0] = 0;
      U = T; for (int i = 0; i < d; ++i) { T[i][i] = U[i][i] = 1; if (!up[i]) continue; for (int j = 0; j < d; ++j) if (!up[j] && rng.chance(dense, 4)) { T[i][j] = val(); U[i][j] = -T[i][j]; } if (rng.chance(1, 4)) { T[i][d] = val(); U[i][d] = -T[i][d]; } }
      for (int k = rng.range(0, d); k > 0; --k) { int i = (int)rng.below(d), j = (int)rng.below(d); if (i == j) continue; ll c = rng.chance(1, 2) ? 1 : -1; for (int q = 0; q <= d; ++q) T[i][q] += c * T[j][q]; for (int q = 0; q < d; ++q) U[q][j] -= c * U[q][i]; }
      break; }
   case 0: for (int i = 0; i < d; ++i) { T[i][i] = val(); T[i][d] = rng.chance(1, 3) ? val() : 0; } break; // scaling and translation
   case 1: for (int i = 0; i < d; ++i) { T[i][i] = 1; T[i][d] = rng.chance(1, 4) ? val() : 0; } // unimodular: the results stay small enough to be printed
      for (int k = rng.range(1, d); k > 0 && d > 1; --k) { int i = (int)rng.below(d), j = (int)rng.below(d); if (i != j) { ll c = val(); for (int q = 0; q < d; ++q) { ll x = T[i][q] + c * T[j][q]; if (x <= 2000000000ll && x >= -2000000000ll) T[i][q] = x; else return; } } } break;
   default: for (int i = 0; i < d; ++i) { T[i][i] = rng.chance(1, 3) ? 1 : val(); for (int j = 0; j < i; ++j) if (rng.chance(1, 2)) T[i][j] = val(); T[i][d] = rng.chance(1, 2) ? val() : 0; }
   }
   int shift = (int)rng.below(d); std::rotate(T.begin(), T.begin() + shift, T.end());
   for (auto& u : U) std::rotate(u.begin(), u.begin() + shift, u.begin() + d);
   Mat g2, e2;
   auto lim = [](const Row& r) { for (ll v : r) if (v > 2000000000ll || v < -2000000000ll) return false; return true; };
   auto point = [&](const Row& g) { Row r(d + 1, 0); for (int i = 0; i < d; ++i) for (int j = 0; j <= d; ++j) r[i] += T[i][j] * g[j]; r[d] = g[d]; return r; };
   auto ineq = [&](const Row& a) { Row r(d + 1, 0); for (int i = 0; i < d; ++i) for (int j = 0; j <= d; ++j) r[j] += a[i] * T[i][j]; r[d] += a[d]; return r; };
   for (auto& g : p.gens) { Row r = p.vertexMode ? ineq(g) : point(g); if (!lim(r)) return; g2.push_back(r); }
   for (auto& g : p.eqs) { Row r = ineq(g); if (!lim(r)) return; e2.push_back(r); }
   p.base = p.gens; p.baseEqs = p.eqs; p.gens = g2; p.eqs = e2; p.inverse = U; p.family += "+huge";
}
// ---------------------------------------------------------------- generation
static Row homog(const Row& x, ll t) { Row r = x; for (auto& v : r) v *= 1; r.push_back(t); return r; }
static std::vector<Row> structuredPoints(Rng& rng, int& d, int maxd, std::string& fam, int big) {
   std::vector<Row> pts; int kind = (int)rng.below(7);
   auto unit = [&](int n, int i, ll v) { Row r(n, 0); r[i] = v; return r; };
   if (big) kind = (int)rng.below(3);
   d = rng.range(2, maxd);
   switch (kind) {
   case 0: fam = "cube"; if (big) d = rng.range(5, 7); for (int m = 0; m < (1 << d); ++m) { Row r(d); for (int i = 0; i < d; ++i) r[i] = (m >> i) & 1; pts.push_back(r); } break;
   case 1: fam = "cross"; if (big) d = 5; for (int i = 0; i < d; ++i) { pts.push_back(unit(d, i, 1)); pts.push_back(unit(d, i, -1)); } break;
   case 2: fam = "cyclic"; { int n = d + 1 + (int)rng.below(4); d = std::min(d, 4); if (big) { d = 3; n = 10; } n = std::max(n, d + 1); for (int i = 0; i < n; ++i) { Row r(d); ll t = i - n / 2, v = 1; for (int k = 0; k < d; ++k) { v *= t; r[k] = v; } pts.push_back(r); } } break;
   case 3: fam = "simplex"; pts.push_back(Row(d, 0)); for (int i = 0; i < d; ++i) pts.push_back(unit(d, i, rng.range(1, 2))); break;
   case 4: fam = "prism"; { if (d < 2) d = 2; int n = rng.range(3, 5); std::vector<Row> base; for (int i = 0; i < n; ++i) { Row r(d - 1); for (auto& v : r) v = rng.range(-2, 2); base.push_back(r); } for (auto& b : base) for (int s = 0; s < 2; ++s) { Row r = b; r.push_back(s); pts.push_back(r); } } break;
   case 5: fam = "pyramid"; { if (d < 2) d = 2; int n = rng.range(3, 6); for (int i = 0; i < n; ++i) { Row r(d, 0); for (int k = 0; k + 1 < d; ++k) r[k] = rng.range(-2, 2); pts.push_back(r); } Row ap(d, 0); ap[d - 1] = rng.range(1, 2); pts.push_back(ap); } break;
   default: fam = "hypersimplex"; { int n = std::min(d + 1, 5), k = rng.range(1, n - 1); d = n - 1; for (int m = 0; m < (1 << n); ++m) if (__builtin_popcount(m) == k) { Row r(d); for (int i = 0; i < d; ++i) r[i] = (m >> i) & 1; pts.push_back(r); } } break;
   }
   return pts;
}
static void unimodular(Rng& rng, std::vector<Row>& pts, int d, int steps) {
   for (int s = 0; s < steps; ++s) { int i = (int)rng.below(d), j = (int)rng.below(d); if (i == j) { ll t = rng.range(-1, 1); for (auto& p : pts) p[i] += t; continue; } ll k = rng.chance(1, 2) ? 1 : -1; for (auto& p : pts) p[i] += k * p[j]; }
}
static Mat signedPerm(Rng& rng, int d, bool signs) {
   std::vector<int> perm(d); std::iota(perm.begin(), perm.end(), 0);
   int kind = (int)rng.below(3);
   if (kind == 0 && d > 1) std::swap(perm[rng.below(d)], perm[rng.below(d)]);
   else if (kind == 1) std::rotate(perm.begin(), perm.begin() + 1, perm.end());
   else for (int i = d; i > 1; --i) std::swap(perm[i - 1], perm[rng.below(i)]);
   Mat M(d, Row(d + 1, 0)); for (int i = 0; i < d; ++i) M[i][perm[i]] = (signs && rng.chance(1, 3)) ? -1 : 1;
   return M;
}
static Mat flip01(int d, int i) { Mat M(d, Row(d + 1, 0)); for (int k = 0; k < d; ++k) M[k][k] = 1; M[i][i] = -1; M[i][d] = 1; return M; }
static Mat shear(Rng& rng, int d) { // order-3 unimodular map x -> -x-y, y -> x on two coordinates
   Mat M(d, Row(d + 1, 0)); for (int k = 0; k < d; ++k) M[k][k] = 1; int i = (int)rng.below(d), j = (i + 1) % d; M[i][i] = -1; M[i][j] = -1; M[j][i] = 1; M[j][j] = 0; return M; }
static Mat compose(const Mat& A, const Mat& B) { int d = (int)A.size(); Mat C(d, Row(d + 1, 0)); for (int i = 0; i < d; ++i) { for (int k = 0; k < d; ++k) for (int j = 0; j <= d; ++j) C[i][j] += A[i][k] * B[k][j]; C[i][d] += A[i][d]; } return C; }
static bool isIdentity(const Mat& M) { int d = (int)M.size(); for (int i = 0; i < d; ++i) for (int j = 0; j <= d; ++j) if (M[i][j] != (i == j)) return false; return true; }
static void closeOrbit(std::vector<Row>& hom, const std::vector<Mat>& maps, bool ineq, size_t limit) {
   std::set<Row> s(hom.begin(), hom.end()); std::vector<Row> q(hom.begin(), hom.end());
   hom.assign(s.begin(), s.end());
   while (!q.empty() && s.size() <= limit) { Row r = q.back(); q.pop_back(); for (auto& M : maps) { Row n = ineq ? applyIneq(M, r) : applyPoint(M, r); if (s.insert(n).second) { q.push_back(n); hom.push_back(n); } } }
}
static std::vector<Row> randomPoints(Rng& rng, int d, int n, int k) { std::vector<Row> pts; for (int i = 0; i < n; ++i) { Row r(d); for (auto& v : r) v = rng.range(-k, k); pts.push_back(r); } return pts; }
template <class T> static void shuffle(Rng& rng, std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[rng.below(i)]); }

static void makeNames(Problem& p, Rng& rng, bool need) {
   if (!need && rng.chance(2, 5)) return;
   if (rng.chance(1, 16)) { bool deep = rng.chance(1, 2); int n = rng.chance(1, 4) ? rng.range(100, 600) : rng.range(10, 60); std::string stem; if (!deep) for (int i = 0; i < n; ++i) stem += char('a' + rng.below(26)); for (int i = 0; i < p.d; ++i) p.names.push_back(deep ? std::string((size_t)i + 1, 'x') : stem + "_" + std::to_string(i)); if (deep && rng.chance(1, 2)) std::reverse(p.names.begin(), p.names.end()); return; }   // one name begins with another one; very long names
   int kind = (int)rng.below(4); static const char* L[] = {"x", "y", "z", "u", "v", "w", "p", "q", "r", "s"};
   for (int i = 0; i < p.d; ++i) p.names.push_back(kind == 0 && p.d <= 10 ? std::string(L[i]) : kind == 1 ? "x" + std::to_string(i + 1) : kind == 2 ? std::string("var_") + char('a' + i) : (i % 2 ? "y" : "x") + std::string("#") + std::to_string(i));
}
#include "families.h"
// crowded inputs: interior points first (or last), so that the extreme ones lie in the last words of a bitset
static void outward(std::vector<Row>& V, int d, bool inward) {
   std::vector<double> c(d, 0); for (auto& v : V) for (int i = 0; i < d; ++i) c[i] += (double)v[i] / (double)v[d] / (double)V.size();
   auto dist = [&](const Row& v) { double s = 0; for (int i = 0; i < d; ++i) { double x = (double)v[i] / (double)v[d] - c[i]; s += x * x; } return s; };
   std::stable_sort(V.begin(), V.end(), [&](const Row& a, const Row& b) { return inward ? dist(a) > dist(b) : dist(a) < dist(b); });
}
static void genFacet(Problem& p, Rng& rng, const GenOpts& o) {
   std::vector<Row> pts, rays; int maxd = o.size == 0 ? 3 : o.size == 1 ? 4 : 5; int d;
   bool maps = o.requireMaps || (o.maps && rng.chance(1, 4));
   if (maps && o.size && rng.chance(1, 4)) {
      fam::Rows x = fam::symmetric(rng, d, p.maps, p.family); p.d = d; shuffle(rng, p.maps); for (auto& r : x) p.gens.push_back(homog(r, 1)); shuffle(rng, p.gens);
      if (rng.chance(1, 4)) for (auto& g : p.gens) g[d] = 2; // fractions: half the polytope; affine maps then need even offsets
      if (p.gens[0][d] == 2) for (auto& M : p.maps) for (auto& r : M) if (r[d]) { for (auto& g : p.gens) g[d] = 1; break; }
      makeNames(p, rng, true); return;
   }
   if (maps) {
      d = rng.range(2, std::min(maxd, 4)); int nm = rng.range(1, 3); int kind = (int)rng.below(5);
      p.family = "symmetric"; p.d = d; std::vector<Row> hom;
      for (int i = 0; i < nm; ++i) p.maps.push_back(signedPerm(rng, d, kind == 1));
      if (kind == 2) p.maps.push_back(flip01(d, (int)rng.below(d)));
      if (kind == 3) { p.maps.clear(); p.maps.push_back(shear(rng, d)); }
      if (kind == 4) { // lower-dimensional: coordinates sum to a constant; only permutations
         p.family = "symmetric-lowdim"; p.maps.clear(); for (int i = 0; i < nm; ++i) p.maps.push_back(signedPerm(rng, d, false));
      }
      p.maps.erase(std::remove_if(p.maps.begin(), p.maps.end(), isIdentity), p.maps.end());
      if (p.maps.empty()) p.maps.push_back(d > 1 ? [&] { Mat M(d, Row(d + 1, 0)); for (int i = 0; i < d; ++i) M[i][(i + 1) % d] = 1; return M; }() : flip01(d, 0));
      int n = rng.range(1, 3); ll t = rng.chance(1, 5) ? rng.range(2, 3) : 1;
      for (int i = 0; i < n + (kind == 4 ? 1 : 0); ++i) { Row x(d); for (auto& v : x) v = rng.range(kind == 2 ? 0 : -2, 2); if (kind == 4) { ll s = 0; for (int j = 0; j + 1 < d; ++j) s += x[j]; x[d - 1] = 2 - s; } hom.push_back(homog(x, kind == 4 ? 1 : t)); normRow(hom.back()); }
      if (rng.chance(1, 6) && kind != 4) { Row x(d); for (auto& v : x) v = rng.range(0, 2); if (std::any_of(x.begin(), x.end(), [](ll v) { return v; })) { Row r = homog(x, 0); normRow(r); hom.push_back(r); } }
      closeOrbit(hom, p.maps, false, o.size == 0 ? 14 : 28);
      std::vector<Row> V, R; for (auto& h : hom) (h[d] ? V : R).push_back(h);
      shuffle(rng, V); shuffle(rng, R); p.gens = V; p.gens.insert(p.gens.end(), R.begin(), R.end());
      makeNames(p, rng, true);
      return;
   }
   int fam = (int)rng.below(o.big ? 3 : 6);
   if (o.big) { d = 0; pts = structuredPoints(rng, d, maxd, p.family, 1); p.family = "big-" + p.family; p.big = true; if (rng.chance(1, 2)) unimodular(rng, pts, d, 2); fam = -1; }
   else if (fam <= 1) { d = 0; pts = structuredPoints(rng, d, maxd, p.family, 0); unimodular(rng, pts, d, rng.range(0, 4)); }
   else { d = rng.range(1, maxd); p.family = "random"; pts = randomPoints(rng, d, d + 1 + (int)rng.below(o.size == 0 ? 3 : 5), rng.range(1, o.maxCoord)); }
   if (!o.big && o.size && rng.chance(o.crowd, 100)) {
      d = 0; fam = (int)rng.below(3); pts = fam == 0 ? fam::gridPyramid(rng, d, p.family, o.crowd > 1 ? 13000 : 0) : fam == 1 ? fam::cloud(rng, d, p.family) : fam::polygon(rng, d, p.family);
      if (rng.chance(1, 2)) unimodular(rng, pts, d, rng.range(1, 3));
      fam = rng.chance(1, 8) ? 4 : rng.chance(1, 6) ? 3 : -1;
   }
   else if (!o.big && (o.size || o.huge) && rng.chance(o.huge ? 3 : 1, 5)) { pts = o.huge && rng.chance(1, 2) ? fam::tall(rng, d, p.family) : fam::named(rng, d, p.family); fam = -1; if (rng.chance(1, 3)) unimodular(rng, pts, d, rng.range(1, 3)); }
   if (o.many && rng.chance(o.many, 100)) { pts = fam::manyRidges(rng, d, p.family); rays.clear(); fam = -1; if (rng.chance(1, 2)) unimodular(rng, pts, d, rng.range(1, 3)); }
   else if (!o.big && o.size && !o.huge && rng.chance(1, 10)) { pts.clear(); fam::cone(rng, d, p.family, pts, rays); fam = -1; }
   if (o.big && rng.chance(1, 3)) { // redundant points, so that the number of generators crosses word boundaries
      int extra = rng.range(1, 40); for (int i = 0; i < extra; ++i) { const Row& a = pts[rng.below(pts.size())]; pts.push_back(a); }
   }
   if (fam == 3 && d >= 1) { // unbounded
      p.family += "+rays"; int n = rng.range(1, d); for (int i = 0; i < n; ++i) { Row r(d); bool nz = false; for (auto& v : r) { v = rng.range(-1, 2); nz |= v != 0; } if (nz) rays.push_back(r); }
   }
   if (fam == 4) { // lower-dimensional
      p.family += "+lowdim"; int extra = rng.range(1, 2); std::vector<std::pair<Row, ll>> rows; for (int k = 0; k < extra; ++k) { Row c(d); for (auto& v : c) v = rng.range(-1, 1); rows.push_back({c, rng.range(-1, 1)}); }
      std::vector<int> pos; for (auto& x : pts) { Row y = x; for (auto& r : rows) { ll s = r.second; for (int i = 0; i < d; ++i) s += r.first[i] * x[i]; y.push_back(s); } x = y; }
      d += extra; std::vector<int> perm(d); std::iota(perm.begin(), perm.end(), 0); shuffle(rng, perm); for (auto& x : pts) { Row y(d); for (int i = 0; i < d; ++i) y[i] = x[perm[i]]; x = y; }
      if (rng.chance(1, 3)) { int n = (int)rng.below(2) + 1; for (int i = 0; i < n && !pts.empty(); ++i) { const Row &a = pts[rng.below(pts.size())], &b = pts[rng.below(pts.size())]; Row r(d); bool nz = false; for (int j = 0; j < d; ++j) { r[j] = a[j] - b[j]; nz |= r[j] != 0; } if (nz) rays.push_back(r); } }
   }
   p.d = d; std::vector<Row> V, R;
   for (auto& x : pts) V.push_back(homog(x, 1));
   for (auto& x : rays) { Row r = homog(x, 0); normRow(r); if (rng.chance(1, 4)) { ll k = rng.range(2, 3); for (auto& v : r) v *= k; } R.push_back(r); }
   if (fam == 5) { p.family += "+frac"; for (auto& v : V) v[d] = rng.range(1, 3); }
   if (rng.chance(1, 8) && !V.empty()) { V.push_back(V[rng.below(V.size())]); p.family += "+dup"; }
   if (rng.chance(1, 8) && !V.empty()) for (int n = rng.range(1, 3); n > 0; --n) { // redundant: midpoints, points along rays, sums of rays
      const Row &a = V[rng.below(V.size())], &b = R.empty() || rng.chance(1, 2) ? V[rng.below(V.size())] : R[rng.below(R.size())]; Row r(d + 1); for (int i = 0; i <= d; ++i) r[i] = b[d] ? a[i] * b[d] + b[i] * a[d] : a[i] + a[d] * b[i]; r[d] = b[d] ? 2 * a[d] * b[d] : a[d]; normRow(r); V.push_back(r);
      if (R.size() > 1 && rng.chance(1, 2)) { const Row &x = R[rng.below(R.size())], &y = R[rng.below(R.size())]; Row t(d + 1); for (int i = 0; i < d; ++i) t[i] = x[i] + y[i]; if (std::any_of(t.begin(), t.end(), [](ll v) { return v != 0; })) R.push_back(t); }
   }
   shuffle(rng, V); if (V.size() > 40 && rng.chance(1, 2)) outward(V, d, rng.chance(1, 3)); p.gens = V; p.gens.insert(p.gens.end(), R.begin(), R.end());
   makeNames(p, rng, false);
}
static void genVertex(Problem& p, Rng& rng, const GenOpts& o) {
   int maxd = o.size == 0 ? 2 : o.size == 1 ? 3 : 4; int d = rng.range(1, maxd); std::vector<Row> A;
   bool maps = o.requireMaps || (o.maps && rng.chance(1, 4));
   if (maps && o.size && rng.chance(1, 4)) { // the facets of a symmetric polytope
      Problem q; fam::Rows x = fam::symmetric(rng, d, q.maps, q.family); q.d = d; for (auto& r : x) q.gens.push_back(homog(r, 1));
      Expected e = expect(q); if (e.decided && !e.eqRank && e.results.size() <= (o.many ? fam::wide : 60)) { p.d = d; p.family = "H-" + q.family; p.maps = q.maps; shuffle(rng, p.maps); for (auto& b : e.results) { Row r = resultRow(q, e, b); normRow(r); p.gens.push_back(r); } shuffle(rng, p.gens); makeNames(p, rng, true); return; }
   }
   if (maps && o.size && rng.chance(1, 5)) { // with equations
      p.family = "H-symmetric-eq"; auto perm = [&](const std::vector<int>& t) { p.maps.push_back(fam::coord(t)); };
      if (rng.chance(1, 4)) { d = 9; for (int i = 0; i < 9; ++i) { Row x(10, 0); x[i] = -1; A.push_back(x); } for (int k = 0; k < 6; ++k) { Row x(10, 0); for (int i = 0; i < 3; ++i) x[k < 3 ? 3 * k + i : 3 * i + k - 3] = 1; x[9] = -1; p.eqs.push_back(x); }
         std::vector<int> a(9), b(9), c(9); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { a[3 * i + j] = 3 * ((i + 1) % 3) + j; b[3 * i + j] = 3 * (i < 2 ? 1 - i : 2) + j; c[3 * i + j] = 3 * j + i; } perm(a); if (rng.chance(1, 2)) perm(b); if (rng.chance(1, 2)) perm(c); }
      else { d = rng.range(3, 5); ll c = rng.range(1, 3); Row e(d + 1, c); e[d] = -rng.range(1, d - 1); normRow(e); if (rng.chance(1, 2)) for (auto& v : e) v = -v; p.eqs.push_back(e); for (int i = 0; i < d; ++i) { Row x(d + 1, 0); x[i] = -1; A.push_back(x); }
         if (rng.chance(1, 2)) for (int i = 0; i < d; ++i) { Row x(d + 1, 0); x[i] = 1; x[d] = -1; A.push_back(x); }
         std::vector<int> t(d); std::iota(t.begin(), t.end(), 0); std::rotate(t.begin(), t.begin() + 1, t.end()); perm(t); std::iota(t.begin(), t.end(), 0); std::swap(t[0], t[1]); if (rng.chance(1, 2)) perm(t); }
      p.d = d; shuffle(rng, A); p.gens = A; shuffle(rng, p.eqs); makeNames(p, rng, true); return;
   }
   if (maps) {
      d = rng.range(2, std::max(2, maxd)); p.d = d; p.family = "H-symmetric"; int nm = rng.range(1, 2); int kind = (int)rng.below(3);
      for (int i = 0; i < nm; ++i) p.maps.push_back(signedPerm(rng, d, kind == 1));
      if (kind == 2) p.maps.push_back(flip01(d, (int)rng.below(d)));
      p.maps.erase(std::remove_if(p.maps.begin(), p.maps.end(), isIdentity), p.maps.end());
      if (p.maps.empty()) p.maps.push_back(flip01(d, 0));
      int n = rng.range(1, 3); for (int i = 0; i < n; ++i) { Row a(d); for (auto& v : a) v = rng.range(-1, 2); Row r = homog(a, -rng.range(kind == 2 ? 0 : 1, 3)); if (std::any_of(a.begin(), a.end(), [](ll v) { return v; })) { normRow(r); A.push_back(r); } }
      { Row r(d + 1, 0); r[0] = 1; r[d] = -rng.range(1, 3); A.push_back(r); r[0] = -1; r[d] = kind == 2 ? 0 : -rng.range(1, 2); A.push_back(r); }
      closeOrbit(A, p.maps, true, 20); p.gens = A; shuffle(rng, p.gens); makeNames(p, rng, true); return;
   }
   p.d = d; int fam = (int)rng.below(o.big ? 2 : 6);
   if (o.big) { // cube (and cut cubes)
      d = p.d = rng.range(4, 5); p.family = "H-big-cube"; p.big = true; for (int i = 0; i < d; ++i) for (int s = -1; s <= 1; s += 2) { Row r(d + 1, 0); r[i] = s; r[d] = -1; A.push_back(r); }
      if (fam == 1) { Row r(d + 1, 1); r[d] = -rng.range(1, 2); A.push_back(r); }
   } else if (o.size && rng.chance(o.crowd, 100)) { A = fam::crowdedVertex(rng, d, p.family, o.crowd > 1 ? 2600 : 0); p.d = d; }
   else if (o.size && rng.chance(1, 5)) { A = fam::namedH(rng, d, p.eqs, p.family); p.d = d; }
   else if (fam == 0) { p.family = "H-box"; for (int i = 0; i < d; ++i) { Row r(d + 1, 0); r[i] = 1; r[d] = -rng.range(0, 3); A.push_back(r); r[i] = -1; r[d] = -rng.range(r[d] == 0 ? 1 : 0, 2); A.push_back(r); } int n = (int)rng.below(3); for (int i = 0; i < n; ++i) { Row r(d + 1); for (int k = 0; k < d; ++k) r[k] = rng.range(-2, 2); r[d] = -rng.range(0, 4); A.push_back(r); } }
   else if (fam == 1) { p.family = "H-random"; int n = d + 1 + (int)rng.below(4); for (int i = 0; i < n; ++i) { Row r(d + 1); for (int k = 0; k < d; ++k) r[k] = rng.range(-2, 2); r[d] = -rng.range(0, 3); A.push_back(r); } }
   else if (fam == 2) { p.family = "H-cone"; int n = d + (int)rng.below(3); for (int i = 0; i < n; ++i) { Row r(d + 1); for (int k = 0; k < d; ++k) r[k] = rng.range(-2, 2); r[d] = rng.chance(1, 2) ? 0 : -rng.range(0, 2); A.push_back(r); } }
   else if (fam == 3) { p.family = "H-cross"; for (int m = 0; m < (1 << d); ++m) { Row r(d + 1); for (int i = 0; i < d; ++i) r[i] = (m >> i) & 1 ? 1 : -1; r[d] = -rng.range(1, 2); A.push_back(r); } }
   else if (fam == 4) { p.family = "H-shifted"; Row c(d); for (auto& v : c) v = rng.range(-2, 2); int n = d + 1 + (int)rng.below(4); for (int i = 0; i < n; ++i) { Row r(d + 1); ll s = 0; for (int k = 0; k < d; ++k) { r[k] = rng.range(-2, 2); s += r[k] * c[k]; } r[d] = -(s + rng.range(0, 3)); A.push_back(r); } }
   else { p.family = "H-eq"; ++d; p.d = d; Row e(d + 1, 0); ll s = 0; Row c(d); for (auto& v : c) v = rng.range(0, 1); for (int k = 0; k < d; ++k) { e[k] = rng.range(-1, 1); s += e[k] * c[k]; } if (std::all_of(e.begin(), e.end() - 1, [](ll v) { return v == 0; })) { e[0] = 1; s = c[0]; } e[d] = -s; p.eqs.push_back(e);
      for (int i = 0; i < d; ++i) { Row r(d + 1, 0); r[i] = -1; A.push_back(r); r[i] = 1; r[d] = -rng.range(1, 2); A.push_back(r); } }
   A.erase(std::remove_if(A.begin(), A.end(), [&](const Row& r) { for (int i = 0; i < d; ++i) if (r[i]) return false; return true; }), A.end());
   if (A.empty()) { Row r(d + 1, 0); r[0] = 1; A.push_back(r); }
   if (rng.chance(1, 8)) A.push_back(A[rng.below(A.size())]);
   if (rng.chance(1, 5)) for (int n = rng.range(1, 3); n > 0; --n) { // redundant: parallel, scaled, or a sum
      Row r = A[rng.below(A.size())]; ll k = rng.chance(1, 3) ? rng.range(2, 3) : 1; for (auto& v : r) v *= k;
      if (rng.chance(1, 3)) { const Row& q = A[rng.below(A.size())]; for (int i = 0; i <= d; ++i) r[i] += q[i]; }
      r[d] -= rng.range(0, 2); if (std::any_of(r.begin(), r.end() - 1, [](ll v) { return v != 0; })) A.push_back(r);
   }
   shuffle(rng, A); if (A.size() > 40 && rng.chance(1, 2)) std::stable_sort(A.begin(), A.end(), [&](const Row& x, const Row& y) { ll a = 0, b = 0; for (int i = 0; i < d; ++i) { a += std::abs(x[i]); b += std::abs(y[i]); } return a > b; }); p.gens = A; makeNames(p, rng, false);
}
Problem generate(Rng& rng, const GenOpts& o) {
   for (;;) {
      Problem p; p.vertexMode = o.mode == 1 || (o.mode < 0 && rng.chance(1, 3));
      if (p.vertexMode) genVertex(p, rng, o); else genFacet(p, rng, o);
      Expected e = expect(p);
      if (!e.decided) continue;
      if ((int)e.classes < o.minResults) continue;
      if (!o.big && e.results.size() > (o.many && (!p.maps.empty() || p.family.find("many-ridges") != std::string::npos) ? fam::wide : o.size == 0 ? 12u : o.size == 1 ? 40u : 120u)) continue;
      if (!p.maps.empty() && rng.chance(1, 4)) { // more maps than needed: products, repetitions, the identity
         for (int n = rng.range(1, 7); n > 0 && p.maps.size() < 12; --n) { const Mat A = p.maps[rng.below(p.maps.size())], B = p.maps[rng.below(p.maps.size())]; Mat C = compose(A, B); bool small = true; for (auto& r : C) for (ll v : r) if (std::abs(v) > 20) small = false; if (small) p.maps.push_back(rng.chance(1, 8) ? A : C); }
         shuffle(rng, p.maps);
      }
      if (!p.maps.empty() && o.fancyText && rng.chance(1, 5)) { // "Reduced" input: one representative per orbit
         std::set<Row> seen; bool ok = true; Mat reps;
         if (p.eqs.empty()) { for (auto& g : p.gens) { if (seen.count(g)) continue; Mat orb{g}; closeOrbit(orb, p.maps, p.vertexMode, 200); for (auto& r : orb) seen.insert(r); reps.push_back(g); } if (ok) p.reduced = reps; }
      }
      if (!p.maps.empty() && rng.chance(1, 6)) for (auto* m : { &p.gens, &p.reduced }) for (auto& g : *m) if ((p.vertexMode || !g[p.d]) && rng.chance(1, 3)) { ll k = rng.range(2, 3); for (auto& v : g) v *= k; } // rays and inequalities that are not in lowest terms
      if (o.requireKnown || (o.known && rng.chance(1, 6))) addKnown(p, e, rng, (int)rng.below(3));
      if (o.huge && (p.gens.size() > 60 || (int)e.results.size() > 80 - 7 * p.d)) continue;   // long numbers are slow
      if (o.maxCoord > 9 && !resultsFitInt(p)) continue;
      { bool fit = true; for (auto& r : p.known) for (ll v : r) if (v > 2147483647ll || v < -2147483648ll) fit = false; if (!fit) continue; }   // known data is read with int
      if (o.huge && p.maps.empty() && p.known.empty()) blowUp(p, rng, o.huge);
      else if (o.huge && p.known.empty()) { blowUpSymmetric(p, rng, o.huge); if (!expect(p).decided) continue; }
      render(p, rng, o.fancyText);
      return p;
   }
}
// ---------------------------------------------------------------- text: the freedoms of the documented format
struct Style {
   Rng* rng; bool porta = false, colon = false, ids = false, crlf = false, relations = false, signs = false, ones = false, words = false, unreduced = false; const char* sep = " "; int id = 0;
   Style(Rng& r, bool fancy) : rng(&r) { if (!fancy) return; porta = r.chance(1, 4); colon = r.chance(1, 3); ids = r.chance(1, 8); crlf = r.chance(1, 12); relations = r.chance(1, 3); signs = r.chance(1, 6); ones = r.chance(1, 8); words = r.chance(1, 4); unreduced = r.chance(1, 8); if (r.chance(1, 6)) sep = r.chance(1, 2) ? "\t" : "   "; }
   const std::vector<std::string>* names = nullptr;
   std::string tag() { if (!ids) return ""; ++id; return "(" + (names && !names->empty() && rng->chance(1, 3) ? (*names)[rng->below(names->size())] : std::to_string(id)) + ") "; }
   // a keyword in one of its spellings: "Inequalities", "INEQUALITIES", "INEQUALITY_SECTION", with or without a colon
   std::string kw(int what, bool reduced = false) {
      static const char* plain[] = { "Names", "Maps", "Vertices", "Rays", "Inequalities", "Equations" };
      static const char* section[] = { "INDEX", "MAPS", "CONV_SECTION", "CONE_SECTION", "INEQUALITY_SECTION", "EQUATION_SECTION" };
      static const char* other[6][4] = { { "NAMES", "INDICES", "Indices", "NAMES_SECTION" }, { "MAP_SECTION", "MAPS_SECTION", "MAPS", "Maps" }, { "CONVEX_HULL", "CONVEX_HULL_SECTION", "CONV_SECTION", "Vertices" }, { "CONICAL_HULL", "CONICAL_HULL_SECTION", "CONE_SECTION", "Rays" }, { "INEQUALITIES", "INEQUALITIES_SECTION", "INEQUALITY_SECTION", "Inequalities" }, { "EQUATIONS", "EQUATIONS_SECTION", "EQUATION_SECTION", "Equations" } };
      std::string k = words ? other[what][rng->below(4)] : porta ? section[what] : plain[what];
      if (reduced) { bool low = k[1] >= 'a' && k[1] <= 'z'; k = (low ? "Reduced " : "REDUCED_") + k; }
      return k + (colon && !porta ? ":" : "");
   }
};
static std::string ineqText(const Row& r, const std::vector<std::string>& names, Rng& rng, bool fancy, const char* rel, Style& st) {
   std::ostringstream s; size_t d = r.size() - 1; s << st.tag(); bool eq = !strcmp(rel, "=");
   bool flip = fancy && !eq && rng.chance(1, 3); bool first = true;
   if (names.empty()) {
      if (!st.relations) { for (size_t i = 0; i <= d; ++i) s << (i ? st.sep : "") << r[i]; return s.str(); }
      for (size_t i = 0; i < d; ++i) s << (i ? st.sep : "") << (flip ? -r[i] : r[i]);
      s << st.sep << (flip ? ">=" : eq && rng.chance(1, 3) ? "==" : rel) << st.sep << (flip ? r[d] : -r[d]); return s.str();
   }
   for (size_t i = 0; i < d; ++i) {
      ll c = flip ? -r[i] : r[i]; if (!c) continue; if (!first) s << st.sep;
      bool one = std::abs(c) == 1 && !(st.ones && rng.chance(1, 2)); std::string gap = st.signs && rng.chance(1, 2) ? " " : "";
      if (c < 0) s << '-' << gap; else if (!first) s << '+' << gap; else if (st.signs && rng.chance(1, 2)) s << '+' << gap;
      if (!one) s << std::abs(c); s << names[i]; first = false;
   }
   if (first) s << "0" << names[0];
   s << st.sep << (flip ? ">=" : eq && st.relations ? "==" : rel) << st.sep << (flip ? r[d] : -r[d]); return s.str();
}
static std::string pointText(const Row& g, int d, Style& st) {
   std::ostringstream s; s << st.tag();
   for (int i = 0; i < d; ++i) { ll n = g[i], t = g[d]; s << (i ? st.sep : ""); if (t > 1) { ll k = g_(n, t); n /= k; t /= k; } if (t && st.unreduced && st.rng->chance(1, 3)) { ll k = st.rng->range(2, 3); n *= k; t *= k; } s << n; if (t > 1) s << '/' << t; }
   return s.str();
}
static std::string ends(const std::string& t, bool crlf) { if (!crlf) return t; std::string r; for (char c : t) { if (c == '\n') r += '\r'; r += c; } return r; }
static std::string knownTextF(const Problem& p, const Mat& rows, Rng& rng, bool fancy) {
   std::ostringstream k; Style st(rng, fancy); st.names = &p.names; auto blank = [&] { if (fancy && rng.chance(1, 12)) k << '\n'; };
   blank();
   if (!p.vertexMode) { static const std::vector<std::string> none; bool raw = fancy && rng.chance(1, 8); k << st.kw(4) << '\n'; for (auto& r : rows) { k << ineqText(r, raw ? none : p.names, rng, fancy, "<=", st) << '\n'; blank(); } if (st.porta) k << "END\n"; }
   else for (int sec = 0; sec < 2; ++sec) {
      bool any = false; for (auto& r : rows) if ((r[p.d] == 0) == (sec == 1)) any = true; if (!any) continue; k << st.kw(sec ? 3 : 2) << '\n';
      for (auto& r : rows) if ((r[p.d] == 0) == (sec == 1)) { k << pointText(r, p.d, st) << '\n'; blank(); }
      if (st.porta) k << "END\n";
   }
   return ends(k.str(), st.crlf);
}
void render(Problem& p, Rng& rng, bool fancy) {
   std::ostringstream s; Style st(rng, fancy); st.names = &p.names; if (!p.maps.empty() || !p.base.empty()) st.unreduced = false;
   int raw = fancy && p.vertexMode && !p.names.empty() && rng.chance(1, 6) ? rng.range(1, 2) : 0; static const std::vector<std::string> none;   // rows of coefficients (or some of them), although there are names
   auto style = [&]() -> const std::vector<std::string>& { return raw && (raw == 1 || rng.chance(1, 2)) ? none : p.names; };
   bool late = fancy && p.reduced.empty() && rng.chance(1, 6);     // maps at the end
   auto blank = [&] { if (fancy && rng.chance(1, 6)) s << '\n'; };
   auto end = [&] { if (st.porta) s << "END\n"; else blank(); };
   if (fancy && rng.chance(1, 5)) s << "DIM=" << p.d << '\n';
   if (!p.names.empty()) { s << st.kw(0) << '\n'; for (size_t i = 0; i < p.names.size(); ++i) s << (i ? st.sep : "") << p.names[i]; s << '\n'; blank(); }
   auto maps = [&] { if (!p.maps.empty()) {
      s << st.kw(1) << '\n'; bool split = fancy && rng.chance(1, 8);    // images that mention a variable twice
      for (auto& M : p.maps) {
         for (int i = 0; i < p.d; ++i) {
            std::vector<std::pair<int, ll>> terms; for (int j = 0; j <= p.d; ++j) if (M[i][j]) { ll c = M[i][j], a = split && rng.chance(1, 2) ? rng.range(-2, 2) : 0; if (a && a != c) { terms.push_back({ j, a }); terms.push_back({ j, c - a }); } else terms.push_back({ j, c }); }
            if (split) shuffle(rng, terms);
            std::string t; for (auto& x : terms) { ll c = x.second; std::string sign = c < 0 ? "-" : t.empty() ? "" : "+"; t += sign; if (x.first == p.d || std::abs(c) != 1 || (st.ones && rng.chance(1, 2))) t += std::to_string(std::abs(c)); if (x.first < p.d) t += p.names[x.first]; }
            if (t.empty()) t = "0"; s << (i ? st.sep : "") << t;
         }
         s << '\n';
      }
      end();
   } };
   if (!late) maps();
   const Mat& src = p.reduced.empty() ? p.gens : p.reduced; bool red = !p.reduced.empty();
   if (!p.vertexMode) {
      for (int sec = 0; sec < 2; ++sec) {
         bool any = false; for (auto& g : src) if ((g[p.d] == 0) == (sec == 1)) any = true; if (!any) continue;
         s << st.kw(sec ? 3 : 2, red) << '\n';
         for (auto& g : src) if ((g[p.d] == 0) == (sec == 1)) { s << pointText(g, p.d, st) << '\n'; if (fancy && rng.chance(1, 20)) s << '\n'; }
         end();
      }
   } else {
      bool ineqFirst = rng.chance(1, 2);
      for (int pass = 0; pass < 2; ++pass) {
         if ((pass == 0) == ineqFirst) { s << st.kw(4, red) << '\n'; for (auto& g : src) s << ineqText(g, style(), rng, fancy, "<=", st) << '\n'; end(); }
         else if (!p.eqs.empty()) { s << st.kw(5) << '\n'; for (auto& g : p.eqs) s << ineqText(g, style(), rng, fancy, "=", st) << '\n'; end(); }
      }
   }
   if (late) maps();
   p.inputText = ends(s.str(), st.crlf);
   if (fancy && rng.chance(1, 6)) while (!p.inputText.empty() && p.inputText.back() == '\n' && p.names.empty()) p.inputText.pop_back();
   p.knownText.clear();
   if (!p.known.empty()) p.knownText = knownTextF(p, p.known, rng, fancy);
}
std::string knownText(const Problem& p, const Mat& rows) { Rng r(1); return knownTextF(p, rows, r, false); }
// ---------------------------------------------------------------- output
static bool parseBigRow(const std::string& line, const Problem& p, const char* rel, BigRow& out) {
   size_t d = p.d; std::istringstream s(line); out.assign(d + 1, Big()); std::string tok;
   auto num = [](const std::string& t, Big& v) { size_t i = 0; bool neg = false; if (t[0] == '-') { neg = true; i = 1; } if (!Big::parse(t, i, v) || i != t.size()) return false; v.neg = neg && !v.m.empty(); return true; };
   if (p.names.empty()) { for (size_t i = 0; i <= d; ++i) if (!(s >> tok) || !num(tok, out[i])) return false; std::string rest; return !(s >> rest); }
   while (s >> tok) {
      if (tok == rel) { Big v; if (!(s >> tok) || !num(tok, v)) return false; if (v.sign()) v.neg = !v.neg; out[d] = v; std::string rest; return !(s >> rest); }
      size_t i = 0; bool neg = false; if (tok[0] == '+') i = 1; else if (tok[0] == '-') { neg = true; i = 1; }
      Big c; if (!Big::parse(tok, i, c)) c = Big(1); c.neg = neg && !c.m.empty();
      std::string nm = tok.substr(i); size_t k = 0; while (k < d && p.names[k] != nm) ++k; if (k == d || out[k].sign()) return false; out[k] = c;
   }
   return false;
}
static bool parseRow(const std::string& line, const Problem& p, const char* rel, Row& out) {
   BigRow b; if (!parseBigRow(line, p, rel, b)) return false; out.clear();
   for (auto& x : b) { if (x.m.size() > 2 || (x.m.size() == 2 && x.m[1] > 0x3fffffffu)) { if (p.base.empty()) return false; out.push_back(0); continue; } ll v = 0; for (size_t i = x.m.size(); i-- > 0;) v = (v << 32) | x.m[i]; out.push_back(x.neg ? -v : v); }
   return true;
}
static bool parseFrac(const std::string& line, size_t d, bool ray, Row& out) {
   std::istringstream s(line); std::string tok; std::vector<std::pair<ll, ll>> v; while (s >> tok) { ll n, q = 1; char* e; n = strtoll(tok.c_str(), &e, 10); if (e == tok.c_str()) return false; if (*e == '/') { char* f; q = strtoll(e + 1, &f, 10); if (f == e + 1 || *f || q <= 0) return false; } else if (*e) return false; v.push_back({n, q}); }
   if (v.size() != d) return false; ll l = 1; for (auto& x : v) l = l / g_(l, x.second) * x.second; out.clear(); for (auto& x : v) out.push_back(x.first * (l / x.second)); out.push_back(ray ? 0 : l); return true;
}
Output parseOutput(const std::string& text, const Problem& p, bool dd, bool tail) {
   Output o; std::vector<std::string> lines; size_t pos = 0; o.complete = text.empty() || text.back() == '\n';
   while (pos < text.size()) { size_t e = text.find('\n', pos); if (e == std::string::npos) { if (!tail) lines.push_back(text.substr(pos)); break; } lines.push_back(text.substr(pos, e - pos)); pos = e + 1; }
   if (!o.complete && !tail) { o.error = "standard output ends in the middle of a line: \"" + lines.back() + "\""; return o; }
   size_t i = 0; auto fail = [&](const std::string& s) { o.error = s; return o; };
   if (!p.vertexMode && i < lines.size() && lines[i] == "Equations:") {
      ++i; while (i < lines.size() && !lines[i].empty()) { Row r; if (!parseRow(lines[i], p, "=", r)) return fail("malformed equation line \"" + lines[i] + "\""); o.equations.push_back(r); if (!p.base.empty()) { BigRow b; parseBigRow(lines[i], p, "=", b); o.bigEquations.push_back(b); } ++i; }
      if (i < lines.size()) ++i;
   }
   if (i == lines.size()) { o.ok = true; return o; }
   std::string pre = p.maps.empty() ? "" : "Reduced ";
   if (p.vertexMode && dd) {
      bool ray = false; 
      for (; i < lines.size(); ++i) { if (lines[i] == pre + "Vertices:" || lines[i] == pre + "Rays:") { ray = lines[i] == pre + "Rays:"; o.header += lines[i]; continue; } if (o.header.empty()) return fail("unexpected line \"" + lines[i] + "\""); Row r; if (!parseFrac(lines[i], p.d, ray, r)) return fail("malformed row \"" + lines[i] + "\""); o.rows.push_back(r); o.rowText.push_back(lines[i]); if (!p.base.empty()) { BigRow b; for (ll v : r) b.push_back(Big(v)); o.bigRows.push_back(b); } }
      o.ok = true; return o;
   }
   std::string want = pre + (p.vertexMode ? "Vertices / Rays:" : "Inequalities:");
   if (lines[i] != want) return fail("unexpected line \"" + lines[i] + "\" where \"" + want + "\" belongs");
   o.header = lines[i++];
   Problem q = p; if (p.vertexMode) q.names.clear();
   for (; i < lines.size(); ++i) { Row r; if (!parseRow(lines[i], q, "<=", r)) return fail("malformed row \"" + lines[i] + "\""); o.rows.push_back(r); o.rowText.push_back(lines[i]); if (!p.base.empty()) { BigRow b; parseBigRow(lines[i], q, "<=", b); o.bigRows.push_back(b); } }
   o.ok = true; return o;
}
static int bigDot(const BigRow& a, const Row& g) { Big s; for (size_t i = 0; i < a.size(); ++i) if (g[i] && a[i].sign()) s = s + a[i] * Big(g[i]); return s.sign(); }
static std::string checkHuge(const Output& out, const Problem& p, const Expected& e, bool partial) {
   for (size_t k = 0; k < out.bigEquations.size(); ++k) { bool nz = false; for (auto& v : out.bigEquations[k]) nz |= v.sign() != 0; if (!nz) return "a trivial equation was printed"; for (auto& g : e.cone) if (bigDot(out.bigEquations[k], g)) return "a printed equation is violated by input row " + rowStr(g); }
   if (!partial && (int)out.bigEquations.size() != e.eqRank) return "printed " + std::to_string(out.bigEquations.size()) + " equations, the affine hull has " + std::to_string(e.eqRank);
   if (!partial && out.header.empty()) return "no result section was printed";
   std::set<Bits> seen;
   for (size_t k = 0; k < out.bigRows.size(); ++k) {
      Bits b(e.cone.size()); for (size_t i = 0; i < e.cone.size(); ++i) { int s = bigDot(out.bigRows[k], e.cone[i]); if (s > 0) return "printed row \"" + out.rowText[k] + "\" is violated by input row " + rowStr(e.cone[i]); b[i] = s == 0; }
      if (!e.results.count(b)) return "printed row \"" + out.rowText[k] + "\" is valid but is not a " + (p.vertexMode ? "vertex or extreme ray" : "facet");
      if (!seen.insert(b).second) return "row \"" + out.rowText[k] + "\" repeats an earlier result";
   }
   if (!partial && seen.size() != e.results.size()) return "only " + std::to_string(seen.size()) + " of " + std::to_string(e.results.size()) + " results were printed";
   return "";
}
static ll rowGcd(const Row& r) { ll g = 0; for (ll v : r) g = g_(g, v); return g; }
std::string checkOutput(const Output& out, const Problem& p, const Expected& e, bool partial, bool) {
   if (!out.ok) return out.error;
   if (!p.base.empty()) return checkHuge(out, p, e, partial);
   try {
      for (auto& q : out.equations) { ll g = rowGcd(q); if (!g) return "a trivial equation was printed"; if (g > 1) return "printed equation " + rowStr(q) + " is not in lowest terms"; for (auto& g : e.cone) if (dot(q, g) != 0) return "printed equation " + rowStr(q) + " is violated by input row " + rowStr(g); }
      if (!out.equations.empty() || !partial) { if ((int)out.equations.size() != e.eqRank || (e.eqRank && rank(out.equations) != e.eqRank)) { if (!(partial && (int)out.equations.size() < e.eqRank)) return "printed " + std::to_string(out.equations.size()) + " equations of rank " + std::to_string(rank(out.equations)) + ", the affine hull has " + std::to_string(e.eqRank); } }
      if (!partial && out.header.empty()) return "no result section was printed";
      std::map<int, Row> seen;
      for (auto& r : out.rows) {
         Bits b(e.cone.size()); for (size_t i = 0; i < e.cone.size(); ++i) { i128 s = dot(r, e.cone[i]); if (s > 0) return "printed row " + rowStr(r) + " is violated by input row " + rowStr(e.cone[i]); b[i] = s == 0; }
         if (!e.results.count(b)) return "printed row " + rowStr(r) + " is valid but is not a " + (p.vertexMode ? "vertex or extreme ray" : "facet");
         int c = e.cls.at(b); if (seen.count(c)) return "rows " + rowStr(seen[c]) + " and " + rowStr(r) + (p.maps.empty() ? " are the same result, printed twice" : " represent the same class");
         seen[c] = r;
         if (rowGcd(r) > 1) return "printed row " + rowStr(r) + " is not in lowest terms";
      }
      if (!partial && (int)seen.size() != e.classes) {
         std::string miss; for (auto& kv : e.cls) if (!seen.count(kv.second)) { Row r = resultRow(p, e, kv.first); miss = rowStr(r); break; }
         return "only " + std::to_string(seen.size()) + " of " + std::to_string(e.classes) + " results were printed, e.g. " + miss + " is missing";
      }
   } catch (Overflow&) { return "printed row has absurdly large entries"; }
   return "";
}
