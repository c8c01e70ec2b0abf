#include "geom.h"
#include <algorithm>
#include <numeric>
namespace geom {
static i128 mul(i128 a, i128 b) { i128 r; if (__builtin_mul_overflow(a, b, &r)) throw Overflow(); return r; }
static i128 add(i128 a, i128 b) { i128 r; if (__builtin_add_overflow(a, b, &r)) throw Overflow(); return r; }
static i128 sub(i128 a, i128 b) { i128 r; if (__builtin_sub_overflow(a, b, &r)) throw Overflow(); return r; }
static i128 gcd128(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
using BRow = std::vector<i128>;
using BMat = std::vector<BRow>;
static void norm(BRow& r) {
   i128 g = 0; for (auto x : r) { if (x) g = gcd128(g, x); if (g == 1) return; }
   if (g > 1) for (auto& x : r) x /= g;
}
// reduced row echelon form (integer, rows gcd-normalised); returns pivot columns
static std::vector<int> rref(BMat& m, std::size_t width) {
   std::vector<int> piv; std::size_t r = 0;
   for (std::size_t c = 0; c < width && r < m.size(); ++c) {
      std::size_t p = r; while (p < m.size() && m[p][c] == 0) ++p;
      if (p == m.size()) continue;
      std::swap(m[p], m[r]);
      if (m[r][c] < 0) for (auto& x : m[r]) x = -x;
      norm(m[r]);
      for (std::size_t i = 0; i < m.size(); ++i) if (i != r && m[i][c] != 0) {
         i128 g = gcd128(m[i][c], m[r][c]); i128 a = m[r][c] / g, b = m[i][c] / g;
         for (std::size_t k = 0; k < m[i].size(); ++k) m[i][k] = sub(mul(m[i][k], a), mul(m[r][k], b));
         norm(m[i]);
      }
      piv.push_back((int)c); ++r;
   }
   m.resize(r);
   return piv;
}
static BMat big(const Mat& m) { BMat b; for (auto& r : m) b.emplace_back(r.begin(), r.end()); return b; }
int rank(const Mat& m) { if (m.empty()) return 0; BMat b = big(m); return (int)rref(b, m[0].size()).size(); }
static Mat small(const BMat& b) {
   Mat m; for (auto& r : b) { Row o; for (auto x : r) { if (x > (i128)INT64_MAX || x < (i128)INT64_MIN) throw Overflow(); o.push_back((ll)x); } m.push_back(o); }
   return m;
}
Mat echelon(const Mat& m, std::size_t width) { BMat b = big(m); rref(b, width); return small(b); }
Mat nullspace(const Mat& gens, std::size_t width) {
   BMat b = big(gens); auto piv = rref(b, width);
   std::vector<char> isp(width, 0); for (int p : piv) isp[p] = 1;
   BMat out;
   for (std::size_t f = 0; f < width; ++f) if (!isp[f]) {
      i128 l = 1; for (std::size_t i = 0; i < b.size(); ++i) { i128 d = b[i][piv[i]]; l = mul(l / gcd128(l, d), d); }
      BRow v(width, 0); v[f] = l;
      for (std::size_t i = 0; i < b.size(); ++i) v[piv[i]] = -mul(b[i][f], l / b[i][piv[i]]);
      norm(v); out.push_back(v);
   }
   return small(out);
}
i128 dot(const Row& a, const Row& b) { i128 s = 0; for (std::size_t i = 0; i < a.size(); ++i) s = add(s, mul(a[i], b[i])); return s; }
static i128 bdot(const BRow& a, const BRow& b) { i128 s = 0; for (std::size_t i = 0; i < a.size(); ++i) if (a[i] && b[i]) s = add(s, mul(a[i], b[i])); return s; }

// project generators to rank-many coordinates (coordinate projection that is injective on the span)
static BMat project(const Mat& gens, std::size_t width) {
   BMat b = big(gens); auto piv = rref(b, width);
   BMat out; for (auto& g : gens) { BRow r; for (int p : piv) r.push_back(g[p]); norm(r); out.push_back(r); }
   return out;
}
typedef std::vector<uint64_t> W;
static bool subset(const W& a, const W& b) { for (std::size_t i = 0; i < a.size(); ++i) if (a[i] & ~b[i]) return false; return true; }
static int popcnt(const W& a) { int c = 0; for (auto x : a) c += __builtin_popcountll(x); return c; }
Facets facets(const Mat& gens, std::size_t width) {
   Facets F; BMat g = project(gens, width); std::size_t n = g.size(); if (n == 0) return F;
   std::size_t r = g[0].size(); if (r == 0) return F;
   std::size_t words = (n + 63) / 64;
   // pick r independent generators
   std::vector<int> base; { Mat cur; BMat acc; for (std::size_t i = 0; i < n && base.size() < r; ++i) {
      BMat t = acc; t.push_back(g[i]); if (rref(t, r).size() == acc.size() + 1) { base.push_back((int)i); acc = t; } } }
   // dual rays: a_k . g_base[j] = 0 (j != k), < 0 (j == k)
   struct R { BRow a; W z; }; std::vector<R> rays;
   for (std::size_t k = 0; k < r; ++k) {
      BMat m; for (std::size_t j = 0; j < r; ++j) if (j != k) m.push_back(g[base[j]]);
      auto piv = m.empty() ? std::vector<int>() : rref(m, r);
      std::vector<char> isp(r, 0); for (int p : piv) isp[p] = 1;
      std::size_t f = 0; while (isp[f]) ++f;
      i128 l = 1; for (std::size_t i = 0; i < m.size(); ++i) { i128 d = m[i][piv[i]]; l = mul(l / gcd128(l, d), d); }
      BRow v(r, 0); v[f] = l; for (std::size_t i = 0; i < m.size(); ++i) v[piv[i]] = -mul(m[i][f], l / m[i][piv[i]]);
      norm(v); if (bdot(v, g[base[k]]) > 0) for (auto& x : v) x = -x;
      W z(words, 0); for (std::size_t j = 0; j < r; ++j) if (j != k) z[base[j] / 64] |= 1ull << (base[j] % 64);
      rays.push_back({v, z});
   }
   std::vector<char> done(n, 0); for (int b : base) done[b] = 1;
   for (std::size_t i = 0; i < n; ++i) if (!done[i]) {
      std::vector<i128> s(rays.size()); std::vector<int> P, N; std::vector<R> next;
      for (std::size_t k = 0; k < rays.size(); ++k) { s[k] = bdot(rays[k].a, g[i]); if (s[k] > 0) P.push_back((int)k); else if (s[k] < 0) N.push_back((int)k); }
      for (std::size_t k = 0; k < rays.size(); ++k) if (s[k] <= 0) { next.push_back(rays[k]); if (s[k] == 0) next.back().z[i / 64] |= 1ull << (i % 64); }
      for (int p : P) for (int q : N) {
         W z(words); for (std::size_t w = 0; w < words; ++w) z[w] = rays[p].z[w] & rays[q].z[w];
         if (popcnt(z) + 2 < (int)r) continue;
         bool adj = true; for (std::size_t k = 0; k < rays.size() && adj; ++k) if ((int)k != p && (int)k != q && subset(z, rays[k].z)) adj = false;
         if (!adj) continue;
         BRow v(r); for (std::size_t c = 0; c < r; ++c) v[c] = sub(mul(s[p], rays[q].a[c]), mul(s[q], rays[p].a[c]));
         norm(v); z[i / 64] |= 1ull << (i % 64); next.push_back({v, z});
      }
      rays.swap(next);
      if (rays.size() > 20000) throw Overflow();
   }
   std::set<int> dummy;
   BMat all;
   for (auto& x : rays) { Bits b(n); for (std::size_t i = 0; i < n; ++i) b[i] = bdot(x.a, g[i]) == 0; F.incidence.insert(b); all.push_back(x.a); }
   F.pointed = rref(all, r).size() == r;
   return F;
}
Facets facetsBrute(const Mat& gens, std::size_t width) {
   Facets F; BMat g = project(gens, width); std::size_t n = g.size(); if (!n) return F; std::size_t r = g[0].size(); if (!r) return F;
   std::vector<int> idx(r - 1); std::iota(idx.begin(), idx.end(), 0); BMat all;
   if (n < r - 1) return F;
   for (;;) {
      BMat m; for (int i : idx) m.push_back(g[i]);
      auto piv = m.empty() ? std::vector<int>() : rref(m, r);
      if (piv.size() == r - 1) {
         std::vector<char> isp(r, 0); for (int p : piv) isp[p] = 1; std::size_t f = 0; while (isp[f]) ++f;
         i128 l = 1; for (std::size_t i = 0; i < m.size(); ++i) { i128 d = m[i][piv[i]]; l = mul(l / gcd128(l, d), d); }
         BRow v(r, 0); v[f] = l; for (std::size_t i = 0; i < m.size(); ++i) v[piv[i]] = -mul(m[i][f], l / m[i][piv[i]]);
         norm(v); bool pos = false, neg = false; Bits b(n);
         for (std::size_t i = 0; i < n; ++i) { i128 s = bdot(v, g[i]); if (s > 0) pos = true; if (s < 0) neg = true; b[i] = s == 0; }
         if (pos != neg) { F.incidence.insert(b); all.push_back(v); }
      }
      int k = (int)r - 2; while (k >= 0 && idx[k] == (int)n - (int)(r - 1) + k) --k;
      if (k < 0) break; ++idx[k]; for (int j = k + 1; j < (int)r - 1; ++j) idx[j] = idx[j - 1] + 1;
   }
   F.pointed = rref(all, r).size() == r;
   return F;
}
}
