// Structured workload families for problem.cpp: polytopes with names, and crowded facets / vertices.
#pragma once
namespace fam {
typedef std::vector<Row> Rows;
// near a word boundary of a bitset, or anywhere between
static const unsigned wide = 300;   // results of symmetric inputs and of those with many ridges
static int crowd(Rng& r, int top) { static const int at[] = { 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 320, 384 }; for (;;) { int n = r.chance(2, 3) ? at[r.below(14)] + r.range(-1, 1) : r.range(40, top); if (n <= top) return n; } }
// more words than any bitset of fixed size has, or about as many as one of them
static int multitude(Rng& r, int most) { static const int words[] = { 8, 10, 12, 16, 20, 30, 40, 50, 75, 100, 150, 200 }; for (;;) { int w = words[r.chance(1, 2) ? r.below(5) : r.below(12)]; int n = w * 64 + (r.chance(1, 2) ? r.range(-1, 1) : r.range(0, 64)); if (n <= most) return n; } }
// ---- V side, one facet (at least) with many points on it
static Rows gridPyramid(Rng& r, int& d, std::string& name, int most)
{
   d = r.range(2, 6); int n = crowd(r, d < 5 ? 330 : 260), k = 1; Rows p; name = "crowded-pyramid";
   while (std::pow((double)k, d - 1) < n) ++k;
   if (d >= 5) n = (int)std::pow((double)k, d - 1); // a whole grid: the corners are extreme, the rest is redundant
   if (n > 330) { d = 4; n = 130; k = 6; }
   if (most && r.chance(1, 6)) { d = 3; n = multitude(r, most); k = (int)std::sqrt((double)n) + 1; }
   for (long m = 0, all = (long)std::pow((double)k, d - 1) ; m < all && (int)p.size() < n; ++m) { Row x(d, 0); long q = m; for (int i = 0; i + 1 < d; ++i) { x[i] = q % k; q /= k; } p.push_back(x); }
   int apex = r.range(1, 3); for (int i = 0; i < apex; ++i) { Row x(d); for (auto& v : x) v = r.range(0, k); x[d - 1] = r.range(1, 3); p.push_back(x); }
   return p;
}
static Rows cloud(Rng& r, int& d, std::string& name) // box full of points, mostly redundant
{
   d = r.range(2, 4); int k = d == 2 ? r.range(7, 15) : d == 3 ? r.range(3, 6) : r.range(2, 3); Rows p; name = "crowded-box"; long all = (long)std::pow((double)k + 1, d);
   for (long m = 0; m < all; ++m) { Row x(d); long q = m; for (int i = 0; i < d; ++i) { x[i] = q % (k + 1); q /= k + 1; } if (r.chance(7, 8)) p.push_back(x); }
   if (r.chance(1, 2)) { ll s = (ll)d * k * r.range(5, 9) / 10; Rows q; for (auto& x : p) { ll t = 0; for (ll v : x) t += v; if (t <= s) q.push_back(x); } if ((int)q.size() > d + 2) p = q; }
   return p;
}
static Rows polygon(Rng& r, int& d, std::string& name) { d = 2; name = "polygon"; int n = r.range(5, 24); Rows p; for (int i = 0; i < n; ++i) { ll t = i - n / 2; p.push_back({ t, t * t }); if (r.chance(1, 2)) p.push_back({ t, t * t + r.range(0, 3) }); } return p; }
static Rows manyRidges(Rng& r, int& d, std::string& name) // one facet has dozens of neighbours
{
   int n = r.range(18, 90), k = 0; Rows b; name = "many-ridges"; for (int i = 0; i < n; ++i) { ll t = i - n / 2; b.push_back({ t, t * t }); } (void)k; d = 3; Rows p;
   bool prism = r.chance(1, 4); for (auto& x : b) { p.push_back({ x[0], x[1], 0 }); if (prism) p.push_back({ x[0], x[1], 1 }); } if (!prism) p.push_back({ 0, r.range(1, 9), r.range(1, 3) });
   return p;
}
// ---- V side, well known polytopes
static Rows birkhoff3() { Rows p; int s[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } }; for (auto& q : s) { Row x(9, 0); for (int i = 0; i < 3; ++i) x[3 * i + q[i]] = 1; p.push_back(x); } return p; }
static int edge(int n, int i, int j) { if (i > j) std::swap(i, j); int k = 0; for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b, ++k) if (a == i && b == j) return k; return -1; }
static Rows cut(int n) { Rows p; for (int m = 0; m < (1 << (n - 1)); ++m) { Row x(n * (n - 1) / 2, 0); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) x[edge(n, i, j)] = ((m >> i) & 1) != ((m >> j) & 1); p.push_back(x); } return p; }
static Rows perms(int n) { Row x(n); std::iota(x.begin(), x.end(), 1); Rows p; do p.push_back(x); while (std::next_permutation(x.begin(), x.end())); return p; }
static Rows cyclic(int d, int n) { Rows p; for (int i = 0; i < n; ++i) { Row x(d); ll t = i - n / 2, v = 1; for (int k = 0; k < d; ++k) x[k] = v *= t; p.push_back(x); } return p; }
static Rows product(const Rows& a, const Rows& b) { Rows p; for (auto& x : a) for (auto& y : b) { Row z = x; z.insert(z.end(), y.begin(), y.end()); p.push_back(z); } return p; }
static Rows simplex(int d) { Rows p{ Row(d, 0) }; for (int i = 0; i < d; ++i) { Row x(d, 0); x[i] = 1; p.push_back(x); } return p; }
static Rows stable(Rng& r, int n) { std::vector<std::pair<int, int>> e; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (r.chance(1, 2)) e.push_back({ i, j }); Rows p; for (int m = 0; m < (1 << n); ++m) { bool ok = true; for (auto& q : e) ok = ok && !(((m >> q.first) & 1) && ((m >> q.second) & 1)); if (!ok) continue; Row x(n); for (int i = 0; i < n; ++i) x[i] = (m >> i) & 1; p.push_back(x); } return p; }
static Rows named(Rng& r, int& d, std::string& name)
{
   Rows p;
   switch (r.below(9)) {
   case 0: name = "birkhoff"; p = birkhoff3(); break;
   case 1: name = "cut4"; p = cut(4); break;
   case 2: name = "permutohedron"; p = perms(r.range(3, 4)); break;
   case 3: { int e = r.range(4, 6); name = "cyclic-high"; p = cyclic(e, e + r.range(1, e == 4 ? 4 : 2)); break; }
   case 4: name = "simplices"; p = product(simplex(r.range(1, 3)), simplex(r.range(1, 3))); break;
   case 5: name = "simplex-high"; p = simplex(r.chance(1, 6) ? r.range(10, 14) : r.range(5, 9)); if (r.chance(1, 2)) for (auto& x : p) for (auto& v : x) v *= r.range(1, 3); break;
   case 6: name = "stable-sets"; p = stable(r, r.range(3, 6)); break;
   case 7: { int n = r.range(3, 5), k = r.range(1, n - 1); name = "hypersimplex-eq"; for (int m = 0; m < (1 << n); ++m) if (__builtin_popcount(m) == k) { Row x(n); for (int i = 0; i < n; ++i) x[i] = (m >> i) & 1; p.push_back(x); } break; }
   default: { name = "random01"; int e = r.range(3, 6); std::set<Row> s; int n = r.range(e + 1, e + 7); for (int t = 0; t < 60 && (int)s.size() < n; ++t) { Row x(e); for (auto& v : x) v = r.range(0, 1); s.insert(x); } p.assign(s.begin(), s.end()); }
   }
   d = (int)p[0].size(); return p;
}
static Rows tall(Rng& r, int& d, std::string& name) // many dimensions, few points
{
   Rows p; d = r.chance(1, 8) ? r.range(10, 12) : r.range(5, 9); name = "tall";
   switch (r.below(3)) {
   case 0: p = simplex(d); for (auto& x : p) for (auto& v : x) v *= r.range(1, 2); break;
   case 1: { int a = r.range(1, d - 1); p = simplex(a); for (auto& x : p) x.resize(d, 0); Rows q = simplex(d - a); for (size_t i = 1; i < q.size(); ++i) { Row x(a, 0); x.insert(x.end(), q[i].begin(), q[i].end()); p.push_back(x); x[r.below(a)] = r.range(-1, 1); p.push_back(x); } break; }
   default: p = simplex(d); { int n = r.range(1, 3); for (int i = 0; i < n; ++i) { Row x(d); for (auto& v : x) v = r.range(-1, 1); p.push_back(x); } }
   }
   return p;
}
static void cone(Rng& r, int& d, std::string& name, Rows& pts, Rows& rays) // few vertices, many rays
{
   name = "cone"; Rows b; int n = 0;
   switch (r.below(5)) {
   case 0: b = cut(4); d = 6; b.erase(b.begin()); rays = b; name = "cut-cone"; break;
   case 1: d = r.range(3, 6); n = r.range(d, d + 9); break;
   case 2: { int k = 0; b = polygon(r, k, name); d = 3; name = "cone-polygon"; for (auto& x : b) { x.push_back(1); rays.push_back(x); } break; }
   case 3: { int e = r.range(2, 4); name = "cone-cube"; d = e + 1; for (int m = 0; m < (1 << e); ++m) { Row x(d, 1); for (int i = 0; i < e; ++i) x[i] = (m >> i) & 1; rays.push_back(x); } break; }
   default: { int e = r.range(3, 6); name = "cone-simplices"; d = e; for (int i = 0; i < d; ++i) for (int j = 0; j < i; ++j) { Row x(d, 0); x[i] = x[j] = 1; rays.push_back(x); } }
   }
   for (int i = 0; i < n; ++i) { Row x(d); for (auto& v : x) v = r.range(0, 2); x[d - 1] = r.range(1, 2); rays.push_back(x); }
   int m = r.chance(1, 2) ? 1 : r.range(2, 4); for (int i = 0; i < m; ++i) { Row x(d, 0); if (i || r.chance(1, 4)) for (auto& v : x) v = r.range(-1, 2); pts.push_back(x); }
}
// ---- the symmetries of some of them: affine maps
static Mat ident(int d) { Mat M(d, Row(d + 1, 0)); for (int i = 0; i < d; ++i) M[i][i] = 1; return M; }
static Mat coord(const std::vector<int>& to) { int d = (int)to.size(); Mat M(d, Row(d + 1, 0)); for (int i = 0; i < d; ++i) M[i][to[i]] = 1; return M; }
static Rows symmetric(Rng& r, int& d, std::vector<Mat>& maps, std::string& name)
{
   Rows p; auto cycle = [](int n) { std::vector<int> t(n); for (int i = 0; i < n; ++i) t[i] = (i + 1) % n; return t; }; auto swap01 = [](int n) { std::vector<int> t(n); std::iota(t.begin(), t.end(), 0); std::swap(t[0], t[1]); return t; };
   auto coords = [&](int n) { if (r.chance(3, 4)) maps.push_back(coord(cycle(n))); if (maps.empty() || r.chance(3, 4)) maps.push_back(coord(swap01(n))); };
   switch (r.below(7)) {
   case 0: { d = r.range(3, 5); name = "sym-cube"; for (int m = 0; m < (1 << d); ++m) { Row x(d); for (int i = 0; i < d; ++i) x[i] = (m >> i) & 1; p.push_back(x); } coords(d); if (r.chance(1, 2)) { Mat M = ident(d); M[0][0] = -1; M[0][d] = 1; maps.push_back(M); } break; }
   case 1: { int n = r.range(4, r.chance(1, 3) ? 5 : 4); d = n * (n - 1) / 2; name = "sym-cut"; p = cut(n); auto on = [&](const std::vector<int>& g) { std::vector<int> t(d); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) t[edge(n, i, j)] = edge(n, g[i], g[j]); return coord(t); };
      maps.push_back(on(cycle(n))); if (n == 5 || r.chance(1, 2)) maps.push_back(on(swap01(n))); if (r.chance(1, 2)) { Mat M = ident(d); for (int j = 1; j < n; ++j) { int e = edge(n, 0, j); M[e][e] = -1; M[e][d] = 1; } maps.push_back(M); } break; }
   case 2: { int n = r.range(3, 4); d = n; name = "sym-permutohedron"; p = perms(n); coords(n); if (r.chance(1, 3)) { Mat M = ident(d); for (int i = 0; i < d; ++i) { M[i][i] = -1; M[i][d] = n + 1; } maps.push_back(M); } break; }
   case 3: { d = 9; name = "sym-birkhoff"; p = birkhoff3(); std::vector<int> a(9), b(9), c(9); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { a[3 * i + j] = 3 * ((i + 1) % 3) + j; b[3 * i + j] = 3 * (i < 2 ? 1 - i : 2) + j; c[3 * i + j] = 3 * j + i; } maps.push_back(coord(a)); if (r.chance(2, 3)) maps.push_back(coord(b)); if (r.chance(1, 2)) maps.push_back(coord(c)); break; }
   case 4: { int n = r.range(4, 6), k = r.range(1, n - 1); d = n; name = "sym-hypersimplex"; for (int m = 0; m < (1 << n); ++m) if (__builtin_popcount(m) == k) { Row x(n); for (int i = 0; i < n; ++i) x[i] = (m >> i) & 1; p.push_back(x); } coords(n); break; }
   case 5: { d = r.chance(1, 3) ? r.range(6, 8) : r.range(3, 5); name = "sym-cross"; for (int i = 0; i < d; ++i) for (int s = -1; s <= 1; s += 2) { Row x(d, 0); x[i] = s; p.push_back(x); } coords(d); if (r.chance(1, 2)) { Mat M = ident(d); M[0][0] = -1; maps.push_back(M); } break; }
   default: { d = r.chance(1, 6) ? r.range(9, 12) : r.range(5, 8); name = "sym-simplex"; p = simplex(d); coords(d); if (r.chance(1, 2)) { Mat M = ident(d); for (int j = 0; j < d; ++j) M[0][j] = -1; M[0][d] = 1; maps.push_back(M); } break; } // e0 -> origin -> e0
   }
   return p;
}
// ---- H side
static Rows crowdedVertex(Rng& r, int& d, std::string& name, int most) // many inequalities through one vertex of a cube
{
   d = r.range(2, 4); name = "H-crowded"; Rows A; ll k = r.range(1, 2);
   for (int i = 0; i < d; ++i) { Row x(d + 1, 0); x[i] = -1; A.push_back(x); x[i] = 1; x[d] = -k; A.push_back(x); }
   int n = crowd(r, 200); bool many = most && d < 4 && r.chance(1, 10); if (many) n = multitude(r, most); std::set<Row> s; for (int t = 0; t < (many ? 20000 : 4000) && (int)s.size() < n; ++t) { Row x(d + 1); ll sum = 0; for (int i = 0; i < d; ++i) sum += x[i] = r.range(0, many ? d == 2 ? 60 : 16 : d == 2 ? 30 : 8); if (!sum) continue; x[d] = -sum * k; s.insert(x); } // duplicates of a facet are fine
   A.insert(A.end(), s.begin(), s.end());
   int cut = r.range(0, 2); for (int c = 0; c < cut; ++c) { Row x(d + 1, 0); ll lo = 0, hi = 0; for (int i = 0; i < d; ++i) { x[i] = r.range(-2, 2); (x[i] < 0 ? lo : hi) += x[i] * k; } x[d] = -r.range((int)lo, (int)hi); if (r.chance(3, 4)) A.push_back(x); }
   return A;
}
static Rows namedH(Rng& r, int& d, Mat& eqs, std::string& name)
{
   Rows A; auto nonneg = [&](int n) { for (int i = 0; i < n; ++i) { Row x(n + 1, 0); x[i] = -1; A.push_back(x); } };
   switch (r.below(5)) {
   case 0: d = 9; name = "H-birkhoff"; nonneg(9); { int skip = (int)r.below(7); for (int k = 0; k < 6; ++k) { if (k == skip) continue; Row x(10, 0); for (int i = 0; i < 3; ++i) x[k < 3 ? 3 * k + i : 3 * i + k - 3] = 1; x[9] = -1; eqs.push_back(x); } } break;
   case 1: { d = r.chance(1, 6) ? r.range(9, 13) : r.range(4, 8); name = "H-simplex-high"; nonneg(d); Row x(d + 1, 1); for (int i = 0; i < d; ++i) x[i] = r.range(1, 2); x[d] = -r.range(1, 3); A.push_back(x); break; }
   case 2: { int n = r.range(3, 5); d = n; name = "H-hypersimplex"; nonneg(n); for (int i = 0; i < n; ++i) { Row x(n + 1, 0); x[i] = 1; x[n] = -1; A.push_back(x); } Row e(n + 1, 1); e[n] = -r.range(1, n - 1); eqs.push_back(e); break; }
   case 3: { d = r.range(3, 4); name = "H-cone-high"; nonneg(d); for (int t = r.range(0, 2); t > 0; --t) { Row x(d + 1, 0); for (int i = 0; i < d; ++i) x[i] = r.range(-2, 1); A.push_back(x); } break; }
   default: { int n = 4; d = 6; name = "H-metric"; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) for (int k = j + 1; k < n; ++k) { int e[3] = { edge(n, i, j), edge(n, i, k), edge(n, j, k) }; for (int q = 0; q < 3; ++q) { Row x(7, 0); for (int t = 0; t < 3; ++t) x[e[t]] = t == q ? 1 : -1; A.push_back(x); } Row x(7, 0); for (int t = 0; t < 3; ++t) x[e[t]] = 1; x[6] = -2; A.push_back(x); } }
   }
   return A;
}
}
