// Independent reference model: exact facet / extreme-ray enumeration on small inputs.
// Shares no code with panda. Works on homogeneous generators of a cone; all arithmetic is
// 128-bit with overflow detection (an overflow makes the run "undecided", never a verdict).
#pragma once
#include <cstdint>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace geom {
using ll = long long;
using i128 = __int128;
using Row = std::vector<ll>;
using Mat = std::vector<Row>;
using Bits = std::vector<bool>;

struct Overflow : std::runtime_error { Overflow() : std::runtime_error("oracle overflow") {} };

// rank over Q
int rank(const Mat&);
// rows of a basis of {a : a.g = 0 for all g in gens} (a basis of the equations)
Mat nullspace(const Mat& gens, std::size_t width);
// reduced echelon form, rows in lowest terms
Mat echelon(const Mat&, std::size_t width);
i128 dot(const Row&, const Row&);

struct Facets {
   std::set<Bits> incidence;   // one entry per facet of cone(gens): which generators lie on it
   bool pointed = true;        // the cone contains no line
};
// All facets of cone(gens), as incidence vectors over gens.
Facets facets(const Mat& gens, std::size_t width);
// Same by brute force over all subsets (used to cross-check `facets`). Only for tiny inputs.
Facets facetsBrute(const Mat& gens, std::size_t width);
}
