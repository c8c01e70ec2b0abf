// Workload generator and output oracle.
#pragma once
#include <map>
#include <string>
#include <vector>
#include "bignum.h"
#include "geom.h"
#include "rng.h"

struct Problem {
   std::string family;                 // generator family (for statistics)
   bool vertexMode = false;            // false: V->H ("facets"), true: H->V ("vertices")
   int d = 0;                          // ambient dimension
   geom::Mat gens;                     // V->H: homogeneous points (.., t>0) then rays (.., 0); H->V: rows a.y <= 0
   geom::Mat eqs;                      // H->V: equations
   std::vector<std::string> names;     // empty: unnamed
   std::vector<geom::Mat> maps;        // d rows x (d+1) affine coefficients
   geom::Mat reduced;                  // V->H/H->V: representatives given instead of gens ("Reduced ..."), or empty
   geom::Mat known;                    // rows handed in with -k (subset of the result), or empty
   std::string inputText, knownText;   // rendered files
   bool big = false;
   geom::Mat inverse;                  // huge coordinates: d x (d+1), from the big coordinates back to the small ones, or empty
   geom::Mat base, baseEqs;            // huge coordinates: small problem with the same incidences (oracle input), or empty
   // derived
   geom::Mat cone() const;             // the generator rows panda works on (incl. +-equations and t >= 0 in H->V)
};

struct Expected {
   bool decided = false;               // oracle applicable (no overflow, pointed, ...)
   std::string why;
   geom::Mat cone;
   std::set<geom::Bits> results;       // incidence vectors of all results (over cone)
   std::map<geom::Bits, int> cls;      // class number of each result under the maps
   int classes = 0;
   int eqRank = 0;                     // number of independent equations expected (V->H only)
};

struct GenOpts {
   int mode = -1;          // -1 any, 0 facets, 1 vertices
   bool maps = true;       // may generate symmetric inputs with maps
   bool known = true;      // may generate -k data
   int maxCoord = 3;
   bool big = false;       // allow larger structured instances
   int size = 1;           // 0 tiny, 1 small, 2 medium
   bool requireMaps = false, requireKnown = false;
   bool fancyText = true;
   int minResults = 0;
   int crowd = 6;          // percentage of crowded instances (hundreds of generators on few facets)
   int many = 0;           // percentage of instances with dozens of neighbours of one facet; larger orbits
   long long huge = 0;     // blow coordinates up by entries of about this size
};

Problem generate(Rng& rng, const GenOpts& o);
// Apply an affine bijection with entries of about `scale` (results keep their incidences).
void blowUp(Problem& p, Rng& rng, long long scale);
// The same for symmetric problems: scaled, and embedded with large multiples of the coordinates as further ones.
void blowUpSymmetric(Problem& p, Rng& rng, long long scale);
void addKnown(Problem& p, const Expected& e, Rng& rng, int mode);
void render(Problem& p, Rng& rng, bool fancy);
Expected expect(const Problem& p);
// all result rows (reduced by their common divisor) have entries that fit into int; false when in doubt
bool resultsFitInt(const Problem& p);

struct Output {                        // parsed standard output
   bool ok = false; std::string error;
   bool complete = true;               // last line was newline-terminated
   std::string header;
   geom::Mat equations, rows;
   std::vector<BigRow> bigEquations, bigRows;   // filled instead of the above for huge problems
   std::vector<std::string> rowText;
};
std::string knownText(const Problem& p, const geom::Mat& rows);
Output parseOutput(const std::string& text, const Problem& p, bool dd, bool allowTruncatedTail = false);
// Returns "" when the output is right, otherwise a description. `partial`: rows may be missing (crash / abort),
// everything printed must be right; `dup`: also demand that nothing is printed twice.
std::string checkOutput(const Output& out, const Problem& p, const Expected& e, bool partial, bool dd);
std::string rowStr(const geom::Row&);
std::string bitsStr(const geom::Bits&);
