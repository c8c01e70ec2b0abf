#pragma once
#include <cstdint>
// splitmix64-based PRNG; every decision of a run derives from one of these.
struct Rng {
   uint64_t s;
   explicit Rng(uint64_t seed = 0) : s(seed) {}
   uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
   uint64_t below(uint64_t n) { return n ? next() % n : 0; }
   int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
   bool chance(unsigned num, unsigned den) { return below(den) < num; }
   Rng fork(uint64_t tag) { Rng r(next() ^ (tag * 0xd1342543de82ef95ull)); r.next(); return r; }
};
