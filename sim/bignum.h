// Minimal signed big integers for judging rows with huge entries.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
struct Big {
   bool neg = false; std::vector<uint32_t> m;   // magnitude, little endian, no leading zeros
   Big(long long v = 0) { unsigned long long u = v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v; neg = v < 0; while (u) { m.push_back((uint32_t)u); u >>= 32; } }
   int sign() const { return m.empty() ? 0 : neg ? -1 : 1; }
   static bool parse(const std::string& s, size_t& i, Big& out) {   // digits only
      size_t b = i; out = Big(); while (i < s.size() && s[i] >= '0' && s[i] <= '9') { uint64_t c = (uint64_t)(s[i] - '0'); for (auto& x : out.m) { c += (uint64_t)x * 10; x = (uint32_t)c; c >>= 32; } if (c) out.m.push_back((uint32_t)c); ++i; }
      return i > b; }
   static int cmpMag(const Big& a, const Big& b) { if (a.m.size() != b.m.size()) return a.m.size() < b.m.size() ? -1 : 1; for (size_t i = a.m.size(); i-- > 0;) if (a.m[i] != b.m[i]) return a.m[i] < b.m[i] ? -1 : 1; return 0; }
   void trim() { while (!m.empty() && !m.back()) m.pop_back(); if (m.empty()) neg = false; }
   Big operator+(const Big& o) const {
      Big r;
      if (neg == o.neg) { r.neg = neg; uint64_t c = 0; for (size_t i = 0; i < m.size() || i < o.m.size() || c; ++i) { c += (i < m.size() ? m[i] : 0ull) + (i < o.m.size() ? o.m[i] : 0ull); r.m.push_back((uint32_t)c); c >>= 32; } r.trim(); return r; }
      int k = cmpMag(*this, o); if (!k) return r; const Big &a = k > 0 ? *this : o, &b = k > 0 ? o : *this; r.neg = a.neg; int64_t c = 0;
      for (size_t i = 0; i < a.m.size(); ++i) { int64_t d = (int64_t)a.m[i] - (i < b.m.size() ? (int64_t)b.m[i] : 0) + c; c = d < 0 ? -1 : 0; r.m.push_back((uint32_t)d); } r.trim(); return r; }
   Big operator*(const Big& o) const { Big r; r.neg = neg != o.neg; r.m.assign(m.size() + o.m.size(), 0); for (size_t i = 0; i < m.size(); ++i) { uint64_t c = 0; for (size_t j = 0; j < o.m.size() || c; ++j) { c += (uint64_t)r.m[i + j] + (j < o.m.size() ? (uint64_t)m[i] * o.m[j] : 0ull); r.m[i + j] = (uint32_t)c; c >>= 32; } } r.trim(); return r; }
};
using BigRow = std::vector<Big>;
