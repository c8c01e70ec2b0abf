// Per-property workload profiles and oracles.
#pragma once
#include "casefile.h"
struct Profile { const char* id; const char* variants; };
const Profile* profileOf(const std::string& id);
bool makeCase(const std::string& prop, uint64_t seed, bool thorough, Case& c);   // false: nothing generated for this seed
Verdict evaluate(const Case& c);           // runs everything, applies the property's oracle
