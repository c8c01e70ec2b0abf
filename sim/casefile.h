// A case = one simulated experiment: a problem plus one or more simulated runs; serialised as a replay file.
#pragma once
#include "engine.h"
#include "problem.h"

struct Case {
   std::string prop, scenario;
   uint64_t seed = 0;                   // derives everything
   Problem p;
   bool dd = false;                     // double description output format
   std::vector<sim::RunSpec> runs;
   std::string damage;                  // for the statistics: how a file was damaged
};
struct Verdict {
   std::string cls, text;               // empty cls: property held
   uint64_t hash = 0;                   // combined event hash of all runs
   std::vector<sim::RunResult> results;
   bool decided = true;                 // oracle applicable
   bool bad() const { return !cls.empty(); }
};
std::string serialise(const Case&);
bool deserialise(const std::string&, Case&, std::string& error);
