// Deterministic simulator for panda: all threads of all nodes run one at a time, every choice comes
// from one PRNG (or from a recorded decision list), I/O, clocks, memory and MPI are simulated.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include "rng.h"

namespace sim {

// kinds of recorded scheduler / environment choices (a run = spec + list of non-default choices)
enum ChoiceKind : uint8_t { C_SWITCH, C_SIGNAL, C_SPURIOUS, C_DELAY, C_SENDMODE, C_TESTLAG, C_READLEN, C_EINTR, C_CLOCKSTEP, C_RELEASE, C_HOLDAT, C_KINDS };
extern const char* const choiceNames[C_KINDS];
struct Choice { uint8_t kind; uint32_t a, b, v; };

// fault kinds (injected at a counted event of a node)
enum FaultKind : uint8_t { F_ALLOC, F_ALLOC_FROM, F_THREAD, F_WRITE_ENOSPC, F_WRITE_EIO_ONCE, F_WRITE_SHORT, F_READ_EIO, F_OPEN, F_KILL_STEP, F_KILL_BYTES, F_CLOCK_JUMP, F_CLOCK_STOP, F_STALL_NODE, F_ERR_EIO, F_KINDS };
extern const char* const faultNames[F_KINDS];
struct Fault { uint8_t kind; int node; uint64_t n; int64_t arg; };

enum Strategy : uint8_t { S_DEFAULT, S_RANDOM, S_PCT, S_STARVE, S_RR, S_FEW, S_BURST, S_REPLAY, S_KINDS };
extern const char* const strategyNames[S_KINDS];

struct SimFile { int node; std::string path, text; };   // node -1: every node

struct RunSpec {
   int nodes = 1;
   bool mpi = false;                    // nodes use the MPI build
   bool traced = false;                 // nodes use the instrumented build (memory accesses are scheduling points)
   std::vector<std::vector<std::string>> args;   // per node
   std::vector<int> cores;              // per node: reported hardware concurrency
   std::vector<SimFile> files;
   std::vector<Fault> faults;
   int bufMode = 0;                     // stdout buffering: 0 full (4096), 1 line, 2 none, n >= 3: n bytes
   bool spurious = false, eintr = false, shortReads = false, clockSteps = false;
   int netMode = 0;                     // 0 fast, 1 jittery, 2 slow links, 3 heavy reordering between channels
   Strategy strategy = S_DEFAULT;
   uint64_t seed = 0;                   // schedule seed
   std::vector<Choice> choices;         // S_REPLAY
   int hold = 0;                        // hold back threads that have work until nothing else moves; the number of threads that should have work then
   int holdNode = 0, holdThreads = 0; uint64_t holdAt = 0;   // instead: every holdAt steps, hold back this node, which has so many threads
   uint64_t stepLimit = 3000000;
   int cpuLimit = 40;                   // seconds of CPU
};

enum Outcome : uint32_t { O_DONE, O_DEADLOCK, O_STALL, O_STEPLIMIT, O_CPULIMIT, O_CRASH, O_TERMINATE, O_EXITCALL, O_KILLED, O_JOBABORT, O_MPI_ERROR, O_MEMORY, O_MISUSE, O_ENGINE, O_CUTOFF, O_KINDS };
extern const char* const outcomeNames[O_KINDS];

struct NodeResult {
   bool exited = false; int rc = 0;
   int threadsLeft = 0;                 // unfinished threads when main returned
   std::string out;                     // everything the program wrote to stdout
   std::string durable;                 // what reached the file
   std::string err;
   std::string said;                    // the same, with the lines of every thread kept together
   bool writeFailed = false;
   bool readFailed = false;
   std::vector<std::string> notes;      // violations seen while running ("kind: text")
};
struct RunResult {
   Outcome outcome = O_ENGINE;
   std::string detail;
   std::vector<NodeResult> nodes;
   std::vector<std::string> notes;      // races, MPI discipline, output discipline
   std::vector<Choice> choices;
   uint64_t hash = 0, schedHash = 0;
   uint64_t steps = 0, switches = 0, simTime = 0, threads = 0, messages = 0, accesses = 0, allocs = 0, clockCalls = 0;
   uint64_t faultsFired[F_KINDS] = {}; uint64_t choicesMade[C_KINDS] = {};
   std::vector<uint64_t> states;        // sampled abstract scheduler states
};

// process-wide set-up: loads `count` private copies of the node library
bool init(const std::string& shmLib, const std::string& mpiLib, const std::string& tracedShmLib, const std::string& tracedMpiLib, const std::string& scratchDir, std::string& error);
bool ensureNodes(bool mpi, bool traced, int count, std::string& error);
RunResult run(const RunSpec&);         // forks; the run happens in the child
}
