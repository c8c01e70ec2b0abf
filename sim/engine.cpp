#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <link.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <streambuf>
#include <sys/mman.h>
#include <sys/stat.h>
#include <semaphore.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <unordered_map>

#include "mpi/mpi.h"

#define EXPORT extern "C" __attribute__((visibility("default")))

namespace sim {
const char* const choiceNames[C_KINDS] = { "switch", "signal", "spurious", "delay", "sendmode", "testlag", "readlen", "eintr", "clockstep", "release", "holdat" };
const char* const faultNames[F_KINDS] = { "alloc", "alloc_from", "thread", "write_enospc", "write_eio_once", "write_short", "read_eio", "open", "kill_step", "kill_bytes", "clock_jump", "clock_stop", "stall_node", "stderr_eio" };
const char* const strategyNames[S_KINDS] = { "default", "random", "pct", "starve", "round_robin", "few", "burst", "replay" };
const char* const outcomeNames[O_KINDS] = { "done", "deadlock", "stall", "step-limit", "cpu-limit", "crash", "terminate", "exit-call", "killed", "job-abort", "mpi-error", "memory-error", "sync-misuse", "engine-error", "cut-off" };

// ---------------------------------------------------------------------------------------------------
// raw system calls (never interposed)
static inline long raw6(long n, long a, long b, long c, long d, long e, long f)
{
   long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
   __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
   return r;
}

// ---------------------------------------------------------------------------------------------------
// state
constexpr int MAXT = 80, MAXN = 6;
constexpr uint64_t ARENA = 0x200000000000ull, ARENA_SIZE = 4ull << 30;
constexpr uint64_t STACKS = 0x210000000000ull, STACK_SIZE = 1ull << 20;
constexpr uint64_t SHADOW_A = 0x220000000000ull, SHADOW_S = 0x230000000000ull, SHADOW_D = 0x240000000000ull;

struct VC { uint32_t c[MAXT]; void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum State : uint8_t { Unborn, Runnable, OnMutex, OnCond, OnJoin, OnFutex, OnOnce, OnRecv, OnBarrier, Sleeping, Finished };
static const char* const stateNames[] = { "unborn", "runnable", "waiting for a mutex", "waiting on a condition variable", "joining a thread", "waiting on a future", "waiting for a one-time initialisation", "in a blocking MPI receive", "in an MPI barrier or finalize", "sleeping", "finished" };
struct Thread {
   int id, node; pthread_t real; uint32_t word; State state; const void* obj; uint64_t wake; bool timed, timedOut, signalled;
   bool yielded; int depth; uint32_t points; void* (*fn)(void*); void* arg; void* ret; bool joined, detached, main; int joiner;
   uint32_t prio; const char* op; VC vc; uint64_t ys; uint32_t choiceNo; const void* spinOn; uint64_t spinStep; uint32_t spins;
   bool announced, held, expanding; uint32_t owned, workAllocs, deep;   // spec.hold
};
struct Node {
   int (*mainFn)(int, char**); std::vector<std::string> argStore; std::vector<char*> argv;
   std::vector<std::pair<void (*)(void*), void*>> atexit;
   bool exited = false, inited = false, finalized = false, finalizing = false; int rc = 0; int threadsLeft = 0;
   std::string out, durable, err; bool writeFailed = false, readFailed = false; size_t flushedUpTo = 0;
   int outCap = 4096; bool lineBuf = false;
   uint64_t allocs = 0, creates = 0, steps = 0, clockCalls = 0, opens = 0; int64_t clockOffset = 0, clockStopped = -1; uint64_t bytesTried = 0; bool eioDone = false, readDone = false;
   bool allocArmed = false; uint64_t allocAt = 0, allocAt2 = 0; bool allocFrom = false;
   int mpiInside = -1, mpiLevel = 0; std::vector<std::string> notes; bool stdioError = false; int comms = 2, collectives = 0, randoms = 0;
   std::streambuf* bufs[3]; std::ostream* ties[3];
   std::ios_base::fmtflags fl[3]; std::streamsize pr[3], wi[3]; char fi[3]; std::ios_base::iostate st[3], ex[3]; bool saved = false;
   std::string said, part[MAXT]; size_t rowsDurable = 0, countedUpTo = 0;
   uint64_t stallUntil = 0;
};
struct Mutex { int owner = -1; bool hasVC = false; VC vc; int depth = 0; };
struct Msg { int src, dst, tag, comm; std::vector<char> data, snap; const void* buf; size_t len; bool copied; uint64_t arrive, doneAt; bool consumed, sync; int req; bool arrivedNoted; VC vc; };
struct Req { int msg; bool done; int node; bool recv, cancelled; void* buf; size_t cap; int src, tag, comm; };   // a send, or a receive (recv) that matches message msg once that is not negative

static thread_local Thread* self = nullptr;
struct In { Thread* t; In() : t(self) { if (t) ++t->depth; } ~In() { if (t) --t->depth; } };
static inline bool active() { return self && self->depth == 0; }

static RunSpec spec;
static Rng* prng;
static Thread threads[MAXT]; static int nThreads;
static Node* nodes; static int nNodes;
static std::unordered_map<const void*, Mutex>* mutexes;
static std::unordered_map<const void*, std::deque<int>>* conds;
static std::unordered_map<const void*, int>* onces;      // 1 running, 2 done
static std::unordered_map<const void*, VC>* syncVCs;
static std::unordered_map<uint64_t, uint32_t>* replay;    // choice lookup
static std::vector<Msg>* msgs; static std::vector<int>* live; static std::vector<Req>* reqs; static std::map<std::pair<std::pair<int,int>,int>, uint64_t>* lastArrive;
static std::vector<Choice>* choices;
static std::vector<std::string>* notes;
static std::vector<uint64_t>* states;
static uint64_t now_ns, step, switches, runHash, schedHash, faultsFired[F_KINDS], choicesMade[C_KINDS], accesses, allocsTotal, clockCallsTotal;
static uint64_t idleRounds, lastProgressStep, timedRounds, lastWorkStep, holdRounds, startedExpansions, nudges, nextHold; static bool idleNoted, nodeHeld;
static int barrierCount;
static bool ended, running, tracing;
static pthread_t toJoin; static bool haveJoin;
static char* shm; constexpr size_t SHM = 64u << 20;
static int lastNode = -1;
// strategy parameters
static uint32_t pSync, pMem; static std::vector<uint64_t>* changePoints; static int starved; static uint64_t starveUntil; static uint32_t prioLow; static uint64_t burstLen, burstGap;
static bool loose;

static inline void mix(uint64_t v) { runHash = (runHash ^ v) * 0x9e3779b97f4a7c15ull; runHash ^= runHash >> 29; }
static inline void mixS(uint64_t v) { schedHash = (schedHash ^ v) * 0x9e3779b97f4a7c15ull; schedHash ^= schedHash >> 29; }

[[noreturn]] static void finish(Outcome o, const std::string& detail);
static void note(const std::string& s) { if (notes->size() < 200) notes->push_back(s); }
static std::string fmt(const char* f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

// ---------------------------------------------------------------------------------------------------
// choices
static uint64_t key(uint8_t kind, uint32_t a, uint32_t b) { return ((uint64_t)kind << 58) | ((uint64_t)a << 40) | b; }
// `v`: the value drawn by the PRNG (0 = default); in replay mode the recorded value is used instead.
template <typename Draw> static uint32_t choose(ChoiceKind kind, uint32_t a, uint32_t b, Draw draw)
{
   uint32_t v;
   if (spec.strategy == S_REPLAY) { auto it = replay->find(key(kind, a, b)); v = it == replay->end() ? 0 : it->second; }
   else { v = draw(); if (v && choices->size() < 400000) choices->push_back(Choice{ (uint8_t)kind, a, b, v }); }
   if (v) ++choicesMade[kind];
   return v;
}

// ---------------------------------------------------------------------------------------------------
// scheduler
static void futexWait(uint32_t* w) { while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) raw6(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(w, 0, __ATOMIC_RELEASE); }
static void futexPost(uint32_t* w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); raw6(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void progress()
{
   idleRounds = 0; timedRounds = 0; holdRounds = 0; lastProgressStep = step;
   for (int i = 0; i < nThreads; ++i) threads[i].yielded = false;
}
static int (*realJoin)(pthread_t, void**);
static std::ostream* const stdStreams[3] = { &std::cout, &std::cerr, &std::clog };
static void ioSave(int n)
{
   Node& x = nodes[n]; x.saved = true;
   for (int i = 0; i < 3; ++i) { std::ostream& o = *stdStreams[i]; x.fl[i] = o.flags(); x.pr[i] = o.precision(); x.wi[i] = o.width(); x.fi[i] = o.fill(); x.st[i] = o.rdstate(); x.ex[i] = o.exceptions(); x.bufs[i] = o.rdbuf(); x.ties[i] = o.tie(); }
}
static void ioLoad(int n)
{
   Node& x = nodes[n]; if (!x.saved) return;
   for (int i = 0; i < 3; ++i) { std::ostream& o = *stdStreams[i]; o.exceptions(std::ios_base::goodbit); o.rdbuf(x.bufs[i]); o.tie(x.ties[i]); o.clear(x.st[i]); o.flags(x.fl[i]); o.precision(x.pr[i]); o.width(x.wi[i]); o.fill(x.fi[i]); if (x.ex[i]) { try { o.exceptions(x.ex[i]); } catch (...) {} } }
}

static void resume(Thread* t)   // on t's own real thread, right after it got the baton
{
   if (haveJoin) { haveJoin = false; realJoin(toJoin, nullptr); }
   if (lastNode != t->node) { if (lastNode >= 0) ioSave(lastNode); lastNode = t->node; ioLoad(t->node); }
}
static void handTo(int id) { futexPost(&threads[id].word); }
static void switchTo(int id)
{
   Thread* t = self;
   ++switches; mixS(((uint64_t)t->id << 8) | (uint64_t)id);
   handTo(id); futexWait(&t->word); resume(t);
}

static uint64_t nextEvent(bool timers = true)
{
   uint64_t e = UINT64_MAX;
   if (timers) for (int i = 0; i < nThreads; ++i) if (threads[i].timed && threads[i].state != Runnable && threads[i].state != Finished) e = std::min(e, threads[i].wake);
   for (int i : *live) { Msg& m = (*msgs)[(size_t)i]; if (!m.consumed && m.arrive > now_ns) e = std::min(e, m.arrive); if (m.doneAt > now_ns && m.doneAt != UINT64_MAX) e = std::min(e, m.doneAt); }
   for (int i = 0; i < nNodes; ++i) if (nodes[i].stallUntil > now_ns) e = std::min(e, nodes[i].stallUntil);
   return e;
}
static void checkBuffer(Msg& m);
static void fireEvents()
{
   for (int i = 0; i < nThreads; ++i) { Thread& t = threads[i]; if (t.timed && t.wake <= now_ns && t.state != Runnable && t.state != Finished && t.state != Unborn) { t.timed = false; t.timedOut = true; t.state = Runnable; } }
   for (size_t k = 0; k < live->size(); ++k) { Msg& m = (*msgs)[(size_t)(*live)[k]];
      if (m.consumed && m.copied) { (*live)[k] = live->back(); live->pop_back(); std::sort(live->begin(), live->end()); --k; continue; }
      if (!m.copied && m.doneAt <= now_ns) { checkBuffer(m); m.copied = true; progress(); }
      if (!m.arrivedNoted && m.arrive <= now_ns) { m.arrivedNoted = true; progress(); for (int i = 0; i < nThreads; ++i) if (threads[i].state == OnRecv && threads[i].node == m.dst) threads[i].state = Runnable; }
   }
}

static std::string describe()
{
   std::string s;
   for (int i = 0; i < nThreads; ++i) { Thread& t = threads[i]; if (t.state == Finished) continue; s += fmt("; thread %d of node %d%s: %s (last operation %s)", t.id, t.node, t.main ? " (main)" : "", stateNames[t.state], t.op ? t.op : "-"); }
   return s;
}

static void killNode(int node, const char* why);
static void sampleState()
{
   uint64_t h = 1469598103934665603ull;
   for (int i = 0; i < nThreads; ++i) { uint64_t v = threads[i].state * 131 + (uint64_t)(uintptr_t)(threads[i].op ? threads[i].op[0] + threads[i].op[threads[i].op[0] ? 1 : 0] * 7 : 0); h = (h ^ v) * 1099511628211ull; }
   h = (h ^ std::min<size_t>(7, live->size())) * 1099511628211ull;
   if (states->size() < 4000) states->push_back(h);
}

// spec.hold: threads that have announced an expansion are held back until nothing else in the whole system can move
static size_t resultLines(const Node& n);
static void quiet(Thread* cur)
{
   int busy = 0, q[MAXT], n = 0; size_t rows = resultLines(nodes[0]);
   for (int i = 0; i < nThreads; ++i) { if (threads[i].expanding && threads[i].state != Finished) ++busy; if (threads[i].held) q[n++] = i; }
   int blocked = -1; for (int i = 0; i < nThreads; ++i) if (threads[i].expanding && (threads[i].state == OnMutex || (threads[i].state == OnCond && !threads[i].timed && nNodes == 1))) blocked = i;
   bool idle = (busy < spec.hold && rows > startedExpansions) || (blocked >= 0 && !spec.holdNode), stuck = spec.holdNode && busy > spec.holdThreads;
   if (idle && !spec.holdNode && nudges < 3) {   // they may stand in the middle of a critical section of a kind unknown here: let them run on a little
      ++nudges; holdRounds = 0;
      for (int i = 0; i < n; ++i) { threads[q[i]].held = false; threads[q[i]].announced = true; threads[q[i]].workAllocs = 0; }
      return;
   }
   nudges = 0;
   if (idle && blocked >= 0 && !idleNoted) { idleNoted = true; note(fmt("idle: the expansion begun by thread %d waits for another expansion", threads[blocked].id) + describe()); }
   if (idle && !idleNoted) { idleNoted = true; note(fmt("idle: only %d of %d threads were at work while %zu of %zu printed results waited for their expansion", busy, spec.hold, rows - startedExpansions, rows) + describe()); }
   holdRounds = 0;
   if (spec.holdNode) {
      if (stuck && !idleNoted) { idleNoted = true; note(fmt("stuck: %d expansions do not go on, although only node %d with %d threads stands still", busy, spec.holdNode, spec.holdThreads) + describe()); }
      for (int i = 0; i < n; ++i) threads[q[i]].held = false;
      nodeHeld = false; nextHold = step + spec.holdAt; return;
   }
   uint32_t v = choose(C_RELEASE, (uint32_t)cur->id, cur->points, [&]() -> uint32_t { return prng->chance(1, 8) ? (uint32_t)n : (uint32_t)prng->below((uint64_t)n); });
   for (int i = 0; i < n; ++i) if (v >= (uint32_t)n || (int)v == i) threads[q[i]].held = false;
}
static void holdNode()   // the node stands still, outside of critical sections and library calls, until nothing else moves
{
   for (int i = 0; i < nThreads; ++i) if (threads[i].node == spec.holdNode && threads[i].owned) return;
   if (nodes[spec.holdNode].mpiInside >= 0 || nodes[spec.holdNode].exited) return;
   nodeHeld = true; for (int i = 0; i < nThreads; ++i) if (threads[i].node == spec.holdNode && threads[i].state != Finished) threads[i].held = true;
}
// picks the next thread to run; -1: nobody can run
static int pick(Thread* cur, bool canStay, bool memPoint)
{
   for (;;) {
      int r[MAXT], n = 0, ny = 0; int stalled = 0, held = 0;
      for (int i = 0; i < nThreads; ++i) if (threads[i].state == Runnable && (i != cur->id || canStay)) {
         if (threads[i].held) { ++held; continue; }
         if (nodes[threads[i].node].stallUntil > now_ns) { ++stalled; continue; }
         if (!threads[i].yielded) r[n++] = i; else ++ny;
      }
      if (n == 0 && held) {
         uint64_t f = nextEvent(false), e = f != UINT64_MAX ? f : nextEvent();   // whatever is in flight arrives first
         if (f != UINT64_MAX || ((ny || stalled || e != UINT64_MAX) && ++holdRounds < 40)) { if (e != UINT64_MAX) { now_ns = std::max(now_ns, e); fireEvents(); } for (int i = 0; i < nThreads; ++i) threads[i].yielded = false; }
         else quiet(cur);
         continue;
      }
      if (n == 0 && (ny || stalled)) {   // everybody polls: let time pass
         uint64_t e = nextEvent();
         if (e != UINT64_MAX && e > now_ns) { now_ns = e; fireEvents(); if (++timedRounds > 20000) finish(O_STALL, "only timers fire, no progress" + describe()); }
         else if (++idleRounds > 60) finish(O_STALL, "every thread polls without progress and nothing is in flight" + describe());
         for (int i = 0; i < nThreads; ++i) threads[i].yielded = false;
         continue;
      }
      if (n == 0) {
         uint64_t e = nextEvent();
         if (e != UINT64_MAX && e > now_ns) { now_ns = e; fireEvents(); if (++timedRounds > 20000) finish(O_STALL, "only timers fire, no progress" + describe()); continue; }
         if (e != UINT64_MAX) { fireEvents(); bool any = false; for (int i = 0; i < nThreads; ++i) any |= threads[i].state == Runnable; if (any) continue; }
         return -1;
      }
      int def = -1; bool stay = false;
      for (int i = 0; i < n; ++i) if (r[i] == cur->id) { def = cur->id; stay = true; }
      if (def < 0) { for (int i = 0; i < n && def < 0; ++i) if (r[i] > cur->id) def = r[i]; if (def < 0) def = r[0]; }
      uint32_t point = cur->points;
      uint32_t v = choose(C_SWITCH, (uint32_t)cur->id, point, [&]() -> uint32_t {
         int c = def;
         if (loose && ny && prng->chance(1, 8)) { n = 0; for (int i = 0; i < nThreads; ++i) if (threads[i].state == Runnable && !threads[i].held && (i != cur->id || canStay) && nodes[threads[i].node].stallUntil <= now_ns) r[n++] = i; }
         switch (spec.strategy) {
            case S_DEFAULT: break;
            case S_RANDOM: { uint32_t p = memPoint ? pMem : pSync; if (!stay || prng->below(1024) < p) c = r[prng->below((uint64_t)n)]; break; }
            case S_RR: { if (!memPoint || prng->below(1024) < pMem) { c = -1; for (int i = 0; i < n && c < 0; ++i) if (r[i] > cur->id) c = r[i]; if (c < 0) c = r[0]; } break; }
            case S_PCT: {
               while (!changePoints->empty() && changePoints->back() <= step) { changePoints->pop_back(); cur->prio = prioLow--; }
               c = r[0]; for (int i = 1; i < n; ++i) if (threads[r[i]].prio > threads[c].prio) c = r[i];
               break; }
            case S_STARVE: {
               int k = 0, q[MAXT]; for (int i = 0; i < n; ++i) if (!(step < starveUntil && r[i] == starved)) q[k++] = r[i];
               if (!k) c = starved; else { bool in = false; for (int i = 0; i < k; ++i) in |= q[i] == def; uint32_t p = memPoint ? pMem : pSync; if (!in || prng->below(1024) < p) c = q[prng->below((uint64_t)k)]; }
               break; }
            case S_FEW: { if (!changePoints->empty() && changePoints->back() <= step) { changePoints->pop_back(); c = r[prng->below((uint64_t)n)]; } break; }
            case S_BURST: { if (step % (burstLen + burstGap) < burstLen) { if (!memPoint || prng->below(1024) < pMem * 8) c = r[prng->below((uint64_t)n)]; } break; }
            default: break;
         }
         return c == def ? 0u : (uint32_t)c + 1;
      });
      if (v) { int c = (int)v - 1; for (int i = 0; i < n; ++i) if (r[i] == c) return c; if (c < nThreads && threads[c].state == Runnable && !threads[c].held && (c != cur->id || canStay)) return c; }
      return def;
   }
}

static void stepFaults(Thread* t)
{
   for (auto& f : spec.faults) {
      if (f.kind == F_KILL_STEP && f.n == step) { ++faultsFired[F_KILL_STEP]; killNode(f.node, "killed"); }
      if (f.kind == F_STALL_NODE && f.n == step && f.node < nNodes) { ++faultsFired[F_STALL_NODE]; nodes[f.node].stallUntil = now_ns + (uint64_t)f.arg; }
   }
   (void)t;
}
// a run that is cut off at a limit while it still gets work done decides nothing
static Outcome overLimit(Outcome o) { return lastWorkStep > step / 2 ? O_CUTOFF : o; }
static inline void tick(Thread* t)
{
   ++step; ++t->points; now_ns += 250;
   if (spec.clockSteps && !(step & 15)) now_ns += choose(C_CLOCKSTEP, (uint32_t)t->id, t->points, [&]() -> uint32_t { return prng->chance(1, 40) ? (uint32_t)(1000000u + prng->below(900000000u)) : 0u; });
   if (step > spec.stepLimit) finish(overLimit(O_STEPLIMIT), fmt("%llu scheduling steps, last progress at step %llu", (unsigned long long)step, (unsigned long long)lastProgressStep) + describe());
   if (!spec.faults.empty()) stepFaults(t);
   if (spec.holdNode && !nodeHeld && step >= nextHold) holdNode();
}
static void schedPoint(const char* op, bool memPoint = false)
{
   Thread* t = self; if (!t) return;
   t->op = op; tick(t);
   if (!memPoint) { mixS(((uint64_t)t->id << 32) ^ (uint64_t)(unsigned char)op[0] ^ ((uint64_t)(unsigned char)op[1] << 8)); if (!(step & 7)) sampleState(); }
   if (!live->empty() || !memPoint) fireEvents();
   int n = pick(t, true, memPoint);
   if (n != t->id && n >= 0) switchTo(n);
}
// the caller has set its state to something other than Runnable
static void block(const char* op)
{
   Thread* t = self; t->op = op; tick(t); sampleState();
   fireEvents();
   if (t->state == Runnable) return;
   int n = pick(t, false, false);
   if (n < 0) {
      if (t->state == Runnable) return;
      finish(O_DEADLOCK, "no thread can run" + describe());
   }
   if (n == t->id) return;
   switchTo(n);
}
static void yieldPoint(const char* op, uint64_t ns)
{
   Thread* t = self; t->op = op; t->ys++; tick(t); now_ns += ns; t->yielded = true; fireEvents();
   int n = pick(t, true, false);
   if (n != t->id && n >= 0) switchTo(n);
}

static void holdHere()   // this thread has an expansion to do
{
   Thread* t = self; t->announced = false; t->held = true; t->op = "held back"; tick(t);
   int n = pick(t, true, false);
   if (n != t->id && n >= 0) switchTo(n);
}

// vector clocks
static inline void acquire(const VC& v) { self->vc.join(v); }
static inline void release(VC& v) { v.join(self->vc); self->vc.c[self->id]++; }
static VC& syncVC(const void* p) { auto it = syncVCs->find(p); if (it == syncVCs->end()) { it = syncVCs->emplace(p, VC{}).first; } return it->second; }

// ---------------------------------------------------------------------------------------------------
// threads
static void* stackOf(int id) { return (void*)(STACKS + (uint64_t)id * STACK_SIZE); }
static void endThread();
static void* threadMain(void* p)
{
   Thread* t = (Thread*)p;
   futexWait(&t->word);
   self = t; resume(t); t->depth = 0;
   t->op = "start";
   t->ret = t->fn(t->arg);
   ++t->depth;
   endThread();
   return nullptr;
}
static int (*realCreate)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int spawn(int node, void* (*fn)(void*), void* arg, bool main)
{
   if (nThreads >= MAXT) finish(O_ENGINE, "too many simulated threads");
   int id = nThreads;
   Thread& t = threads[id]; memset((void*)&t, 0, sizeof t);
   t.id = id; t.node = node; t.fn = fn; t.arg = arg; t.state = Runnable; t.main = main; t.joiner = -1; t.op = "created"; t.depth = 1;
   t.vc.c[id] = 1; if (self) { t.vc.join(self->vc); t.vc.c[id] = 1; self->vc.c[self->id]++; }
   if (spec.strategy != S_REPLAY) t.prio = 1000000 + (uint32_t)prng->below(1000000);
   pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stackOf(id), STACK_SIZE);
   int rc = realCreate(&t.real, &a, threadMain, &t); pthread_attr_destroy(&a);
   if (rc) finish(O_ENGINE, "pthread_create failed");
   ++nThreads; progress(); lastWorkStep = step;
   return id;
}
static void maybeEnd()
{
   for (int i = 0; i < nNodes; ++i) if (!nodes[i].exited) return;
   finish(O_DONE, "");
}
static void endThread()
{
   Thread* t = self;
   t->state = Finished; t->op = "finished"; t->announced = t->expanding = false; progress();
   for (int i = 0; i < nThreads; ++i) if (threads[i].state == OnJoin && threads[i].obj == t) threads[i].state = Runnable;
   tick(t);
   int n = pick(t, false, false);
   if (n < 0) finish(O_DEADLOCK, "no thread can run after a thread ended" + describe());
   ++switches; mixS(((uint64_t)t->id << 8) | (uint64_t)n);
   toJoin = t->real; haveJoin = true;
   self = nullptr;
   handTo(n);
}

// ---------------------------------------------------------------------------------------------------
// standard output / error of the nodes
static void killed(int node, Outcome o, const std::string& d) { (void)node; finish(o, d); }
static void killNode(int node, const char* why) { killed(node, O_KILLED, fmt("node %d %s at step %llu", node, why, (unsigned long long)step)); }
struct OutBuf : std::streambuf {
   bool isErr;
   explicit OutBuf(bool e) : isErr(e) {}
   // one write(2) to the file behind standard output: the number of bytes written, or -1 and an error code
   static ssize_t fileWrite(Node& n, int node, const char* data, size_t want, int& err)
   {
      size_t allowed = want; uint64_t pos = n.durable.size(); int why = -1;
      for (auto& f : spec.faults) if (f.node == node) {
         size_t room = f.n > pos ? (size_t)(f.n - pos) : 0;
         if (f.kind == F_WRITE_ENOSPC && room < allowed) { allowed = room; why = F_WRITE_ENOSPC; }
         if (f.kind == F_WRITE_EIO_ONCE && !n.eioDone && pos + want > f.n && room <= allowed) { allowed = room; why = F_WRITE_EIO_ONCE; }
         if (f.kind == F_WRITE_SHORT && allowed > 1) { size_t k = std::min<size_t>(allowed, 1 + (size_t)((pos * 7 + f.n) % 5)); if (k < allowed) { ++faultsFired[F_WRITE_SHORT]; allowed = k; } }
         if (f.kind == F_KILL_BYTES && pos + allowed >= f.n) { n.durable.append(data, f.n > pos ? (size_t)(f.n - pos) : 0); ++faultsFired[F_KILL_BYTES]; killNode(node, "killed while writing"); }
      }
      if (!allowed && want) { if (why == F_WRITE_EIO_ONCE) n.eioDone = true; ++faultsFired[why]; n.writeFailed = true; err = why == F_WRITE_EIO_ONCE ? EIO : ENOSPC; return -1; }
      n.durable.append(data, allowed); if (allowed) { progress(); lastWorkStep = step; }
      return (ssize_t)allowed;
   }
   static bool drain(Node& n, int node, size_t upTo)   // user space buffer -> file
   {
      while (n.flushedUpTo < upTo) {
         int err = 0; ssize_t k = fileWrite(n, node, n.out.data() + n.flushedUpTo, upTo - n.flushedUpTo, err);
         if (k < 0) { n.stdioError = true; n.out.resize(n.flushedUpTo); return false; }   // like a C stdio stream: the unwritten part is dropped from the buffer
         n.flushedUpTo += (size_t)k;
      }
      return true;
   }
   static bool errFails(Node& n, int node) { for (auto& f : spec.faults) if (f.kind == F_ERR_EIO && f.node == node && n.err.size() >= f.n) { ++faultsFired[F_ERR_EIO]; return true; } return false; }
   // write(2) called by the program itself
   static ssize_t rawWrite(bool err, const char* data, size_t k)
   {
      In in; Thread* t = self; Node& n = nodes[t->node];
      schedPoint(err ? "write stderr" : "write stdout");
      for (size_t i = 0; i < k; ++i) mix((unsigned char)data[i] + 256u * (unsigned)t->node + (err ? 4096u : 0u));
      if (spec.eintr && choose(C_EINTR, (uint32_t)t->id, t->points, [&]() -> uint32_t { return prng->chance(1, 3) ? 1u : 0u; })) { errno = EINTR; return -1; }
      if (err && errFails(n, t->node)) { errno = EIO; return -1; }
      if (err) { n.err.append(data, k); errLine(n, t->node, data, k); progress(); lastWorkStep = step; return (ssize_t)k; }
      int e = 0; size_t at = n.durable.size(); (void)at; ssize_t r = fileWrite(n, t->node, data, k, e);
      if (r < 0) { errno = e; return -1; }
      n.out.insert(n.flushedUpTo, data, (size_t)r); n.flushedUpTo += (size_t)r;
      return r;
   }
   bool append(const char* s, size_t k)
   {
      In in; Thread* t = self; if (!t) return true;
      Node& n = nodes[t->node];
      schedPoint(isErr ? "write stderr" : "write stdout");
      for (size_t i = 0; i < k; ++i) mix((unsigned char)s[i] + 256u * (unsigned)t->node + (isErr ? 4096u : 0u));
      if (isErr && errFails(n, t->node)) return false;
      if (isErr) { n.err.append(s, k); errLine(n, t->node, s, k); progress(); lastWorkStep = step; return true; }
      n.out.append(s, k); t->workAllocs = 0;
      bool ok = true;
      size_t pending = n.out.size() - n.flushedUpTo;
      if (n.lineBuf) { size_t nl = n.out.rfind('\n'); if (nl != std::string::npos && nl + 1 > n.flushedUpTo) ok = drain(n, t->node, nl + 1); }
      else if ((int)pending > n.outCap) { size_t lim = n.outCap > 0 ? n.flushedUpTo + pending / (size_t)n.outCap * (size_t)n.outCap : n.out.size(); ok = drain(n, t->node, lim); }
      return ok;
   }
   static size_t rowsOf(const Node& n) { // result rows: lines after the last header line
      size_t h = std::string::npos, rows = 0; for (size_t from = 0, q; (q = n.durable.find(":\n", from)) != std::string::npos; from = q + 2) h = q;
      if (h != std::string::npos) for (size_t i = h + 2; i < n.durable.size(); ++i) rows += n.durable[i] == '\n';
      return rows;
   }
   // "Processing #k of at least n class(es)": every one of the n rows must already be in the file.
   // Threads may write lines piece by piece, so every thread's own output is looked at.
   static void errLine(Node& n, int node, const char* data, size_t len)
   {
      std::string& part = n.part[self->id]; part.append(data, len);
      for (;;) {
         size_t nl = part.find('\n'); if (nl == std::string::npos) break;
         std::string line = part.substr(0, nl); part.erase(0, nl + 1); n.said += line + "\n";
         unsigned long k, m;
         if (sscanf(line.c_str(), "Processing #%lu of at least %lu class", &k, &m) == 2) {
            size_t rows = rowsOf(n);
            if (spec.hold && self && node == 0) { ++startedExpansions; self->expanding = true; self->announced = !spec.holdNode; self->workAllocs = 0; if (self->announced) self->deep = choose(C_HOLDAT, (uint32_t)self->id, self->points, [&]() -> uint32_t { return prng->chance(1, 2) ? 0u : (uint32_t)prng->below(6); }); }
            if ((k > rows || m > rows) && !n.writeFailed) note(fmt("not-flushed: node %d announced \"%s\" while only %zu result lines had reached the output", node, line.c_str(), rows));
         }
         else if (spec.hold && self && node == 0 && !line.compare(0, 15, "Done processing")) self->expanding = self->announced = false;
      }
   }
   std::streamsize xsputn(const char* s, std::streamsize k) override { return append(s, (size_t)k) ? k : 0; }
   int overflow(int c) override { if (c == EOF) return 0; char ch = (char)c; return append(&ch, 1) ? c : EOF; }
   int sync() override { In in; Thread* t = self; if (!t || isErr) return 0; schedPoint("flush stdout"); Node& n = nodes[t->node]; return drain(n, t->node, n.out.size()) ? 0 : -1; }
};
static size_t resultLines(const Node& n) { return OutBuf::rowsOf(n); }
static OutBuf* coutBuf; static OutBuf* cerrBuf; static OutBuf* clogBuf;

// ---------------------------------------------------------------------------------------------------
// result transport
struct Writer { char* p; char* e; void raw(const void* d, size_t n) { if (p + n > e) { n = 0; } memcpy(p, d, n); p += n; } void u(uint64_t v) { raw(&v, 8); } void s(const std::string& x) { size_t n = std::min<size_t>(x.size(), 4u << 20); u(n); raw(x.data(), n); } };
struct Reader { const char* p; uint64_t u() { uint64_t v; memcpy(&v, p, 8); p += 8; return v; } std::string s() { size_t n = u(); std::string x(p, n); p += n; return x; } };

[[noreturn]] static void finish(Outcome o, const std::string& detail)
{
   if (self) ++self->depth;
   ended = true;
   mix(o); for (char c : detail) mix((unsigned char)c);
   Writer w{ shm + 8, shm + SHM };
   w.u(o); w.s(detail); w.u((uint64_t)nNodes);
   for (int i = 0; i < nNodes; ++i) { Node& n = nodes[i]; w.u(n.exited); w.u((uint64_t)(int64_t)n.rc); w.u((uint64_t)n.threadsLeft); w.s(n.out); w.s(n.durable); w.s(n.err); w.s(n.said); w.u(n.writeFailed); w.u(n.readFailed); }
   w.u(notes->size()); for (auto& s : *notes) w.s(s);
   w.u(choices->size()); for (auto& c : *choices) { w.u(c.kind); w.u(((uint64_t)c.a << 32) | c.b); w.u(c.v); }
   mix(schedHash); mix(step); mix(now_ns);
   w.u(runHash); w.u(schedHash); w.u(step); w.u(switches); w.u(now_ns); w.u((uint64_t)nThreads); w.u(msgs->size()); w.u(accesses); w.u(allocsTotal); w.u(clockCallsTotal);
   for (auto v : faultsFired) w.u(v); for (auto v : choicesMade) w.u(v);
   w.u(states->size()); for (auto v : *states) w.u(v);
   uint64_t magic = 0x51a0c0de51a0c0deull; memcpy(shm, &magic, 8);
   raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
   __builtin_unreachable();
}

// ---------------------------------------------------------------------------------------------------
// memory: a private arena for everything panda allocates (deterministic addresses)
struct Block { uint64_t size; uint32_t magic; uint32_t node; };   // 16 bytes in front of every block
constexpr uint32_t LIVE = 0xa110c8edu, FREED = 0xdeadf4eeu;
static uint64_t arenaTop; static uint64_t freeList[64];
struct Cell { uint32_t w, r; uint32_t wpc, rpc; uint8_t wm, rm, flags, pad; };   // race detector state of 4 bytes
enum { CELL_LIVE = 1, CELL_SHARED = 2, CELL_FREED = 4 };
static Cell* const cellsA = (Cell*)SHADOW_A; static Cell* const cellsS = (Cell*)SHADOW_S; static Cell* const cellsD = (Cell*)SHADOW_D;
struct Range { uint64_t lo, hi; Cell* cells; uint64_t textLo, textHi; std::string name; };
static std::vector<Range>* ranges;
static inline int sizeClass(uint64_t n) { if (n <= 512) return (int)((n + 15) / 16); int k = 0; while ((1024ull << k) < n) ++k; return 33 + k; }
static inline uint64_t classSize(int c) { return c <= 32 ? (uint64_t)c * 16 : 1024ull << (c - 33); }
static void* arenaAlloc(uint64_t n)
{
   if (n == 0) n = 1;
   if (n > (1ull << 31)) return nullptr;
   int c = sizeClass(n); uint64_t sz = classSize(c);
   uint64_t p;
   if (!tracing && freeList[c]) { p = freeList[c]; memcpy(&freeList[c], (void*)p, 8); }
   else { if (arenaTop + sz + 32 > ARENA + ARENA_SIZE) return nullptr; p = arenaTop + 16; arenaTop += sz + 32; }
   Block* b = (Block*)(p - 16); b->size = n; b->magic = LIVE; b->node = self ? (uint32_t)self->node : 0;
   memset((void*)p, 0xCD, n);
   if (tracing) for (uint64_t i = 0; i < (n + 3) / 4; ++i) { Cell& x = cellsA[(p - ARENA) / 4 + i]; x = Cell{}; x.flags = CELL_LIVE; }
   return (void*)p;
}
static bool inArena(const void* p) { return (uint64_t)p >= ARENA && (uint64_t)p < ARENA + ARENA_SIZE; }
static std::string where(void* pc);
static void arenaFree(void* q, void* pc)
{
   uint64_t p = (uint64_t)q; Block* b = (Block*)(p - 16);
   if (b->magic != LIVE) { if (self) finish(O_MEMORY, (b->magic == FREED ? "double free" : "free of an invalid pointer") + where(pc)); return; }
   uint64_t n = b->size; b->magic = FREED; memset(q, 0xDD, n);
   if (tracing) { for (uint64_t i = 0; i < (n + 3) / 4; ++i) { Cell& x = cellsA[(p - ARENA) / 4 + i]; x.flags = CELL_FREED; x.w = self ? ((uint32_t)self->id << 24) | (self->vc.c[self->id] & 0xffffff) : 0; x.wpc = (uint32_t)(uintptr_t)pc; } return; }
   int c = sizeClass(n); memcpy(q, &freeList[c], 8); freeList[c] = p;
}
static std::string where(void* pc)
{
   Dl_info d; if (!pc) return "";
   if (dladdr(pc, &d) && d.dli_sname) { int st; char* x = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); std::string s = x ? x : d.dli_sname; free(x);
      // keep it readable: drop template and function arguments
      std::string r; int depth = 0; for (char ch : s) { if (ch == '<') ++depth; if (!depth) r += ch; if (ch == '>' && depth) --depth; } size_t par = r.rfind('('); if (par != std::string::npos && par > 4 && r.find("::operator()") == std::string::npos) r.resize(par);
      return " in " + r; }
   if (ranges) for (auto& r : *ranges) if ((uint64_t)pc >= r.textLo && (uint64_t)pc < r.textHi) return fmt(" at offset 0x%llx of the program", (unsigned long long)((uint64_t)pc - r.textLo));
   return "";
}
static void* pcOf(uint32_t low) { if (!ranges) return nullptr; for (auto& r : *ranges) for (uint64_t hi = r.textLo & ~0xffffffffull; hi <= r.textHi; hi += 0x100000000ull) { uint64_t a = hi | low; if (a >= r.textLo && a < r.textHi) return (void*)a; } return nullptr; }

static bool allocFault()
{
   Node& n = nodes[self->node];
   ++allocsTotal; ++n.allocs;
   if (!n.allocArmed) return false;
   if (n.allocs == n.allocAt || n.allocs == n.allocAt2 || (n.allocFrom && n.allocs >= n.allocAt)) { ++faultsFired[n.allocFrom ? F_ALLOC_FROM : F_ALLOC]; return true; }
   return false;
}
static void* simNew(size_t n, bool nothrow)
{
   In in;
   if (allocFault()) { if (nothrow) return nullptr; throw std::bad_alloc(); }
   if (self->announced && ++self->workAllocs > (self->owned ? 100u : 64u) << self->deep) holdHere();   // while it owns a mutex: only if that is no short critical section
   void* p = arenaAlloc(n);
   if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
   return p;
}

// ---------------------------------------------------------------------------------------------------
// race detector (FastTrack-like, 4 byte cells) for the instrumented build
static std::vector<VC>* readSets;
static std::set<std::string>* raceSeen;
static inline Cell* cellOf(uint64_t a)
{
   if (a - ARENA < ARENA_SIZE) return &cellsA[(a - ARENA) >> 2];
   if (a - STACKS < STACK_SIZE * MAXT) return &cellsS[(a - STACKS) >> 2];
   for (auto& r : *ranges) if (a >= r.lo && a < r.hi) return &r.cells[(a - r.lo) >> 2];
   return nullptr;
}
static void reportRace(uint64_t a, bool write, uint32_t other, bool otherWrite, uint32_t otherPc, void* pc)
{
   std::string s = fmt("race: %s of thread %d", write ? "write" : "read", self->id) + where(pc) + fmt(" and %s of thread %u", otherWrite ? "write" : "read", other >> 24) + where(pcOf(otherPc));
   std::string k = where(pc) + "|" + where(pcOf(otherPc)) + (write ? "w" : "r") + (otherWrite ? "w" : "r"); (void)a;
   if (raceSeen->insert(k).second) note(s);
}
static void access1(Cell* c, uint64_t a, uint8_t mask, bool write, void* pc)
{
   Thread* t = self; const uint32_t me = (uint32_t)t->id << 24; const uint32_t ep = me | (t->vc.c[t->id] & 0xffffff);
   if (c->w && (c->w >> 24) != (uint32_t)t->id && (c->wm & mask)) { c->flags |= CELL_SHARED; if ((c->w & 0xffffff) > t->vc.c[c->w >> 24]) reportRace(a, write, c->w, true, c->wpc, pc); }
   if (write) {
      if (c->r) {
         if (c->r >> 24 == 0xff) { c->flags |= CELL_SHARED; VC& v = (*readSets)[c->r & 0xffffff]; if (c->rm & mask) for (int i = 0; i < nThreads; ++i) if (i != t->id && v.c[i] > t->vc.c[i]) { reportRace(a, true, (uint32_t)i << 24, false, c->rpc, pc); break; } }
         else if ((c->r >> 24) != (uint32_t)t->id) { c->flags |= CELL_SHARED; if ((c->rm & mask) && (c->r & 0xffffff) > t->vc.c[c->r >> 24]) reportRace(a, true, c->r, false, c->rpc, pc); }
         if (!(c->rm & ~mask)) { c->r = 0; c->rm = 0; }
      }
      if (c->w == ep) c->wm |= mask; else c->wm = mask;
      c->w = ep; c->wpc = (uint32_t)(uintptr_t)pc;
   } else {
      if (c->r == 0) { c->r = ep; c->rm = mask; }
      else if (c->r >> 24 == 0xff) { VC& v = (*readSets)[c->r & 0xffffff]; v.c[t->id] = t->vc.c[t->id]; c->rm |= mask; }
      else if ((c->r >> 24) == (uint32_t)t->id) { c->rm = c->r == ep ? (c->rm | mask) : (c->rm | mask); c->r = ep; }
      else {
         c->flags |= CELL_SHARED;
         uint32_t o = c->r >> 24, oc = c->r & 0xffffff;
         if (oc <= t->vc.c[o] && !(c->rm & ~mask)) { c->r = ep; c->rm = mask; }
         else if (readSets->size() < 0xfffff0) { readSets->push_back(VC{}); VC& v = readSets->back(); memset(&v, 0, sizeof v); v.c[o] = oc; v.c[t->id] = t->vc.c[t->id]; c->r = 0xff000000u | (uint32_t)(readSets->size() - 1); c->rm |= mask; }
      }
      c->rpc = (uint32_t)(uintptr_t)pc;
   }
}
static void memAccess(uint64_t a, size_t n, bool write, void* pc)
{
   Thread* t = self; ++t->depth; ++accesses;
   Cell* c = cellOf(a);
   if (c) {
      if (a - ARENA < ARENA_SIZE) {
         for (uint64_t x = a & ~3ull; x < a + n; x += 4) { Cell* k = cellOf(x); if (!k || !(k->flags & CELL_LIVE)) {
            if (k && (k->flags & CELL_FREED)) finish(O_MEMORY, fmt("use after free: %s of %zu bytes by thread %d", write ? "write" : "read", n, t->id) + where(pc) + ", freed by thread " + fmt("%u", k->w >> 24) + where(pcOf(k->wpc)));
            finish(O_MEMORY, fmt("heap access out of bounds: %s of %zu bytes by thread %d", write ? "write" : "read", n, t->id) + where(pc)); } }
      }
      if (nThreads > 1) {
         if (c->flags & CELL_SHARED) { schedPoint(write ? "memory write" : "memory read", true); }
         for (uint64_t x = a & ~3ull; x < a + n; x += 4) { Cell* k = cellOf(x); if (!k) break; uint8_t m = 0xf; if (x < a) m = (uint8_t)(m & (0xf << (a - x))); if (x + 4 > a + n) m = (uint8_t)(m & (0xf >> (x + 4 - a - n))); access1(k, x, m, write, pc); }
      } else if (write) { // single-threaded so far: nothing to compare with, but remember the epoch
         for (uint64_t x = a & ~3ull; x < a + n; x += 4) { Cell* k = cellOf(x); if (!k) break; access1(k, x, 0xf, true, pc); }
      }
   }
   --t->depth;
}
// thread stacks: a frame that is entered again is fresh memory for its thread, so only foreign epochs matter (nothing to do)

#include "engine_mpi.h"

// ---------------------------------------------------------------------------------------------------
// interposed functions
template <typename F> static F real(F& cache, const char* name) { if (!cache) { F f = (F)dlsym(RTLD_NEXT, name); cache = f; } return cache; }
#define REAL(name) real(real_##name, #name)
#define DECL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__)

// ---- threads
DECL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
DECL(int, pthread_join, pthread_t, void**);
DECL(int, pthread_detach, pthread_t);
static int simId(pthread_t p) { for (int i = 0; i < nThreads; ++i) if (pthread_equal(threads[i].real, p)) return i; return -1; }
EXPORT int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
   if (!active()) return REAL(pthread_create)(p, a, fn, arg);
   In in; Node& n = nodes[self->node]; ++n.creates;
   for (auto& f : spec.faults) if (f.kind == F_THREAD && f.node == self->node && (f.n == n.creates || (f.arg && n.creates >= f.n))) { ++faultsFired[F_THREAD]; return EAGAIN; }
   schedPoint("create thread");
   int id = spawn(self->node, fn, arg, false);
   *p = threads[id].real;
   schedPoint("created thread");
   return 0;
}
EXPORT int pthread_join(pthread_t p, void** ret)
{
   if (!active()) return REAL(pthread_join)(p, ret);
   In in; schedPoint("join");
   int id = simId(p); if (id < 0) finish(O_MISUSE, "join of an unknown thread");
   Thread& t = threads[id]; if (t.joined || t.detached) finish(O_MISUSE, "join of a joined or detached thread"); if (id == self->id) return EDEADLK;
   t.joined = true;
   while (t.state != Finished) { self->state = OnJoin; self->obj = &t; block("join"); }
   acquire(t.vc); if (ret) *ret = t.ret;
   return 0;
}
EXPORT int pthread_detach(pthread_t p) { if (!active()) return REAL(pthread_detach)(p); In in; int id = simId(p); if (id >= 0) threads[id].detached = true; return 0; }

// ---- mutexes
DECL(int, pthread_mutex_lock, pthread_mutex_t*); DECL(int, pthread_mutex_unlock, pthread_mutex_t*); DECL(int, pthread_mutex_trylock, pthread_mutex_t*);
static void lockMutex(pthread_mutex_t* m, const char* op)
{
   for (;;) { Mutex& x = (*mutexes)[m]; if (x.owner < 0) { x.owner = self->id; ++self->owned; x.depth = 1; if (x.hasVC) acquire(x.vc); return; }
      if (x.owner == self->id) { if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++x.depth; return; } finish(O_DEADLOCK, fmt("thread %d locks a mutex it already owns", self->id) + describe()); }
      self->state = OnMutex; self->obj = m; block(op); }
}
static void unlockMutex(pthread_mutex_t* m)
{
   Mutex& x = (*mutexes)[m];
   if (x.owner != self->id) finish(O_MISUSE, fmt("thread %d unlocks a mutex %s", self->id, x.owner < 0 ? "that is not locked" : "owned by another thread"));
   if (--x.depth) return;
   x.owner = -1; --self->owned; if (!x.hasVC) { memset((void*)&x.vc, 0, sizeof x.vc); x.hasVC = true; } release(x.vc);
   for (int i = 0; i < nThreads; ++i) if (threads[i].state == OnMutex && threads[i].obj == m) { threads[i].state = Runnable; }
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) { if (!active()) return REAL(pthread_mutex_lock)(m); In in; schedPoint("lock"); if (self->announced && (self->deep || self->owned ? (self->workAllocs += 10) > (self->owned ? 100u : 64u) << self->deep : true)) holdHere(); lockMutex(m, "lock"); return 0; }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) { if (!active()) return REAL(pthread_mutex_trylock)(m); In in; schedPoint("trylock"); Mutex& x = (*mutexes)[m]; if (x.owner >= 0) { self->yielded = true; return EBUSY; } x.owner = self->id; ++self->owned; x.depth = 1; if (x.hasVC) acquire(x.vc); return 0; }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) { if (!active()) return REAL(pthread_mutex_unlock)(m); In in; unlockMutex(m); schedPoint("unlock"); return 0; }

// ---- condition variables
DECL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*); DECL(int, pthread_cond_signal, pthread_cond_t*); DECL(int, pthread_cond_broadcast, pthread_cond_t*);
DECL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const timespec*); DECL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
constexpr uint64_t EPOCH = 1700000000ull * 1000000000ull;
static uint64_t toSim(clockid_t clk, const timespec* ts) { uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec; if (clk == CLOCK_REALTIME) { int64_t st = nodes[self->node].clockStopped; if (st >= 0) return (int64_t)t <= st ? 0 : UINT64_MAX; int64_t v = (int64_t)t - (int64_t)EPOCH - nodes[self->node].clockOffset; return v < 0 ? 0 : (uint64_t)v; } return t; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t until)
{
   In in; schedPoint("cond wait");
   Mutex& x = (*mutexes)[m]; if (x.owner != self->id) finish(O_MISUSE, "condition wait without owning the mutex");
   bool spurious = spec.spurious && choose(C_SPURIOUS, (uint32_t)self->id, self->points, [&]() -> uint32_t { return prng->chance(1, 6) ? 1u : 0u; });
   unlockMutex(m);
   int rc = 0;
   if (spurious) { schedPoint("spurious wakeup"); }
   else {
      (*conds)[c].push_back(self->id);
      self->state = OnCond; self->obj = c; self->timedOut = false; self->signalled = false; self->timed = timed; self->wake = until;
      block("cond wait");
      self->timed = false; self->state = Runnable;
      auto& q = (*conds)[c]; q.erase(std::remove(q.begin(), q.end(), self->id), q.end());
      if (self->timedOut && !self->signalled) rc = ETIMEDOUT;
   }
   lockMutex(m, "cond relock");
   return rc;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!active()) return REAL(pthread_cond_wait)(c, m); return condWait(c, m, false, 0); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { if (!active()) return REAL(pthread_cond_timedwait)(c, m, ts); return condWait(c, m, true, toSim(CLOCK_REALTIME, ts)); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) { if (!active()) return REAL(pthread_cond_clockwait)(c, m, k, ts); return condWait(c, m, true, toSim(k, ts)); }
static void wakeCond(pthread_cond_t* c, bool all)
{
   auto& q = (*conds)[c];
   while (!q.empty()) {
      size_t i = 0;
      if (!all && q.size() > 1) i = choose(C_SIGNAL, (uint32_t)self->id, self->points, [&]() -> uint32_t { return (uint32_t)prng->below(q.size()); }) % q.size();
      int id = q[i]; q.erase(q.begin() + (ptrdiff_t)i);
      if (threads[id].state == OnCond) { threads[id].state = Runnable; threads[id].timed = false; threads[id].signalled = true; progress(); }
      if (!all) break;
   }
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) { if (!active()) return REAL(pthread_cond_signal)(c); In in; schedPoint("signal"); wakeCond(c, false); schedPoint("signalled"); return 0; }
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) { if (!active()) return REAL(pthread_cond_broadcast)(c); In in; schedPoint("broadcast"); wakeCond(c, true); schedPoint("broadcasted"); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t* c)
{
   static int (*r)(pthread_cond_t*); if (!active()) { if (!r) r = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_destroy"); return r(c); }
   In in; auto it = conds->find(c); if (it != conds->end() && !it->second.empty()) finish(O_MISUSE, "condition variable destroyed while a thread waits on it"); return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m)
{
   static int (*r)(pthread_mutex_t*); if (!active()) { if (!r) r = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_destroy"); return r(m); }
   In in; auto it = mutexes->find(m); if (it != mutexes->end()) { if (it->second.owner >= 0) finish(O_MISUSE, "mutex destroyed while locked"); mutexes->erase(it); } return 0;
}

// ---- one-time initialisation
DECL(int, pthread_once, pthread_once_t*, void (*)(void));
template <typename F> static void onceSim(const void* k, F f)
{
   for (;;) {
      int& st = (*onces)[k];
      if (st == 2) { acquire(syncVC(k)); return; }
      if (st == 1) { self->state = OnOnce; self->obj = k; block("once"); continue; }
      st = 1; break;
   }
   auto done = [&](int v) { (*onces)[k] = v; release(syncVC(k)); for (int i = 0; i < nThreads; ++i) if (threads[i].state == OnOnce && threads[i].obj == k) threads[i].state = Runnable; };
   --self->depth;
   try { f(); } catch (...) { ++self->depth; done(0); throw; }
   ++self->depth; done(2); progress();
}
EXPORT int pthread_once(pthread_once_t* o, void (*f)(void))
{
   if (!active()) return REAL(pthread_once)(o, f);
   In in; schedPoint("once"); if (*o == 2 && (*onces)[o] != 2) { return 0; } // completed outside the simulation
   if ((*onces)[o] == 2 && *o == 0) (*onces)[o] = 0;   // a new once_flag at a reused address
   onceSim(o, f); *o = 2; return 0;
}
DECL(int, __cxa_guard_acquire, uint64_t*); DECL(void, __cxa_guard_release, uint64_t*); DECL(void, __cxa_guard_abort, uint64_t*);
EXPORT int __cxa_guard_acquire(uint64_t* g)
{
   if (!active()) return REAL(__cxa_guard_acquire)(g);
   In in; schedPoint("static init");
   for (;;) {
      if (*(char*)g & 1) { acquire(syncVC(g)); return 0; }
      int& st = (*onces)[g];
      if (st == 1) { self->state = OnOnce; self->obj = g; block("static init"); continue; }
      st = 1; return 1;
   }
}
static void guardDone(uint64_t* g) { (*onces)[g] = 0; release(syncVC(g)); for (int i = 0; i < nThreads; ++i) if (threads[i].state == OnOnce && threads[i].obj == g) threads[i].state = Runnable; progress(); }
EXPORT void __cxa_guard_release(uint64_t* g) { if (!active()) { REAL(__cxa_guard_release)(g); return; } In in; *(char*)g = 1; guardDone(g); schedPoint("static init done"); }
EXPORT void __cxa_guard_abort(uint64_t* g) { if (!active()) { REAL(__cxa_guard_abort)(g); return; } In in; guardDone(g); }
DECL(int, __cxa_atexit, void (*)(void*), void*, void*);
EXPORT int __cxa_atexit(void (*f)(void*), void* a, void* d) { if (!active()) return REAL(__cxa_atexit)(f, a, d); In in; nodes[self->node].atexit.push_back({ f, a }); return 0; }

// ---- futex (std::future), sleeping, clocks
EXPORT long syscall(long n, ...)
{
   va_list ap; va_start(ap, n); long a[6]; for (long& x : a) x = va_arg(ap, long); va_end(ap);
   if (active() && n == SYS_futex) {
      In in; int op = (int)a[1] & FUTEX_CMD_MASK; uint32_t* w = (uint32_t*)a[0];
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
         schedPoint("future wait");
         if (__atomic_load_n(w, __ATOMIC_SEQ_CST) != (uint32_t)a[2]) { errno = EAGAIN; return -1; }
         const timespec* ts = (const timespec*)a[3];
         self->state = OnFutex; self->obj = w; self->timedOut = false; self->timed = ts != nullptr;
         if (ts) { if (op == FUTEX_WAIT) self->wake = now_ns + (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec; else self->wake = toSim(a[1] & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts); }
         block("future wait"); self->timed = false; self->state = Runnable;
         if (self->timedOut) { errno = ETIMEDOUT; return -1; }
         return 0;
      }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
         schedPoint("future wake"); long k = 0;
         for (int i = 0; i < nThreads && k < a[2]; ++i) if (threads[i].state == OnFutex && threads[i].obj == w) { threads[i].state = Runnable; threads[i].timed = false; ++k; progress(); }
         schedPoint("future woken"); return k;
      }
   }
   long r = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
   if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
   return r;
}
static int simSleep(uint64_t ns)
{
   In in;
   if (ns <= 1000000) { yieldPoint("sleep", ns); return 0; }
   self->state = Sleeping; self->timed = true; self->timedOut = false; self->wake = now_ns + ns; block("sleep"); self->timed = false; self->state = Runnable; return 0;
}
DECL(int, nanosleep, const timespec*, timespec*); DECL(int, clock_nanosleep, clockid_t, int, const timespec*, timespec*); DECL(int, sched_yield, void); DECL(int, usleep, useconds_t);
EXPORT int nanosleep(const timespec* t, timespec* r) { if (!active()) return REAL(nanosleep)(t, r); return simSleep((uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec); }
EXPORT int clock_nanosleep(clockid_t k, int fl, const timespec* t, timespec* r) { if (!active()) return REAL(clock_nanosleep)(k, fl, t, r); uint64_t v = (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; if (fl & TIMER_ABSTIME) { uint64_t s = toSim(k, t); v = s > now_ns ? s - now_ns : 0; } return simSleep(v); }
EXPORT int sched_yield(void) { if (!active()) return REAL(sched_yield)(); In in; yieldPoint("yield", 0); return 0; }
EXPORT int usleep(useconds_t u) { if (!active()) return REAL(usleep)(u); return simSleep((uint64_t)u * 1000); }
DECL(int, clock_gettime, clockid_t, timespec*); DECL(int, gettimeofday, timeval*, void*); DECL(time_t, time, time_t*);
static uint64_t readClock(clockid_t k)
{
   In in; Node& n = nodes[self->node]; ++n.clockCalls; ++clockCallsTotal;
   for (auto& f : spec.faults) if (f.kind == F_CLOCK_JUMP && f.node == self->node && f.n == n.clockCalls) { ++faultsFired[F_CLOCK_JUMP]; n.clockOffset += f.arg; }
   schedPoint("read clock");
   if (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE) {
      int64_t v = std::max<int64_t>(0, (int64_t)(EPOCH + now_ns) + n.clockOffset);
      for (auto& f : spec.faults) if (f.kind == F_CLOCK_STOP && f.node == self->node && f.n <= n.clockCalls && n.clockStopped < 0) { ++faultsFired[F_CLOCK_STOP]; n.clockStopped = v; }
      return (uint64_t)(n.clockStopped >= 0 ? n.clockStopped : v);
   }
   return now_ns;
}
EXPORT int clock_gettime(clockid_t k, timespec* ts) { if (!active()) return REAL(clock_gettime)(k, ts); uint64_t v = readClock(k); ts->tv_sec = (time_t)(v / 1000000000ull); ts->tv_nsec = (long)(v % 1000000000ull); return 0; }
EXPORT int gettimeofday(timeval* tv, void* z) { if (!active()) return REAL(gettimeofday)(tv, z); uint64_t v = readClock(CLOCK_REALTIME); tv->tv_sec = (time_t)(v / 1000000000ull); tv->tv_usec = (long)(v % 1000000000ull / 1000); return 0; }
EXPORT time_t time(time_t* t) { if (!active()) return REAL(time)(t); time_t v = (time_t)(readClock(CLOCK_REALTIME) / 1000000000ull); if (t) *t = v; return v; }

// ---- environment
DECL(int, get_nprocs, void); DECL(long, sysconf, int);
EXPORT int get_nprocs(void) noexcept { if (!active()) return REAL(get_nprocs)(); return spec.cores[(size_t)self->node]; }
EXPORT long sysconf(int k) noexcept { if (active() && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return spec.cores[(size_t)self->node]; return REAL(sysconf)(k); }

// ---- files
DECL(FILE*, fopen, const char*, const char*); DECL(ssize_t, read, int, void*, size_t);
struct SimFd { int node; size_t len; bool known; }; static std::map<int, SimFd>* simFds;
namespace sim { static std::map<FILE*, int>* simStreams; }
static int openSimFd(const char* path, bool& handled)
{
   handled = false;
   if (!path || strncmp(path, "/sim/", 5) != 0) return -1;
   handled = true; Node& n = nodes[self->node]; ++n.opens;
   schedPoint("open");
   for (auto& f : spec.faults) if (f.kind == F_OPEN && f.node == self->node && f.n == n.opens) { ++faultsFired[F_OPEN]; n.readFailed = true; errno = (int)f.arg; return -1; }
   for (auto& f : spec.files) if (f.path == path && (f.node < 0 || f.node == self->node)) {
      int fd = (int)raw6(SYS_memfd_create, (long)"sim", 0, 0, 0, 0, 0); if (fd < 0) finish(O_ENGINE, "memfd_create failed");
      size_t off = 0; while (off < f.text.size()) { long r = raw6(SYS_write, fd, (long)(f.text.data() + off), (long)(f.text.size() - off), 0, 0, 0); if (r <= 0) finish(O_ENGINE, "memfd write failed"); off += (size_t)r; }
      raw6(SYS_lseek, fd, 0, SEEK_SET, 0, 0, 0);
      (*simFds)[fd] = SimFd{ self->node, f.text.size(), !strcmp(path, "/sim/kn") };
      return fd;
   }
   errno = ENOENT; return -1;
}
EXPORT ssize_t read(int fd, void* b, size_t n);
// A stdio stream on a simulated file reads through the simulated read(); fileno() gives the descriptor behind it.
static ssize_t cookieRead(void* c, char* b, size_t n) { for (;;) { ssize_t r = read((int)(intptr_t)c, b, n); if (r >= 0 || errno != EINTR) return r; } }   // the C library reports an interrupted read as an error, which files do not do to it
static int cookieSeek(void* c, off64_t* at, int how) { long r = raw6(SYS_lseek, (long)(intptr_t)c, (long)*at, how, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } *at = r; return 0; }
static int cookieClose(void* c) { raw6(SYS_close, (long)(intptr_t)c, 0, 0, 0, 0, 0); return 0; }
static FILE* openSim(const char* path, const char* mode, bool& handled)
{
   int out = !strcmp(path, "/dev/stdout") || !strcmp(path, "/dev/fd/1") || !strcmp(path, "/proc/self/fd/1") ? 1 : !strcmp(path, "/dev/stderr") || !strcmp(path, "/dev/fd/2") ? 2 : 0;
   cookie_io_functions_t io = { cookieRead, nullptr, cookieSeek, cookieClose }; int fd = out;
   if (out) { handled = true; io = cookie_io_functions_t{ nullptr, nullptr, nullptr, nullptr }; }
   else { fd = openSimFd(path, handled); if (!handled || fd < 0) return nullptr; }
   FILE* f = fopencookie((void*)(intptr_t)fd, mode, io); if (!simStreams) simStreams = new std::map<FILE*, int>; if (f) (*simStreams)[f] = fd;
   return f;
}
EXPORT FILE* fopen(const char* p, const char* m) { if (active()) { In in; bool h; FILE* f = openSim(p, m, h); if (h) return f; } return REAL(fopen)(p, m); }
EXPORT FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
EXPORT ssize_t read(int fd, void* b, size_t n)
{
   if (!active() || !simFds->count(fd)) return REAL(read)(fd, b, n);
   In in; schedPoint("read"); Node& nd = nodes[self->node];
   long pos = raw6(SYS_lseek, fd, 0, SEEK_CUR, 0, 0, 0); size_t left = (*simFds)[fd].len > (size_t)pos ? (*simFds)[fd].len - (size_t)pos : 0;
   if (spec.eintr && choose(C_EINTR, (uint32_t)self->id, self->points, [&]() -> uint32_t { return prng->chance(1, 3) ? 1u : 0u; })) { errno = EINTR; return -1; }
   for (auto& f : spec.faults) if (f.kind == F_READ_EIO && f.node == self->node) { // arg 1: only of the known data, 2: only once
      if (((f.arg & 1) && !(*simFds)[fd].known) || ((f.arg & 2) && nd.readDone)) continue;
      if ((uint64_t)pos >= f.n) { nd.readDone = true; ++faultsFired[F_READ_EIO]; nd.readFailed = true; errno = EIO; return -1; }
      if ((uint64_t)pos + n > f.n) n = (size_t)(f.n - (uint64_t)pos);
   }
   if (spec.shortReads && left > 1 && n > 1) { uint32_t k = choose(C_READLEN, (uint32_t)self->id, self->points, [&]() -> uint32_t { return prng->chance(3, 4) ? (uint32_t)(1 + prng->below(std::min<uint64_t>(64, left))) : 0u; }); if (k && k < n) n = k; }
   long r = raw6(SYS_read, fd, (long)b, (long)n, 0, 0, 0);
   if (r < 0) { errno = (int)-r; return -1; }
   return r;
}

#include "engine_libc.h"

// ---- process exit
static void nodeExit(int rc, const char* how) { Node& n = nodes[self->node]; n.rc = rc; if (self->main && n.exited) return; finish(O_EXITCALL, fmt("node %d called %s(%d)", self->node, how, rc)); }
EXPORT void exit(int rc) noexcept { static void (*r)(int); if (self) { ++self->depth; In in; OutBuf::drain(nodes[self->node], self->node, nodes[self->node].out.size()); nodeExit(rc, "exit"); } if (!r) r = (void (*)(int))dlsym(RTLD_NEXT, "exit"); r(rc); __builtin_unreachable(); }
EXPORT void _exit(int rc) { if (self) nodeExit(rc, "_exit"); raw6(SYS_exit_group, rc, 0, 0, 0, 0, 0); __builtin_unreachable(); }
EXPORT void quick_exit(int rc) noexcept { if (self) nodeExit(rc, "quick_exit"); raw6(SYS_exit_group, rc, 0, 0, 0, 0, 0); __builtin_unreachable(); }

// ---- memory
#define PC __builtin_return_address(0)
#define VIS __attribute__((visibility("default")))
VIS void* operator new(size_t n) { if (active()) return simNew(n, false); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
VIS void* operator new[](size_t n) { if (active()) return simNew(n, false); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
VIS void* operator new(size_t n, const std::nothrow_t&) noexcept { if (active()) return simNew(n, true); return malloc(n ? n : 1); }
VIS void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (active()) return simNew(n, true); return malloc(n ? n : 1); }
static inline void del(void* p, void* pc) { if (!p) return; if (inArena(p)) { In in; arenaFree(p, pc); } else free(p); }
VIS void operator delete(void* p) noexcept { del(p, PC); }
VIS void operator delete[](void* p) noexcept { del(p, PC); }
VIS void operator delete(void* p, size_t) noexcept { del(p, PC); }
VIS void operator delete[](void* p, size_t) noexcept { del(p, PC); }
VIS void operator delete(void* p, const std::nothrow_t&) noexcept { del(p, PC); }
VIS void operator delete[](void* p, const std::nothrow_t&) noexcept { del(p, PC); }

// ---------------------------------------------------------------------------------------------------
// run-time of the instrumented build (gcc -fsanitize=thread, without libtsan)
#define ACC(a, n, w) if (active() && running) memAccess((uint64_t)(a), n, w, PC)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
#define RW(N) EXPORT void __tsan_read##N(void* a) { ACC(a, N, false); } EXPORT void __tsan_write##N(void* a) { ACC(a, N, true); } \
   EXPORT void __tsan_unaligned_read##N(void* a) { ACC(a, N, false); } EXPORT void __tsan_unaligned_write##N(void* a) { ACC(a, N, true); } \
   EXPORT void __tsan_volatile_read##N(void* a) { ACC(a, N, false); } EXPORT void __tsan_volatile_write##N(void* a) { ACC(a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* a, uint64_t n) { if (n) ACC(a, n, false); }
EXPORT void __tsan_write_range(void* a, uint64_t n) { if (n) ACC(a, n, true); }
EXPORT void __tsan_vptr_update(void** a, void* v) { if (*a != v) { ACC(a, 8, true); } }
EXPORT void __tsan_vptr_read(void** a) { ACC(a, 8, false); }
static void atomicPre(const void* a, int, bool)
{
   Thread* t = self; if (t->spinOn == a && t->spinStep == lastProgressStep) { if (++t->spins > 60) { t->spins = 0; yieldPoint("spinning on an atomic", 1000); return; } } else { t->spinOn = a; t->spinStep = lastProgressStep; t->spins = 0; }
   t->workAllocs = 0; schedPoint("atomic");   // perhaps a lock: hold no thread shortly after
}
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
struct At { bool on; const void* a; In* in; char buf[sizeof(In)]; At(const void* p, int mo) : on(active() && running), a(p) { if (on) { in = new (buf) In; atomicPre(p, mo, true); if (acq(mo)) acquire(syncVC(p)); if (rel(mo)) release(syncVC(p)); } } ~At() { if (on) in->~In(); } };
// In must not allocate through the node's arena
#define ATOMICS(BITS, T) \
   EXPORT T __tsan_atomic##BITS##_load(const volatile T* a, int mo) { At x((const void*)a, mo); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
   EXPORT void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) { At x((const void*)a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
   EXPORT T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo) { At x((const void*)a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
   EXPORT T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int mo) { At x((const void*)a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
   EXPORT T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int mo) { At x((const void*)a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
   EXPORT T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int mo) { At x((const void*)a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
   EXPORT T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int mo) { At x((const void*)a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
   EXPORT T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int mo) { At x((const void*)a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
   EXPORT T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int mo) { At x((const void*)a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
   EXPORT int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { At x((const void*)a, mo); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   EXPORT int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { At x((const void*)a, mo); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   EXPORT T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { At x((const void*)a, mo); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
// plain build: compiled with -fno-inline-atomics and atomics.h
#define AT0 if (active() && running) { In in; atomicPre((const void*)a, 0, true); }
#define PLAIN_ATOMICS(N, T) \
   EXPORT T simAtomicLoad##N(const volatile T* a, int) __asm__("__atomic_load_" #N); T simAtomicLoad##N(const volatile T* a, int) { AT0 return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
   EXPORT void simAtomicStore##N(volatile T* a, T v, int) __asm__("__atomic_store_" #N); void simAtomicStore##N(volatile T* a, T v, int) { AT0 __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
   EXPORT T simAtomicXchg##N(volatile T* a, T v, int) __asm__("__atomic_exchange_" #N); T simAtomicXchg##N(volatile T* a, T v, int) { AT0 return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
   EXPORT bool simAtomicCas##N(volatile T* a, T* c, T v, int, int) __asm__("__atomic_compare_exchange_" #N); bool simAtomicCas##N(volatile T* a, T* c, T v, int, int) { AT0 return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
#define PLAIN_RMW(N, T, OP, EXPR) \
   EXPORT T simAtomicF##OP##N(volatile T* a, T v, int) __asm__("__atomic_fetch_" #OP "_" #N); T simAtomicF##OP##N(volatile T* a, T v, int) { AT0 return __atomic_fetch_##OP(a, v, __ATOMIC_SEQ_CST); } \
   EXPORT T simAtomicG##OP##N(volatile T* a, T v, int) __asm__("__atomic_" #OP "_fetch_" #N); T simAtomicG##OP##N(volatile T* a, T v, int) { AT0 T o = __atomic_fetch_##OP(a, v, __ATOMIC_SEQ_CST); return (T)(EXPR); }
#define PLAIN_ALL(N, T) PLAIN_ATOMICS(N, T) PLAIN_RMW(N, T, add, o + v) PLAIN_RMW(N, T, sub, o - v) PLAIN_RMW(N, T, and, o & v) PLAIN_RMW(N, T, or, o | v) PLAIN_RMW(N, T, xor, o ^ v) PLAIN_RMW(N, T, nand, ~(o & v))
PLAIN_ALL(1, uint8_t) PLAIN_ALL(2, uint16_t) PLAIN_ALL(4, uint32_t) PLAIN_ALL(8, uint64_t)
EXPORT bool __simwrap_tas(volatile void* a, int) { AT0 return __atomic_test_and_set(a, __ATOMIC_SEQ_CST); }
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}
// memory functions of the instrumented build (linked with --wrap)
EXPORT void* __simwrap_memcpy(void* d, const void* s, size_t n) { if (n) { ACC(s, n, false); ACC(d, n, true); } return memcpy(d, s, n); }
EXPORT void* __simwrap_memmove(void* d, const void* s, size_t n) { if (n) { ACC(s, n, false); ACC(d, n, true); } return memmove(d, s, n); }
EXPORT void* __simwrap_memset(void* d, int c, size_t n) { if (n) ACC(d, n, true); return memset(d, c, n); }
EXPORT int __simwrap_memcmp(const void* a, const void* b, size_t n) { if (n) { ACC(a, n, false); ACC(b, n, false); } return memcmp(a, b, n); }
// red-black tree rebalancing lives in libstdc++ (not instrumented): record what it touches
EXPORT void __simwrap_rb_insert(bool left, void* x, void* p, void* header, void (*realFn)(bool, void*, void*, void*))
{
   if (active() && running) { memAccess((uint64_t)x, 32, true, PC); memAccess((uint64_t)p, 32, true, PC); memAccess((uint64_t)header, 32, true, PC); }
   realFn(left, x, p, header);
}

// ---------------------------------------------------------------------------------------------------
namespace sim {
static std::string libs[2][2], scratch; struct Loaded { int (*mainFn)(int, char**); void* h; Range range; }; static std::vector<Loaded>* loaded[2][2];

bool init(const std::string& shmLib, const std::string& mpiLib, const std::string& tshm, const std::string& tmpi, const std::string& dir, std::string& error)
{
   libs[0][0] = shmLib; libs[1][0] = mpiLib; libs[0][1] = tshm; libs[1][1] = tmpi; scratch = dir;
   for (auto& a : loaded) for (auto& b : a) b = new std::vector<Loaded>;
   realCreate = (decltype(realCreate))dlsym(RTLD_NEXT, "pthread_create"); realJoin = (decltype(realJoin))dlsym(RTLD_NEXT, "pthread_join");
   auto map = [&](uint64_t at, uint64_t n) { return mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == (void*)at; };
   if (!map(ARENA, ARENA_SIZE) || !map(STACKS, STACK_SIZE * MAXT) || !map(SHADOW_A, ARENA_SIZE / 4 * sizeof(Cell)) || !map(SHADOW_S, STACK_SIZE * MAXT / 4 * sizeof(Cell)) || !map(SHADOW_D, 1ull << 30)) { error = "cannot map the arena"; return false; }
   shm = (char*)mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   coutBuf = new OutBuf(false); cerrBuf = new OutBuf(true); clogBuf = new OutBuf(true);
   return shm != MAP_FAILED;
}
static Cell* dataShadowTop = (Cell*)SHADOW_D;
bool ensureNodes(bool mpi, bool traced, int count, std::string& error)
{
   auto& v = *loaded[mpi][traced];
   while ((int)v.size() < count) {
      std::string src = libs[mpi][traced], dst = scratch + "/node_" + (mpi ? "m" : "s") + (traced ? "t" : "p") + std::to_string(v.size()) + "_" + std::to_string(getpid()) + ".so";
      std::string cmd = "cp '" + src + "' '" + dst + "'"; if (system(cmd.c_str()) != 0) { error = "cannot copy " + src; return false; }
      void* h = dlopen(dst.c_str(), RTLD_NOW | RTLD_LOCAL); unlink(dst.c_str());
      if (!h) { error = dlerror(); return false; }
      Loaded l; l.h = h; l.mainFn = (int (*)(int, char**))dlsym(h, "main"); if (!l.mainFn) { error = "main missing"; return false; }
      struct link_map* lm; dlinfo(h, RTLD_DI_LINKMAP, &lm);
      struct Ctx { uint64_t base; Range* r; } ctx{ (uint64_t)lm->l_addr, &l.range };
      l.range = Range{ UINT64_MAX, 0, nullptr, UINT64_MAX, 0, dst };
      dl_iterate_phdr([](dl_phdr_info* i, size_t, void* p) { Ctx& c = *(Ctx*)p; if (i->dlpi_addr != c.base) return 0;
         for (int k = 0; k < i->dlpi_phnum; ++k) { auto& ph = i->dlpi_phdr[k]; if (ph.p_type != PT_LOAD) continue; uint64_t a = i->dlpi_addr + ph.p_vaddr, b = a + ph.p_memsz; if (ph.p_flags & PF_W) { c.r->lo = std::min(c.r->lo, a); c.r->hi = std::max(c.r->hi, b); } if (ph.p_flags & PF_X) { c.r->textLo = std::min(c.r->textLo, a); c.r->textHi = std::max(c.r->textHi, b); } } return 0; }, &ctx);
      l.range.lo &= ~3ull; l.range.cells = dataShadowTop; dataShadowTop += (l.range.hi - l.range.lo) / 4 + 16;
      v.push_back(l);
   }
   return true;
}

static void* nodeThread(void* p)
{
   Node& n = *(Node*)p; Thread* t = self;
   std::vector<char*> av = n.argv; int rc;
   rc = n.mainFn((int)av.size() - 1, av.data());
   {
      In in; n.rc = rc;
      for (int i = 0; i < nThreads; ++i) if (i != t->id && threads[i].node == t->node && threads[i].state != Finished) ++n.threadsLeft;
      OutBuf::drain(n, t->node, n.out.size());     // exit() flushes std::cout
   }
   for (size_t i = n.atexit.size(); i-- > 0;) n.atexit[i].first(n.atexit[i].second);
   { In in; n.exited = true; progress();
     if (spec.mpi && n.inited && !n.finalized) finish(O_JOBABORT, fmt("node %d ended without MPI_Finalize", t->node));
     for (int i = 0; i < nThreads; ++i) if (i != t->id && threads[i].node == t->node && threads[i].state != Finished) { threads[i].state = Finished; }   // killed by process exit
     maybeEnd(); }
   return nullptr;
}
static void onSignal(int sig, siginfo_t* si, void*)
{
   static volatile int again; if (again++) raw6(SYS_exit_group, 99, 0, 0, 0, 0, 0);
   if (sig == SIGALRM || sig == SIGVTALRM || sig == SIGPROF) finish(overLimit(O_CPULIMIT), "CPU limit reached" + describe());
   finish(O_CRASH, fmt("signal %d (%s) at address %p in thread %d of node %d", sig, strsignal(sig), si->si_addr, self ? self->id : -1, self ? self->node : -1));
}
static void onTerminate()
{
   if (self) ++self->depth;
   std::string what = "std::terminate called";
   if (std::exception_ptr e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception& x) { what = std::string("uncaught exception: ") + x.what(); } catch (...) { what = "uncaught exception"; } }
   finish(O_TERMINATE, what + fmt(" (thread %d of node %d)", self ? self->id : -1, self ? self->node : -1));
}

static void child(const RunSpec& s)
{
   spec = s; static Rng rng(0); rng = Rng(s.seed); prng = &rng;
   std::string err;
   nNodes = s.nodes; nodes = new Node[(size_t)nNodes]; mutexes = new std::unordered_map<const void*, Mutex>; conds = new std::unordered_map<const void*, std::deque<int>>; onces = new std::unordered_map<const void*, int>; syncVCs = new std::unordered_map<const void*, VC>;
   replay = new std::unordered_map<uint64_t, uint32_t>; for (auto& c : s.choices) (*replay)[key(c.kind, c.a, c.b)] = c.v;
   msgs = new std::vector<Msg>; live = new std::vector<int>; reqs = new std::vector<Req>; lastArrive = new std::map<std::pair<std::pair<int,int>,int>, uint64_t>; choices = new std::vector<Choice>; notes = new std::vector<std::string>; states = new std::vector<uint64_t>; simFds = new std::map<int, SimFd>;
   changePoints = new std::vector<uint64_t>; readSets = new std::vector<VC>; raceSeen = new std::set<std::string>; ranges = new std::vector<Range>;
   tracing = s.traced; arenaTop = ARENA + 4096;
   if (s.strategy != S_REPLAY) {
      static const uint32_t ps[] = { 1024, 512, 256, 64, 16 }, pm[] = { 128, 32, 8, 2, 1 };
      pSync = ps[rng.below(5)]; pMem = pm[rng.below(5)]; loose = rng.chance(1, 2);
      starved = (int)rng.below(s.mpi ? 12 : 6); starveUntil = rng.chance(1, 2) ? UINT64_MAX : 50ull << rng.below(10);
      prioLow = 999999; burstLen = 4ull << rng.below(6); burstGap = 16ull << rng.below(8);
      int d = 1 + (int)rng.below(6); uint64_t span = 40ull << rng.below(s.traced ? 12 : 9); for (int i = 0; i < d; ++i) changePoints->push_back(rng.below(span)); std::sort(changePoints->rbegin(), changePoints->rend());
   }
   for (int i = 0; i < nNodes; ++i) {
      Node& n = nodes[i]; Loaded& l = (*loaded[s.mpi][s.traced])[(size_t)i]; n.mainFn = l.mainFn; ranges->push_back(l.range);
      n.argStore = s.args[(size_t)i]; for (auto& a : n.argStore) n.argv.push_back(&a[0]); n.argv.push_back(nullptr);
      switch (s.bufMode) { case 0: n.outCap = 4096; break; case 1: n.lineBuf = true; break; case 2: n.outCap = 0; break; default: n.outCap = s.bufMode; }
      for (auto& f : s.faults) if (f.node == i && (f.kind == F_ALLOC || f.kind == F_ALLOC_FROM)) { n.allocArmed = true; (n.allocAt ? n.allocAt2 : n.allocAt) = f.n; n.allocFrom |= f.kind == F_ALLOC_FROM; }
   }
   std::cout.rdbuf(coutBuf); std::cerr.rdbuf(cerrBuf); std::clog.rdbuf(clogBuf); std::clog.clear(); std::cout.clear(); std::cerr.clear();
   for (int i = 0; i < nNodes; ++i) ioSave(i);
   std::set_terminate(onTerminate);
   static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr); (void)alt;
   struct sigaction sa{}; sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_NODEFER; for (int g : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF }) sigaction(g, &sa, nullptr);
   itimerval it{}; it.it_value.tv_sec = s.cpuLimit; setitimer(ITIMER_PROF, &it, nullptr);
   for (int i = 0; i < nNodes; ++i) spawn(i, nodeThread, &nodes[i], true);
   nextHold = spec.holdAt; progress(); lastWorkStep = 0; running = true;
   lastNode = -1;
   handTo(0);
   for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
}

RunResult run(const RunSpec& s)
{
   RunResult r; std::string err;
   if (!ensureNodes(s.mpi, s.traced, s.nodes, err)) { r.detail = err; return r; }
   memset(shm, 0, 8); fflush(stdout); fflush(stderr);
   pid_t pid = fork();
   if (pid == 0) { child(s); raw6(SYS_exit_group, 98, 0, 0, 0, 0, 0); }
   int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
   uint64_t magic; memcpy(&magic, shm, 8);
   if (magic != 0x51a0c0de51a0c0deull && WIFSIGNALED(st)) for (int g : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) if (WTERMSIG(st) == g) { r.outcome = O_CRASH; r.detail = fmt("the process died from signal %d (%s), e.g. because a stack overflowed", g, strsignal(g)); r.hash = (uint64_t)g; r.nodes.resize((size_t)s.nodes); return r; }
   if (magic != 0x51a0c0de51a0c0deull) { r.outcome = O_ENGINE; r.detail = fmt("the run ended without a result (wait status 0x%x)", st); return r; }
   Reader w{ shm + 8 };
   r.outcome = (Outcome)w.u(); r.detail = w.s(); size_t n = w.u(); r.nodes.resize(n);
   for (auto& x : r.nodes) { x.exited = w.u(); x.rc = (int)(int64_t)w.u(); x.threadsLeft = (int)w.u(); x.out = w.s(); x.durable = w.s(); x.err = w.s(); x.said = w.s(); x.writeFailed = w.u(); x.readFailed = w.u(); }
   n = w.u(); for (size_t i = 0; i < n; ++i) r.notes.push_back(w.s());
   n = w.u(); r.choices.resize(n); for (auto& c : r.choices) { c.kind = (uint8_t)w.u(); uint64_t ab = w.u(); c.a = (uint32_t)(ab >> 32); c.b = (uint32_t)ab; c.v = (uint32_t)w.u(); }
   r.hash = w.u(); r.schedHash = w.u(); r.steps = w.u(); r.switches = w.u(); r.simTime = w.u(); r.threads = w.u(); r.messages = w.u(); r.accesses = w.u(); r.allocs = w.u(); r.clockCalls = w.u();
   for (auto& v : r.faultsFired) v = w.u(); for (auto& v : r.choicesMade) v = w.u();
   n = w.u(); r.states.resize(n); for (auto& v : r.states) v = w.u();
   return r;
}
}
