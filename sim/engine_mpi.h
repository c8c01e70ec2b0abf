// ---------------------------------------------------------------------------------------------------
// MPI
static void checkBuffer(Msg& m)
{
   if (m.len && inArena(m.buf) && m.buf) {
      if (tracing) { Cell* c = cellOf((uint64_t)m.buf); if (c && !(c->flags & CELL_LIVE)) note(fmt("send-buffer: buffer of a pending send of node %d was freed before the send completed", m.src)); }
   }
   m.data.resize(m.len);
   if (m.len) memcpy(m.data.data(), m.buf, m.len);
   if (m.data != m.snap) note(fmt("send-buffer: buffer of a pending send of node %d (%zu bytes, tag %d) changed before the send completed", m.src, m.len, m.tag));
}
struct MpiCall {
   Thread* t; Node& n;
   MpiCall(const char* name, bool needInit = true) : t(self), n(nodes[self->node])
   {
      ++t->depth;
      if (needInit && (!n.inited || n.finalized)) finish(O_MPI_ERROR, fmt("%s called %s", name, n.inited ? "after MPI_Finalize" : "before MPI_Init"));
      if (n.mpiInside >= 0 && n.mpiInside != t->id) note(fmt("mpi-concurrent: threads %d and %d of node %d are inside the MPI library at the same time (%s)", n.mpiInside, t->id, t->node, name));
      prev = n.mpiInside; n.mpiInside = t->id;
      schedPoint(name);
   }
   ~MpiCall() { n.mpiInside = prev; --t->depth; }
   int prev;
};
static size_t typeSize(MPI_Datatype t) { return (size_t)t & 0xff; }
static uint64_t drawDelay()
{
   switch (spec.netMode) {
      case 0: return prng->chance(1, 4) ? prng->below(2000) : 0;
      case 1: return prng->below(20000);
      case 2: return prng->chance(1, 3) ? prng->below(3000000) : prng->below(5000);
      default: return 1ull << prng->below(24);
   }
}
static int newReq(const Req& q) { reqs->push_back(q); return (int)reqs->size() - 1; }
static int postSend(const void* buf, size_t len, int dst, int tag, int comm, int how)   // how: 0 standard, 1 synchronous, 2 buffered
{
   int src = self->node;
   if (dst < 0 || dst >= nNodes) finish(O_MPI_ERROR, fmt("send to invalid rank %d", dst));
   if (len && !buf) finish(O_MPI_ERROR, "send from a null buffer");
   msgs->emplace_back(); Msg& m = msgs->back(); uint32_t no = (uint32_t)msgs->size();
   live->push_back((int)no - 1); m.src = src; m.dst = dst; m.tag = tag; m.comm = comm; m.buf = buf; m.len = len; m.consumed = false; m.arrivedNoted = false;
   m.snap.assign((const char*)buf, (const char*)buf + len);
   uint32_t mode = choose(C_SENDMODE, (uint32_t)src, no, [&]() -> uint32_t { return (uint32_t)prng->below(4); });   // 0 buffered at once, 1 copied later, 2/3 rendezvous
   if (how == 1) mode = 2; else if (how == 2) mode = 0;
   uint64_t d = choose(C_DELAY, (uint32_t)src, no, [&]() -> uint32_t { return (uint32_t)drawDelay(); });
   uint64_t& last = (*lastArrive)[{ { src, dst }, tag + comm * 65536 }];
   m.arrive = std::max(last, now_ns + d); last = m.arrive; if (m.arrive <= now_ns) m.arrivedNoted = true;
   m.sync = mode >= 2;
   if (mode == 0) { m.data = m.snap; m.copied = true; m.doneAt = now_ns; }
   else if (mode == 1) { m.copied = false; m.doneAt = now_ns + (m.arrive - now_ns) / 2 + 1; if (m.doneAt > m.arrive) m.arrive = last = m.doneAt; m.arrivedNoted = m.arrive <= now_ns; }
   else { m.copied = false; m.doneAt = UINT64_MAX; }
   memset((void*)&m.vc, 0, sizeof m.vc); release(m.vc);
   for (size_t i = 0; i < len; ++i) mix((unsigned char)((const char*)buf)[i]);
   mix(0x5e4d0000u + (unsigned)dst * 16 + (unsigned)tag);
   progress();
   if (m.arrivedNoted) for (int i = 0; i < nThreads; ++i) if (threads[i].state == OnRecv && threads[i].node == dst) threads[i].state = Runnable;
   Req q{}; q.msg = (int)no - 1; q.node = src; return newReq(q);
}
static bool matches(const Msg& m, int dst, int src, int tag, int comm) { return !m.consumed && m.dst == dst && m.comm == comm && (src == MPI_ANY_SOURCE || m.src == src) && (tag == MPI_ANY_TAG || m.tag == tag); }
static Msg* findArrived(int dst, int src, int tag, int comm)
{
   // non-overtaking: for every (source, tag) only the oldest unconsumed message is a candidate
   Msg* best = nullptr; std::set<std::pair<int,int>> seen;
   for (int i : *live) { Msg& m = (*msgs)[(size_t)i]; if (!matches(m, dst, src, tag, comm)) continue; if (!seen.insert({ m.src, m.tag }).second) continue; if (m.arrive <= now_ns) { if (!best || m.arrive < best->arrive) best = &m; } }
   return best;
}
static void fillStatus(MPI_Status* st, const Msg& m) { if (st) { st->MPI_SOURCE = m.src; st->MPI_TAG = m.tag; st->MPI_ERROR = 0; st->sim_bytes = (int)m.len; } }
static void emptyStatus(MPI_Status* st) { if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->sim_bytes = 0; } }
static void takeMessage(Msg& m, void* b, size_t cap)
{
   if (!m.copied) { checkBuffer(m); m.copied = true; }
   m.consumed = true; progress();
   if (m.len > cap) finish(O_MPI_ERROR, fmt("message truncated: node %d receives %zu bytes into a buffer of %zu bytes (tag %d from node %d)", self->node, m.len, cap, m.tag, m.src));
   if (m.len) memcpy(b, m.data.data(), m.len);
   acquire(m.vc);
}
// receives posted with MPI_Irecv, in the order they were posted
static void matchPosted()
{
   for (size_t i = 0; i < reqs->size(); ++i) { Req& q = (*reqs)[i]; if (!q.recv || q.node != self->node || q.done || q.msg >= 0 || q.cancelled) continue; Msg* m = findArrived(q.node, q.src, q.tag, q.comm); if (m) { q.msg = (int)(m - msgs->data()); takeMessage(*m, q.buf, q.cap); } }
}
static bool reqDone(int r)
{
   if (r < 0) return true;
   if (r >= (int)reqs->size()) finish(O_MPI_ERROR, "invalid request");
   Req& q = (*reqs)[(size_t)r];
   if (q.done) finish(O_MPI_ERROR, "test of a request that was already completed");
   if (q.recv) { if (!q.cancelled && q.msg < 0) matchPosted(); return q.cancelled || q.msg >= 0; }
   return (*msgs)[(size_t)q.msg].copied;
}
static void complete(MPI_Request* r, MPI_Status* st)
{
   if (*r < 0) { emptyStatus(st); return; }
   Req& q = (*reqs)[(size_t)*r]; q.done = true; if (q.msg >= 0 && q.recv) fillStatus(st, (*msgs)[(size_t)q.msg]); else emptyStatus(st);
   if (st) st->sim_cancelled = q.cancelled;
   *r = MPI_REQUEST_NULL;
}
static void mpiPause(const char* op) { self->state = OnRecv; self->timed = true; self->wake = now_ns + 1000; block(op); self->timed = false; self->state = Runnable; }
static void mpiWait(MPI_Request* r, MPI_Status* st) { while (!reqDone(*r)) mpiPause("MPI_Wait"); complete(r, st); }
static Msg* waitMsg(int src, int tag, int comm, const char* op)
{
   for (;;) { matchPosted(); Msg* m = findArrived(self->node, src, tag, comm); if (m) return m; self->state = OnRecv; block(op); self->state = Runnable; }
}
// collective operations: every node takes part in the n-th one of a communicator
struct Round { std::vector<bool> in; std::vector<std::vector<char>> data; std::vector<VC> vc; int count = 0; };
static std::map<std::pair<int,int>, Round>* rounds;
static void wakeBarrier() { progress(); for (int i = 0; i < nThreads; ++i) if (threads[i].state == OnBarrier) threads[i].state = Runnable; }
static Round& collective(const char* op, int comm, const void* data, size_t len, int waitFor)   // waitFor: -1 nobody, -2 everybody, else that node
{
   if (!rounds) rounds = new std::map<std::pair<int,int>, Round>;
   int me = self->node; Round& r = (*rounds)[{ comm, nodes[me].collectives++ }];
   if (r.in.empty()) { r.in.assign((size_t)nNodes, false); r.data.resize((size_t)nNodes); r.vc.resize((size_t)nNodes); }
   r.in[(size_t)me] = true; ++r.count; if (len) r.data[(size_t)me].assign((const char*)data, (const char*)data + len);
   memset((void*)&r.vc[(size_t)me], 0, sizeof(VC)); release(r.vc[(size_t)me]); wakeBarrier();
   while (waitFor == -2 ? r.count < nNodes : waitFor >= 0 && !r.in[(size_t)waitFor]) { self->state = OnBarrier; block(op); self->state = Runnable; }
   for (int i = 0; i < nNodes; ++i) if (r.in[(size_t)i] && (waitFor == -2 || waitFor == i)) acquire(r.vc[(size_t)i]);
   return r;
}
template <typename T> static void reduceT(char* into, const char* from, size_t bytes, MPI_Op op)
{
   for (size_t i = 0; i + sizeof(T) <= bytes; i += sizeof(T)) { T a, b; memcpy(&a, into + i, sizeof a); memcpy(&b, from + i, sizeof b);
      switch (op) { case MPI_SUM: a = (T)(a + b); break; case MPI_PROD: a = (T)(a * b); break; case MPI_MAX: a = std::max(a, b); break; case MPI_MIN: a = std::min(a, b); break; case MPI_LAND: a = (T)(a && b); break; case MPI_LOR: a = (T)(a || b); break;
         case MPI_BAND: a = (T)((uint64_t)a & (uint64_t)b); break; case MPI_BOR: a = (T)((uint64_t)a | (uint64_t)b); break; default: finish(O_MPI_ERROR, "unknown reduction"); }
      memcpy(into + i, &a, sizeof a); }
}
static std::vector<char> reduceAll(Round& r, MPI_Datatype t, MPI_Op op)
{
   std::vector<char> v = r.data[0];
   for (int i = 1; i < nNodes; ++i) { const char* f = r.data[(size_t)i].data(); size_t n = std::min(v.size(), r.data[(size_t)i].size());
      switch (t) { case MPI_FLOAT: reduceT<float>(v.data(), f, n, op); break; case MPI_DOUBLE: reduceT<double>(v.data(), f, n, op); break; case MPI_INT: reduceT<int>(v.data(), f, n, op); break; case MPI_UNSIGNED: reduceT<unsigned>(v.data(), f, n, op); break;
         case MPI_LONG: reduceT<int64_t>(v.data(), f, n, op); break; case MPI_UNSIGNED_LONG: reduceT<uint64_t>(v.data(), f, n, op); break; case MPI_SHORT: reduceT<short>(v.data(), f, n, op); break; default: reduceT<signed char>(v.data(), f, n, op); } }
   return v;
}
} // namespace sim
using namespace sim;


EXPORT int MPI_Init_thread(int*, char***, int req, int* prov) { MpiCall c("MPI_Init_thread", false); if (c.n.inited) finish(O_MPI_ERROR, "MPI_Init called twice"); c.n.inited = true; c.n.mpiLevel = req < MPI_THREAD_SERIALIZED ? req : MPI_THREAD_SERIALIZED; if (prov) *prov = c.n.mpiLevel; return 0; }
EXPORT int MPI_Init(int*, char***) { MpiCall c("MPI_Init", false); if (c.n.inited) finish(O_MPI_ERROR, "MPI_Init called twice"); c.n.inited = true; return 0; }
EXPORT int MPI_Query_thread(int* l) { MpiCall c("MPI_Query_thread"); *l = c.n.mpiLevel; return 0; }
EXPORT int MPI_Is_thread_main(int* f) { MpiCall c("MPI_Is_thread_main"); *f = self->main; return 0; }
EXPORT int MPI_Initialized(int* f) { *f = self ? nodes[self->node].inited : 0; return 0; }
EXPORT int MPI_Finalized(int* f) { *f = self ? nodes[self->node].finalized : 0; return 0; }
EXPORT int MPI_Comm_rank(MPI_Comm m, int* r) { MpiCall c("MPI_Comm_rank"); *r = m == MPI_COMM_SELF ? 0 : self->node; return 0; }
EXPORT int MPI_Comm_size(MPI_Comm m, int* r) { MpiCall c("MPI_Comm_size"); *r = m == MPI_COMM_SELF ? 1 : nNodes; return 0; }
EXPORT int MPI_Comm_dup(MPI_Comm, MPI_Comm* r) { MpiCall c("MPI_Comm_dup"); *r = ++c.n.comms; return 0; }
EXPORT int MPI_Comm_free(MPI_Comm* r) { MpiCall c("MPI_Comm_free"); *r = MPI_COMM_NULL; return 0; }
EXPORT int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { MpiCall c("MPI_Comm_set_errhandler"); return 0; }
EXPORT int MPI_Errhandler_set(MPI_Comm, MPI_Errhandler) { MpiCall c("MPI_Errhandler_set"); return 0; }
EXPORT int MPI_Error_string(int, char* s, int* n) { strcpy(s, "error"); *n = 5; return 0; }
EXPORT int MPI_Get_processor_name(char* s, int* n) { MpiCall c("MPI_Get_processor_name"); *n = sprintf(s, "node%d", self->node); return 0; }
EXPORT int MPI_Abort(MPI_Comm, int code) { MpiCall c("MPI_Abort"); c.n.rc = code; finish(O_JOBABORT, fmt("node %d called MPI_Abort(%d)", self->node, code)); }
EXPORT int MPI_Finalize(void)
{
   MpiCall c("MPI_Finalize");
   // finalize is collective: it may wait until every node has called it
   c.n.finalizing = true; ++barrierCount; wakeBarrier();
   for (auto& q : *reqs) if (q.node == self->node && !q.done && !q.recv) { note(fmt("mpi-leak: node %d finalized with a send that was never waited for", self->node)); break; }
   for (auto& q : *reqs) if (q.node == self->node && !q.done && q.recv) { note(fmt("mpi-leak: node %d finalized with a pending receive", self->node)); break; }
   while (barrierCount < nNodes) { self->state = OnBarrier; block("MPI_Finalize"); self->state = Runnable; }
   c.n.finalized = true;
   for (auto& m : *msgs) if (m.dst == self->node && !m.consumed) { note(fmt("mpi-lost: a message from node %d to node %d (tag %d) was never received", m.src, m.dst, m.tag)); break; }
   return 0;
}
#define LEN ((size_t)n * typeSize(t))
EXPORT int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm m, MPI_Request* r) { MpiCall c("MPI_Isend"); *r = postSend(b, LEN, dst, tag, m, 0); return 0; }
EXPORT int MPI_Issend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm m, MPI_Request* r) { MpiCall c("MPI_Issend"); *r = postSend(b, LEN, dst, tag, m, 1); return 0; }
EXPORT int MPI_Ibsend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm m, MPI_Request* r) { MpiCall c("MPI_Ibsend"); *r = postSend(b, LEN, dst, tag, m, 2); return 0; }
EXPORT int MPI_Irsend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm m, MPI_Request* r) { MpiCall c("MPI_Irsend"); *r = postSend(b, LEN, dst, tag, m, 0); return 0; }
static int sendNow(const void* b, size_t len, int dst, int tag, int comm, int how) { MPI_Request r = postSend(b, len, dst, tag, comm, how); mpiWait(&r, nullptr); return 0; }
EXPORT int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm m) { MpiCall c("MPI_Send"); return sendNow(b, LEN, dst, tag, m, 0); }
EXPORT int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm m) { MpiCall c("MPI_Ssend"); return sendNow(b, LEN, dst, tag, m, 1); }
EXPORT int MPI_Bsend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm m) { MpiCall c("MPI_Bsend"); return sendNow(b, LEN, dst, tag, m, 2); }
EXPORT int MPI_Rsend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm m) { MpiCall c("MPI_Rsend"); return sendNow(b, LEN, dst, tag, m, 0); }
EXPORT int MPI_Buffer_attach(void*, int) { return 0; }
EXPORT int MPI_Buffer_detach(void*, int*) { return 0; }
EXPORT int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm m, MPI_Request* r)
{
   MpiCall c("MPI_Irecv"); Req q{}; q.msg = -1; q.node = self->node; q.recv = true; q.buf = b; q.cap = LEN; q.src = src; q.tag = tag; q.comm = m; *r = newReq(q); matchPosted(); return 0;
}
static bool lagging() { return choose(C_TESTLAG, (uint32_t)self->id, self->points, [&]() -> uint32_t { return prng->chance(1, 5) ? 1u : 0u; }) != 0; }
EXPORT int MPI_Test(MPI_Request* r, int* flag, MPI_Status* st)
{
   MpiCall c("MPI_Test");
   bool d = reqDone(*r); if (d && *r >= 0 && lagging()) d = false;
   if (d) { bool any = *r >= 0; complete(r, st); if (any) progress(); }
   *flag = d; return 0;
}
EXPORT int MPI_Request_get_status(MPI_Request r, int* flag, MPI_Status* st) { MpiCall c("MPI_Request_get_status"); *flag = reqDone(r); if (*flag) { if (r >= 0 && (*reqs)[(size_t)r].recv && (*reqs)[(size_t)r].msg >= 0) fillStatus(st, (*msgs)[(size_t)(*reqs)[(size_t)r].msg]); else emptyStatus(st); } return 0; }
EXPORT int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status* st)
{
   MpiCall c("MPI_Testall"); bool d = true; for (int i = 0; i < n; ++i) d = d && reqDone(r[i]);
   if (d) { for (int i = 0; i < n; ++i) complete(r + i, st ? st + i : nullptr); progress(); }
   *flag = d; return 0;
}
static int anyDone(int n, MPI_Request* r, bool& act) { act = false; for (int i = 0; i < n; ++i) if (r[i] >= 0) { act = true; if (reqDone(r[i])) return i; } return MPI_UNDEFINED; }
EXPORT int MPI_Testany(int n, MPI_Request* r, int* idx, int* flag, MPI_Status* st)
{
   MpiCall c("MPI_Testany"); bool act; *idx = anyDone(n, r, act); *flag = *idx >= 0 || !act; if (*idx >= 0) { complete(r + *idx, st); progress(); } else emptyStatus(st); return 0;
}
EXPORT int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* st)
{
   MpiCall c("MPI_Waitany"); bool act; while ((*idx = anyDone(n, r, act)) < 0 && act) mpiPause("MPI_Waitany"); if (*idx >= 0) complete(r + *idx, st); else emptyStatus(st); return 0;
}
static int someDone(int n, MPI_Request* r, int* idx, MPI_Status* st) { int k = 0; for (int i = 0; i < n; ++i) if (r[i] >= 0 && reqDone(r[i])) { complete(r + i, st ? st + k : nullptr); idx[k++] = i; } return k; }
EXPORT int MPI_Testsome(int n, MPI_Request* r, int* out, int* idx, MPI_Status* st) { MpiCall c("MPI_Testsome"); bool act; anyDone(n, r, act); *out = act ? someDone(n, r, idx, st) : MPI_UNDEFINED; if (*out > 0) progress(); return 0; }
EXPORT int MPI_Waitsome(int n, MPI_Request* r, int* out, int* idx, MPI_Status* st) { MpiCall c("MPI_Waitsome"); bool act; while (anyDone(n, r, act) < 0 && act) mpiPause("MPI_Waitsome"); *out = act ? someDone(n, r, idx, st) : MPI_UNDEFINED; return 0; }
EXPORT int MPI_Wait(MPI_Request* r, MPI_Status* st) { MpiCall c("MPI_Wait"); mpiWait(r, st); return 0; }
EXPORT int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) { MpiCall c("MPI_Waitall"); for (int i = 0; i < n; ++i) mpiWait(r + i, st ? st + i : nullptr); return 0; }
EXPORT int MPI_Request_free(MPI_Request* r) { MpiCall c("MPI_Request_free"); if (*r >= 0) (*reqs)[(size_t)*r].done = true; *r = MPI_REQUEST_NULL; return 0; }
EXPORT int MPI_Cancel(MPI_Request* r) { MpiCall c("MPI_Cancel"); if (*r >= 0) { Req& q = (*reqs)[(size_t)*r]; if (q.recv && q.msg < 0) q.cancelled = true; } return 0; }
EXPORT int MPI_Test_cancelled(const MPI_Status* st, int* f) { *f = st->sim_cancelled; return 0; }
EXPORT int MPI_Iprobe(int src, int tag, MPI_Comm m, int* flag, MPI_Status* st)
{
   MpiCall c("MPI_Iprobe"); matchPosted(); Msg* x = findArrived(self->node, src, tag, m);
   *flag = x != nullptr; if (x) { fillStatus(st, *x); progress(); }
   return 0;
}
EXPORT int MPI_Probe(int src, int tag, MPI_Comm m, MPI_Status* st) { MpiCall c("MPI_Probe"); fillStatus(st, *waitMsg(src, tag, m, "MPI_Probe")); return 0; }
EXPORT int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm m, MPI_Status* st)
{
   MpiCall c("MPI_Recv"); Msg* x = waitMsg(src, tag, m, "MPI_Recv"); takeMessage(*x, b, LEN); fillStatus(st, *x); return 0;
}
EXPORT int MPI_Sendrecv(const void* b, int n, MPI_Datatype t, int dst, int tag, void* b2, int n2, MPI_Datatype t2, int src, int tag2, MPI_Comm m, MPI_Status* st)
{
   MpiCall c("MPI_Sendrecv"); MPI_Request r = postSend(b, LEN, dst, tag, m, 0); Msg* x = waitMsg(src, tag2, m, "MPI_Sendrecv"); takeMessage(*x, b2, (size_t)n2 * typeSize(t2)); fillStatus(st, *x); mpiWait(&r, nullptr); return 0;
}
// matched probes: the message is taken out of matching at once
static int mprobed(Msg& x, MPI_Message* h, MPI_Status* st) { fillStatus(st, x); *h = (int)(&x - msgs->data()); x.consumed = true; if (!x.copied) { checkBuffer(x); x.copied = true; } progress(); return 0; }
EXPORT int MPI_Improbe(int src, int tag, MPI_Comm m, int* flag, MPI_Message* h, MPI_Status* st) { MpiCall c("MPI_Improbe"); matchPosted(); Msg* x = findArrived(self->node, src, tag, m); *flag = x != nullptr; return x ? mprobed(*x, h, st) : 0; }
EXPORT int MPI_Mprobe(int src, int tag, MPI_Comm m, MPI_Message* h, MPI_Status* st) { MpiCall c("MPI_Mprobe"); return mprobed(*waitMsg(src, tag, m, "MPI_Mprobe"), h, st); }
EXPORT int MPI_Mrecv(void* b, int n, MPI_Datatype t, MPI_Message* h, MPI_Status* st) { MpiCall c("MPI_Mrecv"); if (*h < 0 || *h >= (int)msgs->size()) finish(O_MPI_ERROR, "invalid message handle"); Msg& x = (*msgs)[(size_t)*h]; takeMessage(x, b, LEN); fillStatus(st, x); *h = MPI_MESSAGE_NULL; return 0; }
EXPORT int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = st->sim_bytes % (int)typeSize(t) ? MPI_UNDEFINED : st->sim_bytes / (int)typeSize(t); return 0; }
EXPORT int MPI_Get_elements(const MPI_Status* st, MPI_Datatype t, int* n) { return MPI_Get_count(st, t, n); }
EXPORT int MPI_Type_size(MPI_Datatype t, int* n) { *n = (int)typeSize(t); return 0; }
EXPORT double MPI_Wtime(void) { return self ? (double)now_ns * 1e-9 : 0; }
EXPORT double MPI_Wtick(void) { return 1e-9; }
EXPORT int MPI_Barrier(MPI_Comm m) { MpiCall c("MPI_Barrier"); collective("MPI_Barrier", m, nullptr, 0, -2); return 0; }
EXPORT int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm m)
{
   MpiCall c("MPI_Bcast"); bool mine = self->node == root; Round& r = collective("MPI_Bcast", m, b, mine ? LEN : 0, mine ? -1 : root);
   if (!mine) { auto& d = r.data[(size_t)root]; if (d.size() > LEN) finish(O_MPI_ERROR, "broadcast of more bytes than a node expects"); if (!d.empty()) memcpy(b, d.data(), d.size()); }
   return 0;
}
EXPORT int MPI_Reduce(const void* b, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm m)
{
   MpiCall c("MPI_Reduce"); bool mine = self->node == root; Round& r = collective("MPI_Reduce", m, b == MPI_IN_PLACE ? out : b, LEN, mine ? -2 : -1);
   if (mine) { auto v = reduceAll(r, t, op); if (!v.empty()) memcpy(out, v.data(), v.size()); } return 0;
}
EXPORT int MPI_Allreduce(const void* b, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm m)
{
   MpiCall c("MPI_Allreduce"); Round& r = collective("MPI_Allreduce", m, b == MPI_IN_PLACE ? out : b, LEN, -2); auto v = reduceAll(r, t, op); if (!v.empty()) memcpy(out, v.data(), v.size()); return 0;
}
EXPORT int MPI_Gather(const void* b, int n, MPI_Datatype t, void* out, int, MPI_Datatype, int root, MPI_Comm m)
{
   MpiCall c("MPI_Gather"); bool mine = self->node == root; Round& r = collective("MPI_Gather", m, b, LEN, mine ? -2 : -1);
   if (mine) { char* p = (char*)out; for (auto& d : r.data) { if (!d.empty()) memcpy(p, d.data(), d.size()); p += d.size(); } } return 0;
}
EXPORT int MPI_Allgather(const void* b, int n, MPI_Datatype t, void* out, int, MPI_Datatype, MPI_Comm m)
{
   MpiCall c("MPI_Allgather"); Round& r = collective("MPI_Allgather", m, b, LEN, -2); char* p = (char*)out; for (auto& d : r.data) { if (!d.empty()) memcpy(p, d.data(), d.size()); p += d.size(); } return 0;
}
#undef LEN
