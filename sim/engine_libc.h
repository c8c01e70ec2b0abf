// Further interposed functions: program output that bypasses std::cout, stdio streams on simulated files,
// less common pthread objects, randomness.  Included by engine.cpp.

// ---- output: write(2) and friends, stdio.  stdout's stdio buffer is the one std::cout uses (sync_with_stdio).
DECL(ssize_t, write, int, const void*, size_t); DECL(ssize_t, writev, int, const iovec*, int); DECL(size_t, fwrite, const void*, size_t, size_t, FILE*); DECL(int, fputs, const char*, FILE*); DECL(int, puts, const char*); DECL(int, fputc, int, FILE*);
DECL(int, vfprintf, FILE*, const char*, va_list); DECL(int, fflush, FILE*); DECL(int, fileno, FILE*); DECL(int, ferror, FILE*); DECL(int, setvbuf, FILE*, char*, int, size_t); DECL(int, fclose, FILE*); DECL(int, isatty, int); DECL(int, fsync, int);
static int outFd(FILE* f) { if (f == stdout) return 1; if (f == stderr) return 2; if (simStreams) { auto it = simStreams->find(f); if (it != simStreams->end() && (it->second == 1 || it->second == 2)) return it->second; } return 0; }
static bool put(int fd, const char* s, size_t n) { OutBuf* b = fd == 1 ? coutBuf : cerrBuf; return b->append(s, n); }
EXPORT ssize_t write(int fd, const void* b, size_t n) { if (!active() || (fd != 1 && fd != 2)) return REAL(write)(fd, b, n); return OutBuf::rawWrite(fd == 2, (const char*)b, n); }
EXPORT ssize_t writev(int fd, const iovec* v, int k)
{
   if (!active() || (fd != 1 && fd != 2)) return REAL(writev)(fd, v, k);
   std::string s; { In in; for (int i = 0; i < k; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len); }
   ssize_t r = OutBuf::rawWrite(fd == 2, s.data(), s.size()); { In in; std::string().swap(s); } return r;
}
EXPORT size_t fwrite(const void* p, size_t sz, size_t n, FILE* f) { int fd; if (!active() || !(fd = outFd(f))) return REAL(fwrite)(p, sz, n, f); return put(fd, (const char*)p, sz * n) ? n : 0; }
EXPORT size_t fwrite_unlocked(const void* p, size_t sz, size_t n, FILE* f) { return fwrite(p, sz, n, f); }
EXPORT int fputs(const char* s, FILE* f) { int fd; if (!active() || !(fd = outFd(f))) return REAL(fputs)(s, f); return put(fd, s, strlen(s)) ? 1 : EOF; }
EXPORT int fputs_unlocked(const char* s, FILE* f) { return fputs(s, f); }
EXPORT int puts(const char* s) { if (!active()) return REAL(puts)(s); return put(1, s, strlen(s)) && put(1, "\n", 1) ? 1 : EOF; }
EXPORT int fputc(int c, FILE* f) { int fd; if (!active() || !(fd = outFd(f))) return REAL(fputc)(c, f); char ch = (char)c; return put(fd, &ch, 1) ? (unsigned char)ch : EOF; }
#undef putc
#undef putchar
EXPORT int putc(int c, FILE* f) { return fputc(c, f); }
EXPORT int _IO_putc(int c, FILE* f) { return fputc(c, f); }
EXPORT int putchar(int c) { return fputc(c, stdout); }
EXPORT int putc_unlocked(int c, FILE* f) { return fputc(c, f); }
EXPORT int fputc_unlocked(int c, FILE* f) { return fputc(c, f); }
EXPORT int putchar_unlocked(int c) { return fputc(c, stdout); }
EXPORT int vfprintf(FILE* f, const char* m, va_list a)
{
   int fd; if (!active() || !(fd = outFd(f))) return REAL(vfprintf)(f, m, a);
   char small[512]; va_list b; va_copy(b, a); int n; { In in; n = vsnprintf(small, sizeof small, m, b); } va_end(b); if (n < 0) return n;
   bool ok; if (n < (int)sizeof small) ok = put(fd, small, (size_t)n); else { char* big = (char*)malloc((size_t)n + 1); { In in; vsnprintf(big, (size_t)n + 1, m, a); } ok = put(fd, big, (size_t)n); free(big); }
   return ok ? n : -1;
}
#define VA(m, body) va_list a; va_start(a, m); int r = body; va_end(a); return r;
EXPORT int vprintf(const char* m, va_list a) { return vfprintf(stdout, m, a); }
EXPORT int printf(const char* m, ...) { VA(m, vfprintf(stdout, m, a)) }
EXPORT int fprintf(FILE* f, const char* m, ...) { VA(m, vfprintf(f, m, a)) }
EXPORT int __printf_chk(int, const char* m, ...) { VA(m, vfprintf(stdout, m, a)) }
EXPORT int __fprintf_chk(FILE* f, int, const char* m, ...) { VA(m, vfprintf(f, m, a)) }
EXPORT int __vprintf_chk(int, const char* m, va_list a) { return vfprintf(stdout, m, a); }
EXPORT int __vfprintf_chk(FILE* f, int, const char* m, va_list a) { return vfprintf(f, m, a); }
static int simDprintf(int fd, const char* m, va_list a) { char t[4096]; int n; { In in; n = vsnprintf(t, sizeof t, m, a); } if (n < 0) return n; if (n >= (int)sizeof t) n = (int)sizeof t - 1; return (int)write(fd, t, (size_t)n); }
EXPORT int vdprintf(int fd, const char* m, va_list a) { return simDprintf(fd, m, a); }
EXPORT int dprintf(int fd, const char* m, ...) { VA(m, simDprintf(fd, m, a)) }
EXPORT int __dprintf_chk(int fd, int, const char* m, ...) { VA(m, simDprintf(fd, m, a)) }
EXPORT void perror(const char* s) { fprintf(stderr, "%s: %s\n", s ? s : "", strerror(errno)); }
EXPORT int fflush(FILE* f) { if (!active() || (f && !outFd(f))) return REAL(fflush)(f); if (f && outFd(f) == 2) return 0; return coutBuf->pubsync() ? EOF : 0; }
EXPORT int fflush_unlocked(FILE* f) { return fflush(f); }
EXPORT int ferror(FILE* f) { if (!active() || !outFd(f)) return REAL(ferror)(f); return outFd(f) == 1 && nodes[self->node].stdioError; }
EXPORT int setvbuf(FILE* f, char* b, int mode, size_t n) { if (!active() || !outFd(f)) return REAL(setvbuf)(f, b, mode, n); if (outFd(f) == 1) { Node& x = nodes[self->node]; x.lineBuf = mode == _IOLBF; x.outCap = mode == _IONBF ? 0 : n ? (int)std::min<size_t>(n, 1 << 20) : 4096; } return 0; }
EXPORT void setbuf(FILE* f, char* b) { setvbuf(f, b, b ? _IOFBF : _IONBF, BUFSIZ); }
EXPORT void setlinebuf(FILE* f) { setvbuf(f, nullptr, _IOLBF, 0); }
EXPORT int isatty(int fd) noexcept { if (active() && fd <= 2) { errno = ENOTTY; return 0; } return REAL(isatty)(fd); }
EXPORT int fsync(int fd) { if (active() && fd <= 2) return 0; return REAL(fsync)(fd); }
EXPORT int fdatasync(int fd) { return fsync(fd); }
EXPORT int fileno(FILE* f) noexcept { if (simStreams && f) { auto it = simStreams->find(f); if (it != simStreams->end()) return it->second; } return REAL(fileno)(f); }
EXPORT int fclose(FILE* f)
{
   if (active() && f && outFd(f)) { int bad = fflush(f); if (simStreams) { In in; simStreams->erase(f); } return bad; }
   if (active() && simStreams) { In in; simStreams->erase(f); }
   return REAL(fclose)(f);
}
// std::ios_base::sync_with_stdio: the streams keep the simulated buffers
EXPORT bool _ZNSt8ios_base15sync_with_stdioEb(bool) { return true; }

// ---- files opened without stdio
static int openFd(const char* path) { bool h; int fd = openSimFd(path, h); return h ? fd : -2; }
#define OPENLIKE(name, ...) if (active() && p && !strncmp(p, "/sim/", 5)) { In in; return openFd(p); } mode_t md = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); md = (mode_t)va_arg(a, int); va_end(a); }
static int sysRet(long r) { if (r < 0) { errno = (int)-r; return -1; } return (int)r; }
#undef open
#undef open64
EXPORT int open(const char* p, int fl, ...) { OPENLIKE() return sysRet(raw6(SYS_openat, AT_FDCWD, (long)p, fl, (long)md, 0, 0)); }
EXPORT int open64(const char* p, int fl, ...) { OPENLIKE() return sysRet(raw6(SYS_openat, AT_FDCWD, (long)p, fl, (long)md, 0, 0)); }
EXPORT int openat(int d, const char* p, int fl, ...) { OPENLIKE() return sysRet(raw6(SYS_openat, d, (long)p, fl, (long)md, 0, 0)); }
EXPORT int __open_2(const char* p, int fl) { return open(p, fl); }
EXPORT int __open64_2(const char* p, int fl) { return open(p, fl); }
EXPORT ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
EXPORT int access(const char* p, int m) noexcept { if (active() && p && !strncmp(p, "/sim/", 5)) { In in; for (auto& f : spec.files) if (f.path == p && (f.node < 0 || f.node == self->node)) { if (m & 2) { errno = EACCES; return -1; } return 0; } errno = ENOENT; return -1; } return sysRet(raw6(SYS_access, (long)p, m, 0, 0, 0, 0)); }
static int statSim(const char* p, struct stat* st, bool& h)
{
   h = active() && p && !strncmp(p, "/sim/", 5); if (!h) return 0; In in; memset(st, 0, sizeof *st);
   for (auto& f : spec.files) if (f.path == p && (f.node < 0 || f.node == self->node)) { st->st_mode = S_IFREG | 0444; st->st_size = (off_t)f.text.size(); st->st_nlink = 1; st->st_blksize = 4096; return 0; }
   errno = ENOENT; return -1;
}
EXPORT int stat(const char* p, struct stat* st) noexcept { bool h; int r = statSim(p, st, h); return h ? r : sysRet(raw6(SYS_stat, (long)p, (long)st, 0, 0, 0, 0)); }
EXPORT int stat64(const char* p, struct stat64* st) noexcept { return stat(p, (struct stat*)st); }
EXPORT int lstat(const char* p, struct stat* st) noexcept { bool h; int r = statSim(p, st, h); return h ? r : sysRet(raw6(SYS_lstat, (long)p, (long)st, 0, 0, 0, 0)); }

// ---- sleeping by other names
DECL(int, poll, pollfd*, nfds_t, int); DECL(int, select, int, fd_set*, fd_set*, fd_set*, timeval*); DECL(unsigned, sleep, unsigned);
EXPORT int poll(pollfd* f, nfds_t n, int ms) { if (!active() || n) return REAL(poll)(f, n, ms); simSleep((uint64_t)(ms < 0 ? 1 << 30 : ms) * 1000000); return 0; }
EXPORT int select(int n, fd_set* a, fd_set* b, fd_set* c, timeval* t) { if (!active() || a || b || c || !t) return REAL(select)(n, a, b, c, t); simSleep((uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_usec * 1000); return 0; }
EXPORT unsigned sleep(unsigned s) { if (!active()) return REAL(sleep)(s); simSleep((uint64_t)s * 1000000000ull); return 0; }
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t* s) noexcept { if (!active()) return sysRet(raw6(SYS_sched_getaffinity, p, (long)n, (long)s, 0, 0, 0)) < 0 ? -1 : 0; memset(s, 0, n); int k = std::max(1, spec.cores[(size_t)self->node]); for (int i = 0; i < k; ++i) CPU_SET_S((size_t)i, n, s); return 0; }
EXPORT int get_nprocs_conf(void) noexcept { static int (*r)(void); if (active()) return spec.cores[(size_t)self->node]; return real(r, "get_nprocs_conf")(); }

// ---- locks by other names (std::timed_mutex, pthread_rwlock, semaphores, spin locks, barriers)
static bool lockTimed(pthread_mutex_t* m, uint64_t until)
{
   In in; schedPoint("timed lock");
   for (;;) { Mutex& x = (*mutexes)[m]; if (x.owner < 0) { lockMutex(m, "timed lock"); return true; } if (now_ns >= until) return false;
      self->state = OnMutex; self->obj = m; self->timed = true; self->timedOut = false; self->wake = until; block("timed lock"); self->timed = false; self->state = Runnable; }
}
DECL(int, pthread_mutex_timedlock, pthread_mutex_t*, const timespec*); DECL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const timespec*);
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { if (!active()) return REAL(pthread_mutex_timedlock)(m, t); return lockTimed(m, toSim(CLOCK_REALTIME, t)) ? 0 : ETIMEDOUT; }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const timespec* t) { if (!active()) return REAL(pthread_mutex_clocklock)(m, k, t); return lockTimed(m, toSim(k, t)) ? 0 : ETIMEDOUT; }
namespace sim {
struct RwLock { int writer = -1, readers = 0; VC wvc{}, rvc{}; };
struct Sem { int value = 0; VC vc{}; };
struct Bar { unsigned need = 0, in = 0; uint64_t round = 0; VC vc{}, out{}; };
static std::map<const void*, RwLock>* rws; static std::map<const void*, Sem>* sems; static std::map<const void*, Bar>* bars;
static void wakeOn(const void* p) { for (int i = 0; i < nThreads; ++i) if (threads[i].state == OnMutex && threads[i].obj == p) { threads[i].state = Runnable; threads[i].timed = false; } }
static void waitOn(const void* p, const char* op) { self->state = OnMutex; self->obj = p; block(op); self->state = Runnable; }
static RwLock& rw(const void* p) { if (!rws) rws = new std::map<const void*, RwLock>; return (*rws)[p]; }
static Sem& semOf(const void* p) { if (!sems) sems = new std::map<const void*, Sem>; return (*sems)[p]; }
static void rdlock(const void* p) { while (rw(p).writer >= 0) waitOn(p, "shared lock"); RwLock& l = rw(p); ++l.readers; acquire(l.wvc); }
static void wrlock(const void* p) { while (rw(p).writer >= 0 || rw(p).readers) { if (rw(p).writer == self->id) finish(O_DEADLOCK, "a thread locks a reader/writer lock it already owns" + describe()); waitOn(p, "exclusive lock"); } RwLock& l = rw(p); l.writer = self->id; acquire(l.wvc); acquire(l.rvc); }
}
EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { memset(l, 0, sizeof *l); if (active()) { In in; rw(l) = RwLock(); } return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t* l) noexcept { if (active()) { In in; rw(l) = RwLock(); } return 0; }
DECL(int, pthread_rwlock_rdlock, pthread_rwlock_t*); DECL(int, pthread_rwlock_wrlock, pthread_rwlock_t*); DECL(int, pthread_rwlock_unlock, pthread_rwlock_t*); DECL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*); DECL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*);
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { if (!active()) return REAL(pthread_rwlock_rdlock)(l); In in; schedPoint("shared lock"); rdlock(l); return 0; }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { if (!active()) return REAL(pthread_rwlock_wrlock)(l); In in; schedPoint("exclusive lock"); wrlock(l); return 0; }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { if (!active()) return REAL(pthread_rwlock_tryrdlock)(l); In in; schedPoint("try shared lock"); if (rw(l).writer >= 0) { self->yielded = true; return EBUSY; } rdlock(l); return 0; }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { if (!active()) return REAL(pthread_rwlock_trywrlock)(l); In in; schedPoint("try exclusive lock"); if (rw(l).writer >= 0 || rw(l).readers) { self->yielded = true; return EBUSY; } wrlock(l); return 0; }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
   if (!active()) return REAL(pthread_rwlock_unlock)(l);
   In in; RwLock& x = rw(l);
   if (x.writer == self->id) { x.writer = -1; release(x.wvc); } else if (x.readers) { --x.readers; release(x.rvc); } else finish(O_MISUSE, fmt("thread %d unlocks a reader/writer lock it does not hold", self->id));
   wakeOn(l); schedPoint("unlock"); return 0;
}
DECL(int, sem_init, sem_t*, int, unsigned); DECL(int, sem_wait, sem_t*); DECL(int, sem_trywait, sem_t*); DECL(int, sem_post, sem_t*); DECL(int, sem_timedwait, sem_t*, const timespec*); DECL(int, sem_getvalue, sem_t*, int*);
EXPORT int sem_init(sem_t* s, int sh, unsigned v) noexcept { if (!active()) return REAL(sem_init)(s, sh, v); In in; memset(s, 0, sizeof *s); semOf(s) = Sem(); semOf(s).value = (int)v; return 0; }
EXPORT int sem_destroy(sem_t* s) noexcept { if (active()) { In in; semOf(s) = Sem(); } return 0; }
static bool semTake(sem_t* s, bool wait, bool timed, uint64_t until)
{
   In in; schedPoint("semaphore wait");
   while (semOf(s).value == 0) { if (!wait) { self->yielded = true; return false; } if (timed) { if (now_ns >= until) return false; self->timed = true; self->wake = until; } waitOn(s, "semaphore wait"); self->timed = false; }
   --semOf(s).value; acquire(semOf(s).vc); return true;
}
EXPORT int sem_wait(sem_t* s) { if (!active()) return REAL(sem_wait)(s); semTake(s, true, false, 0); return 0; }
EXPORT int sem_trywait(sem_t* s) noexcept { if (!active()) return REAL(sem_trywait)(s); if (semTake(s, false, false, 0)) return 0; errno = EAGAIN; return -1; }
EXPORT int sem_timedwait(sem_t* s, const timespec* t) { if (!active()) return REAL(sem_timedwait)(s, t); if (semTake(s, true, true, toSim(CLOCK_REALTIME, t))) return 0; errno = ETIMEDOUT; return -1; }
EXPORT int sem_post(sem_t* s) noexcept { if (!active()) return REAL(sem_post)(s); In in; Sem& x = semOf(s); ++x.value; release(x.vc); progress(); wakeOn(s); schedPoint("semaphore post"); return 0; }
EXPORT int sem_getvalue(sem_t* s, int* v) noexcept { if (!active()) return REAL(sem_getvalue)(s, v); In in; *v = semOf(s).value; return 0; }
EXPORT int pthread_spin_init(pthread_spinlock_t* l, int) noexcept { *(int*)l = 0; if (active()) { In in; rw((const void*)l) = RwLock(); } return 0; }
EXPORT int pthread_spin_destroy(pthread_spinlock_t*) noexcept { return 0; }
EXPORT int pthread_spin_lock(pthread_spinlock_t* l) noexcept { if (!active()) { while (__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE)) {} return 0; } In in; schedPoint("spin lock"); wrlock((const void*)l); return 0; }
EXPORT int pthread_spin_trylock(pthread_spinlock_t* l) noexcept { if (!active()) return __atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE) ? EBUSY : 0; In in; schedPoint("try spin lock"); if (rw((const void*)l).writer >= 0) { self->yielded = true; return EBUSY; } wrlock((const void*)l); return 0; }
EXPORT int pthread_spin_unlock(pthread_spinlock_t* l) noexcept { if (!active()) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); return 0; } In in; RwLock& x = rw((const void*)l); if (x.writer != self->id) finish(O_MISUSE, "unlock of a spin lock that is not held"); x.writer = -1; release(x.wvc); wakeOn((const void*)l); schedPoint("unlock"); return 0; }
EXPORT int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n) noexcept { memset(b, 0, sizeof *b); In in; if (!bars) bars = new std::map<const void*, Bar>; (*bars)[b] = Bar(); (*bars)[b].need = n; return 0; }
EXPORT int pthread_barrier_destroy(pthread_barrier_t*) noexcept { return 0; }
EXPORT int pthread_barrier_wait(pthread_barrier_t* b) noexcept
{
   if (!active()) return 0;
   In in; schedPoint("barrier"); Bar& x = (*bars)[b]; release(x.vc);
   if (++x.in == x.need) { x.in = 0; ++x.round; x.out = x.vc; progress(); wakeOn(b); acquire(x.out); return PTHREAD_BARRIER_SERIAL_THREAD; }
   uint64_t r = x.round; while ((*bars)[b].round == r) waitOn(b, "barrier"); acquire((*bars)[b].out); return 0;
}

// ---- randomness: fixed per node, so that a run is a function of its specification
static uint64_t simRandom() { In in; Node& n = nodes[self->node]; uint64_t z = (uint64_t)++n.randoms * 0x9e3779b97f4a7c15ull + (uint64_t)self->node * 77 + spec.seed; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void simFill(void* b, size_t n) { for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = (unsigned char)simRandom(); }
DECL(ssize_t, getrandom, void*, size_t, unsigned); DECL(int, getentropy, void*, size_t);
EXPORT ssize_t getrandom(void* b, size_t n, unsigned f) { if (!active()) return REAL(getrandom)(b, n, f); simFill(b, n); return (ssize_t)n; }
EXPORT int getentropy(void* b, size_t n) { if (!active()) return REAL(getentropy)(b, n); simFill(b, n); return 0; }
EXPORT unsigned _ZNSt13random_device9_M_getvalEv(void*) { return (unsigned)simRandom(); }
EXPORT int rand(void) noexcept { static int (*r)(void); if (!active()) return real(r, "rand")(); return (int)(simRandom() & 0x7fffffff); }
EXPORT long random(void) noexcept { return rand(); }
EXPORT void srand(unsigned) noexcept {}
EXPORT void srandom(unsigned) noexcept {}
