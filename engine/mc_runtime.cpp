// Controlled scheduler, happens-before engine and explorer (see mc.h, DESIGN.md).
//
// Built as a shared library that is linked in front of libstdc++/libc, so that the
// pthread, clock, allocation and __tsan_* entry points used by the code under test
// resolve to the definitions in this file.  One execution = one forked child in
// which real OS threads run one at a time under a baton.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <semaphore.h>
#include <sys/select.h>
#include <sys/time.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <new>
#include <typeinfo>
#include <cxxabi.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define TLS static __thread __attribute__((tls_model("initial-exec")))

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

namespace
{
  // ---------------------------------------------------------------- constants
  const int MAXT = 12;
  const int MAXPOINTS = 24000;
  const int MAXOPT = 16;
  const long VTIME_LIMIT_NS = 600L * 1000000000L;  // virtual horizon
  const size_t ARENA_PER_THREAD = 64u << 20;
  const size_t STACK_PER_THREAD = 1u << 20;

  // ---------------------------------------------------------------- real functions
  int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  int (*real_join)(pthread_t, void**);
  int (*real_detach)(pthread_t);
  int (*real_mutex_lock)(pthread_mutex_t*);
  int (*real_mutex_trylock)(pthread_mutex_t*);
  int (*real_mutex_unlock)(pthread_mutex_t*);
  int (*real_mutex_destroy)(pthread_mutex_t*);
  int (*real_cond_wait)(pthread_cond_t*, pthread_mutex_t*);
  int (*real_cond_timedwait)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
  int (*real_cond_clockwait)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
  int (*real_cond_signal)(pthread_cond_t*);
  int (*real_cond_broadcast)(pthread_cond_t*);
  int (*real_cond_destroy)(pthread_cond_t*);
  int (*real_nanosleep)(const timespec*, timespec*);
  int (*real_clock_nanosleep)(clockid_t, int, const timespec*, timespec*);
  int (*real_clock_gettime)(clockid_t, timespec*);
  int (*real_once)(pthread_once_t*, void (*)());
  int (*real_sched_yield)();
  int (*real_rwl_rd)(pthread_rwlock_t*);
  int (*real_rwl_wr)(pthread_rwlock_t*);
  int (*real_rwl_tryrd)(pthread_rwlock_t*);
  int (*real_rwl_trywr)(pthread_rwlock_t*);
  int (*real_rwl_un)(pthread_rwlock_t*);

  template<class F> void resolve(F& f, const char* n) { f = reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

  void resolve_all()
  {
    static bool done = false;
    if(done) return;
    resolve(real_create, "pthread_create");
    resolve(real_join, "pthread_join");
    resolve(real_detach, "pthread_detach");
    resolve(real_mutex_lock, "pthread_mutex_lock");
    resolve(real_mutex_trylock, "pthread_mutex_trylock");
    resolve(real_mutex_unlock, "pthread_mutex_unlock");
    resolve(real_mutex_destroy, "pthread_mutex_destroy");
    resolve(real_cond_wait, "pthread_cond_wait");
    resolve(real_cond_timedwait, "pthread_cond_timedwait");
    resolve(real_cond_clockwait, "pthread_cond_clockwait");
    resolve(real_cond_signal, "pthread_cond_signal");
    resolve(real_cond_broadcast, "pthread_cond_broadcast");
    resolve(real_cond_destroy, "pthread_cond_destroy");
    resolve(real_nanosleep, "nanosleep");
    resolve(real_clock_nanosleep, "clock_nanosleep");
    resolve(real_clock_gettime, "clock_gettime");
    resolve(real_once, "pthread_once");
    resolve(real_sched_yield, "sched_yield");
    resolve(real_rwl_rd, "pthread_rwlock_rdlock");
    resolve(real_rwl_wr, "pthread_rwlock_wrlock");
    resolve(real_rwl_tryrd, "pthread_rwlock_tryrdlock");
    resolve(real_rwl_trywr, "pthread_rwlock_trywrlock");
    resolve(real_rwl_un, "pthread_rwlock_unlock");
    done = true;
  }
  __attribute__((constructor(101))) void init_ctor() { resolve_all(); }

  // ---------------------------------------------------------------- small helpers
  u64 mix(u64 h, u64 v)
  {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33;
    return h;
  }
  u64 hashstr(const char* s) { u64 h = 1469598103934665603ull; while(*s) { h ^= (u8)*s++; h *= 1099511628211ull; } return h; }

  void futex_wait(volatile int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
  void futex_wake(volatile int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

  struct VC { u32 c[MAXT]; };
  void vc_join(VC& a, const VC& b) { for(int i = 0; i < MAXT; i++) if(b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

  // ---------------------------------------------------------------- shared exploration state
  enum Status { ST_RUNNING = 0, ST_OK, ST_VIOLATION, ST_PRUNED, ST_DIVERGED, ST_ENGINE };

  struct Point { u8 n, chosen, nc; u8 cost[MAXOPT]; };

  struct Slot   // one per worker; written by the child, read by the worker
  {
    volatile int status;
    int npoints;
    u64 steps, switches, heap_peak;
    u64 newstates;
    char key[512];
    char msg[6000];
    char outcome[512];
    Point pts[MAXPOINTS];
  };

  struct Item { int len; int cost; Item* next; u8 data[]; };  // data: (n, choice) pairs

  const u64 VIS_SIZE = 1ull << 22;
  struct Vis { volatile u64 key; };
  const int MAXOUT = 512;
  const int MAXLEVEL = 64;

  struct Shared
  {
    volatile int lock;
    Item* levels[MAXLEVEL];
    u64 pending[MAXLEVEL];
    int level;
    int active;
    int stop;           // 1: violation, 2: cap, 3: engine error
    u64 executions, pruned, steps, switches, states, vis_full, maxpoints, heap_peak;
    int completed_bound; // largest fully explored bound
    int exhausted;
    char vkey[512];
    char vmsg[6000];
    int vlen;
    u8 vdata[MAXPOINTS * 2];
    int nout;
    char out[MAXOUT][512];
    u64 outcount[MAXOUT];
    int nknown;
    char known[64][512];
    u64 knowncount[64];
    char knownmsg[64][1000];
    char* pool;
    volatile u64 pool_used;
    u64 pool_size;
  };

  Shared* SH;
  Vis* VIS;

  void sh_lock() { while(__sync_lock_test_and_set(&SH->lock, 1)) { struct timespec ts = {0, 20000}; if(real_nanosleep) real_nanosleep(&ts, nullptr); } }
  void sh_unlock() { __sync_lock_release(&SH->lock); }

  // returns true if key was new
  bool vis_insert(u64 key, bool& full)
  {
    if(key == 0) key = 1;
    u64 i = key & (VIS_SIZE - 1);
    for(int probes = 0; probes < 64; probes++)
    {
      u64 k = VIS[i].key;
      if(k == key) return false;
      if(k == 0)
      {
        u64 old = __sync_val_compare_and_swap(&VIS[i].key, 0ull, key);
        if(old == 0) return true;
        if(old == key) return false;
      }
      i = (i + 1) & (VIS_SIZE - 1);
    }
    full = true;
    return true;
  }

  // ---------------------------------------------------------------- per-execution state (child)
  enum Pend { P_RUN, P_LOCK, P_RD, P_WR, P_COND, P_SLEEP, P_JOIN, P_FUTEX, P_SEM, P_ONCE, P_START, P_DONE };

  struct Mutex { void* addr; int owner; int count; bool recursive; int readers[MAXT]; VC vc; bool dead; };
  struct Cond { void* addr; int nwait; int waiters[MAXT]; bool dead; };

  struct Thread
  {
    int id;
    bool managed;
    volatile int baton;
    Pend pend;
    void* pobj;       // Mutex*, Cond*, Thread*, address
    long deadline;    // <0: none
    bool rt;          // the deadline is on the wall clock: a jump of that clock moves it
    bool signaled;
    bool timedout;
    bool finished, detached, joined;
    VC vc;
    u64 last;         // hash of the last event
    u32 idx;          // number of events
    char* stack_lo; char* stack_hi;
    char* park_sp;
    char* entry_sp;   // stack pointer at the outermost entry into the runtime
    char* arena; char* arena_cur; char* arena_end;
    void* (*fn)(void*); void* arg; void* ret;
    pthread_t real, handle;
    void* shadow_pc[256];
    int depth;
    int quiet;
    const char* where;
  };

  Thread TH[MAXT];
  int NT;
  volatile bool ACTIVE;      // an execution is running in this process
  TLS Thread* self;
  TLS int in_rt;

  Slot* SLOT;
  const u8* PREFIX; int PREFIXLEN;
  int NPOINTS; bool REPLAY; FILE* TRACE;
  int FLAGS;
  long NOW;                   // virtual ns
  long RT_OFF;                // wall clock minus steady clock (mc_clock_jump)
  u64 STEPS, SWITCHES;
  int SIGLEFT, SIGCOUNT; long SIGDEADLINE; void (*SIGFN)();   // signals still to come, delivered, forced after (virtual ns)
  bool IN_SIGNAL;
  Thread* CUR;
  long HEAPBLOCKS;
  pid_t CHILDPID;

  Mutex MX[4096]; int NMX;
  Cond CV[512]; int NCV;

  char* ARENA; char* STACKS; u8* FREEMAP;   // FREEMAP: one byte per 16 bytes: 0 unallocated, 1 live, 2 freed
  const size_t ARENA_TOTAL = ARENA_PER_THREAD * MAXT;

  bool in_arena(const void* p) { return (char*)p >= ARENA && (char*)p < ARENA + ARENA_TOTAL; }

#define RT_ENTER do { if(in_rt++ == 0 && self) self->entry_sp = (char*)__builtin_frame_address(0); } while(0)
#define RT_LEAVE in_rt--

  // ---------------------------------------------------------------- ending an execution
  void finish(Status st)
  {
    SLOT->steps = STEPS; SLOT->switches = SWITCHES; SLOT->npoints = NPOINTS;
    SLOT->heap_peak = (u64)HEAPBLOCKS;
    __sync_synchronize();
    SLOT->status = st;
    if(TRACE) fflush(TRACE);
    _exit(0);
  }

  void describe_stack(char* buf, size_t n, Thread* t)
  {
    size_t o = 0;
    buf[0] = 0;
    int shown = 0;
    for(int i = t->depth - 1; i >= 0 && shown < 12; i--, shown++)
    {
      if(i >= 256) continue;
      o += snprintf(buf + o, n - o, " @%p", t->shadow_pc[i]);
      if(o >= n) break;
    }
  }

  void violation(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
  void violation(const char* key, const char* fmt, ...)
  {
    in_rt++;
    ACTIVE = false;
    snprintf(SLOT->key, sizeof SLOT->key, "%s", key);
    va_list ap; va_start(ap, fmt);
    vsnprintf(SLOT->msg, sizeof SLOT->msg - 600, fmt, ap);
    va_end(ap);
    if(self)
    {
      char st[500]; describe_stack(st, sizeof st, self);
      size_t l = strlen(SLOT->msg);
      snprintf(SLOT->msg + l, sizeof SLOT->msg - l, " [thread %d, stack:%s]", self->id, st);
    }
    if(TRACE) fprintf(TRACE, "VIOLATION %s: %s\n", key, SLOT->msg);
    finish(ST_VIOLATION);
    abort();
  }

  void engine_error(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
  void engine_error(const char* fmt, ...)
  {
    in_rt++;
    ACTIVE = false;
    va_list ap; va_start(ap, fmt);
    vsnprintf(SLOT->msg, sizeof SLOT->msg, fmt, ap);
    va_end(ap);
    snprintf(SLOT->key, sizeof SLOT->key, "engine");
    finish(ST_ENGINE);
    abort();
  }

  // ---------------------------------------------------------------- happens-before hashing
  struct Obj { u64 key; u64 lastw; u64 reads; VC vc; };
  const u32 OBJ_SIZE = 1u << 21;
  Obj* OBJ;   // mmapped, zero
  u32 NOBJ;

  Obj* obj(u64 key)
  {
    if(!key) key = 1;
    u32 i = (u32)(mix(key, 7) & (OBJ_SIZE - 1));
    while(OBJ[i].key && OBJ[i].key != key) i = (i + 1) & (OBJ_SIZE - 1);
    if(!OBJ[i].key)
    {
      OBJ[i].key = key;
      if(++NOBJ > OBJ_SIZE / 2) engine_error("object table full");
    }
    return &OBJ[i];
  }

  u64 canon(const void* p)
  {
    // arena and stack addresses are canonical: they depend on the owning thread's own history only
    return (u64)p;
  }

  void ev(Thread* t, u64 kind, u64 key, bool write)
  {
    Obj* o = obj(key);
    u64 h = mix(mix(mix(t->last, ((u64)t->id << 32) | t->idx), kind), key);
    h = mix(h, o->lastw);
    if(write)
    {
      h = mix(h, o->reads);
      o->lastw = h; o->reads = 0;
    }
    else
    {
      o->reads += h;
    }
    t->last = h;
    t->idx++;
    STEPS++;
  }

  const u64 OBJ_CLOCK = 0x101, OBJ_LOG = 0x102;

  u64 state_key()
  {
    u64 h = 0x1234567;
    for(int i = 0; i < NT; i++) h = mix(h, TH[i].last + 31 * i);
    h = mix(h, (u64)NOW);
    h = mix(h, 33 + (u64)SIGLEFT);
    return h;
  }

  // ---------------------------------------------------------------- race / lifetime detection
  struct Acc { u32 clk; u8 tid; u8 mask; u8 flags; u8 used; void* pc; };
  const int NACC = 8;
  struct Cell { u64 granule; Acc a[NACC]; };
  const u32 CELLS = 1u << 23;
  Cell* CELL; u32 NCELL;

  Cell* cell(u64 g, bool create)
  {
    u32 i = (u32)((((u64)(g >> 6) * 0x9E3779B97F4A7C15ull) >> 32) << 6 | (g & 63)) & (CELLS - 1);
    while(CELL[i].granule && CELL[i].granule != g) i = (i + 64 * 7) & (CELLS - 1);   // co-prime stride in blocks
    if(!CELL[i].granule)
    {
      if(!create) return nullptr;
      CELL[i].granule = g;
      if(++NCELL > CELLS / 4 * 3) engine_error("shadow table full");
    }
    return &CELL[i];
  }

  void check_lifetime(Thread* t, u64 a, int size, bool write, void* pc)
  {
    if(a >= (u64)ARENA && a < (u64)ARENA + ARENA_TOTAL)
    {
      u8 s = FREEMAP[(a - (u64)ARENA) >> 4];
      u8 s2 = FREEMAP[(a + size - 1 - (u64)ARENA) >> 4];
      if(s != 1 || s2 != 1)
      {
        char key[200];
        bool uaf = (s == 2 || s2 == 2);
        snprintf(key, sizeof key, uaf ? "use-after-free" : "heap-out-of-bounds");
        violation(key, "%s: %s of %d bytes at %p pc @%p", uaf ? "use of freed heap memory" : "access outside any heap block",
                  write ? "write" : "read", size, (void*)a, pc);
      }
    }
    else if(a >= (u64)STACKS && a < (u64)STACKS + STACK_PER_THREAD * MAXT)
    {
      int id = (int)((a - (u64)STACKS) / STACK_PER_THREAD);
      if(id != t->id && id < NT)
      {
        Thread* o = &TH[id];
        if(o->finished)
          violation("dead-stack", "%s of %d bytes on the stack of finished thread %d, pc @%p", write ? "write" : "read", size, id, pc);
        if(o->park_sp && (char*)a < o->park_sp)
          violation("dead-stack", "%s of %d bytes in a returned stack frame of thread %d, pc @%p", write ? "write" : "read", size, id, pc);
      }
    }
    else if(TH[0].id == 0 && a >= (u64)TH[0].stack_lo && a < (u64)TH[0].stack_hi && t->id != 0)
    {
      if(TH[0].park_sp && (char*)a < TH[0].park_sp)
        violation("dead-stack", "%s of %d bytes in a returned stack frame of thread 0, pc @%p", write ? "write" : "read", size, pc);
    }
  }

  void access1(Thread* t, u64 a, int size, bool write, bool atomic, void* pc)
  {
    u64 g = a >> 3;
    u8 mask = (u8)(((1u << size) - 1) << (a & 7));
    Cell* c = cell(g, true);
    Acc* spare = nullptr; Acc* mine = nullptr;
    for(int i = 0; i < NACC; i++)
    {
      Acc& x = c->a[i];
      if(!x.used) { if(!spare) spare = &x; continue; }
      u8 fl = (write ? 1 : 0) | (atomic ? 2 : 0);
      if(x.tid == t->id)
      {
        if(x.flags == fl && x.mask == mask) { mine = &x; }
        else if((x.mask & ~mask) == 0 && (write || !(x.flags & 1)) && !atomic && x.flags != 3 && (x.flags & 2) == 0) { spare = &x; x.used = 0; }
        continue;
      }
      if(!(x.mask & mask)) continue;
      if(!(write || (x.flags & 1))) continue;
      if(atomic && (x.flags & 2)) continue;
      if(x.clk <= t->vc.c[x.tid]) { continue; }
      if(FLAGS & MC_NO_RACES) continue;
      char key[300];
      snprintf(key, sizeof key, "data-race %s/%s @%p @%p", (x.flags & 1) ? "write" : "read", write ? "write" : "read", x.pc, pc);
      violation(key, "data race on %p: %s%s by thread %d at @%p is unordered with %s%s by thread %d at @%p", (void*)a,
                (x.flags & 2) ? "atomic " : "", (x.flags & 1) ? "write" : "read", x.tid, x.pc,
                atomic ? "atomic " : "", write ? "write" : "read", t->id, pc);
    }
    Acc* s = mine ? mine : spare;
    if(!s) s = &c->a[(t->idx + t->id) % NACC];
    s->used = 1; s->tid = (u8)t->id; s->clk = t->vc.c[t->id]; s->mask = mask; s->flags = (write ? 1 : 0) | (atomic ? 2 : 0); s->pc = pc;
  }

  void mem_access(const void* p, size_t size, bool write, bool atomic, void* pc)
  {
    Thread* t = self;
    if(!ACTIVE || !t || in_rt || t->quiet || t->finished) return;
    in_rt++;
    u64 a = (u64)p;
    check_lifetime(t, a, (int)size, write, pc);
    if(NT > 1)
    {
      while(size > 0)
      {
        int n = 8 - (int)(a & 7);
        if((size_t)n > size) n = (int)size;
        access1(t, a, n, write, atomic, pc);
        a += n; size -= n;
      }
    }
    in_rt--;
  }

  // ---------------------------------------------------------------- scheduling
  bool enabled(Thread* t)
  {
    switch(t->pend)
    {
      case P_RUN: case P_START: return true;
      case P_LOCK: case P_WR:
      {
        Mutex* m = (Mutex*)t->pobj;
        bool free = m->owner < 0;
        if(t->pend == P_WR) { for(int i = 0; i < MAXT; i++) if(m->readers[i]) free = false; }
        if(free || (m->recursive && m->owner == t->id)) return true;
        return t->deadline >= 0 && NOW >= t->deadline;
      }
      case P_RD: return ((Mutex*)t->pobj)->owner < 0 || (t->deadline >= 0 && NOW >= t->deadline);
      case P_SEM: return *(volatile unsigned*)t->pobj > 0 || (t->deadline >= 0 && NOW >= t->deadline);
      case P_COND: case P_SLEEP: return t->signaled || (t->deadline >= 0 && NOW >= t->deadline);
      case P_JOIN: return ((Thread*)t->pobj)->finished;
      case P_FUTEX: return t->signaled || (t->deadline >= 0 && NOW >= t->deadline);
      case P_ONCE: return *(volatile int*)t->pobj != 1;
      case P_DONE: return false;
    }
    return false;
  }

  const char* pend_name(Thread* t)
  {
    switch(t->pend)
    {
      case P_RUN: return "running";
      case P_START: return "starting";
      case P_LOCK: return "waiting for a mutex";
      case P_RD: case P_WR: return "waiting for a rwlock";
      case P_COND: return "waiting on a condition";
      case P_SLEEP: return "sleeping";
      case P_JOIN: return "joining a thread";
      case P_FUTEX: return "waiting for a future";
      case P_SEM: return "waiting for a semaphore";
      case P_ONCE: return "waiting for a once";
      case P_DONE: return "done";
    }
    return "?";
  }

  int take_choice(int n, const u8* cost, const char* label);

  void hand_over(Thread* from, Thread* to)
  {
    if(from == to) return;
    SWITCHES++;
    CUR = to;
    from->park_sp = from->entry_sp ? from->entry_sp : (char*)__builtin_frame_address(0);
    to->baton = 1;
    futex_wake(&to->baton);
    if(!from->finished)
    {
      while(!from->baton) futex_wait(&from->baton, 0);
      from->baton = 0;
      from->park_sp = nullptr;
    }
  }

  void deadlock(Thread* t)
  {
    char buf[1500]; size_t o = 0;
    buf[0] = 0;
    char key[200]; size_t k = snprintf(key, sizeof key, "deadlock");
    for(int i = 0; i < NT; i++)
    {
      if(TH[i].finished) continue;
      char st[300]; describe_stack(st, sizeof st, &TH[i]);
      int owner = (TH[i].pend == P_LOCK) ? ((Mutex*)TH[i].pobj)->owner : -1;
      o += snprintf(buf + o, sizeof buf - o, " thread %d %s", i, pend_name(&TH[i]));
      if(owner >= 0 && o < sizeof buf) o += snprintf(buf + o, sizeof buf - o, " held by thread %d", owner);
      if(o < sizeof buf) o += snprintf(buf + o, sizeof buf - o, "%s;", st);
      if(o >= sizeof buf) { o = sizeof buf - 1; break; }
    }
    (void)k; (void)t;
    violation(key, "no thread can proceed:%s", buf);
  }

  void run_signal(Thread* t)
  {
    SIGLEFT--; SIGCOUNT++;
    IN_SIGNAL = true;
    Pend pend = t->pend; void* pobj = t->pobj; long deadline = t->deadline; const char* where = t->where;
    if(TRACE) fprintf(TRACE, "  signal delivered on thread %d\n", t->id);
    t->last = mix(t->last, 0x51671);
    int savedq = t->quiet; t->quiet = 0;
    int saved = in_rt; in_rt = 0;
    if(SIGFN) SIGFN();
    in_rt = saved;
    t->quiet = savedq;
    t->pend = pend; t->pobj = pobj; t->deadline = deadline; t->where = where;
    IN_SIGNAL = false;
  }

  bool signal_possible() { return (FLAGS & MC_SIGNAL) && SIGLEFT > 0 && SIGFN && !IN_SIGNAL && !TH[0].finished; }

  // The calling thread has set its pending operation; decide who runs next.  Returns when the
  // caller has been chosen (its pending operation is then enabled).
  void reschedule(Thread* t, bool yielding, const char* label)
  {
    t->where = label;
    for(;;)
    {
      if(NPOINTS >= MAXPOINTS - 4 || STEPS > 400000)
        violation("no-progress", "the execution does not terminate (scheduling-point horizon reached)");
      Thread* opt[MAXOPT]; u8 cost[MAXOPT]; int kind[MAXOPT]; int n = 0;
      bool curEnabled = !t->finished && enabled(t);
      bool spin = yielding;
      int other = 0;
      if(curEnabled && !spin) { opt[n] = t; cost[n] = 0; kind[n] = 0; n++; }
      u8 c = (curEnabled && !spin) ? 1 : 0;
      for(int i = 0; i < NT; i++)
      {
        if(&TH[i] == t || TH[i].finished || !enabled(&TH[i])) continue;
        other++;
        if(n < MAXOPT) { opt[n] = &TH[i]; cost[n] = c; kind[n] = 0; n++; }
      }
      if(curEnabled && spin && n < MAXOPT) { opt[n] = t; cost[n] = (other > 0) ? 1 : 0; kind[n] = 0; n++; }
      bool any = n > 0;
      if(any && (FLAGS & MC_EAGER_TIMEOUTS))
      {
        for(int i = 0; i < NT; i++)
        {
          Thread* o = &TH[i];
          if(o->finished || o->deadline < 0 || enabled(o)) continue;
          if(o->pend != P_COND && o->pend != P_SLEEP && o->pend != P_FUTEX && o->pend != P_LOCK && o->pend != P_RD && o->pend != P_WR && o->pend != P_SEM) continue;
          if(n < MAXOPT) { opt[n] = o; cost[n] = 1; kind[n] = 1; n++; }
        }
      }
      if(any && (FLAGS & MC_SPURIOUS))
      {
        for(int i = 0; i < NT; i++)
        {
          Thread* o = &TH[i];
          if(o->finished || o->pend != P_COND || o->signaled || enabled(o)) continue;
          if(n < MAXOPT) { opt[n] = o; cost[n] = 1; kind[n] = 2; n++; }
        }
      }
      if(signal_possible())
      {
        // delivery on the main thread: possible while it runs and while it is blocked
        if(n < MAXOPT && any) { opt[n] = &TH[0]; cost[n] = 0; kind[n] = 3; n++; }
      }
      if(!any)
      {
        long best = -1;
        for(int i = 0; i < NT; i++)
        {
          Thread* o = &TH[i];
          if(o->finished || o->deadline < 0) continue;
          if(best < 0 || o->deadline < best) best = o->deadline;
        }
        if(best < 0)
        {
          if(signal_possible())
          {
            opt[0] = &TH[0]; cost[0] = 0; kind[0] = 3; n = 1;
          }
          else
          {
            deadlock(t);
          }
        }
        else
        {
          // quiescent: only time can pass (or the signal arrives before it does)
          if(signal_possible())
          {
            u8 cc[2] = {0, 0};
            if((SIGDEADLINE > 0 && NOW >= SIGDEADLINE && SIGCOUNT == 0) || take_choice(2, cc, "signal-while-idle") == 1) { opt[0] = &TH[0]; kind[0] = 3; n = 1; }
          }
          if(n == 0 && (FLAGS & MC_SPURIOUS))
          {
            Thread* so[MAXOPT]; u8 sc[MAXOPT]; int sn = 1; sc[0] = 0;
            for(int i = 0; i < NT; i++)
            {
              Thread* o = &TH[i];
              if(o->finished || o->pend != P_COND || o->signaled || enabled(o)) continue;
              if(sn < MAXOPT) { so[sn] = o; sc[sn] = 1; sn++; }
            }
            int sk = sn > 1 ? take_choice(sn, sc, "wake-up-while-idle") : 0;
            if(sk > 0) { opt[0] = so[sk]; kind[0] = 2; n = 1; }
          }
          if(n == 0)
          {
            if(best > NOW) NOW = best;
            if(TRACE) fprintf(TRACE, "  time advances to %ld ms\n", NOW / 1000000);
            if(NOW > VTIME_LIMIT_NS)
            {
              char buf[1200]; size_t o = 0; buf[0] = 0;
              for(int i = 0; i < NT; i++)
              {
                if(TH[i].finished) continue;
                char st[300]; describe_stack(st, sizeof st, &TH[i]);
                o += snprintf(buf + o, sizeof buf - o, " thread %d %s%s;", i, pend_name(&TH[i]), st);
                if(o >= sizeof buf) break;
              }
              violation("no-progress", "the execution does not terminate (virtual time horizon):%s", buf);
            }
            continue;
          }
        }
      }
      int k = 0;
      if(n > 1)
      {
        k = take_choice(n, cost, label);
      }
      Thread* next = opt[k];
      if(kind[k] == 1)
      {
        if(next->deadline > NOW) NOW = next->deadline;
        ev(next, 0x71, OBJ_CLOCK, true);
        if(TRACE) fprintf(TRACE, "  thread %d: wait expires early (now %ld ms)\n", next->id, NOW / 1000000);
      }
      else if(kind[k] == 2)
      {
        next->signaled = true; next->timedout = false;
        ev(next, 0x72, canon(((Cond*)next->pobj)->addr), true);
      }
      else if(kind[k] == 3)
      {
        if(t == next) { run_signal(t); continue; }
        // deliver on thread 0: it must run the handler although it may be blocked
        Thread* z = &TH[0];
        z->ret = (void*)1;   // request: run handler when resumed
        if(TRACE) fprintf(TRACE, "  switch to thread 0 for the signal\n");
        hand_over(t, z);
        if(t->finished) return;
        if(t->id == 0 && t->ret == (void*)1) { t->ret = nullptr; run_signal(t); continue; }
        // resumed normally: we have been chosen
        if(!enabled(t)) continue;
        return;
      }
      if(TRACE && next != t) fprintf(TRACE, "  -> thread %d (%s)\n", next->id, next->where ? next->where : "");
      if(next == t) return;
      hand_over(t, next);
      if(t->finished) return;
      if(t->id == 0 && t->ret == (void*)1) { t->ret = nullptr; run_signal(t); continue; }
      return;
    }
  }

  int take_choice(int n, const u8* cost, const char* label)
  {
    if(n > MAXOPT) engine_error("too many options at %s", label);
    if(NPOINTS >= MAXPOINTS - 2) violation("no-progress", "the execution does not terminate (choice horizon reached)");
    int k = 0;
    if(NPOINTS < PREFIXLEN)
    {
      int en = PREFIX[2 * NPOINTS];
      k = PREFIX[2 * NPOINTS + 1];
      if(en != n)
      {
        in_rt++;
        snprintf(SLOT->msg, sizeof SLOT->msg, "replay diverged at choice %d (%s): %d options, expected %d", NPOINTS, label, n, en);
        finish(ST_DIVERGED);
      }
    }
    else if(!REPLAY)
    {
      u64 key = mix(mix(state_key(), (u64)(CUR ? CUR->id : 99)), hashstr(label));
      key = mix(key, n);
      bool full = false;
      if(!vis_insert(key, full)) finish(ST_PRUNED);
      SLOT->newstates++;
      if(full) __sync_fetch_and_add(&SH->vis_full, 1);
    }
    Point& p = SLOT->pts[NPOINTS];
    p.n = (u8)n; p.chosen = (u8)k; p.nc = 0;
    for(int i = 0; i < n && i < MAXOPT; i++) p.cost[i] = cost ? cost[i] : 0;
    NPOINTS++;
    if(TRACE) fprintf(TRACE, "[%d] t=%ldms thread %d %s: option %d of %d\n", NPOINTS - 1, NOW / 1000000, CUR ? CUR->id : -1, label, k, n);
    return k;
  }

  bool managed() { return ACTIVE && self && !in_rt && !self->finished; }

  // scheduling point before an operation that is always enabled
  void point(const char* label)
  {
    Thread* t = self;
    t->pend = P_RUN; t->deadline = -1;
    reschedule(t, false, label);
  }

  // ---------------------------------------------------------------- sync objects
  const u64 MAGIC = 0x4d43aa5500000000ull;

  Mutex* mutex_of(void* addr, size_t tagoff, bool recursive)
  {
    u64* tag = (u64*)((char*)addr + tagoff);
    if((*tag & 0xffffffff00000000ull) == MAGIC)
    {
      u32 id = (u32)*tag;
      if(id < (u32)NMX && MX[id].addr == addr)
      {
        if(MX[id].dead) violation("dead-mutex", "use of a destroyed mutex");
        return &MX[id];
      }
    }
    else if(*tag != 0)
    {
      violation("dead-mutex", "lock operation on memory that is not a live mutex (tag %llx)", (unsigned long long)*tag);
    }
    if(NMX >= 4096) engine_error("too many mutexes");
    Mutex* m = &MX[NMX];
    memset(m, 0, sizeof *m);
    m->addr = addr; m->owner = -1; m->recursive = recursive;
    *tag = MAGIC | (u32)NMX;
    NMX++;
    return m;
  }
  Mutex* mutex_of(pthread_mutex_t* p)
  {
    int kind = p->__data.__kind & 3;
    return mutex_of(p, 24, kind == PTHREAD_MUTEX_RECURSIVE);
  }
  Mutex* rw_of(pthread_rwlock_t* p) { return mutex_of(p, 40, false); }

  Cond* cond_of(pthread_cond_t* p)
  {
    u64* tag = (u64*)((char*)p + 40);
    if((*tag & 0xffffffff00000000ull) == MAGIC)
    {
      u32 id = (u32)*tag;
      if(id < (u32)NCV && CV[id].addr == p)
      {
        if(CV[id].dead) violation("dead-condition", "use of a destroyed condition variable");
        return &CV[id];
      }
    }
    if(NCV >= 512) engine_error("too many condition variables");
    Cond* c = &CV[NCV];
    memset(c, 0, sizeof *c);
    c->addr = p;
    *tag = MAGIC | (u32)NCV;
    NCV++;
    return c;
  }

  void sync_lifetime(void* p, const char* what)
  {
    (void)what;
    if(!self->quiet) check_lifetime(self, (u64)p, 8, true, __builtin_return_address(0));
  }

  void do_acquire(Thread* t, Mutex* m, const char* label)
  {
    (void)label;
    m->owner = t->id; m->count++;
    vc_join(t->vc, m->vc);
    ev(t, 0x10, canon(m->addr), true);
  }
  void do_release(Thread* t, Mutex* m)
  {
    m->count--;
    if(m->count <= 0) { m->owner = -1; m->count = 0; }
    vc_join(m->vc, t->vc);
    t->vc.c[t->id]++;
    ev(t, 0x11, canon(m->addr), true);
  }

  const long BASE_NS = 1000000000L * 1000;
  const long FAR_S = 4000000000L;   // beyond every horizon
  long ts_ns(const timespec* ts) { return (ts->tv_sec > FAR_S ? FAR_S : ts->tv_sec < -FAR_S ? -FAR_S : ts->tv_sec) * 1000000000L + ts->tv_nsec; }
  bool wall(clockid_t k) { return k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE || k == CLOCK_TAI; }
  // the virtual time of an absolute deadline on one of the two clocks
  long dl(long ns, bool rt) { long d = ns - BASE_NS - (rt ? RT_OFF : 0); return d < 0 ? 0 : d; }

  int lock_mutex(pthread_mutex_t* p, long deadline, bool rt = false)
  {
    Thread* t = self;
    RT_ENTER;
    sync_lifetime(p, "lock");
    Mutex* m = mutex_of(p);
    t->pend = P_LOCK; t->pobj = m; t->deadline = deadline; t->rt = rt;
    reschedule(t, false, "lock");
    t->pend = P_RUN; t->deadline = -1;
    if(m->dead) violation("dead-mutex", "mutex destroyed while a thread waits for it");
    int rc = 0;
    if(m->owner >= 0 && !(m->recursive && m->owner == t->id)) { ev(t, 0x12, OBJ_CLOCK, false); rc = ETIMEDOUT; }
    else do_acquire(t, m, "lock");
    in_rt--;
    return rc;
  }


  int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* mp, long deadline, bool rt = false)
  {
    Thread* t = self;
    RT_ENTER;
    sync_lifetime(c, "wait");
    Cond* cv = cond_of(c);
    Mutex* m = mutex_of(mp);
    // scheduling point before the wait: the predicate has been read, the mutex is still held
    t->pend = P_RUN; t->deadline = -1;
    reschedule(t, false, "cond-wait-enter");
    ev(t, 0x20, canon(cv->addr), true);
    int savedcount = m->count;
    m->count = 1;
    do_release(t, m);
    t->pend = P_COND; t->pobj = cv; t->deadline = deadline; t->rt = rt; t->signaled = false; t->timedout = false;
    cv->waiters[cv->nwait++] = t->id;
    reschedule(t, false, "cond-wait");
    bool signaled = t->signaled;
    if(cv->dead) violation("dead-condition", "condition variable destroyed while a thread waits on it");
    if(!signaled)
    {
      for(int i = 0; i < cv->nwait; i++) if(cv->waiters[i] == t->id) { cv->waiters[i] = cv->waiters[--cv->nwait]; break; }
      ev(t, 0x21, OBJ_CLOCK, false);
      ev(t, 0x21, canon(cv->addr), true);
    }
    else
    {
      // a spurious wake-up leaves the entry in place
      for(int i = 0; i < cv->nwait; i++) if(cv->waiters[i] == t->id) { cv->waiters[i] = cv->waiters[--cv->nwait]; break; }
      ev(t, 0x22, canon(cv->addr), false);
    }
    t->signaled = false; t->deadline = -1;
    t->pend = P_LOCK; t->pobj = m;
    reschedule(t, false, "cond-relock");
    t->pend = P_RUN;
    do_acquire(t, m, "relock");
    m->count = savedcount;
    in_rt--;
    return signaled ? 0 : ETIMEDOUT;
  }

  void cond_notify(pthread_cond_t* c, bool all)
  {
    Thread* t = self;
    RT_ENTER;
    sync_lifetime(c, "notify");
    t->pend = P_RUN; t->deadline = -1;
    reschedule(t, false, all ? "notify-all" : "notify-one");
    sync_lifetime(c, "notify");
    Cond* cv = cond_of(c);
    ev(t, 0x23, canon(cv->addr), true);
    if(all)
    {
      for(int i = 0; i < cv->nwait; i++) TH[cv->waiters[i]].signaled = true;
      cv->nwait = 0;
    }
    else if(cv->nwait > 0)
    {
      int k = 0;
      if(cv->nwait > 1)
      {
        // canonical order for the choice
        for(int i = 0; i < cv->nwait; i++) for(int j = i + 1; j < cv->nwait; j++)
          if(cv->waiters[j] < cv->waiters[i]) { int x = cv->waiters[i]; cv->waiters[i] = cv->waiters[j]; cv->waiters[j] = x; }
        k = take_choice(cv->nwait, nullptr, "notify-target");
        t->last = mix(t->last, 0x900 + k);
      }
      int w = cv->waiters[k];
      TH[w].signaled = true;
      cv->waiters[k] = cv->waiters[--cv->nwait];
    }
    in_rt--;
  }

  // ---------------------------------------------------------------- memory
  struct Hdr { u64 magic; u64 size; };
  const u64 HMAGIC = 0x6d63686561703031ull;

  // MC_REUSE: what a thread freed last it gets again for the next block of that size, as from a usual allocator
  const int FREED_MAX = 2048;
  struct Freed { void* p[FREED_MAX]; int n; };
  Freed FREED[MAXT];

  void* arena_reuse(Thread* t, size_t size)
  {
    Freed& f = FREED[t->id];
    size_t nb = (size + 15) >> 4; if(nb == 0) nb = 1;
    for(int i = f.n - 1; i >= 0; i--)
    {
      Hdr* h = (Hdr*)((char*)f.p[i] - sizeof(Hdr));
      size_t have = (h->size + 15) >> 4; if(have == 0) have = 1;
      if(have != nb) continue;
      char* u = (char*)f.p[i];
      memmove(f.p + i, f.p + i + 1, (f.n - i - 1) * sizeof(void*)); f.n--;
      h->size = size;
      for(u64 a = (u64)u; a < (u64)u + nb * 16; a += 8)
      {
        Cell* c = cell(a >> 3, false);
        if(c) for(int k = 0; k < NACC; k++) c->a[k].used = 0;
      }
      memset(u, 0xCD, nb * 16);
      memset(FREEMAP + ((size_t)(u - ARENA) >> 4), 1, nb);
      t->last = mix(t->last, (u64)u);
      HEAPBLOCKS++;
      return u;
    }
    return nullptr;
  }

  void* arena_alloc(size_t size)
  {
    Thread* t = self;
    if(FLAGS & MC_REUSE) { void* r = arena_reuse(t, size); if(r) return r; }
    size_t total = sizeof(Hdr) + ((size + 15) & ~size_t(15)) + 16;   // 16 bytes redzone behind
    if(t->arena_cur + total > t->arena_end) engine_error("arena exhausted");
    char* p = t->arena_cur;
    t->arena_cur += total;
    Hdr* h = (Hdr*)p;
    h->magic = HMAGIC; h->size = size;
    char* u = p + sizeof(Hdr);
    memset(u, 0xCD, (size + 15) & ~size_t(15));
    size_t i0 = (size_t)(u - ARENA) >> 4;
    size_t nb = (size + 15) >> 4; if(nb == 0) nb = 1;
    memset(FREEMAP + i0, 1, nb);
    HEAPBLOCKS++;
    return u;
  }

  void arena_free(void* p, void* pc)
  {
    Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
    size_t i0 = (size_t)((char*)p - ARENA) >> 4;
    if(ACTIVE && self && self->managed)
    {
      if(h->magic != HMAGIC || FREEMAP[i0] == 0)
        violation("bad-free", "delete of a pointer that is not a heap block, pc @%p", pc);
      if(FREEMAP[i0] == 2)
        violation("double-free", "double delete of a heap block, pc @%p", pc);
      // freeing conflicts with every unordered access to the block
      if(!in_rt && NT > 1 && !self->quiet)
      {
        u64 a = (u64)p; size_t size = h->size;
        in_rt++;
        for(size_t o = 0; o < size; o += 8)
        {
          if(!cell((a + o) >> 3, false)) continue;
          size_t n = size - o < 8 ? size - o : 8;
          access1(self, a + o, (int)n, true, false, pc);
        }
        in_rt--;
      }
      for(int i = 0; i < NMX; i++)
      {
        if((char*)MX[i].addr >= (char*)p && (char*)MX[i].addr < (char*)p + h->size && !MX[i].dead)
        {
          if(MX[i].owner >= 0) { in_rt++; violation("dead-mutex", "a locked mutex is destroyed (held by thread %d)", MX[i].owner); }
          MX[i].dead = true;
        }
      }
    }
    size_t nb = (h->size + 15) >> 4; if(nb == 0) nb = 1;
    memset(FREEMAP + i0, 2, nb);
    memset(p, 0xDD, h->size);
    if((FLAGS & MC_REUSE) && ACTIVE && self && self->managed && FREED[self->id].n < FREED_MAX) FREED[self->id].p[FREED[self->id].n++] = p;
    HEAPBLOCKS--;
  }

  void* mc_new(size_t n)
  {
    if(ACTIVE && self && self->managed && !self->finished)
    {
      if(IN_SIGNAL && self->id == 0 && !self->quiet) violation("unsafe-in-signal", "memory is allocated inside a signal handler, which may have interrupted the allocator itself");
      return arena_alloc(n);
    }
    void* p = malloc(n ? n : 1);
    if(!p) abort();
    return p;
  }
  void mc_delete(void* p, void* pc)
  {
    if(!p) return;
    if(in_arena(p)) arena_free(p, pc);
    else free(p);
  }

  // ---------------------------------------------------------------- crash handling
  // A hang is an execution that burns processor time, or sleeps for very long outside
  // the scheduler. The wall clock alone says little on a busy machine.
  int HANGTICKS;
  bool is_hang()
  {
    timespec ts; real_clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    HANGTICKS++;
    return ts.tv_sec >= 12 || HANGTICKS >= 12;
  }

  void on_crash(int sig)
  {
    if(sig == SIGALRM && !is_hang()) { int e = errno; alarm(10); errno = e; return; }
    if(SLOT && getpid() == CHILDPID && SLOT->status == ST_RUNNING)
    {
      const char* n = sig == SIGSEGV ? "segmentation fault" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "arithmetic fault" : sig == SIGBUS ? "bus error" : sig == SIGALRM ? "hang" : "illegal instruction";
      char key[100];
      snprintf(key, sizeof key, sig == SIGALRM ? "hang" : "crash-%s", sig == SIGSEGV ? "segv" : sig == SIGABRT ? "abort" : "fault");
      if(SLOT->msg[0])
      {
        char tmp[1000]; snprintf(tmp, sizeof tmp, "%s", SLOT->msg);
        in_rt++; ACTIVE = false;
        violation(key, "%s: %s", n, tmp);
      }
      violation(key, "%s", n);
    }
    _exit(99);
  }

  void on_terminate()
  {
    if(SLOT && getpid() == CHILDPID)
    {
      in_rt++;
      const char* what = "std::terminate called";
      char buf[900]; buf[0] = 0;
      std::type_info* ti = abi::__cxa_current_exception_type();
      if(ti)
      {
        int st = 0;
        char* dn = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
        snprintf(buf, sizeof buf, "an exception of type %s escaped", dn ? dn : ti->name());
        what = buf;
        try { std::rethrow_exception(std::current_exception()); }
        catch(std::exception& e) { size_t l = strlen(buf); snprintf(buf + l, sizeof buf - l, " (%s)", e.what()); }
        catch(...) {}
      }
      snprintf(SLOT->msg, sizeof SLOT->msg, "%s", what);
    }
    abort();
  }

  // ---------------------------------------------------------------- one execution
  void setup_child_memory()
  {
    ARENA = (char*)mmap(nullptr, ARENA_TOTAL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    STACKS = (char*)mmap(nullptr, STACK_PER_THREAD * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    FREEMAP = (u8*)mmap(nullptr, ARENA_TOTAL >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    OBJ = (Obj*)mmap(nullptr, sizeof(Obj) * OBJ_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    CELL = (Cell*)mmap(nullptr, sizeof(Cell) * CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }

  void run_execution(const mc_scenario* s, Slot* slot, const u8* prefix, int plen, bool replay)
  {
    // in the child
    SLOT = slot; PREFIX = prefix; PREFIXLEN = plen; REPLAY = replay; FLAGS = s->flags;
    CHILDPID = getpid();
    NPOINTS = 0; NOW = 0; RT_OFF = 0; STEPS = SWITCHES = 0; NT = 1; NMX = NCV = 0; SIGLEFT = 1; SIGCOUNT = 0; SIGDEADLINE = 0; HEAPBLOCKS = 0;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
    static char altstack[65536];
    stack_t ss; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM};
    for(int g : sigs) { sa.sa_flags = SA_NODEFER | SA_ONSTACK | (g == SIGALRM ? SA_RESTART : 0); sigaction(g, &sa, nullptr); }
    std::set_terminate(on_terminate);
    HANGTICKS = 0;
    alarm(10);
    Thread* t = &TH[0];
    memset(t, 0, sizeof *t);
    t->id = 0; t->managed = true; t->pend = P_RUN; t->deadline = -1; t->vc.c[0] = 1; t->last = 0x5eed;
    t->arena = ARENA; t->arena_cur = ARENA; t->arena_end = ARENA + ARENA_PER_THREAD;
    pthread_attr_t at; void* lo; size_t sz;
    pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz);
    t->stack_lo = (char*)lo; t->stack_hi = (char*)lo + sz;
    self = t; CUR = t;
    ACTIVE = true;
    s->body();
    in_rt++;
    // the body must have joined everything it started
    for(int i = 1; i < NT; i++)
      if(!TH[i].finished && !TH[i].detached) violation("thread-leak", "thread %d still runs when the scenario ends (%s)", i, pend_name(&TH[i]));
    ACTIVE = false;
    finish(ST_OK);
  }

  struct Start { Thread* t; };

  void* thread_main(void* a)
  {
    Thread* t = (Thread*)a;
    self = t;
    in_rt = 1;
    while(!t->baton) futex_wait(&t->baton, 0);
    t->baton = 0; t->park_sp = nullptr;
    t->pend = P_RUN;
    ev(t, 0x31, 0x5000 + t->id, true);
    in_rt = 0;
    t->ret = t->fn(t->arg);
    in_rt = 1;
    // exit
    t->vc.c[t->id]++;
    ev(t, 0x32, 0x5000 + t->id, true);
    t->finished = true;
    t->pend = P_DONE;
    if(TRACE) fprintf(TRACE, "  thread %d finished\n", t->id);
    reschedule(t, false, "thread-exit");
    return t->ret;
  }

  // ---------------------------------------------------------------- explorer (parent side)
  const mc_scenario* SCEN;

  bool selected(const char* list, const char* name)
  {
    size_t n = strlen(name);
    for(const char* p = list; p && *p;)
    {
      const char* e = strchr(p, ',');
      size_t l = e ? (size_t)(e - p) : strlen(p);
      if(l == n && strncmp(p, name, n) == 0) return true;
      p = e ? e + 1 : nullptr;
    }
    return false;
  }

  Item* new_item(int len)
  {
    u64 sz = (sizeof(Item) + 2 * (u64)len + 15) & ~15ull;
    u64 off = __sync_fetch_and_add(&SH->pool_used, sz);
    if(off + sz > SH->pool_size) return nullptr;
    return (Item*)(SH->pool + off);
  }

  int run_child(Slot* slot, const u8* prefix, int plen, bool replay, const char* tracefile)
  {
    slot->status = ST_RUNNING; slot->npoints = 0; slot->key[0] = slot->msg[0] = slot->outcome[0] = 0; slot->newstates = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if(pid == 0)
    {
      if(tracefile) { TRACE = fopen(tracefile, "w"); }
      run_execution(SCEN, slot, prefix, plen, replay);
      _exit(0);
    }
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if(slot->status == ST_RUNNING)
    {
      snprintf(slot->key, sizeof slot->key, "crash-unknown");
      snprintf(slot->msg, sizeof slot->msg, "the execution died (wait status 0x%x)", st);
      slot->status = ST_VIOLATION;
    }
    return slot->status;
  }

  // turns @0x... tokens into symbols: writes into out
  void symbolize(const char* in, char* out, size_t n)
  {
    size_t o = 0;
    char exe[512]; ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 1); if(l < 0) l = 0; exe[l] = 0;
    while(*in && o + 1 < n)
    {
      if(in[0] == '@' && in[1] == '0' && in[2] == 'x')
      {
        char* end; u64 pc = strtoull(in + 1, &end, 16);
        in = end;
        Dl_info di;
        char cmd[900];
        bool done = false;
        if(pc && dladdr((void*)pc, &di) && di.dli_fname)
        {
          u64 base = (u64)di.dli_fbase;
          const char* file = di.dli_fname;
          if(strstr(file, "libmc") == nullptr)
          {
            snprintf(cmd, sizeof cmd, "addr2line -C -f -s -e '%s' 0x%llx 2>/dev/null", strchr(file, '/') ? file : exe, (unsigned long long)(pc - base - 1));
            FILE* f = popen(cmd, "r");
            if(f)
            {
              char fn[600] = "", loc[200] = "";
              if(fgets(fn, sizeof fn, f) && fgets(loc, sizeof loc, f))
              {
                fn[strcspn(fn, "\n")] = 0; loc[strcspn(loc, "\n")] = 0;
                char* par = strchr(fn, '('); if(par && par > fn && par[-1] != ':') *par = 0;
                if(strlen(fn) > 90) strcpy(fn + 87, "...");
                char* d = strstr(loc, " (disc"); if(d) *d = 0;
                o += snprintf(out + o, n - o, "%s(%s)", fn, loc);
                done = true;
              }
              pclose(f);
            }
          }
        }
        if(!done) o += snprintf(out + o, n - o, "?");
        if(o >= n) o = n - 1;
        continue;
      }
      out[o++] = *in++;
    }
    out[o] = 0;
  }

  double now_s() { timespec ts; real_clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

  const char* KNOWN[64]; int NKNOWN;

  bool is_known(const char* key)
  {
    for(int i = 0; i < NKNOWN; i++) if(strcmp(KNOWN[i], key) == 0) return true;
    return false;
  }

  void record_outcome(const char* s)
  {
    for(int i = 0; i < SH->nout; i++) if(strcmp(SH->out[i], s) == 0) { SH->outcount[i]++; return; }
    if(SH->nout < MAXOUT) { snprintf(SH->out[SH->nout], 512, "%s", s); SH->outcount[SH->nout] = 1; SH->nout++; }
  }

  void worker(int wid, double deadline, u64 maxexec, int bound)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    cpu_set_t set; CPU_ZERO(&set);
    cpu_set_t all; sched_getaffinity(0, sizeof all, &all);
    int ncpu = CPU_COUNT(&all), want = wid % (ncpu ? ncpu : 1), seen = 0;
    for(int i = 0; i < CPU_SETSIZE; i++) if(CPU_ISSET(i, &all)) { if(seen == want) { CPU_SET(i, &set); break; } seen++; }
    sched_setaffinity(0, sizeof set, &set);
    Slot* slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for(;;)
    {
      sh_lock();
      if(SH->stop) { sh_unlock(); break; }
      int lv = SH->level;
      Item* it = SH->levels[lv];
      if(it) { SH->levels[lv] = it->next; SH->pending[lv]--; SH->active++; sh_unlock(); }
      else if(SH->active > 0) { sh_unlock(); timespec ts = {0, 200000}; real_nanosleep(&ts, nullptr); continue; }
      else
      {
        SH->completed_bound = lv;
        // anything left above?
        int nx = lv + 1;
        while(nx < MAXLEVEL && !SH->levels[nx]) nx++;
        if(nx >= MAXLEVEL) { SH->exhausted = 1; sh_unlock(); break; }
        if(lv >= bound) { sh_unlock(); break; }
        if(nx > bound) { SH->completed_bound = bound; sh_unlock(); break; }
        SH->level = nx;
        sh_unlock();
        continue;
      }
      int retries = 0;
    again:
      int st = run_child(slot, it->data, it->len, retries > 0, nullptr);
      if(st == ST_VIOLATION)
      {
        // replay before report
        static u8 full[MAXPOINTS * 2];
        int np = slot->npoints;
        for(int i = 0; i < np; i++) { full[2 * i] = slot->pts[i].n; full[2 * i + 1] = slot->pts[i].chosen; }
        static char key[512], skey[1500], msg[6000];
        snprintf(key, sizeof key, "%s", slot->key);
        if(np == 0 && slot->pts[0].n == 0) {}
        symbolize(key, skey, sizeof skey);
        // strip line numbers from keys so that they name call sites by function
        { char* w = skey; for(char* r = skey; *r;) { if(*r == '(' ) { char* e = strchr(r, ')'); if(e && strchr(r, ':') && strchr(r, ':') < e) { r = e + 1; continue; } } *w++ = *r++; } *w = 0; }
        char fk[512]; snprintf(fk, sizeof fk, "%.200s: %.300s", SCEN->name, skey);
        symbolize(slot->msg, msg, sizeof msg);
        if(is_known(fk))
        {
          sh_lock();
          int k = -1;
          for(int i = 0; i < SH->nknown; i++) if(strcmp(SH->known[i], fk) == 0) k = i;
          if(k < 0 && SH->nknown < 64) { k = SH->nknown++; snprintf(SH->known[k], 512, "%s", fk); SH->knowncount[k] = 0; snprintf(SH->knownmsg[k], 1000, "%.990s", msg); }
          if(k >= 0) SH->knowncount[k]++;
          sh_unlock();
        }
        else
        {
          int st2 = run_child(slot, full, np, true, nullptr);
          // a machine under heavy load can make an execution look stuck: explore it again, whole
          if(strcmp(key, "hang") == 0 && !(st2 == ST_VIOLATION && strcmp(slot->key, key) == 0) && retries++ < 3) goto again;
          sh_lock();
          if(st2 == ST_VIOLATION && strcmp(slot->key, key) == 0)
          {
            if(SH->stop != 1)
            {
              SH->stop = 1;
              snprintf(SH->vkey, sizeof SH->vkey, "%s", fk);
              snprintf(SH->vmsg, sizeof SH->vmsg, "%s", msg);
              SH->vlen = np; memcpy(SH->vdata, full, 2 * np);
            }
          }
          else if(SH->stop == 0)
          {
            SH->stop = 3;
            snprintf(SH->vmsg, sizeof SH->vmsg, "violation '%.1500s' (%.1500s) did not reproduce on replay (status %d, %.1000s)", key, msg, st2, slot->msg);
          }
          SH->active--;
          sh_unlock();
          break;
        }
      }
      else if(st == ST_DIVERGED || st == ST_ENGINE)
      {
        sh_lock();
        if(SH->stop == 0) { SH->stop = 3; snprintf(SH->vmsg, sizeof SH->vmsg, "%.5000s", slot->msg); }
        SH->active--;
        sh_unlock();
        break;
      }
      // expand
      Item* fresh[MAXLEVEL]; memset(fresh, 0, sizeof fresh);
      u64 nfresh[MAXLEVEL]; memset(nfresh, 0, sizeof nfresh);
      int base = it->cost;
      bool oom = false;
      for(int i = it->len; i < slot->npoints && !oom; i++)
      {
        Point& p = slot->pts[i];
        for(int alt = 1; alt < p.n; alt++)
        {
          int c = base + p.cost[alt];
          if(c > bound + 1) continue;
          if(c > bound)
          {
            // remember only that something exists beyond the bound
            if(nfresh[bound + 1] == 0)
            {
              Item* q = new_item(1);
              if(!q) { oom = true; break; }
              q->len = 0; q->cost = c; q->next = nullptr;
              fresh[bound + 1] = q; nfresh[bound + 1] = 1;
            }
            continue;
          }
          Item* q = new_item(i + 1);
          if(!q) { oom = true; break; }
          q->len = i + 1; q->cost = c;
          for(int j = 0; j < i; j++) { q->data[2 * j] = slot->pts[j].n; q->data[2 * j + 1] = slot->pts[j].chosen; }
          q->data[2 * i] = p.n; q->data[2 * i + 1] = (u8)alt;
          q->next = fresh[c]; fresh[c] = q; nfresh[c]++;
        }
      }
      sh_lock();
      for(int l = 0; l < MAXLEVEL; l++)
      {
        if(!fresh[l]) continue;
        if(l > bound && SH->levels[l]) continue;
        Item* tail = fresh[l]; while(tail->next) tail = tail->next;
        tail->next = SH->levels[l]; SH->levels[l] = fresh[l]; SH->pending[l] += nfresh[l];
      }
      SH->executions++;
      if(st == ST_PRUNED) SH->pruned++;
      SH->steps += slot->steps; SH->switches += slot->switches; SH->states += slot->newstates;
      if((u64)slot->npoints > SH->maxpoints) SH->maxpoints = slot->npoints;
      if(slot->heap_peak > SH->heap_peak) SH->heap_peak = slot->heap_peak;
      if(st == ST_OK) record_outcome(slot->outcome);
      if(oom && !SH->stop) SH->stop = 2;
      if((now_s() > deadline || SH->executions >= maxexec) && !SH->stop) SH->stop = 2;
      SH->active--;
      sh_unlock();
    }
    _exit(0);
  }

  void json_str(FILE* f, const char* s)
  {
    fputc('"', f);
    for(; *s; s++)
    {
      u8 c = (u8)*s;
      if(c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
      else if(c < 32 || c > 126) fprintf(f, "\\u%04x", c);
      else fputc(c, f);
    }
    fputc('"', f);
  }

  int explore(const mc_scenario* s, int bound, double cap, u64 maxexec, int nworkers, FILE* out, bool first)
  {
    SCEN = s;
    if(bound > MAXLEVEL - 3) bound = MAXLEVEL - 3;
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    u64 poolsz = 4ull << 30;
    char* pool = (char*)mmap(nullptr, poolsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    SH->pool = pool; SH->pool_size = poolsz;
    VIS = (Vis*)mmap(nullptr, sizeof(Vis) * VIS_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    SH->completed_bound = -1;
    Item* root = new_item(1);
    root->len = 0; root->cost = 0; root->next = nullptr;
    SH->levels[0] = root; SH->pending[0] = 1;
    double t0 = now_s();
    double deadline = t0 + cap;
    pid_t pids[64];
    for(int i = 0; i < nworkers; i++)
    {
      fflush(nullptr);
      pids[i] = fork();
      if(pids[i] == 0) { worker(i, deadline, maxexec, bound); _exit(0); }
    }
    for(int i = 0; i < nworkers; i++)
    {
      int st;
      while(waitpid(pids[i], &st, 0) < 0 && errno == EINTR) {}
      if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && SH->stop == 0) { SH->stop = 3; snprintf(SH->vmsg, sizeof SH->vmsg, "worker died, status 0x%x", st); }
    }
    double wall = now_s() - t0;
    if(!first) fprintf(out, ",\n");
    fprintf(out, "{\"scenario\": "); json_str(out, s->name);
    fprintf(out, ", \"what\": "); json_str(out, s->what ? s->what : "");
    fprintf(out, ", \"bound\": %d, \"completed_bound\": %d, \"exhausted\": %s, \"capped\": %s", bound, SH->completed_bound, SH->exhausted ? "true" : "false", SH->stop == 2 ? "true" : "false");
    fprintf(out, ", \"executions\": %llu, \"pruned\": %llu, \"states\": %llu, \"transitions\": %llu, \"context_switches\": %llu, \"max_choice_depth\": %llu, \"hash_full\": %llu, \"wall_s\": %.2f",
            (unsigned long long)SH->executions, (unsigned long long)SH->pruned, (unsigned long long)SH->states, (unsigned long long)SH->steps, (unsigned long long)SH->switches,
            (unsigned long long)SH->maxpoints, (unsigned long long)SH->vis_full, wall);
    fprintf(out, ", \"outcomes\": {");
    for(int i = 0; i < SH->nout; i++) { if(i) fprintf(out, ", "); json_str(out, SH->out[i]); fprintf(out, ": %llu", (unsigned long long)SH->outcount[i]); }
    fprintf(out, "}, \"known\": {");
    for(int i = 0; i < SH->nknown; i++) { if(i) fprintf(out, ", "); json_str(out, SH->known[i]); fprintf(out, ": "); json_str(out, SH->knownmsg[i]); }
    fprintf(out, "}, \"status\": \"%s\"", SH->stop == 1 ? "violation" : SH->stop == 3 ? "error" : "ok");
    if(SH->stop == 1)
    {
      fprintf(out, ", \"key\": "); json_str(out, SH->vkey);
      fprintf(out, ", \"message\": "); json_str(out, SH->vmsg);
      fprintf(out, ", \"choices\": [");
      for(int i = 0; i < SH->vlen; i++) fprintf(out, "%s[%d,%d]", i ? "," : "", SH->vdata[2 * i], SH->vdata[2 * i + 1]);
      fprintf(out, "]");
    }
    else if(SH->stop == 3) { fprintf(out, ", \"message\": "); json_str(out, SH->vmsg); }
    fprintf(out, "}");
    fflush(out);
    int rc = SH->stop == 1 ? 1 : SH->stop == 3 ? 2 : 0;
    munmap(pool, poolsz);
    munmap(VIS, sizeof(Vis) * VIS_SIZE);
    munmap(SH, sizeof(Shared));
    return rc;
  }
}  // namespace

// ====================================================================== interposed functions

EXPORT int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
  if(!managed()) { resolve_all(); return real_create(th, attr, fn, arg); }
  RT_ENTER;
  if(NT >= MAXT) engine_error("too many threads");
  Thread* p = self;
  Thread* t = &TH[NT];
  memset(t, 0, sizeof *t);
  t->id = NT; t->managed = true; t->pend = P_START; t->deadline = -1; t->fn = fn; t->arg = arg;
  t->vc = p->vc; t->vc.c[t->id] = 1;
  p->vc.c[p->id]++;
  t->arena = t->arena_cur = ARENA + ARENA_PER_THREAD * t->id; t->arena_end = t->arena + ARENA_PER_THREAD;
  t->stack_lo = STACKS + STACK_PER_THREAD * t->id; t->stack_hi = t->stack_lo + STACK_PER_THREAD;
  ev(p, 0x30, 0x5000 + t->id, true);
  t->last = mix(p->last, 0xabc);
  NT++;
  pthread_attr_t at; pthread_attr_init(&at);
  pthread_attr_setstack(&at, t->stack_lo, STACK_PER_THREAD);
  int rc = real_create(&t->real, &at, thread_main, t);
  if(rc) engine_error("pthread_create failed: %d", rc);
  pthread_attr_destroy(&at);
  t->handle = t->real;
  if(FLAGS & MC_REUSE)
    // the identity of a thread that is gone passes to the next one
    for(pthread_t h = 0x7000001;; h++)
    {
      bool taken = false;
      for(int i = 0; i < t->id; i++) if(TH[i].handle == h && !(TH[i].joined || (TH[i].detached && TH[i].finished))) taken = true;
      if(!taken) { t->handle = h; break; }
    }
  *th = t->handle;
  p->pend = P_RUN; p->deadline = -1;
  reschedule(p, false, "thread-create");
  RT_LEAVE;
  return 0;
}

EXPORT int pthread_join(pthread_t th, void** ret)
{
  if(!managed()) { resolve_all(); return real_join(th, ret); }
  RT_ENTER;
  Thread* p = self; Thread* t = nullptr;
  for(int i = 0; i < NT; i++) if(TH[i].handle == th && TH[i].id != 0) t = &TH[i];
  if(!t) { RT_LEAVE; return ESRCH; }
  if(t == p) { RT_LEAVE; return EDEADLK; }
  if(t->joined) violation("double-join", "thread %d is joined twice", t->id);
  p->pend = P_JOIN; p->pobj = t; p->deadline = -1;
  reschedule(p, false, "join");
  p->pend = P_RUN;
  if(t->joined) violation("double-join", "thread %d is joined twice", t->id);
  t->joined = true;
  vc_join(p->vc, t->vc);
  ev(p, 0x33, 0x5000 + t->id, true);
  void* r = nullptr;
  real_join(t->real, &r);
  if(ret) *ret = r;
  RT_LEAVE;
  return 0;
}

EXPORT int pthread_detach(pthread_t th)
{
  if(!managed()) { resolve_all(); return real_detach(th); }
  for(int i = 0; i < NT; i++) if(TH[i].handle == th && TH[i].id != 0 && !TH[i].joined) TH[i].detached = true;
  return 0;
}

EXPORT pthread_t pthread_self(void) throw()
{
  static pthread_t (*real)(void);
  if(ACTIVE && (FLAGS & MC_REUSE) && managed() && self->id != 0) return self->handle;
  if(!real) resolve(real, "pthread_self");
  return real();
}

EXPORT int pthread_mutex_lock(pthread_mutex_t* m)
{
  if(!managed()) { if(!real_mutex_lock) resolve_all(); return real_mutex_lock(m); }
  return lock_mutex(m, -1);
}

EXPORT int pthread_mutex_trylock(pthread_mutex_t* p)
{
  if(!managed()) { if(!real_mutex_trylock) resolve_all(); return real_mutex_trylock(p); }
  RT_ENTER;
  sync_lifetime(p, "trylock");
  point("trylock");
  Mutex* m = mutex_of(p);
  int rc = 0;
  if(m->owner < 0 || (m->recursive && m->owner == self->id)) do_acquire(self, m, "trylock");
  else { ev(self, 0x13, canon(p), false); rc = EBUSY; }
  RT_LEAVE;
  return rc;
}

EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts)
{
  if(!managed()) return real_mutex_lock(m);
  return lock_mutex(m, dl(ts_ns(ts), true), true);
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const timespec* ts)
{
  if(!managed()) return real_mutex_lock(m);
  return lock_mutex(m, dl(ts_ns(ts), wall(k)), wall(k));
}

EXPORT int pthread_mutex_unlock(pthread_mutex_t* p)
{
  if(!managed()) { if(!real_mutex_unlock) resolve_all(); return real_mutex_unlock(p); }
  RT_ENTER;
  sync_lifetime(p, "unlock");
  Mutex* m = mutex_of(p);
  if(m->owner != self->id) violation("bad-unlock", "unlock of a mutex the thread does not hold");
  if(signal_possible() && self->id == 0) point("unlock");
  do_release(self, m);
  RT_LEAVE;
  return 0;
}

EXPORT int pthread_mutex_destroy(pthread_mutex_t* p)
{
  if(!managed()) { if(!real_mutex_destroy) resolve_all(); return real_mutex_destroy(p); }
  RT_ENTER;
  Mutex* m = mutex_of(p);
  if(m->owner >= 0) violation("dead-mutex", "a locked mutex is destroyed");
  m->dead = true;
  RT_LEAVE;
  return 0;
}

EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
  if(!managed()) { if(!real_cond_wait) resolve_all(); return real_cond_wait(c, m); }
  return cond_wait_impl(c, m, -1);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
  if(!managed()) { if(!real_cond_timedwait) resolve_all(); return real_cond_timedwait(c, m, ts); }
  return cond_wait_impl(c, m, dl(ts_ns(ts), true), true);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts)
{
  if(!managed()) { if(!real_cond_clockwait) resolve_all(); return real_cond_clockwait(c, m, k, ts); }
  return cond_wait_impl(c, m, dl(ts_ns(ts), wall(k)), wall(k));
}
EXPORT int pthread_cond_signal(pthread_cond_t* c)
{
  if(!managed()) { if(!real_cond_signal) resolve_all(); return real_cond_signal(c); }
  cond_notify(c, false);
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c)
{
  if(!managed()) { if(!real_cond_broadcast) resolve_all(); return real_cond_broadcast(c); }
  cond_notify(c, true);
  return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c)
{
  if(!managed()) { if(!real_cond_destroy) resolve_all(); return real_cond_destroy(c); }
  RT_ENTER;
  Cond* cv = cond_of(c);
  if(cv->nwait > 0) violation("dead-condition", "condition variable destroyed while %d thread(s) wait on it", cv->nwait);
  cv->dead = true;
  RT_LEAVE;
  return 0;
}

static int rw_lock(pthread_rwlock_t* p, bool write, bool tr, long deadline = -1, bool rt = false)
{
  RT_ENTER;
  Thread* t = self;
  sync_lifetime(p, "rwlock");
  Mutex* m = rw_of(p);
  if(tr) { t->pend = P_RUN; }
  else { t->pend = write ? P_WR : P_RD; t->pobj = m; }
  t->deadline = tr ? -1 : deadline; t->rt = rt;
  reschedule(t, false, "rwlock");
  t->pend = P_RUN; t->deadline = -1;
  int rc = 0;
  bool readers = false;
  for(int i = 0; i < MAXT; i++) if(m->readers[i]) readers = true;
  if(m->owner >= 0 || (write && readers))
  {
    if(!tr) ev(t, 0x16, OBJ_CLOCK, false);
    ev(t, 0x13, canon(p), false); rc = tr ? EBUSY : ETIMEDOUT;
  }
  else
  {
    if(write) { m->owner = t->id; m->count = 1; } else m->readers[t->id]++;
    vc_join(t->vc, m->vc);
    ev(t, 0x14, canon(p), true);
  }
  RT_LEAVE;
  return rc;
}
static int (*real_rwl_trd)(pthread_rwlock_t*, const timespec*); static int (*real_rwl_twr)(pthread_rwlock_t*, const timespec*);
static int (*real_rwl_crd)(pthread_rwlock_t*, clockid_t, const timespec*); static int (*real_rwl_cwr)(pthread_rwlock_t*, clockid_t, const timespec*);
EXPORT int pthread_rwlock_timedrdlock(pthread_rwlock_t* p, const timespec* ts) { if(!managed()) { if(!real_rwl_trd) resolve(real_rwl_trd, "pthread_rwlock_timedrdlock"); return real_rwl_trd(p, ts); } return rw_lock(p, false, false, dl(ts_ns(ts), true), true); }
EXPORT int pthread_rwlock_timedwrlock(pthread_rwlock_t* p, const timespec* ts) { if(!managed()) { if(!real_rwl_twr) resolve(real_rwl_twr, "pthread_rwlock_timedwrlock"); return real_rwl_twr(p, ts); } return rw_lock(p, true, false, dl(ts_ns(ts), true), true); }
EXPORT int pthread_rwlock_clockrdlock(pthread_rwlock_t* p, clockid_t k, const timespec* ts) { if(!managed()) { if(!real_rwl_crd) resolve(real_rwl_crd, "pthread_rwlock_clockrdlock"); return real_rwl_crd(p, k, ts); } return rw_lock(p, false, false, dl(ts_ns(ts), wall(k)), wall(k)); }
EXPORT int pthread_rwlock_clockwrlock(pthread_rwlock_t* p, clockid_t k, const timespec* ts) { if(!managed()) { if(!real_rwl_cwr) resolve(real_rwl_cwr, "pthread_rwlock_clockwrlock"); return real_rwl_cwr(p, k, ts); } return rw_lock(p, true, false, dl(ts_ns(ts), wall(k)), wall(k)); }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* p) { if(!managed()) { resolve_all(); return real_rwl_rd(p); } return rw_lock(p, false, false); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* p) { if(!managed()) { resolve_all(); return real_rwl_wr(p); } return rw_lock(p, true, false); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) { if(!managed()) { resolve_all(); return real_rwl_tryrd(p); } return rw_lock(p, false, true); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* p) { if(!managed()) { resolve_all(); return real_rwl_trywr(p); } return rw_lock(p, true, true); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* p)
{
  if(!managed()) { resolve_all(); return real_rwl_un(p); }
  RT_ENTER;
  Mutex* m = rw_of(p);
  if(m->owner == self->id) m->owner = -1;
  else if(m->readers[self->id] > 0) m->readers[self->id]--;
  else violation("bad-unlock", "unlock of a rwlock the thread does not hold");
  vc_join(m->vc, self->vc);
  self->vc.c[self->id]++;
  ev(self, 0x15, canon(p), true);
  RT_LEAVE;
  return 0;
}

// Exception objects live in malloc'ed memory, which is reused without our knowing.
EXPORT void* __cxa_allocate_exception(size_t size) throw()
{
  static void* (*real)(size_t);
  if(!real) real = (void* (*)(size_t))dlsym(RTLD_NEXT, "__cxa_allocate_exception");
  void* p = real(size);
  if(managed())
  {
    RT_ENTER;
    for(u64 a = (u64)p & ~7ull; a < (u64)p + size; a += 8)
    {
      Cell* c = cell(a >> 3, false);
      if(c) for(int i = 0; i < NACC; i++) c->a[i].used = 0;
    }
    RT_LEAVE;
  }
  return p;
}

static int do_sleep(long ns, bool rt = false)
{
  Thread* t = self;
  RT_ENTER;
  if(ns <= 0)
  {
    t->pend = P_RUN; t->deadline = -1;
    reschedule(t, true, "yield");
    t->last = mix(t->last, mix(0x9017, t->idx)); t->idx++; STEPS++;
  }
  else
  {
    ev(t, 0x40, OBJ_CLOCK, false);
    t->pend = P_SLEEP; t->deadline = NOW + ns; t->rt = rt; t->signaled = false;
    reschedule(t, false, "sleep");
    t->pend = P_RUN; t->deadline = -1;
    ev(t, 0x41, OBJ_CLOCK, false);
  }
  RT_LEAVE;
  return 0;
}
EXPORT int nanosleep(const timespec* a, timespec* b)
{
  if(!managed()) { if(!real_nanosleep) resolve_all(); return real_nanosleep(a, b); }
  long ns = ts_ns(a);   // the caller may pass the same structure twice
  if(b) { b->tv_sec = 0; b->tv_nsec = 0; }
  return do_sleep(ns);
}
EXPORT int clock_nanosleep(clockid_t k, int fl, const timespec* a, timespec* b)
{
  if(!managed()) { if(!real_clock_nanosleep) resolve_all(); return real_clock_nanosleep(k, fl, a, b); }
  bool abs = (fl & TIMER_ABSTIME) != 0;
  return do_sleep(abs ? dl(ts_ns(a), wall(k)) - NOW : ts_ns(a), abs && wall(k));
}
EXPORT int usleep(useconds_t us)
{
  if(!managed()) { timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return real_nanosleep(&ts, nullptr); }
  return do_sleep((long)us * 1000);
}
EXPORT unsigned int sleep(unsigned int s)
{
  if(!managed()) { timespec ts = {(time_t)s, 0}; real_nanosleep(&ts, nullptr); return 0; }
  do_sleep((long)s * 1000000000L);
  return 0;
}
EXPORT int sched_yield(void)
{
  if(!managed()) { if(!real_sched_yield) resolve_all(); return real_sched_yield(); }
  return do_sleep(0);
}
EXPORT int clock_gettime(clockid_t k, timespec* ts)
{
  if(!managed()) { if(!real_clock_gettime) resolve_all(); return real_clock_gettime(k, ts); }
  RT_ENTER;
  ev(self, 0x42, OBJ_CLOCK, false);
  long n = NOW + BASE_NS + (wall(k) ? RT_OFF : 0);
  ts->tv_sec = n / 1000000000L; ts->tv_nsec = n % 1000000000L;
  RT_LEAVE;
  return 0;
}
EXPORT time_t time(time_t* out)
{
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if(out) *out = ts.tv_sec;
  return ts.tv_sec;
}

EXPORT int gettimeofday(timeval* tv, void* zone) throw()
{
  (void)zone;
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if(tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
// waiting for nothing is sleeping
static int (*real_poll)(pollfd*, nfds_t, int); static int (*real_select)(int, fd_set*, fd_set*, fd_set*, timeval*);
EXPORT int poll(pollfd* f, nfds_t n, int ms)
{
  if(!managed() || n > 0 || ms < 0) { if(!real_poll) resolve(real_poll, "poll"); return real_poll(f, n, ms); }
  return do_sleep((long)ms * 1000000l);
}
EXPORT int select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* tv)
{
  if(!managed() || n > 0 || !tv) { if(!real_select) resolve(real_select, "select"); return real_select(n, r, w, e, tv); }
  timespec ts = {tv->tv_sec, (long)tv->tv_usec * 1000};
  return do_sleep(ts_ns(&ts));
}

// semaphores and spin locks: the value is kept in the object itself, a spin lock is a semaphore of one
static int sem_down(unsigned* a, bool tr, long deadline, bool rt, const char* what)
{
  if(!managed())
  {
    for(;;)
    {
      unsigned v = __atomic_load_n(a, __ATOMIC_SEQ_CST);
      if(v > 0 && __atomic_compare_exchange_n(a, &v, v - 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return 0;
      if(v == 0 && tr) return EAGAIN;
      if(v == 0) usleep(50);
    }
  }
  RT_ENTER;
  Thread* t = self;
  sync_lifetime(a, what);
  t->pend = tr ? P_RUN : P_SEM; t->pobj = a; t->deadline = tr ? -1 : deadline; t->rt = rt;
  reschedule(t, false, what);
  t->pend = P_RUN; t->deadline = -1;
  int rc = 0;
  if(*(volatile unsigned*)a == 0)
  {
    if(!tr) ev(t, 0x70, OBJ_CLOCK, false);
    ev(t, 0x71, canon(a), false);
    rc = tr ? EAGAIN : ETIMEDOUT;
  }
  else
  {
    --*a;
    vc_join(t->vc, obj(canon(a))->vc);
    ev(t, 0x72, canon(a), true);
  }
  RT_LEAVE;
  return rc;
}
static void sem_up(unsigned* a, const char* what)
{
  if(!managed()) { __atomic_add_fetch(a, 1, __ATOMIC_SEQ_CST); return; }
  RT_ENTER;
  sync_lifetime(a, what);
  point(what);
  ++*a;
  vc_join(obj(canon(a))->vc, self->vc);
  self->vc.c[self->id]++;
  ev(self, 0x73, canon(a), true);
  RT_LEAVE;
}
static void sem_start(unsigned* a, unsigned v)
{
  *a = v;
  if(!managed()) return;
  RT_ENTER;
  memset(&obj(canon(a))->vc, 0, sizeof(VC));
  ev(self, 0x74, canon(a), true);
  RT_LEAVE;
}
static int sem_rc(int e) { if(e) errno = e; return e ? -1 : 0; }
EXPORT int sem_init(sem_t* p, int, unsigned v) throw() { sem_start((unsigned*)p, v); return 0; }
EXPORT int sem_destroy(sem_t*) throw() { return 0; }
EXPORT int sem_post(sem_t* p) throw() { sem_up((unsigned*)p, "sem-post"); return 0; }
EXPORT int sem_wait(sem_t* p) { return sem_rc(sem_down((unsigned*)p, false, -1, false, "sem-wait")); }
EXPORT int sem_trywait(sem_t* p) throw() { return sem_rc(sem_down((unsigned*)p, true, -1, false, "sem-trywait")); }
EXPORT int sem_timedwait(sem_t* p, const timespec* ts) { return sem_rc(sem_down((unsigned*)p, false, dl(ts_ns(ts), true), true, "sem-wait")); }
EXPORT int sem_clockwait(sem_t* p, clockid_t k, const timespec* ts) { return sem_rc(sem_down((unsigned*)p, false, dl(ts_ns(ts), wall(k)), wall(k), "sem-wait")); }
EXPORT int sem_getvalue(sem_t* p, int* v) throw() { *v = (int)*(volatile unsigned*)p; return 0; }
EXPORT int pthread_spin_init(pthread_spinlock_t* p, int) throw() { sem_start((unsigned*)p, 1); return 0; }
EXPORT int pthread_spin_destroy(pthread_spinlock_t*) throw() { return 0; }
EXPORT int pthread_spin_lock(pthread_spinlock_t* p) throw() { return sem_down((unsigned*)p, false, -1, false, "spin-lock"); }
EXPORT int pthread_spin_trylock(pthread_spinlock_t* p) throw() { return sem_down((unsigned*)p, true, -1, false, "spin-trylock") ? EBUSY : 0; }
EXPORT int pthread_spin_unlock(pthread_spinlock_t* p) throw() { sem_up((unsigned*)p, "spin-unlock"); return 0; }

EXPORT int pthread_once(pthread_once_t* o, void (*fn)(void))
{
  if(!managed()) { if(!real_once) resolve_all(); return real_once(o, fn); }
  RT_ENTER;
  Thread* t = self;
  t->pend = P_ONCE; t->pobj = (void*)o; t->deadline = -1;
  reschedule(t, false, "once");
  t->pend = P_RUN;
  Obj* ob = obj(canon(o));
  if(*o == 0)
  {
    *o = 1;
    ev(t, 0x50, canon(o), true);
    RT_LEAVE;
    fn();
    RT_ENTER;
    *o = 2;
    vc_join(ob->vc, t->vc);
    t->vc.c[t->id]++;
    ev(t, 0x51, canon(o), true);
  }
  else
  {
    vc_join(t->vc, ob->vc);
    ev(t, 0x52, canon(o), false);
  }
  RT_LEAVE;
  return 0;
}

// function-local statics
static int (*real_guard_acquire)(u64*); static void (*real_guard_release)(u64*); static void (*real_guard_abort)(u64*);
EXPORT int __cxa_guard_acquire(u64* g)
{
  if(!real_guard_acquire) { resolve(real_guard_acquire, "__cxa_guard_acquire"); resolve(real_guard_release, "__cxa_guard_release"); resolve(real_guard_abort, "__cxa_guard_abort"); }
  if(!managed()) return real_guard_acquire(g);
  RT_ENTER;
  volatile u8* b = (volatile u8*)g;
  Thread* t = self;
  // byte 0: initialised; byte 1: in progress
  while(b[1] && !b[0])
  {
    t->pend = P_ONCE; t->pobj = (void*)((char*)g + 4); t->deadline = -1;
    reschedule(t, false, "static-guard");
    t->pend = P_RUN;
  }
  int r;
  Obj* ob = obj(canon(g));
  if(b[0]) { vc_join(t->vc, ob->vc); ev(t, 0x53, canon(g), false); r = 0; }
  else { b[1] = 1; *(volatile int*)((char*)g + 4) = 1; ev(t, 0x54, canon(g), true); r = 1; }
  RT_LEAVE;
  return r;
}
EXPORT void __cxa_guard_release(u64* g)
{
  if(!managed()) { real_guard_release(g); return; }
  RT_ENTER;
  volatile u8* b = (volatile u8*)g;
  b[0] = 1; b[1] = 0; *(volatile int*)((char*)g + 4) = 0;
  Obj* ob = obj(canon(g));
  vc_join(ob->vc, self->vc);
  self->vc.c[self->id]++;
  ev(self, 0x55, canon(g), true);
  RT_LEAVE;
}
EXPORT void __cxa_guard_abort(u64* g)
{
  if(!managed()) { real_guard_abort(g); return; }
  RT_ENTER;
  volatile u8* b = (volatile u8*)g;
  b[1] = 0; *(volatile int*)((char*)g + 4) = 0;
  ev(self, 0x56, canon(g), true);
  RT_LEAVE;
}

// std::future / std::promise waits (libstdc++ uses a raw futex): signatures of
// std::__atomic_futex_unsigned_base::_M_futex_wait_until[_steady] and _M_futex_notify_all
static bool futex_wait_model(unsigned* addr, unsigned val, bool has, long deadline, bool rt)
{
  Thread* t = self;
  RT_ENTER;
  bool r = true;
  point("future-wait");
  if((*(volatile unsigned*)addr) == val)
  {
    t->pend = P_FUTEX; t->pobj = addr; t->signaled = false; t->deadline = has ? deadline : -1; t->rt = rt;
    ev(t, 0x60, canon(addr) + 1, true);
    reschedule(t, false, "future-wait");
    r = t->signaled;
    t->pend = P_RUN; t->deadline = -1; t->signaled = false;
    ev(t, 0x61, r ? canon(addr) + 1 : OBJ_CLOCK, !r ? false : true);
  }
  RT_LEAVE;
  return r;
}
EXPORT bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, unsigned* a, unsigned v, bool has, long s, long ns)
{
  timespec ts = {s, ns};
  return futex_wait_model(a, v, has, dl(ts_ns(&ts), true), true);
}
EXPORT bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, unsigned* a, unsigned v, bool has, long s, long ns)
{
  timespec ts = {s, ns};
  return futex_wait_model(a, v, has, dl(ts_ns(&ts), false), false);
}
EXPORT void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned* a)
{
  if(!managed()) return;
  RT_ENTER;
  ev(self, 0x62, canon(a) + 1, true);
  for(int i = 0; i < NT; i++) if(TH[i].pend == P_FUTEX && TH[i].pobj == a) TH[i].signaled = true;
  RT_LEAVE;
}

// ---------------------------------------------------------------- operator new / delete
#define NEWDEL __attribute__((visibility("default")))
NEWDEL void* operator new(size_t n) { return mc_new(n); }
NEWDEL void* operator new[](size_t n) { return mc_new(n); }
NEWDEL void* operator new(size_t n, const std::nothrow_t&) noexcept { return mc_new(n); }
NEWDEL void* operator new[](size_t n, const std::nothrow_t&) noexcept { return mc_new(n); }
NEWDEL void operator delete(void* p) noexcept { mc_delete(p, __builtin_return_address(0)); }
NEWDEL void operator delete[](void* p) noexcept { mc_delete(p, __builtin_return_address(0)); }
NEWDEL void operator delete(void* p, size_t) noexcept { mc_delete(p, __builtin_return_address(0)); }
NEWDEL void operator delete[](void* p, size_t) noexcept { mc_delete(p, __builtin_return_address(0)); }
NEWDEL void operator delete(void* p, const std::nothrow_t&) noexcept { mc_delete(p, __builtin_return_address(0)); }
NEWDEL void operator delete[](void* p, const std::nothrow_t&) noexcept { mc_delete(p, __builtin_return_address(0)); }

// ---------------------------------------------------------------- instrumentation hooks
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void* pc)
{
  Thread* t = self;
  if(!ACTIVE || !t || in_rt) return;
  if(t->depth < 256 && t->depth >= 0) t->shadow_pc[t->depth] = pc;
  t->depth++;
}
EXPORT void __tsan_func_exit(void*)
{
  Thread* t = self;
  if(!ACTIVE || !t || in_rt) return;
  if(t->depth > 0) t->depth--;
}
#define PC __builtin_return_address(0)
#define RW(n) \
  EXPORT void __tsan_read##n(void* p) { mem_access(p, n, false, false, PC); } \
  EXPORT void __tsan_write##n(void* p) { mem_access(p, n, true, false, PC); } \
  EXPORT void __tsan_unaligned_read##n(void* p) { mem_access(p, n, false, false, PC); } \
  EXPORT void __tsan_unaligned_write##n(void* p) { mem_access(p, n, true, false, PC); } \
  EXPORT void __tsan_volatile_read##n(void* p) { mem_access(p, n, false, false, PC); } \
  EXPORT void __tsan_volatile_write##n(void* p) { mem_access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, unsigned long n) { if(n) mem_access(p, n, false, false, PC); }
EXPORT void __tsan_write_range(void* p, unsigned long n) { if(n) mem_access(p, n, true, false, PC); }
EXPORT void __tsan_vptr_read(void** p) { mem_access(p, 8, false, false, PC); }
EXPORT void __tsan_vptr_update(void** p, void* v) { if(*p != v) mem_access(p, 8, true, false, PC); }

// block memory functions called from instrumented objects (linked with --wrap)
EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n)
{
  if(n) { mem_access(s, n, false, false, PC); mem_access(d, n, true, false, PC); }
  return memcpy(d, s, n);
}
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n)
{
  if(n) { mem_access(s, n, false, false, PC); mem_access(d, n, true, false, PC); }
  return memmove(d, s, n);
}
EXPORT void* __wrap_memset(void* d, int c, size_t n)
{
  if(n) mem_access(d, n, true, false, PC);
  return memset(d, c, n);
}

// ---- functions of libc, libstdc++ and json-c that access memory of the code under test (linked with --wrap as well)
#define RD(p, n) mem_access((p), (n), false, false, PC)
#define WR(p, n) mem_access((p), (n), true, false, PC)
EXPORT void* __wrap___memcpy_chk(void* d, const void* s, size_t n, size_t) { if(n) { RD(s, n); WR(d, n); } return memcpy(d, s, n); }
EXPORT void* __wrap___memmove_chk(void* d, const void* s, size_t n, size_t) { if(n) { RD(s, n); WR(d, n); } return memmove(d, s, n); }
EXPORT void* __wrap___memset_chk(void* d, int c, size_t n, size_t) { if(n) WR(d, n); return memset(d, c, n); }
EXPORT size_t __wrap_strlen(const char* s) { size_t n = strlen(s); RD(s, n + 1); return n; }
EXPORT int __wrap_memcmp(const void* a, const void* b, size_t n) { if(n) { RD(a, n); RD(b, n); } return memcmp(a, b, n); }
EXPORT void* __wrap_memchr(const void* a, int c, size_t n) { void* r = (void*)memchr(a, c, n); size_t m = r ? (char*)r - (char*)a + 1 : n; if(m) RD(a, m); return r; }
EXPORT int __wrap_strcmp(const char* a, const char* b) { size_t n = 0; while(a[n] && a[n] == b[n]) n++; RD(a, n + 1); RD(b, n + 1); return strcmp(a, b); }
EXPORT int __wrap_strncmp(const char* a, const char* b, size_t k) { size_t n = 0; while(n < k && a[n] && a[n] == b[n]) n++; if(n < k) n++; if(n) { RD(a, n); RD(b, n); } return strncmp(a, b, k); }
EXPORT char* __wrap_strcpy(char* d, const char* s) { size_t n = strlen(s) + 1; RD(s, n); WR(d, n); return strcpy(d, s); }
EXPORT char* __wrap___strcpy_chk(char* d, const char* s, size_t) { size_t n = strlen(s) + 1; RD(s, n); WR(d, n); return strcpy(d, s); }
EXPORT char* __wrap_strncpy(char* d, const char* s, size_t k) { size_t n = strnlen(s, k); if(k) { RD(s, n < k ? n + 1 : n); WR(d, k); } return strncpy(d, s, k); }
EXPORT char* __wrap___strncpy_chk(char* d, const char* s, size_t k, size_t) { size_t n = strnlen(s, k); if(k) { RD(s, n < k ? n + 1 : n); WR(d, k); } return strncpy(d, s, k); }
EXPORT char* __wrap_strcat(char* d, const char* s) { size_t m = strlen(d), n = strlen(s) + 1; RD(s, n); WR(d, m + n); return strcat(d, s); }
EXPORT char* __wrap___strcat_chk(char* d, const char* s, size_t) { size_t m = strlen(d), n = strlen(s) + 1; RD(s, n); WR(d, m + n); return strcat(d, s); }
namespace
{
  int formatted(char* d, size_t k, const char* fmt, va_list ap, void* pc)
  {
    int r = vsnprintf(d, k, fmt, ap);
    size_t n = r < 0 ? 0 : (size_t)r + 1;
    if(n > k) n = k;
    if(n) mem_access(d, n, true, false, pc);
    return r;
  }
}
EXPORT int __wrap_snprintf(char* d, size_t k, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = formatted(d, k, fmt, ap, PC); va_end(ap); return r; }
EXPORT int __wrap___snprintf_chk(char* d, size_t k, int, size_t, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = formatted(d, k, fmt, ap, PC); va_end(ap); return r; }
EXPORT int __wrap_sprintf(char* d, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = formatted(d, 1u << 20, fmt, ap, PC); va_end(ap); return r; }
EXPORT int __wrap___sprintf_chk(char* d, int, size_t, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = formatted(d, 1u << 20, fmt, ap, PC); va_end(ap); return r; }
EXPORT int __wrap_vsnprintf(char* d, size_t k, const char* fmt, va_list ap) { return formatted(d, k, fmt, ap, PC); }
EXPORT int __wrap___vsnprintf_chk(char* d, size_t k, int, size_t, const char* fmt, va_list ap) { return formatted(d, k, fmt, ap, PC); }
EXPORT struct tm* __wrap_localtime(const time_t* t) { RD(t, sizeof *t); struct tm* r = localtime(t); if(r) WR(r, sizeof *r); return r; }
EXPORT struct tm* __wrap_gmtime(const time_t* t) { RD(t, sizeof *t); struct tm* r = gmtime(t); if(r) WR(r, sizeof *r); return r; }
EXPORT char* __wrap_ctime(const time_t* t) { RD(t, sizeof *t); char* r = ctime(t); if(r) WR(r, 25); return r; }
EXPORT char* __wrap_asctime(const struct tm* t) { RD(t, sizeof *t); char* r = asctime(t); if(r) WR(r, 25); return r; }
EXPORT char* __wrap_strtok(char* s, const char* d) { static char state; WR(&state, 1); return strtok(s, d); }

// nodes of std::list
namespace { struct ListNode { ListNode* next; ListNode* prev; }; }
extern "C" void real_list_hook(ListNode*, ListNode*) __asm__("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
extern "C" void real_list_unhook(ListNode*) __asm__("_ZNSt8__detail15_List_node_base9_M_unhookEv");
extern "C" void real_list_transfer(ListNode*, ListNode*, ListNode*) __asm__("_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_");
EXPORT void __wrap__ZNSt8__detail15_List_node_base7_M_hookEPS0_(ListNode* n, ListNode* at) { WR(n, 16); WR(&at->prev, 8); WR(&at->prev->next, 8); real_list_hook(n, at); }
EXPORT void __wrap__ZNSt8__detail15_List_node_base9_M_unhookEv(ListNode* n) { RD(n, 16); WR(&n->next->prev, 8); WR(&n->prev->next, 8); real_list_unhook(n); }
EXPORT void __wrap__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(ListNode* at, ListNode* first, ListNode* last)
{
  if(at != last) { WR(&last->prev->next, 8); WR(&first->prev->next, 8); WR(&at->prev->next, 8); WR(&at->prev, 8); WR(&last->prev, 8); WR(&first->prev, 8); }
  real_list_transfer(at, first, last);
}

// nodes of std::map and std::set: color, parent, left, right
namespace { struct TreeNode { long color; TreeNode* parent; TreeNode* left; TreeNode* right; }; }
extern "C" TreeNode* real_tree_inc(TreeNode*) __asm__("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
extern "C" TreeNode* real_tree_dec(TreeNode*) __asm__("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
extern "C" void real_tree_insert(bool, TreeNode*, TreeNode*, TreeNode&) __asm__("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
extern "C" TreeNode* real_tree_erase(TreeNode*, TreeNode&) __asm__("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
namespace
{
  void tree_walk(TreeNode* x, TreeNode* (*next)(TreeNode*), void* pc)
  {
    // the links of the nodes between x and its neighbour
    mem_access(x, 32, false, false, pc);
    TreeNode* r = next(x);
    if(r != x) mem_access(r, 32, false, false, pc);
  }
  void tree_change(TreeNode* x, TreeNode* p, TreeNode& header, void* pc)
  {
    mem_access(x, 32, true, false, pc);
    mem_access(&header, 32, true, false, pc);
    for(int i = 0; p && p != &header && i < 64; i++) { mem_access(p, 32, true, false, pc); p = p->parent; }
  }
}
EXPORT TreeNode* __wrap__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(TreeNode* x) { tree_walk(x, real_tree_inc, PC); return real_tree_inc(x); }
EXPORT TreeNode* __wrap__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(TreeNode* x) { tree_walk(x, real_tree_inc, PC); return real_tree_inc(x); }
EXPORT TreeNode* __wrap__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(TreeNode* x) { tree_walk(x, real_tree_dec, PC); return real_tree_dec(x); }
EXPORT TreeNode* __wrap__ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(TreeNode* x) { tree_walk(x, real_tree_dec, PC); return real_tree_dec(x); }
EXPORT void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, TreeNode* x, TreeNode* p, TreeNode& header)
{
  tree_change(x, p, header, PC);
  real_tree_insert(left, x, p, header);
}
EXPORT TreeNode* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(TreeNode* z, TreeNode& header)
{
  tree_change(z, z->parent, header, PC);
  return real_tree_erase(z, header);
}

// streams other than the standard ones (those may be used by several threads at once)
extern "C" char real_cout __asm__("_ZSt4cout"), real_cerr __asm__("_ZSt4cerr"), real_clog __asm__("_ZSt4clog");
namespace
{
  void stream_write(void* os, void* pc) { if(os != &real_cout && os != &real_cerr && os != &real_clog) mem_access((char*)os + 8, 8, true, false, pc); }
}
extern "C" void* real_os_insert(void*, const char*, long) __asm__("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
EXPORT void* __wrap__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* os, const char* s, long n) { stream_write(os, PC); if(n > 0) RD(s, n); return real_os_insert(os, s, n); }
extern "C" void* real_os_int(void*, int) __asm__("_ZNSolsEi");
EXPORT void* __wrap__ZNSolsEi(void* os, int v) { stream_write(os, PC); return real_os_int(os, v); }
extern "C" void* real_os_double(void*, double) __asm__("_ZNSo9_M_insertIdEERSoT_");
EXPORT void* __wrap__ZNSo9_M_insertIdEERSoT_(void* os, double v) { stream_write(os, PC); return real_os_double(os, v); }
extern "C" void* real_os_bool(void*, bool) __asm__("_ZNSo9_M_insertIbEERSoT_");
EXPORT void* __wrap__ZNSo9_M_insertIbEERSoT_(void* os, bool v) { stream_write(os, PC); return real_os_bool(os, v); }

// json-c
extern "C" __attribute__((weak)) void* json_tokener_parse_ex(void*, const char*, int);
EXPORT void* __wrap_json_tokener_parse_ex(void* tok, const char* s, int n) { WR(tok, 8); return json_tokener_parse_ex(tok, s, n); }

// ---- atomics: sequentially consistent interleavings, C++ happens-before for race detection
namespace
{
  bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
  bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

  // shared_ptr reference counts (acq_rel read-modify-writes) commute: no scheduling point, not part of the HB hash
  void at_pre(const void* p, size_t n, bool write, void* pc, bool refcount, const char* label)
  {
    Thread* t = self;
    if(!refcount && !t->quiet)
    {
      RT_ENTER;
      t->pend = P_RUN; t->deadline = -1;
      reschedule(t, false, label);
      in_rt--;
    }
    mem_access(p, n, write, true, pc);
  }
  void at_load(const void* p, int mo, u64 v)
  {
    Thread* t = self; in_rt++;
    if(!t->quiet)
    {
      ev(t, 0x80, canon(p), false);
      t->last = mix(t->last, v);
      if(acq(mo)) vc_join(t->vc, obj(canon(p))->vc);
    }
    in_rt--;
  }
  void at_store(const void* p, int mo)
  {
    Thread* t = self; in_rt++;
    if(!t->quiet)
    {
      ev(t, 0x81, canon(p), true);
      Obj* o = obj(canon(p));
      if(rel(mo)) { o->vc = t->vc; t->vc.c[t->id]++; } else memset(&o->vc, 0, sizeof o->vc);
    }
    in_rt--;
  }
  void at_rmw(const void* p, int mo, bool refcount, bool success = true)
  {
    Thread* t = self; in_rt++;
    if(!t->quiet || refcount)
    {
      Obj* o = obj(canon(p) + (refcount ? 1 : 0));
      if(!refcount) { ev(t, 0x82, canon(p), true); t->last = mix(t->last, success ? 5 : 6); }
      if(acq(mo)) vc_join(t->vc, o->vc);
      if(rel(mo) && success) { vc_join(o->vc, t->vc); t->vc.c[t->id]++; }
    }
    in_rt--;
  }
}

#define ATOMIC(bits, T) \
  EXPORT T __tsan_atomic##bits##_load(const volatile T* p, int mo) \
  { if(!managed()) return __atomic_load_n(p, __ATOMIC_SEQ_CST); at_pre((const void*)p, sizeof(T), false, PC, false, "atomic-load"); T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); at_load((const void*)p, mo, (u64)v); return v; } \
  EXPORT void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) \
  { if(!managed()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; } at_pre((const void*)p, sizeof(T), true, PC, false, "atomic-store"); at_store((const void*)p, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) \
  { if(!managed()) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); at_pre((const void*)p, sizeof(T), true, PC, false, "atomic-rmw"); at_rmw((const void*)p, mo, false); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) \
  { if(!managed()) return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); bool rc = mo == __ATOMIC_ACQ_REL; at_pre((const void*)p, sizeof(T), true, PC, rc, "atomic-rmw"); at_rmw((const void*)p, mo, rc); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) \
  { if(!managed()) return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); bool rc = mo == __ATOMIC_ACQ_REL; at_pre((const void*)p, sizeof(T), true, PC, rc, "atomic-rmw"); at_rmw((const void*)p, mo, rc); T o = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); if(rc && o == v) self->last = mix(self->last, 0x2ef); return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) \
  { if(!managed()) return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); at_pre((const void*)p, sizeof(T), true, PC, false, "atomic-rmw"); at_rmw((const void*)p, mo, false); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) \
  { if(!managed()) return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); at_pre((const void*)p, sizeof(T), true, PC, false, "atomic-rmw"); at_rmw((const void*)p, mo, false); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) \
  { if(!managed()) return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); at_pre((const void*)p, sizeof(T), true, PC, false, "atomic-rmw"); at_rmw((const void*)p, mo, false); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) \
  { if(!managed()) return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_pre((const void*)p, sizeof(T), true, PC, false, "atomic-cas"); \
    bool ok = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_rmw((const void*)p, ok ? mo : fmo, false, ok); return ok; } \
  EXPORT bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) \
  { return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fmo); } \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) \
  { __tsan_atomic##bits##_compare_exchange_strong(p, &c, v, mo, fmo); return c; }
ATOMIC(8, u8) ATOMIC(16, uint16_t) ATOMIC(32, u32) ATOMIC(64, u64)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}
EXPORT void AnnotateHappensBefore(const char*, int, const volatile void*) {}
EXPORT void AnnotateHappensAfter(const char*, int, const volatile void*) {}

// ====================================================================== harness API
EXPORT int mc_choose(int n, const char* label)
{
  if(!managed() || n <= 1) return 0;
  RT_ENTER;
  int k = take_choice(n, nullptr, label);
  self->last = mix(self->last, 0xc400 + k); self->idx++;
  RT_LEAVE;
  return k;
}
EXPORT int mc_deviate(int n, const char* label)
{
  if(!managed() || n <= 1) return 0;
  RT_ENTER;
  u8 cost[MAXOPT]; cost[0] = 0;
  for(int i = 1; i < MAXOPT; i++) cost[i] = 1;
  int k = take_choice(n, cost, label);
  self->last = mix(self->last, 0xc500 + k); self->idx++;
  RT_LEAVE;
  return k;
}
EXPORT void mc_event(const char* kind, long a, long b)
{
  if(!managed()) return;
  RT_ENTER;
  point(kind);
  ev(self, mix(hashstr(kind), mix((u64)a, (u64)b)), OBJ_LOG, true);
  if(TRACE) fprintf(TRACE, "      thread %d: %s(%ld, %ld)\n", self->id, kind, a, b);
  RT_LEAVE;
}
EXPORT void mc_point(const char* label)
{
  if(!managed()) return;
  RT_ENTER;
  point(label);
  // consecutive points are different states
  self->last = mix(self->last, mix(0x9019, self->idx)); self->idx++; STEPS++;
  RT_LEAVE;
}
EXPORT void mc_fail(const char* key, const char* fmt, ...)
{
  if(!ACTIVE) return;
  in_rt++;
  char buf[4000];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  violation(key, "%s", buf);
}
EXPORT void mc_outcome(const char* text) { if(SLOT) snprintf(SLOT->outcome, sizeof SLOT->outcome, "%s", text); }
EXPORT long mc_now_ms(void) { return NOW / 1000000; }
EXPORT void mc_clock_jump(long ms)
{
  if(!managed()) return;
  RT_ENTER;
  point("clock-jump");
  RT_OFF += ms * 1000000l;
  for(int i = 0; i < NT; i++)
  {
    Thread* o = &TH[i];
    if(o->finished || o->deadline < 0 || !o->rt) continue;
    o->deadline -= ms * 1000000l;
    if(o->deadline < 0) o->deadline = 0;
  }
  ev(self, mix(0x43, (u64)ms), OBJ_CLOCK, true);
  if(TRACE) fprintf(TRACE, "      the wall clock jumps by %ld ms\n", ms);
  RT_LEAVE;
}
EXPORT int mc_tid(void) { return self ? self->id : -1; }
EXPORT int mc_live_threads(void) { int n = 0; for(int i = 0; i < NT; i++) if(!TH[i].finished) n++; return n; }
EXPORT void mc_quiet(int on) { if(self) self->quiet += on ? 1 : -1; }
EXPORT void mc_set_signal_handler(void (*fn)(void)) { SIGFN = fn; }
EXPORT int mc_signal_delivered(void) { return SIGCOUNT; }
EXPORT void mc_signals(int count, long deadline_ms) { SIGLEFT = count; SIGDEADLINE = deadline_ms * 1000000l; }
EXPORT void mc_deliver_signal_now(void) { if(managed() && SIGLEFT > 0 && SIGFN && self->id == 0) { RT_ENTER; run_signal(self); RT_LEAVE; } }
EXPORT int mc_heap_live(const void* p) { return in_arena(p) && FREEMAP[((char*)p - ARENA) >> 4] == 1; }
EXPORT long mc_heap_blocks(void) { return HEAPBLOCKS; }

EXPORT int mc_main(int argc, char** argv, const mc_scenario* sc, int count)
{
  resolve_all();
  const char* tier = "quick"; const char* outp = nullptr; const char* only = nullptr; const char* replay = nullptr; const char* tracef = nullptr;
  double cap = 0; int boundOverride = -1; int workers = 0; u64 maxexec = ~0ull;
  for(int i = 1; i < argc; i++)
  {
    if(!strcmp(argv[i], "--tier") && i + 1 < argc) tier = argv[++i];
    else if(!strcmp(argv[i], "--out") && i + 1 < argc) outp = argv[++i];
    else if(!strcmp(argv[i], "--scenario") && i + 1 < argc) only = argv[++i];
    else if(!strcmp(argv[i], "--replay") && i + 1 < argc) replay = argv[++i];
    else if(!strcmp(argv[i], "--trace") && i + 1 < argc) tracef = argv[++i];
    else if(!strcmp(argv[i], "--cap") && i + 1 < argc) cap = atof(argv[++i]);
    else if(!strcmp(argv[i], "--bound") && i + 1 < argc) boundOverride = atoi(argv[++i]);
    else if(!strcmp(argv[i], "--workers") && i + 1 < argc) workers = atoi(argv[++i]);
    else if(!strcmp(argv[i], "--maxexec") && i + 1 < argc) maxexec = strtoull(argv[++i], nullptr, 10);
    else if(!strcmp(argv[i], "--known") && i + 1 < argc) { if(NKNOWN < 64) KNOWN[NKNOWN++] = argv[++i]; }
    else if(!strcmp(argv[i], "--list")) { for(int k = 0; k < count; k++) printf("%s\n", sc[k].name); return 0; }
  }
  setup_child_memory();
  bool thorough = !strcmp(tier, "thorough");
  if(workers <= 0)
  {
    cpu_set_t all; CPU_ZERO(&all); sched_getaffinity(0, sizeof all, &all);
    workers = CPU_COUNT(&all);
    if(workers > 16) workers = 16;
  }
  if(cap <= 0) cap = thorough ? 120 : 20;
  if(replay)
  {
    // replay file: choices as "n k" pairs, whitespace separated
    for(int k = 0; k < count; k++)
    {
      if(strcmp(sc[k].name, only ? only : "")) continue;
      SCEN = &sc[k];
      static u8 data[MAXPOINTS * 2]; int n = 0, a, b;
      FILE* f = fopen(replay, "r");
      if(!f) { perror(replay); return 2; }
      while(n < MAXPOINTS && fscanf(f, " %d %d", &a, &b) == 2) { data[2 * n] = (u8)a; data[2 * n + 1] = (u8)b; n++; }
      fclose(f);
      SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      VIS = (Vis*)mmap(nullptr, sizeof(Vis) * VIS_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      Slot* slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      int st = run_child(slot, data, n, true, tracef ? tracef : "/dev/stdout");
      static char msg[8000]; symbolize(slot->msg, msg, sizeof msg);
      printf("status %d key %s\n%s\noutcome %s\n", st, slot->key, msg, slot->outcome);
      return st == ST_VIOLATION ? 1 : st == ST_OK ? 0 : 2;
    }
    fprintf(stderr, "no such scenario\n");
    return 2;
  }
  FILE* out = outp ? fopen(outp, "w") : stdout;
  if(!out) { perror(outp); return 2; }
  fprintf(out, "[\n");
  int rc = 0; bool first = true;
  for(int k = 0; k < count; k++)
  {
    if(only && !selected(only, sc[k].name)) continue;
    int bound = boundOverride >= 0 ? boundOverride : thorough ? sc[k].bound_thorough : sc[k].bound_quick;
    int r = explore(&sc[k], bound, cap, maxexec, workers, out, first);
    first = false;
    if(r == 1) rc = 1; else if(r == 2 && rc == 0) rc = 2;
  }
  fprintf(out, "\n]\n");
  if(outp) fclose(out);
  return rc;
}
