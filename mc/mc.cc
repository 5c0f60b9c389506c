// See mc.h.
#include "mc/mc.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <new>
#include <typeinfo>

namespace mc {

int (*io_fault)(const char* op, const char* path) = nullptr;
int (*create_fault)() = nullptr;

namespace {

// ------------------------------------------------------------------ raw system calls
long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}

// ------------------------------------------------------------------ state
const int kMaxThreads = 12;
const int kMaxPoints = 12000;
const int kMaxOptions = 16;

struct VC {
  uint32_t c[kMaxThreads];
};
void join(VC& a, const VC& b) {
  for (int i = 0; i < kMaxThreads; ++i)
    if (b.c[i] > a.c[i])
      a.c[i] = b.c[i];
}

enum Wait { kNone, kMutex, kCond, kJoin, kSleep, kFutex, kEpoll, kOnce, kIdle };

struct Thread {
  int id;
  pthread_t real;
  int go;  // futex word
  bool used, finished, detached, yielding;
  Wait wait;
  void* obj;
  void* obj2;  // mutex of a condition wait
  bool timed, timed_out, woken;
  uint64_t deadline;
  VC vc;
  VC acq_pending, rel_fence;
  void* (*fn)(void*);
  void* arg;
  int in_rt;
};

// What a child leaves behind for its worker.
enum Status { kRunning = 0, kOk, kViolation, kCrash, kDeadlock, kHorizon, kDivergence };
struct Point {
  uint8_t nopts, chosen;
  uint16_t costs;  // bit i: option i costs 1
  uint32_t sig;    // rolling signature up to and including this point
};
struct Result {
  int status;
  int npoints;
  int cost;
  uint64_t outcome;
  uint64_t accesses;
  char message[4096];
  char outcome_text[512];
  char finding_key[64];
  char finding_text[512];
  uint32_t last_dev_sig;
  Point points[kMaxPoints];
};

struct Dev {
  uint16_t idx;
  uint8_t choice;
};

Thread threads[kMaxThreads];
int nthreads = 0;
Result* res = nullptr;
bool active = false;
bool in_child = false;
bool verbose = false;
uint64_t vtime = 0;
const uint64_t kRealBase = 1400000000ull * 1000000000ull;
const uint64_t kMonoBase = 5000ull * 1000000000ull;
Dev devs[512];
int ndevs = 0, next_dev = 0;
uint32_t expect_sig = 0;
const Scenario* scenario = nullptr;
void (*exit_check)() = nullptr;
uint32_t rolling = 0;
bool finishing = false;

__thread Thread* me = nullptr;

struct RtGuard {
  RtGuard() {
    if (me)
      ++me->in_rt;
  }
  ~RtGuard() {
    if (me)
      --me->in_rt;
  }
};

bool modelled() { return active && me && !me->finished && me->in_rt == 0; }

// Memory of an execution: handed out once and never reused, from huge pages (page faults dominate short executions).
char *arena = nullptr, *arena_end = nullptr, *arena_next = nullptr;
constexpr size_t kArena = size_t{512} << 20, kHuge = size_t{2} << 20;
void map_arena() {
  char* p = static_cast<char*>(mmap(nullptr, kArena + kHuge, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (p == MAP_FAILED)
    return;
  p = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(p) + kHuge - 1) & ~(kHuge - 1));
  madvise(p, kArena, MADV_HUGEPAGE);
  arena = arena_next = p;
  arena_end = p + kArena;
}
bool in_arena(const void* p) { return p >= arena && p < arena_end; }
void* arena_alloc(size_t n) {  // zeroed, 16 bytes before it hold its size
  const size_t whole = ((n ? n : 1) + 31) & ~size_t{15};
  char* p = __atomic_fetch_add(&arena_next, whole, __ATOMIC_RELAXED);
  if (!in_child || !arena || p + whole > arena_end)
    return nullptr;
  *reinterpret_cast<size_t*>(p) = whole - 16;
  return p + 16;
}
size_t size_of(void* p) { return in_arena(p) ? *reinterpret_cast<size_t*>(static_cast<char*>(p) - 16) : malloc_usable_size(p); }
void* rt_zeroed(size_t n) {
  void* p = arena_alloc(n);
  return p ? p : calloc(1, n);
}
void rt_free(void* p) {
  if (!in_arena(p))
    free(p);
}

// small open-addressing map from address to T, never shrinks
template <typename T>
struct AddrMap {
  struct Slot {
    uintptr_t k;
    T v;
  };
  Slot* s = nullptr;
  size_t cap = 0, n = 0;
  T& get(const void* p) {
    if ((n + 1) * 2 > cap)
      grow();
    uintptr_t k = reinterpret_cast<uintptr_t>(p);
    size_t i = (k * 0x9E3779B97F4A7C15ull >> 20) & (cap - 1);
    while (s[i].k && s[i].k != k)
      i = (i + 1) & (cap - 1);
    if (!s[i].k) {
      s[i].k = k;
      memset(static_cast<void*>(&s[i].v), 0, sizeof(T));
      ++n;
    }
    return s[i].v;
  }
  T* find(const void* p) {
    if (!cap)
      return nullptr;
    uintptr_t k = reinterpret_cast<uintptr_t>(p);
    size_t i = (k * 0x9E3779B97F4A7C15ull >> 20) & (cap - 1);
    while (s[i].k && s[i].k != k)
      i = (i + 1) & (cap - 1);
    return s[i].k ? &s[i].v : nullptr;
  }
  void grow() {
    size_t oc = cap;
    Slot* os = s;
    cap = cap ? cap * 2 : 64;
    s = static_cast<Slot*>(rt_zeroed(cap * sizeof(Slot)));
    for (size_t j = 0; j < oc; ++j)
      if (os[j].k) {
        size_t i = (os[j].k * 0x9E3779B97F4A7C15ull >> 20) & (cap - 1);
        while (s[i].k)
          i = (i + 1) & (cap - 1);
        s[i] = os[j];
      }
    rt_free(os);
  }
};

struct MutexState {
  int owner;  // id + 1
  int count;
  VC vc;
};
struct SyncVar {
  VC vc;
};
struct OnceState {
  int state;
  VC vc;
};
AddrMap<MutexState> mutexes;
AddrMap<SyncVar> sync_vars;
AddrMap<OnceState> onces;

// ------------------------------------------------------------------ shadow memory
struct Entry {
  uint8_t tid, kind, mask, pad;  // kind: bit 0 write, bit 1 atomic
  uint32_t clock;
  uintptr_t pc;
};
struct Cell {
  uint16_t n, cap;
  Entry* e;
};
struct Page {
  Cell cells[512];
  uint8_t freed[512];
};
AddrMap<Page*> pages;
uintptr_t last_page_no = 0;
Page* last_page = nullptr;

Page* page_of(uintptr_t addr, bool create) {
  uintptr_t no = addr >> 12;
  if (no == last_page_no)
    return last_page;
  Page* p;
  void* key = reinterpret_cast<void*>(no);
  if (create) {
    Page*& ref = pages.get(key);
    if (!ref)
      ref = static_cast<Page*>(rt_zeroed(sizeof(Page)));
    p = ref;
  } else {
    Page** ref = pages.find(key);
    if (!ref)
      return nullptr;
    p = *ref;
  }
  last_page_no = no;
  last_page = p;
  return p;
}

void clear_range(uintptr_t a, uintptr_t b) {
  for (uintptr_t pg = a >> 12; pg <= (b - 1) >> 12; ++pg) {
    Page* p = page_of(pg << 12, false);
    if (!p)
      continue;
    for (int i = 0; i < 512; ++i) {
      uintptr_t x = (pg << 12) + 8 * i;
      if (x >= a && x < b) {
        p->cells[i].n = 0;
        p->freed[i] = 0;
      }
    }
  }
}

void append(char* buf, size_t cap, const char* fmt, ...) {
  size_t l = strlen(buf);
  va_list ap;
  va_start(ap, fmt);
  if (l + 1 < cap)
    vsnprintf(buf + l, cap - l, fmt, ap);
  va_end(ap);
}

[[noreturn]] void finish(int status) {
  finishing = true;
  res->status = status;
  raw(SYS_exit_group, 0);
  __builtin_unreachable();
}

[[noreturn]] void finish_msg(int status, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(res->message, sizeof res->message, fmt, ap);
  va_end(ap);
  finish(status);
}

extern "C" char __executable_start;
uintptr_t rel(uintptr_t pc) { return pc - reinterpret_cast<uintptr_t>(&__executable_start); }

void vtrace(const char* fmt, ...) {
  if (!verbose)
    return;
  char b[700];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  char line[800];
  int n = snprintf(line, sizeof line, "  T%d %s\n", me ? me->id : -1, b);
  raw(SYS_write, 2, reinterpret_cast<long>(line), n);
}

// ------------------------------------------------------------------ scheduler
void wait_go(Thread* t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE))
    raw(SYS_futex, reinterpret_cast<long>(&t->go), FUTEX_WAIT_PRIVATE, 0, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
void give_go(Thread* t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  raw(SYS_futex, reinterpret_cast<long>(&t->go), FUTEX_WAKE_PRIVATE, 1);
}

bool enabled(Thread* t) {
  if (!t->used || t->finished)
    return false;
  switch (t->wait) {
    case kNone:
      return true;
    case kMutex:
      return mutexes.get(t->obj).owner == 0;
    case kCond:
      return t->timed && vtime >= t->deadline && mutexes.get(t->obj2).owner == 0;
    case kJoin:
      return static_cast<Thread*>(t->obj)->finished;
    case kSleep:
      return vtime >= t->deadline;
    case kFutex:
      return t->woken || (t->timed && vtime >= t->deadline);
    case kOnce:
      return onces.get(t->obj).state != 1;
    case kIdle:
      return false;
    case kEpoll: {
      if (t->timed && vtime >= t->deadline)
        return true;
      pollfd p;
      p.fd = static_cast<int>(reinterpret_cast<intptr_t>(t->obj));
      p.events = POLLIN;
      p.revents = 0;
      return raw(SYS_poll, reinterpret_cast<long>(&p), 1, 0) > 0;
    }
  }
  return false;
}

int record(int nopts, uint32_t costs, uint32_t what) {
  int i = res->npoints;
  if (i >= kMaxPoints)
    finish_msg(kHorizon, "no end after %d scheduling points: livelock", kMaxPoints);
  rolling = (rolling ^ (what * 2654435761u + static_cast<uint32_t>(nopts))) * 16777619u + 1;
  int choice = 0;
  if (next_dev < ndevs && devs[next_dev].idx == i) {
    choice = devs[next_dev].choice;
    ++next_dev;
    if (choice >= nopts || (next_dev == ndevs && expect_sig && rolling != expect_sig))
      finish_msg(kDivergence, "replay diverged at point %d: choice %d of %d, signature %08x expected %08x",
                 i, choice, nopts, rolling, expect_sig);
  }
  Point& p = res->points[i];
  p.nopts = static_cast<uint8_t>(nopts);
  p.chosen = static_cast<uint8_t>(choice);
  p.costs = static_cast<uint16_t>(costs);
  p.sig = rolling;
  rolling = rolling * 31 + static_cast<uint32_t>(choice);
  if ((costs >> choice) & 1)
    ++res->cost;
  ++res->npoints;
  return choice;
}

const char* wait_name(Wait w) {
  static const char* n[] = {"running", "waiting for a mutex", "waiting on a condition variable",
                            "joining a thread", "sleeping", "waiting on a futex", "in epoll_wait",
                            "waiting for a once-initialisation", "waiting for all others"};
  return n[w];
}

// The calling thread has set its wait state; returns when it is chosen to go on.
void schedule(uint32_t what) {
  Thread* self = me;
  struct Opt {
    Thread* t;
    int kind;  // 0 run, 1 spurious wake-up, 2 let time pass
  } opts[kMaxOptions];
  for (;;) {
    int n = 0;
    uint32_t costs = 0;
    bool self_enabled = enabled(self);
    bool yielding = self->yielding;
    int enabled_count = 0;
    if (self_enabled && !yielding)
      opts[n++] = {self, 0};
    for (int k = 1; k < nthreads; ++k) {
      Thread* t = &threads[(self->id + k) % nthreads];
      if (enabled(t) && n < kMaxOptions) {
        if (self_enabled && !yielding)
          costs |= 1u << n;
        opts[n++] = {t, 0};
      }
    }
    if (self_enabled && yielding && n == 0)
      opts[n++] = {self, 0};
    enabled_count = n;
    // time
    uint64_t first_deadline = ~0ull;
    Thread* first = nullptr;
    for (int k = 0; k < nthreads; ++k) {
      Thread* t = &threads[k];
      if (t->used && !t->finished && t->wait != kNone && !enabled(t) &&
          ((t->wait == kSleep) || (t->timed && (t->wait == kCond || t->wait == kFutex || t->wait == kEpoll))) &&
          t->deadline > vtime && t->deadline < first_deadline) {
        first_deadline = t->deadline;
        first = t;
      }
    }
    if (enabled_count == 0) {
      Thread* idle = nullptr;
      for (int k = 0; k < nthreads; ++k)  // the one which has waited longest
        if (threads[k].used && !threads[k].finished && threads[k].wait == kIdle && (!idle || threads[k].deadline < idle->deadline))
          idle = &threads[k];
      if (idle) {
        idle->wait = kNone;
        continue;
      }
      if (first) {  // nothing else can happen: time passes
        vtime = first_deadline;
        continue;
      }
      char* m = res->message;
      m[0] = 0;
      append(m, sizeof res->message, "deadlock:");
      for (int k = 0; k < nthreads; ++k)
        if (threads[k].used && !threads[k].finished)
          append(m, sizeof res->message, " T%d %s;", k, wait_name(threads[k].wait));
      finish(kDeadlock);
    }
    if (first && n < kMaxOptions) {
      costs |= 1u << n;
      opts[n++] = {first, 2};
    }
    if (scenario->spurious)
      for (int k = 0; k < nthreads && n < kMaxOptions; ++k) {
        Thread* t = &threads[k];
        if (t->used && !t->finished && t->wait == kCond && !enabled(t) &&
            mutexes.get(t->obj2).owner == 0) {
          costs |= 1u << n;
          opts[n++] = {t, 1};
        }
      }
    int c = 0;
    if (n > 1) {
      uint32_t sig = what * 64 + static_cast<uint32_t>(self->id);
      for (int k = 0; k < n; ++k)
        sig = sig * 31 + static_cast<uint32_t>(opts[k].t->id * 4 + opts[k].kind);
      c = record(n, costs, sig);
      if (verbose && c)
        vtrace("--> %s T%d (choice %d of %d at point %d)",
               opts[c].kind == 0 ? "switch to" : opts[c].kind == 1 ? "spurious wake-up of" : "time-out of",
               opts[c].t->id, c, n, res->npoints - 1);
    } else {
      rolling = (rolling ^ what) * 16777619u;
    }
    Opt o = opts[c];
    if (o.kind == 2) {
      vtime = first_deadline;
      if (!enabled(o.t))  // e.g. its mutex is held: time has passed, choose again
        continue;
    } else if (o.kind == 1) {
      o.t->wait = kMutex;
      o.t->obj = o.t->obj2;
    }
    self->yielding = false;
    if (o.t != self) {
      give_go(o.t);
      if (self->finished)
        return;
      wait_go(self);
    }
    return;
  }
}

void simple_point(uint32_t what) {
  me->wait = kNone;
  schedule(what);
}

// ------------------------------------------------------------------ mutexes
void acquire_mutex(void* m) {
  MutexState& s = mutexes.get(m);
  s.owner = me->id + 1;
  s.count = 1;
  join(me->vc, s.vc);
}
void release_mutex(void* m) {
  MutexState& s = mutexes.get(m);
  s.owner = 0;
  s.count = 0;
  s.vc = me->vc;
  ++me->vc.c[me->id];
}

void access(uintptr_t addr, size_t size, int kind, uintptr_t pc);

int mutex_kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }

int do_lock(pthread_mutex_t* m, bool try_only, uintptr_t pc, uint64_t deadline = 0) {
  RtGuard g;
  access(reinterpret_cast<uintptr_t>(m), 1, 2, pc);
  MutexState* s = &mutexes.get(m);
  if (s->owner == me->id + 1) {
    if (mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE) {
      ++s->count;
      return 0;
    }
    if (mutex_kind(m) == PTHREAD_MUTEX_ERRORCHECK)
      return try_only ? EBUSY : EDEADLK;
  }
  if (try_only) {
    simple_point(2);
    s = &mutexes.get(m);
    if (s->owner)
      return EBUSY;
    acquire_mutex(m);
    return 0;
  }
  me->wait = kMutex;
  me->obj = m;
  me->timed = false;
  schedule(1);
  me->wait = kNone;
  acquire_mutex(m);
  return 0;
}

int do_unlock(pthread_mutex_t* m) {
  RtGuard g;
  MutexState& s = mutexes.get(m);
  if (s.owner != me->id + 1) {
    if (mutex_kind(m) == PTHREAD_MUTEX_ERRORCHECK)
      return EPERM;
    finish_msg(kViolation, "T%d unlocks a mutex it does not hold", me->id);
  }
  if (s.count > 1) {
    --s.count;
    return 0;
  }
  release_mutex(m);
  return 0;
}

uint64_t to_virtual(clockid_t clk, const timespec* ts) {
  uint64_t t = static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + static_cast<uint64_t>(ts->tv_nsec);
  if (ts->tv_sec < 0)
    return 0;
  if (ts->tv_sec > 9000000000ll)
    return ~0ull - 1;
  uint64_t base = (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE) ? kRealBase : kMonoBase;
  return t <= base ? 0 : t - base;
}

int do_cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t deadline, uintptr_t pc) {
  RtGuard g;
  access(reinterpret_cast<uintptr_t>(c), 1, 2, pc);
  MutexState& s = mutexes.get(m);
  if (s.owner != me->id + 1)
    finish_msg(kViolation, "T%d waits on a condition variable without holding the mutex", me->id);
  int count = s.count;
  release_mutex(m);
  me->wait = kCond;
  me->obj = c;
  me->obj2 = m;
  me->timed = timed;
  me->deadline = deadline;
  me->woken = false;
  schedule(3);
  bool timed_out = me->wait == kCond;  // neither signalled nor spuriously woken
  me->wait = kNone;
  acquire_mutex(m);
  mutexes.get(m).count = count;
  return timed_out ? ETIMEDOUT : 0;
}

void do_signal(pthread_cond_t* c, bool all, uintptr_t pc) {
  RtGuard g;
  access(reinterpret_cast<uintptr_t>(c), 1, 2, pc);
  simple_point(all ? 5 : 4);
  Thread* w[kMaxThreads];
  int n = 0;
  for (int k = 0; k < nthreads; ++k)
    if (threads[k].used && !threads[k].finished && threads[k].wait == kCond && threads[k].obj == c)
      w[n++] = &threads[k];
  if (!n)
    return;
  if (!all) {
    int i = n > 1 ? record(n, 0, 77) : 0;
    w[0] = w[i];
    n = 1;
  }
  for (int k = 0; k < n; ++k) {
    w[k]->wait = kMutex;
    w[k]->obj = w[k]->obj2;
    w[k]->timed = false;
  }
}

// ------------------------------------------------------------------ threads
void unwind_dtor(void*) {}

void* trampoline(void* p) {
  Thread* t = static_cast<Thread*>(p);
  wait_go(t);
  me = t;
  void* r = t->fn(t->arg);
  ++t->in_rt;
  t->finished = true;
  vtrace("ends");
  bool someone = false;
  for (int k = 0; k < nthreads; ++k)
    someone |= threads[k].used && !threads[k].finished;
  if (someone)
    schedule(6);
  return r;
}

struct RealFns {
  int (*create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  int (*pjoin)(pthread_t, void**);
  int (*detach)(pthread_t);
  int (*lock)(pthread_mutex_t*);
  int (*trylock)(pthread_mutex_t*);
  int (*unlock)(pthread_mutex_t*);
  int (*mdestroy)(pthread_mutex_t*);
  int (*wait)(pthread_cond_t*, pthread_mutex_t*);
  int (*timedwait)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
  int (*clockwait)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
  int (*signal)(pthread_cond_t*);
  int (*broadcast)(pthread_cond_t*);
  int (*once)(pthread_once_t*, void (*)());
  int (*gettime)(clockid_t, timespec*);
  int (*epoll)(int, epoll_event*, int, int);
  int (*epoll_ctl_)(int, int, int, epoll_event*);
  FILE* (*fopen_)(const char*, const char*);
  FILE* (*fopen64_)(const char*, const char*);
  int (*fclose_)(FILE*);
  ssize_t (*write_)(int, const void*, size_t);
  ssize_t (*writev_)(int, const iovec*, int);
  ssize_t (*read_)(int, void*, size_t);
  int (*open_)(const char*, int, ...);
  int (*open64_)(const char*, int, ...);
  int (*unlink_)(const char*);
  int (*unlinkat_)(int, const char*, int);
  int (*remove_)(const char*);
  int (*rename_)(const char*, const char*);
  int (*rmdir_)(const char*);
  int (*mkdir_)(const char*, mode_t);
  int (*statx_)(int, const char*, int, unsigned, struct statx*);
  int (*guard_acquire)(long long*);
  void (*guard_release)(long long*);
  void (*guard_abort)(long long*);
};
RealFns R;
void* (*real_sym(const char* n))() {
  return reinterpret_cast<void* (*)()>(dlsym(RTLD_NEXT, n));
}
template <typename F>
void load(F& f, const char* n) {
  if (!f)
    f = reinterpret_cast<F>(real_sym(n));
}
#define REAL(field, name) (load(R.field, name), R.field)

// ------------------------------------------------------------------ races
uint64_t n_access = 0;

void describe(char* buf, size_t cap, const Entry& e) {
  append(buf, cap, "%s%s by T%d at +0x%lx", (e.kind & 2) ? "atomic " : "", (e.kind & 1) ? "write" : "read",
         e.tid, static_cast<unsigned long>(rel(e.pc)));
}

void access1(uintptr_t granule, uint8_t mask, int kind, uintptr_t pc) {
  Page* p = page_of(granule, true);
  size_t i = (granule & 4095) >> 3;
  if (p->freed[i] & mask) {
    finish_msg(kViolation, "use of freed memory by T%d: %s at +0x%lx", me->id, (kind & 1) ? "write" : "read",
               static_cast<unsigned long>(rel(pc)));
  }
  Cell& c = p->cells[i];
  int id = me->id;
  Entry* same = nullptr;
  for (int k = 0; k < c.n; ++k) {
    Entry& e = c.e[k];
    if (!(e.mask & mask))
      continue;
    if (e.tid == id) {
      if (e.kind == kind) {
        e.mask &= static_cast<uint8_t>(~mask);
        same = &e;
      }
      continue;
    }
    if (!((e.kind | kind) & 1))
      continue;  // two reads
    if ((e.kind & 2) && (kind & 2))
      continue;  // two atomics
    if (e.clock <= me->vc.c[e.tid])
      continue;
    if (!scenario->races)
      continue;
    Entry now = {static_cast<uint8_t>(id), static_cast<uint8_t>(kind), mask, 0, 0, pc};
    char* m = res->message;
    m[0] = 0;
    append(m, sizeof res->message, "data race: ");
    describe(m, sizeof res->message, now);
    append(m, sizeof res->message, " is not ordered after ");
    describe(m, sizeof res->message, e);
    finish(kViolation);
  }
  if (same && same->mask == 0) {
    same->mask = mask;
    same->clock = me->vc.c[id];
    same->pc = pc;
    return;
  }
  // drop empty entries
  int w = 0;
  for (int k = 0; k < c.n; ++k)
    if (c.e[k].mask)
      c.e[w++] = c.e[k];
  c.n = static_cast<uint16_t>(w);
  if (c.n == c.cap) {
    c.cap = static_cast<uint16_t>(c.cap ? c.cap * 2 : 2);
    Entry* more = static_cast<Entry*>(rt_zeroed(c.cap * sizeof(Entry)));
    if (c.n)
      memcpy(static_cast<void*>(more), c.e, c.n * sizeof(Entry));
    rt_free(c.e);
    c.e = more;
  }
  c.e[c.n++] = {static_cast<uint8_t>(id), static_cast<uint8_t>(kind), mask, 0, me->vc.c[id], pc};
}

void access(uintptr_t addr, size_t size, int kind, uintptr_t pc) {
  ++n_access;
  while (size) {
    uintptr_t g = addr & ~7ull;
    size_t off = addr - g;
    size_t n = std::min<size_t>(8 - off, size);
    uint8_t mask = static_cast<uint8_t>(((1u << n) - 1) << off);
    access1(g, mask, kind, pc);
    addr += n;
    size -= n;
  }
}

void on_signal(int sig) {
  if (finishing)
    raw(SYS_exit_group, 0);
  if (!res->message[0])
    snprintf(res->message, sizeof res->message, "crash: signal %d (%s) in T%d", sig, strsignal(sig),
             me ? me->id : -1);
  finish(kCrash);
}

void on_terminate() {
  const char* what = "";
  const char* type = "none";
  static char buf[300];
  int st = 0;
  if (std::type_info* t = abi::__cxa_current_exception_type()) {
    type = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
    if (!type)
      type = t->name();
    try {
      throw;
    } catch (const std::exception& e) {
      snprintf(buf, sizeof buf, "%s", e.what());
      what = buf;
    } catch (...) {
    }
  }
  finish_msg(kCrash, "std::terminate called in T%d; current exception: %s %s", me ? me->id : -1, type, what);
}

// Runs one execution; does not return.
[[noreturn]] void child_main(const Scenario& s) {
  in_child = true;
  scenario = &s;
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_size = 65536;
  ss.ss_sp = malloc(ss.ss_size);
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
  for (int g : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL})
    sigaction(g, &sa, nullptr);
  std::set_terminate(on_terminate);
  nthreads = 1;
  Thread* t = &threads[0];
  memset(static_cast<void*>(t), 0, sizeof *t);
  t->id = 0;
  t->used = true;
  t->real = pthread_self();
  t->vc.c[0] = 1;
  me = t;
  active = true;
  s.body();
  ++me->in_rt;
  int alive = 0;
  for (int k = 1; k < nthreads; ++k)
    alive += threads[k].used && !threads[k].finished;
  if (alive)
    finish_msg(kViolation, "%d thread(s) still running at the end of the scenario", alive);
  res->accesses = n_access;
  finish(kOk);
}

}  // unnamed namespace

// ------------------------------------------------------------------ interface for bodies
void point(const char* what) {
  if (!modelled())
    return;
  RtGuard g;
  vtrace("point %s", what);
  simple_point(7);
}

static uint64_t idle_count = 0;
void idle() {
  if (!modelled())
    return;
  RtGuard g;
  vtrace("waits for all others to wait");
  me->wait = kIdle;
  me->deadline = ++idle_count;
  schedule(98);
}

int choose(int n, bool costs, const char* what) {
  if (!modelled() || n < 2)
    return 0;
  RtGuard g;
  int c = record(n, costs ? (0xffffu & ~1u) : 0, 99 + static_cast<uint32_t>(n));
  vtrace("choose %s: %d of %d", what, c, n);
  return c;
}

void fail(const std::string& message) {
  if (!in_child) {
    fprintf(stderr, "mc::fail outside an execution: %s\n", message.c_str());
    abort();
  }
  finish_msg(kViolation, "%s", message.c_str());
}

std::vector<std::string> known_keys;

void finding(const std::string& key, const std::string& message) {
  RtGuard g;
  for (auto& k : known_keys)
    if (k == key) {
      if (!res->finding_key[0]) {
        snprintf(res->finding_key, sizeof res->finding_key, "%s", key.c_str());
        snprintf(res->finding_text, sizeof res->finding_text, "%s", message.c_str());
      }
      return;
    }
  finish_msg(kViolation, "[%s] %s", key.c_str(), message.c_str());
}

void outcome(const std::string& text) {
  RtGuard g;
  uint64_t h = res->outcome ? res->outcome : 1469598103934665603ull;
  for (unsigned char ch : text) {
    h ^= ch;
    h *= 1099511628211ull;
  }
  res->outcome = h ? h : 1;
  append(res->outcome_text, sizeof res->outcome_text, "%s ", text.c_str());
}

uint64_t now_ns() { return vtime; }
int thread_id() { return me ? me->id : -1; }
bool replaying() { return verbose; }
void trace(const std::string& text) {
  RtGuard g;
  vtrace("%s", text.c_str());
}
// Runs after the destructors of all statics made later than this call.
void at_process_exit(void (*check)()) {
  exit_check = check;
  atexit([] {
    if (in_child && !finishing) {
      RtGuard g;
      exit_check();
      finish(kOk);
    }
  });
}
void quiet_exit() { finish(kOk); }

}  // namespace mc

using namespace mc;

// ==================================================================== interposed functions
#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))

extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!modelled())
    return REAL(create, "pthread_create")(out, attr, fn, arg);
  if (create_fault)
    if (const int error = create_fault())
      return error;
  RtGuard g;
  if (nthreads >= kMaxThreads)
    finish_msg(kViolation, "too many threads for the model checker");
  Thread* t = &threads[nthreads];
  memset(static_cast<void*>(t), 0, sizeof *t);
  t->id = nthreads;
  t->fn = fn;
  t->arg = arg;
  t->vc = me->vc;
  t->vc.c[t->id] = 1;
  ++me->vc.c[me->id];
  pthread_attr_t own;
  pthread_attr_init(&own);
  size_t stack = 512 * 1024;
  char* mem = static_cast<char*>(mmap(nullptr, stack, PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  pthread_attr_setstack(&own, mem, stack);
  int ds = 0;
  if (attr)
    pthread_attr_getdetachstate(attr, &ds);
  pthread_attr_setdetachstate(&own, ds);
  t->detached = ds == PTHREAD_CREATE_DETACHED;
  t->used = true;
  ++nthreads;
  int rc = REAL(create, "pthread_create")(&t->real, &own, trampoline, t);
  pthread_attr_destroy(&own);
  if (rc)
    finish_msg(kDivergence, "pthread_create failed: %d", rc);
  *out = t->real;
  vtrace("creates T%d", t->id);
  return 0;
}

int pthread_join(pthread_t th, void** ret) {
  if (!modelled())
    return REAL(pjoin, "pthread_join")(th, ret);
  RtGuard g;
  Thread* t = nullptr;
  for (int k = 0; k < nthreads; ++k)
    if (threads[k].used && threads[k].real == th)
      t = &threads[k];
  if (!t)
    finish_msg(kViolation, "T%d joins an unknown thread", me->id);
  if (t == me)
    return EDEADLK;
  vtrace("joins T%d", t->id);
  me->wait = kJoin;
  me->obj = t;
  me->timed = false;
  schedule(8);
  me->wait = kNone;
  join(me->vc, t->vc);
  int rc = REAL(pjoin, "pthread_join")(th, ret);
  t->real = 0;
  return rc;
}

int pthread_detach(pthread_t th) {
  if (modelled())
    for (int k = 0; k < nthreads; ++k)
      if (threads[k].real == th)
        threads[k].detached = true;
  return REAL(detach, "pthread_detach")(th);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!modelled())
    return (active && me) ? 0 : REAL(lock, "pthread_mutex_lock")(m);
  vtrace("lock %p", static_cast<void*>(m));
  return do_lock(m, false, PC);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!modelled())
    return (active && me) ? 0 : REAL(trylock, "pthread_mutex_trylock")(m);
  return do_lock(m, true, PC);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!modelled())
    return (active && me) ? 0 : REAL(unlock, "pthread_mutex_unlock")(m);
  vtrace("unlock %p", static_cast<void*>(m));
  return do_unlock(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!modelled())
    return 0;
  RtGuard g;
  MutexState* s = mutexes.find(m);
  if (s && s->owner)
    finish_msg(kViolation, "T%d destroys a locked mutex", me->id);
  if (s)
    memset(static_cast<void*>(s), 0, sizeof *s);
  return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  memset(static_cast<void*>(m), 0, sizeof *m);
  if (a) {
    int kind = 0;
    pthread_mutexattr_gettype(a, &kind);
    m->__data.__kind = kind;
  }
  if (active && me) {
    MutexState* s = mutexes.find(m);
    if (s)
      memset(static_cast<void*>(s), 0, sizeof *s);
  }
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!modelled())
    return REAL(wait, "pthread_cond_wait")(c, m);
  vtrace("cond wait %p", static_cast<void*>(c));
  return do_cond_wait(c, m, false, 0, PC);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
  if (!modelled())
    return REAL(timedwait, "pthread_cond_timedwait")(c, m, ts);
  vtrace("cond timedwait %p", static_cast<void*>(c));
  // boost's condition variables use the monotonic clock, pthread's default is the real-time clock;
  // the two bases are far enough apart to tell them from the value
  clockid_t clk = static_cast<uint64_t>(ts->tv_sec) > 1000000000ull ? CLOCK_REALTIME : CLOCK_MONOTONIC;
  return do_cond_wait(c, m, true, to_virtual(clk, ts), PC);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* ts) {
  if (!modelled())
    return REAL(clockwait, "pthread_cond_clockwait")(c, m, clk, ts);
  vtrace("cond clockwait %p", static_cast<void*>(c));
  return do_cond_wait(c, m, true, to_virtual(clk, ts), PC);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!modelled())
    return (active && me) ? 0 : REAL(signal, "pthread_cond_signal")(c);
  vtrace("cond signal %p", static_cast<void*>(c));
  do_signal(c, false, PC);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!modelled())
    return (active && me) ? 0 : REAL(broadcast, "pthread_cond_broadcast")(c);
  vtrace("cond broadcast %p", static_cast<void*>(c));
  do_signal(c, true, PC);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!modelled())
    return 0;
  RtGuard g;
  for (int k = 0; k < nthreads; ++k)
    if (threads[k].used && !threads[k].finished && threads[k].wait == kCond && threads[k].obj == c)
      finish_msg(kViolation, "T%d destroys a condition variable T%d waits on", me->id, k);
  return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!active || !me || me->finished)
    return REAL(once, "pthread_once")(o, fn);
  if (me->in_rt) {
    OnceState& s0 = onces.get(o);
    if (s0.state != 2) {
      s0.state = 2;
      fn();
    }
    return 0;
  }
  {
    RtGuard g;
    if (*reinterpret_cast<int*>(o) == 2)  // completed before the execution began
      return 0;
    me->wait = kOnce;
    me->obj = o;
    me->timed = false;
    schedule(9);
    me->wait = kNone;
    OnceState& s = onces.get(o);
    if (s.state == 2) {
      join(me->vc, s.vc);
      return 0;
    }
    s.state = 1;
  }
  try {
    fn();
  } catch (...) {
    RtGuard g;
    OnceState& s = onces.get(o);
    s.state = 0;
    s.vc = me->vc;
    ++me->vc.c[me->id];
    throw;
  }
  RtGuard g;
  OnceState& s = onces.get(o);
  s.state = 2;
  s.vc = me->vc;
  ++me->vc.c[me->id];
  return 0;
}

int __cxa_guard_acquire(long long* gd) {
  if (!active || !me || me->finished)
    return REAL(guard_acquire, "__cxa_guard_acquire")(gd);
  char* done = reinterpret_cast<char*>(gd);
  if (*done) {
    join(me->vc, sync_vars.get(gd).vc);
    return 0;
  }
  RtGuard g;
  OnceState* s = &onces.get(gd);
  if (me->in_rt > 1) {
    s->state = 1;
    return 1;
  }
  me->wait = kOnce;
  me->obj = gd;
  me->timed = false;
  schedule(10);
  me->wait = kNone;
  s = &onces.get(gd);
  if (*done) {
    join(me->vc, s->vc);
    return 0;
  }
  s->state = 1;
  return 1;
}
void __cxa_guard_release(long long* gd) {
  if (!active || !me || me->finished)
    return REAL(guard_release, "__cxa_guard_release")(gd);
  RtGuard g;
  OnceState& s = onces.get(gd);
  s.state = 2;
  s.vc = me->vc;
  sync_vars.get(gd).vc = me->vc;
  ++me->vc.c[me->id];
  *reinterpret_cast<char*>(gd) = 1;
}
void __cxa_guard_abort(long long* gd) {
  if (!active || !me || me->finished)
    return REAL(guard_abort, "__cxa_guard_abort")(gd);
  RtGuard g;
  onces.get(gd).state = 0;
}

static long futex_model(int* addr, int op, int val, const timespec* ts) {
  RtGuard g;
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    simple_point(11);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
      errno = EAGAIN;
      return -1;
    }
    me->timed = ts != nullptr;
    if (ts) {
      if (cmd == FUTEX_WAIT)
        me->deadline = vtime + static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + static_cast<uint64_t>(ts->tv_nsec);
      else
        me->deadline = to_virtual((op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
    }
    me->wait = kFutex;
    me->obj = addr;
    me->woken = false;
    schedule(12);
    me->wait = kNone;
    if (!me->woken) {
      errno = ETIMEDOUT;
      return -1;
    }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    simple_point(13);
    int n = 0;
    for (int k = 0; k < nthreads && n < val; ++k)
      if (threads[k].used && !threads[k].finished && threads[k].wait == kFutex && threads[k].obj == addr &&
          !threads[k].woken) {
        threads[k].woken = true;
        ++n;
      }
    return n;
  }
  errno = ENOSYS;
  return -1;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (long& x : a)
    x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && modelled())
    return futex_model(reinterpret_cast<int*>(a[0]), static_cast<int>(a[1]), static_cast<int>(a[2]),
                       reinterpret_cast<const timespec*>(a[3]));
  long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) {
    errno = static_cast<int>(-r);
    return -1;
  }
  return r;
}

int sched_yield() {
  if (!modelled())
    return static_cast<int>(raw(SYS_sched_yield));
  RtGuard g;
  me->yielding = true;
  simple_point(14);
  return 0;
}

static int sleep_until(uint64_t deadline) {
  RtGuard g;
  me->wait = kSleep;
  me->timed = true;
  me->deadline = deadline;
  me->yielding = true;
  schedule(15);
  me->wait = kNone;
  return 0;
}
int nanosleep(const timespec* ts, timespec* rem) {
  if (!modelled())
    return static_cast<int>(raw(SYS_nanosleep, reinterpret_cast<long>(ts), reinterpret_cast<long>(rem)));
  return sleep_until(vtime + static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + static_cast<uint64_t>(ts->tv_nsec));
}
int clock_nanosleep(clockid_t clk, int flags, const timespec* ts, timespec* rem) {
  if (!modelled())
    return static_cast<int>(-raw(SYS_clock_nanosleep, clk, flags, reinterpret_cast<long>(ts), reinterpret_cast<long>(rem)));
  uint64_t d = static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + static_cast<uint64_t>(ts->tv_nsec);
  return sleep_until((flags & TIMER_ABSTIME) ? to_virtual(clk, ts) : vtime + d);
}
int usleep(useconds_t us) {
  timespec ts = {static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) {
  timespec ts = {static_cast<time_t>(s), 0};
  nanosleep(&ts, nullptr);
  return 0;
}

int clock_gettime(clockid_t clk, timespec* ts) {
  if (!active || !me)
    return static_cast<int>(raw(SYS_clock_gettime, clk, reinterpret_cast<long>(ts)));
  vtime += 1000;  // time moves on, so that code polling the clock makes progress
  uint64_t base = (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE) ? kRealBase : kMonoBase;
  uint64_t t = base + vtime;
  ts->tv_sec = static_cast<time_t>(t / 1000000000ull);
  ts->tv_nsec = static_cast<long>(t % 1000000000ull);
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* out) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out)
    *out = ts.tv_sec;
  return ts.tv_sec;
}

int epoll_wait(int ep, epoll_event* ev, int max, int timeout) {
  if (!modelled())
    return REAL(epoll, "epoll_wait")(ep, ev, max, timeout);
  RtGuard g;
  if (timeout == 0) {
    simple_point(16);
  } else {
    me->wait = kEpoll;
    me->obj = reinterpret_cast<void*>(static_cast<intptr_t>(ep));
    me->timed = timeout > 0;
    me->deadline = vtime + static_cast<uint64_t>(timeout > 0 ? timeout : 0) * 1000000ull;
    schedule(17);
    me->wait = kNone;
  }
  const int n = REAL(epoll, "epoll_wait")(ep, ev, max, 0);
  for (int i = 0; i < n; ++i)
    join(me->vc, sync_vars.get(reinterpret_cast<const void*>(ev[i].data.u64 + 1)).vc);
  return n;
}
// Who is told of an event knows what preceded its registration.
int epoll_ctl(int ep, int op, int fd, epoll_event* ev) {
  if (modelled() && ev && op != EPOLL_CTL_DEL) {
    RtGuard g;
    join(sync_vars.get(reinterpret_cast<const void*>(ev->data.u64 + 1)).vc, me->vc);
    ++me->vc.c[me->id];
  }
  return REAL(epoll_ctl_, "epoll_ctl")(ep, op, fd, ev);
}

// ---- file operations: scheduling points and fault injection for scenarios that ask for it
static bool io_hooked() { return modelled() && scenario && scenario->io_points; }
static int io_event(const char* op, const char* path) {
  {
    RtGuard g;
    vtrace("%s %s", op, path ? path : "");
    simple_point(20);
  }
  if (io_fault) {
    int e = io_fault(op, path);
    if (e) {
      errno = e;
      return e;
    }
  }
  return 0;
}
static unsigned char regular[4096];

FILE* fopen(const char* p, const char* m) {
  if (!io_hooked())
    return REAL(fopen_, "fopen")(p, m);
  if (io_event(m[0] == 'r' ? "fopen-r" : "fopen-w", p))
    return nullptr;
  FILE* f = REAL(fopen_, "fopen")(p, m);
  if (f && fileno(f) < 4096)
    regular[fileno(f)] = 1;
  return f;
}
FILE* fopen64(const char* p, const char* m) {
  if (!io_hooked())
    return REAL(fopen64_, "fopen64")(p, m);
  if (io_event(m[0] == 'r' ? "fopen-r" : "fopen-w", p))
    return nullptr;
  FILE* f = REAL(fopen64_, "fopen64")(p, m);
  if (f && fileno(f) < 4096)
    regular[fileno(f)] = 1;
  return f;
}
int fclose(FILE* f) {
  int fd = f ? fileno(f) : -1;
  bool reg = fd >= 0 && fd < 4096 && regular[fd];
  if (reg)
    regular[fd] = 0;
  if (!reg || !io_hooked())
    return REAL(fclose_, "fclose")(f);
  int e = io_event("fclose", nullptr);
  int rc = REAL(fclose_, "fclose")(f);
  if (e) {
    errno = e;
    return EOF;
  }
  return rc;
}
ssize_t write(int fd, const void* b, size_t n) {
  if (fd >= 0 && fd < 4096 && regular[fd] && io_hooked()) {
    const int e = io_event("write", nullptr);
    if (e > 0)
      return -1;
    if (e < 0)  // only a part of it
      return REAL(write_, "write")(fd, b, (n + 1) / 2);
  }
  return REAL(write_, "write")(fd, b, n);
}
ssize_t writev(int fd, const iovec* v, int n) {
  if (fd >= 0 && fd < 4096 && regular[fd] && io_hooked() && io_event("write", nullptr))
    return -1;
  return REAL(writev_, "writev")(fd, v, n);
}
ssize_t read(int fd, void* b, size_t n) {
  if (fd >= 0 && fd < 4096 && regular[fd] && io_hooked() && io_event("read", nullptr))
    return -1;
  return REAL(read_, "read")(fd, b, n);
}
int open(const char* p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t mode = static_cast<mode_t>(va_arg(ap, int));
  va_end(ap);
  if (io_hooked() && io_event((flags & O_ACCMODE) == O_RDONLY ? "open-r" : "open-w", p))
    return -1;
  int fd = REAL(open_, "open")(p, flags, mode);
  if (fd >= 0 && fd < 4096 && modelled()) {
    struct stat st;
    regular[fd] = fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
  }
  return fd;
}
int open64(const char* p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t mode = static_cast<mode_t>(va_arg(ap, int));
  va_end(ap);
  return open(p, flags, mode);
}
int unlink(const char* p) {
  if (io_hooked() && io_event("unlink", p))
    return -1;
  return REAL(unlink_, "unlink")(p);
}
int unlinkat(int d, const char* p, int f) {
  if (io_hooked() && io_event("unlink", p))
    return -1;
  return REAL(unlinkat_, "unlinkat")(d, p, f);
}
int remove(const char* p) {
  if (io_hooked() && io_event("unlink", p))
    return -1;
  return REAL(remove_, "remove")(p);
}
int rename(const char* a, const char* b) {
  if (io_hooked() && io_event("rename", a))
    return -1;
  return REAL(rename_, "rename")(a, b);
}
int mkdir(const char* p, mode_t m) {
  if (io_hooked() && io_event("mkdir", p))
    return -1;
  return REAL(mkdir_, "mkdir")(p, m);
}
int statx(int d, const char* __restrict p, int flags, unsigned mask, struct statx* __restrict b) {
  if (io_hooked() && io_event("stat", p))
    return -1;
  return REAL(statx_, "statx")(d, p, flags, mask, b);
}
int rmdir(const char* p) {
  if (io_hooked() && io_event("rmdir", p))
    return -1;
  return REAL(rmdir_, "rmdir")(p);
}

// ==================================================================== instrumentation entry points
#define PLAIN(name, size, kind)                                       \
  void name(void* p) {                                                \
    if (modelled()) {                                                 \
      RtGuard g;                                                      \
      access(reinterpret_cast<uintptr_t>(p), size, kind, PC);         \
    }                                                                 \
  }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
PLAIN(__tsan_read1, 1, 0)
PLAIN(__tsan_read2, 2, 0)
PLAIN(__tsan_read4, 4, 0)
PLAIN(__tsan_read8, 8, 0)
PLAIN(__tsan_read16, 16, 0)
PLAIN(__tsan_write1, 1, 1)
PLAIN(__tsan_write2, 2, 1)
PLAIN(__tsan_write4, 4, 1)
PLAIN(__tsan_write8, 8, 1)
PLAIN(__tsan_write16, 16, 1)
PLAIN(__tsan_unaligned_read2, 2, 0)
PLAIN(__tsan_unaligned_read4, 4, 0)
PLAIN(__tsan_unaligned_read8, 8, 0)
PLAIN(__tsan_unaligned_read16, 16, 0)
PLAIN(__tsan_unaligned_write2, 2, 1)
PLAIN(__tsan_unaligned_write4, 4, 1)
PLAIN(__tsan_unaligned_write8, 8, 1)
PLAIN(__tsan_unaligned_write16, 16, 1)
PLAIN(__tsan_volatile_read1, 1, 0)
PLAIN(__tsan_volatile_read4, 4, 0)
PLAIN(__tsan_volatile_read8, 8, 0)
PLAIN(__tsan_volatile_write1, 1, 1)
PLAIN(__tsan_volatile_write4, 4, 1)
PLAIN(__tsan_volatile_write8, 8, 1)
PLAIN(__tsan_vptr_read, 8, 0)
void __tsan_vptr_update(void** p, void* v) {
  if (modelled() && *p != v) {
    RtGuard g;
    access(reinterpret_cast<uintptr_t>(p), 8, 1, PC);
  }
}
void __tsan_read_range(void* p, unsigned long n) {
  if (modelled()) {
    RtGuard g;
    access(reinterpret_cast<uintptr_t>(p), n, 0, PC);
  }
}
void __tsan_write_range(void* p, unsigned long n) {
  if (modelled()) {
    RtGuard g;
    access(reinterpret_cast<uintptr_t>(p), n, 1, PC);
  }
}

}  // extern "C"

namespace {

bool is_acquire(int mo) {
  return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME;
}
bool is_release(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

// load: bit 0, store: bit 1
void atomic_pre(const volatile void* p, size_t size, int kind, int mo, uintptr_t pc) {
  // Reference counting (32-bit add with acq_rel or relaxed order, as in shared_ptr) commutes and is
  // not a scheduling point; every other atomic operation is.
  bool refcount = kind == 3 && size == 4 && (mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_RELAXED);
  (void)pc;
  if (!refcount)
    simple_point(30 + static_cast<uint32_t>(kind));
  access(reinterpret_cast<uintptr_t>(p), size, 2 | ((kind & 2) ? 1 : 0), pc);
}
void atomic_post(const volatile void* p, int kind, int mo) {
  SyncVar& s = sync_vars.get(const_cast<const void*>(p));
  if (kind & 1) {
    if (is_acquire(mo))
      join(me->vc, s.vc);
    else
      join(me->acq_pending, s.vc);
  }
  if (kind & 2) {
    if (is_release(mo)) {
      if (kind & 1)
        join(s.vc, me->vc);
      else
        s.vc = me->vc;
      ++me->vc.c[me->id];
    } else if (kind & 1) {
      join(s.vc, me->rel_fence);
    } else {
      s.vc = me->rel_fence;
    }
  }
}

template <typename T>
T do_load(const volatile T* p, int mo, uintptr_t pc) {
  if (!modelled())
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);
  RtGuard g;
  atomic_pre(p, sizeof(T), 1, mo, pc);
  T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
  atomic_post(p, 1, mo);
  return v;
}
template <typename T>
void do_store(volatile T* p, T v, int mo, uintptr_t pc) {
  if (!modelled()) {
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
    return;
  }
  RtGuard g;
  atomic_pre(p, sizeof(T), 2, mo, pc);
  __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
  atomic_post(p, 2, mo);
}
enum Rmw { kXchg, kAdd, kSub, kAnd, kOr, kXor, kNand };
template <typename T>
T do_rmw(volatile T* p, T v, Rmw op, int mo, uintptr_t pc) {
  bool m = modelled();
  if (m) {
    ++me->in_rt;
    atomic_pre(p, sizeof(T), op == kAdd || op == kSub ? 3 : 7, mo, pc);
  }
  T r = 0;
  switch (op) {
    case kXchg: r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); break;
    case kAdd: r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); break;
    case kSub: r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); break;
    case kAnd: r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); break;
    case kOr: r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); break;
    case kXor: r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); break;
    case kNand: r = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); break;
  }
  if (m) {
    atomic_post(p, 3, mo);
    --me->in_rt;
  }
  return r;
}
template <typename T>
int do_cas(volatile T* p, T* expected, T v, int mo, int fmo, uintptr_t pc, bool weak) {
  if (!modelled())
    return __atomic_compare_exchange_n(p, expected, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  RtGuard g;
  (void)weak;
  atomic_pre(p, sizeof(T), 7, mo, pc);
  bool ok = __atomic_compare_exchange_n(p, expected, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  if (ok)
    atomic_post(p, 3, mo);
  else
    atomic_post(p, 1, fmo);
  return ok;
}

}  // unnamed namespace

extern "C" {
#define ATOMICS(bits, T)                                                                              \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) { return do_load<T>(p, mo, PC); }         \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { do_store<T>(p, v, mo, PC); }         \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return do_rmw<T>(p, v, kXchg, mo, PC); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { return do_rmw<T>(p, v, kAdd, mo, PC); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { return do_rmw<T>(p, v, kSub, mo, PC); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { return do_rmw<T>(p, v, kAnd, mo, PC); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { return do_rmw<T>(p, v, kOr, mo, PC); }   \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { return do_rmw<T>(p, v, kXor, mo, PC); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { return do_rmw<T>(p, v, kNand, mo, PC); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) {     \
    return do_cas<T>(p, e, v, mo, fmo, PC, false);                                                    \
  }                                                                                                   \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) {       \
    return do_cas<T>(p, e, v, mo, fmo, PC, true);                                                     \
  }                                                                                                   \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) {           \
    do_cas<T>(p, &e, v, mo, fmo, PC, false);                                                          \
    return e;                                                                                         \
  }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)

void __tsan_atomic_thread_fence(int mo) {
  if (!modelled())
    return;
  RtGuard g;
  simple_point(40);
  if (is_acquire(mo))
    join(me->vc, me->acq_pending);
  if (is_release(mo)) {
    me->rel_fence = me->vc;
    ++me->vc.c[me->id];
  }
}
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

// ---- memory: nothing is reused during an execution, so every use after deletion is seen
static void mc_free(void* p) {
  if (!p)
    return;
  if (!active || !me) {
    rt_free(p);
    return;
  }
  if (me->finished)
    return;
  RtGuard g;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  size_t n = size_of(p);
  if (me->in_rt == 1) {
    Page* pg0 = page_of(a, true);
    if (pg0->freed[(a & 4095) >> 3])
      finish_msg(kViolation, "T%d deletes memory that was deleted before", me->id);
  }
  for (uintptr_t x = a; x < a + n; x += 8) {
    Page* pg = page_of(x, true);
    size_t i = (x & 4095) >> 3;
    // a deletion is a write: it must be ordered after every other thread's accesses
    Cell& c = pg->cells[i];
    if (me->in_rt == 1 && scenario->races)
      for (int k = 0; k < c.n; ++k)
        if (c.e[k].mask && c.e[k].tid != me->id && !(c.e[k].kind & 2) && c.e[k].clock > me->vc.c[c.e[k].tid]) {
          char* m = res->message;
          m[0] = 0;
          append(m, sizeof res->message, "data race: deletion by T%d is not ordered after ", me->id);
          describe(m, sizeof res->message, c.e[k]);
          finish(kViolation);
        }
    pg->freed[i] = 0xff;
  }
}
// What comes from malloc (exceptions, mostly) is reused: its former accesses are forgotten.
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_memalign(size_t, size_t);
void* __libc_realloc(void*, size_t);
static void* fresh(void* p, size_t n) {
  if (p && n && active && me && !me->finished) {
    RtGuard g;
    clear_range(reinterpret_cast<uintptr_t>(p), reinterpret_cast<uintptr_t>(p) + n);
  }
  return p;
}
void* malloc(size_t n) { return fresh(__libc_malloc(n), n); }
void* calloc(size_t n, size_t m) { return fresh(__libc_calloc(n, m), n * m); }
void* realloc(void* p, size_t n) {
  void* q = __libc_realloc(p, n);
  return q == p ? q : fresh(q, n);
}
void* aligned_alloc(size_t a, size_t n) { return fresh(__libc_memalign(a, n), n); }
int posix_memalign(void** p, size_t a, size_t n) {
  *p = fresh(__libc_memalign(a, n), n);
  return *p ? 0 : ENOMEM;
}
}
static void* mc_alloc_quietly(size_t n) {
  void* p = arena_alloc(n);
  return p ? p : malloc(n ? n : 1);
}
static void* mc_alloc(size_t n) {
  void* p = mc_alloc_quietly(n);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return mc_alloc(n); }
void* operator new[](size_t n) { return mc_alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return mc_alloc_quietly(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return mc_alloc_quietly(n); }
void operator delete(void* p) noexcept { mc_free(p); }
void operator delete[](void* p) noexcept { mc_free(p); }
void operator delete(void* p, size_t) noexcept { mc_free(p); }
void operator delete[](void* p, size_t) noexcept { mc_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mc_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mc_free(p); }

extern "C" void _exit(int code) {
  if (in_child && !finishing) {
    RtGuard g;
    if (exit_check)
      exit_check();
    finish(kOk);
  }
  raw(SYS_exit_group, code);
  __builtin_unreachable();
}

// ==================================================================== the explorer
namespace mc {
namespace {

double now_s() {
  timespec ts;
  raw(SYS_clock_gettime, CLOCK_MONOTONIC, reinterpret_cast<long>(&ts));
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

const uint32_t kNoNode = ~0u;
struct Node {  // one execution = the deviations on the path to the root
  uint32_t parent;
  uint32_t sig;
  uint16_t idx;
  uint8_t choice, depth;
};

struct JobHeader {
  int32_t scenario, ndevs;
  uint32_t sig, node;
};
struct Reply {
  uint32_t node;
  int32_t status, npoints, first;  // points from `first` on follow
  uint64_t outcome;
  uint32_t nalts;  // number of AltPoint records that follow
  char finding_key[64], finding_text[512];
};
struct AltPoint {
  uint16_t idx, costs;
  uint8_t nopts, cost_before;
  uint16_t pad;
  uint32_t sig;
};

std::vector<Scenario>* scen;

void reset_result() {
  res->status = kRunning;
  res->npoints = 0;
  res->cost = 0;
  res->outcome = 0;
  res->accesses = 0;
  res->message[0] = res->outcome_text[0] = res->finding_key[0] = res->finding_text[0] = 0;
}

// Runs one execution in a forked child.
void run_one(int sc, const std::vector<Dev>& d, uint32_t sig, unsigned limit) {
  reset_result();
  ndevs = static_cast<int>(d.size());
  for (int i = 0; i < ndevs; ++i)
    devs[i] = d[i];
  next_dev = 0;
  expect_sig = sig;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGALRM, SIG_DFL);
    alarm(limit);
    if (!verbose) {
      int n = static_cast<int>(raw(SYS_open, reinterpret_cast<long>("/dev/null"), O_WRONLY));
      dup2(n, 1);
      dup2(n, 2);
    }
    child_main((*scen)[sc]);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (res->status == kRunning) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
      if (limit < 40)
        return run_one(sc, d, sig, 60);
      res->status = kDeadlock;
      snprintf(res->message, sizeof res->message, "the execution does not end (stopped after %u s)", limit);
    } else if (WIFSIGNALED(st)) {
      res->status = kCrash;
      snprintf(res->message, sizeof res->message, "the execution died of signal %d", WTERMSIG(st));
    } else {
      res->status = kCrash;
      snprintf(res->message, sizeof res->message, "the process exited early with code %d", WEXITSTATUS(st));
    }
  }
}

bool read_all(int fd, void* b, size_t n) {
  char* p = static_cast<char*>(b);
  while (n) {
    long r = raw(SYS_read, fd, reinterpret_cast<long>(p), static_cast<long>(n));
    if (r == -EINTR)
      continue;
    if (r <= 0)
      return false;
    p += r;
    n -= static_cast<size_t>(r);
  }
  return true;
}
bool write_all(int fd, const void* b, size_t n) {
  const char* p = static_cast<const char*>(b);
  while (n) {
    long r = raw(SYS_write, fd, reinterpret_cast<long>(p), static_cast<long>(n));
    if (r == -EINTR)
      continue;
    if (r <= 0)
      return false;
    p += r;
    n -= static_cast<size_t>(r);
  }
  return true;
}

void map_result() {
  res = static_cast<Result*>(mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}

[[noreturn]] void worker(int fd, int number) {
  cpu_set_t set;
  CPU_ZERO(&set);
  long ncpu = sysconf(_SC_NPROCESSORS_ONLN);
  cpu_set_t allowed;
  if (sched_getaffinity(0, sizeof allowed, &allowed) == 0 && ncpu > 1) {
    std::vector<int> cpus;
    for (int i = 0; i < CPU_SETSIZE; ++i)
      if (CPU_ISSET(i, &allowed))
        cpus.push_back(i);
    if (!cpus.empty()) {
      CPU_SET(cpus[static_cast<size_t>(number) % cpus.size()], &set);
      sched_setaffinity(0, sizeof set, &set);
    }
  }
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  map_result();
  std::vector<char> out;
  for (;;) {
    uint32_t n;
    if (!read_all(fd, &n, sizeof n) || n == 0)
      raw(SYS_exit_group, 0);
    out.clear();
    std::vector<std::pair<JobHeader, std::vector<Dev>>> jobs(n);
    for (auto& j : jobs) {
      read_all(fd, &j.first, sizeof j.first);
      j.second.resize(static_cast<size_t>(j.first.ndevs));
      read_all(fd, j.second.data(), sizeof(Dev) * j.second.size());
    }
    for (auto& j : jobs) {
      const std::vector<Dev>& d = j.second;
      run_one(j.first.scenario, d, j.first.sig, 20);
      Reply r;
      memset(&r, 0, sizeof r);
      r.node = j.first.node;
      r.status = res->status;
      r.npoints = res->npoints;
      r.first = d.empty() ? 0 : d.back().idx + 1;
      r.outcome = res->outcome;
      memcpy(r.finding_key, res->finding_key, sizeof r.finding_key);
      memcpy(r.finding_text, res->finding_text, sizeof r.finding_text);
      if (r.status != kOk)
        snprintf(r.finding_text, sizeof r.finding_text, "%s", res->message);
      std::vector<AltPoint> alts;
      int cost = 0;
      for (int i = 0; i < res->npoints; ++i) {
        const Point& p = res->points[i];
        if (i >= r.first && p.nopts > 1)
          alts.push_back({static_cast<uint16_t>(i), p.costs, p.nopts,
                          static_cast<uint8_t>(cost > 255 ? 255 : cost), 0, p.sig});
        cost += (p.costs >> p.chosen) & 1;
      }
      r.nalts = static_cast<uint32_t>(alts.size());
      size_t at = out.size();
      out.resize(at + sizeof r + alts.size() * sizeof(AltPoint));
      memcpy(&out[at], &r, sizeof r);
      if (!alts.empty())
        memcpy(&out[at + sizeof r], alts.data(), alts.size() * sizeof(AltPoint));
      if (res->status != kOk)
        break;
    }
    uint64_t size = out.size();
    write_all(fd + 1, &size, sizeof size);
    write_all(fd + 1, out.data(), out.size());
  }
}

std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += static_cast<char>(c);
    }
  }
  return r + "\"";
}

// Replaces +0x... positions by function and line.
std::string symbolise(const std::string& m) {
  std::string r;
  size_t i = 0;
  char exe[4096];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (n <= 0)
    return m;
  exe[n] = 0;
  while (i < m.size()) {
    size_t j = m.find("+0x", i);
    if (j == std::string::npos)
      break;
    r += m.substr(i, j - i);
    size_t k = j + 3;
    while (k < m.size() && isxdigit(static_cast<unsigned char>(m[k])))
      ++k;
    std::string cmd = "addr2line -s -f -C -e '" + std::string(exe) + "' 0x" + m.substr(j + 3, k - j - 3) + " 2>/dev/null";
    std::string text;
    if (FILE* f = popen(cmd.c_str(), "r")) {
      char b[1000];
      std::string lines[2];
      for (auto& l : lines)
        if (fgets(b, sizeof b, f)) {
          l = b;
          while (!l.empty() && l.back() == '\n')
            l.pop_back();
        }
      pclose(f);
      if (lines[0].size() > 140)
        lines[0] = lines[0].substr(0, 140) + "...";
      text = lines[0] + " (" + lines[1] + ")";
    }
    r += text.empty() ? m.substr(j, k - j) : text;
    i = k;
  }
  return r + m.substr(i);
}

const char* status_name(int s) {
  static const char* n[] = {"running", "ok", "violation", "crash", "deadlock", "livelock", "divergence"};
  return n[s];
}

std::string dev_string(const std::string& name, const std::vector<Dev>& d) {
  std::string s = name + "|";
  for (size_t i = 0; i < d.size(); ++i)
    s += (i ? "," : "") + std::to_string(d[i].idx) + ":" + std::to_string(d[i].choice);
  return s;
}

struct Totals {
  uint64_t executions = 0, transitions = 0, states = 0, outcomes = 0;
  bool capped = false;
  std::vector<std::string> infos, samples;
  std::vector<std::pair<std::string, uint64_t>> per;
  std::vector<std::pair<std::string, std::string>> findings;
};

void write_json(const std::string& path, const Totals& t, const std::string& status, const std::string& message,
                const std::string& section, const std::string& replay) {
  if (path.empty())
    return;
  std::ostringstream o;
  o << "{\"status\":" << jstr(status) << ",\"key\":\"\",\"message\":" << jstr(message)
    << ",\"section\":" << jstr(section) << ",\"index\":0,\"replay\":" << jstr(replay)
    << ",\"evaluations\":" << t.executions << ",\"transitions\":" << t.transitions
    << ",\"histories\":" << t.executions << ",\"states\":" << t.states << ",\"outcomes\":" << t.outcomes
    << ",\"capped\":" << (t.capped ? "true" : "false") << ",\"per_section\":{";
  for (size_t i = 0; i < t.per.size(); ++i)
    o << (i ? "," : "") << jstr(t.per[i].first) << ":" << t.per[i].second;
  o << "},\"findings\":{";
  for (size_t i = 0; i < t.findings.size(); ++i)
    o << (i ? "," : "") << jstr(t.findings[i].first) << ":" << jstr(t.findings[i].second);
  o << "},\"samples\":[";
  for (size_t i = 0; i < t.samples.size(); ++i)
    o << (i ? "," : "") << jstr(t.samples[i]);
  o << "],\"infos\":[";
  for (size_t i = 0; i < t.infos.size(); ++i)
    o << (i ? "," : "") << jstr(t.infos[i]);
  o << "]}\n";
  std::string s = o.str(), tmp = path + ".tmp";
  if (FILE* f = fopen(tmp.c_str(), "w")) {
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
    rename(tmp.c_str(), path.c_str());
  }
}

}  // unnamed namespace

int run(int argc, char** argv, std::vector<Scenario> scenarios) {
  std::string out_path, replay, only;
  int jobs = 8;
  double budget = 60;
  bool thorough = false;
  int bound_override = -1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--out") out_path = next();
    else if (a == "--jobs") jobs = atoi(next().c_str());
    else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--thorough") thorough = true;
    else if (a == "--known") known_keys.push_back(next());
    else if (a == "--replay") replay = next();
    else if (a == "--scenario") only = next();
    else if (a == "--bound") bound_override = atoi(next().c_str());
  }
  if (!getenv("MC_NO_ASLR")) {  // the same addresses in every run
    setenv("MC_NO_ASLR", "1", 1);
    if (raw(SYS_personality, 0x0040000) >= 0)
      execv("/proc/self/exe", argv);
  }
  mallopt(M_ARENA_MAX, 1);
  signal(SIGPIPE, SIG_IGN);
  map_arena();
  scen = &scenarios;
  for (auto& s : scenarios)
    if (s.warmup && (only.empty() || only == s.name))
      s.warmup();

  if (!replay.empty()) {
    size_t bar = replay.find('|');
    std::string name = replay.substr(0, bar);
    std::vector<Dev> d;
    for (size_t i = bar + 1; bar != std::string::npos && i < replay.size();) {
      unsigned a = 0, b = 0;
      if (sscanf(replay.c_str() + i, "%u:%u", &a, &b) == 2)
        d.push_back({static_cast<uint16_t>(a), static_cast<uint8_t>(b)});
      size_t c = replay.find(',', i);
      if (c == std::string::npos)
        break;
      i = c + 1;
    }
    map_result();
    verbose = true;
    for (size_t s = 0; s < scenarios.size(); ++s)
      if (scenarios[s].name == name) {
        run_one(static_cast<int>(s), d, 0, 60);
        printf("%s: %s\noutcome: %s\npoints: %d, cost %d\n", status_name(res->status),
               symbolise(res->message).c_str(), res->outcome_text, res->npoints, res->cost);
        return res->status == kOk ? 0 : 1;
      }
    fprintf(stderr, "no scenario %s\n", name.c_str());
    return 2;
  }

  std::vector<int> fds(static_cast<size_t>(jobs));
  for (int w = 0; w < jobs; ++w) {
    int up[2], down[2];
    if (pipe(up) || pipe(down))
      return 2;
    pid_t pid = fork();
    if (pid == 0) {
      dup2(down[0], 100);
      dup2(up[1], 101);
      for (int f = 3; f < 100; ++f)
        close(f);
      worker(100, w);  // reads from 100, writes to 101
    }
    close(up[1]);
    close(down[0]);
    fds[static_cast<size_t>(w)] = up[0] | (down[1] << 16);
  }
  auto rfd = [&](int w) { return fds[static_cast<size_t>(w)] & 0xffff; };
  auto wfd = [&](int w) { return fds[static_cast<size_t>(w)] >> 16; };

  Totals total;
  double t0 = now_s(), weight_left = 0;
  for (auto& s : scenarios)
    if ((only.empty() || only == s.name) && (thorough || bound_override >= 0 || s.quick_bound >= 0))
      weight_left += s.weight;
  for (size_t sc = 0; sc < scenarios.size(); ++sc) {
    Scenario& s = scenarios[sc];
    if (!only.empty() && only != s.name)
      continue;
    if (!thorough && bound_override < 0 && s.quick_bound < 0)
      continue;
    double start = now_s();
    double share = (budget - (start - t0)) * s.weight / weight_left;
    weight_left -= s.weight;
    double deadline = start + std::max(share, 1.0);
    int bound = bound_override >= 0 ? bound_override : thorough ? s.thorough_bound : s.quick_bound;
    std::vector<Node> nodes;
    std::vector<std::vector<uint32_t>> bucket(static_cast<size_t>(bound) + 1);
    std::vector<size_t> head(static_cast<size_t>(bound) + 1, 0);
    nodes.push_back({kNoNode, 0, 0, 0, 0});
    bucket[0].push_back(0);
    uint64_t execs = 0, trans = 0, states = 0;
    std::vector<uint64_t> outcome_set;
    std::vector<bool> busy(static_cast<size_t>(jobs), false);
    int inflight = 0, level = 0, completed = -1;
    bool stop = false, bad = false;
    uint32_t bad_node = 0;
    int bad_status = 0;
    std::string bad_text;
    std::vector<uint32_t> first_nodes;
    auto devs_of = [&](uint32_t n) {
      std::vector<Dev> d;
      while (n != kNoNode && nodes[n].parent != kNoNode) {
        d.push_back({nodes[n].idx, nodes[n].choice});
        n = nodes[n].parent;
      }
      std::reverse(d.begin(), d.end());
      return d;
    };
    for (;;) {
      // hand out work
      for (int w = 0; w < jobs && !stop && !bad; ++w) {
        if (busy[static_cast<size_t>(w)])
          continue;
        while (level <= bound && head[static_cast<size_t>(level)] == bucket[static_cast<size_t>(level)].size() && inflight == 0) {
          completed = level;
          ++level;
        }
        if (level > bound)
          break;
        auto& b = bucket[static_cast<size_t>(level)];
        auto& h = head[static_cast<size_t>(level)];
        size_t left = b.size() - h;
        if (!left)
          break;
        uint32_t n = static_cast<uint32_t>(std::max<size_t>(1, std::min<size_t>(48, left / (static_cast<size_t>(jobs) * 2))));
        std::vector<char> buf(sizeof n);
        memcpy(buf.data(), &n, sizeof n);
        for (uint32_t k = 0; k < n; ++k) {
          uint32_t node = b[h++];
          std::vector<Dev> d = devs_of(node);
          JobHeader jh = {static_cast<int32_t>(sc), static_cast<int32_t>(d.size()), nodes[node].sig, node};
          size_t at = buf.size();
          buf.resize(at + sizeof jh + d.size() * sizeof(Dev));
          memcpy(&buf[at], &jh, sizeof jh);
          if (!d.empty())
            memcpy(&buf[at + sizeof jh], d.data(), d.size() * sizeof(Dev));
        }
        if (!write_all(wfd(w), buf.data(), buf.size()))
          return 2;
        busy[static_cast<size_t>(w)] = true;
        ++inflight;
      }
      if (!inflight)
        break;
      std::vector<pollfd> p;
      std::vector<int> who;
      for (int w = 0; w < jobs; ++w)
        if (busy[static_cast<size_t>(w)]) {
          p.push_back({rfd(w), POLLIN, 0});
          who.push_back(w);
        }
      raw(SYS_poll, reinterpret_cast<long>(p.data()), static_cast<long>(p.size()), -1);
      for (size_t k = 0; k < p.size(); ++k) {
        if (!p[k].revents)
          continue;
        int w = who[k];
        uint64_t size;
        if (!read_all(rfd(w), &size, sizeof size)) {
          fprintf(stderr, "mc: a worker died\n");
          return 2;
        }
        std::vector<char> in(size);
        if (!read_all(rfd(w), in.data(), size))
          return 2;
        busy[static_cast<size_t>(w)] = false;
        --inflight;
        for (size_t at = 0; at < size;) {
          Reply r;
          memcpy(&r, &in[at], sizeof r);
          at += sizeof r;
          ++execs;
          trans += static_cast<uint64_t>(r.npoints);
          states += static_cast<uint64_t>(r.npoints >= r.first ? r.npoints - r.first + 1 : 1);
          outcome_set.push_back(r.outcome);
          if (outcome_set.size() > 4000000) {
            std::sort(outcome_set.begin(), outcome_set.end());
            outcome_set.erase(std::unique(outcome_set.begin(), outcome_set.end()), outcome_set.end());
          }
          if (r.finding_key[0]) {
            bool have = false;
            for (auto& f : total.findings)
              have |= f.first == r.finding_key;
            if (!have)
              total.findings.push_back({r.finding_key, std::string(r.finding_text) + "   schedule " +
                                                           dev_string(s.name, devs_of(r.node))});
          }
          if (first_nodes.size() < 400)
            first_nodes.push_back(r.node);
          if (r.status != kOk && !bad) {
            bad = true;
            bad_node = r.node;
            bad_status = r.status;
            bad_text = r.finding_text;
          }
          for (uint32_t q = 0; q < r.nalts; ++q) {
            AltPoint a;
            memcpy(&a, &in[at], sizeof a);
            at += sizeof a;
            if (bad || stop)
              continue;
            if (nodes[r.node].depth >= 250)
              continue;
            for (int c = 1; c < a.nopts; ++c) {
              int cost = a.cost_before + ((a.costs >> c) & 1);
              if (cost > bound)
                continue;
              nodes.push_back({r.node, a.sig, a.idx, static_cast<uint8_t>(c),
                               static_cast<uint8_t>(nodes[r.node].depth + 1)});
              bucket[static_cast<size_t>(cost)].push_back(static_cast<uint32_t>(nodes.size() - 1));
            }
          }
          if (nodes.size() > 60000000)
            stop = true;
        }
      }
      if (now_s() > deadline)
        stop = true;
    }
    std::sort(outcome_set.begin(), outcome_set.end());
    outcome_set.erase(std::unique(outcome_set.begin(), outcome_set.end()), outcome_set.end());
    total.executions += execs;
    total.transitions += trans;
    total.states += states;
    total.outcomes += outcome_set.size();
    total.per.push_back({s.name, execs});
    bool capped = !bad && completed < bound;
    total.capped |= capped;
    char line[400];
    snprintf(line, sizeof line,
             "%s: %llu executions, %llu scheduling points, %zu distinct outcomes, deviation bound %d%s (%.1f s)",
             s.name.c_str(), static_cast<unsigned long long>(execs), static_cast<unsigned long long>(trans),
             outcome_set.size(), completed, capped ? " completed, next bound cut short by the time budget" : " completed",
             now_s() - start);
    total.infos.push_back(line);
    if (!bad)
      fprintf(stderr, "%s\n", line);
    map_result();
    if (!bad && !first_nodes.empty()) {  // replay two executions twice: the same observations
      for (size_t pick : {first_nodes.size() / 2, first_nodes.size() - 1}) {
        std::vector<Dev> d = devs_of(first_nodes[pick]);
        uint64_t seen[2];
        for (int k = 0; k < 2; ++k) {
          run_one(static_cast<int>(sc), d, 0, 60);
          seen[k] = res->outcome * 31 + static_cast<uint64_t>(res->npoints) * 7 + rolling * 0 +
                    (res->npoints ? res->points[res->npoints - 1].sig : 0);
        }
        if (seen[0] != seen[1]) {
          bad_status = kDivergence;
          bad = true;
          snprintf(res->message, sizeof res->message, "two runs of %s differ", dev_string(s.name, d).c_str());
          fprintf(stderr, "%s\n", res->message);
          write_json(out_path, total, "error", res->message, s.name, "");
          return 3;
        }
        total.samples.push_back("schedule " + dev_string(s.name, d) + " -> " + res->outcome_text);
      }
    }
    if (bad) {
      std::vector<Dev> d = devs_of(bad_node);
      std::string first_message;
      bool same = true;
      for (int k = 0; k < 2; ++k) {
        run_one(static_cast<int>(sc), d, nodes[bad_node].sig, 60);
        if (k == 0)
          first_message = res->message;
        same = same && res->status == bad_status && first_message == res->message;
      }
      std::string m = std::string(status_name(bad_status)) + ": " + symbolise(first_message);
      std::string rep = dev_string(s.name, d);
      fprintf(stderr, "mc: scenario %s: %s\n    replay: %s\n", s.name.c_str(), m.c_str(), rep.c_str());
      if (!same || bad_status == kDivergence) {
        write_json(out_path, total, "error", "not reproducible: " + symbolise(bad_text) + " / " + m + " / " + res->message, s.name, rep);
        fprintf(stderr, "    not reproducible, was: %s\n", symbolise(bad_text).c_str());
        return 3;
      }
      write_json(out_path, total, "violation", m, s.name, rep);
      return 1;
    }
  }
  write_json(out_path, total, "ok", "", "", "");
  uint32_t zero = 0;
  for (int w = 0; w < jobs; ++w)
    write_all(wfd(w), &zero, sizeof zero);
  fflush(nullptr);
  raw(SYS_exit_group, 0);
  return 0;
}

}  // namespace mc
