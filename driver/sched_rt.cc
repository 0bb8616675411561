// A deterministic scheduler. The code under test is compiled with
// -fsanitize=thread but not linked with that sanitizer: its instrumentation
// calls the functions below before every memory access and atomic operation,
// and the locking functions are interposed, so that exactly one of the managed
// threads runs at any time and a switch can be made at every such step.
#include "sched_rt.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <future>
#include <memory>
#include <sstream>

namespace sched {

std::function<void(const std::string&)> on_deadlock;

namespace {

enum { RUNNABLE, BLOCKED, ENDED };

const int kThreads = 8;
struct Clock {
  uint32_t c[kThreads] = {};
  void Join(const Clock& o) {
    for (int i = 0; i < kThreads; ++i) c[i] = std::max(c[i], o.c[i]);
  }
};

struct Th {
  int id = 0;
  Clock clock;
  int turn = 0;  // futex
  int state = RUNNABLE;
  int atomic = 0;
  std::function<void()> body;
  pthread_t pt;
};

thread_local Th* self = nullptr;
std::vector<std::unique_ptr<Th>> ths;
Schedule sc;
size_t is, jf;
long cs, cf;
uint64_t rng;
// A thread that only goes round and round waits for another one.
const long kPatience = 200000;
long since;

uint64_t Rand() {
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return rng;
}

void Wait(Th* t) {
  while (__atomic_load_n(&t->turn, __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, &t->turn, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(&t->turn, 0, __ATOMIC_RELAXED);
}
void Give(Th* t) {
  __atomic_store_n(&t->turn, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, &t->turn, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
Th* Other() {
  Th* c[16];
  int n = 0;
  for (size_t i = 1; i < ths.size(); ++i)
    if (ths[i].get() != self && ths[i]->state == RUNNABLE) c[n++] = ths[i].get();
  return n ? c[Rand() % n] : nullptr;
}
void SwitchTo(Th* t) {
  Th* me = self;
  since = 0;
  Give(t);
  Wait(me);
}
void Switch() {
  Th* t = Other();
  if (t) SwitchTo(t);
}
void Deadlock() {
  std::string s = "DEADLOCK under schedule " + sc.Text() + ", threads waiting:";
  for (auto& t : ths)
    if (t->state == BLOCKED) s += " " + std::to_string(t->id);
  if (on_deadlock) on_deadlock(s);
  fprintf(stderr, "%s\n", s.c_str());
  _exit(97);
}
// The current thread cannot go on until another one has done something.
void Block() {
  Th* me = self;
  me->state = BLOCKED;
  Th* t = Other();
  if (!t) {
    if (me->id == 0) Deadlock();
    t = ths[0].get();
    if (t->state == BLOCKED) Deadlock();
  }
  SwitchTo(t);
  me->state = RUNNABLE;
}
void WakeAll() {
  for (auto& t : ths)
    if (t->state == BLOCKED) t->state = RUNNABLE;
}

inline void PointS() {
  Th* me = self;
  if (!me || me->id == 0 || me->atomic) return;
  long n = cs++;
  bool sw = ++since > kPatience;
  while (is < sc.s.size() && sc.s[is] <= n) ++is, sw = true;
  if (!sw && sc.ws) sw = Rand() % sc.ws == 0;
  if (sw) Switch();
}
inline void PointF() {
  Th* me = self;
  if (!me || me->id == 0 || me->atomic) return;
  long n = cf++;
  bool sw = ++since > kPatience;
  while (jf < sc.f.size() && sc.f[jf] <= n) ++jf, sw = true;
  if (!sw && sc.wf) sw = Rand() % sc.wf == 0;
  if (sw) Switch();
}

void* Main(void* p) {
  Th* t = static_cast<Th*>(p);
  self = t;
  Wait(t);
  t->body();
  t->state = ENDED;
  WakeAll();
  self = nullptr;
  Th* o = Other();
  Give(o ? o : ths[0].get());
  return nullptr;
}

// ---------------------------------------------------------------------------
// The heap of C++. What is deleted during a run is not used again before its
// end, and instrumented code may not touch it.
const size_t kHeap = 16ull << 30, kGrain = 16, kClasses = 192;
char* heap;                // a block's class stands in front of it
unsigned char* deleted;    // per grain
size_t heap_used;
struct FreeBlock {
  FreeBlock* next;
};
FreeBlock* free_blocks[kClasses];
std::atomic_flag heap_lock = ATOMIC_FLAG_INIT;
bool quarantining;
char* quarantine[1 << 20];
size_t quarantined;

size_t ClassSize(size_t c) { return c < 128 ? (c + 1) * kGrain : size_t{2048} << (c - 127); }
size_t ClassOf(size_t n) {
  if (n <= 2048) return n ? (n - 1) / kGrain : 0;
  size_t c = 128;
  while (ClassSize(c) < n) ++c;
  return c;
}
[[noreturn]] void HeapError(const char* what) {
  fprintf(stderr, "%s under schedule %s, thread %d\n", what, sc.Text().c_str(), self ? self->id : 0);
  fflush(stderr);
  _exit(98);
}
void* Allocate(size_t n) {
  // Asked for by what was deleted, and would throw.
  if (n > size_t{1} << 32) HeapError("IMPOSSIBLE ALLOCATION");
  while (heap_lock.test_and_set(std::memory_order_acquire)) {
  }
  if (!heap) {
    heap = (char*)mmap(nullptr, kHeap, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    deleted = (unsigned char*)mmap(nullptr, kHeap / kGrain, PROT_READ | PROT_WRITE,
                                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (heap == MAP_FAILED || deleted == MAP_FAILED) _exit(96);
  }
  size_t c = ClassOf(n);
  char* p;
  if (free_blocks[c]) {
    p = (char*)free_blocks[c];
    free_blocks[c] = free_blocks[c]->next;
  } else {
    p = heap + heap_used + kGrain;
    heap_used += kGrain + ClassSize(c);
    if (heap_used > kHeap) _exit(96);
    *(size_t*)(p - kGrain) = c;
  }
  memset(deleted + (p - heap) / kGrain, 0, ClassSize(c) / kGrain);
  heap_lock.clear(std::memory_order_release);
  memset(p, 0xa5, n);
  return p;
}
void Touch(void* a, size_t n, bool write, void* pc);
void Deallocate(void* q) {
  char* p = (char*)q;
  if (!p) return;
  if (self && heap && p >= heap && p < heap + kHeap && !deleted[(p - heap) / kGrain]) {
    size_t n = ClassSize(*(size_t*)(p - kGrain));
    if (n <= 2048) Touch(p, n, true, __builtin_return_address(0));
  }
  if (!heap || p < heap || p >= heap + kHeap) {
    free(p);
    return;
  }
  while (heap_lock.test_and_set(std::memory_order_acquire)) {
  }
  size_t c = *(size_t*)(p - kGrain), g = (p - heap) / kGrain;
  if (deleted[g]) HeapError("DOUBLE DELETE");
  memset(p, 0x5a, ClassSize(c));
  memset(deleted + g, 1, ClassSize(c) / kGrain);
  if (quarantining && quarantined < sizeof quarantine / sizeof *quarantine) {
    quarantine[quarantined++] = p;
  } else {
    ((FreeBlock*)p)->next = free_blocks[c];
    free_blocks[c] = (FreeBlock*)p;
  }
  heap_lock.clear(std::memory_order_release);
}

// ---------------------------------------------------------------------------
// What the specification takes for one step must be one: two accesses of
// different threads to the same memory, one of them a write, have to be ordered
// by locks, atomics or the program (see Release and Acquire in sched_rt.h).
template <class V, size_t N>
struct Table {  // emptied by another generation
  struct Slot {
    uintptr_t key;
    uint32_t gen;
    V v;
  };
  Slot* slots = nullptr;
  uint32_t gen = 0;
  size_t n = 0;
  void Clear() {
    if (!slots)
      slots = (Slot*)mmap(nullptr, N * sizeof(Slot), PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (slots == MAP_FAILED) _exit(96);
    ++gen;
    n = 0;
  }
  V* Find(uintptr_t key) {
    size_t i = key * 0x9e3779b97f4a7c15ull >> 20;
    for (;; ++i) {
      Slot& s = slots[i % N];
      if (s.gen == gen && s.key == key) return &s.v;
      if (s.gen == gen) continue;
      if (n >= N / 2) return nullptr;  // what is beyond is not watched
      ++n;
      s.gen = gen;
      s.key = key;
      memset((void*)&s.v, 0, sizeof s.v);
      return &s.v;
    }
  }
};
struct Access {
  uint8_t used, tid, write, mask;
  uint32_t at;
  void* pc;
};
struct Word {
  Access a[6];
};
Table<Word, 1 << 16> words;
Table<Clock, 1 << 14> syncs;

void RaceReset() {
  words.Clear();
  syncs.Clear();
}
void Acquired(const volatile void* x) {
  if (!self) return;
  if (Clock* c = syncs.Find((uintptr_t)x >> 3)) self->clock.Join(*c);
}
void Releases(const volatile void* x) {
  if (!self) return;
  if (Clock* c = syncs.Find((uintptr_t)x >> 3)) c->Join(self->clock);
  ++self->clock.c[self->id];
}
std::string Where(void* pc) {
  Dl_info i;
  if (!dladdr(pc, &i) || !i.dli_sname) return "?";
  int st;
  char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
  std::string r = st == 0 ? d : i.dli_sname;
  free(d);
  return r.substr(0, 200);
}
void TouchWord(uintptr_t w, uint8_t mask, bool write, void* pc) {
  Word* x = words.Find(w);
  if (!x) return;
  Access *put = nullptr, *old = nullptr;
  for (Access& a : x->a) {
    if (!a.used) {
      if (!put) put = &a;
      continue;
    }
    if (a.tid == self->id) {
      if (a.write == write && a.mask == mask) put = &a;
      continue;
    }
    if (a.at <= self->clock.c[a.tid]) {
      old = &a;
      continue;
    }
    if ((a.write || write) && (a.mask & mask)) {
      std::string s = "DATA RACE in " + Where(pc) + (write ? " (write)" : " (read)") + " and " +
                      Where(a.pc) + (a.write ? " (write)" : " (read)");
      HeapError(s.c_str());
    }
  }
  if (!put) put = old ? old : &x->a[w % 6];
  *put = {1, (uint8_t)self->id, write, mask, self->clock.c[self->id], pc};
}
void Touch(void* a, size_t n, bool write, void* pc) {
  if (!self || self->atomic || !words.slots) return;
  uintptr_t b = (uintptr_t)a, e = b + n;
  while (b < e) {
    uintptr_t w = b >> 3, to = std::min(e, (w + 1) << 3);
    uint8_t mask = ((1u << (to - b)) - 1) << (b & 7);
    TouchWord(w, mask, write, pc);
    b = to;
  }
}
inline void Accessed(void* a, size_t n, bool write, void* pc) {
  size_t o = (char*)a - heap;
  if (o < kHeap && deleted[o / kGrain]) HeapError("USE AFTER DELETE");
  PointF();
  Touch(a, n, write, pc);
}

template <class F>
F Real(const char* name) {
  F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
  if (!f) {
    fprintf(stderr, "DRIVER-ERROR no %s\n", name);
    _exit(96);
  }
  return f;
}

}  // namespace

std::string Schedule::Text() const {
  std::ostringstream o;
  o << "seed=" << seed;
  if (first) o << ";first=" << first;
  auto list = [&o](const char* n, const std::vector<long>& v) {
    if (v.empty()) return;
    o << ";" << n << "=";
    for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
  };
  list("s", s);
  list("f", f);
  if (ws) o << ";ws=" << ws;
  if (wf) o << ";wf=" << wf;
  return o.str();
}
Schedule Schedule::Parse(const std::string& text) {
  Schedule r;
  std::istringstream is(text);
  for (std::string x; std::getline(is, x, ';');) {
    size_t e = x.find('=');
    std::string k = x.substr(0, e), v = x.substr(e + 1);
    if (k == "seed") r.seed = strtoull(v.c_str(), nullptr, 10);
    if (k == "first") r.first = atol(v.c_str());
    if (k == "ws") r.ws = atol(v.c_str());
    if (k == "wf") r.wf = atol(v.c_str());
    if (k == "s" || k == "f") {
      std::istringstream vs(v);
      for (std::string y; std::getline(vs, y, ',');)
        (k == "s" ? r.s : r.f).push_back(atol(y.c_str()));
    }
  }
  return r;
}

void Run(const std::vector<std::function<void()>>& bodies, const Schedule& schedule,
         std::function<bool()> stalled) {
  sc = schedule;
  std::sort(sc.s.begin(), sc.s.end());
  std::sort(sc.f.begin(), sc.f.end());
  is = jf = 0;
  cs = cf = 0;
  rng = schedule.seed * 0x9e3779b97f4a7c15ull + 0x1234567;
  for (int i = 0; i < 4; ++i) Rand();
  ths.clear();
  for (size_t i = 0; i <= bodies.size(); ++i) {
    ths.emplace_back(new Th);
    ths[i]->id = i;
    if (i) ths[i]->body = bodies[i - 1];
  }
  if (ths.size() > kThreads) _exit(96);
  RaceReset();
  for (auto& t : ths) t->clock.c[t->id] = 1;
  self = ths[0].get();
  for (size_t i = 1; i < ths.size(); ++i)
    if (pthread_create(&ths[i]->pt, nullptr, Main, ths[i].get())) _exit(96);
  if (sc.first > 0 && sc.first < (long)ths.size()) SwitchTo(ths[sc.first].get());
  for (;;) {
    if (Th* t = Other()) {
      SwitchTo(t);
      continue;
    }
    bool all = true;
    for (size_t i = 1; i < ths.size(); ++i) all = all && ths[i]->state == ENDED;
    if (all) break;
    if (!stalled()) Deadlock();
    WakeAll();
  }
  self = nullptr;
  for (size_t i = 1; i < ths.size(); ++i) pthread_join(ths[i]->pt, nullptr);
}

static char order;
void Release() { Releases(&order); }
void Acquire() { Acquired(&order); }
int Self() { return self ? self->id : 0; }
void Point() { PointS(); }
void Atomic(bool on) {
  if (self) self->atomic += on ? 1 : -1;
}
void Quarantine(bool on) {
  quarantining = on;
  if (on) return;
  for (size_t i = 0; i < quarantined; ++i) {
    char* p = quarantine[i];
    size_t c = *(size_t*)(p - kGrain);
    for (size_t j = 0; j < ClassSize(c); ++j)
      if (p[j] != 0x5a) HeapError("WRITE AFTER DELETE");
    ((FreeBlock*)p)->next = free_blocks[c];
    free_blocks[c] = (FreeBlock*)p;
  }
  quarantined = 0;
}
long CountS() { return cs; }
long CountF() { return cf; }

}  // namespace sched

using namespace sched;
void* operator new(size_t n) { return Allocate(n); }
void* operator new[](size_t n) { return Allocate(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Allocate(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Allocate(n); }
void operator delete(void* p) noexcept { Deallocate(p); }
void operator delete[](void* p) noexcept { Deallocate(p); }
void operator delete(void* p, size_t) noexcept { Deallocate(p); }
void operator delete[](void* p, size_t) noexcept { Deallocate(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Deallocate(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Deallocate(p); }

// ---------------------------------------------------------------------------
// Locks.
extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto lock = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  static auto trylock = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!self) return lock(m);
  PointS();
  int r;
  while ((r = trylock(m)) == EBUSY) Block();
  Acquired(m);
  return r;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  static auto trylock = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  PointS();
  int r = trylock(m);
  if (!r) Acquired(m);
  return r;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  static auto f = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
  PointS();
  int r = f(m);
  if (!r) Acquired(m);
  return r;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  static auto f = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
  PointS();
  int r = f(m);
  if (!r) Acquired(m);
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto unlock = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  Releases(m);
  int r = unlock(m);
  if (self) {
    WakeAll();
    PointS();
  }
  return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  static auto lock = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
  static auto trylock = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
  if (!self) return lock(m);
  PointS();
  int r;
  while ((r = trylock(m)) == EBUSY) Block();
  Acquired(m);
  return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  static auto lock = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
  static auto trylock = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
  if (!self) return lock(m);
  PointS();
  int r;
  while ((r = trylock(m)) == EBUSY) Block();
  Acquired(m);
  return r;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  static auto unlock = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
  Releases(m);
  int r = unlock(m);
  if (self) {
    WakeAll();
    PointS();
  }
  return r;
}
// Waiting may end without a reason; whoever waits looks again. Nobody else runs
// between the unlocking and the waiting.
static int Waits(pthread_mutex_t* m) {
  ++self->atomic;
  pthread_mutex_unlock(m);
  --self->atomic;
  Block();
  return pthread_mutex_lock(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto wait = Real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  return self ? Waits(m) : wait(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  static auto wait = Real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>(
      "pthread_cond_timedwait");
  return self ? Waits(m) : wait(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k,
                           const struct timespec* t) {
  static auto wait =
      Real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>(
          "pthread_cond_clockwait");
  return self ? Waits(m) : wait(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t* c) {
  static auto f = Real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  if (self) WakeAll();
  return f(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  static auto f = Real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (self) WakeAll();
  return f(c);
}
int sched_yield(void) noexcept {
  if (self && self->id && !self->atomic) {
    WakeAll();
    Switch();
  }
  return 0;
}
// Time does not pass by waiting.
int nanosleep(const struct timespec* t, struct timespec* r) {
  static auto f = Real<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
  return self ? sched_yield() : f(t, r);
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec* t, struct timespec* r) {
  static auto f = Real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep");
  return self ? sched_yield() : f(k, flags, t, r);
}
int usleep(useconds_t n) {
  static auto f = Real<int (*)(useconds_t)>("usleep");
  return self ? sched_yield() : f(n);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
  static auto f = Real<int (*)(pthread_mutex_t*, const struct timespec*)>("pthread_mutex_timedlock");
  return self ? pthread_mutex_lock(m) : f(m, t);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  static auto f =
      Real<int (*)(pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_mutex_clocklock");
  return self ? pthread_mutex_lock(m) : f(m, k, t);
}
// Initializations run undisturbed.
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  static auto once = Real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
  Atomic(true);
  int r = once(o, f);
  Acquired(o);
  Releases(o);
  Atomic(false);
  return r;
}
int __cxa_guard_acquire(long long* g) {
  static int (*f)(long long*) = nullptr;
  if (!f) f = Real<int (*)(long long*)>("__cxa_guard_acquire");
  int r = f(g);
  if (r) Atomic(true);
  Acquired(g);
  return r;
}
void __cxa_guard_release(long long* g) {
  static void (*f)(long long*) = nullptr;
  if (!f) f = Real<void (*)(long long*)>("__cxa_guard_release");
  Releases(g);
  f(g);
  Atomic(false);
}
void __cxa_guard_abort(long long* g) {
  static void (*f)(long long*) = nullptr;
  if (!f) f = Real<void (*)(long long*)>("__cxa_guard_abort");
  f(g);
  Atomic(false);
}

// ---------------------------------------------------------------------------
// Instrumentation.
void __tsan_init() {}
void __tsan_func_entry(void*) { PointF(); }
void __tsan_func_exit() {}
// What orders steps: the more the fewer are taken for racing.
static void Both(const volatile void* a) {
  Acquired(a);
  Releases(a);
}
#define PC __builtin_return_address(0)
#define ACCESS(n)                                                             \
  void __tsan_read##n(void* a) { Accessed(a, n, false, PC); }                 \
  void __tsan_write##n(void* a) { Accessed(a, n, true, PC); }                 \
  void __tsan_volatile_read##n(void* a) { Accessed(a, n, false, PC); }        \
  void __tsan_volatile_write##n(void* a) { Accessed(a, n, true, PC); }        \
  void __tsan_unaligned_read##n(void* a) { Accessed(a, n, false, PC); }       \
  void __tsan_unaligned_write##n(void* a) { Accessed(a, n, true, PC); }       \
  void __tsan_read##n##_pc(void* a, void* pc) { Accessed(a, n, false, pc); }  \
  void __tsan_write##n##_pc(void* a, void* pc) { Accessed(a, n, true, pc); }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
void __tsan_vptr_read(void* a) { Accessed(a, 8, false, PC); }
void __tsan_vptr_update(void* a, void* v) { Accessed(a, 8, *(void**)a != v, PC); }
void __tsan_read_range(void* a, unsigned long n) { Accessed(a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { Accessed(a, n, true, PC); }

#define ATOMIC(n, T)                                                                          \
  T __tsan_atomic##n##_load(const volatile T* a, int) {                                       \
    PointS();                                                                                 \
    Acquired(a);                                                                              \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                              \
  }                                                                                           \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) {                                    \
    PointS();                                                                                 \
    Both(a);                                                                                  \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                 \
    if (self) WakeAll();                                                                      \
  }                                                                                           \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) {                                    \
    PointS();                                                                                 \
    Both(a);                                                                                  \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                       \
  }                                                                                           \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) {                                   \
    PointS();                                                                                 \
    Both(a);                                                                                  \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                        \
  }                                                                                           \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) {                                   \
    PointS();                                                                                 \
    Both(a);                                                                                  \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                        \
  }                                                                                           \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) {                                   \
    PointS();                                                                                 \
    Both(a);                                                                                  \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                        \
  }                                                                                           \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) {                                    \
    PointS();                                                                                 \
    Both(a);                                                                                  \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                         \
  }                                                                                           \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) {                                   \
    PointS();                                                                                 \
    Both(a);                                                                                  \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                        \
  }                                                                                           \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) {                                  \
    PointS();                                                                                 \
    Both(a);                                                                                  \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                       \
  }                                                                                           \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {        \
    PointS();                                                                                 \
    Both(a);                                                                                  \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);       \
  }                                                                                           \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {          \
    PointS();                                                                                 \
    Both(a);                                                                                  \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);       \
  }                                                                                           \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int, int) {              \
    PointS();                                                                                 \
    Both(a);                                                                                  \
    __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);             \
    return c;                                                                                 \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { PointS(); }
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"

// ---------------------------------------------------------------------------
// What std::future waits with.
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool limited,
                                                       chrono::seconds, chrono::nanoseconds) {
  if (!self) {
    syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0);
    return true;
  }
  if (__atomic_load_n(a, __ATOMIC_ACQUIRE) != v) return true;
  if (limited) {
    // Others are slow: the limit is reached unless it happens to be their turn.
    Th* t = Other();
    if (t) {
      WakeAll();
      SwitchTo(t);
    }
    return __atomic_load_n(a, __ATOMIC_ACQUIRE) != v;
  }
  Block();
  return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool h,
                                                              chrono::seconds s,
                                                              chrono::nanoseconds n) {
  return _M_futex_wait_until(a, v, h, s, n);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) {
  if (self) WakeAll();
  syscall(SYS_futex, a, FUTEX_WAKE, 0x7fffffff, nullptr, nullptr, 0);
}
}  // namespace std
