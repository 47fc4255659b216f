#include "dsched.h"
#include <absl/synchronization/blocking_counter.h>
#include <absl/synchronization/mutex.h>
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>

extern bool vclock_on;
extern int64_t vclock_ns;

namespace sched {
void (*on_fatal)(const std::string&) = nullptr;

namespace {

template <typename F>
F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(name) \
  static auto real_##name = real<decltype(&::name)>(#name)

struct Sem {
  std::atomic<int> v{0};
  void post() {
    v.store(1, std::memory_order_release);
    syscall(SYS_futex, &v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
  }
  void wait() {
    while (v.exchange(0, std::memory_order_acquire) == 0)
      syscall(SYS_futex, &v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
};

constexpr int kMax = 24;
struct Clock {
  uint32_t c[kMax] = {};
  void join(const Clock& o) {
    for (int i = 0; i < kMax; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum Status { Free, Ready, Blocked, Done };
enum Why { None, OnMutex, OnShared, OnCond, OnJoin, OnTime, OnCounter };
struct Thread {
  Status st = Free;
  Why why = None;
  void* on = nullptr;        // mutex, condition variable or counter
  int target = -1;           // thread joined
  int64_t deadline = -1;     // of a timed wait
  bool timed_out = false;
  bool signalled = false;
  bool yielded = false;
  Sem sem;
  Clock vc;
  std::function<void()> body;
  bool foreign = false;      // started by the code under test
  bool joined = false;
  bool detached = false;
  pthread_t handle{};
};

struct Mutex {
  int owner = -1;
  int readers = 0;
  Clock vc, rvc;
};

struct Choice {
  int n, chosen, cost_other;   // cost of choosing anything but 0
};

// ---- state of the running execution
Thread T[kMax];
int nthreads = 0, ncore = 0;
thread_local int me = -1;
thread_local int busy = 0;
bool running = false;
Sem main_sem;
std::vector<Choice> trail;      // the choices made; replayed as far as `forced`
size_t forced = 0, pos = 0;
bool random_mode = false;
uint64_t rng = 1;
int spent = 0;
long steps = 0;
Options opt;
std::map<const void*, Mutex> mutexes;
std::map<const void*, Clock> sync_clocks;
std::vector<Event> log_;
int64_t waited = 0;
std::string fatal_;
uint32_t epoch = 0;

struct Busy {
  Busy() { ++busy; }
  ~Busy() { --busy; }
};

uint64_t rnd() {
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return rng;
}

[[noreturn]] void die(const std::string& what) {
  Busy b;
  std::string s = what + " [thread " + std::to_string(me) + ", schedule";
  for (size_t i = 0; i < pos && i < trail.size(); ++i)
    if (trail[i].chosen) s += " " + std::to_string(i) + ":" + std::to_string(trail[i].chosen);
  s += "]";
  void* f[24];
  int n = backtrace(f, 24);
  auto names = backtrace_symbols(f, n);
  for (int i = 2; i < n && names; ++i) {
    std::string x = names[i];
    auto a = x.find('('), p = x.find('+', a == std::string::npos ? 0 : a);
    if (a != std::string::npos && p != std::string::npos && p > a + 1) s += "\n  " + x.substr(a + 1, p - a - 1);
  }
  if (on_fatal) on_fatal(s);
  std::fprintf(stderr, "SCHED: %s\n", s.c_str());
  std::fflush(nullptr);
  _exit(9);
}

// ---- choices
int pick(int n, int cost) {
  if (n <= 1) return 0;
  if (pos < forced) {
    int c = trail[pos].chosen;
    trail[pos].n = n;
    trail[pos].cost_other = cost;
    if (c >= n) c = 0;
    ++pos;
    if (c) spent += cost;
    return c;
  }
  int c = 0;
  if (random_mode && (cost == 0 || spent < 1000)) {
    // preempt rarely, and choose freely where a choice is due
    if (cost == 0) c = static_cast<int>(rnd() % static_cast<uint64_t>(n));
    else if (rnd() % 100 < 12) c = 1 + static_cast<int>(rnd() % static_cast<uint64_t>(n - 1));
  }
  if (pos < trail.size()) trail.resize(pos);
  trail.push_back({n, c, cost});
  ++pos;
  if (c) spent += cost;
  return c;
}

bool can_lock(const Thread& t) {
  auto it = mutexes.find(t.on);
  if (it == mutexes.end()) return true;
  if (t.why == OnShared) return it->second.owner < 0;
  return it->second.owner < 0 && it->second.readers == 0;
}
bool runnable(int i) {
  auto& t = T[i];
  if (t.st == Ready) return true;
  if (t.st != Blocked) return false;
  switch (t.why) {
    case OnMutex:
    case OnShared:
      return can_lock(t);
    case OnCond:
    case OnCounter:
      return t.signalled || t.timed_out;
    case OnJoin:
      return T[t.target].st == Done;
    case OnTime:
      return t.timed_out;
    default:
      return false;
  }
}

void hand_to(int to) {
  int from = me;
  if (to == from) return;
  T[to].sem.post();
  T[from].sem.wait();
}

// chooses who goes on; `mine`: the caller could go on (another choice is a preemption)
int next_thread(bool mine, bool yielding) {
  for (;;) {
    int c[kMax * 2], n = 0;
    if (mine && !yielding) c[n++] = me;
    for (int i = 0; i < nthreads; ++i)
      if (i != me && runnable(i)) c[n++] = i;
    if (mine && yielding) c[n++] = me;
    if (!mine && T[me].st == Blocked && runnable(me)) c[n++] = me;
    int sure = n;
    if (opt.early_timeouts && n > 0)
      for (int i = 0; i < nthreads; ++i)
        if (T[i].st == Blocked && T[i].deadline >= 0 && !runnable(i) && i != me) c[n++] = i;
    if (n > 0) {
      int k;
      if (mine) {
        k = pick(spent < opt.preemptions || random_mode ? n : (yielding ? sure : 1), yielding ? 0 : 1);
      } else if (sure == n) {
        k = pick(n, 0);
      } else {
        k = pick(spent < opt.preemptions || random_mode ? n : sure, 0);
        if (k >= sure) ++spent;
      }
      int w = c[k];
      if (k >= sure) {   // its time passes
        if (T[w].deadline > vclock_ns) vclock_ns = T[w].deadline;
        T[w].timed_out = true;
      }
      return w;
    }
    // nothing can run: time passes
    int w = -1;
    for (int i = 0; i < nthreads; ++i)
      if (T[i].st == Blocked && T[i].deadline >= 0 && (w < 0 || T[i].deadline < T[w].deadline)) w = i;
    if (w < 0) return -1;
    if (T[w].deadline > vclock_ns) {
      waited += T[w].deadline - vclock_ns;
      vclock_ns = T[w].deadline;
    }
    T[w].timed_out = true;
  }
}

std::string where() {
  std::string s;
  for (int i = 0; i < nthreads; ++i)
    if (T[i].st == Blocked) {
      static const char* names[] = {"", "a mutex", "a shared mutex", "a condition variable", "the end of a thread", "time", "a counter"};
      s += " thread " + std::to_string(i) + " waits for " + names[T[i].why] + ";";
    }
  return s;
}

void step() {
  if (++steps > opt.max_steps) die("no progress: the execution does not end");
}

// a point at which another thread may go on instead
void point(bool yielding = false) {
  step();
  int w = next_thread(true, yielding);
  if (w != me) hand_to(w);
}
void block() {
  T[me].st = Blocked;
  step();
  int w = next_thread(false, false);
  if (w < 0) die("deadlock:" + where());
  hand_to(w);
  auto& t = T[me];
  t.st = Ready;
  t.why = None;
  t.deadline = -1;
}

bool controlled() { return me >= 0 && running && busy == 0; }

// ---- mutexes
Mutex& mu(const void* m) { return mutexes[m]; }
void acquire(void* m, bool shared) {
  auto& x = mu(m);
  if (!shared && x.owner == me) die("deadlock: a thread locks a mutex it holds");
  while (x.owner >= 0 || (!shared && x.readers > 0)) {
    T[me].why = shared ? OnShared : OnMutex;
    T[me].on = m;
    block();
  }
  if (shared) {
    ++x.readers;
  } else {
    x.owner = me;
    T[me].vc.join(x.rvc);
  }
  T[me].vc.join(x.vc);
}
void release(void* m, bool shared) {
  auto& x = mu(m);
  if (shared) {
    --x.readers;
    x.rvc.join(T[me].vc);
  } else {
    if (x.owner != me) die("a mutex is unlocked by a thread that does not hold it");
    x.owner = -1;
    x.vc = T[me].vc;
  }
  ++T[me].vc.c[me];
}
void lock(void* m, bool shared = false) {
  point();
  Busy b;
  acquire(m, shared);
}
bool try_lock(void* m, bool shared = false) {
  point();
  Busy b;
  auto& x = mu(m);
  if (x.owner >= 0 || (!shared && x.readers > 0)) return false;
  acquire(m, shared);
  return true;
}
void unlock(void* m, bool shared = false) {
  Busy b;
  release(m, shared);
}

// deadline < 0: none. true when it was signalled
bool cond_wait(void* cv, void* m, int64_t deadline) {
  point();
  Busy b;
  auto& t = T[me];
  release(m, false);
  t.why = OnCond;
  t.on = cv;
  t.deadline = deadline;
  t.signalled = t.timed_out = false;
  block();
  bool s = T[me].signalled;
  T[me].signalled = T[me].timed_out = false;
  T[me].vc.join(sync_clocks[cv]);
  acquire(m, false);
  return s;
}
void cond_signal(void* cv, bool all) {
  point();
  Busy b;
  int w[kMax], n = 0;
  for (int i = 0; i < nthreads; ++i)
    if (T[i].st == Blocked && T[i].why == OnCond && T[i].on == cv && !T[i].signalled && !T[i].timed_out) w[n++] = i;
  sync_clocks[cv].join(T[me].vc);
  ++T[me].vc.c[me];
  if (n == 0) return;
  if (all)
    for (int i = 0; i < n; ++i) T[w[i]].signalled = true;
  else
    T[w[pick(n, 0)]].signalled = true;
}
void sleep_until(int64_t t) {
  point();
  Busy b;
  T[me].why = OnTime;
  T[me].deadline = t;
  T[me].timed_out = false;
  block();
  T[me].timed_out = false;
}

// ---- accesses
struct Access {
  uint8_t tid;
  uint8_t mask;
  bool write, atomic;
  uint32_t clk;
};
struct Cell {
  uintptr_t g = 0;
  uint32_t epoch = 0;
  int n = 0;
  bool freed = false;
  Access a[8];
};
constexpr size_t kCells = 1 << 18;
Cell* cells = nullptr;
Cell* cell(uintptr_t g) {
  size_t h = (g * 0x9E3779B97F4A7C15ull) >> 46;
  for (size_t i = 0; i < kCells; ++i) {
    auto& c = cells[(h + i) & (kCells - 1)];
    if (c.epoch != epoch) {
      c.epoch = epoch;
      c.g = g;
      c.n = 0;
      c.freed = false;
      return &c;
    }
    if (c.g == g) return &c;
  }
  return nullptr;
}
void touch(uintptr_t g, uint8_t mask, bool write, bool atomic) {
  auto* c = cell(g);
  if (!c) return;
  if (c->freed) die(std::string(write ? "write to" : "read of") + " memory that has been freed");
  auto& vc = T[me].vc;
  int keep = 0;
  for (int i = 0; i < c->n; ++i) {
    auto& a = c->a[i];
    bool before = a.tid == me || a.clk <= vc.c[a.tid];
    if (opt.races && !before && (a.mask & mask) && (a.write || write) && !(a.atomic && atomic))
      die(std::string("data race: ") + (write ? "write" : "read") + (atomic ? " (atomic)" : "") + " here, unordered with a " +
          (a.write ? "write" : "read") + (a.atomic ? " (atomic)" : "") + " by thread " + std::to_string(a.tid));
    // what this access covers can be forgotten
    if (before && (a.mask & ~mask) == 0 && (write || !a.write) && (a.tid == me || write)) continue;
    c->a[keep++] = a;
  }
  c->n = keep;
  if (c->n == 8) {
    std::memmove(c->a, c->a + 1, sizeof(Access) * 7);
    c->n = 7;
  }
  c->a[c->n++] = {static_cast<uint8_t>(me), mask, write, atomic, vc.c[me]};
}
void access(const volatile void* p, size_t n, bool write, bool atomic) {
  if (!controlled()) return;
  Busy b;
  auto a = reinterpret_cast<uintptr_t>(p);
  auto e = a + n;
  while (a < e) {
    uintptr_t g = a >> 3;
    unsigned lo = a & 7;
    unsigned hi = static_cast<unsigned>(std::min<uintptr_t>(8, lo + (e - a)));
    touch(g, static_cast<uint8_t>(((1u << hi) - 1) & ~((1u << lo) - 1)), write, atomic);
    a += hi - lo;
  }
}
void mark(void* p, size_t n, bool freed) {
  auto a = reinterpret_cast<uintptr_t>(p) >> 3;
  auto e = (reinterpret_cast<uintptr_t>(p) + n + 7) >> 3;
  for (; a < e; ++a)
    if (auto* c = cell(a)) {
      c->n = 0;
      c->freed = freed;
    }
}

// memory freed while the execution runs is kept until its end
void** quarantine = nullptr;
size_t nq = 0, capq = 0;
void* allocate(size_t n, size_t align) {
  void* p = nullptr;
  if (align > 16) {
    if (posix_memalign(&p, align, n) != 0) p = nullptr;
  } else {
    p = std::malloc(n ? n : 1);
  }
  if (!p) throw std::bad_alloc{};
  if (controlled()) {
    Busy b;
    mark(p, malloc_usable_size(p), false);
  }
  return p;
}
void deallocate(void* p) {
  if (!p) return;
  if (!controlled()) {
    std::free(p);
    return;
  }
  Busy b;
  auto* c = cell(reinterpret_cast<uintptr_t>(p) >> 3);
  if (c && c->freed) die("memory is freed twice");
  size_t n = malloc_usable_size(p);
  // freeing is a write to all of it
  for (uintptr_t a = reinterpret_cast<uintptr_t>(p), e = a + n; a < e; a += 8) touch(a >> 3, 0xff, true, false);
  mark(p, n, true);
  if (nq == capq) {
    capq = capq ? capq * 2 : 1024;
    quarantine = static_cast<void**>(std::realloc(quarantine, capq * sizeof(void*)));
  }
  quarantine[nq++] = p;
}

// ---- atomics
void sync_acquire(const volatile void* p) {
  auto it = sync_clocks.find(const_cast<const void*>(p));
  if (it != sync_clocks.end()) T[me].vc.join(it->second);
}
void sync_release(const volatile void* p, bool store) {
  auto& c = sync_clocks[const_cast<const void*>(p)];
  if (store) c = T[me].vc;
  else c.join(T[me].vc);
  ++T[me].vc.c[me];
}
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
// a fence makes relaxed accesses before/after it count as releases/acquires; kept simple: such
// accesses through fences join the clock of every variable read since
thread_local std::vector<const void*>* relaxed_reads = nullptr;

enum Kind { Load, Store, Rmw };
// the scheduling point of an atomic operation; what it orders is applied after it
void atomic_point(const volatile void* p, size_t n, Kind k) {
  if (!controlled()) return;
  point();
  access(p, n, k != Load, true);
}
void atomic_order(const volatile void* p, Kind k, int mo) {
  if (!controlled()) return;
  Busy b;
  if (k != Store) {
    if (acq(mo)) {
      sync_acquire(p);
    } else {
      if (!relaxed_reads) relaxed_reads = new std::vector<const void*>;
      relaxed_reads->push_back(const_cast<const void*>(p));
      if (relaxed_reads->size() > 64) relaxed_reads->erase(relaxed_reads->begin(), relaxed_reads->begin() + 32);
    }
  }
  if (k != Load) {
    if (rel(mo)) {
      sync_release(p, k == Store);
    } else if (k == Store) {
      sync_clocks.erase(const_cast<const void*>(p));
    }
  }
}
void fence(int mo) {
  if (!controlled()) return;
  Busy b;
  if (acq(mo) && relaxed_reads) {
    for (auto* p : *relaxed_reads) sync_acquire(p);
    relaxed_reads->clear();
  }
}

// ---- threads
struct Start {
  void* (*fn)(void*);
  void* arg;
  int id;
};
void finish() {
  ++T[me].vc.c[me];
  T[me].st = Done;
  step();
  ++busy;
  int w = next_thread(false, false);
  --busy;
  int from = me;
  me = -1;
  if (w >= 0) {
    T[w].sem.post();
    return;
  }
  // nothing can run, and no time can pass
  bool all = true;
  for (int i = 0; i < nthreads; ++i) all = all && T[i].st == Done;
  if (!all) {
    bool core = false;
    for (int i = 0; i < ncore; ++i) core = core || T[i].st != Done;
    if (core) {
      me = from;
      die("deadlock:" + where());
    }
  }
  main_sem.post();
}
void* run_foreign(void* p) {
  auto s = *static_cast<Start*>(p);
  std::free(p);
  T[s.id].sem.wait();
  me = s.id;
  void* r = s.fn(s.arg);
  finish();
  return r;
}
void* worker(void* p) {
  auto id = static_cast<int>(reinterpret_cast<intptr_t>(p));
  for (;;) {
    T[id].sem.wait();
    me = id;
    T[id].body();
    finish();
  }
}
int workers = 0;

}  // namespace

Explorer::Explorer(Options o) : o_{o} {
  opt = o;
  trail.clear();
  forced = pos = 0;
  random_mode = false;
  rng = o.seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
  if (!cells) cells = static_cast<Cell*>(std::calloc(kCells, sizeof(Cell)));
}

bool Explorer::next() {
  if (runs_ > 0 && !random_mode) {
    // backtrack: the last choice with an untried alternative that can be afforded
    trail.resize(std::min(trail.size(), pos));
    int cost = 0;
    std::vector<int> before(trail.size());
    for (size_t i = 0; i < trail.size(); ++i) {
      before[i] = cost;
      if (trail[i].chosen) cost += trail[i].cost_other;
    }
    bool found = false;
    for (size_t i = trail.size(); i-- > 0;) {
      auto& c = trail[i];
      if (c.chosen + 1 < c.n && before[i] + c.cost_other <= o_.preemptions) {
        ++c.chosen;
        trail.resize(i + 1);
        found = true;
        break;
      }
    }
    if (!found || runs_ >= o_.max_runs) {
      exhausted_ = !found;
      if (o_.random_runs <= 0) return false;
      random_mode = true;
      o_.random_runs += runs_;
    }
  }
  if (random_mode) {
    if (runs_ >= o_.random_runs || exhausted_) return false;
    trail.clear();
  }
  if (!random_mode && o_.max_runs <= 0) random_mode = true;
  forced = trail.size();
  pos = 0;
  return true;
}

void Explorer::run(const std::vector<std::function<void()>>& bodies) {
  ++runs_;
  error.clear();
  fatal_.clear();
  spent = 0;
  steps = 0;
  waited = 0;
  log_.clear();
  mutexes.clear();
  sync_clocks.clear();
  ++epoch;
  nq = 0;
  nthreads = ncore = static_cast<int>(bodies.size());
  REAL(pthread_create);
  while (workers < nthreads) {
    // workers occupy the first slots for good
    pthread_t t;
    real_pthread_create(&t, nullptr, worker, reinterpret_cast<void*>(static_cast<intptr_t>(workers)));
    ++workers;
  }
  for (int i = 0; i < kMax; ++i) {
    auto& t = T[i];
    t.st = i < nthreads ? Ready : Free;
    t.why = None;
    t.deadline = -1;
    t.signalled = t.timed_out = false;
    t.vc = Clock{};
    t.vc.c[i] = 1;
    t.foreign = t.joined = t.detached = false;
    if (i < nthreads) t.body = bodies[static_cast<size_t>(i)];
  }
  running = true;
  ++busy;
  int c = pick(nthreads, 0);
  --busy;
  T[c].sem.post();
  main_sem.wait();
  running = false;
  leftover = 0;
  for (int i = ncore; i < nthreads; ++i)
    if (T[i].foreign && !T[i].joined) {
      if (T[i].st != Done) ++leftover;
    }
  if (leftover) die("threads remain: " + std::to_string(leftover) + where());
  waited_ns = waited;
  for (size_t i = 0; i < nq; ++i) std::free(quarantine[i]);
  nq = 0;
}

std::string Explorer::schedule() const {
  std::string s;
  for (size_t i = 0; i < pos && i < trail.size(); ++i)
    if (trail[i].chosen) s += (s.empty() ? "" : " ") + std::to_string(i) + ":" + std::to_string(trail[i].chosen);
  return s;
}

void note(int op, bool begin) {
  Busy b;
  log_.push_back({op, begin, vclock_ns});
}
const std::vector<Event>& events() { return log_; }
int choose(int n) {
  Busy b;
  return pick(n, 0);
}
void yield() {
  if (controlled()) point();
}
void unwatched(const std::function<void()>& f) {
  Busy b;
  f();
}
int self() { return running && busy == 0 ? me : -1; }

}  // namespace sched

using namespace sched;

// ---------------------------------------------------------------- stand-ins
static int64_t ns_of(const timespec* t) { return t->tv_sec * 1000000000LL + t->tv_nsec; }

extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  REAL(pthread_create);
  if (!controlled()) return real_pthread_create(t, attr, fn, arg);
  point();
  Busy b;
  int id = -1;
  for (int i = std::max(ncore, workers); i < kMax; ++i)
    if (T[i].st == Free) {
      id = i;
      break;
    }
  if (id < 0) die("too many threads are started");
  for (int i = nthreads; i < id; ++i) T[i].st = Done;
  auto& n = T[id];
  n.st = Ready;
  n.foreign = true;
  n.vc = T[me].vc;
  n.vc.c[id] = 1;
  ++T[me].vc.c[me];
  if (id >= nthreads) nthreads = id + 1;
  auto* s = static_cast<Start*>(std::malloc(sizeof(Start)));
  *s = {fn, arg, id};
  int rc = real_pthread_create(t, attr, run_foreign, s);
  n.handle = *t;
  return rc;
}
int pthread_join(pthread_t t, void** r) {
  REAL(pthread_join);
  if (!controlled()) return real_pthread_join(t, r);
  point();
  {
    Busy b;
    for (int i = 0; i < nthreads; ++i)
      if (T[i].foreign && !T[i].joined && pthread_equal(T[i].handle, t)) {
        if (i == me) die("a thread joins itself");
        while (T[i].st != Done) {
          T[me].why = OnJoin;
          T[me].target = i;
          block();
        }
        T[i].joined = true;
        T[me].vc.join(T[i].vc);
        break;
      }
  }
  return real_pthread_join(t, r);
}
int pthread_detach(pthread_t t) {
  REAL(pthread_detach);
  if (controlled())
    for (int i = 0; i < nthreads; ++i)
      if (T[i].foreign && pthread_equal(T[i].handle, t)) T[i].detached = true;
  return real_pthread_detach(t);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  REAL(pthread_mutex_lock);
  if (!controlled()) return real_pthread_mutex_lock(m);
  int kind = m->__data.__kind & 3;
  if (kind == PTHREAD_MUTEX_RECURSIVE && mutexes[m].owner == me) {
    ++mutexes[m].readers;   // (recursion depth)
    return 0;
  }
  lock(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  REAL(pthread_mutex_trylock);
  if (!controlled()) return real_pthread_mutex_trylock(m);
  return try_lock(m) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  REAL(pthread_mutex_unlock);
  if (!controlled()) return real_pthread_mutex_unlock(m);
  if (mutexes[m].owner == me && mutexes[m].readers > 0) {
    --mutexes[m].readers;
    return 0;
  }
  unlock(m);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  REAL(pthread_rwlock_rdlock);
  if (!controlled()) return real_pthread_rwlock_rdlock(m);
  lock(m, true);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  REAL(pthread_rwlock_tryrdlock);
  if (!controlled()) return real_pthread_rwlock_tryrdlock(m);
  return try_lock(m, true) ? 0 : EBUSY;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  REAL(pthread_rwlock_wrlock);
  if (!controlled()) return real_pthread_rwlock_wrlock(m);
  lock(m);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  REAL(pthread_rwlock_trywrlock);
  if (!controlled()) return real_pthread_rwlock_trywrlock(m);
  return try_lock(m) ? 0 : EBUSY;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  REAL(pthread_rwlock_unlock);
  if (!controlled()) return real_pthread_rwlock_unlock(m);
  unlock(m, mutexes[m].owner != me);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  REAL(pthread_cond_wait);
  if (!controlled()) return real_pthread_cond_wait(c, m);
  cond_wait(c, m, -1);
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  REAL(pthread_cond_timedwait);
  if (!controlled()) return real_pthread_cond_timedwait(c, m, t);
  return cond_wait(c, m, ns_of(t)) ? 0 : ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* t) {
  REAL(pthread_cond_clockwait);
  if (!controlled()) return real_pthread_cond_clockwait(c, m, id, t);
  return cond_wait(c, m, ns_of(t)) ? 0 : ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t* c) {
  REAL(pthread_cond_signal);
  if (!controlled()) return real_pthread_cond_signal(c);
  cond_signal(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  REAL(pthread_cond_broadcast);
  if (!controlled()) return real_pthread_cond_broadcast(c);
  cond_signal(c, true);
  return 0;
}
int sched_yield() {
  REAL(sched_yield);
  if (!controlled()) return real_sched_yield();
  point(true);
  return 0;
}
#ifndef SCHED_NO_SLEEP
int nanosleep(const timespec* t, timespec* rem) {
  REAL(nanosleep);
  if (!controlled()) return real_nanosleep(t, rem);
  sleep_until(vclock_ns + ns_of(t));
  return 0;
}
int clock_nanosleep(clockid_t id, int flags, const timespec* t, timespec* rem) {
  REAL(clock_nanosleep);
  if (!controlled()) return real_clock_nanosleep(id, flags, t, rem);
  sleep_until(flags == TIMER_ABSTIME ? ns_of(t) : vclock_ns + ns_of(t));
  return 0;
}
#endif
// initialisation of function-local statics: by one thread, for which the others wait, and which orders what follows it
int __cxa_guard_acquire(long long* g) {
  static int (*f)(long long*);     // (not initialised here: that would need this very function)
  if (!f) f = real<int (*)(long long*)>("__cxa_guard_acquire");
  if (!controlled()) return f(g);
  lock(g);
  if (!*reinterpret_cast<volatile char*>(g)) return 1;
  unlock(g);
  return 0;
}
static bool guarded(long long* g) {
  if (!controlled()) return false;
  Busy b;
  return mu(g).owner == me;
}
void __cxa_guard_release(long long* g) {
  static void (*f)(long long*);
  if (!f) f = real<void (*)(long long*)>("__cxa_guard_release");
  if (!guarded(g)) {
    f(g);
    return;
  }
  *reinterpret_cast<volatile char*>(g) = 1;
  {
    Busy b;
    sync_release(g, false);
  }
  unlock(g);
}
void __cxa_guard_abort(long long* g) {
  static void (*f)(long long*);
  if (!f) f = real<void (*)(long long*)>("__cxa_guard_abort");
  if (!guarded(g)) {
    f(g);
    return;
  }
  unlock(g);
}
}

namespace absl {
ABSL_NAMESPACE_BEGIN
#define REALM(var, sym, ...) static auto var = real<__VA_ARGS__>(sym)
// the library's own, for threads that are not controlled
void Mutex::Lock() {
  REALM(f, "_ZN4absl7debian35Mutex4LockEv", void (*)(Mutex*));
  if (!controlled()) return f(this);
  lock(this);
}
void Mutex::Unlock() {
  REALM(f, "_ZN4absl7debian35Mutex6UnlockEv", void (*)(Mutex*));
  if (!controlled()) return f(this);
  unlock(this);
}
bool Mutex::TryLock() {
  REALM(f, "_ZN4absl7debian35Mutex7TryLockEv", bool (*)(Mutex*));
  if (!controlled()) return f(this);
  return try_lock(this);
}
void Mutex::ReaderLock() {
  REALM(f, "_ZN4absl7debian35Mutex10ReaderLockEv", void (*)(Mutex*));
  if (!controlled()) return f(this);
  lock(this, true);
}
void Mutex::ReaderUnlock() {
  REALM(f, "_ZN4absl7debian35Mutex12ReaderUnlockEv", void (*)(Mutex*));
  if (!controlled()) return f(this);
  unlock(this, true);
}
bool Mutex::ReaderTryLock() {
  REALM(f, "_ZN4absl7debian35Mutex13ReaderTryLockEv", bool (*)(Mutex*));
  if (!controlled()) return f(this);
  return try_lock(this, true);
}
void Mutex::AssertHeld() const {}
Mutex::~Mutex() {
  if (controlled()) {
    Busy b;
    auto it = mutexes.find(this);
    if (it != mutexes.end()) {
      if (it->second.owner >= 0) die("a mutex is destroyed while it is held");
      mutexes.erase(it);
    }
  }
}
void CondVar::Wait(Mutex* m) {
  REALM(f, "_ZN4absl7debian37CondVar4WaitEPNS0_5MutexE", void (*)(CondVar*, Mutex*));
  if (!controlled()) return f(this, m);
  cond_wait(this, m, -1);
}
bool CondVar::WaitWithTimeout(Mutex* m, Duration d) {
  REALM(f, "_ZN4absl7debian37CondVar15WaitWithTimeoutEPNS0_5MutexENS0_8DurationE", bool (*)(CondVar*, Mutex*, Duration));
  if (!controlled()) return f(this, m, d);
  return !cond_wait(this, m, vclock_ns + ToInt64Nanoseconds(d));
}
bool CondVar::WaitWithDeadline(Mutex* m, Time t) {
  REALM(f, "_ZN4absl7debian37CondVar16WaitWithDeadlineEPNS0_5MutexENS0_4TimeE", bool (*)(CondVar*, Mutex*, Time));
  if (!controlled()) return f(this, m, t);
  return !cond_wait(this, m, ToUnixNanos(t));
}
void CondVar::Signal() {
  REALM(f, "_ZN4absl7debian37CondVar6SignalEv", void (*)(CondVar*));
  if (!controlled()) return f(this);
  cond_signal(this, false);
}
void CondVar::SignalAll() {
  REALM(f, "_ZN4absl7debian37CondVar9SignalAllEv", void (*)(CondVar*));
  if (!controlled()) return f(this);
  cond_signal(this, true);
}
// waiting for a condition: looked at again whenever the mutex was released by somebody
static bool await(Mutex* m, const Condition& c, int64_t deadline) {
  while (!c.Eval()) {
    if (deadline >= 0 && vclock_ns >= deadline) return false;
    unlock(m);
    if (deadline >= 0) sleep_until(std::min(deadline, vclock_ns + 1000000));
    else sched_yield();
    lock(m);
  }
  return true;
}
void Mutex::Await(const Condition& c) {
  REALM(f, "_ZN4absl7debian35Mutex5AwaitERKNS0_9ConditionE", void (*)(Mutex*, const Condition&));
  if (!controlled()) return f(this, c);
  await(this, c, -1);
}
bool Mutex::AwaitWithTimeout(const Condition& c, Duration d) {
  REALM(f, "_ZN4absl7debian35Mutex16AwaitWithTimeoutERKNS0_9ConditionENS0_8DurationE", bool (*)(Mutex*, const Condition&, Duration));
  if (!controlled()) return f(this, c, d);
  return await(this, c, vclock_ns + ToInt64Nanoseconds(d));
}
void Mutex::LockWhen(const Condition& c) {
  REALM(f, "_ZN4absl7debian35Mutex8LockWhenERKNS0_9ConditionE", void (*)(Mutex*, const Condition&));
  if (!controlled()) return f(this, c);
  lock(this);
  await(this, c, -1);
}
bool BlockingCounter::DecrementCount() {
  REALM(f, "_ZN4absl7debian315BlockingCounter14DecrementCountEv", bool (*)(BlockingCounter*));
  if (!controlled()) return f(this);
  point();
  Busy b;
  // (the layout of the class is its own affair: our count of it is kept beside)
  sync_release(this, false);
  bool r = f(this);
  if (r)
    for (int i = 0; i < nthreads; ++i)
      if (T[i].st == Blocked && T[i].why == OnCounter && T[i].on == this) T[i].signalled = true;
  if (r) mutexes[this].owner = kMax;   // done
  return r;
}
void BlockingCounter::Wait() {
  REALM(f, "_ZN4absl7debian315BlockingCounter4WaitEv", void (*)(BlockingCounter*));
  if (!controlled()) return f(this);
  point();
  {
    Busy b;
    auto it = mutexes.find(this);
    if (it == mutexes.end()) {
      T[me].why = OnCounter;
      T[me].on = this;
      T[me].signalled = T[me].timed_out = false;
      block();
      T[me].signalled = false;
    }
    mutexes.erase(this);
    sync_acquire(this);
  }
  Busy b;
  f(this);
}
ABSL_NAMESPACE_END
}  // namespace absl

// the threads in the pools that take as many as there are processors
unsigned sched::processors = 1;
namespace std {
unsigned thread::hardware_concurrency() noexcept { return sched::processors; }
}

void* operator new(size_t n) { return allocate(n, 0); }
void* operator new[](size_t n) { return allocate(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return allocate(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return allocate(n, static_cast<size_t>(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0); }
void operator delete(void* p) noexcept { deallocate(p); }
void operator delete[](void* p) noexcept { deallocate(p); }
void operator delete(void* p, size_t) noexcept { deallocate(p); }
void operator delete[](void* p, size_t) noexcept { deallocate(p); }
void operator delete(void* p, std::align_val_t) noexcept { deallocate(p); }
void operator delete[](void* p, std::align_val_t) noexcept { deallocate(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { deallocate(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { deallocate(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { deallocate(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { deallocate(p); }

// ---------------------------------------------------------------- instrumentation
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, sizeof *p, true, false); }
void __tsan_vptr_read(void** p) { access(p, sizeof *p, false, false); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, false); }
#define RW(n)                                                                    \
  void __tsan_read##n(void* p) { access(p, n, false, false); }                   \
  void __tsan_write##n(void* p) { access(p, n, true, false); }                   \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, false); }         \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, false); }         \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, false); }          \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, false); }          \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, false); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)

#define SC __ATOMIC_SEQ_CST
#define AT(bits, T_)                                                                              \
  T_ __tsan_atomic##bits##_load(const volatile T_* p, int mo) {                                    \
    atomic_point(p, sizeof(T_), Load);                                                            \
    T_ r = __atomic_load_n(p, SC);                                                                \
    atomic_order(p, Load, mo);                                                                    \
    return r;                                                                                     \
  }                                                                                               \
  void __tsan_atomic##bits##_store(volatile T_* p, T_ v, int mo) {                                 \
    atomic_point(p, sizeof(T_), Store);                                                           \
    __atomic_store_n(p, v, SC);                                                                   \
    atomic_order(p, Store, mo);                                                                   \
  }                                                                                               \
  T_ __tsan_atomic##bits##_exchange(volatile T_* p, T_ v, int mo) {                                \
    atomic_point(p, sizeof(T_), Rmw);                                                             \
    T_ r = __atomic_exchange_n(p, v, SC);                                                         \
    atomic_order(p, Rmw, mo);                                                                     \
    return r;                                                                                     \
  }                                                                                               \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T_* p, T_* e, T_ v, int mo, int fmo) { \
    atomic_point(p, sizeof(T_), Rmw);                                                             \
    bool r = __atomic_compare_exchange_n(p, e, v, false, SC, SC);                                 \
    atomic_order(p, r ? Rmw : Load, r ? mo : fmo);                                                \
    return r;                                                                                     \
  }                                                                                               \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T_* p, T_* e, T_ v, int mo, int fmo) {  \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo);                       \
  }                                                                                               \
  T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_* p, T_ e, T_ v, int mo, int fmo) {     \
    __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo);                             \
    return e;                                                                                     \
  }
#define FETCH(bits, T_, name)                                            \
  T_ __tsan_atomic##bits##_fetch_##name(volatile T_* p, T_ v, int mo) {   \
    atomic_point(p, sizeof(T_), Rmw);                                    \
    T_ r = __atomic_fetch_##name(p, v, SC);                              \
    atomic_order(p, Rmw, mo);                                            \
    return r;                                                            \
  }
#define ALL(bits, T_) \
  AT(bits, T_) FETCH(bits, T_, add) FETCH(bits, T_, sub) FETCH(bits, T_, and) FETCH(bits, T_, or) FETCH(bits, T_, xor) FETCH(bits, T_, nand)
ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}
// annotations some headers make when they see the sanitizer
void __tsan_acquire(void*) {}
void __tsan_release(void*) {}
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}
}
