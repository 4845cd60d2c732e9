#include "ctlsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <bits/atomic_futex.h>
#include <map>
#include <memory>
#include <vector>

namespace {

template <typename F>
F real(const char* name, F*) {
  return nullptr;
}
#define REAL(ret, name, ...)                                         \
  typedef ret (*name##_fnptr)(__VA_ARGS__);                              \
  static name##_fnptr real_##name() {                                    \
    static name##_fnptr f = nullptr;                                     \
    if (!f) f = reinterpret_cast<name##_fnptr>(dlsym(RTLD_NEXT, #name)); \
    return f;                                                        \
  }

REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
REAL(int, pthread_join, pthread_t, void**)
REAL(int, pthread_detach, pthread_t)
REAL(int, pthread_mutex_lock, pthread_mutex_t*)
REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*)
REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)
REAL(int, pthread_cond_signal, pthread_cond_t*)
REAL(int, pthread_cond_broadcast, pthread_cond_t*)
REAL(int, nanosleep, const struct timespec*, struct timespec*)
REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*)
REAL(int, usleep, useconds_t)
REAL(int, sched_yield, void)
REAL(int, __cxa_guard_acquire, void*)
REAL(void, __cxa_guard_release, void*)
REAL(void, __cxa_guard_abort, void*)
REAL(int, pthread_once, pthread_once_t*, void (*)(void))
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)

enum class Wait { kNone, kMutex, kCond, kCondTimed, kJoin, kGuard, kSleep, kRw, kFutex };

struct Thread {
  int id = 0;
  pthread_t handle{};
  sem_t sem;
  bool started = false, finished = false, detached = false, joined = false;
  Wait wait = Wait::kNone;
  const void* obj = nullptr;   // what it waits for
  bool rw_write = false;
  bool timed_out = false;
  int64_t deadline = 0;
  std::string name, note;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
};

struct Mutex {
  int owner = -1;
  int depth = 0;
};
struct Rw {
  int writer = -1;
  int readers = 0;
};

struct State {
  pbt::Source* src = nullptr;
  sched::Config cfg;
  std::vector<std::unique_ptr<Thread>> threads;
  std::map<const void*, Mutex> mutexes;
  std::map<const void*, Rw> rws;
  std::map<const void*, int> guards;  // in-progress guards / onces
  int current = 0;
  long gap = -1;
  uint64_t steps = 0, switches = 0, since_switch = 0;
  int64_t clock = 1000000000;
};

State* g = nullptr;
volatile bool g_active = false;
__thread int t_self = -1;
__thread Thread* t_me = nullptr;
__thread int t_inside = 0;  // inside the scheduler: do not yield

struct Inside {
  Inside() { ++t_inside; }
  ~Inside() { --t_inside; }
};

inline bool on() { return g_active && t_self >= 0 && t_inside == 0; }

Thread& self() { return *t_me; }

const char* waitName(Wait w) {
  switch (w) {
    case Wait::kMutex: return "mutex";
    case Wait::kCond: return "condition variable";
    case Wait::kCondTimed: return "condition variable (timed)";
    case Wait::kJoin: return "join";
    case Wait::kGuard: return "static initialisation";
    case Wait::kSleep: return "sleep";
    case Wait::kRw: return "rwlock";
    case Wait::kFutex: return "future";
    default: return "nothing";
  }
}

[[noreturn]] void die(const char* what) {
  g_active = false;
  std::string m = what;
  fprintf(stderr, "%s after %llu steps, %llu switches\n", what,
          (unsigned long long)g->steps, (unsigned long long)g->switches);
  for (auto& t : g->threads) {
    fprintf(stderr, "thread %d%s%s: %s%s%s\n", t->id, t->name.empty() ? "" : " ", t->name.c_str(),
            t->finished ? "finished" : t->wait == Wait::kNone ? "runnable" : "blocked on ",
            t->finished || t->wait == Wait::kNone ? "" : waitName(t->wait),
            t->note.empty() ? "" : ("; in " + t->note).c_str());
  }
  fflush(stderr);
  abort();
}

// Can this thread make progress if scheduled?
bool runnable(const Thread& t) {
  if (t.finished) return false;
  switch (t.wait) {
    case Wait::kNone: return true;
    case Wait::kMutex: {
      auto it = g->mutexes.find(t.obj);
      return it == g->mutexes.end() || it->second.owner < 0;
    }
    case Wait::kRw: {
      auto it = g->rws.find(t.obj);
      if (it == g->rws.end()) return true;
      return it->second.writer < 0 && (!t.rw_write || it->second.readers == 0);
    }
    case Wait::kJoin: return static_cast<const Thread*>(t.obj)->finished;
    case Wait::kGuard: return g->guards.find(t.obj) == g->guards.end();
    default: return false;  // cond, sleep: made kNone when signalled / expired
  }
}

// Fires the earliest timed wait. Returns false if there is none.
bool fireTimeout() {
  Thread* best = nullptr;
  for (auto& t : g->threads) {
    if (t->finished) continue;
    if (t->wait == Wait::kSleep || t->wait == Wait::kCondTimed ||
        (t->wait == Wait::kFutex && t->deadline > 0)) {
      if (!best || t->deadline < best->deadline) best = t.get();
    }
  }
  if (!best) return false;
  g->clock = std::max(g->clock, best->deadline);
  best->timed_out = true;
  best->wait = Wait::kNone;
  best->obj = nullptr;
  return true;
}

void handTo(int next) {
  const int me = t_self;
  if (next == me) return;
  g->current = next;
  ++g->switches;
  g->since_switch = 0;
  Thread& n = *g->threads[next];
  sem_post(&n.sem);
}

void waitBaton() {
  Thread& me = self();
  while (sem_wait(&me.sem) != 0) {
  }
}

void drawGap() {
  const uint64_t d = g->src->draw(16);
  if (d < 4) {
    g->gap = -1;
  } else if (d < 9) {
    g->gap = 1 + static_cast<long>(g->src->draw(8));
  } else if (d < 13) {
    g->gap = 1 + static_cast<long>(g->src->draw(60));
  } else {
    g->gap = 1 + static_cast<long>(g->src->draw(g->cfg.max_gap));
  }
}

// Collects runnable threads other than me (if !include_me).
void collect(std::vector<int>* out, bool include_me) {
  out->clear();
  if (include_me && runnable(self())) out->push_back(t_self);
  for (auto& t : g->threads) {
    if (t->id != t_self && t->started && runnable(*t)) out->push_back(t->id);
  }
}

// Called with the current thread either runnable (optional switch) or blocked
// (must switch). Returns when the current thread is scheduled again.
void scheduleFrom(bool blocked) {
  std::vector<int> c;
  while (true) {
    collect(&c, blocked);
    if (!c.empty()) break;
    if (!blocked) return;
    if (!fireTimeout()) die("DEADLOCK: no thread can run");
  }
  const int next = c[c.size() == 1 ? 0 : g->src->draw(c.size())];
  drawGap();
  if (next != t_self) {
    handTo(next);
    waitBaton();
  }
}

void spuriousWake() {
  if (!g->cfg.spurious) return;
  std::vector<Thread*> w;
  for (auto& t : g->threads)
    if (!t->finished && (t->wait == Wait::kCond || t->wait == Wait::kCondTimed)) w.push_back(t.get());
  if (w.empty()) return;
  Thread* t = w[g->src->draw(w.size())];
  t->wait = Wait::kNone;
  t->obj = nullptr;
}

void point() {
  if (!on()) return;
  Inside in;
  ++g->steps;
  ++g->since_switch;
  if (g->steps > g->cfg.max_steps) die("LIVELOCK: step bound exceeded");
  bool sw = false;
  if (g->gap > 0 && --g->gap == 0) sw = true;
  if (g->since_switch > 20000) sw = true;  // fairness for spinning code
  if (!sw) return;
  g->since_switch = 0;
  const uint64_t kind = g->src->draw(40);
  if (kind == 39) spuriousWake();
  if (kind == 38) fireTimeout();
  scheduleFrom(false);
}

// Blocks the current thread with the given reason until runnable and chosen.
void block(Wait w, const void* obj) {
  Thread& me = self();
  me.wait = w;
  me.obj = obj;
  scheduleFrom(true);
  me.wait = Wait::kNone;
  me.obj = nullptr;
}

void lockModel(const void* m) {
  while (true) {
    Mutex& mm = g->mutexes[m];
    if (mm.owner < 0) {
      mm.owner = t_self;
      mm.depth = 1;
      return;
    }
    block(Wait::kMutex, m);
  }
}

void unlockModel(const void* m) {
  auto it = g->mutexes.find(m);
  if (it == g->mutexes.end() || it->second.owner != t_self) {
    die("ERROR: unlock of a mutex the thread does not hold");
  }
  g->mutexes.erase(it);
}

int64_t tsNs(const struct timespec* t) { return int64_t(t->tv_sec) * 1000000000 + t->tv_nsec; }

void* trampoline(void* p) {
  Thread* t = static_cast<Thread*>(p);
  t_self = t->id;
  t_me = t;
  {
    Inside in;
    waitBaton();
  }
  t->ret = t->fn(t->arg);
  {
    Inside in;
    t->finished = true;
    std::vector<int> c;
    while (true) {
      collect(&c, false);
      if (!c.empty()) break;
      if (!fireTimeout()) die("DEADLOCK: no thread can run");
    }
    const int next = c[c.size() == 1 ? 0 : g->src->draw(c.size())];
    drawGap();
    g->current = next;
    ++g->switches;
    g->since_switch = 0;
    t_self = -1;
    sem_post(&g->threads[next]->sem);
  }
  return t->ret;
}

}  // namespace

namespace sched {

uint64_t stamp() {
  static uint64_t c = 0;
  return ++c;
}
NoYield::NoYield() { ++t_inside; }
NoYield::~NoYield() { --t_inside; }
bool active() { return g_active; }
void yield() { point(); }
uint64_t steps() { return g ? g->steps : 0; }
uint64_t switches() { return g ? g->switches : 0; }
int64_t now() { return g ? g->clock : 0; }
void nameThread(const std::string& n) {
  if (g_active && t_self >= 0) self().name = n;
}
void note(const std::string& n) {
  if (g_active && t_self >= 0) self().note = n;
}
bool othersBlocked() {
  Inside in;
  std::vector<int> c;
  collect(&c, false);
  return c.empty();
}
void settle() {
  Inside in;
  std::vector<int> c;
  while (true) {
    collect(&c, false);
    if (c.empty()) return;
    const int next = c[c.size() == 1 ? 0 : g->src->draw(c.size())];
    drawGap();
    handTo(next);
    waitBaton();
    if (++g->steps > g->cfg.max_steps) die("LIVELOCK: threads never settle");
  }
}

void run(pbt::Source& s, const std::function<void()>& body, Config cfg) {
  std::unique_ptr<State> st(new State);
  st->src = &s;
  st->cfg = cfg;
  Thread* main = new Thread;
  main->id = 0;
  main->started = true;
  main->name = "main";
  sem_init(&main->sem, 0, 0);
  st->threads.emplace_back(main);
  State* prev = g;
  g = st.get();
  t_self = 0;
  t_me = main;
  {
    Inside in;
    drawGap();
  }
  // One CPU makes hand-over cheap.
  g_active = true;
  auto finish = [&]() {
    Inside in;
    std::vector<int> c;
    while (true) {
      bool all = true;
      for (auto& t : st->threads)
        if (t->id != 0 && !t->finished) all = false;
      if (all) break;
      collect(&c, false);
      if (c.empty()) {
        if (fireTimeout()) continue;
        die("DEADLOCK: a thread never finishes");
      }
      const int next = c[c.size() == 1 ? 0 : g->src->draw(c.size())];
      drawGap();
      handTo(next);
      waitBaton();
      if (++g->steps > cfg.max_steps) die("LIVELOCK: threads never finish");
    }
    g_active = false;
    t_self = -1;
    for (auto& t : st->threads) {
      if (t->id != 0 && !t->joined) real_pthread_join()(t->handle, nullptr);
      sem_destroy(&t->sem);
    }
  };
  try {
    body();
  } catch (...) {
    finish();
    g = prev;
    throw;
  }
  finish();
  g = prev;
}

}  // namespace sched

namespace std {
// Futures block in a futex inside libstdc++; modelled here.
static bool futexWait(unsigned* addr, unsigned val, bool has_timeout, int64_t rel) {
  point();
  Inside in;
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
  Thread& me = self();
  me.timed_out = false;
  me.deadline = has_timeout ? g->clock + std::max<int64_t>(rel, 1) : 0;
  block(Wait::kFutex, addr);
  const bool to = me.timed_out;
  me.timed_out = false;
  return !to;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val,
                                                       bool has_timeout, chrono::seconds s,
                                                       chrono::nanoseconds ns) {
  if (!on()) {
    while (__atomic_load_n(addr, __ATOMIC_SEQ_CST) == val) {
      if (has_timeout && std::chrono::system_clock::now().time_since_epoch() >= s + ns) return false;
      real_usleep()(100);
    }
    return true;
  }
  const int64_t rel = (s + ns - std::chrono::system_clock::now().time_since_epoch()).count();
  return futexWait(addr, val, has_timeout, rel);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val,
                                                              bool has_timeout, chrono::seconds s,
                                                              chrono::nanoseconds ns) {
  if (!on()) {
    while (__atomic_load_n(addr, __ATOMIC_SEQ_CST) == val) {
      if (has_timeout && std::chrono::steady_clock::now().time_since_epoch() >= s + ns) return false;
      real_usleep()(100);
    }
    return true;
  }
  const int64_t rel = (s + ns - std::chrono::steady_clock::now().time_since_epoch()).count();
  return futexWait(addr, val, has_timeout, rel);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
  if (!g_active || !g) return;  // waiters poll outside the scheduler
  point();
  Inside in;
  for (auto& t : g->threads) {
    if (!t->finished && t->wait == Wait::kFutex && t->obj == addr) {
      t->wait = Wait::kNone;
      t->obj = nullptr;
    }
  }
}
}  // namespace std

extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!on()) return real_pthread_create()(out, attr, fn, arg);
  Thread* t;
  {
    Inside in;
    t = new Thread;
    t->id = static_cast<int>(g->threads.size());
    t->fn = fn;
    t->arg = arg;
    sem_init(&t->sem, 0, 0);
    g->threads.emplace_back(t);
    const int r = real_pthread_create()(&t->handle, nullptr, &trampoline, t);
    if (r != 0) die("ERROR: cannot create a thread");
    *out = t->handle;
    t->started = true;
  }
  point();
  return 0;
}

int pthread_join(pthread_t h, void** ret) {
  if (!on()) return real_pthread_join()(h, ret);
  point();
  Inside in;
  for (auto& t : g->threads) {
    if (t->id != 0 && !t->joined && pthread_equal(t->handle, h)) {
      Thread* p = t.get();
      while (!p->finished) block(Wait::kJoin, p);
      p->joined = true;
      real_pthread_join()(h, nullptr);
      if (ret) *ret = p->ret;
      return 0;
    }
  }
  return ESRCH;
}

int pthread_detach(pthread_t h) {
  if (!on()) return real_pthread_detach()(h);
  return 0;  // joined by sched::run
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on()) {
    if (g_active && t_self >= 0) return 0;
    return real_pthread_mutex_lock()(m);
  }
  point();
  Inside in;
  const int kind = m->__data.__kind & 3;
  Mutex& mm = g->mutexes[m];
  if (kind == PTHREAD_MUTEX_RECURSIVE_NP && mm.owner == t_self) {
    ++mm.depth;
    return 0;
  }
  if (kind == PTHREAD_MUTEX_ERRORCHECK_NP && mm.owner == t_self) return EDEADLK;
  lockModel(m);
  return 0;
}

int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) {
    if (g_active && t_self >= 0) return 0;
    return real_pthread_mutex_trylock()(m);
  }
  point();
  Inside in;
  Mutex& mm = g->mutexes[m];
  if (mm.owner == t_self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
    ++mm.depth;
    return 0;
  }
  if (mm.owner >= 0) return EBUSY;
  mm.owner = t_self;
  mm.depth = 1;
  return 0;
}

int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on()) {
    if (g_active && t_self >= 0) return 0;
    return real_pthread_mutex_unlock()(m);
  }
  {
    Inside in;
    auto it = g->mutexes.find(m);
    if (it != g->mutexes.end() && it->second.owner == t_self && it->second.depth > 1) {
      --it->second.depth;
      return 0;
    }
    unlockModel(m);
  }
  point();
  return 0;
}

static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, int64_t deadline) {
  point();
  Inside in;
  unlockModel(m);
  Thread& me = self();
  me.timed_out = false;
  me.deadline = deadline;
  block(timed ? Wait::kCondTimed : Wait::kCond, c);
  const bool to = me.timed_out;
  me.timed_out = false;
  lockModel(m);
  return to ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!on()) return real_pthread_cond_wait()(c, m);
  return condWait(c, m, false, 0);
}
// Deadlines are absolute times of a real clock: modelled as "later than
// everything that can happen now", in the order of their distance.
static int64_t modelDeadline(clockid_t clk, const struct timespec* ts) {
  struct timespec n;
  clock_gettime(clk, &n);
  const int64_t d = tsNs(ts) - tsNs(&n);
  return g->clock + std::max<int64_t>(d, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!on()) return real_pthread_cond_timedwait()(c, m, ts);
  return condWait(c, m, true, modelDeadline(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk,
                           const struct timespec* ts) {
  if (!on()) return real_pthread_cond_clockwait()(c, m, clk, ts);
  return condWait(c, m, true, modelDeadline(clk, ts));
}

static void wake(pthread_cond_t* c, bool all) {
  Inside in;
  std::vector<Thread*> w;
  for (auto& t : g->threads) {
    if (!t->finished && (t->wait == Wait::kCond || t->wait == Wait::kCondTimed) && t->obj == c) {
      w.push_back(t.get());
    }
  }
  if (w.empty()) return;
  if (all) {
    for (Thread* t : w) {
      t->wait = Wait::kNone;
      t->obj = nullptr;
    }
  } else {
    Thread* t = w[w.size() == 1 ? 0 : g->src->draw(w.size())];
    t->wait = Wait::kNone;
    t->obj = nullptr;
  }
}

int pthread_cond_signal(pthread_cond_t* c) {
  if (!on()) return real_pthread_cond_signal()(c);
  point();
  wake(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!on()) return real_pthread_cond_broadcast()(c);
  point();
  wake(c, true);
  return 0;
}

static void doSleep(int64_t ns) {
  point();
  Inside in;
  Thread& me = self();
  me.deadline = g->clock + ns;
  me.timed_out = false;
  block(Wait::kSleep, &me);
  me.timed_out = false;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (!on()) return real_nanosleep()(a, b);
  doSleep(tsNs(a));
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec* b) {
  if (!on()) return real_clock_nanosleep()(c, flags, a, b);
  doSleep(flags ? 1000 : tsNs(a));
  return 0;
}
int usleep(useconds_t u) {
  if (!on()) return real_usleep()(u);
  doSleep(int64_t(u) * 1000);
  return 0;
}
int sched_yield(void) {
  if (!on()) return real_sched_yield()();
  Inside in;
  ++g->steps;
  scheduleFrom(false);
  return 0;
}

int __cxa_guard_acquire(void* gd) {
  if (!on()) return real___cxa_guard_acquire()(gd);
  point();
  Inside in;
  while (true) {
    if (*static_cast<char*>(gd)) return 0;
    if (!g->guards.count(gd)) {
      g->guards[gd] = t_self;
      return 1;
    }
    if (g->guards[gd] == t_self) die("DEADLOCK: recursive static initialisation");
    block(Wait::kGuard, gd);
  }
}
void __cxa_guard_release(void* gd) {
  if (g_active && g) {
    auto it = g->guards.find(gd);
    if (it != g->guards.end()) {
      g->guards.erase(it);
      *static_cast<char*>(gd) = 1;
      return;
    }
  }
  real___cxa_guard_release()(gd);
}
void __cxa_guard_abort(void* gd) {
  if (g_active && g) {
    auto it = g->guards.find(gd);
    if (it != g->guards.end()) {
      g->guards.erase(it);
      return;
    }
  }
  real___cxa_guard_abort()(gd);
}

int pthread_once(pthread_once_t* ctl, void (*fn)(void)) {
  if (!on()) return real_pthread_once()(ctl, fn);
  point();
  {
    Inside in;
    while (true) {
      if (*ctl == 2) return 0;
      if (!g->guards.count(ctl)) {
        g->guards[ctl] = t_self;
        break;
      }
      block(Wait::kGuard, ctl);
    }
  }
  try {
    fn();
  } catch (...) {
    Inside in;
    g->guards.erase(ctl);
    throw;
  }
  {
    Inside in;
    g->guards.erase(ctl);
    *ctl = 2;
  }
  point();
  return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!on()) return g_active && t_self >= 0 ? 0 : real_pthread_rwlock_rdlock()(l);
  point();
  Inside in;
  while (g->rws[l].writer >= 0) {
    self().rw_write = false;
    block(Wait::kRw, l);
  }
  ++g->rws[l].readers;
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!on()) return g_active && t_self >= 0 ? 0 : real_pthread_rwlock_wrlock()(l);
  point();
  Inside in;
  while (g->rws[l].writer >= 0 || g->rws[l].readers > 0) {
    self().rw_write = true;
    block(Wait::kRw, l);
  }
  g->rws[l].writer = t_self;
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!on()) return g_active && t_self >= 0 ? 0 : real_pthread_rwlock_tryrdlock()(l);
  Inside in;
  if (g->rws[l].writer >= 0) return EBUSY;
  ++g->rws[l].readers;
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!on()) return g_active && t_self >= 0 ? 0 : real_pthread_rwlock_trywrlock()(l);
  Inside in;
  if (g->rws[l].writer >= 0 || g->rws[l].readers > 0) return EBUSY;
  g->rws[l].writer = t_self;
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!on()) return g_active && t_self >= 0 ? 0 : real_pthread_rwlock_unlock()(l);
  {
    Inside in;
    Rw& r = g->rws[l];
    if (r.writer == t_self) r.writer = -1;
    else if (r.readers > 0) --r.readers;
    if (r.writer < 0 && r.readers == 0) g->rws.erase(l);
  }
  point();
  return 0;
}

// --- __tsan_* stubs: memory accesses as yield points -----------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) { point(); }
void __tsan_vptr_read(void**) {}
void __tsan_read_range(void*, unsigned long) { point(); }
void __tsan_write_range(void*, unsigned long) { point(); }
#define ACC(n)                                          \
  void __tsan_read##n(void*) { point(); }               \
  void __tsan_write##n(void*) { point(); }              \
  void __tsan_unaligned_read##n(void*) { point(); }     \
  void __tsan_unaligned_write##n(void*) { point(); }    \
  void __tsan_volatile_read##n(void*) { point(); }      \
  void __tsan_volatile_write##n(void*) { point(); }     \
  void __tsan_unaligned_volatile_read##n(void*) { point(); }  \
  void __tsan_unaligned_volatile_write##n(void*) { point(); } \
  void __tsan_read##n##_pc(void*, void*) { point(); }   \
  void __tsan_write##n##_pc(void*, void*) { point(); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
#define ATOMIC(bits, T)                                                                     \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { point(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { point(); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { point(); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) { point(); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}
}
