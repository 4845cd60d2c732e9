// C02: reader/writer locks, under a generated schedule.
#include <memory>
#include <set>
#include <thread>

#include <aslam/common/reader-first-reader-writer-lock.h>
#include <aslam/common/reader-writer-lock.h>

#include "pbt.h"
#include "ctlsched.h"

const char* pbt::kProperty = "C02";
using pbt::Source;

namespace {

struct Gate {
  std::mutex m;
  std::condition_variable cv;
  int count = 0, need = 1;
  void arrive() {
    std::unique_lock<std::mutex> l(m);
    if (++count >= need) cv.notify_all();
  }
  void wait() {
    std::unique_lock<std::mutex> l(m);
    while (count < need) cv.wait(l);
  }
};

struct Op {
  int kind;  // 0 read, 1 write, 2 read+upgrade, 3 isInUse, 4 scoped read, 5 scoped write
  int inside;
  bool gate_wait = false, gate_arrive = false, rendezvous = false;
};

struct World {
  std::unique_ptr<aslam::ReaderWriterMutex> mutex;
  int readers = 0, writers = 0;
  long version = 0;
  long upgrades_ok = 0, upgrades_refused = 0;
  int max_readers = 0;
  std::string error;
  Gate gate, all_in;
  void fail(const std::string& e) {
    if (error.empty()) error = e;
  }
  void enterRead() {
    sched::NoYield n;
    ++readers;
    max_readers = std::max(max_readers, readers);
    if (writers) fail("a reader holds the lock together with a writer");
  }
  void leaveRead() {
    sched::NoYield n;
    --readers;
  }
  void enterWrite(bool upgraded, long seen) {
    sched::NoYield n;
    ++writers;
    if (writers > 1) fail("two writers hold the lock");
    if (readers) fail("a writer holds the lock together with a reader");
    if (upgraded && version != seen) fail("another writer ran during a successful upgrade");
  }
  void leaveWrite() {
    sched::NoYield n;
    ++version;
    --writers;
  }
};

void dwell(const World& w, int n, bool writing) {
  for (int k = 0; k < n; ++k) sched::yield();
  (void)w;
  (void)writing;
}

void doOp(World* w, const Op& op) {
  aslam::ReaderWriterMutex* m = w->mutex.get();
  switch (op.kind) {
    case 0:
    case 4: {
      sched::note("acquireReadLock");
      std::unique_ptr<aslam::ScopedReadLock> scoped;
      if (op.kind == 4) {
        aslam::ScopedReadLock l(m);
        scoped.reset(new aslam::ScopedReadLock(std::move(l)));
      } else {
        m->acquireReadLock();
      }
      w->enterRead();
      if (!m->isInUse()) w->fail("isInUse is false while a reader holds the lock");
      if (op.rendezvous) {
        sched::note("rendezvous of readers");
        w->all_in.arrive();
        w->all_in.wait();
      }
      if (op.gate_wait) {
        sched::note("reader holding the lock until another reader was served");
        w->gate.wait();
      }
      dwell(*w, op.inside, false);
      w->leaveRead();
      sched::note("releaseReadLock");
      if (op.kind == 4) scoped.reset();
      else m->releaseReadLock();
      if (op.gate_arrive) w->gate.arrive();
      break;
    }
    case 1:
    case 5: {
      sched::note("acquireWriteLock");
      std::unique_ptr<aslam::ScopedWriteLock> scoped;
      if (op.kind == 5) {
        aslam::ScopedWriteLock l(m);
        scoped.reset(new aslam::ScopedWriteLock(std::move(l)));
      } else {
        m->acquireWriteLock();
      }
      w->enterWrite(false, 0);
      if (!m->isInUse()) w->fail("isInUse is false while a writer holds the lock");
      dwell(*w, op.inside, true);
      w->leaveWrite();
      sched::note("releaseWriteLock");
      if (op.kind == 5) scoped.reset();
      else m->releaseWriteLock();
      break;
    }
    case 2: {
      sched::note("acquireReadLock");
      m->acquireReadLock();
      w->enterRead();
      const long seen = w->version;
      dwell(*w, op.inside, false);
      // From here on this thread counts as a reader only until the call
      // returns; a refused upgrade has given the read lock up.
      w->leaveRead();
      sched::note("upgradeToWriteLock");
      if (m->upgradeToWriteLock()) {
        w->enterWrite(true, seen);
        { sched::NoYield n; ++w->upgrades_ok; }
        dwell(*w, op.inside / 2, true);
        w->leaveWrite();
        m->releaseWriteLock();
      } else {
        sched::NoYield n;
        ++w->upgrades_refused;
      }
      break;
    }
    default:
      sched::note("isInUse");
      m->isInUse();
  }
}

std::string opName(const Op& o) {
  static const char* n[] = {"read", "write", "upgrade", "isInUse", "scopedRead", "scopedWrite"};
  std::ostringstream os;
  os << n[o.kind] << "(" << o.inside << (o.gate_wait ? ",hold" : "") << (o.gate_arrive ? ",serve" : "")
     << (o.rendezvous ? ",meet" : "") << ")";
  return os.str();
}

}  // namespace

static void lockCase(Source& s, bool reader_first) {
  World w;
  if (reader_first) w.mutex.reset(new aslam::ReaderFirstReaderWriterMutex());
  else w.mutex.reset(new aslam::ReaderWriterMutex());
  const int threads = s.i(2, 5);
  std::vector<std::vector<Op>> plan(threads);
  const int scenario = s.i(0, 5);  // 0: readers meet; 1: reader-first guarantee; else mixed
  int upgrades = 0, writes = 0, reads = 0;
  for (int t = 0; t < threads; ++t) {
    const int n = s.size(1, 5);
    for (int k = 0; k < n; ++k) {
      Op op;
      op.kind = s.oneOf<int>({0, 1, 2, 0, 1, 2, 3, 4, 5});
      op.inside = s.i(0, 6);
      if (scenario == 0 && (op.kind == 1 || op.kind == 2 || op.kind == 5)) op.kind = 0;
      if (scenario == 2 && op.kind != 1) op.kind = 2;
      plan[t].push_back(op);
      upgrades += op.kind == 2;
      writes += op.kind == 1 || op.kind == 5;
      reads += op.kind == 0 || op.kind == 4;
    }
  }
  if (scenario == 0) {
    // Without writers all readers must be able to hold the lock together.
    w.all_in.need = threads;
    for (int t = 0; t < threads; ++t) {
      Op op;
      op.kind = s.boolean() ? 4 : 0;
      op.inside = 1;
      op.rendezvous = true;
      plan[t].insert(plan[t].begin() + s.i(0, static_cast<int>(plan[t].size())), op);
    }
  } else if (scenario == 1 && reader_first) {
    // Thread 0 holds the read lock until thread 1 was granted a read lock,
    // whoever waits for write access meanwhile. Thread 1 takes its read lock
    // as its first operation; thread 0 holds as its first operation.
    Op hold, serve;
    hold.kind = 0;
    hold.inside = 0;
    hold.gate_wait = true;
    serve.kind = 0;
    serve.inside = s.i(0, 3);
    serve.gate_arrive = true;
    plan[0].insert(plan[0].begin(), hold);
    // Before it, thread 1 may not take the lock in a way that waits for thread 0.
    int at = 0;
    plan[1].insert(plan[1].begin() + at, serve);
  }
  s << (reader_first ? "reader-first" : "default");
  for (int t = 0; t < threads; ++t) {
    s << "\n thread " << t << ":";
    for (const Op& o : plan[t]) s << " " << opName(o);
  }
  uint64_t switches = 0;
  sched::run(s, [&]() {
    std::vector<std::thread> th;
    for (int t = 0; t < threads; ++t) {
      th.emplace_back([&, t]() {
        sched::nameThread("thread " + std::to_string(t));
        for (const Op& op : plan[t]) doOp(&w, op);
        sched::note("finished plan");
      });
    }
    for (std::thread& t : th) {
      sched::note("join");
      t.join();
    }
    switches = sched::switches();
    if (w.mutex->isInUse()) w.fail("mutex still in use after every holder released");
    sched::note("final write");
    w.mutex->acquireWriteLock();
    w.mutex->releaseWriteLock();
    sched::note("final read");
    w.mutex->acquireReadLock();
    w.mutex->releaseReadLock();
    if (w.mutex->isInUse()) w.fail("mutex in use at the end");
    sched::note("final upgrade");
    w.mutex->acquireReadLock();
    if (!w.mutex->upgradeToWriteLock()) w.fail("uncontended upgrade refused");
    w.mutex->releaseWriteLock();
    if (w.mutex->isInUse()) w.fail("mutex in use after a final upgrade");
    w.mutex->acquireReadLock();
    w.mutex->releaseReadLock();
  });
  PBT_CHECK(w.error.empty(), w.error);
  PBT_CHECK(w.upgrades_ok + w.upgrades_refused == upgrades, "upgrade count");
  PBT_CHECK(upgrades == 0 || w.upgrades_ok >= 1, "every upgrade was refused");
  s.label("scenario" + std::to_string(scenario));
  if (w.upgrades_ok) s.label("upgrade granted");
  if (w.upgrades_refused) s.label("upgrade refused");
  if (w.max_readers > 1) s.label("concurrent readers");
  s.nontrivial(switches >= 4 && (scenario == 0 || (writes + upgrades > 0 && reads + upgrades > 1)));
}

PBT_PROP(default_lock, "at least 4 context switches, and both reading and writing/upgrading operations (or meeting readers)",
         24000, 400000, false, 16, true) {
  lockCase(s, false);
}
PBT_PROP(reader_first_lock, "as default_lock", 24000, 400000, false, 16, true) {
  lockCase(s, true);
}
