// C01: thread pool, under a generated schedule.
#include <map>
#include <memory>
#include <set>

#include <aslam/common/thread-pool.h>

#include "pbt.h"
#include "ctlsched.h"

const char* pbt::kProperty = "C01";
using aslam::ThreadPool;
using pbt::Source;

namespace {

constexpr size_t kNone = ThreadPool::kGroupdIdNonExclusiveTask;

struct TaskRec {
  size_t group = kNone;
  int value = 0;
  int kind = 0;  // 0 instant, 1 yields, 2 throws, 3 waits for partner, 4 partner
  bool accepted = false, enqueued = false;
  uint64_t enq_begin = 0, enq_end = 0, start = 0, end = 0;
  int runs = 0, ends = 0;
  int seen_value = -1;
  std::future<int> future;
};

struct Gate {
  std::mutex m;
  std::condition_variable cv;
  bool open = false;
  void wait() {
    std::unique_lock<std::mutex> l(m);
    while (!open) cv.wait(l);
  }
  void release() {
    std::unique_lock<std::mutex> l(m);
    open = true;
    cv.notify_all();
  }
};

struct World {
  std::vector<std::unique_ptr<TaskRec>> tasks;
  std::map<size_t, int> running;
  int total_running = 0;
  size_t workers = 1;
  std::string error;
  Gate gate;
  uint64_t tick() { return sched::stamp(); }
  void fail(const std::string& e) {
    if (error.empty()) error = e;
  }
};

int runTask(World* w, TaskRec* t, int arg) {
  sched::note("task");
  {
    sched::NoYield ny;
    t->start = w->tick();
    ++t->runs;
    t->seen_value = arg;
    if (t->group != kNone && ++w->running[t->group] > 1) {
      w->fail("two tasks of one exclusivity group overlap");
    }
    if (++w->total_running > static_cast<int>(w->workers)) w->fail("more tasks run than workers");
  }
  struct Done {
    World* w;
    TaskRec* t;
    ~Done() {
      sched::NoYield ny;
      if (t->group != kNone) --w->running[t->group];
      --w->total_running;
      t->end = w->tick();
      ++t->ends;
    }
  } done{w, t};
  if (t->kind == 1) {
    for (int k = 0; k < 1 + arg % 5; ++k) sched::yield();
  } else if (t->kind == 2) {
    throw std::runtime_error("task");
  } else if (t->kind == 3) {
    w->gate.wait();
  } else if (t->kind == 4) {
    w->gate.release();
  }
  return arg * 7 + 1;
}

void submit(World* w, ThreadPool* pool, TaskRec* t) {
  sched::note("enqueue");
  t->enq_begin = w->tick();
  int value = t->value;
  auto fn = [w, t](int a) { return runTask(w, t, a); };
  std::future<int> f = t->group == kNone ? pool->enqueue(fn, value)
                                         : pool->enqueueOrdered(t->group, fn, value);
  value = -1;  // the pool must have copied the argument
  t->enq_end = w->tick();
  t->accepted = f.valid();
  t->enqueued = true;
  t->future = std::move(f);
}

struct Op {
  int kind;  // 0 submit, 1 wait for empty queue, 2 get future, 3 query, 4 stop
  int task = -1;
};

}  // namespace

PBT_PROP(schedules,
         "at least 3 tasks, at least one exclusive group pair or rendezvous or stop or waiter, and "
         "at least 4 context switches",
         16000, 300000, false, 16, true) {
  World w;
  w.workers = s.i(1, 4);
  const int producers = s.i(1, 3);
  const int groups = s.i(0, 3);
  // Any identifier but the one of no group; some differ in the upper bits only.
  static const size_t ids[] = {0, 1, 77, 1000003, 255, 256, 65535, 65536, 65537, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000u, 0x10000004dull,
                               0xffffffff00000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, kNone - 1};
  size_t group_id[3];
  for (int i = 0; i < 3; ++i) {
    group_id[i] = s.chance(1, 3) ? ids[s.draw(sizeof(ids) / sizeof(ids[0]))] : i * 1000003u;
    for (int j = 0; j < i; ++j) if (group_id[i] == group_id[j]) group_id[i] = 5000000 + i;
  }
  const bool use_stop = s.chance(1, 4);
  const bool rendezvous = w.workers >= 2 && s.chance(1, 3);
  std::vector<std::vector<Op>> plan(producers);
  s << "workers=" << w.workers << " groups=" << groups << (use_stop ? " stop" : "")
    << (rendezvous ? " rendezvous" : "");
  int ntasks = 0, nwaits = 0;
  std::set<size_t> seen_groups;
  bool repeated_group = false;
  for (int p = 0; p < producers; ++p) {
    const int n = s.size(1, 8);
    s << "\n producer " << p << ":";
    for (int k = 0; k < n; ++k) {
      const int what = s.i(0, 9);
      if (what <= 5) {
        TaskRec* t = new TaskRec;
        t->group = groups == 0 ? kNone : (s.draw(groups + 1) == 0 ? kNone : group_id[s.draw(groups)]);
        t->value = s.i(0, 50);
        t->kind = s.oneOf<int>({0, 1, 1, 2});
        if (t->group != kNone) repeated_group |= !seen_groups.insert(t->group).second;
        plan[p].push_back(Op{0, static_cast<int>(w.tasks.size())});
        s << " submit(t" << w.tasks.size() << ",g=" << (t->group == kNone ? -1 : static_cast<long long>(t->group))
          << ",kind" << t->kind << ")";
        w.tasks.emplace_back(t);
        ++ntasks;
      } else if (what == 6 || what == 7) {
        plan[p].push_back(Op{1, -1});
        s << " wait";
        ++nwaits;
      } else if (what == 8) {
        plan[p].push_back(Op{3, -1});
        s << " query";
      } else {
        for (int b = static_cast<int>(plan[p].size()) - 1; b >= 0; --b) {
          if (plan[p][b].kind == 0) {
            plan[p].push_back(Op{2, plan[p][b].task});
            s << " get(t" << plan[p][b].task << ")";
            break;
          }
        }
      }
    }
  }
  int rv_a = -1, rv_b = -1;
  if (rendezvous) {
    // One task blocks until its partner (a different group or none) has run.
    TaskRec* a = new TaskRec;
    a->kind = 3;
    a->group = s.boolean() ? kNone : s.boolean() ? 77u : 0xffffffffu;
    TaskRec* b = new TaskRec;
    b->kind = 4;
    b->group = s.boolean() ? kNone : s.boolean() ? 78u : s.boolean() ? 0x10000004dull : 0x7fffffffffffffffull;
    rv_a = static_cast<int>(w.tasks.size());
    w.tasks.emplace_back(a);
    rv_b = static_cast<int>(w.tasks.size());
    w.tasks.emplace_back(b);
    const int p = s.i(0, producers - 1);
    const int at = s.i(0, static_cast<int>(plan[p].size()));
    plan[p].insert(plan[p].begin() + at, Op{0, rv_a});
    // The partner follows immediately or after other submissions of that
    // producer, but never after an operation that waits for the blocked task.
    int at2 = at + 1;
    while (at2 < static_cast<int>(plan[p].size()) && plan[p][at2].kind != 1 && plan[p][at2].kind != 2 &&
           s.boolean()) ++at2;
    plan[p].insert(plan[p].begin() + at2, Op{0, rv_b});
    s << "\n rendezvous in producer " << p << " at " << at << "," << at2;
    ntasks += 2;
  }
  int stop_p = -1;
  if (use_stop) {
    stop_p = s.i(0, producers - 1);
    const int at = s.i(0, static_cast<int>(plan[stop_p].size()));
    plan[stop_p].insert(plan[stop_p].begin() + at, Op{4, -1});
    s << "\n stop in producer " << stop_p << " at " << at;
  }
  const bool main_waits = s.boolean();
  uint64_t stop_begin = 0, stop_end = 0;
  uint64_t switches = 0;

  sched::run(s, [&]() {
    std::unique_ptr<ThreadPool> pool(new ThreadPool(w.workers));
    std::vector<std::thread> threads;
    for (int p = 0; p < producers; ++p) {
      threads.emplace_back([&, p]() {
        sched::nameThread("producer");
        for (const Op& op : plan[p]) {
          if (op.kind == 0) {
            if (op.task == rv_b && !w.tasks[rv_a]->accepted) continue;
            submit(&w, pool.get(), w.tasks[op.task].get());
            // If the pool was stopped in between, nobody else opens the gate.
            if (op.task == rv_b && !w.tasks[rv_b]->accepted) w.gate.release();
          } else if (op.kind == 1) {
            sched::note("waitForEmptyQueue");
            const uint64_t begin = w.tick();
            pool->waitForEmptyQueue();
            for (const auto& t : w.tasks) {
              if (t->accepted && t->enq_end < begin && t->enqueued && t->ends == 0) {
                w.fail("waitForEmptyQueue returned before an earlier task finished");
              }
            }
          } else if (op.kind == 2) {
            TaskRec* t = w.tasks[op.task].get();
            if (!t->future.valid()) continue;
            sched::note("future.get");
            try {
              const int r = t->future.get();
              if (t->kind == 2) w.fail("a throwing task delivered a value");
              if (r != t->value * 7 + 1) w.fail("future delivers a wrong value");
            } catch (const std::future_error&) {
              w.fail("future of an accepted task is broken");
            } catch (const std::runtime_error&) {
              if (t->kind != 2) w.fail("future delivers a foreign exception");
            }
            if (t->runs != 1) w.fail("future ready but task ran " + std::to_string(t->runs) + " times");
          } else if (op.kind == 3) {
            sched::note("numActiveThreads");
            if (pool->numActiveThreads() > w.workers) w.fail("more active threads than workers");
          } else {
            stop_begin = w.tick();
            pool->stop();
            stop_end = w.tick();
          }
        }
      });
    }
    for (std::thread& t : threads) {
      sched::note("join producers");
      t.join();
    }
    if (main_waits) {
      sched::note("final waitForEmptyQueue");
      pool->waitForEmptyQueue();
      for (const auto& t : w.tasks) {
        if (t->accepted && t->ends == 0) w.fail("final waitForEmptyQueue returned too early");
      }
      if (pool->numActiveThreads() != 0) w.fail("active threads after waitForEmptyQueue");
    }
    sched::note("destroy pool");
    pool.reset();
    switches = sched::switches();
    // Nothing may run after destruction; everything accepted has run.
    for (size_t i = 0; i < w.tasks.size(); ++i) {
      TaskRec& t = *w.tasks[i];
      if (!t.enqueued) continue;
      if (t.accepted) {
        if (t.runs != 1 || t.ends != 1) {
          w.fail("accepted task " + std::to_string(i) + " ran " + std::to_string(t.runs) + " times");
        }
        if (t.seen_value != t.value) w.fail("task saw a wrong argument");
        if (t.future.valid()) {
          if (t.future.wait_for(std::chrono::seconds(0)) != std::future_status::ready) {
            w.fail("future not ready after destruction");
          } else {
            try {
              const int r = t.future.get();
              if (t.kind == 2 || r != t.value * 7 + 1) w.fail("future result wrong");
            } catch (const std::future_error&) {
              w.fail("broken promise for an accepted task");
            } catch (const std::runtime_error&) {
              if (t.kind != 2) w.fail("unexpected exception in future");
            }
          }
        }
      } else {
        if (t.runs != 0) w.fail("refused task ran");
        if (!use_stop) w.fail("task refused although the pool was not stopped");
        if (t.enq_end < stop_begin || stop_begin == 0) w.fail("task refused before stop");
      }
      if (t.accepted && stop_end != 0 && t.enq_begin > stop_end) {
        w.fail("task accepted after stop returned");
      }
    }
  });
  PBT_CHECK(w.error.empty(), w.error);
  // Submission order inside a group (and overall for a single worker).
  for (const auto& a : w.tasks) {
    for (const auto& b : w.tasks) {
      if (a == b || !a->accepted || !b->accepted || !(a->enq_end < b->enq_begin)) continue;
      if (a->group != kNone && a->group == b->group) {
        PBT_CHECK(a->end < b->start, "group order violated");
      }
      if (w.workers == 1) PBT_CHECK(a->start < b->start, "single worker reorders tasks");
    }
  }
  s.label("workers" + std::to_string(w.workers));
  if (rendezvous) s.label("rendezvous");
  if (use_stop) s.label("stop");
  if (nwaits) s.label("waiter");
  if (repeated_group) s.label("group reused");
  s.label(switches < 4 ? "switches<4" : switches < 40 ? "switches<40" : "switches>=40");
  s.nontrivial(ntasks >= 3 && (repeated_group || rendezvous || use_stop || nwaits) && switches >= 4);
}

namespace pbt {
void workerInit() {
  google::SetStderrLogging(google::FATAL);
  FLAGS_logtostderr = true;
  FLAGS_minloglevel = 3;
}
}  // namespace pbt
