// C05, concurrent part: comparisons in both orders, clones, copies, lookups,
// additions and removals from several threads under generated schedules.
#include <memory>
#include <thread>

#include <aslam/common/channel-declaration.h>
#include <aslam/common/channel.h>

#include "ctlsched.h"
#include "pbt.h"

using pbt::Source;
using namespace aslam::channels;

namespace {
// Fixed content that no thread touches, so that every answer is checkable.
void base(ChannelGroup* g, int v) {
  addChannel<Eigen::VectorXi>("fixed", g) = Eigen::VectorXi::Constant(3, v);
  addChannel<int>("scalar", g) = v;
}
}  // namespace

PBT_PROP(concurrent, "at least two threads, a comparison in each order and a modification", 12000, 200000, false, 16, true) {
  const int groups = s.i(2, 3);
  const int threads = s.i(2, 4);
  struct Op {
    int kind, a, b, name;
  };
  std::vector<std::vector<Op>> prog(threads);
  bool ab = false, ba = false, mod = false;
  for (int t = 0; t < threads; ++t) {
    const int n = s.i(1, 5);
    s << "T" << t << ":";
    for (int k = 0; k < n; ++k) {
      Op o;
      o.kind = s.oneOf<int>({0, 0, 0, 1, 1, 2, 3, 4, 5, 6});
      o.a = s.i(0, groups - 1);
      o.b = s.i(0, groups - 1);
      o.name = s.i(0, 1);
      static const char* kName[] = {"compare", "add/remove", "clone", "copy out", "has/get", "print", "copy in"};
      s << " " << kName[o.kind] << " " << o.a << "," << o.b;
      if (o.kind == 0 && o.a < o.b) ab = true;
      if (o.kind == 0 && o.a > o.b) ba = true;
      if (o.kind == 1 || o.kind == 6) mod = true;
      prog[t].push_back(o);
    }
    s << "; ";
  }
  s.nontrivial(ab && ba && mod);
  std::vector<std::unique_ptr<ChannelGroup>> g;
  for (int k = 0; k < groups; ++k) {
    g.emplace_back(new ChannelGroup);
    base(g.back().get(), k);
  }
  std::string problem;
  sched::Config cfg;
  cfg.max_gap = 200;
  sched::run(s, [&]() {
    auto bad = [&](const std::string& m) {
      sched::NoYield n;
      if (problem.empty()) problem = m;
    };
    auto work = [&](int t) {
      // Each thread adds and removes channels under names of its own.
      for (const Op& o : prog[t]) {
        ChannelGroup& a = *g[o.a];
        ChannelGroup& b = *g[o.b];
        const std::string mine = "T" + std::to_string(t) + (o.name ? "x" : "y");
        switch (o.kind) {
          case 0: {
            const bool e = isChannelGroupEqual(a, b);
            if (e != (o.a == o.b)) bad("groups with different fixed content compare equal or one differs from itself");
            break;
          }
          case 1: {
            addChannel<double>(mine, &a) = t;
            if (!hasChannel(mine, a)) bad("an added channel is missing");
            if (getChannelData<double>(mine, a) != t) bad("value of an added channel");
            ChannelMap::size_type erased;
            {
              std::lock_guard<std::mutex> l(a.m_channels_);
              erased = a.channels_.erase(mine);
            }
            if (erased != 1) bad("an added channel vanished");
            if (hasChannel(mine, a)) bad("a removed channel is back");
            break;
          }
          case 2: {
            ChannelGroup c;
  c = cloneChannelGroup(a);
            if (getChannelData<int>("scalar", c) != o.a) bad("clone holds another value");
            if (!hasChannel("more", c)) addChannel<int>("more", &c) = 1;
            break;
          }
          case 3: {
            ChannelGroup c(a);
            if (getChannelData<int>("scalar", c) != o.a) bad("copy holds another value");
            if (!hasChannel("fixed", c)) bad("copy lacks a channel");
            break;
          }
          case 4:
            if (!hasChannel("fixed", a)) bad("a channel vanished");
            if (getChannelData<Eigen::VectorXi>("fixed", a) != Eigen::VectorXi::Constant(3, o.a)) bad("value");
            break;
          case 5: {
            std::ostringstream out;
            a.printParameters(out);
            if (out.str().find("fixed") == std::string::npos) bad("printout lacks a channel");
            break;
          }
          default: {
            // Assignment into a group private to this thread from a shared one.
            ChannelGroup c;
            addChannel<int>("scalar", &c) = 77;
            c = a;
            if (getChannelData<int>("scalar", c) != o.a) bad("assigned group holds another value");
            c = c;
            if (getChannelData<int>("scalar", c) != o.a) bad("self assignment");
          }
        }
      }
    };
    std::vector<std::thread> th;
    for (int t = 1; t < threads; ++t) th.emplace_back(work, t);
    work(0);
    for (std::thread& t : th) t.join();
  }, cfg);
  PBT_CHECK(problem.empty(), problem);
  for (int k = 0; k < groups; ++k) {
    PBT_EQ(g[k]->channels_.size(), 2u, "channels left in group " << k);
    PBT_CHECK(getChannelData<int>("scalar", *g[k]) == k, "value");
  }
}
