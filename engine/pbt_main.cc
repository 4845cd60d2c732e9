#include "pbt.h"

#include <atomic>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char* __asan_default_options() {
  return "exitcode=77:abort_on_error=0:handle_abort=0:detect_leaks=0:"
         "allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "max_allocation_size_mb=4096:malloc_context_size=10";
}
extern "C" const char* __ubsan_default_options() {
  return "exitcode=77:abort_on_error=0:print_stacktrace=0:halt_on_error=1";
}

namespace pbt {

std::vector<Prop>& registry() {
  static std::vector<Prop> r;
  return r;
}
std::vector<Known>& knownRegistry() {
  static std::vector<Known> r;
  return r;
}
__attribute__((weak)) void workerInit() {}

namespace {

enum Status : int { kPass = 0, kDiscard = 1, kFail = 2, kCrash = 3, kHang = 4 };

struct RunResult {
  Status status = kPass;
  std::string message;
  std::string description;
  std::vector<uint64_t> tape;
  bool nontrivial = false;
};

double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
uint64_t hashTape(const std::vector<uint64_t>& t) {
  uint64_t h = 0x1234567;
  for (uint64_t v : t) h = mix(h, v);
  return h | 1;
}

void setCpuTimer(int seconds) {
  struct itimerval tv;
  memset(&tv, 0, sizeof(tv));
  tv.it_value.tv_sec = seconds;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

Status runOne(const Prop& p, Source& s, std::string* msg) {
  setCpuTimer(p.opt.hang_cpu_s);
  try {
    p.fn(s);
    return kPass;
  } catch (const Failure& f) {
    *msg = f.message;
    return kFail;
  } catch (const Discard&) {
    return kDiscard;
  } catch (const std::exception& e) {
    *msg = std::string("unexpected exception: ") + e.what();
    return kFail;
  } catch (...) {
    *msg = "unexpected exception of unknown type";
    return kFail;
  }
}

void silence(const char* path) {
  const int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
  }
}

bool writeAll(int fd, const void* data, size_t n) {
  const char* c = static_cast<const char*>(data);
  while (n > 0) {
    const ssize_t w = write(fd, c, n);
    if (w < 0) {
      if (errno == EINTR) continue;
      return false;
    }
    c += w;
    n -= static_cast<size_t>(w);
  }
  return true;
}

int gDescFd = -1;
void descSink(const std::string& t) {
  if (gDescFd >= 0) writeAll(gDescFd, t.data(), t.size());
}

std::string gScratch;  // directory for captured stderr

// True when a process of ours has burnt no CPU for a while and sleeps: used to
// recognise a blocked (deadlocked) case without relying on wall-clock speed.
long procTicks(pid_t pid) {
  std::ostringstream p;
  p << "/proc/" << pid << "/stat";
  std::ifstream f(p.str());
  std::string line;
  if (!std::getline(f, line)) return -1;
  const size_t r = line.rfind(')');
  if (r == std::string::npos) return -1;
  std::istringstream is(line.substr(r + 2));
  std::string st;
  is >> st;
  long v = 0, ut = 0, stt = 0;
  std::string tok;
  for (int k = 4; k <= 15; ++k) {
    is >> tok;
    if (k == 14) ut = atol(tok.c_str());
    if (k == 15) stt = atol(tok.c_str());
  }
  v = ut + stt;
  return v;
}

constexpr double kBlockedSeconds = 40.0;

// Runs one tape in a forked child, after the cases of the given seeds.
RunResult runForked(const Prop& p, const std::vector<uint64_t>* tape, bool bytes,
                    uint64_t seed, bool describe,
                    const std::vector<uint64_t>* before = nullptr) {
  RunResult r;
  int fds[2];
  if (pipe(fds) != 0) {
    r.status = kDiscard;
    return r;
  }
  static uint64_t* mirror = nullptr;
  constexpr uint64_t kMirror = 1u << 20;
  if (mirror == nullptr) {
    mirror = static_cast<uint64_t*>(mmap(nullptr, kMirror * 8, PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  }
  mirror[0] = 0;
  const std::string errfile = gScratch + "/stderr.txt";
  fflush(stdout);
  fflush(stderr);
  const pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    silence(errfile.c_str());
    workerInit();
    std::string msg;
    if (before) {
      for (uint64_t b : *before) {
        Source earlier(b);
        runOne(p, earlier, &msg);
      }
      msg.clear();
    }
    Source s = tape ? Source(*tape, bytes) : Source(seed);
    s.describing = describe;
    if (describe) {
      gDescFd = open((gScratch + "/desc.txt").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      s.desc_sink = &descSink;
    }
    s.mirror = mirror;
    s.mirror_cap = kMirror;
    const Status st = runOne(p, s, &msg);
    setCpuTimer(0);
    int32_t head[2] = {static_cast<int32_t>(st), s.isNontrivial() ? 1 : 0};
    writeAll(fds[1], head, sizeof(head));
    const std::string d = s.description();
    uint64_t sz[3] = {msg.size(), d.size(), s.tape().size()};
    writeAll(fds[1], sz, sizeof(sz));
    writeAll(fds[1], msg.data(), msg.size());
    writeAll(fds[1], d.data(), d.size());
    writeAll(fds[1], s.tape().data(), s.tape().size() * 8);
    _exit(0);
  }
  close(fds[1]);
  // Read everything with a poll loop so that a blocked child is noticed.
  std::string buf;
  bool blocked = false;
  {
    fcntl(fds[0], F_SETFL, O_NONBLOCK);
    double last_change = now();
    long last_ticks = -1;
    char tmp[65536];
    while (true) {
      const ssize_t n = read(fds[0], tmp, sizeof(tmp));
      if (n > 0) {
        buf.append(tmp, static_cast<size_t>(n));
        last_change = now();
        continue;
      }
      if (n == 0) break;
      if (errno != EAGAIN && errno != EINTR) break;
      struct timeval tv = {0, 2000};
      fd_set set;
      FD_ZERO(&set);
      FD_SET(fds[0], &set);
      if (select(fds[0] + 1, &set, nullptr, nullptr, &tv) > 0) continue;
      const long ticks = procTicks(pid);
      if (ticks != last_ticks) {
        last_ticks = ticks;
        last_change = now();
      } else if (now() - last_change > kBlockedSeconds) {
        blocked = true;
        break;
      }
    }
  }
  close(fds[0]);
  if (blocked) kill(pid, SIGKILL);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (!blocked && WIFEXITED(st) && WEXITSTATUS(st) == 0 && buf.size() >= 32) {
    const char* c = buf.data();
    int32_t head[2];
    memcpy(head, c, 8);
    uint64_t sz[3];
    memcpy(sz, c + 8, 24);
    c += 32;
    if (buf.size() == 32 + sz[0] + sz[1] + 8 * sz[2]) {
      r.status = static_cast<Status>(head[0]);
      r.nontrivial = head[1] != 0;
      r.message.assign(c, sz[0]);
      c += sz[0];
      r.description.assign(c, sz[1]);
      c += sz[1];
      r.tape.resize(sz[2]);
      memcpy(r.tape.data(), c, 8 * sz[2]);
      return r;
    }
  }
  std::ostringstream m;
  if (blocked) {
    r.status = kHang;
    m << "the case blocked forever (no CPU used, no progress)";
  } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) {
    r.status = kHang;
    m << "the case used more than " << p.opt.hang_cpu_s << " s of CPU time";
  } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
    r.status = kDiscard;  // killed from outside (memory): inconclusive
    m << "killed from outside";
  } else {
    r.status = kCrash;
    if (WIFSIGNALED(st)) {
      m << "crashed with signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
    } else {
      m << "exited with code " << WEXITSTATUS(st)
        << (WEXITSTATUS(st) == 77 ? " (sanitizer report)" : "");
    }
    std::ifstream f(errfile);
    std::string line, all;
    int kept = 0;
    while (std::getline(f, line) && kept < 14) {
      if (line.empty()) continue;
      if (line.size() > 300) line.resize(300);
      all += "\n    " + line;
      ++kept;
    }
    m << all;
  }
  r.message = m.str();
  if (describe) {
    std::ifstream f(gScratch + "/desc.txt");
    r.description.assign(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
  }
  if (bytes && tape) {
    r.tape = *tape;
  } else {
    r.tape.assign(mirror + 1, mirror + 1 + mirror[0]);
  }
  return r;
}

struct Label {
  std::atomic<int> used;
  char name[56];
  std::atomic<uint64_t> count;
};
struct WorkerSlot {
  std::atomic<uint64_t> current;  // case index + 1
  std::atomic<int> failed;
  char message[2048];
};
constexpr int kLabels = 256;
struct Shared {
  std::atomic<uint64_t> next;
  std::atomic<int> stop;
  std::atomic<uint64_t> evals, discards, nontrivial;
  Label labels[kLabels];
  WorkerSlot w[64];
};

void countLabel(Shared* sh, const std::string& name) {
  const uint64_t h = hashStr(name);
  for (int k = 0; k < kLabels; ++k) {
    Label& l = sh->labels[(h + k) % kLabels];
    int u = l.used.load();
    if (u == 0) {
      int exp = 0;
      if (l.used.compare_exchange_strong(exp, 1)) {
        strncpy(l.name, name.c_str(), sizeof(l.name) - 1);
        l.used.store(2);
        u = 2;
      } else {
        u = exp;
      }
    }
    while (l.used.load() == 1) {
    }
    if (strncmp(l.name, name.c_str(), sizeof(l.name) - 1) == 0) {
      l.count.fetch_add(1);
      return;
    }
  }
}

struct PropStats {
  uint64_t evals = 0, discards = 0, nontrivial = 0, distinct = 0, planned = 0;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  double wall = 0;
  bool budget_hit = false;
};

struct FoundFailure {
  bool found = false;
  uint64_t index = 0;
  std::string message;
  std::vector<uint64_t> before;  // seeds of the cases that ran before it in the same process
};

std::string jsonEsc(const std::string& s) {
  std::ostringstream o;
  for (unsigned char c : s) {
    if (c == '"') o << "\\\"";
    else if (c == '\\') o << "\\\\";
    else if (c == '\n') o << "\\n";
    else if (c == '\t') o << "\\t";
    else if (c == '\r') o << "\\r";
    else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      o << b;
    } else {
      o << c;
    }
  }
  return o.str();
}

uint64_t caseSeed(uint64_t seed, const Prop& p, uint64_t idx) {
  return mix(mix(seed, hashStr(p.name)), idx);
}

FoundFailure runProp(const Prop& p, uint64_t cases, uint64_t seed, int jobs,
                     double deadline, PropStats* stats) {
  FoundFailure ff;
  const double t0 = now();
  Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  const size_t hb = std::max<uint64_t>(cases, 1) * 8;
  uint64_t* hashes = static_cast<uint64_t*>(
      mmap(nullptr, hb, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  // The chunks each worker took, in order.
  const uint64_t chunk_size = std::max(1, p.opt.chunk);
  const uint64_t taken_cap = cases / chunk_size + 4;
  const size_t tb = taken_cap * jobs * 8;
  uint64_t* taken = static_cast<uint64_t*>(
      mmap(nullptr, tb, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  stats->planned = cases;
  std::vector<pid_t> pids(jobs, -1);
  std::vector<double> last_change(jobs, now());
  std::vector<long> last_ticks(jobs, -1);
  std::vector<uint64_t> last_cur(jobs, 0);
  auto spawn = [&](int w) {
    fflush(stdout);
    fflush(stderr);
    sh->w[w].current = 0;
    const pid_t pid = fork();
    if (pid == 0) {
      silence("/dev/null");
      workerInit();
      const std::string werr = gScratch + "/w" + std::to_string(w) + ".txt";
      const uint64_t chunk = std::max(1, p.opt.chunk);
      std::string msg;
      while (!sh->stop.load()) {
        const uint64_t b = sh->next.fetch_add(chunk);
        uint64_t* own = taken + taken_cap * w;
        own[1 + own[0]] = b;
        ++own[0];
        if (b >= cases) {
          unlink(werr.c_str());
          break;
        }
        for (uint64_t i = b; i < std::min(cases, b + chunk); ++i) {
          sh->w[w].current.store(i + 1);
          if (p.opt.fork_each) {
            const pid_t c = fork();
            if (c > 0) {
              int st = 0;
              while (waitpid(c, &st, 0) < 0 && errno == EINTR) {
              }
              if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
              if (!sh->w[w].failed.load()) {
                std::ifstream f(werr);
                std::string err((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
                snprintf(sh->w[w].message, sizeof(sh->w[w].message), "crash, wait status %d: %s", st,
                         err.substr(0, 1500).c_str());
                sh->w[w].failed.store(1);
              }
              unlink(werr.c_str());
              _exit(3);
            }
            if (c < 0) continue;
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            silence(werr.c_str());
          }
          Source s(caseSeed(seed, p, i));
          const Status st = runOne(p, s, &msg);
          sh->evals.fetch_add(1);
          if (st == kDiscard) {
            sh->discards.fetch_add(1);
          } else {
            if (s.isNontrivial()) {
              sh->nontrivial.fetch_add(1);
              hashes[i] = hashTape(s.tape());
            }
            for (const std::string& l : s.labels()) countLabel(sh, l);
          }
          if (st == kFail) {
            strncpy(sh->w[w].message, msg.c_str(), sizeof(sh->w[w].message) - 1);
            sh->w[w].failed.store(1);
            _exit(3);
          }
          if (p.opt.fork_each) _exit(0);
        }
      }
      _exit(0);
    }
    pids[w] = pid;
    last_change[w] = now();
    last_ticks[w] = -1;
  };
  for (int w = 0; w < jobs; ++w) spawn(w);
  int live = jobs;
  while (live > 0) {
    if (now() > deadline && !sh->stop.load()) {
      sh->stop.store(1);
      stats->budget_hit = true;
    }
    bool any = false;
    for (int w = 0; w < jobs; ++w) {
      if (pids[w] < 0) continue;
      int st = 0;
      const pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r == pids[w]) {
        any = true;
        const bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        if (!clean) {
          const uint64_t cur = sh->w[w].current.load();
          const bool outside = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL &&
                               last_change[w] > 0;
          if (cur > 0 && !outside) {
            const uint64_t idx = cur - 1;
            if (!ff.found || idx < ff.index) {
              ff.found = true;
              ff.index = idx;
              ff.message = sh->w[w].failed.load() ? sh->w[w].message : "crash";
              ff.before.clear();
              if (!p.opt.fork_each) {
                const uint64_t* own = taken + taken_cap * w;
                for (uint64_t k = 1; k <= own[0]; ++k)
                  for (uint64_t i = own[k]; i < std::min(idx, own[k] + chunk_size); ++i)
                    ff.before.push_back(caseSeed(seed, p, i));
              }
            }
          }
          sh->stop.store(1);
        }
        pids[w] = -1;
        --live;
      } else {
        const uint64_t cur = sh->w[w].current.load();
        const long t = procTicks(pids[w]);
        if (cur != last_cur[w] || t != last_ticks[w]) {
          last_cur[w] = cur;
          last_ticks[w] = t;
          last_change[w] = now();
        } else if (now() - last_change[w] > kBlockedSeconds) {
          if (cur > 0 && (!ff.found || cur - 1 < ff.index)) {
            ff.found = true;
            ff.index = cur - 1;
            ff.message = "blocked";
            ff.before.clear();
          }
          last_change[w] = 0;
          sh->stop.store(1);
          kill(pids[w], SIGKILL);
        }
      }
    }
    if (!any) usleep(3000);
  }
  stats->evals = sh->evals.load();
  stats->discards = sh->discards.load();
  stats->nontrivial = sh->nontrivial.load();
  std::unordered_set<uint64_t> d;
  std::vector<uint64_t> sample_idx;
  for (uint64_t i = 0; i < cases; ++i) {
    if (hashes[i]) {
      d.insert(hashes[i]);
      if (sample_idx.size() < 2) sample_idx.push_back(i);
    }
  }
  stats->distinct = d.size();
  for (int k = 0; k < kLabels; ++k) {
    if (sh->labels[k].used.load() == 2) {
      stats->labels[sh->labels[k].name] = sh->labels[k].count.load();
    }
  }
  munmap(sh, sizeof(Shared));
  munmap(hashes, hb);
  munmap(taken, tb);
  if (!ff.found) {
    for (uint64_t i : sample_idx) {
      RunResult r = runForked(p, nullptr, false, caseSeed(seed, p, i), true);
      std::string dsc = r.description;
      if (dsc.empty()) {
        std::ostringstream o;
        o << "tape";
        for (size_t k = 0; k < r.tape.size() && k < 24; ++k) o << " " << r.tape[k];
        dsc = o.str();
      }
      if (dsc.size() > 1200) dsc.resize(1200);
      stats->samples.push_back(dsc);
    }
  }
  stats->wall = now() - t0;
  return ff;
}

bool isBad(Status s) { return s == kFail || s == kCrash || s == kHang; }

RunResult shrink(const Prop& p, RunResult best, bool bytes, double budget_s) {
  const double end = now() + budget_s;
  if (best.status == kHang) return best;
  auto attempt = [&](const std::vector<uint64_t>& t) {
    if (now() > end) return false;
    RunResult r = runForked(p, &t, bytes, 0, false);
    if (!isBad(r.status) || r.status == kHang) return false;
    std::vector<uint64_t> nt = bytes ? t : r.tape;
    if (nt.size() > t.size()) nt = t;
    best = r;
    best.tape = nt;
    return true;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    // 1. cut the tail
    for (size_t cut = best.tape.size() / 2; cut >= 1 && now() < end;) {
      if (cut > best.tape.size()) {
        cut /= 2;
        continue;
      }
      std::vector<uint64_t> t(best.tape.begin(), best.tape.end() - cut);
      if (attempt(t)) {
        progress = true;
      } else {
        cut /= 2;
      }
    }
    // 2. delete / zero chunks
    for (size_t len : {32u, 16u, 8u, 4u, 3u, 2u, 1u}) {
      for (long i = static_cast<long>(best.tape.size()) - static_cast<long>(len);
           i >= 0 && now() < end; --i) {
        if (i + len > best.tape.size()) continue;
        std::vector<uint64_t> t = best.tape;
        t.erase(t.begin() + i, t.begin() + i + len);
        if (attempt(t)) {
          progress = true;
          i -= static_cast<long>(len) - 1;
          continue;
        }
        bool nonzero = false;
        t = best.tape;
        for (size_t k = i; k < i + len && k < t.size(); ++k) {
          nonzero = nonzero || t[k];
          t[k] = 0;
        }
        if (nonzero && attempt(t)) progress = true;
      }
    }
    // 3. minimise values
    for (size_t i = 0; i < best.tape.size() && now() < end; ++i) {
      uint64_t lo = 0, hi = best.tape[i];
      int steps = 0;
      while (lo < hi && steps++ < 24 && i < best.tape.size()) {
        const uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> t = best.tape;
        t[i] = mid;
        if (attempt(t)) {
          progress = true;
          if (i >= best.tape.size()) break;
          hi = std::min<uint64_t>(mid, best.tape[i]);
        } else {
          lo = mid + 1;
        }
      }
    }
  }
  return best;
}

std::string sanitizeName(std::string s) {
  for (char& c : s)
    if (!isalnum(static_cast<unsigned char>(c))) c = '_';
  return s;
}

bool parseReplay(const std::string& path, std::string* prop, bool* bytes,
                 std::vector<uint64_t>* tape, std::vector<uint64_t>* before) {
  std::ifstream f(path);
  if (!f) return false;
  std::string key;
  *bytes = false;
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    is >> key;
    if (key == "prop:") is >> *prop;
    if (key == "encoding:") {
      std::string e;
      is >> e;
      *bytes = e == "bytes";
    }
    if (key == "tape:" || key == "before:") {
      uint64_t v;
      while (is >> v) (key == "tape:" ? tape : before)->push_back(v);
    }
  }
  return !prop->empty();
}

const Prop* findProp(const std::string& n) {
  for (const Prop& p : registry())
    if (n == p.name) return &p;
  return nullptr;
}

struct Reported {
  std::string prop, path, message;
};

void writeReplay(const Prop& p, const RunResult& r, bool bytes, const std::vector<uint64_t>& before,
                 const std::string& replays, Reported* out) {
  mkdir(replays.c_str(), 0777);
  std::ostringstream path;
  path << replays << "/" << kProperty << "-" << sanitizeName(p.name) << "-" << std::hex
       << (hashTape(r.tape) & 0xffffffffull) << ".replay";
  std::ofstream f(path.str());
  f << "property: " << kProperty << "\nprop: " << p.name << "\nencoding: "
    << (bytes ? "bytes" : "draws");
  if (!before.empty()) {
    f << "\nbefore:";
    for (uint64_t v : before) f << " " << v;
  }
  f << "\ntape:";
  for (uint64_t v : r.tape) f << " " << v;
  f << "\nmessage: " << r.message << "\ncase:\n" << r.description << "\n";
  f.close();
  out->prop = p.name;
  out->path = path.str();
  out->message = r.message;
}

// A failure that the case alone does not show: it may need state that earlier
// cases left behind in the process. Runs the cases of the worker again, looks
// for the shortest run-up and removes what is not needed.
bool reportWithHistory(const Prop& p, uint64_t seed, const std::vector<uint64_t>& all,
                       const std::string& replays, double shrink_s, Reported* out) {
  auto fails = [&](const std::vector<uint64_t>& before) {
    return isBad(runForked(p, nullptr, false, seed, false, &before).status);
  };
  auto confirmed = [&](const std::vector<uint64_t>& before) {
    return fails(before) && fails(before) && fails(before);
  };
  std::vector<uint64_t> best;
  bool found = false;
  for (size_t n = 1;; n *= 4) {
    const size_t k = std::min(n, all.size());
    std::vector<uint64_t> tail(all.end() - k, all.end());
    if (fails(tail) && confirmed(tail)) {
      best = tail;
      found = true;
      break;
    }
    if (k == all.size()) break;
  }
  if (!found) return false;
  const double end = now() + shrink_s;
  for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && now() < end; len /= 2) {
    for (size_t i = 0; i + len <= best.size() && now() < end;) {
      std::vector<uint64_t> t(best);
      t.erase(t.begin() + i, t.begin() + i + len);
      if (fails(t)) best = t;
      else i += len;
    }
    if (len == 1) break;
  }
  if (!confirmed(best)) best.assign(all.begin(), all.end());
  RunResult described = runForked(p, nullptr, false, seed, true, &best);
  if (!isBad(described.status)) return false;
  described.message += " (after " + std::to_string(best.size()) + " earlier cases in the same process)";
  writeReplay(p, described, false, best, replays, out);
  return true;
}

// A failure that shows again now and then only (uncontrolled threads,
// uninitialised memory): seen at least twice for the same case.
bool reportFlickering(const Prop& p, uint64_t seed, const std::string& replays, Reported* out) {
  const double end = now() + 60;
  for (int k = 0; k < 60 && now() < end; ++k) {
    RunResult r = runForked(p, nullptr, false, seed, true);
    if (r.status == kFail || r.status == kCrash) {
      r.message += " (not on every run)";
      writeReplay(p, r, false, {}, replays, out);
      return true;
    }
  }
  return false;
}

// Confirms, shrinks, writes the replay file. Returns false if the failure does
// not reproduce.
bool report(const Prop& p, const std::vector<uint64_t>* tape_in, bool bytes,
            uint64_t seed, const std::string& replays, double shrink_s, Reported* out,
            const std::vector<uint64_t>* before = nullptr) {
  RunResult orig = runForked(p, tape_in, bytes, seed, false);
  const bool alone = isBad(orig.status);
  auto confirm = [&](const RunResult& r) {
    for (int k = 0; k < 3; ++k) {
      if (!isBad(runForked(p, &r.tape, bytes, 0, false).status)) return false;
    }
    return true;
  };
  if (alone && confirm(orig)) {
    RunResult small = orig;
    if (orig.status != kHang) {
      small = shrink(p, orig, bytes, shrink_s);
      if (!confirm(small)) small = orig;
    }
    RunResult described = runForked(p, &small.tape, bytes, 0, true);
    small.description = described.description;
    writeReplay(p, small, bytes, {}, replays, out);
    return true;
  }
  if (tape_in == nullptr) {
    if (before != nullptr && !before->empty() &&
        reportWithHistory(p, seed, *before, replays, shrink_s, out)) {
      return true;
    }
    if (reportFlickering(p, seed, replays, out)) return true;
  }
  fprintf(stderr, "note: failure of %s is not reproducible: %s\n", p.name, orig.message.c_str());
  return false;
}

}  // namespace

Fate fateOf(const std::function<void()>& fn, int cpu_limit_s) {
  fflush(stdout);
  fflush(stderr);
  const pid_t pid = fork();
  if (pid == 0) {
    silence("/dev/null");
    setCpuTimer(cpu_limit_s);
    int code = 0;
    try {
      fn();
    } catch (...) {
      code = 33;
    }
    _exit(code);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFEXITED(st)) {
    if (WEXITSTATUS(st) == 0) return Fate::kReturned;
    if (WEXITSTATUS(st) == 33) return Fate::kThrew;
    return Fate::kCrashed;
  }
  if (WTERMSIG(st) == SIGABRT) return Fate::kAborted;
  if (WTERMSIG(st) == SIGVTALRM) return Fate::kHung;
  return Fate::kCrashed;
}

}  // namespace pbt

#ifndef PBT_LIBFUZZER
int main(int argc, char** argv) {
  using namespace pbt;
  std::string tier = "quick", evidence, replays = "replays", known_file, only, replay, bytes_file;
  uint64_t seed = 1;
  int jobs = 8;
  double scale = 1.0, budget = 300, shrink_s = 45;
  std::string extra;  // raw JSON merged into the coverage object
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--evidence") evidence = val();
    else if (a == "--replays") replays = val();
    else if (a == "--known") known_file = val();
    else if (a == "--only") only = val();
    else if (a == "--replay") replay = val();
    else if (a == "--from-bytes") bytes_file = val();
    else if (a == "--jobs") jobs = atoi(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--extra") extra = val();
    else if (a == "--list") {
      for (const Prop& p : registry()) {
        printf("%s %llu %llu %d\n", p.name, (unsigned long long)p.opt.quick,
               (unsigned long long)p.opt.thorough, p.opt.fuzz ? 1 : 0);
      }
      return 0;
    }
  }
  jobs = std::min(std::max(jobs, 1), 60);
  const double t0 = now();
  char tmpl[] = "/tmp/pbtXXXXXX";
  const char* sd = mkdtemp(tmpl);
  gScratch = sd ? sd : "/tmp";
  struct Cleanup {
    ~Cleanup() {
      unlink((gScratch + "/stderr.txt").c_str());
      unlink((gScratch + "/desc.txt").c_str());
      for (int w = 0; w < 64; ++w) unlink((gScratch + "/w" + std::to_string(w) + ".txt").c_str());
      rmdir(gScratch.c_str());
    }
  } cleanup;

  if (!replay.empty()) {
    std::string pn;
    bool bytes;
    std::vector<uint64_t> tape, before;
    if (!parseReplay(replay, &pn, &bytes, &tape, &before) || !findProp(pn)) {
      fprintf(stderr, "cannot read replay %s\n", replay.c_str());
      return 2;
    }
    RunResult r;
    // Up to a minute: a recorded failure of free-running threads does not show on every run.
    for (int k = 0; k < 60 && (k == 0 || now() < t0 + 60) && !isBad(r.status); ++k)
      r = runForked(*findProp(pn), &tape, bytes, 0, true, &before);
    printf("case:\n%s\n", r.description.c_str());
    if (isBad(r.status)) {
      printf("%s\nVIOLATION property=%s replay=%s\n", r.message.c_str(), kProperty,
             replay.c_str());
      return 1;
    }
    printf("replay passes\n");
    return 0;
  }
  if (!bytes_file.empty()) {
    const Prop* p = findProp(only);
    std::ifstream f(bytes_file, std::ios::binary);
    std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    std::vector<uint64_t> tape;
    for (unsigned char c : d) tape.push_back(c);
    Reported rep;
    if (p && report(*p, &tape, true, 0, replays, shrink_s, &rep)) {
      printf("%s: %s\n", rep.prop.c_str(), rep.message.c_str());
      printf("VIOLATION property=%s replay=%s\n", kProperty, rep.path.c_str());
      return 1;
    }
    return 0;
  }

  // Recorded genuine defects.
  std::set<std::string> listed;
  if (!known_file.empty()) {
    std::ifstream f(known_file);
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string tag, prop, key;
      is >> tag >> prop >> key;
      if (tag == "finding:" && prop == std::string("property=") + kProperty) listed.insert(key);
    }
  }
  std::vector<std::string> known_out;
  bool violated = false;
  int nviol = 0;
  for (const Known& k : knownRegistry()) {
    bool (*fails)() = k.fails;
    const Fate f = fateOf([fails]() {
      if (fails()) throw 1;
    });
    if (f == Fate::kReturned) continue;  // behaves: nothing to report
    if (listed.count(k.key)) {
      printf("KNOWN-FINDING: property=%s %s: %s\n", kProperty, k.key, k.what);
      known_out.push_back(std::string(k.key) + ": " + k.what);
    } else {
      mkdir(replays.c_str(), 0777);
      const std::string path =
          replays + "/" + kProperty + "-known-" + sanitizeName(k.key) + ".replay";
      std::ofstream(path) << "property: " << kProperty << "\nreproducer: " << k.key
                          << "\nmessage: " << k.what << "\n";
      printf("%s: %s\nVIOLATION property=%s replay=%s\n", k.key, k.what, kProperty, path.c_str());
      violated = true;
      ++nviol;
    }
  }

  std::map<std::string, PropStats> all;
  std::vector<std::string> order;
  bool unreproducible = false;
  for (const Prop& p : registry()) {
    if (!only.empty() && only != p.name) continue;
    if (violated && only.empty()) break;
    uint64_t cases = tier == "thorough" ? p.opt.thorough : p.opt.quick;
    cases = std::max<uint64_t>(1, static_cast<uint64_t>(cases * scale));
    PropStats st;
    FoundFailure ff = runProp(p, cases, seed, jobs, t0 + budget, &st);
    uint64_t used = seed;
    for (int again = 0; ff.found; ++again) {
      Reported rep;
      if (report(p, nullptr, false, caseSeed(used, p, ff.index), replays, shrink_s, &rep, &ff.before)) {
        printf("%s: %s\n", rep.prop.c_str(), rep.message.c_str());
        printf("VIOLATION property=%s replay=%s\n", kProperty, rep.path.c_str());
        violated = true;
        ++nviol;
      } else {
        fprintf(stderr, "note: case %llu of %s failed once: %s\n", (unsigned long long)ff.index,
                p.name, ff.message.c_str());
        unreproducible = true;
      }
      if (violated || again == 1) break;
      // The run ended early: explore other cases.
      used = mix(seed, 0xa9a1);
      ff = runProp(p, cases, used, jobs, t0 + budget, &st);
    }
    order.push_back(p.name);
    all[p.name] = st;
    fprintf(stderr, "%-34s %8llu cases %8llu distinct nontrivial %6llu discarded %6.1fs%s\n",
            p.name, (unsigned long long)st.evals, (unsigned long long)st.distinct,
            (unsigned long long)st.discards, st.wall, st.budget_hit ? " (budget)" : "");
    if (getenv("PBT_LABELS")) {
      for (const auto& l : st.labels) {
        fprintf(stderr, "      %-40s %llu\n", l.first.c_str(), (unsigned long long)l.second);
      }
    }
    fflush(stdout);
  }

  if (!evidence.empty()) {
    uint64_t evals = 0, distinct = 0;
    std::ostringstream rule, samples, props;
    bool firsts = true;
    rule << "Each case is a sequence of bounded draws from a generator seeded by VERIF_SEED, "
            "sub-check and case index; distinct = distinct draw sequences; non-trivial per "
            "sub-check: ";
    for (const std::string& n : order) {
      const Prop* p = findProp(n);
      const PropStats& st = all[n];
      evals += st.evals;
      distinct += st.distinct;
      rule << n << ": " << p->rule << "; ";
      for (const std::string& s : st.samples) {
        samples << (firsts ? "" : ",") << "\n   \"" << jsonEsc(n + ": " + s) << "\"";
        firsts = false;
      }
      props << (props.str().empty() ? "" : ",") << "\n   {\"name\":\"" << jsonEsc(n)
            << "\",\"planned\":" << st.planned << ",\"cases\":" << st.evals
            << ",\"nontrivial\":" << st.nontrivial << ",\"distinct_nontrivial\":" << st.distinct
            << ",\"discarded\":" << st.discards << ",\"wall_s\":" << st.wall
            << ",\"stopped_by_budget\":" << (st.budget_hit ? "true" : "false") << ",\"labels\":{";
      bool fl = true;
      for (const auto& l : st.labels) {
        props << (fl ? "" : ",") << "\"" << jsonEsc(l.first) << "\":" << l.second;
        fl = false;
      }
      props << "}}";
    }
    std::ofstream f(evidence);
    f << "{\n \"property\":\"" << kProperty << "\",\n \"tier\":\"" << tier << "\",\n \"seed\":" << seed
      << ",\n \"level\":\"exploration\",\n \"coverage\":{\n  \"evaluations\":" << evals
      << ",\n  \"distinct_nontrivial\":" << distinct << ",\n  \"rule\":\"" << jsonEsc(rule.str())
      << "\",\n  \"samples\":[" << samples.str() << "\n  ],\n  \"subchecks\":[" << props.str()
      << "\n  ],\n  \"known_findings\":[";
    bool fk = true;
    for (const auto& k : known_out) {
      f << (fk ? "" : ",") << "\"" << jsonEsc(k) << "\"";
      fk = false;
    }
    f << "],\n  \"unreproducible_failures\":" << (unreproducible ? "true" : "false");
    if (!extra.empty()) f << ",\n  " << extra;
    f << "\n },\n \"wall_s\":" << (now() - t0) << ",\n \"violations\":" << nviol << "\n}\n";
  }
  return violated ? 1 : 0;
}
#else
// Coverage-guided driver: PBT_FUZZ_PROP selects the property; the bytes are
// consumed as draws.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static const pbt::Prop* prop = nullptr;
  if (prop == nullptr) {
    const char* n = getenv("PBT_FUZZ_PROP");
    prop = pbt::findProp(n ? n : "");
    if (prop == nullptr) abort();
    pbt::workerInit();
  }
  std::vector<uint64_t> tape(data, data + size);
  pbt::Source s(tape, true);
  try {
    prop->fn(s);
  } catch (const pbt::Discard&) {
    return -1;
  } catch (const pbt::Failure& f) {
    fprintf(stderr, "PROPERTY FAILURE: %s\n", f.message.c_str());
    abort();
  }
  return 0;
}
#endif
