// C06: identifiers.
#include <algorithm>
#include <chrono>
#include <set>
#include <thread>
#include <unordered_set>

#include <aslam/common/hash-id.h>
#include <aslam/common/unique-id.h>

#include "pbt.h"
#include "ctlsched.h"

const char* pbt::kProperty = "C06";
using aslam::HashId;
using pbt::Source;

// The wall clock is an input of the generator: frozen, coarse or jumping.
namespace {
int64_t g_clock = 0;
int64_t g_clock_step = 0;
bool g_fake_clock = false;
}  // namespace
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  if (!g_fake_clock) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    return time_point(duration(std::chrono::seconds(ts.tv_sec) + std::chrono::nanoseconds(ts.tv_nsec)));
  }
  g_clock += g_clock_step;
  return time_point(duration(g_clock));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std

namespace {

uint64_t word(Source& s) {
  switch (s.draw(5)) {
    case 0: return s.draw(4);
    case 1: return 1ull << s.draw(64);
    case 2: return ~0ull - s.draw(3);
    case 3: return s.draw(256) << (8 * s.draw(8));
    default: return s.bits();
  }
}
HashId anyId(Source& s) {
  uint64_t w[2] = {word(s), word(s)};
  return HashId(w);
}
bool isHexDigit(unsigned char c) {
  return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
}
bool refHex(const std::string& t, unsigned char out[16]) {
  if (t.size() != 32) return false;
  auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  for (char c : t)
    if (!isHexDigit(static_cast<unsigned char>(c))) return false;
  for (int i = 0; i < 16; ++i) out[i] = static_cast<unsigned char>(v(t[2 * i]) * 16 + v(t[2 * i + 1]));
  return true;
}
std::string bytesOf(const HashId& h) {
  uint64_t w[2];
  h.toUint64(w);
  return std::string(reinterpret_cast<const char*>(w), 16);
}
std::string show(const std::string& t) {
  std::ostringstream o;
  o << '"';
  for (unsigned char c : t) {
    if (c >= 32 && c < 127) o << c;
    else o << "\\x" << std::hex << int(c) << std::dec;
  }
  o << '"';
  return o.str();
}

template <typename IdT>
void roundTrip(Source& s, const HashId& h) {
  IdT id;
  PBT_CHECK(!id.isValid(), "default identifier must be invalid");
  id.fromHashId(h);
  HashId back;
  id.toHashId(&back);
  PBT_CHECK(back == h, "toHashId/fromHashId");
  PBT_CHECK(id.hexString() == h.hexString(), "hexString of derived id");
  PBT_CHECK(id.isValid() == h.isValid(), "isValid of derived id");
  aslam::proto::Id msg;
  const int pre = s.i(0, 3);
  for (int k = 0; k < pre; ++k) msg.add_uint(99 + k);
  id.serialize(&msg);
  PBT_EQ(msg.uint_size(), 2, "message size");
  std::string wire;
  msg.SerializeToString(&wire);
  aslam::proto::Id msg2;
  PBT_CHECK(msg2.ParseFromString(wire), "wire");
  IdT id2;
  generateId(&id2);
  id2.deserialize(msg2);
  PBT_CHECK(id2 == id && !(id2 != id), "message round trip");
  PBT_CHECK(IdT(msg2) == id, "construction from message");
  PBT_CHECK(std::hash<IdT>()(id2) == std::hash<IdT>()(id), "hash of equal ids");
  IdT id3;
  generateId(&id3);
  PBT_CHECK(id3.fromHexString(id.hexString()), "hex text refused");
  PBT_CHECK(id3 == id, "hex round trip");
  id3.setInvalid();
  PBT_CHECK(!id3.isValid(), "explicitly invalidated id is valid");
  const std::string hex = id.hexString();
  PBT_CHECK(id.printString() == hex.substr(0, 4) + ".." + hex.substr(28), "printString");
  PBT_CHECK(id.shortHex() == hex.substr(0, 4), "shortHex");
}

}  // namespace

PBT_PROP(round_trips, "both words non-zero", 30000, 600000) {
  const HashId h = anyId(s);
  uint64_t w[2];
  h.toUint64(w);
  s << std::hex << w[0] << " " << w[1] << std::dec;
  s.nontrivial(w[0] && w[1]);
  const std::string hex = h.hexString();
  PBT_EQ(hex.size(), 32u, "hex length");
  for (char c : hex) PBT_CHECK((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'), "hex digit in " << hex);
  unsigned char ref[16];
  PBT_CHECK(refHex(hex, ref), hex);
  PBT_CHECK(memcmp(ref, w, 16) == 0, "hex text denotes other bytes: " << hex);
  HashId b = HashId::random();
  PBT_CHECK(b.fromHexString(hex), "own text refused");
  PBT_CHECK(b == h, "text round trip");
  HashId copy(h), assigned;
  assigned = h;
  PBT_CHECK(copy == h && assigned == h, "copies");
  PBT_CHECK(h.isValid() == (w[0] != 0 || w[1] != 0), "validity");
  copy.setInvalid();
  PBT_CHECK(!copy.isValid() && (h.isValid() == !(copy == h)), "invalidated");
  std::ostringstream os;
  os << h;
  PBT_CHECK(os.str() == hex, "stream form");
  switch (s.draw(3)) {
    case 0: roundTrip<aslam::FrameId>(s, h); break;
    case 1: roundTrip<aslam::NFramesId>(s, h); break;
    default: roundTrip<aslam::SensorId>(s, h); break;
  }
  aslam::Id id;
  id.fromHashId(h);
  aslam::proto::Id msg;
  id.serialize(&msg);
  PBT_CHECK(id.correspondsTo(msg), "correspondsTo");
  PBT_CHECK(id.toIdType<aslam::FrameId>() == id, "toIdType");
  HashId other = anyId(s);
  aslam::Id oid;
  oid.fromHashId(other);
  PBT_CHECK(oid.correspondsTo(msg) == (other == h), "correspondsTo another id");
}

PBT_PROP(text_parsing, "text of 32 characters with at least one non-digit, or a digit text", 60000, 1000000, true) {
  const HashId orig = anyId(s);
  std::string t;
  const int mode = s.i(0, 6);
  static const char kHex[] = "0123456789abcdefABCDEF";
  auto digits = [&](int n) {
    for (int i = 0; i < n; ++i) t += kHex[s.draw(22)];
  };
  if (mode == 0) {
    digits(32);
  } else if (mode == 1) {
    digits(s.i(0, 70));
  } else if (mode == 2) {
    digits(32);
    const int n = s.i(1, 3);
    static const char kBad[] = "gGzZxX -+.\t\n\r\v\f_/:@`~\0";
    for (int k = 0; k < n; ++k) t[s.draw(32)] = kBad[s.draw(sizeof(kBad))];
  } else if (mode == 3) {
    digits(32);
    const int at = 2 * s.i(0, 15);
    const std::string pair = s.oneOf<const char*>({"0x", "0X", " 1", "-1", "+1", "1 ", "1g", "g1", "\t1", "  ", "1x", "x1", "--"});
    t.replace(at, 2, pair);
  } else if (mode == 4) {
    const int n = s.i(0, 40);
    for (int i = 0; i < n; ++i) t += static_cast<char>(s.draw(256));
  } else if (mode == 5) {
    for (int i = 0; i < 32; ++i) t += static_cast<char>(s.draw(256));
  } else {
    digits(32);
    t.insert(s.draw(33), s.oneOf<const char*>({"", " ", "0", "0x", "-", "{", "\n"}));
  }
  s << "text=" << show(t) << " onto " << orig.hexString();
  HashId id = orig;
  unsigned char want[16];
  const bool ok = refHex(t, want);
  s.label(ok ? "valid" : t.size() == 32 ? "invalid, right length" : "wrong length");
  s.nontrivial(ok || t.size() == 32);
  const bool got = id.fromHexString(t);
  PBT_CHECK(got == ok, "accepted=" << got << " expected=" << ok);
  if (ok) {
    PBT_CHECK(bytesOf(id) == std::string(reinterpret_cast<char*>(want), 16), "wrong value " << id.hexString());
  } else {
    PBT_CHECK(id == orig, "refused text changed the identifier to " << id.hexString());
  }
}

PBT_PROP(ordering, "three identifiers, not all equal, with a shared word", 60000, 800000) {
  HashId v[3];
  uint64_t pool[2] = {word(s), word(s)};
  uint64_t w[3][2];
  for (int i = 0; i < 3; ++i) {
    for (int k = 0; k < 2; ++k) w[i][k] = s.chance(2, 3) ? pool[s.draw(2)] : word(s);
    v[i] = HashId(w[i]);
    s << v[i].hexString() << " ";
  }
  s.nontrivial((w[0][0] == w[1][0] || w[1][0] == w[2][0]) && !(v[0] == v[1] && v[1] == v[2]));
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      const bool eq = v[i] == v[j], lt = v[i] < v[j], gt = v[i] > v[j], ne = v[i] != v[j];
      PBT_CHECK(eq == !ne, "== vs !=");
      PBT_CHECK(eq == (v[i].hexString() == v[j].hexString()), "equality vs text");
      PBT_CHECK(int(eq) + int(lt) + int(gt) == 1, "trichotomy");
      PBT_CHECK(lt == (v[j] > v[i]), "< vs >");
      if (eq) {
        PBT_CHECK(std::hash<HashId>()(v[i]) == std::hash<HashId>()(v[j]), "hash");
        PBT_CHECK(v[i].hashToSizeTFast() == v[j].hashToSizeTFast(), "fast hash");
      }
      aslam::FrameId a, b;
      a.fromHashId(v[i]);
      b.fromHashId(v[j]);
      PBT_CHECK((a == b) == eq && (a != b) == ne && (a < b) == lt, "derived comparison");
      aslam::Id ia, ib;
      ia.fromHashId(v[i]);
      ib.fromHashId(v[j]);
      PBT_CHECK(eq == (std::hash<aslam::Id>()(ia) == std::hash<aslam::Id>()(ib)) || !eq, "Id hash");
      PBT_CHECK((a == ib) == eq && (a != ib) == ne && (a < ib) == lt, "comparison with Id");
    }
  }
  if (v[0] < v[1] && v[1] < v[2]) PBT_CHECK(v[0] < v[2], "transitivity");
  std::set<HashId> os(v, v + 3);
  std::unordered_set<HashId> us(v, v + 3);
  PBT_EQ(os.size(), us.size(), "ordered and hashed containers disagree");
}

PBT_PROP(from_integer, "two different integers", 30000, 500000) {
  auto integer = [&]() -> unsigned {
    switch (s.draw(4)) {
      case 0: return static_cast<unsigned>(s.draw(300));
      case 1: return static_cast<unsigned>((1ull << s.draw(33)) - s.draw(2));
      case 2: return 4294967295u - static_cast<unsigned>(s.draw(100));
      default: return static_cast<unsigned>(s.bits());
    }
  };
  const unsigned a = integer();
  const unsigned b = s.boolean() ? integer() : a;
  s << a << " " << b;
  s.nontrivial(a != b);
  aslam::SensorId ia, ib, ia2;
  generateId(&ia2);
  aslam::generateIdFromInt(a, &ia);
  aslam::generateIdFromInt(b, &ib);
  aslam::generateIdFromInt(a, &ia2);
  PBT_CHECK(ia == ia2, "same integer, different identifiers");
  PBT_CHECK((ia == ib) == (a == b), "integers " << a << ", " << b << " -> " << ia.hexString() << ", " << ib.hexString());
}

PBT_PROP(message_of_wrong_size_refused, "message with a number of words other than two", 60, 600) {
  aslam::proto::Id msg;
  int n = s.i(0, 4);
  if (n == 2) n = 5;
  for (int k = 0; k < n; ++k) msg.add_uint(s.bits());
  s << "words=" << n;
  s.nontrivial();
  const pbt::Fate f = pbt::fateOf([&]() {
    aslam::FrameId id;
    id.deserialize(msg);
  });
  PBT_CHECK(f == pbt::Fate::kAborted || f == pbt::Fate::kThrew, "not refused: " << pbt::fateName(f));
}

PBT_PROP(generation_unique, "at least two threads and 8 identifiers", 6000, 100000, false, 16, true) {
  const int threads = s.i(1, 4);
  const int per = s.i(1, 8);
  g_clock = s.range(0, 1ll << 40);
  g_clock_step = s.oneOf<int64_t>({0, 0, 1, 1000, -1, -1000000});
  s << "threads=" << threads << " per=" << per << " clock step=" << g_clock_step;
  g_fake_clock = true;
  std::vector<std::vector<HashId>> ids(threads), randoms(threads);
  sched::Config cfg;
  cfg.max_gap = 60;
  sched::run(s, [&]() {
    auto work = [&](int t) {
      for (int k = 0; k < per; ++k) {
        aslam::FrameId f;
        if (k % 3 == 2) f = aslam::createRandomId<aslam::FrameId>();
        else aslam::generateId(&f);
        HashId h;
        f.toHashId(&h);
        HashId r = HashId::random();
        sched::NoYield n;
        ids[t].push_back(h);
        randoms[t].push_back(r);
      }
    };
    std::vector<std::thread> th;
    for (int t = 1; t < threads; ++t) th.emplace_back(work, t);
    work(0);
    for (std::thread& t : th) t.join();
  }, cfg);
  g_fake_clock = false;
  std::set<std::string> seen, seen_r, words;
  for (int t = 0; t < threads; ++t) {
    for (const HashId& h : ids[t]) {
      PBT_CHECK(h.isValid(), "generated identifier is invalid");
      PBT_CHECK(seen.insert(h.hexString()).second, "identifier generated twice: " << h.hexString());
    }
    for (const HashId& h : randoms[t]) {
      PBT_CHECK(h.isValid(), "random identifier is invalid");
      PBT_CHECK(seen_r.insert(h.hexString()).second, "random identifier generated twice");
      PBT_CHECK(words.insert(h.hexString().substr(0, 16)).second, "random word repeated (torn generator)");
      PBT_CHECK(words.insert(h.hexString().substr(16)).second, "random word repeated (torn generator)");
    }
  }
  s.nontrivial(threads > 1 && threads * per >= 8);
  s.label(g_clock_step == 0 ? "frozen clock" : g_clock_step < 0 ? "clock runs back" : "clock advances");
}

PBT_PROP(generation_unique_long, "many identifiers from one thread", 40, 400) {
  // a coarse clock can stand still for a while
  const bool frozen = s.chance(1, 6);
  const int n = frozen && s.boolean() ? 70000 : 2000 + s.i(0, 3000);
  s << "n=" << n << (frozen ? " with a frozen clock" : "");
  s.nontrivial();
  struct Clock {
    explicit Clock(bool on) { g_clock = 12345678; g_clock_step = 0; g_fake_clock = on; }
    ~Clock() { g_fake_clock = false; }
  } clock(frozen);
  std::unordered_set<std::string> seen;
  for (int i = 0; i < n; ++i) {
    aslam::NFramesId id;
    generateId(&id);
    PBT_CHECK(id.isValid(), "invalid");
    PBT_CHECK(seen.insert(id.hexString()).second, "repeat after " << i);
    PBT_CHECK(seen.insert(HashId::random().hexString()).second, "random repeat after " << i);
  }
}
