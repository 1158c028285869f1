// Shared basics of the simulators: PRNG, hashing, scenario representation.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace sim {

typedef std::string Str;
typedef std::vector<std::string> Strs;

inline uint64_t mix(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; }
  return h;
}
inline uint64_t fnv(const Str& s, uint64_t h = 0xcbf29ce484222325ull) { return fnv(s.data(), s.size(), h); }

// One integer decides everything: every choice of a run comes from one of these.
class Rng
{
  uint64_t s;
public:
  explicit Rng(uint64_t seed) : s(mix(seed)) {}
  uint64_t u64() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint64_t>(hi - lo + 1))); }
  bool chance(int num, int den) { return below(static_cast<uint64_t>(den)) < static_cast<uint64_t>(num); }
  template<class V> typename V::value_type pick(const V& v) { return v[below(v.size())]; }
  template<class V> void shuffle(V& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i-1], v[below(i)]); }
};

struct Fault
{
  Str kind;
  Strs a;
};

struct Op
{
  Str name;
  Strs a;
  std::vector<Fault> faults;
};

struct Scenario
{
  Str profile;
  std::map<Str, Str> opt;
  std::vector<Op> ops;

  Str get(const Str& k, const Str& def = "") const { auto i = opt.find(k); return i == opt.end() ? def : i->second; }
  long num(const Str& k, long def = 0) const { auto i = opt.find(k); return i == opt.end() ? def : std::strtol(i->second.c_str(), nullptr, 10); }
};

Str pct(const Str& s);          // %-escape so that a token has no white space
Str unpct(const Str& s);
Str show(const Str& s);         // C-like quoting for messages
Str to_text(const Scenario& s);
Scenario from_text(const Str& text);
Str tos(long v);
long toi(const Str& s);
uint64_t tou(const Str& s);

extern const char* const subdir_mark; // content standing for a subdirectory
extern const char* const link_mark;   // beginning of a content standing for a symbolic link; its target follows

Scenario generate(const Str& profile, uint64_t seed); // gen.cpp

} // namespace sim
