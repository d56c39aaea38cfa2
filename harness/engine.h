// Choice-sequence property-based testing engine.
//
// Every generated case is a pure function of a sequence of bounded choices
// (Gen::below).  Random cases draw the choices from a seeded stream; shrinking
// and replay feed an explicit sequence back in.  Cases run in forked workers so
// that a sanitizer abort, a signal or a non-terminating case is attributed to
// the case that caused it, shrunk like any other failure, and reported.
#ifndef VERIF_ENGINE_H
#define VERIF_ENGINE_H

#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Discard {};            // case outside the domain: not counted
struct Fail {                 // property violated
  std::string msg;
};

extern void (*g_choice_hook)(uint64_t);

class Gen {
public:
  explicit Gen(uint64_t seed) : rng_(seed), replay_(nullptr), pos_(0) {}
  explicit Gen(const std::vector<uint64_t> *replay)
      : rng_(0), replay_(replay), pos_(0) {}

  // Uniform in [0, bound).  0 is always the simplest choice.
  uint64_t below(uint64_t bound) {
    uint64_t v;
    if (bound == 0) bound = 1;
    if (replay_) {
      v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
      if (v >= bound) v = v % bound;
    } else {
      v = (uint64_t)(((unsigned __int128)next() * bound) >> 64);
    }
    pos_++;
    rec_.push_back(v);
    if (g_choice_hook) g_choice_hook(v);
    return v;
  }
  // Uniform in [lo, hi].
  long long range(long long lo, long long hi) {
    return lo + (long long)below((uint64_t)(hi - lo) + 1);
  }
  bool flip() { return below(2) != 0; }
  // true with probability num/den; false is the simple choice
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  // Magnitude-skewed non-negative integer < bound: picks a bit size first.
  uint64_t skewed(uint64_t bound) {
    if (bound <= 1) return below(1);
    int bits = 0;
    while (bits < 64 && (bound - 1) >> bits) bits++;
    int b = (int)below((uint64_t)bits + 1);
    uint64_t cap = b >= 64 ? bound : ((uint64_t)1 << b);
    if (cap > bound) cap = bound;
    return below(cap);
  }
  // Signed, magnitude-skewed, |v| <= m.
  long long skewed_signed(long long m) {
    long long v = (long long)skewed((uint64_t)m + 1);
    return flip() ? -v : v;
  }
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[(size_t)below(v.size())];
  }
  const std::vector<uint64_t> &recorded() const { return rec_; }

private:
  uint64_t next() { // splitmix64
    uint64_t z = (rng_ += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t rng_;
  const std::vector<uint64_t> *replay_;
  size_t pos_;
  std::vector<uint64_t> rec_;
};

// Account of a case; mirrored to a descriptor while a failure is being examined,
// so that it survives a crash.
class LogBuf : public std::streambuf {
public:
  std::string s;
  static int mirror_fd;

protected:
  int overflow(int ch) override;
  std::streamsize xsputn(const char *p, std::streamsize n) override;
};
class LogStream : public std::ostream {
public:
  LogStream() : std::ostream(&b_) {}
  const std::string &str() const { return b_.s; }

private:
  LogBuf b_;
};

// What a case tells the engine about itself.
class Ctx {
public:
  LogStream log;              // human-readable account of the case
  bool nontrivial = false;
  std::vector<std::string> labels;
  void label(const std::string &s) { labels.push_back(s); }
  // number of oracle comparisons made
  uint64_t compared = 0;
};

[[noreturn]] inline void fail(const std::string &m) { throw Fail{m}; }

#define REQUIRE_(ctx, cond, what)                                              \
  do {                                                                         \
    (ctx).compared++;                                                          \
    if (!(cond)) {                                                             \
      std::ostringstream o_;                                                   \
      o_ << what;                                                              \
      throw pbt::Fail{o_.str()};                                               \
    }                                                                          \
  } while (0)

struct Rule {
  std::string name;
  uint64_t quick_cases;
  uint64_t thorough_cases;
  std::function<void(Gen &, Ctx &)> run;
  bool track_leaks;
};

// A defect recorded in known_findings.txt: a fixed input that still fails.
struct Pinned {
  std::string id;             // as in known_findings.txt
  std::string what;
  std::function<void(Ctx &)> run;   // throws Fail (or crashes) while it fails
};

struct Property {
  std::string id;
  std::string rule_text;      // how cases are made; what is non-trivial
  std::vector<std::string> assumptions;
  std::vector<Rule> rules;
  std::vector<Pinned> pinned;
  void add(const std::string &name, uint64_t quick, uint64_t thorough,
           std::function<void(Gen &, Ctx &)> f, bool leaks = false) {
    rules.push_back(Rule{name, quick, thorough, f, leaks});
  }
  void pin(const std::string &id_, const std::string &what,
           std::function<void(Ctx &)> f) {
    pinned.push_back(Pinned{id_, what, f});
  }
};

// Live heap blocks in this process (0 when not built with ASAN).
long live_blocks();
void install_alloc_hooks();

// When set, engine_main adds the property to it and returns (see c33.cpp).
extern std::vector<Property> *collect_properties;
int engine_main(int argc, char **argv, Property &p);

} // namespace pbt
#endif
