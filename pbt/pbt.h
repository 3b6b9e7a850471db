// A small property-based testing engine.
//
// Every random decision of a case is a bounded draw from one recorded choice
// sequence, so any failing case can be replayed exactly and shrunk generically
// (delete blocks of choices, zero blocks, minimise single choices) without the
// property knowing about it.  Cases run in forked worker processes: an assert,
// a signal or a hang in the code under test is a failing case, not the end of
// the run.
//
// A run is a pure function of (code, --seed, --scale): case i of property p is
// seeded by hash(seed, p, i), independent of the number of workers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
  std::string msg;
};
struct Discarded {};

class Case {
 public:
  // -- choices -------------------------------------------------------------
  // Uniform in [0, n).  0 is the simplest value.
  uint64_t draw(uint64_t n);
  // Uniform in [lo, hi]; shrinks towards lo.
  int64_t range(int64_t lo, int64_t hi);
  // True with probability num/den; shrinks towards false.
  bool chance(unsigned num, unsigned den = 100);
  // Index by weight; shrinks towards index 0.
  size_t weighted(const std::vector<unsigned> &w);
  // Size-like: small values more likely, in [lo, hi]; shrinks towards lo.
  int64_t sized(int64_t lo, int64_t hi);
  // A 64-bit value of random bit length (0..64).
  uint64_t bits(unsigned maxBits = 64);
  // Signed integer in [-m, m], simplest 0.
  int64_t sint(int64_t m);
  // A "nice" double: small dyadic/decimal values, simplest 0.
  double real(double lo, double hi);
  template <class T>
  const T &pick(const std::vector<T> &v) {
    return v[draw(v.size())];
  }
  template <class T>
  T pickOf(std::initializer_list<T> v) {
    return *(v.begin() + draw(v.size()));
  }
  template <class T>
  void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[i - 1 - draw(i)]);
  }

  // -- reporting -----------------------------------------------------------
  std::ostringstream desc;  // human readable rendering of the case
  // Marks the case non-trivial; `key` identifies it for the distinct count
  // (default: the choice sequence).
  void nontrivial(const std::string &key = "");
  void label(const std::string &l) { labels_.push_back(l); }
  [[noreturn]] void fail(const std::string &msg) { throw Failure{msg}; }
  [[noreturn]] void discard() { throw Discarded{}; }
  template <class... A>
  void check(bool ok, const A &...a) {
    if (ok) return;
    std::ostringstream os;
    os.precision(17);
    (os << ... << a);
    fail(os.str());
  }
  template <class T, class U, class... A>
  void eq(const T &got, const U &want, const A &...a) {
    if (got == want) return;
    std::ostringstream os;
    os.precision(17);
    (os << ... << a);
    os << ": got ";
    put(os, got);
    os << ", expected ";
    put(os, want);
    fail(os.str());
  }

  template <class T>
  static void put(std::ostream &os, const T &v) {
    if constexpr (requires { os << v; }) os << v;
    else {
      os << "[";
      bool first = true;
      for (const auto &x : v) { os << (first ? "" : ","); first = false; put(os, x); }
      os << "]";
    }
  }

  // -- engine --------------------------------------------------------------
  void seedWith(uint64_t s) {
    state_ = s;
    replay_ = nullptr;
  }
  void replayFrom(const std::vector<uint64_t> *r) { replay_ = r; }
  std::vector<uint64_t> rec;
  std::vector<std::string> labels_;
  bool nontrivial_ = false;
  uint64_t key_ = 0;
  bool thorough = false;
  bool regress = false;

 private:
  uint64_t next();
  uint64_t state_ = 0;
  const std::vector<uint64_t> *replay_ = nullptr;
  size_t pos_ = 0;
};

struct Prop {
  std::string pid, name, rule;
  uint64_t quick, thorough;  // case counts
  std::function<void(Case &)> fn;
  // An upper bound on CPU seconds of a sound run of one case; exceeding it is
  // reported as a hang.  Orders of magnitude above what cases take.
  unsigned hangSecs = 40;
};
std::vector<Prop> &props();
struct Reg {
  Reg(std::string pid, std::string name, std::string rule, uint64_t quick,
      uint64_t thorough, std::function<void(Case &)> fn) {
    props().push_back({pid, name, rule, quick, thorough, fn});
  }
};

// PROP(C01, matvec, "non-trivial when ...", 2000, 20000) { ... uses `c` ... }
#define PROP(pid, name, rule, quick, thorough)                             \
  static void prop_##pid##_##name(::pbt::Case &c);                         \
  static ::pbt::Reg reg_##pid##_##name(#pid, #name, rule, quick, thorough, \
                                       prop_##pid##_##name);               \
  static void prop_##pid##_##name(::pbt::Case &c)

template <class T>
std::string str(const std::vector<T> &v) {
  std::ostringstream os;
  os << "[";
  for (size_t i = 0; i < v.size(); ++i) os << (i ? "," : "") << v[i];
  os << "]";
  return os.str();
}
template <class T>
std::string str(const std::vector<std::vector<T>> &v) {
  std::ostringstream os;
  os << "[";
  for (size_t i = 0; i < v.size(); ++i) os << (i ? "," : "") << str(v[i]);
  os << "]";
  return os.str();
}

}  // namespace pbt
