// Small choice-sequence property-based testing engine (Hypothesis style).
//
// A property is a function of a Src; every random decision is drawn from the
// Src and recorded as a bounded integer. Failures (PBT_ASSERT, an escaped
// exception, a crash, a sanitizer report, a hang) are shrunk by editing the
// recorded choice sequence, and the sequence itself is the replay file.
//
// Every case runs in a forked worker, so that crashes in the tested code are
// ordinary, shrinkable failures.
#ifndef VERIF_LIB_PBT_H_
#define VERIF_LIB_PBT_H_
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt {

struct Failure {
  std::string msg;
};
struct Discard {};

class Src {
 public:
  // --- primitive -----------------------------------------------------------
  // Uniform in [0, max]; shrinks to 0.
  uint64_t draw(uint64_t max);

  // --- derived -------------------------------------------------------------
  int64_t range(int64_t lo, int64_t hi) {  // inclusive, shrinks to lo
    return lo + static_cast<int64_t>(
                    draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
  }
  // True with probability num/den; shrinks to false.
  bool chance(int num, int den) {
    return draw(den - 1) >= static_cast<uint64_t>(den - num);
  }
  bool boolean() { return draw(1) == 1; }
  // Size in [0, max], skewed to small values with occasional large ones.
  size_t size(size_t max);
  template <class C>
  auto& pick(C& c) { return c[draw(c.size() - 1)]; }
  template <class T>
  T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }
  uint64_t bits64() { return draw(std::numeric_limits<uint64_t>::max()); }
  // Interesting integers of a given type.
  template <class T>
  T integer() {
    using L = std::numeric_limits<T>;
    switch (draw(5)) {
      case 0: return static_cast<T>(range(0, 4));
      case 1: return static_cast<T>(std::is_signed_v<T> ? range(-10, 10) : range(0, 20));
      case 2: return static_cast<T>(range(0, 127)) ;
      case 3: {  // power of two neighbourhood
        int sh = static_cast<int>(draw(sizeof(T) * 8 - 1));
        uint64_t v = (uint64_t{1} << sh) + static_cast<uint64_t>(range(-1, 1));
        if (std::is_signed_v<T> && boolean()) v = uint64_t{0} - v;
        return static_cast<T>(v);
      }
      case 4: {
        const T e[] = {L::max(), L::min(), T(L::max() - 1), T(L::min() + 1),
                       T(L::max() / 2), T(L::min() / 2)};
        return e[draw(5)];
      }
      default: return static_cast<T>(bits64());
    }
  }
  double dbl();          // any double including nan/inf/-0/denormals
  float flt();
  double nice_dbl();     // finite, moderate, frequently integral
  // Arbitrary bytes / text.
  std::string bytes(size_t max_len);
  std::string utf8(size_t max_len);      // valid UTF-8, mixed planes
  std::string ascii(size_t max_len);     // printable ascii
  std::string ident(size_t max_len);     // [a-z_][a-z0-9_]*
  template <class F>
  auto vec(size_t max, F f) {
    std::vector<std::decay_t<decltype(f())>> v;
    size_t n = size(max);
    v.reserve(n);
    for (size_t i = 0; i < n; ++i) v.push_back(f());
    return v;
  }

  // --- bookkeeping ---------------------------------------------------------
  void nontrivial() { nontrivial_ = true; }
  void label(const std::string& l) { labels_[l]++; }
  // Human readable description of the case (only kept when wanted).
  template <class... A>
  void note(const A&... a) {
    if (!want_notes_) return;
    std::ostringstream os;
    (os << ... << a);
    if (notes_.size() < 6000) notes_ += os.str() + "\n";
  }
  bool want_notes() const { return want_notes_; }

  // --- internals -----------------------------------------------------------
  explicit Src(uint64_t seed) : replay_(nullptr), rng_(seed) {}
  Src(const std::vector<uint64_t>* replay) : replay_(replay), rng_(0) {}
  const std::vector<uint64_t>& choices() const { return rec_; }
  bool nontrivial_ = false;
  bool want_notes_ = false;
  std::map<std::string, int64_t> labels_;
  std::string notes_;
  void* shm_ = nullptr;

 private:
  uint64_t next();
  const std::vector<uint64_t>* replay_;
  uint64_t rng_;
  std::vector<uint64_t> rec_;
};

[[noreturn]] void fail(const char* file, int line, const std::string& msg);
template <class... A>
std::string cat(const A&... a) {
  std::ostringstream os;
  os.precision(17);
  (os << ... << a);
  return os.str();
}

struct Test {
  const char* name;
  int64_t quick_cases;
  int64_t thorough_cases;
  const char* rule;  // what makes a case non-trivial
  void (*fn)(Src&);
};
std::vector<Test>& tests();
struct Reg {
  Reg(Test t) { tests().push_back(t); }
};
// Extra initialisation executed once in every process before any case.
std::function<void()>& init_fn();
int main_impl(int argc, char** argv);

}  // namespace pbt

#define PBT_TEST(name, quick, thorough, rule)                              \
  static void pbt_##name(::pbt::Src& s);                                   \
  static ::pbt::Reg pbt_reg_##name({#name, quick, thorough, rule, pbt_##name}); \
  static void pbt_##name([[maybe_unused]] ::pbt::Src& s)

#define PBT_ASSERT(cond, ...)                                              \
  do {                                                                     \
    if (!(cond))                                                           \
      ::pbt::fail(__FILE__, __LINE__, ::pbt::cat("assertion failed: " #cond " ", ##__VA_ARGS__)); \
  } while (0)
#define PBT_FAIL(...) ::pbt::fail(__FILE__, __LINE__, ::pbt::cat(__VA_ARGS__))
#endif
