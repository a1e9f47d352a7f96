// A small property-based testing engine: choice tapes, forked workers, shrinking, replay.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

/// thrown when an oracle is violated. key identifies the clause (stable), msg explains.
struct Fail {
  std::string key, msg;
};
/// thrown to abandon a case (precondition not met)
struct Discard {};

/// Generator context. Every random decision of a case goes through raw().
class G {
 public:
  static constexpr uint32_t kMaxTape = 1u << 16;
  G(uint64_t seed, uint32_t *tape, volatile uint32_t *len, const uint32_t *replay, uint32_t replay_len,
    bool is_replay)
      : s_(seed ^ 0x9E3779B97F4A7C15ull), tape_(tape), len_(len), rep_(replay), rep_len_(replay_len),
        is_rep_(is_replay) {}

  /// uniform in [0,bound), shrinks towards 0
  uint32_t raw(uint32_t bound);
  /// uniform in [lo,hi], shrinks towards lo
  int i(int lo, int hi) { return lo + static_cast<int>(raw(static_cast<uint32_t>(hi - lo + 1))); }
  /// true with probability p, shrinks towards false
  bool b(double p = 0.5) {
    uint32_t v = raw(1u << 16);
    return v >= static_cast<uint32_t>((1.0 - p) * 65536.0);
  }
  /// in [lo,hi), shrinks towards lo
  double r(double lo, double hi) { return lo + (hi - lo) * (raw(1u << 24) / 16777216.0); }
  /// signed number of magnitude <= m, frequently small integers / zero
  double num(double m = 3.0) {
    switch (raw(4)) {
      case 0: return static_cast<double>(i(0, static_cast<int>(m))) * (b() ? -1.0 : 1.0);
      case 1: return i(-4, 4) / 4.0;
      default: return r(-m, m);
    }
  }
  template <class T>
  const T &pick(const std::vector<T> &v) {
    return v[raw(static_cast<uint32_t>(v.size()))];
  }
  /// random permutation; the all-zero tape gives the identity
  std::vector<int> perm(int n) {
    std::vector<int> p(n);
    for (int k = 0; k < n; ++k) p[k] = k;
    for (int k = 0; k + 1 < n; ++k) std::swap(p[k], p[k + i(0, n - 1 - k)]);
    return p;
  }
  void label(const std::string &l) { labels_.push_back(l); }
  void nontrivial(bool v = true) { nontrivial_ = nontrivial_ || v; }
  std::ostream &desc() { return desc_; }

  // engine side
  bool nontrivial_ = false;
  std::vector<std::string> labels_;
  std::ostringstream desc_;

 private:
  uint64_t next() {
    uint64_t z = (s_ += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t s_;
  uint32_t *tape_;
  volatile uint32_t *len_;
  const uint32_t *rep_;
  uint32_t rep_len_;
  bool is_rep_;
};

struct Sub {
  std::string name;
  std::string rule;  // what is generated and when it counts as non-trivial
  int quick, thorough;
  std::function<void(G &)> fn;
};
std::vector<Sub> &subs();
struct Reg {
  Reg(const char *name, int quick, int thorough, const char *rule, std::function<void(G &)> fn) {
    subs().push_back({name, rule, quick, thorough, std::move(fn)});
  }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
/// PBT_SUB(name, quick cases, thorough cases, rule) { body using g }
#define PBT_SUB(name, quick, thorough, rule)                                                                    \
  static void PBT_CAT(pbt_fn_, __LINE__)(pbt::G & g);                                                           \
  static pbt::Reg PBT_CAT(pbt_reg_, __LINE__)(name, quick, thorough, rule, &PBT_CAT(pbt_fn_, __LINE__));        \
  static void PBT_CAT(pbt_fn_, __LINE__)([[maybe_unused]] pbt::G & g)

#define FAIL(key, msg)                        \
  do {                                        \
    std::ostringstream pbt_oss_;              \
    pbt_oss_.precision(15);                   \
    pbt_oss_ << msg;                          \
    throw pbt::Fail{(key), pbt_oss_.str()};   \
  } while (0)
#define CHECK(cond, key, msg)                                                 \
  do {                                                                        \
    if (!(cond)) FAIL(key, #cond << " violated: " << msg);                    \
  } while (0)
/// |a-b| <= tol, NaN fails
#define CHECK_NEAR(a, b, tol, key, msg)                                                                \
  do {                                                                                                 \
    const auto pbt_a_ = (a);                                                                           \
    const auto pbt_b_ = (b);                                                                           \
    if (!(std::abs(pbt_a_ - pbt_b_) <= (tol)))                                                         \
      FAIL(key, #a << " = " << pbt_a_ << " but expected " << pbt_b_ << " (tol " << (tol) << "): " << msg); \
  } while (0)
/// matrices: max-norm difference
#define CHECK_MAT(a, b, tol, key, msg)                                                                 \
  do {                                                                                                 \
    const auto pbt_a_ = (a).eval();                                                                    \
    const auto pbt_b_ = (b).eval();                                                                    \
    if (pbt_a_.rows() != pbt_b_.rows() || pbt_a_.cols() != pbt_b_.cols())                              \
      FAIL(key, #a << " has shape " << pbt_a_.rows() << "x" << pbt_a_.cols() << ", expected "          \
                   << pbt_b_.rows() << "x" << pbt_b_.cols() << ": " << msg);                           \
    if (pbt_a_.size() > 0 && !((pbt_a_ - pbt_b_).cwiseAbs().maxCoeff() <= (tol)))                       \
      FAIL(key, #a << " =\n" << pbt_a_ << "\nbut expected\n" << pbt_b_ << "\n(tol " << (tol)            \
                   << "): " << msg);                                                                   \
  } while (0)

/// true if f throws a std::exception or terminates through a failed library assertion (abort)
bool Rejects(const std::function<void()> &f);

}  // namespace pbt
#endif
