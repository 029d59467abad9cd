// Linearizability of a short history against a sequential model.
#ifndef HARNESS_LINEAR_H_
#define HARNESS_LINEAR_H_
#include <cstdint>
#include <string>
#include <unordered_set>
#include <vector>

namespace linear {
struct Stamp { uint64_t inv = 0, ret = ~0ull; };

// Model: copyable, with 'bool Apply(const Op&)' and 'std::string Key() const'.
// Returns true if some order of 'ops' that respects real time is accepted.
template <class Op, class Model>
class Checker {
 public:
  Checker(const std::vector<Op>& ops, const std::vector<Stamp>& st) : ops_(ops), st_(st), done_(ops.size(), false) {}
  // 1 yes, 0 no, -1 gave up.
  int Run(const Model& m, size_t max_states = 400000) {
    max_ = max_states;
    return Search(m, 0);
  }

 private:
  int Search(const Model& m, size_t n) {
    if (n == ops_.size()) return 1;
    std::string key(done_.begin(), done_.end());
    key += m.Key();
    if (!seen_.insert(key).second) return 0;
    if (seen_.size() > max_) return -1;
    uint64_t first_ret = ~0ull;
    for (size_t i = 0; i < ops_.size(); ++i) if (!done_[i] && st_[i].ret < first_ret) first_ret = st_[i].ret;
    for (size_t i = 0; i < ops_.size(); ++i) {
      if (done_[i] || st_[i].inv > first_ret) continue;
      Model c = m;
      if (!c.Apply(ops_[i])) continue;
      done_[i] = true;
      int r = Search(c, n + 1);
      done_[i] = false;
      if (r) return r;
    }
    return 0;
  }
  const std::vector<Op>& ops_;
  const std::vector<Stamp>& st_;
  std::vector<char> done_;
  std::unordered_set<std::string> seen_;
  size_t max_ = 0;
};
}  // namespace linear
#endif
