// Internal: shared between the runtime and the driver.
#ifndef VERIF_SIM_RT_H_
#define VERIF_SIM_RT_H_
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace sim {
namespace rt {

constexpr uint32_t kMaxDev = 1u << 19;
constexpr uint32_t kMaxFault = 1u << 14;
constexpr uint32_t kMaxCnt = 256;
constexpr uint32_t kNotes = 1u << 20;

struct Dev {          // A scheduling decision that differs from the default.
  uint64_t ev;        // per-thread event number
  uint16_t tid;
  uint16_t kind;      // 0: thread switch, 1: which waiter
  uint32_t value;
};
struct FaultRec {
  char name[24];
  uint32_t n;         // occurrence number of the decision with that name
  uint64_t value;
};
struct Cnt {
  char name[56];
  uint64_t v;
};

enum Status { kRunning = 0, kOk = 1, kViolation = 2, kLoudStop = 3, kInternal = 4 };

struct Shared {
  int status;
  char cls[512];
  char msg[1 << 15];
  uint64_t hash, sched_hash, steps, accesses, switches, preemptions;
  int64_t vtime;
  uint32_t nthreads;
  uint32_t max_op;    // one more than the largest op index asked for
  uint32_t ndev, nfault, ncnt, notes_len;
  bool dev_overflow;
  Cnt cnt[kMaxCnt];
  FaultRec fault[kMaxFault];
  char notes[kNotes];
  Dev dev[kMaxDev];
};

struct Spec {
  bool replay = false;   // take decisions from dev/fault only
  bool trace = false;    // collect notes
  uint64_t seed = 1;
  std::map<std::string, int64_t> params;
  std::vector<int> disabled_ops;
  std::vector<Dev> dev;
  std::vector<FaultRec> fault;
};

// Runs kHarness.run in this (forked) process; never returns.
[[noreturn]] void run_child(const Spec& spec, Shared* shared);
void init_process();
void pin_setup_heap();

}  // namespace rt
}  // namespace sim
#endif
