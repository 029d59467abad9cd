#ifndef VERIF_SIM_INTERNAL_H_
#define VERIF_SIM_INTERNAL_H_
#include <pthread.h>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include "rt.h"
#include "sim.h"

namespace sim {
namespace rt {

constexpr int kMaxThreads = 64;
constexpr int kMaxCallStack = 192;
constexpr int64_t kTimeBase = 1000000000000ll;
constexpr int64_t kRealtimeOffset = 1600000000000000000ll;
constexpr uintptr_t kPcIndexBase = 0x2c0000000000ull;
constexpr uintptr_t kPcIndexSize = 1ull << 30;  // uint32 per pc below 256 MB

struct Thread {
  enum St { UNUSED, READY, BLOCKED, DONE };
  int id;
  St st;
  int go, started;
  pthread_t real;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  char name[16];
  const void* wait_obj;
  const char* wait_what;
  int64_t deadline;
  bool timed_out;
  uint64_t wait_seq;
  bool (*await_pred)(const void*);
  const void* await_arg;
  uint64_t ev, next_ev;
  uint32_t vc[kMaxThreads];
  uint32_t depth;
  uintptr_t cs[kMaxCallStack];
  int quiet, quiet_switch, held;
  int prio;
  std::vector<Dev> rdev;
  size_t rpos;
  bool detached;
  char altstack[32768];
};

struct Strategy {
  enum Kind { RANDOM, PCT, STALL };
  int kind;
  double p_switch, mean_gap, p_timer, p_spurious;
  int n_change;
  uint64_t change_at[16];
  int low_prio;
  uint64_t stall_mask, stall_until, stall_len;
};

struct Sync {
  uintptr_t key;
  int owner;      // thread id + 1
  int readers;
  int rec;        // recursion depth beyond the first
  int once;       // 0 new, 1 running, 2 done
  uint64_t rmask;
  uint32_t vc[kMaxThreads];
  uint32_t rvc[kMaxThreads];
};

struct FaultName { char name[24]; uint32_t n; };

struct Global {
  bool replay, trace, race, fill, main_done;
  uint64_t seed;
  Rng wrng, srng, frng;
  Thread threads[kMaxThreads];
  int nthreads;
  Thread* cur;
  Thread* reap;
  Thread* reap_next;
  int runner_go;
  int64_t now;
  double p_clock_jump;
  uint64_t steps, step_budget, access_budget, switches, preemptions, mem_preemptions, wait_seq, seq;
  uint64_t hash, sched_hash;
  size_t nsync;
  Strategy strat;
  FaultName fn[64];
  int nfn;
  std::function<void(const std::string&)> fatal_cb;
};
extern Global G;
extern __thread Thread* self;
extern Shared* S;

void park(int* f);
void unpark(int* f);
[[noreturn]] void exit_now();
[[noreturn]] void finish_run(int status);
[[noreturn]] void fatal(const std::string& message);
void* do_malloc(size_t n);
void do_free(void* p);
size_t usable(void* p);
void* do_memalign(size_t al, size_t n);
std::string symbolize(uintptr_t pc);
std::string short_name(uintptr_t pc);
std::string stack_string();
bool race_suppressed(const std::string& key, const std::string& msg);
void choose_strategy();
Thread* create_thread(void* (*fn)(void*), void* arg, const char* name);
int join_thread(Thread* t, void** ret);
int real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int real_pthread_join(pthread_t, void**);
Sync* sync_of(const void* p, int space);
Sync* once_of(const void* p);
void once_acquire(Sync* s);
void once_release(Sync* s);
void wait_once(const void* p);
void wake_once(const void* p);
void point_once(const void* p);
void point_io();
void do_yield();
void do_sleep(int64_t ns);
int64_t read_clock();
void advance_clock_to(int64_t t);

}  // namespace rt
}  // namespace sim
#endif
