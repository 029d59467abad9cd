// Deterministic simulator: public interface for harnesses.
#ifndef VERIF_SIM_H_
#define VERIF_SIM_H_
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- pseudo random numbers -------------------------------------------------
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // Uniform in [0, n).
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + static_cast<int>(below(hi - lo + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
  bool chance(double p) { return unit() < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---- services available inside a simulated run -----------------------------
// The workload stream: a function of the seed only, never of the schedule.
Rng& workload();
uint64_t seed();
// A named integer parameter of the run (0 when absent).
int64_t param(const char* name, int64_t dflt);
// Operation 'index' of the workload takes part in this run (the minimiser
// switches operations off).
bool op_enabled(int index);

// Reports a violation and ends the run. 'cls' is a short stable class name.
[[noreturn]] void fail(const std::string& cls, const std::string& message);
#define SIM_CHECK(cond, cls, msg) \
  do { if (!(cond)) { ::sim::fail(cls, std::string(msg)); } } while (0)

// Counters that end up in the evidence ("fault.*" fault kinds that fired,
// "probe.*" rare situations reached, anything else free).
void count(const char* name, uint64_t by = 1);
// Mixes a value into the event hash of the run.
void log_event(uint64_t v);
void log_event(const std::string& s);
// A human readable line for the replay report (kept only when tracing).
void note(const std::string& s);
bool tracing();

// A fault decision: true when the fault with this name fires at this point.
// Recorded and replayed by (name, occurrence).
bool fault(const char* name, double probability);
// Same, with a value in [1, n] when it fires and 0 when not.
uint64_t fault_value(const char* name, double probability, uint64_t n);

// A global, schedule ordered sequence number (for history stamps).
uint64_t seq();
// Virtual time in nanoseconds.
int64_t now_ns();
void sleep_ns(int64_t ns);
void yield();
// Number of simulated threads that are neither blocked nor finished.
int runnable_threads();
int thread_id();
uint64_t steps();

// Spawns a simulated thread running 'fn'. join() blocks in simulated time.
int spawn(std::function<void()> fn, const char* name = "client");
void join(int handle);

// While alive, no preemption happens in this thread and its memory accesses
// are neither checked nor recorded: for oracle bookkeeping.
struct Quiet {
  Quiet();
  ~Quiet();
};

// Called instead of aborting when the code under test stops loudly (a failed
// CHECK, an uncaught exception). Returning normally ends the run as a clean
// "loud stop"; the callback may call fail().
void on_fatal(std::function<void(const std::string& message)> cb);

// Adjusts limits.
void set_step_budget(uint64_t steps);
// Turns race checking off for the run (single threaded harnesses).
void set_race_checks(bool on);
// Probability that a look at the clock finds it jumped forward by 2^k ns, k <= 40.
void set_clock_jumps(double p);

// Single allocations above this many bytes fail, as on a machine without the
// memory for them.
void set_alloc_limit(size_t bytes);
// Probability that an allocation fails.
void set_alloc_failures(double p);

// Checked accesses to 8 bytes at 'p', for harness data whose ordering is itself
// under test.
void touch_read(const void* p);
void touch_write(void* p);

// ---- simulated disk ---------------------------------------------------------
// Files whose path starts with "/simdisk/" live in memory.
namespace disk {
bool exists(const std::string& path);
std::string content(const std::string& path);
void put(const std::string& path, const std::string& content);
void remove(const std::string& path);
void clear();
// Fault plan. Probabilities per call.
struct Plan {
  double open_fail = 0, write_error = 0, short_write = 0, eintr = 0,
         close_fail = 0, read_error = 0, short_read = 0, seek_fail = 0;
  int64_t capacity = -1;       // Bytes the disk can still take; -1 unlimited.
  int64_t crash_after_bytes = -1;  // Calls on_crash once that many were stored.
};
void set_plan(const Plan& plan);
Plan& plan();
// Number of writes/bytes/faults so far.
uint64_t bytes_written();
uint64_t errors_injected();
// Invoked when the byte budget of 'crash_after_bytes' is exhausted; the run
// ends with the callback.
void on_crash(std::function<void()> cb);
int open_files();
}  // namespace disk

// ---- registration -----------------------------------------------------------
// Every harness binary defines these.
struct Harness {
  const char* name;
  void (*setup)();          // once in the zygote, before any run
  void (*run)();            // one simulated run, as the main simulated thread
  bool race;                // race checking wanted
};
extern const Harness kHarness;

// ---- primitives for the absl replacement and for tests -----------------------
namespace prim {
void mutex_lock(const void* m);
bool mutex_trylock(const void* m);
void mutex_unlock(const void* m);
void mutex_rdlock(const void* m);
bool mutex_tryrdlock(const void* m);
void mutex_rdunlock(const void* m);
void mutex_destroy(const void* m);
bool mutex_held(const void* m);
bool mutex_reader_held(const void* m);
// Waits, holding 'm' (exclusively or shared), until pred(arg); deadline in
// virtual ns, -1 for none. Returns the value of the predicate.
bool await(const void* m, bool (*pred)(const void*), const void* arg, int64_t deadline_ns, bool shared);
void cond_wait(const void* c, const void* m);
bool cond_timedwait(const void* c, const void* m, int64_t deadline_ns);
void cond_signal(const void* c);
void cond_broadcast(const void* c);
bool in_sim();
}  // namespace prim

}  // namespace sim
#endif  // VERIF_SIM_H_
