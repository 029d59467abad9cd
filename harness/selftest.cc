// Self test of the simulator: toy programs with and without bugs.
// FLAVOR: tsan
// INSTRUMENT: yes
#include <future>
#include <mutex>
#include <thread>
#include <condition_variable>
#include "absl/synchronization/mutex.h"
#include "sim/sim.h"

static void run() {
  int which = sim::param("which", 0);
  if (which == 0) {  // correct counter
    absl::Mutex m; int c = 0;
    std::vector<std::thread> t;
    for (int i = 0; i < 4; ++i) t.emplace_back([&] { for (int k = 0; k < 10; ++k) { absl::MutexLock l(&m); ++c; } });
    for (auto& x : t) x.join();
    SIM_CHECK(c == 40, "count", "lost update");
  } else if (which == 1) {  // race
    int c = 0; absl::Mutex m;
    std::thread a([&] { { absl::MutexLock l(&m); } ++c; });
    std::thread b([&] { { absl::MutexLock l(&m); } ++c; });
    a.join(); b.join();
  } else if (which == 2) {  // deadlock
    std::mutex x, y;
    std::thread a([&] { std::lock_guard<std::mutex> l(x); std::lock_guard<std::mutex> k(y); });
    std::thread b([&] { std::lock_guard<std::mutex> l(y); std::lock_guard<std::mutex> k(x); });
    a.join(); b.join();
  } else if (which == 3) {  // lost wakeup
    std::mutex m; std::condition_variable cv; bool ready = false;
    std::thread a([&] { { std::lock_guard<std::mutex> l(m); ready = true; } cv.notify_one(); });
    std::unique_lock<std::mutex> l(m);
    if (!ready) { l.unlock(); l.lock(); cv.wait(l); }
    l.unlock();
    a.join();
  } else if (which == 4) {  // future, timed waits, sleeps
    auto f = std::async(std::launch::async, [] { std::this_thread::sleep_for(std::chrono::seconds(5)); return 7; });
    SIM_CHECK(f.get() == 7, "future", "value");
    std::mutex m; std::condition_variable cv; std::unique_lock<std::mutex> l(m);
    auto t0 = std::chrono::steady_clock::now();
    bool r = cv.wait_for(l, std::chrono::milliseconds(50), [] { return false; });
    SIM_CHECK(!r && std::chrono::steady_clock::now() - t0 >= std::chrono::milliseconds(50), "timeout", "early");
  }
}
const sim::Harness sim::kHarness = {"selftest", nullptr, run, true};
