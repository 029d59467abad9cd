// C01: tasks, dependencies and the thread pool.
// FLAVOR: tsan
// INSTRUMENT: yes
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "absl/synchronization/mutex.h"
#include "absl/synchronization/notification.h"
#include "cartographer/common/task.h"
#include "cartographer/common/thread_pool.h"
#include "sim/sim.h"

using cartographer::common::Task;
using cartographer::common::ThreadPool;
using sim::Quiet;

namespace {

struct Item {
  int pool = 0;
  int runs = 0;
  bool started = false, finished = false, scheduled = false, counted = true;
  uint64_t cell = 0;
  std::vector<int> deps;
  std::vector<int> spawn;      // items scheduled from inside the work item
  std::weak_ptr<Task> handle;
  int sleep_us = 0;
  bool no_work = false;
  int wait_for = -1;           // notification the item waits for
  int op = 0;
};

struct World {
  std::vector<ThreadPool*> pools;
  std::vector<int> workers, active, max_active;
  std::vector<std::unique_ptr<Item>> items;
  std::vector<std::unique_ptr<absl::Notification>> gates;
  absl::Mutex mu;
  int left = 0;
};
World* W;

void ScheduleItem(int i);

bool DoneOf(int i) { return W->items[i]->finished || (W->items[i]->no_work && W->items[i]->scheduled && W->items[i]->handle.expired()); }

std::vector<int> deps_of(int i) { Quiet q; return W->items[i]->deps; }

void Work(int i) {
  Item& it = *W->items[i];
  {
    Quiet q;
    ++it.runs;
    SIM_CHECK(it.runs == 1, "task:ran-twice", "task " + std::to_string(i) + " ran " + std::to_string(it.runs) + " times");
    it.started = true;
    for (int d : it.deps) {
      const Item& dep = *W->items[d];
      SIM_CHECK(dep.no_work || dep.finished, "task:dependency-order",
                "task " + std::to_string(i) + " started before its dependency " + std::to_string(d) + " finished");
    }
    const int a = ++W->active[it.pool];
    if (a > W->max_active[it.pool]) W->max_active[it.pool] = a;
    SIM_CHECK(a <= W->workers[it.pool], "task:too-parallel", "more tasks run at once than there are workers");
    if (a > 1) sim::count("probe.parallel_tasks");
    sim::log_event(i * 3);
  }
  for (int d : deps_of(i)) if (!W->items[d]->no_work) sim::touch_read(&W->items[d]->cell);
  if (it.sleep_us > 0) sim::sleep_ns(it.sleep_us * 1000ll); else if (it.sleep_us < 0) sim::yield();
  for (int s : it.spawn) ScheduleItem(s);
  if (it.wait_for >= 0) W->gates[it.wait_for]->WaitForNotification();
  sim::touch_write(&it.cell);
  {
    Quiet q;
    it.finished = true;
    --W->active[it.pool];
    sim::log_event(i * 3 + 1);
  }
  W->mu.Lock();
  --W->left;
  W->mu.Unlock();
}

void ScheduleItem(int i) {
  Item& it = *W->items[i];
  auto task = std::make_unique<Task>();
  const bool work_first = (i & 1) != 0;
  if (work_first && !it.no_work) task->SetWorkItem([i] { Work(i); });
  {
    // An ancestor may run before the call that scheduled it has returned its
    // handle; then there is nothing to depend on yet.
    Quiet q;
    std::vector<int> known;
    for (int d : it.deps) if (W->items[d]->scheduled) known.push_back(d);
    it.deps = known;
  }
  for (int d : it.deps) {
    std::weak_ptr<Task> h;
    { Quiet q; h = W->items[d]->handle; }
    task->AddDependency(h);
  }
  if (i % 5 == 0) task->AddDependency(std::weak_ptr<Task>());
  if (!work_first && !it.no_work) task->SetWorkItem([i] { Work(i); });
  std::weak_ptr<Task> h = W->pools[it.pool]->Schedule(std::move(task));
  {
    Quiet q;
    it.handle = h;
    it.scheduled = true;
    sim::log_event(i * 3 + 2);
  }
}

void CheckHandle(int i) {
  Item& it = *W->items[i];
  std::weak_ptr<Task> h;
  { Quiet q; if (!it.scheduled) return; h = it.handle; }
  std::shared_ptr<Task> s = h.lock();
  Quiet q;
  if (!s) {
    SIM_CHECK(it.no_work || it.finished, "task:expired-early", "the handle of task " + std::to_string(i) + " expired before the task finished");
    sim::count("probe.expired_handle");
  } else {
    Task::State st;
    st = s->GetState();
    if (st == Task::COMPLETED)
      SIM_CHECK(it.no_work || it.finished, "task:completed-early", "task " + std::to_string(i) + " reports completion before its work finished");
  }
}

void Run() {
  auto& r = sim::workload();
  World world;
  W = &world;
  const int npools = r.chance(0.15) ? 2 : 1;
  for (int p = 0; p < npools; ++p) W->workers.push_back(r.range(1, 4));
  W->active.assign(npools, 0);
  W->max_active.assign(npools, 0);
  const int nclients = r.range(1, 3);
  const int n = r.range(2, r.chance(0.3) ? 24 : 10);
  const int shape = r.range(0, 3);
  const bool gate = r.chance(0.3);
  const double dep_p = r.pick(std::vector<double>{0.1, 0.4, 0.9});
  // Which client (or task) schedules which item. Dependencies only on items
  // scheduled earlier by the same client or in an earlier phase.
  std::vector<std::vector<int>> by_client(nclients);
  std::vector<int> origin(n, 0);
  for (int i = 0; i < n; ++i) {
    auto it = std::make_unique<Item>();
    it->pool = r.below(npools);
    it->no_work = r.chance(0.1) && npools == 1;
    const int sl = r.range(0, 4);
    it->sleep_us = sl == 0 ? r.range(1, 100) : sl == 1 ? -1 : 0;
    const int c = r.below(nclients);
    int parent = -1;
    if (i > 0 && r.chance(0.2)) parent = r.below(i);
    std::vector<int> cand;
    for (int k = 0; k < i; ++k) {
      const bool ok = shape == 0 ? k == i - 1 : shape == 1 ? (k == 0 || r.chance(0.2)) : r.chance(dep_p);
      if (ok) cand.push_back(k);
    }
    for (int k : cand) it->deps.push_back(k);
    W->items.push_back(std::move(it));
    if (parent >= 0 && !W->items[parent]->no_work) {
      W->items[parent]->spawn.push_back(i);
      origin[i] = -1 - parent;
    } else {
      by_client[c].push_back(i);
      origin[i] = c;
    }
  }
  // A dependency may only name an item that is certainly scheduled before. An
  // item not scheduled yet has an empty handle and would count as completed.
  for (int i = 0; i < n; ++i) {
    Item& it = *W->items[i];
    std::vector<int> keep;
    for (int d : it.deps) {
      bool ok = origin[d] >= 0 && origin[d] == origin[i];
      if (origin[i] < 0) {
        int o = i;
        // ancestors of i (through spawning) and what they depend on are scheduled
        while (origin[o] < 0) {
          o = -1 - origin[o];
          if (d == o) break;
        }
        // depending on a running ancestor that waits for nothing of ours is fine
        if (d == o) ok = true;
      }
      if (ok) keep.push_back(d);
    }
    it.deps = keep;
  }
  for (int i = 0; i < n; ++i) if (!sim::op_enabled(i)) W->items[i]->op = -1;
  // Switched off items (by the minimiser) drop out with everything they spawn.
  for (int i = 0; i < n; ++i) {
    bool off = W->items[i]->op < 0;
    if (origin[i] < 0 && W->items[-1 - origin[i]]->op < 0) off = true;
    if (off) W->items[i]->op = -1;
  }
  for (int i = 0; i < n; ++i) {
    Item& it = *W->items[i];
    std::vector<int> d, s;
    for (int x : it.deps) if (W->items[x]->op >= 0) d.push_back(x);
    for (int x : it.spawn) if (W->items[x]->op >= 0) s.push_back(x);
    it.deps = d;
    it.spawn = s;
    if (it.op >= 0 && !it.no_work) ++W->left;
  }
  int gated = -1;
  if (gate) {
    W->gates.push_back(std::make_unique<absl::Notification>());
    for (int i = 0; i < n; ++i)
      if (W->items[i]->op >= 0 && origin[i] >= 0 && !W->items[i]->no_work) { gated = i; break; }
    if (gated >= 0) { W->items[gated]->wait_for = 0; sim::count("probe.gated"); }
  }
  const int total = W->left;
  for (int p = 0; p < npools; ++p) W->pools.push_back(new ThreadPool(W->workers[p]));
  const bool wait_before_teardown = npools > 1 || r.chance(0.5);
  std::vector<int> th;
  for (int c = 0; c < nclients; ++c) {
    th.push_back(sim::spawn([c, &by_client, n] {
      for (int i : by_client[c]) {
        if (W->items[i]->op < 0) continue;
        ScheduleItem(i);
        CheckHandle((i * 7) % n);
      }
    }));
  }
  for (int t : th) sim::join(t);
  // Everything is scheduled although the gated item cannot finish yet.
  if (gate) W->gates[0]->Notify();
  for (int i = 0; i < n; ++i) CheckHandle(i);
  if (wait_before_teardown) {
    struct L { static bool Zero(int* x) { return *x == 0; } };
    W->mu.Lock();
    W->mu.Await(absl::Condition(&L::Zero, &W->left));
    W->mu.Unlock();
    sim::count("probe.waited");
  }
  for (ThreadPool* p : W->pools) delete p;
  int ran = 0;
  for (int i = 0; i < n; ++i) {
    Item& it = *W->items[i];
    if (it.op < 0 || it.no_work) continue;
    SIM_CHECK(it.runs == 1 && it.finished, "task:lost", "task " + std::to_string(i) + " was never executed although the pool was torn down");
    SIM_CHECK(it.handle.expired(), "task:leaked", "the pool is gone but still owns task " + std::to_string(i));
    ++ran;
  }
  SIM_CHECK(ran == total, "task:count", "wrong number of executed tasks");
  sim::count("tasks", ran);
}
}  // namespace
const sim::Harness sim::kHarness = {"taskpool", nullptr, Run, true};
