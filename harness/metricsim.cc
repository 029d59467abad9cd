// C17: metrics recorded and scraped concurrently.
// FLAVOR: tsan
// INSTRUMENT: yes
#include <map>
#include <set>
#include <string>
#include <vector>

#include "cartographer/cloud/metrics/prometheus/family_factory.h"
#include "cartographer/metrics/counter.h"
#include "cartographer/metrics/gauge.h"
#include "cartographer/metrics/histogram.h"
#include "prometheus/collectable.h"
#include "prometheus/metric_family.h"
#include "sim/sim.h"

using sim::Quiet;
namespace cm = cartographer::metrics;
namespace {
struct Ev { int family, label; int kind; double v; bool refetch; };
const int kMaxLabels = 24;
std::map<std::string, std::string> Labels(int l, int style) {
  if (l == 0 && style == 1) return {};
  if (style == 2) return {{"a", std::to_string(l)}, {"b", "x"}};
  return {{"k", std::to_string(l)}};
}
std::string KeyOf(const std::map<std::string, std::string>& m) {
  std::string s;
  for (auto& x : m) s += x.first + "=" + x.second + ";";
  return s;
}
std::string KeyOf(const std::vector<prometheus::ClientMetric::Label>& m) {
  std::map<std::string, std::string> x;
  for (auto& l : m) x[l.name] = l.value;
  return KeyOf(x);
}

void Run() {
  auto& r = sim::workload();
  const int style = r.range(0, 2);
  // Mostly few metrics with much contention, sometimes many of them.
  const bool many = r.chance(0.15);
  const int nthreads = r.range(2, 4), per = many ? r.range(10, 40) : r.range(2, 12);
  const int nlabels = many ? r.range(8, kMaxLabels) : 3;
  const int late_families = r.chance(0.3) ? r.range(1, 9) : 0;
  const bool scraper = r.chance(0.7);
  std::vector<double> bounds;
  { double b = 0; const int n = r.range(1, 4); for (int i = 0; i < n; ++i) bounds.push_back(b += r.range(1, 5)); }
  std::vector<std::vector<Ev>> plan(nthreads);
  int opi = 0;
  for (auto& p : plan)
    for (int k = 0; k < per; ++k) {
      Ev e{r.range(0, 4), r.range(0, nlabels - 1), r.range(0, 3), static_cast<double>(r.range(0, 20)), r.chance(0.4)};
      if (sim::op_enabled(opi++)) p.push_back(e);
    }
  cartographer::cloud::metrics::prometheus::FamilyFactory factory;
  auto* c0 = factory.NewCounterFamily("c0", "first counter");
  auto* c1 = factory.NewCounterFamily("c1", "second counter");
  auto* g0 = factory.NewGaugeFamily("g0", "a gauge of sums");
  auto* g1 = factory.NewGaugeFamily("g1", "a gauge that is set");
  auto* h0 = factory.NewHistogramFamily("h0", "a histogram", bounds);

  std::map<std::string, double> sum;                 // family/labels -> expected
  std::map<std::string, std::set<double>> sets;
  std::map<std::string, std::vector<uint64_t>> hist;
  std::map<std::string, double> hist_sum;
  std::map<std::string, void*> where;
  std::map<std::string, double> started;             // upper bound while running
  auto same = [&](const std::string& key, void* p) {
    Quiet q;
    auto it = where.emplace(key, p).first;
    SIM_CHECK(it->second == p, "metrics:two-objects", "the same labels gave two different metrics: " + key);
    for (auto& w : where) SIM_CHECK(w.second != p || w.first == key, "metrics:shared-object", w.first + " and " + key + " share one metric");
  };
  std::vector<int> th;
  for (int t = 0; t < nthreads; ++t)
    th.push_back(sim::spawn([&, t] {
      void* cache[5][kMaxLabels] = {};
      for (size_t k = 0; k < plan[t].size(); ++k) {
        Ev e;
        std::map<std::string, std::string> lab;
        std::string key;
        {
          Quiet q;
          e = plan[t][k];
          lab = Labels(e.label, style);
          key = std::to_string(e.family) + "/" + KeyOf(lab);
        }
        void*& slot = cache[e.family][e.label];
        const bool fetch = slot == nullptr || e.refetch;
        if (e.family <= 1) {
          if (fetch) slot = static_cast<cm::Counter*>((e.family ? c1 : c0)->Add(lab));
          cm::Counter* c = static_cast<cm::Counter*>(slot);
          same(key, c);
          const double by = e.kind % 2 ? 1 : e.v;
          { Quiet q; started[key] += by; }
          if (e.kind % 2) c->Increment(); else c->Increment(e.v);
          Quiet q;
          sum[key] += by;
        } else if (e.family == 2) {
          if (fetch) slot = static_cast<cm::Gauge*>(g0->Add(lab));
          cm::Gauge* g = static_cast<cm::Gauge*>(slot);
          same(key, g);
          double by = 0;
          switch (e.kind) {
            case 0: g->Increment(); by = 1; break;
            case 1: g->Increment(e.v); by = e.v; break;
            case 2: g->Decrement(); by = -1; break;
            default: g->Decrement(e.v); by = -e.v; break;
          }
          Quiet q;
          sum[key] += by;
        } else if (e.family == 3) {
          if (fetch) slot = static_cast<cm::Gauge*>(g1->Add(lab));
          cm::Gauge* g = static_cast<cm::Gauge*>(slot);
          same(key, g);
          g->Set(e.v);
          Quiet q;
          sets[key].insert(e.v);
        } else {
          if (fetch) slot = static_cast<cm::Histogram*>(h0->Add(lab));
          cm::Histogram* h = static_cast<cm::Histogram*>(slot);
          same(key, h);
          h->Observe(e.v);
          Quiet q;
          auto& b = hist[key];
          b.resize(bounds.size() + 1);
          size_t i = 0;
          while (i < bounds.size() && e.v > bounds[i]) ++i;
          ++b[i];
          hist_sum[key] += e.v;
        }
        { Quiet q; sim::log_event(key); }
      }
    }));
  auto scrape = [&](bool last) {
    std::vector<prometheus::MetricFamily> fs;
    auto reg = factory.GetCollectable().lock();
    SIM_CHECK(reg != nullptr, "metrics:no-registry", "the registry is gone");
    std::map<std::string, double> lower;
    { Quiet q; lower = sum; }
    fs = reg->Collect();
    Quiet q;
    std::set<std::string> seen;
    for (auto& f : fs) {
      const int fam = f.name == "c0" ? 0 : f.name == "c1" ? 1 : f.name == "g0" ? 2 : f.name == "g1" ? 3 : f.name == "h0" ? 4 : f.name.compare(0, 4, "late") == 0 ? 9 : -1;
      SIM_CHECK(fam >= 0, "metrics:unknown-family", f.name);
      for (auto& m : f.metric) {
        if (fam == 9) continue;
        const std::string key = std::to_string(fam) + "/" + KeyOf(m.label);
        SIM_CHECK(seen.insert(key).second, "metrics:duplicate", "two entries for " + key);
        if (fam <= 1) {
          SIM_CHECK(m.counter.value >= lower[key], "metrics:went-back", key + " shows less than was recorded before the scrape");
          SIM_CHECK(m.counter.value <= started[key], "metrics:invented", key + " shows more than was recorded");
          if (last) SIM_CHECK(m.counter.value == sum[key], "metrics:lost-count", key + " is " + std::to_string(m.counter.value) + " instead of " + std::to_string(sum[key]));
        } else if (fam == 2 && last) {
          SIM_CHECK(m.gauge.value == sum[key], "metrics:lost-gauge", key + " is " + std::to_string(m.gauge.value) + " instead of " + std::to_string(sum[key]));
        } else if (fam == 3 && last) {
          SIM_CHECK(sets[key].count(m.gauge.value), "metrics:wrong-gauge", key + " has a value never set");
        } else if (fam == 4 && last) {
          uint64_t cum = 0;
          auto& b = hist[key];
          SIM_CHECK(m.histogram.bucket.size() == bounds.size() + 1, "metrics:buckets", "wrong number of buckets");
          for (size_t i = 0; i < m.histogram.bucket.size(); ++i) {
            cum += b[i];
            if (i < bounds.size()) SIM_CHECK(m.histogram.bucket[i].upper_bound == bounds[i], "metrics:buckets", "a bucket has another bound");
            SIM_CHECK(m.histogram.bucket[i].cumulative_count == cum, "metrics:lost-observation", key + " bucket " + std::to_string(i));
          }
          SIM_CHECK(m.histogram.sample_sum == hist_sum[key], "metrics:lost-observation", key + " sum");
        }
      }
    }
    if (last) {
      for (auto& w : where) SIM_CHECK(seen.count(w.first), "metrics:missing", w.first + " is not exported");
      sim::count("metrics", where.size());
    }
    sim::count("probe.scrape");
  };
  if (scraper) th.push_back(sim::spawn([&] { for (int i = 0; i < 3; ++i) { scrape(false); sim::yield(); } }));
  // Families registered later leave those in use alone.
  for (int i = 0; i < late_families; ++i) {
    const std::string name = "late" + std::to_string(i);
    if (i % 3 == 0) factory.NewCounterFamily(name, "x")->Add({{"k", "0"}})->Increment();
    else if (i % 3 == 1) factory.NewGaugeFamily(name, "x")->Add({{"k", "0"}})->Set(1);
    else factory.NewHistogramFamily(name, "x", {1., 2.})->Add({{"k", "0"}})->Observe(1);
    sim::yield();
  }
  for (int t : th) sim::join(t);
  scrape(true);
}
}  // namespace
const sim::Harness sim::kHarness = {"metricsim", nullptr, Run, true};
