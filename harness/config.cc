// C23: configurations made of many files in several directories, on a disk
// that fails.
// FLAVOR: plain
// INSTRUMENT: no
#include <glog/logging.h>
#include <gflags/gflags.h>
#include <cmath>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include "cartographer/common/config.h"
#include "cartographer/common/configuration_file_resolver.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "sim/sim.h"
// The simulator has set up logging.
#define InitGoogleLogging(x) IsGoogleLoggingInitialized()
// Its main() under another symbol.
int main(int argc, char** argv) __asm__("tool_main");
extern "C" int tool_main(int argc, char** argv);
#include "cartographer/common/print_configuration_main.cc"

namespace {
using cartographer::common::ConfigurationFileResolver;
using cartographer::common::LuaParameterDictionary;

enum Kind { kInt, kDouble, kBool, kString, kTable };
struct V {
  Kind kind = kTable;
  double num = 0;
  bool flag = false;
  std::string text;
  std::map<std::string, V> dict;
  std::vector<V> array;   // all of one kind
  std::string lua;        // how a scalar is written
};

std::string Quote(const std::string& s) {
  std::string o = "\"";
  for (char c : s) { if (c == '\n') o += "\\n"; else { if (c == '"' || c == '\\') o += '\\'; o += c; } }
  return o + "\"";
}
std::string Write(const V& v, const std::string& key_sep) {
  if (v.kind != kTable || !v.lua.empty()) return v.lua;
  std::string o = "{";
  for (auto& a : v.array) o += key_sep + Write(a, key_sep) + ",";
  for (auto& d : v.dict) o += key_sep + d.first + " = " + Write(d.second, key_sep) + ",";
  return o + key_sep + "}";
}

struct World {
  sim::Rng& r;
  int keys = 0;
  std::vector<std::string> dirs;
  bool decoys;
  std::map<std::string, std::string> shipped;
  explicit World(sim::Rng& rng) : r(rng), decoys(false) {}

  std::string Text() {
    static const char* const pieces[] = {"a", "base_link", "\n", "\"", "\\", " ", "scan", "'", "]]", "--", "%q", "{", "3"};
    std::string s;
    const int n = r.range(0, 6);
    for (int i = 0; i < n; ++i) s += pieces[r.below(13)];
    return s;
  }
  V Scalar(int kind) {
    V v;
    v.kind = static_cast<Kind>(kind);
    std::ostringstream s;
    switch (kind) {
      case kInt: {
        v.num = r.chance(0.2) ? r.range(-2000000000, 2000000000) : r.range(-20, 1000);
        s << std::setprecision(17) << v.num;
        if (r.chance(0.2)) s << ".";
        break;
      }
      case kDouble:
        if (r.chance(0.05)) { v.num = std::numeric_limits<double>::infinity(); s << "math.huge"; }
        else if (r.chance(0.05)) { v.num = -std::numeric_limits<double>::infinity(); s << "-math.huge"; }
        else { v.num = r.range(-3000000, 3000000) / 64.; s << std::setprecision(17) << v.num; }
        break;
      case kBool: v.flag = r.chance(0.5); s << (v.flag ? "true" : "false"); break;
      default: v.text = Text(); s << Quote(v.text);
    }
    v.lua = s.str();
    if (r.chance(0.1)) {
      // Decided by a condition.
      const bool c = r.chance(0.5);
      const std::string other = r.chance(0.5) ? "17" : "\"other\"";
      v.lua = std::string("choose(") + (c ? "true, " + v.lua + ", " + other : "false, " + other + ", " + v.lua) + ")";
    }
    return v;
  }
  std::string Key() {
    // The same names turn up in many tables.
    if (r.chance(0.4)) return "common_" + std::to_string(r.below(6));
    return (r.chance(0.05) ? std::string(r.range(30, 90), 'q') : "k") + std::string(1, 'a' + r.below(26)) + std::to_string(keys++);
  }
  V Table(int depth) {
    V v;
    const int n = r.chance(0.1) ? 0 : r.range(1, depth > 0 ? 5 : 4);
    for (int i = 0; i < n; ++i) {
      const int k = r.range(0, depth > 0 ? 6 : 3);
      if (k <= 3) v.dict[Key()] = Scalar(k);
      else v.dict[Key()] = Table(depth - 1);
    }
    if (r.chance(0.25)) {
      const int k = r.range(0, 2), m = r.chance(0.05) ? r.range(50, 400) : r.range(1, 6);
      for (int i = 0; i < m; ++i) v.array.push_back(k == 0 ? Scalar(kDouble) : k == 1 ? Scalar(kString) : depth > 0 && m < 9 ? Table(depth - 1) : Scalar(kDouble));
      for (auto& a : v.array) if (a.kind != v.array[0].kind) { v.array.resize(1); break; }
    }
    return v;
  }
  // Puts a file into one directory and, if wanted, different ones of the same
  // name into later ones.
  void Put(const std::string& name, const std::string& content) {
    const size_t d = r.below(dirs.size());
    sim::disk::put(dirs[d] + "/" + name, content);
    if (decoys) for (size_t e = d + 1; e < dirs.size(); ++e) if (r.chance(0.5)) sim::disk::put(dirs[e] + "/" + name, "do return { wrong = true } end\n");
  }
  // Writes file number 'i', and those it includes, which get numbers from
  // *next. Returns the value it defines under the name G<i>, or returns.
  V File(int i, int* next, int limit, bool top, std::vector<std::string>* included) {
    std::string text;
    V v = Table(2);
    const int kids = top ? r.range(0, 3) : r.range(0, 2);
    auto pad = [&](double p) {
      if (!r.chance(p)) return;
      const int n = r.chance(0.3) ? r.range(20, 200) : r.range(0, 3);
      for (int k = 0; k < n; ++k) text += "-- " + std::string(r.range(0, 90), static_cast<char>('a' + r.below(26))) + "\n";
    };
    pad(0.3);
    for (int k = 0; k < kids && *next < limit; ++k) {
      const int j = (*next)++;
      const std::string name = "f" + std::to_string(j) + ".lua", g = "G" + std::to_string(j);
      included->push_back(name);
      const bool by_value = r.chance(0.3);
      V w = by_value ? ByValue(j) : File(j, next, limit, false, included);
      text += (by_value ? "local " + g + " = include \"" : "include \"") + name + "\"\n";
      // Overrides, as users write them.
      for (auto& d : w.dict) {
        if (d.second.kind == kTable || !r.chance(0.3)) continue;
        V o = Scalar(d.second.kind);
        d.second = o;
        text += g + "." + d.first + " = " + o.lua + "\n";
      }
      if (r.chance(0.3)) {
        const std::string key = Key();
        V o = Scalar(r.below(4));
        w.dict[key] = o;
        text += g + "." + key + " = " + o.lua + "\n";
      }
      w.lua = g;
      v.dict["s" + std::to_string(j)] = w;
      pad(0.2);
    }
    if (r.chance(0.2)) {
      const std::string name = "t" + std::to_string(i) + ".txt";
      V o;
      o.kind = kString;
      const int n = r.chance(0.3) ? r.range(100, 3000) : r.range(0, 4);
      for (int k = 0; k < n; ++k) o.text += r.chance(0.2) ? "<link name=\"x\"/>\n" : "word ";
      o.lua = "read(\"" + name + "\")";
      Put(name, o.text);
      v.dict[Key()] = o;
    }
    if (top && !shipped.empty() && r.chance(0.2)) {
      // A file of the installation, which the user may have replaced.
      auto s = shipped.begin();
      std::advance(s, r.below(shipped.size()));
      V o;
      o.kind = kString;
      o.text = s->second;
      o.lua = "read \"" + s->first + "\"";
      if (decoys && r.chance(0.5)) { o.text = "-- mine\n"; sim::disk::put(dirs[r.below(dirs.size())] + "/" + s->first, o.text); }
      v.dict[Key()] = o;
    }
    const std::string g = "G" + std::to_string(i), sep = r.chance(0.5) ? "\n  " : " ";
    if (top) {
      text += "return " + Write(v, sep) + "\n";
    } else {
      // Part of the table, the rest assigned afterwards.
      V first = v;
      std::string later;
      for (auto& d : v.dict) if (r.chance(0.3)) { later += g + "." + d.first + " = " + Write(d.second, sep) + "\n"; first.dict.erase(d.first); }
      text += g + " = " + Write(first, sep) + "\n";
      pad(0.2);
      text += later;
    }
    pad(0.2);
    if (top) main_text = text;
    Put(top ? "main.lua" : "f" + std::to_string(i) + ".lua", text);
    // The text that stands for the global is not part of the value.
    for (auto& d : v.dict) if (d.second.kind == kTable) d.second.lua.clear();
    return v;
  }
  // A file that returns its table.
  V ByValue(int j) {
    V v = Table(1);
    Put("f" + std::to_string(j) + ".lua", "return " + Write(v, "\n") + "\n");
    return v;
  }
  std::string main_text;
};

int Leaves(const V& v) {
  int n = static_cast<int>(v.dict.size());
  for (auto& d : v.dict) if (d.second.kind == kTable) n += Leaves(d.second);
  for (auto& a : v.array) if (a.kind == kTable) n += Leaves(a);
  return n;
}

struct Walk {
  sim::Rng& r;
  int target;      // the key that is misused, or -1
  int misuse;      // 0 left out, 1 read twice, 2 wrong type
  double tolerance;
  int at = 0;
  bool misused = false;
  bool due = false;   // the very next thing to happen has to stop the program
  bool counted = true;
  explicit Walk(sim::Rng& rng) : r(rng), target(-1), misuse(0), tolerance(0) {}

  bool Equal(double a, double b) { return a == b || std::fabs(a - b) <= tolerance; }
  void Value(LuaParameterDictionary* d, const std::string& key, const V& v) {
    switch (v.kind) {
      case kInt: {
        const int how = r.range(0, v.num >= 0 ? 2 : 1);
        const double got = how == 0 ? d->GetInt(key) : how == 1 ? d->GetDouble(key) : d->GetNonNegativeInt(key);
        SIM_CHECK(Equal(got, v.num), "config:value", "'" + key + "' reads as " + std::to_string(got) + ", configured as " + std::to_string(v.num));
        break;
      }
      case kDouble: {
        const double got = d->GetDouble(key);
        SIM_CHECK(Equal(got, v.num), "config:value", "'" + key + "' reads as " + std::to_string(got) + ", configured as " + std::to_string(v.num));
        break;
      }
      case kBool: SIM_CHECK(d->GetBool(key) == v.flag, "config:value", "'" + key + "' reads as its opposite"); break;
      case kString: {
        const std::string got = d->GetString(key);
        SIM_CHECK(got == v.text, "config:value", "'" + key + "' reads as '" + got.substr(0, 200) + "' (" + std::to_string(got.size()) + " characters), configured as '" + v.text.substr(0, 200) + "' (" + std::to_string(v.text.size()) + ")");
        break;
      }
      case kTable: {
        auto s = d->GetDictionary(key);
        Table(s.get(), v);
        End(v, &s);
        break;
      }
    }
  }
  // A dictionary goes away: this is where misuse shows.
  void End(const V&, std::unique_ptr<LuaParameterDictionary>* d) {
    d->reset();
    SIM_CHECK(!due, "config:misuse-unnoticed", misuse == 0 ? "a key that was never read went unnoticed" : "a key that was read twice went unnoticed");
  }
  void Wrong(LuaParameterDictionary* d, const std::string& key, const V& v) {
    // Must not return.
    misused = due = true;
    const int how = r.range(0, 1);
    switch (v.kind) {
      case kInt: if (v.num < 0 && how) d->GetNonNegativeInt(key); else if (r.chance(0.5)) d->GetBool(key); else d->GetDictionary(key); break;
      case kDouble: if (how) d->GetBool(key); else d->GetDictionary(key); break;
      case kBool: if (how) d->GetDouble(key); else d->GetString(key); break;
      case kString: if (how) d->GetBool(key); else d->GetDictionary(key); break;
      case kTable: if (how) d->GetString(key); else d->GetInt(key); break;
    }
    sim::fail("config:type-unnoticed", "'" + key + "' was read as a type it does not have");
  }
  void Table(LuaParameterDictionary* d, const V& v) {
    bool mine = false;
    std::vector<std::string> keys = d->GetKeys();
    const std::set<std::string> have(keys.begin(), keys.end());
    std::set<std::string> want;
    for (auto& e : v.dict) want.insert(e.first);
    SIM_CHECK(have == want && keys.size() == want.size(), "config:keys", "the dictionary has " + std::to_string(keys.size()) + " keys, configured were " + std::to_string(want.size()));
    keys.assign(want.begin(), want.end());
    for (size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[r.below(i)]);
    SIM_CHECK(!d->HasKey("never_configured"), "config:keys", "a key is reported that nobody configured");
    if (!v.array.empty() && r.chance(0.5)) Array(d, v);
    std::vector<std::pair<const V*, std::unique_ptr<LuaParameterDictionary>>> open;
    for (auto& key : keys) {
      const V& e = v.dict.at(key);
      SIM_CHECK(d->HasKey(key), "config:keys", "'" + key + "' is configured but not found");
      if (at++ == target) {
        sim::log_event("misused: " + key);
        if (misuse == 2) Wrong(d, key, e);
        misused = mine = true;
        if (misuse == 0) continue;
        Value(d, key, e);
      }
      if (e.kind == kTable && !misused && r.chance(0.3)) {
        // Several at once.
        open.emplace_back(&e, d->GetDictionary(key));
        continue;
      }
      Value(d, key, e);
    }
    while (!open.empty()) {
      const size_t i = r.below(open.size());
      Table(open[i].second.get(), *open[i].first);
      auto o = std::move(open[i]);
      open.erase(open.begin() + i);
      End(*o.first, &o.second);
    }
    if (!v.array.empty()) Array(d, v);
    if (mine && counted) due = true;
  }
  std::set<const V*> seen;
  void Array(LuaParameterDictionary* d, const V& v) {
    if (v.array[0].kind == kTable) {
      if (!seen.insert(&v).second) return;
      auto a = d->GetArrayValuesAsDictionaries();
      SIM_CHECK(a.size() == v.array.size(), "config:array", "an array has " + std::to_string(a.size()) + " values, configured were " + std::to_string(v.array.size()));
      for (size_t i = 0; i < a.size(); ++i) {
        Table(a[i].get(), v.array[i]);
        End(v.array[i], &a[i]);
      }
    } else if (v.array[0].kind == kString) {
      auto a = d->GetArrayValuesAsStrings();
      SIM_CHECK(a.size() == v.array.size(), "config:array", "an array has " + std::to_string(a.size()) + " values, configured were " + std::to_string(v.array.size()));
      for (size_t i = 0; i < a.size(); ++i) SIM_CHECK(a[i] == v.array[i].text, "config:array", "a value of an array differs from the configured one");
    } else {
      auto a = d->GetArrayValuesAsDoubles();
      SIM_CHECK(a.size() == v.array.size(), "config:array", "an array has " + std::to_string(a.size()) + " values, configured were " + std::to_string(v.array.size()));
      for (size_t i = 0; i < a.size(); ++i) SIM_CHECK(Equal(a[i], v.array[i].num), "config:array", "a value of an array differs from the configured one");
    }
  }
};

void Run() {
  auto& r = sim::workload();
  World w(r);
  const int nd = r.range(1, 3);
  for (int i = 0; i < nd; ++i) w.dirs.push_back("/simdisk/d" + std::to_string(i));
  sim::disk::Plan plan;
  const int kind = r.range(0, 5);
  w.decoys = kind != 3;
  switch (kind) {
    case 0: case 1: break;
    case 2: plan.short_read = 0.5; plan.eintr = 0.3; break;
    case 3: plan.open_fail = r.chance(0.5) ? 0.3 : 0.05; break;
    case 4: plan.read_error = r.chance(0.5) ? 0.3 : 0.05; plan.short_read = r.chance(0.5) ? 0.5 : 0; break;
    case 5: plan.read_error = 0.02; plan.eintr = 0.1; break;
  }
  for (const char* f : {"pose_graph.lua", "map_builder.lua", "trajectory_builder_2d.lua"}) {
    std::ifstream s(std::string(cartographer::common::kConfigurationFilesDirectory) + "/" + f);
    std::stringstream b;
    b << s.rdbuf();
    if (!b.str().empty()) w.shipped[f] = b.str();
  }
  int next = 1;
  std::vector<std::string> included;
  const V v = w.File(0, &next, r.range(1, 9), true, &included);
  sim::log_event(w.main_text);
  // What must make loading fail.
  std::string broken;
  const int which = r.range(0, 11);
  if (which == 0 && !included.empty() && sim::fault("file_missing", 1)) {
    broken = "a file is missing";
    const std::string f = included[r.below(included.size())];
    for (auto& d : w.dirs) sim::disk::remove(d + "/" + f);
  } else if (which == 1 && !included.empty() && sim::fault("included_twice", 1)) {
    broken = "a file is included twice";
    for (auto& d : w.dirs) {
      // The first directory that has it is the one that counts.
      if (!sim::disk::exists(d + "/main.lua")) continue;
      sim::disk::put(d + "/main.lua", "include \"" + included[r.below(included.size())] + "\"\n" + sim::disk::content(d + "/main.lua"));
      break;
    }
  } else if (which == 2 && sim::fault("damaged_file", 1)) {
    broken = "a file ends in the middle of a table";
    const std::string f = included.empty() || r.chance(0.3) ? "main.lua" : included[r.below(included.size())];
    for (auto& d : w.dirs) if (sim::disk::exists(d + "/" + f)) { sim::disk::put(d + "/" + f, sim::disk::content(d + "/" + f) + "\nG = { 1,\n"); break; }
  }
  const bool tool = r.chance(0.3);
  bool stop_expected = !broken.empty();
  Walk walk(r);
  sim::on_fatal([&](const std::string& m) {
    if (!stop_expected && !walk.misused && sim::disk::errors_injected() == 0) sim::fail("config:stopped", "the program stopped although disk, configuration and its use were fine: " + m);
    if (walk.misused && !walk.due && sim::disk::errors_injected() == 0) sim::fail("config:stopped", "the program stopped although misuse was not to be noticed here: " + m);
    sim::count(walk.misused ? "probe.misuse_noticed" : stop_expected ? "probe.broken_refused" : "probe.loud_stop");
  });
  if (tool) {
    std::vector<std::string> args = {"print_configuration", "--configuration_basename=main.lua", "--configuration_directories="};
    for (auto& d : w.dirs) args[2] += (&d == &w.dirs[0] ? "" : ",") + d;
    // Where to look.
    const V* at = &v;
    std::string path;
    while (r.chance(0.4)) {
      std::vector<std::string> keys;
      for (auto& e : at->dict) if (e.second.kind == kTable) keys.push_back(e.first);
      if (keys.empty()) break;
      const std::string key = keys[r.below(keys.size())];
      path += (path.empty() ? "" : ".") + key;
      at = &at->dict.at(key);
    }
    args.push_back("--subdictionary=" + path);
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(&a[0]);
    argv.push_back(nullptr);
    std::ostringstream out;
    auto* before = std::cout.rdbuf(out.rdbuf());
    sim::disk::set_plan(plan);
    const int rc = tool_main(static_cast<int>(args.size()), argv.data());
    const bool errors = sim::disk::errors_injected() > 0;
    sim::disk::set_plan(sim::disk::Plan());
    std::cout.rdbuf(before);
    SIM_CHECK(rc == 0 || errors || stop_expected, "config:refused", "the configuration was not printed although the disk and the configuration were fine");
    if (rc != 0) return;
    SIM_CHECK(!stop_expected, "config:broken-accepted", "the configuration was printed although " + broken);
    std::string text = out.str();
    if (!path.empty()) {
      SIM_CHECK(text.compare(0, path.size() + 3, path + " = ") == 0, "config:printed", "the printed dictionary is not the one asked for");
      text = "return " + text.substr(path.size() + 3);
    }
    auto d = LuaParameterDictionary::NonReferenceCounted(text, nullptr);
    walk.counted = false;
    walk.tolerance = 1e-6;
    walk.Table(d.get(), *at);
    sim::count("probe.printed");
    return;
  }
  sim::disk::set_plan(plan);
  auto resolver = absl::make_unique<ConfigurationFileResolver>(w.dirs);
  const std::string code = resolver->GetFileContentOrDie("main.lua");
  walk.counted = r.chance(0.8);
  std::unique_ptr<LuaParameterDictionary> d =
      walk.counted ? absl::make_unique<LuaParameterDictionary>(code, std::move(resolver))
                   : LuaParameterDictionary::NonReferenceCounted(code, std::move(resolver));
  const bool errors = sim::disk::errors_injected() > 0;
  sim::disk::set_plan(sim::disk::Plan());
  SIM_CHECK(!stop_expected, "config:broken-accepted", "the configuration was loaded although " + broken);
  if (errors) sim::count("probe.loaded_despite_errors");
  stop_expected = false;
  const int leaves = Leaves(v);
  if (leaves > 0 && r.chance(0.4) && sim::fault("misuse", 1)) {
    walk.target = r.below(leaves);
    walk.misuse = r.range(0, 2);
  }
  walk.Table(d.get(), v);
  if (walk.target >= 0) {
    walk.End(v, &d);
    return;
  }
  // Looking at it is not using it.
  auto again = LuaParameterDictionary::NonReferenceCounted("return " + d->ToString(), nullptr);
  Walk second(r);
  second.counted = false;
  second.tolerance = 1e-6;
  second.Table(again.get(), v);
  d.reset();
  sim::count("probe.loaded");
}
void Setup() {}
}  // namespace
const sim::Harness sim::kHarness = {"config", Setup, Run, false};
