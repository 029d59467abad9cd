// Driver: forks one process per simulated run from a warmed-up zygote.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.h"

#include <fcntl.h>
#include <glog/logging.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <sstream>

namespace sim {
namespace rt {

static std::vector<std::string> g_suppressed;  // "A|B" function pairs
bool race_suppressed(const std::string& key, const std::string&) {
  for (auto& s : g_suppressed)
    if (s == key) {
      std::string n = "known." + key;
      count(n.substr(0, 55).c_str());
      return true;
    }
  return false;
}

class Sink : public google::LogSink {
 public:
  void send(google::LogSeverity sev, const char* full, const char* base, int line, const google::LogMessageTime&,
            const char* msg, size_t len) override {
    if (sev == google::GLOG_FATAL) last = std::string(base) + ":" + std::to_string(line) + " " + std::string(msg, len);
  }
  std::string last;
};
static Sink* g_sink;
static void on_glog_failure() __attribute__((noreturn));
static void on_glog_failure() { fatal(g_sink->last); }

static std::string esc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

static Spec load_spec(const char* path) {
  Spec sp;
  std::ifstream in(path);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "seed") is >> sp.seed;
    else if (k == "mode") { std::string m; is >> m; sp.replay = m == "replay"; }
    else if (k == "param") { std::string n; int64_t v; is >> n >> v; sp.params[n] = v; }
    else if (k == "off") { int i; while (is >> i) sp.disabled_ops.push_back(i); }
    else if (k == "dev") { Dev d; int t, kd; is >> t >> d.ev >> kd >> d.value; d.tid = t; d.kind = kd; sp.dev.push_back(d); }
    else if (k == "fault") { FaultRec f; memset(&f, 0, sizeof f); std::string n; is >> n >> f.n >> f.value; snprintf(f.name, sizeof f.name, "%s", n.c_str()); sp.fault.push_back(f); }
  }
  return sp;
}

static void write_spec(FILE* o, const Spec& sp, const Shared* s) {
  fprintf(o, "mode replay\nseed %llu\n", (unsigned long long)sp.seed);
  for (auto& p : sp.params) fprintf(o, "param %s %lld\n", p.first.c_str(), (long long)p.second);
  for (int i : sp.disabled_ops) fprintf(o, "off %d\n", i);
  for (uint32_t i = 0; i < s->nfault; ++i)
    fprintf(o, "fault %s %u %llu\n", s->fault[i].name, s->fault[i].n, (unsigned long long)s->fault[i].value);
  for (uint32_t i = 0; i < s->ndev; ++i)
    fprintf(o, "dev %d %llu %d %u\n", s->dev[i].tid, (unsigned long long)s->dev[i].ev, s->dev[i].kind, s->dev[i].value);
}

static void write_result(FILE* o, const Spec& sp, const Shared* s, double ms) {
  fprintf(o, "{\"seed\":%llu,\"status\":%d,\"cls\":\"%s\",\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"steps\":%llu,\"events\":%llu,"
             "\"switches\":%llu,\"preempt\":%llu,\"vtime\":%lld,\"threads\":%u,\"ndev\":%u,\"nfault\":%u,\"max_op\":%u,\"overflow\":%d,\"ms\":%.2f",
          (unsigned long long)sp.seed, s->status, esc(s->cls).c_str(), (unsigned long long)s->hash, (unsigned long long)s->sched_hash,
          (unsigned long long)s->steps, (unsigned long long)s->accesses, (unsigned long long)s->switches, (unsigned long long)s->preemptions,
          (long long)s->vtime, s->nthreads, s->ndev, s->nfault, s->max_op, s->dev_overflow ? 1 : 0, ms);
  fprintf(o, ",\"cnt\":{");
  for (uint32_t i = 0; i < s->ncnt; ++i)
    fprintf(o, "%s\"%s\":%llu", i ? "," : "", esc(s->cnt[i].name).c_str(), (unsigned long long)s->cnt[i].v);
  fprintf(o, "}");
  if (s->status != kOk && s->status != kLoudStop) fprintf(o, ",\"msg\":\"%s\"", esc(s->msg).c_str());
  fprintf(o, "}\n");
  fflush(o);
}

static double wall() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// Runs one spec in a forked child. Returns the elapsed milliseconds.
static double run_one(const Spec& sp, Shared* s, double limit_s) {
  size_t head = offsetof(Shared, notes);
  memset(s, 0, head);
  double t0 = wall();
  pid_t pid = fork();
  if (pid == 0) run_child(sp, s);
  int st = 0;
  double dl = t0 + limit_s;
  // Wait, with a wall clock limit (SIGALRM interrupts waitpid).
  for (;;) {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    double left = dl - wall();
    if (left < 0.001) left = 0.001;
    it.it_value.tv_sec = (long)left;
    it.it_value.tv_usec = (long)((left - (long)left) * 1e6);
    setitimer(ITIMER_REAL, &it, nullptr);
    pid_t r = waitpid(pid, &st, 0);
    if (r == pid) break;
    if (wall() >= dl) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      if (s->status == kRunning) {
        s->status = kViolation;
        snprintf(s->cls, sizeof s->cls, "liveness:hang");
        snprintf(s->msg, sizeof s->msg, "the run was still busy after %.0f s of real time", limit_s);
      }
      break;
    }
  }
  struct itimerval off;
  memset(&off, 0, sizeof off);
  setitimer(ITIMER_REAL, &off, nullptr);
  if (s->status == kRunning) {
    s->status = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? kInternal : kViolation;
    if (WIFSIGNALED(st)) {
      snprintf(s->cls, sizeof s->cls, "crash:signal-%d", WTERMSIG(st));
      snprintf(s->msg, sizeof s->msg, "the process was killed by signal %d", WTERMSIG(st));
    } else {
      snprintf(s->cls, sizeof s->cls, "crash:exit-%d", WEXITSTATUS(st));
      snprintf(s->msg, sizeof s->msg, "the process exited by itself with code %d", WEXITSTATUS(st));
    }
  }
  return (wall() - t0) * 1e3;
}

static void on_alarm(int) {}

}  // namespace rt
}  // namespace sim

using namespace sim;
using namespace sim::rt;

int main(int argc, char** argv) {
  std::map<std::string, std::string> a;
  std::vector<std::pair<std::string, int64_t>> params;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i];
    if (k == "--param") {
      std::string v = argv[i + 1];
      size_t e = v.find('=');
      params.emplace_back(v.substr(0, e), atoll(v.c_str() + e + 1));
    } else if (k == "--suppress") {
      g_suppressed.push_back(argv[i + 1]);
    } else {
      a[k] = argv[i + 1];
    }
  }
  // One thread each for the numeric libraries; they read this at load time.
  if (!getenv("SIM_REEXEC")) {
    setenv("SIM_REEXEC", "1", 1);
    setenv("OMP_NUM_THREADS", "1", 1);
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    setenv("TZ", "UTC", 1);
    // Library addresses only influence the order of freed blocks, but the same
    // addresses are nicer to have where the system allows it.
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
    return 98;
  }
  if (a.count("--cpu")) {
    cpu_set_t c;
    CPU_ZERO(&c);
    CPU_SET(atoi(a["--cpu"].c_str()), &c);
    sched_setaffinity(0, sizeof c, &c);
  }
  // The code under test may print to stdout; results go to the real one.
  FILE* const results = fdopen(dup(1), "w");
  const int null = open("/dev/null", O_WRONLY);
  dup2(null, 1);
  close(null);
  init_process();
  FLAGS_minloglevel = 3;
  FLAGS_logtostderr = true;
  if (getenv("SIM_VERBOSE")) FLAGS_minloglevel = 0;
  google::InitGoogleLogging("sim");
  google::InstallFailureFunction(on_glog_failure);
  g_sink = new Sink;
  google::AddLogSink(g_sink);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_alarm;
  sigaction(SIGALRM, &sa, nullptr);
  Shared* s = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  S = s;
  pin_setup_heap();
  if (kHarness.setup) kHarness.setup();
  double limit = a.count("--limit") ? atof(a["--limit"].c_str()) : 60;

  std::string mode = a["--mode"];
  if (mode == "spec") {
    // Runs the spec files given on stdin, one path per line; writes a result
    // line for each and, when asked, the full replay file / notes.
    std::string line;
    FILE* o = results;
    while (std::getline(std::cin, line)) {
      std::istringstream is(line);
      std::string path, save;
      is >> path >> save;
      Spec sp = load_spec(path.c_str());
      sp.trace = a.count("--trace");
      double ms = run_one(sp, s, limit);
      if (!save.empty()) {
        FILE* f = fopen(save.c_str(), "w");
        write_spec(f, sp, s);
        if (sp.trace) fprintf(f, "# notes\n%.*s", (int)s->notes_len, s->notes);
        fclose(f);
      }
      write_result(o, sp, s, ms);
    }
    return 0;
  }
  // Batch: seeds first, first+stride, ... until count or time runs out.
  uint64_t first = strtoull(a["--first"].c_str(), nullptr, 10);
  uint64_t stride = a.count("--stride") ? strtoull(a["--stride"].c_str(), nullptr, 10) : 1;
  uint64_t cnt = a.count("--count") ? strtoull(a["--count"].c_str(), nullptr, 10) : 1;
  double tlimit = a.count("--time") ? atof(a["--time"].c_str()) : 1e9;
  int stop_after = a.count("--stop-after") ? atoi(a["--stop-after"].c_str()) : 1;
  FILE* o = a.count("--out") ? fopen(a["--out"].c_str(), "w") : results;
  double t0 = wall();
  int bad = 0;
  for (uint64_t i = 0; i < cnt && wall() - t0 < tlimit; ++i) {
    Spec sp;
    sp.seed = first + i * stride;
    for (auto& p : params) sp.params[p.first] = p.second;
    double ms = run_one(sp, s, limit);
    if (s->status == kViolation || s->status == kInternal) {
      if (a.count("--save")) {
        std::string p = a["--save"] + "." + std::to_string(sp.seed);
        FILE* f = fopen(p.c_str(), "w");
        write_spec(f, sp, s);
        fclose(f);
      }
      ++bad;
    }
    write_result(o, sp, s, ms);
    if (bad >= stop_after) break;
  }
  return 0;
}
