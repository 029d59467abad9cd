// Deterministic simulation runtime: scheduler, virtual time, synchronisation
// primitives, allocator, race oracle. Compiled without instrumentation.
#include "rt.h"
#include "sim.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <math.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <typeinfo>

#include "internal.h"

namespace sim {
namespace rt {

// ---------------------------------------------------------------------------
// Fixed address layout.
constexpr uintptr_t kHeapBase = 0x100000000000ull;
constexpr uintptr_t kHeapSize = 16ull << 30;
constexpr uintptr_t kStackBase = 0x140000000000ull;
constexpr uintptr_t kStackSize = 8ull << 20;
constexpr uintptr_t kStackRegion = kStackSize * kMaxThreads;
constexpr uintptr_t kStaticBase = 0x400000;
constexpr uintptr_t kStaticSize = (256ull << 20);
constexpr uintptr_t kShadowHeap = 0x200000000000ull;    // 4x heap
constexpr uintptr_t kShadowStack = 0x280000000000ull;   // 4x stacks
constexpr uintptr_t kShadowStatic = 0x2a0000000000ull;  // 4x static

Global G;
__thread Thread* self = nullptr;
Shared* S = nullptr;
static Spec g_spec;

static long raw_futex(int* addr, int op, int val) {
  return syscall(SYS_futex, addr, op, val, nullptr, nullptr, 0);
}
void park(int* f) {
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) raw_futex(f, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
void unpark(int* f) {
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  raw_futex(f, FUTEX_WAKE_PRIVATE, 1);
}

static void* must_map(uintptr_t at, size_t size) {
  void* p = mmap(reinterpret_cast<void*>(at), size, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(at)) {
    const char m[] = "sim: cannot map fixed region\n";
    (void)!syscall(SYS_write, 2, m, sizeof(m) - 1);
    syscall(SYS_exit_group, 97);
  }
  madvise(p, size, MADV_NOHUGEPAGE);
  return p;
}

[[noreturn]] void exit_now() {
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}

// ---------------------------------------------------------------------------
// Allocator: size classes over one region at a fixed address; first-in
// first-out reuse. Addresses are a function of the call sequence only.
struct Hdr {
  uint32_t cls;
  uint32_t magic;   // kLive / kFree
  uint64_t size;    // requested size; for aligned blocks see 'kAligned'
};
constexpr uint32_t kLive = 0x5a11a110, kFree = 0xdeadf4ee, kAligned = 0xa119a119;
struct FreeNode { Hdr h; FreeNode* next; };
constexpr int kNumCls = 64 + 4 * 24;
// Two arenas: one for what happens outside of the simulation (set-up, driver)
// and one, pristine at the start of each run, for the simulated threads.
struct Arena {
  FreeNode* head[kNumCls];
  FreeNode* tail[kNumCls];
  uintptr_t bump, end;
};
static Arena g_arena[2];
constexpr uintptr_t kArenaSplit = kHeapBase + (4ull << 30);
static int g_alloc_lock = 0;

static inline int cls_of(size_t n) {  // n payload bytes
  if (n <= 1024) return n == 0 ? 0 : static_cast<int>((n - 1) / 16);
  int lg = 63 - __builtin_clzll(n - 1);          // n-1 in [2^lg, 2^(lg+1))
  int sub = static_cast<int>(((n - 1) >> (lg - 2)) & 3);
  return 64 + (lg - 10) * 4 + sub;
}
static inline size_t cls_size(int c) {
  if (c < 64) return (c + 1) * 16;
  int lg = 10 + (c - 64) / 4, sub = (c - 64) % 4;
  return (size_t(1) << lg) + (size_t(sub + 1) << (lg - 2));
}
static void alloc_lock() {
  while (__atomic_exchange_n(&g_alloc_lock, 1, __ATOMIC_ACQUIRE)) sched_yield();
}
static void alloc_unlock() { __atomic_store_n(&g_alloc_lock, 0, __ATOMIC_RELEASE); }

static size_t g_alloc_limit = ~size_t{0};
static double g_alloc_fail = 0;
static inline uint64_t* shadow_of(uintptr_t a) {
  if (a - kHeapBase < kHeapSize) return reinterpret_cast<uint64_t*>(kShadowHeap + ((a - kHeapBase) >> 3) * 32);
  if (a - kStackBase < kStackRegion) return reinterpret_cast<uint64_t*>(kShadowStack + ((a - kStackBase) >> 3) * 32);
  if (a - kStaticBase < kStaticSize) return reinterpret_cast<uint64_t*>(kShadowStatic + ((a - kStaticBase) >> 3) * 32);
  return nullptr;
}
constexpr uint64_t kFreedMark = ~0ull;

static void shadow_clear(uintptr_t a, size_t n) {
  uint64_t* s = shadow_of(a);
  if (!s) return;
  size_t bytes = ((n + 7) >> 3) * 32;
  uintptr_t lo = reinterpret_cast<uintptr_t>(s), hi = lo + bytes;
  if (bytes > (1u << 18)) {
    uintptr_t plo = (lo + 4095) & ~4095ull, phi = hi & ~4095ull;
    memset(reinterpret_cast<void*>(lo), 0, plo - lo);
    madvise(reinterpret_cast<void*>(plo), phi - plo, MADV_DONTNEED);
    memset(reinterpret_cast<void*>(phi), 0, hi - phi);
  } else {
    memset(s, 0, bytes);
  }
}
static void shadow_mark_freed(uintptr_t a, size_t n) {
  uint64_t* s = shadow_of(a);
  if (!s || n > (1u << 16)) return;
  for (size_t i = 0; i < (n >> 3); ++i) s[i * 4] = kFreedMark;
}

void* do_malloc(size_t n) {
  if (g_alloc_fail > 0 && self && !self->quiet && sim::fault("allocation_fails", g_alloc_fail)) {
    errno = ENOMEM;
    return nullptr;
  }
  if (n > kHeapSize / 2 || (self && n > g_alloc_limit)) {
    if (self) sim::count("fault.allocation_refused");
    errno = ENOMEM;
    return nullptr;
  }
  int c = cls_of(n);
  size_t cs = cls_size(c);
  alloc_lock();
  if (!g_arena[0].bump) {
    must_map(kHeapBase, kHeapSize);
    g_arena[0].bump = kHeapBase + 4096;
    g_arena[0].end = kArenaSplit;
    g_arena[1].bump = kArenaSplit + 4096;
    g_arena[1].end = kHeapBase + kHeapSize;
  }
  Arena& A = g_arena[self ? 1 : 0];
  FreeNode* f = A.head[c];
  Hdr* h;
  bool reused = false;
  if (f) {
    A.head[c] = f->next;
    if (!f->next) A.tail[c] = nullptr;
    h = &f->h;
    reused = true;
  } else {
    if (A.bump + cs + sizeof(Hdr) > A.end) {
      alloc_unlock();
      errno = ENOMEM;
      return nullptr;
    }
    h = reinterpret_cast<Hdr*>(A.bump);
    A.bump += cs + sizeof(Hdr);
  }
  alloc_unlock();
  h->cls = c;
  h->magic = kLive;
  h->size = n;
  void* p = h + 1;
  if (reused && G.race && self) shadow_clear(reinterpret_cast<uintptr_t>(p), cs);
  if (self && G.fill) memset(p, 0xCB, n < 4096 ? n : 4096);
  return p;
}
static Hdr* hdr_of(void* p) {
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  if (h->magic == kAligned) return reinterpret_cast<Hdr*>(h->size) - 1;
  return h;
}
void do_free(void* p) {
  if (!p) return;
  if (reinterpret_cast<uintptr_t>(p) - kHeapBase >= kHeapSize) return;  // not ours
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  if (h->magic == kAligned) h = reinterpret_cast<Hdr*>(h->size) - 1;
  if (h->magic != kLive) {
    if (self) fail("memory:invalid-free", "double or invalid free\n" + stack_string());
    return;
  }
  h->magic = kFree;
  size_t cs = cls_size(h->cls);
  uintptr_t a = reinterpret_cast<uintptr_t>(h + 1);
  if (self && G.race) shadow_mark_freed(a, cs);
  if (self && G.fill) memset(h + 1, 0xDB, h->size < 1024 ? h->size : 1024);
  FreeNode* f = reinterpret_cast<FreeNode*>(h);
  f->next = nullptr;
  alloc_lock();
  Arena& A = g_arena[a >= kArenaSplit ? 1 : 0];
  if (A.tail[h->cls]) A.tail[h->cls]->next = f; else A.head[h->cls] = f;
  A.tail[h->cls] = f;
  alloc_unlock();
}
size_t usable(void* p) {
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  if (h->magic == kAligned) {
    Hdr* r = hdr_of(p);
    return reinterpret_cast<uintptr_t>(r + 1) + r->size - reinterpret_cast<uintptr_t>(p);
  }
  return h->size;
}
void* do_memalign(size_t al, size_t n) {
  if (al <= 16) return do_malloc(n);
  char* p = static_cast<char*>(do_malloc(n + al + sizeof(Hdr)));
  if (!p) return nullptr;
  uintptr_t a = (reinterpret_cast<uintptr_t>(p) + sizeof(Hdr) + al - 1) & ~(al - 1);
  if (a == reinterpret_cast<uintptr_t>(p)) return p;
  Hdr* h = reinterpret_cast<Hdr*>(a) - 1;
  h->magic = kAligned;
  h->cls = 0;
  h->size = reinterpret_cast<uint64_t>(p);
  return reinterpret_cast<void*>(a);
}

// ---------------------------------------------------------------------------
// Symbolisation from our own symbol table (function level).
struct Sym { uintptr_t lo, hi; const char* name; };
static Sym* g_syms = nullptr;
static size_t g_nsyms = 0;
static void load_syms() {
  if (g_syms) return;
  int fd = syscall(SYS_openat, AT_FDCWD, "/proc/self/exe", O_RDONLY, 0);
  if (fd < 0) return;
  off_t len = syscall(SYS_lseek, fd, 0, SEEK_END);
  char* m = static_cast<char*>(mmap(nullptr, len, PROT_READ, MAP_PRIVATE, fd, 0));
  syscall(SYS_close, fd);
  if (m == MAP_FAILED) return;
  Elf64_Ehdr* eh = reinterpret_cast<Elf64_Ehdr*>(m);
  Elf64_Shdr* sh = reinterpret_cast<Elf64_Shdr*>(m + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; ++i) {
    if (sh[i].sh_type != SHT_SYMTAB) continue;
    Elf64_Sym* st = reinterpret_cast<Elf64_Sym*>(m + sh[i].sh_offset);
    const char* str = m + sh[sh[i].sh_link].sh_offset;
    size_t n = sh[i].sh_size / sizeof(Elf64_Sym);
    g_syms = static_cast<Sym*>(mmap(nullptr, n * sizeof(Sym) + 4096, PROT_READ | PROT_WRITE,
                                    MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    for (size_t k = 0; k < n; ++k)
      if (ELF64_ST_TYPE(st[k].st_info) == STT_FUNC && st[k].st_size)
        g_syms[g_nsyms++] = {st[k].st_value, st[k].st_value + st[k].st_size, str + st[k].st_name};
  }
}
std::string symbolize(uintptr_t pc) {
  load_syms();
  const Sym* best = nullptr;
  for (size_t i = 0; i < g_nsyms; ++i)
    if (pc >= g_syms[i].lo && pc < g_syms[i].hi) { best = &g_syms[i]; break; }
  if (!best) return "?";
  int st = 0;
  char* d = abi::__cxa_demangle(best->name, nullptr, nullptr, &st);
  std::string r = d ? d : best->name;
  return r;
}
// The bare function name: no argument list, no template arguments, no return type.
std::string short_name(uintptr_t pc) {
  std::string s = symbolize(pc);
  std::string out;
  int depth = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s.compare(i, 10, "(anonymous") == 0) {
      size_t e = s.find(')', i);
      if (e == std::string::npos) break;
      if (!depth) out += "(anon)";
      i = e;
      continue;
    }
    char c = s[i];
    if (c == '<' && !(out.size() >= 8 && out.compare(out.size() - 8, 8, "operator") == 0)) { ++depth; continue; }
    if (c == '>' && depth > 0) { --depth; continue; }
    if (depth) continue;
    if (c == '(') {
      // lambda or argument list: keep lambda markers out of the name
      break;
    }
    out += c;
  }
  size_t sp = out.rfind(' ');
  if (sp != std::string::npos && out.find("operator") == std::string::npos) out = out.substr(sp + 1);
  const std::string ns = "cartographer::";
  if (out.compare(0, ns.size(), ns) == 0) out = out.substr(ns.size());
  return out;
}
std::string stack_string() {
  if (!self) return "";
  std::string r = "  thread " + std::to_string(self->id) + " (" + self->name + ") stack:\n";
  int n = 0;
  for (int i = static_cast<int>(self->depth) - 1; i >= 0 && n < 24; --i) {
    if (i >= kMaxCallStack) continue;
    std::string s = symbolize(self->cs[i]);
    if (s.size() > 160) s = s.substr(0, 157) + "...";
    r += "    called from " + s + "\n";
    ++n;
  }
  return r;
}

// ---------------------------------------------------------------------------
// Event hash.
static inline void mix(uint64_t v) {
  G.hash = (G.hash ^ v) * 0x9E3779B97F4A7C15ull;
  G.hash ^= G.hash >> 29;
}
static inline void mix_sched(uint64_t v) {
  G.sched_hash = (G.sched_hash ^ v) * 0xD6E8FEB86659FD93ull;
  G.sched_hash ^= G.sched_hash >> 32;
}

void publish() {
  S->hash = G.hash;
  S->sched_hash = G.sched_hash;
  S->steps = G.steps;
  uint64_t acc = 0;
  for (int i = 0; i < G.nthreads; ++i) acc += G.threads[i].ev;
  S->accesses = acc;
  S->switches = G.switches;
  S->preemptions = G.preemptions;
  S->vtime = G.now - kTimeBase;
  S->nthreads = G.nthreads;
}

[[noreturn]] void finish_run(int status) {
  publish();
  S->status = status;
  exit_now();
}

// ---------------------------------------------------------------------------
// Decisions.
static void record_dev(int tid, uint64_t ev, int kind, uint32_t value) {
  if (S->ndev >= kMaxDev) { S->dev_overflow = true; return; }
  Dev& d = S->dev[S->ndev++];
  d.ev = ev; d.tid = tid; d.kind = kind; d.value = value;
}

// Next deviation of this thread in replay mode, if it is at event 'ev'.
static bool replay_dev(Thread* t, int kind, uint32_t* value) {
  while (t->rpos < t->rdev.size() && t->rdev[t->rpos].ev < t->ev) ++t->rpos;
  if (t->rpos < t->rdev.size() && t->rdev[t->rpos].ev == t->ev && t->rdev[t->rpos].kind == kind) {
    *value = t->rdev[t->rpos].value;
    ++t->rpos;
    return true;
  }
  return false;
}

static void set_next_preempt(Thread* t) {
  const uint64_t cap = t->ev + (1u << 20);
  if (G.replay) {
    while (t->rpos < t->rdev.size() && t->rdev[t->rpos].ev <= t->ev) ++t->rpos;
    t->next_ev = t->rpos < t->rdev.size() && t->rdev[t->rpos].ev < cap ? t->rdev[t->rpos].ev : cap;
    return;
  }
  if (G.strat.mean_gap <= 0) { t->next_ev = cap; return; }
  double u = (G.srng.next() >> 11) * (1.0 / 9007199254740992.0);
  double gap = -log(1.0 - u) * G.strat.mean_gap;
  uint64_t n = t->ev + 1 + static_cast<uint64_t>(gap);
  t->next_ev = n < cap ? n : cap;
}

void advance_clock_to(int64_t t) {
  if (t > G.now) G.now = t;
  for (int i = 0; i < G.nthreads; ++i) {
    Thread& x = G.threads[i];
    if (x.st == Thread::BLOCKED && x.deadline >= 0 && x.deadline <= G.now) {
      x.st = Thread::READY;
      x.timed_out = true;
      x.deadline = -1;
    }
  }
}

// The linker may pick instrumented instances of library templates for the
// runtime as well, so reports are put together with instrumentation off.
static void report_deadlock() {
  if (self) ++self->quiet;
  std::string m = "no thread can run:\n";
  for (int i = 0; i < G.nthreads; ++i) {
    Thread& x = G.threads[i];
    if (x.st != Thread::BLOCKED) continue;
    m += "  thread " + std::to_string(i) + " (" + x.name + ") waits in " + x.wait_what;
    for (int k = static_cast<int>(x.depth) - 1, n = 0; k >= 0 && n < 6; --k, ++n)
      if (k < kMaxCallStack) m += std::string(n ? " <- " : ": ") + short_name(x.cs[k]);
    m += "\n";
  }
  fail("liveness:deadlock", m);
}

// Chooses who runs next. 'cur' is the thread giving up or offering control.
static Thread* pick(Thread* cur, bool voluntary) {
  int ready[kMaxThreads], nr = 0, timed[kMaxThreads], nt = 0;
  for (int i = 0; i < G.nthreads; ++i) {
    Thread& x = G.threads[i];
    if (x.st == Thread::READY) ready[nr++] = i;
    else if (x.st == Thread::BLOCKED && x.deadline >= 0) timed[nt++] = i;
  }
  if (nr == 0 && nt == 0) { report_deadlock(); }
  int dflt;
  if (cur->st == Thread::READY && !voluntary) {
    dflt = cur->id;
  } else if (nr > 0) {
    dflt = ready[0];
    if (cur->st == Thread::READY) {  // yield: next in cyclic order
      for (int i = 0; i < nr; ++i) if (ready[i] > cur->id) { dflt = ready[i]; break; }
    }
  } else {
    dflt = timed[0];
    for (int i = 1; i < nt; ++i)
      if (G.threads[timed[i]].deadline < G.threads[dflt].deadline) dflt = timed[i];
  }
  int choice = dflt;
  if (G.replay) {
    uint32_t v;
    if (replay_dev(cur, 0, &v) && static_cast<int>(v) < G.nthreads) {
      Thread& x = G.threads[v];
      if (x.st == Thread::READY || (x.st == Thread::BLOCKED && x.deadline >= 0)) choice = v;
    }
  } else if (nr + nt > 1 || nr == 0) {
    Strategy& st = G.strat;
    if (nt > 0 && nr > 0 && st.p_timer > 0 && G.srng.chance(st.p_timer)) {
      // Let time pass although somebody could run: slow threads.
      choice = timed[G.srng.below(nt)];
    } else if (nr == 0) {
      choice = dflt;
    } else if (st.kind == Strategy::PCT) {
      if (st.n_change > 0) {
        for (int i = 0; i < st.n_change; ++i)
          if (st.change_at[i] == G.steps) cur->prio = st.low_prio--;
      }
      choice = ready[0];
      for (int i = 1; i < nr; ++i)
        if (G.threads[ready[i]].prio > G.threads[choice].prio) choice = ready[i];
      if (voluntary && choice == cur->id && nr > 1) { cur->prio = st.low_prio--; 
        choice = -1;
        for (int i = 0; i < nr; ++i) if (ready[i] != cur->id && (choice < 0 || G.threads[ready[i]].prio > G.threads[choice].prio)) choice = ready[i];
      }
    } else {
      int cand[kMaxThreads], nc = 0;
      if (st.kind == Strategy::STALL) {
        if (G.steps >= st.stall_until) {
          st.stall_mask = 0;
          if (G.srng.chance(0.7)) st.stall_mask = 1ull << G.srng.below(G.nthreads);
          if (G.srng.chance(0.3)) st.stall_mask |= 1ull << G.srng.below(G.nthreads);
          st.stall_until = G.steps + 1 + G.srng.below(st.stall_len);
          if (st.stall_mask) count("fault.stall_window");
        }
        for (int i = 0; i < nr; ++i) if (!(st.stall_mask >> ready[i] & 1)) cand[nc++] = ready[i];
      }
      if (nc == 0) { for (int i = 0; i < nr; ++i) cand[nc++] = ready[i]; }
      bool cur_ok = cur->st == Thread::READY && !voluntary;
      if (cur_ok) { cur_ok = false; for (int i = 0; i < nc; ++i) cur_ok |= cand[i] == cur->id; }
      if (cur_ok && !G.srng.chance(st.p_switch)) choice = cur->id;
      else choice = cand[G.srng.below(nc)];
    }
  }
  if (choice != dflt) record_dev(cur->id, cur->ev, 0, choice);
  Thread& x = G.threads[choice];
  if (x.st == Thread::BLOCKED) advance_clock_to(x.deadline);
  return &x;
}

static void switch_to(Thread* next) {
  Thread* me = self;
  if (next == me) return;
  ++G.switches;
  mix_sched(me->id * 64 + next->id);
  if (G.trace) {
    ++me->quiet;
    std::string at = me->depth > 0 && me->depth <= kMaxCallStack ? short_name(me->cs[me->depth - 1]) : "";
    note(std::string("switch to t") + std::to_string(next->id) + " (" + next->name + "); t" + std::to_string(me->id) +
         (me->st == Thread::BLOCKED ? std::string(" waits in ") + me->wait_what : std::string(" preempted")) + " at event " +
         std::to_string(me->ev) + (at.empty() ? "" : ", called from " + at));
    --me->quiet;
  }
  G.cur = next;
  unpark(&next->go);
  park(&me->go);
}

static void budget(Thread* t) {
  if (++G.steps > G.step_budget) {
    ++t->quiet;
    fail("liveness:step-budget", "the run did not come to an end within " + std::to_string(G.step_budget) +
         " scheduling steps\n" + stack_string());
  }
}

enum Kind : uint64_t { K_LOCK = 1, K_UNLOCK, K_RDLOCK, K_AWAIT, K_CWAIT, K_SIGNAL, K_BCAST, K_CREATE, K_JOIN, K_EXIT,
  K_YIELD, K_SLEEP, K_BLOCK, K_MEM, K_ATOMIC, K_USER, K_ONCE, K_IO };

// A point at which the running thread may be preempted.
static void point(Kind k, const void* obj) {
  Thread* t = self;
  if (t->quiet) return;
  ++t->ev;
  budget(t);
  mix(k * 1315423911u + t->id);
  // Addresses in shared libraries are not repeatable; ours are.
  uintptr_t o = reinterpret_cast<uintptr_t>(obj);
  if (o - kHeapBase < kHeapSize || o - kStackBase < kStackRegion || o - kStaticBase < kStaticSize) mix(o);
  mix_sched(k * 64 + t->id);
  Thread* n = pick(t, k == K_YIELD);
  if (n != t) { ++G.preemptions; switch_to(n); }
  if (t->next_ev <= t->ev) set_next_preempt(t);
}

// Blocks the running thread (state already set up by the caller).
static void block(const void* obj, const char* what, int64_t deadline) {
  Thread* t = self;
  t->st = Thread::BLOCKED;
  t->wait_obj = obj;
  t->wait_what = what;
  t->deadline = deadline;
  t->timed_out = false;
  ++t->ev;
  budget(t);
  mix(K_BLOCK * 1315423911u + t->id);
  int q = t->quiet;
  Thread* n = pick(t, false);
  if (n == t) { t->st = Thread::READY; }
  else switch_to(n);
  t->quiet = q;
  t->wait_obj = nullptr;
  t->deadline = -1;
  if (t->next_ev <= t->ev) set_next_preempt(t);
}

void mem_preempt(Thread* t) {
  // t->ev has reached t->next_ev
  if (t->ev > G.access_budget && ++t->quiet)
    fail("liveness:access-budget", "a thread performed " + std::to_string(t->ev) + " accesses\n" + stack_string());
  if (t->quiet) { set_next_preempt(t); return; }
  Thread* n = t;
  if (G.replay) {
    n = pick(t, false);
  } else if (G.strat.mean_gap > 0) {
    int ready[kMaxThreads], nr = 0;
    for (int i = 0; i < G.nthreads; ++i)
      if (G.threads[i].st == Thread::READY) ready[nr++] = i;
    int c = ready[G.srng.below(nr)];
    if (c != t->id) { record_dev(t->id, t->ev, 0, c); n = &G.threads[c]; }
  }
  if (n != t) {
    budget(t);
    ++G.preemptions;
    ++G.mem_preemptions;
    mix(K_MEM * 1315423911u + t->id);
    mix(t->ev);
    switch_to(n);
  }
  set_next_preempt(t);
}

static void wake(Thread* x) {
  x->st = Thread::READY;
  x->deadline = -1;
}

// ---------------------------------------------------------------------------
// Vector clocks.
static inline void vc_join(uint32_t* a, const uint32_t* b) {
  for (int i = 0; i < G.nthreads; ++i) if (b[i] > a[i]) a[i] = b[i];
}
static inline void vc_release(Thread* t, uint32_t* dst) {
  vc_join(dst, t->vc);
  ++t->vc[t->id];
}

// ---------------------------------------------------------------------------
// Synchronisation objects, keyed by address.
static Sync* g_sync;            // open addressing
constexpr size_t kSyncCap = 1u << 17;
Sync* sync_of(const void* p, int space) {
  uintptr_t key = reinterpret_cast<uintptr_t>(p) * 4 + space + 1;
  size_t h = (key * 0x9E3779B97F4A7C15ull) >> 47;
  for (;;) {
    Sync& s = g_sync[h & (kSyncCap - 1)];
    if (s.key == key) return &s;
    if (s.key == 0) {
      s.key = key;
      if (++G.nsync > kSyncCap * 3 / 4) { snprintf(S->msg, sizeof S->msg, "too many sync objects"); finish_run(kInternal); }
      return &s;
    }
    ++h;
  }
}
enum { SP_MUTEX = 0, SP_COND = 1, SP_ATOMIC = 2, SP_ONCE = 3 };

static void wake_mutex_waiters(const void* m) {
  for (int i = 0; i < G.nthreads; ++i) {
    Thread& x = G.threads[i];
    if (x.st == Thread::BLOCKED && x.wait_obj == m && !x.await_pred) wake(&x);
  }
}
// As absl does: the thread releasing the mutex evaluates the conditions of the
// waiters and wakes those that hold. The mutex is still held here.
static void eval_awaiters(const void* m) {
  for (int i = 0; i < G.nthreads; ++i) {
    Thread& x = G.threads[i];
    if (&x != self && x.st == Thread::BLOCKED && x.wait_obj == m && x.await_pred) {
      ++self->quiet_switch;
      bool ok = x.await_pred(x.await_arg);
      --self->quiet_switch;
      if (ok && x.st == Thread::BLOCKED) wake(&x);
    }
  }
}

static void acquire_excl(Sync* s, const void* m, const char* what) {
  Thread* t = self;
  while (s->owner != 0 || s->readers != 0) {
    if (s->owner == t->id + 1) fail("liveness:self-deadlock", "thread locks a mutex it already holds\n" + stack_string());
    block(m, what, -1);
  }
  s->owner = t->id + 1;
  if (G.race) { vc_join(t->vc, s->vc); vc_join(t->vc, s->rvc); }
  ++t->held;
}

static void release_excl(Sync* s, const void* m) {
  Thread* t = self;
  eval_awaiters(m);
  if (G.race) vc_release(t, s->vc);
  s->owner = 0;
  --t->held;
  wake_mutex_waiters(m);
}
static void acquire_shared(Sync* s, const void* m, const char* what) {
  Thread* t = self;
  while (s->owner != 0) {
    if (s->owner == t->id + 1) fail("liveness:self-deadlock", "thread locks a mutex it already holds\n" + stack_string());
    block(m, what, -1);
  }
  ++s->readers;
  s->rmask |= 1ull << t->id;
  if (G.race) vc_join(t->vc, s->vc);
}
static void release_shared(Sync* s, const void* m) {
  Thread* t = self;
  if (G.race) vc_release(t, s->rvc);
  if (s->readers == 1) { eval_awaiters(m); }
  --s->readers;
  s->rmask &= ~(1ull << t->id);
  if (s->readers == 0) wake_mutex_waiters(m);
}

}  // namespace rt

using namespace rt;

namespace prim {
bool in_sim() { return self != nullptr; }
void mutex_lock(const void* m) {
  if (!self) return;
  point(K_LOCK, m);
  acquire_excl(sync_of(m, SP_MUTEX), m, "lock");
}
bool mutex_trylock(const void* m) {
  if (!self) return true;
  point(K_LOCK, m);
  Sync* s = sync_of(m, SP_MUTEX);
  if (s->owner || s->readers) return false;
  acquire_excl(s, m, "trylock");
  return true;
}
void mutex_unlock(const void* m) {
  if (!self) return;
  Sync* s = sync_of(m, SP_MUTEX);
  if (s->owner != self->id + 1) fail("sync:unlock-not-held", "unlock of a mutex that the thread does not hold\n" + stack_string());
  release_excl(s, m);
  point(K_UNLOCK, m);
}
void mutex_rdlock(const void* m) {
  if (!self) return;
  point(K_RDLOCK, m);
  acquire_shared(sync_of(m, SP_MUTEX), m, "rdlock");
}
bool mutex_tryrdlock(const void* m) {
  if (!self) return true;
  point(K_RDLOCK, m);
  Sync* s = sync_of(m, SP_MUTEX);
  if (s->owner) return false;
  acquire_shared(s, m, "tryrdlock");
  return true;
}
void mutex_rdunlock(const void* m) {
  if (!self) return;
  Sync* s = sync_of(m, SP_MUTEX);
  if (s->readers <= 0) fail("sync:unlock-not-held", "reader unlock of a mutex that is not read-held\n" + stack_string());
  release_shared(s, m);
  point(K_UNLOCK, m);
}
void mutex_destroy(const void* m) {
  if (!self) return;
  Sync* s = sync_of(m, SP_MUTEX);
  if (s->owner || s->readers) fail("sync:destroy-held", "a mutex is destroyed while it is held\n" + stack_string());
  for (int i = 0; i < G.nthreads; ++i)
    if (G.threads[i].st == Thread::BLOCKED && G.threads[i].wait_obj == m)
      fail("sync:destroy-waited", "a mutex is destroyed while a thread waits on it\n" + stack_string());
}
bool mutex_held(const void* m) { return !self || sync_of(m, SP_MUTEX)->owner == self->id + 1; }
bool mutex_reader_held(const void* m) {
  if (!self) return true;
  Sync* s = sync_of(m, SP_MUTEX);
  return s->owner == self->id + 1 || (s->rmask >> self->id & 1);
}
bool await(const void* m, bool (*pred)(const void*), const void* arg, int64_t deadline, bool shared) {
  if (!self) {
    if (pred(arg)) return true;
    fprintf(stderr, "sim: await outside of the simulation would block\n");
    abort();
  }
  Thread* t = self;
  Sync* s = sync_of(m, SP_MUTEX);
  bool ok = pred(arg);
  while (!ok) {
    if (deadline >= 0 && G.now >= deadline) return false;
    if (shared) release_shared(s, m); else release_excl(s, m);
    t->await_pred = pred;
    t->await_arg = arg;
    block(m, "await", deadline);
    bool to = t->timed_out;
    t->await_pred = nullptr;
    if (shared) acquire_shared(s, m, "await-relock"); else acquire_excl(s, m, "await-relock");
    ok = pred(arg);
    if (!ok && to) return false;
  }
  return true;
}
static void cond_block(const void* c, const void* m, int64_t deadline) {
  Thread* t = self;
  Sync* s = sync_of(m, SP_MUTEX);
  if (s->owner != t->id + 1) fail("sync:wait-not-held", "condition wait without holding the mutex\n" + stack_string());
  if (fault("spurious_wakeup", G.strat.p_spurious)) {
    int rec = s->rec; s->rec = 0;
    release_excl(s, m);
    point(K_CWAIT, c);
    acquire_excl(s, m, "cond-relock");
    s->rec = rec;
    t->timed_out = false;
    return;
  }
  t->wait_seq = ++G.wait_seq;
  int rec = s->rec; s->rec = 0;
  release_excl(s, m);
  block(c, "cond_wait", deadline);
  bool to = t->timed_out;
  acquire_excl(s, m, "cond-relock");
  s->rec = rec;
  t->timed_out = to;
}
void cond_wait(const void* c, const void* m) { if (self) cond_block(c, m, -1); }
bool cond_timedwait(const void* c, const void* m, int64_t deadline) {
  if (!self) return false;
  if (deadline <= G.now) {
    Sync* s = sync_of(m, SP_MUTEX);
    release_excl(s, m);
    point(K_CWAIT, c);
    acquire_excl(s, m, "cond-relock");
    return false;
  }
  cond_block(c, m, deadline);
  return !self->timed_out;
}
void cond_signal(const void* c) {
  if (!self) return;
  Thread* t = self;
  Thread* w[kMaxThreads]; int n = 0;
  for (int i = 0; i < G.nthreads; ++i) {
    Thread& x = G.threads[i];
    if (x.st == Thread::BLOCKED && x.wait_obj == c && !x.await_pred) w[n++] = &x;
  }
  if (n > 0) {
    int d = 0;
    for (int i = 1; i < n; ++i) if (w[i]->wait_seq < w[d]->wait_seq) d = i;
    int ch = d;
    ++t->ev;
    if (G.replay) { uint32_t v; if (replay_dev(t, 1, &v) && static_cast<int>(v) < n) ch = v; }
    else if (n > 1) ch = G.srng.below(n);
    if (ch != d) record_dev(t->id, t->ev, 1, ch);
    wake(w[ch]);
  }
  point(K_SIGNAL, c);
}
void cond_broadcast(const void* c) {
  if (!self) return;
  for (int i = 0; i < G.nthreads; ++i) {
    Thread& x = G.threads[i];
    if (x.st == Thread::BLOCKED && x.wait_obj == c && !x.await_pred) wake(&x);
  }
  point(K_BCAST, c);
}
}  // namespace prim

namespace rt {

// ---------------------------------------------------------------------------
// Threads.
static void thread_finish_and_handoff(Thread* t) {
  // Runs on the finishing thread. Control goes to the reaper, which waits for
  // the real thread to be gone before the next one continues.
  for (int i = 0; i < G.nthreads; ++i) {
    Thread& x = G.threads[i];
    if (x.st == Thread::BLOCKED && x.wait_obj == t) wake(&x);
  }
  t->st = Thread::DONE;
  ++t->ev;
  mix(K_EXIT * 1315423911u + t->id);
  ++t->vc[t->id];
  Thread* n = pick(t, false);
  G.reap = t;
  G.reap_next = n;
  ++G.switches;
  self = nullptr;
  unpark(&G.runner_go);
}

static void* trampoline(void* p) {
  Thread* t = static_cast<Thread*>(p);
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = t->altstack;
  ss.ss_size = sizeof t->altstack;
  sigaltstack(&ss, nullptr);
  unpark(&t->started);
  park(&t->go);
  self = t;
  t->ret = t->fn(t->arg);
  thread_finish_and_handoff(t);
  return nullptr;
}

Thread* create_thread(void* (*fn)(void*), void* arg, const char* name) {
  if (G.nthreads >= kMaxThreads) { snprintf(S->msg, sizeof S->msg, "too many threads"); finish_run(kInternal); }
  Thread* t = &G.threads[G.nthreads];
  t->id = G.nthreads;
  t->fn = fn;
  t->arg = arg;
  snprintf(t->name, sizeof t->name, "%s", name);
  t->st = Thread::READY;
  t->deadline = -1;
  if (self) { memcpy(t->vc, self->vc, sizeof t->vc); ++self->vc[self->id]; }
  t->vc[t->id] = 1;
  t->prio = G.replay ? 0 : static_cast<int>(G.srng.below(1000000)) + 1000;
  if (G.replay) for (auto& d : g_spec.dev) if (d.tid == t->id) t->rdev.push_back(d);
  ++G.nthreads;
  set_next_preempt(t);
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, reinterpret_cast<void*>(kStackBase + kStackSize * t->id), kStackSize);
  Thread* me = self;
  self = nullptr;  // real primitives inside libpthread
  int rc = real_pthread_create(&t->real, &a, trampoline, t);
  self = me;
  pthread_attr_destroy(&a);
  if (rc) { snprintf(S->msg, sizeof S->msg, "pthread_create: %d", rc); finish_run(kInternal); }
  park(&t->started);
  return t;
}

int join_thread(Thread* t, void** ret) {
  point(K_JOIN, t);
  while (t->st != Thread::DONE) block(t, "join", -1);
  if (G.race) vc_join(self->vc, t->vc);
  if (ret) *ret = t->ret;
  return 0;
}

static void* sim_main(void*) {
  kHarness.run();
  G.main_done = true;
  finish_run(kOk);
  return nullptr;
}

static void on_signal(int sig, siginfo_t* si, void*) {
  static int nested = 0;
  g_alloc_fail = 0;
  if (self) ++self->quiet;
  if (nested++) { if (S) { S->status = kViolation; } exit_now(); }
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGABRT";
  if (S && S->status == kRunning) {
    snprintf(S->cls, sizeof S->cls, "crash:%s", n);
    std::string st = self ? stack_string() : std::string("(outside the simulation)");
    snprintf(S->msg, sizeof S->msg, "the program died of %s (address %p)\n%s", n, si->si_addr, st.c_str());
    publish();
    S->status = kViolation;
  }
  exit_now();
}

[[noreturn]] void fatal(const std::string& message) {
  static bool nested = false;
  if (self) ++self->quiet;
  if (!self) {  // fatal error before or outside of the run
    snprintf(S->cls, sizeof S->cls, "fatal-outside");
    snprintf(S->msg, sizeof S->msg, "%s", message.c_str());
    finish_run(kInternal);
  }
  if (!nested && G.fatal_cb) {
    nested = true;
    G.fatal_cb(message);
    finish_run(kLoudStop);
  }
  std::string first = message.substr(0, message.find('\n'));
  fail("fatal", "the program stopped itself: " + message + "\n" + stack_string());
}

static void on_terminate() {
  g_alloc_fail = 0;
  if (self) ++self->quiet;
  std::string what = "std::terminate";
  std::type_info* ti = abi::__cxa_current_exception_type();
  if (ti) {
    what = std::string("uncaught exception ") + ti->name();
    try { throw; } catch (const std::exception& e) { what += std::string(": ") + e.what(); } catch (...) {}
  }
  fatal(what);
}

// Everything allocated from here on (harness set-up) lies at addresses that do
// not depend on what the driver did before.
void pin_setup_heap() {
  memset(g_arena[0].head, 0, sizeof g_arena[0].head);
  memset(g_arena[0].tail, 0, sizeof g_arena[0].tail);
  g_arena[0].bump = kHeapBase + (256ull << 20);
}

void init_process() {
  static bool done = false;
  if (done) return;
  done = true;
  do_free(do_malloc(16));
  must_map(kStackBase, kStackRegion);
  if (kHarness.race) {
    must_map(kShadowHeap, kHeapSize * 4);
    must_map(kShadowStack, kStackRegion * 4);
    must_map(kShadowStatic, kStaticSize * 4);
    must_map(kPcIndexBase, kPcIndexSize);
  }
  g_sync = static_cast<Sync*>(mmap(nullptr, kSyncCap * sizeof(Sync), PROT_READ | PROT_WRITE,
                                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
}

[[noreturn]] void run_child(const Spec& spec, Shared* shared) {
  g_spec = spec;
  S = shared;
  G.replay = spec.replay;
  G.trace = spec.trace;
  G.seed = spec.seed;
  G.wrng = Rng(spec.seed * 2 + 1);
  G.srng = Rng(spec.seed * 0x51ED2701 + 7);
  G.frng = Rng(spec.seed * 0x2545F491 + 13);
  G.race = kHarness.race;
  G.fill = true;
  G.now = kTimeBase;
  G.step_budget = 3000000;
  G.access_budget = 4000000000ull;
  // Newer kernels give each process a futex hash that keeps the address space
  // alive for a while after the process is gone; use the global one.
  syscall(SYS_prctl, 78 /*PR_FUTEX_HASH*/, 1 /*SET_SLOTS*/, 0, 0, 0);
  choose_strategy();
  std::set_terminate(on_terminate);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  Thread* m = create_thread(sim_main, nullptr, "main");
  G.cur = m;
  unpark(&m->go);
  for (;;) {
    park(&G.runner_go);
    Thread* r = G.reap;
    if (r) {
      real_pthread_join(r->real, nullptr);
      G.reap = nullptr;
      G.cur = G.reap_next;
      unpark(&G.reap_next->go);
    }
  }
}

void choose_strategy() {
  Strategy& st = G.strat;
  memset(&st, 0, sizeof st);
  st.low_prio = 900;
  if (G.replay) return;
  Rng& r = G.srng;
  int forced = static_cast<int>(param("strategy", -1));
  int k = forced >= 0 ? forced : static_cast<int>(r.below(10));
  static const double ps[] = {0.02, 0.05, 0.1, 0.3, 0.5, 1.0};
  static const double gaps[] = {0, 0, 20, 100, 400, 2000, 10000, 50000};
  st.p_switch = ps[r.below(6)];
  st.mean_gap = kHarness.race ? gaps[r.below(8)] : 0;
  st.p_timer = r.chance(0.5) ? 0.0 : (r.chance(0.5) ? 0.002 : 0.02);
  st.p_spurious = r.chance(0.5) ? 0 : 0.05;
  if (k == 0) {            // (almost) sequential
    st.kind = Strategy::RANDOM; st.p_switch = r.chance(0.5) ? 0.0 : 0.01; 
  } else if (k <= 5) {
    st.kind = Strategy::RANDOM;
  } else if (k <= 7) {
    st.kind = Strategy::PCT;
    st.n_change = static_cast<int>(1 + r.below(8));
    uint64_t span = 1ull << (4 + r.below(10));
    for (int i = 0; i < st.n_change; ++i) st.change_at[i] = 1 + r.below(span);
    if (r.chance(0.5)) st.mean_gap = 0;
  } else {
    st.kind = Strategy::STALL;
    st.stall_len = 1ull << (3 + r.below(9));
  }
}

// ---------------------------------------------------------------------------
// Race oracle.
// Shadow word: clk:28 | tid:6 | mask:8 | write:1 | atomic:1 | pc:20
static inline uint64_t word(uint32_t clk, int tid, unsigned mask, bool w, bool at, uint32_t pci) {
  return (uint64_t(clk) << 36) | (uint64_t(tid) << 30) | (uint64_t(mask) << 22) | (uint64_t(w) << 21) |
         (uint64_t(at) << 20) | pci;
}
static uint32_t g_npc = 0;
static uintptr_t* g_pcs = nullptr;
static inline uint32_t pc_index(uintptr_t pc) {
  if (pc >= kPcIndexSize / 4) return 0;
  uint32_t* slot = reinterpret_cast<uint32_t*>(kPcIndexBase) + pc;
  if (*slot) return *slot;
  if (!g_pcs) g_pcs = static_cast<uintptr_t*>(mmap(nullptr, 8u << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (g_npc + 1 >= (1u << 20)) return 0;
  *slot = ++g_npc;
  g_pcs[g_npc] = pc;
  return *slot;
}

static __attribute__((noinline)) void report_race(Thread* t, uintptr_t a, bool w, uintptr_t pc, uint64_t old) {
  int otid = (old >> 30) & 63;
  uintptr_t opc = g_pcs ? g_pcs[old & 0xfffff] : 0;
  // Known findings: pairs of function names.
  ++t->quiet;
  std::string n1 = short_name(pc), n2 = short_name(opc);
  std::string key = n1 < n2 ? n1 + "|" + n2 : n2 + "|" + n1;
  std::string msg = std::string("unsynchronised ") + (w ? "write" : "read") + " of " +
                    (a - kStackBase < kStackRegion ? "stack" : a - kHeapBase < kHeapSize ? "heap" : "static") + " memory in\n    " + symbolize(pc) +
                    "\n  by thread " + std::to_string(t->id) + " (" + t->name + "), earlier " +
                    ((old >> 21 & 1) ? "write" : "read") + " in\n    " + symbolize(opc) + "\n  by thread " +
                    std::to_string(otid) + " (" + G.threads[otid].name + ")\n" + stack_string();
  if (race_suppressed(key, msg)) { --t->quiet; return; }
  fail("race:" + key, msg);
}

static __attribute__((noinline)) void report_uaf(Thread* t, uintptr_t a, bool w, uintptr_t pc) {
  ++t->quiet;
  fail("memory:use-after-free", std::string(w ? "write to" : "read of") + " freed memory in " + symbolize(pc) + "\n" + stack_string());
}

static inline void check_granule(Thread* t, uintptr_t a, unsigned mask, bool w, bool at, uintptr_t pc) {
  uint64_t* s = shadow_of(a);
  if (!s) return;
  const uint32_t clk = t->vc[t->id];
  if (s[0] == kFreedMark) { report_uaf(t, a, w, pc); return; }
  const uint64_t cmpmask = ~0xfffffull;
  const uint64_t mine = word(clk, t->id, mask, w, at, 0);
  int slot = -1, empty = -1;
  for (int i = 0; i < 4; ++i) {
    uint64_t o = s[i];
    if (o == 0) { if (empty < 0) empty = i; continue; }
    if ((o & cmpmask) == mine) return;
    int otid = (o >> 30) & 63;
    unsigned om = (o >> 22) & 255;
    if (otid == t->id) {
      // Same thread: reuse the slot if the new access subsumes the old one.
      bool ow = o >> 21 & 1, oa = o >> 20 & 1;
      if (om == mask && (w || !ow) && (oa || !at) ) { if (slot < 0) slot = i; }
      else if (om == mask && ow && !w && (uint32_t)(o >> 36) == clk && !oa) return;  // read after own write
      continue;
    }
    if (!(om & mask)) continue;
    bool ow = o >> 21 & 1, oa = o >> 20 & 1;
    if (!(w || ow)) continue;
    if (at && oa) continue;
    uint32_t oc = static_cast<uint32_t>(o >> 36);
    if (oc > t->vc[otid]) { report_race(t, a, w, pc, o); return; }
    else if (om == mask && w && slot < 0) slot = i;  // ordered before us: replace
  }
  if (slot < 0) slot = empty;
  if (slot < 0) slot = static_cast<int>(t->ev & 3);
  s[slot] = word(clk, t->id, mask, w, at, pc_index(pc));
}

static inline void access(uintptr_t a, size_t n, bool w, bool at, uintptr_t pc) {
  Thread* t = self;
  if (!t || t->quiet) return;
  if (++t->ev >= t->next_ev && !t->quiet_switch) mem_preempt(t);
  if (!G.race) return;
  unsigned off = a & 7;
  if (off + n <= 8) {
    check_granule(t, a & ~7ull, ((1u << n) - 1) << off, w, at, pc);
    return;
  }
  uintptr_t end = a + n;
  while (a < end) {
    uintptr_t g = a & ~7ull;
    uintptr_t e = g + 8 < end ? g + 8 : end;
    check_granule(t, g, ((1u << (e - a)) - 1) << (a - g), w, at, pc);
    a = e;
  }
}

void atomic_sync(const void* p, bool acq, bool rel, bool w) {
  Thread* t = self;
  if (!t) return;
  // An atomic operation is also a scheduling opportunity, but a cheap one.
  access(reinterpret_cast<uintptr_t>(p) , 1, w, true, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
  if (!G.race) return;
  if (!acq && !rel) return;
  Sync* s = sync_of(reinterpret_cast<const void*>(reinterpret_cast<uintptr_t>(p) & ~7ull), SP_ATOMIC);
  if (acq) vc_join(t->vc, s->vc);
  if (rel) vc_release(t, s->vc);
}

Sync* once_of(const void* p) { return sync_of(p, SP_ONCE); }
void once_acquire(Sync* s) { if (G.race) vc_join(self->vc, s->vc); }
void once_release(Sync* s) { if (G.race) vc_release(self, s->vc); }
void wait_once(const void* p) { block(p, "once", -1); }
void wake_once(const void* p) { wake_mutex_waiters(p); }
void point_once(const void* p) { point(K_ONCE, p); }
void point_io() { if (self) point(K_IO, nullptr); }
void do_yield() { point(K_YIELD, nullptr); }
void do_sleep(int64_t ns) {
  if (ns <= 0) { do_yield(); return; }
  block(&G.now, "sleep", G.now + ns);
}
int64_t read_clock() {
  // Time passes a little with every look at the clock.
  if (!self->quiet) {
    G.now += 1000;
    uint64_t j = fault_value("clock_jump", G.p_clock_jump, 40);
    if (j) G.now += int64_t(1) << j;
    advance_clock_to(G.now);
  }
  return G.now;
}

}  // namespace rt

using namespace rt;

// ---------------------------------------------------------------------------
// Public interface.
Rng& workload() { return G.wrng; }
uint64_t seed() { return G.seed; }
int64_t param(const char* name, int64_t dflt) {
  auto it = g_spec.params.find(name);
  return it == g_spec.params.end() ? dflt : it->second;
}
bool op_enabled(int i) {
  if (S->max_op < static_cast<uint32_t>(i + 1)) S->max_op = i + 1;
  for (int d : g_spec.disabled_ops) if (d == i) return false;
  return true;
}
void fail(const std::string& cls, const std::string& message) {
  if (self) { ++self->quiet; }
  if (S->status == kRunning) {
    snprintf(S->cls, sizeof S->cls, "%s", cls.c_str());
    snprintf(S->msg, sizeof S->msg, "%s", message.c_str());
    publish();
    S->status = kViolation;
  }
  exit_now();
}
void count(const char* name, uint64_t by) {
  for (uint32_t i = 0; i < S->ncnt; ++i)
    if (strcmp(S->cnt[i].name, name) == 0) { S->cnt[i].v += by; return; }
  if (S->ncnt >= kMaxCnt) return;
  Cnt& c = S->cnt[S->ncnt++];
  snprintf(c.name, sizeof c.name, "%s", name);
  c.v = by;
}
void log_event(uint64_t v) { rt::mix(v); }
void log_event(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  rt::mix(h);
}
bool tracing() { return G.trace; }
void note(const std::string& s) {
  if (!G.trace) return;
  Quiet quiet;
  std::string l = "[" + std::to_string(G.steps) + " t" + std::to_string(self ? self->id : -1) + "] " + s + "\n";
  if (S->notes_len + l.size() >= kNotes) return;
  memcpy(S->notes + S->notes_len, l.data(), l.size());
  S->notes_len += l.size();
}
uint64_t fault_value(const char* name, double p, uint64_t n) {
  // occurrence number
  int k = -1;
  for (int i = 0; i < G.nfn; ++i) if (strcmp(G.fn[i].name, name) == 0) { k = i; break; }
  if (k < 0) {
    k = G.nfn++;
    snprintf(G.fn[k].name, sizeof G.fn[k].name, "%s", name);
    G.fn[k].n = 0;
  }
  uint32_t occ = G.fn[k].n++;
  uint64_t v = 0;
  if (G.replay) {
    for (auto& f : g_spec.fault) if (f.n == occ && strncmp(f.name, name, sizeof f.name - 1) == 0) { v = f.value; break; }
  } else if (G.frng.chance(p)) {
    v = 1 + G.frng.below(n);
  }
  if (v) {
    if (S->nfault < kMaxFault) {
      FaultRec& f = S->fault[S->nfault++];
      memset(&f, 0, sizeof f);
      snprintf(f.name, sizeof f.name, "%s", name);
      f.n = occ;
      f.value = v;
    }
    char b[56];
    snprintf(b, sizeof b, "fault.%s", name);
    count(b);
    rt::mix(occ * 77 + v);
    Quiet quiet;
    if (G.trace) note(std::string("fault ") + name + " #" + std::to_string(occ) + " value " + std::to_string(v));
  }
  return v;
}
bool fault(const char* name, double p) { return fault_value(name, p, 1) != 0; }
uint64_t seq() { return ++G.seq; }
int64_t now_ns() { return G.now; }
void sleep_ns(int64_t ns) { do_sleep(ns); }
void yield() { do_yield(); }
int runnable_threads() {
  int n = 0;
  for (int i = 0; i < G.nthreads; ++i) n += G.threads[i].st == Thread::READY;
  return n;
}
int thread_id() { return self ? self->id : -1; }
uint64_t steps() { return G.steps; }
static void* spawn_entry(void* p) {
  std::function<void()>* f = static_cast<std::function<void()>*>(p);
  (*f)();
  { Quiet q; delete f; }
  return nullptr;
}
int spawn(std::function<void()> fn, const char* name) {
  std::function<void()>* f;
  { Quiet q; f = new std::function<void()>(std::move(fn)); }
  Thread* t = create_thread(spawn_entry, f, name);
  point(K_CREATE, t);
  return t->id;
}
void join(int h) { join_thread(&G.threads[h], nullptr); }
Quiet::Quiet() { if (self) ++self->quiet; }
Quiet::~Quiet() { if (self) --self->quiet; }
void on_fatal(std::function<void(const std::string&)> cb) { G.fatal_cb = std::move(cb); }
void set_step_budget(uint64_t s) { G.step_budget = s; }
void set_race_checks(bool on) { G.race = on && kHarness.race; }
void touch_read(const void* p) { rt::access(reinterpret_cast<uintptr_t>(p), 8, false, false, reinterpret_cast<uintptr_t>(__builtin_return_address(0))); }
void touch_write(void* p) { rt::access(reinterpret_cast<uintptr_t>(p), 8, true, false, reinterpret_cast<uintptr_t>(__builtin_return_address(0))); }
void set_alloc_failures(double p) { rt::g_alloc_fail = p; }
void set_alloc_limit(size_t n) { rt::g_alloc_limit = n; }
void set_clock_jumps(double p) { G.p_clock_jump = p; }

}  // namespace sim

// ---------------------------------------------------------------------------
// The __tsan interface that instrumented code calls.
using namespace sim::rt;
#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
  Thread* t = self;
  if (!t) return;
  if (t->depth < kMaxCallStack) t->cs[t->depth] = reinterpret_cast<uintptr_t>(pc);
  ++t->depth;
}
void __tsan_func_exit() {
  Thread* t = self;
  if (t && t->depth > 0) --t->depth;
}
#define RW(n)                                                                                               \
  void __tsan_read##n(void* a) { access(reinterpret_cast<uintptr_t>(a), n, false, false, PC); }            \
  void __tsan_write##n(void* a) { access(reinterpret_cast<uintptr_t>(a), n, true, false, PC); }            \
  void __tsan_unaligned_read##n(void* a) { access(reinterpret_cast<uintptr_t>(a), n, false, false, PC); }  \
  void __tsan_unaligned_write##n(void* a) { access(reinterpret_cast<uintptr_t>(a), n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
void __tsan_read_range(void* a, unsigned long n) { access(reinterpret_cast<uintptr_t>(a), n, false, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { access(reinterpret_cast<uintptr_t>(a), n, true, false, PC); }
void __tsan_vptr_update(void** a, void* v) {
  if (*a != v) access(reinterpret_cast<uintptr_t>(a), 8, true, false, PC);
}
void __tsan_vptr_read(void** a) { access(reinterpret_cast<uintptr_t>(a), 8, false, false, PC); }

static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
#define ATOMICS(bits, T)                                                                              \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                                          \
    atomic_sync((const void*)a, is_acq(mo), false, false);                                             \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                       \
  }                                                                                                    \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                                       \
    atomic_sync((const void*)a, false, is_rel(mo), true);                                              \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                          \
  }                                                                                                    \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                                       \
    atomic_sync((const void*)a, is_acq(mo), is_rel(mo), true);                                         \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                \
  }                                                                                                    \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) {                                      \
    atomic_sync((const void*)a, is_acq(mo), is_rel(mo), true);                                         \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                 \
  }                                                                                                    \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) {                                      \
    atomic_sync((const void*)a, is_acq(mo), is_rel(mo), true);                                         \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                 \
  }                                                                                                    \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) {                                      \
    atomic_sync((const void*)a, is_acq(mo), is_rel(mo), true);                                         \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                 \
  }                                                                                                    \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) {                                       \
    atomic_sync((const void*)a, is_acq(mo), is_rel(mo), true);                                         \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                  \
  }                                                                                                    \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) {                                      \
    atomic_sync((const void*)a, is_acq(mo), is_rel(mo), true);                                         \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                 \
  }                                                                                                    \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) {                                     \
    atomic_sync((const void*)a, is_acq(mo), is_rel(mo), true);                                         \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                \
  }                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {       \
    atomic_sync((const void*)a, is_acq(mo), is_rel(mo), true);                                         \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);            \
  }                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {         \
    atomic_sync((const void*)a, is_acq(mo), is_rel(mo), true);                                         \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);            \
  }                                                                                                    \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {             \
    atomic_sync((const void*)a, is_acq(mo), is_rel(mo), true);                                         \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                  \
    return c;                                                                                          \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
// glog marks its LOG_EVERY_N counters with this; they are atomics.
void AnnotateBenignRaceSized(const char*, int, const volatile void*, size_t, const char*) {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
