// Replacement for absl::Mutex and friends on top of the simulator. Placed
// before the system absl on the include path; never includes the real header.
#ifndef ABSL_SYNCHRONIZATION_MUTEX_H_
#define ABSL_SYNCHRONIZATION_MUTEX_H_
#include <atomic>
#include <cstdint>
#include <string>

#include "absl/base/attributes.h"
#include "absl/base/config.h"
#include "absl/base/const_init.h"
#include "absl/base/port.h"
#include "absl/base/thread_annotations.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "sim/sim.h"

// Every member is inlined: no symbol of these classes may be shared with the
// real ones inside the absl libraries.
#define SIM_AI __attribute__((always_inline))

namespace absl {
ABSL_NAMESPACE_BEGIN

class Condition {
 public:
  Condition(bool (*func)(void*), void* arg) : kind_(0), f_(reinterpret_cast<void*>(func)), arg_(arg), eval_(&CallVoid) {}
  template <typename T>
  Condition(bool (*func)(T*), T* arg)
      : f_(reinterpret_cast<void*>(func)), arg_(const_cast<void*>(static_cast<const void*>(arg))), eval_(&CallT<T>) {}
  template <typename T>
  Condition(T* object, bool (T::*method)()) : arg_(object), eval_(&CallM<T>) {
    static_assert(sizeof(method) <= sizeof(m_), "");
    __builtin_memcpy(m_, &method, sizeof(method));
  }
  template <typename T>
  Condition(const T* object, bool (T::*method)() const) : arg_(const_cast<T*>(object)), eval_(&CallCM<T>) {
    __builtin_memcpy(m_, &method, sizeof(method));
  }
  explicit Condition(const bool* cond) : arg_(const_cast<bool*>(cond)), eval_(&CallBool) {}
  template <typename T, typename E = decltype(static_cast<bool (T::*)() const>(&T::operator()))>
  explicit Condition(const T* obj) : arg_(const_cast<T*>(obj)), eval_(&CallF<T>) {}

  bool Eval() const { return eval_ == nullptr || eval_(this); }
  static bool EvalPtr(const void* c) { return static_cast<const Condition*>(c)->Eval(); }

 private:
  friend class Mutex;
  Condition() {}
  static bool CallVoid(const Condition* c) { return reinterpret_cast<bool (*)(void*)>(c->f_)(c->arg_); }
  template <typename T> static bool CallT(const Condition* c) { return reinterpret_cast<bool (*)(T*)>(c->f_)(static_cast<T*>(c->arg_)); }
  template <typename T> static bool CallM(const Condition* c) {
    bool (T::*m)();
    __builtin_memcpy(&m, c->m_, sizeof(m));
    return (static_cast<T*>(c->arg_)->*m)();
  }
  template <typename T> static bool CallCM(const Condition* c) {
    bool (T::*m)() const;
    __builtin_memcpy(&m, c->m_, sizeof(m));
    return (static_cast<const T*>(c->arg_)->*m)();
  }
  static bool CallBool(const Condition* c) { return *static_cast<bool*>(c->arg_); }
  template <typename T> static bool CallF(const Condition* c) { return (*static_cast<const T*>(c->arg_))(); }
  int kind_ = 0;
  void* f_ = nullptr;
  void* arg_ = nullptr;
  bool (*eval_)(const Condition*) = nullptr;
  char m_[16] = {0};
};

class ABSL_LOCKABLE Mutex {
 public:
  SIM_AI Mutex() {}
  SIM_AI explicit constexpr Mutex(absl::ConstInitType) {}
  SIM_AI ~Mutex() { sim::prim::mutex_destroy(this); }
  Mutex(const Mutex&) = delete;
  Mutex& operator=(const Mutex&) = delete;

  SIM_AI void Lock() { sim::prim::mutex_lock(this); }
  SIM_AI void Unlock() { sim::prim::mutex_unlock(this); }
  SIM_AI bool TryLock() { return sim::prim::mutex_trylock(this); }
  SIM_AI void AssertHeld() const { if (!sim::prim::mutex_held(this)) sim::fail("sync:assert-held", "AssertHeld failed"); }
  SIM_AI void AssertReaderHeld() const { if (!sim::prim::mutex_reader_held(this)) sim::fail("sync:assert-held", "AssertReaderHeld failed"); }
  SIM_AI void ReaderLock() { sim::prim::mutex_rdlock(this); }
  SIM_AI void ReaderUnlock() { sim::prim::mutex_rdunlock(this); }
  SIM_AI bool ReaderTryLock() { return sim::prim::mutex_tryrdlock(this); }
  SIM_AI void WriterLock() { Lock(); }
  SIM_AI void WriterUnlock() { Unlock(); }
  SIM_AI bool WriterTryLock() { return TryLock(); }

  SIM_AI void Await(const Condition& c) { sim::prim::await(this, &Condition::EvalPtr, &c, -1, Shared()); }
  SIM_AI bool AwaitWithTimeout(const Condition& c, absl::Duration t) {
    return sim::prim::await(this, &Condition::EvalPtr, &c, Deadline(t), Shared());
  }
  SIM_AI bool AwaitWithDeadline(const Condition& c, absl::Time t) { return AwaitWithTimeout(c, t - SimNow()); }
  SIM_AI void LockWhen(const Condition& c) { Lock(); Await(c); }
  SIM_AI void WriterLockWhen(const Condition& c) { LockWhen(c); }
  SIM_AI void ReaderLockWhen(const Condition& c) { ReaderLock(); sim::prim::await(this, &Condition::EvalPtr, &c, -1, true); }
  SIM_AI bool LockWhenWithTimeout(const Condition& c, absl::Duration t) { Lock(); return AwaitWithTimeout(c, t); }
  SIM_AI bool LockWhenWithDeadline(const Condition& c, absl::Time t) { Lock(); return AwaitWithDeadline(c, t); }
  SIM_AI bool ReaderLockWhenWithTimeout(const Condition& c, absl::Duration t) {
    ReaderLock();
    return sim::prim::await(this, &Condition::EvalPtr, &c, Deadline(t), true);
  }
  SIM_AI bool WriterLockWhenWithTimeout(const Condition& c, absl::Duration t) { return LockWhenWithTimeout(c, t); }
  SIM_AI void EnableInvariantDebugging(void (*)(void*), void*) {}
  SIM_AI void EnableDebugLog(const char*) {}
  SIM_AI void ForgetDeadlockInfo() {}
  SIM_AI void AssertNotHeld() const {}

  SIM_AI static absl::Time SimNow() { return absl::FromUnixNanos(1600000000000000000ll + sim::now_ns()); }

 private:
  friend class CondVar;
  SIM_AI bool Shared() const { return !sim::prim::mutex_held(this); }
  SIM_AI static int64_t Deadline(absl::Duration t) {
    if (t == absl::InfiniteDuration()) return -1;
    int64_t ns = absl::ToInt64Nanoseconds(t);
    if (ns < 0) ns = 0;
    if (ns > int64_t(4000000000000000000ll)) return -1;
    return sim::now_ns() + ns;
  }
  std::atomic<intptr_t> pad_{0};  // same size as the real one
};

class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  SIM_AI explicit MutexLock(Mutex* mu) : mu_(mu) { mu_->Lock(); }
  SIM_AI explicit MutexLock(Mutex* mu, const Condition& c) : mu_(mu) { mu_->LockWhen(c); }
  MutexLock(const MutexLock&) = delete;
  MutexLock& operator=(const MutexLock&) = delete;
  SIM_AI ~MutexLock() { mu_->Unlock(); }
 private:
  Mutex* const mu_;
};
class ABSL_SCOPED_LOCKABLE ReaderMutexLock {
 public:
  SIM_AI explicit ReaderMutexLock(Mutex* mu) : mu_(mu) { mu_->ReaderLock(); }
  SIM_AI explicit ReaderMutexLock(Mutex* mu, const Condition& c) : mu_(mu) { mu_->ReaderLockWhen(c); }
  ReaderMutexLock(const ReaderMutexLock&) = delete;
  ReaderMutexLock& operator=(const ReaderMutexLock&) = delete;
  SIM_AI ~ReaderMutexLock() { mu_->ReaderUnlock(); }
 private:
  Mutex* const mu_;
};
class ABSL_SCOPED_LOCKABLE WriterMutexLock {
 public:
  SIM_AI explicit WriterMutexLock(Mutex* mu) : mu_(mu) { mu_->WriterLock(); }
  SIM_AI explicit WriterMutexLock(Mutex* mu, const Condition& c) : mu_(mu) { mu_->WriterLockWhen(c); }
  WriterMutexLock(const WriterMutexLock&) = delete;
  WriterMutexLock& operator=(const WriterMutexLock&) = delete;
  SIM_AI ~WriterMutexLock() { mu_->WriterUnlock(); }
 private:
  Mutex* const mu_;
};
class MutexLockMaybe {
 public:
  SIM_AI explicit MutexLockMaybe(Mutex* mu) : mu_(mu) { if (mu_) mu_->Lock(); }
  MutexLockMaybe(const MutexLockMaybe&) = delete;
  SIM_AI ~MutexLockMaybe() { if (mu_) mu_->Unlock(); }
 private:
  Mutex* const mu_;
};
class ReleasableMutexLock {
 public:
  SIM_AI explicit ReleasableMutexLock(Mutex* mu) : mu_(mu) { mu_->Lock(); }
  SIM_AI explicit ReleasableMutexLock(Mutex* mu, const Condition& c) : mu_(mu) { mu_->LockWhen(c); }
  ReleasableMutexLock(const ReleasableMutexLock&) = delete;
  SIM_AI ~ReleasableMutexLock() { if (mu_) mu_->Unlock(); }
  SIM_AI void Release() { mu_->Unlock(); mu_ = nullptr; }
 private:
  Mutex* mu_;
};

class CondVar {
 public:
  SIM_AI CondVar() {}
  CondVar(const CondVar&) = delete;
  SIM_AI void Wait(Mutex* mu) { sim::prim::cond_wait(this, mu); }
  // Returns true when the timeout expired, as absl does.
  SIM_AI bool WaitWithTimeout(Mutex* mu, absl::Duration t) {
    int64_t d = Mutex::Deadline(t);
    if (d < 0) { Wait(mu); return false; }
    return !sim::prim::cond_timedwait(this, mu, d);
  }
  SIM_AI bool WaitWithDeadline(Mutex* mu, absl::Time t) { return WaitWithTimeout(mu, t - Mutex::SimNow()); }
  SIM_AI void Signal() { sim::prim::cond_signal(this); }
  SIM_AI void SignalAll() { sim::prim::cond_broadcast(this); }
  SIM_AI void EnableDebugLog(const char*) {}
 private:
  char pad_ = 0;
};

ABSL_NAMESPACE_END
}  // namespace absl
#endif  // ABSL_SYNCHRONIZATION_MUTEX_H_
