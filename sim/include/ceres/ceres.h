// The installed Ceres (2.2) no longer has the LocalParameterization API that
// cartographer's optimization code uses. This header adds it on top of the
// Manifold API, so that the real optimization code takes part in the
// simulation. Semantics follow Ceres 2.0's documentation.
#ifndef VERIF_SIM_CERES_COMPAT_H_
#define VERIF_SIM_CERES_COMPAT_H_
#include_next <ceres/ceres.h>
#include <vector>

namespace ceres {

class LocalParameterization : public Manifold {
 public:
  bool Minus(const double*, const double*, double*) const override { return false; }
  bool MinusJacobian(const double*, double*) const override { return false; }
};

class QuaternionParameterization : public LocalParameterization {
 public:
  int AmbientSize() const override { return 4; }
  int TangentSize() const override { return 3; }
  bool Plus(const double* x, const double* d, double* o) const override { return m_.Plus(x, d, o); }
  bool PlusJacobian(const double* x, double* j) const override { return m_.PlusJacobian(x, j); }
  bool Minus(const double* y, const double* x, double* o) const override { return m_.Minus(y, x, o); }
  bool MinusJacobian(const double* x, double* j) const override { return m_.MinusJacobian(x, j); }
 private:
  QuaternionManifold m_;
};

class SubsetParameterization : public LocalParameterization {
 public:
  SubsetParameterization(int size, const std::vector<int>& constant) : m_(size, constant) {}
  int AmbientSize() const override { return m_.AmbientSize(); }
  int TangentSize() const override { return m_.TangentSize(); }
  bool Plus(const double* x, const double* d, double* o) const override { return m_.Plus(x, d, o); }
  bool PlusJacobian(const double* x, double* j) const override { return m_.PlusJacobian(x, j); }
  bool Minus(const double* y, const double* x, double* o) const override { return m_.Minus(y, x, o); }
  bool MinusJacobian(const double* x, double* j) const override { return m_.MinusJacobian(x, j); }
 private:
  SubsetManifold m_;
};

template <typename Functor, int kGlobal, int kLocal>
class AutoDiffLocalParameterization : public LocalParameterization {
 public:
  AutoDiffLocalParameterization() : f_(new Functor()) {}
  explicit AutoDiffLocalParameterization(Functor* f) : f_(f) {}
  int AmbientSize() const override { return kGlobal; }
  int TangentSize() const override { return kLocal; }
  bool Plus(const double* x, const double* d, double* o) const override { return (*f_)(x, d, o); }
  bool PlusJacobian(const double* x, double* jac) const override {
    typedef Jet<double, kLocal> J;
    J xj[kGlobal], dj[kLocal], oj[kGlobal];
    for (int i = 0; i < kGlobal; ++i) xj[i] = J(x[i]);
    for (int i = 0; i < kLocal; ++i) dj[i] = J(0.0, i);
    if (!(*f_)(xj, dj, oj)) return false;
    for (int r = 0; r < kGlobal; ++r)
      for (int c = 0; c < kLocal; ++c) jac[r * kLocal + c] = oj[r].v[c];
    return true;
  }
 private:
  std::unique_ptr<Functor> f_;
};

}  // namespace ceres

#define SetParameterization SetManifold
#endif
