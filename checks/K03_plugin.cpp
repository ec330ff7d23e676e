// Rock4 on a reaction-diffusion problem, compiled with or without OpenMP
#include <cmath>
#include <iostream>
#include <vector>
#ifdef _OPENMP
#include <omp.h>
#endif
using namespace std;
#include "MacrosForCompilers.hpp"
#include "AllocateDestroyVector.hpp"
#include "Rock4.hpp"
struct Desc {
  int n, threads;
  double k, a, b, v, t0, tend, h, atol, rtol, over;
  double *y;
  int rc, steps, acc, rej, rhs, stages;
  long calls;
  double hlast;
};
namespace {
struct RD {
  Desc *d;
  void operator()(double *x, double *y) const {
    const int n = d->n;
    const double k = d->k, a = d->a, b = d->b, v = d->v;
    d->calls++;
    if (d->calls > 200000) throw 1;
#ifdef ROCK4_OMP
#pragma omp parallel for
#endif
    for (int i = 0; i < n; i++) {
      double l = x[i ? i - 1 : n - 1], u = x[i < n - 1 ? i + 1 : 0];
      y[i] = k * (l - 2 * x[i] + u) + v * (u - l) + a * x[i] - b * x[i] * x[i] * x[i];
    }
  }
  double rho() const { return (4 * d->k + std::fabs(d->a) + 3 * d->b * 9) * d->over; }
  int size() const { return d->n; }
};
}  // namespace
extern "C" __attribute__((visibility("default"))) void solve(Desc *d) {
#ifdef _OPENMP
  omp_set_dynamic(0);
  omp_set_num_threads(d->threads);
#endif
  RD f{d};
  d->calls = 0;
  odes::Rock4<RD> r(f);
  r.setTolerances(d->atol, d->rtol);
  double *y = odes::allocDoubleArray(d->n);
  for (int i = 0; i < d->n; i++) y[i] = d->y[i];
  d->rc = 0;
  try {
    r(y, d->t0, d->tend, d->h);
  } catch (odes::OdesException &) {
    d->rc = 1;
  } catch (int) {
    d->rc = 2;
  }
  for (int i = 0; i < d->n; i++) d->y[i] = y[i];
  odes::destroyDoubleArray(y);
  d->steps = r.NbSteps();
  d->acc = r.NbAccepted();
  d->rej = r.NbRejected();
  d->rhs = r.NbRhsComputed();
  d->stages = r.NbStages();
  d->hlast = r.LastAcceptedTimeStep();
}
