// containers compiled with DEBUG: are out of range indexes reported?
#include <cmath>
#include <string>
#include <iostream>
using namespace std;
#include "OdesException.hpp"
#include "fortranVector.hpp"
#include "fortranArray.hpp"
#include "fortranRectangularArray.hpp"
#include "fortranRectangularComplexArray.hpp"
using namespace odes;
template <int N> int vec(int write, int i) {
  if (write == 2) {  // a vector of its own, of a size known at run time
    fortranVector v(N);
    v(1) = 0;
    fortranVector u(v);
    const fortranVector &w = u;
    u(i) = 1;
    volatile double d = w(i);
    return 0;
  }
  fortranVectorF<N> v;
  v = 0.;
  const fortranVector &w = v;
  if (write) v(i) = 1;
  else { volatile double d = w(i); }
  return 0;
}
template <int N> int mat(int write, int i, int j) {
  fortranArray<N> a;
  const fortranArray<N> &b = a;
  if (write) a(i, j) = 1;
  else { volatile double d = b(i, j); }
  return 0;
}
template <int N, int L, int U> int band(int write, int i, int j) {
  fortranRectangularArray<N, L, U> a;
  const fortranRectangularArray<N, L, U> &b = a;
  if (write) a(i, j) = 1;
  else { volatile double d = b(i, j); }
  return 0;
}
template <int N, int L, int U> int cband(int write, int i, int j) {
  fortranRectangularComplexArray<N, L, U> a;
  if (write == 1) a.set(i, j, 1, 2);
  else if (write == 2) a.Re(i, j) = 1;
  else a.Im(i, j) = 1;
  return 0;
}
template <int N> int sum(int i, int j) {
  fortranVector a(i), b(j);
  for (int k = 1; k <= i; k++) a(k) = k;
  for (int k = 1; k <= j; k++) b(k) = k;
  fortranVectorF<N> v;
  v.setsum2(a, b);
  return 0;
}
// 1: exception, 0: no exception
extern "C" __attribute__((visibility("default"))) int probe(int kind, int write, int i, int j) {
  try {
    switch (kind) {
      case 0: return vec<5>(write, i);
      case 1: return vec<1>(write, i);
      case 2: return mat<4>(write, i, j);
      case 3: return mat<1>(write, i, j);
      case 4: return band<6, 1, 2>(write, i, j);
      case 5: return band<5, 3, 0>(write, i, j);
      case 6: return band<4, 0, 0>(write, i, j);
      case 7: return band<5, 3, 4>(write, i, j);
      case 8: return cband<6, 2, 1>(write, i, j);
      case 9: return cband<5, 0, 3>(write, i, j);
      case 10: return cband<4, 3, 2>(write, i, j);
      case 11: return cband<3, 0, 0>(write, i, j);
      case 12: return sum<4>(i, j);
    }
  } catch (OdesException &) {
    return 1;
  }
  return 2;
}
