// Plain C entry points to the integration routines that the class defines,
// including the parallel ones that the shipped Python layer does not select by
// itself.  A routine that a future version removes or renames is reported as
// absent (return code 0) and simply not exercised.
#include <algorithm>
#include <atomic>
#include <cmath>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include "omp.h"
#define private public
#include "num_integration.h"
#undef private
#include "num_integration.cpp"
typedef NumericalDoubleInputIntegrator NI;
#define ROUTINE(name) \
  template <class T> static auto try_##name(T &o, double *r, int) -> decltype((double)o.name(), 1) { *r = o.name(); return 1; } \
  template <class T> static int try_##name(T &, double *, long) { return 0; }
ROUTINE(integrate) ROUTINE(trapz) ROUTINE(trapz_parallel) ROUTINE(simpson) ROUTINE(simpson_parallel)
extern "C" int k_integrate(int n, double *y, double *x, int es, const char *s, int nt, int par, int which, double *r)
{
  NI o(n, y, x, es != 0, s, nt, par != 0);
  switch (which) {
  case 0: return try_integrate(o, r, 0);
  case 1: return try_trapz(o, r, 0);
  case 2: return try_trapz_parallel(o, r, 0);
  case 3: return try_simpson(o, r, 0);
  case 4: return try_simpson_parallel(o, r, 0);
  }
  return 0;
}
