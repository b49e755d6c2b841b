#include "hydro.h"
// the pair of functions the selection gives for a keyword
#define KW(N, V) \
  X double w_k_##N(double r, double h) { param::_sph_kernel = param::V; kernels::select(); return kernels::sph_kernel_function(r, h); } \
  X void w_g_##N(const double * x, double h, double * out) { \
    param::_sph_kernel = param::V; kernels::select(); \
    point_t p; for(size_t i = 0; i < gdimension; ++i) p[i] = x[i]; \
    point_t g = kernels::sph_kernel_gradient(p, h); \
    for(size_t i = 0; i < gdimension; ++i) out[i] = g[i]; }
KW(cubic_spline, cubic_spline)
KW(quintic_spline, quintic_spline)
KW(wendland_c2, wendland_c2)
KW(wendland_c4, wendland_c4)
KW(wendland_c6, wendland_c6)
KW(gaussian, gaussian)
KW(super_gaussian, super_gaussian)
KW(sinc_ker, sinc_ker)
