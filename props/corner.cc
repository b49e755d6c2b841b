// images in the corners of a periodic box
#include "hydro.h"
#include <numeric>
#include "boundary.h"
#include "bodyget.h"
using on_t = std::array<bool, gdimension>;
using box_t = std::array<point_t, 2>;
// e has room for one more element; returns how many were added
#define CORNER2(N, A, B) \
  X size_t N(const on_t & on, const box_t & box, const double & h, const body & b, std::vector<body> & e) { \
    size_t n = e.size(); \
    boundary::add_corner_XX(on, {A, B}, box, h, b, e); \
    return e.size() - n; \
  }
#if EXT_GDIMENSION > 1
CORNER2(w_c01, 0, 1)
#endif
#if EXT_GDIMENSION > 2
CORNER2(w_c02, 0, 2)
CORNER2(w_c21, 2, 1)
X size_t w_c012(const on_t & on, const box_t & box, const double & h, const body & b, std::vector<body> & e) {
  size_t n = e.size();
  boundary::add_corner_XXX(on, {0, 1, 2}, box, h, b, e);
  return e.size() - n;
}
#endif
