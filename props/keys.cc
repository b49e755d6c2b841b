#include "hydro.h"
static constexpr size_t D = gdimension;
using K = flecsi::morton_curve_u<D, uint64_t>;
using Hk = flecsi::hilbert_curve_u<D, uint64_t>;
using range_t = std::array<point_t, 2>;
X uint64_t w_mkey(range_t & r, point_t & p, uint64_t depth) { return K(r, p, depth).value(); }
X uint64_t w_mkey_full(range_t & r, point_t & p) { return K(r, p).value(); }
X void w_mround(range_t & r, point_t & p, point_t & o) { K k(r, p); k.coordinates(r, o); }
X void w_mrange(range_t & r, uint64_t v, range_t & o) { K k(v); o = k.range(r); }
X void w_mcoord(range_t & r, uint64_t v, point_t & o) { K k(v); k.coordinates(r, o); }
X uint64_t w_hkey(range_t & r, point_t & p, uint64_t depth) { return Hk(r, p, depth).value(); }
X uint64_t w_hkey_full(range_t & r, point_t & p) { return Hk(r, p).value(); }
X void w_hround(range_t & r, point_t & p, point_t & o) { Hk k(r, p); k.coordinates(r, o); }
X void w_hcoord(range_t & r, uint64_t v, point_t & o) { Hk k(v); k.coordinates(r, o); }
X void w_hstep(range_t & r, uint64_t v, point_t & o, point_t & q) { Hk k(v); k.coordinates(r, o); Hk n(v + 1); n.coordinates(r, q); }
// key algebra
X uint64_t w_depth(uint64_t v) { return K(v).depth(); }
X uint64_t w_push(uint64_t v, uint64_t b) { K k(v); k.push(b); return k.value(); }
X uint64_t w_pop(uint64_t v) { K k(v); k.pop(); return k.value(); }
X uint64_t w_pop_value(uint64_t v, uint64_t & o) { K k(v); o = k.pop_value(); return k.value(); }
X uint64_t w_last_value(uint64_t v) { K k(v); return k.last_value(); }
X uint64_t w_popn(uint64_t v, uint64_t n) { K k(v); k.pop((size_t)n); return k.value(); }
X uint64_t w_parent(uint64_t v) { const K k(v); return k.parent().value(); }
X uint64_t w_truncate(uint64_t v, uint64_t n) { K k(v); k.truncate(n); return k.value(); }
X uint64_t w_min() { return K::min().value(); }
X uint64_t w_max() { return K::max().value(); }
X uint64_t w_root() { return K::root().value(); }
X uint64_t w_null() { return K::null().value() + (K::null().is_null() ? 0 : 1); }
X uint64_t w_is_null(uint64_t v) { return K(v).is_null(); }
X uint64_t w_max_depth() { return K::max_depth(); }
X uint64_t w_default() { return K().value(); }
X uint64_t w_copy(uint64_t v) { K a(v); K b; b = a; K c(b); return c.value(); }
X uint64_t w_cmp(uint64_t a, uint64_t b) {
  const K x(a), y(b);
  return (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5;
}
X uint64_t w_push_pop(uint64_t v, uint64_t b, uint64_t & o) { K k(v); k.push(b); o = k.pop_value(); return k.value(); }
X void w_mbox(range_t & r, point_t & p, uint64_t depth, range_t & o) { K k(r, p, depth); o = k.range(r); }
X uint64_t w_conflict(uint64_t a, uint64_t b) { K k; return k.conflict_depth(K(a), K(b)); }
