// tensors of every rank, dimension and symmetry: where components live, and componentwise algebra
#include <array>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <ostream>
#include <utility>
#include <vector>
#include "tensor.h"
#include "space_vector.h"
#define X extern "C"
using namespace flecsi;
namespace ti = tensor_indices;
static constexpr auto GEN = symmetry_type::generic, SYM = symmetry_type::symmetric;
template<symmetry_type S, size_t R, size_t D> struct TN;
template<symmetry_type S, size_t D> struct TN<S, 1, D> { using t = tensor_u<double, S, D>; using e = ti::rank1_index; };
template<symmetry_type S, size_t D> struct TN<S, 2, D> { using t = tensor_u<double, S, D, D>; using e = ti::rank2_index; };
template<symmetry_type S, size_t D> struct TN<S, 3, D> { using t = tensor_u<double, S, D, D, D>; using e = ti::rank3_index; };
template<symmetry_type S, size_t D> struct TN<S, 4, D> { using t = tensor_u<double, S, D, D, D, D>; using e = ti::rank4_index; };
#define A1(T, i, j, k, l) T(i)
#define A2(T, i, j, k, l) T(i, j)
#define A3(T, i, j, k, l) T(i, j, k)
#define A4(T, i, j, k, l) T(i, j, k, l)
#define SLOT(T, c) (uint64_t)(&(c) - &(T)[(size_t)0])
// o[0]: slot named by letters, o[1]: slot by numbers (object), o[2]: by numbers (const object), o[3]: flat, o[4]: number of components
#define W(n, S, R, D)                                                                                   \
  X void w_slot_##n##R##D(TN<S, R, D>::t & T, uint64_t k, uint64_t i, uint64_t j, uint64_t l, uint64_t m, uint64_t * o) { \
    const auto & C = T;                                                                                 \
    o[0] = SLOT(T, T[(typename TN<S, R, D>::e)k]);                                                      \
    o[1] = SLOT(T, A##R(T, i, j, l, m));                                                                \
    o[2] = SLOT(T, A##R(C, i, j, l, m));                                                                \
    o[4] = TN<S, R, D>::t::size();                                                                      \
  }                                                                                                     \
  X void w_flat_##n##R##D(TN<S, R, D>::t & T, uint64_t k, uint64_t * o) {                                \
    const auto & C = T;                                                                                 \
    o[0] = SLOT(T, T[(size_t)k]);                                                                       \
    o[1] = SLOT(T, C[(size_t)k]);                                                                       \
    o[2] = (uint64_t)((char *)&T[(size_t)0] - (char *)&T);                                              \
    o[3] = sizeof(T);                                                                                   \
  }
#define WD(D) W(g, GEN, 1, D) W(g, GEN, 2, D) W(g, GEN, 3, D) W(g, GEN, 4, D) W(s, SYM, 2, D) W(s, SYM, 3, D) W(s, SYM, 4, D)
WD(1) WD(2) WD(3) WD(4)
// dimensions that differ between the slots
#define M(n, A, ...)                                                                                     \
  using m_##n = tensor_u<double, GEN, __VA_ARGS__>;                                                     \
  X void w_mixed_##n(m_##n & T, uint64_t i, uint64_t j, uint64_t l, uint64_t m, uint64_t * o) {          \
    const auto & C = T;                                                                                 \
    o[0] = SLOT(T, A(T, i, j, l, m));                                                                   \
    o[1] = SLOT(T, A(C, i, j, l, m));                                                                   \
    o[2] = m_##n::size();                                                                               \
  }
M(23, A2, (size_t)2, (size_t)3) M(32, A2, (size_t)3, (size_t)2) M(14, A2, (size_t)1, (size_t)4)
M(234, A3, (size_t)2, (size_t)3, (size_t)4) M(421, A3, (size_t)4, (size_t)2, (size_t)1) M(3243, A4, (size_t)3, (size_t)2, (size_t)4, (size_t)3)
// the value behind every letter name, in the order x, y, z, t of each letter
#define Q1(p) p##x, p##y, p##z, p##t
#define Q2(p) Q1(p##x), Q1(p##y), Q1(p##z), Q1(p##t)
#define Q3(p) Q2(p##x), Q2(p##y), Q2(p##z), Q2(p##t)
X void w_names(uint64_t * o) {
  using namespace tensor_indices;
  const uint64_t a[] = {_x, _y, _z, _t, Q1(x), Q1(y), Q1(z), Q1(t), Q2(x), Q2(y), Q2(z), Q2(t), Q3(x), Q3(y), Q3(z), Q3(t)};
  for(size_t i = 0; i < sizeof(a) / 8; ++i) o[i] = a[i];
}

// ---- algebra, by number of stored components
using v1 = tensor_u<double, GEN, (size_t)1>; using v2 = tensor_u<double, GEN, (size_t)2>; using v3 = tensor_u<double, GEN, (size_t)3>;
using v4 = tensor_u<double, GEN, (size_t)4>; using g23 = tensor_u<double, GEN, (size_t)2, (size_t)3>;
using g33 = tensor_u<double, GEN, (size_t)3, (size_t)3>; using s3 = tensor_u<double, SYM, (size_t)3, (size_t)3>;
using s333 = tensor_u<double, SYM, (size_t)3, (size_t)3, (size_t)3>;
#define ALG(n)                                                                \
  X void a_add_##n(n & a, n & b, n & o) { o = a + b; }                        \
  X void a_sub_##n(n & a, n & b, n & o) { o = a - b; }                        \
  X void a_mulr_##n(n & a, double s, n & o) { o = a * s; }                    \
  X void a_mull_##n(n & a, double s, n & o) { o = s * a; }                    \
  X void a_div_##n(n & a, double s, n & o) { o = a / s; }                     \
  X void a_divc_##n(const n & a, double s, n & o) { o = a / s; }              \
  X void a_iadd_##n(n & a, n & b) { a += b; }                                 \
  X void a_isub_##n(n & a, n & b) { a -= b; }                                 \
  X void a_iadds_##n(n & a, double s) { a += s; }                             \
  X void a_isubs_##n(n & a, double s) { a -= s; }                             \
  X void a_imuls_##n(n & a, double s) { a *= s; }                             \
  X void a_idivs_##n(n & a, double s) { a /= s; }                             \
  X void a_iaddx_##n(n & a) { a += a; }                                       \
  X void a_isubx_##n(n & a) { a -= a; }                                       \
  X void a_asgx_##n(n & a) { a = *&a; }                                       \
  X void a_asg_##n(n & a, n & b) { a = b; }                                   \
  X void a_asgs_##n(n & a, double s) { a = s; }                               \
  X void a_copy_##n(n & b, n & o) { n c(b); memcpy((void *)&o, (void *)&c, sizeof o); } \
  X void a_fill_##n(double s, n & o) { n c(s); memcpy((void *)&o, (void *)&c, sizeof o); }   \
  X uint64_t a_eq_##n(n & a, n & b) { return a == b; }                        \
  X uint64_t a_ne_##n(n & a, n & b) { return a != b; }                        \
  X uint64_t a_eqx_##n(n & a) { return (a == a) | (a != a) << 1; }
ALG(v1) ALG(v2) ALG(v3) ALG(v4) ALG(g23) ALG(g33) ALG(s3) ALG(s333)
// copies: a partially written temporary would show
#define L(n, ...) X void c_##n(double * x, n & o) { n t __VA_ARGS__; memcpy((void *)&o, (void *)&t, sizeof o); }
#define L2(n, s, ...) X void c##s##_##n(double * x, n & o) { n t __VA_ARGS__; memcpy((void *)&o, (void *)&t, sizeof o); }
L2(v2, i, {x[0], x[1]}) L2(v3, i, {x[0], x[1], x[2]}) L2(v4, i, {x[0], x[1], x[2], x[3]})
L2(v2, v, (x[0], x[1])) L2(v3, v, (x[0], x[1], x[2])) L2(v4, v, (x[0], x[1], x[2], x[3]))
L2(s3, i, {x[0], x[1], x[2], x[3], x[4], x[5]}) L2(s3, v, (x[0], x[1], x[2], x[3], x[4], x[5]))
L2(v1, i, {x[0]}) L2(v1, v, (x[0])) 
L2(g23, i, {x[0], x[1], x[2], x[3], x[4], x[5]}) L2(g23, v, (x[0], x[1], x[2], x[3], x[4], x[5]))
#define ONE(n) X void c1_##n(double * x, n & o) { std::initializer_list<double> l = {x[0]}; n t(l); memcpy((void *)&o, (void *)&t, sizeof o); }
ONE(v1) ONE(v2) ONE(v3) ONE(v4) ONE(s3) ONE(g23)
// geometry
#define GEO(n)                                                          \
  X double e_distance_##n(n & a, n & b) { return distance(a, b); }      \
  X double e_dot_##n(n & a, n & b) { return dot(a, b); }                \
  X double e_mag_##n(n & a) { return magnitude(a); }                    \
  X void e_mid_##n(n & a, n & b, n & o) { o = midpoint(a, b); }
GEO(v1) GEO(v2) GEO(v3)
#define CRS(n) X void e_cross_##n(n & a, n & b, n & o) { o = cross(a, b); } X double e_crossm_##n(n & a, n & b) { return cross_magnitude(a, b); }
CRS(v1) CRS(v2) CRS(v3)
#define NRM(n) X void e_normal_##n(n & a, n & b, n & o) { o = normal(a, b); }
NRM(v2) NRM(v3)
#define CEN(n) X void e_centroid_##n(std::vector<n> & p, n & o) { o = centroid(p); }
CEN(v1) CEN(v2) CEN(v3)
