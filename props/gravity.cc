// gravity kernels of the multipole walk
#include "hydro.h"
#include "fmm.h"
#include "bodyget.h"
#include "nodeget.h"
using VB = std::vector<body *>;
X void w_p2p(double & pot, point_t & a, point_t & b, double m, point_t & o) { o = fmm::gravitation_p2p(pot, a, b, m); }
X void w_fc_node(double & pc, point_t & fc, point_t & x, node & s) { fmm::gravitation_fc(pc, fc, x, (const node *)&s); }
X void w_fc_body(double & pc, point_t & fc, point_t & x, body & s) { fmm::gravitation_fc(pc, fc, x, (const body *)&s); }
X void w_c2p(body & b, node & s) { fmm::interaction_c2p(&b, &s); }
X void w_c2c(node & a, node & b) { fmm::taylor_c2c(&a, &b); }
X void w_p2c(node & a, body & b) { fmm::taylor_p2c(&a, &b); }
X void w_fmm_p2p(VB & s, node & n, VB & q) { fmm::fmm_p2p(s, &n, q); }
X void w_fmm_p2p0(VB & s, VB & q) { fmm::fmm_p2p(s, nullptr, q); }
X void w_fmm_p2p1(body & b, node & n, VB & q) { VB s(1, &b); fmm::fmm_p2p(s, &n, q); }
X void w_fmm_p2p10(body & b, VB & q) { VB s(1, &b); fmm::fmm_p2p(s, nullptr, q); }
X void w_fmm_c2p(node & n, VB & s) { fmm::fmm_c2p(&n, s); }
X void w_pair(point_t & a, double m, point_t & b, double n, point_t & fa, point_t & fb) {
  double p = 0;
  fa = m * fmm::gravitation_p2p(p, a, b, n);
  fb = n * fmm::gravitation_p2p(p, b, a, m);
}
