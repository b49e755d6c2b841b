// initial data generators: usage genrun SEED0 NCASES gen (one process)
#include "hydro.h"
#include <climits>
#include <set>
#include <fstream>
#include <hdf5.h>
#include <iomanip>
#include <libgen.h>
#include <numeric>
#include <random>
#include <sstream>
#include "density_profiles.h"
#include "bodies_system.h"
#include "wholerun.h"
static int no_init_(int *, char ***) {
  return 0;
}
#define main gen_main
#define MPI_Init(a, b) no_init_(a, b)
#define MPI_Finalize() 0
#if GEN == 1
#include "id_generators/sedov/main.cc"
#elif GEN == 2
#include "id_generators/noh/main.cc"
#elif GEN == 4
#include "id_generators/KH/main.cc"
#elif GEN == 5
#include "id_generators/RT/main.cc"
#else
#include "id_generators/sodtube/main.cc"
#endif
#undef main
#undef MPI_Init
#undef MPI_Finalize
#include <sys/wait.h>
#include <unistd.h>

static void near(double got, double want, const char * what, long id) {
  CHK(std::abs(got - want) <= 1e-11 * (std::abs(want) + 1e-3), "%s of particle %ld is %.15g, should be %.15g", what, id, got, want);
}
#if GEN == 3
// shock tubes: two states, the first in the middle third
static int one(uint64_t seed) {
  using namespace param;
  std::mt19937_64 g(seed * 104729 + 19);
  static const double st[6][6] = {{1., 1., 0., .125, .1, 0.}, {1., .4, -2., 1., .4, 2.}, {1., 1000., 0., 1., .01, 0.}, {1., .01, 0., 1., 100., 0.},
    {5.99924, 460.894, 19.5975, 5.99242, 46.095, -6.19633}, {1., 1e-6, 1., 1., 1e-6, -1.}};
  int tst = 1 + g() % 6, lat = g() % 3, nx = D == 1 ? 13 + g() % 100 : D == 2 ? 13 + g() % 20 : 13 + g() % 6;
  bool em = g() % 2;
  double L = 3, W = 1, H = 1, gam = 1.2 + uni(g), eta = 1.2 + uni(g);
  if(em)
    L = 1 + 3 * uni(g), W = L * (.3 + .3 * uni(g)), H = L * (.3 + .3 * uni(g));
  const char * kn[] = {"cubic spline", "wendland c4", "gaussian", "quintic_spline"};
  std::string s = text("initial_data_prefix = \"gen\"\nlattice_nx = %d\nlattice_type = %d\nbox_length = %.17g\nbox_width = %.17g\nbox_height = %.17g\n"
    "poly_gamma = %.17g\nsph_eta = %.17g\nsph_kernel = %s\nsodtest_num = %d\nequal_mass = %s\n",
    nx, lat, L, W, H, gam, eta, kn[g() % 4], tst, em ? "yes" : "no");
  what_ = text("seed %lu, test %d, lattice %d, nx %d, %s", (unsigned long)seed, tst, lat, nx, em ? "equal mass" : "equal separation");
  std::ofstream("gen.par") << s;
  char a0[] = "gen", a1[] = "gen.par", *av[] = {a0, a1, nullptr};
  gen_main(2, av);
  body_system<double, gdimension> bs;
  bs.read_bodies("gen", "", 0);
  auto & b = bs.getLocalbodies();
  const double * S = st[tst - 1];
  double sep = L / ((nx - 1) / 3 * 3), rat = em ? std::pow(S[0] / S[3], 1. / D) : 1, f = lat == 0 || D == 1 ? 1. : D == 2 ? std::sqrt(3.) / 2 : 1 / std::sqrt(2.);
  double ext[3] = {L, W, H}, cut[4] = {-L / 6, L / 6, L / 2, -L / 2};
  int64_t n = 0, cnt[3];
  std::vector<double> x, y, z;
  for(int k = 0; k < 3; ++k) { // middle, right, left
    point_t lo, hi;
    for(int d = 0; d < D; ++d)
      hi[d] = ext[d] / 2, lo[d] = -hi[d];
    lo[0] = k == 0 ? cut[0] : k == 1 ? cut[1] : cut[3];
    hi[0] = k == 0 ? cut[1] : k == 1 ? cut[2] : cut[0];
    double sp = k == 0 ? sep : sep * rat;
    cnt[k] = particle_lattice::count(lat, 0, lo, hi, sp, n);
    x.resize(n + cnt[k] + 1), y.resize(n + cnt[k] + 1), z.resize(n + cnt[k] + 1);
    particle_lattice::generate(lat, 0, lo, hi, sp, n, x.data(), y.data(), z.data());
    n += cnt[k];
  }
  CHK((int64_t)b.size() == n, "%zu particles, the lattices have %ld", b.size(), (long)n);
  std::vector<body *> at(n, nullptr);
  for(auto & p : b) {
    CHK((int64_t)p.id() >= 0 && (int64_t)p.id() < n && !at[p.id()], "identifier %ld is taken twice or out of range", (long)p.id());
    at[p.id()] = &p;
  }
  for(int64_t i = 0; i < n; ++i) {
    body & p = *at[i];
    double q[3] = {x[i], y[i], z[i]};
    for(int d = 0; d < D; ++d)
      near(p.coordinates()[d], q[d], "position", i);
    if(std::abs(std::abs(q[0]) - L / 6) < 1e-4 * L)
      continue; // on the interface
    bool in = i < cnt[0];
    const double * s = S + (in ? 0 : 3);
    double m = em ? S[0] * std::pow(sep, D) * f : s[0] / (in ? cnt[0] : cnt[1]);
    near(p.getDensity(), s[0], "density", i);
    near(p.getPressure(), s[1], "pressure", i);
    near(p.getInternalenergy(), s[1] / (gam - 1) / s[0], "internal energy", i);
    near(p.mass(), m, "mass", i);
    near(p.radius(), eta * kernels::kernel_width * std::pow(m / s[0], 1. / D), "smoothing length", i);
    for(int d = 0; d < D; ++d)
      near(p.getVelocity()[d], d ? 0 : s[2], "velocity", i);
  }
  return 1;
}
#elif GEN >= 4
// two fluids: shear layers, and a heavy one on top of a light one
static int one(uint64_t seed) {
  using namespace param;
  std::mt19937_64 g(seed * 104729 + 23);
  int lat = g() % 3, nx = D == 2 ? 12 + g() % 20 : 9 + g() % 6;
  double L = .6 + uni(g), W = L * (.8 + .8 * uni(g)), H = L * (.6 + .4 * uni(g)), gam = 1.2 + uni(g), eta = 1.2 + uni(g), rho0 = .2 + 2 * uni(g), P0 = .1 + 5 * uni(g),
         ratio = 1.2 + 3 * uni(g), v = uni(g), amp = .5 * uni(g), wave = .1 + uni(g), strip = .2 * uni(g), mode = 1 + g() % 4, grav = -.1 - uni(g);
  const char * kn[] = {"cubic spline", "wendland c4", "gaussian", "quintic_spline"};
  std::string s = text("initial_data_prefix = \"gen\"\nlattice_nx = %d\nlattice_type = %d\nbox_length = %.17g\nbox_width = %.17g\nbox_height = %.17g\n"
    "poly_gamma = %.17g\nsph_eta = %.17g\nsph_kernel = %s\nrho_initial = %.17g\npressure_initial = %.17g\ndensity_ratio = %.17g\nequal_mass = yes\n"
    "flow_velocity = %.17g\nKH_A = %.17g\nKH_lambda = %.17g\nrt_perturbation_amplitude = %.17g\nrt_perturbation_stripe_width = %.17g\n"
    "rt_perturbation_mode = %.17g\ngravity_acceleration_constant = %.17g\n",
    nx, lat, L, W, H, gam, eta, kn[g() % 4], rho0, P0, ratio, v, amp, wave, amp, strip, mode, grav);
  what_ = text("seed %lu, lattice %d, nx %d, box %g x %g x %g, ratio %g", (unsigned long)seed, lat, nx, L, W, H, ratio);
  std::ofstream("gen.par") << s;
  char a0[] = "gen", a1[] = "gen.par", *av[] = {a0, a1, nullptr};
  gen_main(2, av);
  body_system<double, gdimension> bs;
  bs.read_bodies("gen", "", 0);
  auto & b = bs.getLocalbodies();
  int64_t n = b.size();
  std::vector<body *> at(n, nullptr);
  for(auto & p : b) {
    CHK((int64_t)p.id() >= 0 && (int64_t)p.id() < n && !at[p.id()], "identifier %ld is taken twice or out of range", (long)p.id());
    at[p.id()] = &p;
  }
  CHK(n > 0, "no particles");
  double f = lat == 0 ? 1. : D == 2 ? std::sqrt(3.) / 2 : 1 / std::sqrt(2.), M = at[0]->mass(), ext[3] = {L, W, H};
  double in = 0, out = INFINITY; // extent of the dense layer, start of the others
  int64_t heavy = 0, light = 0;
#if GEN == 5
  double sep = L / (nx - 1), sept = sep / std::pow(ratio, 1. / D), dy = lat ? sep * std::sqrt(3.) : sep;
  point_t lo, hi, mid, low;
  for(int d = 0; d < D; ++d)
    hi[d] = ext[d] / 2, lo[d] = -hi[d];
  mid = hi, mid[1] = 0, low = lo, low[1] = 0;
  lo[1] = -int(W / 2 / dy) * dy;
  int64_t nb = particle_lattice::count(lat, 0, lo, mid, sep, 0), nt = particle_lattice::count(lat, 0, low, hi, sept, nb);
  CHK(n == nb + nt, "%ld particles, the lattices have %ld and %ld", (long)n, (long)nb, (long)nt);
  std::vector<double> x(n + 1), y(n + 1), z(n + 1);
  particle_lattice::generate(lat, 0, lo, mid, sep, 0, x.data(), y.data(), z.data());
  particle_lattice::generate(lat, 0, low, hi, sept, nb, x.data(), y.data(), z.data());
#endif
  for(int64_t i = 0; i < n; ++i) {
    body & p = *at[i];
    auto q = p.coordinates();
    bool dense = p.getDensity() > rho0 * (1 + ratio) / 2;
    near(p.getDensity(), dense ? rho0 * ratio : rho0, "density", i);
    near(p.mass(), M, "mass", i);
    near(p.getInternalenergy(), p.getPressure() / (gam - 1) / p.getDensity(), "internal energy", i);
    near(p.radius(), eta * kernels::kernel_width * std::pow(M / p.getDensity(), 1. / D), "smoothing length", i);
    (dense ? heavy : light)++;
    double want[3] = {0, 0, 0};
#if GEN == 4
    for(int d = 0; d < D; ++d)
      CHK(std::abs(q[d]) <= ext[d] / 2 * (1 + 1e-6), "particle %ld is outside the box: %g", (long)i, q[d]);
    if(dense)
      in = std::max(in, std::abs(q[1]));
    else
      out = std::min(out, std::abs(q[1]));
    near(p.getPressure(), P0, "pressure", i);
    want[0] = dense ? v / 2 : -v / 2;
    double a = std::abs(q[1]);
    if(a < .25 && a > .225)
      want[1] = (q[1] > 0 ? -1 : 1) * amp * std::sin(2 * M_PI * (q[0] + .5) / wave);
    if(std::abs(a - .25) < 1e-9 || std::abs(a - .225) < 1e-9)
      want[1] = p.getVelocity()[1];
#else
    double c[3] = {x[i], y[i], z[i]};
    for(int d = 0; d < D; ++d)
      near(q[d], c[d], "position", i);
    near(M, rho0 * std::pow(sep, D) * f, "mass", i);
    if(std::abs(q[1]) > 1e-4 * sep)
      CHK(dense == (q[1] > 0), "particle %ld at height %g has density %g", (long)i, q[1], p.getDensity());
    // the weight of what is above
    near(p.getPressure(), 2.5 + grav * (dense ? rho0 * ratio * (W / 2 - q[1]) : rho0 * ratio * W / 2 - rho0 * q[1]), "pressure", i);
    if(std::abs(q[1]) < strip / 2) {
      want[1] = -amp * (1 + std::cos(2 * M_PI * q[0] / L * mode)) * std::cos(M_PI * q[1] / strip);
      if(D == 3)
        want[1] *= 1 + std::cos(2 * M_PI * q[D - 1] / L * mode);
    }
    if(std::abs(std::abs(q[1]) - strip / 2) < 1e-9)
      want[1] = p.getVelocity()[1];
#endif
    for(int d = 0; d < D; ++d)
      near(p.getVelocity()[d], want[d], "velocity", i);
  }
#if GEN == 4
  CHK(in < out, "the layers overlap: %g %g", in, out);
  // mass = density times cell of the lattice, in every layer
  for(int k = 0; k < 3; ++k) {
    std::vector<body *> in;
    for(auto p : at) {
      bool dense = p->getDensity() > rho0 * (1 + ratio) / 2;
      if(k == 0 ? dense : !dense && (k == 1) == (p->coordinates()[1] > 0))
        in.push_back(p);
    }
    if(in.empty())
      continue;
    auto axis = [&](int d) { // spacing along d of those that share the other coordinates further out with the first
      std::set<long> at;
      double lo = INFINITY, hi = -INFINITY;
      for(auto p : in) {
        bool same = true;
        for(int e = d + 1; e < D; ++e)
          same &= std::abs(p->coordinates()[e] - in[0]->coordinates()[e]) < 1e-6 * L;
        if(!same)
          continue;
        double q = p->coordinates()[d];
        at.insert(std::lround(q / (1e-6 * L))), lo = std::min(lo, q), hi = std::max(hi, q);
      }
      long n = 0, last = LONG_MIN / 2;
      for(long x : at)
        n += x - last > 3, last = x;
      return n > 1 ? (hi - lo) / (n - 1) : 0.;
    };
    double cell = 1;
    for(int d = 0; d < D; ++d)
      cell *= axis(d);
    if(cell > 0)
      CHK(std::abs(M / in[0]->getDensity() / cell - 1) < 1e-6, "mass %g is not density %g times cell %g (layer %d)", M, in[0]->getDensity(), cell, k);
  }
#endif
  return 1;
}
#else
static int one(uint64_t seed) {
  using namespace param;
  std::mt19937_64 g(seed * 104729 + 17);
  int dom = D == 1 ? 0 : g() % 2, lat = g() % (dom ? 3 : 3), nx = (D == 1 ? 5 + g() % 60 : D == 2 ? 5 + g() % 14 : 5 + g() % 5);
  const char * profs[] = {"constant", "parabolic", "mesa", "constant"};
  std::string prof = dom == 1 && D == 3 ? profs[g() % 3] : "constant";
  double L = .5 + 2 * uni(g), W = L * (.6 + uni(g)), H = L * (.6 + uni(g)), R = .3 + uni(g), gam = 1.2 + uni(g), rho0 = .1 + 2 * uni(g), P0 = std::pow(10., -4 * uni(g)),
         eta = 1.2 + uni(g), E = .1 + 5 * uni(g), rb = (dom ? R : L / 2) * (.2 + .6 * uni(g)), v0 = .05 + uni(g), dt = std::pow(10., -5 + 3 * uni(g));
  const char * kn[] = {"cubic spline", "wendland c4", "gaussian", "quintic_spline"};
  std::string s = text("initial_data_prefix = \"gen\"\nlattice_nx = %d\nlattice_type = %d\ndomain_type = %d\nbox_length = %.17g\nbox_width = %.17g\nbox_height = %.17g\n"
    "sphere_radius = %.17g\npoly_gamma = %.17g\nrho_initial = %.17g\npressure_initial = %.17g\nsph_eta = %.17g\ninitial_dt = %.17g\n"
    "sph_kernel = %s\ndensity_profile = \"%s\"\n",
    nx, lat, dom, L, W, H, R, gam, rho0, P0, eta, dt, kn[g() % 4], prof.c_str());
  double amp = 0;
#if GEN == 1
  if(g() % 3 == 0)
    amp = .1 * uni(g);
  std::string s0 = s;
  s += text("sedov_blast_energy = %.17g\nsedov_blast_radius = %.17g\nlattice_perturbation_amplitude = %.17g\n", E, rb, amp);
#else
  s += text("noh_infall_velocity = %.17g\n", v0);
#endif
  what_ = text("seed %lu, %s, domain %d, lattice %d, nx %d", (unsigned long)seed, prof.c_str(), dom, lat, nx);
  std::ofstream("gen.par") << s;
  char a0[] = "gen", a1[] = "gen.par", *av[] = {a0, a1, nullptr};
  gen_main(2, av);
  body_system<double, gdimension> bs;
  bs.read_bodies("gen", "", 0);
#if GEN == 1
  if(amp == 0 && g() % 2) { // again, with a particle on the edge
    auto & c = bs.getLocalbodies();
    double r = magnitude(c[g() % c.size()].coordinates());
    if(r > 0) {
      rb = r;
      what_ += text(", edge at %.17g", r);
      std::ofstream("gen.par") << s0 << text("sedov_blast_energy = %.17g\nsedov_blast_radius = %.17g\n", E, rb);
      gen_main(2, av);
      bs.getLocalbodies().clear();
      bs.read_bodies("gen", "", 0);
    }
  }
#endif
  auto & b = bs.getLocalbodies();
  // the lattice asked for, in its order
  double sep = (dom ? 2 * R : L) / (nx - 1);
  point_t lo, hi;
  double ext[3] = {L, W, H};
  for(int d = 0; d < D; ++d)
    hi[d] = dom ? R : ext[d] / 2, lo[d] = -hi[d];
  int64_t n = particle_lattice::count(lat, dom, lo, hi, sep, 0);
  CHK((int64_t)b.size() == n, "%zu particles, the lattice has %ld", b.size(), (long)n);
  std::vector<double> x(n + 1), y(n + 1), z(n + 1);
  particle_lattice::generate(lat, dom, lo, hi, sep, 0, x.data(), y.data(), z.data());
  double vol = D == 1 ? L : D == 2 ? (dom ? M_PI * R * R : L * W) : dom ? R * R * R / density_profiles::spherical_density_profile(0.) : L * W * H;
  double m = rho0 * vol / n, Mb = 0, K0 = P0 / std::pow(rho0, gam), extra = 0;
  std::vector<body *> at(n, nullptr);
  for(auto & p : b) {
    CHK((int64_t)p.id() >= 0 && (int64_t)p.id() < n && !at[p.id()], "identifier %ld is taken twice or out of range", (long)p.id());
    at[p.id()] = &p;
  }
  bool edge = false;
  for(int64_t i = 0; i < n; ++i) {
    double q[3] = {x[i], y[i], z[i]}, r = 0;
    for(int d = 0; d < D; ++d)
      r += q[d] * q[d];
    r = std::sqrt(r);
    edge |= std::abs(r - rb) < 1e-9;
    if(r < rb)
      Mb += m;
  }
#if GEN == 1
  // the energy asked for goes to the blast, whoever is in it
  double have = 0;
  for(auto & p : b) {
    double q[3] = {x[p.id()], y[p.id()], z[p.id()]}, r = 0;
    for(int d = 0; d < D; ++d)
      r += q[d] * q[d];
    double rho = rho0 * density_profiles::spherical_density_profile(std::sqrt(r) / R) / density_profiles::spherical_density_profile(0.);
    if(rho > 0)
      have += p.mass() * (p.getInternalenergy() - K0 * std::pow(rho, gam - 1) / (gam - 1));
  }
  if(have > 1e-6 * E || Mb > 0 && !edge)
    CHK(std::abs(have - E) < 1e-8 * E, "blast energy of the particles is %.15g, should be %.15g", have, E);
#endif
  if(edge)
    return 1;
  for(int64_t i = 0; i < n; ++i) {
    body & p = *at[i];
    double q[3] = {x[i], y[i], z[i]}, r = 0;
    for(int d = 0; d < D; ++d) {
      if(amp == 0)
        near(p.coordinates()[d], q[d], "position", i);
      r += q[d] * q[d];
    }
    r = std::sqrt(r);
    double rho = rho0 * density_profiles::spherical_density_profile(r / R) / density_profiles::spherical_density_profile(0.);
    double u = K0 * std::pow(rho, gam - 1) / (gam - 1);
    near(p.mass(), m, "mass", i);
    if(rho <= 0)
      continue;
    if(amp > 0)
      for(int d = 0; d < D; ++d)
        CHK(std::abs(p.coordinates()[d] - q[d]) <= 12 * amp * p.radius(), "particle %ld is %g from its place", (long)i, p.coordinates()[d] - q[d]);
    near(p.radius(), eta * kernels::kernel_width * std::pow(m / rho, 1. / D), "smoothing length", i);
#if GEN == 1
    near(p.getDensity(), rho, "density", i);
    if(r < rb)
      u += E / Mb, extra += E / Mb * m;
    for(int d = 0; d < D; ++d)
      near(p.getVelocity()[d], 0, "velocity", i);
#else
    if(prof == "constant")
      near(p.getDensity(), rho, "density", i);
    for(int d = 0; d < D; ++d)
      near(p.getVelocity()[d], r > 0 ? -v0 * q[d] / r : 0., "velocity", i);
#endif
    near(p.getInternalenergy(), u, "internal energy", i);
    near(p.getPressure(), (gam - 1) * rho * u, "pressure", i);
    near(p.getDt(), dt, "time step", i);
  }
  return 1;
}
#endif
int main(int argc, char ** argv) {
  return run_all(argc, argv, [](uint64_t s, const std::string &) { return one(s); });
}
