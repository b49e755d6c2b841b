// whole lattices. usage: lat SEED0 NCASES lat
#include "hydro.h"
#include <numeric>
#include <fstream>
#include <random>
#include "lattice.h"
#include "bodies_system.h"
#include "wholerun.h"
namespace pl = particle_lattice;
using P3 = std::array<double, 3>;
static double d2(const P3 & a, const P3 & b) {
  return (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]);
}
static int one(uint64_t seed) {
  std::mt19937_64 g(seed * 6007 + 5);
  for(int64_t k = 0, all = 0; k < 590; ++k) {
    what_ = text("icosahedral shell %ld", (long)k);
    int64_t sh = pl::npart_icosahedral_shell(k), sp = pl::npart_icosahedral_sphere(k);
    CHK(sh == (k ? 10 * k * k + 2 : 1), "%ld particles", (long)sh);
    CHK(sp == (all += sh), "%ld particles up to it, should be %ld", (long)sp, (long)all);
  }
  int lat = D == 1 ? g() % 2 : D == 2 ? g() % 3 : seed % 5, dom = g() % 2;
  double sep = std::pow(10., 2 * uni(g) - 1);
  point_t a, b;
  double side[3] = {0, 0, 0}, mside = 1e300;
  bool cube = lat > 2 || g() % 3 == 0;
  double w = sep * (lat == 3 ? 2.2 + 18 * uni(g) * uni(g) : lat > 2 ? 2.2 + 5 * uni(g) : (D == 3 ? 2 + 8 * uni(g) : D == 2 ? 1 + 25 * uni(g) : .5 + 100 * uni(g)));
  if(g() % 3 == 0)
    w = sep * std::max(1., std::round(w / sep)); // points on the upper sides
  for(int d = 0; d < D; ++d) {
    side[d] = cube ? w : w * (.5 + uni(g));
    a[d] = lat == 4 || g() % 2 ? -.5 * side[d] : sep * (20 * uni(g) - 10);
    b[d] = a[d] + side[d];
    side[d] = b[d] - a[d];
    mside = std::min(mside, side[d]);
  }
  strcpy(param::_density_profile, lat == 3 ? (g() % 2 ? "constant" : "parabolic") : lat == 4 && g() % 2 ? "parabolic" : "constant");
  density_profiles::select();
  param::_lattice_type = lat;
  what_ = text("seed %lu, lattice %d, domain %d, separation %g, side %g, profile %s", (unsigned long)seed, lat, dom, sep, side[0], param::_density_profile);
  pl::select();
  int64_t id0 = g() % 3 ? 0 : 1 + g() % 20;
  int64_t n = pl::count(lat, dom, a, b, sep, id0);
  CHK(n >= (lat < 3 && dom == 1 ? 0 : 1) && n < 200000, "%ld particles counted", (long)n);
  const double mark = -7.25e99;
  std::vector<double> x[3];
  for(auto & v : x)
    v.assign(id0 + n + 2000, mark);
  int64_t m = pl::generate(lat, dom, a, b, sep, id0, x[0].data(), x[1].data(), x[2].data());
  CHK(m == n, "%ld particles counted, %ld generated", (long)n, (long)m);
  std::vector<P3> p;
  for(size_t i = 0; i < x[0].size(); ++i) {
    bool in = (int64_t)i >= id0 && (int64_t)i < id0 + n;
    for(int d = 0; d < 3; ++d)
      CHK((x[d][i] != mark) == in, "entry %zu of %ld from %ld is %s", i, (long)n, (long)id0, in ? "missing" : "changed");
    if(in)
      p.push_back({x[0][i], x[1][i], x[2][i]});
  }
  // how far inside the domain (negative: outside)
  auto depth = [&](const P3 & q) {
    double t = 1e300, r2 = 0;
    for(int d = 0; d < D; ++d) {
      t = std::min(t, std::min(q[d] - a[d], b[d] - q[d]));
      r2 += (q[d] - .5 * (a[d] + b[d])) * (q[d] - .5 * (a[d] + b[d]));
    }
    if(dom == 1 && D > 1)
      t = std::min(t, .5 * mside - std::sqrt(r2));
    return t;
  };
  double tol = 1e-5 * side[0];
  for(auto & q : p) {
    CHK(depth(q) > -tol, "particle at %.12g %.12g %.12g outside the domain", q[0], q[1], q[2]);
    for(int d = 0; d < D; ++d)
      CHK(q[d] < b[d] - .1 * 1e-6 * side[0] || lat == 3, "particle on the upper side: direction %d, %.12g of %.12g", d, q[d], b[d]);
    for(int d = D; d < 3; ++d)
      CHK(q[d] == 0, "coordinate %d is %g", d, q[d]);
  }
  if(lat == 4) {
    int64_t want = (mside / sep + 1) * (mside / sep + 1) * (mside / sep + 1);
    CHK(std::abs(n - want) <= 1, "%ld particles, should be %ld", (long)n, (long)want);
    return 1;
  }
  if(lat == 3) {
    P3 c{.5 * (a[0] + b[0]), .5 * (a[1] + b[1]), .5 * (a[2] + b[2])};
    std::vector<double> r;
    for(auto & q : p)
      r.push_back(std::sqrt(d2(q, c)));
    std::sort(r.begin(), r.end());
    CHK(r[0] < 1e-9 * mside, "no particle in the centre");
    // full shells up to the one the domain cuts
    size_t at = 1;
    for(int k = 1; at < r.size(); ++k) {
      size_t e = at;
      while(e < r.size() && r[e] - r[at] < 1e-7 * mside)
        ++e;
      CHK((int64_t)(e - at) == pl::npart_icosahedral_shell(k) || e == r.size() || r[at] > .5 * mside * (1 - 1e-4), "shell %d at radius %g has %zu particles", k, r[at], e - at);
      CHK((int64_t)(e - at) <= 10l * k * k + 2, "shell %d has %zu particles", k, e - at);
      at = e;
    }
    for(size_t i = 0; i < p.size(); ++i)
      for(size_t j = 0; j < i; ++j)
        CHK(d2(p[i], p[j]) > .01 * sep * sep, "particles %zu and %zu are %g separations apart", j, i, std::sqrt(d2(p[i], p[j])) / sep);
    return 1;
  }
  // regular lattices
  int full = D == 1 ? 2 : D == 2 ? (lat == 0 ? 4 : 6) : lat == 0 ? 6 : 12;
  double e = 1e-7;
  bool corner = false;
  std::vector<std::vector<P3>> stencils;
  for(auto & q : p) {
    double c = 0;
    for(int d = 0; d < D; ++d)
      c = std::max(c, std::abs(q[d] - a[d]));
    corner |= c <= 1e-9 * side[0];
    std::vector<P3> v;
    for(auto & o : p) {
      double r = std::sqrt(d2(q, o)) / sep;
      CHK(&o == &q || r > 1 - e, "particles %.9g %.9g %.9g and %.9g %.9g %.9g are %.9g separations apart", q[0], q[1], q[2], o[0], o[1], o[2], r);
      if(&o != &q && r < 1 + e)
        v.push_back({o[0] - q[0], o[1] - q[1], o[2] - q[2]});
    }
    CHK((int)v.size() <= full, "particle with %d neighbours at the separation", (int)v.size());
    if(depth(q) > 1.001 * sep + tol) {
      CHK((int)v.size() == full, "inner particle %.9g %.9g %.9g with %d neighbours at the separation, should be %d", q[0], q[1], q[2], (int)v.size(), full);
      int opp = 0;
      for(auto & s : v)
        for(auto & u : v)
          opp += d2(s, {-u[0], -u[1], -u[2]}) < e * sep * sep;
      bool known = false;
      for(auto & st : stencils) {
        int both = 0;
        for(auto & s : st)
          for(auto & u : v)
            both += d2(s, u) < e * sep * sep;
        known |= both == full;
      }
      if(!known)
        stencils.push_back(v);
      CHK(opp == (D == 3 && lat == 1 ? 6 : full), "%d of %d neighbours have one opposite", opp, full);
    }
  }
  if(dom == 0 || D == 1)
    CHK(corner, "no particle in the lower corner");
  // complete: wherever the domain reaches, the neighbours found around inner particles are there
  if(stencils.size()) {
    CHK(stencils.size() <= (D == 3 && lat == 1 ? 2 : 1), "%zu arrangements of neighbours", stencils.size());
    for(auto & q : p) {
      int best = 1000;
      P3 hole{0, 0, 0};
      for(auto & st : stencils) {
        int miss = 0;
        P3 h{0, 0, 0};
        for(auto & s : st) {
          P3 o{q[0] + s[0], q[1] + s[1], q[2] + s[2]};
          if(depth(o) < tol)
            continue;
          bool found = false;
          for(auto & x : p)
            if(d2(x, o) < e * sep * sep) {
              found = true;
              break;
            }
          if(!found) {
            ++miss;
            h = o;
          }
        }
        if(miss < best) {
          best = miss;
          hole = h;
        }
      }
      CHK(best == 0 || (D == 3 && lat == 1 && stencils.size() == 1), "no particle at %.9g %.9g %.9g inside the domain", hole[0], hole[1], hole[2]);
    }
  }
  return 1;
}
int main(int argc, char ** argv) {
  return run_all(argc, argv, [](uint64_t s, const std::string &) { return one(s); });
}
