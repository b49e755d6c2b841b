// whole-tree runs: build_tree, neighbour walk, radius search, multipole walk,
// compared with direct loops over all particles. usage: walk SEED0 NCASES MODE
#include "hydro.h"
#include "fmm.h"
#include <cstdarg>
#include <cstdio>
#include <random>
using namespace flecsi;
static int rank_ = 0, size_ = 1;
static std::string what_;
[[noreturn]] static void fail(const char * f, ...) {
  char b[800];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  printf("FAIL rank %d of %d: %s: %s\n", rank_, size_, what_.c_str(), b);
  fflush(stdout);
  _exit(1);
}
#define CHK(c, ...) \
  do { \
    if(!(c)) \
      fail(__VA_ARGS__); \
  } while(0)

static constexpr int D = gdimension;
using key_t_ = key_type;
struct Case {
  std::vector<body> b; // sorted by key, distinct deepest keys
  range_t range;
  std::string desc;
};

static double uni(std::mt19937_64 & g) {
  return std::uniform_real_distribution<double>(0., 1.)(g);
}

static Case make(uint64_t seed, bool big) {
  std::mt19937_64 g(seed * 7919 + 13);
  static const int sizes[] = {1, 2, 3, 4, 5, 8, 17, 60, 127, 128, 129, 130, 200, 350, 600};
  static const int bigs[] = {900, 1500, 2500};
  int n = big ? bigs[seed % 3] : sizes[seed % 15];
  if(n < size_ * 2)
    n = size_ * 2 + n;
  int place = (seed / 15) % 6, hkind = (seed / 3) % 5;
  double L = seed % 4 == 0 ? 1. : std::pow(10., 6 * uni(g) - 3);
  point_t lo, hi;
  for(int d = 0; d < D; ++d) {
    lo[d] = seed % 2 ? -L * uni(g) : 0.;
    hi[d] = lo[d] + L;
  }
  Case c;
  c.range = range_t{lo, hi};
  double base = std::pow(1. / n, 1. / D);
  std::vector<point_t> pos;
  std::vector<std::vector<double>> centres(4, std::vector<double>(D));
  for(auto & v : centres)
    for(auto & x : v)
      x = .2 + .6 * uni(g);
  int per = std::ceil(std::pow(n, 1. / D));
  for(int i = 0; i < n; ++i) {
    point_t p;
    for(int d = 0; d < D; ++d) {
      double u = uni(g);
      if(place == 1) { // a few tight groups
        double w = std::pow(10., -1 - (i % 4));
        u = centres[i % 4][d] + w * (u - .5);
      }
      else if(place == 2) { // lattice
        int q = i;
        for(int k = 0; k < d; ++k)
          q /= per;
        u = ((q % per) + .5) / per;
      }
      else if(place == 3) // strongly stretched
        u = d == 0 ? u : .5 + 1e-3 * (u - .5);
      else if(place == 4) // power law towards a corner
        u = std::pow(u, 4.);
      else if(place == 5) // two halves far apart
        u = (i % 3 == 0 ? 0. : .85) + .15 * u;
      u = std::min(std::max(u, 1e-9), 1. - 1e-9);
      p[d] = lo[d] + u * (hi[d] - lo[d]);
    }
    pos.push_back(p);
  }
  double h0 = L * base * (.3 + 3. * uni(g));
  for(int i = 0; i < n; ++i) {
    body b;
    b.set_coordinates(pos[i]);
    b.set_mass(.5 + uni(g));
    double h = h0;
    if(hkind == 1)
      h = h0 * (.5 + uni(g));
    if(hkind == 2)
      h = h0 * std::pow(10., 2 * uni(g) - 1.5);
    if(hkind == 3)
      h = uni(g) < .05 ? 5 * h0 : .2 * h0;
    if(hkind == 4)
      h = 1e-6 * L;
    b.set_radius(h);
    b.set_key(key_t_(c.range, pos[i]));
    c.b.push_back(b);
  }
  std::shuffle(c.b.begin(), c.b.end(), g);
  for(int i = 0; i < n; ++i)
    c.b[i].set_id(i);
  std::sort(c.b.begin(), c.b.end(), [](auto & l, auto & r) { return l.key() < r.key(); });
  std::vector<body> u;
  for(auto & b : c.b)
    if(u.empty() || u.back().key() != b.key())
      u.push_back(b);
  c.b = u;
  for(size_t i = 0; i < c.b.size(); ++i)
    c.b[i].set_id(i);
  char t[200];
  snprintf(t, sizeof t, "%dD case %lu (%zu particles, placement %d, lengths %d)", D, (unsigned long)seed, c.b.size(), place, hkind);
  c.desc = t;
  return c;
}

static double dist(const point_t & a, const point_t & b) {
  double s = 0;
  for(int d = 0; d < D; ++d)
    s += (a[d] - b[d]) * (a[d] - b[d]);
  return std::sqrt(s);
}


struct Tree {
  tree_topology_t t;
  const Case & c;
  size_t lo, hi;
  Tree(const Case & cc) : c(cc) {
    size_t n = c.b.size();
    // uneven contiguous shares
    std::mt19937_64 g(n * 31 + size_);
    std::vector<size_t> cut(size_ + 1, 0);
    cut[size_] = n;
    for(int r = 1; r < size_; ++r)
      cut[r] = n * r / size_;
    for(int r = 1; r < size_; ++r) {
      size_t a = cut[r - 1] + 1, b = cut[r + 1] - 1;
      if(b > a)
        cut[r] = a + g() % (b - a + 1);
    }
    lo = cut[rank_];
    hi = cut[rank_ + 1];
    t.set_range(c.range);
    t.entities().assign(c.b.begin() + lo, c.b.begin() + hi);
    t.build_tree(physics::compute_cofm);
  }
};

static void test_sph(const Case & c) {
  Tree T(c);
  const auto & B = c.b;
  int n = B.size();
  // walk, walk again, change the particles, reset, walk
  auto mass = [&](int j, int pass) { return B[j].mass() * (pass == 2 ? 1.25 : 1.); };
  auto rho = [&](int j, int pass) { return pass == 2 ? 3. + j : 0.; };
  for(size_t i = T.lo; i < T.hi; ++i)
    T.t.entities()[i - T.lo].setDensity(0.);
  T.t.reset_ghosts(physics::compute_cofm);
  for(int pass = 0; pass < 3; ++pass) {
    std::vector<int> called(n, 0);
    std::vector<int> seen(n, -1);
    int calls = 0;
    T.t.traversal_sph(
      [&](body & a, std::vector<body *> & nb, int arg) {
        CHK(arg == 42, "argument not passed on");
        int i = a.id();
        CHK(i >= (int)T.lo && i < (int)T.hi, "function called for particle %d, which this process does not hold", i);
        CHK(&a == &T.t.entities()[i - T.lo], "function called on a copy of particle %d", i);
        CHK(!called[i], "function called twice for particle %d", i);
        called[i] = 1;
        ++calls;
        for(body * q : nb) {
          int j = q->id();
          CHK(j >= 0 && j < n, "neighbour of particle %d is not a particle", i);
          CHK(q->coordinates() == B[j].coordinates() && q->radius() == B[j].radius() && q->mass() == mass(j, pass) && q->getDensity() == rho(j, pass) && q->key() == B[j].key(),
            "neighbour %d of particle %d carries wrong data", j, i);
          CHK(seen[j] != i, "neighbour %d listed twice for particle %d", j, i);
          seen[j] = i;
          CHK(dist(B[i].coordinates(), B[j].coordinates()) <= std::max(B[i].radius(), B[j].radius()) * (1 + 1e-12),
            "particle %d listed for %d although it lies beyond both smoothing lengths", j, i);
        }
        for(int j = 0; j < n; ++j)
          if(seen[j] != i)
            CHK(j != i && dist(B[i].coordinates(), B[j].coordinates()) > .5 * (B[i].radius() + B[j].radius()) * (1 - 1e-12),
              "particle %d missing from the neighbours of %d: distance %.17g, lengths %.17g %.17g", j, i,
              dist(B[i].coordinates(), B[j].coordinates()), B[i].radius(), B[j].radius());
      },
      42);
    CHK(calls == (int)(T.hi - T.lo), "function called for %d of %d particles", calls, (int)(T.hi - T.lo));
    for(size_t i = T.lo; i < T.hi; ++i) {
      const body & e = T.t.entities()[i - T.lo];
      CHK(e.coordinates() == B[i].coordinates() && e.radius() == B[i].radius() && e.mass() == mass(i, pass) && e.getDensity() == rho(i, pass), "particle %zu changed by the walk", i);
    }
    if(pass == 1) {
      for(size_t i = T.lo; i < T.hi; ++i) {
        T.t.entities()[i - T.lo].set_mass(mass(i, 2));
        T.t.entities()[i - T.lo].setDensity(rho(i, 2));
      }
      T.t.reset_ghosts(physics::compute_cofm);
    }
  }
}

static void test_radius(const Case & c, uint64_t seed) {
  Tree T(c);
  std::mt19937_64 g(seed + 77);
  const auto & B = c.b;
  int n = B.size();
  double L = c.range[1][0] - c.range[0][0];
  for(int q = 0; q < 25; ++q) {
    point_t p;
    if(q % 2)
      p = B[g() % n].coordinates();
    else
      for(int d = 0; d < D; ++d)
        p[d] = c.range[0][d] + L * (1.6 * uni(g) - .3);
    double r = q % 5 == 0 ? 0. : q % 5 == 1 ? dist(p, B[g() % n].coordinates()) : L * std::pow(10., 4 * uni(g) - 4);
    auto res = T.t.find_in_radius(p, r, 0);
    std::vector<int> in(n, 0);
    for(body * e : res) {
      int j = e->id();
      CHK(j >= 0 && j < n && e->coordinates() == B[j].coordinates(), "radius search returned something that is no particle");
      CHK(!in[j]++, "particle %d returned twice", j);
    }
    for(int j = 0; j < n; ++j) {
      double d = dist(p, B[j].coordinates()), x = std::max(r, B[j].radius());
      if(d <= x * (1 - 1e-12))
        CHK(in[j], "radius search misses particle %d: distance %.17g radius %.17g length %.17g", j, d, r, B[j].radius());
      if(d > x * (1 + 1e-12))
        CHK(!in[j], "radius search returns particle %d: distance %.17g radius %.17g length %.17g", j, d, r, B[j].radius());
    }
  }
}

// every ordered pair of distinct particles enters the multipole walk once
static void test_fmm(const Case & c, double mac) {
  Tree T(c);
  const auto & B = c.b;
  int n = B.size();
  std::vector<unsigned char> cnt((size_t)n * n, 0);
  // particles below a cell: a contiguous stretch of the sorted particles
  auto stretch = [&](key_t_ k, int & a, int & b) {
    key_t_ lo = k, hi = k;
    while(lo < key_t_::min()) {
      lo.push(0);
      hi.push((1 << D) - 1);
    }
    auto less = [](const body & x, const key_t_ & y) { return x.key() < y; };
    auto gr = [](const key_t_ & y, const body & x) { return y < x.key(); };
    a = std::lower_bound(B.begin(), B.end(), lo, less) - B.begin();
    b = std::upper_bound(B.begin(), B.end(), hi, gr) - B.begin();
  };
  std::map<uint64_t, std::vector<std::pair<int, int>>> pend;
  std::set<uint64_t> given;
  auto far = [&](const point_t & x, double rx, const point_t & y, double ry) {
    CHK(rx + ry < mac * dist(x, y) * (1 + 1e-12), "cells at distance %.17g with radii %.17g and %.17g taken as far", dist(x, y), rx, ry);
  };
  auto summary = [&](const node * s) {
    int a, b;
    stretch(s->key(), a, b);
    double M = 0;
    point_t x{};
    for(int j = a; j < b; ++j) {
      M += B[j].mass();
      x += B[j].mass() * B[j].coordinates();
    }
    CHK(b > a && s->sub_entities() == b - a && std::fabs(s->mass() - M) <= 1e-9 * M, "source cell does not summarise its particles: mass %.17g for %.17g, %d for %d particles", s->mass(), M, s->sub_entities(), b - a);
    CHK(dist(s->coordinates(), x / M) <= 1e-9 * (c.range[1][0] - c.range[0][0]), "source cell has a wrong centre");
    double R = 0;
    for(int j = a; j < b; ++j)
      R = std::max(R, dist(B[j].coordinates(), s->coordinates()));
    CHK(R <= s->radius() * (1 + 1e-9) + 1e-300, "a particle lies outside the radius of its cell");
  };
  auto hit = [&](int i, int j) {
    CHK(i >= (int)T.lo && i < (int)T.hi, "particle %d of another process used as sink", i);
    CHK(i != j, "particle %d acts on itself through a cell", i);
    CHK(!cnt[(size_t)i * n + j]++, "particle %d acts on %d twice", j, i);
  };
  T.t.traversal_fmm(
    mac,
    [&](node * s, const node * q) {
      summary(q);
      summary(s);
      far(s->coordinates(), s->radius(), q->coordinates(), q->radius());
      int a, b;
      stretch(q->key(), a, b);
      pend[s->key().value()].push_back({a, b});
    },
    [&](node * s, const body * q) {
      summary(s);
      far(s->coordinates(), s->radius(), q->coordinates(), 0.);
      int j = q->id();
      CHK(q->coordinates() == B[j].coordinates() && q->mass() == B[j].mass(), "source particle %d carries wrong data", j);
      pend[s->key().value()].push_back({j, j + 1});
    },
    [&](std::vector<body *> & sinks, const node * q, const std::vector<body *> & src) {
      for(body * p : sinks) {
        int i = p->id();
        CHK(i >= (int)T.lo && i < (int)T.hi && p == &T.t.entities()[i - T.lo], "sink %d is no local particle", i);
        if(q != nullptr) {
          summary(q);
          far(p->coordinates(), 0., q->coordinates(), q->radius());
          int a, b;
          stretch(q->key(), a, b);
          for(int j = a; j < b; ++j)
            hit(i, j);
        }
        for(body * s : src) {
          int j = s->id();
          CHK(s->coordinates() == B[j].coordinates() && s->mass() == B[j].mass(), "source particle %d carries wrong data", j);
          if(j != i)
            hit(i, j);
        }
      }
    },
    [&](const node * s, std::vector<body *> & subs) {
      CHK(given.insert(s->key().value()).second, "expansion of a cell handed down twice");
      int a, b;
      stretch(s->key(), a, b);
      std::set<int> ids;
      for(body * p : subs) {
        int i = p->id();
        CHK(i >= (int)T.lo && i < (int)T.hi && p == &T.t.entities()[i - T.lo], "%d is no local particle", i);
        CHK(i >= a && i < b, "expansion handed to particle %d outside the cell", i);
        CHK(ids.insert(i).second, "expansion handed to particle %d twice", i);
        for(auto & x : pend[s->key().value()])
          for(int j = x.first; j < x.second; ++j)
            hit(i, j);
      }
    });
  for(auto & x : pend)
    CHK(given.count(x.first), "expansion of a cell never handed down");
  for(int i = T.lo; i < (int)T.hi; ++i)
    for(int j = 0; j < n; ++j)
      CHK(i == j || cnt[(size_t)i * n + j] == 1, "particle %d never acts on %d", j, i);
}

// with acceptance parameter 0 the walk is the direct sum
static void test_direct(const Case & c) {
#if EXT_GDIMENSION == 3
  Tree T(c);
  for(auto & e : T.t.entities()) {
    e.setGPotential(0.);
    e.setGAcceleration(point_t{});
  }
  T.t.traversal_fmm(0., fmm::taylor_c2c, fmm::taylor_p2c, fmm::fmm_p2p, fmm::fmm_c2p);
  const auto & B = c.b;
  for(size_t i = T.lo; i < T.hi; ++i) {
    double phi = 0, s = 0;
    point_t g{};
    for(size_t j = 0; j < B.size(); ++j)
      if(j != i) {
        double r = dist(B[i].coordinates(), B[j].coordinates());
        phi -= fmm::gc * B[j].mass() / r;
        g += -fmm::gc * B[j].mass() / (r * r * r) * (B[i].coordinates() - B[j].coordinates());
        s += fmm::gc * B[j].mass() / (r * r);
      }
    const body & e = T.t.entities()[i - T.lo];
    CHK(std::fabs(e.getGPotential() - phi) <= 1e-9 * std::fabs(phi), "potential of %zu: %.17g, direct sum %.17g", i, e.getGPotential(), phi);
    CHK(dist(e.getGAcceleration(), g) <= 1e-9 * s, "acceleration of %zu differs from the direct sum", i);
  }
#endif
}

#ifdef CELLS
// every cell of the tree of this process against the particles of all processes
static void test_cells(const Case & c) {
  Tree T(c);
  const auto & B = c.b;
  int n = B.size();
  std::vector<size_t> ends(size_);
  size_t hi = T.hi;
  MPI_Allgather(&hi, sizeof hi, MPI_BYTE, ends.data(), sizeof hi, MPI_BYTE, MPI_COMM_WORLD);
  auto holder = [&](int j) { return std::upper_bound(ends.begin(), ends.end(), (size_t)j) - ends.begin(); };
  const int M = key_t_::max_depth(), NC = 1 << D;
  // the particles below a key are neighbours in the list
  auto below = [&](const key_t_ & k, int & a, int & b) {
    int s = D * (M - k.depth());
    uint64_t lo = (uint64_t)k.value() << s, last = lo + ((1ull << s) - 1);
    a = std::lower_bound(B.begin(), B.end(), lo, [](const body & x, uint64_t v) { return x.key().value() < v; }) - B.begin();
    b = std::upper_bound(B.begin(), B.end(), last, [](uint64_t v, const body & x) { return v < x.key().value(); }) - B.begin();
  };
  std::vector<int> leaf(n, 0);
  CHK(T.t.root()->key() == key_t_::root(), "the root has another key");
  for(auto & kv : T.t.htable_) {
    auto * cell = &kv.second;
    key_t_ key = kv.first;
    unsigned long kk = key.value();
    CHK(cell->key() == key, "cell %lo has the key %lo", kk, (unsigned long)cell->key().value());
    CHK(!cell->is_unset(), "cell %lo is neither node nor particle", kk);
    int a, b;
    below(key, a, b);
    CHK(b > a, "no particle lies in cell %lo", kk);
    if(key != key_t_::root()) {
      key_t_ p = key;
      int bit = p.pop_value();
      auto it = T.t.htable_.find(p);
      CHK(it != T.t.htable_.end(), "cell %lo has no parent", kk);
      CHK(it->second.get_child(bit), "cell %lo is not a child of its parent", kk);
      CHK(it->second.is_node(), "the parent of cell %lo is a particle", kk);
      int pa, pb;
      below(p, pa, pb);
      CHK(n == 1 || pb - pa > 1, "cell %lo splits a cell of one particle", kk);
    }
    if(cell->is_entity()) {
      CHK(b == a + 1, "cell %lo is one particle, but holds %d", kk, b - a);
      const body * e = T.t.get_entity(cell);
      CHK(e->id() == B[a].id() && e->coordinates() == B[a].coordinates() && e->mass() == B[a].mass() && e->radius() == B[a].radius() && e->key() == B[a].key(),
        "cell %lo refers to another particle", kk);
      CHK(cell->owner() == holder(a), "cell %lo: particle %d is held by process %d, not %d", kk, a, (int)holder(a), cell->owner());
      CHK(cell->is_shared() == (holder(a) != rank_), "cell %lo: own and remote particles mixed up", kk);
      if(holder(a) == rank_)
        CHK(e == &T.t.entities()[a - T.lo], "cell %lo refers to a copy of a particle", kk);
      ++leaf[a];
      CHK(cell->nchildren() == 0, "the particle in cell %lo has children", kk);
      continue;
    }
    auto * f = T.t.get_node(cell);
    CHK((int)f->sub_entities() == b - a, "cell %lo counts %d particles of %d", kk, (int)f->sub_entities(), b - a);
    double m = 0;
    point_t x = point_t{}, lo, up;
    for(int i = a; i < b; ++i) {
      m += B[i].mass();
      for(int d = 0; d < D; ++d) {
        x[d] += B[i].mass() * B[i].coordinates()[d];
        double l = B[i].coordinates()[d] - B[i].radius() / 2, u = B[i].coordinates()[d] + B[i].radius() / 2;
        if(i == a || l < lo[d])
          lo[d] = l;
        if(i == a || u > up[d])
          up[d] = u;
      }
    }
    double L = 0;
    for(int d = 0; d < D; ++d)
      L = std::max({L, std::abs(c.range[0][d]), std::abs(c.range[1][d])});
    double tol = 1e-11 * L;
    CHK(std::abs(f->mass() - m) <= 1e-11 * m, "cell %lo: mass %.17g of %.17g", kk, f->mass(), m);
    for(int d = 0; d < D; ++d) {
      CHK(std::abs(f->coordinates()[d] - x[d] / m) <= tol, "cell %lo: centre %d is %.17g, not %.17g", kk, d, f->coordinates()[d], x[d] / m);
      CHK(std::abs(f->bmin()[d] - lo[d]) <= tol + 1e-11 * std::abs(lo[d]) && std::abs(f->bmax()[d] - up[d]) <= tol + 1e-11 * std::abs(up[d]),
        "cell %lo: box %d is %.17g %.17g, not %.17g %.17g", kk, d, f->bmin()[d], f->bmax()[d], lo[d], up[d]);
    }
    for(int i = a; i < b; ++i) {
      double r = dist(f->coordinates(), B[i].coordinates());
      CHK(r <= f->radius() + tol, "cell %lo: particle %d lies %.17g off the centre, radius %.17g", kk, i, r, f->radius());
      CHK(r + B[i].radius() <= (f->radius() + f->lap()) * (1 + 1e-11) + tol, "cell %lo: particle %d reaches to %.17g, cell to %.17g", kk, i, r + B[i].radius(), f->radius() + f->lap());
    }
    if(cell->nchildren() == 0) { // only known by its summary
      CHK(cell->owner() != rank_, "cell %lo of this process has no children", kk);
      for(int i = a; i < b; ++i)
        CHK(holder(i) == cell->owner(), "cell %lo is to be asked for at process %d, which does not hold particle %d", kk, cell->owner(), i);
      continue;
    }
    for(int j = 0; j < NC; ++j) {
      key_t_ k = key;
      k.push(j);
      int p, q;
      below(k, p, q);
      CHK(cell->get_child(j) == (q > p), "cell %lo: child %d is %s", kk, j, q > p ? "missing" : "there without particles");
      CHK((q > p) == (T.t.htable_.find(k) != T.t.htable_.end()), "cell %lo: child %d cannot be found", kk, j);
    }
  }
  for(size_t i = T.lo; i < T.hi; ++i)
    CHK(leaf[i] == 1, "particle %zu is in %d cells", i, leaf[i]);
  MPI_Barrier(MPI_COMM_WORLD);
}
#endif

int main(int argc, char ** argv) {
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
  MPI_Comm_size(MPI_COMM_WORLD, &size_);
  uint64_t s0 = atoll(argv[1]);
  int ncase = atoi(argv[2]);
  std::string mode = argv[3];
  bool big = argc > 4;
  int done = 0;
  for(int k = 0; k < ncase; ++k) {
    Case c = make(s0 + k, big);
    if((int)c.b.size() < size_)
      continue;
    what_ = c.desc;
    if(mode == "sph")
      test_sph(c);
#ifdef CELLS
    else if(mode == "cells")
      test_cells(c);
#endif
    else if(mode == "radius")
      test_radius(c, s0 + k);
    else if(mode == "fmm") {
      for(double mac : {0., .3, .7, 1., 3.}) {
        char t[40];
        snprintf(t, sizeof t, ", acceptance %g", mac);
        what_ = c.desc + t;
        test_fmm(c, mac);
      }
      what_ = c.desc;
      test_direct(c);
    }
    ++done;
  }
  MPI_Barrier(MPI_COMM_WORLD);
  if(rank_ == 0)
    printf("OK %d\n", done);
  fflush(stdout);
  MPI_Finalize();
  return 0;
}
