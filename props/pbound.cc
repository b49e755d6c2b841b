// images of particles across periodic boundaries. usage: pbound SEED0 NCASES x
#include "hydro.h"
#include <numeric>
#include <fstream>
#include <random>
#include "boundary.h"
#include "wholerun.h"

static int one(uint64_t seed, const std::string &) {
  std::mt19937_64 g(seed * 57 + 11);
  static const int sizes[] = {1, 2, 5, 20, 100, 600};
  int n = std::max(sizes[seed % 6], size_);
  double L[3];
  for(int d = 0; d < 3; ++d)
    L[d] = std::pow(10., 2 * uni(g) - 1);
  bool grid = seed % 7 == 3; // everything on a grid: places exactly on a limit
  if(grid)
    for(int d = 0; d < 3; ++d)
      L[d] = 1 << g() % 3;
  bool per[3] = {g() % 4 != 0, g() % 2 != 0, g() % 2 != 0};
  param::_box_length = L[0];
  param::_box_width = L[1];
  param::_box_height = L[2];
  param::_periodic_boundary_x = per[0];
  param::_periodic_boundary_y = per[1];
  param::_periodic_boundary_z = per[2];
  double lmin = 1e300;
  for(int d = 0; d < D; ++d)
    if(per[d])
      lmin = std::min(lmin, L[d]);
  if(lmin > 1e200)
    lmin = L[0];
  double halo = lmin * (seed % 5 == 0 ? .5 : .02 + .4 * uni(g));
  if(grid)
    halo = (1 + g() % 4) / 8.;
  what_ = text("seed %lu, %d particles, halo %g, box %g %g %g, periodic %d%d%d", (unsigned long)seed, n, halo, L[0], L[1], L[2], per[0], per[1], per[2]);
  std::vector<body> all;
  for(int i = 0; i < n; ++i) {
    body b = random_body(g, i);
    b.setType(NORMAL);
    point_t p;
    for(int d = 0; d < D; ++d) {
      double u = uni(g) - .5; // inside, near an edge, or moved across it
      if(g() % 3 == 0)
        u = (g() % 2 ? .5 : -.5) * (1 + .2 * (uni(g) - .5));
      if(seed % 4 == 1)
        u *= 2.6;
      if(g() % 16 == 0) // on the boundary itself
        u = g() % 2 ? .5 : -.5;
      p[d] = grid ? std::round(8 * u * L[d]) / 8 : u * L[d];
    }
    b.set_coordinates(p);
    all.push_back(b);
  }
  std::shuffle(all.begin(), all.end(), g);
  std::vector<int> cut(size_ + 1);
  for(int i = 0; i <= size_; ++i)
    cut[i] = (int64_t)n * i / size_;
  if(seed % 3 == 0 && n > 2 * size_)
    for(int i = 1; i < size_; ++i)
      cut[i] = i + g() % (n - size_ + 1);
  std::sort(cut.begin(), cut.end());
  for(int i = 1; i <= size_; ++i)
    if(cut[i] <= cut[i - 1] && i < size_)
      cut[i] = cut[i - 1] + 1;
  if(cut[size_ - 1] >= n)
    return 0;
  std::vector<body> mine(all.begin() + cut[rank_], all.begin() + cut[rank_ + 1]);
  // twice: the images of the first time are removed before the second
  for(int round = 0; round < 2; ++round) {
    std::vector<body> want;
    for(int i = cut[rank_]; i < cut[rank_ + 1]; ++i) {
      body b = all[i];
      point_t p = b.coordinates();
      for(int d = 0; d < D; ++d)
        if(per[d]) {
          if(p[d] > .5 * L[d])
            p[d] -= L[d];
          else if(p[d] <= -.5 * L[d])
            p[d] += L[d];
        }
      b.set_coordinates(p);
      all[i] = b;
      want.push_back(b);
    }
    for(int i = 0; i < size_; ++i) // new places, the same everywhere
      MPI_Bcast(all.data() + cut[i], (cut[i + 1] - cut[i]) * sizeof(body), MPI_BYTE, i, MPI_COMM_WORLD);
    size_t own = want.size();
    boundary::pboundary_clean(mine);
    CHK(mine.size() == own, "%zu particles left after the images are removed, not %zu", mine.size(), own);
    if(round)
      for(size_t i = 0; i < own; ++i)
        CHK(mine[i].getType() == NORMAL && mine[i].id() == want[i].id(), "other particles or another order after the images are removed");
    boundary::pboundary_generate(mine, halo);
    CHK(mine.size() >= own, "particles lost");
    for(size_t i = 0; i < own; ++i)
      same(mine[i], want[i], "in the box");
    // images
    std::vector<std::vector<point_t>> img(n);
    std::vector<body *> src(n, nullptr);
    size_t num = 0;
    for(auto & b : want) {
      src[b.id()] = &b;
      point_t p = b.coordinates();
      int side[3] = {0, 0, 0};
      for(int d = 0; d < D; ++d)
        if(per[d])
          side[d] = p[d] + halo > .5 * L[d] ? -1 : p[d] - halo <= -.5 * L[d] ? 1 : 0;
      for(int s = 1; s < 1 << D; ++s) {
        bool in = true;
        point_t q = p;
        for(int d = 0; d < D; ++d)
          if(s >> d & 1) {
            in = in && side[d];
            q[d] += side[d] * L[d];
          }
        if(in) {
          img[b.id()].push_back(q);
          ++num;
        }
      }
    }
    CHK(mine.size() == own + num, "%zu images, should be %zu", mine.size() - own, num);
    // the mass is as good as a name
    std::map<double, int> name;
    for(auto & b : want)
      name[b.mass()] = b.id();
    for(size_t i = own; i < mine.size(); ++i) {
      body & b = mine[i];
      CHK(b.getType() == WALL, "an image is not marked as one");
      CHK(name.count(b.mass()), "an image has no original");
      int k = name[b.mass()];
      auto & v = img[k];
      size_t j = 0;
      double tol = 1e-12 * (L[0] + L[1] + L[2]);
      for(; j < v.size(); ++j)
        if(dist(v[j], b.coordinates()) < tol)
          break;
      CHK(j < v.size(), "particle %d has an image at a wrong place", k);
      v.erase(v.begin() + j);
      body o = *src[k];
      o.setType(WALL);
      o.set_id(b.id());
      o.set_coordinates(b.coordinates());
      same(b, o, "in its original");
    }
    // numbers of the images
    auto tot = gather(mine);
    std::vector<int> seen(tot.size(), 0);
    for(auto & b : tot) {
      CHK(b.id() < tot.size() && !seen[b.id()]++, "number %ld used twice or out of place among %zu", (long)b.id(), tot.size());
      CHK((b.getType() == WALL) == ((int)b.id() >= n), "numbers of particles and images mixed up");
    }
    // move on, images among the others
    for(auto & b : mine)
      for(int d = 0; d < 1; ++d) {
        point_t p = b.coordinates();
        p[d] += .3 * L[d] * std::sin(7. * b.id());
        b.set_coordinates(p);
      }
    std::vector<body> mix(mine.begin() + own, mine.end()), keep(mine.begin(), mine.begin() + own);
    for(size_t i = 0; i < own; ++i)
      all[cut[rank_] + i] = keep[i];
    mine.clear();
    size_t a = 0, b = 0;
    while(a < keep.size() || b < mix.size())
      if(a == keep.size() || (b < mix.size() && (a + b) % 2))
        mine.push_back(mix[b++]);
      else
        mine.push_back(keep[a++]);
  }
  return 1;
}

int main(int argc, char ** argv) {
  return run_all(argc, argv, one);
}
