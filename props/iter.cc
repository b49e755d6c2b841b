// distributed sort and the start of an iteration. usage: iter SEED0 NCASES MODE
#include "hydro.h"
#include <numeric>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <random>
#include <unordered_set>
#include <climits>
#include <hdf5.h>
#include <dirent.h>
#include <libgen.h>
#define private public
#include "bodies_system.h"
#undef private
#include "wholerun.h"

struct Item {
  uint64_t key;
  int64_t id;
  double load[3];
};

template<class C>
static void sort_case(std::vector<Item> all, const std::vector<int> & cnt, C comp, bool total) {
  std::vector<int> off(size_ + 1, 0);
  for(int r = 0; r < size_; ++r)
    off[r + 1] = off[r] + cnt[r];
  std::vector<Item> v(all.begin() + off[rank_], all.begin() + off[rank_ + 1]);
  std::vector<int> dst = cnt;
  psort::psort(v, comp, dst.data());
  CHK((int)v.size() == cnt[rank_], "%d elements on a process that had %d", (int)v.size(), cnt[rank_]);
  CHK(dst == cnt, "counts changed");
  for(size_t i = 1; i < v.size(); ++i)
    CHK(!comp(v[i], v[i - 1]), "elements %zu and %zu out of order", i - 1, i);
  std::vector<Item> got(all.size());
  std::vector<int> cb(size_), ob(size_);
  for(int r = 0; r < size_; ++r) {
    cb[r] = cnt[r] * sizeof(Item);
    ob[r] = off[r] * sizeof(Item);
  }
  MPI_Allgatherv(v.data(), cb[rank_], MPI_BYTE, got.data(), cb.data(), ob.data(), MPI_BYTE, MPI_COMM_WORLD);
  for(size_t i = 1; i < got.size(); ++i)
    CHK(!comp(got[i], got[i - 1]), "elements %zu and %zu of the whole out of order", i - 1, i);
  std::vector<int> seen(all.size(), 0);
  for(auto & x : got) {
    CHK(x.id >= 0 && x.id < (int64_t)all.size() && !seen[x.id]++, "an element is lost or doubled");
    CHK(!memcmp(&x, &all[x.id], sizeof(Item)), "element %ld carries the data of another", (long)x.id);
  }
}

static int psort_one(uint64_t seed) {
  std::mt19937_64 g(seed * 31 + 7);
  static const int avg[] = {1, 2, 3, 7, 20, 100, 1000};
  int m = avg[seed % 7];
  std::vector<int> cnt(size_);
  for(auto & c : cnt)
    c = seed % 2 ? m : 1 + g() % (2 * m);
  int n = std::accumulate(cnt.begin(), cnt.end(), 0), kind = (seed / 7) % 7;
  std::vector<Item> all(n);
  for(int i = 0; i < n; ++i) {
    uint64_t k = g();
    if(kind == 1)
      k = g() % 4;
    else if(kind == 2)
      k = 5;
    else if(kind == 3)
      k = i;
    else if(kind == 4)
      k = n - i;
    else if(kind == 5)
      k = (g() % 3 ? 7 : g());
    else if(kind == 6) // already grouped, in the wrong processes
      k = (uint64_t)((i * 7919) % n);
    all[i] = {k, i, {uni(g), (double)i, -(double)k}};
  }
  what_ = text("sort, seed %lu, %d elements, kind %d", seed, n, kind);
  sort_case(all, cnt, [](const Item & a, const Item & b) { return a.key < b.key; }, false);
  sort_case(all, cnt, [](const Item & a, const Item & b) { return a.key < b.key || (a.key == b.key && a.id < b.id); }, true);
  return 1;
}

static int iter_one(uint64_t seed) {
  std::mt19937_64 g(seed * 131 + 5);
  static const int sizes[] = {3, 8, 9, 31, 64, 150, 400};
  int n = std::max(sizes[seed % 7], 2 * size_ + (int)(seed % 3));
  double L = std::pow(10., 4 * uni(g) - 2), h = L * std::pow(1. / n, 1. / D) * (.5 + uni(g));
  bool mixed = seed % 3 == 0, wide = seed % 5 == 0;
  what_ = text("iteration, seed %lu, %d particles, %s lengths", seed, n, mixed ? "mixed" : "similar");
  std::vector<body> all;
  for(int i = 0; i < n; ++i) {
    body b = random_body(g, i);
    point_t p;
    for(int d = 0; d < D; ++d)
      p[d] = L * (uni(g) - .5) * (wide && d == 0 ? 50 : 1);
    b.set_coordinates(p);
    b.set_radius(h * (mixed ? (i % 4 ? .3 : 2.) : .8 + .4 * uni(g)));
    all.push_back(b);
  }
  body_system<double, D> bs;
  int lo = n / size_ * rank_ + std::min(rank_, n % size_), hi = n / size_ * (rank_ + 1) + std::min(rank_ + 1, n % size_);
  bs.getLocalbodies().assign(all.begin() + lo, all.begin() + hi);
  bs.totalnbodies_ = n;
  for(int step = 0; step < 3; ++step) {
    double hm = 0;
    for(auto & b : all)
      hm = std::max(hm, b.radius());
    CHK(bs.getSmoothinglength() == hm, "largest smoothing length %.17g, should be %.17g", bs.getSmoothinglength(), hm);
    point_t mn, mx;
    for(int d = 0; d < D; ++d) {
      mn[d] = 1e300;
      mx[d] = -1e300;
      for(auto & b : all) {
        mn[d] = std::min(mn[d], b.coordinates()[d] - b.radius());
        mx[d] = std::max(mx[d], b.coordinates()[d] + b.radius());
      }
    }
    range_t rg{mn, mx};
    std::set<uint64_t> ks;
    for(auto & b : all)
      ks.insert(key_type(rg, b.coordinates()).value());
    if(ks.size() != all.size())
      return 0;
    auto r2 = bs.getRange();
    CHK(r2[0] == mn && r2[1] == mx, "the range is not that of all particles with their smoothing lengths");
    bs.update_iteration();
    CHK(bs.range_[0] == mn && bs.range_[1] == mx && bs.tree_.range()[0] == mn && bs.tree_.range()[1] == mx, "the range is not that of all particles with their smoothing lengths");
    std::vector<int> cnt;
    auto got = gather(bs.getLocalbodies(), &cnt);
    CHK((int)got.size() == n, "%d particles, there were %d", (int)got.size(), n);
    CHK(bs.getNLocalBodies() == (int64_t)bs.getLocalbodies().size() && bs.nbodies() == bs.getLocalbodies().size() && bs.getNBodies() == n, "wrong particle numbers reported");
    for(int r = 0; r < size_; ++r)
      CHK(cnt[r] == n / size_ || cnt[r] == (n + size_ - 1) / size_, "%d of %d particles on process %d of %d", cnt[r], n, r, size_);
    std::vector<int> seen(n, 0);
    for(int i = 0; i < n; ++i) {
      auto & b = got[i];
      CHK((int)b.id() >= 0 && (int)b.id() < n && !seen[b.id()]++, "particle %ld lost or doubled", (long)b.id());
      same(b, all[b.id()], "before the iteration");
      CHK(b.key() == key_type(rg, b.coordinates()), "key of particle %ld is not that of its position", (long)b.id());
      CHK(i == 0 || got[i - 1].key() < b.key(), "particles %d and %d are out of order", i - 1, i);
    }
    // every particle sees its neighbours
    std::vector<int> called(n, 0);
    bs.apply_in_smoothinglength([&](body & a, std::vector<body *> & nb) {
      CHK(!called[a.id()]++, "function called twice for a particle");
      std::set<int> in;
      for(auto * q : nb)
        CHK(in.insert(q->id()).second, "neighbour listed twice");
      for(int j = 0; j < n; ++j) {
        double r = dist(a.coordinates(), all[j].coordinates());
        if(r < .5 * (a.radius() + all[j].radius()) * (1 - 1e-12))
          CHK(in.count(j), "neighbour %d of particle %ld is missing", j, (long)a.id());
        if(r > std::max(a.radius(), all[j].radius()) * (1 + 1e-12))
          CHK(!in.count(j), "particle %d listed for %ld is too far", j, (long)a.id());
      }
    });
    for(auto & b : bs.getLocalbodies())
      CHK(called[b.id()], "function not called for particle %ld", (long)b.id());
    if(step == 1) // new data, same places
      bs.apply_all([](body & b, double f) { b.setDensity(f * b.mass()); }, 3.), bs.reset_ghosts();
    else // move
      bs.apply_all([&](body & b) {
        point_t p = b.coordinates();
        for(int d = 0; d < D; ++d)
          p[d] += .3 * L * std::sin(1. + 3. * b.id() + d);
        b.set_coordinates(p);
        b.set_radius(b.radius() * (b.id() % 2 ? 1.1 : .9));
      });
    int local = 0;
    bs.get_all([&](std::vector<body> & v, int k) { local = v.size() + k; }, 5);
    CHK(local == (int)bs.nbodies() + 5, "get_all does not hand over the local particles");
    auto now = gather(bs.getLocalbodies());
    for(auto & b : now)
      all[b.id()] = b;
  }
  return 1;
}

int main(int argc, char ** argv) {
  return run_all(argc, argv, [](uint64_t s, const std::string & mode) { return mode == "psort" ? psort_one(s) : iter_one(s); });
}
