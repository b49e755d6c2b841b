// snapshots written and read back. usage: snap SEED0 NCASES MODE (in a scratch directory)
#include "hydro.h"
#include <numeric>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <random>
#include <climits>
#include <hdf5.h>
#include <dirent.h>
#include <libgen.h>
#include <sys/stat.h>
#include "io.h"
#include "wholerun.h"

struct Snap {
  int64_t iter;
  double time, dt;
  std::vector<body> all;
};

static bool there(const std::string & f) {
  return access(f.c_str(), F_OK) == 0;
}
static std::string step_file(const std::string & p, int k) {
  char b[32];
  sprintf(b, "_%05d.h5part", k);
  return p + b;
}
// the first n processes as a communicator
static MPI_Comm first(int n) {
  static std::map<int, MPI_Comm> known;
  if(known.count(n))
    return known[n];
  MPI_Comm & c = known[n];
  MPI_Comm_split(MPI_COMM_WORLD, rank_ < n ? 0 : MPI_UNDEFINED, rank_, &c);
  return c;
}
static void put(Snap & s, const std::string & prefix, int n, std::mt19937_64 g) {
  // any distribution over the processes
  int N = s.all.size();
  std::vector<int> cut(n + 1, 0);
  cut[n] = N;
  for(int i = 1; i < n; ++i)
    cut[i] = g() % (N + 1);
  std::sort(cut.begin(), cut.end());
  if(g() % 2)
    for(int i = 0; i <= n; ++i)
      cut[i] = (int64_t)N * i / n;
  MPI_Comm c = first(n);
  if(rank_ < n) {
    std::vector<body> mine(s.all.begin() + cut[rank_], s.all.begin() + cut[rank_ + 1]), before = mine;
    physics::totaltime = s.time;
    physics::dt = s.dt;
    io::outputDataHDF5(mine, prefix.c_str(), s.iter, s.time, c);
    CHK(mine.size() == before.size(), "writing changes the number of particles");
    for(size_t i = 0; i < mine.size(); ++i)
      same(mine[i], before[i], "before it was written");
  }
  int st = io::output_step; // all processes follow
  MPI_Bcast(&st, 1, MPI_INT, 0, MPI_COMM_WORLD);
  io::output_step = st;
  MPI_Barrier(MPI_COMM_WORLD);
}
// every dataset of a snapshot as written, read by one process
template<class T, class F>
static void column(hid_t f, int step, const char * name, Snap & s, hid_t type, F && want) {
  hid_t d = H5Dopen(f, text("/Step#%d/%s", step, name).c_str(), H5P_DEFAULT);
  CHK(d >= 0, "no dataset %s in snapshot %d", name, step);
  hid_t sp = H5Dget_space(d);
  hsize_t n = 0;
  CHK(H5Sget_simple_extent_ndims(sp) == 1 && H5Sget_simple_extent_dims(sp, &n, NULL) == 1 && n == s.all.size(), "dataset %s has another size", name);
  std::vector<T> v(n);
  CHK(H5Dread(d, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) >= 0, "dataset %s cannot be read", name);
  H5Sclose(sp);
  H5Dclose(d);
  for(size_t i = 0; i < n; ++i)
    CHK(v[i] == (T)want(s.all[i]), "dataset %s holds %.17g for particle %zu, not %.17g", name, (double)v[i], i, (double)want(s.all[i]));
}
static void raw(Snap & s, const std::string & file, int step) {
  if(rank_ == 0) {
    hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    CHK(f >= 0, "snapshot cannot be opened");
    int dim = -1;
    hid_t a = H5Aopen(f, "dimension", H5P_DEFAULT);
    CHK(a >= 0 && H5Aread(a, H5T_NATIVE_INT, &dim) >= 0 && dim == D, "the number of dimensions in the file is %d", dim);
    H5Aclose(a);
    auto dbl = [&](const char * n, auto && w) { column<double>(f, step, n, s, H5T_NATIVE_DOUBLE, w); };
    static const char ax[] = "xyz";
    for(int d = 0; d < 3; ++d) {
      char n[3][3] = {{ax[d], 0}, {'v', ax[d], 0}, {'a', ax[d], 0}};
      dbl(n[0], [&](body & b) { return d < D ? b.coordinates()[d] : 0.; });
      dbl(n[1], [&](body & b) { return d < D ? b.getVelocity()[d] : 0.; });
      dbl(n[2], [&](body & b) { return d < D ? b.getAcceleration()[d] + b.getGAcceleration()[d] : 0.; });
    }
    dbl("gradV", [](body & b) { return b.getGradV(); });
    dbl("h", [](body & b) { return b.radius(); });
    dbl("rho", [](body & b) { return b.getDensity(); });
    dbl("u", [](body & b) { return b.getInternalenergy(); });
    dbl("P", [](body & b) { return b.getPressure(); });
    dbl("m", [](body & b) { return b.mass(); });
    dbl("dt", [](body & b) { return b.getDt(); });
    dbl("traceSS", [](body & b) { return b.getTraceSS(); });
    dbl("alpha", [](body & b) { return b.getAlpha(); });
    dbl("divergenceV", [](body & b) { return b.getDivergenceV(); });
    dbl("dDivVdt", [](body & b) { return b.getDdivvdt(); });
    dbl("trigger", [](body & b) { return b.getTrigger(); });
    dbl("xi", [](body & b) { return b.getXi(); });
    column<int64_t>(f, step, "id", s, H5T_NATIVE_LLONG, [](body & b) { return b.id(); });
    column<int64_t>(f, step, "neighbors", s, H5T_NATIVE_LLONG, [](body & b) { return b.getNeighbors(); });
    column<int>(f, step, "type", s, H5T_NATIVE_INT, [](body & b) { return b.getType(); });
    column<int>(f, step, "state", s, H5T_NATIVE_INT, [](body & b) { return b.state(); });
    H5Fclose(f);
  }
  MPI_Barrier(MPI_COMM_WORLD);
}
static void get(Snap & s, const std::string & in, const std::string & out, int64_t iter, int m, bool ids, int64_t skip) {
  int N = s.all.size();
  const double t0 = -3.5, d0 = -.25;
  physics::totaltime = t0;
  physics::dt = d0;
  MPI_Comm c = first(m);
  if(rank_ < m) {
    std::vector<body> b(3);
    int64_t tot = -1, loc = -1;
    io::inputDataHDF5(b, in.c_str(), out.c_str(), tot, loc, iter, c);
    CHK(tot == N, "%ld particles reported, there are %d", (long)tot, N);
    int lo = N / m * rank_ + std::min(rank_, N % m), cnt = N / m + (rank_ < N % m);
    CHK(loc == cnt && (int)b.size() == cnt, "%ld particles (%zu) on process %d of %d, should be %d", (long)loc, b.size(), rank_, m, cnt);
    for(int i = 0; i < cnt; ++i) {
      body &x = b[i], &y = s.all[lo + i];
      for(int d = 0; d < D; ++d) {
        CHK(x.coordinates()[d] == y.coordinates()[d], "coordinate %d of particle %d is %.17g, was %.17g", d, lo + i, x.coordinates()[d], y.coordinates()[d]);
        CHK(x.getVelocity()[d] == y.getVelocity()[d], "velocity %d of particle %d is %.17g, was %.17g", d, lo + i, x.getVelocity()[d], y.getVelocity()[d]);
      }
      CHK(x.mass() == y.mass(), "mass of particle %d is %.17g, was %.17g", lo + i, x.mass(), y.mass());
      CHK(x.radius() == y.radius(), "smoothing length of particle %d", lo + i);
      CHK(x.getDensity() == y.getDensity(), "density of particle %d", lo + i);
      CHK(x.getPressure() == y.getPressure(), "pressure of particle %d", lo + i);
#ifdef INTERNAL_ENERGY
      CHK(x.getInternalenergy() == y.getInternalenergy(), "internal energy of particle %d", lo + i);
#endif
      CHK(x.getDt() == y.getDt(), "time step of particle %d", lo + i);
      CHK(x.getType() == y.getType(), "type of particle %d is %d, was %d", lo + i, (int)x.getType(), (int)y.getType());
      CHK(x.state() == y.state(), "state of particle %d is %d, was %d", lo + i, (int)x.state(), (int)y.state());
      int64_t id = ids ? (int64_t)y.id() : lo + i + 1;
      CHK((int64_t)x.id() == id, "id of particle %d is %ld, should be %ld", lo + i, (long)x.id(), (long)id);
    }
    if(iter != 0) {
      CHK(physics::dt == s.dt, "time step %.17g restored, was %.17g", physics::dt, s.dt);
      CHK(physics::totaltime == s.time, "time %.17g restored, was %.17g", physics::totaltime, s.time);
    }
    else
      CHK(physics::dt == d0 && physics::totaltime == t0, "time or time step changed by initial data");
  }
  int st = io::output_step;
  MPI_Bcast(&st, 1, MPI_INT, 0, MPI_COMM_WORLD);
  io::output_step = st;
  MPI_Barrier(MPI_COMM_WORLD);
}
static Snap make(std::mt19937_64 & g, int N, int64_t iter, double time) {
  Snap s{iter, time, uni(g) * .1, {}};
  for(int i = 0; i < N; ++i) {
    body b = random_body(g, 0);
    b.set_id(g() % 3 ? g() >> 20 : i);
    b.set_radius(uni(g));
    b.set_state((int)(g() % 4));
    s.all.push_back(b);
  }
  return s;
}
static void touch(const std::string & f) {
  if(rank_ == 0)
    std::ofstream(f.c_str()) << "x";
  MPI_Barrier(MPI_COMM_WORLD);
}

static int one(uint64_t seed, const std::string & mode) {
  std::mt19937_64 g(seed * 977 + 3);
  bool sep = mode == "separate";
  int n = 1 + g() % size_, m = 1 + g() % size_;
  static const int sizes[] = {1, 2, 7, 10, 33, 128, 1001};
  int N = sizes[g() % 7], K = 1 + g() % 4;
  N = std::max(N, m);
  char dirn[64];
  sprintf(dirn, "case%lu", (unsigned long)seed);
  bool sub = g() % 2;
  if(rank_ == 0)
    mkdir(dirn, 0755);
  MPI_Barrier(MPI_COMM_WORLD);
  if(!sub)
    CHK(chdir(dirn) == 0, "chdir");
  std::string base = sub ? std::string(dirn) + "/" : "", in = base + "in", out = base + "out";
  param::_out_h5data_separate_iterations = sep;
  what_ = text("%s, seed %lu, %d particles, %d snapshots written by %d and read by %d processes%s", mode.c_str(), (unsigned long)seed, N, K, n, m, sub ? ", in another directory" : "");
  std::vector<Snap> s;
  int64_t it = g() % 2 ? 0 : 1 + g() % 5;
  double t = uni(g);
  io::output_step = 0;
  for(int k = 0; k < K; ++k) {
    s.push_back(make(g, g() % 3 ? N : std::max(N - (int)(g() % 3), m), it, t));
    put(s[k], in, n, g);
    CHK(there(sep ? step_file(in, k) : in + ".h5part"), "snapshot file missing");
    raw(s[k], sep ? step_file(in, k) : in + ".h5part", k);
    it += 1 + g() % 7;
    t += uni(g);
  }
  int j = g() % K;
  int kind = seed % 4;
  auto iter_of = [&](int k) { return s[k].iter; };
  param::_initial_iteration = iter_of(j);
  io::comm_ = MPI_COMM_WORLD;
  if(sep)
    for(int k = 0; k < K; ++k) {
      CHK(io::H5P_findIterationSnapshot(in.c_str(), iter_of(k)) == k, "iteration %ld is in snapshot %d, not %d", (long)iter_of(k), k, io::H5P_findIterationSnapshot(in.c_str(), iter_of(k)));
      CHK(io::H5P_findIterationSnapshot(in.c_str(), iter_of(K - 1) + 1) == -1, "an iteration that was never written is found");
      CHK(io::H5P_findIterationSnapshot((in + "x").c_str(), iter_of(k)) == -1, "an iteration is found in files of another name");
    }
  if(kind == 0 && !sep) { // initial data, maybe without ids
    bool ids = g() % 2;
    if(!ids && rank_ == 0) {
      hid_t f = H5Fopen((in + ".h5part").c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
      CHK(f >= 0 && H5Ldelete(f, "/Step#0/id", H5P_DEFAULT) >= 0, "removing the ids");
      H5Fclose(f);
    }
    MPI_Barrier(MPI_COMM_WORLD);
    touch(out + ".h5part");
    touch(out + "2.h5part");
    io::output_step = 3;
    param::_initial_iteration = 0;
    get(s[0], in, out, 0, m, ids, 0);
    CHK(!there(out + ".h5part"), "old output is kept");
    CHK(there(out + "2.h5part") && there(in + ".h5part"), "a file that is not old output is removed");
    CHK(io::output_step == 0, "output does not start with snapshot 0");
  }
  else if(iter_of(j) == 0) {
  }
  else if(kind < 3) { // a restart that writes elsewhere
    for(int k = 0; k < 3; ++k)
      touch(step_file(out, k));
    touch(out + ".h5part");
    touch(step_file(out + "_old", 1));
    touch(step_file(base + "ou", 1));
    touch(base + "out_0001.h5part");
    touch(base + "out-00001.h5part");
    io::output_step = 5;
    get(s[j], in, out, iter_of(j), m, true, 0);
    CHK(io::output_step == 0, "output does not start with snapshot 0");
    for(int k = 0; k < 3; ++k)
      CHK(there(step_file(out, k)) == !sep, "old output of separate snapshots %s", sep ? "is kept" : "is removed");
    CHK(there(out + ".h5part") == sep, "old output in one file %s", sep ? "is removed" : "is kept");
    CHK(there(step_file(out + "_old", 1)) && there(step_file(base + "ou", 1)) && there(base + "out_0001.h5part") && there(base + "out-00001.h5part"), "a file that is not old output is removed");
    MPI_Barrier(MPI_COMM_WORLD);
    if(sep && rank_ == 0)
      remove((out + ".h5part").c_str());
    MPI_Barrier(MPI_COMM_WORLD);
    // continue there
    put(s[j], out, m, g);
    Snap nx = make(g, N, iter_of(j) + 1, s[j].time + .5);
    put(nx, out, m, g);
    io::output_step = 0;
    param::_initial_iteration = nx.iter;
    get(nx, out, in + "none", nx.iter, n <= N ? n : 1, true, 0);
    param::_initial_iteration = s[j].iter;
    get(s[j], out, in + "none", s[j].iter, 1, true, 0);
  }
  else { // a restart that goes on in the same place
    if(!sep)
      j = K - 1;
    param::_initial_iteration = iter_of(j);
    touch(step_file(in + "_old", 3));
    io::output_step = 0;
    get(s[j], in, in, iter_of(j), m, true, 0);
    CHK(io::output_step == j, "output goes on with snapshot %d after a restart from %d", io::output_step, j);
    CHK(there(step_file(in + "_old", 3)), "a file that is not old output is removed");
    if(sep)
      for(int k = 0; k < K; ++k)
        CHK(there(step_file(in, k)) == (k <= j), "snapshot %d %s by a restart from %d", k, k <= j ? "is removed" : "is kept", j);
    // the programs write the snapshot they start from once more
    put(s[j], in, m, g);
    Snap nx = make(g, N, iter_of(j) + 3, s[j].time + .5);
    put(nx, in, m, g);
    s.resize(j + 1);
    s.push_back(nx);
    for(auto & q : s) {
      if(q.iter == 0)
        continue;
      param::_initial_iteration = q.iter;
      get(q, in, out, q.iter, 1 + g() % std::min<int>(size_, q.all.size()), true, 0);
    }
  }
  MPI_Barrier(MPI_COMM_WORLD);
  if(!sub)
    CHK(chdir("..") == 0, "chdir");
  return 1;
}

int main(int argc, char ** argv) {
  return run_all(argc, argv, one);
}
