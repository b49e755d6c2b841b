// common parts of the whole-program runs
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <numeric>
#include <random>
#include <string>
using namespace flecsi;
static int rank_ = 0, size_ = 1;
static std::string what_;
[[noreturn]] static void fail(const char * f, ...) {
  char b[800];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  printf("FAIL rank %d of %d: %s: %s\n", rank_, size_, what_.c_str(), b);
  fflush(stdout);
  _exit(1);
}
#define CHK(c, ...) \
  do { \
    if(!(c)) \
      fail(__VA_ARGS__); \
  } while(0)
static constexpr int D = gdimension;
static double uni(std::mt19937_64 & g) {
  return std::uniform_real_distribution<double>(0., 1.)(g);
}
static std::string text(const char * f, ...) {
  char b[800];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
static double dist(const point_t & a, const point_t & b) {
  double s = 0;
  for(int d = 0; d < D; ++d)
    s += (a[d] - b[d]) * (a[d] - b[d]);
  return std::sqrt(s);
}
// every field of a particle but its key
struct Fields {
  std::vector<double> x;
  bool operator==(const Fields & o) const {
    return x == o.x;
  }
};
static const char * const field_names[] = {"mass", "radius", "id", "type", "state", "neighbors", "density", "pressure", "entropy", "electronfraction",
  "temperature", "soundspeed", "internalenergy", "totalenergy", "dudt", "dedt", "adiabatic", "dadt", "dt", "alpha", "divergenceV", "ddivvdt", "trigger",
  "xi", "traceSS", "gradV", "pressuremin", "signalspeed", "gpotential", "position", "velocity", "velocityhalf", "acceleration", "gacceleration"};
static Fields fields(body & b) {
  Fields f;
  f.x = {b.mass(), b.radius(), (double)b.id(), (double)b.getType(), (double)b.state(), (double)b.getNeighbors(), b.getDensity(), b.getPressure(),
    b.getEntropy(), b.getElectronfraction(), b.getTemperature(), b.getSoundspeed(), b.getInternalenergy(), b.getTotalenergy(), b.getDudt(), b.getDedt(),
    b.getAdiabatic(), b.getDadt(), b.getDt(), b.getAlpha(), b.getDivergenceV(), b.getDdivvdt(), b.getTrigger(), b.getXi(), b.getTraceSS(), b.getGradV(),
    b.getPressuremin(), b.getSignalspeed(), b.getGPotential()};
  for(auto & p : {b.coordinates(), b.getVelocity(), b.getVelocityhalf(), b.getAcceleration(), b.getGAcceleration()})
    for(int d = 0; d < D; ++d)
      f.x.push_back(p[d]);
  return f;
}
static const char * field(size_t i) {
  return field_names[i < 29 ? i : 29 + (i - 29) / D];
}
static void same(body & a, body & b, const char * when) {
  Fields p = fields(a), q = fields(b);
  for(size_t i = 0; i < p.x.size(); ++i)
    CHK(p.x[i] == q.x[i], "%s of particle %ld is %.17g, was %.17g %s", field(i), (long)b.id(), p.x[i], q.x[i], when);
}
static body random_body(std::mt19937_64 & g, int id) {
  body b;
  auto r = [&] { return uni(g) * std::pow(10., 8 * uni(g) - 4) * (g() % 2 ? 1 : -1); };
  auto v = [&] {
    point_t p;
    for(int d = 0; d < D; ++d)
      p[d] = r();
    return p;
  };
  b.set_id(id);
  b.set_mass(.1 + uni(g));
  b.set_radius(.1);
  b.setType((int)(g() % 2));
  b.set_state((int)(g() % 2));
  b.setNeighbors(g() % 100);
  b.setDensity(r());
  b.setPressure(r());
  b.setEntropy(r());
  b.setElectronfraction(r());
  b.setTemperature(r());
  b.setSoundspeed(r());
  b.setInternalenergy(r());
  b.setTotalenergy(r());
  b.setDudt(r());
  b.setDedt(r());
  b.setAdiabatic(r());
  b.setDadt(r());
  b.setDt(r());
  b.setAlpha(r());
  b.setDivergenceV(r());
  b.setDdivvdt(r());
  b.setTrigger(r());
  b.setXi(r());
  b.setTraceSS(r());
  b.setGradV(r());
  b.setPressuremin(r());
  b.setSignalspeed(r());
  b.setGPotential(r());
  b.set_coordinates(v());
  b.setVelocity(v());
  b.setVelocityhalf(v());
  b.setAcceleration(v());
  b.setGAcceleration(v());
  return b;
}
// all particles of all processes, in order of process
static std::vector<body> gather(const std::vector<body> & mine, std::vector<int> * counts = nullptr) {
  int n = mine.size();
  std::vector<int> c(size_), o(size_ + 1, 0), cb(size_), ob(size_);
  MPI_Allgather(&n, 1, MPI_INT, c.data(), 1, MPI_INT, MPI_COMM_WORLD);
  for(int i = 0; i < size_; ++i) {
    o[i + 1] = o[i] + c[i];
    cb[i] = c[i] * sizeof(body);
    ob[i] = o[i] * sizeof(body);
  }
  std::vector<body> all(o[size_]);
  MPI_Allgatherv((void *)mine.data(), n * sizeof(body), MPI_BYTE, all.data(), cb.data(), ob.data(), MPI_BYTE, MPI_COMM_WORLD);
  if(counts)
    *counts = c;
  return all;
}
template<class F>
static int run_all(int argc, char ** argv, F && one) {
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
  MPI_Comm_size(MPI_COMM_WORLD, &size_);
  uint64_t s0 = atoll(argv[1]);
  int ncase = atoi(argv[2]), done = 0;
  for(int k = 0; k < ncase; ++k)
    done += one(s0 + k, std::string(argv[3]));
  MPI_Barrier(MPI_COMM_WORLD);
  if(rank_ == 0)
    printf("OK %d\n", done);
  fflush(stdout);
  MPI_Finalize();
  return 0;
}
