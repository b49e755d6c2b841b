// reading of parameter files. usage: paramrun SEED0 NCASES any|bad|NAME
#include <fstream>
#include <sstream>
#include <random>
#include <numeric>
#include <functional>
#include <set>
#include <map>
#include <climits>
#include "hydro.h"
#include "wholerun.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

struct Par {
  const char * name;
  char kind; // l i s d b t k
  std::function<std::string()> get;
};
static std::string num(double x) {
  return text("%.17g", x);
}
#define I(k, n) {#n, k, [] { return std::to_string(param::n); }},
#define F(n) {#n, 'd', [] { return num(param::n); }},
#define B(n) {#n, 'b', [] { return std::string(param::n ? "yes" : "no"); }},
#define T(n) {#n, 't', [] { return std::string(param::n); }},
#define K(n) {#n, 'k', [] { return std::to_string((int)param::n); }},
// as documented: integers, real numbers, yes/no, texts and key words
static const std::vector<Par> pars = {
  I('l', initial_iteration) I('l', final_iteration) I('l', pressure_updates_number) I('l', nparticles) I('l', lattice_nx) I('i', domain_type)
  I('i', out_screen_every) I('i', out_scalar_every) I('i', out_h5data_every) I('i', out_diagnostic_every) I('i', wvt_cool_down)
  I('i', relaxation_steps) I('i', lattice_type) I('s', sodtest_num) F(initial_time) F(final_time) F(initial_dt) F(timestep_cfl_factor) F(sph_eta)
  F(sph_smoothing_length) F(sph_separation) F(sph_sinc_index) F(box_length) F(box_width) F(box_height) F(sphere_radius) F(lattice_mismatch_tolerance)
  F(out_screen_dt) F(out_scalar_dt) F(out_h5data_dt) F(wvt_mu) F(wvt_ngb) F(wvt_convergence_point) F(wvt_radius) F(poly_gamma) F(poly_gamma2)
  F(ppt_density_thr) F(sph_viscosity_alpha) F(sph_viscosity_beta) F(sph_viscosity_epsilon) F(sph_viscosity_alpha_max) F(sph_viscosity_l)
  F(sph_viscosity_delta) F(fmm_macangle) F(relaxation_beta) F(relaxation_gamma) F(relaxation_repulsion_radius) F(relaxation_repulsion_gamma)
  F(zero_potential_poison_value) F(extforce_wall_powerindex) F(extforce_wall_steepness) F(mesa_rim_width) F(gravity_acceleration_constant)
  F(gravitational_constant) F(orbital_separation) F(mass_neutron_star) F(mass_white_dwarf) F(rho_initial) F(pressure_initial) F(uint_initial)
  F(sedov_blast_energy) F(sedov_blast_radius) F(noh_infall_velocity) F(lattice_perturbation_amplitude) F(flow_velocity) F(density_ratio) F(KH_A)
  F(KH_lambda) F(rt_perturbation_amplitude) F(rt_perturbation_stripe_width) F(rt_perturbation_mode) F(airfoil_size) F(airfoil_thickness)
  F(airfoil_camber) F(airfoil_anchor_x) F(airfoil_anchor_y) F(airfoil_attack_angle) B(adaptive_timestep) B(sph_update_uniform_h) B(sph_variable_h)
  B(do_boundaries) B(stop_boundaries) B(reflect_boundaries) B(periodic_boundary_x) B(periodic_boundary_y) B(periodic_boundary_z) B(modify_initial_data)
  B(out_h5data_separate_iterations) B(wvt_convergence_check) B(wvt_h_ngb) B(enable_fmm) B(evolve_internal_energy) B(thermokinetic_formulation)
  B(equal_mass) T(initial_data_prefix) T(output_h5data_prefix) T(wvt_method) T(wvt_boundary) T(eos_tab_file_path) T(external_force_type)
  T(density_profile) T(input_density_file) K(sph_kernel) K(eos_type) K(sph_viscosity)
};
static const std::map<std::string, std::vector<std::pair<const char *, int>>> words = {
  {"sph_kernel", {{"cubic_spline", param::cubic_spline}, {"quintic_spline", param::quintic_spline}, {"wendland_c2", param::wendland_c2},
    {"wendland_c4", param::wendland_c4}, {"wendland_c6", param::wendland_c6}, {"gaussian", param::gaussian}, {"super_gaussian", param::super_gaussian},
    {"sinc_ker", param::sinc_ker}}},
  {"eos_type", {{"ideal_fluid", param::eos_ideal}, {"polytropic", param::eos_polytropic}, {"wd", param::eos_wd}, {"white_dwarf", param::eos_wd},
    {"ppt", param::eos_ppt}, {"piecewise_polytropic", param::eos_ppt}, {"no_eos", param::eos_no_eos}, {"none", param::eos_no_eos}}},
  {"sph_viscosity", {{"constant", param::visc_constant}, {"cullen", param::visc_cullen}}}};
using rng = std::mt19937_64;
static std::string blanks(rng & g, int lo = 0) {
  std::string s;
  for(int n = lo + (g() % 2 ? g() % 4 : 0); n > 0; --n)
    s += g() % 3 ? ' ' : '\t';
  return s;
}
static std::string quoted(rng & g, const std::string & s) {
  char q = g() % 2 ? '"' : '\'';
  return q + s + q;
}
static std::string garbage(rng & g) {
  static const char * w[] = {"particles", "= 4", "sph_eta = 3.5", "\"quoted\"", "# twice", "yes", "it's", "a\tb", "1.5e3", "==", ""};
  std::string s;
  for(int n = g() % 4; n >= 0; --n)
    s += std::string(w[g() % 11]) + " ";
  return s;
}
// one value as written, and what the parameter is then
static std::pair<std::string, std::string> value(rng & g, const Par & p) {
  long big = 1;
  for(int e = g() % 18; e > 0; --e)
    big *= 10;
  long v = (long)(g() % big) * (g() % 3 ? 1 : -1);
  std::string s;
  switch(p.kind) {
    case 'l':
      s = std::to_string(v);
      return {s, s};
    case 'i':
      s = std::to_string((int)(v % 2147483648L));
      return {s, s};
    case 's':
      s = std::to_string(std::abs(v) % 65536);
      return {s, s};
    case 'd': {
      double x = (2 * uni(g) - 1) * std::pow(10., 30 * uni(g) - 15);
      const char * f[] = {"%.17g", "%.6e", "%.3f", "%.9E", "%.0f", "+%.4e"};
      int k = g() % 6;
      s = text(f[k], k == 5 ? std::abs(x) : x);
      return {s, num(strtod(s.c_str(), nullptr))};
    }
    case 'b': {
      bool y = g() % 2;
      s = y ? (g() % 2 ? "yes" : "true") : (g() % 2 ? "no" : "false");
      return {g() % 4 ? s : quoted(g, s), y ? "yes" : "no"};
    }
    case 't': {
      const char cs[] = "abcdefXYZ0189_-./:=+";
      int n = g() % 10 ? 1 + g() % 40 : 200 + g() % 200;
      for(int i = 0; i < n; ++i)
        s += cs[g() % (sizeof cs - 1)];
      int k = g() % 6;
      if(k < 3)
        return {s, s};
      if(k == 3)
        s.insert(g() % s.size(), " ");
      if(k == 5)
        s = "";
      return {quoted(g, s), s};
    }
    default: {
      auto & ws = words.at(p.name);
      auto & w = ws[g() % ws.size()];
      bool up = g() % 2, sp = g() % 2;
      for(const char * c = w.first; *c; ++c)
        s += *c == '_' && sp ? ' ' : up && g() % 2 ? (char)toupper(*c) : *c;
      return {g() % 4 ? s : quoted(g, s), std::to_string(w.second)};
    }
  }
}
static std::string line(rng & g, const Par & p, std::string & want) {
  auto v = value(g, p);
  want = v.second;
  std::string s = blanks(g) + p.name + blanks(g) + "=" + blanks(g) + v.first + blanks(g);
  if(g() % 3 == 0)
    s += (g() % 2 ? " " : "") + std::string("#") + garbage(g);
  return s;
}
static std::string file_;
static void write(const std::string & s) {
  if(rank_ == 0)
    std::ofstream(file_) << s;
  MPI_Barrier(MPI_COMM_WORLD);
}
static std::map<std::string, std::string> now() {
  std::map<std::string, std::string> m;
  for(auto & p : pars)
    m[p.name] = p.get();
  return m;
}
static int good(uint64_t seed, const std::string & only) {
  rng g(seed * 104729 + 11);
  auto want = now();
  std::string s, w;
  std::vector<const Par *> use;
  for(auto & p : pars)
    if(only == "any" || only == p.name)
      use.push_back(&p);
  CHK(!use.empty(), "no parameter %s", only.c_str());
  std::string last;
  for(int n = only == "any" ? g() % 40 : 1; n > 0; --n) {
    while(g() % 4 == 0)
      s += g() % 2 ? blanks(g) + "\n" : blanks(g) + "#" + garbage(g) + "\n";
    const Par & p = *use[g() % use.size()];
    std::string l = line(g, p, w);
    want[p.name] = w;
    last = l;
    s += l + (n == 1 && g() % 2 ? "" : "\n");
  }
  what_ = text("seed %lu", (unsigned long)seed);
  write(s);
  param::mpi_read_params(rank_ == 0 ? file_.c_str() : "nothing");
  auto got = now();
  for(auto & p : pars)
    if(got[p.name] != want[p.name]) {
      std::string own;
      std::istringstream is(s);
      for(std::string l; std::getline(is, l);)
        if(l.find(p.name) != std::string::npos)
          own = l;
      CHK(false, "parameter %s is %s after reading, should be %s (%s)", p.name, got[p.name].c_str(), want[p.name].c_str(),
        own.empty() ? "not in the file" : ("line: " + own).c_str());
    }
  MPI_Barrier(MPI_COMM_WORLD);
  return 1;
}
// a file that is not well formed is refused (one process)
static int bad(uint64_t seed) {
  rng g(seed * 104729 + 13);
  std::string s, w, l;
  for(int n = g() % 4; n > 0; --n)
    s += line(g, pars[g() % pars.size()], w) + "\n";
  std::string nm = pars[g() % pars.size()].name;
  switch(g() % 8) {
    case 0:
      l = nm; // no value
      break;
    case 1:
      l = nm + " 5";
      break;
    case 2:
      l = nm + blanks(g) + "=" + blanks(g);
      break;
    case 3:
      l = blanks(g) + "=" + blanks(g) + "5";
      break;
    case 4: {
      std::set<std::string> known;
      for(auto & p : pars)
        known.insert(p.name);
      size_t i = g() % nm.size();
      do {
        int k = g() % 3;
        if(k == 0)
          nm.insert(g() % (nm.size() + 1), 1, 'a' + g() % 26);
        else if(k == 1 && nm.size() > 4)
          nm.erase(g() % nm.size(), 1);
        else
          nm[g() % nm.size()] = toupper(nm[i % nm.size()]);
      } while(known.count(nm) || nm == "wvt_set_boundary" || nm == "fmm_max_cell_mass");
      l = nm + " = 1";
      break;
    }
    case 6:
      l = blanks(g) + (char)('a' + g() % 26);
      break;
    case 5:
      l = "# = 4 \n no such line";
      break;
    default: {
      const char * k[] = {"sph_kernel", "eos_type", "sph_viscosity"};
      const char * v[] = {"cubic", "spline", "cullens", "const", "ideal", "yes", "1", "wendland_c", "wendland_c22"};
      std::string n = k[g() % 3], x = v[g() % 9];
      if(g() % 3) {
        // part of a key word, or one with a letter more
        std::set<std::string> all;
        for(auto & y : words.at(n))
          all.insert(y.first);
        do {
          x = words.at(n)[g() % words.at(n).size()].first;
          size_t i = g() % x.size();
          switch(g() % 4) {
            case 0:
              x = x.substr(0, i);
              break;
            case 1:
              x = x.substr(i);
              break;
            case 2:
              x.insert(i, 1, 'a' + g() % 26);
              break;
            default:
              x += 'a' + g() % 26;
          }
        } while(all.count(x) || x.empty());
      }
      l = n + " = " + x;
    }
  }
  what_ = text("seed %lu", (unsigned long)seed);
  write(s + l + "\n" + line(g, pars[g() % pars.size()], w) + "\n");
  fflush(stdout);
  pid_t c = fork();
  if(c == 0) {
    int z = open("/dev/null", O_WRONLY);
    dup2(z, 1);
    dup2(z, 2);
    param::mpi_read_params(file_.c_str());
    _exit(0);
  }
  int st = 0;
  waitpid(c, &st, 0);
  CHK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "a file with the line \"%s\" was accepted", l.c_str());
  return 1;
}
int main(int argc, char ** argv) {
  const char * d = getenv("TMPDIR");
  file_ = std::string(d ? d : "/tmp") + "/p" + (d ? "" : std::to_string(getpid())) + ".par";
  return run_all(argc, argv, [](uint64_t s, const std::string & k) { return k == "bad" ? bad(s) : good(s, k); });
}
