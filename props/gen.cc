#include <climits>
#include <fstream>
#include <hdf5.h>
#include <iomanip>
#include <libgen.h>
#include <numeric>
#include <random>
#include <sstream>
#include "hydro.h"
#include "density_profiles.h"
#include "bodies_system.h"
#include "io.h"
#include "kernels.h"
// the installation of the selected functions, kept as calls
#define SELECT(ns) namespace ns { __attribute__((noinline)) void select_() { select(); } }
SELECT(density_profiles)
// lattice.h is read with the name replaced
namespace particle_lattice { __attribute__((noinline)) void select_(); }
SELECT(kernels)
#define select() select_()
#define main gen_main
#if GEN == 1
#include "id_generators/sedov/main.cc"
#elif GEN == 2
#include "id_generators/noh/main.cc"
#else
#include "id_generators/sodtube/main.cc"
#endif
#undef main
X void w_derived() { set_derived_params(); }
