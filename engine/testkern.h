#pragma once
// functions standing for the selected kernel, gradient and viscosity in native replays
static double t_W(const double & r, const double & h) { double q = h ? fabs(r / h) : 0.0; return 1.0 / (1 + q * q) + 0.1; }
static point_t t_K(const point_t & x, const double & h) {
  double r2 = 0; for(size_t i = 0; i < gdimension; ++i) r2 += x[i] * x[i];
  double k = -1.0 / (1.0 + r2 + h * h); point_t r; for(size_t i = 0; i < gdimension; ++i) r[i] = x[i] * k; return r;
}
static double t_V(const double a, const double r, const double c, const double m) { return 0.3 * a + 0.2 * c - 0.7 * m + 0.1 * r; }
X void t_bind() { kernels::sph_kernel_function = t_W; kernels::sph_kernel_gradient = t_K; viscosity::sph_artificial_viscosity = t_V; }

// external force and potential for native replays
static point_t t_A(const body & b) { point_t p = b.coordinates(), r; for(size_t i = 0; i < gdimension; ++i) r[i] = 0.5 + 0.25 * i - 0.7 * p[i]; return r; }
static double t_phi(const point_t & p) { double s = 0.3; for(size_t i = 0; i < gdimension; ++i) s += 0.35 * p[i] * p[i] - 0.1 * p[i]; return s; }
X void t_ext(int on) {
  external_force::vec_accelerations.clear(); external_force::vec_potentials.clear();
  if(on) { external_force::vec_accelerations.push_back(t_A); external_force::vec_potentials.push_back(t_phi); }
}

#ifndef __clang__ // only in the native replay library
// one-process stand-ins for the collectives (native replays run without MPI_Init)
static size_t t_size(MPI_Datatype t) { return t == MPI_INT || t == MPI_FLOAT || t == MPI_UNSIGNED ? 4 : t == MPI_CHAR || t == MPI_BYTE ? 1 : 8; }
// a second, fictitious process contributes t_rem to reductions of doubles
static double t_rem = 0; static int t_rem_on = 0;
X void t_remote(int on, double x) { t_rem_on = on; t_rem = x; }
X int MPI_Allreduce(const void * s, void * r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
  if(s != MPI_IN_PLACE) memcpy(r, s, n * t_size(t));
  if(t_rem_on && t == MPI_DOUBLE) for(int i = 0; i < n; ++i) {
    double & x = static_cast<double *>(r)[i];
    if(op == MPI_SUM) x += t_rem; else if(op == MPI_MIN) x = x < t_rem ? x : t_rem; else if(op == MPI_MAX) x = x > t_rem ? x : t_rem;
  }
  return MPI_SUCCESS;
}
X int MPI_Comm_rank(MPI_Comm, int * r) { *r = 0; return MPI_SUCCESS; }
X int MPI_Comm_size(MPI_Comm, int * r) { *r = 1; return MPI_SUCCESS; }
X int MPI_Barrier(MPI_Comm) { return MPI_SUCCESS; }
#endif
