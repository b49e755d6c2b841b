// snapshots: what is handed to and taken from the file library
#include "hydro.h"
#include <numeric>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <climits>
#include <dirent.h>
#include <libgen.h>
#include <hdf5.h>
#undef H5T_NATIVE_INT
#undef H5T_NATIVE_DOUBLE
#undef H5T_NATIVE_LLONG
#undef H5T_NATIVE_ULLONG
#define H5T_NATIVE_INT 101
#define H5T_NATIVE_DOUBLE 102
#define H5T_NATIVE_LLONG 103
#define H5T_NATIVE_ULLONG 104
#undef log_one // messages are left out
#define log_one(s) while(false) std::cerr
#include "bodies_system.h"
#include "bodyget.h"
X void t_bind() {}
X void t_ext(int) {}
X void t_remote(int, double) {}
using V = std::vector<body>;
// ---- stand-in for the file library: one data set is watched
struct Out {
  int64_t seen, type, ivalue, total, mem, off, cnt;
  double value;
};
static const char * want;
static int64_t at;
static Out * out;
static const char * name_;
static int64_t mslab_[2], fslab_[2];
static const double * fd_[3]; // contents of the data sets of the file that is read
static const int64_t * fi_;
static const int * fs_;
static const char * fn_[3];
static int missing_;
static const int64_t FILE_ = int64_t(1) << 60;
static int P_ = 1, R_;
static const int64_t * C_;
X {
  int MPI_Comm_size(MPI_Comm, int * n) { *n = P_; return 0; }
  int MPI_Comm_rank(MPI_Comm, int * n) { *n = R_; return 0; }
  int MPI_Barrier(MPI_Comm) { return 0; }
  int MPI_Allgather(const void * s, int, MPI_Datatype, void * r, int, MPI_Datatype, MPI_Comm) {
    for(int i = 0; i < P_; ++i)
      ((int64_t *)r)[i] = i == R_ ? *(const int64_t *)s : C_[i];
    return 0;
  }
  herr_t H5open() { return 0; }
  herr_t H5check_version(unsigned, unsigned, unsigned) { return 0; }
  hid_t H5Pcreate(hid_t) { return 1; }
  herr_t H5Pclose(hid_t) { return 0; }
  herr_t H5Pset_fapl_mpio(hid_t, MPI_Comm, MPI_Info) { return 0; }
  herr_t H5Pset_dxpl_mpio(hid_t, H5FD_mpio_xfer_t) { return 0; }
  hid_t H5Fopen(const char *, unsigned, hid_t) { return 5; }
  hid_t H5Fcreate(const char *, unsigned, hid_t, hid_t) { return 5; }
  herr_t H5Fclose(hid_t) { return 0; }
  herr_t H5Eset_auto2(hid_t, H5E_auto2_t, void *) { return 0; }
  hid_t H5Gcreate2(hid_t, const char *, hid_t, hid_t, hid_t) { return 6; }
  hid_t H5Gopen2(hid_t, const char *, hid_t) { return 6; }
  herr_t H5Gclose(hid_t) { return 0; }
  herr_t H5Gget_objinfo(hid_t, const char *, hbool_t, H5G_stat_t *) { return -1; }
  hid_t H5Acreate2(hid_t, const char *, hid_t, hid_t, hid_t, hid_t) { return 9; }
  herr_t H5Awrite(hid_t, hid_t, const void *) { return 0; }
  herr_t H5Aclose(hid_t) { return 0; }
  hid_t H5Screate(H5S_class_t) { return 0; }
  // a space is its number of elements; the one of a data set is marked
  hid_t H5Screate_simple(int, const hsize_t * d, const hsize_t *) { return *d; }
  herr_t H5Sclose(hid_t) { return 0; }
  herr_t H5Sselect_hyperslab(hid_t s, H5S_seloper_t, const hsize_t * o, const hsize_t *, const hsize_t * c, const hsize_t *) {
    int64_t * a = s >= FILE_ ? fslab_ : mslab_;
    a[0] = *o;
    a[1] = *c;
    return 0;
  }
  hid_t H5Dcreate2(hid_t, const char * n, hid_t, hid_t s, hid_t, hid_t, hid_t) { name_ = n; return s; }
  hid_t H5Dopen2(hid_t, const char * n, hid_t) { name_ = n; return 7; }
  hid_t H5Dget_space(hid_t s) { return s + FILE_; }
  herr_t H5Dclose(hid_t) { return 0; }
  herr_t H5Dwrite(hid_t, hid_t type, hid_t m, hid_t f, hid_t, const void * p) {
    if(strcmp(name_, want))
      return 0;
    out->seen++;
    out->type = type;
    if(type == 102)
      out->value = ((const double *)p)[at];
    else if(type == 101)
      out->ivalue = ((const int *)p)[at];
    else
      out->ivalue = ((const int64_t *)p)[at];
    out->mem = m;
    out->total = f - FILE_;
    out->off = fslab_[0];
    out->cnt = fslab_[1];
    return 0;
  }
  herr_t H5Dread(hid_t, hid_t type, hid_t, hid_t, hid_t, void * p) {
    if(missing_)
      return -1;
    int64_t o = fslab_[0], n = fslab_[1];
    if(type == 102) {
      const double * f = !strcmp(name_, fn_[0]) ? fd_[0] : !strcmp(name_, fn_[1]) ? fd_[1] : fd_[2];
      for(int64_t i = 0; i < n; ++i)
        ((double *)p)[i] = f[o + i];
    }
    else if(type == 101)
      for(int64_t i = 0; i < n; ++i)
        ((int *)p)[i] = fs_[o + i];
    else
      for(int64_t i = 0; i < n; ++i)
        ((int64_t *)p)[i] = fi_[o + i];
    return 0;
  }
}
static void write(V & b, const char * name, int64_t k, Out * o, int procs, int rank, const int64_t * cnt) {
  want = name;
  at = k;
  out = o;
  P_ = procs;
  R_ = rank;
  C_ = cnt;
  o->seen = 0;
  io::outputDataHDF5(b, "f", 3, 1.);
}
#define DS(n) \
  X void w_write_##n(V & b, int64_t k, Out * o, int procs, int rank, const int64_t * cnt) { write(b, #n, k, o, procs, rank, cnt); }
DS(x) DS(y) DS(z) DS(vx) DS(vy) DS(vz) DS(ax) DS(ay) DS(az) DS(gradV) DS(h) DS(rho) DS(u) DS(P) DS(m) DS(dt) DS(traceSS) DS(id) DS(type)
DS(alpha) DS(divergenceV) DS(dDivVdt) DS(trigger) DS(xi) DS(state) DS(rank) DS(neighbors)

X void w_counts(int64_t mine, int64_t * o, int procs, int rank, const int64_t * cnt) {
  P_ = procs;
  R_ = rank;
  C_ = cnt;
  io::H5P_setNumParticles(mine);
  o[0] = io::IO_nparticlesproc;
  o[1] = io::IO_nparticles;
  o[2] = io::IO_offset;
  o[3] = io::IO_count;
}
template<class T>
static void read(V & b, T * tmp, const char * name, int64_t off) {
  hid_t file = 5;
  P_ = 1;
  R_ = 0;
  io::IO_nparticlesproc = b.size();
  io::IO_count = b.size();
  io::IO_offset = off;
  io::H5P_bodiesReadDataset(b, file, name, tmp);
}
#define RV(n, n2, n3, get) \
  X void w_read_##n(V & b, double * tmp, int64_t off, const double * f0, const double * f1, const double * f2, int64_t k, double * o) { \
    fn_[0] = #n; fn_[1] = #n2; fn_[2] = #n3; \
    fd_[0] = f0; fd_[1] = f1; fd_[2] = f2; \
    missing_ = 0; \
    read(b, tmp, #n, off); \
    for(size_t i = 0; i < gdimension; ++i) \
      o[i] = b[k].get()[i]; \
  }
RV(x, y, z, coordinates) RV(vx, vy, vz, getVelocity)
#define RS(n, get) \
  X double w_read_##n(V & b, double * tmp, int64_t off, const double * f, int64_t k) { \
    fn_[0] = fn_[1] = fn_[2] = #n; \
    fd_[0] = fd_[1] = fd_[2] = f; \
    missing_ = 0; \
    read(b, tmp, #n, off); \
    return b[k].get(); \
  }
RS(m, mass) RS(rho, getDensity) RS(h, radius) RS(P, getPressure) RS(u, getInternalenergy) RS(dt, getDt)
X int64_t w_read_id(V & b, int64_t * tmp, int64_t off, const int64_t * f, int64_t k, int miss) {
  fi_ = f;
  missing_ = miss;
  io::IO_nparticles = off + b.size();
  read(b, tmp, "id", off);
  return b[k].id();
}
X int w_read_type(V & b, int * tmp, int64_t off, const int * f, int64_t k) {
  fs_ = f;
  missing_ = 0;
  read(b, tmp, "type", off);
  return (int)b[k].getType();
}
X int w_read_state(V & b, int * tmp, int64_t off, const int * f, int64_t k) {
  fs_ = f;
  missing_ = 0;
  read(b, tmp, "state", off);
  return (int)b[k].state();
}
