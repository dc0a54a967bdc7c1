#pragma once
#include "mj.hpp"
#include "parameters.hpp"
// A parameter set from the scenario: public members, then validate().
inline trv::ParameterSet mkparams(const J& s, bool validate = true) {
  trv::ParameterSet p;
  p.catalogue_type = "sim"; p.statistic_type = "powspec"; p.fftw_scheme = "estimate";
  p.use_fftw_wisdom = "false"; p.save_binned_vectors = "false"; p.norm_convention = "none";
  p.bin_min = 0.1; p.bin_max = 1.; p.num_bins = 7; p.verbose = 50; p.measurement_dir = "./";
  for (auto& kv : s.o) {
    const std::string& k = kv.first; const J& v = kv.second;
    if (k == "boxsize") for (int a = 0; a < 3; a++) p.boxsize[a] = v[a];
    else if (k == "ngrid") for (int a = 0; a < 3; a++) p.ngrid[a] = v[a].i();
#define S_(x) else if (k == #x) p.x = v.s;
#define D_(x) else if (k == #x) p.x = v.n;
#define I_(x) else if (k == #x) p.x = v.i();
    S_(catalogue_dir) S_(measurement_dir) S_(data_catalogue_file) S_(rand_catalogue_file) S_(catalogue_columns)
    S_(catalogue_dataset) S_(output_tag) D_(expand) D_(cutoff_nyq) S_(alignment) S_(padscale) D_(padfactor)
    S_(assignment) S_(interlace) D_(volume) I_(nmesh) I_(assignment_order) S_(catalogue_type) S_(statistic_type)
    S_(npoint) S_(space) I_(ell1) I_(ell2) I_(ELL) I_(i_wa) I_(j_wa) S_(form) S_(norm_convention) S_(shape)
    S_(binning) D_(bin_min) D_(bin_max) I_(num_bins) I_(idx_bin) S_(fftw_scheme) S_(use_fftw_wisdom)
    S_(fftw_wisdom_file_f) S_(fftw_wisdom_file_b) S_(save_binned_vectors) I_(verbose) S_(progbar)
    else throw std::runtime_error("unknown parameter " + k);
  }
  if (validate) p.validate();
  return p;
}
inline std::string dumpparams(trv::ParameterSet& p) {
  W w;
#undef S_
#undef D_
#undef I_
#define S_(x) w.t(#x, p.x);
#define D_(x) w.n(#x, (double) p.x);
  S_(catalogue_dir) S_(measurement_dir) S_(data_catalogue_file) S_(rand_catalogue_file) S_(catalogue_columns)
  S_(catalogue_dataset) S_(output_tag) D_(expand) D_(cutoff_nyq) S_(alignment) S_(padscale) D_(padfactor)
  S_(assignment) S_(interlace) D_(volume) D_(nmesh) D_(assignment_order) S_(catalogue_type) S_(statistic_type)
  S_(npoint) S_(space) D_(ell1) D_(ell2) D_(ELL) D_(i_wa) D_(j_wa) S_(form) S_(norm_convention) S_(shape)
  S_(binning) D_(bin_min) D_(bin_max) D_(num_bins) D_(idx_bin) S_(fftw_scheme) S_(use_fftw_wisdom)
  S_(fftw_wisdom_file_f) S_(fftw_wisdom_file_b) S_(save_binned_vectors) D_(verbose) S_(progbar) D_(fftw_planner_flag)
  w.v("boxsize", std::vector<double>(p.boxsize, p.boxsize + 3)).v("ngrid", std::vector<int>(p.ngrid, p.ngrid + 3));
  return w.done();
}
