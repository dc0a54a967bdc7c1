// Runs the parallel kernels of the library with different numbers of threads on
// generated catalogues and reports digests (weighted block sums) of every result.
#include <algorithm>
#include <omp.h>
#include "params.hpp"
#include "monitor.hpp"
#include "maths.hpp"
#include "arrayops.hpp"
#include "particles.hpp"
#include "dataobjs.hpp"
#include "field.hpp"
#include "twopt.hpp"
#include "threept.hpp"
using namespace trv;
typedef std::complex<double> C;
typedef std::vector<double> V;

struct Rand { unsigned long long s; double u() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return double(s >> 11) / 9007199254740992.; } };
static void gen(ParticleCatalogue& c, std::vector<LineOfSight>& los, const J& g, const double box[3]) {
  Rand r{(unsigned long long) g["seed"].n};
  V x, y, z, nz, ws, wc;
  int n = g["count"].i();
  double f = g.has("frac") ? g["frac"].n : 1.;    // part of the box that is filled: the smaller, the more contention
  for (int i = 0; i < n; i++) {
    x.push_back(box[0] * f * r.u()); y.push_back(box[1] * f * r.u()); z.push_back(box[2] * f * r.u());
    nz.push_back(1e-3 * (1 + r.u())); ws.push_back(.5 + r.u()); wc.push_back(.5 + r.u());
    LineOfSight l; double q[3], s = 0;
    for (int a = 0; a < 3; a++) { q[a] = r.u() - .3; s += q[a]*q[a]; }
    for (int a = 0; a < 3; a++) l.pos[a] = q[a] / std::sqrt(s);
    los.push_back(l);
  }
  c.load_particle_data(x, y, z, nz, ws, wc);
}
typedef std::vector<std::pair<std::string, V>> Out;
static V digest(const V& v, int nblock) {
  V d(v.size() <= (std::size_t) nblock ? v.size() : nblock, 0.);
  for (std::size_t i = 0; i < v.size(); i++) {
    double c = v.size() <= (std::size_t) nblock ? 1. : 1. + std::fmod(i * .6180339887498949, 1.);
    d[i * d.size() / v.size()] += c * v[i];
  }
  return d;
}
static double top(const V& v) { double s = 0; for (double x : v) if (std::fabs(x) > s) s = std::fabs(x); return s; }
static V mesh(MeshField& f) {
  V v;
  for (long long g = 0; g < f.params.nmesh; g++) { v.push_back(f[g][0]); v.push_back(f[g][1]); }
  return v;
}
static V cv(const std::vector<C>& z) { V v; for (auto& x : z) { v.push_back(x.real()); v.push_back(x.imag()); } return v; }
template <class T> static V dv(const std::vector<T>& z) { return V(z.begin(), z.end()); }
static V catv(ParticleCatalogue& c) {
  V v;
  for (int i = 0; i < c.ntotal; i++) { for (int a = 0; a < 3; a++) v.push_back(c[i].pos[a]); v.push_back(c[i].w); }
  return v;
}
static V sums(ParticleCatalogue& c) {
  V v{c.wtotal, c.wstotal, double(c.ntotal)};
  for (int a = 0; a < 3; a++) { v.push_back(c.pos_min[a]); v.push_back(c.pos_max[a]); v.push_back(c.pos_span[a]); }
  return v;
}
template <class M> static void two(Out& o, const M& m, const V& c, const V& e, const std::vector<int>& n) {
  o.push_back({"centre", c}); o.push_back({"effective", e}); o.push_back({"count", dv(n)});
}
static Out kernels(const J& s) {
  ParameterSet par = mkparams(s["par"]);
  std::string k = s["kernel"].s;
  Out o;
  ParticleCatalogue cat, ran;
  std::vector<LineOfSight> lc, lr;
  if (s.has("cat")) gen(cat, lc, s["cat"], par.boxsize);
  if (s.has("ran")) gen(ran, lr, s["ran"], par.boxsize);
  double alpha = s.has("ran") && s.has("cat") ? cat.wtotal / ran.wtotal : 1.;
  auto deg = [&](int i) { return s["deg"][i].i(); };
  if (k == "exact") {      // every particle of a small catalogue many times over
    int R = s["repeat"].i();
    V x, y, z, one;
    std::vector<double> w;
    const J& ps = s["ps"];
    for (int r = 0; r < R; r++) for (auto& p : ps.a) {
      x.push_back(p["x"][0].n); y.push_back(p["x"][1].n); z.push_back(p["x"][2].n); one.push_back(1.);
      w.push_back(p["w"][0].n); w.push_back(p["w"][1].n);
    }
    ParticleCatalogue c; c.load_particle_data(x, y, z, one, one, one);
    fftw_complex* a = fftw_alloc_complex(c.ntotal);
    for (int i = 0; i < c.ntotal; i++) { a[i][0] = w[2*i]; a[i][1] = w[2*i + 1]; }
    MeshField f(par); f.assign_weighted_field_to_mesh(c, a);
    V first = mesh(f);
    f.assign_weighted_field_to_mesh(c, a);
    fftw_free(a);
    o.push_back({"mesh", first}); o.push_back({"again", mesh(f)});
    f.fourier_transform(); o.push_back({"fft", mesh(f)});    // with the shadow mesh when interlaced
    o.push_back({"total", V{c.wtotal, c.wstotal}});
    return o;
  }
  if (k == "catalogue") {
    o.push_back({"sums", sums(cat)});
    double d[3] = {1.25, -2.5, 7.75};
    cat.offset_coords(d); o.push_back({"offset", catv(cat)}); o.push_back({"offset_sums", sums(cat)});
    cat.offset_coords_for_periodicity(par.boxsize); o.push_back({"wrap", catv(cat)}); o.push_back({"wrap_sums", sums(cat)});
    ParticleCatalogue::centre_in_box(cat, ran, par.boxsize); o.push_back({"centre", catv(cat)}); o.push_back({"centre_sums", sums(ran)});
    o.push_back({"norm", V{calc_powspec_normalisation_from_particles(ran, alpha), calc_bispec_normalisation_from_particles(ran, alpha),
      calc_powspec_shotnoise_from_particles(ran, alpha)}});
    C a = calc_ylm_wgtd_shotnoise_amp_for_powspec(cat, ran, lc.data(), lr.data(), alpha, deg(2), 1);
    C b = calc_ylm_wgtd_shotnoise_amp_for_powspec(ran, lr.data(), alpha, deg(2), 0);
    C c = calc_ylm_wgtd_shotnoise_amp_for_bispec(cat, ran, lc.data(), lr.data(), alpha, deg(2), 1);
    C e = calc_ylm_wgtd_shotnoise_amp_for_bispec(ran, lr.data(), alpha, deg(2), 0);
    o.push_back({"shot", cv({a, b})}); o.push_back({"shot3", cv({c, e})});
    std::vector<int> key; for (int i = 0; i < 5000; i++) key.push_back((i * 7919) % 5000);
    o.push_back({"sorted", dv(array::get_sorted_indices(key))});
    return o;
  }
  if (k == "maths") {
    std::vector<C> y(par.nmesh);
    maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_fourier_space(deg(0), 1, par.boxsize, par.ngrid, y);
    o.push_back({"ylm_fourier", cv(y)});
    maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_config_space(deg(1), -1, par.boxsize, par.ngrid, y);
    o.push_back({"ylm_config", cv(y)});
    maths::SphericalBesselCalculator j(deg(2));
    V v; for (int i = 0; i < 600; i++) v.push_back(j.eval(.21 * i));
    o.push_back({"sjl", v});
    return o;
  }
  if (k == "meshnorm") {
    o.push_back({"one", V{calc_powspec_normalisation_from_mesh(ran, par, alpha)}});
    o.push_back({"three", V{calc_bispec_normalisation_from_mesh(ran, par, alpha)}});
    o.push_back({"mixed", V{calc_powspec_normalisation_from_meshes(cat, ran, par, alpha)}});
    return o;
  }
  V edges = s["edges"].vec();
  if (k == "fields") {
    MeshField a(par, true, "a"), b(par, true, "b");
    a.compute_unweighted_field_fluctuations_insitu(cat); o.push_back({"fluct", mesh(a)});
    a.compute_unweighted_field(cat); o.push_back({"unweighted", mesh(a)});
    a.compute_ylm_wgtd_field(cat, lc.data(), alpha, deg(2), 1); o.push_back({"ylm1", mesh(a)});
    a.compute_ylm_wgtd_quad_field(cat, lc.data(), alpha, deg(2), 1); o.push_back({"quad1", mesh(a)});
    b.compute_ylm_wgtd_quad_field(cat, ran, lc.data(), lr.data(), alpha, deg(2), 0); o.push_back({"quad2", mesh(b)});
    a.compute_ylm_wgtd_field(cat, ran, lc.data(), lr.data(), alpha, deg(2), 0); o.push_back({"ylm2", mesh(a)});
    a.fourier_transform(); o.push_back({"fft", mesh(a)});
    b.fourier_transform();
    std::vector<C> ya(par.nmesh), yb(par.nmesh);
    maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_fourier_space(deg(0), 0, par.boxsize, par.ngrid, ya);
    maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_fourier_space(deg(1), 1, par.boxsize, par.ngrid, yb);
    MeshField d(par, true, "d");
    double keff; int nm;
    d.inv_fourier_transform_ylm_wgtd_field_band_limited(a, ya, edges[0], edges[2], keff, nm);
    o.push_back({"band", mesh(d)}); o.push_back({"band_sum", V{keff, double(nm)}});
    maths::SphericalBesselCalculator ja(deg(0)), jb(deg(1));
    d.inv_fourier_transform_sjl_ylm_wgtd_field(a, ya, ja, .3 * par.boxsize[0]); o.push_back({"sjl", mesh(d)});
    FieldStats st(par);
    Binning bin(par); bin.set_bins(edges);
    C amp(1.5, .25);
    st.compute_ylm_wgtd_2pt_stats_in_fourier(a, b, amp, deg(2), 1, bin);
    o.push_back({"pk_n", dv(st.nmodes)}); o.push_back({"pk_k", st.k}); o.push_back({"pk", cv(st.pk)}); o.push_back({"pk_sn", cv(st.sn)});
    C u = st.compute_uncoupled_shotnoise_for_bispec_per_bin(a, b, ya, yb, ja, jb, amp, edges[1], edges[2]);
    o.push_back({"bk_sn", cv({u})});
    V re = s["redges"].vec();
    Binning rbin(par); rbin.space = "config"; rbin.set_bins(re);
    st.compute_ylm_wgtd_2pt_stats_in_config(a, b, amp, deg(2), 1, rbin);
    o.push_back({"xi_n", dv(st.npairs)}); o.push_back({"xi_r", st.r}); o.push_back({"xi", cv(st.xi)});
    std::vector<C> ra(par.nmesh), rb(par.nmesh);
    maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_config_space(deg(0), 0, par.boxsize, par.ngrid, ra);
    maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_config_space(deg(1), 1, par.boxsize, par.ngrid, rb);
    st.compute_uncoupled_shotnoise_for_3pcf(a, b, ra, rb, amp, rbin);
    o.push_back({"zeta_n", dv(st.npairs)}); o.push_back({"zeta_r", st.r}); o.push_back({"zeta_sn", cv(st.xi)});
    for (int space = 0; space < 2; space++) {
      Binning bb(par); bb.space = space ? "config" : "fourier"; bb.set_bins(space ? re : edges);
      BinnedVectors v = st.record_binned_vectors(bb, "");
      std::vector<V> rows;
      for (int i = 0; i < v.count; i++) rows.push_back({double(v.indices.at(i)), v.lower_edges.at(i), v.upper_edges.at(i), v.vecx.at(i), v.vecy.at(i), v.vecz.at(i)});
      std::sort(rows.begin(), rows.end());
      V flat{double(v.count), double(v.num_bins)};
      for (auto& r : rows) flat.insert(flat.end(), r.begin(), r.end());
      o.push_back({space ? "vectors_r" : "vectors_k", flat});
    }
    a.apply_assignment_compensation(); o.push_back({"comp", mesh(a)});
    a.inv_fourier_transform(); o.push_back({"ifft", mesh(a)});
    a.apply_wide_angle_pow_law_kernel(); o.push_back({"wide", mesh(a)});
    a.reset_density_field(); o.push_back({"reset", mesh(a)});
    return o;
  }
  Binning bin(par); bin.set_bins(edges);
#define TWO(m, x, n, v) two(o, m, m.x##bin, m.x##eff, m.n); o.push_back({"value", cv(m.v)});
#define THREE(m, x, n, v) o.push_back({"centre", m.x##1_bin}); o.push_back({"centre2", m.x##2_bin}); o.push_back({"effective", m.x##1_eff}); \
  o.push_back({"effective2", m.x##2_eff}); o.push_back({"count", dv(m.n##_1)}); o.push_back({"count2", dv(m.n##_2)}); o.push_back({"value", cv(m.v##_raw)}); \
  o.push_back({"shot", cv(m.v##_shot)});
  double nf = 1e-3;
  if (k == "powspec") { auto m = compute_powspec(cat, ran, lc.data(), lr.data(), par, bin, nf); two(o, m, m.kbin, m.keff, m.nmodes); o.push_back({"value", cv(m.pk_raw)}); o.push_back({"shot", cv(m.pk_shot)}); }
  else if (k == "powspec_box") { auto m = compute_powspec_in_gpp_box(cat, par, bin, nf); two(o, m, m.kbin, m.keff, m.nmodes); o.push_back({"value", cv(m.pk_raw)}); o.push_back({"shot", cv(m.pk_shot)}); }
  else if (k == "2pcf") { auto m = compute_corrfunc(cat, ran, lc.data(), lr.data(), par, bin, nf); two(o, m, m.rbin, m.reff, m.npairs); o.push_back({"value", cv(m.xi)}); }
  else if (k == "2pcf_box") { auto m = compute_corrfunc_in_gpp_box(cat, par, bin, nf); two(o, m, m.rbin, m.reff, m.npairs); o.push_back({"value", cv(m.xi)}); }
  else if (k == "2pcf_win") { auto m = compute_corrfunc_window(ran, lr.data(), par, bin, alpha, nf); two(o, m, m.rbin, m.reff, m.npairs); o.push_back({"value", cv(m.xi)}); }
  else if (k == "bispec") { auto m = compute_bispec(cat, ran, lc.data(), lr.data(), par, bin, nf); THREE(m, k, nmodes, bk) }
  else if (k == "bispec_box") { auto m = compute_bispec_in_gpp_box(cat, par, bin, nf); THREE(m, k, nmodes, bk) }
  else if (k == "3pcf") { auto m = compute_3pcf(cat, ran, lc.data(), lr.data(), par, bin, nf); THREE(m, r, npairs, zeta) }
  else if (k == "3pcf_box") { auto m = compute_3pcf_in_gpp_box(cat, par, bin, nf); THREE(m, r, npairs, zeta) }
  else if (k == "3pcf_win") { auto m = compute_3pcf_window(ran, lr.data(), par, bin, alpha, nf, s["wa"].b); THREE(m, r, npairs, zeta) }
  else throw std::runtime_error("kernel? " + k);
  return o;
}
static std::string run(const J& s) {
  int nb = s["blocks"].i();
  std::string runs = "[";
  bool first = true;
  V scale;
  for (auto& t : s["threads"].a) {
    omp_set_num_threads(t.i());
    Out o = kernels(s);
    if (!first) runs += ",";
    W w; w.n("t", t.n);
    std::string vals = "{"; bool ff = true;
    for (auto& p : o) {
      if (!ff) vals += ",";
      ff = false;
      W q; q.n("len", p.second.size()).n("top", top(p.second)).v("d", digest(p.second, nb));
      vals += W::str(p.first) + ":" + q.done();
    }
    w.raw("v", vals + "}");
    runs += w.done(); first = false;
  }
  W r; r.raw("runs", runs + "]");
  return r.done();
}
int main(int argc, char** argv) {
  trv::sys::logger.reset_level(50);
  omp_set_dynamic(0);
  return serve(argc, argv, run);
}
