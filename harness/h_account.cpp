// Life cycles of catalogues, mesh fields and statistics with the counters of the monitor after every step.
#include <fstream>
#include <unistd.h>
#include "params.hpp"
#include "monitor.hpp"
#include "particles.hpp"
#include "dataobjs.hpp"
#include "field.hpp"
#include "twopt.hpp"
#include "threept.hpp"
using namespace trv;
struct Bug { std::string what; };
namespace T = trv::sys;
static std::vector<double> draw(int n, unsigned& z, double L) {
  std::vector<double> v(n);
  for (auto& x : v) { z = z*1103515245u + 12345u; x = L*((z >> 8) % 10007)/10007.; }
  return v;
}
static void load(ParticleCatalogue& c, int n, unsigned z, double nz) {
  c.load_particle_data(draw(n, z, 10.), draw(n, ++z, 10.), draw(n, ++z, 10.), std::vector<double>(n, nz), std::vector<double>(n, 1.), std::vector<double>(n, 1.));
}
static void badload(ParticleCatalogue& c, const std::string& how, int n) {
  if (how == "sizes") { std::vector<double> a(n, 1.), b(n + 1, 1.); c.load_particle_data(a, a, b, a, a, a); return; }
  if (how == "none") { std::vector<double> a; c.load_particle_data(a, a, a, a, a, a); return; }
  char f[] = "c.dat";
  std::ofstream o(f);
  for (int i = 0; i < n; i++) o << "1 2 " << (how == "short" && i == n - 1 ? "" : "3") << "\n";
  o.close();
  try { c.load_catalogue_file(how == "missing" ? "no.dat" : f, how == "column" ? "x,y,w" : "x,y,z", ""); } catch (...) { unlink(f); throw; }
  unlink(f);
}
static std::string run(const J& s) {
  std::map<std::string, std::unique_ptr<ParticleCatalogue>> cs;
  std::map<std::string, std::unique_ptr<MeshField>> fs;
  std::map<std::string, std::unique_ptr<FieldStats>> ss;
  std::vector<fftw_plan> plans; std::vector<fftw_complex*> bufs;
  const double GB = 1073741824.;
  const double m0 = T::gbytesMem; const int c0 = T::count_cgrid, r0 = T::count_rgrid; const float g0 = T::count_grid;
  const int f0 = T::count_fft, b0 = T::count_ifft;
  T::gbytesMaxMem = m0; T::max_count_cgrid = c0; T::max_count_rgrid = r0; T::max_count_grid = g0;
  std::string out = "["; bool first = true;
  auto par = [&](const J& o) { ParameterSet p = mkparams(o["par"]); return p; };
  for (auto& st : s["ops"].a) {
    const std::string op = st["op"].s, o = st.has("o") ? st["o"].s : "";
    W w;
    double count = 0; std::string err;
    auto Cc = [&]() -> ParticleCatalogue& { return *cs[st["c"].s]; };
    auto Cd = [&]() -> ParticleCatalogue& { return *cs[st["d"].s]; };
    auto los = [&](ParticleCatalogue& c) { std::vector<LineOfSight> l(c.ntotal + 1); for (auto& x : l) { x.pos[0] = .6; x.pos[1] = 0; x.pos[2] = .8; } return l; };
    try {
      if (op == "cat") cs[o] = std::make_unique<ParticleCatalogue>();
      else if (op == "load") load(*cs[o], st["n"].i(), 7*st["n"].i() + 1, st.has("nz") ? st["nz"].n : .5);
      else if (op == "badload") badload(*cs[o], st["how"].s, st["n"].i());
      else if (op == "final") { cs[o]->finalise_particles(); if (st.has("twice")) cs[o]->finalise_particles(); }
      else if (op == "field") {
        ParameterSet p = par(st);
        if (st["how"].s == "ext") {
          fftw_complex* b = fftw_alloc_complex(p.nmesh); bufs.push_back(b);
          fftw_plan f = fftw_plan_dft_3d(p.ngrid[0], p.ngrid[1], p.ngrid[2], b, b, FFTW_FORWARD, FFTW_ESTIMATE);
          fftw_plan g = fftw_plan_dft_3d(p.ngrid[0], p.ngrid[1], p.ngrid[2], b, b, FFTW_BACKWARD, FFTW_ESTIMATE);
          plans.push_back(f); plans.push_back(g);
          fs[o] = std::make_unique<MeshField>(p, f, g, o);
        } else fs[o] = std::make_unique<MeshField>(p, st["how"].s == "own", o);
      }
      else if (op == "stats") { ParameterSet p = par(st); ss[o] = std::make_unique<FieldStats>(p, bool(st["plan"].n)); }
      else if (op == "del") { cs.erase(o); fs.erase(o); ss.erase(o); }
      else if (op == "unweighted") fs[o]->compute_unweighted_field(Cc());
      else if (op == "fluct") fs[o]->compute_unweighted_field_fluctuations_insitu(Cc());
      else if (op == "ylm1") fs[o]->compute_ylm_wgtd_field(Cc(), los(Cc()).data(), .5, 1, 0);
      else if (op == "quad1") fs[o]->compute_ylm_wgtd_quad_field(Cc(), los(Cc()).data(), .5, 1, 0);
      else if (op == "ylm2") fs[o]->compute_ylm_wgtd_field(Cc(), Cd(), los(Cc()).data(), los(Cd()).data(), .5, 1, 0);
      else if (op == "quad2") fs[o]->compute_ylm_wgtd_quad_field(Cc(), Cd(), los(Cc()).data(), los(Cd()).data(), .5, 1, 0);
      else if (op == "pownorm") fs[o]->calc_grid_based_powlaw_norm(Cc(), 2);
      else if (op == "fft") fs[o]->fourier_transform();
      else if (op == "ifft") fs[o]->inv_fourier_transform();
      else if (op == "comp") fs[o]->apply_assignment_compensation();
      else if (op == "band" || op == "sjl") {
        MeshField& a = *fs[st["src"].s];
        std::vector<std::complex<double>> y(a.params.nmesh, 1.);
        double k; int n;
        if (op == "band") fs[o]->inv_fourier_transform_ylm_wgtd_field_band_limited(a, y, .1, 2., k, n);
        else { maths::SphericalBesselCalculator j(0); fs[o]->inv_fourier_transform_sjl_ylm_wgtd_field(a, y, j, 1.); }
      }
      else if (op == "p2k" || op == "badp2k" || op == "p2r") {
        Binning b(op == "p2r" ? "config" : "fourier", "lin"); b.set_bins(.1, 3., 3);
        std::complex<double> sn(1., 0.);
        MeshField &x = *fs[st["a"].s], &y = *fs[st["b"].s];
        if (op == "p2r") ss[o]->compute_ylm_wgtd_2pt_stats_in_config(x, y, sn, 0, 0, b);
        else ss[o]->compute_ylm_wgtd_2pt_stats_in_fourier(x, y, sn, 0, 0, b);
      }
      else if (op == "binvec") {
        Binning b(st["space"].s, "lin"); b.set_bins(.1, 3., 3);
        count = ss[o]->record_binned_vectors(b, "").count;
      }
      else if (op == "measure") {
        const std::string k = st["kind"].s;
        ParameterSet p = par(st);
        ParticleCatalogue &a = Cc(), &b = Cd();
        auto la = los(a), lb = los(b);
        Binning B(p); B.set_bins();
        if (k == "powspec") compute_powspec(a, b, la.data(), lb.data(), p, B, 1.);
        else if (k == "2pcf") compute_corrfunc(a, b, la.data(), lb.data(), p, B, 1.);
        else if (k == "powspec-box") compute_powspec_in_gpp_box(a, p, B, 1.);
        else if (k == "2pcf-box") compute_corrfunc_in_gpp_box(a, p, B, 1.);
        else if (k == "2pcf-win") compute_corrfunc_window(b, lb.data(), p, B, 1., 1.);
        else if (k == "bispec") compute_bispec(a, b, la.data(), lb.data(), p, B, 1.);
        else if (k == "3pcf") compute_3pcf(a, b, la.data(), lb.data(), p, B, 1.);
        else if (k == "bispec-box") compute_bispec_in_gpp_box(a, p, B, 1.);
        else if (k == "3pcf-box") compute_3pcf_in_gpp_box(a, p, B, 1.);
        else if (k == "3pcf-win") compute_3pcf_window(b, lb.data(), p, B, 1., 1., false);
        else if (k == "3pcf-win-wa") compute_3pcf_window(b, lb.data(), p, B, 1., 1., true);
        else if (k == "norm-p2") calc_powspec_normalisation_from_particles(a, 1.);
        else if (k == "norm-p3") calc_bispec_normalisation_from_particles(a, 1.);
        else if (k == "norm-m2") calc_powspec_normalisation_from_mesh(a, p, 1.);
        else if (k == "norm-m3") calc_bispec_normalisation_from_mesh(a, p, 1.);
        else if (k == "norm-mm") calc_powspec_normalisation_from_meshes(a, b, p, 1.);
        else throw Bug{"kind? " + k};
      }
      else throw Bug{"op? " + op};
    } catch (const std::exception& e) { err = e.what(); if (err.empty()) err = "?"; }
    W mx, ff, ca;
    mx.n("mem", (T::gbytesMaxMem - m0)*GB).n("c", T::max_count_cgrid - c0).n("r", T::max_count_rgrid - r0).n("g", 2*(T::max_count_grid - g0));
    ff.n("f", T::count_fft - f0).n("b", T::count_ifft - b0);
    for (auto& kv : cs) ca.n(kv.first, kv.second->pdata == nullptr ? 0 : kv.second->ntotal);
    w.n("mem", (T::gbytesMem - m0)*GB).n("c", T::count_cgrid - c0).n("r", T::count_rgrid - r0).n("g", 2*(T::count_grid - g0))
     .raw("max", mx.done()).raw("fft", ff.done()).raw("cats", ca.done()).n("count", count).t("err", err);
    if (!first) out += ",";
    first = false; out += w.done();
  }
  cs.clear(); fs.clear(); ss.clear();
  for (auto p : plans) fftw_destroy_plan(p);
  for (auto b : bufs) fftw_free(b);
  W r; r.raw("log", out + "]").n("mem", (T::gbytesMem - m0)*GB).n("c", T::count_cgrid - c0).n("r", T::count_rgrid - r0).n("g", 2*(T::count_grid - g0)).n("pbytes", sizeof(ParticleData));
  return r.done();
}
int main(int argc, char** argv) { T::logger.reset_level(60); return serve(argc, argv, run); }
