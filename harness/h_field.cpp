// Executes a program of mesh-field operations given by the scenario.
#include "params.hpp"
#include "monitor.hpp"
#include "particles.hpp"
#include "dataobjs.hpp"
#include "field.hpp"
using namespace trv;

static void load(ParticleCatalogue& c, const J& ps) {
  std::vector<double> x, y, z, nz, ws, wc;
  for (auto& p : ps.a) {
    x.push_back(p["x"][0]); y.push_back(p["x"][1]); z.push_back(p["x"][2]);
    nz.push_back(p.has("nz") ? p["nz"].n : 0.);
    ws.push_back(p.has("ws") ? p["ws"].n : 1.); wc.push_back(p.has("wc") ? p["wc"].n : 1.);
  }
  c.load_particle_data(x, y, z, nz, ws, wc);
}
static std::string dump(MeshField& f) {
  std::vector<double> v;
  for (long long g = 0; g < f.params.nmesh; g++) { v.push_back(f[g][0]); v.push_back(f[g][1]); }
  return W::arr(v);
}
static std::string run(const J& s) {
  ParameterSet par = mkparams(s["par"]);
  std::map<std::string, std::unique_ptr<ParticleCatalogue>> cats;
  std::map<std::string, std::unique_ptr<MeshField>> fs;
  std::map<std::string, std::vector<LineOfSight>> los;
  if (s.has("cats")) for (auto& kv : s["cats"].o) {
    cats[kv.first] = std::make_unique<ParticleCatalogue>(); load(*cats[kv.first], kv.second);
    std::vector<LineOfSight> l(kv.second.size());
    for (std::size_t i = 0; i < l.size(); i++) for (int a = 0; a < 3; a++)
      l[i].pos[a] = kv.second[i].has("los") ? kv.second[i]["los"][a].n : (a == 2);
    los[kv.first] = l;
  }
  std::unique_ptr<FieldStats> shared;
  auto stats = [&](std::unique_ptr<FieldStats>& own) -> FieldStats& {
    auto& h = s.has("shared") ? shared : own;
    if (!h) h = std::make_unique<FieldStats>(par, !s.has("noplan"));
    return *h;
  };
  std::string out = "[";
  bool first = true;
  for (auto& st : s["prog"].a) {
    std::string op = st[0].s;
    W w;
    auto F = [&](int k) -> MeshField& {
      std::string n = st[k].s;
      if (!fs.count(n)) fs[n] = std::make_unique<MeshField>(par, true, n);
      return *fs[n];
    };
    if (op == "assign") {
      ParticleCatalogue& c = *cats[st[2].s];
      std::vector<double> wt = st[3].vec();
      fftw_complex* a = fftw_alloc_complex(c.ntotal + 1);
      for (int i = 0; i < c.ntotal; i++) { a[i][0] = wt[2*i]; a[i][1] = wt[2*i + 1]; }
      F(1).assign_weighted_field_to_mesh(c, a);
      fftw_free(a);
    }
    else if (op == "unweighted") F(1).compute_unweighted_field(*cats[st[2].s]);
    else if (op == "fluct") F(1).compute_unweighted_field_fluctuations_insitu(*cats[st[2].s]);
    else if (op == "ylm2") F(1).compute_ylm_wgtd_field(*cats[st[2].s], *cats[st[3].s], los[st[2].s].data(), los[st[3].s].data(), st[4].n, st[5].i(), st[6].i());
    else if (op == "ylm1") F(1).compute_ylm_wgtd_field(*cats[st[2].s], los[st[2].s].data(), st[3].n, st[4].i(), st[5].i());
    else if (op == "quad2") F(1).compute_ylm_wgtd_quad_field(*cats[st[2].s], *cats[st[3].s], los[st[2].s].data(), los[st[3].s].data(), st[4].n, st[5].i(), st[6].i());
    else if (op == "quad1") F(1).compute_ylm_wgtd_quad_field(*cats[st[2].s], los[st[2].s].data(), st[3].n, st[4].i(), st[5].i());
    else if (op == "fft") F(1).fourier_transform();
    else if (op == "ifft") F(1).inv_fourier_transform();
    else if (op == "comp") F(1).apply_assignment_compensation();
    else if (op == "wide") F(1).apply_wide_angle_pow_law_kernel();
    else if (op == "reset") F(1).reset_density_field();
    else if (op == "band") {   // dst, src, lower, upper; unit harmonics or y_lm of wavevectors
      std::vector<std::complex<double>> y(par.nmesh, 1.);
      if (st.size() > 5) maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_fourier_space(st[5].i(), st[6].i(), par.boxsize, par.ngrid, y);
      double k; int n;
      MeshField& d = F(1);
      d.inv_fourier_transform_ylm_wgtd_field_band_limited(F(2), y, st[3].n, st[4].n, k, n);
      w.n("keff", k).n("n", n);
    }
    else if (op == "sjl") {    // dst, src, ell, r, (l, m)
      std::vector<std::complex<double>> y(par.nmesh, 1.);
      if (st.size() > 5) maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_fourier_space(st[5].i(), st[6].i(), par.boxsize, par.ngrid, y);
      maths::SphericalBesselCalculator j(st[3].i());
      MeshField& d = F(1);
      d.inv_fourier_transform_sjl_ylm_wgtd_field(F(2), y, j, st[4].n);
    }
    else if (op == "pownorm") w.n("norm", F(1).calc_grid_based_powlaw_norm(*cats[st[2].s], st[3].i()));
    else if (op == "dump") w.raw("f", dump(F(1)));
    else if (op == "p2k" || op == "p2r") {
      Binning b(par); b.set_bins(st[6].vec());
      std::unique_ptr<FieldStats> own; FieldStats& fst = stats(own);
      std::complex<double> sn(st[5][0].n, st[5][1].n);
      int n = 1;
      if (op == "p2k") {
        fst.compute_ylm_wgtd_2pt_stats_in_fourier(F(1), F(2), sn, st[3].i(), st[4].i(), b);
        std::vector<double> v, q; for (auto& z : fst.pk) { v.push_back(z.real()); v.push_back(z.imag()); }
        for (auto& z : fst.sn) { q.push_back(z.real()); q.push_back(z.imag()); }
        w.v("n", fst.nmodes).v("x", fst.k).v("v", v).v("sn", q);
      } else {
        // statistics with a transform of their own, or with that of the field
        double apart = 0;
        if (s.has("noplan")) {
          for (int k = 1; k < 3; k++) for (long long g = 0; g < par.nmesh; g++) { auto& z = const_cast<fftw_complex&>(F(k)[g]); z[0] = std::cos(3. * g + k); z[1] = std::sin(7. * g * k); }
          FieldStats twin(par);
          for (int l = 0; l < 2; l++) {
            twin.compute_ylm_wgtd_2pt_stats_in_config(F(1), F(2), sn, l, l, b);
            fst.compute_ylm_wgtd_2pt_stats_in_config(F(1), F(2), sn, l, l, b);
            double top = 1e-300;
            for (auto& z : twin.xi) top = std::max(top, std::abs(z));
            for (std::size_t k = 0; k < twin.xi.size(); k++) apart = std::max(apart, std::abs(twin.xi[k] - fst.xi[k]) / top);
          }
        }
        fst.compute_ylm_wgtd_2pt_stats_in_config(F(1), F(2), sn, st[3].i(), st[4].i(), b);
        w.n("apart", apart);
        std::vector<double> v; for (auto& z : fst.xi) { v.push_back(z.real()); v.push_back(z.imag()); }
        w.v("n", fst.npairs).v("x", fst.r).v("v", v);
      }
    }
    else if (op == "binvec") {
      Binning b(par); b.set_bins(st[2].vec());
      std::unique_ptr<FieldStats> own; FieldStats& fst = stats(own);
      b.space = st[1].s;
      std::string file = st.size() > 3 ? st[3].s : "";
      BinnedVectors v = fst.record_binned_vectors(b, file);
      if (!file.empty()) {
        std::string text; std::FILE* fp = std::fopen(file.c_str(), "r"); int ch;
        if (fp) { while ((ch = std::fgetc(fp)) != EOF) text += char(ch); std::fclose(fp); }
        std::remove(file.c_str());
        w.t("file", text);
      }
      w.n("count", v.count).n("nbins", v.num_bins).v("idx", v.indices).v("lo", v.lower_edges).v("hi", v.upper_edges)
       .v("vx", v.vecx).v("vy", v.vecy).v("vz", v.vecz);
    }
    else throw std::runtime_error("op? " + op);
    if (!first) out += ",";
    first = false; out += w.done();
  }
  W r; r.raw("out", out + "]");
  return r.done();
}
int main(int argc, char** argv) {
  trv::sys::logger.reset_level(50);
  return serve(argc, argv, run);
}
