// Coupling coefficients, reduced spherical harmonics and spherical Bessel functions.
#include <memory>
#include "mj.hpp"
#include "params.hpp"
#include "maths.hpp"
#include "twopt.hpp"
#include "threept.hpp"
namespace M = trv::maths;
static std::string run(const J& s) {
  W w;
  const std::string kind = s["kind"].s;
  const int l = kind == "couple" ? 0 : s["l"].i();
  std::vector<double> a, b, c;
  if (kind == "couple") {
    int l1 = s["l"][0].i(), l2 = s["l"][1].i(), l3 = s["l"][2].i();
    for (auto& m : s["m"].a) {
      a.push_back(M::wigner_3j(l1, l2, l3, m[0].i(), m[1].i(), m[2].i()));
      b.push_back(trv::calc_coupling_coeff_3pt(l1, l2, l3, m[0].i(), m[1].i(), m[2].i()));
      if (l2 == 0 && m[1].i() == 0) c.push_back(trv::calc_coupling_coeff_2pt(l1, l3, m[0].i(), m[2].i()));
    }
    trv::ParameterSet p;
    p.ell1 = l1; p.ell2 = l2; p.ELL = l3;
    int dead = 0;
    try { trv::validate_multipole_coupling(p); } catch (const trv::sys::InvalidParameterError&) { dead = 1; }
    return w.v("w", a).v("c3", b).v("c2", c).n("dead", dead).done();
  }
  if (kind == "ylm") {
    for (auto& v : s["pos"].a) {
      double x[3] = {v[0].n, v[1].n, v[2].n};
      std::complex<double> y = M::SphericalHarmonicCalculator::calc_reduced_spherical_harmonic(l, s["m"].i(), x);
      a.push_back(y.real()); b.push_back(y.imag());
    }
    return w.v("re", a).v("im", b).done();
  }
  if (kind == "mesh") {
    double box[3]; int n[3];
    for (int x = 0; x < 3; x++) { box[x] = s["box"][x].n; n[x] = s["n"][x].i(); }
    std::vector<std::complex<double>> y(n[0]*n[1]*n[2]);
    if (s["space"].s == "fourier") M::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_fourier_space(l, s["m"].i(), box, n, y);
    else M::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_config_space(l, s["m"].i(), box, n, y);
    for (auto& z : y) { a.push_back(z.real()); b.push_back(z.imag()); }
    return w.v("re", a).v("im", b).done();
  }
  if (kind == "gamma") {      // at z, z + l and the conjugate of z; from logarithms; the ratio of those at z + l and z
    std::complex<double> z(s["z"][0].n / 4, s["z"][1].n / 4), y = z + double(l);
    double r, t;
    M::get_lngamma_parts(y.real(), y.imag(), r, t);
    // (mu + 1 + nu)/2 = z + l, (mu + 1 - nu)/2 = z: a real mu leaves pairs of conjugate differences only
    double mu = 2*z.real() + l - 1;
    std::complex<double> nu(l, 2*z.imag());
    for (auto g : {M::eval_gamma_lanczos(z), M::eval_gamma_lanczos(y), M::eval_gamma_lanczos(std::conj(z)), std::polar(std::exp(r), t), std::exp(M::eval_gamma_lnratio(mu, nu))}) {
      a.push_back(g.real()); b.push_back(g.imag());
    }
    return w.v("re", a).v("im", b).done();
  }
  // bessel: values from the calculator and from a copy outliving it
  std::unique_ptr<M::SphericalBesselCalculator> f(new M::SphericalBesselCalculator(l));
  M::SphericalBesselCalculator g(*f);
  for (auto& x : s["x"].a) a.push_back(f->eval(x.n));
  f.reset();
  for (auto& x : s["x"].a) b.push_back(g.eval(x.n));
  return w.v("j", a).v("copy", b).done();
}
int main(int c, char** v) { return serve(c, v, run); }
