// Hankel-type transforms of the compiled library.
#include "mj.hpp"
#include <complex>
#include "fftlog.hpp"
using C = std::complex<double>;
using V = std::vector<C>;
static double rat(const J& j) { return j[0].n / j[1].n; }
static V family(const J& s, const J& st, const J& co, const std::vector<double>& p) {
  const double w = rat(st["w"]), o = st["o"][0].n; const int l = s["ell"][0].i();
  V y;
  for (double x : p) {
    double u = w * x, t = 0;
    for (std::size_t j = 0; j < co[0].size(); j++) t += rat(co[0][j]) * std::pow(u, 2 * double(j));
    y.push_back(std::pow(2 * M_PI, st["p"].n / 2) * std::pow(C(0, 1), st["s"].i()) * t * std::pow(u, l) * std::exp(-u * u / 2) * std::pow(x, o));
  }
  return y;
}
static std::vector<double> geom(double lo, double dl, int n) { std::vector<double> p; for (int j = 0; j < n; j++) p.push_back(lo * std::exp(dl * j)); return p; }
static std::string obj(double err, double same, double again, double rec, double near, double n, bool t) {
  std::string e = std::isfinite(err) ? std::to_string(0) : "9";
  char b[400];
  std::snprintf(b, 400, "{\"err\": %.6g, \"same\": %s, \"again\": %s, \"grid\": true, \"rec\": %.6g, \"near\": %.6g, \"n\": [%d]}", std::isfinite(err) ? err : 9., same ? "true" : "false", again ? "true" : "false", rec, near, int(n));
  return b;
}
static std::string gauss(const J& s) {
  const int n = s["grid"][2].i(), l = s["ell"][0].i();
  const double dl = std::log(s["grid"][1].n / s["grid"][0].n) / (n - 1);
  std::vector<double> p = geom(s["grid"][0].n, dl, n);
  J st; st.t = J::OBJ; st.o = {{"w", s["w"]}, {"o", s["o"]}};
  J z; z.t = J::NUM; st.o.push_back({"p", z}); st.o.push_back({"s", z});
  V x = family(s, st, s["c"], p);
  std::string out = "[";
  for (std::size_t k = 0; k < s["ops"].size(); k++) {
    const J& op = s["ops"][k]; const J& e = s["exp"][k];
    double same = 1, again = 1, rec = 0, near = 0, m = n;
    if (op["op"].s == "scale") for (auto& v : x) v *= op["by"].n;
    else if (op["op"].s == "add") { V y = family(s, e, op["c"], p); for (int j = 0; j < n; j++) x[j] += y[j]; }
    else {
      const J& kw = op["kw"];
      trv::maths::SphericalBesselTransform T(l, op["q"][0].i(), kw.has("threaded"));
      const double piv = kw["pivot"].n;
      if (op["again"].b) T.initialise(geom(.5, .2, 12), 1., true, trv::array::ExtrapOption::NONE);
      T.initialise(p, piv, kw["lowring"].b, kw.has("extrap") ? kw["extrap"].i() : 0, kw.has("extrap_exp") ? kw["extrap_exp"].n : 2.);
      V y, y2(3), x0 = x; int d = op["dir"].i();
      auto f = [&](V& a, V& b) { if (d) T.transform_cosmological_multipole(d, a, b); else T.biased_transform(a, b); };
      f(x, y);
      same = x == x0;
      if (op["again"].b) { V r(x.rbegin(), x.rend()), t; f(r, t); }
      f(x, y2); again = y == y2;
      m = y.size();
      for (int j = 0; j < n; j++) rec = std::max(rec, std::abs(T.post_sampts[j] * p[n - 1 - j] / (T.pivot * std::exp(-dl)) - 1));
      near = std::abs(std::log(T.pivot / piv)) / dl;
      if (T.post_sampts.size() != std::size_t(n) || m != n) { rec = 9; x.resize(n); } else x = y;
      p = T.post_sampts;
    }
    V r = family(s, e, e["c"], p);
    double top = 0, err = 0;
    for (int j = 0; j < n; j++) top = std::max(top, std::abs(r[j]) * std::pow(p[j], 1.5));
    for (int j = n / 8; j < n - n / 8; j++) { double t = top > 0 ? std::abs(x[j] - r[j]) * std::pow(p[j], 1.5) / top : 0.; if (!(t <= err)) err = t; }
    out += (k ? ", " : "") + obj(err, same, again, rec, near, m, true);
  }
  return "{\"steps\": " + out + "]}";
}
static std::string disc(const J& s) {
  const int n = s["a"].size();
  const double dl = s["dl"].n; const bool h = s["hankel"].b;
  std::vector<double> r = geom(std::exp(s["x0"].n), dl, n);
  using H = trv::maths::HankelTransform; using S = trv::maths::SphericalBesselTransform;
  std::unique_ptr<H> A(h ? new H(s["mu"].n, s["q"].n, s["threaded"].b) : new S(s["ell"][0].i(), s["q"].i(), s["threaded"].b));
  std::unique_ptr<H> B(h ? new H(s["mu"].n, -s["q"].n, false) : new S(s["ell"][0].i(), -s["q"].i(), false));
  A->initialise(r, s["pivot"].n, s["lowring"].b, trv::array::ExtrapOption::NONE);
  std::vector<double> ra = A->post_sampts;
  B->initialise(ra, A->pivot, s["lowring"].b, trv::array::ExtrapOption::NONE);
  const int d = s["dir"].i();
  auto go = [&](H& t, const V& a, int dir) { V x = a, y(n); if (h) t.biased_transform(x.data(), y.data()); else static_cast<S&>(t).transform_cosmological_multipole(dir, x, y); return y; };
  std::vector<V> D;
  for (int m = 0; m < n; m++) { V e(n); e[m] = 1; D.push_back(go(*A, e, d)); }
  V x; for (auto& v : s["a"].a) x.push_back(v.n);
  std::string out = "[";
  for (std::size_t k = 0; k < s["ops"].size(); k++) {
    const J& op = s["ops"][k]; const J& e = s["exp"][k]; const std::string o = op["op"].s;
    const bool up = e["side"].i();
    V y = x;
    if (o == "t") y = go(*A, x, d);
    else if (o == "inv") y = go(*B, x, -d);
    else if (o == "scale") for (auto& v : y) v *= op["by"].n;
    else if (o == "shift") { int b = op["by"].i(); for (int j = 0; j < n; j++) y[((j + b) % n + n) % n] = x[j]; }
    else for (int m = 0; m < n; m++) { if (!up) y[m] += op["v"][m].n; else for (int j = 0; j < n; j++) y[j] += op["v"][m].n * D[m][j]; }
    V ref(n);
    for (int j = 0; j < n; j++) {
      if (!up) ref[j] = e["a"][j].n;
      else if (h) for (int q = 0; q < n; q++) ref[j] += e["co"][j][q].n * D[0][q];
      else for (int m = 0; m < n; m++) ref[j] += e["a"][m].n * D[m][j];
    }
    double top = 1e-300, err = 0;
    for (int j = 0; j < n; j++) { double w = h ? 1 : std::pow(up ? ra[j] : r[j], 1.5); top = std::max(top, std::abs(ref[j]) * w); }
    for (int j = 0; j < n; j++) { double w = h ? 1 : std::pow(up ? ra[j] : r[j], 1.5), t = std::abs(y[j] - ref[j]) * w / (top > 1e-299 ? top : 1.); if (!(t <= err)) err = t; }
    out += (k ? ", " : "") + obj(err, 1, 1, 0, 0, n, false);
    x = (o == "t" || o == "inv") && !s["chain"].b ? ref : y;
  }
  double rec = 0, back = 0;
  for (int j = 0; j < n; j++) { rec = std::max(rec, std::abs(ra[j] * r[n - 1 - j] / (A->pivot * std::exp(-dl)) - 1)); back = std::max(back, std::abs(B->post_sampts[j] / r[j] - 1)); }
  char b[200];
  std::snprintf(b, 200, "], \"rec\": %.6g, \"back\": %.6g, \"piv\": [%.17g, %.17g]}", rec, back, A->pivot, B->pivot);
  return "{\"steps\": " + out + b;
}
static std::string run(const J& s) { return s["kind"].s == "gauss" ? gauss(s) : disc(s); }
int main(int argc, char** argv) { return serve(argc, argv, run); }
