#include "mj.hpp"
#include "params.hpp"
#include "twopt.hpp"
#include "threept.hpp"
using trv::ParticleCatalogue;
static void load(ParticleCatalogue& c, const J& ps) {
  std::vector<double> x, y, z, nz, ws, wc;
  for (auto& p : ps.a) {
    x.push_back(p["x"][0].n); y.push_back(p["x"][1].n); z.push_back(p["x"][2].n);
    nz.push_back(p["nz"].n); ws.push_back(p["ws"]); wc.push_back(p["wc"]);
  }
  c.load_particle_data(x, y, z, nz, ws, wc);
}
static std::string pos(ParticleCatalogue& c) {
  std::vector<double> v;
  for (int i = 0; i < c.ntotal; i++) for (int a = 0; a < 3; a++) v.push_back(c[i].pos[a]);
  for (int a = 0; a < 3; a++) v.push_back(c.pos_min[a]);
  for (int a = 0; a < 3; a++) v.push_back(c.pos_max[a]);
  return W::arr(v);
}
template <class F> static void put(W& w, const char* k, F f) {
  try { w.n(k, f()); } catch (const trv::sys::InvalidDataError& e) { w.t(k, "rejected"); } catch (const std::exception& e) { w.t(k, e.what()); }
}
static std::string run(const J& s) {
  ParticleCatalogue cat, ran;
  bool has = s["ran"].a.size() > 0;
  W w;
  if (s.has("empty")) {
    put(w, "p2", [&] { return trv::calc_powspec_normalisation_from_particles(cat, 1.); });
    put(w, "p3", [&] { return trv::calc_bispec_normalisation_from_particles(cat, 1.); });
    put(w, "sn", [&] { return trv::calc_powspec_shotnoise_from_particles(cat, 1.); });
    return w.done();
  }
  if (s["cat"].a.size()) load(cat, s["cat"]);
  if (has) load(ran, s["ran"]);
  double alpha = s["alpha"];
  ParticleCatalogue& c = has ? ran : cat;
  put(w, "p2", [&] { return trv::calc_powspec_normalisation_from_particles(c, alpha); });
  put(w, "p3", [&] { return trv::calc_bispec_normalisation_from_particles(c, alpha); });
  put(w, "sn", [&] { return trv::calc_powspec_shotnoise_from_particles(c, 1.); });
  trv::ParameterSet p = mkparams(s["params"]);
  if (s["kind"].s == "mesh") {
    put(w, "m2", [&] { return trv::calc_powspec_normalisation_from_mesh(c, p, alpha); });
    put(w, "m3", [&] { return trv::calc_bispec_normalisation_from_mesh(c, p, alpha); });
  } else {
    std::string before = pos(cat) + pos(ran);
    w.raw("pre", "[" + pos(cat) + "," + pos(ran) + "]");
    put(w, "mm", [&] {
      return s["kind"].s == "mixed" ? trv::calc_powspec_normalisation_from_meshes(cat, ran, p, alpha)
        : trv::calc_powspec_normalisation_from_meshes(cat, ran, p, alpha, s["pad_"].n, s["cell"].n, s["scheme"].s);
    });
    w.raw("post", "[" + pos(cat) + "," + pos(ran) + "]");
    w.raw("after", dumpparams(p));
  }
  return w.done();
}
int main(int argc, char** argv) {
  trv::sys::logger.reset_level(50);
  return serve(argc, argv, run);
}
