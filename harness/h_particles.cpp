#include "mj.hpp"
#include "monitor.hpp"
#include "particles.hpp"
using trv::ParticleCatalogue;

static void load(ParticleCatalogue& c, const J& ps, double u) {
  std::vector<double> x, y, z, nz, ws, wc;
  for (auto& p : ps.a) {
    x.push_back(p["pos"][0].n / u); y.push_back(p["pos"][1].n / u); z.push_back(p["pos"][2].n / u);
    nz.push_back(p["nz"][0].n / p["nz"][1].n); ws.push_back(p["ws"]); wc.push_back(p["wc"]);
  }
  c.load_particle_data(x, y, z, nz, ws, wc);
}
static std::string dump(ParticleCatalogue& c) {
  std::string ps = "[";
  for (int i = 0; i < c.ntotal; i++) {
    auto& p = c[i];
    if (i) ps += ",";
    ps += W::arr(std::vector<double>{p.pos[0], p.pos[1], p.pos[2], p.nz, p.ws, p.wc, p.w});
  }
  ps += "]";
  W w; w.raw("p", ps).n("ntotal", c.ntotal).n("wtotal", c.wtotal).n("wstotal", c.wstotal);
  w.v("lo", std::vector<double>(c.pos_min, c.pos_min + 3)).v("hi", std::vector<double>(c.pos_max, c.pos_max + 3));
  w.v("span", std::vector<double>(c.pos_span, c.pos_span + 3));
  return w.done();
}
static void vec(const J& j, double* v, double u) { for (int a = 0; a < 3; a++) v[a] = j[a].n / u; }

static std::string hist(const J& s) {
  double u = s["u"];
  const J& h = s["hist"];
  ParticleCatalogue cat, ref;
  load(cat, h[0]["cat"], u); load(ref, h[0]["ref"], u);
  std::string out = "[";
  for (std::size_t k = 0; k < h.size(); k++) {
    const J& ev = h[k]["ev"]; std::string op = ev["op"].s;
    double L[3], o[3], f[3]; int n[3];
    if (ev.has("L")) vec(ev["L"], L, u);
    if (ev.has("o")) vec(ev["o"], o, u);
    if (ev.has("f3")) for (int a = 0; a < 3; a++) f[a] = ev["f3"][a][0].n / ev["f3"][a][1].n;
    if (ev.has("n3")) for (int a = 0; a < 3; a++) n[a] = ev["n3"][a].i();
    std::string err;
    try {
      if (op == "offset") cat.offset_coords(o);
      else if (op == "offset_ref") ref.offset_coords(o);
      else if (op == "centre") ParticleCatalogue::centre_in_box(cat, L);
      else if (op == "centre_ref") ParticleCatalogue::centre_in_box(cat, ref, L);
      else if (op == "pad_box") ParticleCatalogue::pad_in_box(cat, L, f);
      else if (op == "pad_box_ref") ParticleCatalogue::pad_in_box(cat, ref, L, f);
      else if (op == "pad_grid") ParticleCatalogue::pad_grids(cat, L, n, f);
      else if (op == "pad_grid_ref") ParticleCatalogue::pad_grids(cat, ref, L, n, f);
      else if (op == "wrap") cat.offset_coords_for_periodicity(L);
      else if (op == "wrap_ref") ref.offset_coords_for_periodicity(L);
      else if (op == "reload") load(cat, ev["ps"], u);
      else if (op == "reweight") {
        for (int i = 0; i < cat.ntotal; i++) { cat[i].ws = ev["val"][i].n; cat[i].w = cat[i].ws * cat[i].wc; }
        cat.calc_total_weights();
      }
      else if (op == "load_bad") {
        std::vector<double> a(3, 1.), b(2, 1.);
        ParticleCatalogue c3;
        switch (ev["which"].i()) {
          case 0: c3.load_particle_data(b, a, a, a, a, a); break;
          case 1: c3.load_particle_data(a, b, a, a, a, a); break;
          case 2: c3.load_particle_data(a, a, b, a, a, a); break;
          case 3: c3.load_particle_data(a, a, a, b, a, a); break;
          case 4: c3.load_particle_data(a, a, a, a, b, a); break;
          case 5: c3.load_particle_data(a, a, a, a, a, b); break;
          default: { std::vector<double> e; c3.load_particle_data(e, e, e, e, e, e); }
        }
      }
      else if (op != "init" && op != "read") throw std::logic_error("unknown op " + op);
    } catch (const std::exception& e) { err = e.what(); }
    if (k) out += ",";
    W w; w.raw("cat", dump(cat)).raw("ref", dump(ref)).t("err", err);
    out += w.done();
  }
  W w; w.raw("steps", out + "]");
  return w.done();
}

static std::string file(const J& s) {
  ParticleCatalogue c;
  W w;
  try {
    int rc = c.load_catalogue_file(s["path"].s, s["columns"].s, "", s["volume"].n);
    w.n("rc", rc).raw("cat", dump(c));
  } catch (const std::exception& e) { w.t("err", e.what()); }
  if (s.has("again")) {
    try { c.load_catalogue_file(s["path"].s, s["columns"].s, "", s["volume"].n); w.n("again", 0); }
    catch (const std::exception& e) { w.n("again", 1); }
  }
  return w.done();
}

int main(int argc, char** argv) {
  trv::sys::logger.reset_level(50);
  return serve(argc, argv, [](const J& s) { return s.has("hist") ? hist(s) : file(s); });
}
