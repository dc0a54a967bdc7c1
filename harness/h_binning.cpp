#include "params.hpp"
#include "monitor.hpp"
#include "dataobjs.hpp"
static double fr(const J& x) { return x[0].n / x[1].n; }
static std::string run(const J& s) {
  const J& h = s["hist"];
  auto b = std::make_unique<trv::Binning>(h[0]["space"].s, h[0]["scheme"].s);
  std::string out = "[";
  for (std::size_t k = 1; k < h.size(); k++) {
    const J& ev = h[k]["ev"]; std::string op = ev["op"].s, err;
    try {
      if (op == "set") b->set_bins(fr(ev["lo"]), fr(ev["hi"]), ev["n"].i());
      else if (op == "grid") b->set_bins(ev["L"].n, ev["ng"].i());
      else if (op == "custom") { std::vector<double> e; for (auto& x : ev["e"].a) e.push_back(fr(x)); b->set_bins(e); }
      else if (op == "scheme") b->scheme = ev["v"].s;
      else if (op == "space") b->space = ev["v"].s;
      else if (op == "params") {
        J pj; pj.t = J::OBJ;
        trv::ParameterSet p = mkparams(pj, false);
        for (int a = 0; a < 3; a++) { p.boxsize[a] = ev["L"].n / (a == 1 ? 2 : 1); p.ngrid[a] = ev["ng"].i() + (a == 1 ? 2 : 0); }
        p.statistic_type = ev["space"].s == "fourier" ? "powspec" : "2pcf";
        p.binning = ev["scheme"].s; p.bin_min = fr(ev["lo"]); p.bin_max = fr(ev["hi"]); p.num_bins = ev["n"].i();
        p.validate();
        auto nb = std::make_unique<trv::Binning>(p); nb->set_bins(); b = std::move(nb);
      }
    } catch (const std::exception& e) { err = e.what(); if (err.empty()) err = "?"; }
    W w; w.n("lo", b->bin_min).n("hi", b->bin_max).n("n", b->num_bins).v("e", b->bin_edges).v("c", b->bin_centres).v("w", b->bin_widths);
    w.t("scheme", b->scheme).t("space", b->space);
    if (k > 1) out += ",";
    W o; if (err.empty()) o.raw("err", "null"); else o.t("err", err);
    o.raw("b", w.done()); out += o.done();
  }
  W r; r.raw("out", out + "]"); return r.done();
}
int main(int argc, char** argv) { trv::sys::logger.reset_level(50); return serve(argc, argv, run); }
