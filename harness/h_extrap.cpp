// One-dimensional extrapolation, array checks and sorted indices of the compiled library.
#include "mj.hpp"
#include "arrayops.hpp"
namespace A = trv::array;
static std::string run(const J& s) {
  W w;
  std::vector<double> a, e;
  if (s["kind"].s == "sort") {
    std::vector<int> v;
    for (auto& x : s["flat"].a) v.push_back(x.i());
    for (int x : A::get_sorted_indices(v)) e.push_back(x);
    return w.v("idx", e).done();
  }
  if (s["kind"].s == "check") {
    for (auto& x : s["a"][0].a) a.push_back(x.n);
    const std::vector<double> b = a;
    for (int f = 0; f < 8; f++) e.push_back(A::check_1d_array(a, f & 1, f & 2, f & 4));
    return w.v("codes", e).n("same", a == b).done();
  }
  for (auto& x : s["val"].a) a.push_back(x.n);
  const std::vector<double> a0 = a;
  std::string err;
  const int n = s["nc"].i();
  try {
    if (s["rule"].s == "lin") A::extrap_lin(a, n, e);
    else if (s["rule"].s == "loglin") A::extrap_loglin(a, n, e);
    else A::extrap_pad(a, n, s["left"][0].n, s["right"][0].n, e);
  } catch (const std::exception& x) { err = x.what(); }
  std::vector<double> ck = {double(A::check_1d_array(a, true, false, false)), double(A::check_1d_array(a, false, false, true)), double(A::check_1d_array(a, false, true, true))};
  return w.v("m", e).n("same", a == a0).v("ck", ck).t("err", err).done();
}
int main(int argc, char** argv) { return serve(argc, argv, run); }
