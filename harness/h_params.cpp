// Parameter files: reading, copying, overriding, writing and reading back.
#include <cstdlib>
#include <fstream>
#include <memory>
#include <unistd.h>
#include "mj.hpp"
#include "params.hpp"
static std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream b; b << f.rdbuf(); return b.str(); }
static void spit(const std::string& p, const std::string& t) { std::ofstream f(p); f << t; }
static std::string read(std::unique_ptr<trv::ParameterSet>& p, const std::string& file) {
  W w;
  auto q = std::make_unique<trv::ParameterSet>();
  try {
    q->read_from_file(const_cast<char*>(file.c_str()));
    p = std::move(q);
    return w.n("ok", 1).raw("p", dumpparams(*p)).done();
  } catch (const std::exception& e) {
    return w.n("ok", 0).t("err", e.what()).done();
  }
}
static std::string step(std::unique_ptr<trv::ParameterSet>& p, const J& o) {
  const std::string op = o["op"].s;
  W w;
  if (op == "copy") {      // go on with a copy; the original is changed and destroyed
    auto c = std::make_unique<trv::ParameterSet>(*p);
    p->ell1 = 17; p->boxsize[0] = -1; p->form = "none"; p->output_tag += "x";
    p = std::move(c);
  } else if (op == "again") {
    p->validate();
  } else if (op == "write") {
    char out[] = "w.ini";
    p->print_to_file(out);
    w.t("text", slurp(out)); unlink(out);
  } else if (op == "back") {
    char out[] = "b.ini";
    p->print_to_file(out);
    std::string text = slurp(out), was = dumpparams(*p);
    std::string r = read(p, out); unlink(out);
    return r.substr(0, r.size() - 1) + "," + w.t("text", text).raw("was", was).done().substr(1);
  } else if (op == "over") {
    for (auto& kv : o["env"].o) setenv(kv.first.c_str(), kv.second.s.c_str(), 1);
    std::string err;
    try { trv::override_paramset_by_envvars(*p); } catch (const std::exception& e) { err = e.what(); if (err.empty()) err = "?"; }
    for (auto& kv : o["env"].o) unsetenv(kv.first.c_str());
    if (!err.empty()) return w.n("ok", 0).t("err", err).done();
  }
  return w.n("ok", 1).raw("p", dumpparams(*p)).done();
}
static std::string run(const J& s) {
  std::unique_ptr<trv::ParameterSet> p;
  char in[] = "p.ini";
  spit(in, s["text"].s);
  std::string first = read(p, in);
  unlink(in);
  if (s["op"].s == "read") return first;
  std::string log = "[" + first;
  if (p) for (auto& o : s["ops"].a) {
    std::string r;
    try { r = step(p, o); } catch (const std::exception& e) { r = W().n("ok", 0).t("err", std::string("unexpected: ") + e.what()).done(); }
    log += "," + r;
    if (r.find("\"ok\":0") != std::string::npos) break;
  }
  W w;
  return w.raw("log", log + "]").done();
}
int main(int c, char** v) { return serve(c, v, run); }
