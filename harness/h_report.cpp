// Runs sequences of messages, progress bars and text operations, recording what they write.
#include <unistd.h>
#include <fcntl.h>
#include "mj.hpp"
#include "monitor.hpp"
namespace T = trv::sys;
static int keep = -1, tmp = -1;
static void listen() {
  std::fflush(stdout); std::cout.flush();
  if (tmp < 0) { char f[] = "outXXXXXX"; tmp = mkstemp(f); unlink(f); }
  if (ftruncate(tmp, 0)) std::abort();
  lseek(tmp, 0, SEEK_SET);
  keep = dup(1); dup2(tmp, 1);
}
static std::string heard() {
  std::fflush(stdout); std::cout.flush();
  dup2(keep, 1); close(keep);
  std::string s; char b[4096]; ssize_t n;
  lseek(tmp, 0, SEEK_SET);
  while ((n = read(tmp, b, sizeof b)) > 0) s.append(b, n);
  return s;
}
static std::string run(const J& sc) {
  T::Logger lg(0);
  unsetenv("TERM"); unsetenv("TRV_INTERACTIVE");
  std::unique_ptr<T::ProgressBar> bar;
  const float D = 6400.f;
  std::string all = "[";
  for (auto& op : sc["ops"].a) {
    const std::string& o = op["op"].s;
    W w; std::string err = "";
    listen();
    try {
      if (o == "level") { if (op["how"].s == "enum") lg.reset_level(static_cast<T::LogLevel>(op["at"].i())); else lg.reset_level(op["at"].i()); }
      else if (o == "env") {
        if (op["term"].s.empty()) unsetenv("TERM"); else setenv("TERM", op["term"].s.c_str(), 1);
        if (op["inter"].s.empty()) unsetenv("TRV_INTERACTIVE"); else setenv("TRV_INTERACTIVE", op["inter"].s.c_str(), 1);
      } else if (o == "say") {
        const std::string how = op["how"].s; const char* h = op["head"].s.c_str(); const int n = op["num"].i(), at = op["at"].i();
        const char* f = "%s%d";
        if (how == "name") { if (at == 10) lg.debug(f, h, n); else if (at == 20) lg.stat(f, h, n); else if (at == 30) lg.info(f, h, n); else if (at == 40) lg.warn(f, h, n); else lg.error(f, h, n); }
        else if (how == "enum") lg.log(static_cast<T::LogLevel>(at), f, h, n);
        else lg.log(at, f, h, n);
      } else if (o == "new") bar = std::make_unique<T::ProgressBar>(op["count"].i(), op["name"].s);
      else if (o == "width") bar->set_bar_width(op["w"].i());
      else if (o == "nodes") { std::vector<float> v; for (double x : op["nodes"].vec()) v.push_back(float(x/D)); bar->set_nodes(v); }
      else if (o == "every") bar->set_nodes(T::set_nodes_by_str(op["text"].s));
      else if (o == "task") bar->set_task_idx(op["t"].i());
      else if (o == "place") bar->set_progress(op["p"].n/D);
      else if (o == "update") bar->update(op["t"].i());
      else if (o == "reach") bar->update(float(op["p"].n/D));
      else if (o == "split") {
        std::vector<std::string> v = T::split_string(op["str"].s, op["del"].s);
        std::string r = "["; for (auto& x : v) r += (r.size() > 1 ? "," : "") + W::str(x);
        w.raw("pieces", r + "]"); w.t("joined", T::join_strings(v, op["del"].s));
      } else if (o == "join") { std::vector<std::string> v; for (auto& x : op["strs"].a) v.push_back(x.s); w.t("joined", T::join_strings(v, op["del"].s)); }
      else if (o == "ends") w.raw("ends", T::has_extension(op["str"].s, op["ext"].s) ? "true" : "false");
      else if (o == "clock") w.t("clock", T::show_elapsed_time(op["t"].n + op["frac"].n));
      else if (o == "path") {
        for (auto& p : op["parts"].a) if (!p["var"].s.empty()) { if (p["set"].b) setenv(p["var"].s.c_str(), p["val"].s.c_str(), 1); else unsetenv(p["var"].s.c_str()); }
        std::string s = op["text"].s; T::expand_envar_in_path(s); w.t("path", s);
      } else throw std::logic_error("op " + o);
    } catch (const T::InvalidParameterError& e) { err = e.what(); w.t("kind", "parameter"); }
    catch (const T::InvalidDataError& e) { err = e.what(); w.t("kind", "data"); }
    w.t("raw", heard());
    w.t("err", err);
    if (bar) { w.n("task", bar->task_idx); w.n("prog", bar->progress); }
    all += (all.size() > 1 ? "," : "") + w.done();
  }
  W w; w.raw("log", all + "]");
  return w.done();
}
int main(int c, char** v) { return serve(c, v, run); }
