// A monitored run: every objective call, every progress notification, cut into runs (restarts)
// and generations.
#pragma once
#include "common.hh"
namespace hv {
struct GenRec { long calls; Snap s; };               // one progress notification
struct Seg { long first_call = 0; std::vector<GenRec> g; long end_call = 0; }; // calls [first_call,end_call)
struct Mon {
  Cfg c; Rec rec; Hooks h; std::vector<Seg> segs; Result res; long progress_calls = 0;
  std::function<int(const Snap&)> user_progress;
  bool light = false; // keep only the last notifications
  Mon(const Cfg &cfg, std::function<double(const double*,int)> f) : c(cfg), rec(std::move(f)) {
    h.f = rec.fn();
    h.progress = [this](const Snap &s) {
      long n = rec.n; progress_calls++;
      if (s.niter == 0 || segs.empty()) {
        Seg sg; 
        if (!segs.empty()) { Seg &p = segs.back(); p.end_call = p.g.back().calls + tail(); sg.first_call = p.end_call; }
        segs.push_back(sg);
      }
      segs.back().g.push_back({n,s});
      return user_progress ? user_progress(s) : 0;
    };
  }
  // objective calls made after the last notification of a run (expected distance to minimum)
  long tail() const { return (c.edm && !h.grad) ? c.dim-(long)c.fixed.size()+1 : 0; }
  long probes() const { return numgrad() ? c.dim-(long)c.fixed.size()+1 : 0; }
  bool numgrad() const { return c.grad && !h.grad; }
  bool initial_eval() const { return c.mode != 2 ? (c.initfv || c.elitism == 1 || c.elitism == 2) : false; }
  void go() { res = run(c,h); if (!segs.empty()) segs.back().end_call = rec.n; }
};
inline void gen_features(Rng &r, Cfg &c, double q) {
  if (r.p(q)) { c.tpa = 2; if (c.lambda != -1 && c.lambda < 5) c.lambda = 5; }
  if (r.p(q)) c.grad = true;
  if (r.p(q)) c.elitism = r.i(1,3);
  if (r.p(q)) c.initfv = true;
  if (r.p(q)) c.lazy = true;
  if (r.p(q)) c.maximize = true;
  if (r.p(q)) c.edm = true;
}
}
