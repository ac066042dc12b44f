// C05: evaluation and iteration counts are exact.
#include "mon.hh"
using namespace hv;
static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.dmax = 8;
  Cfg c = gen_cfg(r,g);
  c.mode = r.pick(std::vector<int>{0,1,1,2});
  if (c.mode == 2) c.algo -= restart_kind(c.algo);
  gen_features(r,c,0.15);
  if (c.mode == 2) c.edm = false;
  if (r.p(0.15)) { c.uh = true; if (c.lambda != -1 && c.lambda < 5) c.lambda = 5; }
  if (is_vd_algo(c.algo)) c.grad = false;
  if (r.p(0.2)) c.mt = true;
  c.max_iter = iters(r,c,1,25);
  if (r.p(0.3)) c.max_fevals = r.i(1,1500);
  c.restarts = nruns(r,c,1,3);
  if (r.p(0.1)) for (int i=0;i<c.dim;i++) if (r.p(0.3) && (int)c.fixed.size() < c.dim-1) c.fixed.push_back({i,c.x0[i]});
  c.snap = S_BASIC|S_CAND;
  t.cfg(c);
  const Obj &o = objs()[r.i(0,OBJ_ALL-1)];
  Mon m(c,o.f); m.rec.keep = true;
  long gcalls = 0;
  if ((c.grad || c.edm) && o.g && r.p(0.5)) m.h.grad = [&](const double *x, int n) { gcalls++; return o.g(x,n); };
  M asked; long at_ask = 0; int told = 0;
  m.h.asked = [&](const M &cand, const M &ph) { asked = ph; at_ask = m.rec.n; (void)cand; };
  m.h.told = [&](const Snap &s) {
    told++;
    long k = m.rec.n - at_ask; 
    long extra = (c.elitism == 2 && told == 1) ? 1 : 0;
    t.ok("asktell_generation_calls");
    if (!c.uh) { if (k != asked.cols()+extra) t.viol("generation-calls",fmt("%ld objective calls for %ld candidates",k,(long)asked.cols())); }
    else if (k < asked.cols()+extra || k > 2*asked.cols()+extra) t.viol("generation-calls",fmt("%ld objective calls for %ld candidates",k,(long)asked.cols()));
    if (asked.cols() != s.lambda) t.viol("population-size",fmt("%ld candidates asked, lambda=%d",(long)asked.cols(),s.lambda));
    // exactly once each (order is free)
    std::multiset<std::vector<double>> want, got;
    for (int j=0;j<asked.cols();j++) want.insert(std::vector<double>(asked.col(j).data(),asked.col(j).data()+asked.rows()));
    { std::lock_guard<std::mutex> l(m.rec.m); for (long j=0;j<asked.cols() && at_ask+j<(long)m.rec.calls.size();j++) got.insert(m.rec.calls[at_ask+j].x); }
    t.ok("asked_evaluated_exactly_once",asked.cols()); if (want != got) t.viol("not-exactly-once","the evaluated points are not the asked candidates, each once");
    t.ok("reported_fevals"); if (s.fevals != m.rec.n) t.viol("fevals",fmt("%d reported, %ld objective calls made",s.fevals,m.rec.n.load()));
  };
  m.go();
  long prev_end = 0; bool match_final = false;
  for (size_t si=0; si<m.segs.size(); si++) {
    Seg &sg = m.segs[si];
    long base = m.segs[si].first_call; 
    for (size_t k=0;k<sg.g.size();k++) {
      const Snap &s = sg.g[k].s; long calls = sg.g[k].calls;
      if (k == 0) { 
        long b = calls - s.fevals;
        t.ok("run_start_count");
        if (b == sg.first_call && (si == 0 || restart_kind(c.algo) != 0)) base = b;
        else if (b == 0 && c.elitism == 3) { base = 0; t.note("elitist_restarts"); } // an elitist restart goes on counting
        else { t.viol("fevals-start",fmt("run %zu starts with %d evaluations reported after %ld calls (%ld before the run)",si,s.fevals,calls,sg.first_call)); base = b; }
      } else {
        long d = calls - sg.g[k-1].calls; int lam = s.lambda;
        long extra = m.probes();
        if (c.mode == 2 && c.elitism == 2 && k == 1) extra++;
        t.ok("calls_per_generation");
        if (!c.uh ? d != lam+extra : (d < lam+extra || d > 2*lam+extra)) t.viol("generation-calls",fmt("%ld calls in generation %d of run %zu, lambda %d, extra %ld",d,s.niter,si,lam,extra));
        t.ok("iteration_step"); if (s.niter != sg.g[k-1].s.niter+1) t.viol("niter",fmt("iteration went from %d to %d",sg.g[k-1].s.niter,s.niter));
        t.ok("population_reported"); if (s.ncand != lam) t.viol("population-size",fmt("%d candidates kept, lambda=%d",s.ncand,lam));
      }
      t.ok("reported_fevals"); if (s.fevals != calls-base || s.nevals != s.fevals) t.viol("fevals",fmt("run %zu iteration %d: %d evaluations reported, %ld made",si,s.niter,s.fevals,calls-base));
      t.distinct(mix(calls*31+s.niter)^mix(s.lambda+1000*c.algo+100000*c.dim));
    }
    long cnt = sg.end_call - base;
    if (m.res.s.fevals == cnt && m.res.s.niter == sg.g.back().s.niter) match_final = true;
    prev_end = sg.end_call;
  }
  t.ok("all_calls_attributed"); if (prev_end != m.rec.n) t.viol("calls-unattributed",fmt("%ld vs %ld",prev_end,m.rec.n.load()));
  t.ok("final_count"); if (!match_final) t.viol("fevals-final",fmt("the result reports %d evaluations in %d iterations, which is no run's count",m.res.s.fevals,m.res.s.niter));
  if (m.segs.size() == 1 || restart_kind(c.algo) == 0) { t.ok("final_total"); if (m.res.s.fevals != m.rec.n) t.viol("fevals-final",fmt("the result reports %d evaluations, %ld were made",m.res.s.fevals,m.rec.n.load())); }
  // gradient calls: exactly one per generation (plus one for the expected distance to the minimum)
  if (m.h.grad && m.segs.size() == 1) {
    long gens = (long)m.segs[0].g.size()-1, want = (c.grad?gens:0) + (c.edm?1:0);
    t.ok("gradient_calls"); if (gcalls != want) t.viol("gradient-calls",fmt("%ld gradient calls in %ld generations",gcalls,gens));
  }
  t.note("runs",m.segs.size());
  t.sample(c.str()+fmt(" obj=%s calls=%ld runs=%zu",o.name.c_str(),m.rec.n.load(),m.segs.size()));
}
HV_MAIN("C05",4000,200000,one)
