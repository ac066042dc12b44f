// C06: budgets and user interruption end the search.
#include "mon.hh"
using namespace hv;
static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.dmax = 8;
  Cfg c = gen_cfg(r,g);
  c.mode = r.pick(std::vector<int>{0,1,1,2});
  if (c.mode == 2) c.algo -= restart_kind(c.algo);
  gen_features(r,c,0.12);
  if (c.mode == 2) c.edm = false;
  if (r.p(0.15)) { c.uh = true; if (c.lambda != -1 && c.lambda < 5) c.lambda = 5; }
  if (is_vd_algo(c.algo)) c.grad = false;
  if (r.p(0.15)) c.mt = true;
  int kind = r.i(0,3); bool nobudget = false;
  if (kind == 0 || kind == 2) c.max_iter = r.p(0.15) ? 1 : r.i(1,60);
  if (kind == 1 || kind == 2) c.max_fevals = r.p(0.15) ? r.i(1,5) : r.i(1,3000);
  if (kind == 3) { // nothing but the automatic limits
    nobudget = true; c.algo = r.pick(std::vector<int>{0,3,6,9}); c.dim = r.i(1,4); gen_space(r,c,g); c.fixed.clear(); c.uh = false;
    if (c.elitism == 3) c.elitism = 1;
    if (r.p(0.7)) { nobudget = false; c.max_iter = r.i(1,60); }
  }
  c.restarts = r.i(1,4);
  if (restart_kind(c.algo) == 1 && !nobudget && r.p(0.3)) { // many short runs, the budget used up in a late one
    c.restarts = r.i(4,8); c.lambda = r.i(4,9); c.max_iter = r.i(1,4); c.max_fevals = c.lambda*c.max_iter*(1<<r.i(2,7))+r.i(-3,3); }
  static const int crits[] = {-15,-13,1,2,3,4,5,6,7,10}; bool off = false;
  if (kind == 3 && r.p(0.5)) { // nothing else ends the run before the automatic limit
    off = true; nobudget = true; c.max_iter = c.max_fevals = -1; c.restarts = 1; c.algo -= restart_kind(c.algo); c.mt = false; c.grad = c.edm = false; if (c.elitism == 3) c.elitism = 1;
    if (r.p(0.25)) { c.algo = 12; c.dim = r.i(10,12); c.lambda = r.i(40,220); c.elitism = 0; c.initfv = false; } else { c.algo = r.pick(std::vector<int>{0,3,6,9}); c.dim = r.i(1,r.p(0.1) ? 9 : 4); c.lambda = r.p(0.5) ? r.i(4,30) : r.i(60,250); }
    gen_space(r,c,g); c.fixed.clear(); for (int k : crits) if (k != 7) c.crit.push_back({k,false}); }
  else if (r.p(0.04)) { // long runs up to the budget
    off = true; nobudget = false; c.algo = r.pick(std::vector<int>{0,3,6,9}); c.dim = r.i(1,4); c.lambda = r.i(4,12); c.elitism = r.i(0,2); c.grad = c.edm = false; c.mt = false; gen_space(r,c,g); c.fixed.clear();
    c.max_iter = c.max_fevals = -1; if (r.p(0.5)) c.max_iter = r.i(400,3000); else c.max_fevals = r.i(3000,30000);
    for (int k : crits) c.crit.push_back({k,false}); }
  c.snap = S_BASIC;
  t.cfg(c);
  const Obj &o = objs()[r.i(0,OBJ_ALL-1)]; uint64_t ns = r.u64(); bool noise = off && r.p(0.8); // values without a trend keep the distribution where it is
  Mon m(c,[&](const double *x, int n) { return noise ? (hv_hash(x,n,ns)>>11)*0x1p-53 : o.f(x,n); }); m.rec.keep = false; m.rec.cap = 1000000;
  // user interruption: at the k-th notification
  long stop_at = !off && r.p(0.35) ? r.i(1,25) : -1; long calls_at_stop = -1; int stopval = r.p(0.5) ? 1 : r.p(0.5) ? -3 : 77; bool sticky = r.p(0.5);
  m.user_progress = [&](const Snap &) { if (stop_at >= 0 && (m.progress_calls == stop_at || (sticky && m.progress_calls > stop_at))) { if (calls_at_stop < 0) calls_at_stop = m.rec.n; return stopval; } return 0; };
  m.go();
  int rk = restart_kind(c.algo);
  for (size_t si=0;si<m.segs.size();si++) {
    Seg &sg = m.segs[si];
    for (size_t k=0;k<sg.g.size();k++) {
      const Snap &s = sg.g[k].s; bool last = k+1==sg.g.size();
      if (!last && k >= 1) {
        // (BIPOP shrinks the evaluation budget of its own small-population runs: the reported value is the one in force)
        int mf = s.max_fevals;
        t.ok("generation_within_budget",2);
        if (c.max_iter != -1 && s.niter >= c.max_iter) t.viol("max-iter",fmt("run %zu goes on after iteration %d, limit %d",si,s.niter,c.max_iter));
        if (mf > 0 && (sg.g[k].calls - sg.first_call) >= mf && c.elitism != 3) t.viol("max-fevals",fmt("run %zu goes on after %ld evaluations, limit %d",si,sg.g[k].calls-sg.first_call,mf));
        if (mf > 0 && s.fevals >= mf) t.viol("max-fevals",fmt("run %zu goes on after %d reported evaluations, limit %d",si,s.fevals,mf));
      }
      if (rk != 2) { t.ok("budget_kept"); if (s.max_fevals != c.max_fevals) t.viol("budget-changed",fmt("evaluation budget %d became %d",c.max_fevals,s.max_fevals)); }
      t.distinct(mix(s.niter*131+s.fevals)^mix(s.lambda*7+c.algo));
    }
    if (si > 0 && rk == 1 && c.elitism != 3 && c.max_fevals > 0) { t.ok("no_restart_past_budget"); if (sg.first_call >= c.max_fevals) t.viol("restart-past-budget",fmt("run %zu started after %ld evaluations, limit %d",si,sg.first_call,c.max_fevals)); }
    if (nobudget) { double th = 100.0+50*std::pow(c.dim+3,2)/std::sqrt((double)sg.g.back().s.lambda); t.ok("automatic_limit"); if (off) { t.note("ended_by_automatic_limit"); if (sg.g.back().s.niter < th-1e-6 && !(std::fabs(sg.g.back().s.sigma) < 1e-290)) t.viol("auto-max-iter-early",fmt("ended after %d iterations by nothing but the automatic limit of %.1f",sg.g.back().s.niter,th)); } if (sg.g.back().s.niter > std::ceil(th)) t.viol("auto-max-iter",fmt("%d iterations, automatic limit %.1f",sg.g.back().s.niter,th)); }
  }
  if (c.elitism != 3) {
    t.ok("number_of_runs");
    if (rk == 0 && m.segs.size() != 1) t.viol("extra-run",fmt("%zu runs without restarts",m.segs.size()));
    if (rk == 1 && (int)m.segs.size() > c.restarts) t.viol("extra-run",fmt("%zu runs, %d allowed",m.segs.size(),c.restarts));
    if (rk == 0 && calls_at_stop >= 0) {
      t.ok("interrupted_no_more_calls");
      if (m.rec.n != calls_at_stop + m.tail()) t.viol("calls-after-stop",fmt("%ld objective calls after the progress function asked to stop",m.rec.n-calls_at_stop));
      t.ok("interrupted_notified_once"); if (m.progress_calls != stop_at) t.viol("progress-after-stop",fmt("%ld notifications, stop was asked at %ld",m.progress_calls,stop_at));
      t.note("interrupted_runs");
    }
  }
  if (calls_at_stop < 0 && c.max_iter > 0 && rk == 0 && c.elitism != 3) {
    t.ok("overall_bound"); 
    long gen = m.segs[0].g.back().s.lambda*(c.uh?2:1) + m.probes();
    if (m.rec.n > (long)c.max_iter*gen + 2 + m.tail()) t.viol("max-iter",fmt("%ld calls within %d iterations",m.rec.n.load(),c.max_iter));
  }
  t.note("runs",m.segs.size());
  t.sample(c.str()+fmt(" obj=%s calls=%ld runs=%zu",o.name.c_str(),m.rec.n.load(),m.segs.size()));
}
HV_MAIN("C06",6000,300000,one)
