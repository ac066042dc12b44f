// C17: IPOP restarts.
#include "mon.hh"
using namespace hv;
static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.dmax = 8; g.algos = {1,1,4,7,10,13};
  Cfg c = gen_cfg(r,g);
  c.mode = r.pick(std::vector<int>{0,1,3});
  if (r.p(0.15)) { c.tpa = 2; if (c.lambda != -1 && c.lambda < 6) c.lambda = 6; }
  if (r.p(0.15)) c.grad = true;
  if (r.p(0.15)) c.elitism = r.i(1,2);
  if (r.p(0.15)) c.initfv = true;
  if (r.p(0.15)) c.maximize = true;
  if (r.p(0.15)) c.lazy = true;
  if (r.p(0.1)) c.noisy = true;
  if (r.p(0.1)) c.edm = true;
  if (r.p(0.1)) c.mt = true;
  if (r.p(0.15)) for (int i=0;i<c.dim;i++) if (r.p(0.3) && (int)c.fixed.size() < c.dim-1 && c.gp == 0) c.fixed.push_back({i,c.x0[i]});
  if (c.lambda > 20) c.lambda = 20;
  c.restarts = r.p(0.1) ? -1 : r.p(0.05) ? 0 : r.i(1,r.p(0.2)?7:4);
  if (c.restarts > 4 && c.lambda > 10) c.lambda = 10;
  c.max_iter = r.p(0.2) ? r.i(1,3) : iters(r,c,4,40);
  if (c.restarts == -1) { c.noisy = false; c.lambda = r.i(4,6); c.max_iter = r.i(2,8); if (c.tpa == 2) c.lambda = 6; }
  if (c.noisy) c.restarts = std::min(c.restarts,3);
  if (r.p(0.03) && !c.noisy) { c.restarts = r.i(5,8); c.lambda = r.i(6,10); c.max_iter = r.i(1,5); }
  if (r.p(0.4)) c.max_fevals = r.i(1,1500);
  if (r.p(0.2)) { c.has_ftarget = true; c.ftarget = r.lg(1e-3,100); if (c.maximize) c.has_ftarget = false; }
  // some searches get better values in their first runs than later, so that runs which diverge are the best ones
  long drift = !c.maximize && c.restarts > 0 && c.restarts <= 4 && r.p(0.08) ? r.lg(400,60000) : 0; std::atomic<long> nf(0);
  if (drift) { c.max_iter = r.i(300,600); c.restarts = r.i(2,3); c.lambda = r.i(6,10); c.sigma = 1; c.mt = c.noisy = c.grad = false; c.max_fevals = -1; c.has_ftarget = false; }
  c.snap = S_BASIC|S_CAND|S_MAT;
  t.cfg(c);
  const Obj &o = objs()[r.i(0,OBJ_ALL-1)];
  Mon m(c,[&](const double *x, int n) { if (drift && ++nf <= drift) { double v = 0; for (int i=0;i<n;i++) v -= x[i]; return v-1e6; } return o.f(x,n); }); m.rec.cap = 2000000; m.rec.keep = false;
  if (c.grad && o.g && r.p(0.5)) m.h.grad = [&](const double *x, int n) { return o.g(x,n); };
  int ustop = r.p(0.1) ? r.i(0,5) : -1; // the user ends the n-th run at its second notification
  m.user_progress = [&](const Snap &s) { return (int)m.segs.size()-1 == ustop && s.niter >= 1 ? 1 : 0; };
  std::vector<Snap> asked; std::vector<M> first; 
  if (c.mode == 3) m.h.asked_state = [&](const Snap &s, const M &p, bool) { if (s.niter == 0) { asked.push_back(s); first.push_back(p); } };
  m.go();
  int nr = c.restarts == -1 ? 9 : std::max(1,c.restarts); // the default number of runs
  int runs = m.segs.size();
  t.ok("runs_bounded"); if (runs > nr) t.viol("too-many-runs",fmt("%d runs, %d were set",runs,nr));
  long total = 0; 
  for (int k=0;k<runs;k++) {
    const Snap &s0 = m.segs[k].g.front().s, &s1 = m.segs[k].g.back().s;
    t.ok("population_doubles"); if (k && s0.lambda != 2*m.segs[k-1].g.front().s.lambda) t.viol("population",fmt("run %d has population %d after %d",k,s0.lambda,m.segs[k-1].g.front().s.lambda));
    if (!k && c.lambda > 0 && s0.lambda != c.lambda*(c.noisy?5:1)) t.viol("first-population",fmt("population %d instead of %d",s0.lambda,c.lambda));
    t.ok("fresh_start");
    if (s0.niter != 0) t.viol("not-fresh",fmt("run %d starts at iteration %d",k,s0.niter));
    if (s0.sigma != m.segs[0].g.front().s.sigma) t.viol("not-fresh",fmt("run %d starts with step size %.17g instead of %.17g",k,s0.sigma,m.segs[0].g.front().s.sigma));
    if (!same(s0.xmean,m.segs[0].g.front().s.xmean)) t.viol("not-fresh",fmt("run %d does not start from the initial point",k));
    bool id = true; if (s0.sep || s0.vd) { for (int i=0;i<c.dim;i++) id = id && s0.sepcov(i,0) == 1; } else id = s0.cov == M::Identity(c.dim,c.dim);
    if (!id) t.viol("not-fresh",fmt("run %d does not start from the identity covariance",k));
    long ie = m.initial_eval() ? 1 : 0; if (s0.fevals != ie) t.viol("not-fresh",fmt("run %d starts with %d evaluations",k,s0.fevals));
    for (auto &q : m.segs[k].g) if (q.s.lambda != s0.lambda) { t.viol("population-changed",fmt("run %d",k)); break; }
    total = m.segs[k].end_call;
    long tot_before_next = total; (void)s1;
    bool budget = c.max_fevals > 0 && tot_before_next >= c.max_fevals;
    if (k+1 < runs) { t.ok("restart_only_within_budget"); if (budget) t.viol("restart-past-budget",fmt("run %d was started after %ld evaluations, budget %d",k+1,tot_before_next,c.max_fevals)); }
    else if (k+1 < nr) { t.ok("ended_only_by_budget"); if (!budget) t.viol("stopped-restarting",fmt("%d of %d runs made, %ld evaluations, budget %d",runs,nr,tot_before_next,c.max_fevals)); }
  }
  // different runs draw different points (the first VD run direction is redrawn from the seed: not compared)
  if (first.size() == (size_t)runs && !is_vd_algo(c.algo)) for (int k=1;k<runs;k++) { t.ok("new_random_points"); int q = c.grad ? 1 : 0; if (first[k].cols() > q && c.fixed.empty() && same(V(first[k].col(q)),V(first[0].col(q)))) t.viol("replayed",fmt("run %d starts with the same random point as the first",k)); }
  // the result is the final state of the run with the best final generation
  int best = 0; for (int k=1;k<runs;k++) { const Snap &a = m.segs[k].g.back().s, &b = m.segs[best].g.back().s; if (a.niter > 0 && (b.niter == 0 || a.best.f < b.best.f)) best = k; }
  const Snap &w = m.segs[best].g.back().s, &f = m.res.s;
  t.ok("best_run_returned",4);
  if (w.niter > 0) {
    if (f.best.f != w.best.f || !same(f.best.x,w.best.x)) t.viol("not-best-run",fmt("the result has value %.17g, the best run (%d of %d) ended with %.17g",f.best.f,best,runs,w.best.f));
    if (f.sigma != w.sigma || !same(f.xmean,w.xmean) || f.niter != w.niter) t.viol("mixed-runs","the state of the result is not that of the best run");
    if (f.fevals != w.fevals+(c.edm && !m.h.grad ? c.dim-(int)c.fixed.size()+1 : 0)) t.viol("evaluations-of-other-run",fmt("%d, the best run made %d",f.fevals,w.fevals));
    const M &ca = (w.sep || w.vd) ? f.sepcov : f.cov, &cb = (w.sep || w.vd) ? w.sepcov : w.cov;
    if (ca.size() != cb.size() || !same(V(Eigen::Map<const V>(ca.data(),ca.size())),V(Eigen::Map<const V>(cb.data(),cb.size())))) t.viol("mixed-runs","the covariance of the result is not that of the best run");
  }
  if (drift) t.note("searches_getting_worse"); if (m.res.s.status < 0) t.note("results_ended_by_error");
  t.note(fmt("runs_%d",std::min(runs,9)).c_str());
  for (auto &s : m.segs) t.distinct(mix(s.g.front().s.lambda)^bits(s.g.back().s.sigma));
  t.sample(c.str()+fmt(" obj=%s runs=%d calls=%ld",o.name.c_str(),runs,m.rec.n.load()));
}
HV_MAIN("C17",3000,150000,one)
