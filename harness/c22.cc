// C22: two-point step-size adaptation.
#include "shadow.hh"
using namespace hv;
static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.dmax = 10; g.algos = {0,0,3,6,9,12,1,7};
  Cfg c = gen_cfg(r,g);
  c.tpa = 2; if (c.lambda != -1 && c.lambda < 6) c.lambda = 6;
  c.mode = r.pick(std::vector<int>{2,2,3}); if (c.mode == 2) c.algo -= restart_kind(c.algo);
  if (r.p(0.15)) { c.grad = true; if (c.lambda != -1 && c.lambda < 7) c.lambda = 7; }
  if (r.p(0.15)) c.elitism = r.i(1,2);
  if (r.p(0.15)) c.lazy = true;
  if (r.p(0.15)) c.maximize = true;
  if (r.p(0.15)) for (int i=0;i<c.dim;i++) if (r.p(0.3) && (int)c.fixed.size() < c.dim-1) c.fixed.push_back({i,c.x0[i]});
  c.max_iter = iters(r,c,2,40); c.restarts = 2;
  for (int k : {1,2,5,6}) c.crit.push_back({k,false});
  if (c.mode == 2) { c.extra_asks = r.p(0.5) ? 0 : r.i(100,400); c.extra_at = r.i(1,c.max_iter-1); }
  c.snap = S_BASIC|S_CAND|S_MAT;
  t.cfg(c);
  const Obj &o = objs()[r.i(0,OBJ_ALL-1)];
  Mon m(c,o.f); m.rec.keep = false; m.rec.cap = 1000000;
  if (c.grad && o.g && r.p(0.5)) m.h.grad = [&](const double *x, int n) { return o.g(x,n); };
  std::unique_ptr<Shadow> sh; Snap prev, pprev; bool haspp = false; double q2 = 0; long qn = 0; int p1 = c.grad ? 1 : 0; int n = c.dim; M usedcov; bool haveused = false;
  int nfree = n-(int)c.fixed.size();
  m.h.asked_state = [&](const Snap &s, const M &pop, bool) {
    bool full = !s.sep && !s.vd;
    if (full && (s.updated_eigen || !haveused)) { usedcov = s.cov; haveused = true; }
    if (s.niter == 0 || !haspp || s.niter != prev.niter) return;
    V a = pop.col(p1), b = pop.col(p1+1), shift = s.xmean-pprev.xmean; double sc = s.xmean.cwiseAbs().maxCoeff()+(a-b).norm();
    t.ok("symmetric_pair"); V mid = 0.5*(a+b)-s.xmean; if (!(mid.norm() <= 1e-9*sc)) { t.viol("pair-not-symmetric",fmt("iteration %d: the middle of the two test points is %.3g away from the mean",s.niter,mid.norm())); return; }
    V z = 0.5*(a-b); double zn = z.norm(), sn = shift.norm();
    if (sn == 0) { t.note("mean_did_not_move"); return; }
    if (!(sn > 1e-7*(s.xmean.cwiseAbs().maxCoeff()+1e-300))) { t.note("shift_not_resolved"); return; }
    t.ok("along_mean_shift"); double e = (z/zn-shift/sn).norm(); if (zn > 1e-6*s.xmean.cwiseAbs().maxCoeff() && !(e <= 1e-6+1e-14*sc/sn+1e-14*sc/zn)) { t.viol("direction",fmt("iteration %d: the test points are not along the last shift of the mean (%.3g)",s.niter,e)); return; }
    // length in units of the search distribution
    V w; bool ok = true;
    if (full) { Eigen::SelfAdjointEigenSolver<M> es(usedcov); if (!(es.eigenvalues()(0) > 0) || es.eigenvalues()(n-1)/es.eigenvalues()(0) > 1e9) ok = false; else w = es.operatorInverseSqrt()*z; }
    else if (s.sep) w = z.cwiseQuotient(V(s.sepcov.col(0).cwiseSqrt()));
    else { Eigen::SelfAdjointEigenSolver<M> es(s.full_cov); if (!(es.eigenvalues()(0) > 0) || es.eigenvalues()(n-1)/es.eigenvalues()(0) > 1e9) ok = false; else w = es.operatorInverseSqrt()*z; }
    if (!ok) { t.note("not_comparable"); return; }
    double q = w.squaredNorm()/(s.sigma*s.sigma);
    t.ok("length_plausible"); if (!(q <= n+14*std::sqrt(2.0*n)+120) || !(q > 0)) t.viol("length",fmt("iteration %d: squared length %.4g in %d dimensions",s.niter,q,n));
    if (c.extra_asks && s.niter == c.extra_at) { q2 += q; qn++; }
    (void)nfree;
  };
  m.user_progress = [&](const Snap &s) {
    if (s.niter == 0) { sh.reset(new Shadow(mkpar(n,s.lambda,c.algo,2,c.fixed.size()))); sh->tpa_first = p1; for (auto &f : c.fixed) sh->p.fixi.push_back(f.first); haspp = false; haveused = false; }
    else {
      if (!(s.sigma > 1e-100 && s.sigma < 1e100) || !s.xmean.allFinite()) { sh.reset(); return 1; }
      if (sh) {
        bool ok = sh->step(prev,s,s.sep || s.vd ? true : s.updated_eigen);
        if (prev.niter > 0) {
          t.ok("test_points_kept"); if (sh->tpa_r1 < 0 || sh->tpa_r2 < 0) t.viol("test-points-lost",fmt("iteration %d: the two test points are not among the candidates",s.niter));
          t.ok("step_size_from_ranks"); if (!near(s.sigma,sh->sigma,1e-9)) { t.viol("step-size",fmt("iteration %d: ranks %d and %d of %d, step size %.17g, expected %.17g (before %.17g)",s.niter,sh->tpa_r1,sh->tpa_r2,s.lambda,s.sigma,sh->sigma,prev.sigma)); sh.reset(); return 1; }
        } else { t.ok("first_step_size"); if (s.sigma != prev.sigma) t.viol("first-step-size","the step size changed before the first comparison"); }
        (void)ok; // the path of the covariance may become incomparable, ranks and step size do not
        t.distinct(bits(s.sigma)^mix(s.niter)); if (sh->tpa_r1 >= 0) t.note(sh->tpa_r1 < sh->tpa_r2 ? "forward_better" : "backward_better");
      }
    }
    if (s.niter > 0) { pprev = prev; haspp = true; }
    prev = s; return 0; };
  m.go();
  if (qn > 50) { double z = (q2-qn*(double)n)/std::sqrt(2.0*n*qn); t.ok("length_distribution"); if (!(std::fabs(z) < 9+ (n == 1 ? 3 : 0))) t.viol("length-distribution",fmt("mean squared length %.4g over %ld draws in %d dimensions (%.1f deviations)",q2/qn,qn,n,z)); }
  t.sample(c.str()+fmt(" obj=%s iterations=%d",o.name.c_str(),m.res.s.niter));
}
HV_MAIN("C22",3000,150000,one)
