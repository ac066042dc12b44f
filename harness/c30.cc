// C30: starting from the solution of an earlier run continues at its mean and step size with a fresh distribution, exactly like a new run started there.
#include "mon.hh"
using namespace hv;
static void one(Ctx &t) {
  Rng &r = t.rng; Gen g; g.dmax = 8; g.custom = true; Cfg c = gen_cfg(r,g); int n = c.dim; c.max_iter = iters(r,c,1,25); c.restarts = nruns(r,c,1,2); c.mode = r.i(0,1);
  if (r.p(0.3)) gen_features(r,c,0.15); if (c.elitism == 3) c.elitism = -1;
  if (r.p(0.15)) for (int i=0;i<n;i++) if (r.p(0.3) && (int)c.fixed.size() < n-1) c.fixed.push_back({i,c.x0[i]});
  const Obj &o = objs()[r.i(0,OBJ_SMOOTH-1)]; int chain = r.i(1,3); t.cfg(c);
  Mon m0(c,o.f); m0.rec.cap = 1000000; m0.go(); Result prev = m0.res; if (!prev.s.xmean.size() || !prev.s.xmean.allFinite() || !(prev.s.sigma > 1e-100) || !(prev.s.sigma < 1e100)) return;
  for (int k=0;k<chain;k++) {
    Cfg d = c; d.fixed = c.fixed; d.seed = 1+r.u64()%1000000007ULL; if (r.p(0.5)) d.lambda = r.i(5,30); d.max_iter = r.i(1,25); d.restarts = r.i(1,2); d.mode = r.pick(std::vector<int>{0,1,1,2,3}); d.sigma = r.lg(0.01,10); d.crit = {{2,false},{-13,false}}; /* relative to the initial step size set */ d.elitism = -1; d.initfv = r.p(0.1); d.maximize = c.maximize; d.uh = false; d.tpa = r.p(0.15) ? 2 : -1; d.grad = r.p(0.1); d.edm = false; d.lazy = r.p(0.1); d.snap = S_BASIC|S_CAND|S_MAT; if (r.p(0.2)) d.max_hist = r.i(2,40); if (r.p(0.2)) { d.ftol = r.lg(1e-8,1); }
    if (r.p(0.4)) { d.algo = r.i(0,n >= 7 ? 14 : 11); } if (d.mode == 2) d.algo -= restart_kind(d.algo); if (r.p(0.5)) for (auto &x : d.x0) x += r.n(); if (c.gp & 1) for (int i=0;i<n;i++) d.x0[i] = std::min(std::max(d.x0[i],d.lb[i]),d.ub[i]);
    if (r.p(0.15)) { d.fixed.clear(); for (int i=0;i<n;i++) if (r.p(0.3) && (int)d.fixed.size() < n-1) d.fixed.push_back({i,prev.s.xmean(i)+(r.p(0.5) ? prev.s.sigma*r.n()*3 : 0)}); }
    t.cfg(d); const Snap q = prev.s; Mon w(d,o.f); w.rec.cap = 1000000; w.h.warm = prev.sol.get(); w.go(); if (w.segs.empty()) { t.viol("no-run","the run did not start"); return; }
    const Snap &f = w.segs[0].g.front().s; t.ok("start_state",6);
    if (f.niter != 0 || f.fevals != (w.initial_eval() ? 1 : 0)) t.viol("counters",fmt("starts with %d iterations, %d evaluations",f.niter,f.fevals));
    V q0 = q.xmean; for (auto &fx : d.fixed) q0(fx.first) = fx.second; if (!same(f.xmean,q0)) t.viol("mean","does not start at the mean of the solution"); if (!same(f.sigma,q.sigma)) t.viol("sigma",fmt("starts with step size %.12g, the solution has %.12g",f.sigma,q.sigma));
    if (f.ncand != f.lambda) t.viol("population",fmt("%d candidates for a population of %d",f.ncand,f.lambda)); if (f.status != 0) t.viol("status",fmt("starts with status %d",f.status));
    bool full = !is_sep_algo(d.algo) && !is_vd_algo(d.algo); const M &C = full ? f.cov : f.sepcov; bool id = C.size() != 0 && C.rows() == n && C.cols() == (full ? n : 1); if (id) for (int i=0;i<C.rows();i++) for (int j=0;j<C.cols();j++) id = id && C(i,j) == (full ? (i == j) : 1); if (!id) t.viol("covariance","does not start with the identity covariance"); if ((full ? f.sepcov : f.cov).size()) t.viol("covariance-kind","carries the covariance of another flavor");
    // a new run started there
     if (d.algo != 14 && !(d.gp >= 2 && d.grad)) { /* a new VD BIPOP search draws its direction again after seeding, its points are others */ Cfg e = d; e.sigma = q.sigma; e.x0.assign(q0.data(),q0.data()+n); bool exact = true; if (d.gp >= 2) { V s(n),sh(n); exact = false; Cfg lin = d; lin.gp = 2; lin.custom = false; GPView v = make_gp(lin); V x = v.pheno(q0); e.x0.assign(x.data(),x.data()+n); }
      Mon w2(e,o.f); w2.rec.cap = 1000000; w2.go(); bool bip = restart_kind(d.algo) == 2, ipop = restart_kind(d.algo) == 1; long N = std::min(w.rec.calls.size(),w2.rec.calls.size()); long first = std::min(w.segs[0].end_call,w2.segs[0].end_call); if (!exact) first = std::min<long>(first,f.lambda+(w.numgrad() ? w.probes() : 0)+(w.initial_eval() ? 1 : 0)); (void)N; (void)bip; (void)ipop;
      if (exact) { t.ok("same_length"); if (w.segs[0].end_call != w2.segs[0].end_call) t.viol("twin:calls",fmt("%ld calls, a new run started there makes %ld",w.segs[0].end_call,w2.segs[0].end_call)); int s1 = w.segs[0].g.back().s.niter, s2 = w2.segs[0].g.back().s.niter; if (s1 != s2) t.viol("twin:iterations",fmt("%d and %d",s1,s2)); }
      for (long i=0;i<first;i++) { t.ok("same_point"); const auto &a = w.rec.calls[i].x, &b = w2.rec.calls[i].x; bool ok = a == b; if (!exact) { ok = true; for (int j=0;j<n;j++) ok = ok && near(a[j],b[j],1e-6,1e-6*(d.ub.empty() ? 1+std::fabs(a[j]) : d.ub[j]-d.lb[j]+std::fabs(a[j]))); } if (!ok) { t.viol("twin:point",fmt("call %ld of %ld differs from that of a new run started there",i,first)); break; } }
      t.note(exact ? "exact_twins" : "approximate_twins");
    }
    // the best point ever seen covers both runs
    { double bs = w.res.s.best_seen.f, lo = INFINITY; double sg = d.maximize ? -1 : 1; for (auto &cl : w.rec.calls) lo = std::min(lo,sg*cl.v); (void)lo; (void)bs; }
    // restarts begin at the solution's best point
    if (restart_kind(d.algo) == 1 && w.segs.size() > 1 && d.gp != 3 && d.gp != 2) { const Snap &s1 = w.segs[1].g.front().s; V want = q.best.x; for (auto &fx : d.fixed) if (want.size()) want(fx.first) = fx.second; t.ok("restart_point"); if (want.size() && !same(s1.xmean,want)) t.viol("restart-point","a restart does not begin at the best point of the solution"); }
    if (restart_kind(d.algo) == 1 && w.segs.size() > 1 && d.gp >= 2) { const Snap &s1 = w.segs[1].g.front().s; V want = q.best.x; for (auto &fx : d.fixed) if (want.size()) want(fx.first) = fx.second; t.ok("restart_point"); if (want.size()) for (int i=0;i<n;i++) if (!near(s1.xmean(i),want(i),1e-9,1)) { t.viol("restart-point",fmt("a restart begins at %.12g instead of %.12g in coordinate %d",s1.xmean(i),want(i),i)); break; } }
    t.distinct(hv_hash(w.res.s.xmean)); t.note("warm_starts"); if (d.algo != c.algo) t.note("other_algorithm"); t.sample("warm: "+d.str());
    prev = w.res; c = d; if (!prev.s.xmean.size() || !prev.s.xmean.allFinite() || !(prev.s.sigma > 1e-100) || !(prev.s.sigma < 1e100)) return;
  }
}
HV_MAIN("C30",4000,150000,one)
