// C01: no memory error and no undefined behaviour, whatever the settings, objective values and sequence of calls.
// This driver only creates hostile situations; the sanitizers and the library's own and Eigen's assertions decide.
#include "mon.hh"
#include "api_impl.hh"
#include <libcmaes/errstats.h>
using namespace hv;
static double hostile(Rng &r, double v, int kind) {
  switch (kind) { case 0: return v; case 1: return r.p(0.1) ? INFINITY : v; case 2: return r.p(0.1) ? -INFINITY : v; case 3: return v*1e300; case 4: return v*1e-310; case 5: return r.p(0.5) ? 1e308 : -1e308; case 6: return INFINITY; case 7: return r.p(0.05) ? NAN : v; case 8: return r.p(0.7) ? NAN : v; case 9: return NAN; case 10: return r.n(); default: return std::floor(v); } }
static void hostile_run(Ctx &t) {
  Rng &r = t.rng; Gen g; g.dmax = r.p(0.1) ? 40 : 10; g.custom = true; Cfg c = gen_cfg(r,g); int n = c.dim; c.mode = r.i(0,3); if (c.mode == 2) c.algo -= restart_kind(c.algo); c.max_iter = r.i(0,n > 10 ? 12 : 30); c.restarts = r.i(0,3);
  if (r.p(0.4)) c.lambda = r.i(2,6); if (r.p(0.1) && restart_kind(c.algo) != 2) c.lambda = r.i(50,200); if (r.p(0.1)) c.sigma = r.lg(1e-300,1e300); if (r.p(0.05)) for (auto &x : c.x0) x = r.n()*r.lg(1e-300,1e300);
  if (r.p(0.1) && !c.lb.empty()) { double w = r.lg(1e-300,1e-3); for (int i=0;i<n;i++) { c.ub[i] = c.lb[i]+w; c.x0[i] = c.lb[i]; } }
  if (r.p(0.05) && !c.lb.empty()) for (int i=0;i<n;i++) c.ub[i] = c.lb[i] = c.x0[i];
  gen_features(r,c,0.2); c.uh = r.p(0.15); c.mt = r.p(0.2); c.noisy = r.p(0.05) && n < 8; c.tpa = r.p(0.3) ? r.i(0,2) : c.tpa; if (r.p(0.1)) c.max_fevals = r.i(0,200); if (r.p(0.1)) { c.has_ftarget = true; c.ftarget = r.n()*10; } if (r.p(0.2)) c.max_hist = r.i(0,5); if (r.p(0.1)) c.ftol = r.lg(1e-300,1e10); if (r.p(0.1)) c.xtol = r.lg(1e-300,1e10);
  int kind = r.p(0.4) ? 0 : r.i(0,11); if (r.p(0.1)) { c.uh = true; kind = r.i(7,8); c.lambda = r.i(17,60); }
  if (restart_kind(c.algo) == 2 && c.max_fevals < 0) c.max_fevals = r.i(100,3000);
  if (r.p(0.2)) for (int i=0;i<n;i++) if (r.p(0.4) && (int)c.fixed.size() < n-1) c.fixed.push_back({i,r.n()}); if (r.p(0.1) && !c.fixed.empty()) c.unfixed.push_back(c.fixed[0].first); for (int k : {1,2,3,4,5,6,7,8,9,10}) if (r.p(0.1)) c.crit.push_back({k,r.p(0.3)});
  if (r.p(0.15)) { c.fplot = t.scratch+fmt("/c01-%d.dat",(int)getpid()); c.full_fplot = r.p(0.5); } if (c.mode == 2 && r.p(0.2)) c.extra_asks = r.i(1,3); if (r.p(0.1)) { c.x0max = c.x0; for (auto &x : c.x0max) x += r.u(); }
  if (c.gp >= 2 && r.p(0.2)) { c.scal.clear(); c.shift.clear(); c.custom = false; for (int i=0;i<n;i++) c.vsigma.push_back(r.lg(1e-3,1e3)); }
  c.snap = r.p(0.5) ? S_ALL : S_BASIC; c.ctor = r.i(0,1); t.cfg(c); const Obj &o = objs()[r.i(0,OBJ_ALL-1)]; uint64_t hs = r.u64();
  // values depend on the point only, so that threads do not matter
  auto f = [&o,kind,hs](const double *x, int d) { Rng q(hv_hash(x,d)^hs); return hostile(q,o.f(x,d),kind); };
  Mon m(c,f); m.rec.keep = false; m.rec.cap = 3000000; bool ug = (c.grad || c.edm) && r.p(0.5); Rng gr(hs+1); if (ug) m.h.grad = [&](const double *x, int d) { V v(d); for (int i=0;i<d;i++) v(i) = hostile(gr,2*x[i],r.p(0.7) ? 0 : kind); return v; };
  m.user_progress = [&](const Snap &s) { if (s.niter > 400) return 1; return r.p(0.01) ? 1 : 0; };
  m.go(); t.ok("runs"); t.note("objective_calls",m.rec.n); t.note("notifications",m.progress_calls); if (kind >= 7 && kind <= 9) t.note("runs_with_nan"); t.distinct(mix(bits(m.res.s.sigma)^m.res.s.niter)^m.res.s.fevals); if (!c.fplot.empty()) unlink(c.fplot.c_str());
  if (r.p(0.2) && m.res.sol) { Cfg d = c; d.algo = r.i(0,14); if (d.mode == 2) d.algo -= restart_kind(d.algo); d.fplot.clear(); d.full_fplot = false; d.lambda = r.i(2,20); Mon w(d,f); w.rec.keep = false; if (ug) w.h.grad = m.h.grad; w.h.warm = m.res.sol.get(); w.user_progress = m.user_progress; w.go(); t.ok("warm_starts"); }
  t.sample(c.str());
}
// copies, assignments and accessors of the user's objects
template<class GP> static void objects(Ctx &t, Cfg &c) {
  Rng &r = t.rng; int n = c.dim; t.cfg(c); const Obj &o = objs()[r.i(0,OBJ_ALL-1)]; FitFunc f = [&](const double *x, const int &k) { return o.f(x,k); };
  typedef ESOptimizer<CMAStrategy<ACovarianceUpdate,GP>,CMAParameters<GP>,CMASolutions> OPT; typedef ESOptimizer<IPOPCMAStrategy<CovarianceUpdate,GP>,CMAParameters<GP>,CMASolutions> OPT1; typedef ESOptimizer<BIPOPCMAStrategy<CovarianceUpdate,GP>,CMAParameters<GP>,CMASolutions> OPT2;
  CMASolutions s, s2; { CMAParameters<GP> p = mkparams<GP>(c); CMAParameters<GP> q(p); q = p; p = p; { OPT a(f,p); for (int k=0;k<r.i(0,6);k++) { dMat x = a.ask(); a.eval(x,a.get_parameters().get_gp().pheno(x)); a.tell(); a.inc_iter(); s = a.get_solutions(); a.stop(); } if (a.get_solutions().size()) s = a.get_solutions(); } { OPT1 b(f,q); b.optimize(); s2 = b.get_solutions(); } { OPT2 b(f,q); b.optimize(); } t.ok("optimizers",3); }
  CMASolutions a(s2), b; b = a; a = s2; b = b; s2 = s; CMASolutions empty; empty.size(); empty.run_status(); empty.status_msg(); empty.elapsed_time(); b.best_candidate(); b.get_best_seen_candidate(); b.get_worst_seen_candidate(); b.cov(); b.sepcov(); b.csqinv(); b.full_cov(); b.corr(); b.corr(0,n-1); b.eigenvalues(); std::ostringstream os; { CMAParameters<GP> p = mkparams<GP>(c); os << b; b.print(os,1,p.get_gp()); b.stds(p); b.errors(p); b.sort_candidates(); b.xmean(); pli pl0; b.get_pli(0,pl0); Candidate k = b.best_candidate(), k2(k); k = k2; k.get_x(); k.get_x_pheno_dvec(p); }
  t.ok("objects"); t.distinct(hv_hash(b.xmean()));
  if (r.p(0.2) && n > 1 && n < 6 && c.lambda < 15) { // error statistics on whatever the run has left
    CMAParameters<GP> p = mkparams<GP>(c); p.set_max_iter(30); CMASolutions z = cmaes<GP>(f,p); int kk = r.i(0,n-1); pli q = errstats<GP>::profile_likelihood(f,p,z,kk,r.p(0.3),r.i(2,20),r.lg(1e-3,10),0.1,r.i(5,50)); q.get_max(); q.get_min(); pli q2; z.get_pli(kk,q2); t.ok("profiles"); std::vector<int> ks = {kk}; std::vector<double> vs = {0.1}; errstats<GP>::optimize_vpk(f,p,z,ks,vs,z.xmean()); if (r.p(0.15)) { contour ct = errstats<GP>::contour_points(f,kk,(kk+1)%n,r.i(4,8),r.lg(1e-2,2),p,z,0.1,50); std::ostringstream o2; o2 << ct; t.ok("contours"); } os << z; }
}
static void one(Ctx &t) {
  Rng &r = t.rng; if (r.p(0.8)) { hostile_run(t); return; }
  Gen g; g.dmax = 6; Cfg c = gen_cfg(r,g); c.algo = 0; c.mode = 1; c.max_iter = r.i(1,20); c.restarts = r.i(0,2); c.custom = false; if (r.p(0.3)) { c.fplot = t.scratch+fmt("/c01-%d.dat",(int)getpid()); c.full_fplot = r.p(0.5); } if (c.lambda > 0 && c.lambda < 4) c.lambda = 4;
  switch (c.gp) { case 0: objects<GP0>(t,c); break; case 1: objects<GP1>(t,c); break; case 2: objects<GP2>(t,c); break; default: objects<GP3>(t,c); }
  if (!c.fplot.empty()) unlink(c.fplot.c_str());
}
HV_MAIN("C01",3000,100000,one)
