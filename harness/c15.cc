// C15: fixed parameters never move, and the others are optimized.
#include "mon.hh"
using namespace hv;
static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.dmin = 2; g.dmax = 9;
  Cfg c = gen_cfg(r,g);
  c.mode = r.pick(std::vector<int>{0,1,1,2}); if (c.mode == 2) c.algo -= restart_kind(c.algo);
  gen_features(r,c,0.15); if (c.mode == 2) c.edm = false;
  if (r.p(0.15)) { c.uh = true; if (c.lambda != -1 && c.lambda < 5) c.lambda = 5; }
  if (r.p(0.15)) c.mt = true;
  int nf = r.i(1,c.dim-1); std::map<int,double> fx;
  GPView gp = make_gp(c);
  for (int k=0;k<nf;k++) {
    int i = r.i(0,c.dim-1);
    // values are given in the internal space; choose the image of some user-space value, now and then not x0's
    V y = Eigen::Map<const V>(c.x0.data(),c.dim);
    if (r.p(0.6)) y(i) = c.lb.empty() ? r.u(-4,4) : r.u(c.lb[i],c.ub[i]);
    double v = gp.geno(y)(i); if (c.gp == 0 && r.p(0.2)) v = r.pick(std::vector<double>{0.0,-0.0,1.0,1e6});
    c.fixed.push_back({i,v}); fx[i] = v;
  }
  if (r.p(0.25)) { int i = r.p(0.7) ? c.fixed[0].first : r.i(0,c.dim-1); c.unfixed.push_back(i); fx.erase(i); }
  bool conv = r.p(0.1) && c.algo < 12 && c.gp == 0;
  if (conv) { c.maximize = false; c.uh = false; c.algo = r.pick(std::vector<int>{0,3,6,9}); c.lambda = -1; c.max_iter = 1500; c.sigma = 1; for (auto &x : c.x0) x = r.u(-3,3); c.elitism = -1; c.restarts = -1; c.tpa = -1; c.grad = false; for (auto &f : c.fixed) { f.second = r.u(-3,3); } fx.clear(); for (auto &f : c.fixed) fx[f.first] = f.second; for (int i : c.unfixed) fx.erase(i); }
  else { c.max_iter = iters(r,c,1,25); if (r.p(0.3)) c.max_fevals = r.i(1,800); c.restarts = r.i(1,3); }
  t.cfg(c);
  const Obj &o = conv ? objs()[r.pick(std::vector<int>{0,1,8})] : objs()[r.i(0,OBJ_ALL-1)];
  if (fx.empty()) t.note("all_unfixed");
  // the user-space values the objective has to see
  V probe = V::Zero(c.dim); { V y = Eigen::Map<const V>(c.x0.data(),c.dim); probe = gp.geno(y); } for (auto &f : fx) probe(f.first) = f.second;
  V want = gp.pheno(probe); auto usc = [&](int i) { return c.gp == 0 ? 1e-300 : 1+std::fabs(c.lb[i])+std::fabs(c.ub[i])+std::fabs(c.shift.empty()?0:c.shift[i]/c.scal[i]); };
  Mon m(c,o.f); m.rec.keep = true;
  if (c.grad && o.g && r.p(0.5)) m.h.grad = [&](const double *x, int n) { for (auto &f : fx) { t.ok("gradient_argument"); if (!near(x[f.first],want(f.first),1e-11,usc(f.first))) t.viol("gradient-argument",fmt("parameter %d is %.17g instead of %.17g",f.first,x[f.first],want(f.first))); } return o.g(x,n); };
  std::vector<bool> moved(c.dim,false);
  m.h.asked = [&](const M &cand, const M &) { for (auto &f : fx) for (int k=0;k<cand.cols();k++) { t.ok("asked_candidate"); if (cand(f.first,k) != f.second) { t.viol("asked",fmt("parameter %d of a candidate is %.17g instead of %.17g",f.first,cand(f.first,k),f.second)); break; } } };
  m.user_progress = [&](const Snap &s) {
    for (auto &f : fx) {
      t.ok("mean_coordinate"); if (!near(s.xmean(f.first),f.second,1e-13,1e-300)) t.viol("mean",fmt("iteration %d: coordinate %d of the mean is %.17g instead of %.17g",s.niter,f.first,s.xmean(f.first),f.second));
      if (s.niter > 0) for (auto &cd : s.cand) { t.ok("candidate_coordinate"); if (!near(cd.x(f.first),f.second,1e-13,1e-300)) { t.viol("candidate",fmt("iteration %d: parameter %d of a candidate is %.17g instead of %.17g",s.niter,f.first,cd.x(f.first),f.second)); break; } }
    }
    if (s.niter > 0) t.distinct(bits(s.sigma)^mix(s.niter));
    return 0; };
  m.go();
  for (auto &cl : m.rec.calls) {
    for (auto &f : fx) { t.ok("objective_argument"); if (!near(cl.x[f.first],want(f.first),1e-11,usc(f.first))) { t.viol("objective-argument",fmt("parameter %d is %.17g instead of %.17g",f.first,cl.x[f.first],want(f.first))); break; } }
    for (int i=0;i<c.dim;i++) if (cl.x[i] != m.rec.calls[0].x[i]) moved[i] = true;
  }
  if (m.res.s.niter > 1) for (int i=0;i<c.dim;i++) if (!fx.count(i)) { t.ok("others_move"); if (!moved[i]) t.viol("free-parameter-stuck",fmt("parameter %d is not fixed but never moved",i)); }
  for (auto &f : fx) {
    t.ok("result_coordinate",2);
    if (!near(m.res.s.best.x(f.first),f.second,1e-13,1e-300)) t.viol("result",fmt("parameter %d of the result is %.17g instead of %.17g",f.first,m.res.s.best.x(f.first),f.second));
    if (!near(m.res.s.xmean(f.first),f.second,1e-13,1e-300)) t.viol("result",fmt("coordinate %d of the final mean is %.17g instead of %.17g",f.first,m.res.s.xmean(f.first),f.second));
  }
  if (conv && m.res.s.status >= 0) { // separable quadratics: the free parameters reach their own optimum
    for (int i=0;i<c.dim;i++) if (!fx.count(i)) { double opt = o.name == "shiftq" ? 1.5+0.5*i : 0; t.ok("free_parameter_optimum"); if (!(std::fabs(m.res.s.best.x(i)-opt) < 1e-2)) t.viol("free-parameter-optimum",fmt("parameter %d ends at %.6g, the optimum is %.6g (status %d, %d iterations)",i,m.res.s.best.x(i),opt,m.res.s.status,m.res.s.niter)); }
    t.note("converged_runs");
  }
  t.note("runs",m.segs.size());
  t.sample(c.str()+fmt(" obj=%s calls=%ld",o.name.c_str(),m.rec.n.load()));
}
HV_MAIN("C15",4000,200000,one)
