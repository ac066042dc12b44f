// C23: gradient candidate and expected distance to the minimum.
#include "mon.hh"
using namespace hv;
static double f_lin2(const double *x, int n) { double s=0; for (int i=0;i<n;i++) s += (i%3-1)*(1+0.5*i)*x[i]; return s; }
static V g_lin2(const double *, int n) { V g(n); for (int i=0;i<n;i++) g(i) = (i%3-1)*(1+0.5*i); return g; }
static V g_rot(const double *x, int n) { V T(n), g = V::Zero(n); double a = 0; for (int i=0;i<n;i++) { a += x[i]-0.3; T(i) = a; } double s = 0; for (int i=n-1;i>=0;i--) { s += 2*T(i); g(i) = s; } return g; }
static double hess(const std::string &nm, int n) { if (nm == "elli") return 2e4; if (nm == "rot") return 2*n*n; if (nm == "shiftq") return 2*(n+1); return 2; }
static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.dmax = 9;
  Cfg c = gen_cfg(r,g);
  c.grad = r.p(0.8); c.edm = !c.grad || r.p(0.5);
  c.mode = r.pick(std::vector<int>{0,1,2,3,3}); if (c.mode == 2) { c.algo -= restart_kind(c.algo); c.edm = false; c.grad = true; }
  if (c.lambda != -1 && c.lambda < 7) c.lambda = 7;
  if (r.p(0.15)) c.tpa = 2;
  if (r.p(0.25)) c.maximize = true;
  if (r.p(0.15)) for (int i=0;i<c.dim;i++) if (r.p(0.3) && (int)c.fixed.size() < c.dim-1) c.fixed.push_back({i,c.x0[i]});
  c.max_iter = iters(r,c,1,25); c.restarts = nruns(r,c,1,2);
  c.snap = S_BASIC|S_MAT; int n = c.dim;
  static const std::vector<Obj> os = {{"sphere",f_sphere,g_sphere},{"elli",f_elli,g_elli},{"shiftq",f_shiftq,g_shiftq},{"linear2",f_lin2,g_lin2},{"rot",f_rot,g_rot},{"zero",f_const,[](const double*, int k){ return V(V::Zero(k)); }}};
  Obj o = os[r.i(0,5)];
  t.cfg(c);
  bool ug = r.p(0.6); double sg = c.maximize ? -1 : 1;
  Mon m(c,o.f); GPView gp = make_gp(c);
  std::vector<std::vector<double>> garg; if (ug) m.h.grad = [&](const double *x, int k) { garg.emplace_back(x,x+k); return o.g(x,k); };
  auto cov = [&](const Snap &s) { return s.cov.size() && !s.sep && !s.vd ? s.cov : s.full_cov; };
  // internal gradient and its uncertainty at an internal point
  auto igrad = [&](const V &x, V &err) {
    V y = gp.pheno(x), gr = sg*o.g(y.data(),n), gg(n); err = V::Zero(n); double f = o.f(y.data(),n);
    for (int i=0;i<n;i++) { double e = 1e-8*(1+std::fabs(x(i))); V a = x, b = x; a(i) += e; b(i) -= e; gg(i) = (gp.pheno(a)(i)-gp.pheno(b)(i))/(2*e);
      double dg = 1e-6*std::fabs(gg(i))+1e-6; double de = ug ? 0 : 1e-8*(1+std::fabs(y(i)))*hess(o.name,n)+(1e-15*(std::fabs(f)+1)+hess(o.name,n)*1e-16*std::fabs(y(i))*(1+std::fabs(y(i))))/(1e-8*(1+std::fabs(y(i)))) ;
      if (!c.lb.empty() && !ug && (c.gp == 1 || c.gp == 3) && c.ub[i]-y(i) <= 2e-8*(1+std::fabs(y(i)))) de += std::fabs(gr(i)); // the probe is cut at the bound
      if (!ug) for (auto &q : c.fixed) if (q.first == i) { gr(i) = 0; de = 0; }
      err(i) = de*std::fabs(gg(i))+dg*std::fabs(gr(i)); gr(i) *= gg(i); }
    return gr; };
  m.h.asked_state = [&](const Snap &s, const M &pop, bool) {
    if (!c.grad) return;
    V err, gr = igrad(s.xmean,err); M C = cov(s); double q = gr.dot(C*gr), qe = err.dot(C.cwiseAbs()*err); 
    if (ug) { t.ok("gradient_asked_at_mean"); V y = gp.pheno(s.xmean); if (garg.empty() || !same(V(Eigen::Map<V>(garg.back().data(),n)),y)) t.viol("gradient-argument",fmt("iteration %d: the gradient was not asked at the mean",s.niter)); }
    if (gr.norm() == 0 && err.norm() == 0) { t.note("zero_gradient"); t.ok("zero_gradient_ignored"); if (!pop.col(0).allFinite()) t.viol("zero-gradient","not finite"); return; }
    if (!std::isfinite(q) || !(q > 1e-200) || !(qe < 1e-6*q)) { t.note("gradient_not_resolved"); return; }
    V want = s.xmean - s.sigma*std::sqrt(n/q)*(C*gr); double len = s.sigma*std::sqrt(n/q)*(C*gr).norm(), tol = 1e-6+20*std::sqrt(qe/q)+20*((C.cwiseAbs()*err).norm()/(C*gr).norm());
    for (auto &f : c.fixed) want(f.first) = f.second;
    t.ok("gradient_candidate"); double e = (pop.col(0)-want).norm(); if (!(e <= tol*len+1e-9*s.xmean.norm())) { t.viol("gradient-candidate",fmt("iteration %d: the gradient candidate is %.3g away from where it has to be (step %.3g)",s.niter,e,len)); return; }
    // and it goes downhill
    t.distinct(bits(s.sigma)^mix(s.niter)^mix(c.algo)); t.note(ug ? "user_gradient_steps" : "numerical_gradient_steps");
  };
  if (!c.grad) m.h.asked_state = nullptr;
  m.go();
  const Snap &s = m.res.s;
  if (!c.edm) { t.ok("edm_unset"); if (s.edm != 0) t.viol("edm-unset",fmt("%g",s.edm)); }
  else if (s.niter > 0) {
    V err, gr = igrad(s.xmean,err); int lam = s.ncand; double fac = n/(10.0*(std::sqrt(lam/4.0+0.5)-1))*s.sigma; M C1 = cov(s), C0 = C1;
    if (!s.sep && !s.vd) C0 = s.eigvec*s.eigval.asDiagonal()*s.eigvec.transpose(); // the last decomposition
    double a = fac*std::sqrt(std::max(0.0,gr.dot(C0*gr))), b = fac*std::sqrt(std::max(0.0,gr.dot(C1*gr))), tol = fac*20*std::sqrt(err.dot(C0.cwiseAbs()*err))+1e-6*std::fabs(a);
    if (std::isfinite(a) && tol < 0.05*std::fabs(a)+1e-300) { t.ok("edm_value"); if (!(std::fabs(s.edm-a) <= tol || std::fabs(s.edm-b) <= tol)) t.viol("edm",fmt("%.17g, expected %.17g (last decomposition) or %.17g (covariance), tolerance %.3g",s.edm,a,b,tol)); }
    else if (gr.norm() == 0 && err.norm() == 0) { t.ok("edm_value"); if (s.edm != 0) t.viol("edm",fmt("%.17g with a zero gradient",s.edm)); }
    else t.note("edm_not_resolved");
  }
  // probes of the numerical gradient stay next to the mean
  if (!ug && c.grad && !c.uh) for (auto &sgm : m.segs) for (size_t k=1;k<sgm.g.size();k++) {
    long lo = sgm.g[k-1].calls, pr = m.probes(); V y = gp.pheno(sgm.g[k-1].s.xmean); std::set<int> dirs; bool ok = true;
    for (long q=0;q<pr && lo+q<(long)m.rec.calls.size();q++) { auto &x = m.rec.calls[lo+q].x; int nd = 0, di = -1; for (int i=0;i<n;i++) if (x[i] != y(i)) { nd++; di = i; if (!(std::fabs(x[i]-y(i)) <= 1e-6*(1+std::fabs(y(i))))) ok = false; } if (nd > 1) ok = false; if (nd == 1 && !dirs.insert(di).second) ok = false; }
    t.ok("probes_next_to_mean"); if (!ok) { t.viol("probes",fmt("iteration %d: a gradient probe is not a small move of one parameter of the mean, or a parameter is probed twice",sgm.g[k].s.niter)); break; } }
  t.note(("objective_"+o.name).c_str());
  t.sample(c.str()+fmt(" obj=%s edm=%g",o.name.c_str(),s.edm));
}
HV_MAIN("C23",3000,150000,one)
