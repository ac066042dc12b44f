// C14: the search distribution stays valid: finite, symmetric, positive definite, correctly decomposed.
#include "mon.hh"
using namespace hv;
static double f_inf(const double *x, int n) { double s = f_sphere(x,n); return x[0] < 0.3 ? std::numeric_limits<double>::infinity() : s; }
static double f_huge(const double *x, int n) { return 1e300*(f_sphere(x,n) > 1e8 ? 1 : std::tanh(f_sphere(x,n)))-5e299; }
static double f_tiny(const double *x, int n) { return 1e-300*f_elli(x,n); }
static double f_ridge(const double *x, int n) { double s = 0; for (int i=1;i<n;i++) s += x[i]*x[i]; return -x[0]+100*std::sqrt(s); }
static double f_cond(const double *x, int n) { double s=0; for (int i=0;i<n;i++) s += std::pow(1e12,n>1?i/double(n-1):0)*x[i]*x[i]; return s; }
static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.dmax = r.p(0.1) ? 30 : 10;
  Cfg c = gen_cfg(r,g);
  c.mode = r.pick(std::vector<int>{0,1,1,2}); if (c.mode == 2) c.algo -= restart_kind(c.algo);
  gen_features(r,c,0.15); if (c.mode == 2) c.edm = false;
  if (r.p(0.1)) { c.uh = true; if (c.lambda != -1 && c.lambda < 5) c.lambda = 5; }
  if (r.p(0.05)) c.noisy = true;
  if (r.p(0.1)) c.mt = true;
  if (r.p(0.15)) for (int i=0;i<c.dim;i++) if (r.p(0.3) && (int)c.fixed.size() < c.dim-1) c.fixed.push_back({i,c.x0[i]});
  c.max_iter = r.p(0.15) ? r.i(200,600) : r.i(5,80);
  if (r.p(0.3)) for (int k : {1,2,5,6}) if (r.p(0.6)) c.crit.push_back({k,false});
  c.restarts = r.i(1,2); if (c.lambda > 30) c.max_iter = std::min(c.max_iter,150);
  c.snap = S_BASIC|S_CAND|S_MAT;
  if (is_vd_algo(c.algo)) { c.elitism = -1; c.grad = false; c.edm = false; c.crit.clear(); c.noisy = false; c.uh = false; }
  t.cfg(c);
  Obj o; int oi = r.i(0,OBJ_ALL+4);
  if (oi < OBJ_ALL) o = objs()[oi]; else { static const std::vector<Obj> x = {{"inf",f_inf,{}},{"huge",f_huge,{}},{"tiny",f_tiny,{}},{"ridge",f_ridge,{}},{"cond",f_cond,{}}}; o = x[oi-OBJ_ALL]; }
  if (o.name == "inf" || o.name == "huge" || o.name == "tiny") { c.grad = false; c.edm = false; }
  Mon m(c,o.f); m.rec.keep = false;
  if ((c.grad || c.edm) && o.g && r.p(0.5)) m.h.grad = [&](const double *x, int n) { return o.g(x,n); };
  Snap prev; M used; bool have = false; double peak = 1; // largest entry so far: rounding errors made then decay more slowly than the covariance may shrink
  m.user_progress = [&](const Snap &s) {
    int n = c.dim; bool full = !s.sep && !s.vd;
    if (s.niter == 0) { prev = s; have = false; peak = 1; return 0; }
    t.ok("step_size_valid"); if (!std::isfinite(s.sigma) || !(s.sigma > 0)) { t.viol("sigma",fmt("iteration %d: step size %g",s.niter,s.sigma)); return 1; }
    t.ok("mean_valid"); if (!s.xmean.allFinite() || s.xmean.size() != n) { t.viol("mean",fmt("iteration %d: the mean is not finite",s.niter)); return 1; }
    t.ok("candidates_valid"); for (auto &cd : s.cand) if (cd.x.size() != n || !cd.x.allFinite()) { t.viol("candidate",fmt("iteration %d: a candidate is not finite",s.niter)); return 1; }
    if (full) {
      if (s.updated_eigen || !have) { used = prev.cov; have = true; }
      t.ok("covariance_shape"); if (s.cov.rows() != n || s.cov.cols() != n || !s.cov.allFinite()) { t.viol("covariance",fmt("iteration %d: the covariance is not finite",s.niter)); return 1; }
      double mx = s.cov.cwiseAbs().maxCoeff(); peak = std::max(peak,mx);
      t.ok("covariance_symmetric"); if (!((s.cov-s.cov.transpose()).cwiseAbs().maxCoeff() <= std::max(1e-7*mx,1e-14*peak))) t.viol("not-symmetric",fmt("iteration %d: asymmetry %.3g of %.3g",s.niter,(s.cov-s.cov.transpose()).cwiseAbs().maxCoeff(),mx));
      Eigen::SelfAdjointEigenSolver<M> es(s.cov,Eigen::EigenvaluesOnly);
      t.ok("covariance_positive"); if (!(es.eigenvalues()(0) > -1e-12*es.eigenvalues()(n-1)) || !(es.eigenvalues()(n-1) > 0)) t.viol("not-positive",fmt("iteration %d: eigenvalues from %.4g to %.4g",s.niter,es.eigenvalues()(0),es.eigenvalues()(n-1)));
      for (int i=0;i<n;i++) if (!(s.cov(i,i) > 0)) { t.viol("not-positive",fmt("iteration %d: variance %d is %g",s.niter,i,s.cov(i,i))); break; }
      t.ok("decomposition");
      if (s.eigval.size() != n || s.eigvec.rows() != n || s.eigvec.cols() != n) t.viol("decomposition","wrong sizes");
      else {
        double e = (s.eigvec*s.eigval.asDiagonal()*s.eigvec.transpose()-used).cwiseAbs().maxCoeff(), um = used.cwiseAbs().maxCoeff();
        if (!(e <= std::max(1e-6*um,2e-14*peak))) t.viol("decomposition",fmt("iteration %d: the reported eigenvectors and eigenvalues give a covariance %.3g away from the one used (of %.3g)",s.niter,e,um));
        double q = (s.eigvec*s.eigvec.transpose()-M::Identity(n,n)).cwiseAbs().maxCoeff();
        t.ok("orthonormal"); if (!(q <= 1e-9)) t.viol("not-orthonormal",fmt("iteration %d: %.3g",s.niter,q));
      }
    } else {
      t.ok("covariance_shape"); if (s.sepcov.rows() != n || s.sepcov.cols() != 1 || !s.sepcov.allFinite()) { t.viol("covariance",fmt("iteration %d: the covariance is not finite",s.niter)); return 1; }
      t.ok("covariance_positive"); if (s.sep) { if (!(s.sepcov.minCoeff() > 0)) t.viol("not-positive",fmt("iteration %d: smallest variance %.4g",s.niter,s.sepcov.minCoeff())); }
      else if (s.vd) { for (int i=0;i<n;i++) if (!(s.full_cov(i,i) > 0) || !std::isfinite(s.full_cov(i,i))) { t.viol("not-positive",fmt("iteration %d: variance %d is %g",s.niter,i,s.full_cov(i,i))); break; }
        t.ok("covariance_symmetric"); if (!((s.full_cov-s.full_cov.transpose()).cwiseAbs().maxCoeff() <= 1e-10*s.full_cov.cwiseAbs().maxCoeff())) t.viol("not-symmetric",fmt("iteration %d",s.niter)); }
      t.ok("decomposition"); if (s.eigval.size() != n || !same(s.eigval,V(s.sepcov.col(0)))) t.viol("decomposition",fmt("iteration %d: the reported eigenvalues are not the diagonal",s.niter));
    }
    if (s.eigval.size()) { t.ok("extreme_eigenvalues"); if (!near(s.maxeig,s.eigval.maxCoeff(),1e-12) || !near(s.mineig,s.eigval.minCoeff(),1e-12)) t.viol("extreme-eigenvalues",fmt("iteration %d: reported %.17g..%.17g, eigenvalues %.17g..%.17g",s.niter,s.mineig,s.maxeig,s.eigval.minCoeff(),s.eigval.maxCoeff())); }
    t.distinct(bits(s.sigma)^mix(s.niter)); if (s.mineig > 0 && s.maxeig/s.mineig > 1e6) t.note("ill_conditioned_generations");
    prev = s; double vmx = full ? s.cov.diagonal().maxCoeff() : s.vd ? s.full_cov.diagonal().maxCoeff() : s.sepcov.maxCoeff(); if (vmx > 1e60 || vmx < 1e-60) { t.note("ended_diverging"); return 1; } return s.sigma > 1e100 || s.sigma < 1e-100 ? 1 : 0;
  };
  m.go();
  t.note("runs",m.segs.size()); t.note(("objective_"+o.name).c_str());
  t.sample(c.str()+fmt(" obj=%s iterations=%d sigma=%g",o.name.c_str(),m.res.s.niter,m.res.s.sigma));
}
HV_MAIN("C14",4000,200000,one)
