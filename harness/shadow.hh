// An independent implementation of the update equations (CMA-ES tutorial; Hansen & Ros 2010 for the
// active update; Akimoto et al. 2014 for VD-CMA), fed with the candidates the library really used.
#pragma once
#include "mon.hh"
namespace hv {
struct Par {
  int n=0, lambda=0, mu=0; V w; double muw=0, cs=0, cc=0, c1=0, cmu=0, ds=0, chi=0; int nfix=0; bool sep=false, vd=false, active=false; int tpa=1; double lazyv=0; std::vector<int> fixi;
};
inline Par mkpar(int n, int lambda, int algo, int tpa, int nfix, bool noisy=false) {
  Par p; p.n=n; p.lambda=lambda; p.mu=lambda/2; p.nfix=nfix; p.sep=is_sep_algo(algo); p.vd=is_vd_algo(algo); p.active=is_active_algo(algo); p.tpa = tpa<0?1:tpa;
  p.w = V(p.mu); for (int i=0;i<p.mu;i++) p.w(i) = std::log((p.mu+1.0)/(i+1.0)); p.w /= p.w.sum(); p.muw = 1.0/p.w.squaredNorm();
  double mw=p.muw, N=n;
  p.cs = N < 1000 ? (mw+2)/(N+mw+5) : (std::sqrt(mw)+2)/(std::sqrt(N)+std::sqrt(mw)+3); p.cc = (4+mw/N)/(N+4+2*mw/N); p.c1 = 2/((N+1.3)*(N+1.3)+mw);
  double rmu = 2*(mw-2+1/mw)/((N+2)*(N+2)+mw);
  p.cmu = std::min(1-p.c1,rmu);
  p.ds = 1+p.cs+2*std::max(0.0,std::sqrt((mw-1)/(N+1))-1);
  if (noisy) { p.c1 *= 0.2; p.cmu = std::min(1-p.c1,0.2*rmu); }
  if (p.sep) { p.c1 *= (N+2)/3; p.cmu = std::min(1-p.c1,(0.3+mw-2+1/mw)/(N+4*std::sqrt(N)+mw/2)); p.cc = (1+1/N+mw/N)/(std::sqrt(N)+1/N+2*mw/N); }
  if (p.vd) { p.cs = std::sqrt(mw)/(2*(std::sqrt(N)+std::sqrt(mw))); p.c1 *= (N-5)/6; p.cmu = std::min(1-p.c1,(N-5)/6*rmu); if (p.tpa==0) p.ds = 1+p.cs+2*std::max(0.0,std::sqrt((mw-1)/(N+1))-1); }
  if (p.tpa == 2) p.ds = 4-3.6/std::sqrt(N);
  double m = N-nfix; p.chi = std::sqrt(m)*(1-1/(4*m)+1/(21*m*m));
  p.lazyv = 1/(p.c1+p.cmu)/(nfix?m:N)/10;
  return p;
}
struct Shadow {
  Par p; V ps, pc; double tpas = 0; M csq; bool have = false; long lasteig = -1;
  V xm; double sigma = 0; M C; V D; M VV; // predicted
  double minstd = 0; bool ok = true; // false: numerically not comparable
  explicit Shadow(const Par &q) : p(q), ps(V::Zero(q.n)), pc(V::Zero(q.n)) {}
  // prev: state before the generation (notification t), cur: after; uses prev's mean/sigma/covariance and cur's candidates
  bool step(const Snap &prev, const Snap &cur, bool eig_updated) {
    int n=p.n; long t = prev.niter; ok = true;
    std::vector<V> y; for (auto &cd : cur.cand) y.push_back((cd.x - prev.xmean)/prev.sigma);
    V yw = V::Zero(n); for (int i=0;i<p.mu;i++) yw += p.w(i)*y[i];
    xm = prev.xmean + prev.sigma*yw;
    V d = V::Ones(n), v; 
    if (p.vd) minstd = prev.sepcov.col(0).cwiseAbs().minCoeff(); else if (p.sep) minstd = std::sqrt(std::max(prev.sepcov.col(0).minCoeff(),0.0));
    V wh; // whitened step
    if (p.vd) {
      d = prev.sepcov.col(0); 
      // v up to its sign, from C = D(I+vv')D
      M I = prev.full_cov; for (int i=0;i<n;i++) for (int j=0;j<n;j++) I(i,j) /= d(i)*d(j); I -= M::Identity(n,n);
      int k; I.diagonal().maxCoeff(&k); v = I.col(k)/std::sqrt(I(k,k));
      if (!(I(k,k) > 1e-6) || !(v.squaredNorm() < 1e6) || !(d.maxCoeff() < 1e5*d.minCoeff())) { ok = false; }
      wh = V(n); for (int i=0;i<n;i++) wh(i) = yw(i)/(d(i)*std::sqrt(1+v(i)*v(i)));
    } else if (p.sep) { wh = V(n); for (int i=0;i<n;i++) wh(i) = yw(i)/std::sqrt(prev.sepcov(i,0)); }
    else {
      if (eig_updated || !have) { Eigen::SelfAdjointEigenSolver<M> es(prev.cov); V e = es.eigenvalues(); if (!(e(0) > 0) || e(n-1)/e(0) > 1e7) { ok = false; } minstd = std::sqrt(std::max(e(0),0.0)); csq = es.eigenvectors()*e.cwiseSqrt().cwiseInverse().asDiagonal()*es.eigenvectors().transpose(); have = true; }
      wh = csq*yw;
    }
    // cancellation in (x - mean)/sigma: beyond this the two roundings are not comparable
    if (!(prev.xmean.cwiseAbs().maxCoeff() <= 1e4*prev.sigma*minstd)) ok = false;
    ps = (1-p.cs)*ps + std::sqrt(p.cs*(2-p.cs)*p.muw)*wh;
    double nps = ps.norm(), thr = (1.4+2.0/(n+1-p.nfix))*p.chi*std::sqrt(1-std::pow(1-p.cs,2.0*(t+1)));
    if (near(nps,thr,1e-7)) ok = false;
    double h = nps < thr;
    pc = (1-p.cc)*pc + h*std::sqrt(p.cc*(2-p.cc)*p.muw)*yw;
    if (p.vd) vdupdate(d,v,y,h);
    else if (p.sep) {
      V c0 = prev.sepcov.col(0), plus = V::Zero(n), minus = V::Zero(n);
      for (int i=0;i<p.mu;i++) { plus += p.w(i)*y[i].cwiseProduct(y[i]); minus += p.w(i)*y[p.lambda-1-i].cwiseProduct(y[p.lambda-1-i]); }
      V pp = pc.cwiseProduct(pc);
      if (!p.active) C = (1-p.c1-p.cmu+(1-h)*p.c1*p.cc*(2-p.cc))*c0 + p.c1*pp + p.cmu*plus;
      else { double mx = minus.cwiseQuotient(c0).maxCoeff(), cm = cminus(mx); C = (1-p.c1-p.cmu+0.5*cm)*c0 + p.c1*pp + (p.cmu+0.5*cm)*plus - cm*minus; }
    } else {
      const M &c0 = prev.cov; M plus = M::Zero(n,n), minus = M::Zero(n,n);
      for (int i=0;i<p.mu;i++) { plus += p.w(i)*y[i]*y[i].transpose(); minus += p.w(i)*y[p.lambda-1-i]*y[p.lambda-1-i].transpose(); }
      M pp = pc*pc.transpose();
      if (!p.active) C = (1-p.c1-p.cmu+(1-h)*p.c1*p.cc*(2-p.cc))*c0 + p.c1*pp + p.cmu*plus;
      else { Eigen::SelfAdjointEigenSolver<M> es(csq*minus*csq); double mx = es.eigenvalues()(n-1), cm = cminus(mx); C = (1-p.c1-p.cmu+0.5*cm)*c0 + p.c1*pp + (p.cmu+0.5*cm)*plus - cm*minus; }
    }
    // the variance of frozen parameters stays as it is
    if (!p.vd) for (int i : p.fixi) { if (p.sep) C(i,0) = prev.sepcov(i,0); else C(i,i) = prev.cov(i,i); }
    if (p.tpa == 2) { 
      sigma = prev.sigma;
      if (t > 0) {
        int i1=-1,i2=-1, p1 = tpa_first, p2 = tpa_first+1;
        for (int i=0;i<(int)cur.cand.size();i++) { if (i1<0 && cur.cand[i].id==p1) i1=i; if (i2<0 && cur.cand[i].id==p2) i2=i; }
        tpa_r1 = i1; tpa_r2 = i2;
        tpas = 0.7*tpas + 0.3*(i2-i1)/(p.lambda-1.0); // smoothing 0.3
        sigma *= std::exp(tpas/p.ds);
      }
    } else sigma = prev.sigma*std::exp(std::min(1.0,p.cs/p.ds*(nps/p.chi-1)));
    return ok;
  }
  int tpa_first = 0, tpa_r1 = -1, tpa_r2 = -1;
  double cminus(double mx) const {
    double lim = (1-p.cmu)*0.25*p.muw/(std::pow(p.n+2.0,1.5)+2*p.muw);
    double a = (1-p.cmu)*0.34/mx, s = std::max(0.0,1-p.c1-p.cmu)/mx;
    return std::min({lim,a,s});
  }
  void vdupdate(const V &d, const V &v, const std::vector<V> &y, double h) {
    int n = p.n; double nv2 = v.squaredNorm(), nv = std::sqrt(nv2), g = 1+nv2; V vb = v/nv; 
    double mx = 0; for (int i=0;i<n;i++) mx = std::max(mx,vb(i)*vb(i));
    double al = std::min(1.0,std::sqrt(nv2*nv2+(2-1/std::sqrt(g))*g/mx)/(2+nv2));
    double b = -(1-al*al)*nv2*nv2/g+2*al*al;
    auto pq = [&](const V &z, V &P, V &Q) { double zb = vb.dot(z); P = V(n); Q = V(n); for (int i=0;i<n;i++) { P(i) = z(i)*z(i)-nv2/g*zb*vb(i)*z(i)-1; Q(i) = zb*z(i)-0.5*(zb*zb+g)*vb(i); } };
    V Ps = V::Zero(n), Qs = V::Zero(n), P, Q;
    for (int i=0;i<p.mu;i++) { pq(y[i].cwiseQuotient(d),P,Q); Ps += p.cmu*p.w(i)*P; Qs += p.cmu*p.w(i)*Q; }
    if (h) { pq(pc.cwiseQuotient(d),P,Q); Ps += p.c1*P; Qs += p.c1*Q; }
    double vq = vb.dot(Qs); V A(n), rr(n); double bb=0, br=0;
    for (int i=0;i<n;i++) { double q = vb(i)*vb(i); A(i) = 1/(2-(b+2*al*al)*q); rr(i) = Ps(i)-al/g*((2+nv2)*vb(i)*Qs(i)-nv2*vq*q); bb += A(i)*q*q; br += A(i)*q*rr(i); }
    V s(n); double sv=0; for (int i=0;i<n;i++) { double q = vb(i)*vb(i); s(i) = A(i)*rr(i)-b*br/(1+b*bb)*A(i)*q; sv += s(i)*q; }
    V v2(n); D = V(n); for (int i=0;i<n;i++) { v2(i) = v(i)+(Qs(i)-al*((2+nv2)*vb(i)*s(i)-sv*vb(i)))/nv; D(i) = d(i)+d(i)*s(i); }
    for (int i : p.fixi) D(i) = d(i);
    C = M(n,n); for (int i=0;i<n;i++) for (int j=0;j<n;j++) C(i,j) = D(i)*D(j)*((i==j)+v2(i)*v2(j));
  }
};
// runs a configuration and compares every generation with the independent implementation
inline void shadow_case(Ctx &t, Cfg c, const Obj &o) {
  c.snap = S_BASIC|S_CAND|S_MAT;
  t.cfg(c);
  Rng r(c.seed);
  Mon m(c,o.f); m.rec.keep = false;
  if (c.grad && o.g && r.p(0.5)) m.h.grad = [&](const double *x, int n) { return o.g(x,n); };
  std::unique_ptr<Shadow> sh; Snap prev; 
  m.user_progress = [&](const Snap &s) {
    if (s.niter == 0) {
      sh.reset(new Shadow(mkpar(c.dim,s.lambda,c.algo,c.tpa,c.fixed.size(),c.noisy))); sh->tpa_first = c.grad ? 1 : 0; for (auto &f : c.fixed) sh->p.fixi.push_back(f.first);
      t.ok("initial_state"); bool idc = true; 
      if (is_sep_algo(c.algo) || is_vd_algo(c.algo)) { for (int i=0;i<c.dim;i++) idc = idc && s.sepcov(i,0)==1.0; } else idc = (s.cov - M::Identity(c.dim,c.dim)).norm()==0;
      if (!idc) t.viol("initial-covariance","the run does not start from the identity covariance");
      if (c.vsigma.empty()) { t.ok("initial_step_size"); if (s.sigma != c.sigma) t.viol("initial-sigma",fmt("the run starts with step size %.17g instead of %.17g",s.sigma,c.sigma)); }
      if (c.x0max.empty() && !c.custom && c.vsigma.empty() && (c.fixed.empty() || c.gp == 0)) {
        GPView gp = make_gp(c); V y = Eigen::Map<const V>(c.x0.data(),c.dim), g = gp.geno(y), back = gp.pheno(s.xmean); bool inner = true;
        for (int i=0;i<c.dim;i++) { double sc = std::fabs(g(i))+std::fabs(c.lb.empty()?0:c.lb[i])+std::fabs(c.ub.empty()?0:c.ub[i])+1; if (c.gp==1||c.gp==3) { double m = 0.11*(1+std::max(std::fabs(c.lb[i]),std::fabs(c.ub[i])))*(c.gp==3?10:1); if (c.gp==3 || y(i)-c.lb[i] < m || c.ub[i]-y(i) < m) inner = false; } if (inner && !near(g(i),s.xmean(i),1e-9,sc)) { t.viol("initial-mean",fmt("coordinate %d starts at %.17g instead of %.17g",i,s.xmean(i),g(i))); break; } }
        t.ok("initial_mean");
      }
    } else {
      if (!(s.sigma > 1e-100 && s.sigma < 1e100) || !s.xmean.allFinite()) { sh.reset(); return 1; }
      if (!sh) return 1;
      bool full = !is_sep_algo(c.algo) && !is_vd_algo(c.algo);
      if (full) {
        t.ok("decomposition_age"); if (!c.lazy && !s.updated_eigen) t.viol("eigen-not-updated",fmt("iteration %d",s.niter));
        if (s.updated_eigen) sh->lasteig = prev.niter;
        if (c.lazy && prev.niter - sh->lasteig > sh->p.lazyv + 1e-9 + 0) t.viol("eigen-too-old",fmt("decomposition of iteration %ld used in %d, allowed age %g",sh->lasteig,prev.niter,sh->p.lazyv));
      }
      bool ok = sh->step(prev,s,full ? s.updated_eigen : true);
      double xs = prev.xmean.norm() + prev.sigma; for (auto &cd : s.cand) xs = std::max(xs,cd.x.norm());
      double tol = 1e-7;
      t.ok("mean_update"); if (!((s.xmean-sh->xm).norm() <= 1e-9*xs + 1e-9*prev.sigma*std::sqrt(std::max(1.0,prev.maxeig)))) t.viol("mean",fmt("iteration %d: mean is %.3g away from the weighted recombination of the best candidates",s.niter,(s.xmean-sh->xm).norm()));
      if (ok) {
        t.ok("step_size_update"); if (!near(s.sigma,sh->sigma,tol)) t.viol("sigma",fmt("iteration %d: sigma %.17g, expected %.17g (before %.17g)",s.niter,s.sigma,sh->sigma,prev.sigma));
        if (is_vd_algo(c.algo)) { double e = (s.full_cov-sh->C).norm()/sh->C.norm(); t.ok("covariance_update"); if (!(e <= 1e-6)) t.viol("covariance",fmt("iteration %d: relative error %.3g",s.niter,e)); double e2 = (s.sepcov.col(0)-sh->D).norm()/sh->D.norm(); if (!(e2 <= 1e-6)) t.viol("covariance",fmt("iteration %d: relative error of D %.3g",s.niter,e2)); }
        else { M cv = is_sep_algo(c.algo) ? M(s.sepcov) : s.cov; double e = (cv-sh->C).norm()/sh->C.norm(); t.ok("covariance_update"); if (!(e <= tol)) t.viol("covariance",fmt("iteration %d: relative error %.3g",s.niter,e)); }
        if (c.tpa == 2 && prev.niter > 0) { t.ok("tpa_candidates_present"); if (sh->tpa_r1 < 0 || sh->tpa_r2 < 0) t.viol("tpa-candidates","the two test points are not among the candidates"); }
      } else { t.note("not_comparable"); sh.reset(); return 1; }
      t.distinct(bits(s.sigma)^mix(s.niter));
    }
    prev = s; return 0; };
  m.go();
  t.sample(c.str()+fmt(" obj=%s iterations=%d",o.name.c_str(),m.res.s.niter));
}
}
