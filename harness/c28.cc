// C28: reported statistics are consistent with the search distribution.
#include "mon.hh"
#include <Eigen/Eigenvalues>
using namespace hv;
static bool num(const std::string &s, const char *tag, double &v, size_t from = 0) { size_t p = s.find(tag,from); if (p == std::string::npos) return false; v = strtod(s.c_str()+p+strlen(tag),nullptr); return true; }
static bool printed_as(double shown, double v) { return (std::isnan(shown) && std::isnan(v)) || near(shown,v,1e-5); }
static std::map<int,std::string> &msgs() { static std::map<int,std::string> m; return m; }
static const char *word(int st) { switch (st) { case 0: return "OK"; case 7: return "automatically"; case 1: return "converged"; case 5: return "values are the same"; case 2: return "very small"; case -13: return "step size"; case 6: return "Median"; case -15: return "condition number"; case 3: return "along search axes"; case 4: return "in coordinates"; case 8: return "function evaluations"; case 9: return "iterations specified"; case 10: return "target"; } return nullptr; }
static void check_msg(Ctx &t, const Snap &e) {
  t.ok("status_message"); const char *w = word(e.status); if (!w) { t.viol("status:unknown",fmt("status %d",e.status)); return; }
  if (e.msg.find(w) == std::string::npos) t.viol("status-message:meaning",fmt("status %d is reported as \"%s\"",e.status,e.msg.c_str())); bool err = e.msg.find("[Error]") != std::string::npos; if (err != (e.status < 0)) t.viol("status-message:severity",fmt("status %d is reported as \"%s\"",e.status,e.msg.c_str())); t.note(fmt("status_%d",e.status).c_str());
}
// runs that can only end in one way each, so that every status is seen with its message
static void ending(Ctx &t) {
  static const std::vector<int> all = {1,2,3,4,5,6,7,-13,-15}; Rng &r = t.rng; Gen g; g.gps = {0}; g.algos = {0,3,6,9}; g.dmax = 3; g.small_lambda = false; Cfg c = gen_cfg(r,g); int want = r.pick(all); c.max_iter = 3000; c.sigma = 0.5; c.lambda = r.i(6,12); if (want == -15 && c.dim == 1) c.dim = 2, c.x0.push_back(1); if (want == -15) c.algo = 6;
  for (int k : all) if (k != want) c.crit.push_back({k,false});
  std::function<double(const double*,int)> f; switch (want) { case 5: f = f_const; break; case -13: f = f_lin; break; case -15: f = [](const double *x, int n) { double s = 0; for (int i=0;i<n;i++) s += std::pow(1e18,i/double(n-1))*x[i]*x[i]; return s; }; break; case 6: f = f_hash; break; default: f = f_shiftq; }
  t.cfg(c); Mon m(c,f); m.rec.keep = false; m.go(); check_msg(t,m.res.s); if (m.res.s.status == want) t.note("forced_endings"); t.distinct(bits(m.res.s.sigma));
}
static void one(Ctx &t) { if (t.rng.p(0.08)) { ending(t); return; }
  Rng &r = t.rng; Gen g; g.dmax = 8; g.custom = true; Cfg c = gen_cfg(r,g); int n = c.dim; c.max_iter = iters(r,c,1,40); c.mode = r.i(0,3); if (c.mode == 2) c.algo -= restart_kind(c.algo); gen_features(r,c,0.1); if (r.p(0.1)) c.max_fevals = r.i(10,800); if (r.p(0.1) && !c.maximize) { c.has_ftarget = true; c.ftarget = r.lg(0.01,100); } if (r.p(0.2)) c.ftol = r.lg(1e-6,10);
  c.snap = S_ALL; t.cfg(c); const Obj &o = objs()[r.i(0,OBJ_ALL-1)]; Mon m(c,o.f); m.rec.keep = false; GPView v = make_gp(c); int mod = r.i(1,4); bool sep = is_sep_algo(c.algo), vd = is_vd_algo(c.algo); M prevC; bool havep = false; long k = 0; std::string what;
  auto look = [&](const Snap &s, bool last) {
    if (!s.xmean.size()) return; bool fin = s.xmean.allFinite() && s.full_cov.allFinite() && std::isfinite(s.sigma);
    if (!last && (k++ % mod) && s.niter > 2) { havep = false; return; }
    if (fin) {
      const M &F = s.full_cov; t.ok("shapes"); if (F.rows() != n || F.cols() != n) { t.viol("full-cov:shape",fmt("%ldx%ld",(long)F.rows(),(long)F.cols())); return; }
      V sd = F.diagonal().cwiseSqrt(), pm = v.pheno(s.xmean), ps = v.pheno(V(s.xmean+sd));
      t.ok("stds",n); if (s.stds.size() != n || s.errors.size() != n) { t.viol("stds:size",""); return; }
      for (int i=0;i<n;i++) { double w = std::fabs(ps(i)-pm(i)), sc = std::max(std::fabs(ps(i)),std::fabs(pm(i))); if (!(std::fabs(s.stds(i)-w) <= 1e-9*w+1e-9*sc)) t.viol("stds",fmt("coordinate %d: %.12g, expected %.12g",i,s.stds(i),w)); if (!near(s.errors(i),std::sqrt(s.sigma)*s.stds(i),1e-9,1e-300)) t.viol("errors",fmt("coordinate %d: %.12g, expected %.12g",i,s.errors(i),std::sqrt(s.sigma)*s.stds(i))); if (!(s.stds(i) >= 0)) t.viol("stds:negative",""); }
      t.ok("full_cov"); double fs = F.cwiseAbs().maxCoeff();
      if (!sep && !vd) { if (s.cov.rows() != n || !(F-s.cov).isZero(1e-12*fs)) t.viol("full-cov","differs from the covariance"); }
      else if (sep) { if (s.sepcov.rows() != n) t.viol("full-cov","no diagonal"); else for (int i=0;i<n;i++) for (int j=0;j<n;j++) if (!near(F(i,j),i==j ? s.sepcov(i,0) : 0,1e-12)) { t.viol("full-cov","is not the diagonal covariance"); i = n; break; } }
      else { V D = s.sepcov.col(0); M R(n,n); for (int i=0;i<n;i++) for (int j=0;j<n;j++) R(i,j) = F(i,j)/(D(i)*D(j))-(i==j); for (int i=0;i<n;i++) for (int j=0;j<n;j++) { double a = R(i,j)*R(i,j), b = R(i,i)*R(j,j); if (!(std::fabs(a-b) <= 1e-6*(std::fabs(a)+std::fabs(b))+1e-9*(1+R.cwiseAbs().maxCoeff()))) { t.viol("full-cov","does not have the form D(I+vv')D"); i = n; break; } if (R(i,i) < -1e-9) { t.viol("full-cov","does not have the form D(I+vv')D"); i = n; break; } } }
      t.ok("symmetric"); if (!(F-F.transpose()).isZero(1e-12*fs)) t.viol("full-cov:symmetry","");
      bool pos = true; for (int i=0;i<n;i++) pos = pos && F(i,i) > 1e-280;
      if (pos) { for (int i=0;i<n;i++) for (int j=0;j<n;j++) { double w = i == j ? 1 : F(i,j)/(sd(i)*sd(j)); t.ok("correlation"); double q = s.corrij[i][j], tol = 1e-9; if (!(std::fabs(q-w) <= tol)) { t.viol("corr(i,j)",fmt("corr(%d,%d)=%.12g, expected %.12g",i,j,q,w)); i = n; break; } if (!sep && s.corr.rows() == n && !(std::fabs(s.corr(i,j)-w) <= 1e-9)) { t.viol("corr",fmt("entry %d,%d is %.12g, expected %.12g",i,j,s.corr(i,j),w)); i = n; break; } if (!(std::fabs(q) <= 1+tol)) { t.viol("corr:range",fmt("%.12g",q)); i = n; break; } }
        if (!sep && (s.corr.rows() != n || s.corr.cols() != n)) t.viol("corr:shape",""); if (sep) { for (long i=0;i<s.corr.rows();i++) if (s.corr(i,i < s.corr.cols() ? i : 0) != 1) { t.viol("corr:diagonal",""); break; } } }
      // eigenvalues, as far as they have been computed
      if (s.eigval.size()) { t.ok("eigenvalues"); if (!near(s.maxeig,s.eigval.maxCoeff(),1e-12) || !near(s.mineig,s.eigval.minCoeff(),1e-12)) t.viol("eigenvalues:extremes",fmt("reported %.12g and %.12g, eigenvalues reach from %.12g to %.12g",s.mineig,s.maxeig,s.eigval.minCoeff(),s.eigval.maxCoeff()));
        if (!sep && !vd && s.eigvec.rows() == n && s.eigvec.cols() == n && havep && s.updated_eigen && prevC.rows() == n) { M E = s.eigvec*s.eigval.asDiagonal()*s.eigvec.transpose(); double ps2 = prevC.cwiseAbs().maxCoeff(); t.ok("decomposition"); if (!((E-prevC).cwiseAbs().maxCoeff() <= 1e-9*ps2)) t.viol("eigenvalues:decomposition","the eigenvalues and vectors are not those of the covariance that was sampled from"); if (!((s.eigvec.transpose()*s.eigvec-M::Identity(n,n)).cwiseAbs().maxCoeff() <= 1e-9)) t.viol("eigenvectors","are not orthonormal");
          if (s.csqinv.rows() == n && s.eigval.minCoeff() > 1e-9*s.eigval.maxCoeff()) { M I = s.csqinv*prevC*s.csqinv; t.ok("inverse_root"); if (!((I-M::Identity(n,n)).cwiseAbs().maxCoeff() <= 1e-5)) t.viol("csqinv","is not the inverse square root of the covariance"); } }
        if (sep && s.eigval.size() == n && s.niter > 0) { t.ok("sep_eigenvalues"); for (int i=0;i<n;i++) if (!near(s.eigval(i),s.sepcov(i,0),1e-12)) { if (c.fixed.empty()) t.viol("eigenvalues:sep",fmt("coordinate %d: %.12g, expected %.12g",i,s.eigval(i),s.sepcov(i,0))); break; } } }
      prevC = s.cov; havep = true;
      t.ok("phenotype_mean"); if (!same(s.pheno_mean,pm)) t.viol("phenotype-mean",""); if (s.best.x.size() && s.best.x.allFinite() && !same(s.pheno_best,v.pheno(s.best.x))) t.viol("phenotype-best","");
    }
    t.ok("accessors"); if (!s.accessors.empty()) t.viol("accessor:"+s.accessors,"two ways of reading the same value disagree");
    // printed
    for (int lv=0;lv<2;lv++) { const std::string &p = lv ? s.printed1 : s.printed; double a; t.ok("printed"); if (s.ncand == 0) continue;
      if (!num(p,"f-value=",a) || !printed_as(a,s.best.f)) t.viol("print:f-value",p); if (!num(p,"fevals=",a) || a != s.fevals) t.viol("print:fevals",p); if (!num(p,"sigma=",a) || !printed_as(a,s.sigma)) t.viol("print:sigma",p); if (!num(p,"iter=",a) || a != s.niter) t.viol("print:iter",p);
      size_t x = p.find("/ x="); if (x == std::string::npos) { t.viol("print:x",p); continue; } const char *q = p.c_str()+x+4; if (s.pheno_best.size() == n) for (int i=0;i<n;i++) { char *e; double b = strtod(q,&e); if (e == q || !printed_as(b,s.pheno_best(i))) { t.viol("print:x",p); break; } q = e; } if (lv && (p.find("covdiag=") == std::string::npos || p.find("psigma=") == std::string::npos || p.find("pc=") == std::string::npos)) t.viol("print:verbose",p); }
    t.distinct(hv_hash(s.stds));
  };
  m.user_progress = [&](const Snap &s) { if (s.niter == 0) havep = false; look(s,false); return 0; };
  m.go(); havep = false; if (c.mode != 0 || true) look(m.res.s,true);
  const Snap &e = m.res.s; check_msg(t,e); if (e.msg.empty()) t.viol("status-message:empty",fmt("status %d",e.status)); auto it = msgs().find(e.status); if (it == msgs().end()) { for (auto &q : msgs()) if (q.second == e.msg) t.viol("status-message:shared",fmt("status %d and %d: %s",e.status,q.first,e.msg.c_str())); msgs()[e.status] = e.msg; } else if (it->second != e.msg) t.viol("status-message:changed",fmt("status %d",e.status));
  t.sample(fmt("%s | %s",e.printed.c_str(),e.msg.c_str()));
}
HV_MAIN("C28",4000,150000,one)
