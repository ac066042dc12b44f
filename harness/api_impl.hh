#pragma once
#include "api.hh"
#include <libcmaes/cmaes.h>
#include <sstream>

namespace hv {
using namespace libcmaes;
typedef GenoPheno<NoBoundStrategy> GP0;
typedef GenoPheno<pwqBoundStrategy> GP1;
typedef GenoPheno<NoBoundStrategy,linScalingStrategy> GP2;
typedef GenoPheno<pwqBoundStrategy,linScalingStrategy> GP3;

struct WarmImpl : Warm { CMASolutions s; };

template<class GP> struct MkGP;
inline void custom_fns(const Cfg &c, TransFunc &g, TransFunc &p) {
  double ca = c.ca, cb = c.cb;
  p = [ca,cb](const double *a, double *b, const int &n){ for (int i=0;i<n;i++) b[i] = ca*a[i]+cb; };
  g = [ca,cb](const double *a, double *b, const int &n){ for (int i=0;i<n;i++) b[i] = (a[i]-cb)/ca; };
}
template<> struct MkGP<GP0> { static GP0 mk(const Cfg &c) {
  if (c.custom) { TransFunc g,p; custom_fns(c,g,p); return GP0(g,p); }
  return GP0(); } };
template<> struct MkGP<GP1> { static GP1 mk(const Cfg &c) {
  if (c.custom) { TransFunc g,p; custom_fns(c,g,p); return GP1(g,p,c.lb.data(),c.ub.data(),c.dim); }
  return GP1(c.lb.data(),c.ub.data(),c.dim); } };
template<class GP> struct MkLin { static GP mk(const Cfg &c, bool bounds) {
  if (!c.scal.empty()) {
    V s = Eigen::Map<const V>(c.scal.data(),c.scal.size()), sh = Eigen::Map<const V>(c.shift.data(),c.shift.size());
    return bounds ? GP(s,sh,c.lb.data(),c.ub.data()) : GP(s,sh);
  }
  if (c.custom) { TransFunc g,p; custom_fns(c,g,p); return GP(g,p,c.lb.data(),c.ub.data(),c.dim); }
  return GP(c.lb.data(),c.ub.data(),c.dim); } };
template<> struct MkGP<GP2> { static GP2 mk(const Cfg &c) { return MkLin<GP2>::mk(c,false); } };
template<> struct MkGP<GP3> { static GP3 mk(const Cfg &c) { return MkLin<GP3>::mk(c,true); } };

template<class GP> CMAParameters<GP> construct(const Cfg &c) {
  if (!c.vsigma.empty()) return CMAParameters<GP>(c.x0,c.vsigma,c.lambda,c.lb,c.ub,c.seed);
  return c.ctor == 1 ? CMAParameters<GP>(c.dim,c.x0.data(),c.sigma,c.lambda,c.seed,MkGP<GP>::mk(c)) : CMAParameters<GP>(c.x0,c.sigma,c.lambda,c.seed,MkGP<GP>::mk(c));
}
template<class GP> void apply(CMAParameters<GP> &p, const Op &o) {
  auto vec = [](const std::vector<double> &a) { return dVec(Eigen::Map<const V>(a.data(),a.size())); };
  switch (o.k) {
  case Op::QUIET: p.set_quiet(o.i); break; case Op::STR_ALGO: p.set_str_algo(o.s); break; case Op::ALGO: p.set_algo(o.i); break;
  case Op::SEP: p.set_sep(); break; case Op::VD: p.set_vd(); break; case Op::MAXIMIZE: p.set_maximize(o.i); break; case Op::MT: p.set_mt_feval(o.i); break;
  case Op::UH: p.set_uh(o.i); break; case Op::GRAD: p.set_gradient(o.i); break; case Op::EDM: p.set_edm(o.i); break; case Op::LAZY: p.set_lazy_update(o.i); break;
  case Op::INITFV: p.set_initial_fvalue(o.i); break; case Op::TPA: p.set_tpa(o.i); break; case Op::ELITISM: p.set_elitism(o.i); break;
  case Op::MAX_ITER: p.set_max_iter(o.i); break; case Op::MAX_FEVALS: p.set_max_fevals(o.i); break; case Op::RESTARTS: p.set_restarts(o.i); break;
  case Op::MAX_HIST: p.set_max_hist(o.i); break; case Op::FTARGET: p.set_ftarget(o.v); break; case Op::RESET_FTARGET: p.reset_ftarget(); break;
  case Op::FTOL: p.set_ftolerance(o.v); break; case Op::XTOL: p.set_xtolerance(o.v); break; case Op::FIX: p.set_fixed_p(o.i,o.v); break; case Op::UNFIX: p.unset_fixed_p(o.i); break;
  case Op::CRIT: p.set_stopping_criteria(o.i,o.v != 0); break; case Op::FPLOT: p.set_fplot(o.s); break; case Op::FULL_FPLOT: p.set_full_fplot(o.i); break;
  case Op::SEED: p.set_seed(o.i); break; case Op::X0_SCALAR: p.set_x0(o.v); break; case Op::X0_PTR: p.set_x0(o.a.data()); break; case Op::X0_VEC: p.set_x0(vec(o.a)); break;
  case Op::X0_SCALARS: p.set_x0(o.a[0],o.b[0]); break; case Op::X0_PTRS: p.set_x0(o.a.data(),o.b.data()); break; case Op::X0_STDS: p.set_x0(o.a,o.b); break; case Op::X0_VECS: p.set_x0(vec(o.a),vec(o.b)); break;
  case Op::NOISY: p.set_noisy(); break;
  case Op::COPY: { CMAParameters<GP> q(p); p = q; break; }
  }
}
template<class GP> PGet getters(CMAParameters<GP> &p) {
  PGet g; g.dim = p.dim(); g.lambda = p.lambda(); g.max_iter = p.get_max_iter(); g.max_fevals = p.get_max_fevals(); g.seed = p.get_seed(); g.algo = p.get_algo(); g.tpa = p.get_tpa(); g.restarts = p.get_restarts();
  g.quiet = p.quiet(); g.full_fplot = p.get_full_fplot(); g.grad = p.get_gradient(); g.edm = p.get_edm(); g.mt = p.get_mt_feval(); g.maximize = p.get_maximize(); g.uh = p.get_uh(); g.sep = p.is_sep(); g.vd = p.is_vd(); g.lazy = p.get_lazy_update();
  g.ftarget = p.get_ftarget(); g.ftol = p.get_ftolerance(); g.xtol = p.get_xtolerance(); g.sigma_init = p.get_sigma_init(); g.fplot = p.get_fplot(); g.x0min = p.get_x0min(); g.x0max = p.get_x0max(); return g;
}
template<class GP> std::vector<PGet> ptrace(const Cfg &c, int copy_at, PGet *copy) {
  CMAParameters<GP> p = construct<GP>(c); std::vector<PGet> r; r.push_back(getters(p)); std::unique_ptr<CMAParameters<GP>> q;
  for (size_t i=0;i<=c.ops.size();i++) { if ((int)i == copy_at) q.reset(new CMAParameters<GP>(p)); if (i < c.ops.size()) { apply(p,c.ops[i]); r.push_back(getters(p)); } }
  if (q && copy) *copy = getters(*q);
  return r;
}

template<class GP> CMAParameters<GP> mkparams(const Cfg &c) {
  CMAParameters<GP> p = construct<GP>(c);
  if (!c.x0max.empty()) p.set_x0(c.x0,c.x0max);
  p.set_quiet(c.quiet);
  if (c.noisy) p.set_noisy();
  if (c.str_algo) p.set_str_algo(algo_name(c.algo)); else p.set_algo(c.algo);
  if (c.mode != 0) { // the high-level call switches these on by itself
    if (is_sep_algo(c.algo) && !p.is_sep()) p.set_sep();
    if (is_vd_algo(c.algo) && !p.is_vd()) p.set_vd();
  }
  if (c.maximize) p.set_maximize(true);
  if (c.mt) p.set_mt_feval(true);
  if (c.uh) p.set_uh(true);
  if (c.grad) p.set_gradient(true);
  if (c.edm) p.set_edm(true);
  if (c.lazy) p.set_lazy_update(true);
  if (c.initfv) p.set_initial_fvalue(true);
  if (c.tpa >= 0) p.set_tpa(c.tpa);
  if (c.elitism >= 0) p.set_elitism(c.elitism);
  if (c.max_iter != -1) p.set_max_iter(c.max_iter);
  if (c.max_fevals != -1) p.set_max_fevals(c.max_fevals);
  if (c.restarts >= 0) p.set_restarts(c.restarts);
  if (c.max_hist >= 0) p.set_max_hist(c.max_hist);
  if (c.has_ftarget) p.set_ftarget(c.ftarget);
  if (c.ftol >= 0) p.set_ftolerance(c.ftol);
  if (c.xtol >= 0) p.set_xtolerance(c.xtol);
  for (auto &f : c.fixed) p.set_fixed_p(f.first,f.second);
  for (int i : c.unfixed) p.unset_fixed_p(i);
  for (auto &f : c.crit) p.set_stopping_criteria(f.first,f.second);
  if (!c.fplot.empty()) p.set_fplot(c.fplot);
  if (c.full_fplot) p.set_full_fplot(true);
  for (auto &o : c.ops) apply(p,o);
  return p;
}

inline Cand mkcand(const Candidate &c) { Cand r; r.x = c.get_x_dvec(); r.f = c.get_fvalue(); r.id = c.get_id(); return r; }

template<class GP> Snap mksnap(const CMAParameters<GP> &p, const CMASolutions &s, int what) {
  Snap r;
  r.niter = s.niter(); r.fevals = s.fevals(); r.nevals = s.nevals(); r.status = s.run_status();
  r.sigma = s.sigma(); r.edm = s.edm(); r.mineig = s.min_eigenv(); r.maxeig = s.max_eigenv();
  r.xmean = s.xmean(); r.ncand = s.size(); r.updated_eigen = s.updated_eigen();
  r.best = mkcand(s.best_candidate()); r.best_seen = mkcand(s.get_best_seen_candidate());
  r.worst_seen = mkcand(s.get_worst_seen_candidate());
  r.lambda = p.lambda(); r.dim = p.dim(); r.sep = p.is_sep(); r.vd = p.is_vd(); r.sigma_init = p.get_sigma_init();
  r.max_fevals = p.get_max_fevals(); r.max_iter = p.get_max_iter(); r.algo = p.get_algo();
  r.elapsed_last_iter = s.elapsed_last_iter();
  if (what & S_CAND) for (int i=0;i<s.size();i++) r.cand.push_back(mkcand(s.get_candidate(i)));
  if (what & S_MAT) {
    r.eigval = s.eigenvalues(); r.eigvec = s.eigenvectors(); r.cov = s.cov(); r.sepcov = s.sepcov();
    r.csqinv = s.csqinv(); r.sepcsqinv = s.sepcsqinv();
    if (s.cov_ref().size() || s.sepcov_ref().size()) r.full_cov = s.full_cov();
  }
  if (what & S_STATS) {
    r.msg = s.status_msg();
    r.stds = s.stds(p); r.errors = s.errors(p);
    if (s.cov_ref().size() || s.sepcov_ref().size()) {
      r.corr = s.corr();
      int n = p.dim();
      for (int i=0;i<n;i++) { r.corrij.emplace_back(); for (int j=0;j<n;j++) r.corrij.back().push_back(s.corr(i,j)); }
    }
    r.pheno_mean = p.get_gp().pheno(s.xmean());
    if (s.best_candidate().get_x_size()) r.pheno_best = s.best_candidate().get_x_pheno_dvec(p);
    std::ostringstream o; s.print(o,0,p.get_gp()); r.printed = o.str();
    std::ostringstream o1; s.print(o1,1,p.get_gp()); r.printed1 = o1.str();
    auto eq = [](const double *a, const double *b, long n) { for (long i=0;i<n;i++) if (!(a[i] == b[i]) && !(a[i] != a[i] && b[i] != b[i])) return false; return true; };
    const M co = s.cov(), sc = s.sepcov();
    if (s.cov_ref().size() != co.size() || !eq(s.cov_ref().data(),co.data(),co.size()) || !eq(s.cov_data(),co.data(),co.size())) r.accessors = "cov";
    if (s.sepcov_ref().size() != sc.size() || !eq(s.sepcov_ref().data(),sc.data(),sc.size()) || !eq(s.sepcov_data(),sc.data(),sc.size())) r.accessors = "sepcov";
    if (s.dim() != p.dim()) r.accessors = "dim"; if (s.fevals() != s.nevals()) r.accessors = "evaluations";
    for (int k=-1;k<s.size();k++) { const Candidate cd = k < 0 ? s.best_candidate() : s.get_candidate(k); const dVec x = cd.get_x_dvec(); const std::vector<double> sx = cd.get_x();
      if (cd.get_x_size() != (unsigned)x.size() || sx.size() != (size_t)x.size() || !eq(sx.data(),x.data(),x.size()) || !eq(cd.get_x_ptr(),x.data(),x.size())) r.accessors = "candidate";
      if (x.size() == p.dim()) { const dVec a = cd.get_x_pheno_dvec(p), b = p.get_gp().pheno(x); if (!eq(a.data(),b.data(),p.dim())) r.accessors = "phenotype"; } }
  }
  return r;
}

template<class STRAT, class GP> Result drive(const Cfg &c, const Hooks &h, FitFunc &f, CMAParameters<GP> &p) {
  typedef ESOptimizer<STRAT,CMAParameters<GP>,CMASolutions> OPT;
  ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP> &pp, const CMASolutions &ss) {
    return h.progress ? h.progress(mksnap(pp,ss,c.snap)) : 0; };
  GradFunc gf; if (h.grad) gf = [&](const double *x, const int n) { return dVec(h.grad(x,n)); };
  PlotFunc<CMAParameters<GP>,CMASolutions> plf = [&](const CMAParameters<GP> &pp, const CMASolutions &ss, std::ofstream &o) {
    if (h.plot) h.plot(mksnap(pp,ss,c.snap),o); return 0; };
  std::unique_ptr<OPT> op;
  if (h.warm) op.reset(new OPT(f,p,static_cast<const WarmImpl*>(h.warm)->s)); else op.reset(new OPT(f,p));
  OPT &o = *op;
  if (!h.default_progress) o.set_progress_func(pf);
  if (h.grad) o.set_gradient_func(gf);
  if (c.custom_plot) o.set_plot_func(plf);
  Result r;
  if (c.mode == 1) r.rc = o.optimize();
  else if (c.mode == 3) { // the optimizer's own steps handed to its general loop
    AskFunc af = [&]() { dMat cand = o.ask(); if (h.asked_state) h.asked_state(mksnap(o.get_parameters(),o.get_solutions(),c.snap),cand,false); return cand; };
    EvalFunc ef = [&](const dMat &cand, const dMat &ph) { if (h.asked) h.asked(cand,ph); o.eval(cand,ph); };
    TellFunc tf = [&]() { o.tell(); if (h.told) h.told(mksnap(o.get_parameters(),o.get_solutions(),c.snap)); };
    r.rc = static_cast<STRAT&>(o).optimize(ef,af,tf);
  } else {
    while (!o.stop()) {
      if (c.extra_asks && (c.extra_at < 0 || c.extra_at == o.get_solutions().niter()))
        for (int k=0;k<c.extra_asks;k++) { dMat e = o.ask(); if (h.asked_state) h.asked_state(mksnap(o.get_parameters(),o.get_solutions(),c.snap),e,true); }
      dMat cand = o.ask();
      if (h.asked_state) h.asked_state(mksnap(o.get_parameters(),o.get_solutions(),c.snap),cand,false);
      dMat ph = o.get_parameters().get_gp().pheno(cand);
      if (h.asked) h.asked(cand,ph);
      o.eval(cand,ph);
      o.tell();
      if (h.told) h.told(mksnap(o.get_parameters(),o.get_solutions(),c.snap));
      o.inc_iter();
    }
    r.rc = o.get_solutions().run_status() < 0 ? -1 : 0;
  }
  r.s = mksnap(o.get_parameters(),o.get_solutions(),S_ALL);
  auto w = std::make_shared<WarmImpl>(); w->s = o.get_solutions(); r.sol = w;
  return r;
}

template<class GP> Result run_gp(const Cfg &c, const Hooks &h) {
  FitFunc f = [&](const double *x, const int &n) { return h.f(x,n); };
  CMAParameters<GP> p = mkparams<GP>(c);
  if (c.mode == 0) {
    ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP> &pp, const CMASolutions &ss) {
      return h.progress ? h.progress(mksnap(pp,ss,c.snap)) : 0; };
    GradFunc gf = nullptr; if (h.grad) gf = [&](const double *x, const int n) { return dVec(h.grad(x,n)); };
    PlotFunc<CMAParameters<GP>,CMASolutions> plf = CMAStrategy<CovarianceUpdate,GP>::_defaultFPFunc;
    if (c.custom_plot) plf = [&](const CMAParameters<GP> &pp, const CMASolutions &ss, std::ofstream &o) {
      if (h.plot) h.plot(mksnap(pp,ss,c.snap),o); return 0; };
    if (h.default_progress) pf = CMAStrategy<CovarianceUpdate,GP>::_defaultPFunc;
    CMASolutions s = cmaes<GP>(f,p,pf,gf,h.warm ? static_cast<const WarmImpl*>(h.warm)->s : CMASolutions(),plf);
    Result r;
    r.s = mksnap(p,s,S_ALL);
    auto w = std::make_shared<WarmImpl>(); w->s = s; r.sol = w;
    return r;
  }
  typedef CMAParameters<GP> P;
  switch (c.algo) {
  case 0: case 6:  return drive<CMAStrategy<CovarianceUpdate,GP>,GP>(c,h,f,p);
  case 1: case 7:  return drive<IPOPCMAStrategy<CovarianceUpdate,GP>,GP>(c,h,f,p);
  case 2: case 8:  return drive<BIPOPCMAStrategy<CovarianceUpdate,GP>,GP>(c,h,f,p);
  case 3: case 9:  return drive<CMAStrategy<ACovarianceUpdate,GP>,GP>(c,h,f,p);
  case 4: case 10: return drive<IPOPCMAStrategy<ACovarianceUpdate,GP>,GP>(c,h,f,p);
  case 5: case 11: return drive<BIPOPCMAStrategy<ACovarianceUpdate,GP>,GP>(c,h,f,p);
  case 12: return drive<CMAStrategy<VDCMAUpdate,GP>,GP>(c,h,f,p);
  case 13: return drive<IPOPCMAStrategy<VDCMAUpdate,GP>,GP>(c,h,f,p);
  default: return drive<BIPOPCMAStrategy<VDCMAUpdate,GP>,GP>(c,h,f,p);
  }
}

template<class GP> GPView gpview(const Cfg &c) {
  auto g = std::make_shared<GP>(MkGP<GP>::mk(c));
  GPView v;
  v.pheno = [g](const V &x){ return V(g->pheno(dVec(x))); };
  v.geno = [g](const V &x){ return V(g->geno(dVec(x))); };
  v.phenoM = [g](const M &x){ return M(g->pheno(dMat(x))); };
  v.genoM = [g](const M &x){ return M(g->geno(dMat(x))); };
  return v;
}
}
