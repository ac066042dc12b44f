// C25: surrogate-assisted strategies: which points are truly evaluated, what the surrogate is trained
// on, what its predictions are used for, and how its error and life length are reported.
#include "shadow.hh"
#include "api_impl.hh"
#include <libcmaes/surrcmaes.h>
using namespace hv;
struct Ev { char k; V x; double v = 0; std::vector<Cand> set; M cov; Snap s; double terr = 0, trerr = 0; int ns = 0; };
typedef std::vector<Cand> Set;
static bool samept(const V &a, const V &b) { return a.size() == b.size() && (a.array() == b.array()).all(); }
// fraction of pairs the predictions order the other way; -1 when ties leave it open
static double discord(const Set &s, const std::function<double(const V&)> &pred) {
  long bad = 0, n = s.size(); std::vector<double> p; for (auto &c : s) p.push_back(pred(c.x));
  for (int i=0;i<n;i++) for (int j=i+1;j<n;j++) { if (s[i].f == s[j].f || p[i] == p[j]) return -1; bad += (s[i].f < s[j].f) != (p[i] < p[j]); }
  return n < 2 ? 0 : 2.0*bad/(double)(n*(n-1)); }
struct Opt { bool acm, rsvm, exploit, loop; int l, ns, lp, pl; };

template<class S, class GP> struct Acc { // what only one of the strategies has
  template<class O> static auto lp(O &o, const Opt &q, int) -> decltype(o.set_lambdaprime(1),void()) { if (q.lp > 0) o.set_lambdaprime(q.lp); if (q.pl > 0) o.set_prelambda(q.pl); }
  template<class O> static void lp(O &, const Opt &, long) {}
};
template<class STR, class GP> static void drv(Ctx &t, Cfg &c, const Opt &q0, const Obj &ob, int pk) {
  Opt q = q0; Rng &r = t.rng; int n = c.dim; std::vector<Ev> ev; long ncalls = 0;
  GPView gp = make_gp(c); long version = 0; bool untrained = false;
  FitFunc f = [&](const double *x, const int &k) { if (++ncalls > 200000) runaway(ncalls); Ev e; e.k = 'O'; e.x = Eigen::Map<const V>(x,k); e.v = ob.f(x,k); ev.push_back(e); return e.v; };
  double salt = r.u();
  auto pred = [&](const V &x) { V y = gp.pheno(x); double v = ob.f(y.data(),n); double hn = f_hash(x.data(),n)-0.5;
    switch (pk) { case 0: return v; case 1: return std::atan(v*0.01); case 2: return v*(1+0.6*hn)+salt*hn; case 3: return -v; case 4: return hn; default: return v+hn*1e-3; } };
  CMAParameters<GP> p = mkparams<GP>(c);
  typedef ESOptimizer<STR,CMAParameters<GP>,CMASolutions> OPT;
  OPT o(f,p);
  t.ok("default_training_size"); if (o.get_l() != (int)std::floor(30*std::sqrt((double)n))) t.viol("default-l",fmt("default training set size %d in dimension %d",o.get_l(),n));
  o.set_l(q.l); o.set_exploit(q.exploit); Acc<STR,GP>::lp(o,q,0); if (!q.acm) o.set_nsteps(q.ns);
  t.ok("settings_kept"); if (o.get_l() != q.l || o.get_exploit() != q.exploit) t.viol("setting","training set size or exploit flag not kept");
  if (!q.rsvm) {
    CSurrFunc tr = [&](const std::vector<Candidate> &cs, const dMat &cov) { Ev e; e.k = 'T'; for (auto &x : cs) e.set.push_back(mkcand(x)); e.cov = cov; ev.push_back(e); version++; return 0; };
    SurrFunc pr = [&](std::vector<Candidate> &cs, const dMat &cov) { Ev e; e.k = 'P'; for (auto &x : cs) { e.set.push_back(mkcand(x)); } e.cov = cov; ev.push_back(e); if (!version) untrained = true; for (auto &x : cs) x.set_fvalue(pred(x.get_x_dvec())); return 0; };
    o.set_ftrain(tr); o.set_fpredict(pr);
  }
  ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP> &pp, const CMASolutions &ss) { Ev e; e.k = 'N'; e.s = mksnap(pp,ss,S_BASIC|S_CAND|S_MAT); e.terr = o.get_test_error(); e.trerr = o.get_train_error(); e.ns = o.get_nsteps(); ev.push_back(e); return 0; };
  o.set_progress_func(pf);
  if (q.loop) { while (!o.stop()) { dMat cand = o.ask(); dMat ph = o.get_parameters().get_gp().pheno(cand); o.eval(cand,ph); o.tell(); o.inc_iter(); } } else o.optimize();
  Snap fin = mksnap(o.get_parameters(),o.get_solutions(),S_BASIC);
  // ---- offline monitor over the recorded events
  const char *nm = q.rsvm ? "rsvm" : q.acm ? "acm" : "simple";
  Set T; double smooth = 0.5; int ns = q.acm ? 1 : q.ns; bool autons = !q.acm && q.ns < 0, trained = false; long gens = 0, surr = 0; bool lasttrue = true, reached = false; long fits = 0; double fite = 0; bool ftoff = false; for (auto &x : c.crit) if (x.first == FTARGET) ftoff = !x.second;
  if (untrained) t.viol("predict-untrained","predictions were asked before any training");
  size_t i = 0; int prev = -1; bool ended = false;
  while (i < ev.size()) {
    std::vector<Ev*> O, P, R; size_t j = i; while (j < ev.size() && ev[j].k != 'N') { Ev &e = ev[j]; (e.k == 'O' ? O : e.k == 'P' ? P : R).push_back(&e); j++; }
    if (j == ev.size()) { if (!O.empty()) t.viol("late-evaluation",fmt("%zu evaluations after the last notification",O.size())); break; }
    Ev &N = ev[j]; int cur = j;
    if (prev < 0 || N.s.niter == 0) { if (!O.empty()) { t.viol("early-evaluation",fmt("%zu evaluations outside of a generation",O.size())); return; } if (q.acm) { if (prev >= 0 && !T.empty()) q.pl = 50*N.s.lambda; T.clear(); smooth = 0.5; } ended = false; prev = cur; i = j+1; continue; }
    if (ended) { t.viol("target-ignored","the run went on although the target was reached by a true evaluation"); return; }
    Snap &a = ev[prev].s, &b = N.s; int g = a.niter, lam = a.lambda; gens++;
    if (is_vd_algo(c.algo)) { double big = 0; for (auto &x : b.cand) for (int k=0;k<n;k++) if (!(std::fabs(x.x(k)) < big)) big = std::fabs(x.x(k)); if (!(big < 1e15)) { t.note("diverged_vd_runs"); return; } } // VD runs may blow up on odd predictions
    auto bad = [&](const char *k, const std::string &d) { t.viol(std::string(nm)+":"+k,fmt("generation %d, training set %zu of %d, nsteps %d: ",g,T.size(),q.l,ns)+d); };
    bool full = (int)T.size() >= q.l, pre = q.acm && q.exploit && full;
    bool truegen = q.acm ? !pre : (!q.exploit || g % ns == 0 || !full);
    t.ok("candidates"); if ((int)b.cand.size() != lam || b.lambda != lam) { bad("population",fmt("%zu candidates instead of %d",b.cand.size(),lam)); return; }
    for (int k=1;k<lam;k++) if (!(b.cand[k-1].f <= b.cand[k].f)) { bad("unsorted",fmt("candidate %d (%.17g) before %.17g",k-1,b.cand[k-1].f,b.cand[k].f)); return; }
    size_t want = truegen ? lam : pre ? std::max(1,std::min(q.lp,lam)) : 0;
    t.ok("evaluation_count"); if (O.size() != want) { bad("evaluations",fmt("%zu true evaluations instead of %zu",O.size(),want)); return; }
    t.ok("evaluations_reported"); if (b.fevals-a.fevals != (int)want) { bad("fevals",fmt("count grew by %d for %zu evaluations",b.fevals-a.fevals,want)); return; }
    // every true value belongs to its point, every evaluated point is a candidate
    std::vector<V> ph; for (auto &x : b.cand) ph.push_back(gp.pheno(x.x));
    std::vector<int> who(O.size(),-1); std::vector<bool> is(lam,false);
    for (size_t e=0;e<O.size();e++) { for (int k=0;k<lam && who[e]<0;k++) if (!is[k] && samept(ph[k],O[e]->x) && b.cand[k].f == O[e]->v) { who[e] = k; is[k] = true; } t.ok("true_values"); if (who[e] < 0) { bad("value",fmt("evaluation %zu of %.17g is not among the candidates",e,O[e]->v)); return; } }
    Set S; for (size_t e=0;e<O.size();e++) S.push_back(b.cand[who[e]]);
    // the update used the candidates in this order
    { Par w = mkpar(n,lam,c.algo,c.tpa,0); V m = V::Zero(n); for (int k=0;k<w.mu;k++) m += w.w(k)*b.cand[k].x; double sc = a.xmean.cwiseAbs().maxCoeff()+a.sigma; for (auto &x : b.cand) sc = std::max(sc,x.x.cwiseAbs().maxCoeff()); t.ok("mean"); if (!((m-b.xmean).cwiseAbs().maxCoeff() <= 1e-9*sc)) { bad("mean",fmt("the mean is off the weighted best candidates by %g",(m-b.xmean).cwiseAbs().maxCoeff())); return; } }
    if (truegen) { t.note("true_generations"); 
      if (full && g != 0 && !q.rsvm) { double d = discord(S,pred); t.ok("test_error"); if (d >= 0 && !near(d,N.terr,1e-9,1)) bad("test-error",fmt("reported %.9g, measured on the new points %.9g",N.terr,d)); }
    } else if (pre) { surr++; t.note("preselected_generations");
      if (!q.rsvm) {
        if (P.empty() || (int)P[0]->set.size() != q.pl) { bad("preselection",fmt("predictions for %zu points instead of %d",P.empty()?(size_t)0:P[0]->set.size(),q.pl)); return; }
        Set &big = P[0]->set; std::vector<double> pv; for (auto &x : big) pv.push_back(pred(x.x)); int bi = std::min_element(pv.begin(),pv.end())-pv.begin();
        t.ok("best_predicted_evaluated"); if (pv[bi] < pred(b.cand[who[0]].x)) { bad("best-predicted",fmt("the first evaluation has prediction %.17g, the best predicted %.17g",pred(b.cand[who[0]].x),pv[bi])); return; }
        std::vector<bool> used(big.size(),false); double lastp = -INFINITY;
        for (int k=0;k<lam;k++) { int m = -1; for (size_t z=0;z<big.size();z++) if (!used[z] && samept(big[z].x,b.cand[k].x)) { m = z; break; } t.ok("retained_once"); if (m < 0) { bad("retained",fmt("candidate %d is not a prescreened point of its own",k)); return; } used[m] = true;
          if (!is[k]) { t.ok("unevaluated_last"); if (b.cand[k].f != std::numeric_limits<double>::max()) { bad("unevaluated-value",fmt("candidate %d was not evaluated but has value %.17g",k,b.cand[k].f)); return; } if (!(pv[m] >= lastp)) { bad("unevaluated-order",fmt("candidate %d predicted %.17g after %.17g",k,pv[m],lastp)); return; } lastp = pv[m]; } }
        // prescreened points come from the current distribution: far beyond any plausible sample is wrong
        for (auto &x : P[0]->set) if (!(x.x.size() == n)) { bad("preselection","dimension"); return; }
        double d = discord(S,pred); t.ok("test_error"); if (d >= 0 && !near(d,N.terr,1e-9,1)) bad("test-error",fmt("reported %.9g, measured %.9g",N.terr,d));
        t.ok("prediction_covariance"); if (P[0]->cov.rows() != n || P[0]->cov.cols() != (b.sep||b.vd ? 1 : n)) bad("covariance",fmt("prediction with a %dx%d matrix",(int)P[0]->cov.rows(),(int)P[0]->cov.cols()));
      }
    } else { surr++; t.note("surrogate_generations");
      for (auto &x : b.cand) { t.ok("predicted_values"); if (x.f != pred(x.x)) { bad("predicted-value",fmt("a candidate has value %.17g, its prediction is %.17g",x.f,pred(x.x))); return; } }
      double spread = 0; for (int k=1;k<lam;k++) spread = std::max(spread,(b.cand[k].x-b.cand[0].x).cwiseAbs().maxCoeff()); // rounding repeats points once the run has converged
      if (spread > 1e-8*(1+b.cand[0].x.cwiseAbs().maxCoeff())) for (int k=1;k<lam;k++) if (samept(b.cand[k].x,b.cand[0].x)) { bad("stale-points","repeated candidate"); return; }
      if (P.empty() || P.back()->cov.rows() != n || P.back()->cov.cols() != (b.sep||b.vd ? 1 : n)) bad("covariance","prediction with a wrong matrix");
    }
    if (full && g != 0 && (truegen || pre)) { smooth = 0.8*smooth+0.2*N.terr; if (autons) { double u = (0.45-smooth)/0.45*20; int w = std::max(1,(int)std::floor(u))+1; t.ok("life_length"); if (N.ns != w && !(std::fabs(u-std::round(u)) < 1e-9)) { bad("life-length",fmt("%d instead of %d for the smoothed error %.9g",N.ns,w,smooth)); return; } ns = N.ns; } }
    else { t.ok("errors_kept"); if (prev >= 0 && ev[prev].s.niter == g && ev[prev].terr != N.terr && g != 0) bad("test-error-changed",fmt("%g became %g without a test",ev[prev].terr,N.terr)); }
    for (auto &x : S) { T.push_back(x); if ((int)T.size() > q.l) T.erase(T.begin()); }
    bool dotrain = (int)T.size() >= q.l && (q.acm || !q.exploit || g % ns == 0 || !trained);
    if (!q.rsvm) {
      t.ok("training_times"); if (R.size() != (size_t)dotrain) { bad("training",fmt("%zu trainings instead of %d",R.size(),(int)dotrain)); return; }
      if (dotrain) { t.ok("training_set"); Ev &e = *R[0]; bool okk = e.set.size() == T.size(); 
        if (okk) { std::vector<bool> u(T.size(),false); for (auto &x : e.set) { bool fnd = false; for (size_t z=0;z<T.size() && !fnd;z++) if (!u[z] && T[z].f == x.f && (samept(T[z].x,x.x) || samept(gp.pheno(T[z].x),gp.pheno(x.x)))) { u[z] = true; fnd = true; } okk = okk && fnd; } }
        if (!okk) { bad("training-set",fmt("%zu points, not the last %zu true evaluations",e.set.size(),T.size())); return; }
        t.ok("training_covariance"); const M &ref = (b.sep||b.vd) ? b.sepcsqinv : b.csqinv; if (e.cov.rows() != ref.rows() || e.cov.cols() != ref.cols() || !(e.cov.array() == ref.array()).all() || e.cov.rows() != n) bad("training-covariance",fmt("a %dx%d matrix that is not the current inverse root of the covariance",(int)e.cov.rows(),(int)e.cov.cols()));
        if (q.acm) { double d = discord(e.set,pred); t.ok("train_error"); if (d >= 0 && !near(d,N.trerr,1e-9,1)) bad("train-error",fmt("reported %.9g, measured %.9g",N.trerr,d)); } }
    } else if (dotrain) { t.ok("rsvm_train_error"); if (!(N.trerr >= 0 && N.trerr <= 1) || !(N.terr >= 0 && N.terr <= 1)) bad("rsvm-error",fmt("errors %g and %g",N.trerr,N.terr)); if (pk == 0 && ob.name == "sphere") { fits++; fite += N.trerr; } }
    trained = trained || dotrain; lasttrue = truegen || pre;
    if (c.has_ftarget && lasttrue && b.cand[0].f <= c.ftarget) reached = true;
    if (c.has_ftarget && !ftoff && lasttrue && b.cand[0].f <= c.ftarget) ended = true;
    t.distinct(bits(b.sigma)^mix(b.niter*8+(truegen?0:pre?1:2)));
    if (g < 0) return; prev = cur; i = j+1;
  }
  if (fin.status == FTARGET) { t.ok("target_stop"); if (ftoff) t.viol("target-switched-on","ended by the target criterion that the user switched off"); else if (restart_kind(c.algo) == 0 ? !lasttrue : !reached) /* of several runs, any may be the one returned */ t.viol("target-on-prediction","ended by the target criterion on predicted values"); else if (!(fin.best.f <= c.ftarget)) t.viol("target","ended by the target criterion above the target"); }
  if (fits >= 8) { t.ok("rsvm_fit"); if (!(fite/fits < 0.25)) t.viol("rsvm-fit",fmt("spheres are misordered for %.3g of the training pairs on average over %ld trainings",fite/fits,fits)); }
  if (restart_kind(c.algo) == 0) { t.ok("disabled_criteria"); if (fin.status == STAGNATION || (!q.acm && fin.status == AUTOMAXITER)) t.viol("disabled-criterion",fmt("ended with status %d",fin.status)); }
  t.note("generations",gens); t.note(nm); if (q.rsvm && surr) t.note("rsvm_used");
  // with the surrogate only observed, the search is the plain one
  if (!q.exploit && restart_kind(c.algo) != 2 && ob.name != "step" && ob.name != "const" && !q.rsvm) {
    std::vector<Ev> e1; e1.swap(ev); Cfg c2 = c; c2.mode = 1; Mon m(c2,ob.f); m.go(); std::vector<const Ev*> O; for (auto &e : e1) if (e.k == 'O') O.push_back(&e);
    t.ok("plain_twin"); size_t k = std::min(O.size(),m.rec.calls.size()); if (O.size() < m.rec.calls.size()) t.viol("twin-shorter",fmt("%zu evaluations, the plain strategy makes %zu",O.size(),m.rec.calls.size()));
    if (restart_kind(c.algo) == 0) for (size_t z=0;z<k;z++) { bool s = true; for (int d=0;d<n;d++) s = s && O[z]->x(d) == m.rec.calls[z].x[d]; if (!s) { t.viol("twin-differs",fmt("evaluation %zu of %zu differs from the plain strategy",z,k)); break; } } }
  t.sample(c.str()+fmt(" %s exploit=%d l=%d nsteps=%d generations=%ld surrogate generations=%ld calls=%ld",nm,q.exploit,q.l,q.ns,gens,surr,ncalls));
}
template<template<class,class> class ST, class U, class GP> static void pick(Ctx &t, Cfg &c, const Opt &q, const Obj &o, int pk) {
  if (q.acm) drv<ACMSurrogateStrategy<ST,U,GP>,GP>(t,c,q,o,pk); else drv<SimpleSurrogateStrategy<ST,U,GP>,GP>(t,c,q,o,pk); }
static void one(Ctx &t) {
  Rng &r = t.rng; Gen g; g.dmax = 6; g.gps = {0,0,1}; g.algos = {0,0,3,6,9,12,12,1,2}; g.custom = true;
  Cfg c = gen_cfg(r,g); if (restart_kind(c.algo)) { c.gp = 0; c.lb.clear(); c.ub.clear(); c.custom = r.p(0.2); for (auto &x : c.x0) x = r.u(-3,3); }
  int dl = 4+(int)std::floor(3*std::log((double)c.dim)); c.lambda = r.p(0.4) ? -1 : r.i(4,24); int lam = c.lambda < 0 ? dl : c.lambda; if (lam < 2) return;
  Opt q; q.acm = r.p(0.5); q.rsvm = false; q.exploit = r.p(0.75); q.loop = r.p(0.3) && restart_kind(c.algo) == 0; q.l = r.p(0.3) ? r.i(lam,2*lam) : r.i(lam/2+1,5*lam); q.ns = r.p(0.25) ? -1 : r.i(1,5); q.lp = r.p(0.4) ? -1 : r.i(1,lam); q.pl = r.p(0.4) ? -1 : r.i(3*lam,20*lam);
  c.mode = 1; c.max_iter = r.i(8,60); c.restarts = 2; if (r.p(0.2) && restart_kind(c.algo) == 0) c.max_iter = r.i(100,250);
  int oi = r.i(0,OBJ_ALL-1), pk = r.i(0,5); const Obj &o = objs()[oi];
  if (r.p(0.4)) { c.has_ftarget = true; V x = Eigen::Map<V>(c.x0.data(),c.dim); c.ftarget = o.f(x.data(),c.dim)-r.lg(1e-2,50); if (r.p(0.25)) c.crit.push_back({FTARGET,false}); }
  if (q.acm && r.p(0.12) && c.gp == 0 && (c.algo == 0 || c.algo == 6)) { q.rsvm = true; q.exploit = true; q.lp = -1; q.pl = -1; q.l = r.i(2*lam,4*lam); c.max_iter = r.i(15,40); if (r.p(0.5)) { pk = 0; oi = 0; } }
  const Obj &ob = objs()[oi];
  if (q.acm) { // defaults
    if (q.lp < 0) q.lp = -lam/3; if (q.pl < 0) q.pl = -50*lam; }
  t.cfg(c); Opt z = q; if (q.acm) { z.lp = std::abs(q.lp); z.pl = std::abs(q.pl); }
  if (q.rsvm) { drv<RSVMSurrogateStrategy<CMAStrategy,CovarianceUpdate,GP0>,GP0>(t,c,z,ob,pk); return; }
  if (c.algo == 1) { pick<IPOPCMAStrategy,CovarianceUpdate,GP0>(t,c,z,ob,pk); return; }
  if (c.algo == 2) { pick<BIPOPCMAStrategy,CovarianceUpdate,GP0>(t,c,z,ob,pk); return; }
  if (c.gp == 0) { if (c.algo == 0 || c.algo == 6) pick<CMAStrategy,CovarianceUpdate,GP0>(t,c,z,ob,pk); else if (c.algo == 12) pick<CMAStrategy,VDCMAUpdate,GP0>(t,c,z,ob,pk); else pick<CMAStrategy,ACovarianceUpdate,GP0>(t,c,z,ob,pk); }
  else { if (c.algo == 0 || c.algo == 6) pick<CMAStrategy,CovarianceUpdate,GP1>(t,c,z,ob,pk); else if (c.algo == 12) pick<CMAStrategy,VDCMAUpdate,GP1>(t,c,z,ob,pk); else pick<CMAStrategy,ACovarianceUpdate,GP1>(t,c,z,ob,pk); }
}
HV_MAIN("C25",1600,60000,one)
