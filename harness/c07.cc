// C07: the reported termination status is true, no active criterion is missed, switched-off ones never act.
#include "shadow.hh"
using namespace hv;
enum { CONDITIONCOV=-15, TOLUPSIGMA=-13, TOLHISTFUN=1, TOLX=2, NOEFFECTAXIS=3, NOEFFECTCOOR=4, EQUALFUNVALS=5, STAGNATION=6, AUTOMAXITER=7, MAXFEVALS=8, MAXITER=9, FTARGET=10 };
static const int ALL[] = {CONDITIONCOV,TOLUPSIGMA,TOLHISTFUN,TOLX,NOEFFECTAXIS,NOEFFECTCOOR,EQUALFUNVALS,STAGNATION,AUTOMAXITER,MAXFEVALS,MAXITER,FTARGET};
static std::map<int,std::string> msgs;
static double med(std::vector<double> v) { std::sort(v.begin(),v.end()); size_t n=v.size(); return n%2 ? v[n/2] : (v[n/2-1]+v[n/2])/2; }

struct Hist { std::vector<double> best, kbest, bf, medians; std::unique_ptr<Shadow> sh; }; // sh: own copy of the evolution paths, while comparable
// 1 true, 0 false, -1 undecided from public state
static int truth(int k, const Cfg &c, const Snap &s, const Hist &H) {
  int maxhist = c.max_hist > 0 ? c.max_hist : (int)(10+std::ceil((double)(30*s.dim/s.lambda)));
  switch (k) {
  case MAXFEVALS: return c.max_fevals != -1 && s.fevals >= c.max_fevals;
  case MAXITER: return c.max_iter != -1 && s.niter >= c.max_iter;
  case FTARGET: if (s.best.f == -std::numeric_limits<double>::infinity()) return -1; return c.has_ftarget && s.best.f <= c.ftarget;
  case AUTOMAXITER: { double th = 100.0+50*std::pow(s.dim+3,2)/std::sqrt((double)s.lambda); if (s.vd && s.dim<10) th *= 1000; if (std::fabs(s.niter-th)<1e-6) return -1; return s.niter >= th; }
  case CONDITIONCOV: { double kp = s.maxeig/s.mineig; if (std::fabs(kp-1e14)<1e6) return -1; return kp > 1e14; }
  case TOLUPSIGMA: { double f = s.sigma/s.sigma_init, rhs = 1e20*std::sqrt(s.maxeig); if (near(f,rhs,1e-9)) return -1; return f > rhs; }
  case TOLHISTFUN: {
    int th = std::min(maxhist,(int)(10+std::ceil((double)(30*s.dim/s.lambda))));
    if ((int)H.best.size() < th) return 0;
    double lo=1e308, hi=-1e308; for (int i=0;i<th;i++) { double v = H.best[H.best.size()-1-i]; lo=std::min(lo,v); hi=std::max(hi,v); }
    return std::fabs(hi-lo) < std::max(c.ftol>=0?c.ftol:1e-12,1e-12); }
  case EQUALFUNVALS: { int hs = H.best.size(), hl = std::min(s.dim,hs); if (hl < maxhist) return 0; int q=0; for (int i=0;i<hl;i++) q += H.best[hs-1-i]==H.kbest[hs-1-i]; return q > hl/3.0; }
  case STAGNATION: { if (H.bf.size()<20 || H.medians.size()<20) return 0; double nb = med(H.bf), om = med(std::vector<double>(H.medians.begin(),H.medians.begin()+20)); if (nb!=om && near(nb,om,1e-14)) return -1; return nb >= om; }
  case NOEFFECTCOOR: { double fa = 0.2*s.sigma; for (int i=0;i<s.dim;i++) { double v = (!s.sep&&!s.vd) ? s.cov(i,i) : s.sepcov(i,0); if (s.xmean(i) != s.xmean(i)+fa*std::sqrt(v)) return 0; } return 1; }
  case TOLX: { double tol = std::max(c.xtol>=0?c.xtol:1e-12,1e-12), fa = s.sigma/s.sigma_init; int res = 1;
    for (int i=0;i<s.dim;i++) { double v = (!s.sep&&!s.vd) ? s.cov(i,i) : s.sepcov(i,0); if (std::sqrt(v)*fa >= tol*(1+1e-9)) return 0; if (std::sqrt(v)*fa >= tol*(1-1e-9)) res = -1; }
    if (!H.sh) return -1;
    for (int i=0;i<s.dim;i++) { double q = std::fabs(H.sh->pc(i))*fa; if (q >= tol*(1+1e-4)) return 0; if (q >= tol*(1-1e-4)) res = -1; }
    return res; }
  case NOEFFECTAXIS: 
    for (int i=0;i<s.dim;i++) { double e = 0.1*s.sigma*std::sqrt(s.eigval(i));
      if (s.sep || s.vd) { if (s.xmean(i) != s.xmean(i)+e) return 0; }
      else for (int j=0;j<s.dim;j++) if (s.xmean(j) != s.xmean(j)+e*s.eigvec(j,i)) return 0; }
    return 1;
  }
  return -1;
}
static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.dmax = 6; g.algos = {0,3,6,9,12};
  bool eq = r.p(0.08); if (eq || r.p(0.05)) { g.dmax = 25; g.dmin = 12; }
  int big = !eq && r.p(0.06) ? r.i(1,2) : 0; if (big) { g.dmin = 20; g.dmax = 50; if (big == 2) { g.dmax = 26; g.algos = {6,9}; } } // 1: small components of path and covariance, 2: condition number, in larger dimensions
  Cfg c = gen_cfg(r,g);
  c.mode = r.pick(std::vector<int>{0,1,1,2});
  if (r.p(0.1)) c.elitism = r.i(1,2);
  if (r.p(0.1)) c.lazy = true;
  if (r.p(0.1)) c.tpa = 2;
  c.restarts = -1;
  if (r.p(0.15)) c.maximize = true;
  if (r.p(0.3)) c.ftol = r.p(0.3) ? 0 : r.lg(1e-14,1e-2);
  if (r.p(0.3)) c.xtol = r.lg(1e-14,1e-1);
  if (r.p(0.2)) c.max_hist = r.i(1,60);
  int oi = r.i(0,OBJ_ALL-1);
  if (eq) { c.max_hist = r.i(1,c.dim+1); c.max_iter = 60; if (r.p(0.7)) oi = r.p(0.5) ? 10 : 12; }
  if (r.p(0.3)) c.max_fevals = r.i(1,4000);
  if (!eq && r.p(0.5)) c.max_iter = r.p(0.1) ? r.i(0,3) : r.i(1,500);
  if (!c.maximize && r.p(0.25)) { c.has_ftarget = true; c.ftarget = r.p(0.5) ? r.lg(1e-10,100) : r.u(-1100,20); if (r.p(0.15)) c.ftarget = r.p(0.2) ? 0.0 : (r.p(0.5) ? 1 : -1)*r.lg(100,1e300); }
  // switch criteria off (and sometimes on again)
  std::map<int,bool> act; for (int k : ALL) act[k] = true;
  double q = r.pick(std::vector<double>{0,0,0.15,0.5,0.85});
  for (int k : ALL) if (r.p(q)) { bool a = r.p(0.1); c.crit.push_back({k,a}); act[k] = a; if (r.p(0.2)) { a = !a; c.crit.push_back({k,a}); act[k] = a; } }
  if (eq) { c.crit.clear(); for (int k : ALL) { act[k] = true; if ((k == TOLHISTFUN || k == STAGNATION) && r.p(0.6)) { c.crit.push_back({k,false}); act[k] = false; } } }
  if (big) { c.crit.clear(); for (int k : ALL) act[k] = true; for (int k : ALL) if (k != TOLX && k != CONDITIONCOV && k != MAXITER) { c.crit.push_back({k,false}); act[k] = false; } c.max_fevals = -1; c.has_ftarget = false; c.elitism = 0; c.lambda = r.i(8,20); if (big == 1) { c.max_iter = r.i(40,200); c.xtol = r.lg(0.2,1.2); } else { c.max_iter = 1500; c.xtol = 0; } }
  c.snap = S_BASIC|S_CAND|S_MAT;
  t.cfg(c);
  double hard = r.p(0.1) ? 1e8 : 1; if (big == 2) { hard = 1e9; oi = 0; } // bad conditioning
  double off = r.p(0.2) ? r.lg(1,1e6) : 0;
  const Obj &o = objs()[oi];
  // a trend that makes the values stagnate or get worse at some time
  double drift = !eq && !big && r.p(0.2) ? r.lg(1e-4,1) : 0; long calls = 0; int lam0 = c.lambda > 0 ? c.lambda : 10; double nl = r.pick(std::vector<double>{0,1,1}); uint64_t ns = r.u64();
  if (drift > 0 && r.p(0.7)) { c.crit.clear(); for (int k : ALL) act[k] = true; c.has_ftarget = false; if (c.max_fevals >= 0) c.max_fevals = -1; c.max_iter = r.i(50,400); if (r.p(0.7)) { c.crit.push_back({TOLHISTFUN,false}); act[TOLHISTFUN] = false; } t.cfg(c); }
  Mon m(c,[&](const double *x, int n) { double v[64]; if (drift > 0) { calls++; return nl*(mix(ns^(uint64_t)calls)>>11)*0x1p-53+drift*(calls/lam0); } for (int i=0;i<n;i++) v[i] = (hard>1 ? x[i]*std::pow(hard,n>1?i/double(n-1):0) : x[i]); return o.f(v,n)+off; });
  m.rec.keep = false;
  int userstop = c.max_iter >= 0 && act[MAXITER] ? 100000 : r.i(100,700);
  Hist H; bool user = false; int kcand = -1; 
  m.user_progress = [&](const Snap &s) {
    if (s.niter == 0) H.sh.reset(new Shadow(mkpar(c.dim,s.lambda,c.algo,c.tpa,0)));
    // a run that went on after the previous notification: no active criterion was true there
    size_t n = m.segs.back().g.size();
    if (n >= 2) { GenRec &p = m.segs.back().g[n-2]; if (n >= 3) for (int k : ALL) if (act[k]) { t.ok("goes_on_while_untrue"); if (truth(k,c,p.s,H) == 1) t.viol(fmt("missed:%d",k),fmt("criterion %d held after iteration %d but the run went on",k,p.s.niter)); }
      if (H.sh && !H.sh->step(p.s,s,s.sep || s.vd ? true : s.updated_eigen)) { H.sh.reset(); t.note("paths_not_comparable"); }
      // history
      if (kcand < 0) kcand = std::min(s.lambda-1,(int)(1.0+std::ceil(0.1+s.lambda/4.0)));
      H.best.push_back(s.cand[0].f); H.kbest.push_back(s.cand[kcand].f);
      int maxhist = c.max_hist > 0 ? c.max_hist : (int)(10+std::ceil((double)(30*s.dim/s.lambda)));
      if ((int)H.best.size() > maxhist) { H.best.erase(H.best.begin()); H.kbest.erase(H.kbest.begin()); }
      H.bf.push_back(s.cand[0].f); if (H.bf.size()>20) H.bf.erase(H.bf.begin());
      size_t cs = s.cand.size(); H.medians.push_back(cs%2 ? s.cand[cs/2].f : (s.cand[cs/2-1].f+s.cand[cs/2].f)/2.0);
      if (H.medians.size() > (size_t)std::ceil(0.2*(s.niter-1)+120+30*s.dim/(double)cs)) H.medians.erase(H.medians.begin());
      p.s = Snap(); // not needed any more
    }
    if (s.niter >= userstop) { user = true; return 1; }
    return 0; };
  m.go();
  const Snap &s = m.segs.back().g.back().s; int st = m.res.s.status;
  t.note(fmt("status_%d",st).c_str());
  t.ok("status_consistent_rc"); if (c.mode != 0 && (m.res.rc == 0) != (st >= 0)) t.viol("return-code",fmt("optimize returned %d with status %d",m.res.rc,st));
  if (user) { t.ok("user_stop_status"); if (st != 0) t.viol("status-after-user-stop",fmt("status %d after the progress function stopped the run",st)); }
  else {
    t.ok("status_reported"); 
    if (!act.count(st)) t.viol("unknown-status",fmt("status %d",st));
    else {
      if (!act[st]) t.viol(fmt("inactive:%d",st),fmt("criterion %d was switched off but ended the run",st));
      t.ok("status_true"); if (truth(st,c,s,H) == 0) t.viol(fmt("untrue:%d",st),fmt("criterion %d reported after iteration %d (%d evaluations, sigma %g, best %.17g) but it does not hold",st,s.niter,s.fevals,s.sigma,s.best.f));
      t.ok("first_generation"); if (s.niter < 1) t.viol("stopped-before-first-generation",fmt("status %d at iteration %d",st,s.niter));
    }
  }
  const std::string &msg = m.res.s.msg;
  t.ok("status_message");
  if (msgs.count(st) ? msgs[st] != msg : false) t.viol("message",fmt("status %d: \"%s\" and \"%s\"",st,msg.c_str(),msgs[st].c_str()));
  msgs[st] = msg;
  for (auto &kv : msgs) if (kv.first != st && kv.second == msg) t.viol("message",fmt("statuses %d and %d share the message \"%s\"",st,kv.first,msg.c_str()));
  bool err = msg.find("[Error]")!=std::string::npos, suc = msg.compare(0,9,"[Success]")==0;
  if (err != (st<0)) t.viol("message",fmt("status %d: \"%s\"",st,msg.c_str()));
  if (suc != (st==TOLHISTFUN || st==FTARGET)) t.viol("message",fmt("status %d: \"%s\"",st,msg.c_str()));
  bool part = msg.compare(0,17,"[Partial Success]")==0;
  if (part != (st==TOLX || st==NOEFFECTAXIS || st==NOEFFECTCOOR || st==EQUALFUNVALS || st==STAGNATION)) t.viol("message",fmt("status %d: \"%s\"",st,msg.c_str()));
  t.distinct(mix(st*1000+c.algo)^mix(s.niter)^bits(s.sigma));
  t.sample(c.str()+fmt(" obj=%s -> status %d after %d iterations",o.name.c_str(),st,s.niter));
}
HV_MAIN("C07",3000,150000,one)
