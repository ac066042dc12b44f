// C18: BIPOP restarts: two regimes, their populations, step sizes and budgets, and the best run as the result.
#include "shadow.hh"
using namespace hv;
static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.dmax = 8; g.algos = {2,2,5,8,11,14};
  Cfg c = gen_cfg(r,g);
  c.mode = r.pick(std::vector<int>{0,1,3});
  if (r.p(0.15)) c.elitism = r.i(1,2);
  if (r.p(0.15)) c.initfv = true;
  if (r.p(0.15)) c.maximize = true;
  if (r.p(0.15)) c.lazy = true;
  if (r.p(0.1)) c.edm = true;
  if (r.p(0.1)) c.mt = true;
  if (c.lambda > 16) c.lambda = r.i(6,16);
  c.restarts = r.p(0.05) ? 0 : r.i(1,r.p(0.2)?5:3);
  c.max_iter = r.p(0.2) ? r.i(1,3) : iters(r,c,4,30);
  if (r.p(0.4)) c.max_fevals = r.i(1,800);
  int deep = r.p(0.06) ? r.i(1,3) : 0; // many large runs, runs that use many evaluations, or large populations
  if (deep == 1) { c.dim = r.i(is_vd_algo(c.algo)?7:2,9); gen_space(r,c,g); c.lambda = r.i(4,8); c.restarts = r.i(5,8); c.max_iter = r.i(1,4); c.max_fevals = -1; }
  if (deep == 2) { c.dim = r.i(is_vd_algo(c.algo)?7:2,8); gen_space(r,c,g); c.lambda = r.i(8,14); c.restarts = r.i(5,6); c.max_iter = r.i(40,80); c.max_fevals = -1; }
  if (deep == 3) { c.dim = r.i(is_vd_algo(c.algo)?7:2,8); gen_space(r,c,g); c.lambda = r.i(40,150); c.restarts = r.i(3,5); c.max_iter = r.i(1,4); c.max_fevals = -1; }
  bool many = r.p(0.012); // a search with thousands of small runs: long large runs, small ones ended after a generation
  if (many) { c.algo = 2+3*r.i(0,1); c.dim = r.i(6,8); gen_space(r,c,g); c.lambda = 4; c.restarts = r.i(2,4); c.max_iter = 1500; c.max_fevals = -1; c.mode = 1; c.elitism = 0; c.mt = c.edm = c.lazy = false; for (int k : {1,5,2,-13,6,-15,3,4,7}) c.crit.push_back({k,false}); }
  // some searches get better values in their first runs than later, so that runs which diverge are the best ones
  long drift = !many && !c.maximize && r.p(0.08) ? r.lg(400,60000) : 0; std::atomic<long> nf(0);
  if (drift) { c.max_iter = r.i(300,600); c.restarts = r.i(2,3); c.lambda = r.i(6,10); c.sigma = 1; c.mt = false; c.max_fevals = -1; c.has_ftarget = false; }
  c.snap = S_BASIC|S_CAND|S_MAT; if (many) c.snap = S_BASIC|S_MAT;
  t.cfg(c);
  const Obj &o = objs()[r.i(0,OBJ_ALL-1)];
  Mon m(c,[&](const double *x, int n) { if (many) return (double)(mix(++nf)>>11); if (drift && ++nf <= drift) { double v = 0; for (int i=0;i<n;i++) v -= x[i]; return v-1e6; } return o.f(x,n); }); m.rec.cap = 2000000; m.rec.keep = false;
  int ustop = r.p(0.1) && !many ? r.i(0,5) : -1, uiter = r.i(0,2);
  std::unique_ptr<Shadow> sh; Snap prev;
  m.user_progress = [&](const Snap &s) {
    if (many) return s.max_fevals > 0 && s.niter >= 1 ? 1 : 0;
    if (s.niter == 0) sh.reset(new Shadow(mkpar(c.dim,s.lambda,c.algo,c.tpa,0)));
    else if (sh) {
      if (!(s.sigma > 1e-100 && s.sigma < 1e100) || !s.xmean.allFinite()) sh.reset();
      else if (!sh->step(prev,s,s.sep || s.vd ? true : s.updated_eigen)) { t.note("not_comparable"); sh.reset(); }
      else { t.ok("strategy_parameters_follow_population"); if (!near(s.sigma,sh->sigma,1e-7) || !((s.xmean-sh->xm).norm() <= 1e-7*(1+prev.xmean.norm()+prev.sigma*std::sqrt(std::max(1.0,prev.maxeig))*10))) { t.viol("parameters",fmt("run %zu, population %d, iteration %d: the update does not use the parameters of this population",m.segs.size()-1,s.lambda,s.niter)); sh.reset(); } }
    }
    prev = s;
    return (int)m.segs.size()-1 == ustop && s.niter >= uiter ? 1 : 0; };
  m.go();
  int nr = std::max(1,c.restarts), runs = m.segs.size(); size_t k = 0; long b0 = 0, b1 = 0; int def = m.segs[0].g.front().s.lambda, large = def; bool bad = false;
  double s0 = c.sigma; int smalls = 0; std::vector<double> us[2], ul, uc; // step sizes of the small runs (all, those with a large population of at least eight times the default), their populations

  if (c.lambda > 0) { t.ok("first_population"); if (def != c.lambda) t.viol("first-population",fmt("population %d instead of %d",def,c.lambda)); }
  auto fresh = [&](size_t q) {
    const Snap &s = m.segs[q].g.front().s; t.ok("fresh_start"); bool id = true; if (s.sep || s.vd) { for (int i=0;i<c.dim;i++) id = id && s.sepcov(i,0) == 1; } else id = s.cov == M::Identity(c.dim,c.dim);
    if (!id || !same(s.xmean,m.segs[0].g.front().s.xmean) || s.fevals != (m.initial_eval()?1:0)) t.viol("not-fresh",fmt("run %zu does not start afresh",q)); };
  for (int q=0;q<nr && !bad;q++) {
    while (b0 > b1) {
      if (k >= m.segs.size()) { t.viol("small-run-missing",fmt("large runs used %ld, small runs %ld evaluations, and no small run followed",b0,b1)); bad = true; break; }
      const Snap &s = m.segs[k].g.front().s, &e = m.segs[k].g.back().s; double base = 0.5*(large/def), lo = def*std::min(1.0,base), hi = std::ceil(def*std::max(1.0,base)-1e-9);
      t.ok("small_population"); if (s.lambda < lo || s.lambda > hi) t.viol("small-population",fmt("run %zu has population %d, allowed %g to %g",k,s.lambda,lo,hi));
      t.ok("small_step_size"); if (!(s.sigma >= 0.02*(1-1e-9) && s.sigma <= 2)) t.viol("small-step-size",fmt("run %zu starts with step size %.17g",k,s.sigma));
      for (int w=0;w<=(large >= 8*def);w++) us[w].push_back(-0.5*std::log10(s.sigma/2)); if (base >= 2 && def >= 4) { uc.push_back(us[0].back()); ul.push_back(std::log(s.lambda/(double)def)/std::log(base)); }
      t.ok("small_budget"); long bud = (long)(0.5*b0); if (s.max_fevals != bud) t.viol("small-budget",fmt("run %zu may use %d evaluations, half of those of the large runs is %ld",k,s.max_fevals,bud));
      if (e.niter > 1) { long before = m.segs[k].g[m.segs[k].g.size()-2].s.fevals; t.ok("small_budget_kept"); if (before >= std::max(bud,1L)) t.viol("small-budget",fmt("run %zu went on after %ld of %ld evaluations",k,before,bud)); }
      fresh(k); b1 += (long)e.niter*s.lambda; smalls++; k++;
      if (e.niter == 0) break;
    }
    if (bad) break;
    if (k >= m.segs.size()) { t.viol("large-run-missing",fmt("%zu runs, %d large ones expected",m.segs.size(),nr)); break; }
    const Snap &s = m.segs[k].g.front().s, &e = m.segs[k].g.back().s;
    if (q) large *= 2;
    t.ok("large_population"); if (s.lambda != large) { t.viol("large-population",fmt("run %zu has population %d instead of %d (evaluations so far: %ld in large runs, %ld in small ones)",k,s.lambda,large,b0,b1)); bad = true; }
    t.ok("large_step_size"); if (s.sigma != s0) t.viol("large-step-size",fmt("run %zu starts with step size %.17g instead of %.17g",k,s.sigma,s0));
    t.ok("large_budget"); if (s.max_fevals != c.max_fevals) t.viol("large-budget",fmt("run %zu may use %d evaluations instead of %d",k,s.max_fevals,c.max_fevals));
    fresh(k); b0 += (long)e.niter*s.lambda; k++;
  }
  t.ok("all_runs_accounted"); if (!bad && k != m.segs.size()) t.viol("extra-runs",fmt("%zu runs, %zu expected",m.segs.size(),k));
  int best = -1; for (int q=0;q<runs;q++) { const Snap &a = m.segs[q].g.back().s; if (a.niter > 0 && (best < 0 || a.best.f < m.segs[best].g.back().s.best.f)) best = q; }
  if (best >= 0 && ustop < 0) {
    const Snap &w = m.segs[best].g.back().s, &f = m.res.s; t.ok("best_run_returned",2);
    if (f.best.f != w.best.f || !same(f.best.x,w.best.x)) t.viol("not-best-run",fmt("the result has value %.17g, the best run (%d of %d) ended with %.17g",f.best.f,best,runs,w.best.f));
    if (f.sigma != w.sigma || !same(f.xmean,w.xmean) || f.niter != w.niter) t.viol("mixed-runs","the state of the result is not that of the best run");
  }
  { std::map<double,int> rep; for (double u : us[0]) if (rep[u]++ == 2) t.viol("small-step-size-repeated",fmt("three of %zu small runs have the very same step size",us[0].size())); t.ok("step_sizes_differ"); }
  // (the library draws these from a generator seeded with the time: only draws of one search are independent of each other)
  for (int w=0;w<2;w++) if (us[w].size() >= 25) { // Kolmogorov-Smirnov, significance 2*exp(-2*16) ~ 3e-14
    auto v = us[w]; std::sort(v.begin(),v.end()); double D = 0, n = v.size(); for (size_t i=0;i<v.size();i++) D = std::max(D,std::max((i+1)/n-v[i],v[i]-i/n));
    t.ok("step_sizes_log_uniform"); if (D*std::sqrt(n) > 4) t.viol("small-step-size-distribution",fmt("%zu small runs (%s): largest deviation from the log-uniform distribution %.3f",v.size(),w?"late":"all",D)); }
  if (ul.size() >= 40) { double lowq = 0, highq = 0; for (double u : ul) { lowq += u < 0.85; highq += u > 0.15; } t.ok("small_populations_spread");
    if (lowq == 0 || highq == 0) t.viol("small-population-distribution",fmt("%zu small populations all at one end of their range",ul.size())); }
  if (ul.size() >= 400) { double n = ul.size(), a = 0, b = 0, aa = 0, bb = 0, ab = 0; for (size_t i=0;i<ul.size();i++) { a += ul[i]; b += uc[i]; aa += ul[i]*ul[i]; bb += uc[i]*uc[i]; ab += ul[i]*uc[i]; }
    double rho = (ab-a*b/n)/std::sqrt((aa-a*a/n)*(bb-b*b/n)); t.ok("populations_independent_of_step_sizes"); if (std::fabs(rho)*std::sqrt(n) > 8) t.viol("small-runs-correlated",fmt("populations and step sizes of %zu small runs have correlation %.3f",ul.size(),rho)); }
  if (many) t.note("searches_with_many_small_runs"); if (drift) t.note("searches_getting_worse"); if (m.res.s.status < 0) t.note("results_ended_by_error");
  t.note("small_runs",smalls); t.note("runs",runs);
  for (auto &s : m.segs) t.distinct(mix(s.g.front().s.lambda)^bits(s.g.front().s.sigma));
  t.sample(c.str()+fmt(" obj=%s runs=%d (%d small) calls=%ld",o.name.c_str(),runs,smalls,m.rec.n.load()));
}
HV_MAIN("C18",2500,120000,one)
