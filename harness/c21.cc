// C21: uncertainty handling.
#include "shadow.hh"
using namespace hv;
static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.dmax = 9; g.algos = {0,0,3,6,9,12,1,4};
  Cfg c = gen_cfg(r,g); c.uh = true; if (c.lambda != -1 && c.lambda < 5) c.lambda = 5;
  if (r.p(0.2)) c.lambda = r.i(20,60);
  c.mode = r.pick(std::vector<int>{0,1,2,3}); if (c.mode == 2) c.algo -= restart_kind(c.algo);
  if (r.p(0.15)) c.maximize = true;
  if (r.p(0.15)) c.lazy = true;
  if (r.p(0.1)) c.initfv = c.mode != 2;
  if (r.p(0.15)) c.tpa = 0;
  if (r.p(0.15)) for (int i=0;i<c.dim;i++) if (r.p(0.3) && (int)c.fixed.size() < c.dim-1) c.fixed.push_back({i,c.x0[i]});
  c.max_iter = iters(r,c,2,50); c.restarts = 2; if (c.lambda > 25) c.max_iter = std::min(c.max_iter,20);
  for (int k : {1,2,5,6}) c.crit.push_back({k,false});
  c.snap = S_BASIC|S_CAND|S_MAT;
  t.cfg(c);
  const Obj &o = objs()[r.i(0,OBJ_SMOOTH-1)]; double noise = r.p(0.35) ? 0 : r.p(0.3) ? 1e-12 : r.lg(1e-3,100); bool prop = r.p(0.5); uint64_t nk = r.u64(); long k = 0;
  Mon m(c,[&](const double *x, int n) { double v = o.f(x,n); if (noise > 0) { Rng q(nk+(k++)); v += noise*q.n()*(prop ? 1+std::fabs(v) : 1); } return v; });
  GPView gp = make_gp(c); double sg = c.maximize ? -1 : 1; int n = c.dim;
  std::unique_ptr<Shadow> sh; Snap prev; long off = 0; double fs = 0, fv = 0; long fn = 0;
  m.user_progress = [&](const Snap &s) {
    long calls = m.rec.n;
    if (s.niter == 0) { sh.reset(new Shadow(mkpar(n,s.lambda,c.algo,c.tpa,c.fixed.size()))); for (auto &f : c.fixed) sh->p.fixi.push_back(f.first); off = calls; prev = s; return 0; }
    if (!(s.sigma > 1e-100 && s.sigma < 1e100) || !s.xmean.allFinite()) return 1;
    int lam = s.lambda; long re = calls-off-lam; double rl = std::max(0.1,2.0/lam)*lam; double fr = rl-std::floor(rl); bool whole = fr < 1e-6 || fr > 1-1e-6; int lo = std::max(1,(int)(whole ? std::round(rl) : std::floor(rl))), hi = whole ? lo : lo+1; int lo0 = whole ? std::max(1,lo-1) : lo, hi0 = whole ? lo+1 : hi;
    t.ok("number_reevaluated"); if (re < lo0 || re > hi0) { t.viol("reevaluations",fmt("iteration %d: %ld re-evaluations of %d candidates, expected %d to %d",s.niter,re,lam,lo,hi)); return 1; }
    if (lo != hi) { double p = fr; fs += (re-lo)-p; fv += p*(1-p); fn++; }
    std::vector<double> f(lam), fm(lam); std::vector<V> x(lam);
    for (int i=0;i<lam;i++) f[i] = fm[i] = sg*m.rec.calls[off+i].v;
    for (int i=0;i<re;i++) fm[i] = sg*m.rec.calls[off+lam+i].v;
    t.ok("reevaluated_points"); bool moved = false;
    for (int i=0;i<re;i++) for (int j=0;j<n;j++) { double a = m.rec.calls[off+i].x[j], b = m.rec.calls[off+lam+i].x[j], L = 1; if (c.gp >= 2) L = c.scal.empty() ? (c.ub[j]-c.lb[j])/10 : 1/c.scal[j]; double sc = std::fabs(a)+(c.lb.empty()?0:std::fabs(c.lb[j])+std::fabs(c.ub[j])); moved = moved || a != b;
      if (!(std::fabs(a-b) <= 1e-6*prev.sigma*L*1.001+1e-13*sc)) { t.viol("reevaluated-point",fmt("iteration %d: candidate %d was re-evaluated %.3g away, step size %.3g",s.niter,i,std::fabs(a-b),prev.sigma)); i = re; break; } }
    (void)moved;
    // the population: the evaluated candidates with their first values, each once
    t.ok("population_kept"); std::vector<int> pos(lam,-1); bool perm = (int)s.cand.size() == lam; for (int i=0;perm && i<lam;i++) { int id = s.cand[i].id; if (id < 0 || id >= lam || pos[id] >= 0 || !same(s.cand[i].f,f[id])) perm = false; else pos[id] = i; }
    if (!perm) { t.viol("population",fmt("iteration %d: the candidates are not those evaluated with their values",s.niter)); return 1; }
    // ranks in both evaluations
    std::set<double> u1(f.begin(),f.end()), u2(fm.begin(),fm.end()); bool ties = (int)u1.size() < lam || (int)u2.size() < lam;
    double alpha = 1+2.0/(n+10.0); int expect = -1;
    if (!ties) {
      std::vector<int> r1(lam), r2(lam); for (int i=0;i<lam;i++) { r1[i] = std::distance(u1.begin(),u1.find(f[i])); r2[i] = std::distance(u2.begin(),u2.find(fm[i])); }
      std::vector<double> del(lam,0); double md = 0; for (int i=0;i<re;i++) { int d = r2[i]-r1[i]; del[i] = std::abs(d)-(d != 0); md += del[i]; } md /= re;
      for (int i=re;i<lam;i++) del[i] = md;
      t.ok("ranked_by_both_evaluations");
      for (int i=1;i<lam;i++) { int a = s.cand[i-1].id, b = s.cand[i].id; double ka[3] = {(double)(r1[a]+r2[a]),del[a],f[a]+fm[a]}, kb[3] = {(double)(r1[b]+r2[b]),del[b],f[b]+fm[b]}; bool bad = false; for (int q=0;q<3;q++) { if (q == 1 && near(ka[q],kb[q],1e-12)) continue; if (ka[q] != kb[q]) { bad = ka[q] > kb[q]; break; } } if (bad) { t.viol("ranking",fmt("iteration %d: candidate %d (ranks %d and %d) comes before candidate %d (ranks %d and %d)",s.niter,a,r1[a],r2[a],b,r1[b],r2[b])); break; } }
      double u = 0; for (int i=0;i<re;i++) { auto lim = [&](double d) { std::vector<double> v; for (int j=1;j<2*lam;j++) v.push_back(std::fabs(j-d)); std::sort(v.begin(),v.end()); return v[(int)(v.size()*0.1)]; };
        u += 2*del[i]-lim(r2[i]-(r2[i] > r1[i]))-lim(r1[i]-(r1[i] > r2[i])); }
      expect = u > 0; t.note(u > 0 ? "uncertain_generations" : "certain_generations");
      if (noise == 0 && md == 0) { t.ok("no_effect_without_noise"); for (int i=1;i<lam;i++) if (s.cand[i-1].f > s.cand[i].f && r1[s.cand[i-1].id]+r2[s.cand[i-1].id] > r1[s.cand[i].id]+r2[s.cand[i].id]) t.viol("ranking","not sorted although nothing changed"); }
    } else t.note("ties");
    if (sh) { bool ok = sh->step(prev,s,s.sep || s.vd ? true : s.updated_eigen); 
      if (!ok) { t.note("not_comparable"); sh.reset(); }
      else { double q = s.sigma/sh->sigma; int got = near(q,1,1e-7) ? 0 : near(q,alpha,1e-7) ? 1 : -1; t.ok("step_size_reaction");
        if (got < 0 || (expect >= 0 && got != expect)) { t.viol("step-size",fmt("iteration %d: step size factor %.9g; measured uncertainty is %s, treatment factor %.9g",s.niter,q,expect < 0 ? "unknown" : expect ? "positive" : "not positive",alpha)); sh.reset(); } } }
    t.distinct(bits(s.sigma)^mix(s.niter)); off = calls; prev = s; return 0; };
  m.go();
  if (fn > 20) { t.ok("fraction_reevaluated"); if (!(std::fabs(fs) <= 8*std::sqrt(fv)+3)) t.viol("fraction",fmt("deviation %.3g over %ld generations",fs,fn)); }
  t.note(noise > 0 ? "noisy_runs" : "exact_runs");
  t.sample(c.str()+fmt(" obj=%s noise=%g iterations=%d",o.name.c_str(),noise,m.res.s.niter));
}
HV_MAIN("C21",3000,150000,one)
