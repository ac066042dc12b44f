// C08: reported solutions are faithful to what was evaluated.
#include "mon.hh"
using namespace hv;
static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.dmax = 8; g.custom = true;
  Cfg c = gen_cfg(r,g);
  c.mode = r.pick(std::vector<int>{0,1,1,2});
  if (c.mode == 2) c.algo -= restart_kind(c.algo);
  gen_features(r,c,0.15);
  if (r.p(0.3)) c.maximize = true;
  if (c.mode == 2) c.edm = false;
  if (is_vd_algo(c.algo)) c.grad = false;
  if (r.p(0.2)) c.mt = true;
  if (r.p(0.1)) for (int i=0;i<c.dim;i++) if (r.p(0.3) && (int)c.fixed.size() < c.dim-1) c.fixed.push_back({i,c.x0[i]});
  c.max_iter = iters(r,c,1,40);
  c.restarts = nruns(r,c,1,3);
  c.snap = S_BASIC|S_CAND;
  t.cfg(c);
  const Obj &o = objs()[r.i(0,OBJ_ALL-1)];
  double sgn = c.maximize ? -1.0 : 1.0, flip = (c.maximize && r.p(0.5)) ? -1 : 1;
  auto F = [&](const double *x, int n) { return flip*o.f(x,n); };
  Mon m(c,F);
  if ((c.grad || c.edm) && o.g && r.p(0.6)) m.h.grad = [&](const double *x, int n) { return V(flip*o.g(x,n)); };
  m.go();
  GPView gp = make_gp(c); bool vsig = !c.vsigma.empty(); (void)vsig;
  for (size_t si=0;si<m.segs.size();si++) {
    Seg &sg = m.segs[si];
    double lo = std::numeric_limits<double>::infinity(), hi = -lo; 
    long init = sg.g[0].calls - sg.first_call; // initial evaluation(s)
    for (long k=sg.first_call;k<sg.g[0].calls;k++) lo = std::min(lo,sgn*m.rec.calls[k].v);
    t.ok("initial_evaluations"); if (init > 1) t.viol("initial-calls",fmt("%ld evaluations before the first generation",init));
    for (size_t k=1;k<sg.g.size();k++) {
      const Snap &s = sg.g[k].s; long end = sg.g[k].calls, beg = sg.g[k-1].calls + m.probes();
      if (c.mode == 2 && c.elitism == 2 && k == 1) { end--; lo = std::min(lo,sgn*m.rec.calls[end].v); }
      std::multiset<double> ev; double glo = std::numeric_limits<double>::infinity(), ghi = -glo;
      for (long j=beg;j<end;j++) { double v = sgn*m.rec.calls[j].v; ev.insert(v); lo=std::min(lo,v); hi=std::max(hi,v); glo=std::min(glo,v); ghi=std::max(ghi,v); }
      // sorted
      t.ok("candidates_sorted"); for (size_t j=1;j<s.cand.size();j++) if (!(s.cand[j-1].f <= s.cand[j].f)) { t.viol("not-sorted",fmt("generation %d: candidate %zu has %.17g after %.17g",s.niter,j,s.cand[j].f,s.cand[j-1].f)); break; }
      // every kept candidate carries the value of its own point
      int foreign = 0;
      for (auto &cd : s.cand) {
        V y = gp.pheno(cd.x); double fv = sgn*F(y.data(),c.dim);
        t.ok("candidate_value_matches_point"); if (!near(fv,cd.f,1e-9,1e-12) && o.name != "step" && o.name != "hash") t.viol("candidate-value",fmt("generation %d: candidate has value %.17g, its point evaluates to %.17g",s.niter,cd.f,fv));
        auto it = ev.find(cd.f); if (it == ev.end()) foreign++; else ev.erase(it);
      }
      t.ok("candidates_are_the_evaluated"); if (foreign > (c.elitism > 0 ? 1 : 0)) t.viol("candidate-not-evaluated",fmt("generation %d: %d candidates carry values that were not evaluated in it",s.niter,foreign));
      t.ok("best_is_first"); if (s.best.f != s.cand[0].f || !same(s.best.x,s.cand[0].x)) t.viol("best",fmt("generation %d: best %.17g, first candidate %.17g",s.niter,s.best.f,s.cand[0].f));
      t.ok("best_of_generation"); if (s.best.f > glo) t.viol("best",fmt("generation %d: best candidate %.17g, best evaluation %.17g",s.niter,s.best.f,glo));
      t.ok("best_seen"); if (s.best_seen.f != lo) t.viol("best-seen",fmt("run %zu generation %d: best seen reported %.17g, best evaluation %.17g",si,s.niter,s.best_seen.f,lo));
      if (c.elitism <= 0) { t.ok("worst_seen"); if (s.worst_seen.f != hi) t.viol("worst-seen",fmt("run %zu generation %d: worst seen reported %.17g, worst evaluation %.17g",si,s.niter,s.worst_seen.f,hi)); }
      { V y = gp.pheno(s.best_seen.x); double fv = sgn*F(y.data(),c.dim); t.ok("best_seen_reevaluates"); if (!near(fv,s.best_seen.f,1e-9,1e-12) && o.name != "step" && o.name != "hash") t.viol("best-seen-point",fmt("best seen value %.17g, its point evaluates to %.17g",s.best_seen.f,fv)); }
      t.distinct(bits(s.best.f)^mix(s.niter));
    }
  }
  const Snap &f = m.res.s;
  t.ok("final_best_seen_not_worse"); if (!(f.best_seen.f <= f.best.f)) t.viol("best-seen-final",fmt("best seen %.17g, best %.17g",f.best_seen.f,f.best.f));
  if (f.best.x.size()) {
    V y = gp.pheno(f.best.x); double fv = sgn*F(y.data(),c.dim);
    t.ok("final_best_reevaluates"); if (!near(fv,f.best.f,1e-9,1e-12) && o.name != "step" && o.name != "hash") t.viol("final-best-point",fmt("the result reports %.17g, its point evaluates to %.17g",f.best.f,fv));
    t.ok("final_best_user_space"); if (!same(y,f.pheno_best)) for (int i=0;i<c.dim;i++) if (!near(y(i),f.pheno_best(i),1e-10,1e-9)) t.viol("final-best-user-space",fmt("%.17g vs %.17g",y(i),f.pheno_best(i)));
    bool found = false; for (auto &cl : m.rec.calls) if (sgn*cl.v == f.best.f) { found = true; break; }
    t.ok("final_best_was_evaluated"); if (!found) t.viol("final-best-not-evaluated",fmt("%.17g is no objective value of the run",f.best.f));
    bool found2 = false; for (auto &cl : m.rec.calls) if (sgn*cl.v == f.best_seen.f) { found2 = true; break; }
    t.ok("final_best_seen_was_evaluated"); if (!found2) t.viol("final-best-not-evaluated",fmt("best seen %.17g is no objective value of the run",f.best_seen.f));
    if (m.segs.size() == 1) { const Snap &l = m.segs[0].g.back().s; t.ok("final_is_last_state"); if (l.niter>0 && (l.best.f != f.best.f || l.best_seen.f != f.best_seen.f || !same(l.xmean,f.xmean) || l.sigma != f.sigma)) t.viol("final-state","the result is not the state of the last generation"); }
  }
  t.note("runs",m.segs.size()); if (c.maximize) t.note("maximize_runs");
  t.sample(c.str()+fmt(" obj=%s best=%.6g",o.name.c_str(),f.best.f));
}
HV_MAIN("C08",4000,200000,one)
