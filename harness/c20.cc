// C20: elitism.
#include "mon.hh"
using namespace hv;
static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.dmax = 7;
  Cfg c = gen_cfg(r,g);
  c.elitism = r.pick(std::vector<int>{0,1,1,2,2,3,3});
  c.mode = r.pick(std::vector<int>{0,1,1,2,3}); if (c.mode == 2) c.algo -= restart_kind(c.algo);
  if (r.p(0.2)) { c.tpa = 2; if (c.lambda != -1 && c.lambda < 6) c.lambda = 6; }
  if (r.p(0.15)) { c.grad = true; if (c.lambda != -1 && c.lambda < 7) c.lambda = 7; }
  if (r.p(0.15)) c.initfv = true;
  if (r.p(0.2)) c.maximize = true;
  if (r.p(0.1)) c.lazy = true;
  if (r.p(0.1) && c.mode != 2) c.edm = true;
  if (r.p(0.1)) for (int i=0;i<c.dim;i++) if (r.p(0.3) && (int)c.fixed.size() < c.dim-1) c.fixed.push_back({i,c.x0[i]});
  c.max_iter = iters(r,c,3,60); c.restarts = r.i(1,2); if (c.lambda > 25) c.max_iter = std::min(c.max_iter,25);
  c.snap = S_BASIC|S_CAND;
  t.cfg(c);
  int oi = r.i(0,OBJ_ALL-1); const Obj &o = objs()[oi]; bool flat = r.p(0.3); // many ties
  Mon m(c,[&](const double *x, int n) { double v = o.f(x,n); return flat ? std::floor(v) : v; });
  if ((c.grad || c.edm) && o.g && r.p(0.5)) m.h.grad = [&](const double *x, int n) { return o.g(x,n); };
  GPView gp = make_gp(c);
  double sg = c.maximize ? -1 : 1; long off = 0; 
  Cand ref; bool haveref = false, injected_run = false; int bsi = 0; Snap prev, lastend; bool restart_expected = false, first = true; double bs_end = 0, own = 0; V bs_x; int elit_restarts = 0; bool sticky = false;
  m.user_progress = [&](const Snap &s) {
    long calls = m.rec.n;
    if (s.niter == 0) {
      haveref = false; ref = Cand(); bool elit_restart = restart_expected && !first;
      if (restart_expected && !first) {
        t.ok("restart_from_best_seen"); elit_restarts++;
        // an elitist restart continues the count of evaluations, a population restart begins anew; only the former is expected here
        V back = gp.pheno(s.xmean), want = gp.pheno(bs_x); bool eq = true; for (int i=0;i<c.dim;i++) { double sc = c.lb.empty() ? 1e-3 : 1+std::fabs(c.lb[i])+std::fabs(c.ub[i])+(c.shift.empty()?0:std::fabs(c.shift[i]/c.scal[i])); eq = eq && near(back(i),want(i),1e-9,sc); }
        if (s.lambda != prev.lambda || !eq) t.viol("restart-elsewhere",fmt("best seen %.17g in iteration %d of %d: expected a restart from there",bs_end,bsi,prev.niter));
      }
      sticky = sticky || elit_restart; // it stays in force for later restarts of the same call
      injected_run = c.elitism == 2 || (sticky && c.elitism == 3);
      if (c.elitism == 1 && c.mode != 2) { ref = s.best_seen; }
      if ((injected_run && c.mode != 2) || (c.elitism == 1 && c.mode != 2)) { // the initial point was evaluated before
        t.ok("initial_point_evaluated"); auto &cl = m.rec.calls.back(); V w = gp.pheno(s.xmean); for (int i=0;i<c.dim;i++) if (cl.x[i] != w(i)) { t.viol("initial-point","the initial mean was not evaluated"); break; }
        ref.x = s.xmean; ref.f = sg*cl.v; haveref = true; }
      own = haveref ? ref.f : c.initfv && c.mode != 2 ? sg*m.rec.calls.back().v : std::numeric_limits<double>::infinity();
      off = calls; prev = s; bsi = 0; first = false; restart_expected = false; return m.segs.size() > 20 ? 1 : 0;
    }
    long pr = m.probes(); long lo = off+pr, hi = calls; int lam = s.lambda;
    if (c.elitism == 2 && c.mode == 2 && s.niter == 1) { hi--; ref.x = prev.xmean; ref.f = sg*m.rec.calls[hi].v; haveref = true; }
    if (hi-lo != lam) { t.note("unattributed"); off = calls; prev = s; return 1; }
    // candidates after the generation against the evaluated points
    std::vector<std::pair<double,int>> ev; for (int i=0;i<lam;i++) ev.push_back({sg*m.rec.calls[lo+i].v,i});
    if (c.elitism == 2 && c.mode == 2 && s.niter == 1) own = ref.f;
    double before = own; for (auto &q : ev) own = std::min(own,q.first);
    t.ok("best_seen_is_best_evaluated"); if (s.best_seen.f != own) t.viol("best-seen-wrong",fmt("iteration %d: best seen %.17g, best evaluated in this run %.17g",s.niter,s.best_seen.f,own));
    bool active = prev.niter > 0 && (c.elitism == 1 || injected_run);
    if (c.elitism == 1 && prev.niter > 0) { ref = prev.best_seen; ref.f = before; haveref = true; }
    std::multiset<double> have, want; for (auto &q : s.cand) have.insert(q.f); for (auto &q : ev) want.insert(q.first);
    bool inj = false;
    if (active && haveref) {
      int better = 0; for (auto &q : ev) better += q.first < ref.f;
      inj = better < lam/2;
      if (inj) { double w = -std::numeric_limits<double>::infinity(); int p1 = c.grad ? 1 : 0; for (auto &q : ev) if (!(c.tpa == 2 && (q.second == p1 || q.second == p1+1))) w = std::max(w,q.first);
        // before the first two-point step the two columns are 0 and 1 by default
        want.erase(want.find(w)); want.insert(ref.f); t.note("reinjections"); } else t.note("no_reinjection"); }
    t.ok("population_after_elitism");
    if (have != want) t.viol(inj ? "not-reinjected" : "population-altered",fmt("iteration %d: reference %.17g, %s; best %.17g, worst %.17g",s.niter,ref.f,inj ? "it has to replace the worst candidate" : "the population has to be the evaluated one",s.cand.front().f,s.cand.back().f));
    if (inj) { bool found = false; for (auto &q : s.cand) found = found || (q.f == ref.f && same(q.x,ref.x)); t.ok("reference_present"); if (!found) t.viol("reference-missing",fmt("iteration %d: no candidate is the reference point with its value",s.niter)); }
    if (s.best_seen.f < prev.best_seen.f || prev.niter == 0) { if (s.best_seen.f != prev.best_seen.f || !prev.best_seen.x.size()) bsi = prev.niter; }
    t.ok("best_seen_never_lost"); if (prev.niter > 0 && s.best_seen.f > prev.best_seen.f) t.viol("best-seen-lost",fmt("iteration %d: %.17g after %.17g",s.niter,s.best_seen.f,prev.best_seen.f));
    t.distinct(bits(s.sigma)^mix(s.niter)^mix(c.elitism));
    restart_expected = c.elitism == 3 && c.mode != 2 && s.best_seen.f < s.best.f && s.niter-bsi >= 3; bs_end = s.best_seen.f; bs_x = s.best_seen.x;
    off = calls; prev = s; return 0; };
  m.go();
  if (c.elitism == 3 && c.mode != 2 && !first) { t.ok("restart_happened"); if (restart_expected && m.segs.size() <= 20) t.viol("restart-missing",fmt("the best seen value %.17g is better than the last best %.17g",bs_end,prev.best.f)); }
  if (c.elitism == 3) { t.ok("final_keeps_best"); }
  t.note("elitist_restarts",elit_restarts); t.note(fmt("elitism_%d",c.elitism).c_str());
  t.sample(c.str()+fmt(" obj=%s runs=%zu",o.name.c_str(),m.segs.size()));
}
HV_MAIN("C20",3000,150000,one)
