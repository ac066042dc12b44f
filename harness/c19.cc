// C19: all ways of running the same problem make the same search; observation options do not influence it.
#include "mon.hh"
using namespace hv;
struct Tr { std::vector<Rec::Call> calls; std::vector<std::pair<long,Snap>> g; Result res; };
struct NullBuf : std::streambuf { long n = 0; int overflow(int c) override { n++; return c; } std::streamsize xsputn(const char*, std::streamsize k) override { n += k; return k; } };
static Tr go(const Cfg &c, const Obj &o, bool ug, bool progress = true) {
  Mon m(c,o.f); if (ug) m.h.grad = [&](const double *x, int n) { return o.g(x,n); };
  if (!progress) { m.h.progress = nullptr; }
  NullBuf nb; std::streambuf *old = nullptr; if (!c.quiet) old = std::cout.rdbuf(&nb);
  m.go(); if (old) std::cout.rdbuf(old);
  Tr t; t.calls.swap(m.rec.calls); t.res = m.res; for (auto &s : m.segs) for (auto &q : s.g) t.g.push_back({q.calls,q.s}); return t; }
static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.dmax = 8; g.algos = {0,1,3,4,6,7,9,10,12,13}; g.custom = true;
  Cfg c = gen_cfg(r,g);
  int kind = r.i(0,8);
  c.mode = r.pick(std::vector<int>{0,1,1,3});
  gen_features(r,c,0.15);
  if (r.p(0.1)) c.noisy = true;
  if (r.p(0.15)) for (int i=0;i<c.dim;i++) if (r.p(0.3) && (int)c.fixed.size() < c.dim-1) c.fixed.push_back({i,c.x0[i]});
  c.max_iter = iters(r,c,1,50); if (r.p(0.3)) c.max_fevals = r.i(1,1500); c.restarts = nruns(r,c,1,3);
  if (r.p(0.2) && !c.maximize) { c.has_ftarget = true; c.ftarget = r.lg(1e-3,100); }
  if (r.p(0.2)) for (int k : {1,2,5,6,7}) if (r.p(0.5)) c.crit.push_back({k,r.p(0.2)});
  if (c.gp == 2 && r.p(0.3)) { c.custom = false; }
  c.snap = S_BASIC|S_CAND|S_MAT;
  Cfg d = c; const char *name = ""; bool progress = true, unordered = false; long skip_a = 0, skip_b = 0;
  switch (kind) {
  case 0: name = "call_vs_optimizer"; c.mode = 0; d.mode = 1; break;
  case 1: name = "optimizer_vs_own_loop"; c.mode = 1; d.mode = 3; break;
  case 2: name = "optimizer_vs_ask_tell"; c.mode = 1; d.mode = 2; c.algo = d.algo = c.algo - restart_kind(c.algo); c.initfv = d.initfv = c.edm = d.edm = false; c.elitism = d.elitism = -1; break;
  case 3: name = "name_vs_number"; c.str_algo = false; d.str_algo = true; break;
  case 4: name = "verbose"; c.quiet = true; d.quiet = false; break;
  case 5: name = "output_file"; d.fplot = t.scratch+fmt("/c19_%ld.dat",t.id); d.full_fplot = r.p(0.4); d.custom_plot = r.p(0.2); break;
  case 6: name = "no_progress_function"; progress = false; break;
  case 7: name = "threads"; c.mt = false; d.mt = true; unordered = true; break;
  case 8: name = "initial_value"; c.initfv = false; d.initfv = true; c.algo = d.algo = c.algo - restart_kind(c.algo); c.elitism = d.elitism = -1; c.max_fevals = d.max_fevals = -1; skip_b = 1; break;
  }
  t.cfg(d);
  const Obj &o = objs()[r.i(0,OBJ_ALL-1)]; bool ug = (c.grad || c.edm) && o.g && r.p(0.5);
  Tr a = go(c,o,ug), b = go(d,o,ug,progress);
  t.note(name);
  if (!d.fplot.empty()) unlink(d.fplot.c_str());
  long na = a.calls.size()-skip_a, nb = b.calls.size()-skip_b;
  t.ok("same_number_of_calls"); if (na != nb) { t.viol(fmt("%s:calls",name),fmt("%ld and %ld objective calls",na,nb)); return; }
  if (!unordered) { for (long i=0;i<na;i++) { t.ok("same_call"); if (a.calls[i+skip_a].x != b.calls[i+skip_b].x) { t.viol(fmt("%s:point",name),fmt("call %ld of %ld differs",i,na)); return; } } }
  else { auto key = [&](Tr &q, std::vector<uint64_t> &h, long lo, long hi) { for (long i=lo;i<hi;i++) h.push_back(hv_hash(q.calls[i].x.data(),c.dim)); std::sort(h.begin(),h.end()); };
    if (a.g.size() != b.g.size()) { t.viol(fmt("%s:generations",name),fmt("%zu and %zu notifications",a.g.size(),b.g.size())); return; }
    for (size_t i=1;i<a.g.size();i++) { std::vector<uint64_t> x,y; if (a.g[i].first != b.g[i].first) { t.viol(fmt("%s:calls",name),fmt("generation %zu",i)); return; } key(a,x,a.g[i-1].first,a.g[i].first); key(b,y,b.g[i-1].first,b.g[i].first); t.ok("same_generation"); if (x != y) { t.viol(fmt("%s:points",name),fmt("generation %zu evaluated other points",i)); return; } } }
  if (progress) {
    t.ok("same_notifications"); if (a.g.size() != b.g.size()) { t.viol(fmt("%s:notifications",name),fmt("%zu and %zu",a.g.size(),b.g.size())); return; }
    for (size_t i=0;i<a.g.size();i++) { const Snap &x = a.g[i].second, &y = b.g[i].second; t.ok("same_state");
      if (x.niter != y.niter || x.fevals+(int)skip_b != y.fevals || !same(x.sigma,y.sigma) || !same(x.xmean,y.xmean) || x.lambda != y.lambda || (x.niter && (!same(x.best.f,y.best.f) || !same(x.best.x,y.best.x)))) { t.viol(fmt("%s:state",name),fmt("notification %zu: iteration %d/%d, evaluations %d/%d, step size %.17g/%.17g, best %.17g/%.17g",i,x.niter,y.niter,x.fevals,y.fevals,x.sigma,y.sigma,x.best.f,y.best.f)); return; } } }
  const Snap &x = a.res.s, &y = b.res.s;
  t.ok("same_result",6);
  if (x.status != y.status) t.viol(fmt("%s:status",name),fmt("%d and %d",x.status,y.status));
  if (x.niter != y.niter || x.fevals+(int)skip_b != y.fevals) t.viol(fmt("%s:counts",name),fmt("%d/%d iterations, %d/%d evaluations",x.niter,y.niter,x.fevals,y.fevals));
  if (x.niter && (!same(x.best.f,y.best.f) || !same(x.best.x,y.best.x))) t.viol(fmt("%s:best",name),fmt("%.17g and %.17g",x.best.f,y.best.f));
  if (!same(x.sigma,y.sigma) || !same(x.xmean,y.xmean)) t.viol(fmt("%s:final-state",name),"step size or mean differ");
  if (!same(x.edm,y.edm)) t.viol(fmt("%s:edm",name),fmt("%.17g and %.17g",x.edm,y.edm));
  if (kind != 8 && x.niter && !same(x.best_seen.f,y.best_seen.f)) t.viol(fmt("%s:best-seen",name),fmt("%.17g and %.17g",x.best_seen.f,y.best_seen.f));
  uint64_t h = mix(kind); for (auto &cl : a.calls) h = hv_hash(cl.x.data(),c.dim,h); t.distinct(h);
  t.sample(std::string(name)+": "+d.str()+fmt(" obj=%s calls=%zu",o.name.c_str(),a.calls.size()));
}
HV_MAIN("C19",3000,150000,one)
