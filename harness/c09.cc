// C09: a given non-zero seed reproduces a run exactly, whatever ran before; other seeds give other runs.
#include "mon.hh"
using namespace hv;
struct Trace { uint64_t h = 7; long calls = 0; std::vector<uint64_t> prefix; Snap s; int rc = 0; bool same_f = true; };
static Trace go(const Cfg &c, const Obj &o, bool withgrad, Ctx &t) {
  Trace tr; 
  Mon m(c,[&](const double *x, int n) { double v = o.f(x,n); tr.h = hv_hash(x,n,tr.h); tr.h = mix(tr.h ^ bits(v)); tr.calls++; if (tr.calls <= 3000) tr.prefix.push_back(tr.h); return v; });
  m.rec.keep = false; m.c.mt = false;
  if (withgrad && o.g) m.h.grad = [&](const double *x, int n) { tr.h = hv_hash(x,n,tr.h); return o.g(x,n); };
  m.h.asked = [&](const M &a, const M &b) { tr.h = hv_hash(a.data(),a.size(),tr.h); tr.h = hv_hash(b.data(),b.size(),tr.h); };
  m.go(); tr.s = m.res.s; tr.rc = m.res.rc; (void)t;
  return tr;
}
static bool snap_eq(const Snap &a, const Snap &b, std::string &why) {
  auto ck = [&](bool q, const char *w) { if (!q && why.empty()) why = w; };
  ck(a.niter==b.niter,"iterations"); ck(a.fevals==b.fevals,"evaluations"); ck(a.status==b.status,"status"); ck(same(a.sigma,b.sigma),"sigma");
  ck(same(a.xmean,b.xmean),"mean"); ck(same(a.best.f,b.best.f),"best value"); ck(same(a.best.x,b.best.x),"best point"); ck(same(a.best_seen.f,b.best_seen.f),"best seen");
  ck(same(V(Eigen::Map<const V>(a.full_cov.data(),a.full_cov.size())),V(Eigen::Map<const V>(b.full_cov.data(),b.full_cov.size()))),"covariance");
  ck(same(a.edm,b.edm),"edm"); ck(a.lambda==b.lambda,"lambda");
  return why.empty();
}
static Cfg mk(Rng &r) {
  Gen g; g.dmax = 8; g.custom = true; g.algos = {0,1,3,4,6,7,9,10,12,13}; 
  Cfg c = gen_cfg(r,g);
  if (r.p(0.05)) c.lambda = r.i(100,130);
  c.mode = r.pick(std::vector<int>{0,1,1,2}); if (c.mode == 2) c.algo -= restart_kind(c.algo);
  gen_features(r,c,0.12); if (c.mode == 2) c.edm = false; if (is_vd_algo(c.algo)) c.grad = false;
  c.max_iter = iters(r,c,1,40); c.restarts = nruns(r,c,1,3);
  if (r.p(0.1)) for (int i=0;i<c.dim;i++) if (r.p(0.3) && (int)c.fixed.size() < c.dim-1) c.fixed.push_back({i,c.x0[i]});
  if (r.p(0.1)) { c.vsigma.clear(); if (c.gp == 3) { for (int i=0;i<c.dim;i++) c.vsigma.push_back(r.lg(0.05,5)); c.scal.clear(); c.shift.clear(); c.custom = false; } }
  return c;
}
static void one(Ctx &t) {
  Rng &r = t.rng;
  Cfg a = mk(r), b = mk(r); t.cfg(a);
  const Obj &oa = objs()[r.i(0,OBJ_ALL-1)], &ob = objs()[r.i(0,OBJ_ALL-1)];
  bool ga = r.p(0.5), gb = r.p(0.5); int disturb = r.i(0,2);
  if (disturb == 2) { go(b,ob,gb,t); }
  Trace t1 = go(a,oa,ga,t);
  if (disturb >= 1) { b = mk(r); if (r.p(0.5)) { for (int q=0;q<400 && !(b.algo-restart_kind(b.algo) == a.algo-restart_kind(a.algo) && b.gp == a.gp && b.dim != a.dim);q++) b = mk(r); t.note("disturbed_by_a_run_of_another_dimension"); } if (r.p(0.3)) b.uh = true; go(b,ob,gb,t); t.note("disturbed_by_another_run"); }
  Trace t2 = go(a,oa,ga,t);
  size_t first = 0; while (first < t1.prefix.size() && first < t2.prefix.size() && t1.prefix[first]==t2.prefix[first]) first++;
  t.ok("call_sequence_identical",t1.calls); if (t1.h != t2.h || t1.calls != t2.calls) t.viol("not-reproducible",fmt("same seed, different runs: %ld and %ld calls, first difference at call %zu (%s another run in between)",t1.calls,t2.calls,first,disturb?"with":"without"));
  std::string why; t.ok("result_identical"); if (!snap_eq(t1.s,t2.s,why)) t.viol("result-not-reproducible","same seed, different result: "+why);
  t.ok("rc_identical"); if (t1.rc != t2.rc) t.viol("result-not-reproducible","return code");
  t.distinct(t1.h);
  // another seed
  Cfg c = a; c.seed = a.seed + 1 + r.u64()%1000; if (r.p(0.5)) c.seed = a.seed ^ (1ULL<<r.i(0,31)); if (!c.seed) c.seed = a.seed+1; Trace t3 = go(c,oa,ga,t);
  t.ok("seeds_differ"); if (t3.h == t1.h && t1.calls > 1) t.viol("seed-ignored",fmt("seeds %llu and %llu give the same run of %ld calls",(unsigned long long)a.seed,(unsigned long long)c.seed,t1.calls));
  t.sample(a.str()+fmt(" obj=%s calls=%ld hash=%016llx",oa.name.c_str(),t1.calls,(unsigned long long)t1.h));
}
HV_MAIN("C09",2000,100000,one)
