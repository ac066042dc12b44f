// C32: exceptions of user functions reach the caller unchanged, nothing goes on behind them, and the library is usable afterwards.
#include "mon.hh"
#include <libcmaes/cmaes.h>
#include <libcmaes/errstats.h>
#include <omp.h>
using namespace hv;
struct Boom { int id; long at; };
static uint64_t st(const Snap &s) { uint64_t h = hv_hash(s.xmean); h = mix(h^bits(s.sigma)); h = mix(h^s.niter*7919u^((uint64_t)s.fevals<<20)^((uint64_t)(s.status+100)<<44)); for (auto &c : s.cand) h = hv_hash(c.x,h^bits(c.f)); h = mix(h^bits(s.best.f)); return mix(h^bits(s.best_seen.f)); }
struct Log { std::vector<uint64_t> gens; std::atomic<long> f{0}, g{0}, p{0}, pl{0}; std::atomic<int> thrown{0}; uint64_t fin = 0; };
enum { WF = 0, WG, WP, WL, NONE };
static void whole(Ctx &t) {
  Rng &r = t.rng; Gen g; g.dmax = 6; g.algos = {0,1,3,4,6,7,9,10,12,13}; Cfg c = gen_cfg(r,g); c.mode = r.pick(std::vector<int>{0,1,1,2}); if (c.mode == 2) c.algo -= restart_kind(c.algo);
  gen_features(r,c,0.15); if (c.mode == 2) c.edm = false; if (r.p(0.3)) c.grad = true; bool uh = r.p(0.08); if (uh) { c.uh = true; if (c.lambda != -1 && c.lambda < 5) c.lambda = 5; }
  c.max_iter = r.i(1,12); c.restarts = r.i(1,2); c.mt = r.p(0.4); omp_set_num_threads(r.i(1,4)); if (r.p(0.3)) { c.fplot = t.scratch+"/c32.dat"; c.custom_plot = r.p(0.5); c.full_fplot = r.p(0.3); } if (r.p(0.1) && c.dim > 1) c.fixed.push_back({r.i(0,c.dim-1),c.x0[0]}); if (c.fixed.size() && !c.lb.empty()) c.fixed[0].second = c.x0[c.fixed[0].first];
  t.cfg(c); const Obj &o = objs()[r.i(0,OBJ_SMOOTH-1)]; bool ug = (c.grad || c.edm) && o.g && r.p(0.6);
  int id = r.i(1,1<<30);
  auto go = [&](Log &l, int who, long at) {
    auto boom = [&](int w, std::atomic<long> &n) { long k = ++n; if (k > 400000) runaway(k); if (who == w && k == at) { l.thrown++; throw Boom{id,at}; } };
    Hooks h; h.f = [&,boom](const double *x, int n) { boom(WF,l.f); return o.f(x,n); }; if (ug) h.grad = [&,boom](const double *x, int n) { boom(WG,l.g); return o.g(x,n); };
    h.progress = [&,boom](const Snap &s) { l.gens.push_back(st(s)); boom(WP,l.p); return 0; }; if (c.custom_plot) h.plot = [&,boom](const Snap &, std::ofstream &) { boom(WL,l.pl); };
    Result res = run(c,h); l.fin = st(res.s); };
  Log a; go(a,NONE,0);
  for (int rep=0;rep<3;rep++) {
    int who = r.pick(std::vector<int>{WF,WF,WF,WG,WP,WL}); std::atomic<long> *n = who == WF ? &a.f : who == WG ? &a.g : who == WP ? &a.p : &a.pl; if (*n == 0) { who = WF; n = &a.f; } long at = r.p(0.3) ? r.i(1,std::min<long>(*n,3)) : r.p(0.2) ? n->load() : 1+(long)(r.u()*(*n-1)); if (uh && at > *n/2) at = 1+*n/3;
    Log b; Boom got{0,0}; bool caught = false; try { go(b,who,at); } catch (const Boom &e) { caught = true; got = e; }
    static const char *nm[] = {"objective","gradient","progress","output"};
    if (!b.thrown) { if (!uh) t.viol("calls-differ",fmt("call %ld of the %s function was not made again (%ld made in all)",at,nm[who],n->load())); continue; }
    t.ok(fmt("exceptions_from_%s",nm[who]).c_str()); if (!caught) t.viol(std::string("exception-lost:")+nm[who],fmt("an exception of the %s function at its call %ld did not reach the caller",nm[who],at)); else if (got.id != id || got.at != at) t.viol("exception-changed",nm[who]);
    if (!c.mt || who != WF) { t.ok("nothing_after_exception"); long k = who == WF ? b.f : who == WG ? b.g : who == WP ? b.p : b.pl; if (k != at) t.viol("goes-on",fmt("the %s function was called %ld times after its exception",nm[who],k-at)); } else { t.ok("nothing_after_exception"); if (b.f-at > 8+c.dim*0 + (long)omp_get_max_threads()*2 + 8) t.note("evaluations_after_exception",b.f-at); }
    if (!uh) { t.ok("same_until_exception"); for (size_t i=0;i<b.gens.size();i++) if (i >= a.gens.size() || b.gens[i] != a.gens[i]) { t.viol("differs-before",fmt("notification %zu",i)); break; }
      if (r.p(0.5)) { Log d; go(d,NONE,0); t.ok("next_run_unaffected"); if (d.gens != a.gens || d.fin != a.fin) t.viol("next-run-differs",fmt("the run after an exception of the %s function differs",nm[who])); } }
    t.distinct(mix(at*8+who)^(b.gens.empty()?0:b.gens.back())); if (c.mt && who == WF) t.note("exceptions_in_parallel_evaluation"); }
  t.sample(c.str()+fmt(" calls=%ld",a.f.load()));
}
// ask/eval/tell: a failed evaluation can be repeated, and the run goes on as if nothing had happened
template<class ST, class GP> static void retry(Ctx &t, int algo, bool bounded) {
  using namespace libcmaes; Rng &r = t.rng; int n = r.i(1,6); if (algo == 12) n += 6; std::vector<double> x0(n), lb(n,-4), ub(n,6); for (auto &x : x0) x = r.u(-3,3); int lam = r.p(0.5) ? -1 : r.i(5,20), its = r.i(2,15), seed = r.i(1,1000000), tpa = r.p(0.2) ? 2 : 1, el = r.p(0.3) ? r.i(1,2) : 0; double sg = r.u(0.1,1); bool mt = r.p(0.4), mx = r.p(0.2); omp_set_num_threads(r.i(1,4)); double q = r.p(0.5) ? 0.02 : 0.2; uint64_t salt = r.u64(); int fi = r.i(0,8);
  Cfg cc; cc.algo = algo; cc.dim = n; cc.lambda = lam; cc.sigma = sg; cc.seed = seed; cc.gp = bounded; cc.mt = mt; cc.elitism = el; cc.maximize = mx; cc.tpa = tpa; cc.x0 = x0; t.cfg(cc); std::atomic<long> calls; std::vector<std::vector<uint64_t>> res; long fails = 0;
  for (int k=0;k<2;k++) { calls = 0; std::vector<uint64_t> tr; GP gp = [&]{ if constexpr (std::is_same<GP,GenoPheno<pwqBoundStrategy>>::value) return GP(lb.data(),ub.data(),n); else return GP(); }(); CMAParameters<GP> p(x0,sg,lam,seed,gp); p.set_quiet(true); p.set_algo(algo); if (algo == 6) p.set_sep(); if (algo == 12) p.set_vd(); p.set_mt_feval(mt); if (mx) p.set_maximize(true); if (tpa == 2 && algo != 12) p.set_tpa(2); if (el) p.set_elitism(el);
    FitFunc f = [&](const double *x, const int m) { long i = ++calls; if (k && (mix(salt^i)>>11)*(1.0/9007199254740992.0) < q) throw Boom{7,i}; return objs()[fi].f(x,m); };
    ESOptimizer<ST,CMAParameters<GP>> o(f,p);
    for (int g=0;g<its && !(g && o.stop());g++) { dMat c = o.ask(), ph = gp.pheno(c); for (int a=0;;a++) { try { o.eval(c,ph); break; } catch (const Boom &b) { fails++; t.ok("failed_evaluations_repeated"); if (b.id != 7) t.viol("exception-changed","eval"); if (a > 2000) { t.viol("retry","repeated evaluations always fail"); return; } if (a > 20) q *= 0.5; } }
      o.tell(); o.inc_iter(); CMASolutions &s = o.get_solutions(); uint64_t h = hv_hash(s.xmean()); h = mix(h^bits(s.sigma())^s.fevals()*31u); for (auto &cd : s.candidates()) h = hv_hash(cd.get_x_dvec(),h^bits(cd.get_fvalue())); h = mix(h^bits(s.best_candidate().get_fvalue())); tr.push_back(h); }
    res.push_back(tr); t.distinct(mix(tr.back()+k)); }
  t.ok("retried_run_equals_undisturbed",res[0].size()); if (res[0] != res[1]) t.viol("retry-differs",fmt("a run with %ld repeated evaluations differs from the undisturbed one (%zu and %zu generations)",fails,res[1].size(),res[0].size())); t.note(mt ? "retry_runs_parallel" : "retry_runs");
}
static void one(Ctx &t) {
  using namespace libcmaes; typedef GenoPheno<NoBoundStrategy> A; typedef GenoPheno<pwqBoundStrategy> B;
  if (t.rng.p(0.7)) { whole(t); return; }
  bool b = t.rng.p(0.5); int k = t.rng.i(0,3);
#define GO(U,al) do { if (b) retry<CMAStrategy<U,B>,B>(t,al,b); else retry<CMAStrategy<U,A>,A>(t,al,b); } while (0)
  switch (k) { case 0: GO(CovarianceUpdate,0); break; case 1: GO(ACovarianceUpdate,3); break; case 2: GO(CovarianceUpdate,6); break; default: GO(VDCMAUpdate,12); }
}
HV_MAIN("C32",6000,200000,one)
