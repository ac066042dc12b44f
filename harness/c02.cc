// C02: parallel evaluation: same results as serial, each candidate exactly once, no data race, no concurrency unless asked for.
#include "mon.hh"
#include <libcmaes/cmaes.h>
#include <libcmaes/errstats.h>
#include <libcmaes/surrogates/rankingsvm.hpp>
#include <omp.h>
#include <pthread.h>
#include <sched.h>
using namespace hv;
// recording without locks: a lock would order the threads and hide races from the detector
struct Trace {
  int n; long cap; std::vector<double> x, v; std::vector<uint64_t> th; std::atomic<long> k{0}; std::atomic<int> inflight{0}, maxin{0}; std::atomic<int> unstable{0}, foreign{0}, dimbad{0}; std::atomic<uint64_t> order{0};
  pthread_t home; std::function<double(const double*,int)> f; uint64_t salt; int delay;
  Trace(int n_, long cap_, std::function<double(const double*,int)> f_, uint64_t s, int d) : n(n_), cap(cap_), x(n_*cap_), v(cap_), th(cap_), f(f_), salt(s), delay(d) { home = pthread_self(); }
  void wait(uint64_t h) { if (!delay) return; switch (h % 5) { case 0: sched_yield(); break; case 1: if (delay > 1) usleep((h>>8)%(delay*10)); break; case 2: for (volatile int i=0;i<(int)((h>>8)%(200*delay));i++); break; default: ; } }
  double operator()(const double *p, int d) {
    const auto R = std::memory_order_relaxed;
    int in = inflight.fetch_add(1,R)+1; int m = maxin.load(R); while (in > m && !maxin.compare_exchange_weak(m,in,R)) ;
    if (d != n) { dimbad.store(1,R); inflight.fetch_sub(1,R); return 0; }
    uint64_t h = hv_hash(p,d); wait(mix(h^salt)); double r = f(p,d); wait(mix(h^salt^77));
    if (hv_hash(p,d) != h) unstable.store(1,R);
    if (!pthread_equal(home,pthread_self())) foreign.fetch_add(1,R);
    long i = k.fetch_add(1,R); if (i >= cap) runaway(i);
    std::copy(p,p+d,x.begin()+i*n); v[i] = r; th[i] = (uint64_t)omp_get_thread_num();
    inflight.fetch_sub(1,R); return r;
  }
};
static uint64_t state(const Snap &s) {
  uint64_t h = hv_hash(s.xmean); h = mix(h^bits(s.sigma)); h = mix(h^s.niter*7919u^((uint64_t)s.fevals<<20)^((uint64_t)(s.status+100)<<44)); for (auto &c : s.cand) h = hv_hash(c.x,h^bits(c.f)); h = mix(h^bits(s.best.f)); if (s.best.x.size()) h = hv_hash(s.best.x,h); h = mix(h^bits(s.best_seen.f)); if (s.cov.size()) h = hv_hash(s.cov.data(),s.cov.size(),h); if (s.sepcov.size()) h = hv_hash(s.sepcov.data(),s.sepcov.size(),h); return h;
}
static void opt(Ctx &t) {
  Rng &r = t.rng; Gen g; g.dmax = 8; g.algos = {0,1,3,4,6,7,9,10,12,13}; Cfg c = gen_cfg(r,g);
#ifdef __SANITIZE_THREAD__
  const int big = 8, itmax = 4;
#else
  const int big = 12, itmax = 12;
#endif
  if (r.i(0,big) == 0) { c.lambda = r.i(95,160); } else if (r.p(0.1)) c.lambda = 1+r.i(3,7);
  c.mode = r.pick(std::vector<int>{0,1,1,2}); if (c.mode == 2) c.algo -= restart_kind(c.algo);
  gen_features(r,c,0.12); if (c.mode == 2) c.edm = false; if (r.p(0.25)) c.grad = true;
  bool uh = r.p(0.08); if (uh) { c.uh = true; if (c.lambda != -1 && c.lambda < 5) c.lambda = 5; }
  c.max_iter = r.i(1,itmax); c.restarts = r.i(1,2); c.mt = r.p(0.85);
  if (r.p(0.12)) for (int i=0;i<c.dim;i++) if (r.p(0.3) && (int)c.fixed.size() < c.dim-1) c.fixed.push_back({i,c.x0[i]});
  if (r.p(0.2)) c.snap = S_BASIC|S_CAND|S_MAT; 
  int T = r.pick(std::vector<int>{2,3,4,5,8,16}), delay = r.pick(std::vector<int>{0,1,2,5}); t.cfg(c);
  const Obj &o = objs()[r.i(0,OBJ_ALL-1)]; bool ug = (c.grad||c.edm) && o.g && r.p(0.3);
  long cap = 400000/c.dim; uint64_t salt = r.u64();
  struct Out { std::vector<uint64_t> st; Result res; std::map<std::vector<double>,long> calls; long n; bool once = true; std::string bad; uint64_t order = 0; };
  auto go = [&](bool mt, int th, int dl) {
    Cfg k = c; k.mt = mt; omp_set_num_threads(th); Trace tr(c.dim,cap,o.f,salt,dl); Hooks h; Out out; long at = 0; int told = 0; M asked;
    h.f = [&](const double *x, int n) { return tr(x,n); };
    int gin = 0; if (ug) h.grad = [&](const double *x, int n) { if (tr.inflight.load(std::memory_order_relaxed)) gin = 1; return o.g(x,n); };
    h.progress = [&](const Snap &s) { if (tr.inflight.load(std::memory_order_relaxed)) out.bad = "the progress function ran while the objective was being evaluated"; out.st.push_back(state(s)); long nn = tr.k.load(std::memory_order_relaxed);
      if (nn > at && mt && th > 1) { uint64_t od = 1; for (long i=at;i<nn;i++) od = mix(od*31+tr.th[i]); t.distinct(od); out.order = mix(out.order^od); } at = nn; return 0; };
    h.asked = [&](const M &, const M &ph) { asked = ph; at = tr.k.load(std::memory_order_relaxed); };
    h.told = [&](const Snap &) { told++; long nn = tr.k.load(std::memory_order_relaxed); std::multiset<std::vector<double>> a, b; for (int j=0;j<asked.cols();j++) a.insert(std::vector<double>(asked.col(j).data(),asked.col(j).data()+asked.rows()));
      for (long i=at;i<nn && i<at+asked.cols();i++) b.insert(std::vector<double>(tr.x.begin()+i*c.dim,tr.x.begin()+(i+1)*c.dim)); if (a != b) out.once = false; };
    out.res = run(k,h); out.n = tr.k.load(std::memory_order_relaxed);
    for (long i=0;i<out.n;i++) { std::vector<double> p(tr.x.begin()+i*c.dim,tr.x.begin()+(i+1)*c.dim); out.calls[p]++; }
    t.ok("stable_argument",out.n); if (tr.unstable.load()) t.viol("argument-changed",fmt("the point handed to the objective changed during the call (mt=%d threads=%d)",mt,th));
    if (tr.dimbad.load()) t.viol("argument-size","wrong dimension handed to the objective");
    t.ok("exactly_once"); if (!out.once) t.viol("not-exactly-once",fmt("the evaluated points are not the asked candidates, each once (mt=%d threads=%d)",mt,th));
    if (out.bad.size() || gin) t.viol("overlap",out.bad.size()?out.bad:"the gradient function ran while the objective was being evaluated");
    if (!mt) { t.ok("serial_unless_asked"); if (tr.maxin.load() > 1 || tr.foreign.load()) t.viol("concurrent-unasked",fmt("up to %d concurrent evaluations, %d calls from other threads with multithreading off, %d threads available",tr.maxin.load(),tr.foreign.load(),th)); }
    else { if (th >= 4 && dl >= 2 && out.n >= 50 && out.res.s.niter >= 3) { t.ok("parallel_if_asked"); if (!tr.foreign.load()) t.viol("not-parallel",fmt("multithreading on, %d threads, %ld slow evaluations, all made by the calling thread",th,out.n)); } t.note(fmt("max_in_flight_%d",tr.maxin.load()).c_str()); if (tr.foreign.load()) t.note("parallel_runs"); t.note("calls_from_worker_threads",tr.foreign.load()); }
    return out; };
  Out a = go(false,1,0), b = go(c.mt,T,delay);
  if (!uh) {
    t.ok("generations_equal",a.st.size()); if (a.st.size() != b.st.size()) t.viol("length",fmt("%zu notifications serially, %zu in parallel (%d threads)",a.st.size(),b.st.size(),T));
    for (size_t i=0;i<std::min(a.st.size(),b.st.size());i++) if (a.st[i] != b.st[i]) { t.viol("parallel-differs",fmt("the state differs from the serial run's at notification %zu (mt=%d, %d threads)",i,c.mt,T)); break; }
    t.ok("calls_equal"); if (a.calls != b.calls) t.viol("calls-differ",fmt("%ld calls serially, %ld in parallel (%d threads), or other points",a.n,b.n,T));
    t.ok("result_equal"); if (state(a.res.s) != state(b.res.s) || a.res.rc != b.res.rc || !same(a.res.s.edm,b.res.s.edm)) t.viol("result-differs",fmt("%d threads",T)); }
  t.ok("count"); if (restart_kind(c.algo) == 0 && b.res.s.fevals != b.n) t.viol("fevals",fmt("%d evaluations reported, %ld made",b.res.s.fevals,b.n));
  t.note(c.mt ? "runs_multithreaded" : "runs_serial_with_threads_available"); if (c.grad && !ug && c.mt) t.note("runs_parallel_gradient"); t.sample(c.str()+fmt(" obj=%s threads=%d delay=%d calls=%ld order=%016llx",o.name.c_str(),T,delay,b.n,(unsigned long long)b.order));
}
static void transforms(Ctx &t) {
  Rng &r = t.rng; Gen g; g.dmax = 6; g.algos = {0}; g.custom = true; Cfg c = gen_cfg(r,g); t.cfg(c); GPView v = make_gp(c); int m = r.i(80,400), T = r.pick(std::vector<int>{2,3,4,8,16}); M x(c.dim,m);
  for (int j=0;j<m;j++) for (int i=0;i<c.dim;i++) x(i,j) = c.gp == 0 || r.p(0.2) ? r.n()*20 : r.u(c.lb[i],c.ub[i]);
  for (int dir=0;dir<2;dir++) { auto &f = dir ? v.genoM : v.phenoM; auto &fv = dir ? v.geno : v.pheno; omp_set_num_threads(1); M a = f(x); omp_set_num_threads(T); M b = f(x);
    t.ok("transform_columns",m); bool ok = a.cols() == b.cols() && a.rows() == b.rows(); for (int j=0;ok && j<m;j++) ok = same(V(a.col(j)),V(b.col(j))); if (!ok) t.viol("transform-differs",fmt("%s of %d points with %d threads differs from one thread",dir?"geno":"pheno",m,T));
    if (b.cols() == m) for (int j=0;j<m;j++) { V w = fv(x.col(j)); bool q = true; for (int i=0;i<c.dim;i++) q = q && near(w(i),b(i,j),1e-12,1e-12); t.ok("transform_single",1); if (!q) { t.viol("transform-single",fmt("column %d of %d differs from the transform of the point alone",j,m)); break; } }
    t.distinct(hv_hash(b.data(),b.size())); }
  t.note("transform_cases");
}
template<class K> static void svm(Ctx &t) {
  Rng &r = t.rng; int n = r.i(1,6), l = r.i(3,60), m = r.i(1,60), it = r.i(1,40)*l, T = r.pick(std::vector<int>{2,3,4,8,16}); M x(n,l), q(n,m); for (int i=0;i<l;i++) for (int k=0;k<n;k++) x(k,i) = r.n(); for (int i=0;i<m;i++) for (int k=0;k<n;k++) q(k,i) = r.n(); M cinv = M::Identity(n,n); V mean = V::Zero(n); bool enc = r.p(0.5); V res[2], al[2];
  Cfg c; c.dim = n; c.lambda = l; t.cfg(c);
  for (int k=0;k<2;k++) { omp_set_num_threads(k ? T : 1); RankingSVM<K> s; s._encode = enc; M tr = x; s.train(tr,it,cinv,mean); M tt = x, qq = q; s.predict(res[k],qq,tt,cinv,mean); al[k] = s._alpha; }
  t.ok("svm_training"); if (!same(al[0],al[1])) t.viol("svm-training-differs",fmt("%d points, %d threads",l,T)); t.ok("svm_prediction",m); if (!same(res[0],res[1])) t.viol("svm-prediction-differs",fmt("%d points, %d threads",l,T)); t.distinct(hv_hash(res[1])); t.note("svm_cases");
}
static void errs(Ctx &t) {
  Rng &r = t.rng; int n = r.i(2,3), T = r.pick(std::vector<int>{2,4,8}), k = r.i(0,n-1), seed = r.i(1,100000); uint64_t salt = r.u64(); double ends[2][2]; std::map<std::vector<double>,long> calls[2]; Cfg c; c.dim = n; t.cfg(c);
  for (int a=0;a<2;a++) { omp_set_num_threads(a ? T : 1); Trace tr(n,300000,f_shiftq,salt,0); libcmaes::FitFunc f = [&](const double *x, const int d) { return tr(x,d); }; libcmaes::CMAParameters<> p(std::vector<double>(n,1.0),0.5,-1,seed); p.set_quiet(true); p.set_mt_feval(a); p.set_ftolerance(1e-6); p.set_max_iter(80);
    libcmaes::CMASolutions s = libcmaes::cmaes<>(f,p); libcmaes::pli le = libcmaes::errstats<>::profile_likelihood(f,p,s,k,false,10,0.1,0.1); ends[a][0] = le.get_err_min(); ends[a][1] = le.get_err_max();
    if (!a && tr.maxin.load() > 1) t.viol("concurrent-unasked","profile likelihood"); long nn = tr.k.load(); for (long i=0;i<nn;i++) calls[a][std::vector<double>(tr.x.begin()+i*n,tr.x.begin()+(i+1)*n)]++; t.distinct(mix(nn)); }
  t.ok("profile_equal"); if (!same(ends[0][0],ends[1][0]) || !same(ends[0][1],ends[1][1])) t.viol("profile-differs",fmt("[%.17g,%.17g] serially, [%.17g,%.17g] with %d threads",ends[0][0],ends[0][1],ends[1][0],ends[1][1],T)); if (calls[0] != calls[1]) t.viol("profile-calls-differ",fmt("%d threads",T)); t.note("profile_cases");
}
static void one(Ctx &t) {
#ifdef EIGEN_HAS_OPENMP
  Eigen::setNbThreads(1); // the linear algebra library's own parallel products are not part of this code base
#endif
  int k = t.rng.i(0,99); if (k < 70) opt(t); else if (k < 82) transforms(t); else if (k < 97) { switch (t.rng.i(0,2)) { case 0: svm<RBFKernel>(t); break; case 1: svm<LinearKernel>(t); break; default: svm<PolyKernel<2>>(t); } } else errs(t);
}
HV_MAIN("C02",2000,60000,one)
