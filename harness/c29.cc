// C29: parameter objects keep what they are told, settings are independent of each other and of their order, the initial distribution is the one asked for.
#include "mon.hh"
using namespace hv;
typedef Op O;
static O op(int k, int i = 0, double v = 0, const std::string &s = "") { O o; o.k = k; o.i = i; o.v = v; o.s = s; return o; }
static O opx(int k, const std::vector<double> &a, const std::vector<double> &b = {}) { O o; o.k = k; o.a = a; o.b = b; if (!a.empty()) o.v = a[0]; return o; }
static std::string diff(const PGet &a, const PGet &b) {
#define F(x) if (!(a.x == b.x)) return #x;
  F(dim) F(lambda) F(max_iter) F(max_fevals) F(seed) F(algo) F(tpa) F(restarts) F(quiet) F(full_fplot) F(grad) F(edm) F(mt) F(maximize) F(uh) F(sep) F(vd) F(lazy) F(ftarget) F(ftol) F(xtol) F(sigma_init) F(fplot)
#undef F
  if (!same(a.x0min,b.x0min)) return "x0min"; if (!same(a.x0max,b.x0max)) return "x0max"; return ""; }
static V vec(const std::vector<double> &a) { return Eigen::Map<const V>(a.data(),a.size()); }
// --- getters against a model of the object
static void model(Ctx &t) {
  Rng &r = t.rng; Gen g; g.dmax = 12; g.custom = true; Cfg c = gen_cfg(r,g); int n = c.dim; c.algo = 0; c.ctor = r.i(0,1); if (r.p(0.2)) c.lambda = r.i(-3,1); if (r.p(0.1)) c.dim = n = r.i(1,200), c.gp = 0, c.custom = false, c.x0.assign(n,0.5);
  if (c.gp >= 2 && r.p(0.3)) { c.scal.clear(); c.shift.clear(); c.custom = false; c.vsigma.clear(); for (int i=0;i<n;i++) c.vsigma.push_back(r.lg(0.1,10)); }
  if (r.p(0.1)) c.seed = 0;
  PGet m; m.dim = n; m.lambda = c.lambda >= 2 ? c.lambda : 4+(int)std::floor(3*std::log(n)); m.max_iter = -1; m.max_fevals = -1; m.seed = (int)c.seed; m.algo = 0; m.tpa = 1; m.restarts = 9; m.quiet = true; m.ftarget = -INFINITY; m.ftol = 1e-12; m.xtol = 1e-12; m.sigma_init = c.sigma; m.x0min = m.x0max = vec(c.x0);
  std::vector<PGet> want = {m}; int nops = r.i(1,25); bool timed = c.seed == 0;
  auto rv = [&]() { std::vector<double> a(n); for (auto &x : a) x = r.u(-5,5); return a; };
  for (int q=0;q<nops;q++) { O o; o.k = r.i(0,O::NKINDS-1); o.i = r.i(0,1);
    switch (o.k) {
    case O::QUIET: m.quiet = o.i; break; case O::MAXIMIZE: m.maximize = o.i; break; case O::MT: m.mt = o.i; break; case O::UH: m.uh = o.i; break; case O::GRAD: m.grad = o.i; break; case O::EDM: m.edm = o.i; break; case O::LAZY: m.lazy = o.i; break; case O::INITFV: break;
    case O::STR_ALGO: { int a = r.i(0,14); if (m.vd || m.sep) a = r.i(0,5); if (r.p(0.1)) { o.s = "nosuchalgorithm"; break; } o.s = algo_name(a); m.algo = a; if (is_sep_algo(a)) m.sep = true; if (is_vd_algo(a)) m.vd = true; break; }
    case O::ALGO: o.i = r.i(0,14); m.algo = o.i; break;
    case O::SEP: if (m.vd) { o.k = O::COPY; break; } m.sep = true; break;
    case O::VD: if (m.sep) { o.k = O::COPY; break; } if (is_vd_algo(m.algo)) m.vd = true; break;
    case O::TPA: o.i = r.i(0,2); m.tpa = o.i; break; case O::ELITISM: o.i = r.i(0,3); break;
    case O::MAX_ITER: o.i = r.i(-1,100000); m.max_iter = o.i; break; case O::MAX_FEVALS: o.i = r.i(-1,10000000); m.max_fevals = o.i; break; case O::RESTARTS: o.i = r.i(0,20); m.restarts = o.i; break; case O::MAX_HIST: o.i = r.i(1,100); break;
    case O::FTARGET: o.v = r.n()*1e3; m.ftarget = o.v; break; case O::RESET_FTARGET: m.ftarget = -INFINITY; break; case O::FTOL: o.v = r.lg(1e-16,1); m.ftol = o.v; break; case O::XTOL: o.v = r.lg(1e-16,1); m.xtol = o.v; break;
    case O::FIX: if (n < 2) { o.k = O::COPY; break; } o.i = r.i(0,n-2); o.v = r.n(); break; case O::UNFIX: o.i = r.i(0,n-1); break; case O::CRIT: o.i = r.i(1,10); o.v = r.i(0,1); break;
    case O::FPLOT: o.s = fmt("some/file_%d.dat",r.i(0,99)); m.fplot = o.s; break; case O::FULL_FPLOT: m.full_fplot = o.i; break;
    case O::SEED: o.i = r.p(0.1) ? 0 : r.i(1,2000000000); m.seed = o.i; timed = o.i == 0; break;
    case O::X0_SCALAR: o.v = r.u(-5,5); m.x0min = m.x0max = V::Constant(n,o.v); break;
    case O::X0_PTR: case O::X0_VEC: o.a = rv(); m.x0min = m.x0max = vec(o.a); break;
    case O::X0_SCALARS: o.a = {r.u(-5,5)}; o.b = {r.u(-5,5)}; m.x0min = V::Constant(n,o.a[0]); m.x0max = V::Constant(n,o.b[0]); break;
    case O::X0_PTRS: case O::X0_STDS: case O::X0_VECS: o.a = rv(); o.b = rv(); m.x0min = vec(o.a); m.x0max = vec(o.b); break;
    case O::NOISY: if (m.lambda > 400 || (m.vd && !is_vd_algo(m.algo))) { o.k = O::COPY; break; } m.lambda *= 5; break;
    default: break; }
    c.ops.push_back(o); want.push_back(m); }
  t.cfg(c); int at = r.i(0,nops); PGet cp; std::vector<PGet> got = param_trace(c,at,&cp); (void)timed;
  if (!c.vsigma.empty()) { double s0 = *std::min_element(c.vsigma.begin(),c.vsigma.end()); for (auto &w : want) w.sigma_init = s0; }
  for (size_t i=0;i<got.size();i++) { PGet w = want[i]; if (w.seed == 0) { t.ok("time_seed"); if (got[i].seed == 0) { t.viol("seed0","a seed of 0 was kept"); return; } w.seed = got[i].seed; } t.ok("getters",25); std::string d = diff(got[i],w); if (!d.empty()) { t.viol("getter:"+d,fmt("after %s, %s is not what was set (operation %zu)",i ? c.ops[i-1].str().c_str() : "construction",d.c_str(),i)); return; } }
  t.ok("copy_independent"); std::string d = diff(cp,got[at]); if (!d.empty()) t.viol("copy:"+d,"a copy changed with its original");
  uint64_t h = 7; for (auto &o : c.ops) h = mix(h^(o.k*131+o.i)); t.distinct(h); t.note("models");
}
// --- settings made in another order, after other values, and through copies
static void order(Ctx &t) {
  Rng &r = t.rng; Gen g; g.dmax = 8; g.algos = {0,1,3,4,6,7,9,10,12,13}; g.custom = true; Cfg c = gen_cfg(r,g); int n = c.dim; bool vd = is_vd_algo(c.algo); c.mode = r.i(0,1); c.max_iter = r.i(3,40); c.restarts = r.i(0,2);
  Cfg b = c; b.max_iter = -1; b.restarts = -1; std::vector<std::vector<O>> groups; // each group keeps its order
  auto boolean = [&](int k, bool &field, double junk, double set) { if (r.p(set)) field = true; std::vector<O> q; if (r.p(junk)) q.push_back(op(k,!field)); if (field || !q.empty()) q.push_back(op(k,field)); if (!q.empty()) groups.push_back(q); };
  boolean(O::MAXIMIZE,c.maximize,0.3,0.3); boolean(O::UH,c.uh,0.3,0); boolean(O::GRAD,c.grad,0.3,0.2); boolean(O::EDM,c.edm,0.3,0.1); boolean(O::INITFV,c.initfv,0.3,0.2); boolean(O::MT,c.mt,0.3,0); { bool q = true; boolean(O::QUIET,q,0,0); }
  bool canlazy = true;
  { std::vector<O> q; q.push_back(op(O::MAX_ITER,r.i(0,100))); q.push_back(op(O::MAX_ITER,c.max_iter)); groups.push_back(q); }
  { std::vector<O> q; q.push_back(op(O::RESTARTS,r.i(0,10))); q.push_back(op(O::RESTARTS,c.restarts)); groups.push_back(q); }
  { std::vector<O> q; if (r.p(0.5)) q.push_back(op(O::MAX_FEVALS,r.i(1,300))); if (r.p(0.3)) c.max_fevals = r.i(1,1500); if (q.size() || c.max_fevals != -1) q.push_back(op(O::MAX_FEVALS,c.max_fevals)); if (q.size()) groups.push_back(q); }
  { std::vector<O> q; if (r.p(0.5)) q.push_back(op(O::MAX_HIST,r.i(1,30))); if (r.p(0.3)) c.max_hist = r.i(1,30); if (q.size() || c.max_hist != -1) q.push_back(op(O::MAX_HIST,c.max_hist)); if (q.size()) groups.push_back(q); }
  { std::vector<O> q; if (r.p(0.5)) q.push_back(op(O::FTARGET,0,1e30)); if (r.p(0.2) && !c.maximize) { c.has_ftarget = true; c.ftarget = r.lg(1e-2,10); q.push_back(op(O::FTARGET,0,c.ftarget)); } else if (q.size()) q.push_back(op(O::RESET_FTARGET)); if (q.size()) groups.push_back(q); }
  { std::vector<O> q; if (r.p(0.5)) q.push_back(op(O::FTOL,0,1e3)); if (r.p(0.3)) c.ftol = r.lg(1e-8,1); if (q.size() || c.ftol >= 0) q.push_back(op(O::FTOL,0,c.ftol >= 0 ? c.ftol : 1e-12)); if (q.size()) groups.push_back(q); }
  { std::vector<O> q; if (r.p(0.5)) q.push_back(op(O::XTOL,0,1e3)); if (r.p(0.3)) c.xtol = r.lg(1e-8,1); if (q.size() || c.xtol >= 0) q.push_back(op(O::XTOL,0,c.xtol >= 0 ? c.xtol : 1e-12)); if (q.size()) groups.push_back(q); }
  { std::vector<O> q; if (r.p(0.5)) q.push_back(op(O::ELITISM,r.i(1,3))); if (r.p(0.3)) c.elitism = r.i(1,3); if (q.size() || c.elitism >= 0) q.push_back(op(O::ELITISM,c.elitism >= 0 ? c.elitism : 0)); if (q.size()) groups.push_back(q); }
  if (!vd) { std::vector<O> q; if (r.p(0.5)) q.push_back(op(O::TPA,r.i(0,2))); if (r.p(0.3) && !(c.lambda != -1 && c.lambda < 5)) c.tpa = 2; if (q.size() || c.tpa >= 0) q.push_back(op(O::TPA,c.tpa >= 0 ? c.tpa : 1)); if (q.size()) groups.push_back(q); }
  if (r.p(0.5)) for (int i=0;i<n;i++) { bool fin = r.p(0.3) && (int)c.fixed.size() < n-1; double v = c.x0[i]; std::vector<O> q; if (r.p(0.4) && n > 1) q.push_back(op(O::FIX,i,v+1)); if (fin) { c.fixed.push_back({i,v}); q.push_back(op(O::FIX,i,v)); } else if (q.size()) q.push_back(op(O::UNFIX,i)); if (q.size()) groups.push_back(q); }
  if (!c.fixed.empty() || r.p(0.3)) canlazy = c.fixed.empty();
  if (canlazy) boolean(O::LAZY,c.lazy,0.3,0.2);
  for (int k : {1,2,4,5,6,7,8}) if (r.p(0.3)) { bool v = r.p(0.5); std::vector<O> q; if (r.p(0.5)) q.push_back(op(O::CRIT,k,!v)); q.push_back(op(O::CRIT,k,v)); groups.push_back(q); c.crit.push_back({k,v}); }
  { std::vector<O> q; c.seed = 1+c.seed%1000000000; if (r.p(0.5)) { b.seed = 99; q.push_back(op(O::SEED,(int)c.seed)); groups.push_back(q); } else b.seed = c.seed; }
  if (r.p(0.5)) { std::vector<double> junk(n,17.0); b.x0 = junk; std::vector<O> q; switch (r.i(0,4)) { case 0: q.push_back(opx(O::X0_PTR,c.x0)); break; case 1: q.push_back(opx(O::X0_VEC,c.x0)); break; case 2: q.push_back(opx(O::X0_PTRS,c.x0,c.x0)); break; case 3: q.push_back(opx(O::X0_STDS,c.x0,c.x0)); break; default: q.push_back(opx(O::X0_VECS,c.x0,c.x0)); } groups.push_back(q); }
  { std::vector<O> q; int a = c.algo; if (!is_sep_algo(a) && !vd && r.p(0.6)) { if (r.p(0.5)) q.push_back(op(O::STR_ALGO,0,0,algo_name(r.i(0,5)))); else q.push_back(op(O::ALGO,r.i(0,14))); q.push_back(r.p(0.5) ? op(O::ALGO,a) : op(O::STR_ALGO,0,0,algo_name(a))); groups.push_back(q); } else if (is_sep_algo(a) && r.p(0.5)) groups.push_back({op(O::SEP)}); else if (vd && r.p(0.5)) groups.push_back({op(O::VD)}); }
  if (r.p(0.3)) groups.push_back({op(O::COPY)});
  b.ctor = r.i(0,1); if (c.lambda == -1 && r.p(0.3)) b.lambda = r.i(-2,1);
  // interleave
  std::vector<size_t> pos(groups.size(),0), tok; for (size_t i=0;i<groups.size();i++) for (size_t k=0;k<groups[i].size();k++) tok.push_back(i); for (size_t i=tok.size();i>1;i--) std::swap(tok[i-1],tok[r.i(0,(int)i-1)]);
  int live = 0; std::map<int,bool> fx; // never all parameters fixed on the way
  for (size_t x : tok) { const O &o = groups[x][pos[x]++]; (void)live; b.ops.push_back(o); }
  for (auto &o : b.ops) { if (o.k == O::FIX) fx[o.i] = true; if (o.k == O::UNFIX) fx.erase(o.i); if ((int)fx.size() == n) return; }
  t.cfg(b); const Obj &ob = objs()[r.i(0,OBJ_ALL-1)]; bool ug = (c.grad || c.edm) && ob.g && r.p(0.5);
  auto go = [&](const Cfg &q) { Mon m(q,ob.f); m.rec.cap = 400000; if (ug) m.h.grad = [&](const double *x, int k) { return ob.g(x,k); }; m.go(); return std::make_pair(std::move(m.rec.calls),m.res); };
  auto A = go(c), B = go(b); t.ok("same_calls"); if (A.first.size() != B.first.size()) { t.viol("order:calls",fmt("%zu and %zu objective calls",A.first.size(),B.first.size())); return; }
  for (size_t i=0;i<A.first.size();i++) { t.ok("same_point"); if (A.first[i].x != B.first[i].x) { t.viol("order:point",fmt("call %zu of %zu differs",i,A.first.size())); return; } }
  t.ok("same_result"); if (A.second.s.status != B.second.s.status || A.second.s.niter != B.second.s.niter || !same(A.second.s.sigma,B.second.s.sigma)) t.viol("order:result",fmt("status %d/%d, iterations %d/%d",A.second.s.status,B.second.s.status,A.second.s.niter,B.second.s.niter));
  uint64_t h = 3; for (auto &cl : A.first) h = hv_hash(cl.x.data(),n,h); t.distinct(h); t.note("orders"); t.note("setter_calls",b.ops.size()); t.sample("order: "+b.str());
}
// --- the first population
static void initial(Ctx &t) {
  Rng &r = t.rng; Gen g; g.dmax = 8; g.algos = {0,1,2,3,4,5,6,7,8,9,10,11}; g.small_lambda = false; Cfg c = gen_cfg(r,g); int n = c.dim; c.mode = 2; c.max_iter = 1; c.lambda = r.i(150,250); c.snap = S_BASIC; c.algo -= restart_kind(c.algo);
  bool vs = c.gp >= 2 && r.p(0.7), defs = !vs && r.p(0.2), range = r.p(0.2);
  std::vector<double> sd(n,c.sigma);
  if (c.gp != 0 && !vs) { if (c.gp >= 2) return; }
  if (vs) { c.custom = false; c.scal.clear(); c.shift.clear(); c.vsigma.clear(); for (int i=0;i<n;i++) { c.vsigma.push_back(r.lg(0.01,100)); sd[i] = c.vsigma[i]; } if (c.gp == 2) { c.lb.clear(); c.ub.clear(); } }
  if (defs) { c.sigma = r.p(0.5) ? 0 : -r.u(); sd.assign(n,1.0/n); }
  if (c.gp & 1) for (int i=0;i<n;i++) { double mid = r.u(-20,20); c.x0[i] = mid; c.lb[i] = mid-40*sd[i]-50; c.ub[i] = mid+40*sd[i]+50; }
  std::vector<double> hi = c.x0; if (range) { for (int i=0;i<n;i++) hi[i] = c.x0[i]+r.lg(1e-3,5); c.x0max = hi; }
  t.cfg(c); Mon m(c,[](const double *x, int d) { return f_sphere(x,d); }); M ph; V mean; int k = 0; double sg = 0;
  m.h.asked_state = [&](const Snap &s, const M &, bool) { if (!k) { mean = s.pheno_mean; sg = s.sigma; } };
  m.h.asked = [&](const M &, const M &p) { if (!k++) ph = p; }; m.c.snap = S_BASIC|S_STATS; m.go(); if (!ph.cols()) { t.viol("initial:none","nothing was asked"); return; }
  t.ok("initial_step"); if (defs && !near(sg,1.0/n,1e-12)) t.viol("initial:default-sigma",fmt("the default step size is %.12g in dimension %d",sg,n));
  for (int i=0;i<n;i++) { double w = 1e-9*(1+std::fabs(c.x0[i])); t.ok("initial_mean"); if (!(mean(i) >= c.x0[i]-w && mean(i) <= hi[i]+w)) t.viol("initial:mean",fmt("coordinate %d starts at %.12g, asked for [%.12g,%.12g]",i,mean(i),c.x0[i],hi[i]));
    double v = 0, e = 0; int N = ph.cols(); for (int j=0;j<N;j++) { v += std::pow((ph(i,j)-mean(i))/sd[i],2); e += (ph(i,j)-mean(i))/sd[i]; } v /= N; e /= N; t.ok("initial_std"); double tol = 7*std::sqrt(2.0/N);
    if (!(v > std::exp(-1.2*tol) && v < 1+1.2*tol+0.1)) t.viol("initial:std",fmt("coordinate %d varies by %.6g times the step size asked for (%.6g)",i,std::sqrt(v),sd[i])); if (!(std::fabs(e) < 7/std::sqrt((double)N))) t.viol("initial:centre",fmt("coordinate %d is off centre by %.6g",i,e)); t.distinct(bits(v)); }
  if (range) { Mon m2(c,[](const double *x, int d) { return f_sphere(x,d); }); m2.go(); t.note("ranges"); }
  t.note("first_populations"); if (vs) t.note("vector_step_sizes");
}
// --- starting points drawn from a range
static void ranges(Ctx &t) {
  Rng &r = t.rng; Gen g; g.dmax = 5; g.algos = {0,1,2,3,4,5,6,7,8,9,10,11}; Cfg c = gen_cfg(r,g); int n = c.dim; if (c.gp >= 2) { c.gp -= 2; c.custom = false; c.scal.clear(); c.shift.clear(); c.vsigma.clear(); if (c.gp == 0) { c.lb.clear(); c.ub.clear(); } }
  c.mode = 2; c.max_iter = 1; c.lambda = 8; c.snap = S_BASIC|S_STATS; c.algo -= c.algo >= 12 ? 12 : 0; c.mt = false; c.uh = false; c.fixed.clear(); c.sigma = r.lg(0.01,10);
  bool autom = c.gp == 0 && r.p(0.3); std::vector<double> lo(n,-4), hi(n,4);
  if (!autom) for (int i=0;i<n;i++) { lo[i] = r.u(-20,20); hi[i] = lo[i]+r.lg(1e-3,20); }
  int how = r.i(0,3); if (how == 0 && !autom) { lo.assign(n,lo[0]); hi.assign(n,hi[0]); }
  if (c.gp & 1) for (int i=0;i<n;i++) { double w = hi[i]-lo[i]; c.lb[i] = lo[i]-3*w-1; c.ub[i] = hi[i]+3*w+1; }
  for (int i=0;i<n;i++) c.x0[i] = 0.5*(lo[i]+hi[i]);
  if (autom) c.ops.push_back(op(O::X0_SCALAR,0,-std::numeric_limits<double>::max()));
  else if (how == 0) c.ops.push_back(opx(O::X0_SCALARS,{lo[0]},{hi[0]})); else c.ops.push_back(opx(how == 1 ? O::X0_PTRS : how == 2 ? O::X0_STDS : O::X0_VECS,lo,hi));
  t.cfg(c); srand(r.i(1,2000000000)); const int K = 160; std::vector<std::vector<double>> u(n); int runs = 0;
  Mon m(c,[](const double *x, int d) { return f_sphere(x,d); }); m.h.asked_state = [&](const Snap &s, const M &, bool) { if (runs) { runs = 0; for (int i=0;i<n;i++) u[i].push_back((s.pheno_mean(i)-lo[i])/(hi[i]-lo[i])); } };
  for (int k=0;k<K;k++) { runs = 1; m.go(); }
  if ((int)u[0].size() != K) { t.viol("range:none",fmt("%zu starts of %d seen",u[0].size(),K)); return; }
  for (int i=0;i<n;i++) { t.ok("range_inside",K); double w = 1e-9*(1+std::fabs(lo[i])+std::fabs(hi[i]))/(hi[i]-lo[i]); for (double x : u[i]) if (!(x >= -w && x <= 1+w)) { t.viol("range:outside",fmt("coordinate %d starts at %.9g of the way through [%.9g,%.9g]",i,x,lo[i],hi[i])); return; }
    std::vector<double> q = u[i]; std::sort(q.begin(),q.end()); double ks = 0; for (int k=0;k<K;k++) ks = std::max(ks,std::max(std::fabs(q[k]-(double)k/K),std::fabs(q[k]-(k+1.0)/K)));
    t.ok("range_uniform"); if (!(ks < 3.3/std::sqrt((double)K))) t.viol("range:uniform",fmt("coordinate %d of %d starts: distance to the uniform distribution %.3g",i,K,ks));
    double ac = 0; for (int k=1;k<K;k++) ac += (u[i][k]-0.5)*(u[i][k-1]-0.5)*12; t.ok("range_independent"); if (!(std::fabs(ac) < 6.5*std::sqrt((double)K))) t.viol("range:repeated",fmt("coordinate %d: starts of successive optimizers correlate by %.3g",i,ac/K));
    for (int j=0;j<i;j++) { double cc = 0; for (int k=0;k<K;k++) cc += (u[i][k]-0.5)*(u[j][k]-0.5)*12; if (!(std::fabs(cc) < 6.5*std::sqrt((double)K))) t.viol("range:coordinates",fmt("coordinates %d and %d of the starts correlate by %.3g",j,i,cc/K)); } }
  t.note(autom ? "automatic_starts" : "ranges_sampled"); t.distinct(hv_hash(u[0].data(),K,7));
}
static void one(Ctx &t) { if (t.rng.p(0.05)) { ranges(t); return; } switch (t.rng.i(0,3)) { case 0: model(t); break; case 1: case 2: order(t); break; default: initial(t); } }
HV_MAIN("C29",8000,300000,one)
