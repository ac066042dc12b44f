// C16: invariances of the search: only the ranking of values matters; scaling the problem scales the run.
#include "mon.hh"
using namespace hv;
struct Tr { std::vector<Rec::Call> calls; std::vector<std::vector<long>> segs; Snap fin; std::vector<std::vector<Snap>> st; };
static Tr go(const Cfg &c, std::function<double(const double*,int)> f, std::function<V(const double*,int)> g = {}) {
  Mon m(c,std::move(f)); m.rec.cap = 1000000; if (g) m.h.grad = g; m.go(); Tr t; t.calls.swap(m.rec.calls); t.fin = m.res.s;
  for (auto &s : m.segs) { t.segs.emplace_back(); t.st.emplace_back(); for (auto &q : s.g) { t.segs.back().push_back(q.calls); t.st.back().push_back(q.s); } } return t; }
static void one(Ctx &t) {
  Rng &r = t.rng;
  int kind = r.i(0,6);
  Gen g; g.dmax = 8; g.algos = {0,1,3,4,6,7,9,10,12};
  if (kind == 3 || kind == 5) g.gps = {0};
  if (kind == 4) g.gps = {2};
  if (kind == 5) g.algos = {6,7,9,10,12}; // with a full covariance the axes depend on rounding: only the distribution is invariant
  Cfg c = gen_cfg(r,g);
  if (kind == 4 && c.scal.empty()) { for (int i=0;i<c.dim;i++) { c.scal.push_back(r.lg(0.1,10)); c.shift.push_back(r.u(-2,2)); } }
  c.mode = r.pick(std::vector<int>{0,1,1,2,3}); if (c.mode == 2) c.algo -= restart_kind(c.algo); 
  if (r.p(0.2)) { c.tpa = 2; if (c.lambda != -1 && c.lambda < 6) c.lambda = 6; }
  if (r.p(0.2)) c.elitism = r.i(1,3);
  if (r.p(0.15)) c.lazy = true;
  if (r.p(0.15)) c.initfv = true;
  if (r.p(0.1)) c.noisy = true;
  if (r.p(0.15)) for (int i=0;i<c.dim;i++) if (r.p(0.3) && (int)c.fixed.size() < c.dim-1 && c.gp == 0) c.fixed.push_back({i,c.x0[i]});
  c.max_iter = iters(r,c,3,60); c.restarts = r.i(1,2);
  c.crit.push_back({1,false}); if (kind == 1) c.crit.push_back({6,false});
  bool grad = (kind == 0 || kind == 2) && r.p(0.2); if (grad) { c.grad = true; if (c.lambda != -1 && c.lambda < 7) c.lambda = 7; }
  int oi = r.i(0,kind == 5 ? OBJ_SMOOTH-1 : OBJ_ALL-1); const Obj &o = objs()[oi];
  c.snap = S_BASIC;
  if (kind == 5) { c.max_iter = r.i(1,8); c.restarts = 1; c.tpa = -1; }
  t.cfg(c);
  auto f = o.f; auto gg = o.g; bool ug = grad && gg && r.p(0.5);
  int k = r.i(-20,20); double p2 = std::ldexp(1.0,k);
  Tr a = go(c,f,ug ? gg : std::function<V(const double*,int)>()), b; double sc = 1; Cfg d = c; bool exact = true; std::vector<double> sh(c.dim,0);
  const char *name = "";
  if (kind == 0) { name = "value_scaling"; b = go(d,[f,p2](const double *x, int n) { return p2*f(x,n); },ug ? [gg,p2](const double *x, int n) { return V(p2*gg(x,n)); } : std::function<V(const double*,int)>()); }
  else if (kind == 1) {
    int tr = r.i(0,3); name = "monotone_transform";
    auto T = [tr](double v) { switch (tr) { case 0: return std::atan(v/50); case 1: return v*v*v+v; case 2: return v < 0 ? -std::sqrt(-v) : std::sqrt(v); default: return std::expm1(v/1e4)*3-7; } };
    b = go(d,[f,T](const double *x, int n) { return T(f(x,n)); });
    // the transform, rounded, has to keep the order of all values met
    std::vector<double> v; for (auto &cl : a.calls) v.push_back(cl.v); std::sort(v.begin(),v.end());
    for (size_t i=1;i<v.size();i++) if (v[i] != v[i-1] && !(T(v[i]) > T(v[i-1]))) { t.note("skipped_order_lost"); return; }
    for (double q : v) if (!std::isfinite(T(q))) { t.note("skipped_order_lost"); return; }
  }
  else if (kind == 2) { name = "maximize_of_opposite"; d.maximize = true; b = go(d,[f](const double *x, int n) { return -f(x,n); },ug ? [gg](const double *x, int n) { return V(-gg(x,n)); } : std::function<V(const double*,int)>()); }
  else if (kind == 3) { name = "space_scaling"; sc = p2; d.sigma *= p2; for (auto &x : d.x0) x *= p2; for (auto &q : d.fixed) q.second *= p2;
    b = go(d,[f,p2](const double *x, int n) { std::vector<double> y(x,x+n); for (auto &q : y) q /= p2; return f(y.data(),n); }); }
  else if (kind == 4) { name = "linear_scaling"; // y = (internal-shift)/scal: dividing the scaling by 2^k multiplies user space
    sc = p2; for (auto &x : d.x0) x *= p2; for (auto &x : d.scal) x /= p2;
    b = go(d,[f,p2](const double *x, int n) { std::vector<double> y(x,x+n); for (auto &q : y) q /= p2; return f(y.data(),n); }); }
  else if (kind == 5) { name = "translation"; exact = false; for (auto &q : sh) q = r.u(-10,10); for (int i=0;i<c.dim;i++) d.x0[i] += sh[i]; for (auto &q : d.fixed) q.second += sh[q.first];
    b = go(d,[f,sh](const double *x, int n) { std::vector<double> y(x,x+n); for (int i=0;i<n;i++) y[i] -= sh[i]; return f(y.data(),n); }); }
  else { name = "value_offset"; // adding a constant: only when exactly representable does the order stay; use a step-like integer objective
    double off = r.i(-1000,1000); auto q = [f](const double *x, int n) { double v = f(x,n); return std::fabs(v) < 1e12 ? std::floor(v*1024) : v; };
    c.grad = d.grad = false; a = go(c,q); b = go(d,[q,off](const double *x, int n) { return q(x,n)+off; });
    for (auto &cl : a.calls) if (!(std::fabs(cl.v) < 1e12)) { t.note("skipped_order_lost"); return; } }
  t.note(name);
  if (exact) {
    t.ok("same_number_of_calls"); if (a.calls.size() != b.calls.size()) { t.viol(fmt("%s:calls",name),fmt("%zu and %zu objective calls (k=%d)",a.calls.size(),b.calls.size(),k)); return; }
    for (size_t i=0;i<a.calls.size();i++) { t.ok("same_point"); for (int j=0;j<c.dim;j++) if (a.calls[i].x[j]*sc != b.calls[i].x[j]) { t.viol(fmt("%s:point",name),fmt("call %zu of %zu, coordinate %d: %.17g, expected %.17g (factor 2^%d)",i,a.calls.size(),j,b.calls[i].x[j],a.calls[i].x[j]*sc,k)); return; } }
    t.ok("same_status"); if (a.fin.status != b.fin.status || a.fin.niter != b.fin.niter) t.viol(fmt("%s:status",name),fmt("status %d after %d, and %d after %d iterations",a.fin.status,a.fin.niter,b.fin.status,b.fin.niter));
    t.ok("same_state"); double ss = kind == 3 ? sc : 1; 
    if (!same(a.fin.sigma*ss,b.fin.sigma)) t.viol(fmt("%s:sigma",name),fmt("final step size %.17g, expected %.17g",b.fin.sigma,a.fin.sigma*ss));
    if (a.fin.sigma_init*ss != b.fin.sigma_init) t.note("sigma_init_differs");
  } else {
    // generation by generation while no two values are close to a tie
    double scale = 1; for (double x : d.x0) scale = std::max(scale,std::fabs(x)); for (double x : sh) scale = std::max(scale,std::fabs(x));
    size_t n = std::min(a.calls.size(),b.calls.size()), lim = n; double tol = 1e-11*scale;
    for (auto &sg : a.segs) for (size_t i=1;i<sg.size();i++) { // tie guard for the generation [sg[i-1],sg[i])
      std::vector<double> v; for (long q=sg[i-1];q<sg[i] && q<(long)n;q++) v.push_back(a.calls[q].v); std::sort(v.begin(),v.end());
      for (size_t j=1;j<v.size();j++) if (v[j]-v[j-1] <= 1e-6*(1+std::fabs(v[j]))) lim = std::min<size_t>(lim,sg[i]); }
    if (c.elitism > 0) lim = std::min<size_t>(lim,a.segs[0].size() > 1 ? a.segs[0][1] : 0);
    for (size_t i=0;i<lim;i++) { double gr = 1+10.0*i/std::max(4,c.lambda); t.ok("same_point"); for (int j=0;j<c.dim;j++) { double e = std::fabs(a.calls[i].x[j]+sh[j]-b.calls[i].x[j]); if (!(e <= tol*std::pow(4,std::min(gr,12.0)))) { t.viol("translation:point",fmt("call %zu, coordinate %d: %.17g, expected %.17g",i,j,b.calls[i].x[j],a.calls[i].x[j]+sh[j])); return; } } }
    t.note("translation_points_compared",lim);
  }
  uint64_t h = mix(kind); for (auto &cl : a.calls) h = hv_hash(cl.x.data(),c.dim,h); t.distinct(h);
  t.sample(std::string(name)+": "+c.str()+fmt(" obj=%s calls=%zu",o.name.c_str(),a.calls.size()));
}
HV_MAIN("C16",3000,150000,one)
