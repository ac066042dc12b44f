// C13: candidates are independent draws of N(mean, sigma^2 C).
#include "shadow.hh"
using namespace hv;
// whitens candidates with the state reported at ask() and accumulates moments
struct Acc {
  int n = 0; long cnt = 0; V s1, s3; M s2; double r2sum = 0, r2sq = 0; std::vector<double> flat; long lagn = 0; double lag = 0; V prev; double neigh = 0; long nn = 0;
  void init(int k) { n = k; s1 = V::Zero(k); s3 = V::Zero(k); s2 = M::Zero(k,k); }
  void add(const V &z) { cnt++; s1 += z; s2 += z*z.transpose(); s3 += z.array().cube().matrix(); for (int i=0;i<z.size();i++) flat.push_back(z(i)); if (prev.size()) { neigh += prev.dot(z); nn += z.size(); } prev = z; }
};
static double phi(double x) { return 0.5*std::erfc(-x/std::sqrt(2.0)); }
static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.dmax = 10; g.algos = {0,0,3,6,9,12};
  Cfg c = gen_cfg(r,g); c.mode = 2; c.snap = S_BASIC|S_MAT; c.restarts = -1;
  if (r.p(0.15)) c.lambda = r.i(41,250);
  if (r.p(0.3)) { c.tpa = 2; if (c.lambda != -1 && c.lambda < 6) c.lambda = 6; }
  if (r.p(0.2)) { c.grad = true; if (c.lambda != -1 && c.lambda < 6) c.lambda = 6; }
  if (r.p(0.15)) c.lazy = true;
  if (r.p(0.15)) c.elitism = r.i(1,2);
  if (r.p(0.2) && c.dim > 1) for (int i=0;i<c.dim;i++) if (r.p(0.3) && (int)c.fixed.size() < c.dim-1) c.fixed.push_back({i,c.x0[i]});
  c.max_iter = r.i(1,25); 
  for (int k : {1,2,3,4,5,6}) c.crit.push_back({k,false});
  bool stretched = r.p(0.12); // late in a run on an ill-conditioned problem, centred on the origin
  if (stretched) { c.dim = is_vd_algo(c.algo) ? 7 : r.i(2,5); c.gp = 0; c.custom = false; c.fixed.clear(); gen_space(r,c,g); c.lambda = is_vd_algo(c.algo) ? r.i(20,60) : -1; c.grad = false; c.tpa = -1; c.elitism = -1; c.max_iter = r.i(100,is_vd_algo(c.algo)?800:1200); for (int k : {7,8}) c.crit.push_back({k,false}); }
  c.extra_at = stretched ? c.max_iter-1-r.i(0,20) : r.i(0,c.max_iter-1);
  int lam = c.lambda < 0 ? 4+(int)(3*std::log(c.dim)) : c.lambda;
  c.extra_asks = std::max(2,(r.p(0.2)?40000:8000)/lam);
  t.cfg(c);
  const Obj &o = objs()[r.i(0,OBJ_SMOOTH-1)];
  double cond = stretched ? std::pow(10.0,r.u(2,13)) : 0;
  V axis = V::Zero(c.dim); if (stretched && r.p(is_vd_algo(c.algo) ? 0.8 : 0.3)) { for (int i=0;i<c.dim;i++) axis(i) = r.n(); axis /= axis.norm(); } // one long axis across the coordinates
  std::vector<int> freei; for (int i=0;i<c.dim;i++) { bool f = false; for (auto &q : c.fixed) f = f || q.first == i; if (!f) freei.push_back(i); }
  int n = freei.size();
  Acc a; a.init(n); M used, W; bool skip = false; M last; double cross = 0; long crossn = 0; M zprev; bool have = false; M gram; long pops = 0; double sumsq = 0, quad = 0;
  std::set<uint64_t> seen; double lastcond = 1;
  Hooks h; Rec rec(cond ? std::function<double(const double*,int)>([cond,axis](const double *x, int d) { double q = 0; if (axis.norm() > 0.5) { V y = Eigen::Map<const V>(x,d); double u = axis.dot(y); return u*u+cond*(y-u*axis).squaredNorm(); } for (int i=0;i<d;i++) q += std::pow(cond,d > 1 ? i/(d-1.0) : 0)*x[i]*x[i]; return q; }) : std::function<double(const double*,int)>(o.f)); rec.keep = false; h.f = rec.fn();
  h.asked_state = [&](const Snap &s, const M &pop, bool extra) {
    if (skip || !(s.sigma > 1e-80 && s.sigma < 1e80)) { skip = true; return; }
    bool full = !s.sep && !s.vd;
    if (!full || s.updated_eigen || !have) {
      M C = s.full_cov, Cf(n,n); for (int i=0;i<n;i++) for (int j=0;j<n;j++) Cf(i,j) = C(freei[i],freei[j]);
      if (s.sep) { Cf.setZero(); for (int i=0;i<n;i++) Cf(i,i) = s.sepcov(freei[i],0); }
      Eigen::SelfAdjointEigenSolver<M> es(Cf); if (!(es.eigenvalues()(0) > 2e-12*es.eigenvalues()(n-1))) { skip = true; return; }
      W = es.eigenvectors()*es.eigenvalues().cwiseSqrt().cwiseInverse().asDiagonal()*es.eigenvectors().transpose(); have = true; lastcond = es.eigenvalues()(n-1)/es.eigenvalues()(0);
      if (!(s.xmean.cwiseAbs().maxCoeff() <= 1e7*s.sigma*std::sqrt(es.eigenvalues()(0)))) { skip = true; return; }
    }
    t.ok("population_size"); if (pop.cols() != s.lambda || pop.rows() != c.dim) { t.viol("population-shape",fmt("%ldx%ld for lambda %d",(long)pop.rows(),(long)pop.cols(),s.lambda)); skip = true; return; }
    int first = c.grad ? 1 : 0; if (c.tpa == 2 && s.niter > 0) first += 2;
    M Z(n,pop.cols()-first);
    for (int k=first;k<pop.cols();k++) {
      V y(n); for (int i=0;i<n;i++) y(i) = (pop(freei[i],k)-s.xmean(freei[i]))/s.sigma;
      // VD: the first draw of a run shares its random numbers with the random initial vector v
      V z = W*y; Z.col(k-first) = z;
      t.ok("samples"); if (!z.allFinite()) { t.viol("not-finite","a candidate is not finite"); skip = true; return; }
      if (!(z.cwiseAbs().maxCoeff() < 9)) t.viol("outlier",fmt("standardized coordinate %.3g",z.cwiseAbs().maxCoeff()));
      a.add(z);
      if (n > 1 && !seen.insert(hv_hash(V(pop.col(k)))).second) t.viol("duplicate","the same candidate was drawn twice");
    }
    if (zprev.size() && zprev.cols() == Z.cols()) { cross += (zprev.cwiseProduct(Z)).sum(); crossn += Z.size(); }
    if (pops == 0 || gram.cols() == Z.cols()) { M G = Z.transpose()*Z; if (pops++) gram += G; else gram = G;
      sumsq += Z.rowwise().sum().squaredNorm()/Z.cols(); for (int k=0;k<G.cols();k++) for (int l=0;l<k;l++) quad += G(k,l)*G(k,l); }
    zprev = Z; t.distinct(hv_hash(V(Z.col(0)))); (void)extra;
  };
  Result res = run(c,h);
  t.note("runs");
  if (skip) t.note("ended_incomparable"); else if (stretched) { t.note("stretched"); if (lastcond > 1e6) t.note("condition_above_1e6"); if (is_vd_algo(c.algo) && lastcond > 1e3) t.note("vd_condition_above_1e3"); if (lastcond > 1e10) t.note("condition_above_1e10"); }
  long N = a.cnt; if (N < 500) return;
  const double T = 7.5; // normal quantile: false alarm probability below 1e-13 per statistic
  double sn = std::sqrt((double)N);
  for (int i=0;i<n;i++) {
    t.ok("mean_statistic"); if (!(std::fabs(a.s1(i))/sn < T)) t.viol("mean",fmt("coordinate %d: standardized mean of %ld draws is %.4g (z=%.1f)",freei[i],N,a.s1(i)/N,a.s1(i)/sn));
    double v = a.s2(i,i)/N, zv = (v-1)*std::sqrt(N/2.0);
    t.ok("variance_statistic"); if (!(std::fabs(zv) < T*(1+T/sn))) t.viol("variance",fmt("coordinate %d: standardized variance of %ld draws is %.5g (z=%.1f)",freei[i],N,v,zv));
    double sk = a.s3(i)/std::sqrt(15.0)/sn; t.ok("skew_statistic"); if (!(std::fabs(sk) < T*(1+20/sn))) t.viol("skew",fmt("coordinate %d: z=%.1f",freei[i],sk));
    for (int j=0;j<i;j++) { double z = a.s2(i,j)/sn; t.ok("correlation_statistic"); if (!(std::fabs(z) < T*(1+T/sn))) t.viol("correlation",fmt("coordinates %d,%d: correlation of %ld draws is %.4g (z=%.1f)",freei[i],freei[j],N,a.s2(i,j)/N,z)); }
  }
  double tr = 0; for (int i=0;i<n;i++) tr += a.s2(i,i); double zt = (tr/(N*n)-1)*std::sqrt(N*n/2.0);
  t.ok("scale_statistic"); if (!(std::fabs(zt) < T)) t.viol("scale",fmt("overall standardized variance of %ld draws is %.6g (z=%.1f)",N*n,tr/(N*n),zt));
  double zn = a.neigh/std::sqrt((double)a.nn); t.ok("neighbour_statistic"); if (!(std::fabs(zn) < T)) t.viol("dependent-neighbours",fmt("correlation of consecutive candidates %.4g (z=%.1f)",a.neigh/a.nn,zn));
  if (crossn > 100) { double zc = cross/std::sqrt((double)crossn); t.ok("generation_statistic"); if (!(std::fabs(zc) < T)) t.viol("dependent-populations",fmt("correlation of consecutive populations %.4g (z=%.1f)",cross/crossn,zc)); }
  if (pops >= 20 && gram.cols() > 1) { // dependence of candidates of the same population
    double q = std::sqrt((double)pops*n); long K = gram.cols(); double worst = 0; int wk = 0, wl = 0;
    for (int k=0;k<K;k++) for (int l=0;l<k;l++) if (!(std::fabs(gram(k,l)) <= worst)) { worst = std::fabs(gram(k,l)); wk = k; wl = l; }
    t.ok("pair_statistic",K*(K-1)/2); if (!(worst/q < T*(1+T/q))) t.viol("dependent-candidates",fmt("candidates %d and %d of a population: correlation %.4g over %ld populations (z=%.1f)",wl,wk,gram(wk,wl)/(pops*n),pops,worst/q));
    double zs = (sumsq/(pops*n)-1)*std::sqrt(pops*n/2.0); t.ok("population_mean_statistic"); if (!(std::fabs(zs) < T*(1+T/q))) t.viol("population-mean",fmt("means of populations vary %.5g times as much as those of independent draws (z=%.1f)",sumsq/(pops*n),zs));
    double pairs = 0.5*K*(K-1), ev = pairs*n, vv = pairs*(3.0*n*(n+2)-n*n+4.0*n*(K-2)), zq = (quad/pops-ev)/std::sqrt(vv/pops);
    t.ok("population_angle_statistic"); if (!(std::fabs(zq) < 2*T)) t.viol("population-angles",fmt("squared scalar products of candidates are %.5g times as large as those of independent draws (z=%.1f)",quad/pops/ev,zq));
  }
  // Kolmogorov-Smirnov distance to the normal distribution
  std::sort(a.flat.begin(),a.flat.end()); double d = 0; size_t K = a.flat.size();
  for (size_t i=0;i<K;i++) { double p = phi(a.flat[i]); d = std::max({d,std::fabs(p-double(i)/K),std::fabs(p-double(i+1)/K)}); }
  t.ok("normality_statistic"); if (!(d*std::sqrt((double)K) < 4.2)) t.viol("not-normal",fmt("Kolmogorov-Smirnov statistic %.3g over %zu values",d*std::sqrt((double)K),K));
  t.sample(c.str()+fmt(" obj=%s draws=%ld variance=%.6g",o.name.c_str(),N,tr/(N*n)));
}
HV_MAIN("C13",1600,80000,one)
