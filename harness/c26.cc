// C26: the ranking SVM: constraints, progress of its training, predictions and errors, independence of threads.
#include "common.hh"
#include <libcmaes/surrogates/rankingsvm.hpp>
#ifdef _OPENMP
#include <omp.h>
#else
static void omp_set_num_threads(int) {}
#endif
using namespace hv;
struct Case { int n, l, niter, kern; bool enc, vec; M x, cinv; V mean; double Cval, eps; int threads; std::vector<double> f; };
static double kref(int kern, const V &a, const V &b, double gamma) { double d = a.dot(b); switch (kern) { case 0: return std::exp(-gamma*(a-b).squaredNorm()); case 1: return d; case 2: return std::pow(d+1,2); default: return std::pow(d+1,3); } }
static V encref(const Case &c, const V &x) { if (!c.enc) return x; V y = x-c.mean; if (c.cinv.cols() > 1) return c.cinv*y; return c.cinv.col(0).cwiseProduct(y); }
template<class K> static void setk(RankingSVM<K> &, double, double) {}
static void setk(RankingSVM<RBFKernel> &s, double a, double p) { s._kernel._sigma_a = a; s._kernel._sigma_pow = p; }
template<class K> static void go(Ctx &t, const Case &c, double sa, double sp) {
  Rng &r = t.rng; int na = c.l-1;
  auto mk = [&]() { RankingSVM<K> s; s._encode = c.enc; s._Cval = c.Cval; s._epsilon = c.eps; setk(s,sa,sp); return s; };
  auto train = [&](int it, int th) { RankingSVM<K> s = mk(); omp_set_num_threads(th); M x = c.x; s.train(x,it,c.cinv,c.mean); return s; };
  { RankingSVM<K> s = mk(); M a = c.x, b = c.x; V fit, rf = Eigen::Map<const V>(c.f.data(),c.l); s.predict(fit,a,b,c.cinv,c.mean); t.ok("untrained"); if (fit.size()) t.viol("untrained","an untrained model predicts"); M a2 = c.x, b2 = c.x; if (s.error(a2,b2,rf,c.cinv,c.mean) != 1.0) t.viol("untrained-error","the error of an untrained model is not 1"); }
  // reference kernel
  M e(c.n,c.l); for (int i=0;i<c.l;i++) e.col(i) = encref(c,c.x.col(i));
  double avg = 0; for (int i=0;i<c.l;i++) for (int j=i+1;j<c.l;j++) avg += (e.col(i)-e.col(j)).norm(); avg /= 0.5*c.l*(c.l-1.0); double sg = sa*std::pow(avg,sp), gamma = 1/(2*sg*sg);
  M KK(c.l,c.l), D(na,na); for (int i=0;i<c.l;i++) for (int j=0;j<c.l;j++) KK(i,j) = kref(c.kern,e.col(i),e.col(j),gamma); for (int i=0;i<na;i++) for (int j=0;j<na;j++) D(i,j) = KK(i,j)-KK(i,j+1)-KK(i+1,j)+KK(i+1,j+1);
  auto dual = [&](const V &a) { return c.eps*a.sum()-0.5*a.dot(D*a); };
  auto dscale = [&](const V &a) { return c.eps*a.cwiseAbs().sum()+0.5*a.cwiseAbs().dot(D.cwiseAbs()*a.cwiseAbs()); };
  std::vector<int> its = {0,r.i(1,na),na*r.i(2,6),c.niter}; std::sort(its.begin(),its.end()); double last = -INFINITY; V first;
  RankingSVM<K> s = mk();
  for (int it : its) {
    s = train(it,1); V a = s._alpha; if (a.size() != na) { t.viol("size",fmt("%d coefficients for %d points",(int)a.size(),c.l)); return; }
    for (int i=0;i<na;i++) { double Ci = c.Cval*std::pow(i+1.0,2); t.ok("box"); if (!near(s._C(i),Ci,1e-12)) { t.viol("weights",fmt("limit %d of %d is %.17g instead of %.17g",i,na,s._C(i),Ci)); return; } if (!(a(i) >= 0 && a(i) <= Ci*(1+1e-12))) { t.viol("box",fmt("coefficient %d is %.17g, limit %.17g (%d iterations)",i,a(i),Ci,it)); return; }
      if (it == 0) { t.ok("start"); if (!(a(i) >= 0.95*Ci*(1-1e-12) && a(i) <= Ci*(1+1e-12))) t.viol("start",fmt("coefficient %d starts at %.17g, limit %.17g",i,a(i),Ci)); } }
    double d = dual(a); t.ok("ascent"); if (!(d >= last-1e-9*dscale(a)-1e-9*std::fabs(last))) { t.viol("ascent",fmt("the dual objective fell from %.12g to %.12g after %d iterations",last,d,it)); return; } last = d; }
  // every coefficient must have been visited by the last run, and a sweep must help a model that is not optimal
  V a = s._alpha; V g = V::Constant(na,c.eps)-D*a; // gradient
  if (c.niter >= 200*na) { t.ok("optimality"); // what one more exact step on any single coefficient could still gain
    double gain = 0; for (int i=0;i<na;i++) { if (!(D(i,i) > 1e-12)) continue; double st = std::min(std::max(a(i)+g(i)/D(i,i),0.0),c.Cval*std::pow(i+1.0,2))-a(i); double dl = st*D(i,i)*(g(i)/D(i,i)-0.5*st); if (!(st*D(i,i)*(g(i)/D(i,i)-0.5*st+c.eps) > 0)) continue; gain = std::max(gain,dl); }
    V a0 = V(na); for (int i=0;i<na;i++) a0(i) = c.Cval*std::pow(i+1.0,2)*0.975; double base = dual(a0);
    if (!(gain <= 1e-2*std::max(last-base,1e-9*dscale(a0)))) t.viol("not-optimized",fmt("a single step could still gain %.6g of the %.6g gained by %d iterations over %d coefficients",gain,last-base,c.niter,na)); }
  // predictions
  int m = r.i(1,12); M xt(c.n,m); for (int i=0;i<m;i++) { xt.col(i) = c.x.col(r.i(0,c.l-1)); for (int k=0;k<c.n;k++) xt(k,i) += r.n()*0.5; }
  auto predict = [&](RankingSVM<K> &s, const M &q, int th) { omp_set_num_threads(th); V fit; M xx = q, tr = c.x; s.predict(fit,xx,tr,c.cinv,c.mean); return fit; };
  V fit = predict(s,xt,1); if (fit.size() != m) { t.viol("prediction-size",""); return; }
  for (int i=0;i<m;i++) { V z = encref(c,xt.col(i)); double w = 0, sc = 0; for (int j=0;j<na;j++) { double k0 = kref(c.kern,z,e.col(j),gamma), k1 = kref(c.kern,z,e.col(j+1),gamma); w += a(j)*(k0-k1); sc += a(j)*(std::fabs(k0)+std::fabs(k1)); } t.ok("prediction"); if (!(std::fabs(w-fit(i)) <= 1e-9*sc+1e-12)) { t.viol("prediction",fmt("%.12g, expected %.12g",fit(i),w)); break; } t.distinct(bits(fit(i))); }
  V ref(m); for (int i=0;i<m;i++) ref(i) = r.p(0.1) ? 0 : f_elli(xt.col(i).data(),c.n);
  { long bad = 0; for (int i=0;i<m;i++) for (int j=0;j<m;j++) bad += (ref(i) > ref(j) && fit(i) < fit(j)) || (ref(i) < ref(j) && fit(i) > fit(j)); M q = xt, tr = c.x; double er = s.error(q,tr,ref,c.cinv,c.mean), w = m > 1 ? bad/(double)(m*m-m) : 0; t.ok("error"); if (m > 1 && !near(er,w,1e-12,1)) t.viol("error",fmt("%.12g, expected %.12g",er,w)); }
  // learnt order on the training set itself
  { V ft = predict(s,c.x,1); long ok = 0, tot = 0; for (int i=0;i+1<c.l;i++) if (c.f[i] > c.f[i+1]) { tot++; ok += ft(i) > ft(i+1); } t.note("pairs_in_order",ok); t.note("pairs",tot); }
  // the same result whatever the number of threads, and again
  RankingSVM<K> s2 = train(its.back(),c.threads); t.ok("threads"); if (!same(V(s2._alpha),a)) t.viol("threads",fmt("training with %d threads differs",c.threads)); V fit2 = predict(s,xt,c.threads); if (!same(fit2,fit)) t.viol("threads-predict",fmt("prediction with %d threads differs",c.threads)); V f3 = predict(s,xt,1); t.ok("model_unchanged"); if (!same(f3,fit)) t.viol("model-changed","predicting twice gives different values");
  t.note(c.enc ? (c.cinv.cols() > 1 ? "encoded_full" : "encoded_diagonal") : "not_encoded");
  t.sample(fmt("kernel %d points %d dim %d iterations %d threads %d dual %.6g",c.kern,c.l,c.n,c.niter,c.threads,last));
}
static void one(Ctx &t) {
  Rng &r = t.rng; Case c; c.n = r.i(1,8); c.l = r.i(2,r.p(0.2)?60:25); c.kern = r.i(0,3) ; if (r.p(0.5)) c.kern = 0; c.enc = r.p(0.5); c.vec = r.p(0.4) || c.n == 1; c.Cval = r.pick(std::vector<double>{1e6,1e6,1e3,1,0.01}); c.eps = r.p(0.7) ? 1.0 : r.lg(0.1,5); c.threads = r.i(2,4); c.niter = r.p(0.5) ? r.i(1,50)*c.l : r.i(200,2000)*c.l; if (r.p(0.03)) c.n = r.i(9,40); if (r.p(0.02)) { c.l = r.i(100,300); c.niter = r.i(1,5)*c.l; }
  M x(c.n,c.l); double w = r.lg(0.1,10); std::vector<std::pair<double,int>> o; int ob = r.i(0,9);
  for (int i=0;i<c.l;i++) { for (int k=0;k<c.n;k++) x(k,i) = r.n()*w; if (i > 1 && r.p(0.02)) x.col(i) = x.col(i-1); o.push_back({objs()[ob].f(x.col(i).data(),c.n),i}); }
  std::sort(o.begin(),o.end(),[](const std::pair<double,int> &a, const std::pair<double,int> &b) { return a.first > b.first; }); c.x = x; for (int i=0;i<c.l;i++) { c.x.col(i) = x.col(o[i].second); c.f.push_back(o[i].first); }
  c.mean = V(c.n); for (int k=0;k<c.n;k++) c.mean(k) = r.n(); if (c.vec) { c.cinv = M(c.n,1); for (int k=0;k<c.n;k++) c.cinv(k,0) = r.lg(0.2,5); } else { c.cinv = M::Identity(c.n,c.n)*1.5; for (int i=0;i<c.n;i++) for (int j=0;j<c.n;j++) c.cinv(i,j) += 0.3*r.n(); }
  Cfg k; k.dim = c.n; k.lambda = c.l; t.cfg(k); double sa = r.p(0.6) ? 1 : r.lg(0.3,3), sp = r.p(0.7) ? 1 : r.u(0.5,1.5);
  switch (c.kern) { case 0: go<RBFKernel>(t,c,sa,sp); break; case 1: go<LinearKernel>(t,c,1,1); break; case 2: go<PolyKernel<2>>(t,c,1,1); break; default: go<PolyKernel<3>>(t,c,1,1); }
}
HV_MAIN("C26",1600,60000,one)
