// C04: the internal/user space transforms are mutually consistent, for points and for populations.
#include "common.hh"
using namespace hv;

static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.custom = true; g.dmax = 9;
  Cfg c = gen_cfg(r,g);
  c.custom = r.p(0.3); if (!c.scal.empty()) c.custom = false;
  if (c.custom) { c.ca = r.p(0.5) ? r.u(0.5,3) : -r.u(0.5,3); c.cb = r.u(-1,1); }
  if (c.gp == 2 && r.p(0.3)) { c.scal.clear(); c.shift.clear(); for (int i=0;i<c.dim;i++) { c.scal.push_back(r.lg(1e-3,1e3)); c.shift.push_back(r.u(-20,20)); } c.custom = false; }
  t.cfg(c);
  int n = c.dim; bool bounded = c.gp==1 || c.gp==3;
  GPView gp = make_gp(c);
  int cols = r.pick(std::vector<int>{1,3,17,99,100,101,128});
  // the affine map user -> internal (before bounds and custom functions): int = s*y + sh
  V s = V::Ones(n), sh = V::Zero(n);
  if (!c.scal.empty()) for (int i=0;i<n;i++) { s(i) = c.scal[i]; sh(i) = c.shift[i]; }
  else if (c.gp >= 2) for (int i=0;i<n;i++) { s(i) = 10.0/(c.ub[i]-c.lb[i]); sh(i) = 10.0 - s(i)*c.ub[i]; }
  double ca = c.custom ? c.ca : 1, cb = c.custom ? c.cb : 0;
  // --- user space points
  M ys(n,cols);
  for (int k=0;k<cols;k++) for (int i=0;i<n;i++) {
    if (bounded) {
      double w = c.ub[i]-c.lb[i]; int m = r.i(0,4);
      double v = m==0 ? c.lb[i] : m==1 ? c.ub[i] : m==2 ? c.lb[i]+w*r.lg(1e-12,0.1) : m==3 ? c.ub[i]-w*r.lg(1e-12,0.1) : r.u(c.lb[i],c.ub[i]);
      ys(i,k) = std::min(std::max(v,c.lb[i]),c.ub[i]);
    } else ys(i,k) = r.p(0.2) ? (r.p(0.5)?1:-1)*r.lg(1e-6,1e6) : r.u(-30,30);
  }
  M xs = gp.genoM(ys), back = gp.phenoM(xs);
  for (int k=0;k<cols;k++) {
    V x1 = gp.geno(V(ys.col(k))), b1 = gp.pheno(V(xs.col(k)));
    for (int i=0;i<n;i++) {
      double scale = std::fabs(ys(i,k)) + (bounded ? std::fabs(c.lb[i])+std::fabs(c.ub[i]) : 0) + (std::fabs(sh(i)) + std::fabs(cb))/s(i) + 1e-300;
      t.ok("population_equals_pointwise",2);
      if (!near(x1(i),xs(i,k),1e-10,scale*s(i))) t.viol("matrix-vs-vector:geno",fmt("column %d of %d, coordinate %d: %.17g as a population, %.17g alone",k,cols,i,xs(i,k),x1(i)));
      if (!near(b1(i),back(i,k),1e-10,scale)) t.viol("matrix-vs-vector:pheno",fmt("column %d of %d, coordinate %d: %.17g as a population, %.17g alone",k,cols,i,back(i,k),b1(i)));
      t.ok("user_roundtrip");
      if (!near(back(i,k),ys(i,k),1e-9,scale)) t.viol("roundtrip:user",fmt("y[%d]=%.17g -> internal %.17g -> %.17g",i,ys(i,k),xs(i,k),back(i,k)));
      if (c.gp == 0 || c.gp == 2) { // exact affine form
        double e = ((s(i)*ys(i,k)+sh(i)) - cb)/ca;
        t.ok("affine_form"); if (!near(xs(i,k),e,1e-9,scale*s(i)+std::fabs(sh(i))+1)) t.viol("affine:geno",fmt("y=%.17g -> %.17g, expected %.17g",ys(i,k),xs(i,k),e));
      }
    }
    t.distinct(hv_hash(V(xs.col(k))));
  }
  if (!bounded) { t.note("cases_unbounded"); }
  else {
    t.note("cases_bounded");
    for (int i=0;i<n;i++) {
      // bounds in the internal space of the bounding function
      double L = s(i)*c.lb[i]+sh(i), U = s(i)*c.ub[i]+sh(i), W = U-L;
      double al = std::min(W/2,(1+std::fabs(L))/20), au = std::min(W/2,(1+std::fabs(U))/20);
      double scale = std::fabs(L)+std::fabs(U)+std::fabs(sh(i))+std::fabs(cb)+1;
      auto P = [&](double z) { V x = V::Constant(n,0); for (int j=0;j<n;j++) x(j) = ((s(j)*0.5*(c.lb[j]+c.ub[j])+sh(j))-cb)/ca; x(i) = (z-cb)/ca; return gp.pheno(x)(i); };
      auto G = [&](double y) { V q(n); for (int j=0;j<n;j++) q(j) = 0.5*(c.lb[j]+c.ub[j]); q(i) = y; return ca*gp.geno(q)(i)+cb; };
      double uscale = scale/s(i);
      // identity well inside
      for (int k=0;k<3;k++) if (L+al <= U-au) {
        double z = r.u(L+al,U-au), y = P(z);
        t.ok("interior_identity"); if (!near(y,(z-sh(i))/s(i),1e-10,uscale)) t.viol("interior",fmt("internal %.17g between the margins of [%.17g,%.17g] maps to %.17g instead of %.17g",z,L,U,y,(z-sh(i))/s(i)));
      }
      // end points of the feasible region reach the bounds
      t.ok("bounds_reached",2);
      if (!near(P(L-al),c.lb[i],1e-9,uscale)) t.viol("bound-not-reached",fmt("lower: %.17g -> %.17g, bound %.17g",L-al,P(L-al),c.lb[i]));
      if (!near(P(U+au),c.ub[i],1e-9,uscale)) t.viol("bound-not-reached",fmt("upper: %.17g -> %.17g, bound %.17g",U+au,P(U+au),c.ub[i]));
      // continuous, slope never above one, monotone over the feasible region, periodic outside of it
      for (int k=0;k<6;k++) {
        double z1 = r.u(L-al-2*W,U+au+2*W), z2 = r.p(0.5) ? z1 + W*r.u(-0.05,0.05) : r.u(L-al-2*W,U+au+2*W);
        double y1 = P(z1), y2 = P(z2);
        t.ok("no_expansion"); if (!(std::fabs(y1-y2)*s(i) <= std::fabs(z1-z2)*(1+1e-9)+1e-9*scale)) t.viol("expansion",fmt("internal %.17g,%.17g map to %.17g,%.17g",z1,z2,y1,y2));
        double a = r.u(L-al,U+au), b = r.u(L-al,U+au); if (a>b) std::swap(a,b);
        t.ok("monotone_feasible"); if (!(P(a) <= P(b)+1e-9*uscale)) t.viol("not-monotone",fmt("internal %.17g <= %.17g map to %.17g > %.17g",a,b,P(a),P(b)));
        double per = 2*(W+al+au); int m = r.i(-4,4);
        t.ok("periodic"); if (!near(P(z1+m*per),y1,1e-8,uscale*(1+std::abs(m)))) t.viol("not-periodic",fmt("internal %.17g -> %.17g but %d periods further %.17g",z1,y1,m,P(z1+m*per)));
        t.ok("mirror"); double zm = 2*(L-al)-z1; if (!near(P(zm),y1,1e-8,uscale*4)) t.viol("not-mirrored",fmt("internal %.17g -> %.17g but mirrored at the lower end %.17g",z1,y1,P(zm)));
        // internal round trip over the feasible region
        double z = r.u(L-al,U+au), z3 = G(P(z));
        double cond = 1e-7*std::sqrt(scale*(al+au)) + 1e-9*scale;
        t.ok("internal_roundtrip"); if (!(std::fabs(z3-z) <= cond)) t.viol("roundtrip:internal",fmt("internal %.17g -> user %.17g -> internal %.17g in [%.17g,%.17g]",z,P(z),z3,L-al,U+au));
      }
    }
  }
  // --- in a run: what the objective receives is the transform of the asked candidates
  if (r.p(0.4)) {
    Cfg d = c; d.algo = r.pick(std::vector<int>{0,3,6,9}); d.mode = 2; d.max_iter = 3; d.lambda = r.p(0.2) ? r.i(100,120) : r.i(6,12);
    if (bounded) for (int i=0;i<n;i++) d.x0[i] = 0.5*(d.lb[i]+d.ub[i]);
    std::vector<V> pend;
    Hooks h; 
    h.f = [&](const double *x, int m) {
      if (!pend.empty()) { V e = pend.front(); pend.erase(pend.begin()); for (int i=0;i<m;i++) { t.ok("objective_input_is_transform"); if (x[i]!=e(i)) t.viol("objective-input",fmt("coordinate %d: objective received %.17g, transform of the candidate is %.17g",i,x[i],e(i))); } }
      return f_sphere(x,m); };
    h.asked = [&](const M &cand, const M &ph) {
      pend.clear();
      for (int k=0;k<cand.cols();k++) { V y = gp.pheno(V(cand.col(k))); for (int i=0;i<n;i++) { t.ok("asked_transform"); double scale = std::fabs(y(i)) + (bounded ? std::fabs(c.lb[i])+std::fabs(c.ub[i]) : 1); if (!near(ph(i,k),y(i),1e-10,scale)) t.viol("matrix-vs-vector:run",fmt("%.17g vs %.17g",ph(i,k),y(i))); } pend.push_back(V(ph.col(k))); }
    };
    run(d,h);
    t.note("runs");
  }
  t.sample(c.str());
}
HV_MAIN("C04",8000,400000,one)
