// C03: with bounds, the objective is never evaluated outside of the box, and results lie inside.
#include "common.hh"
using namespace hv;
static bool inside(const double *x, const Cfg &c, int *bad) {
  for (int i=0;i<c.dim;i++) if (!(x[i] >= c.lb[i] && x[i] <= c.ub[i])) { *bad = i; return false; }
  return true;
}
static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.gps = {1,3}; g.custom = true; g.dmax = 7;
  Cfg c = gen_cfg(r,g);
  c.mode = r.pick(std::vector<int>{0,1,1,2});
  if (c.mode == 2) c.algo -= restart_kind(c.algo);
  // stress: large steps, narrow boxes, start on the edge
  if (r.p(0.25)) c.sigma *= r.lg(1,1e6);
  if (r.p(0.1)) for (int i=0;i<c.dim;i++) { double w = r.lg(1e-9,1e-3)*std::max(1.0,std::fabs(c.lb[i])); c.ub[i] = c.lb[i]+w; c.x0[i] = c.lb[i]+0.5*w; }
  if (r.p(0.15)) { c.tpa = 2; if (c.lambda!=-1 && c.lambda<5) c.lambda = 5; }
  if (r.p(0.2) && !is_vd_algo(c.algo)) c.grad = true;
  if (r.p(0.2)) { c.uh = true; if (c.lambda!=-1 && c.lambda<5) c.lambda = 5; }
  if (r.p(0.2)) c.elitism = r.i(0,3);
  if (r.p(0.1)) c.initfv = true;
  if (r.p(0.1)) c.lazy = true;
  if (r.p(0.15)) c.maximize = true;
  if (r.p(0.1)) c.edm = true;
  if (c.gp == 3 && r.p(0.25)) { // per-parameter step sizes
    c.vsigma.clear(); for (int i=0;i<c.dim;i++) c.vsigma.push_back(r.lg(0.05,5)); c.scal.clear(); c.shift.clear(); c.custom = false;
  }
  c.max_iter = iters(r,c,5,40);
  c.restarts = nruns(r,c,1,2);
  t.cfg(c);
  const Obj &o = objs()[r.i(0,OBJ_ALL-1)];
  // optimum of the wrapped objective: anywhere, often outside of the box or at an edge
  V ctr(c.dim); for (int i=0;i<c.dim;i++) { int k = r.i(0,3); ctr(i) = k==0 ? c.lb[i] : k==1 ? c.ub[i] : k==2 ? c.lb[i]-(c.ub[i]-c.lb[i]) : r.u(c.lb[i],c.ub[i]); }
  Rec rec([&](const double *x, int n) {
    int bad = 0; 
    t.ok("objective_call_in_box");
    if (!inside(x,c,&bad)) t.viol("outside-box",fmt("objective called with x[%d]=%.17g outside [%.17g,%.17g]",bad,x[bad],c.lb[bad],c.ub[bad]));
    V z(n); for (int i=0;i<n;i++) z(i) = x[i]-ctr(i);
    return o.f(z.data(),n); });
  rec.keep = false;
  Hooks h; h.f = rec.fn();
  h.asked = [&](const M &, const M &ph) { for (int k=0;k<ph.cols();k++) { V col = ph.col(k); int bad=0; t.ok("asked_phenotype_in_box"); if (!inside(col.data(),c,&bad)) t.viol("outside-box:ask",fmt("phenotype %.17g",col(bad))); } };
  if (c.grad && r.p(0.4)) h.grad = [&](const double *x, int n) { int bad=0; t.ok("gradient_call_in_box"); if (!inside(x,c,&bad)) t.viol("outside-box:gradient",fmt("x[%d]=%.17g",bad,x[bad])); return V(V::Ones(n)); };
  Result res = run(c,h);
  int bad = 0;
  t.ok("reported_mean_in_box"); if (res.s.pheno_mean.size() && !inside(res.s.pheno_mean.data(),c,&bad)) t.viol("outside-box:mean",fmt("phenotype of the mean x[%d]=%.17g outside [%.17g,%.17g]",bad,res.s.pheno_mean(bad),c.lb[bad],c.ub[bad]));
  t.ok("reported_best_in_box"); if (res.s.pheno_best.size() && !inside(res.s.pheno_best.data(),c,&bad)) t.viol("outside-box:best",fmt("phenotype of the best candidate x[%d]=%.17g",bad,res.s.pheno_best(bad)));
  t.distinct(mix(hv_hash(res.s.best.x)) ^ c.algo);
  // the transform itself, on arbitrary finite genotypes
  Cfg cg = c; if (!c.vsigma.empty()) { cg.scal.clear(); for (double s : c.vsigma) cg.scal.push_back(1.0/s); cg.shift.assign(c.dim,0); }
  GPView gp = make_gp(cg);
  M xs(c.dim, 120);
  for (int k=0;k<xs.cols();k++) for (int i=0;i<c.dim;i++) {
    double w = c.ub[i]-c.lb[i], v;
    switch (r.i(0,6)) {
      case 0: v = r.u(c.lb[i]-3*w,c.ub[i]+3*w); break; case 1: v = c.lb[i]; break; case 2: v = c.ub[i]; break;
      case 3: v = (r.p(0.5)?1:-1)*r.lg(1,1e18); break; case 4: v = (r.p(0.5)?c.lb[i]:c.ub[i]) + (r.p(0.5)?1:-1)*w*r.lg(1e-16,1e3); break;
      case 5: v = (r.p(0.5)?1:-1)*r.lg(1e2,1e200); break; default: v = r.u(-12,22); }
    xs(i,k) = v;
  }
  M ys = gp.phenoM(xs);
  for (int k=0;k<xs.cols();k++) {
    V y = ys.col(k), y1 = gp.pheno(V(xs.col(k)));
    t.ok("transform_in_box",2);
    if (!inside(y.data(),c,&bad)) t.viol("outside-box:transform",fmt("genotype %.17g -> %.17g outside [%.17g,%.17g]",xs(bad,k),y(bad),c.lb[bad],c.ub[bad]));
    if (!inside(y1.data(),c,&bad)) t.viol("outside-box:transform",fmt("genotype %.17g -> %.17g outside [%.17g,%.17g]",xs(bad,k),y1(bad),c.lb[bad],c.ub[bad]));
  }
  t.note("runs"); if (rec.n) t.sample(c.str()+" obj="+o.name+fmt(" calls=%ld",rec.n.load()));
}
HV_MAIN("C03",1600,60000,one)
