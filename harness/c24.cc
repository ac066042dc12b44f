// C24: partial optimization (some parameters held), profile likelihood, contours.
#include "common.hh"
#include "api_impl.hh"
#include <libcmaes/errstats.h>
using namespace hv;
struct Quad { M A, Ai; V m; double c0; int n;
  double operator()(const double *x) const { V d = Eigen::Map<const V>(x,n)-m; return 0.5*d.dot(A*d)+c0; }
  // minimum over the other parameters when those in k have the values v
  double prof(const std::vector<int> &k, const std::vector<double> &v, V *arg = nullptr) const { int q = k.size(); M S(q,q); V d(q); for (int i=0;i<q;i++) { d(i) = v[i]-m(k[i]); for (int j=0;j<q;j++) S(i,j) = Ai(k[i],k[j]); }
    V w = S.ldlt().solve(d); if (arg) { M C(n,q); for (int i=0;i<n;i++) for (int j=0;j<q;j++) C(i,j) = Ai(i,k[j]); *arg = m+C*w; } return c0+0.5*d.dot(w); } };
static Quad mkquad(Rng &r, int n) { Quad q; q.n = n; M B(n,n); for (int i=0;i<n;i++) for (int j=0;j<n;j++) B(i,j) = (i == j ? 1.5 : 0)+0.35*r.n(); q.A = B*B.transpose()+0.2*M::Identity(n,n); q.Ai = q.A.inverse(); q.m = V(n); for (int i=0;i<n;i++) q.m(i) = (r.p(0.5)?1:-1)*r.u(0.5,4); q.c0 = r.p(0.7) ? r.u(0.5,5) : 0; return q; }
template<class GP> static void go(Ctx &t, Cfg &c) {
  Rng &r = t.rng; int n = c.dim; Quad q = mkquad(r,n); bool quad = r.p(0.75); int oi = r.i(0,OBJ_ALL-1); const Obj &o = objs()[oi];
  int kind = r.i(0,10); // 0-6 partial optimization, 7-8 profile, 9 contour, 10 profile whose partial optimizations fail
  if (kind >= 9 && is_vd_algo(c.algo)) kind = 7; // contours and failing ends need every run to converge, VD may end early
  if (kind >= 7) { quad = true; if (n < 2) kind = 6; }
  // the optimum of the quadratic well inside of the box
  if (!c.lb.empty()) for (int i=0;i<n;i++) { double w = kind >= 7 ? r.u(20,60) : r.u(6,30); c.lb[i] = q.m(i)-w*r.u(0.4,0.6); c.ub[i] = c.lb[i]+w; c.x0[i] = r.u(c.lb[i]+0.3*w,c.ub[i]-0.3*w); }
  else for (int i=0;i<n;i++) c.x0[i] = r.u(-5,5);
  c.sigma = r.u(0.2,1); t.cfg(c);
  Rec rec(quad ? std::function<double(const double*,int)>([&](const double *x, int k) { return k == n ? q(x) : (double)NAN; }) : o.f); rec.cap = 3000000;
  FitFunc f = [&](const double *x, const int &k) { return rec(x,k); };
  CMAParameters<GP> p = mkparams<GP>(c); GPView gp = make_gp(c);
  CMASolutions sol = cmaes<GP>(f,p); 
  auto inside = [&](const V &y) { if (c.gp == 1 || c.gp == 3) for (int i=0;i<n;i++) if (!(y(i) >= c.lb[i]+0.15*(c.ub[i]-c.lb[i]) && y(i) <= c.ub[i]-0.15*(c.ub[i]-c.lb[i]))) return false; return true; };
  V yb = sol.best_candidate().get_x_pheno_dvec(p); double fb = sol.best_candidate().get_fvalue();
  rec.calls.clear(); rec.n = 0;
  if (kind < 7) {
    std::vector<int> k; for (int i=0;i<n;i++) if (r.p(n <= 2 ? 0.6 : 0.4)) k.push_back(i); if (k.empty()) k.push_back(r.i(0,n-1));
    if (r.p(0.1)) { k.clear(); for (int i=0;i<n;i++) k.push_back(i); }
    if (r.p(0.4)) for (int i=k.size()-1;i>0;i--) std::swap(k[i],k[r.i(0,i)]);
    bool pv = r.p(0.7), px = r.p(0.7); std::vector<double> vk, want; V gv = V::Zero(n);
    for (int i : k) { double w = c.lb.empty() ? 3 : 0.2*(c.ub[i]-c.lb[i]), y = (quad ? q.m(i) : yb(i))+r.u(-w,w); if (!c.lb.empty() && c.gp != 2) y = std::min(std::max(y,c.lb[i]),c.ub[i]); want.push_back(y); }
    V full = yb; for (size_t i=0;i<k.size();i++) full(k[i]) = want[i];
    V g = gp.geno(full); for (size_t i=0;i<k.size();i++) { vk.push_back(pv ? want[i] : g(k[i])); if (!pv) gv(k[i]) = g(k[i]); }
    if (!pv) { V y = gp.pheno(gv); for (size_t i=0;i<k.size();i++) want[i] = y(k[i]); }
    V x0(n); for (int i=0;i<n;i++) x0(i) = c.x0[i]; V x0y = x0; if (!px) { x0 = gp.geno(x0y); }
    CMASolutions s = k.size() == 1 && r.p(0.5) ? errstats<GP>::optimize_pk(f,p,sol,k[0],vk[0],x0,px,pv) : errstats<GP>::optimize_vpk(f,p,sol,k,vk,x0,px,pv);
    long nc = rec.calls.size(); std::vector<bool> held(n,false); for (int i : k) held[i] = true; bool all = (int)k.size() == n;
    t.note(all ? "all_held" : "some_held"); t.note(pv ? "values_user_space" : "values_internal");
    V lo = V::Constant(n,INFINITY), hi = -lo;
    for (auto &cl : rec.calls) { t.ok("held_coordinates"); if ((int)cl.x.size() != n) { t.viol("dimension",fmt("%zu instead of %d",cl.x.size(),n)); return; }
      for (size_t i=0;i<k.size();i++) if (!near(cl.x[k[i]],want[i],1e-9,1)) { t.viol("held-value",fmt("parameter %d evaluated at %.17g, held at %.17g",k[i],cl.x[k[i]],want[i])); return; }
      for (int i=0;i<n;i++) { lo(i) = std::min(lo(i),cl.x[i]); hi(i) = std::max(hi(i),cl.x[i]); if ((c.gp == 1 || c.gp == 3) && !(cl.x[i] >= c.lb[i] && cl.x[i] <= c.ub[i])) { t.viol("out-of-bounds",fmt("parameter %d at %.17g, bounds %.17g and %.17g",i,cl.x[i],c.lb[i],c.ub[i])); return; } } }
    t.ok("counted"); if (s.nevals() != nc) t.viol("evaluations",fmt("%d reported, %ld made",s.nevals(),nc));
    t.ok("one_candidate"); if (s.size() != 1 || s.best_candidate().get_x_size() != (unsigned)n) { t.viol("result-shape",fmt("%d candidates of size %d",s.size(),(int)s.best_candidate().get_x_size())); return; }
    V xr = s.best_candidate().get_x_dvec(), yr = gp.pheno(xr); double fr = s.best_candidate().get_fvalue();
    bool plain = !all || pv == false || c.gp == 0; // with all parameters held the point itself is stored
    if (all) yr = (c.gp == 0 && !c.custom) ? xr : yr;
    t.ok("result_held"); for (size_t i=0;i<k.size();i++) if (!near(yr(k[i]),want[i],1e-6,1)) { t.viol(all ? "result-held-all" : "result-held",fmt("parameter %d of the result is %.17g, held at %.17g",k[i],yr(k[i]),want[i])); return; }
    (void)plain;
    bool found = false; for (auto &cl : rec.calls) if (cl.v == fr) { bool e = true; for (int i=0;i<n;i++) e = e && near(cl.x[i],yr(i),1e-6,1); found = found || e; }
    t.ok("result_evaluated"); if (!found) t.viol("result-not-evaluated",fmt("value %.17g was not seen at the point of the result",fr));
    if (!all && nc > 30) for (int i=0;i<n;i++) if (!held[i]) { t.ok("others_vary"); if (!(hi(i) > lo(i))) t.viol("not-optimized",fmt("parameter %d was not varied over %ld evaluations",i,nc)); }
    if (!all && nc && (c.gp == 0 || c.gp == 2) && !c.custom) { t.ok("starts_from_x0"); auto &cl = rec.calls[0]; for (int i=0;i<n;i++) if (!held[i] && !near(cl.x[i],x0y(i),1e-9,1e-3)) { t.viol("start",fmt("parameter %d starts at %.17g instead of %.17g",i,cl.x[i],x0y(i))); break; } }
    V arg; if (quad && !all) { double w = q.prof(k,want,&arg); if (inside(arg) && s.run_status() == TOLHISTFUN) { t.ok("minimum_found"); if (!(fr <= w+1e-5*(1+std::fabs(w))) || !(fr >= w-1e-9*(1+std::fabs(w)))) t.viol("minimum",fmt("value %.12g, the minimum given the held parameters is %.12g (status %d)",fr,w,s.run_status())); } }
    t.distinct(bits(fr)^mix(k.size()));
    t.sample(c.str()+fmt(" held=%zu calls=%ld value=%g",k.size(),nc,fr));
    return;
  }
  if (!near(fb,q.c0,1e-5,1e-3) ) { t.note("first_run_not_converged"); return; }
  int k = r.i(0,n-1); double fup = r.pick(std::vector<double>{0.1,0.5,1,0.02}), delta = 0.1; int ss = r.i(4,15); bool curve = kind == 8;
  double half = std::sqrt(2*fup*q.Ai(k,k));
  auto profile = [&](const pli &le, int k, bool curve) {
    t.ok("profile_shape"); dVec fv = le.get_fvaluem(); dMat xm = le.get_xm(); int S = le.get_samplesize();
    if (le.get_k() != k || fv.size() != 2*S+1 || xm.rows() != 2*S+1 || xm.cols() != n) { t.viol("profile-shape","wrong sizes"); return; }
    t.ok("profile_center"); if (fv(S) != fb || !((xm.row(S).transpose()-yb).norm() <= 1e-9*(1+yb.norm()))) t.viol("profile-center",fmt("center value %.17g, best %.17g",fv(S),fb));
    for (int i=0;i<2*S+1;i++) { V y = xm.row(i).transpose(); t.ok("profile_point"); /* a run of VD may end early */ double e = q(y.data()), w = q.prof({k},{y(k)}); 
      if (!near(e,fv(i),1e-6,1)) { t.viol("profile-value",fmt("row %d: %.12g, the objective there is %.12g",i,fv(i),e)); return; }
      if (!is_vd_algo(c.algo) && !(std::fabs(fv(i)-w) <= 1e-3*std::max(fup,w-q.c0)+1e-6)) { t.viol("profile-not-minimal",fmt("row %d: %.12g, the minimum with this value of parameter %d is %.12g",i,fv(i),k,w)); return; } }
    double a = le.get_err_min(), b = le.get_err_max(), half = std::sqrt(2*fup*q.Ai(k,k));
    t.ok("profile_errors"); if (!(a <= 1e-6 && b >= -1e-6) || !near(le.get_min()-yb(k),a,1e-9,1) || !near(le.get_max()-yb(k),b,1e-9,1)) t.viol("profile-errors",fmt("interval [%g,%g], errors %g and %g, best %g",le.get_min(),le.get_max(),a,b,yb(k)));
    if (!curve && !is_vd_algo(c.algo)) { t.ok("profile_interval"); if (!(std::fabs(-a/half-1) < 0.08) || !(std::fabs(b/half-1) < 0.08)) t.viol("profile-interval",fmt("errors %.6g and %.6g, expected about %.6g",a,b,half)); }
    t.distinct(bits(a)^bits(b)); };
  (void)half;
  // the printed intervals: limits, errors, status of both ends
  auto printed = [&](int k, const pli &le, int want_lo, int want_hi) { std::ostringstream os; os.precision(15); sol.print(os,0,p.get_gp()); std::string o = os.str(); size_t at = o.find(fmt("dim %d in [",k)); t.ok("profile_printed");
    if (at == std::string::npos) { t.viol("profile-not-printed",fmt("parameter %d",k)); return; }
    double v[4]; int st[2] = {0,0}; int got = sscanf(o.c_str()+at,"dim %*d in [%lf,%lf] with error [%lf,%lf] / status=[%d,%d]",v,v+1,v+2,v+3,st,st+1); 
    if (got < 4 || !near(v[0],le.get_min(),1e-12,1) || !near(v[1],le.get_max(),1e-12,1) || !near(v[2],le.get_err_min(),1e-12,1) || !near(v[3],le.get_err_max(),1e-12,1)) t.viol("profile-printed",o.substr(at,200));
    t.ok("profile_status_printed"); if (want_lo != 99 ? st[0] != want_lo : st[0] < 0 || st[0] > 10) t.viol("profile-status",fmt("lower end: %d, expected %d",st[0],want_lo)); if (want_hi != 99 ? st[1] != want_hi : st[1] < 0 || st[1] > 10) t.viol("profile-status",fmt("upper end: %d, expected %d",st[1],want_hi)); };
  if (kind == 10) { // on one side of the optimum (or both) the objective has no minimum over the other parameters: the search diverges there and the profile reports it
    int side = r.i(0,2); double cut = half*r.u(0.05,0.3), slope = r.lg(0.01,10); bool curve = false; int j = (k+1)%n; 
    if (c.gp == 1 || c.gp == 3) { t.note("diverging_skipped_bounds"); return; }
    FitFunc f2 = [&](const double *x, const int &m) { double dk = x[k]-q.m(k), v = rec(x,m); if ((side != 1 && dk > cut) || (side != 0 && dk < -cut)) v = q.c0+0.5*dk*dk/q.Ai(k,k)-slope*(x[j]-q.m(j)); return v; };
    pli le = errstats<GP>::profile_likelihood(f2,p,sol,k,curve,ss,fup,delta); dVec fv = le.get_fvaluem(); dMat xm = le.get_xm(); int S = le.get_samplesize();
    std::ostringstream os; sol.print(os,0,p.get_gp()); std::string o = os.str(); size_t at = o.find("status=["); int sts[2] = {0,0}; double er[2] = {le.get_err_min(),le.get_err_max()}; t.ok("failed_profile_status");
    if (at == std::string::npos || sscanf(o.c_str()+at,"status=[%d,%d]",sts,sts+1) != 2) { t.viol("failed-profile-status","no status printed"); return; }
    // the search may go either way first (it follows the axes of the distribution): exactly as many failed directions as failing sides
    if ((sts[0] < 0)+(sts[1] < 0) != (side == 2 ? 2 : 1)) { t.viol("failed-profile-status",fmt("status [%d,%d], failing sides %d",sts[0],sts[1],side)); return; }
    for (int w=0;w<2;w++) for (int i=1;i<=S;i++) { int row = w ? S+i : S-i; bool eq = fv(row) == fv(S) && same(V(xm.row(row).transpose()),V(xm.row(S).transpose())); t.ok("failed_profile_padded"); if (eq != (sts[w] < 0)) { t.viol("failed-profile",fmt("row %d of %d: value %.12g, centre %.12g, status %d",row,2*S+1,fv(row),fv(S),sts[w])); break; } }
    for (int w=0;w<2;w++) { bool bad = w ? side != 1 : side != 0; t.ok("failed_profile_errors"); if (bad ? er[w] != 0 : !(std::fabs(std::fabs(er[w])/half-1) < 0.08)) t.viol("failed-profile-errors",fmt("[%g,%g], failing sides %d, expected about %g",er[0],er[1],side,half)); }
    double a = er[0], b = er[1]; int s0 = sts[0], s1 = sts[1];
    t.note("profiles_failing"); t.distinct(bits(a)^bits(b)^mix(s0*100+s1)); return; }
  if (kind < 9) {
    pli le = errstats<GP>::profile_likelihood(f,p,sol,k,curve,ss,fup,delta); profile(le,k,curve);
    pli st; t.ok("profile_stored"); if (!sol.get_pli(k,st)) t.viol("profile-not-stored",""); else if (!same(V(st.get_fvaluem()),V(le.get_fvaluem())) || st.get_err_min() != le.get_err_min()) t.viol("profile-stored","the stored profile differs");
    if (!curve) printed(k,le,99,99);
    if (r.p(0.4)) { // again, at another level: this is what is stored now
      fup *= r.pick(std::vector<double>{0.25,4}); half = std::sqrt(2*fup*q.Ai(k,k)); bool cv = r.p(0.3); pli l2 = errstats<GP>::profile_likelihood(f,p,sol,k,cv,ss,fup,delta); profile(l2,k,cv);
      t.ok("profile_restored"); if (!sol.get_pli(k,st)) t.viol("profile-not-stored","second"); else if (!same(V(st.get_fvaluem()),V(l2.get_fvaluem())) || st.get_err_min() != l2.get_err_min()) t.viol("profile-stored-again",fmt("stored lower error %g, last computed %g",st.get_err_min(),l2.get_err_min())); }
    t.note(curve ? "profile_curves" : "profiles");
    t.sample(c.str()+fmt(" profile of %d: [%g,%g] expected +-%g, calls=%zu",k,le.get_err_min(),le.get_err_max(),half,rec.calls.size()));
  } else {
    int k2 = (k+r.i(1,n-1))%n; int np = r.i(4,9); 
    if (r.p(0.4)) { errstats<GP>::profile_likelihood(f,p,sol,r.p(0.5) ? k : k2,false,ss,fup*r.pick(std::vector<double>{0.2,5}),delta); t.note("contours_after_profiles_of_another_level"); }
    contour ct = errstats<GP>::contour_points(f,k,k2,np,fup,p,sol,delta);
    pli a, b; t.ok("contour_uses_profiles"); if (!sol.get_pli(k,a) || !sol.get_pli(k2,b)) t.viol("profile-not-stored","contour"); else { profile(a,k,false); profile(b,k2,false); }
    t.ok("contour_size"); if ((int)ct._points.size() > np || ct._points.size() < 4) t.viol("contour-size",fmt("%zu points, %d wanted",ct._points.size(),np));
    // the four extreme points come from the profiles, with the other parameter at its best value there; the others lie roughly on the contour
    double ex[4] = {yb(k)+a.get_err_min(),yb(k)+a.get_err_max(),yb(k2)+b.get_err_min(),yb(k2)+b.get_err_max()}; bool strict = c.gp <= 1 && n <= 5;
    for (int e=0;e<4;e++) { t.ok("contour_extreme"); bool found = false; for (auto &pt : ct._points) { double v = e < 2 ? pt.first : pt.second; if (!near(v,ex[e],1e-6,1)) continue; double w = (q.prof({k,k2},{pt.first,pt.second})-q.c0)/fup; V ar; int ot = e < 2 ? k2 : k; q.prof({e < 2 ? k : k2},{v},&ar); double dev = std::fabs((e < 2 ? pt.second : pt.first)-ar(ot))/std::sqrt(2*fup*q.Ai(ot,ot)); if (!strict || (w > 0.75 && w < 1.3 && dev < 0.02)) found = true; }
      if (!found) t.viol("contour-extreme",fmt("no contour point of the wanted level at the end %d of the intervals, %.9g",e,ex[e])); }
    for (size_t i=0;i<ct._points.size();i++) { double w = (q.prof({k,k2},{ct._points[i].first,ct._points[i].second})-q.c0)/fup; if (strict) { t.ok("contour_point"); if (!(w > 0.02 && w < 2)) t.viol("contour-point",fmt("point %zu of %zu at level %.4g of the wanted one",i,ct._points.size(),w)); } t.distinct(bits(w)); }
    t.note("contours"); t.note(fmt("contour_points_%zu",ct._points.size()).c_str());
    t.sample(c.str()+fmt(" contour of %d and %d, calls=%zu",k,k2,rec.calls.size()));
  }
}
static void one(Ctx &t) {
  Rng &r = t.rng; Gen g; g.dmax = 6; g.rare = false; g.algos = {0,0,0,3,6,9,12}; g.custom = false;
  Cfg c = gen_cfg(r,g); c.mode = 0; c.lambda = r.p(0.5) ? -1 : r.i(8,16); c.max_iter = -1;
  switch (c.gp) { case 0: go<GP0>(t,c); break; case 1: go<GP1>(t,c); break; case 2: go<GP2>(t,c); break; default: go<GP3>(t,c); }
}
HV_MAIN("C24",600,30000,one)
