// C10/C11/C12: each generation's update of mean, step size and covariance follows the published equations.
#include "shadow.hh"
#ifndef KIND
#define KIND 10
#endif
using namespace hv;
static void one(Ctx &t) {
  Rng &r = t.rng;
  Gen g; g.dmax = 12; 
  g.algos = KIND==10 ? std::vector<int>{0,0,6,6,1,7} : KIND==11 ? std::vector<int>{3,3,9,9,4,10} : std::vector<int>{12,12,13};
  Cfg c = gen_cfg(r,g);
  if (KIND==12) c.dim = r.i(6,20), gen_space(r,c,g);
  if (r.p(0.1)) c.lambda = r.i(40,150);
  bool big = false;
  if (r.p(0.02)) { c.dim = r.i(20,70); gen_space(r,c,g); big = true; }
  else if (r.p(KIND==12?0.0015:0.005) && (is_sep_algo(c.algo) || is_vd_algo(c.algo))) { c.dim = r.i(990,1050); c.lambda = r.i(6,30); gen_space(r,c,g); big = true; }
  c.mode = r.pick(std::vector<int>{0,1,1,2}); if (c.mode == 2) c.algo -= restart_kind(c.algo);
  if (r.p(0.1)) c.elitism = r.i(1,2);
  if (r.p(0.15)) c.lazy = true;
  if (r.p(0.1)) c.maximize = true;
  if (r.p(0.1)) c.initfv = true;
  if (r.p(0.1) && KIND != 12) c.grad = true;
  if (r.p(0.15) && c.dim > 1) for (int i=0;i<c.dim;i++) if (r.p(0.3) && (int)c.fixed.size() < c.dim-1) c.fixed.push_back({i,c.x0[i]});
  if (r.p(0.1)) c.tpa = 0;
  if (KIND != 12 && !is_sep_algo(c.algo) && !restart_kind(c.algo) && c.dim <= 70 && r.p(0.08)) { c.noisy = true; if (c.lambda > 40) c.lambda = r.i(4,40); }
  c.max_iter = r.p(0.1) && c.lambda <= 30 ? r.i(100,300) : r.i(2,60);
  if (big) c.max_iter = r.i(2,c.dim > 100 ? 5 : 30);
  c.restarts = r.i(1,c.dim > 100 ? 1 : 3);
  if (restart_kind(c.algo) && c.dim <= 20 && r.p(0.05)) { c.restarts = r.i(4,7); c.lambda = r.i(4,9); c.max_iter = r.i(2,6); }
  const Obj &o = objs()[r.i(0,OBJ_ALL-1)];
  shadow_case(t,c,o);
}
HV_MAIN("C10",4000,200000,one)
