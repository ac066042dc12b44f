// C33: quiet runs write nothing to the standard output and error; the log of the others is true.
#include "mon.hh"
#include <unistd.h>
#include <fcntl.h>
#include <sstream>
using namespace hv;
struct Capture { // everything written to the file descriptors 1 and 2 meanwhile
  int o1, o2, f; std::string path;
  explicit Capture(const std::string &p) : path(p) { std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr); f = open(p.c_str(),O_RDWR|O_CREAT|O_TRUNC|O_APPEND,0600); o1 = dup(1); o2 = dup(2); dup2(f,1); dup2(f,2); }
  std::string end() { std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr); dup2(o1,1); dup2(o2,2); close(o1); close(o2); std::string s; char b[4096]; lseek(f,0,SEEK_SET); ssize_t k; while ((k = read(f,b,sizeof b)) > 0) s.append(b,k); close(f); unlink(path.c_str()); return s; }
};
static bool num(const std::string &l, const char *key, double &v) { size_t p = l.find(key); if (p == std::string::npos) return false; p += strlen(key); char *e; v = strtod(l.c_str()+p,&e); return e != l.c_str()+p; }
static bool eq(double shown, double v, double tol) { return (std::isnan(shown) && std::isnan(v)) || same(shown,v) || near(shown,v,tol); }
static int crit_of(const std::string &l) {
  static const std::vector<std::pair<const char*,int>> N = {{"maxFEvals",8},{"autoMaxIter",7},{"maxIter",9},{"fTarget",10},{"tolHistFun",1},{"equalFunVals",5},{"tolX",2},{"tolUpSigma",-13},{"stagnation",6},{"conditionCov",-15},{"NoEffectAxis",3},{"NoEffectCoor",4}};
  size_t p = l.find("stopping criteria "); if (p == std::string::npos) return 0; for (auto &q : N) if (l.compare(p+18,strlen(q.first),q.first) == 0) return q.second; return -99; }
static void one(Ctx &t) {
  Rng &r = t.rng; Gen g; g.dmax = 8; g.custom = true; g.algos = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14}; Cfg c = gen_cfg(r,g); int n = c.dim;
  c.mode = r.i(0,3); if (c.mode == 2) c.algo -= restart_kind(c.algo); c.str_algo = r.p(0.5);
  gen_features(r,c,0.12); if (r.p(0.1)) for (int i=0;i<n;i++) if (r.p(0.3) && (int)c.fixed.size() < n-1) c.fixed.push_back({i,c.x0[i]});
  c.max_iter = r.p(0.08) ? 0 : r.p(0.5) ? r.i(1,30) : r.i(100,400); c.restarts = nruns(r,c,1,3); if (restart_kind(c.algo)) c.max_iter = std::min(c.max_iter,60);
  if (r.p(0.2)) c.max_fevals = r.i(1,400);
  if (r.p(0.15) && !c.maximize) { c.has_ftarget = true; c.ftarget = r.lg(1e-3,100); }
  if (r.p(0.1)) c.sigma *= r.p(0.5) ? 1e-9 : 1e6;
  if (r.p(0.2)) for (int k : {1,2,3,4,5,6,7}) if (r.p(0.4)) c.crit.push_back({k,false});
  c.snap = S_BASIC|S_CAND; const Obj &o = objs()[r.i(0,OBJ_ALL-1)]; std::string path = t.scratch+fmt("/c33-%d.txt",(int)getpid());
  bool flat = r.p(0.06); auto fun = [&](const double *x, int k) { return flat ? 1.0 : o.f(x,k); };
  if (r.p(0.5)) { // quiet: not a byte
    if (r.p(0.1)) c.uh = true; if (r.p(0.1)) c.mt = true; if (r.p(0.1)) { c.fplot = t.scratch+fmt("/c33-%d.dat",(int)getpid()); c.full_fplot = r.p(0.5); }
    t.cfg(c); Mon m(c,fun); m.rec.cap = 1000000; m.rec.keep = false; m.h.default_progress = r.p(0.5); int stopat = r.p(0.1) ? r.i(1,20) : -1; m.user_progress = [&](const Snap&) { return m.progress_calls == stopat ? 1 : 0; };
    std::string text; { Capture cap(path); try { m.go(); text = cap.end(); } catch (...) { cap.end(); throw; } }
    if (!c.fplot.empty()) unlink(c.fplot.c_str());
    t.ok("quiet"); if (!text.empty()) t.viol("not-quiet",fmt("a quiet run that ended with status %d wrote: %s",m.res.s.status,text.substr(0,200).c_str())); t.distinct(mix(m.res.s.status+100)^mix(c.algo)^bits(m.res.s.sigma)); t.note("quiet_runs"); t.note(fmt("ended_with_%d",m.res.s.status).c_str()); return; }
  c.quiet = false; t.cfg(c); Mon m(c,fun); m.rec.cap = 1000000; m.rec.keep = false; std::string text; { Capture cap(path); try { m.go(); text = cap.end(); } catch (...) { cap.end(); throw; } }
  auto lines = [](const std::string &s) { std::vector<std::string> L; std::istringstream in(s); std::string l; while (std::getline(in,l)) L.push_back(l); return L; };
  std::vector<std::string> L = lines(text); std::vector<int> stops; std::vector<double> rl, rr; int heads = 0; double a, b;
  for (auto &l : L) { if (l.find("dim=") != std::string::npos && num(l,"dim=",a) && num(l,"lambda=",b)) { heads++; double s0; t.ok("header"); if (a != n || b != m.segs[0].g[0].s.lambda || !num(l,"sigma0=",s0) || !eq(s0,m.segs[0].g[0].s.sigma,1e-4)) t.viol("header",l); }
    int k = crit_of(l); if (k) stops.push_back(k); if (l.find("Restart => ") != std::string::npos) { if (num(l,"lambda_s=",a) || num(l,"lambda_l=",a)) rl.push_back(a); } if (num(l,"r: ",a) && num(l,"lambda=",b) && l.find("dim=") == std::string::npos) rr.push_back(b); }
  t.ok("header_logged"); if (!heads) t.viol("no-header","the parameters are not logged");
  size_t runs = m.segs.size(); t.ok("ends_logged"); if (stops.size() != runs) { std::string e; for (int k : stops) e += fmt(" %d",k); t.viol("ends",fmt("%zu runs, final status %d, ends logged:%s",runs,m.res.s.status,e.c_str())); return; }
  // the run that the result is of
  int w = -1; for (size_t q=0;q<runs;q++) { const Snap &s = m.segs[q].g.back().s; if (s.niter == m.res.s.niter && same(s.sigma,m.res.s.sigma) && same(s.xmean,m.res.s.xmean) && same(s.best.f,m.res.s.best.f)) { w = q; break; } }
  if (w >= 0) { t.ok("status_logged"); if (stops[w] != m.res.s.status) t.viol("end-criterion",fmt("ended with status %d, the log tells %d",m.res.s.status,stops[w])); t.note(fmt("logged_%d",stops[w]).c_str()); }
  if (c.elitism != 3) { if (restart_kind(c.algo) == 1) { t.ok("restarts_logged"); if (rr.size() != runs) t.viol("restarts",fmt("%zu runs, %zu logged",runs,rr.size())); else for (size_t q=0;q<runs;q++) if (rr[q] != m.segs[q].g[0].s.lambda) t.viol("restart-population",fmt("run %zu: logged %g, population %d",q,rr[q],m.segs[q].g[0].s.lambda)); }
    if (restart_kind(c.algo) == 2) { t.ok("restarts_logged"); if (rl.size() != runs-1) t.viol("restarts",fmt("%zu runs, %zu restarts logged",runs,rl.size())); else for (size_t q=1;q<runs;q++) if (rl[q-1] != m.segs[q].g[0].s.lambda) t.viol("restart-population",fmt("run %zu: logged %g, population %d",q,rl[q-1],m.segs[q].g[0].s.lambda)); } }
  t.distinct(mix(m.res.s.status+100)^bits(m.res.s.sigma)); t.note("verbose_runs");
  if (restart_kind(c.algo) == 2) return; // draws that depend on the time: no twin
  // the same run with the library's own progress function: one line per notification
  Mon d(c,fun); d.rec.cap = 1000000; d.rec.keep = false; d.h.default_progress = true; { Capture cap(path); try { d.go(); text = cap.end(); } catch (...) { cap.end(); throw; } }
  std::vector<const Snap*> want; for (auto &s : m.segs) for (auto &q : s.g) want.push_back(&q.s); size_t k = 0;
  for (auto &l : lines(text)) { double it, ev, fv, sg; if (!num(l," iter=",it) && !(num(l,"iter=",it) && l.find("last_iter") != std::string::npos && l.find("iter=") < l.find("last_iter"))) continue; if (l.find("evals=") == std::string::npos) continue;
    if (k >= want.size()) { k++; continue; } const Snap &s = *want[k]; t.ok("iteration_line"); if (!num(l,"evals=",ev) || !num(l,"f-value=",fv) || !num(l,"sigma=",sg) || it != s.niter || ev != s.fevals || !eq(sg,s.sigma,1e-13) || (s.niter && !eq(fv,s.best.f,1e-13))) { t.viol("iteration-line",fmt("iteration %d, %d evaluations, value %.17g, step size %.17g: %s",s.niter,s.fevals,s.best.f,s.sigma,l.c_str())); return; } k++; t.distinct(bits(s.sigma)^mix(s.niter)); }
  t.ok("every_iteration_logged"); if (k != want.size()) t.viol("iteration-lines",fmt("%zu iterations, %zu logged",want.size(),k));
  t.sample(c.str()+fmt(" obj=%s lines=%zu",o.name.c_str(),L.size()+k));
}
HV_MAIN("C33",4000,150000,one)
