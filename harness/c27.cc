// C27: the output file has one faithful line per iteration.
#include "mon.hh"
using namespace hv;
static std::vector<double> nums(const std::string &l, bool &ok) { std::vector<double> r; const char *p = l.c_str(); ok = true; for (;;) { while (*p == ' ') p++; if (!*p) break; char *e; double v = strtod(p,&e); if (e == p) { ok = false; break; } r.push_back(v); p = e; } return r; }
static bool digits(double shown, double v) { return near(shown,v,6e-15) || same(shown,v); }
static void one(Ctx &t) {
  Rng &r = t.rng; Gen g; g.dmax = 6; g.custom = true; Cfg c = gen_cfg(r,g); int n = c.dim; c.max_iter = iters(r,c,0,25); c.mode = r.i(0,3); if (c.mode == 2) c.algo -= restart_kind(c.algo); gen_features(r,c,0.08); c.restarts = nruns(r,c,0,3);
  if (r.p(0.2)) c.max_fevals = r.i(1,300); c.full_fplot = r.p(0.35); c.custom_plot = r.p(0.15); c.fplot = t.scratch+fmt("/c27-%d.dat",(int)getpid()); c.snap = S_ALL; if (r.p(0.1) && n > 1) c.fixed.push_back({0,c.x0[0]});
  if (r.p(0.3)) { std::ofstream old(c.fplot); for (int i=0;i<50;i++) old << "old content " << i << "\n"; } else unlink(c.fplot.c_str());
  t.cfg(c); const Obj &o = objs()[r.i(0,OBJ_ALL-1)]; long stopat = r.p(0.15) ? r.i(1,30) : -1; Mon m(c,o.f); long k = 0; std::vector<Snap> seen; std::vector<char> ended; long plots = 0, bad_order = 0; std::vector<int> piter;
  m.user_progress = [&](const Snap &s) { bool e = ++k == stopat; seen.push_back(s); ended.push_back(e); return e ? 1 : 0; };
  m.h.plot = [&](const Snap &s, std::ofstream &f) { plots++; piter.push_back(s.niter); if (seen.empty() || seen.back().niter != s.niter || seen.back().fevals != s.fevals || !same(seen.back().xmean,s.xmean)) bad_order++; f << "line " << s.niter << " " << s.fevals << std::endl; };
  m.go();
  std::ifstream in(c.fplot); t.ok("file"); if (!in) { t.viol("no-file",c.fplot); return; } std::vector<std::string> L; std::string l; while (std::getline(in,l)) L.push_back(l); in.close(); unlink(c.fplot.c_str());
  std::vector<const Snap*> want; for (size_t i=0;i<seen.size();i++) if (!ended[i]) want.push_back(&seen[i]);
  size_t p = 0; bool full = c.full_fplot, cust = c.custom_plot && !full; long line = 0;
  if (cust) { t.ok("custom_plot"); if (plots != (long)want.size()) t.viol("custom:calls",fmt("%ld calls for %zu iterations",plots,want.size())); if (bad_order) t.viol("custom:order",fmt("%ld calls did not follow the progress notification of their iteration",bad_order)); }
  else if (c.custom_plot && plots) { t.note("custom_in_full"); }
  for (const Snap *s : want) {
    if (full && s->niter == 0) { t.ok("header"); if (p >= L.size()) { t.viol("lines:missing",fmt("%zu lines",L.size())); return; } std::string h = L[p++]; bool ok = false; for (std::string w : {fmt("%d %d / ",n,(int)c.seed),fmt("%d %llu / ",n,(unsigned long long)c.seed),fmt("%d %lld / ",n,(long long)c.seed)}) ok = ok || h.compare(0,w.size(),w) == 0; // get_seed() gives the low 32 bits, the ones that determine the run
      if (!ok && restart_kind(c.algo) == 0) { t.viol("header",h); return; } if (h.compare(0,fmt("%d ",n).size(),fmt("%d ",n)) != 0 || h.find(" / ") == std::string::npos) { t.viol("header",h); return; } if (p < L.size() && L[p].empty()) p++; else { t.viol("header:blank",""); return; } }
    if (p >= L.size()) { t.viol("lines:missing",fmt("%zu lines, iteration %ld of %zu has none",L.size(),line,want.size())); return; }
    const std::string &x = L[p++]; line++; t.ok("line"); if (cust) { if (x != fmt("line %d %d",s->niter,s->fevals)) { t.viol("custom:line",x); return; } continue; }
    bool ok; std::vector<double> v = nums(x,ok); size_t len = full ? 4+5+n+n+n+n+1 : 4+n+n+n+1; if (!ok) { t.viol("line:number",x); return; } if (v.size() != len) { t.viol("line:length",fmt("%zu numbers instead of %zu: %s",v.size(),len,x.c_str())); return; }
    size_t q = 0; bool good = true; auto is = [&](const char *what, double w) { t.ok("value"); double sv = v[q++]; if (!digits(sv,w) && good) { good = false; t.viol(std::string("value:")+what,fmt("iteration %d: %.17g written, %.17g reported: %s",s->niter,sv,w,x.c_str())); } };
    is("best",std::fabs(s->best.f)); is("evaluations",s->fevals); is("sigma",s->sigma); is("ratio",s->mineig == 0 ? 1 : std::sqrt(s->maxeig/s->mineig));
    if (full) { is("best-seen",s->best_seen.f); is("median",s->cand.empty() ? NAN : s->cand[s->cand.size()/2].f); is("worst-seen",s->worst_seen.f); is("min-eigenvalue",s->mineig); is("max-eigenvalue",s->maxeig); for (int i=0;i<n;i++) is("best-point",s->best_seen.x.size() == n ? s->best_seen.x(i) : 0); }
    for (int i=0;i<n;i++) is("eigenvalues",s->eigval.size() ? s->eigval(i) : 0); for (int i=0;i<n;i++) is("stds",s->stds(i)); for (int i=0;i<n;i++) is("mean",s->pheno_mean(i)); is("time",s->elapsed_last_iter);
    t.distinct(mix(bits(s->sigma)^s->niter)); if (!good) return;
  }
  t.ok("no_more_lines"); if (p != L.size()) t.viol("lines:extra",fmt("%zu lines for %zu iterations: %s",L.size(),want.size(),L[p].c_str()));
  t.note("files"); if (m.segs.size() > 1) t.note("files_over_restarts"); if (full) t.note("full_files"); if (stopat > 0 && stopat <= k) t.note("ended_by_user"); if (L.size()) t.sample(L.back());
  // writing changes nothing
  if (r.p(0.3) && restart_kind(c.algo) != 2 && !c.custom_plot) { Cfg d = c; d.fplot.clear(); d.full_fplot = false; d.snap = S_BASIC; Mon w(d,o.f); long kk = 0; w.user_progress = [&](const Snap &) { return ++kk == stopat ? 1 : 0; }; w.go(); t.ok("same_without_file"); bool eq = w.rec.calls.size() == m.rec.calls.size(); for (size_t i=0;eq && i<w.rec.calls.size();i++) eq = w.rec.calls[i].x == m.rec.calls[i].x; if (!eq) t.viol("changes-run","the run with a file differs from the one without"); }
}
HV_MAIN("C27",4000,150000,one)
