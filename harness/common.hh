// Shared parts of the monitors' drivers: deterministic case generation, objectives with call
// recording, result reporting.
#pragma once
#include "api.hh"
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <mutex>
#include <set>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <algorithm>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>

namespace hv {

inline uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ULL; z = (z^(z>>30))*0xbf58476d1ce4e5b9ULL; z = (z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed)) {}
  uint64_t u64() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
  double u() { return (u64()>>11) * (1.0/9007199254740992.0); }
  double u(double a, double b) { return a + (b-a)*u(); }
  int i(int a, int b) { return a + (int)(u64() % (uint64_t)(b-a+1)); } // inclusive
  bool p(double q) { return u() < q; }
  double n() { double a=u(), b=u(); if (a<1e-300) a=1e-300; return std::sqrt(-2*std::log(a))*std::cos(6.283185307179586*b); }
  double lg(double a, double b) { return std::exp(u(std::log(a),std::log(b))); }
  template<class T> const T &pick(const std::vector<T> &v) { return v[u64()%v.size()]; }
};

inline std::string fmt(const char *f, ...) {
  char buf[4096]; va_list ap; va_start(ap,f); vsnprintf(buf,sizeof buf,f,ap); va_end(ap); return buf;
}
template<class T> std::string vstr(const T &v) { std::ostringstream o; o.precision(17); o << "["; for (int i=0;i<(int)v.size();i++) o << (i?",":"") << v(i); o << "]"; return o.str(); }
inline uint64_t bits(double d) { uint64_t u; memcpy(&u,&d,8); return u; }
inline uint64_t hv_hash(const double *x, int n, uint64_t h=1469598103934665603ULL) { for (int i=0;i<n;i++) h = mix(h ^ bits(x[i])); return h; }
inline uint64_t hv_hash(const V &v, uint64_t h=1469598103934665603ULL) { return hv_hash(v.data(),v.size(),h); }
inline bool same(const V &a, const V &b) { if (a.size()!=b.size()) return false; for (int i=0;i<a.size();i++) if (!(a(i)==b(i)) && !(std::isnan(a(i))&&std::isnan(b(i)))) return false; return true; }
inline bool same(double a, double b) { return a==b || (std::isnan(a)&&std::isnan(b)); }
// relative closeness with a scale
inline bool near(double a, double b, double rtol, double scale=0) { if (a==b) return true; if (!std::isfinite(a)||!std::isfinite(b)) return std::isnan(a)&&std::isnan(b); return std::fabs(a-b) <= rtol*std::max({std::fabs(a),std::fabs(b),scale}); }

// ------------------------------------------------------------------ objectives
struct Obj {
  std::string name; 
  std::function<double(const double*,int)> f;
  std::function<V(const double*,int)> g; // may be empty
};
inline double f_sphere(const double *x, int n) { double s=0; for (int i=0;i<n;i++) s+=x[i]*x[i]; return s; }
inline double f_elli(const double *x, int n) { double s=0; for (int i=0;i<n;i++) s+=std::pow(1e4,n>1?i/double(n-1):0)*x[i]*x[i]; return s; }
inline double f_rosen(const double *x, int n) { double s=0; for (int i=0;i+1<n;i++) s+=100*std::pow(x[i]*x[i]-x[i+1],2)+std::pow(x[i]-1,2); if (n==1) s=std::pow(x[0]-1,2); return s; }
inline double f_rastr(const double *x, int n) { double s=10*n; for (int i=0;i<n;i++) s+=x[i]*x[i]-10*std::cos(6.283185307179586*x[i]); return s; }
inline double f_cigtab(const double *x, int n) { double s=x[0]*x[0]+1e4*x[n-1]*x[n-1]; for (int i=1;i<n-1;i++) s+=100*x[i]*x[i]; return s; }
inline double f_rot(const double *x, int n) { double s=0; for (int i=0;i<n;i++) { double t=0; for (int j=0;j<=i;j++) t+=x[j]-0.3; s+=t*t; } return s; }
inline double f_abs(const double *x, int n) { double s=0; for (int i=0;i<n;i++) s+=std::fabs(x[i]-0.1*i); return s; }
inline double f_step(const double *x, int n) { double s=0; for (int i=0;i<n;i++) s+=std::floor(x[i]*2)*std::floor(x[i]*2); return s; }
inline double f_lin(const double *x, int n) { double s=0; for (int i=0;i<n;i++) s+=(i+1)*x[i]; return s; }
inline double f_neg(const double *x, int n) { return -1000.0 + f_sphere(x,n); }
inline double f_const(const double *, int) { return 3.25; }
inline double f_shiftq(const double *x, int n) { double s=0; for (int i=0;i<n;i++) { double d=x[i]-1.5-0.5*i; s+=(1+i)*d*d; } return s+7; }
inline double f_hash(const double *x, int n) { return (hv_hash(x,n)>>11)*(1.0/9007199254740992.0); }
inline double f_ackley(const double *x, int n) { double a=0,b=0; for (int i=0;i<n;i++){a+=x[i]*x[i];b+=std::cos(6.283185307179586*x[i]);} return 20+std::exp(1.0)-20*std::exp(-0.2*std::sqrt(a/n))-std::exp(b/n); }
inline V g_sphere(const double *x, int n) { V g(n); for (int i=0;i<n;i++) g(i)=2*x[i]; return g; }
inline V g_elli(const double *x, int n) { V g(n); for (int i=0;i<n;i++) g(i)=2*std::pow(1e4,n>1?i/double(n-1):0)*x[i]; return g; }
inline V g_shiftq(const double *x, int n) { V g(n); for (int i=0;i<n;i++) g(i)=2*(1+i)*(x[i]-1.5-0.5*i); return g; }
inline const std::vector<Obj> &objs() {
  static const std::vector<Obj> v = {
    {"sphere",f_sphere,g_sphere},{"elli",f_elli,g_elli},{"rosen",f_rosen,{}},{"rastrigin",f_rastr,{}},{"cigtab",f_cigtab,{}},
    {"rot",f_rot,{}},{"abs",f_abs,{}},{"neg",f_neg,g_sphere},{"shiftq",f_shiftq,g_shiftq},{"ackley",f_ackley,{}},
    {"step",f_step,{}},{"linear",f_lin,{}},{"const",f_const,{}},{"hash",f_hash,{}} };
  return v;
}
enum { OBJ_SMOOTH = 10, OBJ_ALL = 14 };

// ------------------------------------------------------------------ reporting
struct Ctx {
  uint64_t seed = 1; long id = 0; int tier = 0; // 0 quick, 1 thorough
  Rng rng{1};
  FILE *out = nullptr;
  std::map<std::string,long> counters;
  std::set<uint64_t> distinct_;
  std::vector<std::string> samples;
  std::map<std::string,int> vcount;
  long evals = 0;
  std::string cfgstr;
  std::string scratch; // a directory of its own for files
  void cfg(const Cfg &c) { cfgstr = c.str(); fprintf(out,"K\t%s\n",oneline(cfgstr).c_str()); fflush(out); }
  void ok(const char *what, long k=1) { counters[what]+=k; evals+=k; }
  void note(const char *what, long k=1) { counters[what]+=k; }
  void distinct(uint64_t h) { if (distinct_.size()<2000000) distinct_.insert(h); }
  void sample(const std::string &s) { if (samples.size()<4) samples.push_back(s.substr(0,400)); }
  void viol(const std::string &key, const std::string &detail) {
    if (vcount[key]++ < 3) { fprintf(out,"V\t%ld\t%s\t%s\t%s\n",id,key.c_str(),oneline(detail).c_str(),oneline(cfgstr).c_str()); fflush(out); }
  }
  // check helper
  bool chk(bool cond, const char *what, const std::string &key, const std::function<std::string()> &detail) {
    ok(what); if (!cond) viol(key,detail()); return cond;
  }
  static std::string oneline(std::string s) { for (auto &c : s) if (c=='\n'||c=='\t') c=' '; return s.substr(0,3000); }
};

// the library evaluates inside of OpenMP regions, where an exception cannot leave: report and end the process
[[noreturn]] inline void runaway(long calls);

// an objective wrapper that records everything the library asks it
struct Rec {
  std::function<double(const double*,int)> f;
  struct Call { std::vector<double> x; double v; };
  std::vector<Call> calls; 
  std::mutex m; std::atomic<long> n{0}; long cap = 2000000; bool keep = true;
  double fmin = std::numeric_limits<double>::infinity(), fmax = -std::numeric_limits<double>::infinity();
  explicit Rec(std::function<double(const double*,int)> g) : f(std::move(g)) {}
  double operator()(const double *x, int d) {
    long k = ++n; if (k > cap) runaway(k);
    double v = f(x,d);
    std::lock_guard<std::mutex> l(m);
    if (v<fmin) fmin=v; if (v>fmax) fmax=v;
    if (keep) calls.push_back({std::vector<double>(x,x+d),v});
    return v;
  }
  std::function<double(const double*,int)> fn() { return [this](const double *x, int d){ return (*this)(x,d); }; }
};

// ------------------------------------------------------------------ configuration generator
struct Gen {
  std::vector<int> algos = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14};
  std::vector<int> gps = {0,1,2,3};
  int dmin = 1, dmax = 8;
  bool small_lambda = true, scal = true, custom = false, rare = true; // rare: now and then far larger dimensions
};
inline void gen_space(Rng &r, Cfg &c, const Gen &g) {
  int n = c.dim;
  c.x0.assign(n,0); c.lb.clear(); c.ub.clear(); c.scal.clear(); c.shift.clear();
  bool wide = r.p(0.3);
  if (c.gp == 0) { for (auto &x : c.x0) x = wide ? r.u(-50,50) : r.u(-3,3); }
  else {
    bool usescal = (c.gp >= 2) && g.scal && r.p(0.5);
    for (int i=0;i<n;i++) {
      double w = wide ? r.lg(1e-2,1e4) : r.u(0.5,20), l = wide ? r.u(-100,100) : r.u(-8,4);
      if (r.p(0.2)) l = 0; 
      c.lb.push_back(l); c.ub.push_back(l+w);
      double t = r.p(0.15) ? (r.p(0.5)?0.0:1.0) : r.u();
      c.x0[i] = std::min(std::max(l + t*w, l), l+w);
    }
    if (usescal) for (int i=0;i<n;i++) {
      double s = r.p(0.8) ? r.lg(0.05,20) : 1.0; 
      c.scal.push_back(s); c.shift.push_back(r.p(0.3)?0.0:r.u(-3,3));
    }
    if (c.gp == 2 && r.p(0.5)) for (int i=0;i<n;i++) c.x0[i] += r.u(-2,2)*(c.ub[i]-c.lb[i]); // unbounded: anywhere
  }
  c.sigma = r.p(0.1) ? r.lg(1e-3,10) : r.u(0.1,2.0);
  if (c.gp == 1 && wide) { double w = c.ub[0]-c.lb[0]; c.sigma = std::max(1e-3,0.2*w); }
}
inline int gen_lambda(Rng &r, int dim, bool small=true) {
  (void)dim;
  if (r.p(0.03)) return r.i(50,220); // beyond the size from which populations are transformed in parallel
  switch (r.i(0,5)) { case 0: return -1; case 1: return r.i(small?4:6,9); case 2: return r.i(10,25); case 3: return 2*r.i(3,20)+1; case 4: return -1; default: return r.i(6,40); }
}
// number of iterations: mostly lo..hi, now and then a long run (histories longer than any bound the library keeps)
inline int iters(Rng &r, const Cfg &c, int lo, int hi) { return r.p(0.03) && c.lambda <= 30 && c.dim <= 12 ? r.i(150,500) : r.i(lo,hi); }
// number of runs: mostly lo..hi, now and then many
inline int nruns(Rng &r, const Cfg &c, int lo, int hi) { return r.p(0.03) && c.lambda <= 20 && c.dim <= 12 && c.max_iter <= 40 && restart_kind(c.algo) ? r.i(4,6) : r.i(lo,hi); }
inline Cfg gen_cfg(Rng &r, const Gen &g = Gen()) {
  Cfg c;
  c.algo = r.pick(g.algos); c.gp = r.pick(g.gps);
  c.dim = r.i(g.dmin,g.dmax);
  if (g.rare && g.dmax >= 6 && g.dmax < 50 && r.p(0.02)) c.dim = r.i(g.dmax+1,50); // now and then a problem of a larger size
  if (is_vd_algo(c.algo)) c.dim = std::max(c.dim, 7+r.i(0,5));
  c.lambda = gen_lambda(r,c.dim,g.small_lambda);
  c.seed = r.p(0.2) ? std::max<uint64_t>(1,r.u64()>>r.i(0,63)) : 1 + r.u64()%1000000007ULL; // now and then of any number of bits
  c.mode = 1;
  if (g.custom && c.gp <= 1 && r.p(0.25)) { c.custom = true; c.ca = r.u(0.5,3); c.cb = r.u(-1,1); }
  gen_space(r,c,g);
  c.restarts = r.i(1,2);
  return c;
}

// ------------------------------------------------------------------ driver
struct Driver {
  const char *prop;
  long nquick, nthorough;
  void (*fn)(Ctx &);
  int cpu_per_case = 120; // seconds of CPU time after which a case counts as not terminating
};

namespace detail {
inline Ctx *&cur() { static Ctx *c = nullptr; return c; }
inline void on_cpu(int) {
  Ctx *c = cur(); char b[256];
  int k = snprintf(b,sizeof b,"V\t%ld\thang\tthe case used its CPU-time allowance without finishing\t\n",c?c->id:-1L);
  if (c) { fflush(c->out); if (write(fileno(c->out),b,k)) {} }
  _exit(77);
}
}

[[noreturn]] inline void runaway(long calls) {
  Ctx *c = detail::cur();
  if (c) { c->viol("runaway",fmt("more than %ld objective calls",calls-1)); fflush(c->out); }
  _exit(77);
}

inline int driver_main(int argc, char **argv, const Driver &d) {
  uint64_t seed = 1; int tier = 0; long one = -1; int shard = 0, nshard = 1; long n = -1; std::string out, scratch = "/tmp"; long skip_to = 0;
  for (int i=1;i<argc;i++) {
    std::string a = argv[i];
    auto nx = [&]{ return std::string(argv[++i]); };
    if (a=="--seed") seed = std::stoull(nx()); else if (a=="--tier") tier = nx()=="thorough"; else if (a=="--case") one = std::stol(nx());
    else if (a=="--shard") shard = std::stoi(nx()); else if (a=="--nshard") nshard = std::stoi(nx()); else if (a=="--n") n = std::stol(nx());
    else if (a=="--out") out = nx(); else if (a=="--scratch") scratch = nx(); else if (a=="--from") skip_to = std::stol(nx());
  }
  if (n < 0) n = tier ? d.nthorough : d.nquick;
  FILE *f = out.empty() ? stdout : fopen(out.c_str(),"a");
  if (!f) { perror("out"); return 2; }
  Ctx tot;
  Ctx c; c.out = f; c.seed = seed; c.tier = tier; c.scratch = scratch;
  detail::cur() = &c;
  signal(SIGVTALRM,detail::on_cpu);
  long done = 0;
  for (long k = std::max<long>(shard, skip_to); k < n || one >= 0; k += 1) {
    if (one < 0 && k % nshard != shard) continue;
    long id = one >= 0 ? one : k;
    c.id = id; c.rng = Rng(mix(seed*1000003ULL + 17) ^ mix(id*7919ULL + 3)); c.cfgstr.clear();
    fprintf(f,"P\t%ld\n",id); fflush(f);
    struct itimerval tv; memset(&tv,0,sizeof tv); tv.it_value.tv_sec = d.cpu_per_case; setitimer(ITIMER_VIRTUAL,&tv,nullptr);
    try { d.fn(c); }
    catch (const Runaway &r) { c.viol("runaway",fmt("more than %ld objective calls",r.calls)); }
    catch (const std::exception &e) { c.viol("exception",std::string("unexpected exception: ")+e.what()); }
    done++;
    if (one >= 0) break;
  }
  for (auto &k : c.counters) fprintf(f,"C\t%s\t%ld\n",k.first.c_str(),k.second);
  for (auto h : c.distinct_) fprintf(f,"D\t%016llx\n",(unsigned long long)h);
  for (auto &s : c.samples) fprintf(f,"S\t%s\n",Ctx::oneline(s).c_str());
  fprintf(f,"N\t%ld\t%ld\nE\n",done,c.evals);
  fclose(f);
  return 0;
}
#define HV_MAIN(...) int main(int argc,char **argv){ return hv::driver_main(argc,argv,hv::Driver{__VA_ARGS__}); }
}
