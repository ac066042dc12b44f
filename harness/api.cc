#include "api.hh"
#include <sstream>
namespace hv {
static const char *names[15] = {"cmaes","ipop","bipop","acmaes","aipop","abipop","sepcmaes","sepipop","sepbipop",
  "sepacmaes","sepaipop","sepabipop","vdcma","vdipopcma","vdbipopcma"};
const char *algo_name(int a) { return names[a]; }
Result run(const Cfg &c, const Hooks &h) {
  switch (c.gp) { case 0: return run0(c,h); case 1: return run1(c,h); case 2: return run2(c,h); default: return run3(c,h); }
}
std::vector<PGet> param_trace(const Cfg &c, int at, PGet *q) {
  switch (c.gp) { case 0: return ptrace0(c,at,q); case 1: return ptrace1(c,at,q); case 2: return ptrace2(c,at,q); default: return ptrace3(c,at,q); }
}
std::string Op::str() const {
  static const char *n[] = {"quiet","str_algo","algo","sep","vd","maximize","mt","uh","grad","edm","lazy","initfv","tpa","elitism","max_iter","max_fevals","restarts","max_hist","ftarget",
    "reset_ftarget","ftol","xtol","fix","unfix","crit","fplot","full_fplot","seed","x0(s)","x0(p)","x0(v)","x0(s,s)","x0(p,p)","x0(std,std)","x0(v,v)","noisy","copy"};
  std::ostringstream o; o.precision(17); o << n[k] << "(" << i << "," << v << "," << s << ")"; return o.str();
}
GPView make_gp(const Cfg &c) {
  switch (c.gp) { case 0: return gp0(c); case 1: return gp1(c); case 2: return gp2(c); default: return gp3(c); }
}
template<class T> static void vec(std::ostream &o, const char *n, const std::vector<T> &v) {
  if (v.empty()) return;
  o << " " << n << "=["; for (size_t i=0;i<v.size();i++) o << (i?",":"") << v[i]; o << "]";
}
std::string Cfg::str() const {
  std::ostringstream o; o.precision(17);
  o << "algo=" << names[algo] << " gp=" << gp << " dim=" << dim << " lambda=" << lambda << " sigma=" << sigma << " seed=" << seed << " mode=" << mode;
  vec(o,"x0",x0); vec(o,"x0max",x0max); vec(o,"lb",lb); vec(o,"ub",ub); vec(o,"scal",scal); vec(o,"shift",shift); vec(o,"vsigma",vsigma);
  if (custom) o << " custom=" << ca << "*x+" << cb;
  if (str_algo) o << " str_algo"; if (maximize) o << " maximize"; if (mt) o << " mt"; if (uh) o << " uh"; if (grad) o << " grad";
  if (edm) o << " edm"; if (lazy) o << " lazy"; if (initfv) o << " initfv"; if (noisy) o << " noisy"; if (full_fplot) o << " full_fplot";
  if (tpa>=0) o << " tpa=" << tpa; if (elitism>=0) o << " elitism=" << elitism; if (max_iter!=-1) o << " max_iter=" << max_iter;
  if (max_fevals!=-1) o << " max_fevals=" << max_fevals; if (restarts>=0) o << " restarts=" << restarts; if (max_hist>=0) o << " max_hist=" << max_hist;
  if (has_ftarget) o << " ftarget=" << ftarget; if (ftol>=0) o << " ftol=" << ftol; if (xtol>=0) o << " xtol=" << xtol;
  for (auto &f : fixed) o << " fix(" << f.first << "," << f.second << ")";
  for (int i : unfixed) o << " unfix(" << i << ")";
  for (auto &f : crit) o << " crit(" << f.first << "," << f.second << ")";
  if (!fplot.empty()) o << " fplot"; 
  for (auto &q : ops) o << " " << q.str();
  return o.str();
}
}
