// The C++ side of C31: runs the configurations it reads, one per line, and prints the results exactly.
#include "common.hh"
using namespace hv;
static std::vector<std::string> split(const std::string &s, char d) { std::vector<std::string> r; std::string c; for (char x : s) { if (x == d) { r.push_back(c); c.clear(); } else c += x; } if (!s.empty()) r.push_back(c); return r; }
static std::vector<double> nums(const std::string &s) { std::vector<double> r; for (auto &e : split(s,',')) r.push_back(strtod(e.c_str(),nullptr)); return r; }
static void put(const char *k, const double *x, long n) { printf("%s=",k); for (long i=0;i<n;i++) printf("%s%a",i?",":"",x[i]); printf("\t"); }
int main() {
  char *line = nullptr; size_t cap = 0;
  while (getline(&line,&cap,stdin) > 0) {
    std::string l(line); while (!l.empty() && (l.back() == '\n')) l.pop_back();
    Cfg c; std::string obj = "sphere", file; c.mode = 0; c.quiet = true; c.snap = S_ALL;
    for (auto &kv : split(l,'\t')) {
      size_t p = kv.find('='); std::string k = kv.substr(0,p), v = kv.substr(p+1);
      if (k == "obj") obj = v; else if (k == "calls") file = v; else if (k == "dim") c.dim = std::stoi(v); else if (k == "lambda") c.lambda = std::stoi(v); else if (k == "sigma") c.sigma = strtod(v.c_str(),nullptr);
      else if (k == "seed") c.seed = std::stoull(v); else if (k == "gp") c.gp = std::stoi(v); else if (k == "x0") c.x0 = nums(v); else if (k == "lb") c.lb = nums(v); else if (k == "ub") c.ub = nums(v); else if (k == "scal") c.scal = nums(v); else if (k == "shift") c.shift = nums(v);
      else if (k == "ops") for (auto &o : split(v,';')) { auto f = split(o,':'); Op p; std::string n = f[0]; if (f.size() > 1) { p.v = strtod(f[1].c_str(),nullptr); p.i = (int)p.v; p.s = f[1]; }
        static const std::map<std::string,int> K = {{"quiet",Op::QUIET},{"str_algo",Op::STR_ALGO},{"sep",Op::SEP},{"mt_feval",Op::MT},{"uh",Op::UH},{"gradient",Op::GRAD},{"edm",Op::EDM},{"tpa",Op::TPA},{"max_iter",Op::MAX_ITER},{"max_fevals",Op::MAX_FEVALS},{"restarts",Op::RESTARTS},{"ftarget",Op::FTARGET},{"reset_ftarget",Op::RESET_FTARGET},{"ftolerance",Op::FTOL},{"xtolerance",Op::XTOL},{"fixed_p",Op::FIX},{"unfixed_p",Op::UNFIX},{"fplot",Op::FPLOT},{"full_fplot",Op::FULL_FPLOT},{"seed",Op::SEED},{"noisy",Op::NOISY}};
        p.k = K.at(n); if (n == "fixed_p" && f.size() > 2) { p.i = std::stoi(f[1]); p.v = strtod(f[2].c_str(),nullptr); } c.ops.push_back(p); }
    }
    std::function<double(const double*,int)> f; for (auto &o : objs()) if (o.name == obj) f = o.f;
    std::vector<double> calls; Hooks h; h.f = [&](const double *x, int n) { calls.insert(calls.end(),x,x+n); if (calls.size() > 20000000) { fprintf(stderr,"runaway\n"); _exit(3); } return f(x,n); };
    Result r = run(c,h); PGet g = param_trace(c,-1,nullptr).back();
    FILE *o = fopen(file.c_str(),"wb"); if (!o) return 4; fwrite(calls.data(),8,calls.size(),o); fclose(o);
    const Snap &s = r.s; printf("niter=%d\tfevals=%d\tstatus=%d\tsize=%d\t",s.niter,s.fevals,s.status,s.ncand); put("sigma",&s.sigma,1); put("edm",&s.edm,1); put("mineig",&s.mineig,1); put("maxeig",&s.maxeig,1); put("xmean",s.xmean.data(),s.xmean.size()); put("best",s.best.x.data(),s.best.x.size()); put("fbest",&s.best.f,1); put("cov",s.cov.data(),s.cov.size()); put("sepcov",s.sepcov.data(),s.sepcov.size()); put("eig",s.eigval.data(),s.eigval.size()); put("pheno",s.pheno_best.data(),s.pheno_best.size());
    printf("lambda=%d\tdim=%d\talgo=%d\tmsg=%s\n",g.lambda,g.dim,g.algo,Ctx::oneline(s.msg).c_str()); fflush(stdout);
  }
  return 0;
}
