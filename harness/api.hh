// Type-erased access to libcmaes' public API, so that monitors are written once for the
// 15 algorithm flavours x 4 genotype/phenotype transforms.  Only public members are used.
#pragma once
#include <Eigen/Dense>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include <cstdint>
#include <fstream>

namespace hv {
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;

// Thrown by monitored objectives when a run performs absurdly many evaluations.
struct Runaway { long calls; };

struct Cand { V x; double f = 0; int id = -1; };

// Everything the public getters of the solution object show at one instant.
struct Snap {
  int niter = 0, fevals = 0, nevals = 0, status = 0, ncand = 0;
  double sigma = 0, edm = 0, mineig = 0, maxeig = 0;
  V xmean, eigval;
  M eigvec, cov, sepcov, csqinv, sepcsqinv, full_cov;
  std::vector<Cand> cand;
  Cand best, best_seen, worst_seen;
  bool updated_eigen = false;
  std::string msg;
  V stds, errors;
  M corr; 
  std::vector<std::vector<double>> corrij;
  V pheno_mean, pheno_best;
  std::string printed, printed1, accessors;   // accessors: an inconsistency between two ways of reading the same thing
  // parameters as the library reports them
  int lambda = 0, dim = 0, max_fevals = 0, max_iter = 0, algo = 0;
  bool sep = false, vd = false;
  double sigma_init = 0;
  int elapsed_last_iter = 0;
};

enum { S_BASIC = 1, S_CAND = 2, S_MAT = 4, S_STATS = 8, S_ALL = 15 };

// one call of a setter of the parameters object
struct Op {
  enum K { QUIET, STR_ALGO, ALGO, SEP, VD, MAXIMIZE, MT, UH, GRAD, EDM, LAZY, INITFV, TPA, ELITISM, MAX_ITER, MAX_FEVALS, RESTARTS, MAX_HIST, FTARGET,
    RESET_FTARGET, FTOL, XTOL, FIX, UNFIX, CRIT, FPLOT, FULL_FPLOT, SEED, X0_SCALAR, X0_PTR, X0_VEC, X0_SCALARS, X0_PTRS, X0_STDS, X0_VECS, NOISY, COPY, NKINDS };
  int k = 0, i = 0; double v = 0; std::string s; std::vector<double> a, b;
  std::string str() const;
};
// what the getters of the parameters object show
struct PGet {
  int dim = 0, lambda = 0, max_iter = 0, max_fevals = 0, seed = 0, algo = 0, tpa = 0, restarts = 0;
  bool quiet = false, full_fplot = false, grad = false, edm = false, mt = false, maximize = false, uh = false, sep = false, vd = false, lazy = false;
  double ftarget = 0, ftol = 0, xtol = 0, sigma_init = 0;
  std::string fplot; V x0min, x0max;
};

// gp: 0 none, 1 bounds, 2 linear scaling, 3 bounds + linear scaling
struct Cfg {
  int dim = 2, lambda = -1, algo = 0, gp = 0;
  double sigma = 0.5;
  std::vector<double> x0;
  std::vector<double> x0max;             // when non-empty: random x0 between x0 and x0max
  std::vector<double> lb, ub;            // gp 1 and 3 (gp 2 uses them when scal is empty)
  std::vector<double> scal, shift;       // gp 2/3: explicit scaling
  std::vector<double> vsigma;            // per-parameter sigma constructor (gp 2/3)
  bool custom = false;                   // custom geno/pheno functions: pheno(x)=ca*x+cb
  double ca = 2.0, cb = 0.25;
  uint64_t seed = 1;
  bool str_algo = false;                 // select the algorithm by name
  bool maximize = false, mt = false, uh = false, grad = false, edm = false, lazy = false;
  bool initfv = false, noisy = false, quiet = true, full_fplot = false;
  int tpa = -1, elitism = -1, max_iter = -1, max_fevals = -1, restarts = -1, max_hist = -1;
  double ftarget = -1e300; bool has_ftarget = false;
  double ftol = -1, xtol = -1;
  std::vector<std::pair<int,double>> fixed;
  std::vector<int> unfixed;
  std::vector<std::pair<int,bool>> crit; // stopping criteria switches, in call order
  std::string fplot;
  bool custom_plot = false;
  int extra_asks = 0;                    // ask/tell mode: additional ask() calls per generation, not evaluated
  int extra_at = -1;                     // the generation to do them in (-1: all)
  int mode = 0;                          // 0: high-level call, 1: optimizer object, 2: ask/eval/tell loop, 3: general loop with own steps
  std::vector<Op> ops;                   // setter calls made after all of the above
  int ctor = 0;                          // 0: vectors, 1: pointer and dimension
  int snap = S_BASIC | S_CAND;
  std::string str() const;
};

const char *algo_name(int a);
inline bool is_sep_algo(int a) { return a >= 6 && a <= 11; }
inline bool is_vd_algo(int a) { return a >= 12; }
inline bool is_active_algo(int a) { return (a >= 3 && a <= 5) || (a >= 9 && a <= 11); }
// 0: single run, 1: IPOP, 2: BIPOP
inline int restart_kind(int a) { return a % 3; }

struct GPView {
  std::function<V(const V&)> pheno, geno;
  std::function<M(const M&)> phenoM, genoM;
};

struct Hooks {
  std::function<double(const double*, int)> f;
  std::function<int(const Snap&)> progress;
  std::function<V(const double*, int)> grad;
  std::function<void(const M&, const M&)> asked;       // ask/tell mode: genotype and phenotype matrices
  std::function<void(const Snap&, const M&, bool extra)> asked_state; // state right after ask(); extra: the population is not evaluated
  std::function<void(const Snap&)> told;               // ask/tell mode: after tell()
  std::function<void(const Snap&, std::ofstream&)> plot;
  const class Warm *warm = nullptr;
  bool default_progress = false; // leave the library's own progress function in place
};

// An opaque solution object of a finished run, usable for warm starts and error statistics.
class Warm { public: virtual ~Warm() {} };

struct Result {
  int rc = 0;                 // return code of optimize() (modes 1 and 2), 0 for mode 0
  Snap s;                     // final state
  std::shared_ptr<Warm> sol;
};

Result run(const Cfg &c, const Hooks &h);
GPView make_gp(const Cfg &c);
// the getters after construction and after each of the setter calls; copy: those of a copy made after that many calls, read at the end
std::vector<PGet> param_trace(const Cfg &c, int copy_at, PGet *copy);
std::vector<PGet> ptrace0(const Cfg&, int, PGet*); std::vector<PGet> ptrace1(const Cfg&, int, PGet*);
std::vector<PGet> ptrace2(const Cfg&, int, PGet*); std::vector<PGet> ptrace3(const Cfg&, int, PGet*);

// per-GP implementations
Result run0(const Cfg&, const Hooks&); Result run1(const Cfg&, const Hooks&);
Result run2(const Cfg&, const Hooks&); Result run3(const Cfg&, const Hooks&);
GPView gp0(const Cfg&); GPView gp1(const Cfg&); GPView gp2(const Cfg&); GPView gp3(const Cfg&);

// ---- error statistics (errstats_gp.cc) ----
struct PL { // profile likelihood
  bool ok = false; int k = 0, samplesize = 0; double minfvalue=0, fup=0, delta=0;
  std::vector<double> f; std::vector<std::vector<double>> x; std::vector<int> err;
  int minindex=0, maxindex=0; double min=0, max=0, errmin=0, errmax=0;
};
struct Cont { std::vector<std::pair<double,double>> pts; };
struct PK { double f=0; V x; int nevals=0, status=0; };
PL  profile(const Cfg &c, const Hooks &h, const Warm &w, int k, bool curve, int samplesize, double fup, double delta, PL *stored);
Cont contour_pts(const Cfg &c, const Hooks &h, const Warm &w, int px, int py, int npoints, double fup);
PK optimize_pk(const Cfg &c, const Hooks &h, const Warm &w, const std::vector<int>&k, const std::vector<double>&vk, const V &x0);
}
