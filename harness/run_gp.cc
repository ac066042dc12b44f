#include "api_impl.hh"
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
namespace hv {
Result CAT(run,GPN)(const Cfg &c, const Hooks &h) { return run_gp<CAT(GP,GPN)>(c,h); }
GPView CAT(gp,GPN)(const Cfg &c) { return gpview<CAT(GP,GPN)>(c); }
std::vector<PGet> CAT(ptrace,GPN)(const Cfg &c, int at, PGet *q) { return ptrace<CAT(GP,GPN)>(c,at,q); }
}
