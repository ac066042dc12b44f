// A small OpenMP runtime on top of plain threads, for the race detector: libgomp's own synchronisation is not
// visible to it and would hide races and report false ones.  A parallel region starts and joins real threads,
// the detector sees exactly the ordering OpenMP promises (fork, join, barrier, critical) and nothing more.
// Loop chunks are handed out with relaxed atomics.  Threads are delayed at random where they start and meet.
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>
namespace {
const int NWS = 512;
struct Team { int n; void (*fn)(void*); void *data; pthread_barrier_t bar; std::atomic<long> cnt[NWS]; std::atomic<int> single[NWS]; bool loop = false; long start = 0, end = 0, incr = 1, chunk = 1; };
struct Loop { std::atomic<long> *c = nullptr; long start, end, incr, chunk; };
thread_local Team *team = nullptr; thread_local int tid = 0, ws = 0, sg = 0; thread_local Loop cur;
std::atomic<int> nthreads{2}; std::atomic<uint64_t> ctr{1};
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ULL; z = (z^(z>>30))*0xbf58476d1ce4e5b9ULL; z = (z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
void jitter() { uint64_t k = mix(ctr.fetch_add(1,std::memory_order_relaxed)); switch (k % 6) { case 0: sched_yield(); break; case 1: usleep((k>>8)%60); break; case 2: for (volatile int i=0;i<(int)((k>>8)%2000);i++); break; default: ; } }
void body(Team *t, int id) {
  Team *ot = team; int oi = tid, ow = ws, os = sg; Loop oc = cur;
  team = t; tid = id; ws = sg = 0; 
  if (t->loop) { cur.c = &t->cnt[0]; cur.start = t->start; cur.end = t->end; cur.incr = t->incr; cur.chunk = t->chunk; ws = 1; }
  if (t->n > 1) jitter();
  t->fn(t->data);
  team = ot; tid = oi; ws = ow; sg = os; cur = oc;
}
struct Arg { Team *t; int id; };
void *entry(void *p) { Arg a = *(Arg*)p; body(a.t,a.id); return nullptr; }
void par(Team &t, unsigned want) {
  int n = want ? (int)want : nthreads.load(std::memory_order_relaxed); if (team && team->n > 1) n = 1; if (n < 1) n = 1; if (n > 64) n = 64;
  t.n = n; for (int i=0;i<NWS;i++) { t.cnt[i].store(0,std::memory_order_relaxed); t.single[i].store(0,std::memory_order_relaxed); }
  pthread_barrier_init(&t.bar,nullptr,n);
  pthread_t th[64]; Arg a[64]; int made = 0;
  for (int i=1;i<n;i++) { a[i] = Arg{&t,i}; if (pthread_create(&th[i],nullptr,entry,&a[i])) abort(); made++; }
  body(&t,0);
  for (int i=1;i<=made;i++) pthread_join(th[i],nullptr);
  pthread_barrier_destroy(&t.bar);
}
bool next(long *a, long *b) {
  long total = cur.incr > 0 ? (cur.end-cur.start+cur.incr-1)/cur.incr : (cur.start-cur.end-cur.incr-1)/(-cur.incr), k = cur.c->fetch_add(1,std::memory_order_relaxed)*cur.chunk;
  if (k >= total) return false; long e = k+cur.chunk < total ? k+cur.chunk : total; *a = cur.start+k*cur.incr; *b = cur.start+e*cur.incr; jitter(); return true;
}
Team *solo() { static thread_local Team *t = nullptr; if (!t) { t = new Team; t->n = 1; pthread_barrier_init(&t->bar,nullptr,1); } return t; }
bool start(long s, long e, long i, long c, long *a, long *b) {
  Team *t = team; if (!t) { t = solo(); ws = 0; t->cnt[0].store(0,std::memory_order_relaxed); }
  cur.c = &t->cnt[ws++ % NWS]; cur.start = s; cur.end = e; cur.incr = i; cur.chunk = c < 1 ? 1 : c; return next(a,b);
}
}
extern "C" {
void omp_set_num_threads(int n) { nthreads.store(n,std::memory_order_relaxed); }
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_max_threads() { return nthreads.load(std::memory_order_relaxed); }
int omp_get_thread_num() { return team ? tid : 0; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team && team->n > 1; }
int omp_get_level() { return team != nullptr; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_dynamic() { return 0; }
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
void GOMP_parallel(void (*fn)(void*), void *data, unsigned n, unsigned) { Team t; t.fn = fn; t.data = data; par(t,n); }
void GOMP_barrier() { if (team && team->n > 1) { jitter(); pthread_barrier_wait(&team->bar); jitter(); } }
void GOMP_critical_start() { jitter(); pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **) { jitter(); pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **) { pthread_mutex_unlock(&crit); }
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
bool GOMP_single_start() { if (!team) return true; return team->single[sg++ % NWS].fetch_add(1,std::memory_order_relaxed) == 0; }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
#define LOOP(k) bool GOMP_loop_##k##_start(long s, long e, long i, long c, long *a, long *b) { return start(s,e,i,c,a,b); } bool GOMP_loop_##k##_next(long *a, long *b) { return next(a,b); } \
  void GOMP_parallel_loop_##k(void (*fn)(void*), void *data, unsigned n, long s, long e, long i, long c, unsigned) { Team t; t.fn = fn; t.data = data; t.loop = true; t.start = s; t.end = e; t.incr = i; t.chunk = c < 1 ? 1 : c; par(t,n); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(k) bool GOMP_loop_##k##_start(long s, long e, long i, long *a, long *b) { return start(s,e,i,1,a,b); } bool GOMP_loop_##k##_next(long *a, long *b) { return next(a,b); } \
  void GOMP_parallel_loop_##k(void (*fn)(void*), void *data, unsigned n, long s, long e, long i, unsigned) { Team t; t.fn = fn; t.data = data; t.loop = true; t.start = s; t.end = e; t.incr = i; par(t,n); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
#define LOOPU(k) bool GOMP_loop_ull_##k##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { return start((long)s,(long)e,(long)i,(long)c,(long*)a,(long*)b); } bool GOMP_loop_ull_##k##_next(unsigned long long *a, unsigned long long *b) { return next((long*)a,(long*)b); }
LOOPU(dynamic) LOOPU(guided) LOOPU(nonmonotonic_dynamic) LOOPU(nonmonotonic_guided)
}
