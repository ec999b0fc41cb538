// A small OpenMP runtime on plain POSIX threads (fresh threads per parallel region, joined at its end), so that the race detector
// sees every happens-before edge of the region, barriers, critical sections and locks; it also perturbs the schedule.
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <vector>
#include <mutex>
#include <new>
namespace {
struct Ws { bool init; long next,end,incr,chunk; int arrived; Ws():init(false),next(0),end(0),incr(1),chunk(1),arrived(0){} };
struct Team { int n; void(*fn)(void*); void*data; std::mutex m; std::vector<Ws> ws; pthread_barrier_t bar; std::vector<std::atomic<long>> work; explicit Team(int k):n(k),work(k){ pthread_barrier_init(&bar,0,k); for(auto&w:work) w=0; } ~Team(){ pthread_barrier_destroy(&bar); } };
struct Tls { Team*team; int id; int wsn; Ws*cur; int curi; uint64_t rng; };
thread_local Tls tls={0,0,0,0,-1,88172645463325252ull};
int maxThreads=0; std::mutex gAtomic,gCrit,gNameMap; std::map<void*,std::mutex*> gNamed; std::atomic<uint64_t> gSeed(12345); int gPerturb=0;
std::atomic<long> nRegions(0),nMulti(0),nCrit(0),nChunks(0);
uint64_t rnd(){ tls.rng^=tls.rng<<13; tls.rng^=tls.rng>>7; tls.rng^=tls.rng<<17; return tls.rng; }
void perturb(){ if(!gPerturb||!tls.team||tls.team->n<2) return; uint64_t x=rnd()%16; if(x<3) sched_yield(); else if(x==3) usleep(rnd()%60); }
std::mutex& named(void*p){ std::lock_guard<std::mutex> l(gNameMap); std::mutex*&m=gNamed[p]; if(!m) m=new std::mutex; return *m; }
struct Arg { Team*t; int id; uint64_t seed; };
void* entry(void*a){ Arg*A=(Arg*)a; tls={A->t,A->id,0,0,-1,A->seed|1}; perturb(); A->t->fn(A->t->data); return 0; }
int mx(){ if(!maxThreads){ const char*e=getenv("OMP_NUM_THREADS"); maxThreads=e?atoi(e):1; if(maxThreads<1) maxThreads=1; } return maxThreads; }
Ws& construct(int&idx){ Team*t=tls.team; idx=tls.wsn++; if((int)t->ws.size()<=idx) t->ws.resize(idx+64); return t->ws[idx]; }
}
extern "C" {
void shim_perturb(int on,uint64_t seed){ gPerturb=on; gSeed=seed; }
void shim_counts(long*o){ o[0]=nRegions; o[1]=nMulti; o[2]=nCrit; o[3]=nChunks; }
int omp_get_max_threads(){ return mx(); }
void omp_set_num_threads(int n){ maxThreads=n<1?1:n; }
int omp_get_num_threads(){ return tls.team?tls.team->n:1; }
int omp_get_thread_num(){ return tls.team?tls.id:0; }
int omp_in_parallel(){ return tls.team&&tls.team->n>1; }
double omp_get_wtime(){ return 0; }
int omp_get_num_procs(){ return mx(); }
void GOMP_parallel(void(*fn)(void*),void*data,unsigned n,unsigned){
  int k=n?(int)n:mx(); if(tls.team) k=1; // nested regions run on one thread
  Tls save=tls; Team t(k); t.fn=fn; t.data=data; nRegions++; if(k>1) nMulti++;
  std::vector<pthread_t> th(k); std::vector<Arg> a(k); uint64_t s=gSeed.fetch_add(7919);
  for(int i=1;i<k;i++){ a[i]={&t,i,s*(2*i+1)*0x9E3779B97F4A7C15ull}; pthread_create(&th[i],0,entry,&a[i]); }
  tls={&t,0,0,0,-1,(s*0xD1B54A32D192ED03ull)|1}; perturb(); fn(data); for(int i=1;i<k;i++) pthread_join(th[i],0); tls=save; }
void GOMP_barrier(){ if(tls.team&&tls.team->n>1){ perturb(); pthread_barrier_wait(&tls.team->bar); } }
static bool grab(long*a,long*b){ Team*t=tls.team; Ws&w=t->ws[tls.curi]; if(w.incr>0?w.next>=w.end:w.next<=w.end) return false; *a=w.next; long e=w.next+w.incr*w.chunk; if(w.incr>0?e>w.end:e<w.end) e=w.end; *b=e; w.next=e; nChunks++; return true; }
bool GOMP_loop_dynamic_start(long s,long e,long inc,long ch,long*a,long*b){ if(!tls.team){ *a=s; *b=e; return inc>0?s<e:s>e; }
  perturb(); std::lock_guard<std::mutex> l(tls.team->m); int i; Ws&w=construct(i); tls.curi=i; if(!w.init){ w.init=true; w.next=s; w.end=e; w.incr=inc; w.chunk=ch<1?1:ch; } return grab(a,b); }
bool GOMP_loop_dynamic_next(long*a,long*b){ if(!tls.team) return false; perturb(); std::lock_guard<std::mutex> l(tls.team->m); return grab(a,b); }
bool GOMP_loop_nonmonotonic_dynamic_start(long s,long e,long i,long c,long*a,long*b){ return GOMP_loop_dynamic_start(s,e,i,c,a,b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long*a,long*b){ return GOMP_loop_dynamic_next(a,b); }
bool GOMP_loop_guided_start(long s,long e,long i,long c,long*a,long*b){ return GOMP_loop_dynamic_start(s,e,i,c,a,b); }
bool GOMP_loop_guided_next(long*a,long*b){ return GOMP_loop_dynamic_next(a,b); }
bool GOMP_loop_nonmonotonic_guided_start(long s,long e,long i,long c,long*a,long*b){ return GOMP_loop_dynamic_start(s,e,i,c,a,b); }
bool GOMP_loop_nonmonotonic_guided_next(long*a,long*b){ return GOMP_loop_dynamic_next(a,b); }
void GOMP_loop_end_nowait(){}
void GOMP_loop_end(){ GOMP_barrier(); }
bool GOMP_single_start(){ if(!tls.team) return true; perturb(); std::lock_guard<std::mutex> l(tls.team->m); int i; Ws&w=construct(i); bool f=!w.init; w.init=true; return f; }
void GOMP_critical_start(){ perturb(); nCrit++; gCrit.lock(); }
void GOMP_critical_end(){ gCrit.unlock(); }
void GOMP_critical_name_start(void**p){ perturb(); nCrit++; named(p).lock(); }
void GOMP_critical_name_end(void**p){ named(p).unlock(); }
void GOMP_atomic_start(){ gAtomic.lock(); }
void GOMP_atomic_end(){ gAtomic.unlock(); }
typedef std::atomic<int> L;
void omp_init_lock(void*l){ new(l) L(0); }
void omp_destroy_lock(void*){}
void omp_set_lock(void*l){ L*x=(L*)l; int z=0; while(!x->compare_exchange_weak(z,1,std::memory_order_acquire)){ z=0; sched_yield(); } }
void omp_unset_lock(void*l){ ((L*)l)->store(0,std::memory_order_release); }
int omp_test_lock(void*l){ L*x=(L*)l; int z=0; return x->compare_exchange_strong(z,1,std::memory_order_acquire); }
}
