// Two threads in the library at once: every schedule with a bounded number of preemptions, on real threads that hand over to
// each other. Preemption points: every basic block of the library (its first VISITS executions), every allocation, copy and
// release. Each thread must get what it gets alone.
#include "any.hpp"
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <time.h>
#include <unordered_map>
using namespace mc;
#define NI __attribute__((no_instrument_function,noinline))
struct Call { Job j; int kind; std::string name; };
// --- scheduler ---
static __thread int me;                        // 0: not scheduled, 1 or 2
static volatile int quiet;                     // >0: inside a one-time initialization or not exploring
static sem_t sem[3]; static volatile bool finished[3]; static volatile bool lost; // lost: a thread waited in a way the scheduler does not see
struct Plan { int n; int who[4]; u64 at[4]; }; // preempt thread who[i] at its at[i]-th point
static Plan plan; static int step; static u64 npoint[3]; static int VISITS=8; static u64 cut_pc;
struct Visit { u64 key; uint32_t n; uint32_t ep; }; static Visit vt[3][1<<14]; static uint32_t epoch;
static std::vector<u64>* record; // addresses of the points of thread 1
static void wait_for(int w){ struct timespec t; clock_gettime(CLOCK_REALTIME,&t); t.tv_sec+=8; while(sem_timedwait(&sem[w],&t)){ if(errno==EINTR) continue; lost=true; return; } }
static void hand_over(int to){ int i=me; sem_post(&sem[to]); if(!lost) wait_for(i); }
static void at_point(u64 pc){ int i=me; if(!i||quiet||lost) return;
  u64 k=(pc*0x9E3779B97F4A7C15ull)>>50; Visit* t=vt[i]; for(;;k=(k+1)&0x3FFF){ if(t[k].ep!=epoch){ t[k].ep=epoch; t[k].key=pc; t[k].n=0; break; } if(t[k].key==pc) break; }
  if(t[k].n>=(uint32_t)VISITS) return; t[k].n++;
  u64 p=npoint[i]++; if(record&&i==1){ me=0; record->push_back(pc); me=i; }
  if(step<plan.n&&plan.who[step]==i&&plan.at[step]==p){ step++; int o=3-i; if(!finished[o]){ cut_pc=pc; hand_over(o); } } }
extern "C" { void NI __sanitizer_cov_trace_pc(){ if(me) at_point((u64)__builtin_return_address(0)); }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_once(pthread_once_t*,void(*)()); int __real___cxa_guard_acquire(void*); void __real___cxa_guard_release(void*); void __real___cxa_guard_abort(void*);
// a thread that cannot get a mutex lets the other one run
int __wrap_pthread_mutex_lock(pthread_mutex_t* m){ if(!me||lost) return __real_pthread_mutex_lock(m); for(int k=0;;k++){ int r=pthread_mutex_trylock(m); if(r!=EBUSY) return r; int o=3-me; if(finished[o]) return __real_pthread_mutex_lock(m); hand_over(o); if(lost) return __real_pthread_mutex_lock(m); } }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m){ int r=__real_pthread_mutex_unlock(m); at_point(0x10); return r; }
int __wrap_pthread_once(pthread_once_t* o,void(*f)()){ quiet++; int r=__real_pthread_once(o,f); quiet--; return r; }
int __wrap___cxa_guard_acquire(void* g){ int r=__real___cxa_guard_acquire(g); if(r&&me) quiet++; return r; }
void __wrap___cxa_guard_release(void* g){ __real___cxa_guard_release(g); if(me) quiet--; }
void __wrap___cxa_guard_abort(void* g){ __real___cxa_guard_abort(g); if(me) quiet--; } }
static void alloc_point(int kind){ if(me) at_point(kind); }
// --- the two calls ---
struct Side { const Call* c; Inst* I; const std::vector<unsigned char>* stream; u64 got; bool ok; };
static Side side[3];
static u64 perform(Side& s){ if(s.c->kind==0){ size_t z=0; unsigned char* p=s.I->compress(z); int w=me; me=0; if(!p) { s.ok=false; return 0; } u64 h=fnv(p,z,z); if(void* a=s.I->aux()){ h=fnv(a,s.I->n()*8,h); mc_release(a); s.I->set_aux(0); } mc_release(p); me=w; return h; }
  Out o[3]; int k=s.I->decompress(s.stream->data(),s.stream->size(),o); int w=me; me=0; u64 h=77; for(int i=0;i<k;i++) h=fnv(o[i].p,o[i].bytes,h); for(int i=0;i<k;i++) mc_release((void*)o[i].p); me=w; return h; }
static sem_t go[3], all_done; static bool started;
static void* body(void* a){ int w=(int)(long)a; for(;;){ while(sem_wait(&go[w])){} wait_for(w); me=w; side[w].ok=true; side[w].got=perform(side[w]); me=0; finished[w]=true; if(!finished[3-w]&&!lost) sem_post(&sem[3-w]); sem_post(&all_done); } return 0; }
static void start(){ if(started) return; started=true; for(int i=1;i<3;i++){ sem_init(&sem[i],0,0); sem_init(&go[i],0,0); } sem_init(&all_done,0,0); for(int i=1;i<3;i++){ pthread_t t; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,16<<20); pthread_create(&t,&at,body,(void*)(long)i); } }
// one execution; thread 1 starts
static bool run(const Plan& p){ static u64 runs; if(runs++%1000==0) alarm(60); plan=p; step=0; npoint[1]=npoint[2]=0; epoch++; finished[1]=finished[2]=false; cut_pc=0; quiet=0; env_point=alloc_point; sem_post(&go[1]); sem_post(&go[2]); sem_post(&sem[1]); for(int i=0;i<2;i++) while(sem_wait(&all_done)){} env_point=0; return !lost; }
static std::string where(u64 pc){ Dl_info d; char b[300]; if(pc<64){ snprintf(b,300,"%s",pc==1?"an allocation":pc==2?"a release":"a copy or unlock"); return b; } if(dladdr((void*)pc,&d)&&d.dli_fname){ snprintf(b,300,"%s+0x%llx",d.dli_sname?d.dli_sname:d.dli_fname,(unsigned long long)(pc-(u64)(d.dli_sname?d.dli_saddr:d.dli_fbase))); return b; } snprintf(b,300,"%llx",(unsigned long long)pc); return b; }
static std::vector<Call> calls; static int NJ;
static void both(int a,int b,int bound,Ctx& x){
  start(); int id[3]={0,a,b}; std::unique_ptr<Inst> I[3]; std::vector<unsigned char> st[3]; std::vector<double> ax[3]; u64 want[3],in[3]; 
  x.say("thread 1: %s\nthread 2: %s\n",calls[a].name.c_str(),calls[b].name.c_str()); x.sig=a*1000003ull+b; x.nontrivial=true;
  for(int w=1;w<3;w++){ const Call& c=calls[id[w]]; I[w]=codecs()[c.j.codec].make(c.j); in[w]=I[w]->inputs(); side[w]={&c,I[w].get(),&st[w],0,true};
    if(c.kind){ size_t z=0; unsigned char* s=I[w]->compress(z); if(!s) return; st[w].assign(s,s+z); mc_release(s); if(void* q=I[w]->aux()){ ax[w].assign((double*)q,(double*)q+I[w]->n()); mc_release(q); I[w]->set_aux(ax[w].data()); } Out o[3]; if(!codecs()[c.j.codec].name.compare(0,10,"3d_with_eb")) { x.nontrivial=false; return; } (void)o; }
    want[w]=perform(side[w]); if(!side[w].ok) return; }
  u64 n=0,pre=0,div=0; auto judge=[&](const Plan& p,bool fine)->bool{ n++; pre+=step; if(!fine){ x.count("schedules without a verdict: a thread waited unseen"); return true; }
    for(int w=1;w<3;w++) if(!side[w].ok||side[w].got!=want[w]||I[w]->inputs()!=in[w]){ std::string pts; for(int i=0;i<p.n;i++) pts+=(i?", then thread ":"thread ")+std::to_string(p.who[i])+" stopped at its point "+std::to_string(p.at[i]); x.fail("schedule:"+codecs()[calls[id[w]].j.codec].name,"%s || %s, %s (%s): thread %d gets something else than alone",calls[a].name.c_str(),calls[b].name.c_str(),p.n?pts.c_str():"one after the other",cut_pc?where(cut_pc).c_str():"-",w); return false; }
    if(env_error.kind){ x.fail("schedule:heap","%s || %s: heap error %d in a schedule",calls[a].name.c_str(),calls[b].name.c_str(),env_error.kind); return false; }
    return true; };
  Plan p; memset(&p,0,sizeof p); std::vector<u64> rec; record=&rec; bool ok=run(p); record=0; if(!judge(p,ok)) return; u64 N=npoint[1];
  // the same schedule twice gives the same points
  std::vector<u64> rec2; record=&rec2; ok=run(p); record=0; if(rec!=rec2){ x.count("pairs whose points differ from run to run"); div++; }
  x.count("preemption points",N);
  for(u64 k=0;k<N&&!lost;k++){ p.n=1; p.who[0]=1; p.at[0]=k; ok=run(p); if(!div&&step==1&&cut_pc!=rec[k]) x.count("schedules that diverged"); if(!judge(p,ok)) break; 
    if(bound>1){ u64 M=npoint[2]; for(u64 l=0;l<M&&!lost;l++){ p.n=2; p.who[1]=2; p.at[1]=l; ok=run(p); if(!judge(p,ok)) break; } if(x.failed) break; } }
  x.count("schedules",n); x.count("preemptions",pre); x.units=n; if(lost){ lost=false; for(int w=1;w<3;w++){ sem_destroy(&sem[w]); sem_init(&sem[w],0,0); } } }
// The first calls of a process: every schedule runs in a process of its own that has not executed the library before. What the
// calls give alone is found in another process.
struct Cold { u64 want[3],in[3],got[3],n[3],pc; int exists,ready,step,heap; bool ok[3],lost,inputs; size_t len[3],auxn[3]; unsigned char stream[3][1<<18]; double aux[3][1<<12]; };
static int in_child(const std::function<void()>& f){ pid_t c=fork(); if(!c){ alarm(20); f(); _exit(0); } int st=0; while(waitpid(c,&st,0)<0&&errno==EINTR){} return st; }
static void cold(int a,int b,Ctx& x){
  static Cold* S=(Cold*)mmap(0,sizeof(Cold),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); S->exists=1; S->ready=0; int id[3]={0,a,b};
  x.say("first calls of the process\nthread 1: %s\nthread 2: %s\n",calls[a].name.c_str(),calls[b].name.c_str()); x.sig=a*1000003ull+b+77; x.nontrivial=true;
  int st=in_child([&]{ for(int w=1;w<3;w++){ const Call& c=calls[id[w]]; auto I=codecs()[c.j.codec].make(c.j); S->in[w]=I->inputs(); S->len[w]=S->auxn[w]=0; std::vector<unsigned char> v; Side s={&c,I.get(),&v,0,true}; std::vector<double> ax;
      if(c.kind){ size_t z=0; unsigned char* p=I->compress(z); if(!p||z>sizeof S->stream[w]||!codecs()[c.j.codec].name.compare(0,10,"3d_with_eb")){ S->exists=0; return; } memcpy(S->stream[w],p,S->len[w]=z); v.assign(p,p+z); mc_release(p); if(void* q=I->aux()){ S->auxn[w]=I->n(); memcpy(S->aux[w],q,8*I->n()); ax.assign((double*)q,(double*)q+I->n()); mc_release(q); I->set_aux(ax.data()); } }
      S->want[w]=perform(s); if(!s.ok) S->exists=0; } S->ready=1; });
  if(st){ x.fail("first:alone","%s || %s: one of the calls alone ends the process (%d)",calls[a].name.c_str(),calls[b].name.c_str(),st); return; } if(!S->exists||!S->ready){ x.nontrivial=false; return; }
  auto once=[&](const Plan& p)->bool{ S->step=-1; S->heap=0; S->lost=false; S->inputs=true; int r=in_child([&]{ started=false; start(); std::unique_ptr<Inst> I[3]; std::vector<unsigned char> v[3]; for(int w=1;w<3;w++){ const Call& c=calls[id[w]]; I[w]=codecs()[c.j.codec].make(c.j); v[w].assign(S->stream[w],S->stream[w]+S->len[w]); if(S->auxn[w]) I[w]->set_aux(S->aux[w]); side[w]={&c,I[w].get(),&v[w],0,true}; }
      if(!run(p)) S->lost=true; for(int w=1;w<3;w++){ S->got[w]=side[w].got; S->ok[w]=side[w].ok; S->n[w]=npoint[w]; if(I[w]->inputs()!=S->in[w]) S->inputs=false; } S->pc=cut_pc; S->heap=env_error.kind; S->step=step; });
    x.units++; x.count("schedules of first calls"); auto at=[&]()->std::string{ return p.n?"thread 1 stopped at its point "+std::to_string(p.at[0])+" ("+where(S->pc)+")":std::string("no preemption"); };
    if(r){ x.fail("first:died:"+codecs()[calls[a].j.codec].name,"%s || %s as the first calls of a process: the process ends with status %d; %s",calls[a].name.c_str(),calls[b].name.c_str(),r,at().c_str()); return false; }
    if(S->lost){ x.count("schedules without a verdict: a thread waited unseen"); return true; }
    for(int w=1;w<3;w++) if(!S->ok[w]||S->got[w]!=S->want[w]||!S->inputs){ x.fail("first:"+codecs()[calls[id[w]].j.codec].name,"%s || %s as the first calls of a process: thread %d gets something else than alone; %s",calls[a].name.c_str(),calls[b].name.c_str(),w,at().c_str()); return false; }
    if(S->heap){ x.fail("first:heap","%s || %s as the first calls of a process: heap error %d; %s",calls[a].name.c_str(),calls[b].name.c_str(),S->heap,at().c_str()); return false; } return true; };
  Plan p; memset(&p,0,sizeof p); if(!once(p)) return; u64 N=S->n[1]; for(u64 k=0;k<N;k++){ p.n=1; p.who[0]=1; p.at[0]=k; if(!once(p)) return; } }
static std::vector<Space> spaces(bool thorough){
  int n=codecs().size(); NJ=4; calls.clear();
  // fields with critical points and bounds so wide that what is derived from the field decides
  for(int c=0;c<n;c++) for(int k=0;k<NJ;k++){ const Codec& C=codecs()[c]; bool d3=C.dims==3,sc=C.name.find("2d<")==0||C.name.find("3d<")==0||C.name.find("with_eb")!=std::string::npos||C.name.find("pwr")!=std::string::npos; Job j; j.codec=c; j.pat=k+1;
    static const int fs[]={4,2,15,6},f2[]={4,7,5,19},f3[]={5,4,13,2}; static const size_t s2[][2]={{3,4},{4,3},{4,4},{3,5}},s3[][3]={{2,2,3},{3,2,2},{2,3,2},{2,2,2}};
    j.fam=sc?fs[k]:d3?f3[k]:f2[k]; j.r1=d3?s3[k][0]:s2[k][0]; j.r2=d3?s3[k][1]:s2[k][1]; j.r3=d3?s3[k][2]:1; j.eb= sc?(k&1?0.3:0.02):C.abs?(k&1?1:0.3):(k&1?0.9:0.5); j.bsize=sc&&k>1?2:0; j.indep=k&1;
    Call o; o.j=j; o.kind=0; o.name="compress "+job_text(j); calls.push_back(o); o.kind=1; o.name="decompress "+job_text(j); calls.push_back(o); }
  std::vector<Space> sp; 
  // must come first: the worker itself must not have run the library
  { int visits=thorough?12:3; sp.push_back({"first",std::string("for each of the 33 pairs: {compress, decompress} x {compress, decompress} as the first two calls of a process; every schedule with one preemption, at the first ")+(thorough?"12 executions":"3 executions")+" of every basic block and at every kind of heap operation",(u64)n*4,[=](u64 i,Ctx& x){ VISITS=visits; Digits d(i); int a=d.take(2),b=d.take(2); int c=d.v; cold(c*8+a,c*8+4+b,x); }}); }
  // thread 1 works on job 0 or 1, thread 2 on job 2 or 3 of the codec
  auto at=[](u64 i,int visits,int bound,Ctx& x){ VISITS=visits; Digits d(i); int a=d.take(2),b=d.take(2),p=d.take(2),q=d.take(2); int c=d.v; both(c*8+2*p+a,c*8+4+2*q+b,bound,x); };
  std::string what="for each of the 33 pairs: two threads, {compress, decompress} x {compress, decompress} x 2 jobs x 2 jobs; ";
  sp.push_back({"bound1",what+"every schedule with one preemption, at the first 25 executions of every basic block of the library and at every kind of heap operation",(u64)n*16,[=](u64 i,Ctx& x){ at(i,25,1,x); }});
  sp.push_back({"bound1/cross","each call of each codec against a call of the next codec and of the one 7 further, first 3 executions",(u64)n*2*2,[=](u64 i,Ctx& x){ VISITS=3; Digits d(i); int a=d.take(2),s=d.take(2); int c=d.v; both(c*8+a,((c+(s?7:1))%n)*8+4+a,1,x); }});
  if(thorough){ sp.push_back({"bound1/all",what+"every schedule with one preemption, at every execution of every basic block",(u64)n*16,[=](u64 i,Ctx& x){ at(i,1000000,1,x); }});
    sp.push_back({"bound2",what+"every schedule with two preemptions, at the first execution of every basic block",(u64)n*16,[=](u64 i,Ctx& x){ at(i,1,2,x); }}); }
  return sp; }
int main(int c,char** v){ return explore_main(c,v,"sched","",spaces); }
