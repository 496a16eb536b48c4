// The same pairs of calls as in p_sched, on two free-running threads under ThreadSanitizer: accesses to shared memory without
// synchronization, which the hand-over schedules of p_sched cannot see as such.
#include "any.hpp"
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;
static volatile int races; static char what[400];
extern "C" { const char* __tsan_default_options(){ return "exitcode=0 report_signal_unsafe=0"; }
void* __tsan_get_current_report(); int __tsan_get_report_data(void*,const char**,int*,int*,int*,int*,int*,int*,int*,void**,unsigned long);
void __tsan_on_report(void* r){ races++; const char* d=0; int a[7]; void* st[8]; if(__tsan_get_report_data(r,&d,a,a+1,a+2,a+3,a+4,a+5,a+6,st,8)&&d) snprintf(what,sizeof what,"%s",d); } }
struct Call { Job j; int kind; }; static std::vector<Call> calls;
struct Side { Inst* I; int kind; std::vector<unsigned char> st; u64 got; }; static pthread_barrier_t bar;
static void perform(Side& s){ if(s.kind==0){ size_t z=0; unsigned char* p=s.I->compress(z); s.got=p?fnv(p,z,z):0; if(void* a=s.I->aux()){ s.got=fnv(a,s.I->n()*8,s.got); mc_release(a); s.I->set_aux(0); } mc_release(p); }
  else { Out o[3]; int k=s.I->decompress(s.st.data(),s.st.size(),o); u64 h=77; for(int i=0;i<k;i++) h=fnv(o[i].p,o[i].bytes,h); for(int i=0;i<k;i++) mc_release((void*)o[i].p); s.got=h; } }
static void* body(void* a){ pthread_barrier_wait(&bar); perform(*(Side*)a); return 0; }
static std::vector<Space> spaces(bool thorough){ int n=codecs().size(); calls.clear(); pthread_barrier_init(&bar,0,2); codecs();
  std::vector<Space> sp; int reps=thorough?40:8,cold=thorough?10:2;
  auto job=[](int c,int w,int r){ const Codec& C=codecs()[c]; Job j; bool d3=C.dims==3; j.codec=c; j.pat=w+r; j.fam=d3?(w?4:6+r)%NF3:(w?7+r:4+r/2)%16; j.r1=d3?4+w+r:14+5*r; j.r2=d3?5:22+w; j.r3=d3?3+w+r:1; j.eb=C.abs?0.1:0.05; j.bsize=0; j.indep=w; return j; };
  // must come first: the worker itself must not have run the library
  sp.push_back({"first","for each of the 33 pairs: {compress, decompress} x {compress, decompress} with different data and sizes as the first two calls of a process, on free-running threads",(u64)n*4*cold,[=](u64 i,Ctx& x){ Digits d(i); int k[2]; k[0]=d.take(2); k[1]=d.take(2); int c=d.take(n); int r=d.v; const Codec& C=codecs()[c]; x.sig=i+1000003; x.nontrivial=true;
    struct Prep { int ok; size_t len[2],aux[2]; unsigned char s[2][1<<18]; double a[2][1<<12]; }; struct Res { int races; char what[400]; int done; }; static Prep* P=(Prep*)mmap(0,sizeof(Prep),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); static Res* R=(Res*)mmap(0,sizeof(Res),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    for(int w=0;w<2;w++) x.say("thread %d: %s %s, first call of the process\n",w,k[w]?"decompress":"compress",job_text(job(c,w,r)).c_str());
    if((k[0]||k[1])&&C.name.find("3d_with_eb")==0){ x.nontrivial=false; return; }
    auto child=[](const std::function<void()>& f){ pid_t p=fork(); if(!p){ alarm(30); f(); _exit(0); } int st=0; while(waitpid(p,&st,0)<0&&errno==EINTR){} return st; };
    P->ok=0; int st=child([&]{ for(int w=0;w<2;w++){ P->len[w]=P->aux[w]=0; if(!k[w]) continue; auto I=C.make(job(c,w,r)); size_t z=0; unsigned char* p=I->compress(z); if(!p||z>sizeof P->s[w]) return; memcpy(P->s[w],p,P->len[w]=z); if(void* q=I->aux()){ P->aux[w]=I->n(); memcpy(P->a[w],q,8*I->n()); } } P->ok=1; });
    if(st||!P->ok){ x.fail("race:first:alone","%s: the compressor alone ends the process (%d)",C.name.c_str(),st); return; }
    R->done=0; st=child([&]{ races=0; what[0]=0; Side s[2]; std::unique_ptr<Inst> I[2]; for(int w=0;w<2;w++){ I[w]=C.make(job(c,w,r)); s[w].I=I[w].get(); s[w].kind=k[w]; s[w].st.assign(P->s[w],P->s[w]+P->len[w]); if(P->aux[w]) I[w]->set_aux(P->a[w]); }
      pthread_t t[2]; for(int w=0;w<2;w++) pthread_create(&t[w],0,body,&s[w]); for(int w=0;w<2;w++) pthread_join(t[w],0); R->races=races; memcpy(R->what,what,sizeof what); R->done=1; });
    if(st||!R->done){ x.fail("race:first:died:"+C.name,"%s, %s || %s as the first calls of a process: the process ends with status %d",C.name.c_str(),k[0]?"decompress":"compress",k[1]?"decompress":"compress",st); return; }
    if(R->races) x.fail("race:first:"+C.name,"%s, %s || %s as the first calls of a process: ThreadSanitizer reports a %s",C.name.c_str(),k[0]?"decompress":"compress",k[1]?"decompress":"compress",R->what); }});
  sp.push_back({"free","for each of the 33 pairs: {compress, decompress} x {compress, decompress} with different data and sizes, on free-running threads",(u64)n*4*reps,[=](u64 i,Ctx& x){ Digits d(i); int k[2]; k[0]=d.take(2); k[1]=d.take(2); int c=d.take(n); int r=d.v; const Codec& C=codecs()[c]; Side s[2]; std::unique_ptr<Inst> I[2]; std::vector<double> ax[2]; u64 want[2]; x.sig=i; x.nontrivial=true;
    for(int w=0;w<2;w++){ Job j; bool d3=C.dims==3; j.codec=c; j.pat=w+r; j.fam=d3?(w?4:6+r)%NF3:(w?7+r:4+r/2)%16; j.r1=d3?4+w+r:14+5*r; j.r2=d3?5:22+w; j.r3=d3?3+w+r:1; j.eb=C.abs?0.1:0.05; j.bsize=0; j.indep=w; x.say("thread %d: %s %s\n",w,k[w]?"decompress":"compress",job_text(j).c_str()); I[w]=C.make(j); s[w].I=I[w].get(); s[w].kind=k[w];
      if(k[w]){ if(C.name.find("3d_with_eb")==0){ x.nontrivial=false; return; } size_t z=0; unsigned char* p=I[w]->compress(z); s[w].st.assign(p,p+z); mc_release(p); if(void* q=I[w]->aux()){ ax[w].assign((double*)q,(double*)q+I[w]->n()); mc_release(q); I[w]->set_aux(ax[w].data()); } }
      perform(s[w]); want[w]=s[w].got; }
    races=0; what[0]=0; pthread_t t[2]; for(int w=0;w<2;w++) pthread_create(&t[w],0,body,&s[w]); for(int w=0;w<2;w++) pthread_join(t[w],0);
    if(races) x.fail("race:"+C.name,"%s, %s || %s: ThreadSanitizer reports a %s",C.name.c_str(),k[0]?"decompress":"compress",k[1]?"decompress":"compress",what);
    for(int w=0;w<2;w++) if(s[w].got!=want[w]) x.fail("race-output:"+C.name,"%s: thread %d gets something else than alone",C.name.c_str(),w); }});
  return sp; }
int main(int c,char** v){ return explore_main(c,v,"race","",spaces); }
