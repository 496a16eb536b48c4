#include "mc.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <iostream>
#include <time.h>
namespace mc {
void Ctx::fail(const std::string& k, const char* f, ...){ if(failed) return; char b[2000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); failed=true; key=k; msg=b; }
void Ctx::say(const char* f, ...){ if(!describe) return; char b[4000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); text+=b; }
struct Global { volatile u64 viol, hangs; volatile int stop; };
struct Shared { volatile u64 cur_space, cur_index; volatile int in_case; u64 evals, nontriv, units, nviol; double cpu; };
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
static std::string esc(const std::string& s){ std::string o; for(unsigned char c: s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b;} else o+=c; } return o; }
static void env_verdict(Ctx& c){
  if(c.failed||!env_error.kind) return;
  static const char* n[]={"","write past the end of a heap block","write before a heap block","free of a pointer that is not a live block","the library called exit()"};
  c.fail(std::string("heap:")+n[env_error.kind],"%s (block of %zu bytes, offset %zu)",n[env_error.kind],env_error.size,env_error.off);
}
static const char* outdir; static int maxviol=20; static u64 maxtotal=400;
static void report(FILE* f,const Space& s,u64 idx,const std::string& key,const std::string& msg){
  fprintf(f,"{\"space\":\"%s\",\"index\":%llu,\"key\":\"%s\",\"msg\":\"%s\"}\n",esc(s.name).c_str(),(unsigned long long)idx,esc(key).c_str(),esc(msg).c_str()); fflush(f); }
static int case_limit=40;
static u64 blk(const Space& s){ return s.n<4096?1:64; } // indices a worker takes at a time
static void run_one(const Space& s,u64 i,Ctx& c){ c.reset(); env_reset(); alarm(case_limit); s.run(i,c); alarm(0); env_verdict(c); }

int explore_main(int argc,char** argv,const char* property,const char* rule,std::vector<Space>(*mk)(bool)){
  bool thorough=false; int jobs=8; std::string only, replay_space; u64 replay_idx=0; bool replay=false; outdir="."; u64 limit=0; double budget=0; bool list=false; u64 history=0; bool with_history=false;
  for(int i=1;i<argc;i++){ std::string a=argv[i];
    if(a=="--tier") thorough=std::string(argv[++i])=="thorough"; else if(a=="--jobs") jobs=atoi(argv[++i]); else if(a=="--out") outdir=argv[++i];
    else if(a=="--only") only=argv[++i]; else if(a=="--max") maxviol=atoi(argv[++i]); else if(a=="--max-total") maxtotal=strtoull(argv[++i],0,10); else if(a=="--limit") limit=strtoull(argv[++i],0,10); else if(a=="--budget") budget=atof(argv[++i]); else if(a=="--list") list=true; else if(a=="--from"){ with_history=true; history=strtoull(argv[++i],0,10); } else if(a=="--case-limit") case_limit=atoi(argv[++i]);
    else if(a=="--replay"){ replay=true; replay_space=argv[++i]; replay_idx=strtoull(argv[++i],0,10);} }
  std::cout.setstate(std::ios::failbit);
  std::vector<Space> sp=mk(thorough);
  if(list){ u64 tot=0; for(auto&s:sp){ fprintf(stderr,"%12llu  %s: %s\n",(unsigned long long)s.n,s.name.c_str(),s.about.c_str()); tot+=s.n;} fprintf(stderr,"%12llu total\n",(unsigned long long)tot); return 0; }
  if(replay){
    for(auto&s:sp) if(s.name==replay_space){ Ctx c; c.describe=false; if(with_history) for(u64 i=history;i<replay_idx;i++) run_one(s,i,c); c.describe=true; run_one(s,replay_idx,c); fprintf(stderr,"%s",c.text.c_str()); if(c.failed){ fprintf(stderr,"FAIL key=%s\n%s\n",c.key.c_str(),c.msg.c_str()); return 1; } fprintf(stderr,"ok\n"); return 0; }
    fprintf(stderr,"no space %s\n",replay_space.c_str()); return 2; }
  if(!only.empty()){ std::vector<Space> t; for(auto&s:sp) if(s.name.find(only)!=std::string::npos) t.push_back(s); sp=t; }
  // interleave the spaces proportionally over workers: worker w takes blocks b with b%jobs==w
  Shared* sh=(Shared*)mmap(0,sizeof(Shared)*jobs,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  u64* counters=(u64*)mmap(0,sizeof(u64)*(sp.size()+1),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); // next block per space
  u64* done=(u64*)mmap(0,sizeof(u64)*(sp.size()+1),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  Global* G=(Global*)mmap(0,sizeof(Global),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  double t0=now();
  std::string dir=outdir;
  auto worker=[&](int w,bool resume){
    Shared& S=sh[w]; FILE* vf=fopen((dir+"/viol."+std::to_string(w)).c_str(),"a"); FILE* hf=fopen((dir+"/sig."+std::to_string(w)).c_str(),"ab"); FILE* tf;
    std::set<u64> sigs; Ctx c; c.describe=false; int nv=0; u64 resume_space=~0ull, resume_from=0, resume_end=0;
    if(resume){ resume_space=S.cur_space; resume_from=S.cur_index+1; resume_end=((S.cur_index/blk(sp[S.cur_space]))+1)*blk(sp[S.cur_space]); }
    u64 allocs=0;
    for(u64 k=0;k<sp.size();k++){
      const Space& s=sp[k]; u64 N= limit&&limit<s.n?limit:s.n;
      auto run_range=[&](u64 a,u64 b){
        for(u64 i=a;i<b&&!G->stop;i++){
          S.cur_space=k; S.cur_index=i; S.in_case=1; run_one(s,i,c); S.in_case=0; S.evals++; S.units+=c.units; __sync_fetch_and_add(&done[k],1);
          if(c.nontrivial){ S.nontriv++; sigs.insert(c.sig); if(sigs.size()>200000){ for(u64 x:sigs) fwrite(&x,8,1,hf); sigs.clear(); } }
          if(c.failed){ S.nviol++; if(nv++<maxviol) report(vf,s,i,c.key,c.msg); if(__sync_add_and_fetch(&G->viol,1)>=maxtotal) G->stop=1; }
        } };
      if(resume && k<resume_space) continue;
      if(resume && k==resume_space) run_range(resume_from,std::min(resume_end,N));
      for(;;){ u64 b=__sync_fetch_and_add(&counters[k],1); u64 B=blk(s),a=b*B; if(a>=N||G->stop) break; if(budget>0&&now()-t0>budget) break; run_range(a,std::min(a+B,N)); }
    }
    for(u64 x:sigs) fwrite(&x,8,1,hf); fclose(hf); fclose(vf);
    tf=fopen((dir+"/tally."+std::to_string(w)).c_str(),"a"); for(auto&t:c.tally) fprintf(tf,"%s\t%llu\n",t.first.c_str(),(unsigned long long)t.second); fclose(tf);
    (void)allocs; };
  std::vector<pid_t> pid(jobs); std::vector<int> restarts(jobs,0);
  for(int w=0;w<jobs;w++){ pid[w]=fork(); if(pid[w]==0){ worker(w,false); _exit(0);} }
  int alive=jobs; u64 crashes=0;
  while(alive){ int st; pid_t p=wait(&st); if(p<0) break; int w=-1; for(int i=0;i<jobs;i++) if(pid[i]==p) w=i; if(w<0) continue;
    if(WIFEXITED(st)&&WEXITSTATUS(st)==0&&!sh[w].in_case){ alive--; continue; }
    crashes++; const Space& s=sp[sh[w].cur_space]; char m[200];
    bool hang=WIFSIGNALED(st)&&WTERMSIG(st)==SIGALRM; if(hang&&++G->hangs>=3) G->stop=1;
    if(hang) snprintf(m,200,"the library did not return within %d s",case_limit); else if(WIFSIGNALED(st)) snprintf(m,200,"the process died with signal %d (%s)",WTERMSIG(st),strsignal(WTERMSIG(st))); else snprintf(m,200,"the process exited with status %d inside the library",WEXITSTATUS(st));
    FILE* vf=fopen((dir+"/viol."+std::to_string(w)).c_str(),"a"); report(vf,s,sh[w].cur_index,hang?std::string("hang"):std::string("crash:")+(WIFSIGNALED(st)?strsignal(WTERMSIG(st)):"exit"),m); fclose(vf);
    sh[w].evals++; __sync_fetch_and_add(&done[sh[w].cur_space],1); sh[w].in_case=0;
    if(++restarts[w]>maxviol){ alive--; continue; }
    pid[w]=fork(); if(pid[w]==0){ worker(w,true); _exit(0);} }
  u64 ev=0,nt=0,un=0,nv=0; for(int w=0;w<jobs;w++){ ev+=sh[w].evals; nt+=sh[w].nontriv; un+=sh[w].units; nv+=sh[w].nviol; }
  std::vector<u64> all; for(int w=0;w<jobs;w++){ std::string fn=dir+"/sig."+std::to_string(w); FILE* f=fopen(fn.c_str(),"rb"); if(!f) continue; u64 x; while(fread(&x,8,1,f)==1) all.push_back(x); fclose(f); unlink(fn.c_str()); }
  std::sort(all.begin(),all.end()); u64 distinct=std::unique(all.begin(),all.end())-all.begin();
  std::map<std::string,u64> tally; for(int w=0;w<jobs;w++){ std::string fn=dir+"/tally."+std::to_string(w); FILE* f=fopen(fn.c_str(),"r"); if(!f) continue; char l[500]; while(fgets(l,500,f)){ char* t=strchr(l,'\t'); if(t){ *t=0; tally[l]+=strtoull(t+1,0,10);} } fclose(f); unlink(fn.c_str()); }
  FILE* o=fopen((dir+"/result.json").c_str(),"w");
  bool complete=true; for(size_t k=0;k<sp.size();k++){ u64 N=limit&&limit<sp[k].n?limit:sp[k].n; if(done[k]<N) complete=false; }
  fprintf(o,"{\"property\":\"%s\",\"rule\":\"%s\",\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"units\":%llu,\"crashes\":%llu,\"failing_cases\":%llu,\"complete\":%s,\"wall\":%.3f,\"spaces\":[",property,esc(rule).c_str(),(unsigned long long)ev,(unsigned long long)nt,(unsigned long long)distinct,(unsigned long long)un,(unsigned long long)crashes,(unsigned long long)(nv+crashes),complete?"true":"false",now()-t0);
  for(size_t k=0;k<sp.size();k++) fprintf(o,"%s{\"name\":\"%s\",\"about\":\"%s\",\"size\":%llu,\"executed\":%llu}",k?",":"",esc(sp[k].name).c_str(),esc(sp[k].about).c_str(),(unsigned long long)sp[k].n,(unsigned long long)done[k]);
  fprintf(o,"],\"tally\":{"); { bool f=true; for(auto&t:tally){ fprintf(o,"%s\"%s\":%llu",f?"":",",esc(t.first).c_str(),(unsigned long long)t.second); f=false; } }
  // samples: describe first, middle and last case of a few spaces, in a child (may crash)
  fprintf(o,"},\"samples\":["); fflush(o);
  { std::string smp; int pp[2]; if(pipe(pp)==0){ pid_t c=fork(); if(c==0){ close(pp[0]); std::string out; Ctx cx; cx.describe=true; int cnt=0; size_t step=sp.size()>6?sp.size()/6:1; bool first=true;
        for(size_t k=0;k<sp.size()&&cnt<8;k+=step,cnt++){ u64 N=limit&&limit<sp[k].n?limit:sp[k].n; if(!N) continue; u64 i=N/2+N/7; if(i>=N) i=N-1; run_one(sp[k],i,cx); std::string t=cx.text; if(t.size()>1500) t=t.substr(0,1500)+"..."; out=std::string(first?"":",")+"{\"space\":\""+esc(sp[k].name)+"\",\"index\":"+std::to_string(i)+",\"case\":\""+esc(t)+"\"}"; first=false; if(write(pp[1],out.data(),out.size())<0) break; } _exit(0);} close(pp[1]); char b[4096]; ssize_t r; while((r=read(pp[0],b,sizeof b))>0) smp.append(b,r); int st; waitpid(c,&st,0); }
    fprintf(o,"%s",smp.c_str()); }
  fprintf(o,"]}\n"); fclose(o);
  return 0;
}
}
