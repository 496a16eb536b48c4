// Histories of calls: the library's hidden state (static storage of the library, its thread-local storage, rounding mode,
// heap blocks it keeps) is explored as a transition system. Every operation from every reached state must give what it
// gives in a fresh process. A state is the history that leads to it; it lives in a forked process.
#include "any.hpp"
#include <link.h>
#include <fenv.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <poll.h>
using namespace mc;
struct Op { Job j; int kind; std::string name; bool core; };          // kind 0 compress, 1 decompress
static std::vector<Op> ops; static std::vector<std::vector<unsigned char>> streams, auxes; // for decompression: what compression gave in a process of its own
 static std::vector<u64> refs; static std::vector<char> refok;
// --- hidden state ---
struct Seg { char* p; size_t n; }; static std::vector<Seg> segs;
static int phdr(struct dl_phdr_info* i,size_t,void*){ if(!strstr(i->dlpi_name,".lib.so")) return 0; size_t relro_lo=0,relro_hi=0;
  for(int k=0;k<i->dlpi_phnum;k++){ auto& h=i->dlpi_phdr[k]; if(h.p_type==PT_GNU_RELRO){ relro_lo=i->dlpi_addr+h.p_vaddr; relro_hi=relro_lo+h.p_memsz; } }
  for(int k=0;k<i->dlpi_phnum;k++){ auto& h=i->dlpi_phdr[k]; if(h.p_type==PT_LOAD&&(h.p_flags&PF_W)){ size_t lo=i->dlpi_addr+h.p_vaddr,hi=lo+h.p_memsz; if(relro_hi>lo&&relro_lo<=lo) lo=relro_hi; if(hi>lo) segs.push_back({(char*)lo,hi-lo}); }
    if(h.p_type==PT_TLS&&i->dlpi_tls_data) segs.push_back({(char*)i->dlpi_tls_data,h.p_memsz}); }
  return 0; }
static long kept; // heap blocks the calls so far left behind
static u64 hidden(){ u64 h=0xABC; for(auto& s: segs) h=fnv(s.p,s.n,h); int r=fegetround(); h=fnv(&r,sizeof r,h); h=fnv(&kept,sizeof kept,h); return h; }
// --- operations ---
static u64 exec_op(const Op& o,size_t at,std::vector<unsigned char>* keep,std::vector<unsigned char>* keepaux,bool* ok){
  const Codec& c=codecs()[o.j.codec]; std::unique_ptr<Inst> I=c.make(o.j); *ok=true; u64 in=I->inputs(),h=0;
  if(o.kind==0){ size_t z=0; unsigned char* s=I->compress(z); if(!s){ *ok=false; return 0; } h=fnv(s,z,z); if(keep) keep->assign(s,s+z); if(void* a=I->aux()){ size_t n=I->n()*sizeof(double); h=fnv(a,n,h); if(keepaux) keepaux->assign((unsigned char*)a,(unsigned char*)a+n); } mc_release(s); mc_release(I->aux()); }
  else { std::vector<unsigned char>*st=&streams[at]; if(!auxes[at].empty()) I->set_aux(auxes[at].data()); Out out[3]; int k=I->decompress(st->data(),st->size(),out); h=77; for(int i=0;i<k;i++) h=fnv(out[i].p,out[i].bytes,h); for(int i=0;i<k;i++) mc_release((void*)out[i].p); }
  if(in!=I->inputs()) *ok=false; return h; }
struct Shared { u64 table[1<<16]; u64 nstates; u64 ntrans; }; static Shared* SH;
static bool is_new(u64 h){ if(!h) h=1; for(u64 i=h&0xFFFF;;i=(i+1)&0xFFFF){ u64 v=__sync_val_compare_and_swap(&SH->table[i],0,h); if(v==0){ __sync_fetch_and_add(&SH->nstates,1); return true; } if(v==h) return false; } }
struct Msg { int a,b,c,what; u64 trans,states; };
// runs op i in this process and, if that led to a state not seen before, every operation from there
static int DEPTH=3; static u64 h0;
static void visit(int fd,std::vector<int> hist,int i){
  bool ok; long before=env_live; u64 d=exec_op(ops[i],i,0,0,&ok); kept+=env_live-before; hist.push_back(i);
  Msg m={hist[0],hist.size()>1?hist[1]:-1,hist.size()>2?hist[2]:-1,0,1,0}; if(refok[i]&&(!ok||d!=refs[i])) m.what=1;
  u64 h=hidden(); bool fresh=is_new(h); if(fresh) m.states=1; if(write(fd,&m,sizeof m)<0) _exit(3);
  if((int)hist.size()>=DEPTH) return;
  std::vector<int> next; for(int j=0;j<(int)ops.size();j++){ bool core=ops[j].core&&ops[i].core&&ops[hist[0]].core,same=ops[hist[0]].j.codec==ops[i].j.codec&&ops[j].j.codec==ops[i].j.codec;
    if(fresh||(hist.size()==1&&(core||same))||(hist.size()==2&&same&&core)) next.push_back(j); }
  for(int j: next){ fflush(0); pid_t p=fork(); if(p==0){ alarm(30); visit(fd,hist,j); _exit(0); } int st; waitpid(p,&st,0); if(st){ Msg e=m; e.what=2; e.trans=1; e.states=0; (hist.size()==1?e.b:e.c)=j; if(write(fd,&e,sizeof e)<0) _exit(3); } } }
static std::vector<Space> spaces(bool thorough){
  static bool done=false; if(!done){ done=true; dl_iterate_phdr(phdr,0); SH=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    int n=codecs().size(); int nj=thorough?6:3;
    for(int c=0;c<n;c++) for(int k=0;k<nj;k++){ bool d3=codecs()[c].dims==3; Job j; j.codec=c; j.pat=k; static const int fam[]={7,1,9,4,2,14},fb[]={4,1,6,3,10,5}; bool blk=codecs()[c].name.find("cp")==std::string::npos; (void)blk; j.fam=k==1?1:(d3?fb[k]:fam[k]); static const size_t s2[][2]={{9,7},{4,13},{14,15},{2,3},{30,3},{8,8}},s3[][3]={{3,4,5},{2,2,6},{5,6,4},{2,2,2},{9,3,3},{4,4,4}}; if(d3){ j.r1=s3[k][0]; j.r2=s3[k][1]; j.r3=s3[k][2]; } else { j.r1=s2[k][0]; j.r2=s2[k][1]; j.r3=1; } bool abs=codecs()[c].abs; j.eb= k==0?(abs?0.5:0.1):k==1?1e-2:k==2?(abs?1e-3:0.5):0.05; j.bsize=k==2?4:0; j.indep=k&1; Op o; o.core=true; o.j=j; o.kind=0; o.name="compress "+job_text(j); ops.push_back(o); o.kind=1; o.name="decompress "+job_text(j); ops.push_back(o); }
    // near relatives of the first job: what a result kept from an earlier call might be mistaken for
    for(int c=0;c<n;c++){ const Op base=ops[c*nj*2]; bool d3=codecs()[c].dims==3; auto rel=[&](size_t a,size_t b,size_t e,double f,int fam,int bs){ Op o; o.core=false; o.j=base.j; o.j.r1=a; o.j.r2=b; o.j.r3=e; o.j.eb*=f; o.j.fam=fam; if(bs) o.j.bsize=bs; o.kind=0; o.name="compress "+job_text(o.j); ops.push_back(o); o.kind=1; o.name="decompress "+job_text(o.j); ops.push_back(o); };
      int f=base.j.fam; if(d3){ rel(3,5,4,1,f,0); rel(5,4,3,1,f,0); rel(4,3,5,1,f,0); rel(6,2,5,1,f,0); rel(3,4,5,0.25,f,0); rel(3,4,5,1,5,0); rel(3,4,5,1,f,5); if(thorough){ rel(3,2,10,1,f,0); rel(2,6,5,1,f,0); rel(3,4,6,1,f,0); rel(3,4,5,1e-3,f,0); } }
      else { rel(7,9,1,1,f,0); rel(21,3,1,1,f,0); rel(3,21,1,1,f,0); rel(9,8,1,1,f,0); rel(10,7,1,1,f,0); rel(9,7,1,0.25,f,0); rel(9,7,1,1,3,0); rel(9,7,1,1,f,5); if(thorough){ rel(63,1,1,1,f,0); rel(1,63,1,1,f,0); rel(9,7,1,1e-3,f,0); } } }
    streams.resize(ops.size()); auxes.resize(ops.size()); refs.assign(ops.size(),0); refok.assign(ops.size(),0);
    // references, each from a process that has done nothing else
    for(size_t i=0;i<ops.size();i++){ int pp[2]; if(pipe(pp)) _exit(9); fflush(0); pid_t p=fork(); if(p==0){ close(pp[0]); bool ok; std::vector<unsigned char> st,ax; alarm(30); u64 h=exec_op(ops[i],i,&st,&ax,&ok); u64 v[3]={h,ok,st.size()}; st.insert(st.end(),ax.begin(),ax.end()); v[0]=h; v[1]=ok; v[2]=st.size(); u64 as=ax.size(); if(write(pp[1],&as,8)<0) _exit(3); if(write(pp[1],v,24)<0) _exit(3); size_t o=0; while(o<st.size()){ ssize_t r=write(pp[1],st.data()+o,st.size()-o); if(r<=0) _exit(3); o+=r; } _exit(0); }
      close(pp[1]); u64 v[3]={0,0,0},as=0; if(read(pp[0],&as,8)!=8) as=0; size_t g=0; while(g<24){ ssize_t r=read(pp[0],(char*)v+g,24-g); if(r<=0) break; g+=r; } std::vector<unsigned char> st(g==24?v[2]:0); size_t o=0; while(o<st.size()){ ssize_t r=read(pp[0],st.data()+o,st.size()-o); if(r<=0) break; o+=r; } close(pp[0]); int s; waitpid(p,&s,0); refs[i]=v[0]; refok[i]=s==0&&g==24&&v[1]; if(ops[i].kind==0&&i+1<ops.size()){ auxes[i+1].assign(st.end()-as,st.end()); st.resize(st.size()-as); streams[i+1]=st; } if(ops[i].kind==0&&codecs()[ops[i].j.codec].name.find("3d_with_eb")!=std::string::npos) refok[i+1]=0; }
    env_reset(); h0=hidden(); is_new(h0); DEPTH=3; }
  std::vector<Space> sp; sp.push_back({"histories",std::to_string(ops.size())+" operations (compress and decompress of "+std::to_string(ops.size()/2)+" jobs of the 33 pairs): every history of two of the main jobs and of two jobs of the same pair, every history of three main jobs in the same pair, every history of three after two that reach a hidden state not seen before; hidden state of "+std::to_string(segs.empty()?0:segs[0].n)+" bytes",ops.size(),[](u64 i,Ctx& x){
    x.sig=i; x.nontrivial=true; if(i==0) x.count("states"); x.say("first: %s\n",ops[i].name.c_str()); if(!refok[i]&&ops[i].kind==0){ x.fail("state:reference","%s does not finish in a fresh process",ops[i].name.c_str()); return; }
    alarm(0); int pp[2]; if(pipe(pp)) return; fflush(0); pid_t p=fork(); if(p==0){ close(pp[0]); visit(pp[1],{},(int)i); _exit(0); } close(pp[1]); Msg m; int nf=0; int bad=-1;
    for(;;){ size_t g=0; while(g<sizeof m){ ssize_t r=read(pp[0],(char*)&m+g,sizeof m-g); if(r<=0) break; g+=r; } if(g<sizeof m) break; x.count("transitions",m.trans); x.count("states",m.states);
      if(m.what&&!nf++){ int last=m.c>=0?m.c:m.b>=0?m.b:m.a; std::string h=ops[m.a].name; if(m.b>=0) h+=", then "+ops[m.b].name; if(m.c>=0) h+=", then "+ops[m.c].name; bad=last; x.fail("history:"+codecs()[ops[last].j.codec].name,"%s: the last operation %s in a fresh process",h.c_str(),m.what==1?"gives something else than":"does not finish as"); } }
    close(pp[0]); int st; waitpid(p,&st,0); (void)bad; if(st&&!x.failed) x.fail("history:first","%s does not finish after a fork",ops[i].name.c_str()); }});
  return sp; }
int main(int c,char** v){ return explore_main(c,v,"state","",spaces); }
