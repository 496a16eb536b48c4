// Properties of every compressor/decompressor pair: PROP 13 memory, 14 streams, 15 repeatability, 19 leaks, 20 size
#include "any.hpp"
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;
#ifndef PROP
#define PROP 13
#endif
#ifdef MC_SMALL
static const bool SMALL=true;
#else
static const bool SMALL=false;
#endif
#ifdef MC_ASAN
static const bool ASAN=true;
#else
static const bool ASAN=false;
#endif
struct Held { const void* p; };
static void drop(Out* o,int k){ for(int i=0;i<k;i++) mc_release((void*)o[i].p); }
static u64 digest(Out* o,int k){ u64 h=99; for(int i=0;i<k;i++) h=o[i].p?fnv(o[i].p,o[i].bytes,h):h*31+5; return h; }
static void memory(const Job& j,const Codec& c,Inst& I,Ctx& x){
  u64 in=I.inputs(); size_t size=0; unsigned char* s=I.compress(size); if(!s){ x.fail(c.name+":null","no stream"); return; }
  size_t cap=size; if(!ASAN){ env_check_live(s,&cap); if(size>cap){ x.fail(c.name+":size","%s: reports %zu bytes but the block it returned has %zu",c.name.c_str(),size,cap); mc_release(s); return; } if(size*2>cap) x.count("streams that fill more than half of their block"); if(cap-size<64) x.count("streams within 64 bytes of the end of their block"); }
  if(ASAN){ unsigned char* t=(unsigned char*)malloc(size); memcpy(t,s,size); mc_release(s); s=t; } // read from a block of exactly the reported size
  u64 hs=fnv(s,size); Out o[3]; int k=I.decompress(s,size,o);
  for(int i=0;i<k;i++){ if(!o[i].p){ x.fail(c.name+":null","no output"); break; } if(!ASAN){ env_check_live(o[i].p,&cap); if(cap<o[i].bytes){ x.fail(c.name+":short","%s: output block of %zu bytes for %zu bytes of data",c.name.c_str(),cap,o[i].bytes); break; } } else { volatile unsigned char z=((const unsigned char*)o[i].p)[o[i].bytes-1]; (void)z; } }
  if(!ASAN&&!x.failed){ if(I.aux()) env_check_live(I.aux(),0); if(in!=I.inputs()) x.fail(c.name+":inputs","%s changed its inputs",c.name.c_str()); if(hs!=fnv(s,size)) x.fail(c.name+":stream","%s: decompression changed the stream",c.name.c_str()); }
  drop(o,k); mc_release(s); mc_release(I.aux()); x.nontrivial=true; }
// compression and a first decompression in a process of its own: nothing but the stream gets from there to here
struct Head { u64 ok,size,want,aux; int k; EnvError err; };
static bool all_in(int fd,void* p,size_t n){ char* c=(char*)p; while(n){ ssize_t r=read(fd,c,n); if(r<=0) return false; c+=r; n-=r; } return true; }
static void all_out(int fd,const void* p,size_t n){ const char* c=(const char*)p; while(n){ ssize_t r=write(fd,c,n); if(r<=0) _exit(3); c+=r; n-=r; } }
static bool elsewhere(const Job& j,const Codec& c,Inst& I,Ctx& x,std::vector<unsigned char>& keep,std::vector<double>& aux,u64& want,int& k){
  int pp[2]; if(pipe(pp)) _exit(9); fflush(0); pid_t p=fork(); if(p==0){ close(pp[0]); alarm(30); Head h; memset(&h,0,sizeof h); size_t z=0; unsigned char* s=I.compress(z); if(!s){ all_out(pp[1],&h,sizeof h); _exit(0); } Out o[3]; h.ok=1; h.size=z; std::vector<unsigned char> st(s,s+z); h.k=I.decompress(s,z,o); h.want=h.k?digest(o,h.k):0; h.aux=I.aux()?I.n():0; h.err=env_error; all_out(pp[1],&h,sizeof h); all_out(pp[1],st.data(),z); if(h.aux) all_out(pp[1],I.aux(),h.aux*8); _exit(0); }
  close(pp[1]); Head h; bool ok=all_in(pp[0],&h,sizeof h)&&h.ok; if(ok){ keep.resize(h.size); ok=all_in(pp[0],keep.data(),h.size); if(ok&&h.aux){ aux.resize(h.aux); ok=all_in(pp[0],aux.data(),h.aux*8); } } close(pp[0]); int st; waitpid(p,&st,0);
  if(!ok||st){ x.fail(c.name+":null","%s: no stream (status %d)",job_text(j).c_str(),st); return false; } if(h.err.kind){ env_error=h.err; return false; } want=h.want; k=h.k; if(!aux.empty()) I.set_aux(aux.data()); return true; }
static void stream(const Job& j,const Codec& c,Inst& I,Ctx& x){
  std::vector<unsigned char> keep; std::vector<double> aux; u64 want; int k;
  if(SMALL){ if(!elsewhere(j,c,I,x,keep,aux,want,k)) return; if(!k){ x.nontrivial=false; return; } }
  else { size_t size=0; unsigned char* s=I.compress(size); if(!s){ x.fail(c.name+":null","no stream"); return; }
  Out ref[3]; k=I.decompress(s,size,ref); if(!k){ mc_release(s); x.nontrivial=false; return; }
  want=digest(ref,k); drop(ref,k); keep.assign(s,s+size); memset(s,0x5A,size); mc_release(s);
  // another field in between
  { Job o=j; o.r1+=1; o.r2+=2; o.fam=(j.fam+5)%12; o.eb=j.eb>0?j.eb*0.37:0.01; std::unique_ptr<Inst> B=c.make(o); size_t z=0; unsigned char* t=B->compress(z); if(t){ Out q[3]; int kq=B->decompress(t,z,q); drop(q,kq); mc_release(t); mc_release(B->aux()); } } }
  size_t size=keep.size();
  // the bytes themselves, and the memory that held them, must not matter
  static const char* how[]={"alone, in a block of exactly the reported size","followed by zeros","followed by 0xFF","at an odd address"};
  for(int w=0;w<4&&!x.failed;w++){ std::vector<unsigned char> b; const unsigned char* p; unsigned char* own=0;
    if(w==0){ own=(unsigned char*)malloc(size); memcpy(own,keep.data(),size); p=own; } else { b.assign(size+16384+8,w==2?0xFF:0); memcpy(b.data()+(w==3?1:0),keep.data(),size); p=b.data()+(w==3?1:0); }
    Out o[3]; I.decompress(p,size,o); if(digest(o,k)!=want) x.fail(c.name+":stream","%s: the %zu-byte stream decompressed differently %s",job_text(j).c_str(),size,how[w]); drop(o,k);
    if(memcmp(p,keep.data(),size)) x.fail(c.name+":modified","%s: decompression changed the stream",job_text(j).c_str()); free(own); }
  // through the lossless stage, as the programs do
  if(!x.failed){ unsigned char* z=0; unsigned long zs=sz_lossless_compress(ZSTD_COMPRESSOR,3,keep.data(),size,&z); unsigned char* back=0; size_t bs=sz_lossless_decompress(ZSTD_COMPRESSOR,z,zs,&back,size);
    if(bs!=size||memcmp(back,keep.data(),size)) x.fail(c.name+":lossless","%s: the stream did not survive the lossless stage",job_text(j).c_str()); else { Out o[3]; I.decompress(back,size,o); if(digest(o,k)!=want) x.fail(c.name+":lossless","%s: different output after the lossless stage",job_text(j).c_str()); drop(o,k); } free(z); free(back); }
  if(aux.empty()) mc_release(I.aux()); else I.set_aux(0); x.nontrivial=true; }
// what the frames of earlier calls left on the stack
static void __attribute__((noinline)) scribble(unsigned char v){ volatile unsigned char a[192*1024]; memset((void*)a,v,sizeof a); asm volatile(""::"r"(a):"memory"); }
static void repeat(const Job& j,const Codec& c,Inst& I,Ctx& x){
  static const unsigned char fills[]={0xA5,0x00,0xFF,0x01}; u64 hs=0,ho=0; size_t zs=0; u64 in=I.inputs(); unsigned char old=env_fill; bool ob=env_fill_big; env_fill_big=SMALL;
  for(int f=0;f<4&&!x.failed;f++){ env_fill=fills[f]; size_t size=0; scribble(fills[f]); unsigned char* s=I.compress(size); if(!s){ x.fail(c.name+":null","no stream"); break; } u64 h=fnv(s,size);
    if(f&&(size!=zs||h!=hs)) x.fail(c.name+":stream","%s: fresh heap and stack memory filled with 0x%02x instead of 0x%02x changes the stream (%zu, %zu bytes)",job_text(j).c_str(),fills[f],fills[0],size,zs);
    hs=f?hs:h; zs=f?zs:size; Out o[3]; scribble(fills[f]); int k=I.decompress(s,size,o); if(k){ u64 d=digest(o,k); if(f&&d!=ho) x.fail(c.name+":output","%s: fresh heap and stack memory filled with 0x%02x instead of 0x%02x changes the output",job_text(j).c_str(),fills[f],fills[0]); ho=f?ho:d; drop(o,k);
      Out p[3]; I.decompress(s,size,p); if(!x.failed&&digest(p,k)!=ho) x.fail(c.name+":again","%s: a second decompression of the stream differs",job_text(j).c_str()); drop(p,k); }
    if(!x.failed&&fnv(s,size)!=hs) x.fail(c.name+":modified","%s: decompression changed the stream",job_text(j).c_str());
    if(!x.failed&&in!=I.inputs()) x.fail(c.name+":inputs","%s: the inputs changed",job_text(j).c_str());
    mc_release(s); mc_release(I.aux()); }
  env_fill=old; env_fill_big=ob; x.nontrivial=true; }
static void leak(const Job& j,const Codec& c,Inst& I,Ctx& x){
  // the first call may set up things once; from the second on nothing may stay behind
  for(int r=0;r<2&&!x.failed;r++){ long a=env_live; size_t size=0; unsigned char* s=I.compress(size); void* aux=I.aux(); long b=env_live; Out o[3]; int k=I.decompress(s,size,o); long d=env_live;
    long cl=b-a-1-(aux?1:0), dl=k?d-b-k:0; 
    if(r==1){ if(cl!=0) x.fail(c.name+":compress","%s: %ld blocks are left after compression besides its results",job_text(j).c_str(),cl); else if(dl!=0) x.fail(c.name+":decompress","%s: %ld blocks are left after decompression besides its results",job_text(j).c_str(),dl); }
    if(k&&!x.failed){ long e=env_live; u64 h=digest(o,k); if(I.again(s,size,o)){ if(r==1&&env_live!=e) x.fail(c.name+":reuse","%s: decompression into result pointers that hold the arrays of an earlier call leaves %ld blocks more than before",job_text(j).c_str(),env_live-e); else if(digest(o,k)!=h) x.fail(c.name+":reuse-output","%s: decompression into result pointers that hold the arrays of an earlier call gives something else",job_text(j).c_str()); } }
    drop(o,k); mc_release(s); mc_release(aux); }
  x.nontrivial=true; }
static void size_of(const Job& j,const Codec& c,Inst& I,Ctx& x,double share,bool worst){
  size_t size=0; unsigned char* s=I.compress(size); if(!s){ x.fail(c.name+":null","no stream"); return; }
  double raw=I.raw(); if(!worst) x.count(size>0.6*raw?"smooth: more than 60 percent":size>0.4*raw?"smooth: 40 to 60 percent":"smooth: less than 40 percent"); x.say("%s: %g bytes -> %zu\n",job_text(j).c_str(),raw,size); x.nontrivial=true;
  if(getenv("MC_SIZES")) fprintf(stderr,"SIZE %s %s raw %g stream %zu ratio %.4f\n",worst?"worst":"smooth",job_text(j).c_str(),raw,size,raw/size);
  if(worst){ double lim=32*raw/I.elem()+8192; if(size>lim) x.fail(c.name+":expands","%s: %g bytes of data became a stream of %zu bytes, more than %g",job_text(j).c_str(),raw,size,lim); }
  else if(size>share*raw) x.fail(c.name+":size","%s: %g bytes of smooth data became %zu bytes, more than %g",job_text(j).c_str(),raw,size,share*raw);
  mc_release(s); mc_release(I.aux()); }
static void play(const Job& j,Ctx& x){ const Codec& c=codecs()[j.codec]; x.sig=job_sig(j); x.say("%s\n",job_text(j).c_str()); std::unique_ptr<Inst> I=c.make(j);
  if(PROP==13) memory(j,c,*I,x); else if(PROP==14) stream(j,c,*I,x); else if(PROP==15) repeat(j,c,*I,x); else if(PROP==19) leak(j,c,*I,x); }
static std::vector<Space> spaces(bool thorough){ std::vector<Space> sp; int n=codecs().size();
  if(PROP==20){
    for(int ci=0;ci<n;ci++){ const Codec& c=codecs()[ci]; bool bil=c.name.find("bilinear")!=std::string::npos,off3=c.name.find("3d_offline")==0; double share=off3?0.75:0.5;
      std::vector<std::array<size_t,3>> sh= c.dims==2?std::vector<std::array<size_t,3>>{{64,64,1},{48,100,1},{70,47,1},{150,90,1}}:std::vector<std::array<size_t,3>>{{16,16,16},{20,12,24}};
      std::vector<double> eb={0.1,0.01}; int np= thorough?81:c.dims==2?27:18;
      if(!bil) sp.push_back({"smooth/"+c.name,"affine fields without zeros: gradients x shapes x bounds, and three gradients at the magnitudes 1e-6, 1e-9 and 1e6",(np+9)*sh.size()*eb.size(),[=](u64 i,Ctx& x){ Digits d(i); Job j; j.codec=ci; j.eb=eb[d.take(eb.size())]; j.pat=0; int pat=d.take(np+9); auto& q=sh[d.take(sh.size())]; j.fam=1; j.r1=q[0]; j.r2=q[1]; j.r3=q[2]; j.bsize=0; j.indep=false; x.sig=fnv(&pat,4,job_sig(j)); auto I=codecs()[ci].make(j); int gp=pat<np?pat*7:(pat-np)%3*35; I->affine(gp); double f=1; if(pat>=np){ static const double F[]={1e-6,1e-9,1e6}; f=F[(pat-np)/3]; I->scale(f); } x.say("affine pattern %d times %g\n",gp,f); size_of(j,codecs()[ci],*I,x,share,false); }});
      if(!bil&&!off3){ int nb=thorough?18:6; sp.push_back({"bent/"+c.name,"smooth fields without zeros that are not affine: sines of four wave vectors and two quadratic forms x gradients x shapes x bounds",(u64)6*nb*sh.size()*eb.size(),[=](u64 i,Ctx& x){ Digits d(i); Job j; j.codec=ci; j.eb=eb[d.take(eb.size())]; j.pat=0; int pat=d.take(6); auto& q=sh[d.take(sh.size())]; int g=d.v; j.fam=1; j.r1=q[0]; j.r2=q[1]; j.r3=q[2]; j.bsize=0; j.indep=false; x.sig=fnv(&g,4,fnv(&pat,4,job_sig(j)))+1; auto I=codecs()[ci].make(j); I->affine(g*(thorough?5:13)); I->bend(pat); x.say("affine pattern %d and bend %d\n",g,pat); size_of(j,codecs()[ci],*I,x,share,false); }}); }
      Sweep w=sweep(ci,thorough?2:0); sp.push_back({"worst/"+c.name,"shapes x families x bounds: no stream is much larger than its data",w.size(),[=](u64 i,Ctx& x){ Job j=w.job(i); x.sig=job_sig(j); auto I=codecs()[ci].make(j); size_of(j,codecs()[ci],*I,x,0,true); }}); }
    return sp; }
  for(int ci=0;ci<n;ci++){ int scale= ASAN?(SMALL?(thorough?2:1):0):thorough?(SMALL?2:1):(SMALL?1:0); Sweep s=sweep(ci,scale,ASAN&&!thorough&&!SMALL?6:0,PROP==13&&SMALL&&!ASAN?4:2); std::string nm=codecs()[ci].name;
    sp.push_back({"sweep/"+nm,"every shape up to "+std::to_string(s.M)+" per axis and "+std::to_string(s.large.size())+" larger x "+std::to_string(s.nf)+" families x "+std::to_string(s.eb.size())+" bounds x "+std::to_string(s.nopt)+" options",s.size(),[=](u64 i,Ctx& x){ play(s.job(i),x); }}); }
  return sp; }
int main(int c,char** v){ return explore_main(c,v,"any","",spaces); }
