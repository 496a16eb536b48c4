// Block-based scalar compressors: PROP 1 absolute bound of sz_compress_2d/3d, 2 per-element bound of *_with_eb, 3 relative bound, zeros and signs of *_pwr
#include "blocks.hpp"
using namespace mc;
#ifndef PROP
#define PROP 1
#endif
#ifdef MC_SMALL
static const bool SMALL=true;
#else
static const bool SMALL=false;
#endif
static std::vector<int> kinds(){ if(PROP==1) return {B2F,B3F,B3D}; if(PROP==2) return {B2EF,B2ED}; return {BPF,BPEF}; }
template<class T> static void judge(Block<T>& b,Ctx& x){
  std::string who=block_name(b.kind); bool changed=memcmp(b.d,b.D.data(),b.n()*sizeof(T)); x.sig=b.sig(); x.nontrivial=changed; if(changed) x.count("lossy round trips"); bool f=sizeof(T)==4;
  for(size_t i=0;i<b.n();i++){ double a=b.D[i],c=b.d[i],e=fabs(c-a),eb=b.eb(i);
    if(PROP==3){
      if(a==0){ if(c!=0){ x.fail(who+":zero","%s %zux%zu block %d: zero at %zu decoded as %.9g",who.c_str(),b.r1,b.r2,b.bsize,i,c); return; } continue; }
      if(c==0||(a>0)!=(c>0)){ x.fail(who+":sign","%s %zux%zu block %d: %.9g at %zu decoded as %.9g",who.c_str(),b.r1,b.r2,b.bsize,a,i,c); return; }
      double lim=fabs(a)*(eb*(1+1e-4)+3e-5)+0.7006e-45; // half the smallest float: the result is rounded to float
      if(!(e<=lim)){ x.fail(who+":bound","%s %zux%zu block %d bound %g: %.9g at %zu decoded as %.9g, relative error %g",who.c_str(),b.r1,b.r2,b.bsize,eb,a,i,c,e/fabs(a)); return; } }
    else { if(PROP==2&&eb==0&&!bits_equal(b.D[i],b.d[i])){ x.fail(who+":zero-bound","%s %zux%zu block %d: element %zu has bound 0 but %.17g became %.17g",who.c_str(),b.r1,b.r2,b.bsize,i,a,c); return; }
      double lim=eb*(1+(f?1e-6:1e-12)); if(!(e<=lim)){ x.fail(who+":bound","%s %zux%zux%zu block %d bound %g: %.17g at %zu decoded as %.17g, error %g",who.c_str(),b.r1,b.r2,b.r3,b.bsize,eb,a,i,c,e); return; } } } }
template<class T> static void play(Block<T>& b,Ctx& x){ bool ok=b.go(); b.describe(x); if(!ok){ x.fail(std::string(block_name(b.kind))+":null","no output"); return; } judge(b,x); b.done(); }
template<class T> static void add(std::vector<Space>& sp,int kind,bool thorough){
  std::string base=block_name(kind); bool d3=block_is3(kind);
  static const std::vector<std::vector<double>> al={{-1,0.5,3},{0,1,-2},{1,1.01,5},{0.3,-0.7,0.31,100},{1e-3,-2e3,7,0}};
  std::vector<double> precs= PROP==3?std::vector<double>{0.1,0.01}:std::vector<double>{0.4,0.05}; if(thorough){ precs.push_back(PROP==3?0.5:3); precs.push_back(1e-3); }
  static const std::vector<int> bs2={2,3,12}, bs3={2,8,3};
  struct Sh { size_t a,b,c; }; static const std::vector<Sh> s2={{2,2,1},{1,4,1},{4,1,1},{2,3,1},{3,2,1},{1,7,1},{2,4,1},{4,2,1},{3,3,1},{1,9,1}}, s3={{1,1,4},{1,2,2},{2,2,1},{2,1,3},{2,2,2},{1,2,4},{3,1,3},{4,2,1}};
  if(SMALL) for(size_t q=0;q<al.size();q++) for(const Sh& h: d3?s3:s2){ int n=h.a*h.b*h.c; size_t m=al[q].size(); u64 per=ipow(m,n); u64 cap=thorough?3000000:300000;
    auto bs=d3?bs3:bs2; std::vector<double> A=al[q]; std::vector<double> pr=precs;
    if(!block_eb(kind)){ u64 tot=per*bs.size()*pr.size()*2; if(tot>cap) continue;
      sp.push_back({"all/"+base+"/"+std::to_string(h.a)+"x"+std::to_string(h.b)+"x"+std::to_string(h.c)+"/alphabet"+std::to_string(q),"every assignment of an alphabet of "+std::to_string(m)+" values x block sizes x bounds x independence flag",tot,[=](u64 i,Ctx& x){ Digits d(i); Block<T> b; b.kind=kind; b.r1=h.a; b.r2=h.b; b.r3=h.c; b.prec=pr[d.take(pr.size())]; b.bsize=bs[d.take(bs.size())]; b.indep=d.take(2); for(int k=0;k<n;k++) b.D.push_back((T)A[d.take(m)]); play(b,x); }}); }
    else { static const std::vector<double> es={0,0.05,0.5}; size_t me=n<=4?3:2; u64 tot=per*ipow(me,n)*2; if(tot>cap*2) continue;
      sp.push_back({"all/"+base+"/"+std::to_string(h.a)+"x"+std::to_string(h.b)+"/alphabet"+std::to_string(q),"every assignment of an alphabet of "+std::to_string(m)+" values and of "+std::to_string(me)+" bounds to every element",tot,[=](u64 i,Ctx& x){ Digits d(i); Block<T> b; b.kind=kind; b.r1=h.a; b.r2=h.b; b.bsize=d.take(2)?12:2; for(int k=0;k<n;k++) b.D.push_back((T)A[d.take(m)]); for(int k=0;k<n;k++) b.E.push_back(es[d.take(me)]); play(b,x); }}); } }
  // sweep: every shape x family x bound x block size
  std::vector<double> pb= PROP==3?std::vector<double>{0.5,0.1,0.01,1e-3}:std::vector<double>{5,0.5,0.1,1e-2,1e-4,1e-7};
  if(!d3){ size_t M=SMALL?(thorough?30:16):(thorough?18:8); std::vector<int> bb={12,6,8,16}; if(PROP==3) bb={12,5}; int npat=block_eb(kind)?NEB:1;
    sp.push_back({"shapes/"+base,"every shape 1.."+std::to_string(M)+" squared x "+std::to_string((int)NFS)+" families x bounds x block sizes"+(npat>1?" x bound patterns":""),(u64)M*M*NFS*pb.size()*bb.size()*npat,[=](u64 i,Ctx& x){ Digits d(i); Block<T> b; b.kind=kind; b.prec=pb[d.take(pb.size())]; b.bsize=bb[d.take(bb.size())]; int pat=d.take(npat); int f=d.take(NFS); b.r1=1+d.take(M); b.r2=1+d.take(M); scalar(f,b.r1,b.r2,1,b.D); if(block_eb(kind)) ebs(pat,b.n(),b.prec,b.E); x.say("family %s\n",fams_name(f)); play(b,x); }});
    static const size_t L[][2]={{30,30},{25,13},{12,100},{100,12},{1,500},{500,1},{64,64},{37,91},{120,130},{200,150}}; int nl=SMALL?10:(thorough?10:8);
    sp.push_back({"large/"+base,std::to_string(nl)+" larger shapes x "+std::to_string((int)NFS)+" families x bounds x block sizes",(u64)nl*NFS*pb.size()*bb.size()*npat,[=](u64 i,Ctx& x){ Digits d(i); Block<T> b; b.kind=kind; b.prec=pb[d.take(pb.size())]; b.bsize=bb[d.take(bb.size())]; int pat=d.take(npat); int f=d.take(NFS); int l=d.take(nl); b.r1=L[l][0]; b.r2=L[l][1]; scalar(f,b.r1,b.r2,1,b.D); if(block_eb(kind)) ebs(pat,b.n(),b.prec,b.E); x.say("family %s\n",fams_name(f)); play(b,x); }}); }
  else { size_t M=SMALL?(thorough?14:7):(thorough?8:4); std::vector<int> bb={8,6,4};
    sp.push_back({"shapes/"+base,"every shape 1.."+std::to_string(M)+" cubed x "+std::to_string((int)NFS)+" families x bounds x block sizes",(u64)M*M*M*NFS*pb.size()*bb.size(),[=](u64 i,Ctx& x){ Digits d(i); Block<T> b; b.kind=kind; b.prec=pb[d.take(pb.size())]; b.bsize=bb[d.take(bb.size())]; int f=d.take(NFS); b.r1=1+d.take(M); b.r2=1+d.take(M); b.r3=1+d.take(M); scalar(f,b.r1,b.r2,b.r3,b.D); x.say("family %s\n",fams_name(f)); play(b,x); }});
    static const size_t L[][3]={{16,16,16},{9,17,25},{1,20,30},{20,1,30},{20,30,1},{1,1,200},{200,1,1},{24,8,31},{33,33,33},{40,48,56}}; int nl=SMALL?10:(thorough?10:8);
    sp.push_back({"large/"+base,std::to_string(nl)+" larger shapes x "+std::to_string((int)NFS)+" families x bounds x block sizes",(u64)nl*NFS*pb.size()*bb.size(),[=](u64 i,Ctx& x){ Digits d(i); Block<T> b; b.kind=kind; b.prec=pb[d.take(pb.size())]; b.bsize=bb[d.take(bb.size())]; int f=d.take(NFS); int l=d.take(nl); b.r1=L[l][0]; b.r2=L[l][1]; b.r3=L[l][2]; scalar(f,b.r1,b.r2,b.r3,b.D); x.say("family %s\n",fams_name(f)); play(b,x); }}); }
  if(!SMALL){ static const size_t H2[][2]={{257,300},{300,257},{1100,1000}},H3[][3]={{41,42,43},{2,180,190},{110,101,100}}; static const int F[]={4,13,5,14,3,12}; int nf=thorough?6:4; std::vector<double> hb={pb[1],pb.back()};
    sp.push_back({"huge/"+base,"shapes of more than 2^16 and 2^20 values x "+std::to_string(nf)+" families x 2 bounds x 2 block sizes",3ull*nf*2*2,[=](u64 i,Ctx& x){ Digits d(i); Block<T> b; b.kind=kind; b.prec=hb[d.take(2)]; b.bsize=d.take(2)?(d3?4:6):(d3?8:12); int f=F[d.take(nf)],l=d.v; if(d3){ b.r1=H3[l][0]; b.r2=H3[l][1]; b.r3=H3[l][2]; } else { b.r1=H2[l][0]; b.r2=H2[l][1]; } scalar(f,b.r1,b.r2,b.r3,b.D); if(block_eb(kind)) ebs(2+f%2,b.n(),b.prec,b.E); x.say("family %s\n",fams_name(f)); play(b,x); }}); }
}
static std::vector<Space> spaces(bool thorough){ std::vector<Space> sp; for(int k: kinds()){ if(k==B3D||k==B2ED) add<double>(sp,k,thorough); else add<float>(sp,k,thorough); } return sp; }
int main(int c,char** v){ return explore_main(c,v,"block","",spaces); }
