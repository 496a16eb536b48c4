// Every compressor/decompressor pair of the library behind one interface.
#pragma once
#include "blocks.hpp"
#include "mesh.hpp"
#include <memory>
#include <array>
namespace mc {
struct Job { int codec; int fam; size_t r1,r2,r3; double eb; int bsize; bool indep; int pat; };
struct Out { const void* p; size_t bytes; };
struct Inst { // one compression with its inputs
  virtual ~Inst(){}
  virtual unsigned char* compress(size_t& size)=0;
  virtual int decompress(const unsigned char* s,size_t size,Out o[3])=0; // number of arrays; 0: no decompressor
  virtual int again(const unsigned char*,size_t,Out*){ return 0; } // the same with the result pointers holding the arrays of an earlier call; 0: takes none
  virtual u64 inputs() const =0; virtual size_t raw() const =0; virtual size_t n() const=0; virtual void affine(unsigned){} virtual void each(const std::function<double(int,double,double,double)>&){} void bend(int kind){ each([=](int q,double x,double y,double z){ static const double F[][3]={{1,0.5,0.7},{0.5,2,1},{2,1,0.3},{0.7,1.3,1.9}}; const double* f=F[kind%4]; double s=6.283185307179586*(f[q%3]*x+f[(q+1)%3]*y+f[(q+2)%3]*z)+q; return kind<4?0.8*sin(s):(q%2?0.9:-0.9)*(x*x-(q+1)*0.5*x*y+0.7*y*y+z*z-0.4*y*z); }); } virtual void scale(double){} virtual void* aux(){ return 0; } virtual void set_aux(void*){} virtual size_t elem() const=0;
};
template<class T> struct Inst2: Inst { const Vec2<T>* c; std::vector<T> U,V; size_t r1,r2; double eb;
  void scale(double f) override { if(c->bound==ABS) eb*=f; for(T& v:U) v*=f; for(T& v:V) v*=f; }
  unsigned char* compress(size_t& z) override { return c->comp(U.data(),V.data(),r1,r2,z,false,eb); }
  int decompress(const unsigned char* s,size_t,Out o[3]) override { T *a=0,*b=0; c->dec(s,r1,r2,a,b); o[0]={a,r1*r2*sizeof(T)}; o[1]={b,r1*r2*sizeof(T)}; return 2; }
  int again(const unsigned char* s,size_t,Out o[3]) override { T *a=(T*)o[0].p,*b=(T*)o[1].p; c->dec(s,r1,r2,a,b); o[0].p=a; o[1].p=b; return 2; }
  u64 inputs() const override { return fnv(V.data(),V.size()*sizeof(T),fnv(U.data(),U.size()*sizeof(T))); }
  void each(const std::function<double(int,double,double,double)>& f) override { for(size_t i=0;i<r1;i++) for(size_t j=0;j<r2;j++){ U[i*r2+j]+=(T)f(0,(double)i/r1,(double)j/r2,0); V[i*r2+j]+=(T)f(1,(double)i/r1,(double)j/r2,0); } }
  void affine(unsigned p) override { double c[4]; for(;;p++){ Digits d(p%81); for(double& x:c){ static const double A[]={-1,0.6,1.7}; x=A[d.take(3)]; } if(fabs(c[0]*c[3]-c[1]*c[2])>=1) break; } for(size_t i=0;i<r1;i++) for(size_t j=0;j<r2;j++){ U[i*r2+j]=(T)(8+c[0]*i/r1+c[1]*j/r2); V[i*r2+j]=(T)(-6+c[2]*i/r1+c[3]*j/r2); } }
  size_t raw() const override { return 2*r1*r2*sizeof(T); } size_t elem() const override { return sizeof(T); } size_t n() const override { return r1*r2; } };
template<class T> struct Inst3: Inst { const Vec3<T>* c; std::vector<T> D[3]; size_t r1,r2,r3; double eb;
  void scale(double f) override { if(c->bound==ABS) eb*=f; for(auto& d:D) for(T& v:d) v*=f; }
  unsigned char* compress(size_t& z) override { return c->comp(D[0].data(),D[1].data(),D[2].data(),r1,r2,r3,z,eb); }
  int decompress(const unsigned char* s,size_t,Out o[3]) override { T* d[3]={0,0,0}; c->dec(s,r1,r2,r3,d[0],d[1],d[2]); for(int k=0;k<3;k++) o[k]={d[k],n()*sizeof(T)}; return 3; }
  int again(const unsigned char* s,size_t,Out o[3]) override { T* d[3]={(T*)o[0].p,(T*)o[1].p,(T*)o[2].p}; c->dec(s,r1,r2,r3,d[0],d[1],d[2]); for(int k=0;k<3;k++) o[k].p=d[k]; return 3; }
  u64 inputs() const override { u64 h=7; for(int k=0;k<3;k++) h=fnv(D[k].data(),n()*sizeof(T),h); return h; }
  void each(const std::function<double(int,double,double,double)>& f) override { for(size_t i=0;i<r1;i++) for(size_t j=0;j<r2;j++) for(size_t k=0;k<r3;k++) for(int q=0;q<3;q++) D[q][(i*r2+j)*r3+k]+=(T)f(q,(double)i/r1,(double)j/r2,(double)k/r3); }
  void affine(unsigned p) override { double c[9]; for(p=p*1237+11;;p++){ Digits d(p%19683); for(double& x:c){ static const double A[]={-1,0.6,1.7}; x=A[d.take(3)]; } if(fabs(c[0]*(c[4]*c[8]-c[5]*c[7])-c[1]*(c[3]*c[8]-c[5]*c[6])+c[2]*(c[3]*c[7]-c[4]*c[6]))>=2) break; } for(size_t i=0;i<r1;i++) for(size_t j=0;j<r2;j++) for(size_t k=0;k<r3;k++) for(int q=0;q<3;q++) D[q][(i*r2+j)*r3+k]=(T)((q==1?-6:q?10:8)+c[3*q]*i/r1+c[3*q+1]*j/r2+c[3*q+2]*k/r3); }
  size_t raw() const override { return 3*n()*sizeof(T); } size_t elem() const override { return sizeof(T); } size_t n() const override { return r1*r2*r3; } };
template<class T> struct InstU: Inst { Mesh M; std::vector<T> P,D; double eb; size_t r1,r2,r3;
  void scale(double f) override { for(T& v:D) v*=f; }
  void each(const std::function<double(int,double,double,double)>& f) override { for(size_t i=0;i<r1;i++) for(size_t j=0;j<r2;j++) for(size_t k=0;k<r3;k++) for(int q=0;q<3;q++) D[3*((i*r2+j)*r3+k)+q]+=(T)f(q,(double)i/r1,(double)j/r2,(double)k/r3); }
  void affine(unsigned p) override { double c[9]; for(p=p*1237+11;;p++){ Digits d(p%19683); for(double& x:c){ static const double A[]={-1,0.6,1.7}; x=A[d.take(3)]; } if(fabs(c[0]*(c[4]*c[8]-c[5]*c[7])-c[1]*(c[3]*c[8]-c[5]*c[6])+c[2]*(c[3]*c[7]-c[4]*c[6]))>=2) break; } for(size_t i=0;i<r1;i++) for(size_t j=0;j<r2;j++) for(size_t k=0;k<r3;k++) for(int q=0;q<3;q++) D[3*((i*r2+j)*r3+k)+q]=(T)((q==1?-6:q?10:8)+c[3*q]*i/r1+c[3*q+1]*j/r2+c[3*q+2]*k/r3); }
  unsigned char* compress(size_t& z) override { return sz_compress_cp_preserve_3d_unstructured<T>(M.n,P.data(),D.data(),M.m,M.tets.data(),z,eb); }
  int decompress(const unsigned char* s,size_t,Out o[3]) override { T* d=0; sz_decompress_cp_preserve_3d_unstructured<T>(s,M.n,P.data(),M.m,M.tets.data(),d); o[0]={d,3*(size_t)M.n*sizeof(T)}; return 1; }
  int again(const unsigned char* s,size_t,Out o[3]) override { T* d=(T*)o[0].p; sz_decompress_cp_preserve_3d_unstructured<T>(s,M.n,P.data(),M.m,M.tets.data(),d); o[0].p=d; return 1; }
  u64 inputs() const override { return fnv(M.tets.data(),M.tets.size()*4,fnv(P.data(),P.size()*sizeof(T),fnv(D.data(),D.size()*sizeof(T)))); }
  size_t raw() const override { return 3*(size_t)M.n*sizeof(T); } size_t elem() const override { return sizeof(T); } size_t n() const override { return M.n; } };
template<class T> struct InstB: Inst { Block<T> b; 
  void scale(double f) override { for(T& v:b.D) v*=f; if(!block_pwr(b.kind)){ b.prec*=f; for(double& e:b.E) e*=f; } }
  unsigned char* compress(size_t& z) override { b.size=0; unsigned char* s=BlockFns<T>::c(b); z=b.size; return s; }
  int decompress(const unsigned char* s,size_t,Out o[3]) override { T* d=BlockFns<T>::d(b,s); o[0]={d,b.n()*sizeof(T)}; return 1; }
  u64 inputs() const override { return fnv(b.E.data(),b.E.size()*8,fnv(b.D.data(),b.D.size()*sizeof(T))); }
  void each(const std::function<double(int,double,double,double)>& f) override { size_t R1=b.r1,R2=b.r2,R3=b.r3; auto& DD=b.D; for(size_t i=0;i<R1;i++) for(size_t j=0;j<R2;j++) for(size_t k=0;k<R3;k++) DD[(i*R2+j)*R3+k]+=(T)f(0,(double)i/R1,(double)j/R2,(double)k/R3); }
  void affine(unsigned p) override { size_t R1=b.r1,R2=b.r2,R3=b.r3; auto& DD=b.D; Digits g(p); double c[3]; for(double& x:c){ static const double A[]={-1,0.6,1.7}; x=A[g.take(3)]; } double o=g.take(2)?5:0.1; for(size_t i=0;i<R1;i++) for(size_t j=0;j<R2;j++) for(size_t k=0;k<R3;k++) DD[(i*R2+j)*R3+k]=(T)(o+2+c[0]*i/R1+c[1]*j/R2+c[2]*k/R3); }
  size_t raw() const override { return b.n()*sizeof(T); } size_t elem() const override { return sizeof(T); } size_t n() const override { return b.n(); } void* aux() override { return b.aux; } void set_aux(void* p) override { b.aux=(double*)p; } };
template<class T> struct InstE: Inst { std::vector<T> D; std::vector<double> E; size_t r1,r2,r3; int bs; bool indep; // sz_compress_3d_with_eb has no decompressor
  void scale(double f) override { for(T& v:D) v*=f; for(double& e:E) e*=f; }
  unsigned char* compress(size_t& z) override { return sz_compress_3d_with_eb<T>(D.data(),E.data(),r1,r2,r3,z,bs,indep); }
  int decompress(const unsigned char*,size_t,Out*) override { return 0; }
  u64 inputs() const override { return fnv(E.data(),E.size()*8,fnv(D.data(),D.size()*sizeof(T))); }
  void each(const std::function<double(int,double,double,double)>& f) override { size_t R1=r1,R2=r2,R3=r3; auto& DD=D; for(size_t i=0;i<R1;i++) for(size_t j=0;j<R2;j++) for(size_t k=0;k<R3;k++) DD[(i*R2+j)*R3+k]+=(T)f(0,(double)i/R1,(double)j/R2,(double)k/R3); }
  void affine(unsigned p) override { size_t R1=r1,R2=r2,R3=r3; auto& DD=D; Digits g(p); double c[3]; for(double& x:c){ static const double A[]={-1,0.6,1.7}; x=A[g.take(3)]; } double o=g.take(2)?5:0.1; for(size_t i=0;i<R1;i++) for(size_t j=0;j<R2;j++) for(size_t k=0;k<R3;k++) DD[(i*R2+j)*R3+k]=(T)(o+2+c[0]*i/R1+c[1]*j/R2+c[2]*k/R3); }
  size_t raw() const override { return D.size()*sizeof(T); } size_t elem() const override { return sizeof(T); } size_t n() const override { return D.size(); } };
struct Codec { std::string name; int dims; bool abs; std::function<std::unique_ptr<Inst>(const Job&)> make; };
template<class T> inline void any_add(std::vector<Codec>& v){
  std::string t=std::string("<")+TName<T>::s()+">";
  for(auto& c: vec2<T>()) v.push_back({"2d_"+std::string(c.name)+t,2,c.bound==ABS,[&c](const Job& j){ auto* x=new Inst2<T>; x->c=&c; x->r1=j.r1; x->r2=j.r2; x->eb=j.eb; field2(j.fam%NF2,j.r1,j.r2,x->U,x->V); return std::unique_ptr<Inst>(x); }});
  for(auto& c: vec3<T>()) v.push_back({std::string(c.name)+t,3,c.bound==ABS,[&c](const Job& j){ auto* x=new Inst3<T>; x->c=&c; x->r1=j.r1; x->r2=j.r2; x->r3=j.r3; x->eb=j.eb; field3(j.fam%NF3,j.r1,j.r2,j.r3,x->D[0],x->D[1],x->D[2]); return std::unique_ptr<Inst>(x); }});
  v.push_back({"unstructured"+t,3,false,[](const Job& j){ auto* x=new InstU<T>; x->eb=j.eb; x->r1=j.r1; x->r2=j.r2; x->r3=j.r3; x->M=box(j.r1,j.r2,j.r3,j.pat%3); x->P.assign(x->M.P.begin(),x->M.P.end()); std::vector<T> a,b,c; field3(j.fam%NF3,j.r1,j.r2,j.r3,a,b,c); for(int k=0;k<x->M.n;k++){ x->D.push_back(a[k]); x->D.push_back(b[k]); x->D.push_back(c[k]); } return std::unique_ptr<Inst>(x); }});
  v.push_back({"3d_with_eb"+t,3,true,[](const Job& j){ auto* x=new InstE<T>; x->r1=j.r1; x->r2=j.r2; x->r3=j.r3; x->bs=j.bsize?j.bsize:8; x->indep=j.indep; scalar(j.fam%NFS,j.r1,j.r2,j.r3,x->D); ebs(j.pat%NEB,x->D.size(),j.eb,x->E); return std::unique_ptr<Inst>(x); }}); }
template<class T> inline void any_block(std::vector<Codec>& v,int kind){
  v.push_back({block_name(kind),block_is3(kind)?3:2,!block_pwr(kind),[kind](const Job& j){ auto* x=new InstB<T>; Block<T>& b=x->b; b.kind=kind; b.r1=j.r1; b.r2=j.r2; b.r3=block_is3(kind)?j.r3:1; b.prec=block_pwr(kind)&&j.eb<1e-3?1e-3:j.eb; if(!block_eb(kind)&&!(b.prec>0)) b.prec=1e-6; b.bsize=j.bsize?j.bsize:block_is3(kind)?8:12; b.indep=j.indep; scalar(j.fam%NFS,b.r1,b.r2,b.r3,b.D); if(block_eb(kind)) ebs(j.pat%NEB,b.n(),b.prec,b.E); return std::unique_ptr<Inst>(x); }}); }
inline const std::vector<Codec>& codecs(){ static std::vector<Codec> v; if(v.empty()){ any_add<float>(v); any_add<double>(v); for(int k: {B2F,B3F,B2EF,BPF,BPEF}) any_block<float>(v,k); for(int k: {B3D,B2ED}) any_block<double>(v,k); } return v; }
inline u64 job_sig(const Job& j){ u64 a[9]={(u64)j.codec,(u64)j.fam,j.r1,j.r2,j.r3,0,(u64)j.bsize,(u64)j.indep,(u64)j.pat}; memcpy(&a[5],&j.eb,8); return fnv(a,sizeof a); }
inline std::string job_text(const Job& j){ char b[200]; snprintf(b,200,"%s %zux%zux%zu family %d bound %g block %d pattern %d",codecs()[j.codec].name.c_str(),j.r1,j.r2,j.r3,j.fam,j.eb,j.bsize,j.pat); return b; }
// the standard sweep of one codec: shapes x families x bounds x options
struct Sweep { int codec; size_t m0,M; std::vector<double> eb; int nf; int nopt; std::vector<std::array<size_t,3>> large; 
  u64 size() const { const Codec& c=codecs()[codec]; u64 s=c.dims==2?(M-m0+1)*(M-m0+1):(M-m0+1)*(M-m0+1)*(M-m0+1); return (s+large.size())*eb.size()*nf*nopt; }
  Job job(u64 i) const { const Codec& c=codecs()[codec]; Digits d(i); Job j; j.codec=codec; j.eb=eb[d.take(eb.size())]; j.fam=d.take(nf); int o=d.take(nopt); static const int b2[]={0,5,0,2},b3[]={0,4,0,2}; j.bsize=c.dims==2?b2[o%4]:b3[o%4]; j.indep=o%2; j.pat=o+j.fam; u64 s=d.v; size_t w=M-m0+1; u64 t=c.dims==2?w*w:w*w*w; 
    if(s<t){ j.r1=m0+s%w; j.r2=m0+s/w%w; j.r3=c.dims==3?m0+s/w/w:1; } else { auto& l=large[s-t]; j.r1=l[0]; j.r2=l[1]; j.r3=l[2]; } return j; } };
inline Sweep sweep(int codec,int scale,int nf=0,int nopt=2){ // scale 0 tiny, 1 quick, 2 thorough
  const Codec& c=codecs()[codec]; Sweep s; s.codec=codec; s.m0=1; bool v=c.name.find("eb")==std::string::npos&&c.name[0]=='2'; (void)v;
  s.M= c.dims==2?(scale==0?4:scale==1?6:14):(scale==0?3:scale==1?4:7); s.nf=nf?nf:(c.dims==2?20:16); if(c.name.find("pwr")!=std::string::npos||c.name.find("2d<")==0||c.name.find("2d_with")==0) s.nf=nf?nf:16; s.nopt=nopt;
  s.eb= c.abs?std::vector<double>{0.5,1e-3}:std::vector<double>{0.1,0.01}; if(scale==2){ s.eb.push_back(c.abs?10:1); s.eb.push_back(c.abs?1e-6:0); }
  if(c.dims==2){ s.large={{13,25,1},{30,17,1},{2,130,1},{64,3,1}}; if(scale) { s.large.push_back({65,33,1}); s.large.push_back({37,100,1}); } if(scale==2){ s.large.push_back({120,130,1}); s.large.push_back({1,700,1}); } }
  else { s.large={{9,8,10},{2,3,40},{17,5,3}}; if(scale) { s.large.push_back({16,17,9}); } if(scale==2){ s.large.push_back({20,24,30}); s.large.push_back({1,1,300}); } }
  return s; }
}
