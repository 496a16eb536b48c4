// One compress/decompress round trip of a 2D (3D) vector field, with the outcome left open for a property to judge.
#pragma once
#include "codecs.hpp"
#include "fields.hpp"
#include "oracle.hpp"
namespace mc {
template<class T> struct Trip2 {
  std::vector<T> U,V; size_t r1,r2; double eb; const Vec2<T>* c; unsigned char* s; size_t size; T *dU,*dV;
  Trip2():s(0),dU(0),dV(0){}
  bool go(){ U0=U; V0=V; size=0; s=c->comp(U.data(),V.data(),r1,r2,size,false,eb); if(!s) return false;
    env_check_live(s,0); unsigned char* t=(unsigned char*)s; dU=0; dV=0; c->dec(t,r1,r2,dU,dV); if(!dU||!dV) return false; env_check_live(dU,0); env_check_live(dV,0); return true; }
  void done(){ release(s); release(dU); release(dV); s=0; dU=dV=0; }
  static void release(void* p);
  bool lossless() const { size_t n=r1*r2; return memcmp(dU,U.data(),n*sizeof(T))==0&&memcmp(dV,V.data(),n*sizeof(T))==0; }
  u64 sig() const { size_t n=r1*r2; u64 h=fnv(c->name,strlen(c->name)); h=fnv(&eb,8,h); h=fnv(&r2,8,h); h=fnv(U.data(),n*sizeof(T),h); return fnv(V.data(),n*sizeof(T),h); }
  void describe(Ctx& x){ if(!x.describe) return; size_t n=r1*r2; x.say("%s<%s> %zux%zu bound %g\n  U=%s\n  V=%s\n",c->name,TName<T>::s(),r1,r2,eb,show(U.data(),n).c_str(),show(V.data(),n).c_str()); if(dU) x.say("  stream %zu bytes\n  U'=%s\n  V'=%s\n",size,show(dU,n).c_str(),show(dV,n).c_str()); }
  std::vector<T> U0,V0;
};
template<class T> struct Trip3 {
  std::vector<T> D[3]; size_t r1,r2,r3; double eb; const Vec3<T>* c; unsigned char* s; size_t size; T* d[3];
  Trip3():s(0){ d[0]=d[1]=d[2]=0; }
  size_t n() const { return r1*r2*r3; }
  bool go(){ size=0; s=c->comp(D[0].data(),D[1].data(),D[2].data(),r1,r2,r3,size,eb); if(!s) return false; env_check_live(s,0); d[0]=d[1]=d[2]=0; c->dec(s,r1,r2,r3,d[0],d[1],d[2]); for(int k=0;k<3;k++){ if(!d[k]) return false; env_check_live(d[k],0);} return true; }
  void done(){ Trip2<T>::release(s); s=0; for(int k=0;k<3;k++){ Trip2<T>::release(d[k]); d[k]=0; } }
  bool lossless() const { for(int k=0;k<3;k++) if(memcmp(d[k],D[k].data(),n()*sizeof(T))) return false; return true; }
  u64 sig() const { u64 h=fnv(c->name,strlen(c->name)); h=fnv(&eb,8,h); h=fnv(&r2,8,h); h=fnv(&r3,8,h); for(int k=0;k<3;k++) h=fnv(D[k].data(),n()*sizeof(T),h); return h; }
  void describe(Ctx& x){ if(!x.describe) return; x.say("%s<%s> %zux%zux%zu bound %g\n",c->name,TName<T>::s(),r1,r2,r3,eb); for(int k=0;k<3;k++) x.say("  %c=%s\n","UVW"[k],show(D[k].data(),n()).c_str()); if(d[0]){ x.say("  stream %zu bytes\n",size); for(int k=0;k<3;k++) x.say("  %c'=%s\n","UVW"[k],show(d[k],n()).c_str()); } }
};
extern "C" void mc_release(void*);
template<class T> void Trip2<T>::release(void* p){ mc_release(p); }
// bound of one value
// log codecs work on float base-2 logarithms (half an ulp of 2^7, times ln 2, both ways); comparisons are made in the element type
inline double allowed(Bound b,double eb,double x,bool log,bool isfloat,bool lossy_zero_bound){
  if(b==ABS) return eb*(1+(isfloat?1e-6:1e-12));
  double a=fabs(x)*eb*(1+1e-6); if(log&&(eb>0||lossy_zero_bound)) a+=fabs(x)*(isfloat?1.2e-5:2e-13); return isfloat?a+0.7006e-45:a; } // half the smallest float: results are rounded to floats
// cells of the piecewise linear mesh: two triangles per quad, as the tests and cp_extraction use
inline void tri(size_t r2,size_t i,size_t j,int k,size_t id[3],double X[3][2]){
  id[0]=i*r2+j; id[2]=(i+1)*r2+j+1; id[1]= k==0?(i+1)*r2+j:i*r2+j+1;
  X[0][0]=0; X[0][1]=0; X[2][0]=1; X[2][1]=1; X[1][0]= k==0?0:1; X[1][1]= k==0?1:0; }
// describes all digit-assignments of an alphabet to n values
}
