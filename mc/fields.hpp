// Deterministic field families, for shape sweeps. Values depend only on (family, shape, position).
#pragma once
#include "mc.hpp"
namespace mc {
inline uint32_t hash3(uint32_t a,uint32_t b,uint32_t c){ uint32_t h=a*0x9E3779B1u+b*0x85EBCA77u+c*0xC2B2AE3Du+0x27D4EB2Fu; h^=h>>15; h*=0x2C1B3C6Du; h^=h>>12; h*=0x297A2D39u; h^=h>>15; return h; }
inline double unit(uint32_t h){ return h/4294967296.0*2-1; }           // [-1,1)
enum { NF2=25, NF3=19, NFS=21 };
// floats: products of two or three values overflow floats, doubles: they stay within doubles
template<class T> struct Wide { enum { oct=sizeof(T)==8?480:240 }; static double big(){ return sizeof(T)==8?1e60:1e25; } };
inline const char* fam2_name(int f){ static const char* n[NF2]={"uniform","shear","saddle","center","node","focus","vortex-grid","noise","noise-over-40-octaves","half-zeros","alternating","small-integers","all-zero","zero-rows","spikes","huge","tiny","half-smooth-half-noise","gentle","sign-flips","tiny","1e25 or 1e60","noise-over-240-or-480-octaves","subnormal","1e-20"}; return n[f]; }
template<class T> void field2(int f,size_t r1,size_t r2,std::vector<T>& U,std::vector<T>& V){
  U.resize(r1*r2); V.resize(r1*r2); const int OCT=Wide<T>::oct; const double BIG=Wide<T>::big(); double cx=(r2-1)*0.5+0.13, cy=(r1-1)*0.5-0.17;
  for(size_t i=0;i<r1;i++) for(size_t j=0;j<r2;j++){
    double x=j-cx,y=i-cy,u=0,v=0; uint32_t h=hash3(i,j,f),g=hash3(j,i,f+77);
    switch(f){
      case 0: u=1.5; v=-0.75; break;
      case 1: u=2+0.1*i+0.03*j; v=1+0.05*j-0.02*i; break;
      case 2: u=x; v=-y; break;
      case 3: u=-y; v=x; break;
      case 4: u=x; v=2*y; break;
      case 5: u=x-y; v=x+y; break;
      case 6: u=sin(0.7*i+0.2)*cos(0.5*j); v=cos(0.6*i)*sin(0.8*j+0.4); break;
      case 7: u=unit(h); v=unit(g); break;
      case 8: u=unit(h)*ldexp(1,(int)(g%40)-20); v=unit(g)*ldexp(1,(int)(h%40)-20); break;
      case 9: u=(h&1)?unit(h):0; v=(g&2)?unit(g):0; break;
      case 10: u=((i+j)&1?-1:1)*(1000+i); v=1+0.25*(j%3); break;
      case 11: u=1+(int)(h%3); v=2-(int)(g%4); break;
      case 12: break;
      case 13: u=(i%3==1)?0:1+0.1*j; v=(i%2)?0:-2-0.1*i; break;
      case 14: u=1+0.01*i+((h%11)==0?1e6:0); v=-1-0.01*j; break;
      case 15: u=1e15*(1+0.001*i); v=-1e15*(1+0.002*j); break;
      case 16: u=1e-12*(1+0.01*i+0.003*j); v=1e-12*(0.5+0.02*j); break;
      case 17: if(j*2<r2){ u=1+0.01*j; v=2-0.01*i; } else { u=unit(h)*3; v=unit(g)*3; } break;
      case 18: u=1+1e-4*i; v=1+1e-4*j+1e-5*i; break;
      case 19: u=(h&1?1:-1)*(1+0.01*j); v=(g&1?1:-1)*(1+0.01*i); break;
      case 20: u=unit(h)*ldexp(1,-(int)(g%30)-84); v=(h&3)==1?ldexp(1,-100):unit(g)*ldexp(1,-(int)(h%30)-84); break;
      case 21: u=BIG*unit(h); v=BIG*unit(g); break;
      case 22: u=unit(h)*ldexp(1,(int)(g%OCT)-OCT/2); v=unit(g)*ldexp(1,(int)(h%OCT)-OCT/2); break;
      case 23: u=1e-39*unit(h); v=1e-39*unit(g); break;
      case 24: u=1e-20*unit(h); v=1e-20*unit(g); break;
    }
    U[i*r2+j]=(T)u; V[i*r2+j]=(T)v; } }
// small fields full of critical points, one per number: five kinds of noise
enum { NNOISE=6 };
inline double noise_value(int kind,int comp,size_t i,size_t j,size_t k,unsigned num){
  uint32_t q=hash3(num,kind*7+comp,12345); double h=unit(hash3(i*97+j,k*89+comp,num*8+kind)),g=unit(hash3(k*61+comp,num*8+kind,i*53+j)); 
  switch(kind){ case 0: return h*exp(g);                                    // noise of mixed magnitude
    case 1: return 0.3*h+0.4*unit(q);                                       // noise around a random vector
    case 2: return unit(q)+unit(q*2654435761u)*(i-1.4)+unit(q*40503u+7)*(j-1.3)+unit(q*9973u+3)*(k-1.2)+0.05*h; // random affine map
    case 3: return (h<0?-1:1)*ldexp(1,(int)(g*4)); // powers of two, with ties
    case 4: { double c=unit(hash3(num,3,1)),d=unit(hash3(num,4,2))+0.01*h,x=(double)j-1.7+0.6*unit(hash3(num,1,9)),y=(double)i-1.6+0.6*unit(hash3(num,2,9)),z=(double)k-1.6; return comp==0?c*x-d*y+0.2*z:comp==1?d*x+c*y+0.1*z:z+0.3*x*c; } // rotation and expansion
    default: return (g<-0.3?0.02:1)*h+0.01; } }                             // some vectors almost zero
inline const char* fam3_name(int f){ static const char* n[NF3]={"uniform","shear","saddle","vortex","node","noise","noise-over-40-octaves","half-zeros","small-integers","all-zero","spikes","huge","gentle","sign-flips","tiny","1e25 or 1e60","noise-over-240-or-480-octaves","subnormal","1e-20"}; return n[f]; }
template<class T> void field3(int f,size_t r1,size_t r2,size_t r3,std::vector<T>& U,std::vector<T>& V,std::vector<T>& W){
  size_t n=r1*r2*r3; U.resize(n); V.resize(n); W.resize(n); const int OCT=Wide<T>::oct; const double BIG=Wide<T>::big(); double cx=(r3-1)*0.5+0.13,cy=(r2-1)*0.5-0.17,cz=(r1-1)*0.5+0.07;
  for(size_t i=0;i<r1;i++) for(size_t j=0;j<r2;j++) for(size_t k=0;k<r3;k++){
    double x=k-cx,y=j-cy,z=i-cz,u=0,v=0,w=0; uint32_t h=hash3(i*131+j,k,f),g=hash3(k,i*131+j,f+7),e=hash3(j,k*131+i,f+99);
    switch(f){
      case 0: u=1.5; v=-0.75; w=0.5; break;
      case 1: u=2+0.1*i+0.03*j; v=1+0.05*k-0.02*i; w=-1-0.04*j; break;
      case 2: u=x; v=-y; w=z; break;
      case 3: u=-y; v=x; w=z+0.3*x; break;
      case 4: u=x; v=2*y; w=3*z; break;
      case 5: u=unit(h); v=unit(g); w=unit(e); break;
      case 6: u=unit(h)*ldexp(1,(int)(g%40)-20); v=unit(g)*ldexp(1,(int)(e%40)-20); w=unit(e)*ldexp(1,(int)(h%40)-20); break;
      case 7: u=(h&1)?unit(h):0; v=(g&2)?unit(g):0; w=(e&4)?unit(e):0; break;
      case 8: u=1+(int)(h%3); v=2-(int)(g%4); w=(int)(e%5)-2; break;
      case 9: break;
      case 10: u=1+0.01*i+((h%11)==0?1e6:0); v=-1-0.01*j; w=2+0.02*k; break;
      case 11: u=1e15*(1+0.001*i); v=-1e15*(1+0.002*j); w=1e15*(2+0.001*k); break;
      case 12: u=1+1e-4*i; v=1+1e-4*j+1e-5*i; w=1+1e-4*k; break;
      case 13: u=(h&1?1:-1)*(1+0.01*j); v=(g&1?1:-1)*(1+0.01*i); w=(e&1?1:-1)*(1+0.01*k); break;
      case 14: u=unit(h)*ldexp(1,-(int)(g%30)-84); v=unit(g)*ldexp(1,-(int)(h%30)-84); w=unit(e)*ldexp(1,-(int)(g%23)-90); break;
      case 15: u=BIG*unit(h); v=BIG*unit(g); w=BIG*unit(e); break;
      case 16: u=unit(h)*ldexp(1,(int)(g%OCT)-OCT/2); v=unit(g)*ldexp(1,(int)(e%OCT)-OCT/2); w=unit(e)*ldexp(1,(int)(h%OCT)-OCT/2); break;
      case 17: u=1e-39*unit(h); v=1e-39*unit(g); w=1e-39*unit(e); break;
      case 18: u=1e-20*unit(h); v=1e-20*unit(g); w=1e-20*unit(e); break;
    }
    size_t o=(i*r2+j)*r3+k; U[o]=(T)u; V[o]=(T)v; W[o]=(T)w; } }
inline const char* fams_name(int f){ static const char* n[NFS]={"constant","ramp","quadratic","waves","noise","noise-over-40-octaves","half-zeros","alternating","small-integers","all-zero","spikes","large-offset","block-steps","gentle","mostly-mean","plane-with-noise","1e30","1e37","near-the-smallest-normal","subnormal","noise-over-240-octaves"}; return n[f]; }
template<class T> void scalar(int f,size_t r1,size_t r2,size_t r3,std::vector<T>& D){
  D.resize(r1*r2*r3);
  for(size_t i=0;i<r1;i++) for(size_t j=0;j<r2;j++) for(size_t k=0;k<r3;k++){
    double v=0; uint32_t h=hash3(i*131+j,k,f),g=hash3(k,i*131+j,f+7);
    switch(f){
      case 0: v=3.25; break; case 1: v=0.5+0.25*i-0.125*j+0.0625*k; break; case 2: v=0.01*i*i-0.02*j*j+0.03*k*k+0.01*i*j-1; break;
      case 3: v=sin(0.4*i)+cos(0.3*j+0.2)*sin(0.5*k+1); break; case 4: v=unit(h); break; case 5: v=unit(h)*ldexp(1,(int)(g%40)-20); break;
      case 6: v=(h&1)?unit(g):0; break; case 7: v=((i+j+k)&1?-1:1)*(10+0.5*i); break; case 8: v=(int)(h%5)-2; break; case 9: v=0; break;
      case 10: v=1+0.01*(i+j+k)+((h%13)==0?1e5:0); break; case 11: v=1e4+0.01*(i+2*j+3*k); break; case 12: v=(i/6)+2.0*(j/6)+4.0*(k/6); break;
      case 13: v=1+1e-4*i+1e-5*j-1e-4*k; break; case 14: v=(h%10)?2.0+1e-4*unit(g):unit(g)*5; break; case 15: v=0.2*i+0.1*j-0.3*k+0.002*unit(h); break;
      case 16: v=1e30*(1+0.01*i-0.02*j+0.1*unit(h)); break; case 17: v=(h&1?-1e37:1e37)*(1+0.5*unit(g)); break; case 18: v=1.2e-38*(1+0.1*i)*(1+0.5*unit(h)); break; case 19: v=1e-40*unit(h); break; case 20: v=unit(h)*ldexp(1,(int)(g%240)-120); break;
    }
    D[(i*r2+j)*r3+k]=(T)v; } }
}
