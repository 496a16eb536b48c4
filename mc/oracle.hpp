// Independent oracles: critical points of piecewise-linear fields, written from the definition.
#pragma once
#include <cmath>
#include <complex>
namespace mc {
// Sign of the barycentric numerators; long double products of float/double alphabets are exact or nearly so.
struct Cell2 { int state; double margin; };  // 1 zero in the closed triangle, 0 not, -1 degenerate (no unique zero)
// margin: how far the decision is from changing, relative to the size of the terms
inline Cell2 cell2(const double u[3],const double v[3]){
  typedef long double L; L m[3],a=0; 
  for(int k=0;k<3;k++){ int p=(k+1)%3,q=(k+2)%3; L x=(L)u[p]*v[q],y=(L)u[q]*v[p]; m[k]=x-y; a=std::max(a,std::max(fabsl(x),fabsl(y))); }
  L M=m[0]+m[1]+m[2]; Cell2 c; if(a==0){ c.state=-1; c.margin=0; return c; }
  if(M==0){ c.state=-1; c.margin=0; return c; }
  bool in=true; L lo=1e300L, out=0;
  for(int k=0;k<3;k++){ L s=(M>0)?m[k]:-m[k]; if(s<0){ in=false; out=std::max(out,-s/a); } lo=std::min(lo,s/a); }
  c.state=in?1:0;
  // inside: margin is the smallest numerator (0 on an edge); outside: the largest negative one, but it must also be away from |M|->0
  c.margin= in? (double)lo : (double)std::min(out, fabsl(M)/a);
  if(!in){ // outside robustly iff two numerators have robustly opposite signs
    L pos=0,neg=0; for(int k=0;k<3;k++){ if(m[k]>0) pos=std::max(pos,m[k]/a); else neg=std::max(neg,-m[k]/a); } c.margin=(double)std::min(pos,neg); }
  return c; }
// Type of the zero from the Jacobian of the linear interpolant over a triangle; X[i] = (x,y)
enum { SINGULAR=0, ATTRACTING, REPELLING, SADDLE, ATTRACTING_FOCUS, REPELLING_FOCUS, CENTER };
struct Type2 { int type; double margin; };
inline Type2 type2(const double u[3],const double v[3],const double X[3][2]){
  typedef long double L; L x10=X[1][0]-X[0][0],y10=X[1][1]-X[0][1],x20=X[2][0]-X[0][0],y20=X[2][1]-X[0][1],d=x10*y20-x20*y10;
  L ux=((u[1]-(L)u[0])*y20-(u[2]-(L)u[0])*y10)/d, uy=((u[2]-(L)u[0])*x10-(u[1]-(L)u[0])*x20)/d;
  L vx=((v[1]-(L)v[0])*y20-(v[2]-(L)v[0])*y10)/d, vy=((v[2]-(L)v[0])*x10-(v[1]-(L)v[0])*x20)/d;
  L tr=ux+vy, det=ux*vy-uy*vx, disc=tr*tr-4*det; L s=std::max(std::max(fabsl(ux),fabsl(uy)),std::max(fabsl(vx),fabsl(vy))); Type2 t;
  if(s==0){ t.type=SINGULAR; t.margin=0; return t; }
  L td=tr/s, dd=det/(s*s), cd=disc/(s*s);
  if(det<0){ t.type=SADDLE; t.margin=(double)-dd; }
  else if(disc>=0){ t.type= tr<0?ATTRACTING: tr>0?REPELLING:SINGULAR; t.margin=(double)std::min(std::min(fabsl(td),cd),dd); }
  else { t.type= tr<0?ATTRACTING_FOCUS: tr>0?REPELLING_FOCUS:CENTER; t.margin=(double)std::min(tr==0?1.0L:fabsl(td),-cd); if(tr==0) t.margin=0; }
  return t; }
// 3D: zero in a tetrahedron
inline long double det3l(long double a,long double b,long double c,long double d,long double e,long double f,long double g,long double h,long double i){ return a*(e*i-f*h)-b*(d*i-f*g)+c*(d*h-e*g); }
inline Cell2 cell3(const double f[4][3]){
  typedef long double L; L m[4],a=0;
  for(int k=0;k<4;k++){ const double* p[3]; int n=0; for(int q=0;q<4;q++) if(q!=k) p[n++]=f[q];
    L d=det3l(p[0][0],p[0][1],p[0][2],p[1][0],p[1][1],p[1][2],p[2][0],p[2][1],p[2][2]); m[k]=(k%2)?d:-d;
    L s=1; for(int q=0;q<3;q++) s*=std::max(std::max(fabsl((L)p[q][0]),fabsl((L)p[q][1])),fabsl((L)p[q][2])); a=std::max(a,s); }
  L M=m[0]+m[1]+m[2]+m[3]; Cell2 c; if(a==0||M==0){ c.state=-1; c.margin=0; return c; }
  bool in=true; L lo=1e300L,pos=0,neg=0; for(int k=0;k<4;k++){ L s=(M>0)?m[k]:-m[k]; if(s<0) in=false; lo=std::min(lo,s/a); if(m[k]>0) pos=std::max(pos,m[k]/a); else neg=std::max(neg,-m[k]/a); }
  c.state=in; c.margin= in?(double)lo:(double)std::min(pos,neg); return c; }
}
