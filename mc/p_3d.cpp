// 3D critical-point-preserving codecs: PROP 1 cells, 2 error bounds, 3 cells with a critical point are lossless
#include "mesh.hpp"
#include <algorithm>
#include <array>
using namespace mc;
#define P_CELL 1
#define P_BOUND 2
#define P_EXACT 3
#ifndef PROP
#define PROP P_CELL
#endif
#ifdef MC_SMALL
static const bool SMALL=true;
#else
static const bool SMALL=false;
#endif
template<class T> static bool cell(Ctx& x,const std::string& who,const T* const a[3],const T* const b[3],const size_t id[4],int stride,bool log,bool& changed_cell,const char* where){
  double f[4][3],g[4][3]; bool same=true; for(int q=0;q<4;q++) for(int p=0;p<3;p++){ f[q][p]=a[p][id[q]*stride]; g[q][p]=b[p][id[q]*stride]; if(f[q][p]!=g[q][p]) same=false; }
  double tol=sizeof(T)==4?(log?1e-4:1e-5):1e-9; 
  if(PROP==P_CELL&&same) return true;
  Cell2 A=cell3(f); if(A.state<0||A.margin<=tol){ x.count("cells skipped: within rounding of degenerate"); return true; }
  char d[900]; auto text=[&](){ int n=0; for(int q=0;q<4;q++) n+=snprintf(d+n,sizeof d-n," (%.9g %.9g %.9g)->(%.9g %.9g %.9g)",f[q][0],f[q][1],f[q][2],g[q][0],g[q][1],g[q][2]); return d; };
  if(PROP==P_EXACT){ if(A.state!=1) return true; x.count("cells with a critical point"); changed_cell=true; if(!same){ x.fail(who+":exact","%s %s: tetrahedron %zu %zu %zu %zu holds a critical point but its vertices changed:%s",who.c_str(),where,id[0],id[1],id[2],id[3],text()); return false; } return true; }
  Cell2 B=cell3(g); changed_cell=true; if(B.state<0||B.margin<=tol){ x.count("cells skipped: within rounding of degenerate"); return true; }
  x.count(A.state?"changed cells with a critical point":"changed cells without one");
  if(A.state!=B.state){ x.fail(who+(A.state?":lost":":spurious"),"%s %s: tetrahedron %zu %zu %zu %zu %s (margins %g, %g):%s",who.c_str(),where,id[0],id[1],id[2],id[3],A.state?"lost its critical point":"gained a critical point",A.margin,B.margin,text()); return false; }
  return true; }
template<class T> static void values(Ctx& x,const std::string& who,const T* a,const T* b,size_t n,Bound bd,double eb,bool log,const char* where){
  for(size_t i=0;i<n;i++){ double e=fabs((double)b[i]-(double)a[i]),lim=allowed(bd,eb,a[i],log,sizeof(T)==4,false); if(!(e<=lim)){ x.fail(who+":bound","%s %s: %.17g at %zu decoded as %.17g, error %g > %g",who.c_str(),where,(double)a[i],i,(double)b[i],e,lim); return; }
    } }
template<class T> static void play(Trip3<T>& t,Ctx& x){
  bool ok=t.go(); t.describe(x); std::string who=std::string(t.c->name)+"<"+TName<T>::s()+">"; if(!ok){ x.fail(who+":null","no output"); return; }
  char w[100]; snprintf(w,100,"%zux%zux%zu bound %g",t.r1,t.r2,t.r3,t.eb); x.sig=t.sig(); bool changed=!t.lossless(),cc=false; if(changed) x.count("lossy round trips");
  if(PROP==P_BOUND){ x.nontrivial=changed; for(int k=0;k<3&&!x.failed;k++) values(x,who,t.D[k].data(),t.d[k],t.n(),t.c->bound,t.eb,t.c->log,w); }
  else { const T* a[3]={t.D[0].data(),t.D[1].data(),t.D[2].data()}; const T* b[3]={t.d[0],t.d[1],t.d[2]}; bool go=true;
    for(size_t i=0;go&&i+1<t.r1;i++) for(size_t j=0;go&&j+1<t.r2;j++) for(size_t k=0;go&&k+1<t.r3;k++) for(int q=0;go&&q<6;q++){ size_t id[4]; kuhn_ids(q,i,j,k,t.r2,t.r3,id); go=cell<T>(x,who,a,b,id,1,t.c->log,cc,w); }
    x.nontrivial=changed&&cc; }
  t.done(); }
template<class T> static void play(TripU<T>& t,Ctx& x){
  bool ok=t.go(); t.describe(x); std::string who=std::string("unstructured<")+TName<T>::s()+">"; if(!ok){ x.fail(who+":null","no output"); return; }
  char w[100]; snprintf(w,100,"%s bound %g",t.M->name.c_str(),t.eb); x.sig=t.sig(); bool changed=!t.lossless(),cc=false; if(changed) x.count("lossy round trips");
  if(PROP==P_BOUND){ x.nontrivial=changed; values(x,who,t.D.data(),t.d,3*t.M->n,REL,t.eb,true,w); }
  else { const T* a[3]={t.D.data(),t.D.data()+1,t.D.data()+2}; const T* b[3]={t.d,t.d+1,t.d+2}; for(int q=0;q<t.M->m;q++){ size_t id[4]; for(int p=0;p<4;p++) id[p]=t.M->tets[4*q+p]; if(!cell<T>(x,who,a,b,id,3,true,cc,w)) break; } x.nontrivial=changed&&cc; }
  t.done(); }
template<class T> static void add(std::vector<Space>& sp,bool thorough){
  const auto& cs=vec3<T>(); size_t m0=PROP==P_BOUND?1:2;
  for(size_t ci=0;ci<cs.size();ci++){ const Vec3<T>* c=&cs[ci]; std::string base=std::string(c->name)+"<"+TName<T>::s()+">";
    std::vector<double> eb= c->bound==REL?std::vector<double>{0.1,0.9}:std::vector<double>{0.2,1.2};
    struct Two { double u0,u1,v0,v1,w0,w1; }; static const Two tw[]={{-1,2,-1.5,0.5,-0.7,1.1},{1,-3,0.25,-1,2,-2.2},{-1,3,1,-2,0,1.3}};
    if(SMALL){ int nw=thorough?64:3; // W: the patterns whose bits are a hash of the pattern number
      sp.push_back({"2x2x2/"+base,"every 2x2x2 field with two-valued U and V (three pairs of alphabets), "+std::to_string(nw)+" patterns of W, two bounds",65536ull*nw*(thorough?3:1)*2,[=](u64 i,Ctx& x){ Digits d(i); Trip3<T> t; t.c=c; t.eb=eb[d.take(2)]; int wp=d.take(nw); Two w=tw[d.take(thorough?3:1)]; t.r1=t.r2=t.r3=2; unsigned wb=hash3(wp,17,4)>>9; if(wp==0) wb=0; for(int k=0;k<8;k++) t.D[0].push_back((T)(d.take(2)?w.u1:w.u0)); for(int k=0;k<8;k++) t.D[1].push_back((T)(d.take(2)?w.v1:w.v0)); for(int k=0;k<8;k++) t.D[2].push_back((T)((wb>>k&1)?w.w1:w.w0)); play(t,x); }});
      // one vertex varies over a grid of vectors inside fixed fields
      sp.push_back({"vertex/"+base,"in 8 fixed 3x3x3 noise fields, each vertex in turn takes every vector of a 9x9x9 grid",8ull*27*729,[=](u64 i,Ctx& x){ Digits d(i); Trip3<T> t; t.c=c; t.eb=eb[1]; int v=d.take(27); double g[3]; for(int k=0;k<3;k++) g[k]=((int)d.take(9)-4)*0.3; int f=d.take(8); t.r1=t.r2=t.r3=3; for(int k=0;k<3;k++){ for(int q=0;q<27;q++) t.D[k].push_back((T)(unit(hash3(q,k,f))*(f&1?1:0.3)+(f&2?0.4:0))); t.D[k][v]=(T)g[k]; } play(t,x); }}); }
    std::vector<double> sb= c->bound==REL?std::vector<double>{1,0.5,0.1,1e-2,1e-4,0}:std::vector<double>{10,1,0.1,1e-3,1e-7,0};
    size_t M=SMALL?(thorough?9:6):(thorough?5:3);
    sp.push_back({"shapes/"+base,"every shape "+std::to_string(m0)+".."+std::to_string(M)+" cubed x "+std::to_string(NF3)+" families x 6 bounds",(u64)(M-m0+1)*(M-m0+1)*(M-m0+1)*NF3*sb.size(),[=](u64 i,Ctx& x){ Digits d(i); Trip3<T> t; t.c=c; t.eb=sb[d.take(sb.size())]; int f=d.take(NF3); t.r1=m0+d.take(M-m0+1); t.r2=m0+d.take(M-m0+1); t.r3=m0+d.take(M-m0+1); field3(f,t.r1,t.r2,t.r3,t.D[0],t.D[1],t.D[2]); x.say("family %s\n",fam3_name(f)); play(t,x); }});
    static const size_t L[][3]={{12,11,10},{2,20,30},{30,20,2},{20,2,30},{5,40,7},{16,16,16},{24,17,20},{1,20,20},{20,20,1},{20,1,20},{1,1,100}}; int nl=PROP==P_BOUND?11:(SMALL||thorough?7:6);
    sp.push_back({"large/"+base,std::to_string(nl)+" larger shapes x families x bounds",(u64)nl*NF3*sb.size(),[=](u64 i,Ctx& x){ Digits d(i); Trip3<T> t; t.c=c; t.eb=sb[d.take(sb.size())]; int f=d.take(NF3); int l=d.take(nl); t.r1=L[l][0]; t.r2=L[l][1]; t.r3=L[l][2]; field3(f,t.r1,t.r2,t.r3,t.D[0],t.D[1],t.D[2]); x.say("family %s\n",fam3_name(f)); play(t,x); }});
    unsigned nn=SMALL?(thorough?8000:1000):(thorough?1000:200); std::vector<double> nb= c->bound==REL? std::vector<double>{0.9,0.3} : std::vector<double>{2,0.3};
    sp.push_back({"noise/"+base,std::to_string(NNOISE)+" kinds of noise x "+std::to_string(nn)+" fields of 3x3x3, 2x3x4, 4x2x3 and 3x4x2 x 2 bounds",(u64)NNOISE*nn*4*2,[=](u64 i,Ctx& x){ Digits d(i); Trip3<T> t; t.c=c; t.eb=nb[d.take(2)]; static const size_t S[][3]={{3,3,3},{2,3,4},{4,2,3},{3,4,2}}; int s=d.take(4); t.r1=S[s][0]; t.r2=S[s][1]; t.r3=S[s][2]; int k=d.take(NNOISE); unsigned q=d.v; for(int p=0;p<3;p++) for(size_t a=0;a<t.r1;a++) for(size_t b=0;b<t.r2;b++) for(size_t e=0;e<t.r3;e++) t.D[p].push_back((T)noise_value(k,p,a,b,e,q)); play(t,x); }});
    if(!SMALL){ static const size_t H[][3]={{41,42,43},{2,180,190},{190,2,180},{110,101,100}}; u64 h=(PROP==P_BOUND?4:3)*(thorough?4:2);
      sp.push_back({"huge/"+base,"shapes of more than 2^16 values x families, for the bounds one of more than 2^20",h,[=](u64 i,Ctx& x){ Trip3<T> t; t.c=c; Digits d(i); static const int F[]={5,12,3,14}; int f=F[d.take(thorough?4:2)],l=d.v; t.eb=0.01; t.r1=H[l][0]; t.r2=H[l][1]; t.r3=H[l][2]; field3(f,t.r1,t.r2,t.r3,t.D[0],t.D[1],t.D[2]); x.say("family %s\n",fam3_name(f)); play(t,x); }}); } }
  // unstructured
  std::string base=std::string("unstructured<")+TName<T>::s()+">";
  static std::vector<Mesh> ms,ml; if(ms.empty()){ Mesh one; one.n=4; one.m=1; one.P={0,0,0,1,0,0,0,1,0,0,0,1}; one.tets={0,1,2,3}; one.name="one tetrahedron"; ms.push_back(one); Mesh two=one; two.n=5; two.m=2; two.P.insert(two.P.end(),{1,1,1}); two.tets={3,1,0,2,1,4,2,3}; two.name="two tetrahedra"; ms.push_back(two);
    static const int B[][3]={{2,2,2},{2,2,3},{3,2,2},{3,3,3},{2,4,3},{4,4,4},{5,3,4},{1,3,3},{6,6,6},{3,9,5},{10,9,8},{14,14,14}}; for(auto& b: B) for(int k=0;k<3;k++) ml.push_back(box(b[0],b[1],b[2],k)); ml.push_back(one); ml.push_back(two); }
  if(SMALL){ static const std::vector<std::vector<double>> al={{-1,0.5,3},{-1,0,1},{-2,1,1.5},{-0.4,0.3,7}}; int na=thorough?4:1;
    sp.push_back({"tet/"+base,"one tetrahedron: every assignment of three-valued components, two bounds",531441ull*2*na,[=](u64 i,Ctx& x){ Digits d(i); TripU<T> t; t.M=&ms[0]; t.eb=d.take(2)?0.1:0.9; for(int k=0;k<12;k++) t.D.push_back(0); for(int k=0;k<12;k++) t.D[k]=d.take(3); u64 q=d.take(4); for(int k=0;k<12;k++) t.D[k]=(T)al[q][(int)t.D[k]]; play(t,x); }});
    sp.push_back({"two-tets/"+base,"two tetrahedra: every assignment of two-valued components, three alphabets, two bounds",32768ull*2*3,[=](u64 i,Ctx& x){ Digits d(i); TripU<T> t; t.M=&ms[1]; t.eb=d.take(2)?0.1:0.9; unsigned q=d.take(3); static const double A[3][2]={{-1,2},{0.3,-1.5},{0,1}}; for(int k=0;k<15;k++) t.D.push_back((T)(A[q][d.take(2)]*(1+0.1*(k%3)))); play(t,x); }}); }
  static std::vector<Mesh> mo; if(mo.empty()){ int o[4]={0,1,2,3}; std::vector<std::array<int,4>> pm; do pm.push_back({o[0],o[1],o[2],o[3]}); while(std::next_permutation(o,o+4)); 
    for(auto& a: pm) for(auto& b: pm){ Mesh m; m.n=5; m.m=2; m.P={0,0,0,1,0,0,0,1,0,0,0,1,1,1,1}; for(int k=0;k<4;k++) m.tets.push_back(a[k]); for(int k=0;k<4;k++) m.tets.push_back(b[k]+1); m.name="two tetrahedra"; for(int t: m.tets) m.name+=" "+std::to_string(t); mo.push_back(m); }
    for(int r=0;r<24;r++){ Mesh m; m.n=6; m.m=4; m.P={0,0,0,1,0,0,0,1,0,0,0,1,1,1,1,2,1,1}; static const int ring[4][4]={{0,1,2,3},{0,1,3,4},{0,1,4,5},{0,1,5,2}}; for(int k=0;k<4;k++) for(int q=0;q<4;q++) m.tets.push_back((ring[k][pm[(r+5*k)%24][q]]+r)%6); m.name="four tetrahedra around an edge, orders "+std::to_string(r); mo.push_back(m); } }
  int no=SMALL?(thorough?600:120):(thorough?60:12);
  sp.push_back({"orders/"+base,"two tetrahedra in all 24x24 vertex orders and four around an edge in 24 orders x "+std::to_string(no)+" noise fields x bounds 0.8, 0.3",mo.size()*no*2ull,[=](u64 i,Ctx& x){ Digits d(i); TripU<T> t; t.eb=d.take(2)?0.3:0.8; int mi=d.take(mo.size()); t.M=&mo[mi]; int f=d.take(no); for(int k=0;k<3*t.M->n;k++) t.D.push_back((T)(unit(hash3(k,f,mi))*exp(unit(hash3(f,mi,k))))); play(t,x); }});
  static const double sb[]={1,0.5,0.1,1e-2,1e-4,0}; size_t nm=ml.size();
  sp.push_back({"meshes/"+base,"38 meshes (boxes as is, renumbered, with isolated vertices; one and two tetrahedra) x families x bounds",nm*NF3*6,[=](u64 i,Ctx& x){ Digits d(i); TripU<T> t; t.eb=sb[d.take(6)]; int f=d.take(NF3); t.M=&ml[d.take(nm)]; std::vector<T> U,V,W; size_t r=1; while(r*r*r<(size_t)t.M->n) r++; field3(f,r,r,r,U,V,W); for(int k=0;k<t.M->n;k++){ size_t a=(size_t)(t.M->P[3*k]),b=(size_t)t.M->P[3*k+1],c=(size_t)t.M->P[3*k+2]; size_t o=((c%r)*r+b%r)*r+a%r; t.D.push_back(U[o]); t.D.push_back(V[o]); t.D.push_back(W[o]); } x.say("family %s\n",fam3_name(f)); play(t,x); }});
}
static std::vector<Space> spaces(bool thorough){ std::vector<Space> sp; add<float>(sp,thorough); add<double>(sp,thorough); return sp; }
int main(int c,char** v){ return explore_main(c,v,"3d","",spaces); }
