// 2D critical-point-preserving codecs: error bounds, cells, types, losslessness next to critical points.
// The property is chosen on the command line of the build: -DPROP=...
#include "run2.hpp"
using namespace mc;
#define P_BOUND 1
#define P_CELL_REL 2
#define P_TYPE 3
#define P_CELL_ABS 4
#define P_EXACT 5
#ifndef PROP
#define PROP P_BOUND
#endif
static double cell_tol(bool log,bool isfloat){ return isfloat?(log?1e-4:1e-5):1e-9; }
template<class T> static void judge(Trip2<T>& t,Ctx& x){
  size_t n=t.r1*t.r2; bool isf=sizeof(T)==4; std::string who=std::string(t.c->name)+"<"+TName<T>::s()+">";
  bool changed=!t.lossless(); if(changed) x.count("lossy round trips"); x.sig=t.sig(); x.nontrivial=false;
  if(PROP==P_BOUND){ x.nontrivial=changed;
    for(int k=0;k<2;k++) for(size_t i=0;i<n;i++){ T a=k?t.V[i]:t.U[i], b=k?t.dV[i]:t.dU[i]; double e=fabs((double)b-(double)a), lim=allowed(t.c->bound,t.eb,a,t.c->log,isf,!strcmp(t.c->name,"offline_log"));
      if(!(e<=lim)){ x.fail(who+":bound","%s %zux%zu bound %g: %c[%zu]=%.17g decoded as %.17g, error %g > %g",who.c_str(),t.r1,t.r2,t.eb,"UV"[k],i,(double)a,(double)b,e,lim); return; } } }
  else for(size_t i=0;i+1<t.r1;i++) for(size_t j=0;j+1<t.r2;j++) for(int k=0;k<2;k++){
    size_t id[3]; double X[3][2]; tri(t.r2,i,j,k,id,X); double u[3],v[3],du[3],dv[3]; bool same=true;
    for(int p=0;p<3;p++){ u[p]=t.U[id[p]]; v[p]=t.V[id[p]]; du[p]=t.dU[id[p]]; dv[p]=t.dV[id[p]]; if(u[p]!=du[p]||v[p]!=dv[p]) same=false; }
    Cell2 a=cell2(u,v); double tol=cell_tol(t.c->log,isf);
    if(PROP==P_EXACT){ // vertices of a cell that holds a critical point come back bit for bit
      if(a.state!=1||a.margin<=tol) continue; x.count("cells with a critical point"); if(changed) x.nontrivial=true;
      if(!same){ x.fail(who+":exact","%s %zux%zu bound %g: cell (%zu,%zu,%d) holds a critical point but its vertices changed: U %.9g %.9g %.9g -> %.9g %.9g %.9g, V %.9g %.9g %.9g -> %.9g %.9g %.9g",who.c_str(),t.r1,t.r2,t.eb,i,j,k,u[0],u[1],u[2],du[0],du[1],du[2],v[0],v[1],v[2],dv[0],dv[1],dv[2]); return; }
      continue; }
    if(same) continue; x.nontrivial=true;
    if(a.state<0||a.margin<=tol) { x.count("cells skipped: within rounding of degenerate"); continue; }
    Cell2 b=cell2(du,dv); if(b.state<0||b.margin<=tol){ x.count("cells skipped: within rounding of degenerate"); continue; }
    x.count(a.state?"changed cells with a critical point":"changed cells without one");
    if(PROP==P_CELL_REL||PROP==P_CELL_ABS){ if(a.state!=b.state){ x.fail(who+(a.state?":lost":":spurious"),"%s %zux%zu bound %g: cell (%zu,%zu,%d) %s (margins %g, %g): U %.9g %.9g %.9g -> %.9g %.9g %.9g, V %.9g %.9g %.9g -> %.9g %.9g %.9g",who.c_str(),t.r1,t.r2,t.eb,i,j,k,a.state?"lost its critical point":"gained a critical point",a.margin,b.margin,u[0],u[1],u[2],du[0],du[1],du[2],v[0],v[1],v[2],dv[0],dv[1],dv[2]); return; } }
    else if(a.state==1&&b.state==1){ Type2 p=type2(u,v,X),q=type2(du,dv,X); if(p.margin<=10*tol||q.margin<=10*tol){ x.count("types skipped: within rounding of degenerate"); continue; }
      x.count("types compared"); if(p.type!=q.type){ x.fail(who+":type","%s %zux%zu bound %g: cell (%zu,%zu,%d) type %d became %d (margins %g, %g): U %.9g %.9g %.9g -> %.9g %.9g %.9g, V %.9g %.9g %.9g -> %.9g %.9g %.9g",who.c_str(),t.r1,t.r2,t.eb,i,j,k,p.type,q.type,p.margin,q.margin,u[0],u[1],u[2],du[0],du[1],du[2],v[0],v[1],v[2],dv[0],dv[1],dv[2]); return; } } } }
template<class T> static void play(Trip2<T>& t,Ctx& x){
  bool ok=t.go(); t.describe(x); if(!ok){ x.fail(std::string(t.c->name)+":null","no output"); return; } judge(t,x); t.done(); }
static bool wanted(const char* name,Bound b,Cp cp){
  if(PROP==P_BOUND) return true; if(cp==CP_BILINEAR) return false;
  if(PROP==P_CELL_REL||PROP==P_TYPE) return b==REL; return b==ABS; }
#ifdef MC_SMALL
static const bool SMALL=true;
#else
static const bool SMALL=false;
#endif
template<class T> static void add(std::vector<Space>& sp,bool thorough){
  const auto& cs=vec2<T>();
  for(size_t ci=0;ci<cs.size();ci++){ const Vec2<T>* c=&cs[ci]; if(!wanted(c->name,c->bound,c->cp)) continue; std::string base=std::string(c->name)+"<"+TName<T>::s()+">";
    struct Alpha { const char* n; std::vector<double> v; int tier; };
    static const std::vector<Alpha> al={ {"A:-1,1,2",{-1,1,2},0},{"B:-1,0,1",{-1,0,1},0},{"C:-1,.5,3",{-1,0.5,3},0},{"D:-2,-.3,.7,1",{-2,-0.3,0.7,1},0},{"E:-1,0,.01,1",{-1,0,0.01,1},1},{"F:-7,-1,-.1,1,5",{-7,-1,-0.1,1,5},1}};
    std::vector<double> ebs= c->bound==REL? std::vector<double>{0.1,0.9} : std::vector<double>{0.3,1.5};
    if(thorough){ ebs.push_back(0.01); ebs.push_back(c->bound==REL?1.0:5.0); ebs.push_back(0.5); ebs.push_back(1e-3); }
    if(SMALL) for(auto& A: al){ if(A.tier&&!thorough) continue; u64 per=ipow(A.v.size(),8);
      std::vector<double> v=A.v; std::vector<double> es=ebs; if(v.size()>4) es.resize(2);
      sp.push_back({"2x2/"+base+"/"+A.n,"every 2x2 field with components in {"+std::string(A.n+2)+"}, each of "+std::to_string(es.size())+" bounds",per*es.size(),[=](u64 i,Ctx& x){ Digits d(i); Trip2<T> t; t.c=c; t.eb=es[d.take(es.size())]; t.r1=t.r2=2; for(int k=0;k<4;k++) t.U.push_back((T)v[d.take(v.size())]); for(int k=0;k<4;k++) t.V.push_back((T)v[d.take(v.size())]); play(t,x); }}); }
    // 2x3, 3x2, 3x3 with two-valued components
    struct G { size_t r1,r2; int tier; }; static const G gs[]={{2,3,0},{3,2,0},{3,3,1}};
    struct Two { double a,b,c,d; }; static const Two tw[]={{-1,2,-1.5,0.5},{1,-3,0.25,-1}};
    if(SMALL) for(auto g: gs){ if(g.tier&&!thorough) continue; int n=g.r1*g.r2; u64 per=ipow(2,2*n); int ntw= 2; std::vector<double> es=ebs; if(n==9) es.resize(2);
      sp.push_back({std::to_string(g.r1)+"x"+std::to_string(g.r2)+"/"+base,"every field with two-valued components (two pairs of alphabets) and each bound",per*ntw*es.size(),[=](u64 i,Ctx& x){ Digits d(i); Trip2<T> t; t.c=c; t.eb=es[d.take(es.size())]; Two w=tw[d.take(ntw)]; t.r1=g.r1; t.r2=g.r2; for(int k=0;k<n;k++) t.U.push_back((T)(d.take(2)?w.a:w.b)); for(int k=0;k<n;k++) t.V.push_back((T)(d.take(2)?w.c:w.d)); play(t,x); }}); }
    // all shapes x field families x bounds
    std::vector<double> sb= c->bound==REL? std::vector<double>{1,0.5,0.1,1e-2,1e-4,0} : std::vector<double>{10,1,0.1,1e-3,1e-7,0};
    size_t M= SMALL?(thorough?24:11):(thorough?12:5); size_t m0=PROP==P_BOUND?1:2; 
    sp.push_back({"shapes/"+base,"every shape "+std::to_string(m0)+".."+std::to_string(M)+" squared x "+std::to_string(NF2)+" field families x "+std::to_string(sb.size())+" bounds",(M-m0+1)*(M-m0+1)*NF2*sb.size(),[=](u64 i,Ctx& x){ Digits d(i); Trip2<T> t; t.c=c; t.eb=sb[d.take(sb.size())]; int f=d.take(NF2); t.r1=m0+d.take(M-m0+1); t.r2=m0+d.take(M-m0+1); field2(f,t.r1,t.r2,t.U,t.V); x.say("family %s\n",fam2_name(f)); play(t,x); }});
    // larger shapes: interpolation levels, Huffman tables, block boundaries, long rows and columns
    static const size_t L[][2]={{33,33},{12,24},{13,25},{65,17},{17,65},{2,300},{300,2},{34,66},{100,100},{129,40},{256,130},{1,200},{200,1}};
    int nl=SMALL?(PROP==P_BOUND?13:11):(thorough?11:9);
    sp.push_back({"large/"+base,std::to_string(nl)+" larger shapes x field families x bounds",(u64)nl*NF2*sb.size(),[=](u64 i,Ctx& x){ Digits d(i); Trip2<T> t; t.c=c; t.eb=sb[d.take(sb.size())]; int f=d.take(NF2); int l=d.take(nl); t.r1=L[l][0]; t.r2=L[l][1]; field2(f,t.r1,t.r2,t.U,t.V); x.say("family %s\n",fam2_name(f)); play(t,x); }});
    // many small noise fields: bounds that are a little too wide show in few of them
    unsigned nn=SMALL?(thorough?20000:2500):(thorough?2500:150); std::vector<double> nb= c->bound==REL? std::vector<double>{0.9,0.3} : std::vector<double>{2,0.3};
    sp.push_back({"noise/"+base,std::to_string(NNOISE)+" kinds of noise x "+std::to_string(nn)+" fields of 4x4, 3x5 and 6x3 x 2 bounds",(u64)NNOISE*nn*3*2,[=](u64 i,Ctx& x){ Digits d(i); Trip2<T> t; t.c=c; t.eb=nb[d.take(2)]; static const size_t S[][2]={{4,4},{3,5},{6,3}}; int s=d.take(3); t.r1=S[s][0]; t.r2=S[s][1]; int k=d.take(NNOISE); unsigned q=d.v; for(int p=0;p<2;p++) for(size_t a=0;a<t.r1;a++) for(size_t b=0;b<t.r2;b++) (p?t.V:t.U).push_back((T)noise_value(k,p,a,b,1,q)); play(t,x); }});
    // more than 2^16 and 2^20 values, with the shipped number of intervals
    if(!SMALL){ static const size_t H[][2]={{257,300},{300,257},{1100,1000}}; u64 h1=2*NF2*2,h2=3*(thorough?2:1);
      sp.push_back({"huge/"+base,"257x300 and 300x257 x "+std::to_string(NF2)+" families x 2 bounds, 1100x1000 x 3 families",h1+h2,[=](u64 i,Ctx& x){ Trip2<T> t; t.c=c; int f,l=2; if(i<h2){ static const int F[]={6,7,18}; Digits d(i); f=F[d.take(3)]; t.eb=d.take(2)?1e-3:0.1; } else { Digits d(i-h2); l=d.take(2); t.eb=d.take(2)?0.1:1e-3; f=d.take(NF2); } t.r1=H[l][0]; t.r2=H[l][1]; field2(f,t.r1,t.r2,t.U,t.V); x.say("family %s\n",fam2_name(f)); play(t,x); }}); }
  } }
static std::vector<Space> spaces(bool thorough){ std::vector<Space> sp; add<float>(sp,thorough); add<double>(sp,thorough); return sp; }
int main(int c,char** v){ return explore_main(c,v,"2d","",spaces); }
