// 2D bilinear codec: number and types of the zeros of the bilinear interpolant in every quad.
#include "run2.hpp"
using namespace mc;
#ifdef MC_SMALL
static const bool SMALL=true;
#else
static const bool SMALL=false;
#endif
// zeros of (A0 xy+B0 x+C0 y+D0, A1 xy+B1 x+C1 y+D1) in the unit square, from the definition; margin 0: not judged
struct Zeros { int n; int type[2]; double margin; };
static Zeros zeros(const double u[4],const double v[4]){ // corners (0,0) (1,0) (1,1) (0,1)
  typedef long double L; Zeros z; z.n=0; z.margin=1e9; L su=0,sv=0; for(int k=0;k<4;k++){ su=std::max(su,fabsl((L)u[k])); sv=std::max(sv,fabsl((L)v[k])); }
  if(su==0||sv==0){ z.margin=0; return z; }
  // a component of one sign has no zero anywhere in the quad
  for(int k=0;k<2;k++){ const double* f=k?v:u; L s=k?sv:su, lo=1e300L; bool pos=true,neg=true; for(int i=0;i<4;i++){ pos=pos&&f[i]>0; neg=neg&&f[i]<0; lo=std::min(lo,fabsl((L)f[i])); } if(pos||neg){ z.margin=(double)(lo/s); return z; } }
  L U[4],V[4]; for(int k=0;k<4;k++){ U[k]=u[k]/su; V[k]=v[k]/sv; }
  L A0=U[0]-U[1]-U[3]+U[2],B0=U[1]-U[0],C0=U[3]-U[0],D0=U[0],A1=V[0]-V[1]-V[3]+V[2],B1=V[1]-V[0],C1=V[3]-V[0],D1=V[0];
  L a=A0*C1-A1*C0,b=A0*D1+B0*C1-A1*D0-B1*C0,c=B0*D1-B1*D0; if(std::max(std::max(fabsl(a),fabsl(b)),fabsl(c))<1e-6L){ z.margin=0; return z; }
  L disc=b*b-4*a*c; z.margin=(double)fabsl(disc); if(disc<0||disc<1e-12L) return z;
  L q=-(b+(b>=0?1:-1)*sqrtl(disc))/2; L ys[2]; int ny=0; if(fabsl(a)>1e-15L) ys[ny++]=q/a; if(fabsl(q)>0) ys[ny++]=c/q; L cond=sqrtl(disc);
  for(int r=0;r<ny;r++){ L y=ys[r]; L edge=std::min(fabsl(y),fabsl(1-y))*std::min(cond,1.0L);
    if(!(y>=0&&y<1)){ z.margin=std::min(z.margin,(double)edge); continue; }
    L e0=A0*y+B0,e1=A1*y+B1,x; L den=std::max(fabsl(e0),fabsl(e1)); if(den<1e-9L){ z.margin=0; return z; } x= fabsl(e0)>=fabsl(e1)?-(C0*y+D0)/e0:-(C1*y+D1)/e1;
    L xe=std::min(fabsl(x),fabsl(1-x))*std::min(cond,1.0L)*std::min(den,1.0L);
    if(!(x>=0&&x<1)){ z.margin=std::min(z.margin,(double)xe); continue; }
    z.margin=std::min(z.margin,(double)std::min(edge,xe));
    L ux=(A0*y+B0)*su,uy=(A0*x+C0)*su,vx=(A1*y+B1)*sv,vy=(A1*x+C1)*sv,s=std::max(std::max(fabsl(ux),fabsl(uy)),std::max(fabsl(vx),fabsl(vy))); ux/=s; uy/=s; vx/=s; vy/=s;
    L tr=ux+vy,det=ux*vy-uy*vx,d=tr*tr-4*det; int t; L m;
    if(det<0){ t=SADDLE; m=-det; } else if(d>=0){ t=tr<0?ATTRACTING:REPELLING; m=std::min(std::min(fabsl(tr),d),det); } else { t=tr<0?ATTRACTING_FOCUS:REPELLING_FOCUS; m=std::min(fabsl(tr),-d); }
    m*=std::min(cond,1.0L)*std::min(den,1.0L); z.margin=std::min(z.margin,(double)m); z.type[z.n++]=t; }
  if(z.n==2&&z.type[0]>z.type[1]) std::swap(z.type[0],z.type[1]);
  return z; }
static std::string say(const Zeros& z){ static const char* n[]={"singular","attracting","repelling","saddle","attracting focus","repelling focus","center"}; if(!z.n) return "no zero"; std::string s=n[z.type[0]]; if(z.n==2) s+=std::string(" and ")+n[z.type[1]]; return s; }
template<class T> static void play(Trip2<T>& t,Ctx& x){
  bool ok=t.go(); t.describe(x); std::string who=std::string(t.c->name)+"<"+TName<T>::s()+">"; if(!ok){ x.fail(who+":null","no output"); return; }
  bool changed=!t.lossless(); x.sig=t.sig(); x.nontrivial=false; if(changed) x.count("lossy round trips"); const double tol=1e-4;
  if(changed) for(size_t i=0;i+1<t.r1&&!x.failed;i++) for(size_t j=0;j+1<t.r2;j++){
    size_t id[4]={i*t.r2+j,i*t.r2+j+1,(i+1)*t.r2+j+1,(i+1)*t.r2+j}; double u[4],v[4],du[4],dv[4]; bool same=true,zero=false;
    for(int k=0;k<4;k++){ u[k]=t.U[id[k]]; v[k]=t.V[id[k]]; du[k]=t.dU[id[k]]; dv[k]=t.dV[id[k]]; same=same&&u[k]==du[k]&&v[k]==dv[k]; zero=zero||u[k]==0||v[k]==0; }
    if(same) continue; x.nontrivial=true; Zeros a=zeros(u,v),b=zeros(du,dv); (void)zero;
    if(a.margin<=tol||b.margin<=tol){ x.count("quads skipped: within rounding of degenerate"); continue; }
    x.count(a.n==0?"changed quads without a zero":a.n==1?"changed quads with one zero":"changed quads with two zeros");
    bool eq=a.n==b.n; for(int k=0;k<a.n&&eq;k++) eq=a.type[k]==b.type[k];
    if(!eq){ x.fail(who+(a.n>b.n?":lost":a.n<b.n?":spurious":":type"),"%s %zux%zu bound %g: quad (%zu,%zu) had %s, decodes with %s (margins %g, %g): U %.9g %.9g %.9g %.9g -> %.9g %.9g %.9g %.9g, V %.9g %.9g %.9g %.9g -> %.9g %.9g %.9g %.9g",who.c_str(),t.r1,t.r2,t.eb,i,j,say(a).c_str(),say(b).c_str(),a.margin,b.margin,u[0],u[1],u[2],u[3],du[0],du[1],du[2],du[3],v[0],v[1],v[2],v[3],dv[0],dv[1],dv[2],dv[3]); break; } }
  t.done(); }
template<class T> static void add(std::vector<Space>& sp,bool thorough){
  const auto& cs=vec2<T>(); for(auto& cc: cs){ const Vec2<T>* c=&cc; if(c->cp!=CP_BILINEAR) continue; std::string base=std::string(c->name)+"<"+TName<T>::s()+">";
    struct Alpha { const char* n; std::vector<double> v; int tier; };
    static const std::vector<Alpha> al={{"A:-1,1,2",{-1,1,2},0},{"B:-3,-.4,1.1",{-3,-0.4,1.1},0},{"C:-1,.5,3.7",{-1,0.5,3.7},0},{"D:-2,-.3,.7,1.3",{-2,-0.3,0.7,1.3},0},{"E:-1,0,.01,1",{-1,0,0.01,1},1},{"F:-7,-1,-.1,1,5",{-7,-1,-0.1,1,5},1}};
    std::vector<double> ebs={0.1,0.9}; if(thorough){ ebs.push_back(0.01); ebs.push_back(1.0); ebs.push_back(0.5); ebs.push_back(0.3); }
    if(SMALL) for(auto& A: al){ if(A.tier&&!thorough) continue; u64 per=ipow(A.v.size(),8); std::vector<double> v=A.v; std::vector<double> es=ebs; if(v.size()>4) es.resize(2);
      sp.push_back({"2x2/"+base+"/"+A.n,"every 2x2 field with components in {"+std::string(A.n+2)+"}, each of "+std::to_string(es.size())+" bounds",per*es.size(),[=](u64 i,Ctx& x){ Digits d(i); Trip2<T> t; t.c=c; t.eb=es[d.take(es.size())]; t.r1=t.r2=2; for(int k=0;k<4;k++) t.U.push_back((T)v[d.take(v.size())]); for(int k=0;k<4;k++) t.V.push_back((T)v[d.take(v.size())]); play(t,x); }}); }
    struct G { size_t r1,r2; int tier; }; static const G gs[]={{2,3,0},{3,2,0},{3,3,1}}; struct Two { double a,b,c,d; }; static const Two tw[]={{-1,2,-1.5,0.5},{1,-3,0.25,-1}};
    if(SMALL) for(auto g: gs){ if(g.tier&&!thorough) continue; int n=g.r1*g.r2; u64 per=ipow(2,2*n); std::vector<double> es=ebs; if(n==9) es.resize(2);
      sp.push_back({std::to_string(g.r1)+"x"+std::to_string(g.r2)+"/"+base,"every field with two-valued components (two pairs of alphabets) and each bound",per*2*es.size(),[=](u64 i,Ctx& x){ Digits d(i); Trip2<T> t; t.c=c; t.eb=es[d.take(es.size())]; Two w=tw[d.take(2)]; t.r1=g.r1; t.r2=g.r2; for(int k=0;k<n;k++) t.U.push_back((T)(d.take(2)?w.a:w.b)); for(int k=0;k<n;k++) t.V.push_back((T)(d.take(2)?w.c:w.d)); play(t,x); }}); }
    std::vector<double> sb={1,0.5,0.1,1e-2,1e-4,0}; size_t M=SMALL?(thorough?26:14):(thorough?12:5);
    sp.push_back({"shapes/"+base,"every shape 2.."+std::to_string(M)+" squared x "+std::to_string(NF2)+" field families x "+std::to_string(sb.size())+" bounds",(M-1)*(M-1)*NF2*sb.size(),[=](u64 i,Ctx& x){ Digits d(i); Trip2<T> t; t.c=c; t.eb=sb[d.take(sb.size())]; int f=d.take(NF2); t.r1=2+d.take(M-1); t.r2=2+d.take(M-1); field2(f,t.r1,t.r2,t.U,t.V); x.say("family %s\n",fam2_name(f)); play(t,x); }});
    static const size_t L[][2]={{33,33},{12,24},{65,17},{17,65},{2,300},{300,2},{100,100},{129,40},{256,130}}; int nl=thorough?9:8;
    sp.push_back({"large/"+base,std::to_string(nl)+" larger shapes x field families x bounds",(u64)nl*NF2*sb.size(),[=](u64 i,Ctx& x){ Digits d(i); Trip2<T> t; t.c=c; t.eb=sb[d.take(sb.size())]; int f=d.take(NF2); int l=d.take(nl); t.r1=L[l][0]; t.r2=L[l][1]; field2(f,t.r1,t.r2,t.U,t.V); x.say("family %s\n",fam2_name(f)); play(t,x); }});
    unsigned nn=SMALL?(thorough?40000:8000):(thorough?8000:500); 
    sp.push_back({"noise/"+base,std::to_string(NNOISE)+" kinds of noise x "+std::to_string(nn)+" fields of 4x4, 3x5 and 6x3 x 2 bounds",(u64)NNOISE*nn*3*2,[=](u64 i,Ctx& x){ Digits d(i); Trip2<T> t; t.c=c; t.eb=d.take(2)?0.9:0.3; static const size_t S[][2]={{4,4},{3,5},{6,3}}; int s=d.take(3); t.r1=S[s][0]; t.r2=S[s][1]; int k=d.take(NNOISE); unsigned q=d.v; for(int p=0;p<2;p++) for(size_t a=0;a<t.r1;a++) for(size_t b=0;b<t.r2;b++) (p?t.V:t.U).push_back((T)noise_value(k,p,a,b,1,q)); play(t,x); }});
  } }
static std::vector<Space> spaces(bool thorough){ std::vector<Space> sp; add<float>(sp,thorough); add<double>(sp,thorough); return sp; }
int main(int c,char** v){ return explore_main(c,v,"bilinear","",spaces); }
