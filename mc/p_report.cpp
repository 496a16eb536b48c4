// What verify() prints about an original and a decompressed array, compared with the definitions in long double.
#include "fields.hpp"
#include "utils.hpp"
#include <sys/mman.h>
#include <cmath>
#include <unistd.h>
using namespace mc;
static std::string captured(const std::function<void()>& f){ static int fd=memfd_create("out",0),old=dup(1); fflush(stdout); std::cout.clear(); std::cout.flush(); if(ftruncate(fd,0)||lseek(fd,0,SEEK_SET)<0) _exit(9); dup2(fd,1); f(); fflush(stdout); std::cout.flush(); dup2(old,1); char b[4096]; ssize_t n=pread(fd,b,4095,0); return std::string(b,n>0?n:0); }
static bool number(const std::string& s,const char* label,double& v){ size_t p=s.find(label); if(p==std::string::npos) return false; p+=strlen(label); while(p<s.size()&&(s[p]==' '||s[p]=='='||s[p]==':')) p++; char* e; v=strtod(s.c_str()+p,&e); return e!=s.c_str()+p; }
static bool near(long double a,double b,long double rel,long double abs){ return fabsl(a-b)<=rel*fabsl(a)+abs; }
template<class T> static void report(const std::vector<T>& a,const std::vector<T>& b,Ctx& x){
  size_t n=a.size(); for(size_t i=0;i<n;i++) if(!std::isfinite(a[i])||!std::isfinite(b[i])) return; std::vector<T> ka=a,kb=b; x.sig=fnv(a.data(),n*sizeof(T),fnv(b.data(),n*sizeof(T),sizeof(T)));
  if(x.describe){ x.say("%zu values:",n); for(size_t i=0;i<n&&i<20;i++) x.say(" %.9g/%.9g",(double)a[i],(double)b[i]); x.say("\n"); }
  std::string s=captured([&]{ verify<T>((T*)a.data(),(T*)b.data(),n); }); x.say("%s",s.c_str());
  if(memcmp(a.data(),ka.data(),n*sizeof(T))||memcmp(b.data(),kb.data(),n*sizeof(T))) x.fail("report:inputs","verify changed its inputs");
  long double lo=a[0],hi=a[0],e=0,pw=0,q=0,m1=0,m2=0; for(size_t i=0;i<n;i++){ long double d=fabsl((long double)(T)(b[i]-a[i])),m=fabsl((long double)a[i]); lo=std::min<long double>(lo,a[i]); hi=std::max<long double>(hi,a[i]); e=std::max(e,d); if(m>1) pw=std::max(pw,d/m); q+=d*d; m1+=a[i]; m2+=b[i]; }
  m1/=n; m2/=n; long double s11=0,s22=0,s12=0; for(size_t i=0;i<n;i++){ s11+=(a[i]-m1)*(a[i]-m1); s22+=(b[i]-m2)*(b[i]-m2); s12+=(a[i]-m1)*(b[i]-m2); }
  x.nontrivial=e>0; double v; std::string t=std::string("<")+(sizeof(T)==4?"float":"double")+">"; long double range=(long double)(double)(T)(hi-lo);
  auto want=[&](const char* label,const char* what,long double w,long double rel,long double abs){ if(x.failed) return; if(!number(s,label,v)){ x.fail("report:missing"+t,"no line for the %s",what); return; } if(!near(w,v,rel,abs)) x.fail(std::string("report:")+what+t,"%s: reported %.10g, is %.10Lg (%zu values)",what,v,w,n); };
  want("Min","minimum",lo,1e-15L,0); want("Max=","maximum",hi,1e-15L,0); want("range","range",range,1e-6L,0); want("Max absolute error","largest error",e,1e-6L,1e-10L);
  const bool sound=range>0&&std::isfinite((double)range);
  if(sound&&e/range<1e30L&&range>1e-37L) want("Max relative error","error relative to the range",e/range,1e-5L,1e-6L); want("Max pw relative error","largest point-wise relative error",pw,1e-5L,1e-6L);
  if(sound&&q/n>1e-290L){ long double mse=q/n; want("PSNR","PSNR",20*log10l(range)-10*log10l(mse),1e-5L,1e-5L); want("NRMSE","NRMSE",sqrtl(mse)/range,1e-5L,0); }
  if(s11>1e-15L*n*m1*m1&&s22>1e-15L*n*m2*m2&&s11>1e-25L&&s22>1e-25L) want("acEff","correlation",s12/sqrtl(s11)/sqrtl(s22),1e-6L,2e-6L); }
template<class T> static void add(std::vector<Space>& sp,bool thorough){ std::string t=std::string("<")+(sizeof(T)==4?"float":"double")+">";
  static const double A[]={0,-2.5,0.5,3,-0.25},B[]={0,-2.25,3,1.5,-0.25}; int N=thorough?4:3;
  sp.push_back({"pairs"+t,"every pair of arrays of 1.."+std::to_string(N)+" values from two alphabets of five",(ipow(25,N+1)-25)/24,[=](u64 i,Ctx& x){ int n=1; while(i>=ipow(25,n)) i-=ipow(25,n++); Digits d(i); std::vector<T> a,b; for(int k=0;k<n;k++){ a.push_back((T)A[d.take(5)]); b.push_back((T)B[d.take(5)]); } report<T>(a,b,x); }});
  int M=thorough?200:70;
  sp.push_back({"place"+t,"arrays of 1.."+std::to_string(M)+" values: the minimum, the maximum, the largest error and the largest relative error each at every place",(u64)M*M*5,[=](u64 i,Ctx& x){ Digits d(i); int n=1+d.take(M),p=d.take(M)%n,k=d.take(5); std::vector<T> a,b; for(int q=0;q<n;q++){ a.push_back((T)(1+0.5*unit(hash3(q,n,1)))); b.push_back((T)(a[q]+1e-3*unit(hash3(q,n,2)))); } if(k==0) a[p]=b[p]=(T)-7.5; if(k==1) a[p]=b[p]=(T)91.25; if(k==2) b[p]+=(T)0.5; if(k==3) b[p]-=(T)0.5; if(k==4){ a[p]=(T)-1.5; b[p]=(T)-1.25; } report<T>(a,b,x); }});
  static const double O[]={1e3,-1e5,2e6,1e7}; static const size_t LO[]={2,3,5,17,64,1000};
  sp.push_back({"offset"+t,"6 lengths up to 1000 x "+std::to_string((int)NFS)+" families added to 4 large constants x 2 kinds of error",6*NFS*4*2,[=](u64 i,Ctx& x){ Digits d(i); int f=d.take(NFS),o=d.take(4),k=d.take(2); size_t n=LO[d.v]; std::vector<T> a,b; scalar(f,1,1,n,a); double m=0; for(T v:a) m=std::max(m,fabs((double)v)); for(size_t q=0;q<n;q++){ a[q]=(T)(O[o]+(m>0?a[q]/m:0)); double e=0.1*unit(hash3(q,f,3)); b.push_back((T)(k? a[q]+e: a[q]-(q==n/2?0.25:0))); } report<T>(a,b,x); }});
  static const size_t L[]={255,256,257,1000,1023,1024,1025,4096,65535,65536,65537,100000}; static const double S[]={1,1e-6,1e6,-3};
  sp.push_back({"long"+t,"12 lengths up to 100000 x "+std::to_string((int)NFS)+" families x 4 scales x 4 kinds of error",12*NFS*4*4,[=](u64 i,Ctx& x){ Digits d(i); int f=d.take(NFS),s=d.take(4),k=d.take(4); size_t n=L[d.v]; std::vector<T> a,b; scalar(f,1,1,n,a); for(size_t q=0;q<n;q++){ a[q]*=(T)S[s]; double e=k==0?0:k==1?1e-3*unit(hash3(q,f,3)):(q==n-1?0.25:1e-4); b.push_back(k==3? (T)(a[q]*(1+1e-3*unit(hash3(q,f,5)))): (T)(a[q]+e*S[s])); } report<T>(a,b,x); }}); }
static std::vector<Space> spaces(bool thorough){ std::vector<Space> sp; add<float>(sp,thorough); add<double>(sp,thorough); return sp; }
int main(int c,char** v){ return explore_main(c,v,"report","",spaces); }
