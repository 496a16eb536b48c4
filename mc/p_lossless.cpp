// The exact stages around the predictors: bitmaps, zstd stage, regression coefficients, truncated values, files.
// Each stage is a program of its own (-DPART=...), so that a change of one helper's interface leaves the others checked.
#include "mc.hpp"
#define BITS 1
#define ZSTD 2
#define REG 3
#define TRUNC 4
#define FILES 5
#if PART==ZSTD
#include "sz_lossless.hpp"
#elif PART==FILES
#include "utils.hpp"
#else
#include "sz_huffman.hpp"
#include "sz_compression_utils.hpp"
#include "sz_decompression_utils.hpp"
#include "sz_def.hpp"
#endif
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;
#if PART==BITS
static void bitmap(const std::vector<unsigned char>& a,Ctx& x){
  size_t n=a.size(), bytes=(n-1)/8+1; x.sig=fnv(a.data(),n); x.nontrivial=true; unsigned char* b=(unsigned char*)malloc(bytes); unsigned char* p=b; convertIntArray2ByteArray_fast_1b_to_result_sz(a.data(),n,p);
  if((size_t)(p-b)!=bytes) x.fail("bits:size","%zu bits: %zu bytes written instead of %zu",n,(size_t)(p-b),bytes);
  const unsigned char* q=b; unsigned char* c=convertByteArray2IntArray_fast_1b_sz(n,q,bytes); if((size_t)(q-b)!=bytes) x.fail("bits:cursor","%zu bits: %zu bytes consumed instead of %zu",n,(size_t)(q-b),bytes);
  for(size_t i=0;i<n;i++) if(c[i]!=a[i]){ x.fail("bits","%zu bits: bit %zu is %d, comes back as %d",n,i,a[i],c[i]); break; }
  free(c); free(b); }
#endif
static unsigned char content(int kind,size_t i,size_t n){ uint32_t h=(uint32_t)(i*2654435761u+n*40503u); h^=h>>15; h*=2246822519u; h^=h>>13; switch(kind){ case 0: return 0; case 1: return 0xFF; case 2: return i; case 3: return h; case 4: return i%17?7:h; case 5: return (h&31)?'a':h>>8; default: return "\x28\xb5\x2f\xfd\x00\x00"[i%6]; } }
#if PART==ZSTD
static void stage(size_t n,int kind,int level,Ctx& x){
  std::vector<unsigned char> d(n); for(size_t i=0;i<n;i++) d[i]=content(kind,i,n); x.sig=fnv(d.data(),n,level); x.nontrivial=n>0; x.say("%zu bytes of kind %d, level %d\n",n,kind,level); std::vector<unsigned char> keep=d;
  unsigned char* z=0; unsigned long zs=sz_lossless_compress(ZSTD_COMPRESSOR,level,d.data(),n,&z); size_t cap=0; env_check_live(z,&cap);
  if(zs>cap){ x.fail("zstd:size","%zu bytes, level %d: reports %lu bytes in a block of %zu (an error code?)",n,level,zs,cap); free(z); return; }
  std::vector<unsigned char> e(z,z+zs); free(z); if(is_lossless_compressed_data(e.data(),zs)!=ZSTD_COMPRESSOR) x.fail("zstd:detect","a compressed stream is not recognised");
  unsigned char* b=0; unsigned long bs=sz_lossless_decompress(ZSTD_COMPRESSOR,e.data(),zs,&b,n); if(bs!=n||(n&&memcmp(b,keep.data(),n))) x.fail("zstd","%zu bytes of kind %d, level %d do not come back",n,kind,level); free(b);
  if(n<=65536){ unsigned char* f=0; unsigned long fs=sz_lossless_decompress65536bytes(ZSTD_COMPRESSOR,e.data(),zs,&f); if(fs!=65536||(n&&memcmp(f,keep.data(),n))) x.fail("zstd:65536","%zu bytes of kind %d do not come back through sz_lossless_decompress65536bytes",n,kind); free(f); } }
#endif
#if PART==REG
template<bool D3> static void coefs(const std::vector<float>& v,int bs,double prec,Ctx& x){ // the decoder recovers what the encoder left in its own array
  const int C=D3?RegCoeffNum3d:RegCoeffNum2d; size_t n=v.size()/C; double pr[4]; float rel=RegErrThreshold*prec/C; for(int i=0;i<C-1;i++) pr[i]=rel/bs; pr[C-1]=rel;
  std::vector<float> p(C*(n+1)+1,0.f); std::vector<int> ty(n*C+1); std::vector<float> un(n*C+1); float* up=un.data();
  for(size_t i=0;i<n;i++){ for(int j=0;j<C;j++) p[C*(i+1)+j]=v[i*C+j]; if(D3) compress_regression_coefficient_3d(pr,p.data()+C*(i+1),ty.data()+i*C,up); else compress_regression_coefficient_2d(pr,p.data()+C*(i+1),ty.data()+i*C,up); }
  x.sig=fnv(v.data(),v.size()*4,fnv(&prec,8,bs)); x.nontrivial=(size_t)(up-un.data())<n*C; if(x.describe){ x.say("%zu blocks, block size %d, bound %g:",n,bs,prec); for(size_t i=0;i<v.size()&&i<24;i++) x.say(" %g",v[i]); x.say("\n"); }
  size_t cap=16+n*C*4+Huffman_encoded_size_bound(2*RegCoeffCapacity,n*C); unsigned char* b=(unsigned char*)malloc(cap); unsigned char* w=b; 
  if(D3) encode_regression_coefficients(ty.data(),un.data(),n,up-un.data(),w); else encode_regression_coefficients_2d(ty.data(),un.data(),n,up-un.data(),w);
  const unsigned char* r=b; float* d=D3?decode_regression_coefficients(r,n,bs,prec):decode_regression_coefficients_2d(r,n,bs,prec);
  if(r!=w) x.fail("reg:cursor","%zu blocks: %zu bytes written, %zu consumed",n,(size_t)(w-b),(size_t)(r-b));
  for(size_t i=0;i<n*C;i++){ float a=p[C+i],g=d[C+i]; if(memcmp(&a,&g,4)){ x.fail("reg:value","coefficient %zu: the encoder used %.9g, the decoder has %.9g",i,a,g); break; } double e=fabs((double)v[i]-g); if(!(e<=pr[i%C]*1.0001)){ x.fail("reg:bound","coefficient %zu: %.9g became %.9g, more than %g away",i,v[i],g,pr[i%C]); break; } }
  free(d); free(b); }
#endif
#if PART==TRUNC
template<class T> static void trunc_values(const std::vector<T>& v,const std::vector<int>& len,Ctx& x){
  size_t n=v.size(); std::vector<unsigned char> sign(n),bits(n*8+16); std::vector<int> type(n); std::vector<T> used(n); unsigned char *s=sign.data(),*d=bits.data(); int* t=type.data(); int pos=0; 
  for(size_t i=0;i<n;i++) used[i]=out_of_range_data_encode<T>(v[i],len[i],s,t,d,pos); x.sig=fnv(v.data(),n*sizeof(T),fnv(len.data(),n*4)); x.nontrivial=true; if(x.describe) for(size_t i=0;i<n;i++) x.say("%.17g in %d bits\n",(double)v[i],len[i]);
  const unsigned char *cs=sign.data(),*cd=bits.data(); const int* ct=type.data(); int cp=0;
  for(size_t i=0;i<n;i++){ T g=out_of_range_data_decode<T>(len[i],cs,ct,cd,cp); if(!(g==used[i])){ x.fail(std::string("trunc:")+(sizeof(T)==4?"float":"double"),"value %zu (%.17g in %d bits): the encoder used %.17g, the decoder has %.17g",i,(double)v[i],len[i],(double)used[i],(double)g); return; }
    double e=fabs((double)g-(double)v[i]); if(!(e<=ldexp(fabs((double)v[i]),-len[i]))){ x.fail("trunc:error","%.17g in %d bits became %.17g",(double)v[i],len[i],(double)g); return; } }
  if(cd!=d||cp!=pos) x.fail("trunc:cursor","the cursors differ"); }
#endif
#if PART==FILES
template<class T> static void file(size_t bytes,int kind,Ctx& x,int before){ // in a private scratch directory
  static char dir[]="/tmp/mcfileXXXXXX"; static bool made=false; if(!made){ made=mkdtemp(dir); }
  std::string f=std::string(dir)+"/f"; size_t n=bytes/sizeof(T); std::vector<unsigned char> d(bytes+8); for(size_t i=0;i<bytes;i++) d[i]=content(kind,i,bytes); x.sig=fnv(d.data(),bytes,sizeof(T)); x.nontrivial=n>0; x.say("%zu bytes as elements of %zu\n",bytes,sizeof(T));
  size_t num=12345; T* r=readfile<T>((f+"none").c_str(),num); if(r) x.fail("file:missing","readfile returned data for a file that does not exist");
  if(before){ FILE* o=fopen(f.c_str(),"wb"); for(size_t i=0,m=before==1?bytes+100:bytes/3+1;i<m;i++) fputc('z',o); fclose(o); }
  writefile<T>(f.c_str(),(T*)d.data(),n); { FILE* o=fopen(f.c_str(),"rb"); std::vector<unsigned char> raw(n*sizeof(T)+1); size_t g=o?fread(raw.data(),1,raw.size(),o):0; if(o) fclose(o); if(g!=n*sizeof(T)||memcmp(raw.data(),d.data(),g)) x.fail("file:bytes","%zu elements of %zu bytes: the file does not hold them%s",n,sizeof(T),before?" (there was a file before)":""); }
  struct stat st; if(stat(f.c_str(),&st)||(size_t)st.st_size!=n*sizeof(T)) x.fail("file:size","%zu elements of %zu bytes became a file of %ld bytes",n,sizeof(T),(long)st.st_size);
  if(bytes%sizeof(T)){ FILE* o=fopen(f.c_str(),"ab"); fwrite(d.data()+n*sizeof(T),1,bytes%sizeof(T),o); fclose(o); } // a partial element at the end
  num=0; r=readfile<T>(f.c_str(),num); if(num!=n||!r||(n&&memcmp(r,d.data(),n*sizeof(T)))) x.fail("file:read","%zu elements of %zu bytes: readfile returns %zu or other bytes",n,sizeof(T),num); if(r) env_check_live(r,0); free(r);
  T* b=(T*)malloc(n*sizeof(T)+1); num=0; readfile_to_buffer<T>((char*)f.c_str(),num,b); if(num!=n||(n&&memcmp(b,d.data(),n*sizeof(T)))) x.fail("file:buffer","readfile_to_buffer returns %zu elements or other bytes",num); free(b);
  unlink(f.c_str()); rmdir(dir); made=false; memcpy(dir+strlen(dir)-6,"XXXXXX",6); }
#endif
static std::vector<Space> spaces(bool thorough){ std::vector<Space> sp;
#if PART==FILES
  { size_t N=thorough?4200:600; const char* a="every file size up to a bound x 7 contents x {no file, a longer one, a shorter one before}: written, read back whole and into a buffer, with and without a partial last element";
    sp.push_back({"file<float>",a,21*(N+1),[](u64 i,Ctx& x){ file<float>(i/21,i/3%7,x,i%3); }}); sp.push_back({"file<double>",a,21*(N+1),[](u64 i,Ctx& x){ file<double>(i/21,i/3%7,x,i%3); }}); sp.push_back({"file<byte>",a,21*(N+1),[](u64 i,Ctx& x){ file<unsigned char>(i/21,i/3%7,x,i%3); }}); sp.push_back({"file<int>",a,21*(N+1),[](u64 i,Ctx& x){ file<int>(i/21,i/3%7,x,i%3); }});
    static const size_t L[]={4095,4096,4097,65535,65536,65537,131072,1000003,4194304+12,16777216+8}; sp.push_back({"file/large","larger files x 7 contents x 3 element types x 3 kinds of file before",10*7*3*3,[](u64 i,Ctx& x){ Digits d(i); int k=d.take(7),t=d.take(3),b=d.take(3); if(t==0) file<float>(L[d.v],k,x,b); else if(t==1) file<double>(L[d.v],k,x,b); else file<unsigned char>(L[d.v],k,x,b); }}); }
#elif PART==BITS
  { int N=thorough?22:17; sp.push_back({"bits/all","every bit string of 1.."+std::to_string(N)+" bits",(1ull<<(N+1))-2,[](u64 i,Ctx& x){ int l=1; while(i>=(1ull<<l)){ i-=1ull<<l; l++; } std::vector<unsigned char> a; for(int k=0;k<l;k++) a.push_back(i>>k&1); bitmap(a,x); }}); }
  { int N=thorough?3000:700; sp.push_back({"bits/length","every length up to a bound x 7 patterns, and every position of a single set or cleared bit of 40 bits",(u64)N*7+80,[=](u64 i,Ctx& x){ std::vector<unsigned char> a; if(i<(u64)N*7){ int n=1+i/7; for(int k=0;k<n;k++) a.push_back(content(i%7,k,n)&1); } else { i-=N*7; a.assign(40,i%2); a[i/2]^=1; } bitmap(a,x); }}); }
  { static const int L[]={65535,65536,65537,131071,131072,131073,524289,1000003,16777217}; sp.push_back({"bits/long","9 lengths up to 16777217 x 7 patterns",9*7,[](u64 i,Ctx& x){ int n=L[i/7]; std::vector<unsigned char> a(n); for(int k=0;k<n;k++) a[k]=content(i%7,k,n)&1; bitmap(a,x); }}); }
#elif PART==ZSTD
  { static const int lv[]={3,1,9,19,-1}; int nl=thorough?5:2; size_t N=thorough?4000:1100; sp.push_back({"zstd/length","every length up to a bound x 7 contents x levels",(N+1)*7*nl,[=](u64 i,Ctx& x){ Digits d(i); int k=d.take(7),l=d.take(nl); stage(d.v,k,lv[l],x); }});
    static const size_t L[]={32767,32768,65535,65536,65537,131071,131072,131073,262145,1000000,3000001}; sp.push_back({"zstd/large","11 larger sizes x 7 contents x levels",11*7*nl,[=](u64 i,Ctx& x){ Digits d(i); int k=d.take(7),l=d.take(nl); stage(L[d.v],k,lv[l],x); }}); }
#elif PART==REG
  static const double P[]={1,1e-3,10,1e-6};
  { static const float A[]={0.f,1.f,1.0001f,-3.f,1e4f,1e-7f}; int n2=thorough?3:2; 
    sp.push_back({"reg2","every assignment of 6 values to the coefficients of "+std::to_string(n2)+" 2D blocks x block sizes x bounds",ipow(6,3*n2)*2*(thorough?2:4),[=](u64 i,Ctx& x){ Digits d(i); int bs=d.take(2)?12:5; double pr=P[d.take(thorough?2:4)]; std::vector<float> v; for(int k=0;k<3*n2;k++) v.push_back(A[d.take(6)]); coefs<false>(v,bs,pr,x); }});
    int n3=2,a3=thorough?5:3; sp.push_back({"reg3","every assignment of "+std::to_string(a3)+" values to the coefficients of 2 3D blocks x block sizes x bounds",ipow(a3,8)*2*(thorough?2:4),[=](u64 i,Ctx& x){ Digits d(i); int bs=d.take(2)?8:4; double pr=P[d.take(thorough?2:4)]; std::vector<float> v; for(int k=0;k<4*n3;k++) v.push_back(A[d.take(a3)]); coefs<true>(v,bs,pr,x); }});
    sp.push_back({"reg/many","0..200 blocks x 4 kinds x bounds, 2D and 3D",201*4*4*2,[](u64 i,Ctx& x){ Digits d(i); int three=d.take(2),kind=d.take(4); double pr=P[d.take(4)]; int C=three?4:3; std::vector<float> v; for(size_t k=0;k<d.v*C;k++){ uint32_t h=k*2654435761u; h^=h>>13; v.push_back(kind==0?1.f+1e-4f*k:kind==1?(float)(h%1000)*1e-3f:kind==2?(k%9?0.5f:1e6f*(h%7)):0.f); } if(three) coefs<true>(v,8,pr,x); else coefs<false>(v,12,pr,x); }}); }
  { static const int K[]={255,256,257,1365,1366,5461,5462,21846,65537}; sp.push_back({"reg/long","9 numbers of blocks up to 65537 x 4 kinds x 4 bounds, 2D and 3D",9*4*4*2,[](u64 i,Ctx& x){ Digits d(i); int three=d.take(2),kind=d.take(4); double pr=P[d.take(4)]; int C=three?4:3; size_t n=K[d.v]; std::vector<float> v; for(size_t k=0;k<n*C;k++){ uint32_t h=k*2654435761u; h^=h>>13; v.push_back(kind==0?1.f+1e-4f*k:kind==1?(float)(h%1000)*1e-3f:kind==2?(k%9?0.5f:1e6f*(h%7)):0.f); } if(three) coefs<true>(v,8,pr,x); else coefs<false>(v,12,pr,x); }}); }
#elif PART==TRUNC
  { static const double V[]={1,-1.75,3.14159265358979,-1e-30,6.02e23,1.9999999,-0.1,0}; 
    for(int t=0;t<2;t++){ int M=t?52:23; int n=3; std::vector<int> ls; for(int l=1;l<=M;l+=t&&!thorough?3:1) ls.push_back(l); u64 K=ls.size();
      sp.push_back({std::string("trunc<")+(t?"double":"float")+">","every triple of 8 values x triples of numbers of mantissa bits, packed one behind the other",ipow(8,2)*K*K*K,[=](u64 i,Ctx& x){ Digits d(i); std::vector<int> len; for(int k=0;k<n;k++) len.push_back(ls[d.take(K)]); int a=d.take(8),b=d.take(8); double v[3]={V[a],V[b],V[(a+3*b+1)%8]}; if(t){ std::vector<double> w(v,v+3); trunc_values<double>(w,len,x); } else { std::vector<float> w(v,v+3); trunc_values<float>(w,len,x); } }}); } }
  { for(int t=0;t<2;t++) sp.push_back({std::string("trunc/long<")+(t?"double":"float")+">","0..600 values of mixed magnitude x 6 patterns of numbers of bits",601*6,[=](u64 i,Ctx& x){ int n=i/6,pt=i%6,M=t?52:23; std::vector<double> v; std::vector<int> len; for(int k=0;k<n;k++){ uint32_t h=k*2654435761u+n*40503u; h^=h>>15; h*=2246822519u; h^=h>>13; v.push_back((h&1?-1:1)*ldexp(1+(h>>8)/16777216.0*0.999,(int)(h>>1)%60-30)); len.push_back(pt==0?M:pt==1?1:pt==2?1+k%M:pt==3?1+(h>>5)%M:pt==4?8:M-1-(k&1)); } if(t) trunc_values<double>(v,len,x); else { std::vector<float> w(v.begin(),v.end()); trunc_values<float>(w,len,x); } }}); }
#endif
  return sp; }
int main(int c,char** v){ return explore_main(c,v,"lossless","",spaces); }
