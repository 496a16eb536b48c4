// Entropy coder: every symbol sequence comes back, both cursors stop at the same byte, the announced bound covers what is written.
#include "mc.hpp"
#include "sz_huffman.hpp"
#include "sz_compression_utils.hpp"
#include "sz_decompression_utils.hpp"
using namespace mc;
static void check(size_t states,const std::vector<int>& s,Ctx& x){
  size_t n=s.size(), bound=Huffman_encoded_size_bound(states,n); x.sig=fnv(s.data(),n*sizeof(int),states);
  std::set<int> used; if(n<=4096) used.insert(s.begin(),s.end()); x.nontrivial=n>4096||used.size()>1;
  if(x.describe){ std::string t; for(size_t i=0;i<n&&i<80;i++) t+=" "+std::to_string(s[i]); x.say("%zu states, %zu symbols:%s%s\n",states,n,t.c_str(),n>80?" ...":""); }
  std::vector<int> keep=s; const int* in=n?s.data():(const int*)&bound;
  unsigned char* b=(unsigned char*)malloc(bound); unsigned char* p=b; Huffman_encode_tree_and_data(states,in,n,p); size_t len=p-b;
  if(len>bound){ x.fail("bound","%zu states, %zu symbols: %zu bytes written, bound says %zu",states,n,len,bound); free(b); return; }
  if(s!=keep){ x.fail("input","the symbols changed"); free(b); return; }
  unsigned char* e=(unsigned char*)malloc(len+1); memcpy(e,b,len); e[len]=0x5A; const unsigned char* q=e; int* d=Huffman_decode_tree_and_data(states,n,q);
  if((size_t)(q-e)!=len) x.fail("cursor","%zu states, %zu symbols: %zu bytes written, %zu consumed",states,n,len,(size_t)(q-e));
  for(size_t i=0;i<n;i++) if(d[i]!=s[i]){ x.fail("symbol","%zu states, %zu symbols: symbol %zu is %d, decoded as %d",states,n,i,s[i],d[i]); break; }
  if(len>0&&memcmp(e,b,len)) x.fail("stream","decoding changed the stream");
  // a second copy right behind the first one, as the compressors lay out several symbol arrays
  if(!x.failed){ std::vector<unsigned char> two(e,e+len); two.insert(two.end(),b,b+len); two.resize(two.size()+8); const unsigned char* r=two.data(); free(Huffman_decode_tree_and_data(states,n,r)); int* d2=Huffman_decode_tree_and_data(states,n,r); if(n&&memcmp(d2,d,n*sizeof(int))) x.fail("second","the second of two adjacent arrays decodes differently"); free(d2); }
  free(d); free(e); free(b);
  if(x.failed||!n) return;
  // the older interface
  HuffmanTree* h=createHuffmanTree(states); unsigned char* o=0; size_t os=0; encode_withTree(h,in,n,&o,&os); SZ_ReleaseHuffman(h);
  size_t cap=0; env_check_live(o,&cap); if(os>cap){ x.fail("old:size","%zu symbols: reports %zu bytes in a block of %zu",n,os,cap); return; }
  int* d3=(int*)malloc(n*sizeof(int)); h=createHuffmanTree(states); decode_withTree(h,o,n,d3); SZ_ReleaseHuffman(h); for(size_t i=0;i<n;i++) if(d3[i]!=s[i]){ x.fail("old:symbol","%zu states, %zu symbols: symbol %zu is %d, decode_withTree gives %d",states,n,i,s[i],d3[i]); break; }
  free(d3); free(o); }
static std::vector<Space> spaces(bool thorough){ std::vector<Space> sp;
  // every sequence up to a length over every alphabet size, symbols spread over the states in three ways
  struct A { int k,len,tier; }; static const A as[]={{1,12,0},{2,12,0},{3,8,0},{4,7,0},{5,6,0},{6,5,0},{2,17,1},{3,11,1},{4,9,1},{5,8,1},{8,6,1}};
  for(auto a: as){ if(a.tier&&!thorough) continue; u64 per=0; for(int l=0;l<=a.len;l++) per+=ipow(a.k,l);
    sp.push_back({"seq/"+std::to_string(a.k)+"x"+std::to_string(a.len),"every sequence of at most "+std::to_string(a.len)+" symbols out of "+std::to_string(a.k)+", spread over the states in 3 ways",per*3,[=](u64 i,Ctx& x){ Digits d(i); int w=d.take(3); int l=0; while(d.v>=ipow(a.k,l)){ d.v-=ipow(a.k,l); l++; } std::vector<int> s; size_t st= w==0?a.k+1:w==1?2048:131072; for(int q=0;q<l;q++){ int c=d.take(a.k); s.push_back(w==0?c:w==1?c*251:32768+c-a.k/2); } check(st,s,x); }}); }
  // every frequency vector: tree shapes, including ties and zero counts
  { static const int F[]={0,1,2,3,5,13}; int k=thorough?8:6; sp.push_back({"freq","every assignment of counts {0,1,2,3,5,13} to "+std::to_string(k)+" symbols, grouped and dealt out in turn",ipow(6,k)*2,[=](u64 i,Ctx& x){ Digits d(i); int w=d.take(2); std::vector<int> c; for(int q=0;q<k;q++) c.push_back(F[d.take(6)]); std::vector<int> s; if(w==0) for(int q=0;q<k;q++) s.insert(s.end(),c[q],q*3+1); else for(bool more=true;more;){ more=false; for(int q=0;q<k;q++) if(c[q]-->0){ s.push_back(q*3+1); more=true; } } check(64,s,x); }}); }
  // number of different symbols across the boundaries of the tree's storage (1-, 2- and 4-byte node numbers), and lengths across byte boundaries
  { std::vector<int> ks; for(int k=1;k<=(thorough?700:300);k++) ks.push_back(k); for(int k: {511,512,513,1023,1024,1025,4095,4096}) ks.push_back(k);
    sp.push_back({"symbols","1..300 (thorough 700) and selected numbers of different symbols x 4 frequency profiles x tails",ks.size()*4*3,[=](u64 i,Ctx& x){ Digits d(i); int prof=d.take(4),tail=d.take(3); int k=ks[d.v]; std::vector<int> s; for(int q=0;q<k;q++){ int m= prof==0?1:prof==1?1+q%3:prof==2?(q==0?2*k:1):1+(int)(1000.0/(q+1)); for(int z=0;z<m;z++) s.push_back(prof==3?k-1-q:q); } for(int z=0;z<tail;z++) s.push_back(0); check(prof==1?k+1:std::max(2*k,2048),s,x); }}); }
  { std::vector<int> ks={127,128,129,32766,32767,32768,32769,65535,65536}; if(thorough) for(int k: {16384,20000,40000,131071}) ks.push_back(k);
    sp.push_back({"wide","numbers of different symbols around 128 and 32768 x 2 profiles",ks.size()*2,[=](u64 i,Ctx& x){ int k=ks[i/2]; std::vector<int> s; for(int q=0;q<k;q++){ s.push_back(q); if(i%2&&q%7==0) for(int z=0;z<5;z++) s.push_back((q*31)%k); } check(131072,s,x); }}); }
  // deep trees: Fibonacci counts give one level per symbol
  { int K=thorough?32:26; sp.push_back({"deep","Fibonacci counts of 2.."+std::to_string(K)+" symbols, ascending and descending",(u64)(K-1)*2,[=](u64 i,Ctx& x){ int k=2+i/2; std::vector<int> s; long a=1,b=1; for(int q=0;q<k;q++){ s.insert(s.end(),a,i%2?q:k-1-q); long c=a+b; a=b; b=c; } std::vector<int> t; size_t m=s.size(); size_t step=m%2?2:1; for(size_t q=0;q<m;q++) t.push_back(s[(q*step)%m]); check(64,t,x); }}); }
  // lengths
  { int N=thorough?2000:400; sp.push_back({"length","every length 0.."+std::to_string(N)+" x 5 symbol patterns",(u64)(N+1)*5,[=](u64 i,Ctx& x){ int n=i/5,pt=i%5; std::vector<int> s; for(int q=0;q<n;q++) s.push_back(pt==0?7:pt==1?q%2:pt==2?(q*q)%5:pt==3?(q%50==49?q:3):(q*2654435761u>>20)%1000); check(2048,s,x); }}); }
  // many symbols: limits of counters
  { static const int L[]={32767,32768,65535,65536,65537,131071,262145,1048577,16777215,16777217}; static const int K[]={1,2,3,40,1000}; int nl=thorough?10:8; auto f=[](u64 i,Ctx& x){ Digits d(i); int k=K[d.take(5)],prof=d.take(3); int n=L[d.v]; std::vector<int> s(n); for(int q=0;q<n;q++){ unsigned h=q*2654435761u; h^=h>>15; s[q]=prof==0?q%k:prof==1?(h%97==0?h/97%k:0):(int)((long)q*k/n); } check(prof==1?131072:2048,s,x); };
    sp.push_back({"long",std::to_string(nl)+" lengths from 32767 x 5 numbers of different symbols x 3 profiles",(u64)nl*15,f}); if(!thorough) sp.push_back({"long/16777217","16777217 symbols of two kinds",1,[=](u64,Ctx& x){ f(9*15+1,x); }}); }
  return sp; }
int main(int c,char** v){ return explore_main(c,v,"huffman","",spaces); }
