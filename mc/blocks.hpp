// The block-based scalar compressors behind one interface.
#pragma once
#include "codecs.hpp"
#include "fields.hpp"
#include "run2.hpp"
namespace mc {
enum BlockKind { B2F, B3F, B3D, B2EF, B2ED, BPF, BPEF };
inline const char* block_name(int k){ static const char* n[]={"2d<float>","3d<float>","3d<double>","2d_with_eb<float>","2d_with_eb<double>","2d_pwr<float>","2d_pwr_with_eb<float>"}; return n[k]; }
inline bool block_is3(int k){ return k==B3F||k==B3D; }
inline bool block_eb(int k){ return k==B2EF||k==B2ED||k==BPEF; }
inline bool block_pwr(int k){ return k==BPF||k==BPEF; }
template<class T> struct Block {
  int kind; std::vector<T> D; std::vector<double> E; size_t r1,r2,r3; double prec; int bsize; bool indep; unsigned char* s; size_t size; T* d; double* aux;
  Block():r1(1),r2(1),r3(1),prec(0),bsize(0),indep(false),s(0),d(0),aux(0){}
  size_t n() const { return r1*r2*r3; }
  bool go();
  bool compress(); bool decompress(const unsigned char* from);
  void done(){ mc_release(s); mc_release(d); mc_release(aux); s=0; d=0; aux=0; }
  double eb(size_t i) const { return block_eb(kind)?E[i]:prec; }
  u64 sig() const { u64 h=fnv(&kind,4); h=fnv(&r2,8,h); h=fnv(&r3,8,h); h=fnv(&bsize,4,h); h=fnv(&indep,1,h); h=fnv(&prec,8,h); if(!E.empty()) h=fnv(E.data(),E.size()*8,h); return fnv(D.data(),D.size()*sizeof(T),h); }
  void describe(Ctx& x){ if(!x.describe) return; x.say("sz_compress_%s %zux%zu%s block %d%s ",block_name(kind),r1,r2,block_is3(kind)?("x"+std::to_string(r3)).c_str():"",bsize,indep?" independent":""); if(block_eb(kind)) x.say("bounds=%s\n",show(E.data(),E.size()).c_str()); else x.say("bound %g\n",prec); x.say("  data =%s\n",show(D.data(),n()).c_str()); if(d) x.say("  stream %zu bytes\n  data'=%s\n",size,show(d,n()).c_str()); }
};
template<class T> struct BlockFns;
template<> struct BlockFns<float>{ static unsigned char* c(Block<float>& b){ switch(b.kind){ case B2F: return sz_compress_2d<float>(b.D.data(),b.r1,b.r2,b.prec,b.size,b.bsize,b.indep); case B3F: return sz_compress_3d<float>(b.D.data(),b.r1,b.r2,b.r3,b.prec,b.size,b.bsize,b.indep); case B2EF: return sz_compress_2d_with_eb<float>(b.D.data(),b.E.data(),b.r1,b.r2,b.size,b.bsize,b.indep); case BPF: return sz_compress_2d_pwr<float>(b.D.data(),b.r1,b.r2,b.prec,b.size,b.bsize,b.indep); case BPEF: return sz_compress_2d_pwr_with_eb<float>(b.D.data(),b.E.data(),&b.aux,b.r1,b.r2,b.size,b.bsize,b.indep); } return 0; }
  static float* d(Block<float>& b,const unsigned char* s){ switch(b.kind){ case B2F: return sz_decompress_2d<float>(s,b.r1,b.r2); case B3F: return sz_decompress_3d<float>(s,b.r1,b.r2,b.r3); case B2EF: return sz_decompress_2d_with_eb<float>(s,b.E.data(),b.r1,b.r2); case BPF: return sz_decompress_2d_pwr<float>(s,b.r1,b.r2); case BPEF: return sz_decompress_2d_pwr_with_eb<float>(s,b.aux,b.r1,b.r2); } return 0; } };
template<> struct BlockFns<double>{ static unsigned char* c(Block<double>& b){ switch(b.kind){ case B3D: return sz_compress_3d<double>(b.D.data(),b.r1,b.r2,b.r3,b.prec,b.size,b.bsize,b.indep); case B2ED: return sz_compress_2d_with_eb<double>(b.D.data(),b.E.data(),b.r1,b.r2,b.size,b.bsize,b.indep); } return 0; }
  static double* d(Block<double>& b,const unsigned char* s){ switch(b.kind){ case B3D: return sz_decompress_3d<double>(s,b.r1,b.r2,b.r3); case B2ED: return sz_decompress_2d_with_eb<double>(s,b.E.data(),b.r1,b.r2); } return 0; } };
template<class T> bool Block<T>::compress(){ size=0; aux=0; s=BlockFns<T>::c(*this); if(!s) return false; env_check_live(s,0); return true; }
template<class T> bool Block<T>::decompress(const unsigned char* from){ d=BlockFns<T>::d(*this,from); if(!d) return false; env_check_live(d,0); return true; }
template<class T> bool Block<T>::go(){ return compress()&&decompress(s); }
// per-element bounds: a deterministic pattern
inline void ebs(int pat,size_t n,double base,std::vector<double>& E){ E.resize(n); for(size_t i=0;i<n;i++){ uint32_t h=hash3(i,pat,5); switch(pat){ case 0: E[i]=base; break; case 1: E[i]=(i%2)?base:0; break; case 2: E[i]=base*ldexp(1,-(int)(h%12)); break; case 3: E[i]=(h%5==0)?0:base/(1+h%7); break; case 4: E[i]=0; break; case 5: E[i]=i*2<n?base:base*1e-4; break; } } }
enum { NEB=6 };
}
