// Tetrahedral meshes for the 3D codecs.
#pragma once
#include "run2.hpp"
namespace mc {
// Kuhn subdivision of a cube: one tetrahedron per order of the axes
static const int kuhn[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
inline void kuhn_ids(int t,size_t i,size_t j,size_t k,size_t r2,size_t r3,size_t id[4]){ size_t p[3]={i,j,k}; id[0]=(p[0]*r2+p[1])*r3+p[2]; for(int s=0;s<3;s++){ p[kuhn[t][s]]++; id[s+1]=(p[0]*r2+p[1])*r3+p[2]; } }
struct Mesh { int n,m; std::vector<double> P; std::vector<int> tets; std::string name; };
// a box of a x b x c vertices; mode 0 as is, 1 vertices renumbered and tetrahedra turned around, 2 every other tetrahedron (leaves isolated vertices)
inline Mesh box(size_t a,size_t b,size_t c,int mode){ Mesh M; M.n=a*b*c; M.name="box "+std::to_string(a)+"x"+std::to_string(b)+"x"+std::to_string(c)+(mode==1?" renumbered":mode==2?" half":""); std::vector<int> num(M.n); for(int i=0;i<M.n;i++) num[i]=i;
  if(mode==1) for(int i=M.n-1;i>0;i--) std::swap(num[i],num[hash3(i,M.n,3)%(i+1)]);
  M.P.resize(3*M.n); for(size_t i=0;i<a;i++) for(size_t j=0;j<b;j++) for(size_t k=0;k<c;k++){ int v=num[(i*b+j)*c+k]; M.P[3*v]=k; M.P[3*v+1]=j; M.P[3*v+2]=i; }
  int cnt=0; for(size_t i=0;i+1<a;i++) for(size_t j=0;j+1<b;j++) for(size_t k=0;k+1<c;k++) for(int t=0;t<6;t++){ if(mode==2&&(cnt++%2)) continue; size_t id[4]; kuhn_ids(t,i,j,k,b,c,id); int rot=mode==1?hash3(i*7+j,k,t)%4:0; for(int q=0;q<4;q++) M.tets.push_back(num[id[(q+rot)%4]]); }
  M.m=M.tets.size()/4; return M; }
template<class T> struct TripU {
  const Mesh* M; std::vector<T> D,P; double eb; unsigned char* s; size_t size; T* d;
  TripU():s(0),d(0){}
  bool go(){ P.assign(M->P.begin(),M->P.end()); size=0; s=sz_compress_cp_preserve_3d_unstructured<T>(M->n,P.data(),D.data(),M->m,M->tets.data(),size,eb); if(!s) return false; env_check_live(s,0); d=0; sz_decompress_cp_preserve_3d_unstructured<T>(s,M->n,P.data(),M->m,M->tets.data(),d); if(!d) return false; env_check_live(d,0); return true; }
  void done(){ mc_release(s); mc_release(d); s=0; d=0; }
  bool lossless() const { return !memcmp(d,D.data(),3*M->n*sizeof(T)); }
  u64 sig() const { u64 h=fnv(M->name.data(),M->name.size()); h=fnv(&eb,8,h); return fnv(D.data(),D.size()*sizeof(T),h); }
  void describe(Ctx& x){ if(!x.describe) return; x.say("unstructured<%s> %s bound %g\n  data =%s\n",TName<T>::s(),M->name.c_str(),eb,show(D.data(),3*M->n).c_str()); if(d) x.say("  stream %zu bytes\n  data'=%s\n",size,show(d,3*M->n).c_str()); }
};
}
