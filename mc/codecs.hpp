// Table of the library's public compressor/decompressor pairs.
#pragma once
#include "mc.hpp"
#include "sz_compress_3d.hpp"
#include "sz_decompress_3d.hpp"
#include "sz_compress_pwr.hpp"
#include "sz_decompress_pwr.hpp"
#include "sz_compress_cp_preserve_2d.hpp"
#include "sz_decompress_cp_preserve_2d.hpp"
#include "sz_compress_cp_preserve_3d.hpp"
#include "sz_decompress_cp_preserve_3d.hpp"
#include "sz_lossless.hpp"
namespace mc {
enum Bound { REL, ABS };
enum Cp { CP_NONE, CP_CELL, CP_TYPE, CP_BILINEAR };
template<class T> struct Vec2 {
  const char* name; Bound bound; bool log; Cp cp;
  unsigned char* (*comp)(const T*,const T*,size_t,size_t,size_t&,bool,double);
  void (*dec)(const unsigned char*,size_t,size_t,T*&,T*&);
};
template<class T> inline const std::vector<Vec2<T>>& vec2(){
  static const std::vector<Vec2<T>> v={
    {"offline",REL,false,CP_TYPE,sz_compress_cp_preserve_2d_offline<T>,sz_decompress_cp_preserve_2d_offline<T>},
    {"offline_log",REL,true,CP_TYPE,sz_compress_cp_preserve_2d_offline_log<T>,sz_decompress_cp_preserve_2d_offline_log<T>},
    {"online",REL,false,CP_TYPE,sz_compress_cp_preserve_2d_online<T>,sz_decompress_cp_preserve_2d_online<T>},
    {"online_log",REL,true,CP_TYPE,sz_compress_cp_preserve_2d_online_log<T>,sz_decompress_cp_preserve_2d_online_log<T>},
    {"online_abs",ABS,false,CP_CELL,sz_compress_cp_preserve_2d_online_abs<T>,sz_decompress_cp_preserve_2d_online<T>},
    {"online_abs_relax_FN",ABS,false,CP_CELL,sz_compress_cp_preserve_2d_online_abs_relax_FN<T>,sz_decompress_cp_preserve_2d_online<T>},
    {"sz3_online_abs",ABS,false,CP_CELL,sz3_compress_cp_preserve_2d_online_abs<T>,sz3_decompress_cp_preserve_2d_online<T>},
    {"bilinear_online_log",REL,true,CP_BILINEAR,sz_compress_cp_preserve_2d_bilinear_online_log<T>,sz_decompress_cp_preserve_2d_online_log<T>},
  }; return v; }
template<class T> struct Vec3 {
  const char* name; Bound bound; bool log; 
  unsigned char* (*comp)(const T*,const T*,const T*,size_t,size_t,size_t,size_t&,double);
  void (*dec)(const unsigned char*,size_t,size_t,size_t,T*&,T*&,T*&);
};
template<class T> unsigned char* c3_offline_log(const T*u,const T*v,const T*w,size_t a,size_t b,size_t c,size_t& s,double e){ return sz_compress_cp_preserve_3d_offline_log<T>(u,v,w,a,b,c,s,false,e); }
template<class T> unsigned char* c3_online_log(const T*u,const T*v,const T*w,size_t a,size_t b,size_t c,size_t& s,double e){ return sz_compress_cp_preserve_3d_online_log<T>(u,v,w,a,b,c,s,false,e); }
template<class T> unsigned char* c3_online_abs(const T*u,const T*v,const T*w,size_t a,size_t b,size_t c,size_t& s,double e){ return sz_compress_cp_preserve_3d_online_abs<T>(u,v,w,a,b,c,s,e); }
template<class T> inline const std::vector<Vec3<T>>& vec3(){
  static const std::vector<Vec3<T>> v={
    {"3d_offline_log",REL,true,c3_offline_log<T>,sz_decompress_cp_preserve_3d_online_log<T>},
    {"3d_online_log",REL,true,c3_online_log<T>,sz_decompress_cp_preserve_3d_online_log<T>},
    {"3d_online_abs",ABS,false,c3_online_abs<T>,sz_decompress_cp_preserve_3d_online_abs<T>},
  }; return v; }
template<class T> struct TName; template<> struct TName<float>{ static const char* s(){return "float";} }; template<> struct TName<double>{ static const char* s(){return "double";} };
template<class T> inline bool bits_equal(T a,T b){ return memcmp(&a,&b,sizeof(T))==0; }
template<class T> inline std::string show(const T* a,size_t n){ std::string s="["; char b[40]; for(size_t i=0;i<n&&i<64;i++){ snprintf(b,40,"%s%.9g",i?",":"",(double)a[i]); s+=b; } if(n>64) s+=",..."; return s+"]"; }
}
