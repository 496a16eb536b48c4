// Interposed with -Wl,--wrap on the objects of the library under test and of the explorer.
#include "env.hpp"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/mman.h>
#include <new>
namespace mc {
EnvError env_error; long env_live; unsigned char env_fill = 0xA5; unsigned long env_allocs; bool env_fill_big=false;
void (*env_point)(int);
void env_reset(){ memset(&env_error,0,sizeof env_error); env_live=0; env_allocs=0; }
}
using namespace mc;
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_memset(void*,int,size_t); void* __real_memcpy(void*,const void*,size_t);
struct Hdr { size_t size; uint32_t magic; uint32_t pad; unsigned char under[16]; };
static const size_t BIG = 1<<16, PF = 1<<18, GUARD = 64; static const unsigned char CAN = 0xC7;
struct Big { char* p; size_t cap, size; bool fresh, used; };
static Big big[256]; static int nb; static unsigned char vec[1<<17];
static inline void point(int k){ if(env_point) env_point(k); }
static Big* findbig(const void* p){ for(int i=0;i<nb;i++) if(big[i].p==p) return &big[i]; return 0; }
static bool canary(const unsigned char* c, size_t n, size_t size, int kind){
  for(size_t i=0;i<n;i++) if(c[i]!=CAN){ if(!env_error.kind){ env_error.kind=kind; env_error.off=i; env_error.size=size; } return false; }
  return true; }
void* __wrap_malloc(size_t n){
  point(1); env_live++; env_allocs++;
  if(n<BIG){
    Hdr* h=(Hdr*)__real_malloc(sizeof(Hdr)+n+GUARD); h->size=n; h->magic=0xB10C; __real_memset(h->under,CAN,16);
    unsigned char* p=(unsigned char*)(h+1); __real_memset(p,env_fill,n); __real_memset(p+n,CAN,GUARD); return p; }
  size_t c=BIG; while(c<n+GUARD) c*=2;
  Big* b=0; for(int i=0;i<nb;i++) if(!big[i].used&&big[i].cap==c){ b=&big[i]; break; }
  if(!b){ if(nb==256){ fprintf(stderr,"env: too many big blocks\n"); _exit(99);} b=&big[nb++]; b->cap=c; b->p=(char*)mmap(0,c,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(b->p==MAP_FAILED){ perror("mmap"); _exit(98);} }
  b->used=true; b->fresh=true; b->size=n; __real_memset(b->p+n,CAN,GUARD);
  if(env_fill_big) { __real_memset(b->p,env_fill,n); }
  return b->p; }
void __wrap_free(void* p){
  point(2); if(!p) return;
  if(Big* b=findbig(p)){ if(!b->used){ if(!env_error.kind) env_error.kind=3; return; } canary((unsigned char*)b->p+b->size,GUARD,b->size,1); b->used=false; env_live--; return; }
  Hdr* h=(Hdr*)p-1; if(h->magic!=0xB10C){ if(!env_error.kind) env_error.kind=3; return; }
  canary(h->under,16,h->size,2); canary((unsigned char*)p+h->size,GUARD,h->size,1);
  h->magic=0xDEAD; __real_memset(p,0xDD,h->size<4096?h->size:4096); env_live--; __real_free(h); }
void* __wrap_memset(void* p,int v,size_t n){
  if(n>=(1u<<22)&&v==0) if(Big* b=findbig(p)) if(b->fresh&&b->used&&n<=b->size){
    // zero the prefix for real, drop whatever else is resident: same result as memset
    b->fresh=false; __real_memset(p,0,PF); char* q=(char*)p+PF; size_t m=b->cap-PF;
    if(mincore(q,m,vec)==0){ unsigned char any=0; size_t k=m/4096; for(size_t j=0;j<k;j++) any|=vec[j]; if(any&1) madvise(q,m,MADV_DONTNEED); } else __real_memset(p,0,n);
    if(n!=b->size) { /* bytes past n were arbitrary anyway */ }
    __real_memset(b->p+b->size,CAN,GUARD); return p; }
  return __real_memset(p,v,n); }
void* __wrap_calloc(size_t a,size_t b){ size_t n=a*b; void* p=__wrap_malloc(n); __wrap_memset(p,0,n); return p; }
void* __wrap_realloc(void* p,size_t n){ if(!p) return __wrap_malloc(n); size_t o=env_block_size(p); void* q=__wrap_malloc(n); __real_memcpy(q,p,o<n?o:n); __wrap_free(p); return q; }
void* __wrap_memcpy(void* d,const void* s,size_t n){ point(3); return __real_memcpy(d,s,n); }
int __wrap_printf(const char*,...){ point(4); return 0; }
int __wrap_puts(const char*){ point(4); return 0; }
int __wrap_putchar(int){ point(4); return 0; }
void __wrap_exit(int c){ if(!env_error.kind){ env_error.kind=4; env_error.size=c; } _exit(77); }
}
namespace mc {
size_t env_block_size(const void* p){ if(Big* b=findbig(p)) return b->size; return ((const Hdr*)p-1)->size; }
bool env_check_live(const void* p,size_t* size){
  if(Big* b=findbig(p)){ if(size)*size=b->size; return canary((unsigned char*)b->p+b->size,GUARD,b->size,1); }
  const Hdr* h=(const Hdr*)p-1; if(size)*size=h->size; if(h->magic!=0xB10C) return false;
  return canary(h->under,16,h->size,2) && canary((const unsigned char*)p+h->size,GUARD,h->size,1); }
}
// C++ allocations, everywhere in the process, come from the same controlled heap
void* operator new(size_t n){ return __wrap_malloc(n); }
void* operator new[](size_t n){ return __wrap_malloc(n); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { return __wrap_malloc(n); }
void* operator new[](size_t n,const std::nothrow_t&) noexcept { return __wrap_malloc(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p,size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p,size_t) noexcept { __wrap_free(p); }
