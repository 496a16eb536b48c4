// Under AddressSanitizer the heap is left to the sanitizer; only the console is silenced.
#include "env.hpp"
#include <string.h>
#include <stdio.h>
namespace mc { EnvError env_error; long env_live; unsigned char env_fill=0; unsigned long env_allocs; bool env_fill_big; void (*env_point)(int);
void env_reset(){ static bool once=false; if(!once){ once=true; if(!freopen("/dev/null","w",stdout)){} } memset(&env_error,0,sizeof env_error); env_live=0; }
bool env_check_live(const void*,size_t* s){ if(s)*s=0; return true; } size_t env_block_size(const void*){ return 0; } }
