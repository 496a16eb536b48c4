// Controlled environment of the code under test: heap, console, process exit.
#pragma once
#include <cstddef>
#include <cstdint>
namespace mc {
struct EnvError { int kind; size_t off; size_t size; };   // 1 overrun after block, 2 underrun, 3 bad free, 4 exit() called
extern EnvError env_error;
extern long env_live;              // blocks the code under test allocated and has not freed
extern unsigned char env_fill;     // what fresh heap memory contains
extern unsigned long env_allocs;
extern bool env_fill_big;          // also fill blocks above the big threshold (slow)
extern void (*env_point)(int kind);// scheduling point callback (null: none)
void env_reset();
void* env_big_check();             // verifies canaries of live blocks
bool env_check_live(const void* p, size_t* size);  // canary of one live block; false if broken
size_t env_block_size(const void* p);
}
