#include <stdlib.h>
extern "C" void mc_release(void* p){ free(p); }
