#include "vf.h"
#include <stdlib.h>
#ifdef VF_CBMC
unsigned long long vf_nd_last;
void *vf_malloc(size_t n) { return malloc(n); }
void vf_free(void *p) { free(p); }
#endif
