/* Common harness interface.  One harness source serves three back ends:
 *   VF_CBMC  : CBMC (goto-cc)           - ND_* are nondeterministic
 *   VF_SYMX      : symx engine (LLVM IR)    - ND_* are fresh symbolic bit-vectors
 *   otherwise    : native replay            - ND_* are read from a value file
 */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>

uint64_t vf_nd(unsigned bits);      /* arbitrary value of that width */
uint64_t vf_pick(unsigned n);         /* arbitrary value < n, one path per value */
uint64_t vf_concretize(uint64_t v);
void vf_assume(int c);
void vf_check(int c, const char *what);  /* property obligation */
void vf_reached(const char *what);       /* vacuity witness */
void vf_note(const char *what, uint64_t v); /* observation, compared in replay */
void *vf_malloc(size_t n);
void vf_free(void *p);

#ifdef VF_CBMC
extern unsigned long long vf_nd_last;
unsigned long long nondet_ull(void);
static inline uint64_t vf_nd_i(unsigned bits)
{
    unsigned long long v = nondet_ull();
    if (bits < 64)
        v &= ((1ULL << bits) - 1);
    vf_nd_last = v;
    return v;
}
#define vf_nd(b) vf_nd_i(b)
static inline uint64_t vf_pick_i(unsigned n) { uint64_t v = vf_nd_i(64); __CPROVER_assume(v < n); return v; }
#define vf_pick(n) vf_pick_i(n)
#define vf_concretize(v) (v)
#define vf_assume(c) __CPROVER_assume(c)
#define vf_check(c, w) __CPROVER_assert((c), "VF:" w)
#define vf_reached(w) __CPROVER_assert(0, "REACH:" w)
#define vf_note(w, v) ((void)(v))
#endif

#define ND_U8() ((uint8_t)vf_nd(8))
#define ND_U16() ((uint16_t)vf_nd(16))
#define ND_U32() ((uint32_t)vf_nd(32))
#define ND_U64() ((uint64_t)vf_nd(64))
#define ND_BOOL() ((int)vf_nd(1))
static inline size_t vf_size(size_t max)
{
    size_t v = (size_t)vf_nd(16);
    vf_assume(v <= max);
    return v;
}
static inline void vf_bytes(void *p, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++)
        ((uint8_t *)p)[i] = (uint8_t)vf_nd(8);
}
#endif
