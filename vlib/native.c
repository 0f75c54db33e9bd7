/* Native replay back end: values come from the file named by VF_VALUES. */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *f;
static FILE *out(void);
static FILE *out(void)
{
    static FILE *o;
    if (!o) {
        const char *p = getenv("VF_OUT");
        o = p ? fopen(p, "w") : stderr;
        setvbuf(o, NULL, _IONBF, 0);
    }
    return o;
}
uint64_t vf_nd(unsigned bits)
{
    unsigned long long v = 0;
    if (!f) {
        const char *p = getenv("VF_VALUES");
        f = p ? fopen(p, "r") : NULL;
        if (!f) { fprintf(out(), "NOVALUES\n"); exit(3); }
    }
    if (fscanf(f, "%llu", &v) != 1)
        v = 0;
    if (bits < 64)
        v &= (1ULL << bits) - 1;
    return v;
}
uint64_t vf_pick(unsigned n)
{
    uint64_t v = vf_nd(64);
    if (v >= n) { fprintf(out(), "ASSUME-FALSE\n"); _Exit(4); }
    return v;
}
uint64_t vf_concretize(uint64_t v) { return v; }
void vf_assume(int c)
{
    if (!c) { fprintf(out(), "ASSUME-FALSE\n"); _Exit(4); }
}
void vf_check(int c, const char *what)
{
    if (!c) { fprintf(out(), "FAIL %s\n", what); fprintf(stderr, "VF-FAIL %s\n", what); _Exit(10); }
}
void vf_reached(const char *what) { (void)what; }
void vf_note(const char *what, uint64_t v)
{
    fprintf(out(), "NOTE %s %llu\n", what, (unsigned long long)v);
}
void *vf_malloc(size_t n) { return malloc(n); }
void vf_free(void *p) { free(p); }
extern void vf_main(void);
int main(void)
{
    vf_main();
    fprintf(out(), "DONE\n");
    return 0;
}
