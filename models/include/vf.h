/* Interface between a harness and the engine (symbolic run) or the native replay runtime. */
#ifndef VF_H
#define VF_H
#ifdef __cplusplus
extern "C" {
#endif
long vf_range(const char* name, long lo, long hi);      /* any integer in [lo,hi] */
unsigned long vf_bits(const char* name, int bits);      /* any bit pattern */
void vf_assume(int cond);
void vf_check(int cond, const char* msg);
void vf_fail(const char* msg);
void vf_reach(const char* msg);                         /* reachability witness */
int vf_self(void);
int vf_size(void);
void vf_yield(void);
void vf_switch(int p);
int vf_live(int p);
void vf_progress(void);
long vf_conc(long x);                                   /* fork over the feasible values */
long vf_param(const char* name, long dflt);             /* concrete configuration parameter */
long vf_choose(long n);                                 /* schedule choice in [0,n) */
void vf_end(void);
int vf_issym(long x);
void vf_expect_abort(void);                             /* from here on the program may end itself with abort() */
long vf_mark(void);                                      /* a point in time for vf_leaks */
void vf_leaks(long mark);                               /* all memory this process took since then was given back */
#ifdef __cplusplus
}
#include <cstdio>
static inline const char* vf_nm(char* b, const char* p, long i, long j = -1, long k = -1) {
  char* o = b; while (*p) *o++ = *p++;
  long a[3] = {i, j, k};
  for (int q = 0; q < 3; q++) { if (q && a[q] < 0) break; if (q) *o++ = '_'; long v = a[q]; char t[20]; int n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); while (n) *o++ = t[--n]; }
  *o = 0; return b; }
static inline long vf_r(const char* p, long i, long lo, long hi) { char b[64]; return vf_range(vf_nm(b, p, i), lo, hi); }
static inline long vf_r(const char* p, long i, long j, long lo, long hi) { char b[64]; return vf_range(vf_nm(b, p, i, j), lo, hi); }
static inline long vf_r3(const char* p, long i, long j, long k, long lo, long hi) { char b[64]; return vf_range(vf_nm(b, p, i, j, k), lo, hi); }
/* entry of a harness; with leak=1 everything allocated in it (MPI messages under way included) has to be freed at its end */
#include <mpi.h>
#define VF_MAIN() static void vf_body(); extern "C" void vf_main() { long m = vf_mark(); vf_body(); if (vf_param("leak", 0)) { MPI_Barrier(MPI_COMM_WORLD); vf_leaks(m); } } static void vf_body()
#endif
#endif
