/* Stand-ins for ParMETIS and Zoltan (also linked into native replays).  They ask the library for the graph through
   the real callbacks with buffers of exactly the announced sizes, show it to the harness, and return the parts the
   harness names for each vertex. */
#include <mpi.h>
#include <stdlib.h>
#include <parmetis.h>
#include <zoltan.h>
#include "vf.h"
typedef struct { int isHyper, nv, npins, fmt, ne, np; unsigned* vg; unsigned* vl; float* vw; unsigned* hv; int* ptr; unsigned* he; unsigned* eg; unsigned* el; float* ew; int* deg; unsigned** nb; int** own; float** nw; int ownPos; MPI_Comm comm; } VfZoltan;
__attribute__((weak)) void vf_zoltan_graph(VfZoltan* z) {}
__attribute__((weak)) int vf_zoltan_part(unsigned gid) { return 0; }
__attribute__((weak)) int ParMETIS_V3_PartKway(idx_t* d, idx_t* x, idx_t* a, idx_t* vw, idx_t* aw, idx_t* wf, idx_t* nf, idx_t* nc, idx_t* np, real_t* tp, real_t* ub, idx_t* o, idx_t* cut, idx_t* part, MPI_Comm* c) { vf_fail("ParMETIS called"); return 1; }
typedef struct { MPI_Comm comm; void (*fn[64])(); void* data[64]; int hyper, parts; } Z;
int Zoltan_Initialize(int a, char** b, float* v) { *v = 3; return ZOLTAN_OK; }
struct Zoltan_Struct* Zoltan_Create(MPI_Comm c) { Z* z = (Z*)calloc(1, sizeof(Z)); z->comm = c; z->parts = -1; return (struct Zoltan_Struct*)z; }
void Zoltan_Destroy(struct Zoltan_Struct** z) { free(*z); *z = 0; }
static int eq(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
int Zoltan_Set_Param(struct Zoltan_Struct* zz, const char* n, const char* v) { Z* z = (Z*)zz; if (eq(n, "LB_METHOD")) z->hyper = eq(v, "HYPERGRAPH"); if (eq(n, "NUM_GLOBAL_PARTS")) { z->parts = 0; while (*v) z->parts = z->parts * 10 + *v++ - '0'; } return ZOLTAN_OK; }
int Zoltan_Set_Fn(struct Zoltan_Struct* zz, ZOLTAN_FN_TYPE t, void (*f)(), void* d) { Z* z = (Z*)zz; if ((int)t < 0 || (int)t >= 64) vf_fail("unknown callback"); z->fn[t] = f; z->data[t] = d; return ZOLTAN_OK; }
static void* need(int n, int s) { return malloc(n > 0 ? (size_t)n * s : 1); }
int Zoltan_LB_Partition(struct Zoltan_Struct* zz, int* changes, int* ng, int* nl, int* ni, ZOLTAN_ID_PTR* ig, ZOLTAN_ID_PTR* il, int** ip, int** it, int* nx, ZOLTAN_ID_PTR* xg, ZOLTAN_ID_PTR* xl, int** xp, int** xt) {
  Z* z = (Z*)zz; int err = ZOLTAN_OK; VfZoltan g; g.isHyper = z->hyper; g.comm = z->comm; int me; MPI_Comm_rank(z->comm, &me); MPI_Barrier(z->comm);
  g.nv = ((int (*)(void*, int*))z->fn[ZOLTAN_NUM_OBJ_FN_TYPE])(z->data[ZOLTAN_NUM_OBJ_FN_TYPE], &err); g.np = z->parts;
  g.vg = (unsigned*)need(g.nv, 4); g.vl = (unsigned*)need(g.nv, 4); g.vw = (float*)need(g.nv, 4);
  if (g.nv > 0) ((void (*)(void*, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR, int, float*, int*))z->fn[ZOLTAN_OBJ_LIST_FN_TYPE])(z->data[ZOLTAN_OBJ_LIST_FN_TYPE], 1, 1, g.vg, g.vl, 1, g.vw, &err);
  g.hv = g.he = g.eg = g.el = 0; g.ptr = 0; g.ew = 0; g.deg = 0; g.nb = 0; g.own = 0; g.nw = 0; g.ne = g.npins = 0;
  if (z->hyper) {
    int n = 0; ((void (*)(void*, int*, int*, int*, int*))z->fn[ZOLTAN_HG_SIZE_CS_FN_TYPE])(z->data[ZOLTAN_HG_SIZE_CS_FN_TYPE], &n, &g.npins, &g.fmt, &err);
    if (n != g.nv) vf_fail("number of vertex lists differs from the number of vertices");
    g.hv = (unsigned*)need(n, 4); g.ptr = (int*)need(n + 1, 4); g.he = (unsigned*)need(g.npins, 4);
    if (n > 0) { ((void (*)(void*, int, int, int, int, ZOLTAN_ID_PTR, int*, ZOLTAN_ID_PTR, int*))z->fn[ZOLTAN_HG_CS_FN_TYPE])(z->data[ZOLTAN_HG_CS_FN_TYPE], 1, n, g.npins, g.fmt, g.hv, g.ptr, g.he, &err); g.ptr[n] = g.npins; }
    ((void (*)(void*, int*, int*))z->fn[ZOLTAN_HG_SIZE_EDGE_WTS_FN_TYPE])(z->data[ZOLTAN_HG_SIZE_EDGE_WTS_FN_TYPE], &g.ne, &err);
    g.eg = (unsigned*)need(g.ne, 4); g.el = (unsigned*)need(g.ne, 4); g.ew = (float*)need(g.ne, 4);
    if (g.ne > 0) ((void (*)(void*, int, int, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR, float*, int*))z->fn[ZOLTAN_HG_EDGE_WTS_FN_TYPE])(z->data[ZOLTAN_HG_EDGE_WTS_FN_TYPE], 1, 1, g.ne, 1, g.eg, g.el, g.ew, &err);
  } else {
    g.deg = (int*)need(g.nv, sizeof(int)); g.nb = (unsigned**)need(g.nv, sizeof(void*)); g.own = (int**)need(g.nv, sizeof(void*)); g.nw = (float**)need(g.nv, sizeof(void*));
    for (int i = 0; i < g.nv; i++) { g.deg[i] = ((int (*)(void*, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR, int*))z->fn[ZOLTAN_NUM_EDGES_FN_TYPE])(z->data[ZOLTAN_NUM_EDGES_FN_TYPE], 1, 1, &g.vg[i], &g.vl[i], &err);
      int d = g.deg[i]; g.nb[i] = (unsigned*)need(d, 4); g.own[i] = (int*)need(d, 4); g.nw[i] = (float*)need(d, 4);
      if (d > 0) ((void (*)(void*, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR, int*, int, float*, int*))z->fn[ZOLTAN_EDGE_LIST_FN_TYPE])(z->data[ZOLTAN_EDGE_LIST_FN_TYPE], 1, 1, &g.vg[i], &g.vl[i], g.nb[i], g.own[i], 1, g.nw[i], &err); }
  }
  vf_zoltan_graph(&g); *changes = 1; *ng = *nl = 1; *ni = 0; int n = 0;
  *xg = (ZOLTAN_ID_PTR)need(g.nv, 4); *xl = (ZOLTAN_ID_PTR)need(g.nv, 4); *xp = (int*)need(g.nv, 4); *xt = (int*)need(g.nv, 4);
  for (int i = g.nv - 1; i >= 0; i--) { int p = vf_zoltan_part(g.vg[i]); if (p != me) { (*xg)[n] = g.vg[i]; (*xl)[n] = g.vl[i]; (*xp)[n] = p; (*xt)[n] = p; n++; } }
  *nx = n; free(g.vg); free(g.vl); free(g.vw); free(g.hv); free(g.ptr); free(g.he); free(g.eg); free(g.el); free(g.ew);
  if (g.deg) { for (int i = 0; i < g.nv; i++) { free(g.nb[i]); free(g.own[i]); free(g.nw[i]); } free(g.deg); free(g.nb); free(g.own); free(g.nw); }
  return ZOLTAN_OK; }
int Zoltan_LB_Free_Part(ZOLTAN_ID_PTR* g, ZOLTAN_ID_PTR* l, int** p, int** t) { free(*g); free(*l); free(*p); free(*t); *g = *l = 0; *p = *t = 0; return ZOLTAN_OK; }
