// Splitting onto more processes: the partitioner (a stand-in that answers with any parts) is handed the graph as described,
// its answer is carried out, and the graph afterwards lives on the large communicator.
#include "common.hpp"
#include <engpar.h>
#include <engpar_split_input.h>
#include <parmetis.h>
using namespace engpar;
typedef struct { int isHyper, nv, npins, fmt, ne, np; unsigned* vg; unsigned* vl; float* vw; unsigned* hv; int* ptr; unsigned* he; unsigned* eg; unsigned* el; float* ew; int* deg; unsigned** nb; int** own; float** nw; int ownPos; MPI_Comm comm; } VfZoltan;
static Spec* S; static int meth, et, calls, big, lrank[8], num[MV], part[MV], oth[8][4]; static double tol; // num: position of a vertex among those of its process
static int answer(int v, int n) { if (part[v] < 0) { long a = vf_param("ans", 0); part[v] = a && digit(a, v, S->nv) != 9 ? digit(a, v, S->nv) : (int)vf_conc(vf_r("part", v, 0, n - 1)); } return part[v]; }
static int at(int p, int k) { for (int i = 0; i < S->nv; i++) if (S->own[i] == p && num[i] == k) return i; return -1; }
extern "C" {
int ParMETIS_V3_PartKway(idx_t* d, idx_t* x, idx_t* a, idx_t* vw, idx_t* aw, idx_t* wf, idx_t* nf, idx_t* nc, idx_t* np, real_t* tp, real_t* ub, idx_t* o, idx_t* cut, idx_t* res, MPI_Comm* c) {
  const Spec& s = *S; int n, me, local = meth == 1; MPI_Comm_size(*c, &n); MPI_Comm_rank(*c, &me); calls++; CHECK(meth != 2, "ParMETIS is asked only when it is the method");
  CHECK(n == (local ? 1 : s.P) && me == (local ? 0 : s.me), "the processes that hold the graph, or each one alone, call the partitioner");
  int nl = 0, first[9]; first[0] = 0; for (int i = 0; i < s.nv; i++) nl += s.own[i] == s.me; for (int p = 0; p < n; p++) { int k = 0; for (int i = 0; i < s.nv; i++) k += s.own[i] == (local ? s.me : p); first[p + 1] = first[p] + k; }
  for (int p = 0; p <= n; p++) CHECK(d[p] == first[p], "the vertices are numbered process by process");
  CHECK(*wf == 3 && *nf == 0 && *nc == 1, "one weight per vertex and per edge, numbering from zero"); CHECK(*np == (local ? (int)vf_param("factor", 2) : big), "as many parts as asked for"); CHECK(*ub == (real_t)tol, "the tolerance asked for"); for (int i = 0; i < *np; i++) CHECK(tp[i] == (real_t)(1.0 / *np), "equal parts are asked for"); CHECK(o[0] == 0, "default options");
  CHECK(x[0] == 0, "adjacency starts at zero");
  for (int k = 0; k < nl; k++) { int v = at(s.me, k); CHECK((double)vw[k] == s.vw[v], "vertex weight handed to the partitioner"); CHECK(x[k + 1] >= x[k], "adjacency offsets grow");
    bool seen[MV] = {0}; for (int j = x[k]; j < x[k + 1]; j++) { int q = local ? s.me : -1; if (!local) { for (int p = 0; p < n; p++) if (a[j] >= first[p] && a[j] < first[p + 1]) q = p; CHECK(q >= 0, "a neighbour is a vertex of the graph"); } int u = at(q, a[j] - (local ? 0 : first[q])); CHECK(u >= 0, "a neighbour is a vertex of the graph"); CHECK(u != v, "a vertex is no neighbour of itself"); CHECK(!seen[u], "a neighbour is listed once"); seen[u] = true;
      int m = 0; double w = 0; for (int e = 0; e < s.ne[et]; e++) { bool both; if (s.hg) { both = s.incid(et, e, u) && s.incid(et, e, v); } else both = s.pin[et][e][0] == v && s.pin[et][e][1] == u; if (both) { m++; w += s.ew[et][e]; } }
      CHECK(m > 0, "neighbours share an edge"); CHECK((double)aw[j] == w, "weight of the adjacency is the weight of the shared edges"); }
    for (int u = 0; u < s.nv; u++) { bool nb = false; if (u != v) for (int e = 0; e < s.ne[et]; e++) nb = nb || (s.hg ? s.incid(et, e, u) && s.incid(et, e, v) : s.pin[et][e][0] == v && s.pin[et][e][1] == u); if (local && s.own[u] != s.me) nb = false; CHECK(seen[u] == nb, "every neighbour is listed"); }
    res[k] = answer(v, (int)*np); }
  *cut = 0; return 1; }
void vf_zoltan_graph(VfZoltan* z) { const Spec& s = *S; calls++; int n, me; MPI_Comm_size(z->comm, &n); MPI_Comm_rank(z->comm, &me); CHECK(meth == 2, "Zoltan is asked only when it is the method"); CHECK(n == big, "all processes call the partitioner"); CHECK(z->np == big, "as many parts as asked for"); CHECK((bool)z->isHyper == (bool)s.hg, "the kind of graph is the same on every process");
  int nl = 0; for (int i = 0; i < s.nv; i++) nl += s.own[i] == s.me; CHECK(z->nv == nl, "number of vertices handed over");
  for (int k = 0; k < nl; k++) { int v = s.vidx((long)z->vg[k]); CHECK(v >= 0 && s.own[v] == s.me, "a vertex handed over is held by the process"); for (int j = 0; j < k; j++) CHECK(z->vg[j] != z->vg[k], "a vertex is handed over once"); CHECK((int)z->vl[k] == num[v], "local number of a vertex"); CHECK(z->vw[k] == (float)s.vw[v], "vertex weight handed to the partitioner"); }
  if (s.hg) { int np = 0, ne = 0; for (int e = 0; e < s.ne[0]; e++) { ne += s.edgeHere(0, e); for (int k = 0; k < s.deg[0][e]; k++) np += s.own[s.pin[0][e][k]] == s.me; }
    CHECK(z->npins == np, "the number of pins announced is the number of pins handed over"); CHECK(z->ne == ne, "number of edges handed over");
    bool sv[MV] = {0}; for (int k = 0; k < nl; k++) { int v = s.vidx((long)z->hv[k]); CHECK(v >= 0 && s.own[v] == s.me && !sv[v], "the pins of every vertex are handed over once"); sv[v] = true; int lo = z->ptr[k], hi = k + 1 < nl ? z->ptr[k + 1] : np, dg = 0; for (int e = 0; e < s.ne[0]; e++) dg += s.incid(0, e, v) ? 1 : 0; CHECK(k || lo == 0, "pins start at zero"); CHECK(lo >= 0 && hi - lo == dg && hi <= np, "as many pins as the vertex has edges"); bool se[ME] = {0}; for (int j = lo; j < hi; j++) { int e = s.eidx(0, (long)z->he[j]); CHECK(e >= 0 && s.incid(0, e, v) && !se[e], "a pin of the vertex"); se[e] = true; } }
    bool se[ME] = {0}; for (int k = 0; k < ne; k++) { int e = s.eidx(0, (long)z->eg[k]); CHECK(e >= 0 && s.edgeHere(0, e) && !se[e], "an edge handed over is held by the process"); se[e] = true; CHECK(z->ew[k] == (float)s.ew[0][e], "edge weight handed to the partitioner"); } vf_reach("hyper");
  } else for (int k = 0; k < nl; k++) { int v = s.vidx((long)z->vg[k]); int dg = 0; for (int e = 0; e < s.ne[0]; e++) dg += s.pin[0][e][0] == v; CHECK(z->deg[k] == dg, "degree handed over"); bool used[ME] = {0};
      for (int j = 0; j < dg; j++) { int u = s.vidx((long)z->nb[k][j]); CHECK(u >= 0, "a neighbour is a vertex of the graph"); int m = -1; for (int e = 0; e < s.ne[0]; e++) if (!used[e] && s.pin[0][e][0] == v && s.pin[0][e][1] == u && z->nw[k][j] == (float)s.ew[0][e]) m = m < 0 ? e : m; CHECK(m >= 0, "an edge of the vertex with its weight"); used[m] = true; CHECK(z->own[k][j] == lrank[s.own[u]], "the owner of a neighbour is named by its rank among all processes"); } } }
int vf_zoltan_part(unsigned gid) { return answer(S->vidx((long)gid), big); }
}
VF_MAIN() {
  startup(); int w = vf_self(), W = vf_size(), n = vf_param("parts", 1), om = vf_param("omask", (1 << n) - 1), rev = vf_param("rev", 0), lrev = vf_param("lrev", 0); meth = vf_param("meth", 0); et = vf_param("et", 0); tol = vf_param("tol", 105) / 100.0; calls = 0; bool orig = (om >> w) & 1;
  MPI_Comm small, large = MPI_COMM_WORLD; int lkey[8], skey[8], lof[8]; for (int r = 0; r < W; r++) { lkey[r] = vf_param("lperm", 0) ? digit(vf_param("lperm", 0), r, W) : lrev ? -r : r; skey[r] = vf_param("perm", 0) ? digit(vf_param("perm", 0), r, W) : rev ? -r : r; } // order of the processes in the two communicators
  for (int r = 0; r < W; r++) { lof[r] = 0; for (int q = 0; q < W; q++) lof[r] += lkey[q] < lkey[r]; } lrev = lrev || vf_param("lperm", 0);
  if (lrev) MPI_Comm_split(MPI_COMM_WORLD, 0, lkey[w], &large); MPI_Comm_size(large, &big); int lme; MPI_Comm_rank(large, &lme); CHECK(lme == lof[w], "rank in the large communicator");
  MPI_Comm_split(MPI_COMM_WORLD, orig ? 0 : 1, skey[w], &small); if (vf_param("capi", 0)) cengpar_setftncommunicator(MPI_Comm_c2f(small)); else EnGPar_Switch_Comm(small); CHECK(PCU_Get_Comm() == small, "the library works on the communicator it was switched to");
  int k = 0; for (int r = 0; r < W; r++) if ((om >> r) & 1) { int at = 0; for (int q = 0; q < W; q++) at += ((om >> q) & 1) && skey[q] < skey[r]; lrank[at] = lof[r]; k++; } CHECK(k == n, "processes in the small communicator");
  int capi = vf_param("capi", 0); Spec s; genSpec(s); S = &s; s.me = orig ? PCU_Comm_Self() : -1; for (int i = 0; i < s.nv; i++) { part[i] = -1; num[i] = 0; for (int j = 0; j < i; j++) num[i] += s.own[j] == s.own[i]; }
  if (!s.hg && meth != 2) for (int e = 0; e < s.ne[et]; e++) { bool back = false; for (int f = 0; f < s.ne[et]; f++) back = back || (s.pin[et][f][0] == s.pin[et][e][1] && s.pin[et][f][1] == s.pin[et][e][0]); vf_assume(back); }
  Ngraph* g = createEmptyGraph(); int start[MV], pre = vf_param("pre", 0); for (int i = 0; i < s.nv; i++) start[i] = s.own[i]; // pre: the graph was migrated within the small communicator before
  if (pre) for (int i = 0; i < s.nv; i++) part[i] = i < pre ? (int)vf_conc(vf_r("pre", i, 0, n - 1)) : s.own[i];
  if (orig) { buildGraph(g, s, capi ? 2 : 0); if (pre) { g->setOriginalOwners(); Migration* p = new Migration(g); for (int i = 0; i < s.nv; i++) if (s.own[i] == s.me && part[i] != s.own[i]) p->insert(std::make_pair(g->findGID(s.vg[i]), part[i])); g->migrate(p); } }
  if (pre) for (int i = 0; i < s.nv; i++) { s.own[i] = part[i]; part[i] = -1; }
  if (pre && orig) { int mine[MV + 1]; for (int i = 0; i < s.nv; i++) mine[i] = -1; VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) mine[s.vidx(g->globalID(v))] = g->localID(v); PCU_Comm_Begin(); for (int p = 0; p < n; p++) PCU_Comm_Pack(p, mine, sizeof mine); PCU_Comm_Send(); while (PCU_Comm_Receive()) { int o[MV + 1]; PCU_Comm_Unpack(o, sizeof o); for (int i = 0; i < s.nv; i++) if (o[i] >= 0) num[i] = o[i]; } } // numbering chosen by the migration
  if (orig) { VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) num[s.vidx(g->globalID(v))] = g->localID(v); }
  int F = vf_param("factor", 2); part_t others[4]; if (meth == 1) for (int p = 0; p < n; p++) for (int q = 0; q < F; q++) { oth[p][q] = vf_param("anyoth", 0) ? (int)vf_conc(vf_r("oth", p, q, 0, big - 1)) : (lrank[p] + q * (int)vf_param("stride", 1)) % big; if (s.me == p) others[q] = oth[p][q]; }
  if (capi) { MPI_Fint a = MPI_Comm_c2f(small), b = MPI_Comm_c2f(large); engparInput in = meth == 1 ? cengpar_createLocalSplitInput((ngraph)g, a, b, orig, F, tol, others, et) : cengpar_createGlobalSplitInput((ngraph)g, a, b, orig, tol, et); cengpar_split(in, meth == 0 ? "GLOBAL_PARMETIS" : meth == 1 ? "LOCAL_PARMETIS" : "ZOLTAN_PHG"); }
  else { Input* in = meth == 1 ? createLocalSplitInput(g, small, large, orig, F, tol, others, et) : createGlobalSplitInput(g, small, large, orig, tol, et); CHECK(PCU_Get_Comm() == small, "the partitioner starts from the small communicator"); split(in, meth == 0 ? GLOBAL_PARMETIS : meth == 1 ? LOCAL_PARMETIS : ZOLTAN_PHG); }
  CHECK(calls == (orig || meth == 2 ? 1 : 0), "the partitioner is asked once by every process it concerns");
  CHECK(PCU_Get_Comm() == large, "the library works on the large communicator afterwards");
  int was[MV], nl = 0; bool moved = false; for (int i = 0; i < s.nv; i++) { int own = s.own[i]; if (part[i] < 0) answer(i, meth == 1 ? F : big); was[i] = lrank[start[i]]; nl += was[i] == lme; s.own[i] = meth == 1 ? oth[own][part[i]] : part[i]; moved = moved || s.own[i] != lrank[own]; }
  s.P = big; s.me = lme; verifyGraph(g, s);
  VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) CHECK(g->originalOwner(v) == was[s.vidx(g->globalID(v))], "the original owner is the process that held the vertex before the split");
  if (capi) { GID vs[MV + 1]; part_t ps[MV + 1]; for (int i = 0; i <= MV; i++) { vs[i] = -7; ps[i] = -7; } cengpar_getPartition((ngraph)g, vs, ps, nl); bool sn[MV] = {0}; for (int i = 0; i < nl; i++) { int q = s.vidx(vs[i]); CHECK(q >= 0 && was[q] == lme && !sn[q] && ps[i] == s.own[q], "the C interface tells where every vertex went"); sn[q] = true; } CHECK(vs[nl] == -7 && ps[nl] == -7, "nothing is written beyond the arrays"); cengpar_checkValidity((ngraph)g); }
  PartitionMap* m = g->getPartition(); int c = 0; for (int i = 0; i < s.nv; i++) if (was[i] == lme) { PartitionMap::iterator q = m->find(s.vg[i]); CHECK(q != m->end() && q->second == s.own[i], "the partition map tells where every vertex went"); c++; } CHECK((int)m->size() == c, "the partition map holds nothing else"); delete m;
  if (moved) vf_reach("moved"); logEnd(); vf_reach("end"); destroyGraph(g); PCU_Switch_Comm(MPI_COMM_WORLD); MPI_Comm_free(&small); if (lrev) MPI_Comm_free(&large); PCU_Comm_Free();
}
