// Graphs beyond the small scope: hundreds to tens of thousands of vertices, edges, pins and ghosts on one process, so that
// counts, ids and sizes leave every narrow integer type. The shape is fixed (a chain, a star, one large hyperedge), the cut,
// the base of the ids and the weights at the cut are symbolic.
#include "common.hpp"
#include <engpar.h>
#include <engpar_diffusive_input.h>
enum { N = 72000 };
static int n, h, d, P, me, hg, nt; static long base, stride; static int own[N], orig[N], to[N]; static double vw[N], add; static bool known;
static long gid(int i) { return base + stride * i; }
static int idx(long g) { long k = (g - base) / stride; return g >= base && k < n && base + stride * k == g ? (int)k : -1; }
static int cntE(int t) { return t == 0 ? n - 1 : t == 1 ? h : 1; }
static int degE(int t, int) { return t == 2 ? d : 2; }
static int pinE(int t, int e, int k) { return t == 0 ? e + k : t == 1 ? (k ? e + 1 : 0) : k; }
static double wE(int t, int e) { return 1 + e % 7 + 10 * t; }
static long idE(int t, int e) { return t == 2 ? 5 : 1000 + 2L * e; }
static int here[3][N]; static bool ghost[N]; // edges of this process, vertices it sees
static void local() { for (int i = 0; i < n; i++) ghost[i] = false; for (int t = 0; t < nt; t++) for (int e = 0; e < cntE(t); e++) { bool x = false; for (int k = 0; k < (hg ? degE(t, e) : 1); k++) x = x || own[pinE(t, e, k)] == me; here[t][e] = x; if (x) for (int k = 0; k < degE(t, e); k++) if (own[pinE(t, e, k)] != me) ghost[pinE(t, e, k)] = true; } }
static void build(Ngraph* g) { local(); std::vector<GID> v; std::vector<wgt_t> w; std::unordered_map<GID, part_t> o; for (int i = 0; i < n; i++) if (own[i] == me) { v.push_back(gid(i)); w.push_back(vw[i]); } g->constructVerts(hg, v, w);
  for (int t = 0; t < nt; t++) { std::vector<GID> e, p; std::vector<LID> dg; std::vector<wgt_t> x; for (int i = 0; i < cntE(t); i++) if (here[t][i]) { e.push_back(idE(t, i)); dg.push_back(degE(t, i)); x.push_back(wE(t, i)); for (int k = 0; k < degE(t, i); k++) p.push_back(gid(pinE(t, i, k))); } CHECK(g->constructEdges(e, dg, p, x) == t, "edge type number"); }
  for (int i = 0; i < n; i++) if (ghost[i]) o[gid(i)] = own[i]; g->constructGhosts(o); }
static int seenG[N]; static char seenE[N];
static void verify(Ngraph* g) { local(); int nl = 0, ng = 0; for (int i = 0; i < n; i++) { nl += own[i] == me; ng += ghost[i]; seenG[i] = 0; }
  CHECK(g->numLocalVtxs() == nl && g->numGhostVtxs() == ng && g->numTotalVtxs() == nl + ng && g->numGlobalVtxs() == n && g->numEdgeTypes() == nt, "vertex counts");
  VertexIterator* it = g->begin(); GraphVertex* v; int c = 0; while ((v = g->iterate(it))) { int i = idx(g->globalID(v)); CHECK(i >= 0 && own[i] == me && !seenG[i]++, "each vertex of this process once"); CHECK(g->localID(v) == c && g->weight(v) == vw[i] && g->owner(v) == me && g->findGID(gid(i)) == v, "vertex"); if (known) CHECK(g->originalOwner(v) == orig[i], "original owner"); c++; for (int t = 0; t < nt; t++) { int q = t == 0 ? (i > 0) * hg + (i < n - 1) : t == 1 ? (i == 0 ? h : hg * (i <= h)) : i < d; CHECK(g->degree(v, t) == q, "edges at a vertex"); } } CHECK(c == nl, "all vertices visited");
  GhostIterator* gi = g->beginGhosts(); c = 0; while ((v = g->iterate(gi))) { int i = idx(g->globalID(v)); CHECK(i >= 0 && ghost[i] && !seenG[i]++, "each ghost once"); CHECK(g->owner(v) == own[i] && g->weight(v) == vw[i] && g->findGID(gid(i)) == v, "ghost"); c++; } CHECK(c == ng, "all ghosts visited");
  for (int t = 0; t < nt; t++) { long ne = 0, np = 0, gp = 0; for (int e = 0; e < cntE(t); e++) { ne += here[t][e]; np += here[t][e] * degE(t, e); gp += degE(t, e); seenE[e] = 0; } CHECK(g->numLocalEdges(t) == ne && g->numLocalPins(t) == np && g->numGlobalEdges(t) == cntE(t) && g->numGlobalPins(t) == gp, "edge and pin counts");
    EdgeIterator* ei = g->begin(t); GraphEdge* e; c = 0; while ((e = g->iterate(ei))) { int x; if (hg) x = t == 2 ? 0 : (int)(g->globalID(e) - 1000) / 2; else { int a = idx(g->globalID(g->u(e))), b = idx(g->globalID(g->v(e))); x = t ? b - 1 : a; CHECK(a >= 0 && b >= 0, "ends"); } CHECK(x >= 0 && x < cntE(t) && here[t][x] && !seenE[x]++, "each edge of this process once"); if (hg) CHECK(g->globalID(e) == idE(t, x), "edge id"); CHECK(g->weight(e) == wE(t, x) && g->degree(e) == degE(t, x), "edge");
      PinIterator* pi = g->pins(e); int k = 0; long sum = 0; bool cut = false; while ((v = g->iterate(pi))) { int i = idx(g->globalID(v)); CHECK(i >= 0, "pin"); sum += i; k++; cut = cut || own[i] != me; if (t < 2) CHECK(i == pinE(t, x, 0) || i == pinE(t, x, 1), "pin of the edge"); } g->destroy(pi); CHECK(k == degE(t, x), "all pins visited"); if (t == 2) CHECK(sum == (long)d * (d - 1) / 2, "pins of the large edge"); CHECK(g->isCut(e) == cut, "cut status"); c++; } g->destroy(ei); CHECK(c == ne, "all edges visited"); } }
VF_MAIN() {
  startup(); P = vf_size(); me = vf_self(); n = vf_param("n", 300); hg = vf_param("hg", 1); h = vf_param("h", n - 1); d = vf_param("d", n); nt = hg ? 3 : 2; stride = vf_param("stride", 3); base = vf_param("base", 7); if (vf_param("symbase", 0)) base += 4 * vf_conc(vf_range("base", 0, 3)); int ops = vf_param("ops", 0); long cut = n * vf_param("cutat", 50) / 100 + vf_conc(vf_range("cut", 0, vf_param("cuts", 2))); known = false;
  for (int i = 0; i < n; i++) { own[i] = P == 1 ? 0 : P == 2 ? i >= cut : i < cut ? i % (P - 1) : P - 1; vw[i] = 1 + i % 100; } for (int i = (int)cut - 1; i <= (int)cut; i++) vw[i] = vf_param("symw", 1) ? (double)vf_r("w", i - cut + 1, 0, 1000) : 1;
  Ngraph* g = createEmptyGraph(); build(g); verify(g);
  if (ops & 1) { g->setOriginalOwners(); known = true; for (int i = 0; i < n; i++) orig[i] = own[i]; int m = vf_param("every", 2); Migration* p = new Migration(g); int sel = vf_param("sel", 0); for (int i = 0; i < n; i++) to[i] = i % m ? own[i] : (own[i] + 1) % P; for (int k = 0; k < sel; k++) to[(long)(k + 1) * n / (sel + 1)] = vf_conc(vf_r("to", k, 0, P - 1));
    for (int i = 0; i < n; i++) if (own[i] == me && (to[i] != me || i % m == 0)) p->insert(std::make_pair(g->findGID(gid(i)), to[i])); g->migrate(p); for (int i = 0; i < n; i++) own[i] = to[i]; verify(g);
    PartitionMap* q = g->getPartition(); int c = 0; for (int i = 0; i < n; i++) if (orig[i] == me) { PartitionMap::iterator f = q->find(gid(i)); CHECK(f != q->end() && f->second == own[i], "the partition map leads to where the vertex is"); c++; } CHECK((int)q->size() == c, "no other entry"); delete q; }
  if (ops & 2) { g->saveToFile("l"); PCU_Barrier(); Ngraph* x = createEmptyGraph(); x->loadFromFile("l"); destroyGraph(g); g = x; known = false; verify(g); }
  if (ops & 4) { for (int t = 0; t < nt; t++) { g->create_vev_adjacency(t, true); VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) { int i = idx(g->globalID(v)); long c = 0, sum = 0, wc = 0, ws = 0; VEVIterator* a = g->vev_begin(v, t); GraphVertex* u; for (u = g->iterate(a); a != g->vev_end(v, t); u = g->iterate(a)) { c++; sum += idx(g->globalID(u)); }
      if (t == 0) { if (i > 0 && hg) { wc++; ws += i - 1; } if (i < n - 1) { wc++; ws += i + 1; } } else if (t == 1) { if (i == 0) { wc = h; ws = (long)h * (h + 1) / 2; } else if (hg && i <= h) wc = 1; } else if (i < d) { wc = d - 1; ws = (long)d * (d - 1) / 2 - i; } CHECK(c == wc && sum == ws, "adjacent vertices"); if (t == 2) break; } } }
  if (ops & 8) { GraphTag* a = g->createIntTag(); GraphTag* b = g->createDoubleTag(0); VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) g->setIntTag(a, v, idx(g->globalID(v)) * 5); EdgeIterator* ei = g->begin(0); GraphEdge* e; int k = 0; while ((e = g->iterate(ei))) g->setDoubleTag(b, e, 0.5 * k++); g->destroy(ei); it = g->begin(); while ((v = g->iterate(it))) CHECK(g->getIntTag(a, v) == idx(g->globalID(v)) * 5, "vertex tag"); ei = g->begin(0); k = 0; while ((e = g->iterate(ei))) CHECK(g->getDoubleTag(b, e) == 0.5 * k++, "edge tag"); g->destroy(ei); g->destroyTag(a); g->destroyTag(b); }
  if (ops & 16) { WeightMigration* p = new WeightMigration(g); for (int e = 0; e < n - 1; e++) if (own[e] != own[e + 1]) { if (own[e] == me) p->insert(g->findGID(gid(e)), g->findGID(gid(e + 1)), 0.25); vw[e] -= 0.25; vw[e + 1] += 0.25; } g->migrate(p); VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) CHECK(g->weight(v) == vw[idx(g->globalID(v))], "weight after moves"); }
  if (ops & 32) { engpar::DiffusiveInput* in = dynamic_cast<engpar::DiffusiveInput*>(engpar::createDiffusiveInput(g, vf_param("sf", 20) / 100.0)); in->addPriority(-1, 1.02); in->maxIterations = vf_param("iters", 3); in->useDistanceQueue = vf_param("dist", 1); engpar::balance(in, -1); for (int i = 0; i < n; i++) seenG[i] = 0;
    VertexIterator* it = g->begin(); GraphVertex* v; std::vector<int> mine; while ((v = g->iterate(it))) { int i = idx(g->globalID(v)); CHECK(i >= 0, "vertex"); mine.push_back(i); } bool moved = false; for (size_t k = 0; k < mine.size(); k++) { seenG[mine[k]]++; moved = moved || own[mine[k]] != me; own[mine[k]] = me; }
    PCU_Comm_Begin(); for (int p = 0; p < P; p++) if (p != me) { int c = (int)mine.size(); PCU_Comm_Pack(p, &c, sizeof c); if (c) PCU_Comm_Pack(p, &mine[0], c * sizeof(int)); } PCU_Comm_Send(); while (PCU_Comm_Receive()) { int c; PCU_Comm_Unpack(&c, sizeof c); std::vector<int> q(c + 1); PCU_Comm_Unpack(&q[0], c * sizeof(int)); for (int k = 0; k < c; k++) { CHECK(q[k] >= 0 && q[k] < n, "vertex"); seenG[q[k]]++; own[q[k]] = PCU_Comm_Sender(); } }
    for (int i = 0; i < n; i++) CHECK(seenG[i] == 1, "each vertex is held by one process"); if (PCU_Max_Int(moved)) vf_reach("moved"); known = false; verify(g); }
  vf_reach("end"); destroyGraph(g); PCU_Comm_Free();
}
