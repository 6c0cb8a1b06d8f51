// Requests that have no answer are refused with an error, for every such request, and leave the graph as it was.
#include "common.hpp"
#include <binGraph.h>
static Spec s;
template <class F> static int refused(F f) { try { f(); } catch (int i) { return i; } catch (...) { return 99; } return 0; }
VF_MAIN() {
  startup(); genSpec(s); Ngraph* g = createEmptyGraph(); buildGraph(g, s, 0); if (vf_param("known", 1)) g->setOriginalOwners();
  int what = vf_param("what", 0); const Ngraph* c = g; lid_t nl = g->numLocalVtxs(), nt = g->numTotalVtxs(); CHECK(nt >= nl, "totals");
  if (what == 0) { // vertex handles, of the graph and beyond its last vertex
    long k = vf_range("handle", 0, 2L * s.nv + 6); GraphVertex* v = (GraphVertex*)(k + 1); bool in = k < nt, own = k < nl;
    wgt_t w = -1; int r = refused([&] { w = c->weight(v); }); CHECK((r != 0) == !in, "the weight of a vertex is told exactly for vertices of the process"); if (in) { int i = s.vidx(c->globalID(v)); CHECK(i >= 0 && w == s.vw[i], "weight"); }
    double x = 0; if (s.coords) { r = refused([&] { x = c->coord(v)[1]; }); CHECK((r != 0) == !own, "coordinates are told exactly for local vertices"); if (own) { int i = s.vidx(c->globalID(v)); CHECK(x == s.coord(i, 1), "coordinates"); } }
    part_t o = c->owner(v); CHECK((o == -1) == !in, "a vertex that is not there has no owner"); if (in) CHECK(o == s.own[s.vidx(c->globalID(v))], "owner");
    if (vf_param("known", 1)) { part_t q = c->originalOwner(v); CHECK((q == -1) == !own, "original owners are told exactly for local vertices"); if (own) CHECK(q == s.me, "original owner"); } }
  if (what == 1) { // files that are not there
    char f[] = "no.bin"; CHECK(refused([&] { createBinGraph(f); }), "a binary graph needs its file"); }
  if (what == 4) { vf_expect_abort(); CHECK(refused([&] { g->loadFromFile("nowhere"); }), "loading from files that do not exist is refused"); }
  if (what == 2) { vf_expect_abort(); // files that cannot be made
    char n[200]; for (int i = 0; i < 150; i++) n[i] = i % 15 == 14 && vf_param("deep", 0) ? '/' : 'x'; n[150] = 0; char far[220] = "/proc/nodir/"; int k = 0; while (far[k]) k++; for (int i = 0; i <= 150; i++) far[k + i] = n[i]; CHECK(refused([&] { g->saveToFile(far); }), "saving where no file can be made is refused"); }
  if (what == 3) { int r = refused([&] { g->makeUndirectedGraph(); }); CHECK((r == 0) == g->isHyper(), "only a hypergraph is undirected already"); if (g->isHyper()) { EdgeIterator* it = g->begin(0); while (GraphEdge* e = g->iterate(it)) CHECK(!g->v(e), "a hyperedge has no target"); g->destroy(it); } }
  verifyGraph(g, s, V_ALL); vf_reach("end"); destroyGraph(g); PCU_Comm_Free();
}
