// Migration: after any sequence of plans the distributed graph is the same graph with the planned owners,
// and the partition map leads every vertex from its first owner to its current one.
#include "common.hpp"
VF_MAIN() {
  startup();
  Spec s; genSpec(s); int rounds = vf_param("rounds", 1), rep = vf_param("rep", 0), what = vf_param("what", V_ALL), idle = vf_param("idle", 0);
  Ngraph* g = createEmptyGraph(); int first[MV];
  for (int i = 0; i < s.nv; i++) first[i] = s.own[i];
  if (idle) { int mine = 0; for (int i = 0; i < s.nv; i++) { vf_assume(s.own[i] < s.P - idle); } } // the last `idle` processes start without a graph
  if (s.me < s.P - idle) buildGraph(g, s, 0);
  else { // they still take part in the collective steps of construction
    Spec z = s; buildGraph(g, z, 0); destroyGraph(g); g = createEmptyGraph(); }
  if (!rep) g->setOriginalOwners();
  for (int r = 0; r < rounds; r++) {
    int dst[MV];
    for (int i = 0; i < s.nv; i++) { int hold = vf_param("hold", 0); dst[i] = i < hold ? -1 : (int)vf_conc(vf_r("to", r, i, rep ? 0 : -1, s.P - 1)); }
    if (rep) { part_t a[MV]; int n = 0; for (int i = 0; i < s.nv; i++) if (s.own[i] == s.me) { GraphVertex* v = g->findGID(s.vg[i]); a[g->localID(v)] = dst[i]; n++; } g->repartition(a); }
    else { Migration* plan = new Migration(g); int twice = vf_param("twice", 0);
      for (int i = 0; i < s.nv; i++) if (s.own[i] == s.me && dst[i] >= 0) { GraphVertex* v = g->findGID(s.vg[i]); if (twice) CHECK(plan->insert(std::make_pair(v, (s.P - 1 - dst[i]))), "first insertion is new"); bool fresh = plan->insert(std::make_pair(v, dst[i])); CHECK(fresh == !twice, "insertion reports whether the vertex was new"); }
      g->migrate(plan); }
    for (int i = 0; i < s.nv; i++) if (dst[i] >= 0) s.own[i] = dst[i];
    verifyGraph(g, s, what);
    VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) { int i = s.vidx(g->globalID(v)); CHECK(g->originalOwner(v) == first[i], "original owner of a vertex survives migration"); }
  }
  if (vf_param("part", 1)) {
    PartitionMap* m = g->getPartition(); int n = 0;
    for (int i = 0; i < s.nv; i++) { PartitionMap::iterator it = m->find(s.vg[i]); if (first[i] == s.me) { CHECK(it != m->end(), "partition map names every vertex this process started with"); CHECK(it->second == s.own[i], "partition map gives the current owner"); n++; } }
    CHECK((int)m->size() == n, "partition map names no other vertex"); delete m;
  }
  if (vf_param("reset", 0)) { g->resetPartition(); VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) CHECK(g->originalOwner(v) == s.me, "resetting makes the current owner the original owner"); }
  logEnd(); vf_reach("end");
  destroyGraph(g);
  PCU_Comm_Free();
}
