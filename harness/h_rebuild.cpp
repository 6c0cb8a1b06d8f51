// A graph object can be described again, edge types removed and added: nothing of the earlier content remains.
#include "common.hpp"
VF_MAIN() {
  startup();
  Spec s; genSpec(s); int kind = vf_param("kind", 0);
  Ngraph* g = createEmptyGraph();
  if (kind == 0) { // another, larger graph first (other ids, more edges, other kind, tables, coordinates)
    Spec z; z.P = s.P; z.me = s.me; z.hg = vf_param("zhg", 1); z.nv = 4; z.nt = 2; z.coords = vf_param("zcoords", 1);
    for (int i = 0; i < 4; i++) { z.vg[i] = i % 2 ? 7 + 5 * i : 900 + i; z.own[i] = i % z.P; z.vw[i] = 50 + i; }
    for (int t = 0; t < 2; t++) { z.ne[t] = 3; for (int e = 0; e < 3; e++) { z.eg[t][e] = 30 + e; z.deg[t][e] = 2; z.pin[t][e][0] = e; z.pin[t][e][1] = (e + 1) % 4; z.ew[t][e] = 9; } }
    buildGraph(g, z, vf_param("zmode", 0)); if (vf_param("ztab", 1)) { g->create_vev_adjacency(0); g->create_eve_adjacency(0); } g->setOriginalOwners(); verifyGraph(g, z);
    if (vf_param("zwm", 1)) { WeightMigration* m = new WeightMigration(g); VertexIterator* vi = g->begin(); GraphVertex* v; while ((v = g->iterate(vi))) { EdgeIterator* ei = g->edges(v, 0); GraphEdge* e; while ((e = g->iterate(ei))) { PinIterator* pi = g->pins(e); GraphVertex* u; while ((u = g->iterate(pi))) if (g->owner(u) != s.me) m->insert(v, u, 2); g->destroy(pi); } g->destroy(ei); } g->migrate(m); }
    buildGraph(g, s, vf_param("mode", 0)); verifyGraph(g, s); CHECK(g->hasCoords() == (bool)s.coords, "coordinates do not outlive the graph they belonged to"); CHECK(g->getWeightPartition()->size() == 0, "moved weights of the earlier graph are forgotten");
    g->setOriginalOwners(); VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) CHECK(g->originalOwner(v) == s.me, "original owners are those of the new graph");
  } else if (kind == 1) { // remove the last edge type, then add it again
    buildGraph(g, s, 0); int t = s.nt - 1; g->removeEdges(t); Spec r = s; r.nt--; 
    CHECK(g->numEdgeTypes() == r.nt, "removing the last edge type leaves one type less"); CHECK(g->numLocalEdges(t) == 0 && g->numLocalPins(t) == 0 && g->numGlobalEdges(t) == 0 && g->numGlobalPins(t) == 0, "a removed type has no edges and no pins");
    // ghosts stay known; everything about the remaining types is unchanged
    verifyGraph(g, r, V_VERTS | V_EDGES | V_ADJ | V_RES | V_GLOBAL);
    std::vector<GID> e, p; std::vector<LID> d; std::vector<wgt_t> x; for (int i = 0; i < s.ne[t]; i++) if (s.edgeHere(t, i)) { e.push_back(s.eg[t][i]); d.push_back(s.deg[t][i]); x.push_back(s.ew[t][i]); for (int k = 0; k < s.deg[t][i]; k++) p.push_back(s.vg[s.pin[t][i][k]]); }
    CHECK(g->constructEdges(e, d, p, x) == t, "a removed last type number is used again"); verifyGraph(g, s, V_VERTS | V_EDGES | V_ADJ | V_RES | V_GHOSTS);
  } else if (kind == 4) { // remove an edge type that is not the last: it is empty, all others are untouched
    buildGraph(g, s, 0); int t = vf_param("rm", 0); g->removeEdges(t); CHECK(g->numEdgeTypes() == s.nt, "the other types keep their numbers"); CHECK(g->numLocalEdges(t) == 0 && g->numLocalPins(t) == 0 && g->numGlobalEdges(t) == 0 && g->numGlobalPins(t) == 0, "a removed type has no edges and no pins"); EdgeIterator* ei = g->begin(t); CHECK(!g->iterate(ei), "a removed type has no edge to visit"); g->destroy(ei);
    verifyGraph(g, s, V_VERTS | V_GHOSTS); Spec r = s; r.skip = t; verifyGraph(g, r, V_EDGES | V_ADJ | V_RES | V_GLOBAL); r.skip = -1; r.ne[t] = 0; verifyGraph(g, r, V_VERTS | V_EDGES | V_ADJ | V_RES | V_GLOBAL); buildGraph(g, s, 1); verifyGraph(g, s);
  } else if (kind == 2) { // weights can be replaced
    buildGraph(g, s, 0); std::vector<wgt_t> w; for (int i = 0; i < s.nv; i++) if (s.own[i] == s.me) { s.vw[i] = (double)vf_r("w2", i, 0, 1000); w.push_back(s.vw[i]); } else s.vw[i] = (double)vf_r("w2", i, 0, 1000);
    g->setWeights(w.data()); verifyGraph(g, s, V_VERTS | V_EDGES | V_GHOSTS | V_ADJ); double x = (double)vf_range("ewall", 0, 1000); for (int t = 0; t < s.nt; t++) { g->setEdgeWeights(x, t); for (int e = 0; e < s.ne[t]; e++) s.ew[t][e] = x; verifyGraph(g, s, V_EDGES); }
  } else { // one-call construction of a graph with one unweighted edge type
    std::vector<GID> v, e, p; std::vector<wgt_t> w; std::vector<LID> d; std::unordered_map<GID, part_t> owns; 
    for (int i = 0; i < s.nv; i++) { if (s.own[i] == s.me) { v.push_back(s.vg[i]); w.push_back(s.vw[i]); } else if (s.ghostHere(i)) owns[s.vg[i]] = s.own[i]; }
    for (int i = 0; i < s.ne[0]; i++) { if (s.edgeHere(0, i)) { e.push_back(s.eg[0][i]); d.push_back(s.deg[0][i]); for (int k = 0; k < s.deg[0][i]; k++) p.push_back(s.vg[s.pin[0][i][k]]); } s.ew[0][i] = 1; }
    g->constructGraph(s.hg, v, w, e, d, p, owns); verifyGraph(g, s);
  }
  logEnd(); vf_reach("end"); destroyGraph(g); PCU_Comm_Free();
}
