// Precomputed adjacency tables (vertex-edge-vertex, edge-vertex-edge) against the description.
#include "common.hpp"
VF_MAIN() {
  startup();
  Spec s; genSpec(s); bool compress = vf_param("compress", 1);
  Ngraph* g = createEmptyGraph(); buildGraph(g, s);
  int again = vf_param("again", 0);
  for (int r = 0; r <= again; r++) for (int t = 0; t < s.nt; t++) { g->create_vev_adjacency(t, r < again ? !compress : compress); g->create_eve_adjacency(t, r < again ? !compress : compress); }
  for (int t = 0; t < s.nt; t++) {
    VertexIterator* it = g->begin(); GraphVertex* v;
    while ((v = g->iterate(it))) {
      int i = s.vidx(g->globalID(v)); int adj[MV] = {0}, tot = 0;
      for (int e = 0; e < s.ne[t]; e++) { int c = s.incid(t, e, i); if (!c) continue; if (s.hg) for (int k = 0; k < s.deg[t][e]; k++) adj[s.pin[t][e][k]]++; else adj[s.pin[t][e][1]]++; }
      for (int j = 0; j < s.nv; j++) { if (compress) adj[j] = adj[j] && j != i; tot += adj[j]; }
      VEVIterator* a = g->vev_begin(v, t); GraphVertex* o; int n = 0;
      for (o = g->iterate(a); a != g->vev_end(v, t); o = g->iterate(a)) { CHECK(n < tot, "adjacent vertex iteration ends"); int j = pinGid(g, s, o); CHECK(j >= 0 && adj[j] > 0, "adjacent vertex belongs to the vertex"); adj[j]--; n++; }
      CHECK(n == tot, "every adjacent vertex is in the table");
    }
    EdgeIterator* ei = g->begin(t); GraphEdge* e;
    while ((e = g->iterate(ei))) {
      int i = s.hg ? s.eidx(t, g->globalID(e)) : -1; 
      if (s.hg) {
        int adj[ME] = {0}, tot = 0;
        for (int k = 0; k < s.deg[t][i]; k++) { int p = s.pin[t][i][k]; if (s.own[p] != s.me) continue; for (int f = 0; f < s.ne[t]; f++) adj[f] += s.incid(t, f, p); }
        for (int f = 0; f < s.ne[t]; f++) { if (compress) adj[f] = adj[f] && f != i; tot += adj[f]; }
        EVEIterator* a = g->eve_begin(e); GraphEdge* o; int n = 0;
        for (o = g->iterate(a); a != g->eve_end(e); o = g->iterate(a)) { CHECK(n < tot, "adjacent edge iteration ends"); int j = s.eidx(t, g->globalID(o)); CHECK(j >= 0 && adj[j] > 0, "adjacent edge shares a local vertex with the edge"); adj[j]--; n++; }
        CHECK(n == tot, "every adjacent edge is in the table");
      }
    }
    g->destroy(ei);
  }
  // traversals that are given up after any number of steps
  for (int t = 0; t < s.nt && vf_param("giveup", 0); t++) for (int stop = 0; stop < vf_param("giveup", 0); stop++) { VertexIterator* it = g->begin(); GraphVertex* v; EdgeIterator* ei = g->begin(t); for (int i = 0; i < stop; i++) if (GraphEdge* e = g->iterate(ei)) { PinIterator* pi = g->pins(e); for (int k = 0; k < stop; k++) if (!g->iterate(pi)) break; g->destroy(pi); } else break; g->destroy(ei);
    while ((v = g->iterate(it))) { int i = s.vidx(g->globalID(v)), want = 0, n = 0; for (int e = 0; e < s.ne[t]; e++) want += s.incid(t, e, i) * (s.hg ? s.deg[t][e] : 1); GraphIterator* gi = g->adjacent(v, t); for (; n < stop; n++) if (!g->iterate(gi)) break; CHECK(n == (stop < want ? stop : want), "neighbours come one after the other"); g->destroy(gi);
      ei = g->edges(v, t); for (int k = 0; k < stop; k++) if (!g->iterate(ei)) break; g->destroy(ei); } }
  logEnd(); vf_reach("end");
  destroyGraph(g); PCU_Comm_Free();
}
