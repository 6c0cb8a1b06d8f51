// Queues of boundary edges: exactly the cut edges, each once; the distance queue gives the edges farthest from the
// core of their component first.
#include "common.hpp"
#include <engpar_queue.h>
using namespace engpar;
VF_MAIN() {
  startup(); Spec s; genSpec(s); int dist = vf_param("dist", 1), push = vf_param("push", 1); Ngraph* g = createEmptyGraph(); buildGraph(g, s); PNgraph* pg = g->publicize();
  Queue* q; DiffusiveInput in(g); in.bfsPush = push; CHECK(in.useDistanceQueue == (bool)s.hg, "hypergraphs use the distance queue by default");
  q = dist ? createDistanceQueue(&in) : createIterationQueue(g);
  int n = 0, nl = g->numLocalEdges(0); bool cut[ME]; for (int i = 0; i < nl; i++) { cut[i] = g->isCut(pg->getEdge(i, 0)); n += cut[i]; }
  int order[ME], m = 0; q->startIteration(); bool seen[ME] = {0}; bool serial = g->numGhostVtxs() == 0;
  for (Queue::iterator i = q->begin(); i != q->end(); i++) { GraphEdge* e = q->get(i); LID l = g->localID(e); CHECK(l >= 0 && l < nl, "the queue holds edges of this part"); CHECK(cut[l], "every queued edge is cut"); CHECK(!seen[l], "every edge is queued once"); seen[l] = true; order[m++] = l; q->addElement(e); }
  if (!serial) CHECK(m == n, "every cut edge is queued");
  q->startIteration(); CHECK(q->size() == m, "a queue refills"); for (int i = 0; i < m; i++) CHECK(g->localID(q->get(i)) == order[i], "a refilled queue keeps its order");
  if (dist && s.hg && !serial) { // independent distances within the part: edges sharing a local vertex are neighbours
    int inc[ME][MV], c = 0; for (int i = 0; i < nl; i++) for (int v = 0; v < MV; v++) inc[i][v] = 0;
    for (int i = 0; i < nl; i++) { GraphEdge* e = pg->getEdge(i, 0); int j = s.eidx(0, g->globalID(e)); for (int k = 0; k < s.deg[0][j]; k++) if (s.own[s.pin[0][j][k]] == s.me) inc[i][s.pin[0][j][k]] = 1; }
    bool adj[ME][ME]; int d1[ME], d2[ME], comp[ME]; for (int i = 0; i < nl; i++) { for (int j = 0; j < nl; j++) { adj[i][j] = false; for (int v = 0; v < s.nv; v++) adj[i][j] = adj[i][j] || (inc[i][v] && inc[j][v]); } d1[i] = cut[i] ? 0 : 99; comp[i] = i; }
    for (int r = 0; r < nl; r++) for (int i = 0; i < nl; i++) for (int j = 0; j < nl; j++) if (adj[i][j]) { if (d1[i] + 1 < d1[j]) d1[j] = d1[i] + 1; if (comp[i] < comp[j]) comp[j] = comp[i]; }
    for (int i = 0; i < nl; i++) { int mx = -1; for (int j = 0; j < nl; j++) if (comp[j] == comp[i] && d1[j] < 99 && d1[j] > mx) mx = d1[j]; d2[i] = d1[i] == mx ? 0 : 99; c += comp[i] == i; }
    for (int r = 0; r < nl; r++) for (int i = 0; i < nl; i++) for (int j = 0; j < nl; j++) if (adj[i][j] && d2[i] + 1 < d2[j]) d2[j] = d2[i] + 1;
    for (int i = 0; i < m; i++) for (int j = i + 1; j < m; j++) if (comp[order[i]] == comp[order[j]]) CHECK(d2[order[i]] >= d2[order[j]], "edges farther from the core of their component come first");
    if (c > 1) vf_reach("several components");
  }
  logEnd(); vf_reach("end"); delete q; destroyGraph(g); PCU_Comm_Free();
}
