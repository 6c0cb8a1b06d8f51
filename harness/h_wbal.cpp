// Weight balancing end to end: weight is conserved and never negative, no part becomes heavier than the heaviest was,
// weight flows from heavier to lighter parts only, and the recorded flow explains the new weights.
#include "common.hpp"
#include <engpar.h>
#include <engpar_metrics.h>
using namespace engpar;
VF_MAIN() {
  startup(); Spec s; genSpec(s); int iters = vf_param("iters", 1), tol = vf_param("tol", 110), sf = vf_param("sf", 10);
  Ngraph* g = createEmptyGraph(); buildGraph(g, s); WeightInput* in = createWeightInput(g, tol / 100.0, sf / 100.0, 0); in->maxIterations = iters;
  double part[8] = {0}, tot = 0, mx = 0; for (int i = 0; i < s.nv; i++) { part[s.own[i]] += s.vw[i]; tot += s.vw[i]; } for (int p = 0; p < s.P; p++) if (part[p] > mx) mx = part[p];
  balanceWeights(in, VERB());
  // everyone learns everything
  double now[MV]; double flow[MV][MV]; for (int i = 0; i < s.nv; i++) { now[i] = 0; for (int j = 0; j < s.nv; j++) flow[i][j] = 0; }
  VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) now[s.vidx(g->globalID(v))] = g->weight(v);
  WeightPartitionMap* m = g->getWeightPartition();
  for (WeightPartitionMap::iterator i = m->begin(); i != m->end(); ++i) for (std::unordered_map<GID, wgt_t>::iterator j = i->second.begin(); j != i->second.end(); ++j) { int a = s.vidx(i->first), b = s.vidx(j->first); CHECK(a >= 0 && b >= 0 && s.own[a] == s.me && s.own[b] != s.me, "the weight partition names a local and a remote vertex"); CHECK(j->second > 0, "only positive amounts are recorded"); flow[a][b] = j->second;
    bool nb = false; for (int e = 0; e < s.ne[0]; e++) { bool x = false, y = false; for (int k = 0; k < s.deg[0][e]; k++) { x = x || s.pin[0][e][k] == a; y = y || s.pin[0][e][k] == b; } nb = nb || (x && y); } CHECK(nb, "weight flows along an edge"); }
  PCU_Comm_Begin(); for (int p = 0; p < s.P; p++) if (p != s.me) { PCU_Comm_Pack(p, now, sizeof now); PCU_Comm_Pack(p, flow, sizeof flow); } PCU_Comm_Send();
  while (PCU_Comm_Receive()) { double n2[MV], f2[MV][MV]; PCU_Comm_Unpack(n2, sizeof n2); PCU_Comm_Unpack(f2, sizeof f2); int r = PCU_Comm_Sender(); for (int i = 0; i < s.nv; i++) if (s.own[i] == r) { now[i] = n2[i]; for (int j = 0; j < s.nv; j++) flow[i][j] = f2[i][j]; } }
  double t2 = 0, p2[8] = {0}; bool moved = false;
  for (int i = 0; i < s.nv; i++) { double w = s.vw[i]; for (int j = 0; j < s.nv; j++) w += flow[j][i] - flow[i][j]; CHECK(now[i] == w, "the recorded flow explains the weight of every vertex"); CHECK(now[i] >= 0, "no vertex gets a negative weight"); t2 += now[i]; p2[s.own[i]] += now[i]; moved = moved || now[i] != s.vw[i];
    for (int j = 0; j < s.nv; j++) if (iters == 1 && flow[i][j] != 0) CHECK(part[s.own[i]] > part[s.own[j]], "weight flows from a heavier to a lighter part"); }
  if (iters == 1) for (int p = 0; p < s.P; p++) for (int q = 0; q < s.P; q++) { double f = 0; for (int i = 0; i < s.nv; i++) for (int j = 0; j < s.nv; j++) if (s.own[i] == p && s.own[j] == q) f += flow[i][j]; CHECK(f == 0 || 100 * f <= sf * (part[p] - part[q]), "at most the step fraction of the difference is sent"); }
  CHECK(t2 == tot, "the total weight is conserved");
  for (int p = 0; p < s.P; p++) CHECK(p2[p] <= mx, "no part becomes heavier than the heaviest part was");
  if (mx * s.P * 100 < tot * tol) CHECK(!moved, "a balanced graph is left alone"); else if (moved) vf_reach("moved");
  // two parts joined by a boundary edge: something moves while a tenth of the vertex is at least one unit and so is the target
  if (s.P == 2 && s.ne[0] == 1 && mx * s.P * 100 >= tot * tol) { int h = part[1] > part[0]; double d = part[h] - part[1 - h]; int nl[2] = {0, 0}, v1 = -1; bool dup = false; for (int k = 0; k < s.deg[0][0]; k++) { int o = s.own[s.pin[0][0][k]]; nl[o]++; if (o == h) v1 = s.pin[0][0][k]; } (void)dup;
    if (nl[h] == 1 && nl[1 - h] >= 1 && s.edgeOn(0, 0, h) && s.ew[0][0] > 0 && s.vw[v1] >= 10 * nl[1 - h] && d * sf >= 100) CHECK(moved, "an unbalanced graph is improved when enough weight lies at the boundary"); }
  for (int i = 0; i < s.nv; i++) s.vw[i] = now[i];
  verifyGraph(g, s, V_VERTS | V_EDGES | V_RES | V_ADJ | V_GLOBAL);
  logEnd();
  if (vf_param("twin", 0)) { EnGPar_Set_Verbosity(-1); Spec z; genSpec(z); Ngraph* h = createEmptyGraph(); buildGraph(h, z); WeightInput* i2 = createWeightInput(h, tol / 100.0, sf / 100.0, 0); i2->maxIterations = iters; balanceWeights(i2, -1); it = h->begin(); while ((v = h->iterate(it))) CHECK(h->weight(v) == now[z.vidx(h->globalID(v))], "the decisions do not depend on messages and the call log"); destroyGraph(h); }
  vf_reach("end"); destroyGraph(g); PCU_Comm_Free();
}
