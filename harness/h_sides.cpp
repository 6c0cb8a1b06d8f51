// Sides, neighbour weights and part weights: what the balancers believe about the partition is what the partition is.
#include "common.hpp"
#include <engpar_sides.h>
#include <engpar_weights.h>
#include <engpar_metrics.h>
using namespace engpar;
// weight of process p in dimension d, from the description
static double partW(const Spec& s, int p, int d, bool ghosts) {
  double w = 0;
  if (d == -1) { for (int i = 0; i < s.nv; i++) { if (s.own[i] == p) w += s.vw[i]; else if (ghosts) { bool g = false; for (int t = 0; t < s.nt; t++) for (int e = 0; e < s.ne[t]; e++) if (s.edgeOn(t, e, p)) for (int k = 0; k < s.deg[t][e]; k++) g = g || s.pin[t][e][k] == i; if (g) w += s.vw[i]; } } }
  else for (int e = 0; e < s.ne[d]; e++) if (s.edgeOn(d, e, p)) w += s.ew[d][e];
  return w; }
VF_MAIN() {
  startup(); Spec s; genSpec(s); Ngraph* g = createEmptyGraph(); buildGraph(g, s);
  for (int d = -1; d < s.nt; d++) for (int c = 0; c < 2; c++) CHECK(getWeight(g, d, c) == partW(s, s.me, d, c), "weight of a part is the sum of the weights of its elements");
  for (int t = 0; t < s.nt; t++) {
    Sides* sd = makeSides(g, t); double tot = 0; int n = 0;
    for (int p = 0; p < s.P; p++) { double w = 0; bool any = false; if (p != s.me) for (int e = 0; e < s.ne[t]; e++) if (s.edgeHere(t, e)) { bool on = false; for (int k = 0; k < s.deg[t][e]; k++) on = on || s.own[s.pin[t][e][k]] == p; if (on) { any = true; w += s.ew[t][e]; } }
      CHECK(sd->has(p) == any, "a side exists for exactly the processes sharing a cut edge"); if (any) { n++; CHECK(sd->get(p) == (int)w, "a side holds the weight of the edges shared with that process"); } }
    CHECK((int)sd->size() == n, "no other sides");
    for (int e = 0; e < s.ne[t]; e++) if (s.edgeHere(t, e)) { bool cut = false; for (int k = 0; k < s.deg[t][e]; k++) cut = cut || s.own[s.pin[t][e][k]] != s.me; if (cut) tot += s.ew[t][e]; }
    CHECK(sd->total() == (int)tot, "the total of the sides counts every cut edge once");
    for (int d = -1; d < s.nt; d++) for (int c = 0; c < 2; c++) { Weights* w = makeWeights(g, c, sd, d); CHECK(w->myWeight() == partW(s, s.me, d, c), "own weight");
      for (int p = 0; p < s.P; p++) if (sd->has(p)) CHECK(w->has(p) && w->get(p) == partW(s, p, d, c), "weight of a neighbouring part is its own weight");
      delete w; }
    delete sd; }
  logEnd(); vf_reach("end"); destroyGraph(g); PCU_Comm_Free();
}
