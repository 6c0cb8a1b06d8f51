// Targets: who is sent weight, and how much.
#include "common.hpp"
#include <engpar_sides.h>
#include <engpar_weights.h>
#include <engpar_targets.h>
#include <cmath>
using namespace engpar;
static bool near(double a, double b) { double d = a - b; return d <= 1e-9 && d >= -1e-9; }
VF_MAIN() {
  startup(); int n = vf_param("n", 2), hyper = vf_param("hyper", 1), nc = vf_param("completed", 1), W = vf_param("W", 4), S = vf_param("S", 3), kind = vf_param("kind", 0); double sf = vf_param("sf", 10) / 100.0, U = vf_param("frac", 0) ? 0.25 : 1; // unit of the weights
  Ngraph* g = createEmptyGraph(); std::vector<GID> v; std::vector<wgt_t> w; std::vector<LID> d; g->constructVerts(true, v, w); g->constructEdges(v, d, v, w); { std::unordered_map<GID, part_t> o; g->constructGhosts(o); }
  Sides none(g, 0), sides(g, 0); CHECK(sides.size() == 0 && sides.total() == 0, "no sides without edges");
  Weights* tw = makeWeights(g, false, &sides, -1); Weights* cw[3]; std::vector<wgt_t> ct; int side[4]; double nb[4], cwv[3][4], tot = 0;
  // process numbers of the neighbours need not be consecutive
  int id[4]; for (int i = 0; i < n; i++) id[i] = 3 + 4 * ((i * 2) % 3);
  for (int i = 0; i < n; i++) { side[i] = (int)vf_conc(vf_r("side", i, 1, S)); sides.set(id[i], side[i]); tot += side[i]; }
  CHECK(sides.total() == (int)tot, "total of the sides");
  double my = U * vf_range("my", 0, W); tw->addWeight(my);
  for (int i = 0; i < n; i++) { nb[i] = U * vf_r("nb", i, 0, W); tw->set(id[i], nb[i]); }
  for (int c = 0; c < nc; c++) { cw[c] = makeWeights(g, false, &none, -1); }
  for (int c = 0; c < nc; c++) { for (int i = 0; i < n; i++) { cwv[c][i] = U * vf_r("cw", c, i, 0, W); cw[c]->set(id[i], cwv[c][i]); } ct.push_back(U * (double)vf_r("cap", c, 0, W)); }
  int stol = (int)vf_range("sidetol", 0, S);
  bool may[4]; for (int i = 0; i < n; i++) { may[i] = !hyper || side[i] <= stol || (kind == 0 && PCU_Comm_Peers() == 2); for (int c = 0; c < nc; c++) may[i] = may[i] && !(cwv[c][i] >= ct[c]); }
  if (kind == 0) {
    Targets* t = makeTargets(hyper, sf, &sides, tw, stol, nc ? cw : NULL, ct); double sum = 0; int m = 0;
    for (int i = 0; i < n; i++) { bool want = may[i] && my > nb[i]; CHECK(t->has(id[i]) == want, "weight is meant for exactly the lighter neighbours that may receive"); if (want) { m++; double x = t->get(id[i]); sum += x; CHECK(near(x, (my - nb[i]) * side[i] / tot * sf), "a target is the step fraction of the weight difference, shared by the sides"); CHECK(x > 0 && x <= (my - nb[i]) * sf + 1e-9, "a target never exceeds the step fraction of the difference"); } }
    CHECK((int)t->size() == m, "no other targets"); CHECK(near(t->total(), sum), "total of the targets is their sum"); delete t;
  } else {
    // what the part weight balancer decided: amounts for some of the neighbours
    WeightPartitionMap wp; double amt[4]; for (int i = 0; i < n; i++) { amt[i] = U * vf_r("amount", i, 0, W); if (amt[i] > 0) wp[PCU_Comm_Self()][id[i]] = amt[i]; }
    DiffusiveInput in(g); in.step_factor = sf; if (!hyper) { destroyGraph(g); g = createEmptyGraph(); g->constructVerts(false, v, w); in.g = g; }
    Targets* t = makePartWeightTargets(&in, &sides, &wp, stol, nc ? cw : NULL, ct); double sum = 0; int m = 0;
    for (int i = 0; i < n; i++) { bool want = may[i] && amt[i] > 0; CHECK(t->has(id[i]) == want, "weight is meant for exactly the chosen neighbours that may receive"); if (want) { m++; double x = t->get(id[i]); sum += x; CHECK(near(x, amt[i] * side[i] / tot), "a target is the chosen amount, shared by the sides"); } }
    CHECK((int)t->size() == m, "no other targets"); CHECK(near(t->total(), sum), "total of the targets is their sum"); delete t; }
  logEnd(); vf_reach("end"); for (int c = 0; c < nc; c++) delete cw[c]; delete tw; destroyGraph(g); PCU_Comm_Free();
}
