// Weight migration: weight is conserved, leaves exactly the planned vertex, arrives at exactly the planned vertex,
// and the recorded weight partition nets to the same numbers.
#include "common.hpp"
VF_MAIN() {
  startup();
  Spec s; genSpec(s); int rounds = vf_param("rounds", 1), np = vf_param("moves", 2), frac = vf_param("frac", 0);
  Ngraph* g = createEmptyGraph(); buildGraph(g, s);
  static double net[MV][MV]; for (int a = 0; a < MV; a++) for (int b = 0; b < MV; b++) net[a][b] = 0;
  double w0[MV]; for (int i = 0; i < s.nv; i++) w0[i] = s.vw[i];
  for (int r = 0; r < rounds; r++) {
    WeightMigration* plan = new WeightMigration(g); double tot = 0; double want[MV][MV]; bool has[MV][MV]; for (int a = 0; a < MV; a++) for (int b = 0; b < MV; b++) { want[a][b] = 0; has[a][b] = false; }
    for (int k = 0; k < np; k++) {
      int a = (int)vf_conc(vf_r("from", r, k, 0, s.nv - 1)), b = (int)vf_conc(vf_r("to", r, k, 0, s.nv - 1)); double w = frac ? 0.125 + 0.25 * (double)vf_r("amount", r, k, 0, 3) : (double)vf_r("amount", r, k, 0, 100);
      // a move is possible when b is a ghost beside a: some edge on a's process holds both
      bool ok = s.own[a] != s.own[b]; bool pin = false; for (int t = 0; t < s.nt; t++) for (int e = 0; e < s.ne[t]; e++) if (s.edgeOn(t, e, s.own[a])) for (int q = 0; q < s.deg[t][e]; q++) if (s.pin[t][e][q] == b) pin = true;
      vf_assume(ok && pin);
      if (s.own[a] == s.me) { GraphVertex *u = g->findGID(s.vg[a]), *v = g->findGID(s.vg[b]); plan->insert(u, v, w); tot += w; want[a][b] += w; has[a][b] = true; CHECK(plan->has(u), "plan knows the vertex"); }
      s.vw[a] -= w; s.vw[b] += w; net[a][b] += w; net[b][a] -= w;
    }
    CHECK(plan->size() == (LID)tot, "size of a weight plan is the weight it moves");
    int n = 0; for (WeightMigration::iterator it = plan->begin(); it != plan->end(); it++) { int a = s.vidx(g->globalID(it.u())), b = s.vidx(g->globalID(it.v())); CHECK(has[a][b], "plan iteration visits only inserted pairs, each once"); has[a][b] = false; CHECK(it.weight() == want[a][b], "plan holds the sum inserted for a pair"); CHECK(plan->has(it.u(), it.v()) && plan->get(it.u(), it.v()) == want[a][b], "plan lookup"); n++; }
    for (int a = 0; a < s.nv; a++) for (int b = 0; b < s.nv; b++) CHECK(!has[a][b], "plan iteration visits every inserted pair");
    if (vf_param("clear", 0)) { plan->clear(); CHECK(plan->size() == 0, "a cleared weight plan moves nothing"); CHECK(plan->begin() == plan->end(), "a cleared weight plan is empty"); delete plan; logEnd(); vf_reach("end"); destroyGraph(g); PCU_Comm_Free(); return; }
    g->migrate(plan);
    VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) { int i = s.vidx(g->globalID(v)); CHECK(g->weight(v) == s.vw[i], "each vertex has lost what was sent and gained what was received"); }
    verifyGraph(g, s, V_EDGES | V_RES | V_ADJ | V_GLOBAL);
  }
  WeightPartitionMap* m = g->getWeightPartition();
  for (WeightPartitionMap::iterator i = m->begin(); i != m->end(); ++i) { int a = s.vidx(i->first); CHECK(a >= 0 && s.own[a] == s.me, "weight partition is kept for local vertices"); for (std::unordered_map<GID, wgt_t>::iterator j = i->second.begin(); j != i->second.end(); ++j) { int b = s.vidx(j->first); CHECK(b >= 0 && j->second == net[a][b], "weight partition records the net weight moved"); } }
  for (int a = 0; a < s.nv; a++) if (s.own[a] == s.me) { double sum = w0[a]; WeightPartitionMap::iterator i = m->find(s.vg[a]); if (i != m->end()) for (std::unordered_map<GID, wgt_t>::iterator j = i->second.begin(); j != i->second.end(); ++j) sum -= j->second; CHECK(sum == s.vw[a], "initial weight minus the recorded net movement is the current weight"); }
  if (vf_param("reset", 0)) { g->resetPartition(); CHECK(g->getWeightPartition()->empty(), "resetting forgets the weight partition"); }
  logEnd(); vf_reach("end");
  destroyGraph(g); PCU_Comm_Free();
}
