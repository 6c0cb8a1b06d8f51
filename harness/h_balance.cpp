// Diffusive balancing end to end: whatever it decides, the distributed graph stays the same graph; it ends on every
// process; a balanced graph is left alone; criteria balanced first are kept; the partition map says where everything went.
#include "common.hpp"
#include <stdio.h>
#include <engpar.h>
#include <engpar_diffusive_input.h>
using namespace engpar;
static double W(const Spec& s, const int* own, int p, int d, int ghosts) { double w = 0;
  if (d == -1) for (int i = 0; i < s.nv; i++) { if (own[i] == p) w += s.vw[i]; else if (ghosts) { bool gh = false; for (int t = 0; t < s.nt; t++) for (int e = 0; e < s.ne[t]; e++) { bool in = false, on = false; for (int k = 0; k < s.deg[t][e]; k++) { in = in || s.pin[t][e][k] == i; on = on || (s.hg || k == 0 ? own[s.pin[t][e][k]] == p : false); } gh = gh || (in && on); } if (gh) w += s.vw[i]; } }
  else for (int e = 0; e < s.ne[d]; e++) { bool on = s.hg ? false : own[s.pin[d][e][0]] == p; if (s.hg) for (int k = 0; k < s.deg[d][e]; k++) on = on || own[s.pin[d][e][k]] == p; if (on) w += s.ew[d][e]; }
  return w; }
static DiffusiveInput* input(Ngraph* g, int n, const int* pr, const double* tol) {
  if (vf_param("capi", 0)) { engparInput e = cengpar_createDiffusiveInput((ngraph)g, vf_param("sf", 50) / 100.0); Input* b = (Input*)e; DiffusiveInput* in = dynamic_cast<DiffusiveInput*>(b); CHECK(in != NULL && in->g == g, "the C interface gives an input for diffusion"); CHECK(in->step_factor == vf_param("sf", 50) / 100.0, "step factor of the C interface");
    for (int i = 0; i < n; i++) cengpar_addPriority(e, pr[i], tol[i]); CHECK((int)in->priorities.size() == n && (int)in->tolerances.size() == n, "criteria of the C interface"); for (int i = 0; i < n; i++) CHECK(in->priorities[i] == pr[i] && in->tolerances[i] == tol[i], "criteria of the C interface");
    const double other[4] = { 1.25, 0.137, 1e6 + 0.5, -1 }; for (int i = 0; i < 4; i++) { cengpar_setCutGrowthFactor(e, other[i]); CHECK(in->limitEdgeCutGrowth == other[i], "growth factor of the C interface"); cengpar_balanceGhosts(e, i % 2); CHECK(in->countGhosts == (bool)(i % 2), "ghosts counted or not through the C interface"); }
    cengpar_setCutGrowthFactor(e, vf_param("limit", 0) / 2.0); CHECK(in->limitEdgeCutGrowth == vf_param("limit", 0) / 2.0, "growth factor of the C interface"); cengpar_balanceGhosts(e, vf_param("ghosts", 0)); CHECK(in->countGhosts == (bool)vf_param("ghosts", 0), "ghosts counted or not through the C interface");
    in->maxIterations = vf_param("iters", 4); in->maxIterationsPerType = vf_param("itype", 3); if (!g->isHyper()) in->useDistanceQueue = false; return in; }
  DiffusiveInput* in = dynamic_cast<DiffusiveInput*>(createDiffusiveInput(g, vf_param("sf", 50) / 100.0)); CHECK(in != NULL && in->g == g, "an input for diffusion"); for (int i = 0; i < n; i++) in->addPriority(pr[i], tol[i]);
  in->maxIterations = vf_param("iters", 4); in->maxIterationsPerType = vf_param("itype", 3); in->countGhosts = vf_param("ghosts", 0); in->useDistanceQueue = vf_param("dist", g->isHyper() ? 1 : 0); in->bfsPush = vf_param("push", 1); in->runPartWeightBalancer = vf_param("pw", 0); in->limitEdgeCutGrowth = vf_param("limit", 0) / 2.0; in->minConnectivity = vf_param("minc", 1);
  in->sides_edge_type = vf_param("sidet", 0); return in; }
static void gather(Ngraph* g, const Spec& s, int* own) { // who owns what now, from every process' own vertices
  int mine[MV]; for (int i = 0; i < s.nv; i++) { mine[i] = 0; own[i] = -1; } VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) { int i = s.vidx(g->globalID(v)); CHECK(i >= 0, "only vertices of the graph are held"); CHECK(!mine[i], "each vertex is held once"); mine[i] = 1; own[i] = s.me; }
  PCU_Comm_Begin(); for (int p = 0; p < s.P; p++) if (p != s.me) PCU_Comm_Pack(p, mine, sizeof mine); PCU_Comm_Send();
  while (PCU_Comm_Receive()) { int o[MV]; PCU_Comm_Unpack(o, sizeof o); for (int i = 0; i < s.nv; i++) if (o[i]) { CHECK(own[i] == -1, "no vertex is held by two processes"); own[i] = PCU_Comm_Sender(); } }
  for (int i = 0; i < s.nv; i++) CHECK(own[i] >= 0, "no vertex is lost"); }
VF_MAIN() {
  startup(); Spec s; genSpec(s); int n = vf_param("prios", 1), pr[3] = { (int)vf_param("p0", -1), (int)vf_param("p1", 0), (int)vf_param("p2", 1) }; double tol[3]; for (int i = 0; i < n; i++) tol[i] = vf_param(i ? "tol1" : "tol", 105) / 100.0;
  int first[MV], fin[MV], ghosts = vf_param("ghosts", 0); for (int i = 0; i < s.nv; i++) first[i] = s.own[i];
  double cap[3]; // what the criteria may weigh at the end: the larger of what they reached and what was asked for
  if (n > 1) for (int k = 1; k < n; k++) { Ngraph* h = createEmptyGraph(); buildGraph(h, s); balance(input(h, k, pr, tol), VERB()); int o[MV]; gather(h, s, o); double mx = 0, tot = 0; for (int p = 0; p < s.P; p++) { double w = W(s, o, p, pr[k - 1], ghosts); tot += w; if (w > mx) mx = w; } cap[k - 1] = mx; if (tot / s.P * tol[k - 1] > mx) cap[k - 1] = tot / s.P * tol[k - 1]; destroyGraph(h); }
  Ngraph* g = createEmptyGraph(); buildGraph(g, s);
  bool balanced = true, defined = true; for (int k = 0; k < n; k++) { double mx = 0, tot = 0; for (int p = 0; p < s.P; p++) { double w = W(s, first, p, pr[k], ghosts); tot += w; if (w > mx) mx = w; } if (tot == 0) defined = false; if (!(tot != 0 && mx / (tot / s.P) < tol[k])) balanced = false; }
  if (vf_param("capi", 0)) cengpar_balance((engparInput)(Input*)input(g, n, pr, tol), VERB()); else balance(input(g, n, pr, tol), VERB());
  gather(g, s, fin); bool moved = false; for (int i = 0; i < s.nv; i++) { moved = moved || fin[i] != first[i]; s.own[i] = fin[i]; }
  verifyGraph(g, s);
  if (s.P > 1) {
  VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) CHECK(g->originalOwner(v) == first[s.vidx(g->globalID(v))], "the original owner is the owner before balancing");
  PartitionMap* m = g->getPartition(); int c = 0; for (int i = 0; i < s.nv; i++) if (first[i] == s.me) { PartitionMap::iterator q = m->find(s.vg[i]); CHECK(q != m->end() && q->second == fin[i], "the partition map tells where every vertex went"); c++; } CHECK((int)m->size() == c, "the partition map holds nothing else"); delete m; }
  if (balanced && defined) { CHECK(!moved, "a balanced graph is left alone"); vf_reach("balanced"); }
  if (s.P == 1) CHECK(!moved, "nothing moves on a single process");
  if (moved) vf_reach("moved");
  for (int k = 0; k + 1 < n; k++) if (pr[k] == -1 || s.hg) if (!ghosts) for (int p = 0; p < s.P; p++) CHECK(W(s, fin, p, pr[k], 0) <= cap[k], "balancing a later criterion keeps the ones balanced before");
  for (int i = 0; i < s.nv; i++) if (fin[i] != first[i]) { bool edge = false; for (int t = 0; t < s.nt; t++) for (int e = 0; e < s.ne[t]; e++) for (int k = 0; k < s.deg[t][e]; k++) edge = edge || s.pin[t][e][k] == i; CHECK(edge, "only vertices at an edge move"); }
  logEnd();
  if (vf_param("log", 0) && !s.me) { char b[80]; int k = sprintf(b, " priorities :"); for (int i = 0; i < n; i++) k += sprintf(b + k, " %d", pr[i]); sprintf(b + k, "\n"); CHECK(logged(b), "the call log names the criteria in order"); k = sprintf(b, " tolerances :"); for (int i = 0; i < n; i++) k += sprintf(b + k, " %f", tol[i]); sprintf(b + k, "\n"); CHECK(logged(b), "the call log names the tolerances in order");
    sprintf(b, " maxIterations : %d\n", (int)vf_param("iters", 4)); CHECK(logged(b), "the call log names the limits"); sprintf(b, " maxIterationsPerType : %d\n", (int)vf_param("itype", 3)); CHECK(logged(b), "the call log names the limits"); sprintf(b, " step_factor : %f\n", vf_param("sf", 50) / 100.0); CHECK(logged(b), "the call log names the step factor"); sprintf(b, " sides_edge_type : %d\n", (int)vf_param("sidet", 0)); CHECK(logged(b), "the call log names the edge type of sides"); sprintf(b, " countGhosts : %d\n", ghosts); CHECK(logged(b), "the call log names the ghost option"); }
  if (vf_param("twin", 0)) { for (int i = 0; i < s.nv; i++) s.own[i] = first[i]; EnGPar_Set_Verbosity(-1); Ngraph* h = createEmptyGraph(); buildGraph(h, s); balance(input(h, n, pr, tol), -1); int o[MV]; gather(h, s, o); for (int i = 0; i < s.nv; i++) CHECK(o[i] == fin[i], "the decisions do not depend on messages and the call log"); destroyGraph(h); }
  vf_reach("end"); destroyGraph(g); PCU_Comm_Free();
}
