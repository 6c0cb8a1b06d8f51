// Selection: what one process decides to send, given targets and a queue of boundary edges.
#include "common.hpp"
#include <engpar_queue.h>
#include <engpar_selector.h>
#include <engpar_metrics.h>
using namespace engpar;
static int cavOf(const Spec& s, int e, int* out) { int n = 0; for (int k = 0; k < s.deg[0][e]; k++) { int v = s.pin[0][e][k]; bool dup = false; for (int j = 0; j < n; j++) dup = dup || out[j] == v; if (s.own[v] == s.me && !dup) out[n++] = v; } return n; }
static bool cutE(const Spec& s, int e) { bool c = false; for (int k = 0; k < s.deg[0][e]; k++) c = c || s.own[s.pin[0][e][k]] != s.me; return c; }
// one boundary edge with a very large number of pins on this process
static void big(int n) {
  int me = vf_self(); Ngraph* g = createEmptyGraph(); std::vector<GID> v, e(1, 5), p; std::vector<wgt_t> w, ew(1, 1); std::vector<LID> d(1, n + 1); std::unordered_map<GID, part_t> ow; long x = vf_range("x", 0, 30);
  for (int i = 0; i <= n; i++) { int o = i < n ? 0 : 1; if (o == me) { v.push_back(i); w.push_back((double)(x + 1)); } else ow[i] = o; p.push_back(i); }
  g->constructVerts(true, v, w); g->constructEdges(e, d, p, ew); g->constructGhosts(ow);
  DiffusiveInput in(g); std::vector<int> cd; std::vector<double> cw; Queue* q = createIterationQueue(g); Selector* sel = makeSelector(&in, q, &cd, &cw); Migration* plan = new Migration(g);
  Sides* sd = makeSides(g, 0); Weights* wt = makeWeights(g, false, sd, -1); std::vector<wgt_t> none; Targets* t = makeTargets(true, 0.1, sd, wt, 2, NULL, none);
  double pw = sel->select(t, plan, 0, n + 2, -1); CHECK(plan->size() == (me == 0 ? n : 0), "a targeted cavity is planned as a whole"); CHECK(pw == (me == 0 ? (double)(n * (x + 1)) : 0), "the planned weight is the weight of the planned vertices");
  logEnd(); vf_reach("end"); delete sel; delete q; delete t; delete wt; delete sd; delete plan; destroyGraph(g); PCU_Comm_Free(); }
// what one step decides: cavities in the order of the queue until the targets are exceeded, each to the targeted process
// with room that it shares most edges with (any of them when several share as many)
struct Plan { int to[MV]; double sent[8], pw; };
static bool decide(const Spec& s, const int* order, int no, int i, Plan a, const int* to, double planW, const double* tg, const bool* has, double total, int cavsize, int limit, int dim) {
  for (; i < no && !(a.pw > total); i++) { int c[MV], m = cavOf(s, order[i], c), n[8] = {0}, best = 0; if (m >= cavsize) continue;
    for (int e = 0; e < s.ne[0]; e++) { bool inc = false, t[8] = {0}; for (int k = 0; k < m; k++) inc = inc || s.incid(0, e, c[k]); if (!inc) continue; for (int k = 0; k < s.deg[0][e]; k++) { int u = s.pin[0][e][k], o = s.own[u] != s.me ? s.own[u] : a.to[u]; if (o >= 0) t[o] = true; } for (int p = 0; p < s.P; p++) n[p] += t[p]; }
    bool can[8]; int ties = 0; for (int p = 0; p < s.P; p++) { can[p] = n[p] > 0 && has[p] && a.sent[p] < tg[p]; if (can[p] && limit > 0) { int cut = 0, un = 0; for (int k = 0; k < m; k++) for (int e = 0; e < s.ne[0]; e++) for (int z = s.incid(0, e, c[k]); z > 0; z--) { if (s.edgeOn(0, e, p)) cut++; else un++; } can[p] = cut && 2.0 * un < (double)limit * cut; } if (can[p] && n[p] > best) best = n[p]; }
    if (!best) continue; Plan b = a; 
    for (int p = 0; p < s.P; p++) if (can[p] && n[p] == best) { Plan x = a; double w = 0; bool fresh[MV] = {0}; for (int k = 0; k < m; k++) { if (x.to[c[k]] < 0) { fresh[c[k]] = true; if (dim == -1) w += s.vw[c[k]]; } x.to[c[k]] = p; }
      if (dim >= 0) for (int e = 0; e < s.ne[dim]; e++) if (!s.edgeOn(dim, e, p)) { bool f = false; for (int v = 0; v < s.nv; v++) f = f || (fresh[v] && s.incid(dim, e, v)); if (f) w += s.ew[dim][e]; }
      x.pw += w; x.sent[p] += w; if (ties++) { if (decide(s, order, no, i + 1, x, to, planW, tg, has, total, cavsize, limit, dim)) return true; } else b = x; }
    a = b; }
  for (int v = 0; v < s.nv; v++) if (s.own[v] == s.me && a.to[v] != to[v]) return false; return a.pw == planW; }
VF_MAIN() {
  startup(); if (vf_param("big", 0)) { big(vf_param("big", 0)); return; } Spec s; genSpec(s); int dim = vf_param("dim", -1), maxcav = vf_param("maxcav", 2), rounds = vf_param("rounds", 1), TW = vf_param("tw", 30), limit = vf_param("limit", 0), dist = vf_param("dist", 0), disc = vf_param("disc", 0);
  Ngraph* g = createEmptyGraph(); buildGraph(g, s); DiffusiveInput in(g); in.limitEdgeCutGrowth = limit / 2.0; std::vector<int> cd; std::vector<double> cw;
  Queue* q = dist ? createDistanceQueue(&in) : createIterationQueue(g); Selector* sel = makeSelector(&in, q, &cd, &cw); Migration* plan = new Migration(g);
  Sides* sd = makeSides(g, 0); Weights* w = makeWeights(g, false, sd, -1); sd->d.clear(); sd->my_total = 0; std::vector<wgt_t> none; Targets* t = makeTargets(false, 0.1, sd, w, 0, NULL, none);
  double tg[8], total = 0; bool has[8]; for (int p = 0; p < s.P; p++) { long x = vf_r("target", p, -1, TW); has[p] = p != s.me && x > 0; tg[p] = (double)x; if (has[p]) { t->set(p, tg[p]); total += tg[p]; } }
  if (disc) in.minConnectivity = disc;
  // the order of the boundary edges, and what a step should decide from it
  int order[ME], no = 0; q->startIteration(); for (Queue::iterator i = q->begin(); i != q->end(); i++) { GraphEdge* e = q->get(i); order[no++] = s.hg ? s.eidx(0, g->globalID(e)) : 0; q->addElement(e); }
  double planW = 0; for (int r = 0; r < rounds; r++) planW = sel->select(t, plan, planW, maxcav + 2 * r, dim);
  if (disc) sel->selectDisconnected(plan, dim);
  int lastcav = maxcav + 2 * (rounds - 1);
  // the plan, by description
  int to[MV]; bool seen[MV] = {0}; for (int i = 0; i < s.nv; i++) to[i] = -1; int n = 0;
  for (Migration::iterator it = plan->begin(); it != plan->end(); ++it) { int i = s.vidx(g->globalID(*it)); CHECK(i >= 0 && s.own[i] == s.me, "only own vertices are planned"); CHECK(!seen[i], "each vertex is planned once"); seen[i] = true; to[i] = plan->get(*it); n++; }
  CHECK((int)plan->size() == n, "size of the plan");
  double sumw = 0, maxc = 0;
  for (int e = 0; e < s.ne[0]; e++) if (s.edgeHere(0, e) && cutE(s, e)) { int c[MV], m = cavOf(s, e, c); double x = 0; if (m < lastcav) { for (int k = 0; k < m; k++) x += s.vw[c[k]]; if (x > maxc) maxc = x; } }
  // does vertex v of this part touch process p, directly or through a planned vertex
  auto touches = [&](const int* c, int m, int p) { for (int k = 0; k < m; k++) for (int e = 0; e < s.ne[0]; e++) if (s.incid(0, e, c[k])) for (int j = 0; j < s.deg[0][e]; j++) { int u = s.pin[0][e][j]; if (s.own[u] != s.me ? s.own[u] == p : to[u] == p) return true; } return false; };
  auto growthOk = [&](const int* c, int m, int p) { if (limit <= 0) return true; int cut = 0, un = 0; for (int k = 0; k < m; k++) for (int e = 0; e < s.ne[0]; e++) for (int z = s.incid(0, e, c[k]); z > 0; z--) { bool on = false; for (int j = 0; j < s.deg[0][e]; j++) on = on || s.own[s.pin[0][e][j]] == p; on ? cut++ : un++; } return cut ? 2.0 * un < (double)limit * cut : false; };
  for (int i = 0; i < s.nv; i++) if (to[i] >= 0) { sumw += s.vw[i];
    if (!disc) { CHECK(to[i] != s.me && has[to[i]], "vertices are planned only to targeted processes"); bool ok = false;
      for (int e = 0; e < s.ne[0]; e++) if (s.edgeHere(0, e) && cutE(s, e)) { int c[MV], m = cavOf(s, e, c); bool in1 = false, all = true; for (int k = 0; k < m; k++) { in1 = in1 || c[k] == i; all = all && to[c[k]] >= 0; } if (in1 && all && (rounds > 1 || m < lastcav) && touches(c, m, to[i]) && (rounds > 1 || growthOk(c, m, to[i]))) ok = true; }
      CHECK(ok, "a vertex moves with the whole cavity of a boundary edge that touches the receiving process"); }
    else CHECK(to[i] != s.me && to[i] >= 0 && to[i] < s.P, "vertices are planned to other processes"); }
  if (dim == -1 && !disc) { CHECK(planW == sumw, "the planned weight is the weight of the planned vertices"); CHECK(rounds > 1 || planW <= total + maxc, "not more than the targets and one cavity is planned"); }
  if (dim >= 0 && !disc && n == 0) CHECK(planW == 0, "nothing planned weighs nothing");
  if (rounds == 1 && !disc && s.hg) { Plan a; a.pw = 0; for (int i = 0; i < MV; i++) a.to[i] = -1; for (int p = 0; p < 8; p++) a.sent[p] = 0; CHECK(decide(s, order, no, 0, a, to, planW, tg, has, total, lastcav, limit, dim), "each cavity goes to the targeted process with room that it shares most edges with, in the order of the queue"); }
  // progress
  if (!disc) { bool could = false; for (int e = 0; e < s.ne[0]; e++) if (s.edgeHere(0, e) && cutE(s, e)) { int c[MV], m = cavOf(s, e, c); if (m > 0 && m < lastcav) for (int p = 0; p < s.P; p++) if (has[p] && touches(c, m, p) && growthOk(c, m, p)) could = true; }
    CHECK(n > 0 || !could, "something is planned when a small enough cavity touches a targeted process");
    // nothing that fits is left behind
    if (dim == -1 && rounds == 1 && limit <= 0 && planW <= total) { double sent[8] = {0}; for (int i = 0; i < s.nv; i++) if (to[i] >= 0) sent[to[i]] += s.vw[i];
      if (s.P == 2) for (int e = 0; e < s.ne[0]; e++) if (s.edgeHere(0, e) && cutE(s, e)) { int c[MV], m = cavOf(s, e, c); bool un = false; for (int k = 0; k < m; k++) un = un || to[c[k]] < 0; if (un && m < lastcav) CHECK(!has[1 - s.me] || sent[1 - s.me] >= tg[1 - s.me], "small enough cavities are planned until the target is met"); } } }
  if (n > 0) vf_reach("planned");
  // book-keeping for the part weight balancer
  WeightPartitionMap wp; double pw[8]; for (int p = 0; p < s.P; p++) { pw[p] = 5 * p + 1; wp[s.me][p] = pw[p]; } sel->updatePartWeight(plan, dim, &wp);
  for (int p = 0; p < s.P; p++) { double x = 0; if (dim == -1) { for (int i = 0; i < s.nv; i++) if (to[i] == p) x += s.vw[i]; } else for (int e = 0; e < s.ne[dim]; e++) { bool mv = false, on = false; for (int k = 0; k < s.deg[dim][e]; k++) on = on || s.own[s.pin[dim][e][k]] == p; for (int i = 0; i < s.nv; i++) mv = mv || (to[i] == p && s.incid(dim, e, i)); if (mv && !on) x += s.ew[dim][e]; }
    CHECK(wp[s.me][p] == pw[p] - x, "what is planned is subtracted from the amounts still to be sent"); }
  logEnd(); vf_reach("end"); delete sel; delete q; delete t; delete w; delete sd; delete plan; destroyGraph(g); PCU_Comm_Free();
}
