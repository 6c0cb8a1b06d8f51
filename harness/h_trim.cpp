// Trimming: however much the processes plan to send, what is left of the plans keeps every part within the limits of
// the criteria balanced before, cancels nothing that fits, and never sends a vertex elsewhere than planned.
#include "common.hpp"
#include <engpar_queue.h>
#include <engpar_selector.h>
#include <engpar_metrics.h>
using namespace engpar;
static double W(const Spec& s, const int* own, int p, int d) { double w = 0; if (d == -1) { for (int i = 0; i < s.nv; i++) if (own[i] == p) w += s.vw[i]; } else for (int e = 0; e < s.ne[d]; e++) { bool on = false; for (int k = 0; k < s.deg[d][e]; k++) on = on || own[s.pin[d][e][k]] == p; if (on) w += s.ew[d][e]; } return w; }
VF_MAIN() {
  startup(); Spec s; genSpec(s); int nd = vf_param("dims", 1), d0 = vf_param("d0", -1), d1 = vf_param("d1", 0), d2 = vf_param("d2", 1); int dims[8] = {d0, d1, d2}; for (int i = 3; i < 8; i++) dims[i] = dims[i % 2]; Ngraph* g = createEmptyGraph(); buildGraph(g, s);
  std::vector<int> cd; std::vector<double> cw; double cap[8]; for (int i = 0; i < nd; i++) { cd.push_back(dims[i]); cap[i] = vf_r("cap", i, 0, 4 * vf_param("wmax", 1000)); cw.push_back(cap[i]); }
  DiffusiveInput in(g); Queue* q = createIterationQueue(g); Selector* sel = makeSelector(&in, q, &cd, &cw); Migration* plan = new Migration(g); int dst[MV];
  for (int i = 0; i < s.nv; i++) dst[i] = (int)vf_conc(vf_r("to", i, -1, s.P - 1));
  for (int i = 0; i < s.nv; i++) { if (dst[i] == s.own[i]) dst[i] = -1; // selection only plans moves to other processes that share an edge with the vertex
    if (dst[i] >= 0) { bool nb = false; for (int e = 0; e < s.ne[0]; e++) if (s.incid(0, e, i)) for (int k = 0; k < s.deg[0][e]; k++) nb = nb || s.own[s.pin[0][e][k]] == dst[i]; vf_assume(nb || vf_param("anywhere", 0)); } }
  int nplan = 0; for (int i = 0; i < s.nv; i++) if (dst[i] >= 0 && s.own[i] == s.me) { plan->insert(std::make_pair(g->findGID(s.vg[i]), dst[i])); nplan++; }
  Midd* m = sel->trim(NULL, plan); sel->cancel(plan, m);
  int n = 0; int fin[MV]; for (int i = 0; i < s.nv; i++) fin[i] = s.own[i]; bool seen[MV] = {0};
  for (Migration::iterator it = plan->begin(); it != plan->end(); ++it) { int i = s.vidx(g->globalID(*it)); CHECK(i >= 0 && s.own[i] == s.me && dst[i] >= 0, "trimming adds no vertex to a plan"); CHECK(!seen[i], "each vertex is planned once"); seen[i] = true; CHECK(plan->get(*it) == dst[i], "trimming changes no destination"); fin[i] = dst[i]; n++; }
  CHECK((int)plan->size() == n && n <= nplan, "size of the trimmed plan");
  PCU_Comm_Begin(); for (int p = 0; p < s.P; p++) if (p != s.me) PCU_Comm_Pack(p, fin, sizeof fin); PCU_Comm_Send();
  while (PCU_Comm_Receive()) { int o[MV]; PCU_Comm_Unpack(o, sizeof o); for (int i = 0; i < s.nv; i++) if (s.own[i] == PCU_Comm_Sender()) fin[i] = o[i]; }
  bool fits = true;
  for (int i = 0; i < nd; i++) { double now = W(s, s.own, s.me, dims[i]), after = W(s, fin, s.me, dims[i]); CHECK(after <= cap[i] || after <= now, "no part grows beyond the limit of a criterion balanced before");
    for (int p = 0; p < s.P; p++) { double inc = 0; // what the senders announce: per sender the weight new to p
      for (int r = 0; r < s.P; r++) if (r != p) { if (dims[i] == -1) { for (int v = 0; v < s.nv; v++) if (s.own[v] == r && dst[v] == p) inc += s.vw[v]; } else for (int e = 0; e < s.ne[dims[i]]; e++) { bool a = false; for (int k = 0; k < s.deg[dims[i]][e]; k++) { int v = s.pin[dims[i]][e][k]; a = a || (s.own[v] == r && dst[v] == p); } if (a && !s.edgeOn(dims[i], e, p)) inc += s.ew[dims[i]][e]; } }
      if (!(W(s, s.own, p, dims[i]) + inc < cap[i])) fits = false; } }
  if (fits) { CHECK(n == nplan, "nothing is cancelled when everything fits"); vf_reach("fits"); } 
  if (n < nplan) vf_reach("cancelled");
  logEnd(); vf_reach("end"); delete sel; delete q; delete plan; destroyGraph(g); PCU_Comm_Free();
}
