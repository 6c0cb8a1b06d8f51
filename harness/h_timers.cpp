// Migration timers: every timer holds exactly the values and the number of calls recorded under its name.
#include "common.hpp"
#include <agiMigrationTimers.h>
#include <string>
VF_MAIN() {
  PCU_Comm_Init(); int n = vf_param("n", 3), ops = vf_param("ops", 4), late = vf_param("late1", 1), P = vf_size(), me = vf_self(); MigrationTimers m; double at[4][40]; int ac[4][40]; for (int i = 0; i < n; i++) for (int p = 0; p < P; p++) at[p][i] = ac[p][i] = 0;
  int up = (int)vf_conc(vf_r("order", 0, 0, 0, 1)); // names that begin with others, in either order
  std::string nm[40]; for (int i = 0; i < n; i++) { int j = up ? i : n - 1 - i; nm[i] = std::string("timer") + (char)('a' + j / 2); if (j % 2) nm[i] += " of phase"; }
  for (int i = 0; i < n - late; i++) m.addTimer(nm[i]);
  for (int k = 0; k < ops; k++) { int made = k < ops / 2 ? n - late : n; if (k == ops / 2) for (int i = n - late; i < n; i++) m.addTimer(nm[i]); // some timers come later
    for (int p = 0; p < P; p++) { int i = (int)vf_conc(vf_r("which", p, k, vf_param("lo", 0), made - 1)); double v = (double)vf_r("value", p, k, 0, vf_param("vmax", 1000)); if (p == me) m.update(nm[i], v); at[p][i] += v; ac[p][i]++; } }
  for (int i = 0; i < n; i++) { CHECK(m.getTime(nm[i]) == at[me][i], "accumulated time"); CHECK(m.getCount(nm[i]) == ac[me][i], "number of calls"); }
  for (int i = 0; i < n; i++) { double mx = at[0][i], sum = 0; bool all = true; for (int p = 0; p < P; p++) { mx = at[p][i] > mx ? at[p][i] : mx; sum += at[p][i]; all = all && ac[p][i]; }
    CHECK(m.processMax(nm[i]) == mx, "largest time of a process"); CHECK(m.processAvg(nm[i]) == sum / P, "average time of the processes");
    if (all && vf_param("percall", 1)) { double pm = at[0][i] / ac[0][i], ps = 0; for (int p = 0; p < P; p++) { double q = at[p][i] / ac[p][i]; pm = q > pm ? q : pm; ps += q; } CHECK(m.perCallProcessMax(nm[i]) == pm, "largest time per call"); if (vf_param("avg", 1)) CHECK(m.perCallProcessAvg(nm[i]) == ps / P, "average time per call"); } }
  if (int r = vf_param("mig", 0)) { const char* ph[4] = {"setup", "comm", "build", "total"}; for (int i = 0; i < 4; i++) m.addTimer(ph[i]); static Spec s; genSpec(s); Ngraph* g = createEmptyGraph(); buildGraph(g, s, 0); g->setOriginalOwners();
    for (int k = 0; k < r; k++) { Migration* p = new Migration(g); for (int v = 0; v < s.nv; v++) { int to = (int)vf_conc(vf_r("to", k, v, 0, s.P - 1)); if (s.own[v] == s.me) p->insert(std::make_pair(g->findGID(s.vg[v]), to)); s.own[v] = to; } g->migrate(p, &m); }
    double q = 0; for (int i = 0; i < 4; i++) { CHECK(m.getCount(ph[i]) == r, "every migration is recorded once in each of its phases"); CHECK(m.getTime(ph[i]) >= 0, "time does not run backwards"); } for (int i = 0; i < n; i++) CHECK(m.getTime(nm[i]) == at[me][i] && m.getCount(nm[i]) == ac[me][i], "other timers are left alone"); verifyGraph(g, s, V_ALL); destroyGraph(g); (void)q; }
  vf_reach("end"); PCU_Comm_Free();
}
