// Construction: everything the library reports equals the graph that was described to it.
#include "common.hpp"
VF_MAIN() {
  startup();
  Spec s; genSpec(s); int mode = vf_param("mode", 0);
  int what = vf_param("what", V_ALL);
  bool ew = vf_param("ewgt", 1), vw = vf_param("vwgt", 1);
  Ngraph* g = createEmptyGraph();
  buildGraph(g, s, mode, ew, vw);
  if (!ew) for (int t = 0; t < s.nt; t++) for (int e = 0; e < s.ne[t]; e++) s.ew[t][e] = 1;
  if (!vw) for (int i = 0; i < s.nv; i++) s.vw[i] = 1;
  verifyGraph(g, s, what);
  vf_reach("verified");
  destroyGraph(g);
  logEnd(); CHECK(logged("constructVerts: Creating ") && logged("constructEdges: 0\n") && logged("constructGhosts\n"), "traced calls are in the log by their names"); vf_reach("end");
  PCU_Comm_Free();
}
