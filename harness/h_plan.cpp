// Migration plans behave as maps from local vertices to destinations.
#include "common.hpp"
VF_MAIN() {
  startup();
  Spec s; genSpec(s); int ops = vf_param("ops", 3);
  Ngraph* g = createEmptyGraph(); buildGraph(g, s);
  Migration* p = new Migration(g); int want[MV]; for (int i = 0; i < MV; i++) want[i] = -1;
  for (int k = 0; k < ops; k++) {
    int op = (int)vf_conc(vf_r("op", k, 0, s.nv)); int d = (int)vf_r("dst", k, 0, 1000000);
    if (op == s.nv) { p->clear(); for (int i = 0; i < MV; i++) want[i] = -1; }
    else if (s.own[op] == s.me) { bool fresh = p->insert(std::make_pair(g->findGID(s.vg[op]), d)); CHECK(fresh == (want[op] < 0), "insertion reports whether the vertex was new"); want[op] = d; }
    int n = 0; for (int i = 0; i < s.nv; i++) { if (!s.ghostHere(i) && s.own[i] != s.me) continue; GraphVertex* v = g->findGID(s.vg[i]); CHECK(p->has(v) == (want[i] >= 0), "plan membership"); if (want[i] >= 0) { CHECK(p->get(v) == want[i], "latest destination"); n++; } }
    CHECK(p->size() == n, "plan size");
    bool seen[MV] = {0}; for (Migration::iterator it = p->begin(); it != p->end(); ++it) { int i = s.vidx(g->globalID(*it)); CHECK(i >= 0 && want[i] >= 0 && !seen[i], "plan iteration visits each planned vertex once"); seen[i] = true; n--; }
    CHECK(n == 0, "plan iteration visits every planned vertex");
  }
  delete p;
  verifyGraph(g, s, V_VERTS | V_EDGES | V_GHOSTS);
  logEnd(); vf_reach("end"); destroyGraph(g); PCU_Comm_Free();
}
