// The validity checker accepts every correctly described graph and rejects ghosts whose owner is impossible.
#include "common.hpp"
VF_MAIN() {
  startup();
  Spec s; genSpec(s); int bad = vf_param("bad", 0), migr = vf_param("migr", 0);
  Ngraph* g = createEmptyGraph(); 
  if (!bad) {
    buildGraph(g, s, vf_param("mode", 0)); CHECK(checkValidity(g), "a correctly described graph is valid");
    if (migr) { g->setOriginalOwners(); Migration* p = new Migration(g); for (int i = 0; i < s.nv; i++) { int d = (int)vf_conc(vf_r("to", i, -1, s.P - 1)); if (d >= 0) { if (s.own[i] == s.me) p->insert(std::make_pair(g->findGID(s.vg[i]), d)); } } g->migrate(p); CHECK(checkValidity(g), "a migrated graph is valid"); }
    vf_reach("accepted");
  } else {
    // same description, except that this process is told a wrong owner for one of its ghosts
    buildGraph(g, s, 0); int ng = g->numGhostVtxs(); int nr[16]; for (int i = 0; i < 16; i++) nr[i] = i;
    int which = (int)vf_conc(vf_range("bad", 0, s.P - 1)); long to = vf_range("badowner", vf_param("blow", -1000000), 1000000); int sel = (int)vf_range("ghostowner", 0, s.P - 1);
    vf_assume(sel != which); 
    bool hit = false; for (int i = 0; i < s.nv; i++) if (s.me == which && s.ghostHere(i) && s.own[i] == sel) hit = true;
    vf_assume(to < 0 || to >= s.P || to == which);
    if (s.me == which) { nr[sel] = (int)to; g->changeOwners(nr); }
    // the wrong owner must not change the counts that are checked first
    bool ok = checkValidity(g);
    if (hit) { CHECK(!ok, "a ghost owned by its own process or by a process that does not exist is rejected"); vf_reach("rejected"); }
  }
  logEnd(); vf_reach("end"); destroyGraph(g); PCU_Comm_Free();
}
