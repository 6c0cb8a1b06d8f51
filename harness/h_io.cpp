// Saving a distributed graph and loading it back (into a new or a used graph object) reproduces it.
#include "common.hpp"
VF_MAIN() {
  startup();
  Spec s; genSpec(s); int reuse = vf_param("reuse", 0), migr = vf_param("migr", 0);
  Ngraph* g = createEmptyGraph(); buildGraph(g, s);
  static char where[400]; { const char* n = "dir/graph"; int deep = vf_param("deep", 0), k = 0; for (int i = 0; i < deep; i++) where[k++] = i % 60 == 59 ? '/' : 'a' + i % 7; for (int i = 0; i < 10; i++) where[k++] = n[i]; }
  int capi = vf_param("capi", 0); if (capi) cengpar_saveToFile((ngraph)g, where); else g->saveToFile(where);
  PCU_Barrier();
  Ngraph* h = createEmptyGraph();
  if (reuse) { Spec z = s; z.nt = 1; z.ne[0] = 1; z.hg = s.hg; for (int i = 0; i < z.nv; i++) z.own[i] = s.P - 1 - s.own[i]; buildGraph(h, z); }
  if (capi) cengpar_loadFromFile((ngraph)h, where); else h->loadFromFile(where);
  verifyGraph(h, s);
  verifyGraph(g, s);
  CHECK(h->hasCoords() == (bool)s.coords, "coordinates are restored exactly when they were saved");
  if (migr) { h->setOriginalOwners(); Migration* p = new Migration(h); for (int i = 0; i < s.nv; i++) if (s.own[i] == s.me && i == 0) p->insert(std::make_pair(h->findGID(s.vg[i]), (s.own[i] + 1) % s.P)); h->migrate(p); s.own[0] = (s.own[0] + 1) % s.P; verifyGraph(h, s); }
  if (vf_param("overwrite", 0)) { h->saveToFile(where); PCU_Barrier(); g->loadFromFile(where); verifyGraph(g, s); }
  logEnd(); vf_reach("end");
  if (capi) { cengpar_checkValidity((ngraph)h); cengpar_destroyGraph((ngraph)g); cengpar_destroyGraph((ngraph)h); } else { destroyGraph(g); destroyGraph(h); } PCU_Comm_Free();
}
