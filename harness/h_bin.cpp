// A binary edge list (pairs of 32-bit vertex ids), with or without a file of owners, loads as the directed graph it lists.
#include "common.hpp"
#include <cstring>
#include <sys/stat.h>
#include <binGraph.h>
#include <cstdio>
VF_MAIN() {
  startup(); Spec s; s.P = vf_size(); s.me = vf_self(); s.hg = 0; s.nt = 1; s.coords = 0; int nv = vf_param("nv", 3), parted = vf_param("parted", 0), loops = vf_param("loops", 0); s.ne[0] = vf_param("ne", 2); s.nv = nv;
  int top = 0; for (int e = 0; e < s.ne[0]; e++) { s.eg[0][e] = e; s.deg[0][e] = 2; s.ew[0][e] = 1; if (int m = fixedEdge(0, e)) { s.pin[0][e][0] = (m - 1) / nv; s.pin[0][e][1] = (m - 1) % nv; } else { s.pin[0][e][0] = (int)vf_conc(vf_r("src", e, 0, nv - 1)); s.pin[0][e][1] = (int)vf_conc(vf_r("dst", e, 0, nv - 1)); } if (!loops) vf_assume(s.pin[0][e][0] != s.pin[0][e][1]); for (int k = 0; k < 2; k++) if (s.pin[0][e][k] > top) top = s.pin[0][e][k]; }
  s.nv = top + 1; // the largest id named gives the number of vertices
  int block = s.nv / s.P + 1; for (int i = 0; i < s.nv; i++) { s.vg[i] = i; s.vw[i] = 1; s.own[i] = parted ? (int)vf_conc(vf_r("own", i, 0, s.P - 1)) : i / block; }
  char gf[500] = "", pf[500] = ""; { int k = 0, deep = vf_param("deep", 0); for (int i = 0; i < deep; i++) { gf[k++] = 'a' + i % 7; if (i % 90 == 89) { mkdir(gf, 0700); gf[k++] = '/'; } } strcpy(pf, gf); strcat(gf, "list.ebin"); strcat(pf, "list.part"); }
  if (s.me == 0) { FILE* f = fopen(gf, "wb"); CHECK(f != NULL, "the edge list can be written"); for (int e = 0; e < s.ne[0]; e++) { int w[2] = { s.pin[0][e][0], s.pin[0][e][1] }; fwrite(w, sizeof(int), 2, f); } fclose(f);
    if (parted) { f = fopen(pf, "w"); for (int i = 0; i < s.nv; i++) { char l[2] = { (char)('0' + s.own[i]), '\n' }; fwrite(l, 1, 2, f); } fclose(f); } }
  PCU_Barrier();
  Ngraph* g = createBinGraph(gf, parted ? pf : NULL);
  verifyGraph(g, s);
  if (vf_param("migr", 0)) { g->setOriginalOwners(); Migration* p = new Migration(g); for (int i = 0; i < s.nv; i++) { int d = (int)vf_conc(vf_r("to", i, 0, s.P - 1)); if (s.own[i] == s.me) p->insert(std::make_pair(g->findGID(i), d)); s.own[i] = d; } g->migrate(p); verifyGraph(g, s); }
  logEnd(); vf_reach("end"); destroyGraph(g); PCU_Comm_Free();
}
