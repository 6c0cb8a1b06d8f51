// Tags: a tag behaves as a function of the element; setting one element of one tag changes nothing else.
// Ghost tags hold the value the owner computes for that vertex.
#include "common.hpp"
static Spec* S;
static int cbI(Ngraph* g, GraphVertex* v) { int i = S->vidx(g->globalID(v)); CHECK(i >= 0 && S->own[i] == S->me, "ghost tag callback runs on the owner"); return (int)vf_r("gi", i, -1000000, 1000000); }
static long cbL(Ngraph* g, GraphVertex* v) { int i = S->vidx(g->globalID(v)); CHECK(i >= 0 && S->own[i] == S->me, "ghost tag callback runs on the owner"); return vf_r("gl", i, -(1L << 50), 1L << 50); }
static double cbD(Ngraph* g, GraphVertex* v) { int i = S->vidx(g->globalID(v)); CHECK(i >= 0 && S->own[i] == S->me, "ghost tag callback runs on the owner"); return bitsD(vf_r("gd", i, LMIN, LMAX)); }
VF_MAIN() {
  startup();
  Spec s; S = &s; genSpec(s); int ops = vf_param("ops", 2), edges = vf_param("edges", 1);
  Ngraph* g = createEmptyGraph(); buildGraph(g, s);
  int T = edges ? s.nt : 0;
  // two tags of each element kind and value kind
  GraphTag *vi = g->createIntTag(), *vl = g->createLongTag(), *vd = g->createDoubleTag(), *vi2 = g->createIntTag(VTX_TYPE); GraphTag* et[MT][3];
  for (int t = 0; t < T; t++) { et[t][0] = g->createIntTag(t); et[t][1] = g->createLongTag(t); et[t][2] = g->createDoubleTag(t); }
  GraphTag *gi = g->createIntGhostTag(cbI), *gl = g->createLongGhostTag(cbL), *gd = g->createDoubleGhostTag(cbD);
  long wv[4][MV]; long we[MT][3][ME];
  VertexIterator* it = g->begin(); agi::GraphVertex* v; while ((v = g->iterate(it))) { int i = g->localID(v); wv[0][i] = vf_r("vi", s.me, i, -2147483647L - 1, 2147483647L); wv[1][i] = vf_r("vl", s.me, i, -(1L << 60), 1L << 60); wv[2][i] = vf_r("vd", s.me, i, LMIN, LMAX); wv[3][i] = i; g->setIntTag(vi, v, (int)wv[0][i]); g->setLongTag(vl, v, wv[1][i]); g->setDoubleTag(vd, v, bitsD(wv[2][i])); g->setIntTag(vi2, v, i); }
  for (int t = 0; t < T; t++) { EdgeIterator* ei = g->begin(t); GraphEdge* e; while ((e = g->iterate(ei))) { int i = g->localID(e); we[t][0][i] = vf_r3("ei", s.me, t, i, -2147483647L - 1, 2147483647L); we[t][1][i] = vf_r3("el", s.me, t, i, -(1L << 60), 1L << 60); we[t][2][i] = vf_r3("ed", s.me, t, i, LMIN, LMAX); g->setIntTag(et[t][0], e, (int)we[t][0][i]); g->setLongTag(et[t][1], e, we[t][1][i]); g->setDoubleTag(et[t][2], e, bitsD(we[t][2][i])); } g->destroy(ei); }
  for (int k = 0; k <= ops; k++) {
    it = g->begin(); while ((v = g->iterate(it))) { int i = g->localID(v); CHECK(g->getIntTag(vi, v) == (int)wv[0][i] && g->getIntTag(vi2, v) == (int)wv[3][i], "integer vertex tag"); CHECK(g->getLongTag(vl, v) == wv[1][i], "long vertex tag"); CHECK(sameD(g->getDoubleTag(vd, v), bitsD(wv[2][i])), "double vertex tag"); }
    for (int t = 0; t < T; t++) { EdgeIterator* ei = g->begin(t); GraphEdge* e; while ((e = g->iterate(ei))) { int i = g->localID(e); CHECK(g->getIntTag(et[t][0], e) == (int)we[t][0][i], "integer edge tag"); CHECK(g->getLongTag(et[t][1], e) == we[t][1][i], "long edge tag"); CHECK(sameD(g->getDoubleTag(et[t][2], e), bitsD(we[t][2][i])), "double edge tag"); } g->destroy(ei); }
    GhostIterator* q = g->beginGhosts(); while ((v = g->iterate(q))) { int i = s.vidx(g->globalID(v)); CHECK(g->getIntTag(gi, v) == (int)vf_r("gi", i, -1000000, 1000000), "integer ghost tag is the owner's value"); CHECK(g->getLongTag(gl, v) == vf_r("gl", i, -(1L << 50), 1L << 50), "long ghost tag is the owner's value"); CHECK(sameD(g->getDoubleTag(gd, v), bitsD(vf_r("gd", i, LMIN, LMAX))), "double ghost tag is the owner's value"); }
    if (k == ops || !g->numLocalVtxs()) continue;
    int n = g->numLocalVtxs(); long pk = vf_r("pick", s.me, k, 0, s.nv - 1); vf_assume(pk < n); int i = (int)vf_conc(pk); int w = (int)vf_conc(vf_r("kind", k, 0L, 3L)); long x = vf_r("newval", s.me, k, LMIN, LMAX); it = g->begin(); for (int j = 0; j <= i; j++) v = g->iterate(it);
    if (w == 0 || w == 3) x = (int)x; wv[w][i] = x; if (w == 0) g->setIntTag(vi, v, (int)x); if (w == 1) g->setLongTag(vl, v, x); if (w == 2) g->setDoubleTag(vd, v, bitsD(x)); if (w == 3) g->setIntTag(vi2, v, (int)x);
  }
  g->destroyTag(vi); g->destroyTag(vl); g->destroyTag(vd); g->destroyTag(vi2); g->destroyTag(gi); g->destroyTag(gl); g->destroyTag(gd); for (int t = 0; t < T; t++) for (int k = 0; k < 3; k++) g->destroyTag(et[t][k]);
  verifyGraph(g, s, V_VERTS | V_EDGES | V_GHOSTS | V_GW);
  logEnd(); vf_reach("end"); destroyGraph(g); PCU_Comm_Free();
}
