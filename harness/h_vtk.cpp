// The visualisation files: each part's piece holds its points with their coordinates, a line per edge (or pin), the part
// numbers and the tag; the index names the pieces.
#include "common.hpp"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <sys/stat.h>
static char buf[20000]; static int len; static char pre[400];
static const char* at(const char* end) { static char n[500]; strcpy(n, pre); strcat(n, end); return n; }
 static char* cur;
static void load(const char* n) { FILE* f = fopen(n, "r"); CHECK(f != NULL, "the file is written"); len = (int)fread(buf, 1, sizeof buf - 1, f); buf[len] = 0; fclose(f); cur = buf; }
static void after(const char* m) { char* p = strstr(cur, m); CHECK(p != NULL, "the file has the expected section"); cur = p + strlen(m); }
static bool absent(const char* m) { return strstr(buf, m) == NULL; }
static void blank() { while (*cur == ' ' || *cur == '\n') cur++; }
static bool number() { blank(); return *cur == '-' || (*cur >= '0' && *cur <= '9'); }
static long integer() { CHECK(number(), "a number is written"); char* e; long r = strtol(cur, &e, 10); cur = e; return r; }
static double real() { CHECK(number(), "a coordinate is written"); char* e; double r = strtod(cur, &e); cur = e; return r; }
static void ends() { blank(); CHECK(strncmp(cur, "</DataArray>", 12) == 0, "an array has one entry per element"); }
static bool near(double a, double b) { return a - b < 1e-5 && b - a < 1e-5; }
VF_MAIN() {
  { int k = 0, deep = vf_param("deep", 0); for (int i = 0; i < deep; i++) { pre[k++] = 'a' + i % 7; if (i % 90 == 89) { mkdir(pre, 0700); pre[k++] = '/'; } } strcpy(pre + k, "out_"); }
  startup(); Spec s; genSpec(s); Ngraph* g = createEmptyGraph(); buildGraph(g, s); PNgraph* pg = g->publicize();
  if (vf_param("migr", 0)) { g->setOriginalOwners(); Migration* p = new Migration(g); if (s.own[0] == s.me) p->insert(std::make_pair(g->findGID(s.vg[0]), (s.own[0] + 1) % s.P)); g->migrate(p); s.own[0] = (s.own[0] + 1) % s.P; verifyGraph(g, s); }
  int tagged = vf_param("tag", 0); GraphTag* tag = NULL; etype tt = NO_TYPE; // 1: on vertices, 2: on edges
  if (tagged) { tt = tagged == 1 ? VTX_TYPE : 0; tag = g->createIntTag(tt); for (int i = 0; i < (tagged == 1 ? pg->num_local_verts : pg->num_local_edges[0]); i++) if (tagged == 1) g->setIntTag(tag, pg->getVertex(i), 40 + 3 * i); else g->setIntTag(tag, pg->getEdge(i, 0), 40 - 30 * i); }
  writeVTK(g, pre, tag, tt); verifyGraph(g, s); PCU_Barrier();
  int nl = g->numLocalVtxs(), ng = g->numGhostVtxs(), ne = g->numLocalEdges(0); char name[32] = "0.vtu"; name[0] = '0' + s.me; load(at(name));
  after("<VTKFile type=\"UnstructuredGrid\">"); after("NumberOfPoints=\""); int np = (int)integer(); after("NumberOfCells=\""); int nc = (int)integer(); after("\">");
  CHECK(np >= nl + (s.hg ? ne : 0), "every local vertex (and hyperedge) has a point"); CHECK(np <= nl + ng + (s.hg ? ne : 0), "no points for nothing");
  int cells = 0; if (!s.hg) cells = ne; else for (int e = 0; e < s.ne[0]; e++) if (s.edgeHere(0, e)) for (int k = 0; k < s.deg[0][e]; k++) cells += s.own[s.pin[0][e][k]] == s.me; CHECK(nc == cells, "one line per edge (per local pin of a hyperedge)");
  static double pt[64][3]; after("<Points>"); after("Name=\"Points\">"); for (int i = 0; i < np; i++) for (int j = 0; j < 3; j++) pt[i][j] = real(); ends();
  for (int i = 0; i < nl; i++) { int v = s.vidx(g->globalID(pg->getVertex(i))); for (int j = 0; j < 3; j++) CHECK(near(pt[i][j], s.coord(v, j)), "a vertex is placed at its coordinates"); }
  if (s.hg) for (int i = 0; i < ne; i++) { int e = s.eidx(0, g->globalID(pg->getEdge(i, 0))); for (int j = 0; j < 3; j++) { double m = 0; for (int k = 0; k < s.deg[0][e]; k++) m += s.coord(s.pin[0][e][k], j); CHECK(near(pt[nl + i][j], m / s.deg[0][e]), "a hyperedge is placed at the centre of its vertices, ghosts included"); } }
  static int left[MV][MV]; static int pins[ME][MV]; for (int i = 0; i < MV; i++) for (int j = 0; j < MV; j++) left[i][j] = 0; for (int i = 0; i < ME; i++) for (int j = 0; j < MV; j++) pins[i][j] = 0;
  if (!s.hg) for (int e = 0; e < s.ne[0]; e++) if (s.edgeHere(0, e)) left[s.pin[0][e][0]][s.pin[0][e][1]]++;
  after("<Cells>"); after("Name=\"connectivity\""); after(">"); for (int c = 0; c < nc; c++) { long a = integer(), b = integer(); CHECK(a >= 0 && a < np && b >= 0 && b < np, "lines join points of the piece");
    if (s.hg) { CHECK(a >= nl && a < nl + ne && b < nl, "a line joins a hyperedge and a local vertex"); int e = s.eidx(0, g->globalID(pg->getEdge((LID)a - nl, 0))), v = s.vidx(g->globalID(pg->getVertex((LID)b))); CHECK(s.incid(0, e, v), "a line joins a hyperedge and one of its vertices"); CHECK(!pins[e][v], "a pin is drawn once"); pins[e][v] = 1; }
    else { int m = 0; for (int x = 0; x < s.nv && !m; x++) for (int y = 0; y < s.nv && !m; y++) if (left[x][y] > 0) { bool ok = true; for (int j = 0; j < 3; j++) ok = ok && near(pt[a][j], s.coord(x, j)) && near(pt[b][j], s.coord(y, j)); if (ok) { left[x][y]--; m = 1; } } CHECK(m, "a line joins the places of an edge's two ends"); } }
  ends(); after("Name=\"offsets\""); after(">"); for (int c = 0; c < nc; c++) CHECK(integer() == 2 * (c + 1), "every line has two points"); ends();
  after("Name=\"types\""); after(">"); for (int c = 0; c < nc; c++) CHECK(integer() == 3, "cells are lines"); ends(); after("</Cells>");
  after("<PointData>"); after("Name=\"Part\""); after(">"); for (int i = 0; i < np; i++) { long p = integer(); if (i < nl + (s.hg ? ne : 0)) CHECK(p == s.me, "points carry their part"); else { CHECK(p >= 0 && p < s.P, "part numbers name parts"); } } ends();
  if (s.hg) { after("Name=\"VorE\""); after(">"); for (int i = 0; i < np; i++) CHECK(integer() == (i >= nl), "points tell vertices from hyperedges"); ends(); } else CHECK(absent("VorE"), "no array without a meaning");
  if (tag && (tagged == 1 || s.hg)) { after("Name=\"Tag\""); after(">"); for (int i = 0; i < np; i++) { long x = integer(); if (i < nl) CHECK(x == (tagged == 1 ? 40 + 3 * i : -1), "vertices carry their tag"); else if (s.hg) CHECK(x == (tagged == 2 ? 40 - 30 * (i - nl) : -1), "hyperedges carry their tag"); else CHECK(x == -1, "copies carry no tag"); } ends(); } else CHECK(absent("\"Tag\""), "no tag array without a tag");
  after("</PointData>"); after("</Piece>"); after("</UnstructuredGrid>"); after("</VTKFile>");
  load(at(".pvtu")); after("<VTKFile type=\"PUnstructuredGrid\">"); after("<PPoints>"); after("Name=\"Points\""); after("<PPointData>"); after("Name=\"Part\""); if (s.hg) after("Name=\"VorE\""); else CHECK(absent("VorE"), "the index declares what the pieces hold"); if (tag && (tagged == 1 || s.hg)) after("Name=\"Tag\""); else CHECK(absent("\"Tag\""), "the index declares what the pieces hold");
  for (int p = 0; p < s.P; p++) { char src[500] = "<Piece Source=\""; strcat(src, pre); char e[12] = "0.vtu\"/>"; e[0] = '0' + p; strcat(src, e); after(src); } CHECK(strstr(cur, "<Piece") == NULL, "the index names each piece once"); after("</PUnstructuredGrid>");
  if (tag) g->destroyTag(tag); logEnd(); vf_reach("end"); destroyGraph(g); PCU_Comm_Free();
}
