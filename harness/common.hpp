// Shared parts of the graph harnesses: symbolic description of a distributed graph, ways to hand it to the
// library, and an independent observer that compares everything the library reports with the description.
#pragma once
#include "vf.h"
#include <PCU.h>
#include <ngraph.h>
#include <agiMigration.h>
#include <engpar_support.h>
#include <cengpar.h>
#include <vector>
#include <unordered_map>
using namespace agi;
typedef agi::gid_t GID; typedef agi::lid_t LID;
#define CHECK(c, m) vf_check((c) ? 1 : 0, m)
// verb: the verbosity of the library and of the balancers (-1: silent); log=1: with the call log open
static inline int VERB() { return (int)vf_param("verb", -1); }
static inline void startup() { PCU_Comm_Init(); EnGPar_Set_Verbosity(VERB()); if (vf_param("log", 0)) { EnGPar_Open_Log(); CHECK(EnGPar_Is_Log_Open() == (vf_self() == 0), "the first process keeps the log"); } }
// the log: a line per traced call, indented by two below the traced call that made it; outside of any call the outermost level is in force
static inline void logLine(const char* t) { if (!vf_param("log", 0) || !EnGPar_Is_Log_Open()) return; char m[64]; int i = 0; for (; t[i]; i++) m[i] = t[i]; m[i] = 10; m[i + 1] = 0; EnGPar_Log_Function(m); EnGPar_End_Function(); }
static char logText[30000];
static inline bool logged(const char* t) { if (!vf_param("log", 0) || vf_self()) return true; for (int i = 0; logText[i]; i++) { int k = 0; while (t[k] && logText[i + k] == t[k]) k++; if (!t[k]) return true; } return false; }
static inline void logEnd() { if (!vf_param("log", 0)) return; logLine("outermost"); EnGPar_Close_Log(); CHECK(!EnGPar_Is_Log_Open(), "a closed log is closed"); if (vf_self()) return;
  FILE* f = fopen("log.txt", "r"); CHECK(f != NULL, "the log is written"); char* b = logText; int n = (int)fread(b, 1, sizeof logText - 1, f), prev = -1; b[n] = 0; fclose(f); CHECK(n < (int)sizeof logText - 1, "the harness reads the whole log");
  for (int i = 0; i < n;) { int in = 0; while (b[i + in] == ' ') in++; bool own = b[i + in] >= 'a' && b[i + in] <= 'z'; if (own) { const char* o = "outermost"; bool same = true; for (int k = 0; k < 9; k++) same = same && b[i + in + k] == o[k]; if (same) CHECK(in == 0, "between calls the log is back at the outermost level"); if (in % 2 == 0) { CHECK(in <= prev + 2, "a call is indented below its caller"); prev = in; } } while (i < n && b[i] != 10) i++; i++; } }
// weights: exact integers, or with rawd=1 any 64-bit pattern (compared bit for bit), or with frac=1 odd multiples of a quarter
static inline double bitsD(long b) { double d; __builtin_memcpy(&d, &b, 8); return d; }
static inline bool sameD(double a, double b) { long x, y; __builtin_memcpy(&x, &a, 8); __builtin_memcpy(&y, &b, 8); return x == y; }
static const long LMIN = -9223372036854775807L - 1, LMAX = 9223372036854775807L;
enum { MV = 8, ME = 16, MK = 8, MT = 7 };
struct Spec {
  int P, hg, nv, nt, me, coords, skip = -1; double cshift = 0; // skip: an edge type the observer leaves out
  long vg[MV]; int own[MV]; double vw[MV];
  int ne[MT]; long eg[MT][ME]; int deg[MT][ME]; int pin[MT][ME][MK]; double ew[MT][ME];
  bool edgeOn(int t, int e, int p) const { if (!hg) return own[pin[t][e][0]] == p; for (int k = 0; k < deg[t][e]; k++) if (own[pin[t][e][k]] == p) return true; return false; }
  bool edgeHere(int t, int e) const { return edgeOn(t, e, me); }
  int vidx(long g) const { for (int i = 0; i < nv; i++) if (vg[i] == g) return i; return -1; }
  int eidx(int t, long g) const { for (int i = 0; i < ne[t]; i++) if (eg[t][i] == g) return i; return -1; }
  int incid(int t, int e, int v) const { if (!hg) return pin[t][e][0] == v; int c = 0; for (int k = 0; k < deg[t][e]; k++) if (pin[t][e][k] == v) c++; return c; }
  bool ghostHere(int v) const { if (own[v] == me) return false; for (int t = 0; t < nt; t++) for (int e = 0; e < ne[t]; e++) if (edgeHere(t, e)) for (int k = 0; k < deg[t][e]; k++) if (pin[t][e][k] == v) return true; return false; }
  double coord(int v, int j) const { return vf_param("rawd", 0) ? bitsD(vf_r("co", v, j, LMIN, LMAX)) : vf_param("frac", 0) || vf_param("cofix", 0) ? 0.125 + v - 3 * j + cshift : vw[v] + 100 * j + v; }
};
// fixed parts of a description: ow = 1 followed by one digit per vertex (9: any owner), m0.. = pin mask (hypergraph) or 1+source*nv+destination of edges of type 0 (0: any)
static inline int digit(long x, int i, int n) { for (int k = n - 1 - i; k > 0; k--) x /= 10; return (int)(x % 10); }
static inline int fixedEdge(int t, int e) { static const char* nm[8] = {"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7"}; return t ? 0 : e < 8 ? vf_param(nm[e], vf_param("mall", 0)) : vf_param("mall", 0); }
// The symbolic description; identical on every process because symbols are shared by name.
//  hg, nv, nt, ne, k(max pins), symown (1: any owner of each vertex; 0: own = i*P/nv), symgid (any distinct ids), lowe (edges may be absent), degmin
static inline void genSpec(Spec& s) {
  s.P = (int)vf_param("parts", vf_size()); s.me = vf_self(); s.hg = vf_param("hg", 1); s.nv = vf_param("nv", 3); s.nt = vf_param("nt", 1); s.coords = vf_param("coords", 0);
  int K = vf_param("k", 2), symown = vf_param("symown", 1), symgid = vf_param("symgid", 0), symw = vf_param("symw", 1), loops = vf_param("loops", 0), first0 = vf_param("first0", 0), wmax = vf_param("wmax", 1000), rawd = vf_param("rawd", 0), frac = vf_param("frac", 0);
  for (int i = 0; i < s.nv; i++) {
    s.vg[i] = symgid ? vf_r("vg", i, 0, 1L << 40) : 7 + 5 * ((i * 2) % 5) + 100 * (i / 5);
    if (symgid) for (int j = 0; j < i; j++) vf_assume(s.vg[i] != s.vg[j]);
    long ow = vf_param("ow", 0);
    if (ow && digit(ow, i, s.nv) != 9) s.own[i] = digit(ow, i, s.nv); else s.own[i] = symown ? (int)vf_conc(vf_r("own", i, 0, s.P - 1)) : first0 ? (i < first0 ? 0 : 1 + (i - first0) * (s.P - 1) / (s.nv - first0)) : i * s.P / s.nv;
    static const char* wn[8] = {"w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7"}; long fw = vf_param(wn[i], -1); // fixed vertex weights
    s.vw[i] = fw >= 0 ? (double)fw : rawd ? bitsD(vf_r("vb", i, LMIN, LMAX)) : frac ? 0.25 + 0.5 * (double)vf_r("vw", i, 0, wmax) : symw ? (double)(vf_r("vw", i, 0, wmax) * vf_param("wscale", 1)) : 3 + i;
  }
  for (int t = 0; t < s.nt; t++) {
    s.ne[t] = vf_param(t == 0 ? "ne" : "ne1", t == 0 ? 2 : 1);
    for (int e = 0; e < s.ne[t]; e++) {
      s.eg[t][e] = symgid ? vf_r("eg", t, e, 0, 1L << 40) : 30 + (e * 3) % 7 + 10 * (e / 7);
      if (symgid) for (int j = 0; j < e; j++) vf_assume(s.eg[t][e] != s.eg[t][j]);
      s.ew[t][e] = rawd ? bitsD(vf_r("eb", t, e, LMIN, LMAX)) : frac == 1 ? 0.25 + 0.5 * (double)vf_r("ew", t, e, 0, wmax) : symw && vf_param("symew", 1) ? (double)vf_r("ew", t, e, 0, wmax) : 2 + e + 10 * t;
      if (s.hg) {
        long m = fixedEdge(t, e); if (!m) m = vf_r("pins", t, e, 1, (1 << s.nv) - 1); int c = 0; for (int i = 0; i < s.nv; i++) c += (m >> i) & 1; if (!fixedEdge(t, e)) { vf_assume(c <= K); m = vf_conc(m); }
        int d = 0; for (int i = 0; i < s.nv; i++) { int q = e % 2 ? s.nv - 1 - i : i; if ((m >> q) & 1) s.pin[t][e][d++] = q; } s.deg[t][e] = d;
      } else {
        if (int m = fixedEdge(t, e)) { s.deg[t][e] = 2; s.pin[t][e][0] = (m - 1) / s.nv; s.pin[t][e][1] = (m - 1) % s.nv; continue; }
        s.deg[t][e] = 2; s.pin[t][e][0] = (int)vf_conc(vf_r("src", t, e, 0, s.nv - 1)); s.pin[t][e][1] = (int)vf_conc(vf_r("dst", t, e, 0, s.nv - 1));
        if (!loops) vf_assume(s.pin[t][e][0] != s.pin[t][e][1]);
      }
    }
  }
}
// hand this process' share to the library; mode 0: containers, 1: arrays, 2: the C interface
static inline void buildGraph(Ngraph* g, const Spec& s, int mode = 0, bool ew = true, bool vw = true) {
  std::vector<GID> v; std::vector<wgt_t> w; std::unordered_map<GID, part_t> owns; std::vector<GID> og; std::vector<part_t> oo;
  for (int i = 0; i < s.nv; i++) if (s.own[i] == s.me) { v.push_back(s.vg[i]); w.push_back(s.vw[i]); }
  if (!vw) w.clear();
  if (mode == 2) cengpar_constructVerts((ngraph)g, s.hg, v.data(), w.data(), (int)v.size()); else if (mode == 0) g->constructVerts(s.hg, v, w); else g->constructVerts(s.hg, (LID)v.size(), v.data(), vw ? w.data() : NULL);
  for (int t = 0; t < s.nt; t++) {
    std::vector<GID> e, p; std::vector<LID> d; std::vector<wgt_t> x;
    for (int i = 0; i < s.ne[t]; i++) if (s.edgeHere(t, i)) { e.push_back(s.eg[t][i]); d.push_back(s.deg[t][i]); x.push_back(s.ew[t][i]); for (int k = 0; k < s.deg[t][i]; k++) p.push_back(s.vg[s.pin[t][i][k]]); }
    if (!ew) x.clear();
    etype r = mode == 2 ? cengpar_constructEdges((ngraph)g, e.data(), d.data(), x.data(), p.data(), (int)e.size(), (int)p.size()) : mode == 0 ? g->constructEdges(e, d, p, x) : g->constructEdges((GID)e.size(), e.data(), d.data(), p.data(), ew ? x.data() : NULL);
    CHECK(r == t, "edge types are numbered in order of construction");
  }
  for (int i = s.nv - 1; i >= 0; i--) if (s.ghostHere(i)) { owns[s.vg[i]] = s.own[i]; og.push_back(s.vg[i]); oo.push_back(s.own[i]); }
  if (mode == 2) cengpar_constructGhosts((ngraph)g, og.data(), oo.data(), (int)og.size()); else if (mode == 0) g->constructGhosts(owns); else g->constructGhosts((LID)og.size(), og.data(), oo.data());
  if (s.coords) { int n = 0; coord_t* c = new coord_t[v.size() + 1]; for (int i = 0; i < s.nv; i++) if (s.own[i] == s.me) { for (int j = 0; j < 3; j++) c[n][j] = s.coord(i, j); n++; } g->setCoords(c); delete[] c; }
}
static inline void buildVec(Ngraph* g, const Spec& s) { buildGraph(g, s, 0); }
enum { V_VERTS = 1, V_GHOSTS = 2, V_EDGES = 4, V_ADJ = 8, V_RES = 16, V_GLOBAL = 32, V_GW = 64, V_ALL = 127 };
static inline int pinGid(Ngraph* g, const Spec& s, GraphVertex* v) { return s.vidx(g->globalID(v)); }
// Everything observable about this process' part equals the description.
static inline void verifyGraph(Ngraph* g, const Spec& s, int what = V_ALL) {
  const int rawd = vf_param("rawd", 0); int nl = 0, ng = 0; for (int i = 0; i < s.nv; i++) { nl += s.own[i] == s.me; ng += s.ghostHere(i); }
  if (what & V_VERTS) {
    CHECK(g->isHyper() == (bool)s.hg, "graph kind");
    CHECK(g->numLocalVtxs() == nl, "number of local vertices");
    CHECK(g->numEdgeTypes() == s.nt, "number of edge types");
    bool seen[MV] = {0}; VertexIterator* it = g->begin(); GraphVertex* v; int n = 0;
    while ((v = g->iterate(it))) { CHECK(n < nl, "vertex iteration ends after the local vertices"); int i = s.vidx(g->globalID(v)); CHECK(i >= 0 && s.own[i] == s.me, "every local vertex was assigned to this process"); CHECK(!seen[i], "vertex visited once"); seen[i] = true;
      CHECK(g->localID(v) == n, "local ids follow iteration order"); CHECK(sameD(g->weight(v), s.vw[i]), "vertex weight"); CHECK(g->owner(v) == s.me, "owner of a local vertex"); CHECK(g->findGID(s.vg[i]) == v, "lookup by global id"); 
      if (s.coords) { CHECK(g->hasCoords(), "coordinates present"); const coord_t& c = g->coord(v); for (int j = 0; j < 3; j++) CHECK(sameD(c[j], s.coord(i, j)), "vertex coordinates"); }
      n++; }
    CHECK(n == nl, "vertex iteration visits every local vertex");
  }
  if (what & V_GHOSTS) {
    CHECK(g->numGhostVtxs() == ng, "number of ghost vertices"); CHECK(g->numTotalVtxs() == nl + ng, "total vertices");
    bool seen[MV] = {0}; GhostIterator* it = g->beginGhosts(); GraphVertex* v; int n = 0;
    while ((v = g->iterate(it))) { CHECK(n < ng, "ghost iteration ends after the ghosts"); int i = s.vidx(g->globalID(v)); CHECK(i >= 0 && s.ghostHere(i), "every ghost is a remote pin of a local edge"); CHECK(!seen[i], "ghost visited once"); seen[i] = true;
      CHECK(g->localID(v) == nl + n, "ghost local ids follow the local vertices"); CHECK(g->owner(v) == s.own[i], "owner of a ghost vertex"); CHECK(g->findGID(s.vg[i]) == v, "ghost lookup by global id"); if ((what & V_GW) && s.P > 1) CHECK(sameD(g->weight(v), s.vw[i]), "ghost weight equals the owner's weight"); n++; }
    CHECK(n == ng, "ghost iteration visits every ghost");
  }
  for (int t = 0; t < s.nt; t++) {
    if (t == s.skip) continue;
    int ne = 0, np = 0, ge = 0, gp = 0; for (int e = 0; e < s.ne[t]; e++) { ge++; gp += s.deg[t][e]; if (s.edgeHere(t, e)) { ne++; np += s.deg[t][e]; } }
    if (what & V_GLOBAL) { CHECK(g->numGlobalVtxs() == s.nv, "global vertex count"); CHECK(g->numGlobalEdges(t) == ge, "global edge count counts every edge once"); CHECK(g->numGlobalPins(t) == gp, "global pin count counts every pin once"); }
    if (what & V_EDGES) {
      CHECK(g->numLocalEdges(t) == ne, "number of local edges"); CHECK(g->numLocalPins(t) == np, "number of local pins");
      int n = 0; EdgeIterator* it = g->begin(t); GraphEdge* e; bool seen[ME] = {0}; double sw[MV][MV]; int cnt[MV][MV]; if (!s.hg) for (int a = 0; a < s.nv; a++) for (int b = 0; b < s.nv; b++) { sw[a][b] = 0; cnt[a][b] = 0; }
      while ((e = g->iterate(it))) {
        CHECK(n < ne, "edge iteration ends after the local edges"); CHECK(g->localID(e) == n, "edge local ids follow iteration order");
        int res = 0;
        if (s.hg) {
          int i = s.eidx(t, g->globalID(e)); CHECK(i >= 0 && s.edgeHere(t, i), "every local edge has a local pin"); CHECK(!seen[i], "edge visited once"); seen[i] = true;
          CHECK(sameD(g->weight(e), s.ew[t][i]), "edge weight"); CHECK(g->degree(e) == s.deg[t][i], "edge degree");
          PinIterator* pi = g->pins(e); GraphVertex* v; int c = 0; bool pv[MV] = {0};
          while ((v = g->iterate(pi))) { int j = pinGid(g, s, v); CHECK(j >= 0 && s.incid(t, i, j), "pin belongs to the edge"); CHECK(!pv[j], "pin visited once"); pv[j] = true; c++; }
          g->destroy(pi); CHECK(c == s.deg[t][i], "every pin visited");
          for (int k = 0; k < s.deg[t][i]; k++) res |= 1 << s.own[s.pin[t][i][k]];
        } else {
          CHECK(g->degree(e) == 2, "edge degree"); GraphVertex *a = g->u(e), *b = g->v(e); int x = pinGid(g, s, a), y = pinGid(g, s, b); CHECK(x >= 0 && y >= 0 && s.own[x] == s.me, "edge endpoints"); if (cnt[x][y]++) sw[x][y] = rawd ? 0 : sw[x][y] + g->weight(e); else sw[x][y] = g->weight(e);
          PinIterator* pi = g->pins(e); GraphVertex* p0 = g->iterate(pi); GraphVertex* p1 = g->iterate(pi); CHECK(p0 == a && p1 == b, "pins of an edge are its source and its destination"); CHECK(!g->iterate(pi), "an edge has two pins"); g->destroy(pi);
          res = 1 << s.own[x] | 1 << s.own[y];
        }
        if (what & V_RES) { Peers r; g->getResidence(e, r); int got = 0, c = 0; for (Peers::iterator q = r.begin(); q != r.end(); ++q) { CHECK(*q >= 0 && *q < s.P, "residence names a process"); got |= 1 << *q; c++; } CHECK(got == res, "residence of an edge is the set of owners of its pins");
          for (int p = 0; p < s.P; p++) CHECK(g->isResidentOn(e, p) == (bool)((res >> p) & 1), "resident-on agrees with the owners of the pins"); CHECK(g->isCut(e) == (c > 1), "an edge is cut exactly when its pins have several owners"); }
        n++; }
      g->destroy(it); CHECK(n == ne, "edge iteration visits every local edge");
      if (!s.hg) for (int a = 0; a < s.nv; a++) for (int b = 0; b < s.nv; b++) { int c = 0; double w = 0; for (int i = 0; i < s.ne[t]; i++) if (s.edgeHere(t, i) && s.pin[t][i][0] == a && s.pin[t][i][1] == b) { w = c++ ? rawd ? 0 : w + s.ew[t][i] : s.ew[t][i]; } CHECK(cnt[a][b] == c, "each directed edge is present as often as given"); CHECK(sameD(sw[a][b], w), "weight of an edge is the weight it was given"); }
    }
    if (what & V_ADJ) {
      VertexIterator* it = g->begin(); GraphVertex* v;
      while ((v = g->iterate(it))) { int i = s.vidx(g->globalID(v)); int d = 0; int adj[MV] = {0}; for (int e = 0; e < s.ne[t]; e++) { int c = s.incid(t, e, i); d += c; if (c) { if (s.hg) for (int k = 0; k < s.deg[t][e]; k++) adj[s.pin[t][e][k]] += c; else adj[s.pin[t][e][1]]++; } }
        CHECK(g->degree(v, t) == d, "vertex degree");
        EdgeIterator* ei = g->edges(v, t); GraphEdge* e; int n = 0, seen[ME] = {0};
        while ((e = g->iterate(ei))) { CHECK(n < d, "incident edge iteration ends"); if (s.hg) { int j = s.eidx(t, g->globalID(e)); CHECK(j >= 0 && s.incid(t, j, i), "incident edge has the vertex as a pin"); CHECK(!seen[j], "incident edge visited once"); seen[j] = 1; } else CHECK(g->u(e) == v, "incident edge starts at the vertex"); n++; }
        g->destroy(ei); CHECK(n == d, "every incident edge visited");
        GraphIterator* gi = g->adjacent(v, t); GraphVertex* o; int m = 0, tot = 0; for (int j = 0; j < s.nv; j++) tot += adj[j];
        while ((o = g->iterate(gi))) { CHECK(m < tot, "adjacency iteration ends"); int j = pinGid(g, s, o); CHECK(j >= 0 && adj[j] > 0, "adjacent vertex shares an edge"); adj[j]--; m++; GraphEdge* ge2 = g->edge(gi); CHECK(ge2 != NULL, "adjacency reports the connecting edge"); if (s.hg) { int q = s.eidx(t, g->globalID(ge2)); CHECK(q >= 0 && s.incid(t, q, i) && s.incid(t, q, j), "connecting edge joins both vertices"); } else CHECK(g->u(ge2) == v && g->v(ge2) == o, "connecting edge joins both vertices"); }
        g->destroy(gi); CHECK(m == tot, "every adjacent vertex visited through every edge");
      }
    }
  }
}
