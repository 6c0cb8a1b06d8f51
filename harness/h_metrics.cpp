// What the partition metrics print is what the partition is: every number of evaluatePartition, the imbalance of any
// set of contributions, the imbalances of all criteria, the number of disconnected pieces, stagnation detection.
#include "common.hpp"
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <engpar.h>
#include <engpar_metrics.h>
#include <engpar_sides.h>
#include <engpar_sd.h>
namespace engpar { int countDisconnected(agi::Ngraph* g); }
using namespace engpar;
// capture of the formatted output: the numbers of every line, in order
static double nums[64]; static int nnum, nlines, wild; static char key[64][8]; static int first[64];
static void eat(const char* f, va_list ap) {
  int l = nlines++; if (l >= 64) { wild = 1; return; } first[l] = nnum;
  for (; *f; f++) { if (*f != '%') continue; f++; while (*f && strchr("-+ #0123456789.", *f)) f++; int lg = 0; while (*f == 'l') { lg++; f++; }
    if (nnum >= 64) { wild = 1; return; }
    if (*f == 'f') nums[nnum++] = va_arg(ap, double); else if (*f == 'd') nums[nnum++] = lg ? (double)va_arg(ap, long) : (double)va_arg(ap, int); else if (*f == 's') (void)va_arg(ap, char*); else wild = 1; } }
extern "C" int vfprintf(FILE* f, const char* fmt, va_list ap) { eat(fmt, ap); return 0; }
static bool edgeOf(const Spec& s, int t, int e, int i) { for (int k = 0; k < s.deg[t][e]; k++) if (s.pin[t][e][k] == i) return true; return false; }
static double partW(const Spec& s, int p, int d, bool ghosts) {
  double w = 0;
  if (d == -1) { for (int i = 0; i < s.nv; i++) { if (s.own[i] == p) w += s.vw[i]; else if (ghosts) { bool g = false; for (int t = 0; t < s.nt; t++) for (int e = 0; e < s.ne[t]; e++) if (s.edgeOn(t, e, p)) g = g || edgeOf(s, t, e, i); if (g) w += s.vw[i]; } } }
  else for (int e = 0; e < s.ne[d]; e++) if (s.edgeOn(d, e, p)) w += s.ew[d][e];
  return w; }
static int neighbours(const Spec& s, int p, int t) { int n = 0; for (int q = 0; q < s.P; q++) if (q != p) { bool any = false; for (int e = 0; e < s.ne[t]; e++) if (s.edgeOn(t, e, p)) for (int k = 0; k < s.deg[t][e]; k++) any = any || s.own[s.pin[t][e][k]] == q; n += any; } return n; }
static double cutW(const Spec& s, int p, int t) { double w = 0; for (int e = 0; e < s.ne[t]; e++) if (s.edgeOn(t, e, p)) { bool c = false; for (int k = 0; k < s.deg[t][e]; k++) c = c || s.own[s.pin[t][e][k]] != p; if (c) w += s.ew[t][e]; } return w; }
// pieces of the part of p that are not joined by edges of type 0 having both pins there
static int pieces(const Spec& s, int p) { int c[MV], n = 0; for (int i = 0; i < s.nv; i++) c[i] = i;
  for (int r = 0; r < s.nv; r++) for (int e = 0; e < s.ne[0]; e++) for (int a = 0; a < s.deg[0][e]; a++) for (int b = 0; b < s.deg[0][e]; b++) { int i = s.pin[0][e][a], j = s.pin[0][e][b]; if (s.own[i] == p && s.own[j] == p && c[i] < c[j]) c[j] = c[i]; }
  for (int i = 0; i < s.nv; i++) if (s.own[i] == p && c[i] == i) n++; return n; }
static void stat4(const double* v, const double* x, int P, const char* m) { double mx = x[0], mn = x[0], t = 0; for (int p = 0; p < P; p++) { if (x[p] > mx) mx = x[p]; if (x[p] < mn) mn = x[p]; t += x[p]; }
  CHECK(v[0] == mx, m); CHECK(v[1] == mn, m); CHECK(v[2] * P == t || v[2] == t / P, m); if (t != 0) CHECK(v[3] == mx / (t / P), "the imbalance printed is the largest part over the average part"); }
VF_MAIN() {
  startup(); int kind = vf_param("kind", 0);
  if (kind == 2) { // stagnation detection: slope of the last three values
    SDSlope sd; int n = vf_param("n", 5); double x[16]; for (int i = 0; i < n; i++) { x[i] = (double)vf_r("x", i, 0, vf_param("W", 50)); sd.push(x[i]); CHECK(sd.isFull() == (i >= 2), "a slope needs three values");
      if (i >= 2) { double a = x[i - 2], b = x[i - 1], c = x[i], sl = sd.slope(); SDSlope fresh; fresh.push(a); fresh.push(b); fresh.push(c); CHECK(fresh.slope() == sl, "only the last three values count");
        if (a <= b && b <= c && a < c) CHECK(sl > 0, "rising values have a positive slope"); if (a >= b && b >= c && a > c) CHECK(sl < 0, "falling values have a negative slope"); if (a == b && b == c) CHECK(sl == 0, "constant values have slope 0"); } }
    logEnd(); vf_reach("end"); PCU_Comm_Free(); return; }
  int P = vf_size(), W = vf_param("W", 8);
  if (kind == 1) { double c[8], t = 0, mx = 0; for (int p = 0; p < P; p++) { c[p] = (double)vf_r("c", p, 0, W); t += c[p]; if (c[p] > mx) mx = c[p]; } vf_assume(t > 0); double r = EnGPar_Get_Imbalance(c[vf_self()]); CHECK(r == mx / (t / P), "imbalance is the largest contribution over the average contribution"); logEnd(); vf_reach("end"); PCU_Comm_Free(); return; }
  Spec s; genSpec(s); Ngraph* g = createEmptyGraph(); buildGraph(g, s);
  bool sym = true; if (!s.hg) for (int e = 0; e < s.ne[0]; e++) { bool back = false; for (int f = 0; f < s.ne[0]; f++) back = back || (s.pin[0][f][0] == s.pin[0][e][1] && s.pin[0][f][1] == s.pin[0][e][0]); sym = sym && back; }
  int nl = 0; for (int i = 0; i < s.nv; i++) nl += s.own[i] == s.me;
  if (nl > 0 && sym) CHECK(countDisconnected(g) == pieces(s, s.me) - 1, "the number of disconnected pieces is the number of components beyond the first");
  nnum = nlines = wild = 0; char nm[160]; int ln = vf_param("name", 0); for (int i = 0; i < ln; i++) nm[i] = 'a' + i % 26; nm[ln] = 0; if (vf_param("capi", 0)) cengpar_evaluatePartition((ngraph)g); else evaluatePartition(g, nm); CHECK(!wild, "well formed output");
  if (s.me) CHECK(nlines == 0, "only one process reports"); else {
    CHECK(nlines == 5 + 2 * s.nt, "one line per metric"); CHECK(nnum == 1 + 2 + 4 + 4 + 4 + s.nt * 8, "every metric has all of its numbers");
    double x[8], e = 0; for (int p = 0; p < P; p++) e += partW(s, p, -1, true) == 0; CHECK(nums[0] == e, "number of empty parts");
    if (sym) { double mx = -1, t = 0; for (int p = 0; p < P; p++) { double d = pieces(s, p) - 1; if (d > mx) mx = d; t += d; } CHECK(nums[1] == mx && nums[2] == t, "disconnected pieces: largest and total"); }
    for (int p = 0; p < P; p++) x[p] = neighbours(s, p, 0); stat4(nums + 3, x, P, "numbers of neighbours: largest, smallest and average");
    for (int p = 0; p < P; p++) x[p] = partW(s, p, -1, false); stat4(nums + 7, x, P, "vertex weight of the parts: largest, smallest and average");
    for (int p = 0; p < P; p++) x[p] = partW(s, p, -1, true); stat4(nums + 11, x, P, "vertex weight with ghosts: largest, smallest and average");
    for (int t = 0; t < s.nt; t++) { for (int p = 0; p < P; p++) x[p] = partW(s, p, t, false); CHECK(nums[15 + 8 * t] == t && nums[20 + 8 * t] == t, "edge types in order"); stat4(nums + 16 + 8 * t, x, P, "edge weight of the parts: largest, smallest and average");
      double mx = 0, tt = 0; for (int p = 0; p < P; p++) { double c = cutW(s, p, t); if (c > mx) mx = c; tt += c; } CHECK(nums[21 + 8 * t] == mx && nums[22 + 8 * t] == tt, "weight of the cut edges: largest and total"); }
    vf_reach("printed"); }
  verifyGraph(g, s); logEnd(); vf_reach("end"); destroyGraph(g); PCU_Comm_Free();
}
