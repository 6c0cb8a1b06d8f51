// printStats: the sizes printed are the sizes of the graph, for any number of edge types and any sizes.
#include "common.hpp"
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
static char text[4000]; static int len;
static void putS(const char* s) { while (*s) { CHECK(len < (int)sizeof text - 1, "the harness reads the whole output"); text[len++] = *s++; } text[len] = 0; }
static void putN(long n) { char b[24]; int k = 24; b[--k] = 0; if (n == 0) b[--k] = '0'; while (n) { b[--k] = '0' + n % 10; n /= 10; } putS(b + k); }
extern "C" int vfprintf(FILE* f, const char* fmt, va_list ap) { // the conversions messages use, with the prefix dropped
  while (*fmt && *fmt != ' ') fmt++; if (*fmt) fmt++; for (; *fmt; fmt++) { if (*fmt != '%') { char c[2] = {*fmt, 0}; putS(c); continue; } fmt++; int lg = 0; while (*fmt == 'l') { lg = 1; fmt++; }
    if (*fmt == 's') putS(va_arg(ap, char*)); else if (*fmt == 'd' || *fmt == 'u') putN(lg ? va_arg(ap, long) : va_arg(ap, int)); else CHECK(0, "a conversion the harness knows"); } return 0; }
static char* cur; static void word(const char* w) { char* p = strstr(cur, w); CHECK(p != NULL, "every size is printed"); cur = p + strlen(w); }
static long number() { while (*cur == ' ') cur++; CHECK(*cur >= '0' && *cur <= '9', "a size is a number"); long n = 0; while (*cur >= '0' && *cur <= '9') n = n * 10 + (*cur++ - '0'); return n; }
VF_MAIN() {
  startup(); Spec s; genSpec(s); Ngraph* g = createEmptyGraph(); buildGraph(g, s);
  // large sizes: every type of the graph has the given number of edges and pins on some other process
  long big[4] = {0, 9, 99990, 1000000007L * 30}; int c = (int)vf_conc(vf_r("size", 0, 0, 3)); PNgraph* pg = g->publicize();
  long gv = s.nv + big[c]; pg->num_global_verts += big[c]; for (int t = 0; t < s.nt; t++) { pg->num_global_edges[t] += big[c] + t; pg->num_global_pins[t] += 2 * big[c] + t; }
  len = 0; text[0] = 0; g->printStats(); cur = text;
  word("Vertices:"); CHECK(number() == gv, "the number of vertices printed is the graph's");
  for (int h = 0; h < 1 + s.hg; h++) { word(h ? "Pins:" : "Edges:"); for (int t = 0; t < s.nt; t++) { long np = 0; for (int e = 0; e < s.ne[t]; e++) np += s.deg[t][e]; word("Type"); CHECK(number() == t, "the edge types are printed in order"); word(":"); CHECK(number() == (h ? np + 2 * big[c] + t : s.ne[t] + big[c] + t), h ? "the number of pins printed is the graph's" : "the number of edges printed is the graph's"); } }
  logEnd(); vf_reach("end"); destroyGraph(g); PCU_Comm_Free();
}
