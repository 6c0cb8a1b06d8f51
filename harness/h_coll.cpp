// Collectives: the result is the operation over every process' contribution, for any group size.
#include "vf.h"
#include <PCU.h>
extern "C" {
#include <pcu_coll.h>
#include <pcu_mpi.h>
}
#define CHECK(c, m) vf_check((c) ? 1 : 0, m)
VF_MAIN() {
  PCU_Comm_Init(); int P = PCU_Comm_Peers(), me = PCU_Comm_Self(); int op = vf_param("op", 0), n = vf_param("n", 2), rep = vf_param("rep", 1);
  long lo = -1000000, hi = 1000000; /* sums stay inside the type; comparisons use all of it */
  switch (op) { case 0: case 3: lo = -(1L << 28); hi = 1L << 28; break; case 1: case 2: lo = -(1L << 31); hi = (1L << 31) - 1; break; case 4: case 9: lo = -(1L << 59); hi = 1L << 59; break; case 5: case 6: case 7: lo = -(1L << 40); hi = 1L << 40; break; case 10: lo = 0; hi = 1L << 59; break; case 11: case 12: lo = 0; hi = 1L << 62; break; case 13: case 14: case 15: lo = 0; hi = 1; break; }
  for (int q = 0; q < rep; q++) {
  long v[8][4]; for (int r = 0; r < P; r++) for (int i = 0; i < n; i++) v[r][i] = vf_r3("x", q, r, i, lo, hi);
#define RUN(T, CALL, INIT, STEP, MSG) { T a[4]; for (int i = 0; i < n; i++) a[i] = (T)v[me][i]; CALL; for (int i = 0; i < n; i++) { T w = INIT; for (int r = 0; r < P; r++) { T u = (T)v[r][i]; STEP; } CHECK(a[i] == w, MSG); } } break;
#define MX if (u > w) w = u;
#define MN if (u < w) w = u;
#define EX if (r < me) w += u;
  switch (op) {
  case 0: RUN(int, PCU_Add_Ints(a, n), 0, w += u;, "integer sum")
  case 1: RUN(int, PCU_Max_Ints(a, n), (int)v[0][i], MX, "integer maximum")
  case 2: RUN(int, PCU_Min_Ints(a, n), (int)v[0][i], MN, "integer minimum")
  case 3: RUN(int, PCU_Exscan_Ints(a, n), 0, EX, "integer exclusive prefix sum")
  case 4: RUN(long, PCU_Add_Longs(a, n), 0, w += u;, "long sum")
  case 5: RUN(double, PCU_Add_Doubles(a, n), 0, w += u;, "real sum")
  case 6: RUN(double, PCU_Max_Doubles(a, n), (double)v[0][i], MX, "real maximum")
  case 7: RUN(double, PCU_Min_Doubles(a, n), (double)v[0][i], MN, "real minimum")
#define ONE(T, F, INIT, STEP, MSG) { T a = F((T)v[me][0]); T w = INIT; for (int r = 0; r < P; r++) { T u = (T)v[r][0]; STEP; } CHECK(a == w, MSG); }
  case 8: { int pt = vf_param("part", 0);
    if (pt == 0) { ONE(int, PCU_Add_Int, 0, w += u;, "sum of single values") ONE(long, PCU_Add_Long, 0, w += u;, "sum of single values") ONE(double, PCU_Add_Double, 0, w += u;, "sum of single values") }
    if (pt == 1) { ONE(int, PCU_Max_Int, (int)v[0][0], MX, "maximum of single values") ONE(double, PCU_Max_Double, (double)v[0][0], MX, "maximum of single values") }
    if (pt == 2) { ONE(int, PCU_Min_Int, (int)v[0][0], MN, "minimum of single values") ONE(double, PCU_Min_Double, (double)v[0][0], MN, "minimum of single values") }
    if (pt == 3) { ONE(int, PCU_Exscan_Int, 0, EX, "exclusive prefix sum of single values") ONE(long, PCU_Exscan_Long, 0, EX, "exclusive prefix sum of single values") } break; }
  case 9: RUN(long, PCU_Exscan_Longs(a, n), 0, EX, "long exclusive prefix sum")
  case 10: RUN(size_t, PCU_Add_SizeTs(a, n), 0, w += u;, "size sum")
  case 11: RUN(size_t, PCU_Max_SizeTs(a, n), (size_t)v[0][i], MX, "size maximum")
  case 12: RUN(size_t, PCU_Min_SizeTs(a, n), (size_t)v[0][i], MN, "size minimum")
  case 13: { int a = PCU_And((int)v[me][0]), o = PCU_Or((int)v[me][0]), wa = 1, wo = 0; for (int r = 0; r < P; r++) { wa &= (int)v[r][0]; wo |= (int)v[r][0]; } CHECK((a != 0) == wa, "logical and"); CHECK((o != 0) == wo, "logical or"); 
    size_t sa = PCU_Add_SizeT(v[me][0]), sx = PCU_Max_SizeT(v[me][0]), sn = PCU_Min_SizeT(v[me][0]); size_t t = 0; for (int r = 0; r < P; r++) t += v[r][0]; CHECK(sa == t && sx == (size_t)wo && sn == (size_t)wa, "single size reductions"); break; }
  case 14: { PCU_Barrier(); pcu_coll c; double a[4]; for (int i = 0; i < n; i++) a[i] = (double)v[me][i]; pcu_bcast(&c, a, n * sizeof(double)); for (int i = 0; i < n; i++) CHECK(a[i] == (double)v[0][i], "broadcast delivers the root's values"); PCU_Barrier();
    for (int i = 0; i < n; i++) a[i] = (double)v[me][i]; pcu_reduce(&c, pcu_add_doubles, a, n * sizeof(double)); if (me == 0) for (int i = 0; i < n; i++) { double w = 0; for (int r = 0; r < P; r++) w += (double)v[r][i]; CHECK(a[i] == w, "reduction gathers every contribution at the root"); } break; }
  case 15: { // collectives on a sub-group
    MPI_Comm sub; MPI_Comm_split(MPI_COMM_WORLD, me % 2, me, &sub); PCU_Switch_Comm(sub); CHECK(PCU_Comm_Peers() == (P + 1 - me % 2) / 2 && PCU_Comm_Self() == me / 2, "rank and size in the sub-group"); CHECK(PCU_Proc_Peers() == PCU_Comm_Peers(), "process count in the sub-group");
    int s = PCU_Add_Int((int)v[me][0]); int w = 0; for (int r = me % 2; r < P; r += 2) w += (int)v[r][0]; CHECK(s == w, "sum over the sub-group"); PCU_Switch_Comm(MPI_COMM_WORLD); CHECK(PCU_Comm_Peers() == P && PCU_Comm_Self() == me, "rank and size after returning to the world"); s = PCU_Add_Int((int)v[me][0]); w = 0; for (int r = 0; r < P; r++) w += (int)v[r][0]; CHECK(s == w, "sum over the world"); break; }
  }
  }
  vf_reach("end"); PCU_Comm_Free(); return;
}
