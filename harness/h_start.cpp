// Starting, stopping and switching communicators, in any order a program may do it: who started the messaging layer ends it,
// and in between the processes of the communicator in force, and only those, talk to each other.
#include "common.hpp"
#include <climits>
static int W, w, key[3][8], col[3][8], orank[3][8], osize[3][8]; static MPI_Comm sub[3]; // 0: all processes, 1 and 2: a split of them
// one round of messages and reductions among the processes of the communicator in force
static void talk(int s) {
  int n = osize[s][w], me = orank[s][w]; CHECK(PCU_Comm_Peers() == n, "as many peers as the communicator has"); CHECK(PCU_Comm_Self() == me, "the rank in the communicator"); CHECK(PCU_Get_Comm() == sub[s], "the communicator in force");
  long sum = 0; int val[8]; for (int r = 0; r < W; r++) { val[r] = vf_r("val", r, -1000, 1000); if (col[s][r] == col[s][w]) sum += val[r]; }
  CHECK(PCU_Add_Int(val[w]) == (int)sum, "reductions are over the communicator in force");
  PCU_Comm_Begin(); int to = (me + 1) % n; PCU_COMM_PACK(to, val[w]); PCU_Comm_Send(); int got = 0; while (PCU_Comm_Receive()) { int from = PCU_Comm_Sender(), v; PCU_COMM_UNPACK(v); got++; CHECK((from + 1) % n == me, "the message is from a process of the communicator"); for (int r = 0; r < W; r++) if (col[s][r] == col[s][w] && orank[s][r] == from) CHECK(v == val[r], "what the sender sent"); }
  CHECK(got == 1, "every message arrives once"); }
VF_MAIN() {
  w = vf_self(); W = vf_size(); int len = vf_param("len", 3); long ops = vf_param("ops", 0);
  for (int k = 0; k < 3; k++) { int mask = k == 0 ? 0 : k == 1 ? vf_param("cols", 5) : vf_param("cols2", 0), rev = k == 0 ? 0 : k == 1 ? vf_param("rev", 0) : vf_param("rev2", 1); for (int r = 0; r < W; r++) { col[k][r] = (mask >> r) & 1; key[k][r] = rev ? -r : r; } for (int r = 0; r < W; r++) { osize[k][r] = orank[k][r] = 0; for (int q = 0; q < W; q++) if (col[k][q] == col[k][r]) { osize[k][r]++; orank[k][r] += key[k][q] < key[k][r]; } } if (k) MPI_Comm_split(MPI_COMM_WORLD, col[k][w], key[k][w], &sub[k]); else sub[0] = MPI_COMM_WORLD; }
  bool up = false, mine = false, log = false; int s = 0, verb = INT_MIN; // messaging up, started by the library, log open, communicator
  for (int i = 0; i < len; i++) {
    int op = ops && i < (int)vf_param("fixed", 0) ? digit(ops, i, len) : (int)vf_conc(vf_r("op", i, 0, vf_param("two", 1) ? 8 : 7)); bool can = op == 2 ? !up : op == 3 ? up && !mine : op == 4 || op == 8 ? up && s != (op == 4 ? 1 : 2) : op == 5 ? up && s : op == 6 ? up && !s && !log : op == 7 ? up : true; vf_assume(can);
    if (op == 0) { int v = (int)vf_conc(vf_r("verb", i, -1, 1)); if (vf_param("capi", 0)) { v = 0; cengpar_initialize(); } else EnGPar_Initialize(v); verb = v; if (!up) { up = mine = true; s = 0; } }
    if (op == 1) { if (vf_param("capi", 0)) cengpar_finalize(); else EnGPar_Finalize(); log = false; if (up && mine) { up = mine = false; s = 0; vf_reach("ended"); } else if (up) vf_reach("kept"); }
    if (op == 2) { PCU_Comm_Init(); up = true; mine = false; s = 0; }
    if (op == 3) { PCU_Comm_Free(); up = false; s = 0; }
    if (op == 4 || op == 8) { s = op == 4 ? 1 : 2; if (vf_param("capi", 0)) cengpar_setftncommunicator(MPI_Comm_c2f(sub[s])); else EnGPar_Switch_Comm(sub[s]); }
    if (op == 5) { EnGPar_Switch_Comm(MPI_COMM_WORLD); s = 0; vf_reach("back"); }
    if (op == 6) { EnGPar_Open_Log(); log = true; }
    if (op == 7) talk(s);
    CHECK((bool)PCU_Comm_Initialized() == up, "messaging is up until the one who started it ends it"); CHECK(EnGPar_Is_Log_Open() == (log && w == 0), "the log is open on the first process until it is closed");
    if (verb != INT_MIN) for (int k = -2; k < 4; k++) CHECK(EnGPar_Check_Verbosity(k) == (verb >= k), "messages up to the level asked for are on");
  }
  if (up) { talk(s); PCU_Switch_Comm(MPI_COMM_WORLD); talk(0); Spec g; genSpec(g); Ngraph* ng = createEmptyGraph(); buildGraph(ng, g, 0); verifyGraph(ng, g, V_ALL); destroyGraph(ng); }
  if (log) EnGPar_Close_Log(); if (up && mine) { EnGPar_Finalize(); CHECK(!PCU_Comm_Initialized(), "the library ends the messaging it started"); } else { EnGPar_Finalize(); CHECK((bool)PCU_Comm_Initialized() == up, "the library leaves alone the messaging it did not start"); if (up) { talk(0); PCU_Comm_Free(); } }
  MPI_Comm_free(&sub[1]); MPI_Comm_free(&sub[2]); vf_reach("end");
}
