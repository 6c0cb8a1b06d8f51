// Native replay runtime: feeds a counterexample's inputs to the harness linked with the real code.
#include <mpi.h>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <fstream>
#include <unistd.h>
#include <signal.h>
#include "vf.h"
static std::map<std::string,long> in; static std::map<std::string,long> par; static int rank_, size_; static int choices;
extern "C" void vf_main();
static void loadAll() { const char* f = getenv("VF_INPUT"); if (f) { std::ifstream s(f); std::string n; long v; while (s >> n >> v) in[n] = v; } const char* p = getenv("VF_PARAMS"); if (p) { std::ifstream s(p); std::string n; long v; while (s >> n >> v) par[n] = v; } }
extern "C" {
long vf_range(const char* n, long lo, long hi) { if (lo == hi) return lo; auto i = in.find(n); long v = i == in.end() ? lo : i->second; if (v < lo || v > hi) { fprintf(stderr, "VF-RANGE %s=%ld not in [%ld,%ld]\n", n, v, lo, hi); v = lo; } return v; }
unsigned long vf_bits(const char* n, int b) { auto i = in.find(n); return i == in.end() ? 0 : (unsigned long)i->second & (b >= 64 ? ~0ul : (1ul << b) - 1); }
static void bye(int c) { fflush(stdout); fflush(stderr); if (size_ > 1) MPI_Abort(MPI_COMM_WORLD, c); _exit(c); }
void vf_assume(int c) { if (!c) { fprintf(stderr, "VF-ASSUME-FALSE\n"); bye(0); } }
void vf_fail(const char* m) { fprintf(stderr, "VF-FAIL [rank %d] %s\n", rank_, m); bye(77); }
void vf_check(int c, const char* m) { if (!c) vf_fail(m); }
void vf_reach(const char* m) { if (getenv("VF_TRACE")) fprintf(stderr, "VF-REACH %s\n", m); }
int vf_self(void) { return rank_; } int vf_size(void) { return size_; }
void vf_yield(void) { usleep(100); } void vf_switch(int) {} int vf_live(int) { return 1; } void vf_progress(void) {}
long vf_conc(long x) { return x; } long vf_param(const char* n, long d) { auto i = par.find(n); return i == par.end() ? d : i->second; }
long vf_choose(long n) { char b[64]; snprintf(b, 64, "choice%dof%ld", choices++, n); auto i = in.find(b); return i == in.end() ? 0 : i->second; }
void vf_end(void) { fprintf(stderr, "VF-END\n"); bye(0); } int vf_issym(long) { return 0; } void vf_expect_abort(void) { signal(SIGABRT, [](int) { static const char m[] = "VF-END\n"; if (write(2, m, sizeof m - 1)) {} _exit(0); }); } long vf_mark(void) { return 0; } void vf_leaks(long) {}
}
// message order: like the model, deliver the lowest (0) or highest (1) waiting sender first
extern "C" int MPI_Iprobe(int src, int tag, MPI_Comm c, int* flag, MPI_Status* st) {
  static int order = -2; if (order == -2) { const char* e = getenv("VF_ORDER"); order = e ? atoi(e) : -1; }
  if (src != MPI_ANY_SOURCE || order < 0) return PMPI_Iprobe(src, tag, c, flag, st);
  PMPI_Iprobe(src, tag, c, flag, st); if (!*flag) return 0; usleep(2000); int n; MPI_Comm_size(c, &n);
  for (int k = 0; k < n; k++) { int f = 0; MPI_Status t; PMPI_Iprobe(order ? n - 1 - k : k, tag, c, &f, &t); if (f) { *flag = 1; if (st != MPI_STATUS_IGNORE) *st = t; return 0; } }
  return PMPI_Iprobe(src, tag, c, flag, st); }
static void onAlarm(int) { static const char m[] = "VF-ALARM no completion\n"; if (write(2, m, sizeof m - 1)) {} _exit(79); }
static void onSig(int) { static const char m[] = "VF-SIGNAL\n"; if (write(2, m, sizeof m - 1)) {} _exit(80); }
int main(int argc, char** argv) { MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank_); MPI_Comm_size(MPI_COMM_WORLD, &size_); loadAll(); signal(SIGALRM, onAlarm); signal(SIGFPE, onSig); { const char* e = getenv("VF_ALARM"); alarm(e ? atoi(e) : 60); } vf_main(); MPI_Finalize(); return 0; }
extern "C" const char* engpar_version_c() { return "vf"; } const char* engpar_version() { return "vf"; }
