// Messaging supersteps: whatever is packed arrives exactly once, unchanged, in its own phase.
#include "vf.h"
#include <PCU.h>
#include <string.h>
#define CHECK(c, m) vf_check((c) ? 1 : 0, m)
static int P, me, maxp, api;
static int npk(int ph, int s, int d) { if (vf_param("only", 0)) return s == 0 && d ? maxp : 0; char b[64]; return (int)vf_conc(vf_range(vf_nm(b, "n", ph, s, d), 0, maxp)); }
static int psz(int ph, int s, int d, int k) { return 1 + (s * 5 + d * 3 + k * 7 + ph) % 4 * (api == 2 ? 20 : 1) - (api == 3 && k == 0); }
static void body(int ph, int s, int d, int k, int sz, unsigned char* o) { // first 8 bytes arbitrary, the rest a known pattern
  unsigned long v = (unsigned long)vf_r3("v", ph * 8 + s, d, k, 0, 1L << 55); for (int i = 0; i < sz; i++) o[i] = i < 8 ? (unsigned char)(v >> (8 * i)) : (unsigned char)(17 * i + s); }
VF_MAIN() {
  PCU_Comm_Init(); P = PCU_Comm_Peers(); me = PCU_Comm_Self(); CHECK(P == vf_size() && me == vf_self(), "rank and size");
  maxp = vf_param("maxp", 1); api = vf_param("api", 0); int phases = vf_param("phases", 1), ord = vf_param("ordered", 1), coll = vf_param("coll", 0), sym = vf_param("sym", 1);
  if (!ord) PCU_Comm_Order(false);
  for (int ph = 0; ph < phases; ph++) {
    if (ph && vf_param("toggle", 0)) { ord = !ord; PCU_Comm_Order(ord); }
    PCU_Comm_Begin();
    for (int k = 0; k < maxp; k++) for (int q = 0; q < P; q++) { int d = (q + me + ph) % P; if (me % 2) d = (2 * P - q + me + ph) % P; 
      if (!sym && (me + d * 2 + ph) % 3 == 0) continue;
      if (sym && k >= npk(ph, me, d)) continue;
      int sz = psz(ph, me, d, k); unsigned char b[128]; body(ph, me, d, k, sz, b);
      if (api == 1) PCU_Comm_Write(d, b, sz); else PCU_Comm_Pack(d, b, sz);
      size_t pk = 0; PCU_Comm_Packed(d, &pk); size_t want = 0; for (int j = 0; j <= k; j++) want += psz(ph, me, d, j) + (api == 1 ? 8 : 0); CHECK(pk == want, "packed size is the sum of what was packed"); }
    PCU_Comm_Send();
    int got[8] = {0}; int last = -1, total = 0;
    if (api == 1) { int from; void* data; size_t sz;
      while (PCU_Comm_Read(&from, &data, &sz)) { CHECK(from >= 0 && from < P, "sender is a process"); int k = got[from]++; int n = sym ? npk(ph, from, me) : (from + me * 2 + ph) % 3 == 0 ? 0 : maxp; CHECK(k < n, "no message is delivered twice or invented");
        CHECK(sz == (size_t)psz(ph, from, me, k), "message size"); unsigned char b[128]; body(ph, from, me, k, (int)sz, b); bool same = true; for (size_t i = 0; i < sz; i++) same &= ((unsigned char*)data)[i] == b[i]; CHECK(same, "message contents"); if (ord) CHECK(from >= last, "ordered mode delivers in sender order"); last = from; total++; }
    } else while (PCU_Comm_Listen()) {
      int from = PCU_Comm_Sender(); int f2; PCU_Comm_From(&f2); CHECK(from == f2 && from >= 0 && from < P, "sender is a process"); int n = sym ? npk(ph, from, me) : (from + me * 2 + ph) % 3 == 0 ? 0 : maxp; CHECK(!got[from], "one message per sender and phase"); CHECK(n > 0, "no message is delivered without having been sent");
      if (ord) CHECK(from > last, "ordered mode delivers in sender order"); last = from;
      size_t tot = 0; for (int k = 0; k < n; k++) tot += psz(ph, from, me, k); size_t rs; PCU_Comm_Received(&rs); CHECK(rs == tot, "received size is what was sent");
      for (int k = 0; k < n; k++) { int sz = psz(ph, from, me, k); if (sz) CHECK(!PCU_Comm_Unpacked(), "data remains until everything was unpacked"); unsigned char b[128], r[128]; body(ph, from, me, k, sz, b); if (k % 2 && sz) memcpy(r, PCU_Comm_Extract(sz), sz); else PCU_Comm_Unpack(r, sz);
        bool same = true; for (int i = 0; i < sz; i++) same &= r[i] == b[i]; CHECK(same, "message contents"); got[from]++; total++; }
      CHECK(PCU_Comm_Unpacked(), "nothing is left after unpacking what was packed"); if (n == 0) got[from] = 1; }
    int want = 0; for (int s = 0; s < P; s++) { int n = sym ? npk(ph, s, me) : (s + me * 2 + ph) % 3 == 0 ? 0 : maxp; CHECK(got[s] == n, "every packed message arrives in its phase"); want += n; }
    CHECK(total == want, "number of messages");
    if (coll) { int x = PCU_Add_Int(total + me); int w = 0; for (int d = 0; d < P; d++) { w += d; for (int s = 0; s < P; s++) w += sym ? npk(ph, s, d) : (s + d * 2 + ph) % 3 == 0 ? 0 : maxp; } CHECK(x == w, "collective between phases sees every process' value"); }
  }
  vf_reach("end"); PCU_Comm_Free(); return;
}
