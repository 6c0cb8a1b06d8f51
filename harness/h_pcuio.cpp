// Binary files: what is written is read back bit for bit, and the bytes on disk are in network order.
#include "vf.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <PCU.h>
extern "C" {
#include "pcu_io.h"
}
#define CHECK(c, m) vf_check((c) ? 1 : 0, m)
VF_MAIN() {
  PCU_Comm_Init(); int n = vf_param("n", 3), me = vf_self(); char name[32]; strcpy(name, "file_"); name[5] = '0' + me; name[6] = 0;
  unsigned u[8] = {0}; unsigned long db[8]; double d[8]; char str[128]; int sl = vf_param("len", 4);
  for (int i = 0; i < n; i++) { char b[64]; u[i] = (unsigned)vf_bits(vf_nm(b, "u", me, i), 32); db[i] = vf_bits(vf_nm(b, "d", me, i), 64); memcpy(&d[i], &db[i], 8); }
  int len = (int)vf_conc(vf_range("len", vf_param("lmin", 0), sl)); for (int i = 0; i < len; i++) { char b[64]; str[i] = (char)vf_bits(vf_nm(b, "s", me, i), 8); vf_assume(str[i] != 0); } str[len] = 0;
  pcu_file* f = pcu_fopen(name, true, false); CHECK(f != NULL, "file opened for writing");
  pcu_write_unsigneds(f, u, n); pcu_write_doubles(f, d, n); pcu_write_string(f, str); PCU_WRITE_UNSIGNED(f, u[0]); pcu_write_unsigneds(f, u, 0);
  for (int i = 0; i < n; i++) { char b[64]; CHECK(u[i] == (unsigned)vf_bits(vf_nm(b, "u", me, i), 32), "writing leaves the caller's integers alone"); unsigned long q; memcpy(&q, &d[i], 8); CHECK(q == db[i], "writing leaves the caller's reals alone"); }
  pcu_fclose(f);
  FILE* raw = fopen(name, "r"); unsigned char by[400]; size_t got = fread(by, 1, sizeof by, raw); fclose(raw);
  CHECK(got == (size_t)(n * 12 + len + 1 + 4), "file length");
  for (int i = 0; i < n; i++) { unsigned v = (unsigned)by[4*i] << 24 | (unsigned)by[4*i+1] << 16 | (unsigned)by[4*i+2] << 8 | by[4*i+3]; CHECK(v == u[i], "integers are stored in network byte order"); unsigned long w = 0; for (int j = 0; j < 8; j++) w = w << 8 | by[4*n+8*i+j]; CHECK(w == db[i], "reals are stored in network byte order"); }
  f = pcu_fopen(name, false, false); unsigned u2[8]; double d2[8]; char* s2 = NULL; unsigned x;
  pcu_read_unsigneds(f, u2, n); pcu_read_doubles(f, d2, n); pcu_read_string(f, &s2); PCU_READ_UNSIGNED(f, x); pcu_fclose(f);
  for (int i = 0; i < n; i++) { CHECK(u2[i] == u[i], "integers are read back"); unsigned long q; memcpy(&q, &d2[i], 8); CHECK(q == db[i], "reals are read back"); }
  for (int i = 0; i <= len; i++) CHECK(s2[i] == str[i], "strings are read back"); CHECK(x == u[0], "values after a string are read back"); free(s2);
  vf_reach("end"); PCU_Comm_Free();
}
