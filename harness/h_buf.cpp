// Growable byte buffer: bytes pushed are the bytes walked, whatever the sizes.
#include "vf.h"
extern "C" {
#include <pcu_buffer.h>
}
#define CHECK(c, m) vf_check((c) ? 1 : 0, m)
VF_MAIN() {
  int n = vf_param("n", 3), mx = vf_param("max", 40); pcu_buffer b; pcu_make_buffer(&b); int sz[8]; unsigned char v[8]; size_t tot = 0;
  for (int i = 0; i < n; i++) { sz[i] = (int)vf_conc(vf_r("sz", i, 0, mx)); v[i] = (unsigned char)vf_r("v", i, 0, 255); char* p = (char*)pcu_push_buffer(&b, sz[i]); for (int j = 0; j < sz[i]; j++) p[j] = (char)(v[i] + j); tot += sz[i]; CHECK(b.size == tot, "size is the number of bytes pushed"); CHECK(b.capacity >= b.size, "capacity covers the size"); }
  pcu_resize_buffer(&b, tot); CHECK(b.size == tot && b.capacity == tot, "resize sets the size"); pcu_begin_buffer(&b);
  for (int i = 0; i < n; i++) { if (sz[i]) CHECK(!pcu_buffer_walked(&b), "not walked before the end"); unsigned char* p = (unsigned char*)pcu_walk_buffer(&b, sz[i]); for (int j = 0; j < sz[i]; j++) CHECK(p[j] == (unsigned char)(v[i] + j), "bytes walked are the bytes pushed"); }
  CHECK(pcu_buffer_walked(&b), "walked at the end"); pcu_free_buffer(&b); vf_reach("end"); return;
}
