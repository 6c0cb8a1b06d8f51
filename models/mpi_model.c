/* Message-passing environment model: P processes, non-overtaking channels, synchronous sends
   that complete only when matched (payload read from the sender's buffer at match time),
   collectives matched by call order per communicator.  Everything "shared" lives in one copy. */
#include <mpi.h>
#include <stdlib.h>
#include <string.h>
#include "vf.h"
#define SH __attribute__((section("vfshared")))
#define MAXP 8
#define MAXC 24
#define MAXCOLL 4
typedef struct Msg { struct Msg* next; int ctx, src, dst, tag, size, done, held; const void* buf; void* copy; } Msg;
typedef struct { int ctx, n, me; int mem[MAXP]; int seq; int kids; } Comm;
typedef struct Coll { struct Coll* next; int ctx, seq, n, arrived, left, kind; void* data[MAXP]; int size[MAXP]; int aux[MAXP][2*MAXP]; } Coll;
static Msg* inbox[MAXP] SH = {0};
static long quiet SH = 0; static long nheld SH = 0;
static void prog(void) { quiet = 0; vf_progress(); }
/* slow=k: up to k messages, chosen by the solver, stay under way until no process can do anything else (in order of sending) */
static void lull(void) { if (nheld && ++quiet > 16 * vf_size()) { for (int d = 0; d < vf_size(); d++) for (Msg* m = inbox[d]; m; m = m->next) if (m->held) { m->held = 0; prog(); return; } } vf_yield(); }
static Coll* colls SH = 0;
static Comm comms[MAXC]; static int ncomm; static int inited; static int selfseq;
static void boot(void) { if (ncomm) return; ncomm = 3; comms[1].ctx = 1; comms[1].n = vf_size(); comms[1].me = vf_self(); for (int i = 0; i < vf_size(); i++) comms[1].mem[i] = i; comms[2].ctx = 1000000 * (vf_self() + 1); comms[2].n = 1; comms[2].me = 0; comms[2].mem[0] = vf_self(); }
static Comm* C(MPI_Comm c) { boot(); if (c <= 0 || c >= ncomm || comms[c].n == 0) vf_fail("invalid communicator used"); return &comms[c]; }
static int dsize(MPI_Datatype t) { return t >> 8; }
int MPI_Init(int* a, char*** b) { boot(); inited = 1; return 0; }
int MPI_Init_thread(int* a, char*** b, int r, int* p) { boot(); inited = 1; if (p) *p = r; return 0; }
int MPI_Initialized(int* f) { *f = inited; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm c, int e) { vf_fail("MPI_Abort called"); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = C(c)->n; return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = C(c)->me; return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { Comm* p = C(c); if (ncomm >= MAXC) { for (int i = 3; i < MAXC; i++) if (comms[i].n == 0) { p->kids++; comms[i] = *p; comms[i].ctx = p->ctx * 37 + p->kids + 11; comms[i].seq = 0; comms[i].kids = 0; *o = i; return 0; } vf_fail("communicator table exhausted"); }
  Comm* q = &comms[ncomm]; *q = *p; p->kids++; q->ctx = p->ctx * 37 + p->kids + 11; q->seq = 0; q->kids = 0; *o = ncomm++; return 0; }
int MPI_Comm_free(MPI_Comm* c) { C(*c)->n = 0; *c = MPI_COMM_NULL; return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f) { return f; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return c; }
double MPI_Wtime(void) { return 0.0; }
int MPI_Get_processor_name(char* n, int* l) { n[0] = 0; *l = 0; return 0; }
/* ---- point to point */
static int delays; static int delayInit;
static void sched(void) { /* optional nondeterministic preemption: bounded number of choices */
  long k = vf_param("sched", 0); if (delays < k) { int n = vf_size(); delays++; long c = vf_choose(n); if (c != vf_self() && vf_live(c)) vf_switch(c); } }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* r) { Comm* k = C(c);
  if (dst < 0 || dst >= k->n) vf_fail("message sent to a rank outside the communicator");
  if (n < 0) vf_fail("negative message size");
  Msg* m = (Msg*)malloc(sizeof(Msg)); m->next = 0; m->ctx = k->ctx; m->src = k->me; m->dst = k->mem[dst]; m->tag = tag; m->size = n * dsize(t); m->done = 0; m->held = 0; m->buf = b; m->copy = 0;
  Msg** p = &inbox[m->dst]; while (*p) p = &(*p)->next; *p = m; *r = (MPI_Request)m; if (nheld < vf_param("slow", 0) && vf_choose(2)) { nheld++; m->held = 1; } prog(); sched(); return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* r) { return MPI_Issend(b, n, t, dst, tag, c, r); }
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* st) { if (!*r) { *flag = 1; return 0; } Msg* m = (Msg*)*r; if (m->done) { *flag = 1; free(m); *r = MPI_REQUEST_NULL; prog(); } else { *flag = 0; lull(); } return 0; }
int MPI_Wait(MPI_Request* r, MPI_Status* st) { int f = 0; while (!f) MPI_Test(r, &f, st); return 0; }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) { for (int i = 0; i < n; i++) MPI_Wait(&r[i], 0); return 0; }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { MPI_Request r; MPI_Issend(b, n, t, dst, tag, c, &r); return MPI_Wait(&r, 0); }
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return MPI_Ssend(b, n, t, dst, tag, c); }
static Msg* match(Comm* k, int src, int tag) { Msg* best = 0; Msg* first[MAXP]; int nf = 0; for (int i = 0; i < MAXP; i++) first[i] = 0;
  for (Msg* m = inbox[vf_self()]; m; m = m->next) if (m->ctx == k->ctx && (src == MPI_ANY_SOURCE || m->src == src) && (tag == MPI_ANY_TAG || m->tag == tag)) { if (!first[m->src]) { first[m->src] = m; if (!m->held) nf++; } }
  for (int i = 0; i < MAXP; i++) if (first[i] && first[i]->held) first[i] = 0;
  if (!nf) return 0;
  long mode = vf_param("order", 0); int pick = 0;
  if (nf > 1 && mode == 2) pick = (int)vf_choose(nf); else if (mode == 1) pick = nf - 1;
  for (int i = 0; i < MAXP; i++) if (first[i]) { if (pick == 0) { best = first[i]; break; } pick--; }
  return best; }
static int probeDelays;
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* flag, MPI_Status* st) { Comm* k = C(c);
  Msg* m = match(k, src, tag);
  if (m && probeDelays < vf_param("late", 0)) { probeDelays++; if (vf_choose(2)) m = 0; }
  if (!m) { *flag = 0; lull(); return 0; }
  *flag = 1; if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->count_ = m->size; } return 0; }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st) { int f = 0; while (!f) MPI_Iprobe(src, tag, c, &f, st); return 0; }
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = st->count_ / dsize(t); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st) { Comm* k = C(c); Msg* m; 
  while (!(m = match(k, src, tag))) lull();
  if (m->size > n * dsize(t)) vf_fail("received message is longer than the receive buffer");
  if (m->size) memcpy(b, m->buf, m->size); if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->count_ = m->size; }
  Msg** p = &inbox[vf_self()]; while (*p != m) p = &(*p)->next; *p = m->next; m->done = 1; prog(); sched(); return 0; }
/* ---- collectives */
static Coll* enter(Comm* k, int kind, const void* b, int size) { int seq = k->seq++; Coll* x = colls; while (x && !(x->ctx == k->ctx && x->seq == seq)) x = x->next;
  if (!x) { x = (Coll*)calloc(1, sizeof(Coll)); x->ctx = k->ctx; x->seq = seq; x->n = k->n; x->kind = kind; x->next = colls; colls = x; }
  if (x->kind != kind) vf_fail("processes disagree on the collective operation being performed");
  void* d = malloc(size ? size : 1); if (size) memcpy(d, b, size); x->data[k->me] = d; x->size[k->me] = size; return x; }
static void arrive(Coll* x) { x->arrived++; prog(); while (x->arrived < x->n) lull(); }
static void leave(Coll* x) { if (++x->left == x->n) { for (int i = 0; i < x->n; i++) free(x->data[i]); Coll** p = &colls; while (*p != x) p = &(*p)->next; *p = x->next; free(x); } prog(); }
static void red(void* a, const void* b, int n, MPI_Datatype t, MPI_Op op) {
#define R(T) { T* x = (T*)a; const T* y = (const T*)b; for (int i = 0; i < n; i++) { T u = x[i], v = y[i]; switch (op) { case MPI_SUM: u = u + v; break; case MPI_MAX: u = v > u ? v : u; break; case MPI_MIN: u = v < u ? v : u; break; case MPI_LAND: u = (u && v); break; case MPI_LOR: u = (u || v); break; case MPI_PROD: u = u * v; break; default: vf_fail("unmodelled reduction"); } x[i] = u; } return; }
  switch (t) { case MPI_INT: R(int) case MPI_UNSIGNED: R(unsigned) case MPI_LONG: R(long) case MPI_LONG_LONG: R(long) case MPI_UNSIGNED_LONG: R(unsigned long) case MPI_DOUBLE: R(double) default: vf_fail("unmodelled reduction type"); } }
int MPI_Barrier(MPI_Comm c) { Comm* k = C(c); Coll* x = enter(k, 1, "", 0); arrive(x); leave(x); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { Comm* k = C(c); Coll* x = enter(k, 2, b, k->me == root ? n * dsize(t) : 0); arrive(x); if (k->me != root && n) memcpy(b, x->data[root], n * dsize(t)); leave(x); return 0; }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Comm* k = C(c); int sz = n * dsize(t); Coll* x = enter(k, 3, s == MPI_IN_PLACE ? r : s, sz); arrive(x);
  for (int i = 0; i < k->n; i++) if (x->size[i] != sz) vf_fail("processes disagree on the size of a reduction");
  if (sz) { memcpy(r, x->data[0], sz); for (int i = 1; i < k->n; i++) red(r, x->data[i], n, t, op); } leave(x); return 0; }
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { Comm* k = C(c); int sz = n * dsize(t); Coll* x = enter(k, 4, s == MPI_IN_PLACE ? r : s, sz); arrive(x); if (k->me == root && sz) { memcpy(r, x->data[0], sz); for (int i = 1; i < k->n; i++) red(r, x->data[i], n, t, op); } leave(x); return 0; }
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Comm* k = C(c); int sz = n * dsize(t); Coll* x = enter(k, 5, s == MPI_IN_PLACE ? r : s, sz); arrive(x); if (sz) { memcpy(r, x->data[0], sz); for (int i = 1; i <= k->me; i++) red(r, x->data[i], n, t, op); } leave(x); return 0; }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Comm* k = C(c); int sz = n * dsize(t); Coll* x = enter(k, 6, s == MPI_IN_PLACE ? r : s, sz); arrive(x); if (sz && k->me > 0) { memcpy(r, x->data[0], sz); for (int i = 1; i < k->me; i++) red(r, x->data[i], n, t, op); } leave(x); return 0; }
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, MPI_Comm c) { Comm* k = C(c); int sz = rn * dsize(rt); const void* src = s == MPI_IN_PLACE ? (char*)r + k->me * sz : s; Coll* x = enter(k, 7, src, sz); arrive(x); for (int i = 0; i < k->n; i++) if (sz) memcpy((char*)r + i * sz, x->data[i], sz); leave(x); return 0; }
int MPI_Allgatherv(const void* s, int n, MPI_Datatype t, void* r, const int* rn, const int* rd, MPI_Datatype rt, MPI_Comm c) { Comm* k = C(c); int e = dsize(rt); const void* src = s == MPI_IN_PLACE ? (char*)r + rd[k->me] * e : s; Coll* x = enter(k, 8, src, rn[k->me] * e); arrive(x); for (int i = 0; i < k->n; i++) { if (x->size[i] != rn[i] * e) vf_fail("gather counts disagree"); if (rn[i]) memcpy((char*)r + rd[i] * e, x->data[i], rn[i] * e); } leave(x); return 0; }
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { Comm* k = C(c); int sz = n * dsize(t); Coll* x = enter(k, 9, s, sz); arrive(x); if (k->me == root) for (int i = 0; i < k->n; i++) if (sz) memcpy((char*)r + i * sz, x->data[i], sz); leave(x); return 0; }
int MPI_Alltoall(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, MPI_Comm c) { Comm* k = C(c); int sz = n * dsize(t); Coll* x = enter(k, 10, s, sz * k->n); arrive(x); for (int i = 0; i < k->n; i++) if (sz) memcpy((char*)r + i * sz, (char*)x->data[i] + k->me * sz, sz); leave(x); return 0; }
int MPI_Alltoallv(const void* s, const int* sc, const int* sd, MPI_Datatype t, void* r, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c) { Comm* k = C(c); int e = dsize(t); int tot = 0; for (int i = 0; i < k->n; i++) if (sc[i] > 0 && sd[i] + sc[i] > tot) tot = sd[i] + sc[i];
  Coll* x = enter(k, 11, s, tot * e); for (int i = 0; i < k->n; i++) { x->aux[k->me][2*i] = sc[i]; x->aux[k->me][2*i+1] = sd[i]; } arrive(x);
  for (int i = 0; i < k->n; i++) { int cnt = x->aux[i][2*k->me], d = x->aux[i][2*k->me+1]; if (cnt != rc[i]) vf_fail("all-to-all counts disagree between sender and receiver"); if (cnt) memcpy((char*)r + rd[i] * e, (char*)x->data[i] + d * e, cnt * e); } leave(x); return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* o) { Comm* k = C(c); int v[2]; v[0] = color; v[1] = key; Coll* x = enter(k, 12, v, 8); arrive(x); k->kids++;
  if (ncomm >= MAXC) vf_fail("communicator table exhausted");
  if (color == MPI_UNDEFINED) { *o = MPI_COMM_NULL; leave(x); return 0; }
  Comm* q = &comms[ncomm]; memset(q, 0, sizeof *q); q->ctx = (k->ctx * 37 + k->kids + 11) * 101 + color; 
  int n = 0; int ks[MAXP], id[MAXP]; for (int i = 0; i < k->n; i++) { int* w = (int*)x->data[i]; if (w[0] == color) { int j = n++; while (j > 0 && ks[j-1] > w[1]) { ks[j] = ks[j-1]; id[j] = id[j-1]; j--; } ks[j] = w[1]; id[j] = i; } }
  q->n = n; for (int i = 0; i < n; i++) { q->mem[i] = k->mem[id[i]]; if (id[i] == k->me) q->me = i; } *o = ncomm++; leave(x); return 0; }
/* ---- comparison of communicators */
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) { Comm *x = C(a), *y = C(b); if (a == b) { *r = MPI_IDENT; return 0; } *r = MPI_CONGRUENT; if (x->n != y->n) *r = MPI_UNEQUAL; else for (int i = 0; i < x->n; i++) { int f = 0; for (int j = 0; j < y->n; j++) f |= x->mem[i] == y->mem[j]; if (!f) { *r = MPI_UNEQUAL; break; } if (x->mem[i] != y->mem[i]) *r = MPI_SIMILAR; } return 0; }
