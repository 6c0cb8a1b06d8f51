// Histories: whatever sequence of operations a graph goes through, it is after each of them what a plain model of
// the same sequence says: the same structure, weights, ownership, original owners and partition map.
#include "common.hpp"
#include <engpar.h>
#include <engpar_diffusive_input.h>
using namespace engpar;
static Spec s; static Ngraph* g; static int orig[MV]; static bool known, wpClean; static int what; static int nsave;
static void gather(int* own) { int mine[MV]; for (int i = 0; i < s.nv; i++) { mine[i] = 0; own[i] = -1; } VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) { int i = s.vidx(g->globalID(v)); CHECK(i >= 0 && !mine[i], "each vertex is held once"); mine[i] = 1; own[i] = s.me; }
  PCU_Comm_Begin(); for (int p = 0; p < s.P; p++) if (p != s.me) PCU_Comm_Pack(p, mine, sizeof mine); PCU_Comm_Send(); while (PCU_Comm_Receive()) { int o[MV]; PCU_Comm_Unpack(o, sizeof o); for (int i = 0; i < s.nv; i++) if (o[i]) { CHECK(own[i] == -1, "no vertex is held by two processes"); own[i] = PCU_Comm_Sender(); } } for (int i = 0; i < s.nv; i++) CHECK(own[i] >= 0, "no vertex is lost"); }
static void know() { if (known) return; known = true; for (int i = 0; i < s.nv; i++) orig[i] = s.own[i]; }
static void moveOne(int v, int to) { g->setOriginalOwners(); know(); Migration* p = new Migration(g); if (s.own[v] == s.me) p->insert(std::make_pair(g->findGID(s.vg[v]), to)); bool any = true; g->migrate(p); (void)any; s.own[v] = to; what = V_ALL; }
static void op(int k) {
  switch (k) {
  case 0: g->setOriginalOwners(); know(); break;
  case 1: g->resetOwnership(); known = false; know(); break;
  case 2: g->resetPartition(); known = false; know(); CHECK(g->getWeightPartition()->empty(), "resetting forgets the weight partition"); wpClean = true; break;
  case 3: moveOne(0, (s.own[0] + 1) % s.P); break;
  case 4: { part_t a[MV]; for (int i = 0; i < s.nv; i++) if (s.own[i] == s.me) a[g->localID(g->findGID(s.vg[i]))] = i == s.nv - 1 ? 0 : s.own[i]; know(); g->repartition(a); s.own[s.nv - 1] = 0; what = V_ALL; break; }
  case 5: { // weight moves along the first possible pair
    WeightMigration* p = new WeightMigration(g); for (int x = 0, done = 0; x < s.nv && !done; x++) for (int y = 0; y < s.nv && !done; y++) { bool pin = false; for (int t = 0; t < s.nt; t++) for (int e = 0; e < s.ne[t]; e++) if (s.edgeOn(t, e, s.own[x])) for (int q = 0; q < s.deg[t][e]; q++) pin = pin || s.pin[t][e][q] == y; if (s.own[x] == s.own[y] || !pin) continue;
      done = 1; if (s.own[x] == s.me) p->insert(g->findGID(s.vg[x]), g->findGID(s.vg[y]), 2); s.vw[x] -= 2; s.vw[y] += 2; wpClean = false; }
    g->migrate(p); what &= ~V_GW; break; }
  case 6: for (int t = 0; t < s.nt; t++) { g->create_vev_adjacency(t, t == 0); g->create_eve_adjacency(t, true); } break;
  case 17: { g->saveToFile("again"); PCU_Barrier(); g->loadFromFile("again"); known = false; wpClean = true; what = V_ALL; break; } // into the object itself
  case 18: if (s.nt > 1) { g->removeEdges(0); s.ne[0] = 0; CHECK(g->numEdgeTypes() == s.nt, "the other types keep their numbers"); what &= ~V_GHOSTS; } break; // empty until the graph is built anew
  case 7: { char n[16] = "kept_0"; n[5] = '0' + nsave++; g->saveToFile(n); PCU_Barrier(); Ngraph* h = createEmptyGraph(); h->loadFromFile(n); destroyGraph(g); g = h; known = false; wpClean = true; what = V_ALL; break; }
  case 8: case 16: { int t = s.nt - 1; if (t == 0 ) break; g->removeEdges(t); CHECK(g->numEdgeTypes() == t, "removing the last edge type leaves one type less");
    if (k == 16) { for (int i = 0; i < s.ne[t]; i++) { s.eg[t][i] += 50; for (int q = 0; q < s.deg[t][i]; q++) s.pin[t][i][q] = (s.pin[t][i][q] + 1) % s.nv; } what &= ~V_GHOSTS; } // other edges, other ends: ghosts of the earlier ones stay known
    std::vector<GID> e, p; std::vector<LID> d; std::vector<wgt_t> x; std::unordered_map<GID, part_t> owns; for (int i = 0; i < s.ne[t]; i++) { s.ew[t][i] += 1; if (s.edgeHere(t, i)) { e.push_back(s.eg[t][i]); d.push_back(s.deg[t][i]); x.push_back(s.ew[t][i]); for (int k = 0; k < s.deg[t][i]; k++) p.push_back(s.vg[s.pin[t][i][k]]); } }
    CHECK(g->constructEdges(e, d, p, x) == t, "a removed last type number is used again"); for (int i = 0; i < s.nv; i++) if (s.own[i] != s.me) owns[s.vg[i]] = s.own[i]; g->constructGhosts(owns); if (k == 8) what |= V_GW; break; }
  case 15: { int t = s.nt - 1; if (t == 0 ) break; g->removeEdges(t); s.nt--; CHECK(g->numEdgeTypes() == t && g->numLocalEdges(t) == 0 && g->numGlobalEdges(t) == 0, "a removed type is gone"); what &= ~V_GHOSTS; break; } // ghosts stay known
  case 9: { GraphTag *a = g->createIntTag(), *b = g->createDoubleTag(0); VertexIterator* it = g->begin(); GraphVertex* v; int i = 0; while ((v = g->iterate(it))) g->setIntTag(a, v, 100 + i++); EdgeIterator* ei = g->begin(0); GraphEdge* e; int j = 0; while ((e = g->iterate(ei))) g->setDoubleTag(b, e, 0.5 + j++); g->destroy(ei); i = 0; it = g->begin(); while ((v = g->iterate(it))) { CHECK(g->getIntTag(a, v) == 100 + i, "vertex tag"); i++; } j = 0; ei = g->begin(0); while ((e = g->iterate(ei))) { CHECK(g->getDoubleTag(b, e) == 0.5 + j, "edge tag"); j++; } g->destroy(ei); g->destroyTag(a); g->destroyTag(b); break; }
  case 10: buildGraph(g, s, 1); known = false; wpClean = true; what = V_ALL; CHECK(g->getWeightPartition()->empty(), "a graph described again has moved no weight"); break;
  case 11: { std::vector<wgt_t> w; for (int i = 0; i < s.nv; i++) s.vw[i] += 1; VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) w.push_back(s.vw[s.vidx(g->globalID(v))]); g->setWeights(w.data()); what &= ~V_GW; break; }
  case 12: { if (s.P == 1) break; double tot = 0; for (int i = 0; i < s.nv; i++) tot += s.vw[i]; if (tot == 0) break; know(); DiffusiveInput* in = dynamic_cast<DiffusiveInput*>(createDiffusiveInput(g, 0.4)); in->addPriority(-1, 1.05); in->maxIterations = 2; in->useDistanceQueue = g->isHyper(); int before[MV]; for (int i = 0; i < s.nv; i++) before[i] = s.own[i]; balance(in, VERB()); gather(s.own); for (int i = 0; i < s.nv; i++) if (s.own[i] != before[i]) what = V_ALL; break; }
  case 19: { s.coords = 1; s.cshift += 7; coord_t c[MV]; for (int i = 0; i < s.nv; i++) if (s.own[i] == s.me) for (int j = 0; j < 3; j++) c[g->localID(g->findGID(s.vg[i]))][j] = s.coord(i, j); g->setCoords(c); break; } // needs cofix=1
  case 13: CHECK(checkValidity(g), "the graph is valid"); break;
  case 14: for (int t = 0; t < s.nt; t++) { g->setEdgeWeights(3 + t, t); for (int e = 0; e < s.ne[t]; e++) s.ew[t][e] = 3 + t; } break;
  } }
VF_MAIN() {
  startup(); genSpec(s); g = createEmptyGraph(); buildGraph(g, s, vf_param("mode", 0)); known = false; wpClean = true; what = V_ALL; nsave = 0;
  int L = vf_param("len", 2), N = 20; long only = vf_param("ops", (1 << 19) - 1); const char* seq[4] = {"op1", "op2", "op3", "op4"};
  for (int i = 0; i < L; i++) { long k = vf_param(seq[i], -1); if (k < 0) { k = vf_r("op", i, 0, N - 1); vf_assume((only >> k) & 1); k = vf_conc(k); } op((int)k); logLine("outermost"); verifyGraph(g, s, what);
    VertexIterator* it = g->begin(); GraphVertex* v; if (known) while ((v = g->iterate(it))) CHECK(g->originalOwner(v) == orig[s.vidx(g->globalID(v))], "original owners are the owners when they were recorded");
    if (known) { PartitionMap* m = g->getPartition(); int c = 0; for (int j = 0; j < s.nv; j++) if (orig[j] == s.me) { PartitionMap::iterator q = m->find(s.vg[j]); CHECK(q != m->end() && q->second == s.own[j], "the partition map leads from the recorded owners to the current ones"); c++; } CHECK((int)m->size() == c, "the partition map names no other vertex"); delete m; }
    if (wpClean) CHECK(g->getWeightPartition()->empty(), "no weight was moved"); }
  logEnd(); destroyGraph(g); vf_reach("end"); PCU_Comm_Free();
}
