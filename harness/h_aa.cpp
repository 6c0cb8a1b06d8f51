// Balanced search tree: behaves as a set keyed by the comparison, for every sequence of operations.
#include "vf.h"
extern "C" {
#include <pcu_aa.h>
}
#define CHECK(c, m) vf_check((c) ? 1 : 0, m)
struct N { pcu_aa_node node; long key; };
static bool less(pcu_aa_node* a, pcu_aa_node* b) { return ((N*)a)->key < ((N*)b)->key; }
static int walk(pcu_aa_tree t, long* out, int n) { if (pcu_aa_empty(t)) return n; n = walk(t->left, out, n); out[n++] = ((N*)t)->key; return walk(t->right, out, n); }
static bool inv(pcu_aa_tree t) { if (pcu_aa_empty(t)) return true; // the balance rules of an AA tree: they bound the depth by twice the logarithm of the size
  int l = t->left->level, r = t->right->level; return l == t->level - 1 && (r == t->level || r == t->level - 1) && (pcu_aa_empty(t->right) || t->right->right->level < t->level) && inv(t->left) && inv(t->right); }
static int depth(pcu_aa_tree t) { if (pcu_aa_empty(t)) return 0; int a = depth(t->left), b = depth(t->right); return 1 + (a > b ? a : b); }
VF_MAIN() {
  int n = vf_param("n", 4), m = vf_param("rm", 1); static N nodes[32]; int fix = vf_param("fix", 0); /* 1..: the first keys are inserted in a fixed order: ascending, descending, strided */ pcu_aa_tree t; pcu_make_aa(&t); CHECK(pcu_aa_empty(t) && pcu_aa_count(t) == 0, "a new tree is empty");
  long set[32]; int c = 0; int inserted[32];
  for (int i = 0; i < n; i++) { nodes[i].key = fix && i < n - vf_param("free", 0) ? 10 + 4 * (fix == 1 ? i : fix == 2 ? n - 1 - i : (i * fix) % n) : vf_r("key", i, 0, 255); 
    int dup = -1; for (int j = 0; j < c; j++) if (nodes[(int)set[j]].key == nodes[i].key) dup = (int)set[j];
    pcu_aa_node* r = pcu_aa_insert(&nodes[i].node, &t, less); 
    if (dup >= 0) { CHECK(r == &nodes[dup].node, "inserting an equal key returns the stored element"); inserted[i] = 0; } else { CHECK(r == &nodes[i].node, "inserting a new key stores it"); set[c++] = i; inserted[i] = 1; }
    CHECK(pcu_aa_count(t) == c, "count after insertion"); }
  long o[32]; int w = walk(t, o, 0); CHECK(w == c, "every stored key is reachable"); for (int i = 1; i < w; i++) CHECK(o[i-1] < o[i], "keys are in order"); CHECK(depth(t) <= (c <= 0 ? 0 : c == 1 ? 1 : c <= 2 ? 2 : c <= 4 ? 3 : c <= 6 ? 4 : c <= 10 ? 5 : c <= 14 ? 6 : 8), "the tree stays balanced");
  if (!fix) { N q; q.key = vf_range("q", 0, 255); pcu_aa_node* f = pcu_aa_find(&q.node, t, less); pcu_aa_node* wf = 0; for (int j = 0; j < c; j++) if (nodes[(int)set[j]].key == q.key) wf = &nodes[(int)set[j]].node; CHECK(f == wf, "find returns exactly the stored element with that key"); }
  for (int k = 0; k < m; k++) { N d; d.key = vf_r("rm", k, 0, 255); int at = -1; for (int j = 0; j < c; j++) if (nodes[(int)set[j]].key == d.key) at = j; pcu_aa_node* r = pcu_aa_remove(&d.node, &t, less);
    if (at < 0) CHECK(!r, "removing an absent key does nothing"); else { CHECK(r == &nodes[(int)set[at]].node, "removing returns the stored element"); set[at] = set[--c]; }
    CHECK(inv(t), "balance invariant after removal"); CHECK(pcu_aa_count(t) == c, "count after removal"); w = walk(t, o, 0); CHECK(w == c, "every remaining key is reachable"); for (int i = 1; i < w; i++) CHECK(o[i-1] < o[i], "keys are in order after removal"); for (int j = 0; j < c; j++) CHECK(pcu_aa_find(&nodes[(int)set[j]].node, t, less) == &nodes[(int)set[j]].node, "remaining keys are found"); CHECK(pcu_aa_find(&d.node, t, less) == 0, "a removed key is gone"); }
  CHECK(inv(t), "balance invariant");
  vf_reach("end"); return;
}
