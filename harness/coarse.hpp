// Quotient-graph oracle of coarsening.
#pragma once
#include "graph.hpp"
inline void checkCoarse (const MGraph &g, Num base, SCOTCH_Graph *cg, const Num *mult, int cn, const std::vector<int> *f2c, const char *w) {
  std::vector<int> map (g.n, -1);
  for (int c = 0; c < cn; c ++) for (int k = 0; k < 2; k ++) { Num f = mult[2 * c + k] - base; CHECK (f >= 0 && f < g.n, "%s: multinode %d holds %lld", w, c, (long long) mult[2 * c + k]); CHECK (map[f] < 0 || (map[f] == c && k == 1 && mult[2 * c] == mult[2 * c + 1]), "%s: fine vertex %lld belongs to two multinodes", w, (long long) f); map[f] = c; }
  for (int v = 0; v < g.n; v ++) CHECK (map[v] >= 0, "%s: fine vertex %d belongs to no multinode", w, v);
  if (f2c) for (int v = 0; v < g.n; v ++) CHECK ((*f2c)[v] == map[v], "%s: fine-to-coarse array maps %d to %d, multinodes to %d", w, v, (*f2c)[v], map[v]);
  MGraph ex; ex.resize (cn); ex.hasVelo = ex.hasEdlo = true; ex.velo.assign (cn, 0);
  std::vector<std::map<int, Num>> m (cn);
  for (int v = 0; v < g.n; v ++) { ex.velo[map[v]] += g.vw (v); for (auto &e : g.adj[v]) if (map[e.first] != map[v]) m[map[v]][map[e.first]] += g.hasEdlo ? e.second : 1; }
  for (int c = 0; c < cn; c ++) for (auto &x : m[c]) ex.adj[c].push_back ({x.first, x.second});
  Num b; MGraph h = extract (cg, &b, false); CHECK (b == base, "%s: coarse graph base %lld", w, (long long) b);
  std::string d = diffGraph (ex, h, true, true, false); CHECK (d.empty (), "%s: coarse graph is not the quotient graph: %s", w, d.c_str ());
  CHECK (SCOTCH_graphCheck (cg) == 0, "%s: coarse graph inconsistent", w);
}
