// Elimination-ordering oracle and symbolic factorisation.
#pragma once
#include "graph.hpp"
// strong: separators are single column blocks, so that fathers are ancestors in the elimination sense; else (as documented), sub-blocks are only
// linked to the last block of the closest separator
// perm, peri, rang, tree as returned by the library (may be null); cnt vertices of the list sub (all when empty) come first
inline void checkOrder (const MGraph &g, Num base, const Num *perm, const Num *peri, Num cblk, const Num *rang, const Num *tree, const std::vector<int> &sub = {}, bool strong = true) {
  int n = g.n; NumV pv (n), iv (n); auto L = [] (Num x) { return (long long) x; };
  if (perm) { std::vector<char> s (n, 0); for (int v = 0; v < n; v ++) { Num x = perm[v] - base; CHECK (x >= 0 && x < n, "permtab[%d] = %lld out of range", v, L (perm[v])); CHECK (! s[x], "rank %lld given twice", L (perm[v])); s[x] = 1; pv[v] = x; } }
  if (peri) { std::vector<char> s (n, 0); for (int v = 0; v < n; v ++) { Num x = peri[v] - base; CHECK (x >= 0 && x < n, "peritab[%d] = %lld out of range", v, L (peri[v])); CHECK (! s[x], "vertex %lld appears twice in peritab", L (peri[v])); s[x] = 1; iv[v] = x; } }
  if (perm && peri) for (int v = 0; v < n; v ++) CHECK (iv[pv[v]] == v, "permtab and peritab are not inverse of each other at vertex %d", v);
  if (! perm && peri) for (int i = 0; i < n; i ++) pv[iv[i]] = i;
  if (! perm && ! peri) return;
  std::vector<char> in (n, sub.empty ()); for (int v : sub) in[v] = 1; int k = sub.empty () ? n : (int) sub.size ();
  for (int v = 0; v < n; v ++) CHECK (! in[v] || pv[v] < k, "vertex %d of the list is ranked %lld, after %d", v, L (pv[v]), k);
  if (cblk >= 0) CHECK (n == 0 ? cblk >= 0 : (cblk >= 1 && cblk <= n), "%lld column blocks for %d vertices", L (cblk), n);
  if (n == 0 || cblk < 0 || ! rang) return;
  CHECK (rang[0] == base && rang[cblk] == base + n, "column block ranges span %lld to %lld", L (rang[0]), L (rang[cblk])); for (int b = 0; b < cblk; b ++) CHECK (rang[b] < rang[b + 1], "column block %d spans %lld to %lld", b, L (rang[b]), L (rang[b + 1]));
  if (! tree) return;
  for (int b = 0; b < cblk; b ++) CHECK (tree[b] == -1 || (tree[b] - base > b && tree[b] - base < cblk), "father of column block %d is %lld, of %lld blocks", b, L (tree[b]), L (cblk));
  std::vector<int> bl (n); for (int b = 0, i = 0; b < cblk; b ++) for (; i < rang[b + 1] - base; i ++) bl[i] = b;
  for (int u = 0; u < n; u ++) for (auto &e : g.adj[u]) { int v = e.first; if (! in[u] || ! in[v] || pv[u] > pv[v]) continue; int a = bl[pv[u]], b = bl[pv[v]]; int la = a, lb = b; auto up = [&] (int x) { return tree[x] == -1 ? -1 : (int) (tree[x] - base); };
    if (strong) { while (a != b && a >= 0 && a < b) a = up (a); } else a = b;
    CHECK (a == b, "edge %d-%d links unrelated column blocks %d and %d", u, v, la, lb); }
  if (! sub.empty () && k < n) { for (int u = 0; u < n; u ++) if (in[u]) { int a = bl[pv[u]]; while (tree[a] != -1) a = tree[a] - base; CHECK (rang[a] - base < k, "the tree of the listed vertices hangs from other vertices"); } CHECK (std::find (rang, rang + cblk + 1, (Num) (base + k)) != rang + cblk + 1, "a column block mixes listed and other vertices"); }
}
inline bool strongTree (const std::string &d) {
  if (d.empty () || d[0] != '\'') return true; if (d.find ("b{") != std::string::npos) return false;
  for (size_t p = 0; (p = d.find ("ose=", p)) != std::string::npos; p += 4) if (d[p + 4] != 's' && d[p + 4] != 'g') return false; return true;
}
struct Symb { double nnz = 0, opc = 0; std::vector<int> par, cc; int leaves = 0, hmin = 0, hmax = 0; double havg = 0, hdlt = 0; };
// pv: vertex -> rank; w: vertex loads or null
inline Symb symbolic (const MGraph &g, const std::vector<int> &pv, const NumV *w = nullptr) {
  int n = g.n; Symb s; s.par.assign (n, -1); s.cc.assign (n, 0); std::vector<int> iv (n); for (int v = 0; v < n; v ++) iv[pv[v]] = v; std::vector<std::vector<int>> st (n), son (n); std::vector<int> mk (n, -1);
  for (int c = 0; c < n; c ++) { std::vector<int> &r = st[c]; mk[c] = c; for (auto &e : g.adj[iv[c]]) { int x = pv[e.first]; if (x > c && mk[x] != c) { mk[x] = c; r.push_back (x); } }
    for (int t : son[c]) { for (int x : st[t]) if (x > c && mk[x] != c) { mk[x] = c; r.push_back (x); } std::vector<int> ().swap (st[t]); }
    if (! r.empty ()) { s.par[c] = *std::min_element (r.begin (), r.end ()); son[s.par[c]].push_back (c); }
    s.cc[c] = (int) r.size () + 1; double v = w ? (double) (*w)[iv[c]] : 1, e = v; for (int x : r) e += w ? (double) (*w)[iv[x]] : 1; s.nnz += v * e; s.opc += v * e * e; }
  std::vector<int> lev (n); std::vector<double> h; for (int c = n - 1; c >= 0; c --) { lev[c] = s.par[c] < 0 ? 1 : lev[s.par[c]] + 1; if (son[c].empty ()) h.push_back (lev[c]); }
  s.leaves = (int) h.size (); if (! h.empty ()) { s.hmin = (int) *std::min_element (h.begin (), h.end ()); s.hmax = (int) *std::max_element (h.begin (), h.end ()); for (double x : h) s.havg += x; s.havg /= h.size (); for (double x : h) s.hdlt += fabs (x - s.havg); s.hdlt /= h.size (); }
  return s;
}
