#include "graph.hpp"

std::string MGraph::text () const {
  std::string s = strf ("{%s n=%d m=%d%s%s%s", family, n, arcs () / 2, hasVelo ? " velo" : "", hasEdlo ? " edlo" : "", hasVlbl ? " vlbl" : "");
  if (n <= 12) {
    s += " edges="; for (int u = 0; u < n; u ++) for (auto &e : adj[u]) if (e.first > u) s += hasEdlo ? strf ("%d-%d:%lld,", u, e.first, (long long) e.second) : strf ("%d-%d,", u, e.first);
    if (hasVelo) { s += " velo="; for (auto x : velo) s += strf ("%lld,", (long long) x); }
    if (hasVlbl) { s += " vlbl="; for (auto x : vlbl) s += strf ("%lld,", (long long) x); }
  }
  return s + "}";
}

void shuffleAdj (MGraph &g, Rng &r) { for (auto &a : g.adj) shuffleR (a, r); }

static void genSmall (MGraph &g, int n) {
  g.resize (n);
  switch (weighted ({4, 2, 2, 1, 1, 2, 1, 1, 1, 2, 1, 1})) {
    case 0: { g.family = "random"; int m = n < 2 ? 0 : (int) irange (0, std::min (3 * n, 60)); for (int i = 0; i < m; i ++) { int u = (int) draw (n), v = (int) draw (n); g.add (u, v); } break; }
    case 1: { g.family = "tree"; for (int v = 1; v < n; v ++) g.add (v, (int) draw (v)); break; }
    case 2: { g.family = "grid"; int w = std::max (1, (int) irange (1, std::max (1, n))); for (int v = 0; v < n; v ++) { if ((v % w) + 1 < w && v + 1 < n) g.add (v, v + 1); if (v + w < n) g.add (v, v + w); } break; }
    case 3: { g.family = "path"; for (int v = 0; v + 1 < n; v ++) g.add (v, v + 1); break; }
    case 4: { g.family = "cycle"; for (int v = 0; v + 1 < n; v ++) g.add (v, v + 1); if (n > 2) g.add (n - 1, 0); break; }
    case 5: { g.family = "connrandom"; for (int v = 1; v < n; v ++) g.add (v, (int) draw (v)); int m = n < 2 ? 0 : (int) irange (0, 2 * n); for (int i = 0; i < m; i ++) g.add ((int) draw (n), (int) draw (n)); break; }
    case 6: { g.family = "star"; for (int v = 1; v < n; v ++) g.add (0, v); break; }
    case 7: { g.family = "complete"; int k = std::min (n, 14); for (int v = 0; v < k; v ++) for (int u = 0; u < v; u ++) g.add (u, v); for (int v = k; v < n; v ++) g.add (v, v - 1); break; }
    case 8: { g.family = "bipartite"; int h = n / 2; for (int v = 0; v < h; v ++) for (int u = h; u < n; u ++) if (draw (3) == 1) g.add (u, v); break; }
    case 9: { g.family = "multicomp"; int v = 0; while (v < n) { int k = std::min (n - v, (int) irange (1, 6)); int t = (int) draw (3); for (int i = 1; i < k; i ++) g.add (v + i, t == 0 ? v + i - 1 : v + (int) draw (i)); if (t == 2 && k > 2) g.add (v, v + k - 1); v += k; } break; }
    case 10: { g.family = "edgeless"; break; }
    default: { g.family = "cliquechain"; int v = 0; while (v < n) { int k = std::min (n - v, (int) irange (1, 5)); for (int i = 0; i < k; i ++) for (int j = 0; j < i; j ++) g.add (v + i, v + j); if (v > 0) g.add (v, v - 1); v += k; } break; }
  }
}
static void genBig (MGraph &g, int nmin, int big) {
  int n = std::max (nmin, (int) irange (std::min (41, big), big));
  Rng r = bulk ();
  switch (weighted ({3, 2, 2, 2, 2, 1, 1, 1})) {
    case 0: { g.family = "biggrid2"; int w = std::max (1, (int) irange (2, std::max (2, (int) (n / 3)))); int h = std::max (1, n / w); n = w * h; g.resize (n); bool tor = coin (); bool e8 = chance (1, 3);
      for (int y = 0; y < h; y ++) for (int x = 0; x < w; x ++) { int v = y * w + x; if (x + 1 < w) g.addFast (v, v + 1); else if (tor && w > 2) g.addFast (v, y * w); if (y + 1 < h) g.addFast (v, v + w); else if (tor && h > 2) g.addFast (v, x); if (e8 && x + 1 < w && y + 1 < h) { g.addFast (v, v + w + 1); } } break; }
    case 1: { g.family = "bigrandom"; g.resize (n); int m = (int) r.range (n / 2, 4 * n); std::set<std::pair<int,int>> s; for (int i = 0; i < m; i ++) { int u = (int) r.below (n), v = (int) r.below (n); if (u == v) continue; if (u > v) std::swap (u, v); if (s.insert ({u, v}).second) g.addFast (u, v); } break; }
    case 2: { g.family = "biggrid3"; int a = (int) irange (2, 6), b = (int) irange (2, 6); int c = std::max (1, n / (a * b)); n = a * b * c; g.resize (n);
      for (int z = 0; z < c; z ++) for (int y = 0; y < b; y ++) for (int x = 0; x < a; x ++) { int v = (z * b + y) * a + x; if (x + 1 < a) g.addFast (v, v + 1); if (y + 1 < b) g.addFast (v, v + a); if (z + 1 < c) g.addFast (v, v + a * b); } break; }
    case 3: { g.family = "biggeom"; g.resize (n); std::vector<double> x (n), y (n); for (int i = 0; i < n; i ++) { x[i] = r.below (1000000) / 1e6; y[i] = r.below (1000000) / 1e6; } double rad2 = (double) r.range (4, 14) / (3.14159 * n); for (int i = 0; i < n; i ++) for (int j = 0; j < i; j ++) { double dx = x[i] - x[j], dy = y[i] - y[j]; if (dx * dx + dy * dy < rad2) g.addFast (i, j); } break; }
    case 4: { g.family = "bigtree"; g.resize (n); int k = (int) r.range (1, 40); for (int v = 1; v < n; v ++) g.addFast (v, (int) r.range (std::max (0, v - k), v - 1)); break; }
    case 5: { g.family = "bigmulti"; g.resize (n); int v = 0; while (v < n) { int k = (int) std::min ((int64_t) (n - v), r.range (1, 60)); std::set<std::pair<int,int>> s; for (int i = 1; i < k; i ++) { int u = (int) r.below (i); if (s.insert ({u, i}).second) g.addFast (v + u, v + i); } for (int i = 0; i < k; i ++) { int p = (int) r.below (k), q = (int) r.below (k); if (p > q) std::swap (p, q); if (p != q && s.insert ({p, q}).second) g.addFast (v + p, v + q); } v += k; } break; }
    case 6: { g.family = "bigpower"; g.resize (n); std::vector<int> ends; ends.push_back (0); for (int v = 1; v < n; v ++) { std::set<int> t; int k = (int) r.range (1, 3); for (int i = 0; i < k; i ++) t.insert (ends[r.below (ends.size ())]); for (int u : t) if (u != v) { g.addFast (v, u); ends.push_back (u); } ends.push_back (v); } break; }
    default: { g.family = "bigdense"; n = std::min (n, 120); g.resize (n); int p = (int) r.range (20, 95); for (int i = 0; i < n; i ++) for (int j = 0; j < i; j ++) if ((int) r.below (100) < p) g.addFast (i, j); break; }
  }
  if (coin ()) {                               // renumber randomly
    std::vector<int> p (g.n); std::iota (p.begin (), p.end (), 0); shuffleR (p, r);
    MGraph h; h.resize (g.n); h.family = g.family;
    for (int u = 0; u < g.n; u ++) for (auto &e : g.adj[u]) if (e.first > u) h.addFast (p[u], p[e.first], e.second);
    g = h;
  }
}

MGraph genGraph (const GenOpt &o) {
  MGraph g;
  bool isbig = false;
  if (o.big > 0 && chance (2, 5)) { genBig (g, o.nmin, o.big); isbig = true; }
  else genSmall (g, (int) irange (o.nmin, o.nmax));
  if (o.connected && g.n > 0) {
    std::vector<int> c; int nb; components (g, c, nb);
    std::vector<int> first (nb, -1); for (int v = 0; v < g.n; v ++) if (first[c[v]] < 0) first[c[v]] = v;
    for (int k = 1; k < nb; k ++) g.add (first[k], first[k - 1]);
  }
  Rng r = bulk ();
  if (o.velo) switch (weighted ({5, 1, 3, o.velozero ? 1 : 0, 1})) {
    case 0: break;
    case 1: g.hasVelo = true; g.velo.assign (g.n, 1); break;
    case 2: g.hasVelo = true; for (int v = 0; v < g.n; v ++) g.velo.push_back (isbig ? r.range (1, o.velomax) : irange (1, o.velomax)); break;
    case 3: g.hasVelo = true; for (int v = 0; v < g.n; v ++) g.velo.push_back (isbig ? r.range (0, 3) : irange (0, 3)); if (g.n > 0 && g.velosum () == 0) g.velo[0] = 1; break;
    default: g.hasVelo = true; for (int v = 0; v < g.n; v ++) g.velo.push_back (isbig ? (r.below (10) == 0 ? 50 * o.velomax : 1) : (chance (1, 10) ? 50 * o.velomax : 1)); break;
  }
  if (o.edlo && chance (2, 5)) { g.hasEdlo = true; bool many = isbig || g.arcs () > 160;
    std::map<std::pair<int,int>, Num> w;
    for (int u = 0; u < g.n; u ++) for (auto &e : g.adj[u]) if (e.first > u) w[{u, e.first}] = many ? r.range (1, o.edlomax) : irange (1, o.edlomax);
    for (int u = 0; u < g.n; u ++) for (auto &e : g.adj[u]) e.second = w[{std::min (u, e.first), std::max (u, e.first)}]; }
  if (o.vlbl && chance (1, 4)) { g.hasVlbl = true; std::set<Num> s; int span = (int) pick (std::vector<int> {1, 1, 2, 10}); Num off = irange (0, 5);
    if (span == 1) { for (int v = 0; v < g.n; v ++) g.vlbl.push_back (off + v); shuffleR (g.vlbl, r); }
    else for (int v = 0; v < g.n; v ++) { Num l; do l = off + r.below ((uint64_t) g.n * span + 1); while (! s.insert (l).second); g.vlbl.push_back (l); } }
  if (coin ()) shuffleAdj (g, r);
  return g;
}

Num *dupNum (const NumV &v) { Num *p = (Num *) malloc (v.size () * sizeof (Num) + (v.empty () ? 1 : 0)); if (! v.empty ()) memcpy (p, v.data (), v.size () * sizeof (Num)); return p; }

void Rep::make (const MGraph &g, int forceBase, int forceCompact) {
  base = forceBase >= 0 ? forceBase : (Num) pick (std::vector<int> {0, 0, 0, 1, 1, 1, 1, 2, 5}) ;
  compact = forceCompact >= 0 ? forceCompact : ! chance (1, 3);
  vertnbr = g.n; edgenbr = g.arcs ();
  NumV vt, ve, ed, el;
  if (compact) {
    for (int v = 0; v < g.n; v ++) { vt.push_back (base + (Num) ed.size ()); for (auto &e : g.adj[v]) { ed.push_back (base + e.first); el.push_back (e.second); } }
    vt.push_back (base + (Num) ed.size ());
  } else {                                     // adjacency areas in any order, with holes
    Rng r = bulk ();
    std::vector<int> p (g.n); std::iota (p.begin (), p.end (), 0); if (coin ()) shuffleR (p, r);
    vt.assign (g.n, 0); ve.assign (g.n, 0); bool holes = coin ();
    for (int v : p) { if (holes) for (int k = (int) r.below (3); k > 0; k --) { ed.push_back (-7777); el.push_back (-8888); }
      vt[v] = base + (Num) ed.size (); for (auto &e : g.adj[v]) { ed.push_back (base + e.first); el.push_back (e.second); } ve[v] = base + (Num) ed.size (); }
  }
  verttab = dupNum (vt); if (! compact) vendtab = dupNum (ve);
  if (g.hasVelo) velotab = dupNum (g.velo);
  if (g.hasVlbl) vlbltab = dupNum (g.vlbl);
  edgesiz = ed.size (); edgetab = dupNum (ed); if (g.hasEdlo) edlotab = dupNum (el);
  copy = {vt, ve, g.hasVelo ? g.velo : NumV (), g.hasVlbl ? g.vlbl : NumV (), ed, g.hasEdlo ? el : NumV ()};
  tag (compact ? "compact" : "noncompact"); tag (strf ("base%d", (int) base));
}
void Rep::dup (const Rep &o) {
  base = o.base; vertnbr = o.vertnbr; edgenbr = o.edgenbr; compact = o.compact; edgesiz = o.edgesiz; copy = o.copy;
  verttab = dupNum (copy[0]); if (o.vendtab) vendtab = dupNum (copy[1]); if (o.velotab) velotab = dupNum (copy[2]); if (o.vlbltab) vlbltab = dupNum (copy[3]); edgetab = dupNum (copy[4]); if (o.edlotab) edlotab = dupNum (copy[5]);
}
void Rep::build () {
  CHECK (SCOTCH_graphInit (&graf) == 0, "graphInit failed");
  inited = true;
  CHECK (SCOTCH_graphBuild (&graf, base, vertnbr, verttab, vendtab, velotab, vlbltab, edgenbr, edgetab, edlotab) == 0, "graphBuild failed on a valid graph");
}
void Rep::unchanged (const char *where) {
  Num *t[6] = {verttab, vendtab, velotab, vlbltab, edgetab, edlotab};
  for (int i = 0; i < 6; i ++) if (t[i] && ! copy[i].empty () && memcmp (t[i], copy[i].data (), copy[i].size () * sizeof (Num))) fail ("%s: input graph array %d was modified", where, i);
}
Rep::~Rep () { if (inited) SCOTCH_graphExit (&graf); free (verttab); free (vendtab); free (velotab); free (vlbltab); free (edgetab); free (edlotab); }

MGraph extract (SCOTCH_Graph *g, Num *bp, bool wantLbl) {
  Num base, n, m; Num *vt, *ve, *vl, *lb, *ed, *el;
  SCOTCH_graphData (g, &base, &n, &vt, &ve, &vl, &lb, &m, &ed, &el);
  if (bp) *bp = base;
  MGraph r; CHECK (n >= 0 && n < 100000000, "graphData: vertnbr %lld", (long long) n); r.resize ((int) n);
  r.hasVelo = vl != nullptr; r.hasVlbl = wantLbl && lb != nullptr; r.hasEdlo = el != nullptr;
  int64_t cnt = 0;
  for (int v = 0; v < n; v ++) {
    Num d = ve[v] - vt[v]; CHECK (d >= 0 && d <= m, "graphData: vertex %d has degree %lld", v, (long long) d); cnt += d;
    for (Num e = vt[v] - base; e < ve[v] - base; e ++) { Num t = ed[e] - base; CHECK (t >= 0 && t < n, "graphData: edge end %lld out of range", (long long) ed[e]); r.adj[v].push_back ({(int) t, el ? el[e] : 1}); }
    if (vl) r.velo.push_back (vl[v]);
    if (r.hasVlbl) r.vlbl.push_back (lb[v]);
  }
  CHECK (cnt == m, "graphData: edgenbr=%lld but degrees sum to %lld", (long long) m, (long long) cnt);
  return r;
}
std::string diffGraph (const MGraph &a0, const MGraph &b0, bool velo, bool edlo, bool vlbl) {
  if (a0.n != b0.n) return strf ("vertex count %d vs %d", a0.n, b0.n);
  MGraph a = a0, b = b0; a.sort (); b.sort ();
  if (! edlo) { }
  for (int v = 0; v < a.n; v ++) {
    if (a.adj[v].size () != b.adj[v].size ()) return strf ("degree of vertex %d: %zu vs %zu", v, a.adj[v].size (), b.adj[v].size ());
    for (size_t i = 0; i < a.adj[v].size (); i ++) {
      if (a.adj[v][i].first != b.adj[v][i].first) return strf ("neighbour %zu of vertex %d: %d vs %d", i, v, a.adj[v][i].first, b.adj[v][i].first);
      if (edlo) { Num x = a.hasEdlo ? a.adj[v][i].second : 1, y = b.hasEdlo ? b.adj[v][i].second : 1; if (x != y) return strf ("edge load (%d,%d): %lld vs %lld", v, a.adj[v][i].first, (long long) x, (long long) y); }
    }
    if (velo && a.vw (v) != b.vw (v)) return strf ("vertex load of %d: %lld vs %lld", v, (long long) a.vw (v), (long long) b.vw (v));
    if (vlbl && a.n > 0) { if (a.hasVlbl != b.hasVlbl) return strf ("label presence %d vs %d", a.hasVlbl, b.hasVlbl); if (a.hasVlbl && a.vlbl[v] != b.vlbl[v]) return strf ("label of %d: %lld vs %lld", v, (long long) a.vlbl[v], (long long) b.vlbl[v]); }
  }
  return "";
}
void components (const MGraph &g, std::vector<int> &comp, int &nb) {
  comp.assign (g.n, -1); nb = 0; std::vector<int> st;
  for (int s = 0; s < g.n; s ++) { if (comp[s] >= 0) continue; comp[s] = nb; st.push_back (s); while (! st.empty ()) { int u = st.back (); st.pop_back (); for (auto &e : g.adj[u]) if (comp[e.first] < 0) { comp[e.first] = nb; st.push_back (e.first); } } nb ++; }
}
FILE *memIn (const std::string &s) {
  FILE *f = tmpfile (); if (! f) { perror ("tmpfile"); _exit (2); }
  fwrite (s.data (), 1, s.size (), f); rewind (f); return f;
}
std::string slurp (FILE *f) { fflush (f); rewind (f); std::string s; char b[4096]; size_t k; while ((k = fread (b, 1, sizeof b, f)) > 0) s.append (b, k); return s; }
void seedLib () { SCOTCH_randomSeed ((Num) draw (1000000)); SCOTCH_randomReset (); }
