// G04: induced subgraphs.  G05: matching and coarsening.  G06: colouring.  G07: pseudo-diameter.
#include "graph.hpp"
#include "coarse.hpp"
#include <queue>

static MGraph inducedModel (const MGraph &g, const std::vector<int> &list) {
  MGraph h; h.resize ((int) list.size ()); h.hasVelo = g.hasVelo; h.hasEdlo = g.hasEdlo;
  std::vector<int> pos (g.n, -1); for (size_t i = 0; i < list.size (); i ++) pos[list[i]] = (int) i;
  for (size_t i = 0; i < list.size (); i ++) { if (g.hasVelo) h.velo.push_back (g.velo[list[i]]); for (auto &e : g.adj[list[i]]) if (pos[e.first] >= 0) h.adj[i].push_back ({pos[e.first], e.second}); }
  return h;
}
PROPERTY (G04, "the kept set is a proper non-empty subset with at least one kept and one dropped edge") {
  GenOpt o; o.big = 400; o.nmin = 1; MGraph g = genGraph (o); describe ("%s", g.text ().c_str ()); tag (g.family);
  Rep r; r.make (g); r.build (); seedLib ();
  SCOTCH_Graph ind; SCOTCH_graphInit (&ind);
  SCOTCH_Graph *src = &r.graf; SCOTCH_Context ctx; SCOTCH_Graph bound; bool usectx = chance (1, 5);
  if (usectx) { SCOTCH_contextInit (&ctx); CHECK (SCOTCH_contextBindGraph (&ctx, &r.graf, &bound) == 0, "contextBindGraph failed"); src = &bound; tag ("context"); }
  std::vector<int> list; int mode = (int) draw (4); int p = (int) irange (0, 10); Rng rr = bulk ();
  bool isPart = coin ();
  for (int v = 0; v < g.n; v ++) if ((int) (g.n <= 40 ? draw (10) : rr.below (10)) < p) list.push_back (v);
  if (mode == 1) { list.clear (); for (int v = 0; v < g.n; v ++) list.push_back (v); } else if (mode == 2) list.clear ();
  if (! isPart && coin ()) { shuffleR (list, rr); tag ("unordered-list"); }
  int rounds = chance (1, 4) ? 2 : 1;          // inducing an induced graph
  MGraph cur = g;
  for (int k = 0; k < rounds; k ++) {
    MGraph ex = inducedModel (cur, list);
    SCOTCH_Graph out; SCOTCH_graphInit (&out); Num base = r.base; int rc;
    if (isPart) {
      SCOTCH_GraphPart2 pv = (SCOTCH_GraphPart2) draw (3); SCOTCH_GraphPart2 *pt = (SCOTCH_GraphPart2 *) malloc (cur.n ? cur.n : 1);
      for (int v = 0; v < cur.n; v ++) pt[v] = (SCOTCH_GraphPart2) ((pv + 1 + (v % 2)) % 3); for (int v : list) pt[v] = pv;
      std::vector<unsigned char> cp (pt, pt + cur.n);
      rc = SCOTCH_graphInducePart (src, (Num) list.size (), pt, pv, &out);
      for (int v = 0; v < cur.n; v ++) CHECK (cp[v] == pt[v], "graphInducePart modified the part array");
      free (pt); tag ("part");
    } else {
      NumV l; for (int v : list) l.push_back (v + base); Num *lp = dupNum (l); rc = SCOTCH_graphInduceList (src, (Num) list.size (), lp, &out);
      for (size_t i = 0; i < l.size (); i ++) CHECK (lp[i] == l[i], "graphInduceList modified the list"); free (lp); tag ("list");
    }
    CHECK (rc == 0, "graphInduce failed on valid input"); r.unchanged ("graphInduce");
    Num b; MGraph h = extract (&out, &b, false); CHECK (b == base, "induced graph has base %lld", (long long) b);
    std::string d = diffGraph (ex, h, true, true, false); CHECK (d.empty (), "induced graph differs from definition: %s", d.c_str ());
    CHECK (SCOTCH_graphCheck (&out) == 0, "induced graph is inconsistent");
    Num vs, es; SCOTCH_graphStat (&out, 0, 0, &vs, 0, 0, 0, 0, 0, 0, 0, 0, &es, 0, 0); CHECK (vs == ex.velosum (), "induced vertex load sum %lld, expected %lld", (long long) vs, (long long) ex.velosum ());
    nontrivial (! list.empty () && (int) list.size () < cur.n && ex.arcs () > 0 && ex.arcs () < cur.arcs ());
    if (k + 1 < rounds) { // next round on the induced graph
      cur = ex; if (usectx && k == 0) { SCOTCH_graphExit (&bound); SCOTCH_contextExit (&ctx); usectx = false; }
      SCOTCH_graphExit (&ind); memcpy ((void *) &ind, (void *) &out, sizeof (ind)); src = &ind; tag ("twice");
      list.clear (); for (int v = 0; v < cur.n; v ++) if (rr.below (3) > 0) list.push_back (v);
    } else SCOTCH_graphExit (&out);
  }
  SCOTCH_graphExit (&ind);
  if (usectx) { SCOTCH_graphExit (&bound); SCOTCH_contextExit (&ctx); }
}

// --- G05 ---------------------------------------------------------------------------------------
PROPERTY (G05, "a matching was computed and at least one pair of distinct vertices is merged in a graph with at least 3 edges") {
  GenOpt o; o.big = 500; o.nmin = 1; MGraph g = genGraph (o); describe ("%s", g.text ().c_str ()); tag (g.family); seedLib ();
  Rep r; r.make (g); r.build (); Num base = r.base;
  double rat = pick (std::vector<double> {1.0, 0.8, 0.9, 0.7, 0.5, 0.55}); Num flag = coin () ? SCOTCH_COARSENNOMERGE : 0; Num mn = chance (1, 4) ? (Num) irange (0, g.n + 2) : 0;
  int mode = (int) draw (3); describe ("rat=%g flag=%d min=%d mode=%d base=%d", rat, (int) flag, (int) mn, mode, (int) base);
  SCOTCH_Graph *src = &r.graf; SCOTCH_Context ctx; SCOTCH_Graph bound; bool usectx = chance (1, 4); int nth = 1;
  if (usectx) { nth = (int) irange (1, 4); SCOTCH_contextInit (&ctx); SCOTCH_contextThreadSpawn (&ctx, nth, NULL); CHECK (SCOTCH_contextBindGraph (&ctx, &r.graf, &bound) == 0, "bind failed"); src = &bound; tag (strf ("threads%d", nth)); }
  SCOTCH_Graph cg; SCOTCH_graphInit (&cg); bool any = false; for (auto &a : g.adj) any |= ! a.empty ();
  auto pairs = [&] (const NumV &mate, int cn, const char *w) {
    int np = 0; for (int v = 0; v < g.n; v ++) { Num m = mate[v] - base; CHECK (m >= 0 && m < g.n, "%s: mate of %d is %lld", w, v, (long long) mate[v]); CHECK (mate[m] - base == v, "%s: mating is not an involution at %d", w, v);
      if (m != v) { np ++; bool iv = g.adj[v].empty (), im = g.adj[m].empty (); CHECK (g.has (v, (int) m) || ((iv || im) && flag == 0), "%s: vertices %d and %lld are mated but neither adjacent nor mergeable isolated vertices", w, v, (long long) m); } }
    CHECK (cn == g.n - np / 2, "%s: coarse vertex count %d, expected %d", w, cn, g.n - np / 2);
    nontrivial (np > 0 && g.arcs () >= 6); };
  auto thr = [&] (int rc, int cn, const char *w) {
    if (rc == 0) CHECK (cn <= rat * g.n + 1e-9, "%s: coarsening ratio %d/%d exceeds the requested %g", w, cn, g.n, rat);
    else { CHECK (rc == 1, "%s returned error %d", w, rc); tag ("refused"); CHECK (! (rat == 1.0 && any && mn == 0), "%s: refused with a void threshold though the graph has edges", w); }
    if (mn > g.n) CHECK (rc == 1, "%s: created though more coarse vertices than fine ones were demanded", w); };
  if (mode == 0) {
    Num *mult = (Num *) malloc ((2 * g.n) * sizeof (Num)); int rc = SCOTCH_graphCoarsen (src, mn, rat, flag, &cg, mult); Num cn = 0; if (rc == 0) SCOTCH_graphSize (&cg, &cn, NULL);
    thr (rc, cn, "graphCoarsen");
    if (rc == 0) { NumV mate (g.n, -1); checkCoarse (g, base, &cg, mult, cn, nullptr, "graphCoarsen"); for (int c = 0; c < cn; c ++) { mate[mult[2 * c] - base] = mult[2 * c + 1]; mate[mult[2 * c + 1] - base] = mult[2 * c]; } pairs (mate, cn, "graphCoarsen"); tag ("coarsen"); }
    free (mult);
  } else {
    Num cn = mn; NumV mate (g.n); int rc = 0;
    Num *mt = dupNum (mate);
    if (mode == 1) { rc = SCOTCH_graphCoarsenMatch (src, &cn, rat, flag, mt); thr (rc, cn, "graphCoarsenMatch"); tag ("match"); }
    else { // user-provided matching: any involution, the pairs need not be adjacent
      std::vector<int> p (g.n); std::iota (p.begin (), p.end (), 0); Rng rr = bulk (); shuffleR (p, rr); int k = (int) irange (0, g.n / 2); cn = g.n - k; for (int v = 0; v < g.n; v ++) mt[v] = v + base; for (int i = 0; i < k; i ++) { mt[p[2 * i]] = p[2 * i + 1] + base; mt[p[2 * i + 1]] = p[2 * i] + base; } nontrivial (k > 0 && g.arcs () >= 6); tag ("user-matching"); }
    if (rc == 0) {
      mate.assign (mt, mt + g.n); if (mode == 1) pairs (mate, cn, "graphCoarsenMatch");
      Num *mult = (Num *) malloc ((2 * cn) * sizeof (Num) + 1);
      CHECK (SCOTCH_graphCoarsenBuild (src, cn, mt, &cg, mult) == 0, "graphCoarsenBuild failed");
      Num n2; SCOTCH_graphSize (&cg, &n2, NULL); CHECK (n2 == cn, "graphCoarsenBuild: %lld coarse vertices, expected %lld", (long long) n2, (long long) cn);
      std::vector<int> f2c; for (int v = 0; v < g.n; v ++) f2c.push_back (mt[v] - base);
      for (int v = 0; v < g.n; v ++) CHECK (f2c[v] == f2c[mate[v] - base], "graphCoarsenBuild: mates %d and %lld have different coarse vertices", v, (long long) (mate[v] - base));
      checkCoarse (g, base, &cg, mult, cn, &f2c, "graphCoarsenBuild"); free (mult); tag ("build");
    }
    free (mt);
  }
  r.unchanged ("coarsening");
  SCOTCH_graphExit (&cg);
  if (usectx) { SCOTCH_graphExit (&bound); SCOTCH_contextExit (&ctx); }
}

// --- G06 ---------------------------------------------------------------------------------------
PROPERTY (G06, "the graph has at least one edge and at least 3 vertices") {
  GenOpt o; o.big = 600; MGraph g = genGraph (o); describe ("%s", g.text ().c_str ()); tag (g.family); seedLib ();
  Rep r; r.make (g); r.build ();
  NumV c (g.n, -5); Num *ct = dupNum (c); Num nb = -1;
  CHECK (SCOTCH_graphColor (&r.graf, ct, &nb, 0) == 0, "graphColor failed"); r.unchanged ("graphColor");
  CHECK (nb >= (g.n > 0) && nb <= std::max (g.n, 0), "graphColor: %lld colours for %d vertices", (long long) nb, g.n);
  std::vector<int> used (nb > 0 ? nb : 1, 0);
  for (int v = 0; v < g.n; v ++) { CHECK (ct[v] >= 0 && ct[v] < nb, "graphColor: colour %lld of vertex %d not in [0,%lld[", (long long) ct[v], v, (long long) nb); used[ct[v]] ++; for (auto &e : g.adj[v]) CHECK (ct[v] != ct[e.first], "graphColor: adjacent vertices %d and %d both have colour %lld", v, e.first, (long long) ct[v]); }
  for (int k = 0; k < nb; k ++) CHECK (used[k] > 0, "graphColor: colour %d of %lld is not used", k, (long long) nb);
  free (ct); nontrivial (g.arcs () > 0 && g.n >= 3); tag (strf ("colours%d", (int) std::min (nb, (Num) 8)));
}

// --- G07 ---------------------------------------------------------------------------------------
static std::vector<int64_t> dijkstra (const MGraph &g, int s) {   // cost of leaving a vertex = its load, if loads exist
  std::vector<int64_t> d (g.n, -1); typedef std::pair<int64_t, int> P; std::priority_queue<P, std::vector<P>, std::greater<P>> q; std::vector<int64_t> best (g.n, INT64_MAX); best[s] = 0; q.push ({0, s});
  while (! q.empty ()) { auto t = q.top (); q.pop (); if (d[t.second] >= 0) continue; d[t.second] = t.first; for (auto &e : g.adj[t.second]) { int64_t x = t.first + (g.hasEdlo ? e.second : 1) + (g.hasVelo ? g.velo[t.second] : 0); if (x < best[e.first]) { best[e.first] = x; q.push ({x, e.first}); } } }
  return d;
}
PROPERTY (G07, "the graph is connected with diameter at least 2, or is disconnected with at least 2 edges") {
  GenOpt o; o.big = 150; o.connected = draw (5) > 0; o.edlomax = 50; MGraph g = genGraph (o); describe ("%s", g.text ().c_str ()); tag (g.family); seedLib ();
  Rep r; r.make (g); r.build ();
  Num D = SCOTCH_graphDiamPV (&r.graf); r.unchanged ("graphDiamPV"); describe ("diam=%lld", (long long) D);
  std::vector<int> c; int nc; components (g, c, nc);
  if (g.n == 0) { CHECK (D == 0, "diameter of the empty graph is %lld", (long long) D); return; }
  if (nc > 1) { CHECK (D == SCOTCH_NUMMAX, "disconnected graph: %lld instead of SCOTCH_NUMMAX", (long long) D); tag ("disconnected"); nontrivial (g.arcs () >= 4); return; }
  std::vector<std::vector<int64_t>> d (g.n); std::vector<int64_t> ecc (g.n, 0); int64_t mx = 0; for (int v = 0; v < g.n; v ++) { d[v] = dijkstra (g, v); for (auto x : d[v]) ecc[v] = std::max (ecc[v], x); mx = std::max (mx, ecc[v]); }
  CHECK (D >= 0 && D <= mx, "pseudo-diameter %lld exceeds the diameter %lld", (long long) D, (long long) mx);
  bool ok = D == 0 && mx == 0;                 // reached from some root, and not improved from its far end
  for (int u = 0; u < g.n && ! ok; u ++) if (ecc[u] == D) for (int v = 0; v < g.n && ! ok; v ++) if (d[u][v] == D && ecc[v] <= D) ok = true;
  CHECK (ok, "pseudo-diameter %lld is not the eccentricity of a vertex that its farthest vertex cannot improve (diameter %lld)", (long long) D, (long long) mx);
  nontrivial (mx >= 2); tag (D == mx ? "exact" : "lower"); if (g.hasEdlo) tag ("weighted"); if (g.hasVelo) tag ("vertex-weighted");
}
