// G01: graph file round-trip.  G02: graphCheck decides consistency.  G03: accessors and statistics.
#include "graph.hpp"
#include <cmath>
#include <sstream>

// Independent parser of the documented graph format; vertices in file order.
static MGraph parseDoc (const std::string &s, Num &base) {
  std::istringstream i (s); long long ver, n, m, b, prop;
  CHECK ((bool) (i >> ver >> n >> m >> b >> prop), "saved file: bad header");
  CHECK (ver == 0, "saved file: version %lld", ver);
  bool l = prop / 100, e = (prop / 10) % 10, v = prop % 10;
  MGraph g; g.resize ((int) n); g.hasVlbl = l; g.hasEdlo = e; g.hasVelo = v; base = (Num) b;
  std::vector<std::vector<std::pair<long long, Num>>> raw (n); std::map<long long, int> idx; long long cnt = 0;
  for (int k = 0; k < n; k ++) { long long x = k + b, w = 1, d; if (l) CHECK ((bool) (i >> x), "saved file: label"); if (v) CHECK ((bool) (i >> w), "saved file: vertex load");
    CHECK ((bool) (i >> d), "saved file: degree"); CHECK (idx.insert ({x, k}).second, "saved file: duplicate label"); if (l) g.vlbl.push_back ((Num) x); if (v) g.velo.push_back ((Num) w); cnt += d;
    for (int j = 0; j < d; j ++) { long long t, el = 1; if (e) CHECK ((bool) (i >> el), "saved file: edge load"); CHECK ((bool) (i >> t), "saved file: edge end"); raw[k].push_back ({t, (Num) el}); } }
  CHECK (cnt == m, "saved file: arc count %lld vs header %lld", cnt, m);
  std::string rest; CHECK (! (i >> rest), "saved file: trailing data");
  for (int k = 0; k < n; k ++) for (auto &r : raw[k]) { auto it = idx.find (r.first); CHECK (it != idx.end (), "saved file: unknown end"); g.adj[k].push_back ({it->second, r.second}); }
  return g;
}
// Reference writer of the documented format, with arbitrary white space.
static std::string writeDoc (const MGraph &g, Num base, Rng &r) {
  auto ws = [&] (bool nl) -> std::string { static const char *t[] = {" ", "\t", "  ", "\n", " \n\t", "\r\n"}; return nl ? "\n" : t[r.below (6)]; };
  std::string s = "0" + ws (1) + strf ("%d", g.n) + ws (0) + strf ("%d", g.arcs ()) + ws (0) + strf ("%lld", (long long) base) + ws (0) + strf ("%d%d%d", g.hasVlbl, g.hasEdlo, g.hasVelo) + ws (0);
  for (int v = 0; v < g.n; v ++) {
    if (g.hasVlbl) s += strf ("%lld", (long long) g.vlbl[v]) + ws (0);
    if (g.hasVelo) s += strf ("%lld", (long long) g.velo[v]) + ws (0);
    s += strf ("%zu", g.adj[v].size ());
    for (auto &e : g.adj[v]) { s += ws (0); if (g.hasEdlo) s += strf ("%lld", (long long) e.second) + ws (0); s += strf ("%lld", (long long) (g.hasVlbl ? g.vlbl[e.first] : e.first + base)); }
    s += "\n";
  }
  return s;
}

PROPERTY (G01, "the graph has at least 2 vertices and 1 edge, and carries loads, labels, a non-zero base or a non-compact layout") {
  GenOpt o; o.big = 250; MGraph g = genGraph (o); describe ("%s", g.text ().c_str ());
  seedLib ();
  tag (g.family); if (g.hasVlbl) tag ("labels"); if (g.hasVelo) tag ("velo"); if (g.hasEdlo) tag ("edlo"); if (g.n == 0) tag ("empty");
  std::string txt; Num fbase;
  MGraph expect = g;
  if (coin ()) {                               // save a memory graph
    Rep r; r.make (g); r.build ();
    OutStream os; CHECK (SCOTCH_graphSave (&r.graf, os.f) == 0, "graphSave failed"); txt = os.str (); r.unchanged ("graphSave");
    fbase = r.base; Num pb; MGraph p = parseDoc (txt, pb);
    CHECK (pb == r.base, "saved base %lld, expected %lld", (long long) pb, (long long) r.base);
    std::string d = diffGraph (g, p); CHECK (d.empty (), "saved file differs from the graph: %s", d.c_str ());
    CHECK (p.n == 0 || (p.hasVelo == g.hasVelo && p.hasEdlo == g.hasEdlo), "saved file: attribute flags differ");
    nontrivial (g.n >= 2 && g.arcs () > 0 && (r.base || ! r.compact || g.hasVelo || g.hasEdlo || g.hasVlbl)); tag ("from-memory");
  } else {
    Rng r = bulk (); fbase = (Num) draw (3); txt = writeDoc (g, fbase, r); tag ("from-text"); nontrivial (g.n >= 2 && g.arcs () > 0 && (fbase || g.hasVelo || g.hasEdlo || g.hasVlbl));
  }
  Num b = (Num) irange (-1, 2), flag = (Num) draw (4); describe ("base=%d flag=%d", (int) b, (int) flag); tag (strf ("loadflag%d", (int) flag)); tag (strf ("loadbase%d", (int) b));
  if (flag & 1) { expect.hasVelo = false; expect.velo.clear (); }
  if (flag & 2) { expect.hasEdlo = false; for (auto &a : expect.adj) for (auto &e : a) e.second = 1; }
  SCOTCH_Graph h; SCOTCH_graphInit (&h);
  bool two = chance (1, 4);                    // several objects may follow each other on the same stream
  FILE *f = memIn (two ? txt + txt + " 12345" : txt);
  CHECK (SCOTCH_graphLoad (&h, f, b, flag) == 0, "graphLoad failed on a valid file");
  Num hb; MGraph got = extract (&h, &hb);
  CHECK (hb == (b == -1 ? fbase : b), "loaded graph has base %lld", (long long) hb);
  std::string d = diffGraph (expect, got); CHECK (d.empty (), "loaded graph differs: %s", d.c_str ());
  CHECK (got.n == 0 || (got.hasVelo == expect.hasVelo && (got.arcs () == 0 || got.hasEdlo == expect.hasEdlo)), "loaded graph attribute presence differs");
  CHECK (SCOTCH_graphCheck (&h) == 0, "loaded graph is inconsistent");
  Num vs; SCOTCH_graphStat (&h, 0, 0, &vs, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); CHECK (vs == expect.velosum (), "loaded vertex load sum %lld", (long long) vs);
  if (two) { SCOTCH_graphFree (&h); CHECK (SCOTCH_graphLoad (&h, f, b, flag) == 0, "second graphLoad on the same stream failed"); got = extract (&h); d = diffGraph (expect, got); CHECK (d.empty (), "second loaded graph differs: %s", d.c_str ()); int x; CHECK (fscanf (f, "%d", &x) == 1 && x == 12345, "data following the graph was consumed"); tag ("two-on-stream"); }
  fclose (f);
  OutStream o2; CHECK (SCOTCH_graphSave (&h, o2.f) == 0, "second graphSave failed"); std::string t2 = o2.str ();
  SCOTCH_graphExit (&h);
  SCOTCH_Graph k; SCOTCH_graphInit (&k); f = memIn (t2); CHECK (SCOTCH_graphLoad (&k, f, -1, 0) == 0, "reload failed"); fclose (f);
  OutStream o3; SCOTCH_graphSave (&k, o3.f); SCOTCH_graphExit (&k); CHECK (o3.str () == t2, "save-load-save is not a fixpoint");
}

// --- G02 ---------------------------------------------------------------------------------------
PROPERTY (G02, "the graph has at least 1 edge and the case is a corrupted one, or a valid one with a non-default representation") {
  GenOpt o; o.nmin = 0; o.nmax = 16; o.big = 150; MGraph g = genGraph (o); describe ("%s", g.text ().c_str ());
  Rep r; r.make (g); r.build ();
  CHECK (SCOTCH_graphCheck (&r.graf) == 0, "graphCheck rejects a consistent graph");
  r.unchanged ("graphCheck");
  SCOTCH_graphFree (&r.graf);
  if (g.arcs () == 0 && ! (g.hasVelo && g.n > 0)) { tag ("valid-only"); return; }
  g_errok = true;  // Corrupt exactly one thing.
  Num *vt = r.verttab, *ve = r.vendtab ? r.vendtab : r.verttab + 1, *ed = r.edgetab, *el = r.edlotab; Num b = r.base;
  std::vector<std::pair<int, Num>> arcs; for (int v = 0; v < g.n; v ++) for (Num e = vt[v] - b; e < ve[v] - b; e ++) arcs.push_back ({v, e});
  int kind = arcs.empty () ? 5 : (int) draw (11); Num edgenbr = r.edgenbr; const char *what = "";
  if (kind == 5 && (! g.hasVelo || g.n == 0)) kind = 0;
  if (kind == 2 && ! g.hasEdlo) kind = 1;
  auto at = [&] () { return arcs[draw (arcs.size ())]; };
  switch (kind) {
    case 0: { auto a = at (); ed[a.second] = coin () ? b - 1 - (Num) draw (3) : b + g.n + (Num) draw (3); what = "end out of range"; break; }
    case 1: { auto a = at (); ed[a.second] = b + a.first; what = "self loop"; break; }
    case 2: { auto a = at (); el[a.second] += 1 + (Num) draw (5); what = "asymmetric edge load"; break; }
    case 3: { auto a = at (); int t = ed[a.second] - b; if (g.n < 3) { ed[a.second] = b + a.first; what = "self loop"; break; } int u; do u = (int) draw (g.n); while (u == a.first || u == t); ed[a.second] = b + u; what = "redirected arc"; break; }   // either asymmetric, or duplicate
    case 4: { edgenbr += coin () ? 2 : (coin () ? -2 : 1); what = "wrong edge count"; break; }
    case 5: { int v = (int) draw (g.n); r.velotab[v] = -1 - (Num) draw (5); what = "negative vertex load"; break; }
    case 6: { if (r.compact) { edgenbr += 2; what = "wrong edge count"; break; } auto a = at (); ve[a.first] -= 1; edgenbr -= 1; what = "odd arc count"; break; }
    case 7: { if (r.compact) { auto a = at (); ed[a.second] = b + a.first; what = "self loop"; break; } auto a = at (); vt[a.first] = b - 1 - (Num) draw (3); ve[a.first] = vt[a.first]; what = "start below base"; edgenbr = r.edgenbr; break; }
    case 10: { if (coin () && g.hasEdlo) { auto a = at (); int t = ed[a.second] - b; Num L = SCOTCH_NUMMAX / 2 + 1 + (Num) draw (1000); el[a.second] = L; for (Num e = vt[t] - b; e < ve[t] - b; e ++) if (ed[e] == b + a.first) el[e] = L; what = "edge load sum overflow"; break; }
      if (g.hasVelo && g.n >= 2) { int u = (int) draw (g.n), w = (int) draw (g.n - 1); if (w >= u) w ++; r.velotab[u] = r.velotab[w] = SCOTCH_NUMMAX / 2 + 1 + (Num) draw (1000); what = "vertex load sum overflow"; break; }
      auto a = at (); ed[a.second] = b + a.first; what = "self loop"; break; }
    case 8: { auto a = at (); ed[a.second] = b + g.n; what = "end one past"; break; }
    default: { // two vertices drop their common edge on one side only, arc count kept even by duplicating another arc
      std::vector<int> c; for (int v = 0; v < g.n; v ++) if (g.adj[v].size () >= 2) c.push_back (v);
      if (c.empty ()) { edgenbr += 2; what = "wrong edge count"; break; }
      int v = c[draw (c.size ())]; Num e0 = vt[v] - b; Num d = ve[v] - vt[v]; Num i = (Num) draw (d), j = (Num) draw (d - 1); if (j >= i) j ++; ed[e0 + i] = ed[e0 + j]; if (el) el[e0 + i] = el[e0 + j]; what = "duplicate arc"; break; }
  }
  describe ("corruption: %s base=%d compact=%d", what, (int) b, r.compact); tag (what);
  CHECK (SCOTCH_graphBuild (&r.graf, r.base, r.vertnbr, r.verttab, r.vendtab, r.velotab, r.vlbltab, edgenbr, r.edgetab, r.edlotab) == 0, "graphBuild failed");
  int o2 = SCOTCH_graphCheck (&r.graf); clearErr ();
  CHECK (o2 != 0, "graphCheck accepts an inconsistent graph (%s)", what);
  nontrivial ();
}

// --- G03 ---------------------------------------------------------------------------------------
static bool close (double a, double b) { return fabs (a - b) <= 1e-9 * (1 + fabs (a) + fabs (b)); }
PROPERTY (G03, "the graph has at least 1 edge and at least one of: loads, non-zero base, non-compact layout; or is rebased at least twice") {
  GenOpt o; o.big = 300; MGraph g = genGraph (o); describe ("%s", g.text ().c_str ());
  Rep r; r.make (g); r.build (); tag (g.family);
  // optional: graph obtained by loading rather than building
  Num v, e; SCOTCH_graphSize (&r.graf, &v, &e); CHECK (v == g.n && e == g.arcs (), "graphSize gives %lld,%lld", (long long) v, (long long) e);
  SCOTCH_graphSize (&r.graf, NULL, NULL);
  { Num b, n, m, *vt, *ve, *vl, *lb, *ed, *el; SCOTCH_graphData (&r.graf, &b, &n, &vt, &ve, &vl, &lb, &m, &ed, &el);
    CHECK (b == r.base && vt == r.verttab && vl == r.velotab && lb == r.vlbltab && ed == r.edgetab && el == r.edlotab && (r.compact ? ve == r.verttab + 1 : ve == r.vendtab), "graphData does not give back the user arrays"); }
  auto stat = [&] (const char *w) {
    Num vmin, vmax, vsum, dmin, dmax, emin, emax, esum; double va, vd, da, dd, ea, edl;
    SCOTCH_graphStat (&r.graf, &vmin, &vmax, &vsum, &va, &vd, &dmin, &dmax, &da, &dd, &emin, &emax, &esum, &ea, &edl);
    if (g.n > 0) {
      Num mn = g.vw (0), mx = mn; double s = 0, dl = 0; for (int i = 0; i < g.n; i ++) { mn = std::min (mn, g.vw (i)); mx = std::max (mx, g.vw (i)); s += g.vw (i); } double av = s / g.n; for (int i = 0; i < g.n; i ++) dl += fabs (g.vw (i) - av);
      CHECK (vmin == mn && vmax == mx && vsum == (Num) s && close (va, av) && close (vd, dl / g.n), "%s: vertex load statistics %lld %lld %lld %g %g", w, (long long) vmin, (long long) vmax, (long long) vsum, va, vd);
      size_t a = g.adj[0].size (), z = a; double ds = 0; for (auto &x : g.adj) { a = std::min (a, x.size ()); z = std::max (z, x.size ()); } double dav = (double) g.arcs () / g.n; for (auto &x : g.adj) ds += fabs (x.size () - dav);
      CHECK (dmin == (Num) a && dmax == (Num) z && close (da, dav) && close (dd, ds / g.n), "%s: degree statistics %lld %lld %g %g", w, (long long) dmin, (long long) dmax, da, dd);
    } else CHECK (vmin == 0 && vmax == 0 && vsum == 0 && dmin == 0 && dmax == 0, "%s: statistics of the empty graph", w);
    if (g.arcs () > 0) {
      double mn = 1e18, mx = -1, s = 0, dl = 0; for (auto &x : g.adj) for (auto &y : x) { double l = g.hasEdlo ? y.second : 1; mn = std::min (mn, l); mx = std::max (mx, l); s += l; } double av = s / g.arcs (); for (auto &x : g.adj) for (auto &y : x) dl += fabs ((g.hasEdlo ? y.second : 1) - av);
      CHECK (emin == (Num) mn && emax == (Num) mx && close (ea, av) && close (edl, dl / g.arcs ()), "%s: edge load statistics %lld %lld %g %g", w, (long long) emin, (long long) emax, ea, edl);
      CHECK (g.hasEdlo ? esum == (Num) s : (esum == (Num) s || 2 * esum == (Num) s), "%s: edge load sum %lld", w, (long long) esum);
    }
  };
  stat ("initial");
  int k = (int) irange (1, 4); Num cur = r.base;
  for (int i = 0; i < k; i ++) {
    Num b = (Num) irange (0, 4); Num old = SCOTCH_graphBase (&r.graf, b); CHECK (old == cur, "graphBase returned %lld, expected old base %lld", (long long) old, (long long) cur); cur = b;
    Num nb; MGraph h = extract (&r.graf, &nb); CHECK (nb == b, "graphBase: base is %lld after rebasing to %lld", (long long) nb, (long long) b);
    std::string d = diffGraph (g, h); CHECK (d.empty (), "graphBase changed the graph: %s", d.c_str ());
    CHECK (SCOTCH_graphCheck (&r.graf) == 0, "graph inconsistent after graphBase"); tag ("rebased");
  }
  stat ("rebased");
  SCOTCH_graphBase (&r.graf, r.base); r.unchanged ("graphBase round trip");   // holes are not indices and stay, used cells come back
  nontrivial (g.arcs () > 0 && (r.base || ! r.compact || g.hasVelo || g.hasEdlo || k > 1));
}
