// P02: quality of default mappings.  P06: mapping statistics.  P07: mapping files.
#include "arch.hpp"
extern "C" int SCOTCH_graphMapViewRaw (const SCOTCH_Graph *, const SCOTCH_Mapping *, FILE *);   // exported, but missing from scotch.h
static long long LL (Num x) { return (long long) x; }
static std::string parts (const NumV &p) { std::string s; for (size_t i = 0; i < p.size () && i < 60; i ++) s += strf ("%lld ", LL (p[i])); return s; }

// P06 ----------------------------------------------------------------------------------------
struct Vals { std::map<std::string, std::vector<double>> m; };
static std::vector<double> nums (const std::string &s) {      // every number of a line, in order, skipping digits glued to letters
  std::vector<double> r; const char *p = s.c_str (); 
  while (*p) { bool start = isdigit ((unsigned char) *p) || (*p == '-' && (isdigit ((unsigned char) p[1]) || ! strncmp (p + 1, "nan", 3))) || ! strncmp (p, "nan", 3) || ! strncmp (p, "inf", 3);
    if (start && (p == s.c_str () || ! isalpha ((unsigned char) p[-1]))) { char *e; r.push_back (strtod (p, &e)); p = e; } else p ++; }
  return r;
}
static bool near (double a, double b, double tol = 2e-5) { if (std::isnan (b)) return true; return fabs (a - b) <= 2e-6 + tol * std::max (fabs (a), fabs (b)); }
static void expectLine (const std::string &out, const std::string &key, const std::vector<double> &want) {
  size_t p = out.find (key); CHECK (p != std::string::npos, "no line '%s' in: %s", key.c_str (), out.c_str ()); size_t e = out.find ('\n', p); std::vector<double> got = nums (out.substr (p + key.size (), e - p - key.size ()));
  CHECK (got.size () == want.size (), "line '%s' has %zu values, not %zu: %s", key.c_str (), got.size (), want.size (), out.substr (p, e - p).c_str ());
  for (size_t i = 0; i < want.size (); i ++) CHECK (near (got[i], want[i]), "line '%s': value %zu is %.9g instead of %.9g: %s", key.c_str (), i, got[i], want[i], out.substr (p, e - p).c_str ());
}
// Bounds on the pseudo-diameter of a part, counted in vertices, summed over its components
static void diamBounds (const MGraph &g, const NumV &part, Num k, double &lo, double &hi) {
  lo = hi = 0; std::vector<char> seen (g.n, 0);
  for (int r = 0; r < g.n; r ++) if (part[r] == k && ! seen[r]) {
    std::vector<int> c {r}; seen[r] = 1; for (size_t i = 0; i < c.size (); i ++) for (auto &e : g.adj[c[i]]) if (part[e.first] == k && ! seen[e.first]) { seen[e.first] = 1; c.push_back (e.first); }
    int dm = 0; size_t m = 0; for (int s : c) { std::map<int, int> d; d[s] = 0; std::vector<int> q {s}; for (size_t i = 0; i < q.size (); i ++) { for (auto &e : g.adj[q[i]]) if (part[e.first] == k && ! d.count (e.first)) { d[e.first] = d[q[i]] + 1; q.push_back (e.first); } dm = std::max (dm, d[q[i]]); } for (int x : q) m += g.adj[x].size (); }
    size_t in = 0; for (int x : c) for (auto &e : g.adj[x]) if (part[e.first] == k) in ++; bool tree = in == 2 * (c.size () - 1);
    hi += dm + 1; lo += tree ? dm + 1 : (dm + 1) / 2 + 1; }
}
PROPERTY (P06, "at least two parts used, at least one cut edge, and a target in which not all distances are one or an old mapping with a moved vertex") {
  GenOpt o; o.nmin = 1; o.nmax = 26; MGraph g = genGraph (o); tag (g.family); Rep r; r.make (g); r.build (); SCOTCH_Num nv, ne; SCOTCH_graphSize (&r.graf, &nv, &ne);
  if (chance (1, 5)) {                                      // overlap partition statistics
    tag ("ovl"); int k = (int) irange (1, 8); NumV p (g.n); int sepw = (int) draw (5); for (int v = 0; v < g.n; v ++) p[v] = (int) draw (5) < sepw ? -1 : (Num) draw (k);
    Num *pp = dupNum (p); OutStream os; describe ("%s parts=%d part=[%s]", g.text ().c_str (), k, parts (p).c_str ());
    CHECK (SCOTCH_graphPartOvlView (&r.graf, k, pp, os.f) == 0, "graphPartOvlView failed"); r.unchanged ("PartOvlView"); for (int v = 0; v < g.n; v ++) CHECK (pp[v] == p[v], "part array modified"); free (pp);
    std::vector<double> ld (k, 0); double fr = 0; bool adj = false; for (int v = 0; v < g.n; v ++) { if (p[v] >= 0) ld[p[v]] += g.vw (v); else { fr += g.vw (v); std::set<Num> s; for (auto &e : g.adj[v]) if (p[e.first] >= 0) s.insert (p[e.first]); for (Num q : s) { ld[q] += g.vw (v); adj = true; } } }
    double sum = 0, mx = *std::max_element (ld.begin (), ld.end ()), mn = *std::min_element (ld.begin (), ld.end ()); for (double x : ld) sum += x; double av = sum / k; std::string s = os.str ();
    expectLine (s, "P\tsep=", {fr}); expectLine (s, "P\tmin", {mn, mx, av}); expectLine (s, "P\tmaxavg=", {mx / av, mn / av}); nontrivial (k > 1 && adj); return; }
  ArchOpt ao; ao.nmax = 20; ArchP a = genArch (ao); tag ("arch-" + a->kind); bool distOk = a->exact && (bool) a->dist;
  auto gen = [&] (int un) { NumV p (g.n, -1); int m = (int) draw (3); int few = (int) irange (1, 4); NumV sel; for (int i = 0; i < few; i ++) sel.push_back (a->num ((int) draw (a->n))); for (int v = 0; v < g.n; v ++) if ((int) draw (20) >= un) p[v] = m == 0 ? a->num ((int) draw (a->n)) : m == 1 ? sel[draw (few)] : sel[(size_t) v * few / g.n]; return p; };
  NumV p = gen (chance (1, 4) ? (int) irange (1, 20) : 0), po; bool re = chance (2, 5), raw = chance (1, 4); if (re) { po = gen (chance (1, 3) ? 5 : 0); if (coin ()) for (int v = 0; v < g.n; v ++) if (coin ()) po[v] = p[v]; }
  NumV vm; if (re && coin ()) for (int v = 0; v < g.n; v ++) vm.push_back (draw (9)); double em = pick (std::vector<double> {1.0, 0.5, 3.0, 0.0});
  if (re) tag ("remap"); if (raw) tag ("raw"); if (r.base) tag ("based");
  describe ("%s target=%s base=%lld part=[%s] old=[%s] vmlo=%d em=%g%s", g.text ().c_str (), a->desc.c_str (), LL (r.base), parts (p).c_str (), parts (po).c_str (), (int) vm.size (), em, raw ? " raw" : "");
  Num *pp = dupNum (p), *oo = re ? dupNum (po) : nullptr, *vv = vm.empty () ? nullptr : dupNum (vm); SCOTCH_Mapping m, mo; CHECK (SCOTCH_graphMapInit (&r.graf, &m, &a->arch, pp) == 0, "mapInit"); if (re) CHECK (SCOTCH_graphMapInit (&r.graf, &mo, &a->arch, oo) == 0, "mapInit");
  OutStream os; clearErr (); int rc = re ? (raw ? SCOTCH_graphRemapViewRaw (&r.graf, &m, &mo, em, vv, os.f) : SCOTCH_graphRemapView (&r.graf, &m, &mo, em, vv, os.f)) : (raw ? SCOTCH_graphMapViewRaw (&r.graf, &m, os.f) : SCOTCH_graphMapView (&r.graf, &m, os.f));
  CHECK (rc == 0, "displaying mapping statistics failed: %s", lastErr ().c_str ()); std::string s = os.str (); SCOTCH_graphMapExit (&r.graf, &m); if (re) SCOTCH_graphMapExit (&r.graf, &mo); r.unchanged ("MapView");
  for (int v = 0; v < g.n; v ++) { CHECK (pp[v] == p[v], "the part of vertex %d was changed from %lld to %lld", v, LL (p[v]), LL (pp[v])); CHECK (! re || oo[v] == po[v], "old part of vertex %d changed", v); } free (pp); free (oo); free (vv);
  if (ne == 0) { tag ("edgeless"); return; }
  std::map<Num, double> ld; std::map<Num, std::set<Num>> ng; for (int v = 0; v < g.n; v ++) if (p[v] >= 0) { ld[p[v]] += g.vw (v); ng[p[v]]; }
  double cl = 0, cd = 0, ce = 0; std::map<int, double> h; bool far = false, cut = false;
  for (int v = 0; v < g.n; v ++) for (auto &e : g.adj[v]) { Num x = p[v], y = p[e.first]; if (x < 0 || y < 0) continue; if (x != y) { ng[x].insert (y); cut = true; } Num w = g.hasEdlo ? e.second : 1, d = x == y ? 0 : distOk ? a->dist (a->idx (x), a->idx (y)) : 0; if (! distOk) { SCOTCH_ArchDom dx, dy; SCOTCH_archDomTerm (&a->arch, &dx, x); SCOTCH_archDomTerm (&a->arch, &dy, y); d = SCOTCH_archDomDist (&a->arch, &dx, &dy); } if (d > 1) far = true; cl += w; cd += d; ce += (double) w * d; h[std::min ((int) d, 255)] += w; }
  double mn = 0, mx = 0, av = 0, sum = 0, dl = 0, nmin = 0, nmax = 0, nsum = 0, k = (double) ld.size (); if (k > 0) { mn = 1e18; nmin = 1e18; for (auto &x : ld) { mn = std::min (mn, x.second); mx = std::max (mx, x.second); sum += x.second; } av = sum / k; for (auto &x : ld) dl += fabs (x.second - av); dl /= k * av; for (auto &x : ng) { double z = (double) x.second.size (); nmin = std::min (nmin, z); nmax = std::max (nmax, z); nsum += z; } }
  double mm = k > 0 ? mx / av : 0, dil = cd / ne, ex = cl == 0 ? 0 : ce / cl, ct = cl == 0 ? 0 : (cl - h[0]) / cl, dt = cl * cd == 0 ? 0 : ce * ne / (cl * cd);
  double mg = 0, md = 0, ml = 0, mc = 0; if (re) { for (int v = 0; v < g.n; v ++) if (p[v] >= 0 && po[v] >= 0 && p[v] != po[v]) { mg ++; if (distOk) md += a->dist (a->idx (p[v]), a->idx (po[v])); else { SCOTCH_ArchDom dx, dy; SCOTCH_archDomTerm (&a->arch, &dx, p[v]); SCOTCH_archDomTerm (&a->arch, &dy, po[v]); md += SCOTCH_archDomDist (&a->arch, &dx, &dy); } ml += g.vw (v); mc += em * (vm.empty () ? 1 : (double) vm[v]); } if (mg) { md /= mg; ml /= mg; } }
  nontrivial (k > 1 && cut && (far || mg > 0));
  if (raw) { std::vector<double> got = nums (s), want {k, (double) a->n, mn, mx, av, dl, mm, cl, ce, dil, ex, ct, dt}; if (re) { double z[5] = {em, mg / g.n, md, ml, mc}; want.insert (want.end (), z, z + 5); } CHECK (got.size () == want.size (), "raw output has %zu fields, not %zu: %s", got.size (), want.size (), s.c_str ()); for (size_t i = 0; i < want.size (); i ++) CHECK (near (got[i], want[i]), "field %zu of raw output is %.9g instead of %.9g: %s", i, got[i], want[i], s.c_str ()); return; }
  expectLine (s, "M\tProcessors ", {k, (double) a->n, k / a->n}); expectLine (s, "M\tTarget ", {mn, mx, av, dl, mm}); expectLine (s, "M\tNeighbors ", {nmin, nmax, nsum});
  expectLine (s, "M\tCommDilat=", {dil, floor (cd / 2)}); expectLine (s, "M\tCommExpan=", {ex, floor (ce / 2)}); expectLine (s, "M\tCommCutSz=", {ct, floor ((cl - h[0]) / 2)}); expectLine (s, "M\tCommDelta=", {dt});
  int dmax = -1; for (auto &x : h) if (x.second > 0) dmax = x.first; for (int d = 0; d <= dmax; d ++) expectLine (s, strf ("M\tCommLoad[%d]=", d), {h.count (d) ? h[d] / cl : 0}); CHECK (s.find (strf ("CommLoad[%d]", dmax + 1)) == std::string::npos, "histogram is longer than the longest distance %d: %s", dmax, s.c_str ());
  size_t q = s.find ("M\tPartDiam"); CHECK (q != std::string::npos, "no PartDiam"); std::vector<double> got = nums (s.substr (q, s.find ('\n', q) - q)); double blo = 1e18, bhi = 1e18, xlo = 0, xhi = 0, alo = 0, ahi = 0; for (auto &x : ld) { double lo, hi; diamBounds (g, p, x.first, lo, hi); blo = std::min (blo, lo); bhi = std::min (bhi, hi); xlo = std::max (xlo, lo); xhi = std::max (xhi, hi); alo += lo; ahi += hi; } if (k == 0) blo = bhi = 0; else { alo /= k; ahi /= k; }
  CHECK (got.size () == 3 && got[0] >= blo && got[0] <= bhi && got[1] >= xlo && got[1] <= xhi && got[2] >= alo - 1e-5 && got[2] <= ahi + 1e-5, "part diameters %g,%g,%g out of [%g,%g],[%g,%g],[%g,%g]", got[0], got[1], got[2], blo, bhi, xlo, xhi, alo, ahi);
  if (re) { expectLine (s, "M\tMigrNbr=", {mg, mg / g.n * 100}); expectLine (s, "M\tAvgMigrDist=", {md}); expectLine (s, "M\tAvgMigrLoad=", {ml}); expectLine (s, "M\tMigrCost=", {mc}); }
}

// P07 ----------------------------------------------------------------------------------------
PROPERTY (P07, "at least two vertices, and labels, a permuted file, or missing or foreign lines") {
  GenOpt o; o.nmin = 1; o.nmax = 30; o.big = 300; MGraph g = genGraph (o); tag (g.family); Rep r; r.make (g); r.build (); Rng rr = bulk ();
  NumV p (g.n); for (auto &x : p) x = g.n <= 30 ? (Num) draw (20) - 1 : (Num) rr.below (1000) - 1; bool viaMap = coin (), alloc = coin ();
  auto lab = [&] (int v) { return g.hasVlbl ? g.vlbl[v] : (Num) (v + r.base); };
  describe ("%s base=%lld part=[%s]%s", g.text ().c_str (), LL (r.base), parts (p).c_str (), viaMap ? " MapSave" : " TabSave"); clearErr ();
  Num *pp = dupNum (p); OutStream os; ArchP a = archCmplt (1000); SCOTCH_Mapping m;
  if (viaMap) { SCOTCH_graphMapInit (&r.graf, &m, &a->arch, pp); CHECK (SCOTCH_graphMapSave (&r.graf, &m, os.f) == 0, "graphMapSave failed"); SCOTCH_graphMapExit (&r.graf, &m); } else CHECK (SCOTCH_graphTabSave (&r.graf, pp, os.f) == 0, "graphTabSave failed");
  for (int v = 0; v < g.n; v ++) CHECK (pp[v] == p[v], "saving changed the part array"); free (pp); std::string s = os.str (), w = strf ("%d\n", g.n); for (int v = 0; v < g.n; v ++) w += strf ("%lld\t%lld\n", LL (lab (v)), LL (p[v])); CHECK (s == w, "mapping file is:\n%s\ninstead of:\n%s", s.substr (0, 500).c_str (), w.substr (0, 500).c_str ());
  // a file with permuted, missing and foreign lines
  std::vector<std::pair<Num, Num>> ln; NumV ex (g.n, -1); int drop = pick (std::vector<int> {0, 2, 9}); bool hasDrop = false; for (int v = 0; v < g.n; v ++) if ((int) rr.below (10) >= drop) { ln.push_back ({lab (v), p[v]}); ex[v] = p[v]; } else hasDrop = true;
  std::set<Num> us; for (int v = 0; v < g.n; v ++) us.insert (lab (v)); int nf = chance (1, 2) ? (int) draw (6) : 0; for (int i = 0; i < nf; i ++) { Num l = (Num) rr.range (-5, 2 * g.n + 10); if (us.insert (l).second) ln.push_back ({l, 7}); } if (ln.empty ()) skipCase ();
  bool shuf = coin (); if (shuf) shuffleR (ln, rr); const char *sep = pick (std::vector<const char *> {"\t", " ", "\n", "  \t "}); std::string f = strf ("%d%s", (int) ln.size (), pick (std::vector<const char *> {"\n", " "})); for (auto &x : ln) f += strf ("%lld%s%lld\n", LL (x.first), sep, LL (x.second)); if (coin ()) f += "next\n";
  if (shuf) tag ("permuted"); if (hasDrop) tag ("missing"); if (nf) tag ("foreign"); if (g.hasVlbl) tag ("labels");
  NumV q (g.n); FILE *fi = memIn (f); clearErr ();
  if (viaMap) { SCOTCH_Mapping mm; Num *x = dupNum (NumV (g.n, -88)); SCOTCH_graphMapInit (&r.graf, &mm, &a->arch, alloc ? nullptr : x); CHECK (SCOTCH_graphMapLoad (&r.graf, &mm, fi) == 0, "graphMapLoad failed: %s", lastErr ().c_str ()); OutStream o2; if (alloc) { CHECK (SCOTCH_graphMapSave (&r.graf, &mm, o2.f) == 0, "MapSave"); std::string t = o2.str (), e = strf ("%d\n", g.n); for (int v = 0; v < g.n; v ++) e += strf ("%lld\t%lld\n", LL (lab (v)), LL (ex[v])); CHECK (t == e, "loaded mapping is saved as:\n%s\ninstead of:\n%s", t.substr (0, 500).c_str (), e.substr (0, 500).c_str ()); q = ex; } else q.assign (x, x + g.n); SCOTCH_graphMapExit (&r.graf, &mm); free (x); }
  else { Num *x = dupNum (NumV (g.n, -88)); CHECK (SCOTCH_graphTabLoad (&r.graf, x, fi) == 0, "graphTabLoad failed: %s", lastErr ().c_str ()); q.assign (x, x + g.n); free (x); }
  fclose (fi); r.unchanged ("loading a mapping"); for (int v = 0; v < g.n; v ++) CHECK (q[v] == ex[v], "vertex %d (label %lld) was loaded as %lld instead of %lld", v, LL (lab (v)), LL (q[v]), LL (ex[v]));
  nontrivial (g.n > 1 && (shuf || hasDrop || nf || g.hasVlbl));
  if (! ln.empty () && chance (1, 4)) {                     // truncated files and duplicate labels are refused
    std::string b; if (coin ()) { b = strf ("%d\n", (int) ln.size () + 1); for (auto &x : ln) b += strf ("%lld\t%lld\n", LL (x.first), LL (x.second)); } else { b = strf ("%d\n", (int) ln.size () + 1); for (auto &x : ln) b += strf ("%lld\t%lld\n", LL (x.first), LL (x.second)); b += strf ("%lld\t3\n", LL (ln[rr.below (ln.size ())].first)); }
    FILE *z = memIn (b); Num *x = dupNum (NumV (g.n, -88)); int rc = SCOTCH_graphTabLoad (&r.graf, x, z); fclose (z); free (x); CHECK (rc != 0, "an invalid mapping file was accepted"); }
}

// P02 ----------------------------------------------------------------------------------------
static double cutOf (const MGraph &g, const NumV &p, const MArch *a) { double c = 0; for (int u = 0; u < g.n; u ++) for (auto &e : g.adj[u]) if (e.first > u && p[u] != p[e.first]) c += (double) (g.hasEdlo ? e.second : 1) * (a ? a->dist (a->idx (p[u]), a->idx (p[e.first])) : 1); return c; }
static void orderBlocks (const MGraph &g, const std::vector<int> &ord, const std::vector<double> &w, NumV &p) {  // consecutive blocks of proportional load
  double tot = (double) g.velosum (), acc = 0, ws = 0, cum = w[0]; for (double x : w) ws += x; size_t k = 0; p.assign (g.n, 0);
  for (int v : ord) { double mid = (acc + g.vw (v) / 2.0) / tot; while (k + 1 < w.size () && mid > cum / ws) cum += w[++ k]; p[v] = (Num) k; acc += g.vw (v); }
}
struct Quality { int k; double ratio; };
static Quality oneMapping () {
  int fl = 0; MGraph g; Rng rr = bulk (); int n = (int) irange (40, chance (1, 3) ? 900 : 250);
  switch (weighted ({3, 2, 2, 1})) {
    case 0: { g.family = "grid"; int w = (int) irange (3, std::max (3, (int) sqrt ((double) n))), h = n / w; n = w * h; g.resize (n); for (int v = 0; v < n; v ++) { if (v % w + 1 < w) g.addFast (v, v + 1); if (v + w < n) g.addFast (v, v + w); } break; }
    case 1: { g.family = "geom"; g.resize (n); std::vector<double> x (n), y (n); for (int i = 0; i < n; i ++) { x[i] = rr.below (1000000) / 1e6; y[i] = rr.below (1000000) / 1e6; } for (int i = 1; i < n; i ++) { std::vector<std::pair<double, int>> d; for (int j = 0; j < i; j ++) d.push_back ({(x[i] - x[j]) * (x[i] - x[j]) + (y[i] - y[j]) * (y[i] - y[j]), j}); std::sort (d.begin (), d.end ()); for (int k = 0; k < 3 && k < (int) d.size (); k ++) g.addFast (i, d[k].second); } break; }
    case 2: { g.family = "grid3"; int a = (int) irange (2, 6), b = (int) irange (2, 6), c = std::max (1, n / (a * b)); n = a * b * c; g.resize (n); for (int v = 0; v < n; v ++) { if (v % a + 1 < a) g.addFast (v, v + 1); if (v / a % b + 1 < b) g.addFast (v, v + a); if (v + a * b < n) g.addFast (v, v + a * b); } break; }
    default: { g.family = "cycle"; g.resize (n); for (int v = 0; v < n; v ++) g.addFast (v, (v + 1) % n); }
  }
  bool wv = chance (1, 3), we = chance (1, 4); if (wv) { g.hasVelo = true; for (int v = 0; v < n; v ++) g.velo.push_back (rr.range (1, 4)); } if (we) { g.hasEdlo = true; for (int u = 0; u < n; u ++) for (auto &e : g.adj[u]) if (e.first > u) { Num w = rr.range (1, 4); e.second = w; for (auto &f : g.adj[e.first]) if (f.first == u) f.second = w; } }
  std::vector<int> nat (n); std::iota (nat.begin (), nat.end (), 0); if (coin ()) { std::vector<int> p (n); std::iota (p.begin (), p.end (), 0); shuffleR (p, rr); MGraph h = g; h.adj.assign (n, {}); for (int u = 0; u < n; u ++) { for (auto &e : g.adj[u]) h.adj[p[u]].push_back ({p[e.first], e.second}); if (wv) h.velo[p[u]] = g.velo[u]; nat[u] = p[u]; } g = h; tag ("renumbered"); }
  tag (g.family); Rep r; r.make (g); r.build (); int kmax = std::max (2, std::min (24, n / 20)); int k = (int) irange (2, kmax); double bal = 0.01; SCOTCH_Strat st; SCOTCH_stratInit (&st); std::string d = "default";
  int mode = weighted ({3, 4, 2}); if (mode == 1) { for (int b : {SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATRECURSIVE}) if (chance (1, 4)) fl |= b; bal = pick (std::vector<double> {0.01, 0.05, 0.1, 0.3}); CHECK (SCOTCH_stratGraphMapBuild (&st, fl, k, bal) == 0, "stratGraphMapBuild"); d = strf ("flags=0x%x bal=%g", fl, bal); }
  ArchP a; if (mode == 2) { ArchOpt ao; ao.nmax = kmax; ao.deco = false; ao.sub = false; ao.load = false; a = genArch (ao); if (! a->dist || a->n < 2 || ! a->tn.empty ()) a = archCmplt (k); k = a->n; tag ("arch-" + a->kind); }
  seedLib (); describe ("%s parts=%d%s strat=%s", g.text ().c_str (), k, a ? (" target=" + a->desc).c_str () : "", d.c_str ()); Num *pp = dupNum (NumV (n, -1)); clearErr ();
  CHECK ((a ? SCOTCH_graphMap (&r.graf, &a->arch, &st, pp) : SCOTCH_graphPart (&r.graf, k, &st, pp)) == 0, "mapping failed: %s", lastErr ().c_str ()); SCOTCH_stratExit (&st);
  NumV p (pp, pp + n); free (pp); std::vector<double> ld (k, 0); for (int v = 0; v < n; v ++) { CHECK (p[v] >= 0 && p[v] < k, "invalid part"); ld[p[v]] += g.vw (v); } double tot = (double) g.velosum (), wmax = wv ? 4 : 1;
  std::vector<double> w (k, 1); double ws = k; if (a) { ws = 0; for (int i = 0; i < k; i ++) ws += w[i] = (double) a->w[i]; }
  std::vector<int> bfs; { std::vector<char> s (n, 0); int root = nat[0]; bfs.push_back (root); s[root] = 1; for (size_t i = 0; i < bfs.size (); i ++) for (auto &e : g.adj[bfs[i]]) if (! s[e.first]) { s[e.first] = 1; bfs.push_back (e.first); } }
  NumV q; orderBlocks (g, nat, w, q); double c = cutOf (g, p, a.get ()), c0 = cutOf (g, q, a.get ()); orderBlocks (g, bfs, w, q); c0 = std::min (c0, cutOf (g, q, a.get ())); double over = -1e9, under = -1e9; bool empty = false; int wo = 0;
  for (int i = 0; i < k; i ++) { double e = tot * w[i] / ws; double o = (ld[i] - e * (1 + bal)) / wmax, u = (e * (1 - bal) - ld[i]) / wmax; if (o > over) { over = o; wo = i; } under = std::max (under, u); if (ld[i] == 0 && e >= 4 * wmax) empty = true; }
  double tol = bal <= 0.01 ? 1.5 : 2 + tot / k * bal * 0.75 / wmax; if (a) tol += 1.5; double ratio = (c + 8) / (c0 + 8);
  if (getenv ("VF_CAL")) fprintf (stderr, "CAL %s n=%d k=%d wv=%d we=%d %s over=%.4f under=%.3f tol=%.3f cut=%.4f\n", g.family, n, k, wv, we, a ? a->desc.c_str () : d.c_str (), over, under, tol, ratio);
  if (! getenv ("VF_CAL")) { CHECK (! empty, "a part is empty although its share is at least four of the heaviest vertices"); CHECK (over <= tol, "part %d of load %g exceeds its share %g by more than the tolerance %g and %g vertices", wo, ld[wo], tot * w[wo] / ws, bal, tol); CHECK (bal > 0.01 || under <= tol + 0.7, "a part falls short of its share by more than the tolerance"); CHECK (ratio <= 2.2, "cost %g is much worse than that of consecutive blocks, %g", c, c0); }
  nontrivial (); return {k, ratio};
}
PROPERTY (P02, "at least two parts and forty vertices") {
  int m = (int) irange (1, 6); double s = 0; for (int i = 0; i < m; i ++) s += oneMapping ().ratio; s /= m;
  if (getenv ("VF_CAL")) fprintf (stderr, "BATCH %d %.4f\n", m, s); static const double lim[7] = {0, 2.2, 1.7, 1.5, 1.3, 1.2, 1.13};
  if (! getenv ("VF_CAL")) CHECK (s <= lim[m], "on average over %d graphs, mappings cost %g times those of consecutive blocks", m, s);
}
