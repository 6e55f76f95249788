// O01: valid orderings.  O02: quality and gotst statistics.  O03: ordering files.
#include "arch.hpp"
#include "order.hpp"
#include "tool.hpp"

struct StratO { SCOTCH_Strat s; std::string desc; StratO () { SCOTCH_stratInit (&s); } ~StratO () { SCOTCH_stratExit (&s); } StratO (const StratO &) = delete; };
static void genStratO (StratO &st) {
  switch (weighted ({2, 2, 5})) {
    case 0: st.desc = "default"; break;
    case 1: { int f = 0; for (int b : {SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATLEVELMAX, SCOTCH_STRATLEVELMIN, SCOTCH_STRATLEAFSIMPLE, SCOTCH_STRATSEPASIMPLE, SCOTCH_STRATDISCONNECTED}) if (chance (1, 4)) f |= b; int lv = (int) irange (0, 6); double bal = pick (std::vector<double> {0.01, 0.05, 0.2, 0.5});
      int rc = SCOTCH_stratGraphOrderBuild (&st.s, f, lv, bal); st.desc = strf ("flags=0x%x lev=%d bal=%g", f, lv, bal); CHECK (rc == 0, "building an ordering strategy from %s failed: %s", st.desc.c_str (), lastErr ().c_str ()); break; }
    default: { std::string t = stratOrder ((int) draw (4)); int rc = SCOTCH_stratGraphOrder (&st.s, t.c_str ()); st.desc = "'" + t + "'"; CHECK (rc == 0, "strategy %s rejected: %s", t.c_str (), lastErr ().c_str ()); }
  }
  tag (st.desc[0] == '\'' ? "strat-string" : st.desc[0] == 'f' ? "strat-flags" : "strat-default");
}
PROPERTY (O01, "at least two column blocks") {
  GenOpt o; o.nmin = 1; o.nmax = 30; o.big = chance (1, 4) ? 700 : 200; MGraph g = genGraph (o); tag (g.family); Rep r; r.make (g); r.build (); StratO st; genStratO (st); seedLib ();
  std::vector<int> sub; bool list = chance (1, 4); if (list) { Rng rr = bulk (); int q = (int) irange (1, 4); for (int v = 0; v < g.n; v ++) if ((int) (g.n <= 30 ? draw (4) : rr.below (4)) < q) sub.push_back (v); if (sub.empty () && coin ()) sub.push_back (0); shuffleR (sub, rr); }
  bool o1 = chance (1, 6), o2 = chance (1, 6), o3 = chance (1, 6), o4 = chance (1, 8), o5 = chance (1, 8); int n = g.n;
  Num *pe = o1 ? nullptr : dupNum (NumV (n, -77)), *pi = o2 ? nullptr : dupNum (NumV (n, -77)), *ra = o4 ? nullptr : dupNum (NumV (n + 1, -77)), *tr = o5 ? nullptr : dupNum (NumV (n, -77)); Num cb = -1;
  describe ("%s base=%d strat=%s list=%zu%s", g.text ().c_str (), (int) r.base, st.desc.c_str (), sub.size (), list ? "*" : ""); clearErr ();
  SCOTCH_Ordering od; bool direct = ! list && coin (); int rc;
  if (direct) rc = SCOTCH_graphOrder (&r.graf, &st.s, pe, pi, o3 ? nullptr : &cb, ra, tr);
  else { CHECK (SCOTCH_graphOrderInit (&r.graf, &od, pe, pi, o3 ? nullptr : &cb, ra, tr) == 0, "graphOrderInit failed");
    if (list) { NumV l; for (int v : sub) l.push_back (v + r.base); Num *lp = dupNum (l); rc = SCOTCH_graphOrderComputeList (&r.graf, &od, l.size (), lp, &st.s); for (size_t i = 0; i < l.size (); i ++) CHECK (lp[i] == l[i], "list of vertices modified"); free (lp); tag ("list"); } else rc = SCOTCH_graphOrderCompute (&r.graf, &od, &st.s);
    if (rc == 0) CHECK (SCOTCH_graphOrderCheck (&r.graf, &od) == 0, "computed ordering rejected by its check: %s", lastErr ().c_str ()); SCOTCH_graphOrderExit (&r.graf, &od); }
  CHECK (rc == 0, "ordering failed: %s", lastErr ().c_str ()); r.unchanged ("ordering"); checkOrder (g, r.base, pe, pi, o3 ? -1 : cb, ra, tr, sub, strongTree (st.desc));
  nontrivial (cb >= 2); if (cb > 10) tag ("blocks>10"); free (pe); free (pi); free (ra); free (tr);
}
static std::vector<int> minDegree (const MGraph &g) {              // plain minimum degree on an explicit elimination graph
  int n = g.n; std::vector<std::set<int>> a (n); for (int u = 0; u < n; u ++) for (auto &e : g.adj[u]) a[u].insert (e.first); std::vector<char> d (n, 0); std::vector<int> pv (n);
  for (int k = 0; k < n; k ++) { int b = -1; for (int v = 0; v < n; v ++) if (! d[v] && (b < 0 || a[v].size () < a[b].size ())) b = v; d[b] = 1; pv[b] = k; std::vector<int> q (a[b].begin (), a[b].end ()); for (int x : q) { a[x].erase (b); for (int y : q) if (x != y) a[x].insert (y); } }
  return pv;
}
PROPERTY (O02, "at least 60 vertices, or six graphs of at least 150 vertices") {
  if (weighted ({1, 3}) == 0) {                                    // quality, in average over six graphs of the same family
    int fam = (int) draw (3), k = (int) draw (4); bool shuf = coin (); seedLib (); double gn = 0, go = 0, gz = 0; std::string d; static const char *nm[] = {"grid2", "grid3", "geometric"}; static const double bn[] = {1.50, 1.75, 1.80}, bo[] = {2.05, 2.35, 3.10}; tag (nm[fam]); if (shuf || fam == 2) tag ("renumbered"); nontrivial (true);
    for (int t = 0; t < 6; t ++) { MGraph g; Rng rr = bulk (); auto R = [&] (int a, int b) { return a + (int) rr.below (b - a + 1); };
      switch (fam) {
        case 0: { int w = R (13, 24), h = R (13, 24); g.resize (w * h); for (int v = 0; v < g.n; v ++) { if (v % w + 1 < w) g.addFast (v, v + 1); if (v + w < g.n) g.addFast (v, v + w); } break; }
        case 1: { int a = R (5, 8), b = R (5, 8), c = R (6, 8); g.resize (a * b * c); for (int v = 0; v < g.n; v ++) { if (v % a + 1 < a) g.addFast (v, v + 1); if (v / a % b + 1 < b) g.addFast (v, v + a); if (v + a * b < g.n) g.addFast (v, v + a * b); } break; }
        default: { int n = R (150, 400); g.resize (n); std::vector<double> x (n), y (n); for (int i = 0; i < n; i ++) { x[i] = rr.below (1000000) / 1e6; y[i] = rr.below (1000000) / 1e6; } double q = 8.0 / (3.14 * n); for (int i = 0; i < n; i ++) for (int j = 0; j < i; j ++) if ((x[i]-x[j])*(x[i]-x[j]) + (y[i]-y[j])*(y[i]-y[j]) < q) g.addFast (i, j); } }
      g.family = nm[fam]; if (shuf) { std::vector<int> p (g.n); std::iota (p.begin (), p.end (), 0); shuffleR (p, rr); MGraph h; h.resize (g.n); h.family = g.family; for (int u = 0; u < g.n; u ++) for (auto &e : g.adj[u]) if (e.first > u) h.addFast (p[u], p[e.first]); g = h; }
      Rep r; r.make (g); r.build (); StratO st; if (k) { int f = k == 1 ? SCOTCH_STRATQUALITY : k == 2 ? SCOTCH_STRATSPEED : SCOTCH_STRATSAFETY; CHECK (SCOTCH_stratGraphOrderBuild (&st.s, f, 0, 0.2) == 0, "stratGraphOrderBuild failed"); }
      Num *pe = dupNum (NumV (g.n, -77)); CHECK (SCOTCH_graphOrder (&r.graf, &st.s, pe, nullptr, nullptr, nullptr, nullptr) == 0, "ordering failed: %s", lastErr ().c_str ()); checkOrder (g, r.base, pe, nullptr, -1, nullptr, nullptr);
      std::vector<int> pv (g.n), id (g.n); for (int v = 0; v < g.n; v ++) pv[v] = pe[v] - r.base; std::iota (id.begin (), id.end (), 0); free (pe);
      Symb s = symbolic (g, pv), m = symbolic (g, minDegree (g)), z = symbolic (g, id); gn += log (s.nnz / m.nnz) / 6; go += log (s.opc / m.opc) / 6; gz += log (s.nnz / z.nnz) / 6; d += strf ("n=%d %.0f/%.0f ", g.n, s.nnz, m.nnz); }
    gn = exp (gn); go = exp (go); gz = exp (gz); describe ("quality %s strat=%d%s: %s", nm[fam], k, shuf ? " renumbered" : "", d.c_str ()); if (getenv ("VF_RATIO")) { printf ("RATIO %s %d %.3f %.3f %.3f\n", nm[fam], k, gn, go, gz); return; }
    CHECK (gn <= bn[fam] && go <= bo[fam], "default orderings have in average %.2f times the factor terms and %.2f times the operations of minimum degree", gn, go); CHECK (gz <= 0.92, "default orderings have in average %.2f times the factor terms of the natural ordering", gz); return; }
  GenOpt o; o.nmin = 1; o.nmax = 40; o.big = 150; o.vlbl = false; MGraph g = genGraph (o); if (g.n == 0) skipCase (); tag (g.family); Rep r; r.make (g, -1, 1); r.build (); Rng rr = bulk ();
  std::vector<int> pv (g.n); std::iota (pv.begin (), pv.end (), 0); if (coin ()) shuffleR (pv, rr); bool nov = g.hasVelo && chance (1, 3);
  std::string d = toolDir (), gt, ot; { OutStream s; SCOTCH_graphSave (&r.graf, s.f); gt = s.str (); } ot = strf ("%d\n", g.n); for (int v = 0; v < g.n; v ++) ot += strf ("%d\t%d\n", v + (int) r.base, pv[v] + (int) r.base);
  writeFile (d + "/g", gt); writeFile (d + "/o", ot); describe ("gotst %s base=%d order=%s%s", g.text ().c_str (), (int) r.base, ot.substr (0, 200).c_str (), nov ? " -v" : ""); std::vector<std::string> a {d + "/g", d + "/o"}; if (nov) a.push_back ("-v"); Tool t = runTool ("gotst", a);
  CHECK (t.rc == 0, "gotst failed (%d): %s", t.rc, t.err.c_str ()); Symb s = symbolic (g, pv, g.hasVelo && ! nov ? &g.velo : nullptr); int lf, hm, hx; double ha, hd, hp, nz, op;
  int k = sscanf (t.out.c_str (), "O\tLeaf=%d\nO\tHeight min=%d\tmax=%d\tavg=%lf\tdlt=%lf (%lf)\nO\tNNZ=%lf\nO\tOPC=%lf", &lf, &hm, &hx, &ha, &hd, &hp, &nz, &op); CHECK (k == 8, "unexpected gotst output: %s", t.out.c_str ());
  auto near = [] (double x, double y) { return fabs (x - y) <= 2e-6 * std::max (1.0, fabs (y)) + 1e-6; };
  CHECK (lf == s.leaves && hm == s.hmin && hx == s.hmax && near (ha, s.havg) && near (hd, s.hdlt), "gotst reports leaves %d heights %d %d %f %f, elimination tree has %d %d %d %f %f", lf, hm, hx, ha, hd, s.leaves, s.hmin, s.hmax, s.havg, s.hdlt);
  CHECK (near (nz, s.nnz) && near (op, s.opc), "gotst reports NNZ=%g OPC=%g, the factorisation has %g and %g", nz, op, s.nnz, s.opc); nontrivial (g.n >= 60); tag ("gotst");
}
static std::vector<std::pair<Num, Num>> pairsOf (const std::string &t, int n, const char *what) {
  std::vector<std::pair<Num, Num>> p; const char *c = t.c_str (); char *e; long long k = strtoll (c, &e, 10); CHECK (k == n, "%s file announces %lld lines for %d vertices", what, k, n); c = e; for (int i = 0; i < n; i ++) { long long a = strtoll (c, &e, 10); CHECK (e != c, "%s file too short", what); c = e; long long b = strtoll (c, &e, 10); CHECK (e != c, "%s file too short", what); c = e; p.push_back ({a, b}); } while (*c == '\n' || *c == ' ') c ++; CHECK (*c == 0, "%s file has trailing data '%s'", what, c); return p;
}
PROPERTY (O03, "at least two vertices") {
  GenOpt o; o.nmin = 1; o.nmax = 30; o.big = 150; MGraph g = genGraph (o); tag (g.family); Rep r; r.make (g); r.build (); seedLib (); int n = g.n; auto lb = [&] (int v) { return g.hasVlbl ? g.vlbl[v] : v + r.base; };
  Num *pe = dupNum (NumV (n, -77)), *pi = dupNum (NumV (n, -77)), *ra = dupNum (NumV (n + 1, -77)), *tr = dupNum (NumV (n, -77)), cb = -1; SCOTCH_Ordering od; clearErr ();
  CHECK (SCOTCH_graphOrderInit (&r.graf, &od, pe, pi, &cb, ra, tr) == 0, "graphOrderInit failed"); int mode = weighted ({3, 2, 2}); nontrivial (n >= 2);
  if (mode == 0) {                                                 // a computed ordering: three files
    StratO st; genStratO (st); describe ("%s base=%d strat=%s", g.text ().c_str (), (int) r.base, st.desc.c_str ()); CHECK (SCOTCH_graphOrderCompute (&r.graf, &od, &st.s) == 0, "ordering failed: %s", lastErr ().c_str ()); checkOrder (g, r.base, pe, pi, cb, ra, tr, {}, strongTree (st.desc));
    OutStream s1, s2, s3; CHECK (SCOTCH_graphOrderSave (&r.graf, &od, s1.f) == 0 && SCOTCH_graphOrderSaveMap (&r.graf, &od, s2.f) == 0 && SCOTCH_graphOrderSaveTree (&r.graf, &od, s3.f) == 0, "saving the ordering failed: %s", lastErr ().c_str ());
    auto a = pairsOf (s1.str (), n, "ordering"), b = pairsOf (s2.str (), n, "mapping"), c = pairsOf (s3.str (), n, "tree"); std::vector<int> bl (n); for (int k = 0, i = 0; k < cb; k ++) for (; i < ra[k + 1] - r.base; i ++) bl[i] = k;
    for (int v = 0; v < n; v ++) { int k = pe[v] - r.base; CHECK (a[v].first == lb (v) && b[v].first == lb (v) && c[v].first == lb (v), "line %d is about vertices %lld, %lld, %lld, expected label %lld", v, (long long) a[v].first, (long long) b[v].first, (long long) c[v].first, (long long) lb (v));
      CHECK (a[v].second == lb (k), "ordering file ranks vertex %d %lld, expected %lld", v, (long long) a[v].second, (long long) lb (k)); CHECK (b[v].second == bl[k], "mapping file puts vertex %d in block %lld, expected %d", v, (long long) b[v].second, bl[k]); CHECK (c[v].second == tr[bl[k]], "tree file gives vertex %d father %lld, expected %lld", v, (long long) c[v].second, (long long) tr[bl[k]]); }
    if (cb >= 2) tag ("blocks>1");
    if (! g.hasVlbl) { Num *p2 = dupNum (NumV (n, -77)), *i2 = coin () ? dupNum (NumV (n, -77)) : nullptr; SCOTCH_Ordering o2; CHECK (SCOTCH_graphOrderInit (&r.graf, &o2, p2, i2, nullptr, nullptr, nullptr) == 0, "graphOrderInit failed"); FILE *f = memIn (s1.str ()); int rc = SCOTCH_graphOrderLoad (&r.graf, &o2, f); fclose (f); CHECK (rc == 0, "a saved ordering is rejected: %s", lastErr ().c_str ());
      CHECK (SCOTCH_graphOrderCheck (&r.graf, &o2) == 0, "a loaded ordering fails its check"); for (int v = 0; v < n; v ++) CHECK (p2[v] == pe[v] && (! i2 || i2[v] == pi[v]), "vertex %d has rank %lld, %lld after loading", v, (long long) pe[v], (long long) p2[v]); SCOTCH_graphOrderExit (&r.graf, &o2); free (p2); free (i2); tag ("round-trip"); }
  } else if (mode == 1) {                                          // the check, on arbitrary inverse permutations
    Rng rr = bulk (); std::vector<int> iv (n); std::iota (iv.begin (), iv.end (), 0); shuffleR (iv, rr); bool good = true; for (int v = 0; v < n; v ++) pi[v] = iv[v] + r.base;
    if (n > 0 && chance (2, 3)) { int k = (int) irange (1, 2); for (int j = 0; j < k; j ++) { int v = (int) draw (n); switch (draw (3)) { case 0: pi[v] = r.base + (Num) draw (n); break; case 1: pi[v] = r.base + n + (Num) draw (3); break; default: pi[v] = r.base - 1 - (Num) draw (3); } } std::set<Num> s; for (int v = 0; v < n; v ++) { s.insert (pi[v]); if (pi[v] < r.base || pi[v] >= r.base + n) good = false; } if ((int) s.size () != n) good = false; }
    tag (good ? "valid" : "invalid"); describe ("check n=%d base=%d %s", n, (int) r.base, good ? "valid" : "invalid"); CHECK ((SCOTCH_graphOrderCheck (&r.graf, &od) == 0) == good, "graphOrderCheck %s an ordering that is %s", good ? "rejects" : "accepts", good ? "consistent" : "inconsistent");
  } else {                                                         // loading a hand-written file
    if (g.hasVlbl) { SCOTCH_graphOrderExit (&r.graf, &od); free (pe); free (pi); free (ra); free (tr); skipCase (); } Rng rr = bulk (); std::vector<int> pv (n); std::iota (pv.begin (), pv.end (), 0); shuffleR (pv, rr); std::string t = strf ("%d\n", n), sp = coin () ? "\t" : "  "; for (int v = 0; v < n; v ++) t += strf ("%d%s%d\n", v + (int) r.base, sp.c_str (), pv[v] + (int) r.base);
    describe ("load n=%d base=%d", n, (int) r.base); FILE *f = memIn (t); int rc = SCOTCH_graphOrderLoad (&r.graf, &od, f); fclose (f); CHECK (rc == 0, "a valid ordering file is rejected: %s", lastErr ().c_str ()); for (int v = 0; v < n; v ++) CHECK (pe[v] - r.base == pv[v] && pi[pv[v]] - r.base == v, "vertex %d has rank %lld after loading, file says %d", v, (long long) pe[v], pv[v]); CHECK (SCOTCH_graphOrderCheck (&r.graf, &od) == 0, "a loaded ordering fails its check"); tag ("loaded");
  }
  SCOTCH_graphOrderExit (&r.graf, &od); r.unchanged ("ordering files"); free (pe); free (pi); free (ra); free (tr);
}
