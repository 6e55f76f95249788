#include <memory>
#include "arch.hpp"
#include <queue>

std::vector<NumV> shortest (const MGraph &g) {
  std::vector<NumV> d (g.n, NumV (g.n, -1));
  for (int s = 0; s < g.n; s ++) {
    typedef std::pair<Num, int> PQ; std::priority_queue<PQ, std::vector<PQ>, std::greater<PQ>> q; q.push ({0, s});
    while (! q.empty ()) { auto [x, u] = q.top (); q.pop (); if (d[s][u] >= 0) continue; d[s][u] = x; for (auto &e : g.adj[u]) if (d[s][e.first] < 0) q.push ({x + (g.hasEdlo ? e.second : 1), e.first}); }
  }
  return d;
}
static ArchP mk (const std::string &kind, int n) { ArchP a = std::make_shared<MArch> (); a->kind = kind; a->n = n; a->w.assign (n, 1); CHECK (SCOTCH_archInit (&a->arch) == 0, "archInit failed"); a->inited = true; return a; }
ArchP archCmplt (int n) { ArchP a = mk ("cmplt", n); CHECK (SCOTCH_archCmplt (&a->arch, n) == 0, "archCmplt failed"); a->dist = [] (int i, int j) { return (Num) (i != j); }; a->desc = strf ("cmplt(%d)", n); a->name = "cmplt"; return a; }
static std::string join (const std::vector<int> &v) { std::string s; for (int x : v) s += strf (" %d", x); return s; }
static void loadText (ArchP a, const std::string &t) { FILE *f = memIn (t); int rc = SCOTCH_archLoad (&a->arch, f); fclose (f); CHECK (rc == 0, "archLoad failed on '%s'", t.c_str ()); a->desc += "[file]"; tag ("arch-from-file"); }

static ArchP genMesh (const ArchOpt &o, bool tor) {
  int dn = weighted ({4, 3, 3}) == 0 ? 2 : (coin () ? 3 : (int) irange (1, 5)); std::vector<int> dim; int n = 1;
  for (int i = 0; i < dn; i ++) { int m = std::max (1, std::min (o.nmax / n, 9)); int k = (int) irange (1, m); dim.push_back (k); n *= k; }
  ArchP a = mk (tor ? "torus" : "mesh", n); a->desc = strf ("%s(%s)", tor ? "torus" : "mesh", join (dim).c_str ()); int rc = 0; NumV dv (dim.begin (), dim.end ());
  bool x = dn != 2 && dn != 3; if (! x && chance (1, 3)) x = true;
  a->name = strf ("%s%s", tor ? "torus" : "mesh", x ? "XD" : dn == 2 ? "2D" : "3D");
  if (o.load && chance (1, 4)) loadText (a, a->name + (x ? strf (" %d", dn) : "") + join (dim) + "\n");
  else if (x) { Num *d = dupNum (dv); rc = tor ? SCOTCH_archTorusX (&a->arch, dn, d) : SCOTCH_archMeshX (&a->arch, dn, d); free (d); }
  else if (dn == 2) rc = tor ? SCOTCH_archTorus2 (&a->arch, dv[0], dv[1]) : SCOTCH_archMesh2 (&a->arch, dv[0], dv[1]);
  else rc = tor ? SCOTCH_archTorus3 (&a->arch, dv[0], dv[1], dv[2]) : SCOTCH_archMesh3 (&a->arch, dv[0], dv[1], dv[2]);
  CHECK (rc == 0, "cannot build %s", a->desc.c_str ());
  a->dist = [dim, tor] (int i, int j) { Num d = 0; for (int k : dim) { int p = i % k, q = j % k; int t = abs (p - q); if (tor) t = std::min (t, k - t); d += t; i /= k; j /= k; } return d; };
  return a;
}
static ArchP genTleaf (const ArchOpt &o) {
  int lv = (int) irange (1, 4); std::vector<int> sz, lk; int n = 1;
  for (int i = 0; i < lv; i ++) { int m = std::max (2, std::min (o.nmax / n, 6)); int k = (int) irange (2, m); sz.push_back (k); lk.push_back ((int) irange (1, 12)); n *= k; }
  bool lab = coin (); ArchP a = mk (lab ? "ltleaf" : "tleaf", n); a->name = a->kind; std::vector<int> perm {0};
  if (lab && chance (3, 4)) { int k = lv; int pn = 1; int up = (int) irange (0, lv - 1); for (k = lv - 1; k >= up; k --) pn *= sz[k]; perm.resize (pn); std::iota (perm.begin (), perm.end (), 0); shuffleC (perm); }
  std::string t = strf ("%s\n%d", a->kind.c_str (), lv); for (int i = 0; i < lv; i ++) t += strf (" %d %d", sz[i], lk[i]); t += "\n"; if (lab) t += strf ("%zu%s\n", perm.size (), join (perm).c_str ());
  a->desc = t; for (auto &c : a->desc) if (c == '\n') c = ' ';
  if (lab || (o.load && chance (1, 4))) loadText (a, t);
  else { NumV s (sz.begin (), sz.end ()), l (lk.begin (), lk.end ()); Num *sp = dupNum (s), *lp = dupNum (l); CHECK (SCOTCH_archTleaf (&a->arch, lv, sp, lp) == 0, "archTleaf failed"); free (sp); free (lp); }
  a->dist = [sz, lk, lv, perm] (int i, int j) { // perm maps tree positions to labels
    if (i == j) return (Num) 0; int pn = (int) perm.size (); std::vector<int> inv (pn); for (int k = 0; k < pn; k ++) inv[perm[k]] = k;
    i = i - i % pn + inv[i % pn]; j = j - j % pn + inv[j % pn]; Num d = 0; for (int l = lv - 1; l >= 0 && i != j; l --) { d += lk[l]; i /= sz[l]; j /= sz[l]; } return d; };
  return a;
}
static ArchP genDeco (const ArchOpt &o, bool two) {
  GenOpt g; g.nmin = 2; g.nmax = std::min (o.nmax, 24); g.vlbl = false; g.velozero = false; g.connected = true; g.velomax = 6; g.edlomax = 9; MGraph m = genGraph (g);
  std::vector<int> list; for (int v = 0; v < m.n; v ++) list.push_back (v);
  bool useList = o.depth == 0 && chance (1, 3); if (useList) { int k = (int) irange (1, m.n); shuffleC (list); list.resize (k); if (k == m.n) std::sort (list.begin (), list.end ()); }
  ArchP a = mk (two ? "deco2" : "deco", (int) list.size ()); a->name = "deco"; a->rep = std::make_shared<Rep> (); a->rep->make (m, two || o.depth ? 0 : -1); a->rep->build ();
  NumV l; for (int v : list) l.push_back (v + a->rep->base); Num *lp = useList ? dupNum (l) : nullptr; int rc; seedLib ();
  if (two) rc = SCOTCH_archBuild2 (&a->arch, &a->rep->graf, useList ? l.size () : 0, lp);
  else { SCOTCH_Strat st; SCOTCH_stratInit (&st); rc = coin () ? SCOTCH_archBuild (&a->arch, &a->rep->graf, useList ? l.size () : 0, lp, &st) : SCOTCH_archBuild0 (&a->arch, &a->rep->graf, useList ? l.size () : 0, lp, &st); SCOTCH_stratExit (&st); }
  a->desc = strf ("%s(%s list=%zu%s)", a->kind.c_str (), m.text ().c_str (), useList ? l.size () : 0, useList ? "*" : ""); free (lp);
  CHECK (rc == 0, "%s: building failed", a->desc.c_str ()); a->rep->unchanged ("archBuild");
  a->w.clear (); for (int v : list) a->w.push_back (m.vw (v));
  auto d = std::make_shared<std::vector<NumV>> (shortest (m)); a->dist = [d, list] (int i, int j) { return (*d)[list[i]][list[j]]; };
  a->exact = ! two && ! m.hasEdlo; if (! two) for (int v : list) a->tn.push_back (v + a->rep->base); return a;
}
ArchP genArch (const ArchOpt &o) {
  switch (weighted ({5, 3, 3, 4, 4, 4, o.deco ? 4 : 0, o.deco ? 3 : 0, o.sub && o.depth == 0 ? 3 : 0, 0, o.var ? 2 : 0})) {
    case 0: { int n = (int) irange (1, o.nmax); if (o.load && chance (1, 6)) { ArchP a = mk ("cmplt", n); a->dist = [] (int i, int j) { return (Num) (i != j); }; a->name = "cmplt"; a->desc = strf ("cmplt(%d)", n); loadText (a, strf ("cmplt %d\n", n)); return a; } return archCmplt (n); }
    case 1: { int n = (int) irange (1, o.nmax); ArchP a = mk ("cmpltw", n); a->name = "cmpltw"; a->desc = "cmpltw("; for (int i = 0; i < n; i ++) { a->w[i] = irange (1, 9); a->desc += strf ("%d ", (int) a->w[i]); } a->desc += ")";
      if (o.load && chance (1, 4)) { std::string t = strf ("cmpltw %d", n); for (auto x : a->w) t += strf (" %d", (int) x); loadText (a, t + "\n"); }
      else { Num *p = dupNum (a->w); CHECK (SCOTCH_archCmpltw (&a->arch, n, p) == 0, "archCmpltw failed"); free (p); }
      a->dist = [] (int i, int j) { return (Num) (i != j); }; return a; }
    case 2: { int d = 0; while ((1 << (d + 1)) <= o.nmax) d ++; d = (int) irange (0, d); ArchP a = mk ("hcub", 1 << d); a->name = "hcub"; a->desc = strf ("hcub(%d)", d); if (o.load && d > 0 && chance (1, 4)) loadText (a, strf ("hcub %d\n", d)); else CHECK (SCOTCH_archHcub (&a->arch, d) == 0, "archHcub failed"); a->dist = [] (int i, int j) { return (Num) __builtin_popcount (i ^ j); }; return a; }
    case 3: return genMesh (o, false);
    case 4: return genMesh (o, true);
    case 5: return genTleaf (o);
    case 6: return genDeco (o, false);
    case 7: return genDeco (o, true);
    case 8: { ArchOpt p = o; p.depth = 1; p.var = false; p.deco = false; ArchP b = genArch (p); std::vector<int> l; for (int i = 0; i < b->n; i ++) l.push_back (i); shuffleC (l); l.resize (irange (1, b->n));
      ArchP a = mk ("sub", (int) l.size ()); a->name = "sub"; a->sub.push_back (b); NumV lv (l.begin (), l.end ()); Num *p2 = dupNum (lv); int rc = SCOTCH_archSub (&a->arch, &b->arch, lv.size (), p2); free (p2);
      a->desc = strf ("sub(%s of %s)", join (l).c_str (), b->desc.c_str ()); CHECK (rc == 0, "archSub failed: %s", a->desc.c_str ());
      for (size_t i = 0; i < l.size (); i ++) a->w[i] = b->w[l[i]]; a->exact = b->exact; auto bd = b->dist; a->dist = [bd, l] (int i, int j) { return bd (l[i], l[j]); }; return a; }
    case 9: { // distance multiplicator, only available as a file
      int k = (int) irange (1, 5), d = (int) irange (0, 4); ArchP a = mk ("dist", 1 << d); a->name = "dist"; a->desc = strf ("dist(%d hcub %d)", k, d); loadText (a, strf ("dist %d hcub %d\n", k, d)); a->dist = [k] (int i, int j) { return (Num) (k * __builtin_popcount (i ^ j)); }; return a; }
    default: { bool h = coin (); ArchP a = mk (h ? "varhcub" : "varcmplt", 0); a->name = a->kind; a->var = true; a->desc = a->kind; CHECK ((h ? SCOTCH_archVhcub (&a->arch) : SCOTCH_archVcmplt (&a->arch)) == 0, "variable-sized architecture failed"); a->dist = [] (int, int) { return (Num) 1; }; a->exact = false; return a; }
  }
}

// --- strategies ---------------------------------------------------------------------------------
static std::string I (const char *n, std::vector<int> v) { return strf ("%s=%d", n, pick (v)); }
static std::string D (const char *n, std::vector<const char *> v) { return strf ("%s=%s", n, pick (v)); }
static std::string C (const char *n, const char *v) { return strf ("%s=%c", n, v[draw (strlen (v))]); }
static std::string par (std::vector<std::string> p) { // keep a random subset, in random order
  std::vector<std::string> k; for (auto &x : p) if (! x.empty ()) k.push_back (x);
  if (k.size () > 1) shuffleC (k); if (k.empty ()) return ""; std::string s = "{"; for (size_t i = 0; i < k.size (); i ++) s += (i ? "," : "") + k[i]; return s + "}"; }
static std::string opt (const std::string &s) { return coin () ? s : std::string (); }
static std::string cond (std::vector<const char *> vars, std::vector<const char *> dvars, int depth) {
  if (depth > 0 && chance (1, 3)) { switch (draw (3)) { case 0: return "(" + cond (vars, dvars, depth - 1) + ")&(" + cond (vars, dvars, depth - 1) + ")"; case 1: return "(" + cond (vars, dvars, depth - 1) + ")|(" + cond (vars, dvars, depth - 1) + ")"; default: return "!(" + cond (vars, dvars, depth - 1) + ")"; } }
  const char *op = pick (std::vector<const char *> {"<", ">", "="});
  if (! dvars.empty () && chance (1, 4)) return strf ("(%s%s%s)", pick (dvars), pick (std::vector<const char *> {"<", ">"}), pick (std::vector<const char *> {"0.01", "0.5", "2.5"}));
  std::string rhs = pick (std::vector<const char *> {"0", "1", "10", "40", "100"}); if (chance (1, 4)) rhs = strf ("(%s%s%s)", pick (vars), pick (std::vector<const char *> {"+", "-", "*"}), pick (std::vector<const char *> {"1", "2", "7"}));
  if (chance (1, 6)) rhs = strf ("(%s%%7)", pick (vars));
  return strf ("(%s%s%s)", pick (vars), op, rhs.c_str ()); }
static std::string comb (std::function<std::string ()> f, std::function<std::string ()> g, std::function<std::string ()> c, int depth, bool sel = true) { // f: must compute; g: may refine
  switch (weighted ({6, depth > 0 ? 3 : 0, depth > 0 && sel ? 2 : 0, depth > 0 ? 2 : 0, depth > 0 ? 1 : 0})) {
    case 0: return f ();
    case 1: return f () + g ();
    case 2: { std::string a = f (); return "(" + a + "|" + f () + ")"; }
    case 3: { std::string k = c (), a = f (); return "/" + k + "?" + a + ":" + f () + ";"; }
    default: { std::string k = c (), a = f (); return a + "(/" + k + "?" + g () + ";)"; }
  } }
static std::vector<const char *> s_bals = {"0.05", "0.01", "0.2", "0", "0.5"};
std::string stratBipart (int depth, bool first) {
  auto c = [] { return cond ({"vert", "edge", "levl", "load", "load0", "lmin0", "lmax0"}, {"bal"}, 1); };
  auto ref = [depth] () -> std::string { switch (weighted ({4, 1, depth > 0 ? 2 : 0})) {
    case 0: return "f" + par ({opt (I ("move", {80, 1, 10, 200})), opt (I ("pass", {-1, 1, 3})), opt (D ("bal", s_bals)), opt (C ("type", "ba"))});
    case 1: return "x";
    default: return "b" + par ({"bnd=" + std::string (coin () ? "f" : (coin () ? "d{pass=10}" : "(d{pass=5,type=k}f)")), "org=" + std::string ("f"), opt (I ("width", {3, 1, 2, 6}))}); } };
  auto f = [depth] () -> std::string { switch (weighted ({3, 3, 1, depth > 0 ? 4 : 0})) {
    case 0: return "h" + par ({opt (I ("pass", {5, 1, 10}))});
    case 1: return "g" + par ({opt (I ("pass", {5, 1, 10}))});
    case 2: return "z" + std::string (coin () ? "x" : "f");
    default: return "m" + par ({"asc=" + stratBipart (depth - 2 < 0 ? 0 : depth - 2, false), "low=" + stratBipart (depth - 1), opt (I ("vert", {20, 5, 100})), opt (D ("rat", {"0.8", "0.7", "0.95"}))}); } };
  if (! first) { std::string s = ref (); if (depth > 0 && coin ()) s += ref (); return s; }
  return comb (f, ref, c, depth);
}
std::string stratMap (int depth, bool remap) {
  auto c = [] { return cond ({"vert", "edge", "levl", "load"}, {}, 1); };
  auto ref = [] () -> std::string { switch (weighted ({4, 1, 2})) {
    case 0: return "f" + par ({opt (I ("move", {80, 1, 10, 200})), opt (I ("pass", {-1, 1, 3})), opt (D ("bal", s_bals))});
    case 1: return "x" + par ({opt (D ("bal", s_bals))});
    default: return "b" + par ({"bnd=" + std::string (coin () ? "f" : (coin () ? "d{pass=10}" : "d{pass=5,dif=0.9,rem=0.1}f")), "org=f", opt (I ("width", {3, 1, 2, 6}))}); } };
  auto f = [depth, ref] () -> std::string { switch (weighted ({4, depth > 0 ? 4 : 0})) {
    case 0: return "r" + par ({opt (C ("job", "tu")), opt (C ("map", "tu")), opt (C ("poli", "rlsLS")), opt (D ("bal", s_bals)), "sep=" + stratBipart (depth)});
    default: return "m" + par ({"asc=" + ref (), "low=" + stratMap (depth - 1), opt (I ("vert", {20, 5, 100})), opt (D ("rat", {"0.8", "0.7", "0.95"})), opt (C ("type", "hscd"))}); } };
  return comb (f, ref, c, depth);
}
std::string stratSep (int depth, bool first) {
  auto c = [] { return cond ({"vert", "edge", "levl", "load"}, {}, 1); };
  auto ref = [depth] () -> std::string { switch (weighted ({4, depth > 0 ? 2 : 0})) {
    case 0: return "f" + par ({opt (I ("move", {80, 1, 10, 200})), opt (I ("pass", {4, 1, 3, 20})), opt (D ("bal", s_bals))});
    default: return "b" + par ({"bnd=f", "org=f", opt (I ("width", {3, 1, 2, 6}))}); } };
  auto f = [depth] () -> std::string { switch (weighted ({3, 3, 2, 1, depth > 0 ? 4 : 0, 1})) {
    case 0: return "h" + par ({opt (I ("pass", {5, 1, 10}))});
    case 1: return "g" + par ({opt (I ("pass", {5, 1, 10}))});
    case 2: return "e" + par ({"strat=" + stratBipart (depth), opt (C ("type", "tf"))});
    case 3: return "z";
    case 4: return "m" + par ({"asc=" + stratSep (depth - 2 < 0 ? 0 : depth - 2, false), "low=" + stratSep (depth - 1), opt (I ("vert", {20, 5, 100})), opt (D ("rat", {"0.8", "0.7", "0.95"})), opt (C ("type", "hs"))});
    default: return "h"; } };
  if (! first) { std::string s = ref (); if (depth > 0 && coin ()) s += ref (); return s; }
  return comb (f, ref, c, depth);
}
std::string stratOrder (int depth) {
  auto c = [] { return cond ({"vert", "edge", "levl", "load"}, {"mdeg"}, 1); };
  std::function<std::string ()> f = [depth] () -> std::string { switch (weighted ({2, 2, 2, 2, depth > 0 ? 6 : 0, depth > 0 ? 2 : 0, depth > 0 ? 2 : 0, depth > 0 ? 2 : 0, depth > 0 ? 1 : 0})) {
    case 0: return "s";
    case 1: return "g" + par ({opt (I ("pass", {3, 1, 8}))});
    case 2: return "d" + par ({opt (I ("cmin", {0, 1, 5, 15})), opt (I ("cmax", {100000, 10, 50})), opt (D ("frat", {"0.08", "0.0", "0.5"}))});
    case 3: return "f" + par ({opt (I ("cmin", {0, 1, 5, 15})), opt (I ("cmax", {100000, 10, 50})), opt (D ("frat", {"0.08", "0.0", "0.5"}))});
    case 4: return "n" + par ({"sep=" + stratSep (depth), "ole=" + stratOrder (depth - 1), "ose=" + stratOrder (depth - 1)});
    case 5: return "b" + par ({"strat=" + stratOrder (depth - 1), opt (I ("cmin", {8, 1, 3, 20}))});
    case 6: return "c" + par ({opt (D ("rat", {"0.7", "1.0", "0.2"})), "cpr=" + stratOrder (depth - 1), "unc=" + stratOrder (depth - 1)});
    case 7: return "o" + par ({"strat=" + stratOrder (depth - 1)});
    default: return "k" + par ({opt (I ("siz", {1, 2, 4, 7})), "strat=" + stratMap (0)}); } };
  if (depth > 0 && chance (1, 4)) { std::string k = c (), a = f (); return "/" + k + "?" + a + ":" + f () + ";"; }
  return f ();
}
std::string stratOvl (int depth) {
  auto c = [] { return cond ({"vert", "edge", "part"}, {}, 1); };
  auto ref = [] { return "f" + par ({opt (I ("move", {80, 1, 10, 200})), opt (I ("pass", {-1, 1, 3})), opt (D ("bal", s_bals))}); };
  auto f = [depth, ref] () -> std::string { switch (weighted ({3, 1, 2, depth > 0 ? 3 : 0})) {
    case 0: return "r" + par ({"sep=" + stratSep (depth)});
    case 1: return "z";
    case 2: return "e" + par ({"strat=" + stratMap (0)});
    default: return "m" + par ({"asc=" + ref (), "low=" + stratOvl (depth - 1), opt (I ("vert", {20, 5, 100})), opt (D ("rat", {"0.8", "0.7", "0.95"}))}); } };
  return comb (f, ref, c, depth);
}

// --- parallel strategies ------------------------------------------------------------------------
// only conditions that have the same value on every process are generated
static std::string dref (int depth, bool band) { // refinements of an existing parallel bipartition
  switch (weighted ({3, 4, depth > 0 && ! band ? 4 : 0, band ? 3 : 0, 1})) {
    case 0: return "x" + par ({opt (I ("sbbt", {5, 1, 3})), opt (D ("bal", s_bals))});
    case 1: return "q" + par ({"strat=" + stratBipart (0, false)});
    case 2: return "b" + par ({"bnd=" + dref (0, true), "org=" + dref (0, false), opt (I ("width", {3, 1, 2, 6}))});
    case 3: return "d" + par ({opt (I ("pass", {10, 1, 40})), opt (D ("dif", {"0.99", "0.5"})), opt (D ("rem", {"0.01", "0.5"}))});
    default: return "/" + cond ({"vert", "edge", "levl", "load", "load0", "proc"}, {}, 0) + "?" + dref (0, band) + ";"; } }
std::string stratDbipart (int depth) {
  auto c = [] { return cond ({"vert", "edge", "levl", "load", "load0", "proc"}, {}, 1); };
  auto ref = [depth] { return dref (depth, false); };
  auto f = [depth] () -> std::string { switch (weighted ({4, 1, depth > 0 ? 6 : 0})) {
    case 0: return "q" + par ({"strat=" + stratBipart (depth > 0 ? 1 : 0)});
    case 1: return "z" + std::string (coin () ? "x" : "");
    default: { std::string q = stratBipart (1); return "m" + par ({"asc=" + dref (1, false), "low=" + stratDbipart (depth - 1), coin () ? "seq=q{strat=" + q + "}" : std::string (), opt (I ("vert", {20, 5, 100, 1})), opt (I ("dvert", {1, 5, 20, 100})), opt (C ("fold", "nfd")), opt (D ("rat", {"0.8", "0.7", "0.95"}))}); } } };
  return comb (f, ref, c, depth);
}
std::string stratDmap (int depth) { std::string s = stratDbipart (depth), m = stratMap (depth > 0 ? 1 : 0); return "r" + par ({"sep=" + s, coin () ? "seq=" + m : std::string (), opt (D ("bal", s_bals))}); }
static std::string dsref (int depth, bool band) { // refinements of an existing parallel separation
  switch (weighted ({4, depth > 0 && ! band ? 4 : 0, band ? 3 : 0, 1})) {
    case 0: return "q" + par ({"strat=" + stratSep (0, false)});
    case 1: return "b" + par ({"strat=" + dsref (0, true), opt (I ("width", {3, 1, 2, 6}))});
    case 2: return "d" + par ({opt (I ("pass", {10, 1, 40})), opt (D ("dif", {"0.99", "0.5"})), opt (D ("rem", {"0.01", "0.5"}))});
    default: return "/" + cond ({"vert", "edge", "levl", "load", "proc"}, {}, 0) + "?" + dsref (0, band) + ";"; } }
std::string stratDsep (int depth) {
  auto c = [] { return cond ({"vert", "edge", "levl", "load", "proc"}, {}, 1); };
  auto ref = [depth] { return dsref (depth, false); };
  auto f = [depth] () -> std::string { switch (weighted ({4, 1, depth > 0 ? 6 : 0})) {
    case 0: return "q" + par ({"strat=" + stratSep (depth > 0 ? 1 : 0)});
    case 1: return "z";
    default: { std::string q = stratSep (1); return "m" + par ({"asc=" + dsref (1, false), "low=" + stratDsep (depth - 1), coin () ? "seq=q{strat=" + q + "}" : std::string (), opt (I ("vert", {20, 5, 100, 1})), opt (I ("dvert", {1, 5, 20, 100})), opt (C ("fold", "nfd")), opt (D ("rat", {"0.8", "0.7", "0.95"}))}); } } };
  return comb (f, ref, c, depth);
}
std::string stratDorder (int depth) {
  auto c = [] { return cond ({"vert", "edge", "levl", "load", "proc"}, {"mdeg"}, 1); };
  std::function<std::string ()> f = [depth] () -> std::string { switch (weighted ({2, 2, depth > 0 ? 6 : 0})) {
    case 0: return "s";
    case 1: return "q" + par ({"strat=" + stratOrder (depth > 0 ? 1 : 0)});
    default: { std::string q = stratOrder (1); return "n" + par ({"sep=" + stratDsep (depth), "ole=" + stratDorder (depth - 1), "ose=" + stratDorder (depth - 1), coin () ? "osq=" + q : std::string ()}); } } };
  if (depth > 0 && chance (1, 4)) { std::string k = c (), a = f (); return "/" + k + "?" + a + ":" + f () + ";"; }
  return f ();
}
