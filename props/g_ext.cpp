// G08: foreign graph and mesh formats (Chaco, MatrixMarket, Harwell-Boeing) and Scotch geometry files.
#include "mesh.hpp"
#include <sstream>

static MGraph relab (const MGraph &g, const std::vector<int> &p) {     // vertex v of g becomes p[v]
  MGraph h; h.resize (g.n); h.family = g.family; h.hasVelo = g.hasVelo; h.hasEdlo = g.hasEdlo; h.velo.resize (g.velo.size ());
  for (int v = 0; v < g.n; v ++) { if (g.hasVelo) h.velo[p[v]] = g.velo[v]; for (auto &e : g.adj[v]) h.adj[p[v]].push_back ({p[e.first], e.second}); } return h;
}
static MGraph permLabelled (bool loads) {      // labels, if any, are a permutation: what these formats can encode
  GenOpt o; o.big = 200; o.vlbl = false; o.velozero = false; o.velo = o.edlo = loads; MGraph g = genGraph (o); return g;
}
static void addLabels (MGraph &g) { if (chance (1, 3)) { g.hasVlbl = true; g.vlbl.resize (g.n); std::iota (g.vlbl.begin (), g.vlbl.end (), 0); Rng r = bulk (); shuffleR (g.vlbl, r); tag ("labels"); } }
typedef int (*LoadFn) (SCOTCH_Graph *, SCOTCH_Geom *, FILE *, FILE *, const char *);
static MGraph loadText (const char *what, LoadFn fn, const std::string &t, const char *data, Num *b) {
  SCOTCH_Graph h; SCOTCH_graphInit (&h); SCOTCH_Geom ge; SCOTCH_geomInit (&ge); FILE *f = memIn (t);
  CHECK (fn (&h, &ge, f, nullptr, data) == 0, "%s: loading a valid file failed: %s", what, t.substr (0, 500).c_str ()); fclose (f);
  MGraph r = extract (&h, b); CHECK (SCOTCH_graphCheck (&h) == 0, "%s: loaded graph is inconsistent", what);
  Num vs, es; SCOTCH_graphStat (&h, 0, 0, &vs, 0, 0, 0, 0, 0, 0, 0, 0, &es, 0, 0); CHECK (vs == r.velosum (), "%s: vertex load sum %lld", what, (long long) vs);
  SCOTCH_geomExit (&ge); SCOTCH_graphExit (&h); return r;
}
static void cmp (const char *what, const MGraph &exp, const MGraph &got, bool lbl) { std::string d = diffGraph (exp, got, true, true, lbl); CHECK (d.empty (), "%s: %s", what, d.c_str ()); }

// --- Chaco -------------------------------------------------------------------------------------
static MGraph parseChaco (const std::string &t) {
  std::istringstream is (t); std::string l; CHECK ((bool) std::getline (is, l), "chaco: no header"); long n, m, fl = 0; std::istringstream h (l); CHECK ((bool) (h >> n >> m), "chaco: header"); h >> fl;
  MGraph g; g.resize ((int) n); g.hasVlbl = fl / 100 % 10; g.hasVelo = fl / 10 % 10; g.hasEdlo = fl % 10; long arcs = 0; std::vector<std::vector<std::pair<long,long>>> raw (n); std::map<long,int> ix;
  for (long v = 0; v < n; v ++) { do CHECK ((bool) std::getline (is, l), "chaco: line of vertex %ld missing", v); while (! l.empty () && l[0] == '%'); std::istringstream s (l); long x; if (g.hasVlbl) { CHECK ((bool) (s >> x), "chaco: label"); g.vlbl.push_back ((Num) x); ix[x] = (int) v; } else ix[v + 1] = (int) v; if (g.hasVelo) { CHECK ((bool) (s >> x), "chaco: load"); g.velo.push_back ((Num) x); }
    while (s >> x) { long w = 1; if (g.hasEdlo) CHECK ((bool) (s >> w), "chaco: edge load"); raw[v].push_back ({x, w}); arcs ++; } }
  CHECK (arcs == 2 * m, "chaco: header says %ld edges, %ld arcs found", m, arcs); CHECK (! std::getline (is, l), "chaco: trailing data");
  for (long v = 0; v < n; v ++) for (auto &x : raw[v]) { CHECK (ix.count (x.first), "chaco: unknown end %ld", x.first); g.adj[v].push_back ({ix[x.first], (Num) x.second}); } return g;
}
static void chaco () {
  MGraph g = permLabelled (true); addLabels (g); describe ("chaco %s", g.text ().c_str ()); tag ("chaco"); nontrivial (g.n >= 2 && g.arcs () > 0); std::string t; MGraph exp = g;
  if (coin ()) { Num base = (Num) pick (std::vector<int> {0, 1, 1, 2, 5}); MGraph g2 = g; for (auto &x : g2.vlbl) x += base; Rep r; r.make (g2, (int) base); r.build (); OutStream os; SCOTCH_Geom ge; SCOTCH_geomInit (&ge);
    CHECK (SCOTCH_graphGeomSaveChac (&r.graf, &ge, os.f, nullptr, nullptr) == 0, "graphGeomSaveChac failed"); SCOTCH_geomExit (&ge); r.unchanged ("graphGeomSaveChac"); t = os.str (); tag ("save"); for (auto &x : exp.vlbl) x ++; cmp ("saved Chaco file differs from the graph", exp, parseChaco (t), true); }
  else { Rng r = bulk (); for (auto &x : exp.vlbl) x ++; auto sp = [&] { static const char *w[] = {" ", "\t", "  ", " \t "}; return std::string (w[r.below (4)]); }; auto cm = [&] { std::string s; while (r.below (5) == 0) s += "% comment 12 3\n"; return s; };
    std::string fl = strf ("%d%d%d", g.hasVlbl, g.hasVelo, g.hasEdlo); if (r.below (2)) { while (fl.size () > 1 && fl[0] == '0') fl = fl.substr (1); if (fl == "0" && r.below (2)) fl = ""; } bool cr = r.below (4) == 0; std::string nl = cr ? "\r\n" : "\n";
    t = cm () + strf ("%d", g.n) + sp () + strf ("%d", g.arcs () / 2) + (fl.empty () ? "" : sp () + fl) + nl;
    for (int v = 0; v < g.n; v ++) { t += cm (); std::string l; if (r.below (3) == 0) l += " "; if (g.hasVlbl) l += strf ("%d", (int) exp.vlbl[v]) + sp (); if (g.hasVelo) l += strf ("%d", (int) g.velo[v]) + sp (); for (auto &e : g.adj[v]) { l += strf ("%d", (int) (g.hasVlbl ? exp.vlbl[e.first] : e.first + 1)) + sp (); if (g.hasEdlo) l += strf ("%d", (int) e.second) + sp (); } if (r.below (2)) while (! l.empty () && (l.back () == ' ' || l.back () == '\t')) l.pop_back (); t += l + ((v == g.n - 1 && r.below (3) == 0 && ! l.empty ()) ? "" : nl); } tag ("text"); }
  Num b; MGraph got = loadText ("Chaco", SCOTCH_graphGeomLoadChac, t, nullptr, &b); CHECK (b == 1, "Chaco graph loaded with base %lld", (long long) b); cmp ("loaded Chaco graph differs", exp, got, true);
}
// --- MatrixMarket --------------------------------------------------------------------------------
static void mmkt () {
  bool sv = coin (); MGraph g = permLabelled (sv); if (sv) addLabels (g); describe ("mmkt %s", g.text ().c_str ()); tag ("mmkt"); nontrivial (g.n >= 2 && g.arcs () > 0); std::string t; MGraph exp; std::string data = "1"; Num base = 1; bool nul = false;
  if (sv) { Num gb = (Num) pick (std::vector<int> {0, 1, 1, 2, 5}); MGraph g2 = g; for (auto &x : g2.vlbl) x += gb; std::vector<int> p (g.n); for (int v = 0; v < g.n; v ++) p[v] = g.hasVlbl ? (int) g.vlbl[v] : v; exp = relab (g, p);
    Rep r; r.make (g2, (int) gb); r.build (); OutStream os; SCOTCH_Geom ge; SCOTCH_geomInit (&ge); CHECK (SCOTCH_graphGeomSaveMmkt (&r.graf, &ge, os.f, nullptr, nullptr) == 0, "graphGeomSaveMmkt failed"); SCOTCH_geomExit (&ge); r.unchanged ("graphGeomSaveMmkt"); t = os.str (); tag ("save");
    std::istringstream is (t); std::string l; CHECK ((bool) std::getline (is, l) && l == "%%MatrixMarket matrix coordinate pattern symmetric", "MatrixMarket header: %s", l.c_str ()); do CHECK ((bool) std::getline (is, l), "MatrixMarket: no size line"); while (l[0] == '%'); long a, c, k; CHECK (sscanf (l.c_str (), "%ld %ld %ld", &a, &c, &k) == 3 && a == g.n && c == g.n, "MatrixMarket size line: %s", l.c_str ());
    std::set<std::pair<long,long>> s; long x, y, cnt = 0; while (is >> x >> y) { cnt ++; CHECK (x >= y && y >= 1 && x <= g.n, "MatrixMarket entry %ld %ld", x, y); CHECK (s.insert ({x, y}).second, "MatrixMarket: duplicate entry %ld %ld", x, y); } CHECK (cnt == k, "MatrixMarket: %ld entries announced, %ld found", k, cnt);
    MGraph q; q.resize (g.n); for (auto &e : s) if (e.first != e.second) q.addFast ((int) e.first - 1, (int) e.second - 1); MGraph pat = exp; pat.hasVelo = pat.hasEdlo = false; for (auto &ad : pat.adj) for (auto &e : ad) e.second = 1; cmp ("saved MatrixMarket file differs from the graph", pat, q, false); nul = coin (); }
  else { Rng r = bulk (); exp = g; base = (Num) pick (std::vector<int> {1, 1, 0, 2}); data = strf ("%d", (int) base); nul = base == 1 && coin (); int ty = (int) draw (3); static const char *tn[] = {"pattern", "real", "integer"}; bool sym = coin (); int n = 0; std::string b; std::vector<std::string> ls;
    auto line = [&] (int u, int v) { static const char *ws[] = {" ", "\t", "   "}; std::string s = strf ("%s%d%s%d", r.below (4) ? "" : " ", (int) (u + base), ws[r.below (3)], (int) (v + base)); if (ty == 1) s += strf (" %d.%de-%d", (int) r.below (9), (int) r.below (99), (int) r.below (5)); if (ty == 2) s += strf (" %d", (int) r.range (-9, 9)); ls.push_back (s + (r.below (6) ? "\n" : " \n")); n ++; };
    for (int u = 0; u < g.n; u ++) { if (r.below (2)) line (u, u); for (auto &e : g.adj[u]) if (e.first < u) { if (sym) line (u, e.first); else { int k = (int) r.below (3); if (k != 1) line (u, e.first); if (k != 0) line (e.first, u); if (r.below (10) == 0) line (u, e.first); } } } shuffleR (ls, r); for (auto &x : ls) b += x;
    t = strf ("%%%%MatrixMarket %s coordinate %s %s\n", r.below (3) ? "matrix" : "Matrix", tn[ty], sym ? "symmetric" : "general"); while (r.below (2)) t += "% 3 4 comment\n"; t += strf ("%d %d %d\n", g.n, g.n, n) + b; tag ("text"); tag (strf ("mmktbase%d", (int) base)); }
  exp.hasVelo = exp.hasEdlo = false; for (auto &a : exp.adj) for (auto &e : a) e.second = 1;
  Num b; MGraph got = loadText ("MatrixMarket", SCOTCH_graphGeomLoadMmkt, t, nul ? nullptr : data.c_str (), &b); CHECK (b == base, "MatrixMarket graph loaded with base %lld", (long long) b); cmp ("loaded MatrixMarket graph differs", exp, got, false);
}
// --- Harwell-Boeing -------------------------------------------------------------------------------
struct HbFmt { int per, w, skip; std::string s; };
static HbFmt hbFmt (int maxval, bool skipok, Rng &r) { HbFmt f; int d = (int) strf ("%d", maxval).size (); f.w = d + (int) r.below (5) + (r.below (3) ? 1 : 0); f.per = (int) r.range (1, std::max (1, 80 / f.w - 1)); f.skip = skipok && r.below (5) == 0 ? (int) r.range (1, 3) : 0; f.s = f.skip ? strf ("(%dX,%d%c%d)", f.skip, f.per, r.below (4) ? 'I' : 'i', f.w) : strf ("(%d%c%d)", f.per, r.below (4) ? 'I' : 'i', f.w); return f; }
static std::string hbNums (const std::vector<int> &v, const HbFmt &f, int &lines, bool trail, Rng &r) { std::string s; lines = 0; for (size_t i = 0; i < v.size (); i += f.per) { s += std::string (f.skip, ' '); for (size_t j = i; j < v.size () && j < i + f.per; j ++) s += strf ("%*d", f.w, v[j]); if (trail && r.below (6) == 0) s += "  "; s += "\n"; lines ++; } return s; }
static std::string hbFile (const std::string &type, int nrow, int ncol, const std::vector<int> &ptr, const std::vector<int> &ind, bool mesh, Rng &r) {
  int mx = 1; for (int x : ptr) mx = std::max (mx, x); int mi = 1; for (int x : ind) mi = std::max (mi, x); HbFmt a = hbFmt (mx, ! mesh, r), b = hbFmt (mi, ! mesh, r); int la, lb, lv = 0, lr = 0; std::string d = hbNums (ptr, a, la, ! mesh, r); d += hbNums (ind, b, lb, ! mesh, r);
  if (type[0] != 'P' && r.below (2)) { lv = (int) ((ind.size () + 3) / 4); for (int i = 0; i < lv; i ++) d += " 1.0000E+00 2.0000E+00 3.0000E+00 4.0000E+00\n"; if (r.below (2)) { lr = 1 + (int) r.below (3); for (int i = 0; i < lr; i ++) d += " 5.0000E+00\n"; } }
  std::string h = strf ("%-72s%-8s\n", "Generated matrix title (16I5)", "KEY"); h += strf ("%14d%14d%14d%14d", la + lb + lv + lr, la, lb, lv) + ((lr || r.below (2)) ? strf ("%14d", lr) : "") + "\n"; std::string ty = type; if (r.below (3) == 0) for (auto &c : ty) c = (char) tolower (c);
  h += strf ("%-14s%14d%14d%14d%14d\n", ty.c_str (), nrow, ncol, (int) ind.size (), 0); h += strf ("%-16s%-16s%-20s%-20s\n", a.s.c_str (), b.s.c_str (), lv ? "(4E11.4)" : "", lr ? "(1E11.4)" : ""); if (lr) h += "F              1             0\n"; return h + d;
}
static std::pair<std::string,MGraph> habo1 (Rng &r) {
  MGraph g = permLabelled (false); if (g.n == 0) g.resize (1); bool sym = r.below (2); std::vector<int> ptr, ind; static const char *v = "RPC"; std::string ty (1, v[r.below (3)]); ty += sym ? "SZH"[r.below (3)] : 'U'; ty += 'A';
  for (int u = 0; u < g.n; u ++) { ptr.push_back ((int) ind.size () + 1); std::vector<int> c; if (r.below (2)) c.push_back (u + 1); for (auto &e : g.adj[u]) { if (sym ? e.first > u : true) c.push_back (e.first + 1); } if (! sym) { std::vector<int> k; for (int x : c) if (x == u + 1 || ((x * 7 + u * 7 + 7) % 3) != (x > u + 1 ? 1 : 2)) k.push_back (x); c = k; } std::sort (c.begin (), c.end ()); for (int x : c) ind.push_back (x); } ptr.push_back ((int) ind.size () + 1);
  MGraph q; q.resize (g.n); q.family = g.family; for (int u = 0; u < g.n; u ++) for (int e = ptr[u] - 1; e < ptr[u + 1] - 1; e ++) q.add (u, ind[e] - 1); return {hbFile (ty, g.n, g.n, ptr, ind, false, r), q};
}
static void habo () {
  Rng r = bulk (); int k = 1 + (int) weighted ({4, 2, 1}); std::string t; std::vector<MGraph> gs; for (int i = 0; i < k; i ++) { auto p = habo1 (r); t += p.first; gs.push_back (p.second); } int w = (int) draw (k); describe ("habo %d of %d %s", w, k, gs[w].text ().c_str ()); tag ("habo"); tag (strf ("hbrank%d", w)); nontrivial (gs[w].n >= 2 && gs[w].arcs () > 0);
  std::string data = strf ("%d", w); Num b; MGraph got = loadText ("Harwell-Boeing", SCOTCH_graphGeomLoadHabo, t, w == 0 && coin () ? nullptr : data.c_str (), &b); CHECK (b == 1, "Harwell-Boeing graph loaded with base %lld", (long long) b); cmp ("loaded Harwell-Boeing graph differs", gs[w], got, false);
}
static void meshHabo () {
  Rng r = bulk (); int k = 1 + (int) weighted ({4, 1, 1}); std::string t; std::vector<MMesh> ms; static const char *v = "RPC";
  for (int i = 0; i < k; i ++) { MeshOpt o; o.big = 120; o.loads = o.lbl = false; o.iso = false; MMesh m = genMesh (o); std::vector<int> ptr, ind; for (auto &x : m.el) { ptr.push_back ((int) ind.size () + 1); for (int n : x) ind.push_back (n + 1); } ptr.push_back ((int) ind.size () + 1); std::string ty (1, v[r.below (3)]); ty += "SU"[r.below (2)]; ty += 'E'; t += hbFile (ty, m.nn, m.ne, ptr, ind, true, r); ms.push_back (m); }
  int w = (int) draw (k); MMesh &m = ms[w]; describe ("meshhabo %d of %d %s", w, k, m.text ().c_str ()); tag ("meshhabo"); nontrivial (m.ne > 1 && m.nn > 1);
  SCOTCH_Mesh s; SCOTCH_meshInit (&s); SCOTCH_Geom ge; SCOTCH_geomInit (&ge); FILE *f = memIn (t); CHECK (SCOTCH_meshGeomLoadHabo (&s, &ge, f, nullptr, w == 0 && coin () ? "" : strf ("%d", w).c_str ()) == 0, "Harwell-Boeing mesh: loading a valid file failed"); fclose (f); Num b; MMesh got = extractMesh (&s, &b); CHECK (b == 1, "mesh base %lld", (long long) b); std::string d = diffMesh (m, got); CHECK (d.empty (), "loaded Harwell-Boeing mesh differs: %s", d.c_str ());
  CHECK (SCOTCH_meshCheck (&s) == 0, "loaded mesh is inconsistent"); Num nl = 0; SCOTCH_meshStat (&s, 0, 0, &nl, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); CHECK (nl == m.nn, "node load sum %lld, expected %d", (long long) nl, m.nn); SCOTCH_geomExit (&ge); SCOTCH_meshExit (&s);
}
// --- Scotch geometry -------------------------------------------------------------------------------
struct Geo { Num dim; std::map<long, std::vector<double>> at; std::string text; std::vector<long> order; };
static std::string geoText (const Geo &g, Rng &r) { std::string s = strf ("%d\n%zu\n", (int) g.dim, g.order.size ()); for (long l : g.order) { s += strf ("%ld", l); for (double x : g.at.at (l)) s += strf (r.below (2) ? "\t%f" : "\t%.10e", x); s += "\n"; } return s; }
static Geo genGeo (const NumV &lbl, Rng &r, bool extra) { Geo g; g.dim = (Num) irange (1, 3); auto put = [&] (long l) { std::vector<double> c; for (int i = 0; i < g.dim; i ++) c.push_back ((double) r.range (-2000000, 2000000) / 1024.0 / 4.0); for (auto &x : c) x = std::round (x * 64) / 64; g.at[l] = c; g.order.push_back (l); };
  for (Num l : lbl) put (l); if (extra) for (int k = (int) r.range (1, 6); k > 0; k --) { long l = r.range (0, 2 * (long) lbl.size () + 20); if (! g.at.count (l)) put (l); } if (r.below (2)) shuffleR (g.order, r); return g; }
static void cmpGeo (SCOTCH_Geom *ge, const Geo &g, const NumV &lbl, const char *w) { Num d; double *t; SCOTCH_geomData (ge, &d, &t); if (lbl.empty ()) return; CHECK (d == g.dim, "%s: %lld dimensions, expected %lld", w, (long long) d, (long long) g.dim); CHECK (t != nullptr, "%s: no coordinates", w); for (size_t i = 0; i < lbl.size (); i ++) for (int k = 0; k < g.dim; k ++) CHECK (std::fabs (t[i * g.dim + k] - g.at.at (lbl[i])[k]) < 1e-5, "%s: coordinate %d of vertex %zu (label %lld) is %g, expected %g", w, k, i, (long long) lbl[i], t[i * g.dim + k], g.at.at (lbl[i])[k]); }
static void cmpGeoText (const std::string &t, const Geo &g, const NumV &lbl) { std::istringstream is (t); long d, n; CHECK ((bool) (is >> d >> n) && d == g.dim && n == (long) lbl.size (), "saved geometry header"); std::set<long> seen; for (long i = 0; i < n; i ++) { long l; CHECK ((bool) (is >> l), "saved geometry: label"); CHECK (std::find (lbl.begin (), lbl.end (), (Num) l) != lbl.end () && seen.insert (l).second, "saved geometry: label %ld", l); for (int k = 0; k < d; k ++) { double x; CHECK ((bool) (is >> x) && std::fabs (x - g.at.at (l)[k]) < 1e-5, "saved geometry: coordinate of label %ld", l); } } }
static std::string breakGeo (Geo g, const NumV &lbl, Rng &r, const char *&what) { if (r.below (2)) { what = "vertex missing"; Num l = lbl[r.below (lbl.size ())]; std::vector<long> o; for (long x : g.order) if (x != l) o.push_back (x); while (o.size () < lbl.size ()) { long x = 1000000 + (long) o.size (); g.at[x] = g.at[l]; o.push_back (x); } g.order = o; } else { what = "duplicate label"; g.order.insert (g.order.begin () + r.below (g.order.size () + 1), g.order[r.below (g.order.size ())]); } return geoText (g, r); }
static void geomGraph () {
  GenOpt o; o.big = 150; MGraph g = genGraph (o); Rep rp; rp.make (g); rp.build (); describe ("geom %s base=%d", g.text ().c_str (), (int) rp.base); tag ("geom"); nontrivial (g.n >= 2); NumV lbl; for (int v = 0; v < g.n; v ++) lbl.push_back (g.hasVlbl ? g.vlbl[v] : v + rp.base); Rng r = bulk (); Geo q = genGeo (lbl, r, chance (1, 2)); std::string gt = geoText (q, r); describe ("dim=%d entries=%zu", (int) q.dim, q.order.size ());
  OutStream og; CHECK (SCOTCH_graphSave (&rp.graf, og.f) == 0, "graphSave"); std::string ft = og.str (); SCOTCH_Geom ge; SCOTCH_geomInit (&ge);
  if (coin ()) { FILE *f = memIn (gt); CHECK (SCOTCH_graphGeomLoadScot (&rp.graf, &ge, nullptr, f, nullptr) == 0, "graphGeomLoadScot (geometry only) failed"); fclose (f); cmpGeo (&ge, q, lbl, "geometry of an existing graph"); rp.unchanged ("graphGeomLoadScot"); tag ("geom-only"); }
  SCOTCH_Graph h; SCOTCH_graphInit (&h); { FILE *f = memIn (ft), *f2 = memIn (gt); CHECK (SCOTCH_graphGeomLoadScot (&h, &ge, f, f2, nullptr) == 0, "graphGeomLoadScot failed"); fclose (f); fclose (f2); } MGraph got = extract (&h); cmp ("graphGeomLoadScot: graph differs", g, got, true); cmpGeo (&ge, q, lbl, "graphGeomLoadScot");
  if (g.n > 0) { OutStream a, b; CHECK (SCOTCH_graphGeomSaveScot (&h, &ge, a.f, b.f, nullptr) == 0, "graphGeomSaveScot failed"); OutStream c; CHECK (SCOTCH_graphSave (&h, c.f) == 0 && a.str () == c.str (), "graphGeomSaveScot: graph file differs from graphSave"); std::string t2 = b.str (); cmpGeoText (t2, q, lbl); SCOTCH_Geom g2; SCOTCH_geomInit (&g2); FILE *f = memIn (a.str ()), *f2 = memIn (t2); SCOTCH_Graph k; SCOTCH_graphInit (&k); CHECK (SCOTCH_graphGeomLoadScot (&k, &g2, f, f2, nullptr) == 0, "saved graph and geometry cannot be loaded"); fclose (f); fclose (f2); cmpGeo (&g2, q, lbl, "reloaded geometry"); SCOTCH_geomExit (&g2); SCOTCH_graphExit (&k);
    if (chance (1, 2)) { const char *w; std::string bt = breakGeo (q, lbl, r, w); SCOTCH_geomInit (&g2); f = memIn (bt); CHECK (SCOTCH_graphGeomLoadScot (&rp.graf, &g2, nullptr, f, nullptr) != 0, "geometry file accepted although: %s", w); fclose (f); SCOTCH_geomExit (&g2); tag ("geom-broken"); } }
  SCOTCH_geomExit (&ge); SCOTCH_graphExit (&h);
}
static void geomMesh () {
  MeshOpt o; o.big = 120; MMesh m = genMesh (o); MRep rp; rp.make (m); rp.build (); describe ("mgeom %s base=%d", m.text ().c_str (), (int) rp.base); tag ("meshgeom"); nontrivial (m.nn >= 2); NumV lbl; for (int v = 0; v < m.nn; v ++) lbl.push_back (m.hasLbl ? m.nlbl[v] : v + rp.nb); Rng r = bulk (); Geo q = genGeo (lbl, r, chance (1, 2)); std::string gt = geoText (q, r);
  SCOTCH_Geom ge; SCOTCH_geomInit (&ge); FILE *f = memIn (gt); CHECK (SCOTCH_meshGeomLoadScot (&rp.mesh, &ge, nullptr, f, nullptr) == 0, "meshGeomLoadScot (geometry only) failed"); fclose (f); cmpGeo (&ge, q, lbl, "geometry of an existing mesh");
  if (m.nn > 0) { OutStream a, b; CHECK (SCOTCH_meshGeomSaveScot (&rp.mesh, &ge, a.f, b.f, nullptr) == 0, "meshGeomSaveScot failed"); std::string t1 = a.str (), t2 = b.str (); cmpGeoText (t2, q, lbl); SCOTCH_Geom g2; SCOTCH_geomInit (&g2); SCOTCH_Mesh k; SCOTCH_meshInit (&k); FILE *f1 = memIn (t1), *f2 = memIn (coin () ? t2 : gt); CHECK (SCOTCH_meshGeomLoadScot (&k, &g2, f1, f2, nullptr) == 0, "saved mesh and geometry cannot be loaded"); fclose (f1); fclose (f2); MMesh got = extractMesh (&k); std::string d = diffMesh (m, got); CHECK (d.empty (), "meshGeomLoadScot: mesh differs: %s", d.c_str ()); cmpGeo (&g2, q, lbl, "reloaded mesh geometry"); SCOTCH_geomExit (&g2); SCOTCH_meshExit (&k);
    if (chance (1, 2)) { const char *w; std::string bt = breakGeo (q, lbl, r, w); SCOTCH_geomInit (&g2); f = memIn (bt); CHECK (SCOTCH_meshGeomLoadScot (&rp.mesh, &g2, nullptr, f, nullptr) != 0, "mesh geometry file accepted although: %s", w); fclose (f); SCOTCH_geomExit (&g2); tag ("geom-broken"); } }
  SCOTCH_geomExit (&ge); rp.unchanged ("meshGeomLoadScot");
}
PROPERTY (G08, "the object has at least 2 vertices (and 1 edge, for graph formats)") {
  switch (weighted ({3, 3, 3, 2, 3, 2})) { case 0: chaco (); break; case 1: mmkt (); break; case 2: habo (); break; case 3: meshHabo (); break; case 4: geomGraph (); break; default: geomMesh (); }
}
