// M01: mesh files, accessors, check.  M02: nodal and dual graphs.  M03: mesh orderings.
#include "arch.hpp"
#include "mesh.hpp"
#include "order.hpp"
#include <sstream>

// Independent reader of the documented format: both numberings start from the base value in the file
static MMesh parseMesh (const std::string &s, Num &base, bool &ef) {
  std::istringstream i (s); long long ver, ne, nn, m, vb, nb, p; CHECK ((bool) (i >> ver >> ne >> nn >> m >> vb >> nb >> p), "saved mesh: bad header"); CHECK (ver == 1, "saved mesh: version %lld", ver); base = (Num) std::min (vb, nb); ef = vb <= nb; CHECK (vb + ne == nb || nb + nn == vb, "saved mesh: ranges");
  bool l = p / 100, w = (p / 10) % 10, v = p % 10; MMesh r; r.resize ((int) ne, (int) nn); r.hasLbl = l; r.hasVelo = r.hasVnlo = v; r.velo.assign (v ? ne : 0, 1); r.vnlo.assign (v ? nn : 0, 1); r.elbl.assign (l ? ne : 0, 0); r.nlbl.assign (l ? nn : 0, 0); long long cnt = 0;
  std::vector<std::vector<long long>> re (ne), rn (nn);
  for (int k = 0; k < 2; k ++) { bool ise = (k == 0) == ef; for (int x = 0; x < (ise ? ne : nn); x ++) { long long a, d; if (l) { CHECK ((bool) (i >> a), "saved mesh: label"); (ise ? r.elbl : r.nlbl)[x] = (Num) a; } if (v) { CHECK ((bool) (i >> a), "saved mesh: load"); (ise ? r.velo : r.vnlo)[x] = (Num) a; } CHECK ((bool) (i >> d), "saved mesh: degree"); cnt += d; for (; d > 0; d --) { if (w) i >> a; CHECK ((bool) (i >> a), "saved mesh: end"); (ise ? re : rn)[x].push_back (a); } } }
  CHECK (cnt == m, "saved mesh: %lld arcs, header says %lld", cnt, m); std::string rest; CHECK (! (i >> rest), "saved mesh: trailing data");
  std::map<long long, int> ei, ni; for (int x = 0; x < ne; x ++) ei[l ? r.elbl[x] : x + base] = x; for (int x = 0; x < nn; x ++) ni[l ? r.nlbl[x] : x + base] = x;
  for (int x = 0; x < ne; x ++) for (long long a : re[x]) { CHECK (ni.count (a), "saved mesh: element %d holds unknown node %lld", x, a); r.el[x].push_back (ni[a]); } for (int x = 0; x < nn; x ++) for (long long a : rn[x]) { CHECK (ei.count (a), "saved mesh: node %d belongs to unknown element %lld", x, a); r.no[x].push_back (ei[a]); } return r;
}
static std::string writeMesh (const MMesh &m, Num base, bool ef, bool loads, bool edlo, Rng &r) {
  Num vb = ef ? base : base + m.nn, nb = ef ? base + m.ne : base; std::string s = strf ("1\n%d %d %d\n%d\t%d %d%d%d\n", m.ne, m.nn, m.arcs (), (int) vb, (int) nb, m.hasLbl, edlo, loads); static const char *ws[] = {" ", "\t", "  ", "\n", " \r\n"};
  for (int k = 0; k < 2; k ++) { bool ise = (k == 0) == ef; for (int x = 0; x < (ise ? m.ne : m.nn); x ++) { auto W = [&] { return std::string (ws[r.below (5)]); }; auto &a = ise ? m.el[x] : m.no[x]; if (m.hasLbl) s += strf ("%d", (int) (ise ? m.elbl : m.nlbl)[x]) + W (); if (loads) s += strf ("%d", (int) (ise ? m.ew (x) : m.nw (x))) + W (); s += strf ("%zu", a.size ());
      for (int y : a) { s += W (); if (edlo) s += strf ("%d", (int) r.below (9)) + W (); s += strf ("%d", (int) (m.hasLbl ? (ise ? m.nlbl : m.elbl)[y] : y + base)); } s += "\n"; } } return s;
}
PROPERTY (M01, "at least 2 elements and 2 nodes, and loads, labels, a non-zero base, nodes first or a non-compact layout") {
  MeshOpt o; o.big = 200; MMesh m = genMesh (o); tag (m.family); if (m.hasLbl) tag ("labels"); if (m.hasVelo) tag ("velo"); if (m.hasVnlo) tag ("vnlo"); describe ("%s", m.text ().c_str ()); int mode = weighted ({4, 2, 2}); clearErr ();
  if (mode == 2) { g_errok = true;             // one corruption must be rejected
    if (m.arcs () == 0) skipCase (); MRep r; r.make (m); Num b = r.base; Num *vt = r.verttab, *ve = r.vendtab ? r.vendtab : r.verttab + 1, *ed = r.edgetab; int n = m.ne + m.nn; std::vector<std::pair<int, Num>> arcs; for (int v = 0; v < n; v ++) for (Num e = vt[v] - b; e < ve[v] - b; e ++) arcs.push_back ({v, e});
    auto a = arcs[draw (arcs.size ())]; bool ise = a.first + b >= r.vb && a.first + b < r.vb + m.ne; int kind = (int) draw (6); const char *what = "";
    if (kind == 4 && ! m.hasVelo) kind = 0; if (kind == 5 && ! m.hasVnlo) kind = 1;
    switch (kind) {
      case 0: ed[a.second] = coin () ? b - 1 - (Num) draw (3) : b + n + (Num) draw (3); what = "end out of range"; break;
      case 1: { Num k = ise ? m.ne : m.nn; ed[a.second] = (ise ? r.vb : r.nb) + (Num) draw (k); what = "adjacency inside a kind"; break; }
      case 2: { Num old = ed[a.second], k = ise ? m.nn : m.ne; if (k < 2) { ed[a.second] = b - 1; what = "end below base"; break; } Num nw = (ise ? r.nb : r.vb) + (old - (ise ? r.nb : r.vb) + 1 + (Num) draw (k - 1)) % k; ed[a.second] = nw; what = "one-sided arc"; break; }
      case 3: { Num d = ve[a.first] - vt[a.first]; if (d < 2) { ed[a.second] = b + n; what = "end above range"; break; } Num e2 = vt[a.first] - b + (Num) draw (d - 1); if (e2 >= a.second) e2 ++; ed[a.second] = ed[e2]; what = "duplicated arc"; break; }
      case 4: r.velotab[draw (m.ne)] = - (Num) draw (2); what = "element load below 1"; break;
      default: r.vnlotab[draw (m.nn)] = - (Num) draw (2); what = "node load below 1"; }
    describe ("corruption: %s", what); tag (strf ("corrupt-%d", kind)); CHECK (r.tryBuild () != 0 || SCOTCH_meshCheck (&r.mesh) != 0, "meshCheck accepts a mesh with %s", what); nontrivial (true); return; }
  std::string txt; Num fb; bool ef;
  if (mode == 0) { MRep r; r.make (m); r.build (); CHECK (SCOTCH_meshCheck (&r.mesh) == 0, "meshCheck rejects a valid mesh: %s", lastErr ().c_str ()); fb = r.base; ef = r.efirst; if (m.ne == 0) ef = r.vb <= r.nb;
    Num a, c, d; SCOTCH_meshSize (&r.mesh, &a, &c, &d); CHECK (a == m.ne && c == m.nn && d == m.arcs (), "meshSize returns %lld %lld %lld", (long long) a, (long long) c, (long long) d); std::string df = diffMesh (m, extractMesh (&r.mesh)); CHECK (df.empty (), "meshData: %s differ", df.c_str ());
    Num nmin = -9, nmax = -9, ns = -9, e0 = -9, e1 = -9, n0 = -9, n1 = -9; double na = -9, nd = -9, ea = -9, edl = -9, nga = -9, ngd = -9; SCOTCH_meshStat (&r.mesh, &nmin, &nmax, &ns, &na, &nd, &e0, &e1, &ea, &edl, &n0, &n1, &nga, &ngd);
    auto st = [] (const std::vector<double> &v, double *q) { q[0] = q[1] = q[2] = q[3] = q[4] = 0; if (v.empty ()) return; q[0] = *std::min_element (v.begin (), v.end ()); q[1] = *std::max_element (v.begin (), v.end ()); for (double x : v) q[2] += x; q[3] = q[2] / v.size (); for (double x : v) q[4] += fabs (x - q[3]); q[4] /= v.size (); };
    std::vector<double> l, x, y; for (int i = 0; i < m.nn; i ++) { l.push_back (m.nw (i)); y.push_back (m.no[i].size ()); } for (int i = 0; i < m.ne; i ++) x.push_back (m.el[i].size ()); double q[5]; auto nr = [] (double u, double v) { return fabs (u - v) <= 1e-6 * std::max (1.0, fabs (v)); };
    st (l, q); CHECK (nmin == q[0] && nmax == q[1] && ns == q[2] && nr (na, q[3]) && nr (nd, q[4]), "meshStat node loads: %lld %lld %lld %g %g, expected %g %g %g %g %g", (long long) nmin, (long long) nmax, (long long) ns, na, nd, q[0], q[1], q[2], q[3], q[4]);
    st (x, q); CHECK (e0 == q[0] && e1 == q[1] && nr (ea, q[3]) && nr (edl, q[4]), "meshStat element degrees: %lld %lld %g %g, expected %g %g %g %g", (long long) e0, (long long) e1, ea, edl, q[0], q[1], q[3], q[4]); st (y, q); CHECK (n0 == q[0] && n1 == q[1] && nr (nga, q[3]) && nr (ngd, q[4]), "meshStat node degrees: %lld %lld %g %g, expected %g %g %g %g", (long long) n0, (long long) n1, nga, ngd, q[0], q[1], q[3], q[4]);
    OutStream os; CHECK (SCOTCH_meshSave (&r.mesh, os.f) == 0, "meshSave failed"); txt = os.str (); r.unchanged ("meshSave"); Num pb; bool pe; MMesh p = parseMesh (txt, pb, pe); CHECK (pb == fb && (pe == ef || m.nn == 0 || m.ne == 0), "saved mesh has base %lld, elements first %d", (long long) pb, pe); df = diffMesh (m, p); CHECK (df.empty (), "saved mesh: %s differ: %s", df.c_str (), txt.substr (0, 400).c_str ());
    nontrivial (m.ne >= 2 && m.nn >= 2 && (m.hasLbl || m.hasVelo || m.hasVnlo || fb || ! r.efirst || ! r.compact)); tag ("from-memory"); }
  else { Rng r = bulk (); fb = (Num) draw (2); ef = coin (); bool ld = m.hasVelo || m.hasVnlo; txt = writeMesh (m, fb, ef, ld, chance (1, 4), r); if (m.ne == 0 && ! ef) ef = m.nn == 0; else if (! ef && m.nn == 0) ef = true; nontrivial (m.ne >= 2 && m.nn >= 2 && (m.hasLbl || ld || fb || ! ef)); tag ("from-text"); }
  Num b = (Num) irange (-1, 1); describe ("load base=%d file base=%d efirst=%d", (int) b, (int) fb, ef); tag (strf ("loadbase%d", (int) b)); SCOTCH_Mesh h; SCOTCH_meshInit (&h); bool two = chance (1, 4); FILE *f = memIn (two ? txt + txt + " 12345" : txt);
  for (int k = 0; k < (two ? 2 : 1); k ++) { if (k) { SCOTCH_meshExit (&h); SCOTCH_meshInit (&h); } CHECK (SCOTCH_meshLoad (&h, f, b) == 0, "meshLoad failed on a valid file: %s", lastErr ().c_str ()); Num hb; bool he; MMesh g = extractMesh (&h, &hb, &he); CHECK (hb == (b == -1 ? fb : b) && (he == ef || m.ne == 0 || m.nn == 0), "loaded mesh has base %lld, elements first %d", (long long) hb, he); std::string df = diffMesh (m, g); CHECK (df.empty (), "loaded mesh: %s differ", df.c_str ()); CHECK (SCOTCH_meshCheck (&h) == 0, "loaded mesh is inconsistent: %s", lastErr ().c_str ());
    Num ns; SCOTCH_meshStat (&h, 0, 0, &ns, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); int64_t es = 0; for (int i = 0; i < m.nn; i ++) es += m.nw (i); CHECK (ns == es, "loaded mesh has node load sum %lld instead of %lld", (long long) ns, (long long) es); }
  if (two) { int x; CHECK (fscanf (f, "%d", &x) == 1 && x == 12345, "data following the mesh was consumed"); } fclose (f);
  OutStream o2; CHECK (SCOTCH_meshSave (&h, o2.f) == 0, "second meshSave failed"); Num pb; bool pe; MMesh p = parseMesh (o2.str (), pb, pe); std::string df = diffMesh (m, p); CHECK (df.empty (), "mesh saved again: %s differ", df.c_str ()); SCOTCH_meshExit (&h);
}
PROPERTY (M02, "at least 2 nodes and 2 elements sharing nodes") {
  MeshOpt o; o.big = 200; MMesh m = genMesh (o); tag (m.family); MRep r; r.make (m); r.build (); bool dual = coin (); Num nc = (Num) irange (1, 4); describe ("%s base=%d efirst=%d %s ncommon=%d", m.text ().c_str (), (int) r.base, r.efirst, dual ? "dual" : "nodal", (int) nc); tag (dual ? strf ("dual%d", (int) nc) : "nodal"); SCOTCH_Graph g; SCOTCH_graphInit (&g);
  int rc = dual ? SCOTCH_meshGraphDual (&r.mesh, &g, nc) : SCOTCH_meshGraph (&r.mesh, &g); CHECK (rc == 0, "building the %s graph failed: %s", dual ? "dual" : "nodal", lastErr ().c_str ()); r.unchanged ("meshGraph"); MGraph e;
  if (! dual) e = nodeGraph (m); else { e.resize (m.ne); for (int a = 0; a < m.ne; a ++) { std::map<int, int> s; for (int n : m.el[a]) for (int b : m.no[n]) if (b > a) s[b] ++; for (auto &q : s) { int t = std::max (1, std::min ((int) nc, std::min ((int) m.el[a].size () - 1, (int) m.el[q.first].size () - 1))); if (q.second >= t) e.addFast (a, q.first); } } }
  Num b; MGraph got = extract (&g, &b); CHECK (b == r.base, "derived graph has base %lld", (long long) b); std::string d = diffGraph (e, got, ! dual, false, false); CHECK (d.empty (), "%s graph is wrong: %s", dual ? "dual" : "nodal", d.c_str ()); clearErr (); CHECK (SCOTCH_graphCheck (&g) == 0, "derived graph is inconsistent: %s", lastErr ().c_str ()); SCOTCH_graphExit (&g); nontrivial (e.arcs () > 0 && m.ne > 1);
}
PROPERTY (M03, "at least two column blocks") {
  MeshOpt o; o.big = chance (1, 4) ? 600 : 200; o.lbl = false; MMesh m = genMesh (o); if (m.nn == 0) skipCase (); tag (m.family); MRep r; r.make (m); r.build (); SCOTCH_Strat st; SCOTCH_stratInit (&st); std::string d = "default"; clearErr ();
  switch (weighted ({2, 1, 4})) { case 0: break; case 1: d = "build"; CHECK (SCOTCH_stratMeshOrderBuild (&st, SCOTCH_STRATDEFAULT, pick (std::vector<double> {0.05, 0.1, 0.3})) == 0, "stratMeshOrderBuild failed"); break; default: d = stratMesh ((int) draw (3)); CHECK (SCOTCH_stratMeshOrder (&st, d.c_str ()) == 0, "strategy %s rejected", d.c_str ()); d = "'" + d + "'"; } tag (d[0] == '\'' ? "strat-string" : d);
  seedLib (); describe ("%s base=%d efirst=%d strat=%s", m.text ().c_str (), (int) r.base, r.efirst, d.c_str ()); int n = m.nn; bool o1 = chance (1, 6), o2 = chance (1, 6), o5 = chance (1, 8); Num *pe = o1 ? nullptr : dupNum (NumV (n, -77)), *pi = o2 ? nullptr : dupNum (NumV (n, -77)), *ra = dupNum (NumV (n + 1, -77)), *tr = o5 ? nullptr : dupNum (NumV (n, -77)); Num cb = -1; int rc;
  if (coin ()) rc = SCOTCH_meshOrder (&r.mesh, &st, pe, pi, &cb, ra, tr); else { SCOTCH_Ordering od; CHECK (SCOTCH_meshOrderInit (&r.mesh, &od, pe, pi, &cb, ra, tr) == 0, "meshOrderInit failed"); rc = SCOTCH_meshOrderCompute (&r.mesh, &od, &st); if (rc == 0) CHECK (SCOTCH_meshOrderCheck (&r.mesh, &od) == 0, "computed ordering rejected by its check: %s", lastErr ().c_str ()); SCOTCH_meshOrderExit (&r.mesh, &od); }
  CHECK (rc == 0, "mesh ordering failed: %s", lastErr ().c_str ()); r.unchanged ("mesh ordering"); SCOTCH_stratExit (&st);
  if (! pe && ! pi) { CHECK (cb >= 1 && ra[0] == r.base && ra[cb] == r.base + n, "column block ranges"); } checkOrder (nodeGraph (m), r.base, pe, pi, cb, ra, tr, {}, strongTree (d)); nontrivial (cb >= 2); free (pe); free (pi); free (ra); free (tr);
}
