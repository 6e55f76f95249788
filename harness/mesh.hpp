// Reference model of meshes, generator and conversion.
#pragma once
#include "arch.hpp"
struct MMesh {                                 // elements hold sets of nodes
  int ne = 0, nn = 0; std::vector<std::vector<int>> el, no; bool hasVelo = false, hasVnlo = false, hasLbl = false; NumV velo, vnlo, elbl, nlbl; const char *family = "";
  void resize (int a, int b) { ne = a; nn = b; el.assign (a, {}); no.assign (b, {}); }
  void add (int e, int n) { for (int x : el[e]) if (x == n) return; el[e].push_back (n); no[n].push_back (e); }
  int arcs () const { int s = 0; for (auto &x : el) s += 2 * (int) x.size (); return s; }
  Num ew (int e) const { return hasVelo ? velo[e] : 1; } Num nw (int n) const { return hasVnlo ? vnlo[n] : 1; }
  void sort () { for (auto &x : el) std::sort (x.begin (), x.end ()); for (auto &x : no) std::sort (x.begin (), x.end ()); }
  std::string text () const { std::string s = strf ("{mesh %s ne=%d nn=%d arcs=%d%s%s%s", family, ne, nn, arcs (), hasVelo ? " velo" : "", hasVnlo ? " vnlo" : "", hasLbl ? " lbl" : ""); if (ne <= 10 && nn <= 14) for (auto &x : el) { s += " ("; for (int n : x) s += strf ("%d,", n); s += ")"; } return s + "}"; }
};
struct MeshOpt { int nmax = 14; int big = 0; bool loads = true, lbl = true, iso = true; };
inline MMesh genMesh (const MeshOpt &o) {
  MMesh m; bool big = o.big > 0 && chance (2, 5);
  if (big) { Rng r = bulk (); switch (draw (4)) {
      case 0: { m.family = "grid2"; int w = (int) irange (2, 12), h = std::max (1, o.big / (2 * w)); h = (int) irange (1, h); m.resize (w * h, (w + 1) * (h + 1)); for (int y = 0; y < h; y ++) for (int x = 0; x < w; x ++) for (int k = 0; k < 4; k ++) m.add (y * w + x, (y + k / 2) * (w + 1) + x + k % 2); break; }
      case 1: { m.family = "random"; m.resize ((int) irange (5, o.big / 2), (int) irange (5, o.big)); int k = (int) irange (1, 5); for (int e = 0; e < m.ne; e ++) for (int i = (int) r.below (k + 1) + (o.iso ? 0 : 1); i > 0; i --) m.add (e, (int) r.below (m.nn)); break; }
      case 2: { m.family = "graphlike"; m.nn = (int) irange (5, o.big / 2); m.resize (m.nn * 2, m.nn); for (int e = 0; e < m.ne; e ++) { m.add (e, (int) r.below (m.nn)); m.add (e, (int) r.below (m.nn)); } break; }
      default: { m.family = "local"; m.nn = (int) irange (5, o.big); m.resize (std::max (1, (int) (m.nn / irange (1, 3))), m.nn); for (int e = 0; e < m.ne; e ++) { int c = (int) ((int64_t) e * m.nn / m.ne); for (int i = 0, k = (int) r.range (1, 6); i < k; i ++) m.add (e, std::min (m.nn - 1, c + (int) r.below (7))); } } } }
  else { m.family = "small"; m.resize ((int) irange (0, o.nmax), (int) irange (0, o.nmax)); if (m.nn > 0) for (int e = 0; e < m.ne; e ++) for (int i = (int) irange (o.iso ? 0 : 1, 5); i > 0; i --) m.add (e, (int) draw (m.nn)); }
  if (! o.iso && m.ne == 0) { m.resize (1, m.nn); } if (! o.iso) { if (m.nn == 0) m.resize (m.ne, 1); for (int e = 0; e < m.ne; e ++) if (m.el[e].empty ()) m.add (e, 0); for (int n = 0; n < m.nn; n ++) if (m.no[n].empty ()) m.add ((int) draw (m.ne), n); }
  Rng r = bulk ();
  if (o.loads && chance (1, 3)) { m.hasVelo = true; for (int e = 0; e < m.ne; e ++) m.velo.push_back (r.range (1, 9)); } if (o.loads && chance (1, 3)) { m.hasVnlo = true; for (int e = 0; e < m.nn; e ++) m.vnlo.push_back (r.range (1, 9)); }
  if (o.lbl && chance (1, 3)) { m.hasLbl = true; auto gl = [&] (int n) { NumV v; std::set<Num> s; int sp = (int) irange (1, 3), off = (int) draw (4); for (int i = 0; i < n; i ++) { Num l; do l = off + r.below ((uint64_t) n * sp + 1); while (! s.insert (l).second); v.push_back (l); } return v; }; m.elbl = gl (m.ne); m.nlbl = gl (m.nn); }
  if (coin ()) { for (auto &x : m.el) shuffleR (x, r); for (auto &x : m.no) shuffleR (x, r); }
  return m;
}
struct MRep {
  Num base = 0, vb = 0, nb = 0, edgenbr = 0; bool efirst = true, compact = true; Num *verttab = nullptr, *vendtab = nullptr, *velotab = nullptr, *vnlotab = nullptr, *vlbltab = nullptr, *edgetab = nullptr; std::vector<NumV> copy; SCOTCH_Mesh mesh; bool inited = false; int ne = 0, nn = 0;
  MRep () {} MRep (const MRep &) = delete; ~MRep () { if (inited) SCOTCH_meshExit (&mesh); for (Num *p : {verttab, vendtab, velotab, vnlotab, vlbltab, edgetab}) free (p); }
  void make (const MMesh &m) { base = (Num) draw (2); efirst = coin (); compact = ! chance (1, 3); ne = m.ne; nn = m.nn; vb = efirst ? base : base + nn; nb = efirst ? base + ne : base; edgenbr = m.arcs ();
    int n = ne + nn; NumV vt (n), ve (n), ed, lb (n); std::vector<int> p (n); std::iota (p.begin (), p.end (), 0); Rng r = bulk (); bool holes = ! compact && coin (); if (! compact && coin ()) shuffleR (p, r);
    for (int v : p) { if (holes) for (int k = (int) r.below (3); k > 0; k --) ed.push_back (-7777); bool ise = v + base >= vb && v + base < vb + ne; int i = ise ? v + base - vb : v + base - nb; vt[v] = base + ed.size (); for (int x : ise ? m.el[i] : m.no[i]) ed.push_back (x + (ise ? nb : vb)); ve[v] = base + ed.size (); if (m.hasLbl) lb[v] = ise ? m.elbl[i] : m.nlbl[i]; }
    if (compact) vt.push_back (base + ed.size ()); verttab = dupNum (vt); if (! compact) vendtab = dupNum (ve); if (m.hasVelo) velotab = dupNum (m.velo); if (m.hasVnlo) vnlotab = dupNum (m.vnlo); if (m.hasLbl) vlbltab = dupNum (lb); edgetab = dupNum (ed);
    copy = {vt, ve, m.velo, m.vnlo, lb, ed}; tag (compact ? "compact" : "noncompact"); tag (strf ("base%d", (int) base)); tag (efirst ? "elements-first" : "nodes-first"); }
  void dup (const MRep &o) { base = o.base; vb = o.vb; nb = o.nb; edgenbr = o.edgenbr; efirst = o.efirst; compact = o.compact; ne = o.ne; nn = o.nn; copy = o.copy; verttab = dupNum (copy[0]); if (o.vendtab) vendtab = dupNum (copy[1]); if (o.velotab) velotab = dupNum (copy[2]); if (o.vnlotab) vnlotab = dupNum (copy[3]); if (o.vlbltab) vlbltab = dupNum (copy[4]); edgetab = dupNum (copy[5]); }
  int tryBuild () { SCOTCH_meshInit (&mesh); inited = true; return SCOTCH_meshBuild (&mesh, vb, nb, ne, nn, verttab, vendtab, velotab, vnlotab, vlbltab, edgenbr, edgetab); }
  void build () { CHECK (tryBuild () == 0, "meshBuild failed on a valid mesh: %s", lastErr ().c_str ()); }
  void unchanged (const char *w) { Num *t[6] = {verttab, vendtab, velotab, vnlotab, vlbltab, edgetab}; for (int i = 0; i < 6; i ++) if (t[i] && ! copy[i].empty () && memcmp (t[i], copy[i].data (), copy[i].size () * sizeof (Num))) fail ("%s: input mesh array %d was modified", w, i); }
};
inline MMesh extractMesh (SCOTCH_Mesh *s, Num *bp = nullptr, bool *efp = nullptr) {
  Num vb, nb, ne, nn, m, dg; Num *vt, *ve, *vl, *nl, *lb, *ed; SCOTCH_meshData (s, &vb, &nb, &ne, &nn, &vt, &ve, &vl, &nl, &lb, &m, &ed, &dg); Num base = std::min (vb, nb); if (bp) *bp = base; if (efp) *efp = vb <= nb; MMesh r;
  CHECK (ne >= 0 && nn >= 0 && ne < 10000000 && nn < 10000000, "meshData: %lld elements, %lld nodes", (long long) ne, (long long) nn); CHECK (vb + ne == nb || nb + nn == vb, "meshData: ranges do not follow each other"); r.resize ((int) ne, (int) nn); Num cnt = 0, md = 0;
  for (Num v = 0; v < ne + nn; v ++) { bool ise = v + base >= vb && v + base < vb + ne; Num i = v + base - (ise ? vb : nb), d = ve[v] - vt[v]; CHECK (d >= 0 && d <= m, "meshData: degree %lld", (long long) d); cnt += d; md = std::max (md, d); for (Num e = vt[v] - base; e < ve[v] - base; e ++) { Num x = ed[e] - (ise ? nb : vb); CHECK (x >= 0 && x < (ise ? nn : ne), "meshData: vertex %lld has neighbour %lld out of range", (long long) v, (long long) ed[e]); (ise ? r.el : r.no)[i].push_back ((int) x); }
    if (lb) { r.hasLbl = true; (ise ? r.elbl : r.nlbl).push_back (lb[v]); } }
  CHECK (cnt == m, "meshData: %lld arcs, degrees sum to %lld", (long long) m, (long long) cnt); CHECK (dg >= md, "meshData: maximum degree %lld, found %lld", (long long) dg, (long long) md); if (vl) { r.hasVelo = true; r.velo.assign (vl, vl + ne); } if (nl) { r.hasVnlo = true; r.vnlo.assign (nl, nl + nn); } return r;
}
inline std::string diffMesh (MMesh a, MMesh b, bool lbl = true) {
  if (a.ne != b.ne || a.nn != b.nn) return strf ("sizes %d+%d vs %d+%d", a.ne, a.nn, b.ne, b.nn); a.sort (); b.sort ();
  for (int e = 0; e < a.ne; e ++) { if (a.el[e] != b.el[e]) return strf ("nodes of element %d", e); if (a.ew (e) != b.ew (e)) return strf ("load of element %d: %lld vs %lld", e, (long long) a.ew (e), (long long) b.ew (e)); }
  for (int e = 0; e < a.nn; e ++) { if (a.no[e] != b.no[e]) return strf ("elements of node %d", e); if (a.nw (e) != b.nw (e)) return strf ("load of node %d: %lld vs %lld", e, (long long) a.nw (e), (long long) b.nw (e)); }
  if (lbl && a.ne + a.nn > 0) { if (a.hasLbl != b.hasLbl) return "label presence"; if (a.hasLbl && (a.elbl != b.elbl || a.nlbl != b.nlbl)) return "labels"; } return "";
}
inline MGraph nodeGraph (const MMesh &m) { MGraph g; g.resize (m.nn); std::set<std::pair<int,int>> s; for (auto &x : m.el) for (int a : x) for (int b : x) if (a < b) s.insert ({a, b}); for (auto &p : s) g.addFast (p.first, p.second); g.hasVelo = m.hasVnlo; g.velo = m.vnlo; g.family = "nodal"; return g; }
inline std::string meshI (const char *k, std::initializer_list<int> v) { return strf ("%s=%d", k, pick (std::vector<int> (v))); }
inline std::string stratMeshSep (int d) {
  auto ref = [] { return "f{" + meshI ("move", {80, 1, 10, 200}) + "," + meshI ("pass", {4, 1, 10}) + ",bal=" + pick (std::vector<std::string> {"0.1", "0.05", "0.01", "0.4"}) + "}"; };
  std::string s; switch (weighted ({3, 2, 1, d > 0 ? 3 : 0})) { case 0: s = "h{" + meshI ("pass", {5, 1, 10}) + "}"; break; case 1: s = "v{strat=" + stratSep (std::max (0, d - 1)) + "}"; break; case 2: s = "z"; break; default: s = "m{asc=" + ref () + ",low=" + stratMeshSep (d - 1) + "," + meshI ("vnod", {20, 5, 100}) + ",type=" + pick (std::vector<std::string> {"h", "s", "n"}) + ",rat=" + pick (std::vector<std::string> {"0.8", "0.7", "0.95"}) + "}"; }
  if (coin ()) s += ref (); if (chance (1, 6)) s = "(" + s + "|" + stratMeshSep (0) + ")"; if (chance (1, 6)) s = "/" + std::string (coin () ? "vnod>" : "velm>") + meshI ("", {5, 20}).substr (1) + "?" + s + ":z;"; return s;
}
// Method 'c' does not handle halo submeshes, and so is not used below 'n'
inline std::string stratMesh (int d, bool sub = false) {
  switch (weighted ({2, 2, 2, 2, 2, d > 0 ? 6 : 0, d > 0 ? 2 : 0, d > 0 && ! sub ? 2 : 0, d > 0 ? 1 : 0})) {
    case 0: return "s"; case 1: return "g{" + meshI ("pass", {3, 1, 8}) + "}"; case 2: return "d{" + meshI ("cmin", {0, 1, 5}) + ",cmax=100000,frat=" + (coin () ? "0.08" : "0") + "}"; case 3: return "f{" + meshI ("cmin", {0, 1, 5}) + ",cmax=100000,frat=0.1}"; case 4: return "v{strat=" + stratOrder (d) + "}";
    case 5: return "n{sep=" + stratMeshSep (d) + ",ole=" + stratMesh (d - 1, true) + ",ose=" + (coin () ? "g" : "s") + "}"; case 6: return "b{strat=" + stratMesh (d - 1, sub) + "," + meshI ("cmin", {8, 1, 3, 20}) + "}"; case 7: return "c{rat=" + pick (std::vector<std::string> {"0.7", "1.0", "0.2"}) + ",cpr=" + stratMesh (d - 1) + ",unc=" + stratMesh (d - 1) + "}"; default: return "/vnod>" + meshI ("", {5, 20}).substr (1) + "?" + stratMesh (d - 1, sub) + ":" + stratMesh (d - 1, sub) + ";"; }
}
