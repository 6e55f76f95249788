// A computation of the library with all its inputs: runs on fresh copies of the inputs, on the objects themselves or bound to a context.
#pragma once
#include "mesh.hpp"
#include "order.hpp"
#include "coarse.hpp"
struct Job {
  enum Kind { MAP, REMAP, FIXED, ORDER, ORDLIST, COARSEN, MATCH, COLOR, DIAM, OVL, DECO, MESHORD, ACCESS, MESHACC, NKIND };
  static const char *kname (int k) { static const char *n[] = {"map", "remap", "fixed", "order", "order-list", "coarsen", "match", "color", "diam", "overlap", "deco", "mesh-order", "access", "mesh-access"}; return n[k]; }
  Kind k = MAP; MGraph g; Rep r; MMesh m; MRep mr; ArchP a; int parts = 2; std::string strat; int flags = -1, sflag = 0; double bal = 0.05, rat = 0.8, em = 1; Num cflag = 0; NumV old, fx, vm, list; bool work = false;
  void make (int kind, int big = 160) {
    k = (Kind) kind; work = false; strat.clear (); int sm = weighted ({3, 2, 5});
    if (k == MESHORD || k == MESHACC) { MeshOpt o; o.big = big; o.lbl = k == MESHACC; m = genMesh (o); if (m.nn == 0) { m = MMesh (); m.resize (1, 1); m.add (0, 0); m.family = "single"; } mr.make (m); if (k == MESHORD && sm == 2) strat = stratMesh ((int) draw (3)); if (sm == 1) sflag = coin () ? SCOTCH_STRATQUALITY : SCOTCH_STRATSPEED; describe ("%s %s strat='%s' flags=%x", kname (k), m.text ().c_str (), strat.c_str (), sflag); return; }
    GenOpt o; o.nmin = 1; o.nmax = 30; o.big = big; if (k == DECO) { o.velozero = false; o.velomax = 6; o.edlomax = 9; o.big = std::min (big, 60); } g = genGraph (o); if (g.n == 0) { g = MGraph (); g.resize (1); } r.make (g); Rng rr = bulk ();
    if (k == MAP || k == REMAP || k == FIXED) { ArchOpt ao; ao.nmax = 16; a = coin () ? archCmplt ((int) irange (1, 12)) : genArch (ao); if (sm == 2) strat = stratMap ((int) draw (3), k == REMAP); }
    if (k == REMAP) { int q = (int) draw (4); for (int v = 0; v < g.n; v ++) old.push_back ((int) rr.below (4) < q ? -1 : a->num ((int) rr.below (a->n))); if (coin ()) for (int v = 0; v < g.n; v ++) vm.push_back (rr.below (6)); em = pick (std::vector<double> {1.0, 0.0, 0.3, 5.0}); }
    if (k == FIXED) { int q = (int) draw (5); for (int v = 0; v < g.n; v ++) fx.push_back ((int) rr.below (4) >= q ? -1 : a->num ((int) rr.below (a->n))); }
    if ((k == ORDER || k == ORDLIST) && sm == 2) strat = stratOrder ((int) draw (3)); if (k == OVL && sm == 2) strat = stratOvl ((int) draw (3)); if (k == OVL) parts = (int) irange (1, 7);
    if (k == ORDLIST) { std::vector<int> p (g.n); std::iota (p.begin (), p.end (), 0); shuffleR (p, rr); p.resize (irange (1, g.n)); for (int v : p) list.push_back (v + r.base); }
    if (k == COARSEN || k == MATCH) { rat = pick (std::vector<double> {1.0, 0.8, 0.9, 0.7, 0.5, 0.55}); cflag = coin () ? SCOTCH_COARSENNOMERGE : 0; }
    if (sm == 1) for (int b : {SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATRECURSIVE}) if (chance (1, 4)) sflag |= b;
    describe ("%s %s target=%s parts=%d strat='%s' flags=%x rat=%g", kname (k), g.text ().c_str (), a ? a->desc.c_str () : "-", parts, strat.c_str (), sflag, rat); }
  void setStrat (SCOTCH_Strat *s) {
    SCOTCH_stratInit (s); int rc = 0;
    switch (k) {
      case MAP: case REMAP: case FIXED: rc = ! strat.empty () ? SCOTCH_stratGraphMap (s, strat.c_str ()) : sflag ? SCOTCH_stratGraphMapBuild (s, sflag, a->n, bal) : 0; break;
      case ORDER: case ORDLIST: rc = ! strat.empty () ? SCOTCH_stratGraphOrder (s, strat.c_str ()) : sflag ? SCOTCH_stratGraphOrderBuild (s, sflag & ~SCOTCH_STRATRECURSIVE, 0, bal) : 0; break;
      case OVL: rc = ! strat.empty () ? SCOTCH_stratGraphPartOvl (s, strat.c_str ()) : sflag ? SCOTCH_stratGraphPartOvlBuild (s, sflag, parts, bal) : 0; break;
      case MESHORD: rc = ! strat.empty () ? SCOTCH_stratMeshOrder (s, strat.c_str ()) : sflag ? SCOTCH_stratMeshOrderBuild (s, sflag, bal) : 0; break;
      default: break; }
    CHECK (rc == 0, "strategy '%s' (flags %x) rejected: %s", strat.c_str (), sflag, lastErr ().c_str ()); }
  // result: return code, then everything computed
  NumV run (SCOTCH_Context *ctx = nullptr) {
    NumV o; clearErr (); SCOTCH_Strat st; setStrat (&st); int rc = -1;
    if (k == MESHORD || k == MESHACC) { MRep x; x.dup (mr); x.build (); SCOTCH_Mesh b, *p = &x.mesh; if (ctx) { CHECK (SCOTCH_contextBindMesh (ctx, &x.mesh, &b) == 0, "contextBindMesh failed: %s", lastErr ().c_str ()); p = &b; }
      if (k == MESHACC) { Num q[8]; double d[8]; SCOTCH_meshSize (p, &q[0], &q[1], &q[2]); o = {0, q[0], q[1], q[2]}; SCOTCH_meshStat (p, &q[0], &q[1], &q[2], &d[0], &d[1], &q[3], &q[4], &d[2], &d[3], &q[5], &q[6], &d[4], &d[5]); for (int i = 0; i < 7; i ++) o.push_back (q[i]); for (int i = 0; i < 6; i ++) o.push_back ((Num) (d[i] * 1000)); o.push_back (SCOTCH_meshCheck (p)); { OutStream s; CHECK (SCOTCH_meshSave (p, s.f) == 0, "meshSave failed: %s", lastErr ().c_str ()); for (char c : s.str ()) o.push_back (c); } Num mb; MMesh e = extractMesh (p, &mb); o.push_back (mb); std::string df = diffMesh (m, e); CHECK (df.empty (), "mesh data differ: %s", df.c_str ());
        for (int w = 0; w < 2; w ++) { SCOTCH_Graph q; SCOTCH_graphInit (&q); rc = w ? SCOTCH_meshGraphDual (p, &q, 2) : SCOTCH_meshGraph (p, &q); o.push_back (rc); if (rc == 0) { MGraph z = extract (&q); for (int v = 0; v < z.n; v ++) { o.push_back (z.vw (v)); for (auto &e : z.adj[v]) o.push_back (e.first); } } SCOTCH_graphExit (&q); } }
      else { int n = m.nn; Num *pe = dupNum (NumV (n, -77)), *pi = dupNum (NumV (n, -77)), *ra = dupNum (NumV (n + 1, -77)), *tr = dupNum (NumV (n, -77)), cb = 0; rc = SCOTCH_meshOrder (p, &st, pe, pi, &cb, ra, tr); o.push_back (rc); if (rc == 0) pack (o, n, pe, pi, cb, ra, tr); for (Num *q : {pe, pi, ra, tr}) free (q); }
      x.unchanged (kname (k)); if (ctx) { SCOTCH_meshExit (&b); CHECK (SCOTCH_meshCheck (&x.mesh) == 0, "the mesh is inconsistent once its container is exited"); MMesh y = extractMesh (&x.mesh); std::string d = diffMesh (m, y); CHECK (d.empty (), "the mesh differs once its container is exited: %s", d.c_str ()); } SCOTCH_stratExit (&st); return o; }
    Rep x; x.dup (r); x.build (); SCOTCH_Graph b, *p = &x.graf; if (ctx) { CHECK (SCOTCH_contextBindGraph (ctx, &x.graf, &b) == 0, "contextBindGraph failed: %s", lastErr ().c_str ()); p = &b; } int n = g.n;
    switch (k) {
      case MAP: case REMAP: case FIXED: { Num *t = dupNum (k == FIXED ? fx : NumV (n, -77)), *po = k == REMAP ? dupNum (old) : nullptr, *vl = vm.empty () ? nullptr : dupNum (vm);
        rc = k == MAP ? SCOTCH_graphMap (p, &a->arch, &st, t) : k == FIXED ? SCOTCH_graphMapFixed (p, &a->arch, &st, t) : SCOTCH_graphRemap (p, &a->arch, po, em, vl, &st, t); o.push_back (rc); o.insert (o.end (), t, t + n); free (t); free (po); free (vl); break; }
      case OVL: { Num *t = dupNum (NumV (n, -77)); rc = SCOTCH_graphPartOvl (p, parts, &st, t); o.push_back (rc); o.insert (o.end (), t, t + n); free (t); break; }
      case ORDER: case ORDLIST: { Num *pe = dupNum (NumV (n, -77)), *pi = dupNum (NumV (n, -77)), *ra = dupNum (NumV (n + 1, -77)), *tr = dupNum (NumV (n, -77)), cb = 0, *l = dupNum (list); rc = k == ORDER ? SCOTCH_graphOrder (p, &st, pe, pi, &cb, ra, tr) : SCOTCH_graphOrderList (p, list.size (), l, &st, pe, pi, &cb, ra, tr); o.push_back (rc); if (rc == 0) pack (o, n, pe, pi, cb, ra, tr); for (Num *q : {pe, pi, ra, tr, l}) free (q); break; }
      case COARSEN: { SCOTCH_Graph cg; SCOTCH_graphInit (&cg); Num *mu = dupNum (NumV (2 * n, -77)); rc = SCOTCH_graphCoarsen (p, 0, rat, cflag, &cg, mu); o.push_back (rc); if (rc == 0) { Num cn; SCOTCH_graphSize (&cg, &cn, nullptr); o.push_back (cn); o.insert (o.end (), mu, mu + 2 * cn); checkCoarse (g, r.base, &cg, mu, cn, nullptr, "graphCoarsen"); MGraph c = extract (&cg); for (int v = 0; v < c.n; v ++) { o.push_back (c.vw (v)); for (auto &e : c.adj[v]) { o.push_back (e.first); o.push_back (e.second); } } } SCOTCH_graphExit (&cg); free (mu); break; }
      case MATCH: { Num cn = 0, *mt = dupNum (NumV (n, -77)); rc = SCOTCH_graphCoarsenMatch (p, &cn, rat, cflag, mt); o.push_back (rc); if (rc == 0) { o.push_back (cn); o.insert (o.end (), mt, mt + n); } free (mt); break; }
      case COLOR: { Num nb = -1, *c = dupNum (NumV (n, -77)); rc = SCOTCH_graphColor (p, c, &nb, 0); o.push_back (rc); o.push_back (nb); o.insert (o.end (), c, c + n); free (c); break; }
      case DIAM: o.push_back (0); o.push_back (SCOTCH_graphDiamPV (p)); break;
      case DECO: { SCOTCH_Arch ar; SCOTCH_archInit (&ar); rc = SCOTCH_archBuild0 (&ar, p, 0, nullptr, &st); o.push_back (rc); if (rc == 0) { OutStream s; CHECK (SCOTCH_archSave (&ar, s.f) == 0, "archSave failed"); std::string t = s.str (); o.push_back (SCOTCH_archSize (&ar)); for (char c : t) o.push_back (c); } SCOTCH_archExit (&ar); break; }
      default: { // accessors of the object, bound or not
        Num bs, nv, na; SCOTCH_graphData (p, &bs, &nv, 0, 0, 0, 0, &na, 0, 0); o = {0, bs, nv, na}; Num q[9]; double d[6]; SCOTCH_graphStat (p, &q[0], &q[1], &q[2], &d[0], &d[1], &q[3], &q[4], &d[2], &d[3], &q[5], &q[6], &q[7], &d[4], &d[5]); for (int i = 0; i < 8; i ++) o.push_back (q[i]); for (int i = 0; i < 6; i ++) o.push_back ((Num) (d[i] * 1000)); Num s1, s2; SCOTCH_graphSize (p, &s1, &s2); o.push_back (s1); o.push_back (s2); o.push_back (SCOTCH_graphCheck (p));
        OutStream s; CHECK (SCOTCH_graphSave (p, s.f) == 0, "graphSave failed: %s", lastErr ().c_str ()); for (char c : s.str ()) o.push_back (c); MGraph e = extract (p); std::string df = diffGraph (g, e); CHECK (df.empty (), "graph data differ: %s", df.c_str ()); break; } }
    x.unchanged (kname (k)); SCOTCH_stratExit (&st);
    if (ctx) { SCOTCH_graphExit (&b); CHECK (SCOTCH_graphCheck (&x.graf) == 0, "the graph is inconsistent once its container is exited"); MGraph e = extract (&x.graf); std::string d = diffGraph (g, e); CHECK (d.empty (), "the graph differs once its container is exited: %s", d.c_str ()); x.unchanged ("exit of the container"); }
    return o; }
  static void pack (NumV &o, int n, Num *pe, Num *pi, Num cb, Num *ra, Num *tr) { o.push_back (cb); o.insert (o.end (), pe, pe + n); o.insert (o.end (), pi, pi + n); o.insert (o.end (), ra, ra + cb + 1); o.insert (o.end (), tr, tr + cb); }
  void valid (const NumV &o, const char *w) {
    CHECK (o[0] == 0 || ((k == COARSEN || k == MATCH) && o[0] == 1), "%s: %s failed: %s", w, kname (k), lastErr ().c_str ()); if (o[0] != 0) return; int n = g.n; const Num *t = o.data () + 1; std::string d = strat.empty () ? "" : "'" + strat + "'";
    switch (k) {
      case MAP: case REMAP: case FIXED: { std::set<Num> s; for (int v = 0; v < n; v ++) { CHECK (a->idx (t[v]) >= 0, "%s: vertex %d mapped to %lld of %d", w, v, (long long) t[v], a->n); CHECK (k != FIXED || fx[v] < 0 || t[v] == fx[v], "%s: vertex %d fixed to %lld mapped to %lld", w, v, (long long) fx[v], (long long) t[v]); s.insert (t[v]); } work = s.size () > 1; break; }
      case OVL: { std::set<Num> s; for (int v = 0; v < n; v ++) { s.insert (t[v]); CHECK (t[v] >= -1 && t[v] < parts, "%s: vertex %d in part %lld of %d", w, v, (long long) t[v], parts); if (t[v] >= 0) for (auto &e : g.adj[v]) CHECK (t[e.first] < 0 || t[e.first] == t[v], "%s: edge %d-%d links two parts", w, v, e.first); } work = s.size () > 1; break; }
      case ORDER: case ORDLIST: case MESHORD: { MGraph h = k == MESHORD ? nodeGraph (m) : g; n = h.n; Num cb = t[0]; std::vector<int> sub; for (Num v : list) sub.push_back (v - r.base); NumV q (t + 1, t + 1 + 2 * n + cb + 1 + cb); checkOrder (h, k == MESHORD ? mr.base : r.base, q.data (), q.data () + n, cb, q.data () + 2 * n, q.data () + 2 * n + cb + 1, sub, k != MESHORD && strongTree (d)); work = cb > 1; break; }
      case COARSEN: case MATCH: { NumV mate (n, -1); Num cn = t[0], base = r.base; if (k == MATCH) mate.assign (t + 1, t + 1 + n); else for (int c = 0; c < cn; c ++) { mate[t[1 + 2 * c] - base] = t[2 + 2 * c]; mate[t[2 + 2 * c] - base] = t[1 + 2 * c]; } int np = 0;
        for (int v = 0; v < n; v ++) { Num x = mate[v] - base; CHECK (x >= 0 && x < n && mate[x] - base == v, "%s: mating is not an involution at %d", w, v); if (x != v) { np ++; CHECK (g.has (v, (int) x) || ((g.adj[v].empty () || g.adj[x].empty ()) && cflag == 0), "%s: vertices %d and %lld cannot be mated", w, v, (long long) x); } } CHECK (cn == n - np / 2, "%s: %lld coarse vertices, expected %d", w, (long long) cn, n - np / 2); CHECK (cn <= rat * n + 1e-9, "%s: ratio %lld/%d above %g", w, (long long) cn, n, rat); work = np > 0; break; }
      case COLOR: { Num nb = t[0]; std::vector<int> u (std::max ((Num) 1, nb), 0); for (int v = 0; v < n; v ++) { Num c = t[1 + v]; CHECK (c >= 0 && c < nb, "%s: colour %lld of %lld", w, (long long) c, (long long) nb); u[c] ++; for (auto &e : g.adj[v]) CHECK (t[1 + e.first] != c, "%s: adjacent vertices %d and %d have the same colour", w, v, e.first); } for (int c = 0; c < nb; c ++) CHECK (u[c], "%s: colour %d unused", w, c); work = nb > 1; break; }
      case DECO: CHECK (t[0] == n, "%s: architecture of %lld terminals for %d vertices", w, (long long) t[0], n); work = n > 2; break;
      case MESHACC: work = m.nn > 2 && m.ne > 2; break;
      default: work = n > 2; } }
};
