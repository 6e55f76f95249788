// D07: the ParMETIS interface: NodeND, PartKway, PartGeomKway, in C and Fortran, under both prefixes.
#include "dgraph.hpp"
#include "order.hpp"
typedef const Num *CN; typedef const float *CF; typedef MPI_Comm *PC;
extern "C" {
int ParMETIS_V3_NodeND (CN, Num *, Num *, CN, CN, Num *, Num *, PC); int SCOTCH_ParMETIS_V3_NodeND (CN, Num *, Num *, CN, CN, Num *, Num *, PC);
void parmetis_v3_nodend_ (CN, Num *, Num *, CN, CN, Num *, Num *, const MPI_Fint *); void scotchfparmetis_v3_nodend_ (CN, Num *, Num *, CN, CN, Num *, Num *, const MPI_Fint *, int *);
int ParMETIS_V3_PartKway (CN, Num *, Num *, Num *, Num *, CN, CN, CN, CN, CF, CF, CN, Num *, Num *, PC); int SCOTCH_ParMETIS_V3_PartKway (CN, Num *, Num *, Num *, Num *, CN, CN, CN, CN, CF, CF, CN, Num *, Num *, PC);
int ParMETIS_V3_PartGeomKway (CN, Num *, Num *, Num *, Num *, CN, CN, CN, CF, CN, CN, CF, CF, CN, Num *, Num *, PC); int SCOTCH_ParMETIS_V3_PartGeomKway (CN, Num *, Num *, Num *, Num *, CN, CN, CN, CF, CN, CN, CF, CF, CN, Num *, Num *, PC);
void parmetis_v3_partkway_ (CN, Num *, Num *, Num *, Num *, CN, CN, CN, CN, CF, CF, CN, Num *, Num *, const MPI_Fint *); void scotchfparmetis_v3_partkway_ (CN, Num *, Num *, Num *, Num *, CN, CN, CN, CN, CF, CF, CN, Num *, Num *, const MPI_Fint *, int *);
void parmetis_v3_partgeomkway_ (CN, Num *, Num *, Num *, Num *, CN, CN, CN, CF, CN, CN, CF, CF, CN, Num *, Num *, const MPI_Fint *); void scotchfparmetis_v3_partgeomkway_ (CN, Num *, Num *, Num *, Num *, CN, CN, CN, CF, CN, CN, CF, CF, CN, Num *, Num *, const MPI_Fint *, int *);
}
static std::string listText (const NumV &v) { std::string s; for (Num x : v) s += strf ("%lld ", (LL) x); return s; }
struct PB { Num *p; NumV c; PB (const NumV &v) : p (dupNum (v)), c (v) {} ~PB () { free (p); } PB (const PB &) = delete; void same (const char *w) { for (size_t i = 0; i < c.size (); i ++) CHECK (p[i] == c[i], "input array %s was modified", w); } };

PROPERTY (D07, "at least 2 processes and: an ordering whose sizes array holds a separated pair of parts, or a partition into at least 2 used parts that cuts an edge between two processes") {
  GenOpt o; o.nmin = 1; o.nmax = 40; o.big = chance (1, 3) ? 1200 : 300; o.vlbl = false; MGraph g = genGraph (o); if (g.n == 0) skipCase (); tag (g.family); DDist d = genDist (g.n, false); int P = g_mpi_size, me = g_mpi_rank, n = g.n, lo = d.off[me], cnt = d.cnt[me]; Num base = (Num) draw (2);
  NumV vd, xv, av, wv, ev; for (int p = 0; p <= P; p ++) vd.push_back (base + d.off[p]); xv.push_back (base); for (int v = lo; v < lo + cnt; v ++) { for (auto &x : g.adj[v]) { av.push_back (base + x.first); ev.push_back (x.second); } xv.push_back (base + av.size ()); wv.push_back (g.vw (v)); }
  PB vt (vd), xa (xv), aj (av), vw (wv), ew (ev), op (NumV (4, 0)); seedLib (); MPI_Comm comm = MPI_COMM_WORLD; MPI_Fint fc = MPI_Comm_c2f (comm); bool part = coin (); int how = (int) draw (4), rc = 1; clearErr ();
  static const char *hn[] = {"ParMETIS_", "SCOTCH_ParMETIS_", "parmetis_ (Fortran)", "scotchfparmetis_ (Fortran)"};
  if (! part) { tag (strf ("NodeND-np%d", P)); describe ("%s dist=%s base=%d %sV3_NodeND", g.text ().c_str (), listText (NumV (d.cnt.begin (), d.cnt.end ())).c_str (), (int) base, hn[how]); PB od (NumV (cnt, -77)), sz (NumV (2 * P, -77));
    switch (how) { case 0: rc = ParMETIS_V3_NodeND (vt.p, xa.p, aj.p, &base, op.p, od.p, sz.p, &comm); break; case 1: rc = SCOTCH_ParMETIS_V3_NodeND (vt.p, xa.p, aj.p, &base, op.p, od.p, sz.p, &comm); break; case 2: parmetis_v3_nodend_ (vt.p, xa.p, aj.p, &base, op.p, od.p, sz.p, &fc); break; default: scotchfparmetis_v3_nodend_ (vt.p, xa.p, aj.p, &base, op.p, od.p, sz.p, &fc, &rc); }
    CHECK (rc == 1, "NodeND returns %d: %s", rc, lastErr ().c_str ()); NumV pv = allgather (od.p, cnt); checkOrder (g, base, pv.data (), nullptr, -1, nullptr, nullptr); for (int i = 0; i < 2 * P - 1; i ++) CHECK (sameAll (sz.p[i]), "sizes[%d] is not the same on all processes", i); CHECK (sz.p[2 * P - 1] == -77, "the sizes array is overrun");
    if (P & (P - 1)) { tag ("not-a-power-of-2"); for (int i = 0; i < 2 * P - 1; i ++) CHECK (sz.p[i] == -1, "sizes[%d] is %lld on %d processes", i, (LL) sz.p[i], P); nontrivial (); }
    else { std::vector<int> inv (n); for (int v = 0; v < n; v ++) inv[pv[v] - base] = v; NumV s (sz.p, sz.p + 2 * P - 1); LL sum = 0; for (Num x : s) { CHECK (x >= 0 && x <= n, "sizes holds %s for %d vertices", listText (s).c_str (), n); sum += x; } CHECK (sum == n, "sizes sums to %lld for %d vertices: %s", sum, n, listText (s).c_str ());
      // sizes: P leaves first, then the separators, level by level; the root separator is last. Children of node k (root: 1) are 2k + 1 and 2k, node k is at index 2P - 1 - k
      std::function<int (int, int)> walk = [&] (int k, int b) -> int { int own = (int) s[2 * P - 1 - k]; if (k >= P) return b + own; int m = walk (2 * k + 1, b), z = walk (2 * k, m); if (m > b && z > m) { if (P > 1) nontrivial (); tag ("dissected"); for (int i = b; i < m; i ++) for (auto &x : g.adj[inv[i]]) { int y = (int) (pv[x.first] - base); CHECK (y < m || y >= z, "edge %d-%d links the two parts of dissection node %d; sizes is %s", inv[i], x.first, k, listText (s).c_str ()); } } return z + own; };
      walk (1, 0); int used = 0; for (int i = 0; i < P; i ++) used += s[i] > 0; if (P > 1 && n >= 100 && ! strncmp (g.family, "biggrid", 7)) CHECK (used >= 2, "a grid is said not to be dissected: sizes is %s", listText (s).c_str ()); if (P > 1 && n >= 100 && used >= 2) tag ("large-dissected"); if (P > 1 && n >= 100 && used < 2) tag ("large-not-dissected"); }
  } else { bool geom = coin (); int k = (int) irange (1, 9), wm = (int) draw (4); Num wf = (wm & 2 ? 2 : 0) | (wm & 1); bool usev = wm & 2, usee = wm & 1, nulls = coin (); if (! g.hasVelo) usev = false, wf &= 1; if (! g.hasEdlo) usee = false, wf &= 2; Num kk = k, one = 1, nd = 3; std::vector<double> tw; { bool uni = coin (); double s = 0; bool fine = coin (); for (int i = 0; i < k; i ++) { tw.push_back (uni ? 1 : fine ? (double) irange (50, 400) : (double) irange (1, 4)); s += tw.back (); } for (double &x : tw) x /= s; if (! uni) tag (fine ? "fine-shares" : "shares"); }
    std::vector<float> tf (tw.begin (), tw.end ()), ub (1, 1.05f), xyz (3 * cnt + 1, 0.5f); std::string ts; for (float x : tf) ts += strf ("%g ", x); describe ("%s dist=%s base=%d %sV3_Part%sKway k=%d wgtflag=%d shares=%s", g.text ().c_str (), listText (NumV (d.cnt.begin (), d.cnt.end ())).c_str (), (int) base, hn[how], geom ? "Geom" : "", k, (int) wf, ts.c_str ()); tag (strf ("%s-wgtflag%d", geom ? "PartGeomKway" : "PartKway", (int) wf));
    PB pt (NumV (cnt, -77)); Num cut = -77, *pw = usev || ! nulls ? vw.p : nullptr, *pe = usee || ! nulls ? ew.p : nullptr;
    if (geom) switch (how) { case 0: rc = ParMETIS_V3_PartGeomKway (vt.p, xa.p, aj.p, pw, pe, &wf, &base, &nd, xyz.data (), &one, &kk, tf.data (), ub.data (), op.p, &cut, pt.p, &comm); break; case 1: rc = SCOTCH_ParMETIS_V3_PartGeomKway (vt.p, xa.p, aj.p, pw, pe, &wf, &base, &nd, xyz.data (), &one, &kk, tf.data (), ub.data (), op.p, &cut, pt.p, &comm); break; case 2: parmetis_v3_partgeomkway_ (vt.p, xa.p, aj.p, pw, pe, &wf, &base, &nd, xyz.data (), &one, &kk, tf.data (), ub.data (), op.p, &cut, pt.p, &fc); break; default: scotchfparmetis_v3_partgeomkway_ (vt.p, xa.p, aj.p, pw, pe, &wf, &base, &nd, xyz.data (), &one, &kk, tf.data (), ub.data (), op.p, &cut, pt.p, &fc, &rc); }
    else switch (how) { case 0: rc = ParMETIS_V3_PartKway (vt.p, xa.p, aj.p, pw, pe, &wf, &base, &one, &kk, tf.data (), ub.data (), op.p, &cut, pt.p, &comm); break; case 1: rc = SCOTCH_ParMETIS_V3_PartKway (vt.p, xa.p, aj.p, pw, pe, &wf, &base, &one, &kk, tf.data (), ub.data (), op.p, &cut, pt.p, &comm); break; case 2: parmetis_v3_partkway_ (vt.p, xa.p, aj.p, pw, pe, &wf, &base, &one, &kk, tf.data (), ub.data (), op.p, &cut, pt.p, &fc); break; default: scotchfparmetis_v3_partkway_ (vt.p, xa.p, aj.p, pw, pe, &wf, &base, &one, &kk, tf.data (), ub.data (), op.p, &cut, pt.p, &fc, &rc); }
    CHECK (rc == 1, "PartKway returns %d: %s", rc, lastErr ().c_str ()); NumV p = allgather (pt.p, cnt); LL ex = 0; std::vector<double> ld (k, 0); double tot = 0, mx = 1; bool cross = false; std::set<Num> us;
    for (int v = 0; v < n; v ++) { CHECK (p[v] >= base && p[v] < base + k, "vertex %d is in part %lld of %d (base %d)", v, (LL) p[v], k, (int) base); double w = usev ? (double) g.vw (v) : 1; ld[p[v] - base] += w; tot += w; mx = std::max (mx, w); us.insert (p[v]); for (auto &x : g.adj[v]) if (v < x.first && p[v] != p[x.first]) { ex += usee ? x.second : 1; if (d.owner (v) != d.owner (x.first)) cross = true; } }
    CHECK (sameAll (cut), "edgecut is not the same on all processes"); CHECK (cut == ex, "edgecut is %lld, the cut is %lld", (LL) cut, ex); if (P > 1 && cross && us.size () > 1) nontrivial ();
    if (n >= 40) for (int i = 0; i < k; i ++) { double sh = tot * tw[i]; if (getenv ("VF_CAL")) { if (me == 0) fprintf (stderr, "CAL %.3f rel=%.3f\n", (ld[i] - sh * 1.05) / mx, ld[i] / sh); } else CHECK (ld[i] <= sh * 1.10 * 1.05 + 4 * mx, "part %d has load %g for a share of %g", i, ld[i], sh); } }
  vt.same ("vtxdist"); xa.same ("xadj"); aj.same ("adjncy"); vw.same ("vwgt"); ew.same ("adjwgt");
}
