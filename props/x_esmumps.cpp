// X02: ESMUMPS ordering interface.
#include "order.hpp"
extern "C" {
#include <esmumps.h>
#define CN const Num *
void esmumpsf_ (CN, CN, Num *, CN, Num *, Num *, Num *, Num *, Num *, Num *); void esmumpsvf_ (CN, CN, Num *, CN, Num *, Num *, Num *, Num *, Num *, Num *);
}
typedef long long LL;
struct Out { NumV pe, nv; };
struct In { NumV pe, len, iw; Num pfree; };
static Out runMumps (const MGraph &g, const In &in, const NumV *w, bool fortran, const char *what) {
  Num n = g.n, iwlen = in.iw.size (), pfree = in.pfree; Num *pe = dupNum (in.pe), *len = dupNum (in.len), *iw = dupNum (in.iw), *nv = dupNum (w ? *w : NumV (n, -7)), *elen = dupNum (NumV (n, -7)), *last = dupNum (NumV (n, -7)), nc = -99; int rc = 0;
  SCOTCH_randomReset ();
  if (fortran) { (w ? esmumpsvf_ : esmumpsf_) (&n, &iwlen, pe, &pfree, len, iw, nv, elen, last, &nc); rc = (int) nc; } else rc = (w ? esmumpsv : esmumps) (n, iwlen, pe, pfree, len, iw, nv, elen, last);
  Out o; o.pe.assign (pe, pe + g.n); o.nv.assign (nv, nv + g.n); bool same = NumV (iw, iw + in.iw.size ()) == in.iw && NumV (len, len + g.n) == in.len;
  free (pe); free (len); free (iw); free (nv); free (elen); free (last);
  CHECK (rc == 0, "%s returned %d: %s", what, rc, lastErr ().c_str ()); CHECK (same, "%s modified len or iw", what); CHECK (n == g.n && pfree == in.pfree, "%s modified a scalar input", what);
  return o;
}
static int valid (const MGraph &g, const Out &o, const NumV *w, const char *what) {
  int n = g.n, ng = 0; std::vector<int> grp (n), fat (n, -1); std::vector<LL> gw (n, 0);
  for (int v = 0; v < n; v ++) { CHECK (o.nv[v] >= 0, "%s: nv(%d) = %lld", what, v + 1, (LL) o.nv[v]); CHECK (o.pe[v] <= 0 && o.pe[v] >= - (Num) n, "%s: pe(%d) = %lld, of %d variables", what, v + 1, (LL) o.pe[v], n); int f = (int) - o.pe[v] - 1;
    if (o.nv[v] == 0) { CHECK (f >= 0, "%s: secondary variable %d has no principal variable", what, v + 1); CHECK (o.nv[f] > 0, "%s: secondary variable %d points to %d, which is a secondary variable as well", what, v + 1, f + 1); grp[v] = f; }
    else { grp[v] = v; fat[v] = f; ng ++; CHECK (f < 0 || o.nv[f] > 0, "%s: principal variable %d has secondary variable %d for father", what, v + 1, f + 1); } gw[grp[v]] += w ? (*w)[v] : 1; }
  std::vector<int> depth (n, -1); for (int v = 0; v < n; v ++) if (grp[v] == v) { int d = 0; for (int a = v; a >= 0; a = fat[a]) { CHECK (d <= n, "%s: the tree loops above variable %d", what, v + 1); d ++; } depth[v] = d; }
  std::vector<int> byd; for (int v = 0; v < n; v ++) if (grp[v] == v) byd.push_back (v); std::stable_sort (byd.begin (), byd.end (), [&] (int a, int b) { return depth[a] > depth[b]; });
  std::vector<std::set<int>> st (n); for (int v = 0; v < n; v ++) for (auto &e : g.adj[v]) { int a = grp[v], b = grp[e.first]; if (a != b && depth[b] < depth[a]) st[a].insert (e.first); else CHECK (a == b || depth[b] > depth[a], "%s: variables %d and %d interact but are in unrelated branches of the tree", what, v + 1, e.first + 1); }
  for (int k : byd) {                            // sons first: st[k] becomes the structure below the diagonal block
    LL deg = gw[k]; int top = -1; for (int x : st[k]) { deg += w ? (*w)[x] : 1; int a = fat[k]; while (a >= 0 && a != grp[x]) a = fat[a]; CHECK (a >= 0, "%s: variable %d is in the structure of the block of %d but is none of its ancestors", what, x + 1, k + 1); if (top < 0 || depth[grp[x]] > top) top = depth[grp[x]]; }
    CHECK (st[k].empty () == (fat[k] < 0), "%s: the block of %d has %d off-diagonal rows, and its father is %d", what, k + 1, (int) st[k].size (), fat[k] + 1); CHECK (st[k].empty () || top == depth[fat[k]], "%s: the father of %d is %d, but no row of its block belongs to it", what, k + 1, fat[k] + 1);
    CHECK (deg == o.nv[k], "%s: nv(%d) = %lld, and its front has %lld columns", what, k + 1, (LL) o.nv[k], deg);
    if (fat[k] >= 0) for (int x : st[k]) if (grp[x] != fat[k]) st[fat[k]].insert (x); }
  return ng;
}
PROPERTY (X02, "the assembly tree has at least two principal variables, one of which has a father") {
  seedLib ();
  if (chance (1, 6)) {                            // strategy strings for MUMPS
    GenOpt o; o.nmin = 1; o.nmax = 40; o.big = 400; o.edlo = false; o.vlbl = false; MGraph g = genGraph (o); if (g.n == 0) skipCase (); Rep r; r.make (g); r.build (); tag ("strategy");
    Num pr = irange (1, 20), lf = irange (1, 150), cmi = irange (0, 30), cma = irange (1, 200); int leo = (int) draw (2), verb = (int) draw (2); double fr = (double) irange (0, 40) / 40; char *s = (char *) malloc (4096); OutStream os;
    int rc = esmumps_strat1 (pr, lf, leo, cmi, cma, fr, verb, os.f, s); std::string str (s); free (s); describe ("%s strategy %s", g.text ().c_str (), str.c_str ()); CHECK (rc == 0, "esmumps_strat1 returned %d", rc); CHECK ((verb != 0) == ! os.str ().empty (), "verbosity %d wrote %d bytes", verb, (int) os.str ().size ());
    SCOTCH_Strat st; SCOTCH_stratInit (&st); CHECK (SCOTCH_stratGraphOrder (&st, str.c_str ()) == 0, "strategy string of esmumps_strat1 is refused: %s", lastErr ().c_str ());
    int n = g.n; Num *pe = dupNum (NumV (n, -5)), *pi = dupNum (NumV (n, -5)), *ra = dupNum (NumV (n + 1, -5)), *tr = dupNum (NumV (n, -5)), cb = -5; rc = SCOTCH_graphOrder (&r.graf, &st, pe, pi, &cb, ra, tr); NumV vp (pe, pe + n), vi (pi, pi + n), vr (ra, ra + n + 1), vt (tr, tr + n); free (pe); free (pi); free (ra); free (tr); SCOTCH_stratExit (&st);
    CHECK (rc == 0, "ordering failed: %s", lastErr ().c_str ()); checkOrder (g, r.base, vp.data (), vi.data (), cb, vr.data (), vt.data ()); r.unchanged ("ordering"); nontrivial (cb >= 2); return;
  }
  GenOpt o; o.nmin = 1; o.nmax = 45; o.big = 500; o.velozero = false; o.edlo = false; o.vlbl = false; MGraph g = genGraph (o); if (g.n == 0) skipCase (); int n = g.n; bool fortran = chance (1, 4); Rng r = bulk ();
  if (g.hasVelo) for (auto &x : g.velo) if (x < 1) x = 1;
  In in; in.pe.resize (n); in.len.resize (n); bool perm = coin (), extra = coin (); std::vector<int> ord (n); for (int i = 0; i < n; i ++) ord[i] = i; if (perm) shuffleR (ord, r);
  for (int v : ord) { in.len[v] = g.adj[v].size (); in.pe[v] = (Num) in.iw.size () + 1; for (auto &e : g.adj[v]) in.iw.push_back (e.first + 1); } in.pfree = in.iw.size () + 1; if (extra) for (int i = (int) irange (1, n); i > 0; i --) in.iw.push_back (-3);
  describe ("%s permuted=%d extra=%d%s", g.text ().c_str (), perm, extra, fortran ? " fortran" : ""); tag (g.hasVelo ? "weighted" : "unweighted"); if (perm) tag ("permuted"); if (fortran) tag ("fortran"); tag (strf ("n%s", n < 10 ? "<10" : n < 50 ? "<50" : n < 150 ? "<150" : ">=150"));
  const NumV *w = g.hasVelo ? &g.velo : nullptr; const char *nm = w ? "esmumpsv" : "esmumps"; Out a = runMumps (g, in, w, fortran, nm); int ng = valid (g, a, w, nm);
  switch (draw (3)) {
    case 0: { tag ("same-by-other-interface"); Out b = runMumps (g, in, w, ! fortran, nm); CHECK (a.pe == b.pe && a.nv == b.nv, "C and Fortran interfaces of %s differ", nm); break; }
    case 1: if (! w) { tag ("unit-weights"); NumV u (n, 1); Out b = runMumps (g, in, &u, fortran, "esmumpsv with unit weights"); CHECK (a.pe == b.pe && a.nv == b.nv, "esmumpsv with unit weights and esmumps differ"); } else { tag ("scaled-weights"); NumV u (*w); for (auto &x : u) x *= 3; Out b = runMumps (g, in, &u, fortran, nm); valid (g, b, &u, "esmumpsv with scaled weights"); } break;
    default: break; }
  bool f = false; for (int v = 0; v < n; v ++) if (a.nv[v] > 0 && a.pe[v] < 0) f = true; nontrivial (ng >= 2 && f);
}
