// X01: METIS compatibility library.
#include "arch.hpp"
#include "mesh.hpp"
#include "order.hpp"
#define SCOTCH_METIS_VERSION 5
extern "C" {
#include <metis.h>
#define CN const Num *
#define D3(n, ...) int n (__VA_ARGS__); int v3_##n (__VA_ARGS__);
int v3_METIS_EdgeND (CN, CN, CN, CN, CN, Num *, Num *); int v3_METIS_NodeND (CN, CN, CN, CN, CN, Num *, Num *); int v3_METIS_NodeWND (CN, CN, CN, CN, CN, CN, Num *, Num *);
int v3_METIS_PartGraphKway (CN, CN, CN, CN, CN, CN, CN, CN, CN, Num *, Num *); int v3_METIS_PartGraphRecursive (CN, CN, CN, CN, CN, CN, CN, CN, CN, Num *, Num *); int v3_METIS_PartGraphVKway (CN, CN, CN, CN, CN, CN, CN, CN, CN, Num *, Num *);
void v3_metis_edgend_ (CN, CN, CN, CN, CN, Num *, Num *); void v3_metis_nodend_ (CN, CN, CN, CN, CN, Num *, Num *); void v3_metis_nodewnd_ (CN, CN, CN, CN, CN, CN, Num *, Num *);
void v3_metis_partgraphkway_ (CN, CN, CN, CN, CN, CN, CN, CN, CN, Num *, Num *); void v3_metis_partgraphrecursive_ (CN, CN, CN, CN, CN, CN, CN, CN, CN, Num *, Num *); void v3_metis_partgraphvkway_ (CN, CN, CN, CN, CN, CN, CN, CN, CN, Num *, Num *);
void scotchfmetis_v3_edgend_ (CN, CN, CN, CN, CN, Num *, Num *, int *); void scotchfmetis_v3_nodend_ (CN, CN, CN, CN, CN, Num *, Num *, int *); void scotchfmetis_v3_nodewnd_ (CN, CN, CN, CN, CN, CN, Num *, Num *, int *); void scotchfmetis_v5_nodend_ (CN, CN, CN, CN, CN, Num *, Num *, int *);
void metis_nodend_ (CN, CN, CN, CN, CN, Num *, Num *);
void scotchfmetis_v3_partgraphkway_ (CN, CN, CN, CN, CN, CN, CN, CN, CN, Num *, Num *, int *); void scotchfmetis_v3_partgraphrecursive_ (CN, CN, CN, CN, CN, CN, CN, CN, CN, Num *, Num *, int *); void scotchfmetis_v3_partgraphvkway_ (CN, CN, CN, CN, CN, CN, CN, CN, CN, Num *, Num *, int *);
void scotchfmetis_v5_partgraphkway_ (CN, CN, CN, CN, CN, CN, CN, CN, const double *, const double *, CN, Num *, Num *, int *); void scotchfmetis_v5_partgraphrecursive_ (CN, CN, CN, CN, CN, CN, CN, CN, const double *, const double *, CN, Num *, Num *, int *);
void metis_partgraphkway_ (CN, CN, CN, CN, CN, CN, CN, CN, const double *, const double *, CN, Num *, Num *); void metis_partgraphrecursive_ (CN, CN, CN, CN, CN, CN, CN, CN, const double *, const double *, CN, Num *, Num *);
void metis_meshtodual_ (CN, CN, CN, CN, CN, CN, Num **, Num **); void scotchfmetis_meshtodual_ (CN, CN, CN, CN, CN, CN, Num **, Num **); int v3_METIS_MeshToDual (CN, CN, CN, CN, CN, CN, Num **, Num **);
void metis_partmeshdual_ (CN, CN, CN, CN, CN, CN, CN, CN, const double *, CN, Num *, Num *, Num *); int v3_METIS_PartMeshDual (CN, CN, CN, CN, CN, CN, CN, CN, const double *, CN, Num *, Num *, Num *);
void metis_setdefaultoptions_ (Num *); int v3_METIS_SetDefaultOptions (Num *);
}
typedef long long LL;
struct Buf { Num *p; NumV c; Buf (const NumV &v) : p (dupNum (v)), c (v) {} ~Buf () { free (p); } Buf (const Buf &) = delete; void same (const char *w) { for (size_t i = 0; i < c.size (); i ++) CHECK (p[i] == c[i], "input array %s was modified", w); } };
struct CSR { NumV xadj, adj, ew; };
static CSR csr (const MGraph &g, Num base) { CSR c; c.xadj.push_back (base); for (int v = 0; v < g.n; v ++) { for (auto &e : g.adj[v]) { c.adj.push_back (e.first + base); c.ew.push_back (e.second); } c.xadj.push_back (base + c.adj.size ()); } return c; }
static Num *D (Num *t) { return t; }
static NumV options (bool f, Num base, int obj) { Num *o = dupNum (NumV (METIS_NOPTIONS, 12345)); int r = METIS_OK; switch (draw (4)) { case 0: r = METIS_SetDefaultOptions (o); break; case 1: r = SCOTCH_METIS_SetDefaultOptions (o); break; case 2: r = v3_METIS_SetDefaultOptions (o); break; default: metis_setdefaultoptions_ (o); }
  NumV v (o, o + METIS_NOPTIONS); free (o); CHECK (r == METIS_OK, "SetDefaultOptions returned %d", r); CHECK (v[METIS_OPTION_OBJTYPE] == METIS_OBJTYPE_CUT, "default objective is %lld", (LL) v[METIS_OPTION_OBJTYPE]); for (int i = 0; i < METIS_NOPTIONS; i ++) CHECK (v[i] == 0 || i == METIS_OPTION_OBJTYPE, "default option %d is %lld", i, (LL) v[i]); v[METIS_OPTION_NUMBERING] = base; v[METIS_OPTION_OBJTYPE] = obj; return v; }
static int64_t cutOf (const MGraph &g, const NumV &p, bool w) { int64_t s = 0; for (int u = 0; u < g.n; u ++) for (auto &e : g.adj[u]) if (u < e.first && p[u] != p[e.first]) s += w ? e.second : 1; return s; }
static int64_t volOf (const MGraph &g, const NumV &p, const NumV *vs) { int64_t s = 0; for (int u = 0; u < g.n; u ++) { std::set<Num> t; for (auto &e : g.adj[u]) if (p[e.first] != p[u]) t.insert (p[e.first]); s += (int64_t) t.size () * (vs ? (*vs)[u] : 1); } return s; }
struct TW { bool on = false; std::vector<double> w; };
static TW genTw (int k) { TW t; if (! chance (1, 3)) return t; t.on = true; std::vector<double> x; double s = 0; bool fine = coin (); for (int i = 0; i < k; i ++) { x.push_back (fine ? (double) irange (50, 400) : (double) irange (1, 4)); s += x.back (); } for (double v : x) t.w.push_back (v / s); return t; }
static void balanced (const MGraph &g, const NumV *w, const NumV &p, int k, const TW &t, double bal) {
  std::vector<double> ld (k); double tot = 0, wm = 1; for (int v = 0; v < g.n; v ++) { double x = w ? (double) (*w)[v] : 1; ld[p[v]] += x; tot += x; wm = std::max (wm, x); }
  for (int i = 0; i < k; i ++) { double sh = tot * (t.on ? t.w[i] : 1.0 / k), lim = sh * (1 + bal) * 1.02 + (t.on ? 3.5 : 3) * wm; if (getenv ("VF_CAL")) fprintf (stderr, "CAL %s k=%d tw=%d %.3f\n", g.family, k, t.on, (ld[i] - sh * (1 + bal)) / wm); else CHECK (ld[i] <= lim, "part %d has load %g for a share of %g (tolerance %g, heaviest vertex %g)", i, ld[i], sh, bal, wm); }
}
static void partGraph () {
  GenOpt o; o.nmin = 1; o.nmax = 30; o.big = 250; o.vlbl = false; MGraph g = genGraph (o); if (g.n == 0) skipCase (); Num base = (Num) draw (2), n = g.n; int k = (int) irange (1, 9); bool v5 = coin (), rec = coin (); int vol = weighted ({3, 2, 2}); /* 0: cut, 1: volume with sizes, 2: volume without */
  if (! v5 && rec) vol = 0; NumV vs; Rng r = bulk (); int vm = (int) irange (1, 8); for (int v = 0; v < g.n; v ++) vs.push_back (r.range (1, vm)); CSR c = csr (g, base);
  int ncon = v5 && chance (1, 4) ? (int) irange (2, 3) : 1; NumV vw; if (g.hasVelo) for (int v = 0; v < g.n; v ++) { vw.push_back (g.velo[v]); for (int i = 1; i < ncon; i ++) vw.push_back (r.range (1, 20)); }
  TW t; if (v5) t = genTw (k); std::vector<double> tw; if (t.on) for (int i = 0; i < k; i ++) { tw.push_back (t.w[i]); for (int j = 1; j < ncon; j ++) tw.push_back (1.0 / k); }
  double kbal = 0.01; std::vector<double> ub; if (v5 && chance (1, 3)) { kbal = pick (std::vector<double> {0.05, 0.01, 0.1, 0.3, 0.001}); ub.assign (ncon, 1 + kbal); }
  bool dirt = ! v5 && chance (1, 3); Num wf = (g.hasVelo ? 2 : 0) | (vol == 0 ? (g.hasEdlo ? 1 : 0) : (vol == 1 ? 1 : 0)); NumV junk (std::max<size_t> (c.adj.size (), n) , -9); /* with a weight flag, unused weight arrays are not to be read */
  Buf xa (c.xadj), aj (c.adj), vb (vw), eb (c.ew), sb (vs), jk (junk), twb (NumV {}); Num *pv = g.hasVelo ? vb.p : dirt ? jk.p : nullptr, *pe = vol == 0 ? (g.hasEdlo ? eb.p : dirt ? jk.p : nullptr) : (vol == 1 ? sb.p : dirt ? jk.p : nullptr);
  bool nowf = ! v5 && ! dirt && chance (1, 5); bool useopt = base != 0 || vol == 2 || coin (); Buf ob (options (false, base, vol == 2 ? METIS_OBJTYPE_VOL : METIS_OBJTYPE_CUT)); Num nb = n, kb = k, nc = ncon, bb = base;
  Num *part = dupNum (NumV (n, -55)); Num obj = -77; int rc = METIS_OK, how = (int) draw (4); bool haswf = ! nowf; SCOTCH_randomReset ();
  describe ("%s %s %s vol=%d k=%d base=%d ncon=%d how=%d%s%s", g.text ().c_str (), v5 ? "v5" : "v3", rec ? "rec" : "kway", vol, k, (int) base, ncon, how, t.on ? " tpwgts" : "", ub.empty () ? "" : " ubvec"); tag (strf ("%s-%s-%s", v5 ? "v5" : "v3", rec ? "recursive" : "kway", vol == 0 ? "cut" : "volume")); tag (strf ("base%d", (int) base)); if (t.on) tag ("tpwgts"); if (ncon > 1) tag ("multi-constraint"); if (dirt) tag ("unused-weights");
  std::vector<double> twc (tw), ubc (ub); double *tp = t.on ? tw.data () : nullptr, *up = ub.empty () ? nullptr : ub.data ();
  if (v5) { Num *ee = vol == 0 && g.hasEdlo ? eb.p : nullptr, *ss = vol == 1 ? sb.p : nullptr, *oo = useopt ? ob.p : nullptr; if (! useopt && coin ()) oo = xa.p; /* Fortran convention for no option array */
    switch (how) { case 0: rc = (rec ? METIS_PartGraphRecursive : METIS_PartGraphKway) (&nb, &nc, xa.p, aj.p, pv, ss, ee, &kb, tp, up, oo, &obj, part); break;
      case 1: rc = (rec ? SCOTCH_METIS_V5_PartGraphRecursive : SCOTCH_METIS_V5_PartGraphKway) (&nb, &nc, xa.p, aj.p, pv, ss, ee, &kb, tp, up, oo, &obj, part); break;
      case 2: (rec ? scotchfmetis_v5_partgraphrecursive_ : scotchfmetis_v5_partgraphkway_) (&nb, &nc, xa.p, aj.p, pv, ss, ee, &kb, tp, up, oo, &obj, part, &rc); break;
      default: (rec ? metis_partgraphrecursive_ : metis_partgraphkway_) (&nb, &nc, xa.p, aj.p, pv, ss, ee, &kb, tp, up, oo, &obj, part); } }
  else { Num *fw = nowf ? nullptr : &wf; Num o3[8] = {0}; typedef int F (CN, CN, CN, CN, CN, CN, CN, CN, CN, Num *, Num *); typedef void G (CN, CN, CN, CN, CN, CN, CN, CN, CN, Num *, Num *); typedef void H (CN, CN, CN, CN, CN, CN, CN, CN, CN, Num *, Num *, int *);
    switch (how) { case 0: { F *f = vol ? v3_METIS_PartGraphVKway : rec ? v3_METIS_PartGraphRecursive : v3_METIS_PartGraphKway; rc = f (&nb, xa.p, aj.p, pv, pe, fw, &bb, &kb, o3, &obj, part); break; }
      case 1: { F *f = vol ? SCOTCH_METIS_V3_PartGraphVKway : rec ? SCOTCH_METIS_V3_PartGraphRecursive : SCOTCH_METIS_V3_PartGraphKway; rc = f (&nb, xa.p, aj.p, pv, pe, fw, &bb, &kb, o3, &obj, part); break; }
      case 2: { H *f = vol ? scotchfmetis_v3_partgraphvkway_ : rec ? scotchfmetis_v3_partgraphrecursive_ : scotchfmetis_v3_partgraphkway_; f (&nb, xa.p, aj.p, pv, pe, fw, &bb, &kb, o3, &obj, part, &rc); break; }
      default: { G *f = vol ? v3_metis_partgraphvkway_ : rec ? v3_metis_partgraphrecursive_ : v3_metis_partgraphkway_; f (&nb, xa.p, aj.p, pv, pe, fw, &bb, &kb, o3, &obj, part); } } }
  NumV p (part, part + n); free (part); CHECK (rc == METIS_OK, "partitioning returned %d: %s", rc, lastErr ().c_str ());
  for (auto &x : p) { x -= base; CHECK (x >= 0 && x < k, "part number %lld of %d parts, with numbering from %d", (LL) (x + base), k, (int) base); }
  xa.same ("xadj"); aj.same ("adjncy"); vb.same ("vwgt"); eb.same ("adjwgt"); sb.same ("vsize"); ob.same ("options"); CHECK (nb == n && kb == k && nc == ncon && bb == base && tw == twc && ub == ubc, "a scalar or floating-point input was modified");
  int64_t ex = vol == 0 ? cutOf (g, p, g.hasEdlo) : volOf (g, p, vol == 1 ? &vs : nullptr); CHECK (obj == ex, "objective %lld is reported, the %s of the partition is %lld", (LL) obj, vol ? "communication volume" : "edge cut", (LL) ex);
  NumV w1; if (g.hasVelo) w1 = g.velo; balanced (g, g.hasVelo ? &w1 : nullptr, p, k, t, kbal);
  // Same as the Scotch routine they redirect to
  if (! t.on) { NumV el; if (vol == 1) for (int v = 0; v < g.n; v ++) for (auto &e : g.adj[v]) el.push_back (vs[v] + vs[e.first]); else if (vol == 0 && g.hasEdlo) el = c.ew; Num *wt = g.hasVelo ? dupNum (w1) : nullptr, *et = el.empty () ? nullptr : dupNum (el), *q = dupNum (NumV (n, -1)); SCOTCH_Graph sg; SCOTCH_Strat st; SCOTCH_graphInit (&sg); SCOTCH_stratInit (&st); SCOTCH_randomReset ();
    CHECK (SCOTCH_graphBuild (&sg, base, n, xa.p, xa.p + 1, wt, nullptr, (Num) c.adj.size (), aj.p, et) == 0, "graphBuild failed"); CHECK (SCOTCH_stratGraphMapBuild (&st, rec ? SCOTCH_STRATRECURSIVE : SCOTCH_STRATDEFAULT, k, kbal) == 0, "stratGraphMapBuild failed"); CHECK (SCOTCH_graphPart (&sg, k, &st, q) == 0, "graphPart failed");
    NumV qq (q, q + n); SCOTCH_stratExit (&st); SCOTCH_graphExit (&sg); free (wt); free (et); free (q); for (int v = 0; v < g.n; v ++) CHECK (qq[v] == p[v], "vertex %d gets part %lld, and %lld by the Scotch routine with the same data", v, (LL) p[v], (LL) qq[v]); }
  nontrivial (k >= 2 && obj > 0);
}
static void order () {
  GenOpt o; o.nmin = 1; o.nmax = 40; o.big = 400; o.edlo = false; o.vlbl = false; MGraph g = genGraph (o); if (g.n == 0) skipCase (); Num base = (Num) draw (2), n = g.n, bb = base; CSR c = csr (g, base); Buf xa (c.xadj), aj (c.adj), vb (g.hasVelo ? g.velo : NumV {}); int kind = (int) draw (4), how = (int) draw (4); bool w = kind >= 2 && g.hasVelo; Num *pv = w ? vb.p : nullptr; Num o3[8] = {0};
  Buf ob (options (false, base, 0)); Num *oo = base != 0 || coin () ? ob.p : coin () ? nullptr : xa.p; Num *perm = dupNum (NumV (n, -5)), *iper = dupNum (NumV (n, -5)); int rc = METIS_OK; SCOTCH_randomReset (); static const char *kn[] = {"edgend", "nodend", "nodewnd", "v5-nodend"}; describe ("%s order %s base=%d how=%d", g.text ().c_str (), kn[kind], (int) base, how); tag (kn[kind]); tag (strf ("base%d", (int) base));
  switch (kind) {
    case 0: switch (how) { case 0: rc = v3_METIS_EdgeND (&n, xa.p, aj.p, &bb, o3, perm, iper); break; case 1: rc = SCOTCH_METIS_V3_EdgeND (&n, xa.p, aj.p, &bb, o3, perm, iper); break; case 2: scotchfmetis_v3_edgend_ (&n, xa.p, aj.p, &bb, o3, perm, iper, &rc); break; default: v3_metis_edgend_ (&n, xa.p, aj.p, &bb, o3, perm, iper); } break;
    case 1: switch (how) { case 0: rc = v3_METIS_NodeND (&n, xa.p, aj.p, &bb, o3, perm, iper); break; case 1: rc = SCOTCH_METIS_V3_NodeND (&n, xa.p, aj.p, &bb, o3, perm, iper); break; case 2: scotchfmetis_v3_nodend_ (&n, xa.p, aj.p, &bb, o3, perm, iper, &rc); break; default: v3_metis_nodend_ (&n, xa.p, aj.p, &bb, o3, perm, iper); } break;
    case 2: switch (how) { case 0: rc = v3_METIS_NodeWND (&n, xa.p, aj.p, pv, &bb, o3, perm, iper); break; case 1: rc = SCOTCH_METIS_V3_NodeWND (&n, xa.p, aj.p, pv, &bb, o3, perm, iper); break; case 2: scotchfmetis_v3_nodewnd_ (&n, xa.p, aj.p, pv, &bb, o3, perm, iper, &rc); break; default: v3_metis_nodewnd_ (&n, xa.p, aj.p, pv, &bb, o3, perm, iper); } break;
    default: switch (how) { case 0: rc = METIS_NodeND (&n, xa.p, aj.p, pv, oo, perm, iper); break; case 1: rc = SCOTCH_METIS_V5_NodeND (&n, xa.p, aj.p, pv, oo, perm, iper); break; case 2: scotchfmetis_v5_nodend_ (&n, xa.p, aj.p, pv, oo, perm, iper, &rc); break; default: metis_nodend_ (&n, xa.p, aj.p, pv, oo, perm, iper); } }
  NumV p (perm, perm + n), ip (iper, iper + n); free (perm); free (iper); CHECK (rc == METIS_OK, "ordering returned %d: %s", rc, lastErr ().c_str ()); xa.same ("xadj"); aj.same ("adjncy"); vb.same ("vwgt"); ob.same ("options"); CHECK (n == g.n && bb == base, "a scalar input was modified");
  checkOrder (g, base, ip.data (), p.data (), -1, nullptr, nullptr);       // METIS perm is the Scotch inverse permutation
  Num *q = dupNum (NumV (n, -1)), *iq = dupNum (NumV (n, -1)); SCOTCH_Graph sg; SCOTCH_Strat st; SCOTCH_graphInit (&sg); SCOTCH_stratInit (&st); SCOTCH_randomReset (); CHECK (SCOTCH_graphBuild (&sg, base, n, xa.p, xa.p + 1, pv, nullptr, (Num) c.adj.size (), aj.p, nullptr) == 0 && SCOTCH_graphOrder (&sg, &st, q, iq, nullptr, nullptr, nullptr) == 0, "graphOrder failed");
  NumV qq (q, q + n), iqq (iq, iq + n); SCOTCH_stratExit (&st); SCOTCH_graphExit (&sg); free (q); free (iq); CHECK (qq == ip && iqq == p, "perm and iperm are not the inverse and direct permutations of the Scotch routine with the same data"); nontrivial (n >= 10 && ! c.adj.empty ());
}
static MGraph dualOf (const MMesh &m, int nc) { MGraph g; g.resize (m.ne); std::map<std::pair<int, int>, int> s; for (auto &x : m.no) for (size_t i = 0; i < x.size (); i ++) for (size_t j = 0; j < x.size (); j ++) if (x[i] < x[j]) s[{x[i], x[j]}] ++; for (auto &q : s) if (q.second >= std::min ({nc, std::max (1, (int) m.el[q.first.first].size () - 1), std::max (1, (int) m.el[q.first.second].size () - 1)})) /* as documented for meshGraphDual, and as METIS does */ g.addFast (q.first.first, q.first.second); g.family = "dual"; return g; }
static void meshDual (bool partit) {
  MeshOpt o; o.nmax = 12; o.big = 150; o.lbl = false; MMesh m = genMesh (o); Num base = (Num) draw (2), ne = m.ne, nn = m.nn, nc = (Num) irange (1, 3), bb = base; if (partit && ne == 0) skipCase (); NumV ep (1, base), ei; for (auto &x : m.el) { for (int v : x) ei.push_back (v + base); ep.push_back (base + ei.size ()); }
  Num bad = -1; bool inval = chance (1, 6) && ! ei.empty (); if (inval) { bad = (Num) draw (ei.size ()); ei[bad] = coin () ? base + nn : pick (std::vector<Num> {base - 1, base + nn + 1, base + nn + 1000}); }
  Buf pb (ep), ib (ei); int how = (int) draw (4); MGraph g = dualOf (m, (int) nc); describe ("%s %s base=%d ncommon=%d how=%d%s", m.text ().c_str (), partit ? "partmesh" : "todual", (int) base, (int) nc, how, inval ? " invalid" : ""); tag (partit ? "partmeshdual" : "meshtodual"); tag (strf ("base%d", (int) base)); if (inval) tag ("invalid");
  if (! partit) { Num *xa = (Num *) 8, *aj = nullptr; int rc = METIS_OK; g_errok = inval; switch (how) { case 0: rc = METIS_MeshToDual (&ne, &nn, pb.p, ib.p, &nc, &bb, &xa, &aj); break; case 1: rc = SCOTCH_METIS_MeshToDual (&ne, &nn, pb.p, ib.p, &nc, &bb, &xa, &aj); break; case 2: rc = v3_METIS_MeshToDual (&ne, &nn, pb.p, ib.p, &nc, &bb, &xa, &aj); break; default: (coin () ? metis_meshtodual_ : scotchfmetis_meshtodual_) (&ne, &nn, pb.p, ib.p, &nc, &bb, &xa, &aj); }
    pb.same ("eptr"); ib.same ("eind"); if (inval) { CHECK (xa == nullptr, "xadj is not null after a failure"); CHECK (how == 3 || rc == METIS_ERROR_INPUT, "out-of-range node index: %d is returned", rc); nontrivial (); return; }
    CHECK (rc == METIS_OK && xa != nullptr, "MeshToDual returned %d: %s", rc, lastErr ().c_str ()); CHECK (ne == m.ne && nn == m.nn && bb == base, "a scalar input was modified"); CHECK (xa[0] == base, "xadj starts from %lld", (LL) xa[0]); MGraph h; h.resize (m.ne);
    for (int v = 0; v < h.n; v ++) { CHECK (xa[v + 1] >= xa[v], "xadj decreases at %d", v); for (Num e = xa[v] - base; e < xa[v + 1] - base; e ++) { CHECK (aj[e] >= base && aj[e] < base + ne, "adjncy holds %lld for %lld elements", (LL) aj[e], (LL) ne); h.adj[v].push_back ({(int) (aj[e] - base), 1}); } } free (xa); free (aj);
    for (int v = 0; v < h.n; v ++) { auto a = g.adj[v], b = h.adj[v]; std::sort (a.begin (), a.end ()); std::sort (b.begin (), b.end ()); CHECK (a == b, "element %d has %zu neighbours in the dual graph, it is to be linked for %d shared nodes with %zu elements", v, b.size (), (int) nc, a.size ()); } nontrivial (ne >= 3 && g.arcs () > 0); return; }
  int k = (int) irange (1, 7); Num kb = k; int vol = weighted ({3, 2, 2}); TW t = genTw (k); bool badtw = t.on && chance (1, 6); if (badtw) t.w[0] += pick (std::vector<double> {0.3, 0.01, -0.02}); NumV vs, vw; Rng r = bulk (); for (int e = 0; e < m.ne; e ++) { vs.push_back (r.range (1, 6)); vw.push_back (m.ew (e)); } Buf vb (vw), sb (vs), ob (options (false, base, vol == 2 ? METIS_OBJTYPE_VOL : METIS_OBJTYPE_CUT)); bool useopt = base != 0 || vol == 2 || coin ();
  bool fnull = coin (); /* Fortran convention: the address of ne stands for an absent array */ Num *nul = fnull ? &ne : nullptr, *oo = useopt ? ob.p : nul, *ss = vol == 1 ? sb.p : nul, *pv = m.hasVelo ? vb.p : nullptr; const double *tp = t.on ? t.w.data () : fnull ? (const double *) &ne : nullptr; if (fnull && ! m.hasVelo) pv = &ne;
  Num obj = -77, *ea = dupNum (NumV (ne, -5)), *na = dupNum (NumV (nn, -5)); int rc = METIS_OK; g_errok = inval || badtw; SCOTCH_randomReset (); std::vector<double> twc (t.w); describe (" k=%d vol=%d%s%s%s%s", k, vol, t.on ? " tpwgts" : "", badtw ? " badsum" : "", fnull ? " fnull" : "", useopt ? " opt" : ""); if (t.on) tag ("tpwgts");
  switch (how) { case 0: rc = METIS_PartMeshDual (&ne, &nn, pb.p, ib.p, pv, ss, &nc, &kb, tp, oo, &obj, ea, na); break; case 1: rc = SCOTCH_METIS_PartMeshDual (&ne, &nn, pb.p, ib.p, pv, ss, &nc, &kb, tp, oo, &obj, ea, na); break; case 2: rc = v3_METIS_PartMeshDual (&ne, &nn, pb.p, ib.p, pv, ss, &nc, &kb, tp, oo, &obj, ea, na); break; default: metis_partmeshdual_ (&ne, &nn, pb.p, ib.p, pv, ss, &nc, &kb, tp, oo, &obj, ea, na); }
  NumV p (ea, ea + m.ne), q (na, na + m.nn); free (ea); free (na); pb.same ("eptr"); ib.same ("eind"); vb.same ("vwgt"); sb.same ("vsize"); ob.same ("options"); CHECK (t.w == twc && ne == m.ne && nn == m.nn && kb == k, "an input was modified");
  if (inval || badtw) { CHECK (obj < 0 && (how == 3 || obj == rc), "objval is %lld after a failure with status %d", (LL) obj, rc); CHECK (how == 3 || rc == METIS_ERROR_INPUT, "invalid input: status %d", rc); nontrivial (); return; }
  CHECK (rc == METIS_OK, "PartMeshDual returned %d: %s", rc, lastErr ().c_str ());
  for (auto &x : p) { x -= base; CHECK (x >= 0 && x < k, "part number %lld of %d parts, with numbering from %d", (LL) (x + base), k, (int) base); }
  for (int v = 0; v < m.nn; v ++) { bool ok = m.no[v].empty () ? q[v] >= base && q[v] < base + k : false; for (int e : m.no[v]) ok |= p[e] + base == q[v]; CHECK (ok, "node %d gets part %lld, which is none of its elements'", v, (LL) q[v]); }
  int64_t ex = vol == 0 ? cutOf (g, p, false) : volOf (g, p, vol == 1 ? &vs : nullptr); CHECK (obj == ex, "objective %lld is reported, the %s of the partition is %lld", (LL) obj, vol ? "communication volume" : "edge cut", (LL) ex);
  balanced (g, m.hasVelo ? &m.velo : nullptr, p, k, t, 0.05); nontrivial (k >= 2 && ex > 0);
}
PROPERTY (X01, "a cut or communication volume above zero, ten vertices to order, three elements and a dual edge, or a rejected mesh") { switch (weighted ({5, 3, 2, 4})) { case 0: partGraph (); break; case 1: order (); break; case 2: meshDual (false); break; default: meshDual (true); } }
