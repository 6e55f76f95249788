// D05: distributed mappings, statistics and mapping files.
#include "dgraph.hpp"
#include "arch.hpp"
#include <memory>
#define F(n) extern "C" void n ## _ (...)
F (scotchfdgraphmap); F (scotchfdgraphpart); F (scotchfdgraphmapinit); F (scotchfdgraphmapcompute); F (scotchfdgraphmapexit); F (scotchfdgraphmapstat); F (scotchfstratdgraphmap); F (scotchfstratdgraphmapbuild); F (scotchfstratdgraphclusterbuild);
struct DBind { SCOTCH_Context ctx; SCOTCH_Dgraph bnd, *use; bool on = false;
  DBind (SCOTCH_Dgraph *g, int num = 1, int den = 3) { use = g; if (! chance (num, den)) return; on = true; int n = (int) irange (1, 4), m = (int) draw (3); if (m == 0 && g_mpi_size > 1) { n = std::max (1, n - g_mpi_rank % 2); tag ("uneven-threads"); } tag (strf ("threads%d", (int) allmin (n))); CHECK (SCOTCH_contextInit (&ctx) == 0 && SCOTCH_contextThreadSpawn (&ctx, n, NULL) == 0, "cannot make context"); CHECK (SCOTCH_dgraphInit (&bnd, MPI_COMM_WORLD) == 0, "dgraphInit"); CHECK (SCOTCH_contextBindDgraph (&ctx, g, &bnd) == 0, "contextBindDgraph: %s", lastErr ().c_str ()); use = &bnd; }
  ~DBind () { if (on) { SCOTCH_dgraphExit (&bnd); SCOTCH_contextExit (&ctx); } } };
template <class T> struct Arr { T *p; size_t n; Arr (size_t k, T v) : n (k) { p = (T *) malloc (std::max<size_t> (1, k * sizeof (T))); for (size_t i = 0; i < k; i ++) p[i] = v; } ~Arr () { free (p); } T &operator[] (size_t i) { return p[i]; } };
struct Strt { SCOTCH_Strat s; std::string d; bool dflt = false; double bal = 0.05; Strt () { SCOTCH_stratInit (&s); } ~Strt () { SCOTCH_stratExit (&s); } Strt (const Strt &) = delete; };
static bool near (double a, double b) { return fabs (a - b) <= 1e-6 + 2e-5 * std::max (fabs (a), fabs (b)); }

PROPERTY (D05, "at least 2 processes, at least two parts used and an edge between two processes that is cut") {
  GenOpt o; o.nmin = 0; o.nmax = 50; o.big = 600; o.vlbl = chance (1, 3); MGraph g = genGraph (o); tag (g.family); DDist d = genDist (g.n); DRep r; r.make (g, d); r.build (); int P = g_mpi_size, me = g_mpi_rank, n = g.n, lo = d.off[me], cnt = d.cnt[me];
  auto nov = [] { tag ("fortran"); return true; };
  ArchP a; bool part = false, refuse = false;
  switch (weighted ({4, 4, 3, 2, 1})) {
    case 0: a = archCmplt ((int) irange (1, chance (1, 4) ? 60 : 12)); part = true; break;
    case 1: a = archCmplt ((int) irange (1, chance (1, 4) ? 60 : 12)); break;
    case 2: { int k = (int) irange (1, 12); a = std::make_shared<MArch> (); a->kind = "cmpltw"; a->n = k; SCOTCH_archInit (&a->arch); a->inited = true; for (int i = 0; i < k; i ++) a->w.push_back (irange (1, 9)); Num *p = dupNum (a->w); CHECK (SCOTCH_archCmpltw (&a->arch, k, p) == 0, "archCmpltw"); free (p); a->desc = "cmpltw("; for (Num x : a->w) a->desc += strf ("%d ", (int) x); a->desc += ")"; break; }
    case 3: a = std::make_shared<MArch> (); a->kind = "varcmplt"; a->desc = "varcmplt"; a->var = true; SCOTCH_archInit (&a->arch); a->inited = true; CHECK (SCOTCH_archVcmplt (&a->arch) == 0, "archVcmplt"); break;
    default: { ArchOpt ao; ao.nmax = 12; ao.deco = false; ao.sub = false; ao.load = false; a = genArch (ao); refuse = a->kind != "cmplt" && a->kind != "cmpltw"; } }
  tag ("arch-" + a->kind); Strt st; bool fs = chance (1, 8) && nov (); int k = a->n;
  switch (weighted ({4, 4, 5})) {
    case 0: st.d = "default"; st.dflt = ! a->var; tag ("strat-default"); break;
    case 1: { Num f = 0; for (int b : {SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATSCALABILITY}) if (chance (1, 4)) f |= b; double bal = pick (std::vector<double> {0.05, 0.01, 0.2, 0.5}); Num pn = chance (1, 4) ? (Num) irange (1, 8) : P, kn = k, pw = (Num) irange (1, 20); double den = pick (std::vector<double> {0.1, 0.5, 0.9, 1.0}); int e = 9;
      if (a->var) { if (fs) scotchfstratdgraphclusterbuild_ (&st.s, &f, &pn, &pw, &den, &bal, &e); else e = SCOTCH_stratDgraphClusterBuild (&st.s, f, pn, pw, den, bal); } else { if (fs) scotchfstratdgraphmapbuild_ (&st.s, &f, &pn, &kn, &bal, &e); else e = SCOTCH_stratDgraphMapBuild (&st.s, f, pn, kn, bal); st.dflt = true; st.bal = bal; }
      st.d = strf ("flags=0x%x bal=%g%s", (int) f, bal, a->var ? strf (" cluster(%d,%g)", (int) pw, den).c_str () : ""); CHECK (e == 0, "strategy %s: %s", st.d.c_str (), lastErr ().c_str ()); tag ("strat-flags"); break; }
    default: { std::string t = stratDmap ((int) draw (3)); if (a->var) { st.d = "default"; break; } int e = 9; if (fs) { std::string u = t + "###"; scotchfstratdgraphmap_ (&st.s, u.c_str (), &e, (int) t.size ()); } else e = SCOTCH_stratDgraphMap (&st.s, t.c_str ()); st.d = "'" + t + "'"; CHECK (e == 0, "strategy %s rejected: %s", t.c_str (), lastErr ().c_str ()); tag ("strat-string"); } }
  seedLib (); describe ("%s target=%s strat=%s", r.text ().c_str (), a->desc.c_str (), st.d.c_str ()); if (chance (1, 4)) CHECK (SCOTCH_dgraphGhst (&r.graf) == 0, "dgraphGhst");
  Arr<Num> pt (cnt, -77); bool fort = chance (1, 8) && nov (), keep = ! part && chance (2, 3), noterm = keep && chance (1, 5); SCOTCH_Dmapping m; int e = 9; clearErr ();
  { DBind b (&r.graf, 1, 5); Num kk = k;
    if (part) { if (fort) scotchfdgraphpart_ (b.use, &kk, &st.s, pt.p, &e); else e = SCOTCH_dgraphPart (b.use, k, &st.s, pt.p); tag ("dgraphPart"); }
    else if (! keep) { if (fort) scotchfdgraphmap_ (b.use, &a->arch, &st.s, pt.p, &e); else e = SCOTCH_dgraphMap (b.use, &a->arch, &st.s, pt.p); }
    else { if (fort) scotchfdgraphmapinit_ (b.use, &m, &a->arch, noterm ? (Num *) b.use : pt.p, &e); else e = SCOTCH_dgraphMapInit (b.use, &m, &a->arch, noterm ? nullptr : pt.p); CHECK (e == 0, "dgraphMapInit"); if (fort) scotchfdgraphmapcompute_ (b.use, &m, &st.s, &e); else e = SCOTCH_dgraphMapCompute (b.use, &m, &st.s); tag ("MapInit/Compute"); } }
  if (refuse && n > 0) { tag ("unsupported-target"); CHECK (e != 0, "mapping onto %s is said to work", a->kind.c_str ()); if (keep) SCOTCH_dgraphMapExit (&r.graf, &m); goodD (&r.graf, "graph after refused mapping"); r.unchanged ("refused mapping"); return; }
  CHECK (e == 0, "mapping fails: %s", lastErr ().c_str ()); r.unchanged ("mapping"); goodD (&r.graf, "graph after mapping");
  NumV p; bool file = keep && (noterm || chance (1, 2)); std::string txt;
  if (file) {                                    // the saved mapping has one line per vertex, in any order
    tag ("saved"); int root = (int) draw (P); std::unique_ptr<OutStream> os; if (me == root) os.reset (new OutStream); e = SCOTCH_dgraphMapSave (&r.graf, &m, me == root ? os->f : nullptr); CHECK (e == 0, "dgraphMapSave fails: %s", lastErr ().c_str ()); NumV q (n, -9);
    if (me == root) { std::string s = os->str (); long long c; int off = 0; CHECK (sscanf (s.c_str (), "%lld%n", &c, &off) == 1 && c == n, "the mapping file is for %lld vertices", c); const char *t = s.c_str () + off; std::map<Num, int> ix; for (int v = 0; v < n; v ++) ix[g.hasVlbl ? g.vlbl[v] : r.base + d.glb (v)] = v; std::vector<char> seen (n, 0); int l = 0;
      long long x, y; while (sscanf (t, "%lld%lld%n", &x, &y, &off) == 2) { t += off; CHECK (ix.count ((Num) x), "the mapping file has a line for vertex %lld", x); int v = ix[(Num) x]; CHECK (! seen[v], "the mapping file has two lines for vertex %lld", x); seen[v] = 1; q[v] = (Num) y; l ++; } CHECK (l == n, "the mapping file has %d lines", l); while (isspace ((unsigned char) *t)) t ++; CHECK (! *t, "the mapping file ends with junk"); }
    MPI_Bcast (q.data (), n, SCOTCH_NUM_MPI, root, MPI_COMM_WORLD); p = q; if (! noterm) { NumV z = allgather (pt.p, cnt); for (int v = 0; v < n; v ++) CHECK (z[v] == q[v], "the mapping file gives %lld for vertex %d of part %lld", (LL) q[v], v, (LL) z[v]); }
  } else if (! noterm) p = allgather (pt.p, cnt);
  std::map<Num, double> ld; bool cross = false, cut = false; for (int v = 0; v < n; v ++) { CHECK (a->var ? p[v] > 0 : p[v] >= 0 && p[v] < k, "vertex %d is mapped to %lld of %d", v, (LL) p[v], k); ld[p[v]] += g.vw (v); for (auto &x : g.adj[v]) if (p[x.first] != p[v]) { cut = true; if (d.owner (v) != d.owner (x.first)) cross = true; } } (void) cut;
  if (cross && ld.size () > 1) nontrivial ();
  if (st.dflt && n >= 40 && ! a->var) {          // loose balance
    double tot = (double) g.velosum (), ws = 0, wm = 1; for (Num x : a->w) ws += x; for (int v = 0; v < n; v ++) wm = std::max (wm, (double) g.vw (v)); double worst = -1e9; Num wp = 0; for (auto &x : ld) { double s = tot * a->w[x.first] / ws, ov = (x.second - s * (1 + st.bal)) / wm; if (ov > worst) { worst = ov; wp = x.first; } }
    if (getenv ("VF_CAL") && me == 0) fprintf (stderr, "CAL worst=%.3f rel=%.3f k=%d n=%d P=%d %s %s wm=%g share=%g\n", worst, ld[wp] / (tot * a->w[wp] / ws), k, n, P, a->kind.c_str (), st.d.c_str (), wm, tot * a->w[wp] / ws);
    if (! getenv ("VF_CAL")) CHECK (ld[wp] <= tot * a->w[wp] / ws * (1 + 2 * st.bal) * 1.05 + 4 * wm, "part %lld has load %g for a share of %g", (LL) wp, ld[wp], tot * a->w[wp] / ws);
  }
  if (keep && ! a->var && chance (3, 4)) {       // statistics
    Num tn = -5, mn = -5, mi = -5, mx = -5, ns = -5, ni = -5, nx = -5, cm = -5, ct[256], cl = -5, cd = -5, ce = -5; double av = -5, dl = -5; for (Num &x : ct) x = -5; Num mask = chance (1, 3) ? (Num) draw (1 << 14) : 0; if (mask && chance (1, 2)) { mask = (mask * (me + 1) + me) & 0x3fff; tag ("different-null-arguments"); }
    #define W(i, x) (mask >> (i) & 1 ? nullptr : (x))
    bool fo = ! mask && chance (1, 5) && nov (); if (fo) { e = 9; scotchfdgraphmapstat_ (&r.graf, &m, &tn, &mn, &mi, &mx, &av, &dl, &ns, &ni, &nx, &cm, ct, &cl, &cd, &ce, &e); } else e = SCOTCH_dgraphMapStat (&r.graf, &m, W (0, &tn), W (1, &mn), W (2, &mi), W (3, &mx), W (4, &av), W (5, &dl), W (6, &ns), W (7, &ni), W (8, &nx), W (9, &cm), W (10, ct), W (11, &cl), W (12, &cd), W (13, &ce));
    CHECK (e == 0, "dgraphMapStat gives %d: %s", e, lastErr ().c_str ()); tag ("stat"); bool ed = g.arcs () > 0; if (! ed) ld.clear ();
    double K = (double) ld.size (), tl = 0, xmin = 1e18, xmax = 0; bool unit = true; for (auto &x : ld) if (x.second > 0) { Num w = a->w[x.first]; if (w != 1) unit = false; double u = x.second / w; tl += x.second; xmin = std::min (xmin, u); xmax = std::max (xmax, u); } for (auto i = ld.begin (); i != ld.end (); ) if (i->second == 0) i = ld.erase (i); else ++ i; K = (double) ld.size (); if (K == 0) xmin = xmax = 0;
    double xav = K ? tl / K : 0, xdl = 0; for (auto &x : ld) xdl += fabs (x.second - xav); if (K) xdl /= K * xav; std::map<Num, std::set<Num>> nb; double dsum = 0, lsum = 0, esum = 0; for (auto &x : ld) nb[x.first];
    for (int v = 0; v < n; v ++) for (auto &x : g.adj[v]) { Num w = g.hasEdlo ? x.second : 1; lsum += w; if (p[v] != p[x.first]) { dsum ++; esum += w; nb[p[v]].insert (p[x.first]); } }
    double bs = 0, bi = 1e18, bx = 0; for (auto &x : ld) { double z = (double) nb[x.first].size (); bs += z; bi = std::min (bi, z); bx = std::max (bx, z); } if (nb.empty () || K == 0) bi = bx = bs = 0;
    auto eq = [&] (int i, double got, double ex, const char *w) { if (mask >> i & 1) CHECK (got == -5, "%s was set", w); else CHECK (near (got, ex), "mapping statistics: %s is %g instead of %g", w, got, ex); };
    eq (0, tn, k, "number of target vertices"); eq (1, mn, K, "number of target vertices used"); if (K > 0 || ! ed) { eq (2, mi, floor (xmin + 0.5), "minimum load"); eq (8, nx, bx, "maximum number of neighbours"); eq (7, ni, bi, "minimum number of neighbours"); } eq (3, mx, floor (xmax + 0.5), "maximum load"); if (unit) { eq (4, av, xav, "average load"); eq (5, dl, xdl, "load deviation"); } eq (6, ns, bs, "number of neighbours");
    if (ed) eq (9, cm, dsum > 0 && esum > 0 ? 1 : 0, "largest distance"); eq (11, cl, floor (lsum / 2), "communication load"); eq (12, cd, floor (dsum / 2), "communication dilation"); eq (13, ce, floor (esum / 2), "communication expansion"); eq (10, ct[0], floor ((lsum - esum) / 2), "load at distance 0"); eq (10, ct[1], floor (esum / 2), "load at distance 1"); for (int i = 2; i < 256; i ++) eq (10, ct[i], 0, "load at greater distances");
    if (chance (1, 3)) { int root = (int) draw (P); std::unique_ptr<OutStream> os; if (me == root) os.reset (new OutStream); e = SCOTCH_dgraphMapView (&r.graf, &m, me == root ? os->f : nullptr); CHECK (e == 0, "dgraphMapView fails: %s", lastErr ().c_str ()); tag ("view");
      if (me == root && ed && K > 0) { std::string s = os->str (); auto val = [&] (const char *k, int i) { size_t q = s.find (k); CHECK (q != std::string::npos, "no %s in: %s", k, s.c_str ()); q += strlen (k); for (;; i --) { q = s.find_first_of ("0123456789", q); CHECK (q != std::string::npos, "%s: no value", k); if (! i) break; q = s.find_first_not_of ("0123456789.e+-", q); } return atof (s.c_str () + q); };
        auto is = [&] (const char *k, int i, double x) { double y = val (k, i); CHECK (near (y, x), "mapping statistics display: %s value %d is %g instead of %g in: %s", k, i, y, x, s.c_str ()); }; is ("Processors ", 0, K); is ("Processors ", 1, k); is ("Target min=", 0, floor (xmin + 0.5)); is ("Target min=", 1, floor (xmax + 0.5)); is ("Neighbors min=", 0, bi); is ("Neighbors min=", 2, bs);
        is ("CommDilat=", 0, dsum / g.arcs ()); is ("CommExpan=", 0, lsum > 0 ? esum / lsum : 0); is ("CommCutSz=", 0, lsum > 0 ? esum / lsum : 0); is ("CommDelta=", 0, lsum * dsum > 0 ? (esum / lsum) / (dsum / g.arcs ()) : 0); if (lsum > 0) { is ("CommLoad[0]=", 0, (lsum - esum) / lsum); if (esum > 0) is ("CommLoad[1]=", 0, esum / lsum); } } }
    r.unchanged ("dgraphMapStat"); goodD (&r.graf, "graph after dgraphMapStat"); if (! noterm) { NumV z = allgather (pt.p, cnt); for (int v = 0; v < n; v ++) CHECK (z[v] == p[v], "dgraphMapStat changes the part array"); }
  }
  if (keep) { if (fort) scotchfdgraphmapexit_ (&r.graf, &m); else SCOTCH_dgraphMapExit (&r.graf, &m); }
  (void) lo;
}
