// D03, D04: distributed coarsening and folding; induced, redistributed, band, grown and grid graphs.
#include "dgraph.hpp"
#include <memory>
#define F(n) extern "C" void n ## _ (...)
F (scotchfdgraphcoarsen); F (scotchfdgraphcoarsenvertlocmax); F (scotchfdgraphinducepart); F (scotchfdgraphredist); F (scotchfdgraphband); F (scotchfdgraphbuildgrid3d);
static MGraph dgen (int big = 0) { GenOpt o; o.nmin = 0; o.nmax = 40; o.big = big; o.vlbl = chance (1, 3); MGraph g = genGraph (o); tag (g.family); return g; }
struct CommDup { MPI_Comm c; bool dup; CommDup () { dup = chance (1, 3); c = MPI_COMM_WORLD; if (dup) { MPI_Comm_dup (MPI_COMM_WORLD, &c); tag ("dup-comm"); } } ~CommDup () { if (dup) MPI_Comm_free (&c); } };
// Graph bound to a context with some threads on each process, or the graph itself
struct DBind { SCOTCH_Context ctx; SCOTCH_Dgraph bnd, *use; bool on = false;
  DBind (SCOTCH_Dgraph *g, int num = 1, int den = 3) { use = g; if (! chance (num, den)) return; on = true; int n = (int) irange (1, 4), m = (int) draw (3); if (m == 0 && g_mpi_size > 1) { n = std::max (1, n - g_mpi_rank % 2); tag ("uneven-threads"); } tag (strf ("threads%d", (int) allmin (n))); CHECK (SCOTCH_contextInit (&ctx) == 0 && SCOTCH_contextThreadSpawn (&ctx, n, NULL) == 0, "cannot make context"); CHECK (SCOTCH_dgraphInit (&bnd, MPI_COMM_WORLD) == 0, "dgraphInit"); CHECK (SCOTCH_contextBindDgraph (&ctx, g, &bnd) == 0, "contextBindDgraph: %s", lastErr ().c_str ()); use = &bnd; }
  ~DBind () { if (on) { SCOTCH_dgraphExit (&bnd); SCOTCH_contextExit (&ctx); } } };

PROPERTY (D03, "at least 2 processes, and a coarse graph was created in which some multinode has two fine vertices of different processes") {
  MGraph g = dgen (300); DDist d = genDist (g.n); DRep r; r.make (g, d); r.build ();
  double rat = pick (std::vector<double> {0.8, 1.0, 0.9, 0.7, 0.95, 0.55, 0.5}); Num fold = pick (NumV {SCOTCH_COARSENNONE, SCOTCH_COARSENFOLD, SCOTCH_COARSENFOLDDUP}), nm = chance (1, 3) ? SCOTCH_COARSENNOMERGE : 0, flag = fold | nm, mn = chance (1, 4) ? (Num) irange (0, g.n + 2) : 0; bool fort = chance (1, 6), mul = ! chance (1, 6) || fort;
  describe ("%s ratio=%g min=%d flags=%x%s", r.text ().c_str (), rat, (int) mn, (unsigned) flag, mul ? "" : " no-multinodes"); tag (strf ("fold%x", (unsigned) fold)); if (nm) tag ("nomerge"); if (fort) tag ("fortran");
  if (chance (1, 4)) CHECK (SCOTCH_dgraphGhst (&r.graf) == 0, "dgraphGhst");
  CommDup cd; SCOTCH_Dgraph cg; CHECK (SCOTCH_dgraphInit (&cg, cd.c) == 0, "dgraphInit"); Num mx = -1; if (fort) scotchfdgraphcoarsenvertlocmax_ (&r.graf, &flag, &mx); else mx = SCOTCH_dgraphCoarsenVertLocMax (&r.graf, flag); CHECK (mx >= 0, "coarsenVertLocMax gives %lld", (LL) mx); if (g.n > 0 && fold == SCOTCH_COARSENNONE) CHECK (mx <= d.cnt[g_mpi_rank] + g.n, "excessive bound %lld", (LL) mx);
  Num *mult = mul ? (Num *) malloc (std::max<size_t> (1, 2 * mx * sizeof (Num))) : nullptr; for (Num i = 0; mul && i < 2 * mx; i ++) mult[i] = -12345; int o = 9;
  { DBind b (&r.graf); if (fort) scotchfdgraphcoarsen_ (b.use, &mn, &rat, &flag, &cg, mult, &o); else o = SCOTCH_dgraphCoarsen (b.use, mn, rat, flag, &cg, mult); }
  CHECK (o == 0 || o == 1, "dgraphCoarsen fails with %d: %s", o, lastErr ().c_str ()); CHECK (sameAll (o), "dgraphCoarsen gives %d on rank %d, not everywhere", o, g_mpi_rank); Num lim = (Num) ((double) g.n * rat); tag (strf ("returns%d", o));
  if (lim < mn) CHECK (o == 1, "dgraphCoarsen makes a coarse graph of less than %d vertices", (int) mn); else if (lim == g.n && g.n > 0) CHECK (o == 0, "dgraphCoarsen refuses to coarsen at ratio 1"); r.unchanged ("dgraphCoarsen"); goodD (&r.graf, "fine graph after coarsening");
  if (o == 0) {
    MPI_Comm c = MPI_COMM_NULL; Num cvl = 0, cvg = 0; SCOTCH_dgraphData (&cg, 0, &cvg, &cvl, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, &c); int P = g_mpi_size, h = (P + 1) / 2; bool in = fold != SCOTCH_COARSENFOLD || P < 2 || g_mpi_rank < h;
    bool has = c != MPI_COMM_NULL && c != 0; CHECK (has == in, "rank %d of %d %s the folded graph", g_mpi_rank, P, has ? "has" : "does not have"); int np = 1; if (in) { MPI_Comm_size (c, &np); int x = fold == SCOTCH_COARSENNONE || P < 2 ? P : g_mpi_rank < h ? h : P - h; CHECK (np == x, "the coarse graph is on %d processes instead of %d", np, x); if (fold == SCOTCH_COARSENNONE) CHECK (c == cd.c, "the coarse graph is on another communicator"); }
    if (in) {
      DScope sc (c); goodD (&cg, "coarse graph"); CHECK (cvl <= mx, "%lld local coarse vertices on rank %d for a bound of %lld", (LL) cvl, g_mpi_rank, (LL) mx);
      DInfo inf; MGraph q = extractD (&cg, &inf, "coarse graph"); CHECK (inf.base == r.base, "coarse graph has base %lld", (LL) inf.base); CHECK (q.n <= lim, "coarse graph has %d vertices for a limit of %lld", q.n, (LL) lim);
      if (fold != SCOTCH_COARSENNONE && np > 1) { int lo = q.n, hi = 0; for (int x : inf.d.cnt) { lo = std::min (lo, x); hi = std::max (hi, x); } (void) lo; if (hi - lo > 1) tag ("folded-imbalanced"); }
      double vs = 0; for (int i = 0; i < q.n; i ++) vs += q.vw (i); CHECK (vs == g.velosum (), "coarse vertex loads sum to %g instead of %g", vs, (double) g.velosum ());
      if (mul) {
        NumV M = allgather (mult, (int) (2 * cvl)); CHECK ((int) M.size () == 2 * q.n, "multinode count"); std::vector<int> map (g.n, -1); bool cross = false;
        for (int i = 0; i < q.n; i ++) { int v[2]; for (int k = 0; k < 2; k ++) { v[k] = d.model (M[2 * i + k] - r.base); CHECK (v[k] >= 0, "multinode %d holds %lld", i, (LL) M[2 * i + k]); CHECK (map[v[k]] < 0 || (map[v[k]] == i && k == 1 && v[0] == v[1]), "fine vertex %d belongs to two multinodes", v[k]); map[v[k]] = i; }
          if (v[0] != v[1]) { bool iso = g.adj[v[0]].empty () || g.adj[v[1]].empty (); CHECK (g.has (v[0], v[1]) || (iso && ! nm), "vertices %d and %d are mated but are neither adjacent nor mergeable isolated vertices", v[0], v[1]); if (d.owner (v[0]) != d.owner (v[1])) cross = true; if (iso) tag ("isolated-merged"); } }
        for (int v = 0; v < g.n; v ++) CHECK (map[v] >= 0, "fine vertex %d belongs to no multinode", v); if (cross) nontrivial ();
        MGraph ex; ex.resize (q.n); ex.hasVelo = ex.hasEdlo = true; ex.velo.assign (q.n, 0); std::vector<std::map<int, Num>> m (q.n);
        for (int v = 0; v < g.n; v ++) { ex.velo[map[v]] += g.vw (v); for (auto &e : g.adj[v]) if (map[e.first] != map[v]) m[map[v]][map[e.first]] += g.hasEdlo ? e.second : 1; } for (int i = 0; i < q.n; i ++) for (auto &x : m[i]) ex.adj[i].push_back ({x.first, x.second});
        std::string df = diffGraph (ex, q, true, true, false); CHECK (df.empty (), "coarse graph is not the quotient graph: %s", df.c_str ());
        for (Num i = 2 * cvl; i < 2 * mx; i ++) if (mult[i] != -12345) { tag ("array-tail-used"); break; }
      }
      // the coarse graph is a graph like any other: exchange halos on it
      { NumV hv; int oh = SCOTCH_dgraphGhst (&cg); CHECK (oh == 0, "dgraphGhst on coarse graph"); Num vg; SCOTCH_dgraphData (&cg, 0, 0, 0, 0, &vg, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); std::vector<int> gh; ghostOf (q, inf.d, DScope::me (), gh); CHECK (vg == cvl + (Num) gh.size (), "coarse graph has %lld vertices and ghosts", (LL) vg); hv.assign (vg + 1, -1); for (Num i = 0; i < cvl; i ++) hv[i] = 3 * (inf.d.off[DScope::me ()] + i) + 1; CHECK (SCOTCH_dgraphHalo (&cg, hv.data (), SCOTCH_NUM_MPI) == 0, "halo of coarse graph"); for (size_t i = 0; i < gh.size (); i ++) CHECK (hv[cvl + i] == 3 * gh[i] + 1, "halo of coarse graph: wrong ghost value"); }
    }
  }
  SCOTCH_dgraphExit (&cg); free (mult);
}

// --- D04 ---------------------------------------------------------------------------------------
struct Cur { SCOTCH_Dgraph *g = nullptr; MGraph m; DDist d; Num base = 0; bool own = false; ~Cur () { if (own) { SCOTCH_dgraphExit (g); delete g; } } Num lbl (int v) const { return m.hasVlbl ? m.vlbl[v] : base + d.glb (v); } Num cnt () const { return d.cnt[g_mpi_rank]; } int lo () const { return d.off[g_mpi_rank]; } };
// ng must hold exactly the vertices whose owner is not negative, on that process, with the arcs between them; ord: exact order on each process
static void derived (Cur &ng, const Cur &og, const std::vector<int> &owner, const std::vector<std::vector<int>> *ord, const char *w) {
  goodD (ng.g, w); DInfo inf; MGraph h = extractD (ng.g, &inf, w); CHECK (inf.hasLbl, "%s: no vertex labels", w); CHECK (inf.base == og.base, "%s: base %lld", w, (LL) inf.base);
  std::map<Num, int> id; for (int v = 0; v < og.m.n; v ++) id[og.lbl (v)] = v; std::vector<int> mp (h.n), inv (og.m.n, -1);
  for (int i = 0; i < h.n; i ++) { auto it = id.find (inf.lbl[i]); CHECK (it != id.end (), "%s: vertex label %lld is not that of an original vertex", w, (LL) inf.lbl[i]); int v = it->second; CHECK (inv[v] < 0, "%s: vertex %d appears twice", w, v); inv[v] = i; mp[i] = v; CHECK (owner[v] >= 0, "%s: vertex %d should not be kept", w, v); CHECK (owner[v] == inf.d.owner (i), "%s: vertex %d is on process %d instead of %d", w, v, inf.d.owner (i), owner[v]); if (og.m.hasVelo) CHECK (h.vw (i) == og.m.vw (v), "%s: vertex %d has load %lld instead of %lld", w, v, (LL) h.vw (i), (LL) og.m.vw (v)); else CHECK (h.vw (i) == 1, "%s: vertex %d has load %lld", w, v, (LL) h.vw (i)); }
  for (int v = 0; v < og.m.n; v ++) CHECK (owner[v] < 0 || inv[v] >= 0, "%s: vertex %d is missing", w, v);
  if (ord) for (int p = 0, i = 0; p < g_mpi_size; p ++) for (int v : (*ord)[p]) { CHECK (mp[i] == v, "%s: vertex %d stands where %d should be", w, mp[i], v); i ++; }
  for (int i = 0; i < h.n; i ++) { std::map<int, Num> a, b; for (auto &e : h.adj[i]) { CHECK (! a.count (mp[e.first]), "%s: duplicate arc", w); a[mp[e.first]] = inf.hasEdlo ? e.second : 1; } for (auto &e : og.m.adj[mp[i]]) if (owner[e.first] >= 0) b[e.first] = og.m.hasEdlo ? e.second : 1; CHECK (a == b, "%s: vertex %d does not have the arcs it should", w, mp[i]); }
  ng.m = h; ng.m.hasVlbl = true; ng.m.vlbl = inf.lbl; ng.d = inf.d; ng.base = inf.base;
}
static void same (const Cur &c, const char *w) { DInfo inf; MGraph h = extractD (c.g, &inf, w); std::string df = diffGraph (c.m, h, true, true, c.m.hasVlbl); CHECK (df.empty (), "%s changed the original graph: %s", w, df.c_str ()); }
template <class T> struct Arr { T *p; size_t n; Arr (size_t k, T v) : n (k) { p = (T *) malloc (std::max<size_t> (1, k * sizeof (T))); for (size_t i = 0; i < k; i ++) p[i] = v; } ~Arr () { free (p); } T &operator[] (size_t i) { return p[i]; } };
static void grid () {
  tag ("grid3d"); Num x = irange (1, 5), y = irange (1, 5), z = irange (1, 5), base = draw (2); Num n = x * y * z; Num inc = chance (1, 2) ? 1 : irange (1, n + 3); Num fl = draw (16); bool fort = chance (1, 4);
  SCOTCH_Dgraph g; CHECK (SCOTCH_dgraphInit (&g, MPI_COMM_WORLD) == 0, "dgraphInit"); describe ("grid %dx%dx%d base=%d incr=%d flags=%d", (int) x, (int) y, (int) z, (int) base, (int) inc, (int) fl); tag (strf ("grid-flags%d", (int) (fl & 3))); if (inc > 1) tag ("strided");
  int o = 9; if (fort) scotchfdgraphbuildgrid3d_ (&g, &base, &x, &y, &z, &inc, &fl, &o); else o = SCOTCH_dgraphBuildGrid3D (&g, base, x, y, z, inc, fl); CHECK (o == 0, "dgraphBuildGrid3D fails: %s", lastErr ().c_str ()); goodD (&g, "grid");
  DInfo inf; MGraph h = extractD (&g, &inf, "grid"); CHECK (inf.base == base && h.n == n, "grid has base %lld and %d vertices", (LL) inf.base, h.n); CHECK (inf.hasLbl == (inc != 1), "grid %s labels", inf.hasLbl ? "has" : "has no"); CHECK (inf.hasVelo == ((fl & 4) != 0) && inf.hasEdlo == ((fl & 8) != 0), "grid loads are not those asked for");
  for (int p = 0; p < g_mpi_size; p ++) CHECK (inf.d.cnt[p] == n / g_mpi_size + (p < n % g_mpi_size), "grid: %d vertices on process %d", inf.d.cnt[p], p);
  auto L = [&] (int i) -> Num { return inf.hasLbl ? inf.lbl[i] - base : i; }; std::vector<char> seen (n, 0); Num at = 0; int g1 = (int) n; { Num a = n, b = inc; while (b) { Num t = a % b; a = b; b = t; } g1 = (int) a; }
  for (int i = 0; i < n; i ++) { Num l = L (i); CHECK (l >= 0 && l < n && ! seen[l], "grid: label %lld of vertex %d is out of range or used twice", (LL) l, i); seen[l] = 1; if (inc != 1 && g1 == 1) { CHECK (l == at, "grid: vertex %d is number %lld of the grid instead of %lld", i, (LL) l, (LL) at); at = (at + inc) % n; } }
  for (int i = 0; i < n; i ++) { Num l = L (i), c[3] = {l % x, l / x % y, l / x / y}, dm[3] = {x, y, z}; std::set<Num> ex, got; for (int dx = -1; dx <= 1; dx ++) for (int dy = -1; dy <= 1; dy ++) for (int dz = -1; dz <= 1; dz ++) { int k = abs (dx) + abs (dy) + abs (dz); if (k == 0 || (! (fl & 1) && k > 1)) continue; Num e[3] = {c[0] + dx, c[1] + dy, c[2] + dz}; bool ok = true; for (int j = 0; j < 3; j ++) { if (fl & 2) e[j] = (e[j] + dm[j]) % dm[j]; else if (e[j] < 0 || e[j] >= dm[j]) ok = false; } if (! ok) continue; Num q = e[0] + x * (e[1] + y * e[2]); if (q != l) ex.insert (q); }
    for (auto &e : h.adj[i]) CHECK (got.insert (L (e.first)).second, "grid: duplicate arc"); CHECK (got == ex, "grid: vertex (%d,%d,%d) has %d neighbours instead of %d, or other ones", (int) c[0], (int) c[1], (int) c[2], (int) got.size (), (int) ex.size ()); CHECK (h.vw (i) > 0, "grid: load"); }
  if (g_mpi_size > 1 && h.arcs () > 0) nontrivial (); SCOTCH_dgraphExit (&g);
}
PROPERTY (D04, "at least 2 processes, and a derived graph with an edge between two processes, or a growth that crossed processes") {
  if (chance (1, 6)) { grid (); return; }
  MGraph g = dgen (200); DDist d = genDist (g.n); DRep r; r.make (g, d); std::string txt = r.text (); r.build (); Cur c0; c0.g = &r.graf; c0.m = g; if (! r.bylbl) { c0.m.hasVlbl = false; c0.m.vlbl.clear (); } c0.d = d; c0.base = r.base; CommDup cd;
  std::vector<std::unique_ptr<Cur>> st; Cur *c = &c0; int ops = (int) irange (1, 3); int me = g_mpi_rank, P = g_mpi_size;
  for (int t = 0; t < ops; t ++) {
    int k = weighted ({3, 3, 3, 3}); int n = c->m.n; Rng q = bulk (); if (chance (1, 4)) CHECK (SCOTCH_dgraphGhst (c->g) == 0, "dgraphGhst"); bool fort = chance (1, 6); if (fort) tag ("fortran"); if (t) tag ("chained");
    auto fresh = [&] { std::unique_ptr<Cur> x (new Cur); x->g = new SCOTCH_Dgraph; x->own = true; CHECK (SCOTCH_dgraphInit (x->g, cd.c) == 0, "dgraphInit"); return x; };
    if (k == 0) {                                // induce by part
      int np = (int) irange (1, 4); std::vector<int> part (n), own (n, -1); int mode = (int) draw (3); for (int v = 0; v < n; v ++) part[v] = mode == 0 ? (int) q.below (np) : mode == 1 ? v * np / std::max (1, n) : (int) (q.below (8) == 0 ? 0 : 1); Num off = pick (NumV {0, 1, 300, -5}), pv = (Num) draw (np) + off; std::vector<std::vector<int>> ord (P); for (int v = 0; v < n; v ++) if (part[v] + off == pv) { own[v] = c->d.owner (v); ord[own[v]].push_back (v); }
      Num ln = chance (1, 2) ? -1 : (Num) ord[me].size (); Arr<Num> pl (c->cnt (), 0); for (Num i = 0; i < c->cnt (); i ++) pl[i] = part[c->lo () + i] + off; txt += strf (" induce(part %d of %d, mode %d)", (int) (pv - off), np, mode); describe ("%s", txt.c_str ()); tag ("induce");
      auto x = fresh (); int o = 9; { DBind b (c->g, 1, 6); if (fort) scotchfdgraphinducepart_ (b.use, pl.p, &pv, &ln, x->g, &o); else o = SCOTCH_dgraphInducePart (b.use, pl.p, pv, ln, x->g); } CHECK (o == 0, "dgraphInducePart fails: %s", lastErr ().c_str ()); derived (*x, *c, own, &ord, "induced graph"); same (*c, "dgraphInducePart"); st.push_back (std::move (x)); c = st.back ().get ();
    } else if (k == 1) {                         // redistribute
      std::vector<int> own (n); int mode = (int) draw (4); int e = (int) draw (P); for (int v = 0; v < n; v ++) own[v] = mode == 0 ? (int) q.below (P) : mode == 1 ? v * P / std::max (1, n) : mode == 2 ? e : (int) (v % P); std::vector<std::vector<int>> ord (P); for (int v = 0; v < n; v ++) ord[own[v]].push_back (v);
      bool perm = chance (1, 3); Num vd = chance (1, 3) ? (Num) draw (4) : 0, ed = chance (1, 3) ? (Num) draw (6) : 0; if (perm) for (auto &o : ord) shuffleR (o, q); NumV num (n); { Num s = 0; for (int p = 0; p < P; p ++) { for (size_t i = 0; i < ord[p].size (); i ++) num[ord[p][i]] = c->base + s + (Num) i; s += (Num) ord[p].size () + vd; } }
      std::vector<int> gh; ghostOf (c->m, c->d, me, gh); Arr<Num> pl (c->cnt (), 0), pm (c->cnt () + gh.size (), 0); for (Num i = 0; i < c->cnt (); i ++) { pl[i] = own[c->lo () + i]; pm[i] = num[c->lo () + i]; } for (size_t i = 0; i < gh.size (); i ++) pm[c->cnt () + i] = num[gh[i]]; if (perm) { CHECK (SCOTCH_dgraphGhst (c->g) == 0, "dgraphGhst"); tag ("redist-perm"); } if (vd) tag ("redist-vertlocdlt");
      txt += strf (" redist(mode %d%s, extra %d %d)", mode, perm ? " permuted" : "", (int) vd, (int) ed); describe ("%s", txt.c_str ()); tag ("redist"); auto x = fresh (); int o = 9; if (fort) scotchfdgraphredist_ (c->g, pl.p, perm ? pm.p : (Num *) c->g, &vd, &ed, x->g, &o); else o = SCOTCH_dgraphRedist (c->g, pl.p, perm ? pm.p : nullptr, vd, ed, x->g); CHECK (o == 0, "dgraphRedist fails: %s", lastErr ().c_str ());
      derived (*x, *c, own, &ord, "redistributed graph"); for (int p = 0; p < P; p ++) CHECK (x->d.max[p] == x->d.cnt[p] + vd, "redistributed graph reserves %d vertices for %d on process %d", x->d.max[p], x->d.cnt[p], p); same (*c, "dgraphRedist"); st.push_back (std::move (x)); c = st.back ().get ();
    } else if (k == 2) {                         // band
      Num dist = (Num) draw (4); std::vector<int> lv (n, -1), own (n, -1), qu; int ns = n ? (int) draw (std::min (n, 6) + 1) : 0; for (int i = 0; i < ns; i ++) { int v = (int) draw (n); if (lv[v] < 0) { lv[v] = 0; qu.push_back (v); } } Arr<Num> sd (c->cnt (), -999); Num sn = 0; std::vector<int> so = qu; for (int v : so) if (c->d.owner (v) == me) sd[sn ++] = c->base + v - c->lo (); bool cross = false;
      for (size_t i = 0; i < qu.size (); i ++) { int v = qu[i]; own[v] = c->d.owner (v); if (lv[v] < dist) for (auto &e : c->m.adj[v]) if (lv[e.first] < 0) { lv[e.first] = lv[v] + 1; qu.push_back (e.first); if (c->d.owner (e.first) != own[v]) cross = true; } } (void) cross;
      txt += strf (" band(%d seeds, distance %d)", (int) so.size (), (int) dist); describe ("%s", txt.c_str ()); tag ("band"); auto x = fresh (); int o = 9; { DBind b (c->g, 1, 6); if (fort) scotchfdgraphband_ (b.use, &sn, sd.p, &dist, x->g, &o); else o = SCOTCH_dgraphBand (b.use, sn, sd.p, dist, x->g); } CHECK (o == 0, "dgraphBand fails: %s", lastErr ().c_str ());
      derived (*x, *c, own, nullptr, "band graph"); same (*c, "dgraphBand"); st.push_back (std::move (x)); c = st.back ().get ();
    } else {                                     // grow
      Num dist = (Num) draw (5); std::vector<int> lv (n, -1), qu; std::vector<Num> col (n, -1); int ns = n ? (int) draw (std::min (n, 6) + 1) : 0, nc = (int) irange (1, 4); std::vector<char> blk (n, 0); if (chance (1, 3)) for (int v = 0; v < n; v ++) if (q.below (8) == 0) { blk[v] = 1; col[v] = 100 + v; } for (int i = 0; i < ns; i ++) { int v = (int) draw (n); Num cc = (Num) draw (nc); if (lv[v] < 0) { lv[v] = 0; col[v] = cc; blk[v] = 0; qu.push_back (v); } }
      Arr<Num> sd (c->cnt (), -999); Num sn = 0; for (int v : qu) if (c->d.owner (v) == me) sd[sn ++] = c->base + v - c->lo (); bool cross = false; for (size_t i = 0; i < qu.size (); i ++) { int v = qu[i]; if (lv[v] < dist) for (auto &e : c->m.adj[v]) if (lv[e.first] < 0 && ! blk[e.first]) { lv[e.first] = lv[v] + 1; qu.push_back (e.first); if (c->d.owner (e.first) != c->d.owner (v)) cross = true; } }
      txt += strf (" grow(%d seeds, distance %d)", (int) ns, (int) dist); describe ("%s", txt.c_str ()); tag ("grow"); CHECK (SCOTCH_dgraphGhst (c->g) == 0, "dgraphGhst"); std::vector<int> gh; ghostOf (c->m, c->d, me, gh); Arr<Num> pt (c->cnt () + gh.size (), -1); for (Num i = 0; i < c->cnt (); i ++) pt[i] = col[c->lo () + i]; int o; { DBind b (c->g, 1, 6); o = SCOTCH_dgraphGrow (b.use, sn, sd.p, dist, pt.p); } CHECK (o == 0, "dgraphGrow fails: %s", lastErr ().c_str ());
      NumV all = allgather (pt.p, (int) c->cnt ()); for (int v = 0; v < n; v ++) { if (lv[v] <= 0) CHECK (all[v] == col[v], "grow: the colour of vertex %d, which is a seed, out of reach or blocked, went from %lld to %lld", v, (LL) col[v], (LL) all[v]); else { bool ok = false; for (auto &e : c->m.adj[v]) if (lv[e.first] == lv[v] - 1 && all[e.first] == all[v]) ok = true; CHECK (all[v] >= 0, "grow: vertex %d at distance %d got no colour", v, lv[v]); CHECK (ok, "grow: vertex %d at distance %d has the colour %lld of none of its predecessors", v, lv[v], (LL) all[v]); } }
      if (cross) nontrivial (); goodD (c->g, "grown graph"); same (*c, "dgraphGrow"); continue;
    }
    for (int v = 0; v < c->m.n; v ++) for (auto &e : c->m.adj[v]) if (c->d.owner (v) != c->d.owner (e.first)) { nontrivial (); break; }
    // the derived graph is a graph like any other
    if (chance (1, 2)) { Num *hv; std::vector<int> gh; ghostOf (c->m, c->d, me, gh); Arr<Num> h (c->cnt () + gh.size (), -1); hv = h.p; for (Num i = 0; i < c->cnt (); i ++) hv[i] = 5 * (c->lo () + i) + 2; CHECK (SCOTCH_dgraphHalo (c->g, hv, SCOTCH_NUM_MPI) == 0, "halo of derived graph: %s", lastErr ().c_str ()); for (size_t i = 0; i < gh.size (); i ++) CHECK (hv[c->cnt () + i] == 5 * gh[i] + 2, "halo of derived graph: wrong ghost value"); goodD (c->g, "derived graph after halo"); }
    if (chance (1, 4)) { SCOTCH_Graph cg; SCOTCH_graphInit (&cg); CHECK (SCOTCH_dgraphGather (c->g, &cg) == 0, "gather of derived graph: %s", lastErr ().c_str ()); Num b; MGraph h = extract (&cg, &b); std::string df = diffGraph (c->m, h, true, true, true); CHECK (df.empty (), "gathered derived graph differs: %s", df.c_str ()); SCOTCH_graphExit (&cg); tag ("gathered"); }
  }
  r.unchanged ("derived graphs"); while (! st.empty ()) st.pop_back ();
}
