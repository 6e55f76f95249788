// D01, D02, D08: distributed graphs, their ghost vertices and halos, scatter/gather/files, accessors.
#include "dgraph.hpp"
#define F(n) extern "C" void n ## _ (...)
F (scotchfdgraphinit); F (scotchfdgraphbuild); F (scotchfdgraphcheck); F (scotchfdgraphghst); F (scotchfdgraphhalo); F (scotchfdgraphhaloasync); F (scotchfdgraphhalowait); F (scotchfdgraphdata); F (scotchfdgraphsize); F (scotchfdgraphscatter); F (scotchfdgraphgather); F (scotchfdgraphload); F (scotchfdgraphsave);
extern "C" void scotchfdgraphstat_ (...) __attribute__ ((weak)); extern "C" void SCOTCHFDGRAPHSTAT (...); void *g_pull = (void *) SCOTCHFDGRAPHSTAT;

static MGraph dgen (int big = 0) { GenOpt o; o.nmin = 0; o.nmax = 30; o.big = big; o.vlbl = chance (1, 2); MGraph g = genGraph (o); tag (g.family); return g; }

// Ghost numbering, from the documentation: locals in order, then distinct remote neighbours in global order
static Num checkGhost (SCOTCH_Dgraph *gr, const DRep &r, const char *what) {
  Num base, vl, vg, el, *vt, *vn, *et, *gt; SCOTCH_dgraphData (gr, &base, 0, &vl, 0, &vg, &vt, &vn, 0, 0, 0, &el, 0, &et, &gt, 0, 0);
  std::vector<int> gh; ghostOf (r.g, r.d, g_mpi_rank, gh); CHECK (vg == vl + (Num) gh.size (), "%s: rank %d has %lld local and ghost vertices instead of %d", what, g_mpi_rank, (LL) vg, (int) (vl + gh.size ()));
  CHECK (gt, "%s: no ghost edge array", what); if (r.gst) CHECK (gt == r.gst, "%s: the user ghost edge array was not used", what);
  for (Num v = 0; v < vl; v ++) { int m = r.d.off[g_mpi_rank] + (int) v; for (Num i = vt[v] - base, k = 0; i < vn[v] - base; i ++, k ++) { int e = r.g.adj[m][k].first;
    CHECK (et[i] == base + r.d.glb (e), "%s: arc %lld of vertex %d leads to global number %lld", what, (LL) k, m, (LL) et[i]);
    Num x = r.d.owner (e) == g_mpi_rank ? base + e - r.d.off[g_mpi_rank] : base + vl + (std::lower_bound (gh.begin (), gh.end (), e) - gh.begin ());
    CHECK (gt[i] == x, "%s: rank %d: arc from vertex %d to vertex %d has ghost index %lld instead of %lld", what, g_mpi_rank, m, e, (LL) gt[i], (LL) x); } }
  return vg;
}
template <class T> static T hashed (int v, uint64_t salt) { Rng q (salt * 1000003u + v * 7919u + 5); T t; unsigned char b[sizeof (T)]; for (auto &c : b) c = (unsigned char) q.next (); memcpy (&t, b, sizeof (T)); return t; }
struct Tri { Num a[3]; };
template <class T> static void haloT (DRep &r, MPI_Datatype ty, int mode, uint64_t salt, const char *name) {
  Num vg = 0; std::vector<int> gh; ghostOf (r.g, r.d, g_mpi_rank, gh); vg = r.locnbr + (Num) gh.size (); int lo = r.d.off[g_mpi_rank];
  T *data = (T *) malloc (std::max<size_t> (1, vg * sizeof (T))); for (Num i = 0; i < r.locnbr; i ++) data[i] = hashed<T> (lo + (int) i, salt); for (Num i = r.locnbr; i < vg; i ++) memset (&data[i], 0x5a, sizeof (T));
  int o = 0; if (mode == 0) o = SCOTCH_dgraphHalo (&r.graf, data, ty); else if (mode == 1) { SCOTCH_DgraphHaloReq q; o = SCOTCH_dgraphHaloAsync (&r.graf, data, ty, &q); if (o == 0) o = SCOTCH_dgraphHaloWait (&q); }
  else { MPI_Fint f = MPI_Type_c2f (ty); int e = 9; if (mode == 2) scotchfdgraphhalo_ (&r.graf, data, &f, &e); else { double q[64]; scotchfdgraphhaloasync_ (&r.graf, data, &f, q, &e); if (e == 0) { e = 9; scotchfdgraphhalowait_ (q, &e); } } o = e; }
  CHECK (o == 0, "%s halo exchange (mode %d) failed: %s", name, mode, lastErr ().c_str ());
  for (Num i = 0; i < vg; i ++) { int v = i < r.locnbr ? lo + (int) i : gh[i - r.locnbr]; T x = hashed<T> (v, salt); CHECK (memcmp (&x, &data[i], sizeof (T)) == 0, "%s halo exchange (mode %d): rank %d: %s vertex %d (slot %lld) holds a wrong value", name, mode, g_mpi_rank, i < r.locnbr ? "local" : "ghost", v, (LL) i); }
  free (data);
}
static void halo (DRep &r) {
  int ty = (int) draw (7), mode = weighted ({4, 3, 1, 1}); uint64_t salt = draw (1000); tag (strf ("halo-type%d", ty)); tag (strf ("halo-mode%d", mode));
  MPI_Datatype t; switch (ty) {
    case 0: haloT<Num> (r, SCOTCH_NUM_MPI, mode, salt, "integer"); break;
    case 1: haloT<double> (r, MPI_DOUBLE, mode, salt, "double"); break;
    case 2: haloT<char> (r, MPI_BYTE, mode, salt, "byte"); break;
    case 3: MPI_Type_contiguous (3, SCOTCH_NUM_MPI, &t); MPI_Type_commit (&t); haloT<Tri> (r, t, mode, salt, "contiguous"); MPI_Type_free (&t); break;
    case 4: { int bl[2] = {1, 1}; MPI_Aint dp[2] = {0, (MPI_Aint) sizeof (Num)}; MPI_Datatype ts[2] = {SCOTCH_NUM_MPI, SCOTCH_NUM_MPI}, u; MPI_Type_create_struct (2, bl, dp, ts, &u); MPI_Type_create_resized (u, 0, 2 * sizeof (Num), &t); MPI_Type_commit (&t); MPI_Type_free (&u); haloT<int64_t> (r, t, mode, salt, "structure"); MPI_Type_free (&t); break; }
    case 5: haloT<short> (r, MPI_SHORT, mode, salt, "short"); break;
    default: MPI_Type_contiguous (12, MPI_BYTE, &t); MPI_Type_commit (&t); haloT<Tri> (r, t, mode, salt, "12 bytes"); MPI_Type_free (&t); break; }
}
// Corruptions of a consistent description; every process applies its part. Returns "" when not applicable.
static std::string corrupt (DRep &r) {
  const MGraph &g = r.g; int me = g_mpi_rank; std::vector<std::pair<int, int>> arcs; for (int v = 0; v < g.n; v ++) for (int i = 0; i < (int) g.adj[v].size (); i ++) arcs.push_back ({v, i});
  auto mine = [&] (int v) { return r.d.owner (v) == me; };
  auto slot = [&] (int v, int i) -> Num { return r.vert[v - r.d.off[me]] - r.base + i; };       // on the owner only
  auto back = [&] (int v, int w) { for (int i = 0; i < (int) g.adj[v].size (); i ++) if (g.adj[v][i].first == w) return i; return -1; };
  int k = (int) draw (14); int v = 0, i = 0, w = 0; if (! arcs.empty ()) { auto a = arcs[draw (arcs.size ())]; v = a.first; i = a.second; w = g.adj[v][i].first; } bool cut = r.d.P > 1 && g.n > 0 && ! arcs.empty () && r.d.owner (v) != r.d.owner (w); if (cut) tag ("corrupt-remote");
  switch (k) {
    case 0: if (arcs.empty () || r.bylbl) return ""; { Num x = coin () ? r.base + r.d.vrt[r.d.P] + (Num) draw (3) : r.base - 1 - (Num) draw (2); if (mine (v)) r.edge[slot (v, i)] = x; } return "end outside of every process range";
    case 1: { if (arcs.empty () || r.bylbl) return ""; std::vector<Num> h; for (int p = 0; p < r.d.P; p ++) for (int x = r.d.cnt[p]; x < r.d.max[p]; x ++) h.push_back (r.d.vrt[p] + x); if (h.empty ()) return ""; Num x = h[draw (h.size ())]; if (mine (v)) r.edge[slot (v, i)] = r.base + x; return "end in a hole of the numbering"; }
    case 2: { if (arcs.empty () || r.bylbl || g.n < 3) return ""; int x = (int) draw (g.n); if (x == v || g.has (v, x)) return ""; if (mine (v)) r.edge[slot (v, i)] = r.base + r.d.glb (x); return "arc without its reverse"; }
    case 3: { if (g.adj.empty () || arcs.empty () || g.adj[v].size () < 2) return ""; int j = (i + 1) % (int) g.adj[v].size (); if (mine (v)) r.edge[slot (v, i)] = r.edge[slot (v, j)]; return "duplicate arc"; }
    case 4: if (arcs.empty () || ! g.hasEdlo) return ""; if (mine (v)) r.edlo[slot (v, i)] ++; return "arc loads that do not match";
    case 5: { if (g.n == 0 || ! g.hasVelo) return ""; int x = (int) draw (g.n); if (mine (x)) r.velo[x - r.d.off[me]] = -1 - g.vw (x); return "negative vertex load"; }
    case 6: { if (arcs.empty () || ! g.hasEdlo) return ""; Num x = - (Num) draw (3); if (mine (v)) r.edlo[slot (v, i)] = x; if (mine (w)) r.edlo[slot (w, back (w, v))] = x; return "edge load that is not positive"; }
    case 7: { int p = (int) draw (r.d.P); if (p == me) { r.edgenbr ++; r.edgesiz ++; r.edge = (Num *) realloc (r.edge, (r.edgesiz + 1) * sizeof (Num)); r.edge[r.edgesiz - 1] = r.base; if (r.edlo) { r.edlo = (Num *) realloc (r.edlo, (r.edgesiz + 1) * sizeof (Num)); r.edlo[r.edgesiz - 1] = 1; } if (r.gst) r.gst = (Num *) realloc (r.gst, (r.edgesiz + 1) * sizeof (Num)); } return r.bylbl ? "" : "wrong local number of arcs"; }
    case 8: if (arcs.empty () || r.bylbl) return ""; if (mine (v)) r.edge[slot (v, i)] = r.base + r.d.glb (v); return "self loop replacing an arc";
    case 9: { if (r.d.P < 2) return ""; int p = (int) draw (r.d.P); if (! r.velo) { if (p == me) r.velo = dupNum (NumV (r.locnbr, 1)); } else if (p == me) { free (r.velo); r.velo = nullptr; } return "vertex loads on some processes only"; }
    case 10: { if (r.d.P < 2) return ""; int p = (int) draw (r.d.P); if (! r.edlo) { if (p == me) r.edlo = dupNum (NumV (r.edgesiz, 1)); } else if (p == me) { free (r.edlo); r.edlo = nullptr; } return "edge loads on some processes only"; }
    case 11: { std::vector<int> c; for (int x = 0; x < g.n; x ++) if (g.adj[x].size () > 0) c.push_back (x); if (c.empty () || ! r.allnc) return ""; int x = c[draw (c.size ())]; int q = (int) draw (3); if (mine (x)) { int l = x - r.d.off[me]; if (q == 0) r.vend[l] = r.vert[l] - 1; else if (q == 1) { Num dg = r.vend[l] - r.vert[l]; r.vend[l] = r.base + r.edgesiz + 1; r.vert[l] = r.vend[l] - dg; } else { Num dg = r.vend[l] - r.vert[l]; r.vert[l] = r.base - 1; r.vend[l] = r.vert[l] + dg; } } return r.bylbl ? "" : "vertex array out of bounds"; }
    case 12: { if (! r.bylbl || g.n < 2) return ""; int x = (int) draw (g.n), y = (int) draw (g.n); if (x == y || (g.adj[y].empty () && r.d.owner (x) != r.d.owner (y))) return ""; if (mine (x)) r.vlbl[x - r.d.off[me]] = g.vlbl[y]; return "duplicate vertex label"; }
    default: { if (! r.bylbl || arcs.empty ()) return ""; Num mx = *std::max_element (g.vlbl.begin (), g.vlbl.end ()); if (mine (v)) r.edge[slot (v, i)] = mx + r.d.vrt[r.d.P] + 5; return "arc to an unknown label"; }
  }
}
PROPERTY (D01, "at least 2 processes own vertices and the graph has an edge between two processes, or an inconsistent description must be rejected") {
  MGraph g = dgen (200); DDist d = genDist (g.n); DRep r; r.make (g, d); describe ("%s", r.text ().c_str ()); int rounds = 1;
  if (chance (1, 3)) {
    std::string what = corrupt (r); if (what.empty ()) { tag ("corruption-na"); skipCase (); } describe ("%s", what.c_str ()); tag ("bad:" + what); g_errok = true;
    int o = r.tryBuild (); CHECK (sameAll (o != 0), "dgraphBuild accepts the graph on some processes only (%s)", what.c_str ()); if (o == 0) { if (chance (1, 2) && what.find ("load") != std::string::npos && what.find ("some") == std::string::npos) { tag ("ghost-before-check"); int q = SCOTCH_dgraphGhst (&r.graf); if (allmax (q != 0)) { nontrivial (); return; } } int c = SCOTCH_dgraphCheck (&r.graf); CHECK (sameAll (c != 0), "dgraphCheck rejects the graph on some processes only (%s)", what.c_str ()); CHECK (c != 0, "dgraphCheck accepts an inconsistent graph: %s", what.c_str ()); tag ("rejected-by-check"); } else tag ("rejected-by-build");
    nontrivial (); return;
  }
  for (int t = 0; t < rounds; t ++) {
    bool fort = chance (1, 5);
    if (fort) { tag ("fortran"); r.init (); int e = 9; scotchfdgraphbuild_ (&r.graf, &r.base, &r.locnbr, &r.locmax, r.vert, r.compact ? r.vert + 1 : r.vend, r.velo ? r.velo : r.vert, r.vlbl ? r.vlbl : r.vert, &r.edgenbr, &r.edgesiz, r.edge, r.gst ? r.gst : r.edge, r.edlo ? r.edlo : r.edge, &e); CHECK (e == 0, "Fortran dgraphBuild failed"); e = 9; scotchfdgraphcheck_ (&r.graf, &e); CHECK (e == 0, "Fortran dgraphCheck: %s", lastErr ().c_str ()); }
    else { r.build (); goodD (&r.graf, "built graph"); }
    Num vgst; SCOTCH_dgraphData (&r.graf, 0, 0, 0, 0, &vgst, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); CHECK (vgst == -1, "ghost number is %lld before ghosts are computed", (LL) vgst);
    DInfo inf; MGraph h = extractD (&r.graf, &inf, "built graph"); std::string df = diffGraph (g, h, true, true, r.bylbl); CHECK (df.empty (), "built graph differs: %s", df.c_str ());
    CHECK (inf.d.cnt == d.cnt && inf.d.max == d.max && inf.base == r.base, "built graph has another distribution");
    Num vg, vl, eg, el; SCOTCH_dgraphSize (&r.graf, &vg, &vl, &eg, &el); CHECK (vg == g.n && vl == d.cnt[g_mpi_rank] && eg == g.arcs () && el == r.edgenbr, "dgraphSize gives %lld %lld %lld %lld", (LL) vg, (LL) vl, (LL) eg, (LL) el);
    int ops = (int) irange (1, 4); for (int i = 0; i < ops; i ++) { int k = weighted ({3, 1, 1}); if (k == 0) halo (r); else if (k == 1) { int o = 9; if (coin ()) o = SCOTCH_dgraphGhst (&r.graf); else scotchfdgraphghst_ (&r.graf, &o); CHECK (o == 0, "dgraphGhst failed: %s", lastErr ().c_str ()); checkGhost (&r.graf, r, "after dgraphGhst"); tag ("ghst"); } else { goodD (&r.graf, "used graph"); tag ("check-again"); } }
    halo (r); checkGhost (&r.graf, r, "after halo"); goodD (&r.graf, "graph with ghosts"); r.unchanged ("distributed graph operations");
    h = extractD (&r.graf, nullptr, "used graph"); df = diffGraph (g, h, true, true, r.bylbl); CHECK (df.empty (), "graph changed by halo exchanges: %s", df.c_str ());
    bool cut = false; for (int v = 0; v < g.n; v ++) for (auto &e : g.adj[v]) if (d.owner (v) != d.owner (e.first)) cut = true; if (cut) nontrivial ();
    if (t == 0 && ! r.bylbl && chance (1, 4)) { SCOTCH_dgraphFree (&r.graf); rounds = 2; tag ("rebuilt"); }
  }
}

// --- D02 ---------------------------------------------------------------------------------------
static MGraph unlbl (MGraph g) { g.hasVlbl = false; g.vlbl.clear (); return g; }
static bool unitLbl (const MGraph &g) { for (int i = 0; i < g.n; i ++) if (g.vlbl[i] != i) return false; return true; }
struct Cent { SCOTCH_Graph g; bool on; Cent () { on = true; CHECK (SCOTCH_graphInit (&g) == 0, "graphInit"); } ~Cent () { SCOTCH_graphExit (&g); } };
// gathers on a root, or everywhere; compares with the expected global graph
static void gatherCheck (SCOTCH_Dgraph *dg, const MGraph &g, Num base, bool lbl, const char *what) {
  int root = (int) draw (g_mpi_size + 1) - 1; Cent c; bool in = root < 0 || root == g_mpi_rank; int o = 9; bool f = root < 0 && chance (1, 4);
  if (f) scotchfdgraphgather_ (dg, &c.g, &o); else o = SCOTCH_dgraphGather (dg, in ? &c.g : nullptr); CHECK (o == 0, "%s: dgraphGather fails: %s", what, lastErr ().c_str ()); tag (root < 0 ? "gather-all" : "gather-root");
  if (! in) return; CHECK (SCOTCH_graphCheck (&c.g) == 0, "%s: gathered graph is inconsistent: %s", what, lastErr ().c_str ());
  Num b; MGraph h = extract (&c.g, &b); CHECK (b == base, "%s: gathered graph has base %lld", what, (LL) b); std::string df = diffGraph (g, h, true, true, lbl); CHECK (df.empty (), "%s: gathered graph differs: %s", what, df.c_str ());
  Num vs, es; SCOTCH_graphStat (&c.g, 0, 0, &vs, 0, 0, 0, 0, 0, 0, 0, 0, &es, 0, 0); CHECK (vs == (Num) g.velosum (), "%s: gathered graph has load sum %lld", what, (LL) vs);
}
PROPERTY (D02, "at least 2 processes and 1 edge") {
  MGraph g = dgen (300); if (g_mpi_size > 1 && g.arcs () > 0) nontrivial (); int k = weighted ({3, 2, 3, 3, 1}); int P = g_mpi_size;
  if (k == 0) {                                  // scatter, gather
    tag ("scatter"); int root = (int) draw (P); Rep r; r.make (g); describe ("%s root=%d base=%d", g.text ().c_str (), root, (int) r.base); SCOTCH_Graph *cp = nullptr; if (root == g_mpi_rank) { r.build (); cp = &r.graf; }
    SCOTCH_Dgraph dg; CHECK (SCOTCH_dgraphInit (&dg, MPI_COMM_WORLD) == 0, "dgraphInit"); int o = 9; if (chance (1, 5)) { tag ("fortran"); scotchfdgraphscatter_ (&dg, cp ? (void *) cp : (void *) &dg, &o); } else o = SCOTCH_dgraphScatter (&dg, cp); CHECK (o == 0, "dgraphScatter fails: %s", lastErr ().c_str ()); goodD (&dg, "scattered graph");
    if (cp) r.unchanged ("dgraphScatter");
    DInfo inf; MGraph h = extractD (&dg, &inf, "scattered graph"); CHECK (inf.base == r.base, "scattered graph has base %lld", (LL) inf.base); for (int p = 0; p < P; p ++) CHECK (inf.d.cnt[p] == g.n / P + (p < g.n % P), "scattered graph has %d vertices on process %d", inf.d.cnt[p], p);
    std::string df = diffGraph (g, h, true, true, g.hasVlbl); CHECK (df.empty (), "scattered graph differs: %s", df.c_str ());
    gatherCheck (&dg, g, r.base, g.hasVlbl, "scattered graph"); SCOTCH_dgraphExit (&dg);
  }
  else if (k == 1) {                             // gather of a user graph
    DDist d = genDist (g.n); DRep r; r.make (g, d); describe ("%s", r.text ().c_str ()); r.build (); bool early = chance (1, 3); if (early) CHECK (SCOTCH_dgraphGhst (&r.graf) == 0, "dgraphGhst"); gatherCheck (&r.graf, g, r.base, r.bylbl, "built graph"); r.unchanged ("dgraphGather"); if (coin ()) gatherCheck (&r.graf, g, r.base, r.bylbl, "built graph, again"); tag ("gather-built");
  }
  else if (k == 2) {                             // save, load on as many processes
    DDist d = genDist (g.n); DRep r; r.make (g, d); describe ("%s", r.text ().c_str ()); r.build (); OutStream os; int o = SCOTCH_dgraphSave (&r.graf, os.f); CHECK (o == 0, "dgraphSave fails: %s", lastErr ().c_str ()); goodD (&r.graf, "saved graph"); r.unchanged ("dgraphSave"); tag ("save-load");
    std::string txt = os.str (); Num nb = (Num) irange (-1, 1), fl = (Num) draw (4); tag (strf ("flag%d", (int) fl)); SCOTCH_Dgraph dg; CHECK (SCOTCH_dgraphInit (&dg, MPI_COMM_WORLD) == 0, "dgraphInit"); FILE *f = memIn (txt); o = SCOTCH_dgraphLoad (&dg, f, nb, fl); fclose (f); CHECK (o == 0, "dgraphLoad fails on its own output: %s", lastErr ().c_str ()); goodD (&dg, "loaded graph");
    MGraph e = g; if (fl & 1) { e.hasVelo = false; e.velo.clear (); } if (fl & 2) { e.hasEdlo = false; for (auto &a : e.adj) for (auto &x : a) x.second = 1; }
    DInfo inf; MGraph h = extractD (&dg, &inf, "loaded graph"); CHECK (inf.base == (nb < 0 ? r.base : nb), "loaded graph has base %lld", (LL) inf.base); CHECK (inf.d.cnt == d.cnt, "loaded graph has another distribution"); std::string df = diffGraph (e, h, true, true, r.bylbl); CHECK (df.empty (), "loaded graph differs: %s", df.c_str ());
    if (chance (1, 3)) gatherCheck (&dg, e, inf.base, r.bylbl, "loaded graph");
    if (chance (1, 3)) halo (r);
    SCOTCH_dgraphExit (&dg);
  }
  else if (k == 3) {                             // centralized file
    int root = (int) draw (P); Rep r; r.make (g); r.build (); OutStream os; CHECK (SCOTCH_graphSave (&r.graf, os.f) == 0, "graphSave"); Num nb = (Num) irange (-1, 1), fl = (Num) draw (4); describe ("%s root=%d base=%d to %d flags %d", g.text ().c_str (), root, (int) r.base, (int) nb, (int) fl); tag ("load-centralized"); tag (strf ("flag%d", (int) fl));
    SCOTCH_Dgraph dg; CHECK (SCOTCH_dgraphInit (&dg, MPI_COMM_WORLD) == 0, "dgraphInit"); FILE *f = root == g_mpi_rank ? memIn (os.str ()) : nullptr; int o = SCOTCH_dgraphLoad (&dg, f, nb, fl); if (f) fclose (f); CHECK (o == 0, "dgraphLoad fails on a centralized graph: %s", lastErr ().c_str ()); goodD (&dg, "loaded graph");
    MGraph e = g; if (fl & 1) { e.hasVelo = false; e.velo.clear (); } if (fl & 2) { e.hasEdlo = false; for (auto &a : e.adj) for (auto &x : a) x.second = 1; }
    DInfo inf; MGraph h = extractD (&dg, &inf, "loaded graph"); CHECK (inf.base == (nb < 0 ? r.base : nb), "loaded graph has base %lld", (LL) inf.base); for (int p = 0; p < P; p ++) CHECK (inf.d.cnt[p] == g.n / P + (p < g.n % P), "loaded graph has %d vertices on process %d", inf.d.cnt[p], p);
    std::string df = diffGraph (e, h, true, true, g.hasVlbl); CHECK (df.empty (), "loaded graph differs: %s", df.c_str ()); if (coin ()) gatherCheck (&dg, e, inf.base, g.hasVlbl, "loaded graph"); SCOTCH_dgraphExit (&dg);
  }
  else {                                         // invalid files are refused by every process
    g_errok = true; nontrivial (); tag ("bad-file"); Rep r; r.make (g); r.build (); OutStream os; std::string txt; int w = (int) draw (6), root = (int) draw (P); bool dist = w >= 3; FILE *f = nullptr; Num nb = -1;
    if (! dist) { CHECK (SCOTCH_graphSave (&r.graf, os.f) == 0, "graphSave"); txt = os.str (); if (w == 0) { size_t l = draw (txt.size ()); while (l > 0 && isspace (txt[l - 1])) l --; while (l > 0 && ! isspace (txt[l - 1])) l --; txt.resize (l); } else if (w == 1) txt = "7" + txt; else { size_t q = txt.size (); while (q > 0 && isspace (txt[q - 1])) q --; while (q > 0 && ! isspace (txt[q - 1])) q --; size_t p = draw (q); txt[p] = 'x'; } if (root == g_mpi_rank) f = memIn (txt); }
    else { DDist d = genDist (g.n, false); DRep q; q.make (unlbl (g), d); q.build (); OutStream o2; CHECK (SCOTCH_dgraphSave (&q.graf, o2.f) == 0, "dgraphSave"); txt = o2.str (); if (w == 3) { if (P < 2) skipCase (); if (root == g_mpi_rank) f = nullptr; else f = memIn (txt); } else if (w == 4) { size_t l = draw (txt.size ()), m = l; (void) m; if (root == g_mpi_rank) { l %= txt.size (); while (l > 0 && isspace (txt[l - 1])) l --; while (l > 0 && ! isspace (txt[l - 1])) l --; txt.resize (l); } f = memIn (txt); } else { std::string t2 = txt; size_t p = t2.find ('\n') + 1; size_t e = t2.find ('\t', p); t2.replace (p, e - p, strf ("%d", P + 1)); f = memIn (t2); } }
    describe ("%s kind %d root %d", g.text ().c_str (), w, root); tag (strf ("bad-kind%d", w));
    SCOTCH_Dgraph dg; CHECK (SCOTCH_dgraphInit (&dg, MPI_COMM_WORLD) == 0, "dgraphInit"); int o = SCOTCH_dgraphLoad (&dg, f, nb, 0); if (f) fclose (f); CHECK (sameAll (o != 0), "dgraphLoad succeeds on some processes only"); CHECK (o != 0, "dgraphLoad accepts an invalid file"); SCOTCH_dgraphExit (&dg);
  }
}

// --- D08 ---------------------------------------------------------------------------------------
static bool near (double a, double b) { return fabs (a - b) <= 1e-9 * (1 + fabs (a) + fabs (b)); }
PROPERTY (D08, "at least 2 processes own vertices, and the graph has an edge") {
  MGraph g = dgen (300); DDist d = genDist (g.n); DRep r; r.make (g, d); describe ("%s", r.text ().c_str ()); r.build (); int own = 0; for (int c : d.cnt) own += c > 0; if (own > 1 && g.arcs () > 0) nontrivial ();
  bool gh = chance (1, 3); if (gh) { CHECK (SCOTCH_dgraphGhst (&r.graf) == 0, "dgraphGhst"); tag ("ghosts"); }
  int fort = chance (1, 3); if (fort) tag ("fortran");
  Num vg, vl, eg, el; if (fort) scotchfdgraphsize_ (&r.graf, &vg, &vl, &eg, &el); else { SCOTCH_dgraphSize (&r.graf, 0, 0, 0, 0); SCOTCH_dgraphSize (&r.graf, &vg, &vl, &eg, &el); }
  CHECK (vg == g.n && vl == d.cnt[g_mpi_rank] && eg == g.arcs () && el == r.edgenbr, "dgraphSize gives %lld %lld %lld %lld on rank %d", (LL) vg, (LL) vl, (LL) eg, (LL) el, g_mpi_rank);
  std::vector<int> gl; ghostOf (g, d, g_mpi_rank, gl); Num xg = gh ? vl + (Num) gl.size () : -1;
  if (fort) {
    Num b, vg2, vl2, vm, vs, eg2, el2, es; SCOTCH_Idx iv, in, iw, ib, ie, ig, id; MPI_Fint c; Num *x = r.vert; scotchfdgraphdata_ (&r.graf, x, &b, &vg2, &vl2, &vm, &vs, &iv, &in, &iw, &ib, &eg2, &el2, &es, &ie, &ig, &id, &c);
    CHECK (b == r.base && vg2 == g.n && vl2 == vl && vm == d.max[g_mpi_rank] && vs == xg && eg2 == eg && el2 == el && es == r.edgesiz, "Fortran dgraphData: wrong sizes");
    auto ix = [&] (Num *p, SCOTCH_Idx i, const char *n) { CHECK (p ? i == (SCOTCH_Idx) (p - x) + 1 : i == iv, "Fortran dgraphData: index of %s is %lld", n, (LL) i); };
    ix (r.vert, iv, "vertloctab"); ix (r.compact ? r.vert + 1 : r.vend, in, "vendloctab"); ix (r.velo, iw, "veloloctab"); ix (r.vlbl, ib, "vlblloctab"); ix (r.edge, ie, "edgeloctab"); ix (r.edlo, id, "edloloctab"); if (r.gst) ix (r.gst, ig, "edgegsttab"); else if (! gh) ix (nullptr, ig, "edgegsttab"); CHECK (MPI_Comm_f2c (c) == MPI_COMM_WORLD, "Fortran dgraphData: wrong communicator");
  } else {
    Num b, vg2, vl2, vm, vs, eg2, el2, es, *vt, *vn, *wt, *lt, *et, *gt, *dt; MPI_Comm c; SCOTCH_dgraphData (&r.graf, &b, &vg2, &vl2, &vm, &vs, &vt, &vn, &wt, &lt, &eg2, &el2, &es, &et, &gt, &dt, &c);
    CHECK (b == r.base && vg2 == g.n && vl2 == vl && vm == d.max[g_mpi_rank] && vs == xg && eg2 == eg && el2 == el && es == r.edgesiz && c == MPI_COMM_WORLD, "dgraphData: wrong sizes");
    CHECK (vt == r.vert && vn == (r.compact ? r.vert + 1 : r.vend) && wt == r.velo && lt == r.vlbl && et == r.edge && dt == r.edlo && (! r.gst || gt == r.gst) && (gh || r.gst || ! gt), "dgraphData does not give back the user arrays");
  }
  Num vmin = -9, vmax = -9, vsum = -9, dmin = -9, dmax = -9, emin = -9, emax = -9, esum = -9; double va = -9, vd = -9, da = -9, dd = -9, ea = -9, ed = -9; int o = 9;
  if (fort) { CHECK (scotchfdgraphstat_, "the library has no Fortran routine dgraphstat (as lower-case symbol)"); scotchfdgraphstat_ (&r.graf, &vmin, &vmax, &vsum, &va, &vd, &dmin, &dmax, &da, &dd, &emin, &emax, &esum, &ea, &ed, &o); }
  else { o = SCOTCH_dgraphStat (&r.graf, &vmin, &vmax, &vsum, &va, &vd, &dmin, &dmax, &da, &dd, &emin, &emax, &esum, &ea, &ed); if (chance (1, 4)) CHECK (SCOTCH_dgraphStat (&r.graf, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0) == 0, "dgraphStat with null pointers"); }
  CHECK (o == 0, "dgraphStat fails");
  if (g.n > 0) {
    Num mn = g.vw (0), mx = mn; double s = 0, dl = 0; for (int i = 0; i < g.n; i ++) { mn = std::min (mn, g.vw (i)); mx = std::max (mx, g.vw (i)); s += g.vw (i); } double av = s / g.n; for (int i = 0; i < g.n; i ++) dl += fabs (g.vw (i) - av);
    CHECK (vmin == mn && vmax == mx && vsum == (Num) s && near (va, av) && near (vd, dl / g.n), "vertex load statistics on rank %d: %lld %lld %lld %g %g, should be %lld %lld %g %g %g", g_mpi_rank, (LL) vmin, (LL) vmax, (LL) vsum, va, vd, (LL) mn, (LL) mx, s, av, dl / g.n);
    size_t a = g.adj[0].size (), z = a; double ds = 0; for (auto &x : g.adj) { a = std::min (a, x.size ()); z = std::max (z, x.size ()); } double dav = (double) g.arcs () / g.n; for (auto &x : g.adj) ds += fabs (x.size () - dav);
    CHECK (dmin == (Num) a && dmax == (Num) z && near (da, dav) && near (dd, ds / g.n), "degree statistics: %lld %lld %g %g, should be %d %d %g %g", (LL) dmin, (LL) dmax, da, dd, (int) a, (int) z, dav, ds / g.n);
  } else CHECK (vmin == 0 && vmax == 0 && vsum == 0 && va == 0 && vd == 0 && dmin == 0 && dmax == 0 && da == 0 && dd == 0, "statistics of the empty graph: %lld %lld %lld %g %g %lld %lld %g %g", (LL) vmin, (LL) vmax, (LL) vsum, va, vd, (LL) dmin, (LL) dmax, da, dd);
  if (g.arcs () > 0) {
    double mn = 1e18, mx = -1, s = 0, dl = 0; for (auto &x : g.adj) for (auto &y : x) { double l = g.hasEdlo ? y.second : 1; mn = std::min (mn, l); mx = std::max (mx, l); s += l; } double av = s / g.arcs (); for (auto &x : g.adj) for (auto &y : x) dl += fabs ((g.hasEdlo ? y.second : 1) - av);
    CHECK (emin == (Num) mn && emax == (Num) mx && near (ea, av) && near (ed, dl / g.arcs ()), "edge load statistics: %lld %lld %g %g, should be %g %g %g %g", (LL) emin, (LL) emax, ea, ed, mn, mx, av, dl / g.arcs ());
    CHECK (g.hasEdlo ? esum == (Num) s : (esum == (Num) s || 2 * esum == (Num) s), "edge load sum %lld", (LL) esum);
  } else CHECK (emin == 0 && emax == 0 && esum == 0 && ea == 0 && ed == 0, "edge load statistics of a graph without edges: %lld %lld %lld %g %g", (LL) emin, (LL) emax, (LL) esum, ea, ed);
}
