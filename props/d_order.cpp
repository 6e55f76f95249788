// D06: distributed orderings, their distributed tree, their centralisation and their files.
#include "dgraph.hpp"
#include "arch.hpp"
#include "order.hpp"
#include <memory>
#define F(n) extern "C" void n ## _ (...)
F (scotchfdgraphorderinit); F (scotchfdgraphorderexit); F (scotchfdgraphordercompute); F (scotchfdgraphordercomputelist); F (scotchfdgraphorderperm); F (scotchfdgraphordercblkdist); F (scotchfdgraphordertreedist); F (scotchfdgraphcorderinit); F (scotchfdgraphcorderexit); F (scotchfdgraphordergather); F (scotchfstratdgraphorder); F (scotchfstratdgraphorderbuild);
struct OBind { SCOTCH_Context ctx; SCOTCH_Dgraph bnd, *use; bool on = false;
  OBind (SCOTCH_Dgraph *g) { use = g; if (! chance (1, 4)) return; on = true; int n = (int) irange (1, 4), m = (int) draw (3); if (m == 0 && g_mpi_size > 1) { n = std::max (1, n - g_mpi_rank % 2); tag ("uneven-threads"); } tag (strf ("threads%d", (int) allmin (n))); CHECK (SCOTCH_contextInit (&ctx) == 0 && SCOTCH_contextThreadSpawn (&ctx, n, NULL) == 0, "cannot make context"); CHECK (SCOTCH_dgraphInit (&bnd, MPI_COMM_WORLD) == 0, "dgraphInit"); CHECK (SCOTCH_contextBindDgraph (&ctx, g, &bnd) == 0, "contextBindDgraph: %s", lastErr ().c_str ()); use = &bnd; }
  ~OBind () { if (on) { SCOTCH_dgraphExit (&bnd); SCOTCH_contextExit (&ctx); } } };
template <class T> struct OArr { T *p; size_t n; OArr (size_t k, T v) : n (k) { p = (T *) malloc (std::max<size_t> (1, k * sizeof (T))); for (size_t i = 0; i < k; i ++) p[i] = v; } ~OArr () { free (p); } T &operator[] (size_t i) { return p[i]; } OArr (const OArr &) = delete; };
struct OStr { SCOTCH_Strat s; std::string d; OStr () { SCOTCH_stratInit (&s); } ~OStr () { SCOTCH_stratExit (&s); } OStr (const OStr &) = delete; };
static std::vector<std::pair<Num, Num>> pairsIn (const std::string &t, int n, const char *what) {
  std::vector<std::pair<Num, Num>> p; const char *c = t.c_str (); char *e; long long k = strtoll (c, &e, 10); CHECK (k == n, "the %s file announces %lld lines for %d vertices", what, k, n); c = e; for (int i = 0; i < n; i ++) { long long a = strtoll (c, &e, 10); CHECK (e != c, "the %s file is too short", what); c = e; long long b = strtoll (c, &e, 10); CHECK (e != c, "the %s file is too short", what); c = e; p.push_back ({(Num) a, (Num) b}); } while (*c == '\n' || *c == ' ') c ++; CHECK (*c == 0, "the %s file has trailing data '%s'", what, c); return p;
}
static void genStratD (OStr &st) {
  bool fs = chance (1, 8); int e = 9;
  switch (weighted ({4, 4, 6})) {
    case 0: st.d = "default"; tag ("strat-default"); break;
    case 1: { Num f = 0; for (int b : {SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATSCALABILITY, SCOTCH_STRATLEVELMAX, SCOTCH_STRATLEVELMIN, SCOTCH_STRATLEAFSIMPLE, SCOTCH_STRATSEPASIMPLE}) if (chance (1, 4)) f |= b; Num pn = chance (1, 4) ? (Num) irange (1, 8) : g_mpi_size, lv = (Num) irange (0, 6); double bal = pick (std::vector<double> {0.2, 0.01, 0.05, 0.5});
      if (fs) scotchfstratdgraphorderbuild_ (&st.s, &f, &pn, &lv, &bal, &e); else e = SCOTCH_stratDgraphOrderBuild (&st.s, f, pn, lv, bal); st.d = strf ("flags=0x%x procs=%d levels=%d bal=%g", (int) f, (int) pn, (int) lv, bal); tag ("strat-flags"); CHECK (e == 0, "strategy %s: %s", st.d.c_str (), lastErr ().c_str ()); break; }
    default: { std::string t = stratDorder ((int) draw (3)); if (fs) { std::string u = t + "###"; scotchfstratdgraphorder_ (&st.s, u.c_str (), &e, (int) t.size ()); } else e = SCOTCH_stratDgraphOrder (&st.s, t.c_str ()); st.d = "'" + t + "'"; tag ("strat-string"); CHECK (e == 0, "strategy %s rejected: %s", t.c_str (), lastErr ().c_str ()); } }
}

PROPERTY (D06, "at least 2 processes and a distributed tree with at least one dissection, or at least two column blocks") {
  GenOpt o; o.nmin = 1; o.nmax = 50; o.big = chance (1, 3) ? 1500 : 400; o.vlbl = chance (1, 3); MGraph g = genGraph (o); tag (g.family); DDist d = genDist (g.n); DRep r; r.make (g, d); r.build (); int P = g_mpi_size, me = g_mpi_rank, n = g.n, cnt = d.cnt[me]; Num base = r.base;
  OStr st; genStratD (st); seedLib (); bool again = chance (1, 10), fort = chance (1, 6), bindq = chance (1, 2); describe ("%s strat=%s%s", r.text ().c_str (), st.d.c_str (), again ? " twice" : ""); if (chance (1, 4)) CHECK (SCOTCH_dgraphGhst (&r.graf) == 0, "dgraphGhst"); clearErr ();
  SCOTCH_Dordering od; int e = 9; if (fort) scotchfdgraphorderinit_ (&r.graf, &od, &e); else e = SCOTCH_dgraphOrderInit (&r.graf, &od); CHECK (e == 0, "dgraphOrderInit fails: %s", lastErr ().c_str ());
  if (again) { CHECK (SCOTCH_dgraphOrderCompute (&r.graf, &od, &st.s) == 0, "first ordering fails: %s", lastErr ().c_str ()); tag ("computed-twice"); }
  std::unique_ptr<OBind> b (new OBind (&r.graf)); e = 9; if (fort) scotchfdgraphordercompute_ (b->use, &od, &st.s, &e); else e = SCOTCH_dgraphOrderCompute (b->use, &od, &st.s); CHECK (e == 0, "ordering fails: %s", lastErr ().c_str ()); r.unchanged ("ordering"); if (! bindq) b.reset (); SCOTCH_Dgraph *q = bindq ? b->use : &r.graf;
  // the permutation, in pieces
  NumV pv; { OArr<Num> pl (cnt, -77); e = 9; if (fort) scotchfdgraphorderperm_ (q, &od, pl.p, &e); else e = SCOTCH_dgraphOrderPerm (q, &od, pl.p); CHECK (e == 0, "dgraphOrderPerm fails: %s", lastErr ().c_str ()); pv = allgather (pl.p, cnt); }
  checkOrder (g, base, pv.data (), nullptr, -1, nullptr, nullptr);
  // the distributed part of the tree
  Num cd = -5; if (fort) scotchfdgraphordercblkdist_ (q, &od, &cd); else cd = SCOTCH_dgraphOrderCblkDist (q, &od); CHECK (cd >= (n > 0 ? 1 : 0) && sameAll (cd) && (n == 0 || cd <= 3 * n), "dgraphOrderCblkDist gives %lld", (LL) cd);
  { OArr<Num> tr (cd, -77), sz (cd, -77); e = 9; if (fort) scotchfdgraphordertreedist_ (q, &od, tr.p, sz.p, &e); else e = SCOTCH_dgraphOrderTreeDist (q, &od, tr.p, sz.p); CHECK (e == 0, "dgraphOrderTreeDist fails: %s", lastErr ().c_str ());
    int root = -1; std::vector<std::vector<int>> son (cd); for (Num i = 0; i < cd; i ++) { CHECK (sameAll (tr[i]) && sameAll (sz[i]), "node %lld of the distributed tree is not the same on all processes", (LL) i); CHECK (sz[i] >= 0 && sz[i] <= n, "node %lld of the distributed tree has %lld vertices", (LL) i, (LL) sz[i]); if (tr[i] == -1) { CHECK (root < 0, "the distributed tree has two roots, %d and %lld", root, (LL) i); root = (int) i; continue; }
      Num f = tr[i] - base; CHECK (f >= 0 && f < cd && f != i, "the father of node %lld of the distributed tree is %lld, of %lld nodes", (LL) i, (LL) tr[i], (LL) cd); son[f].push_back ((int) i); }
    if (cd > 0) { CHECK (root >= 0 && sz[root] == n, "the root of the distributed tree holds %lld vertices", root < 0 ? -1LL : (LL) sz[root]); std::vector<Num> beg (cd, -1); std::vector<int> todo (1, root), node (n, -1); beg[root] = 0; size_t k = 0; std::vector<int> inv (n); for (int v = 0; v < n; v ++) inv[pv[v] - base] = v;
      while (k < todo.size ()) { int i = todo[k ++]; if (son[i].empty ()) continue; CHECK (son[i].size () == 2 || son[i].size () == 3, "node %d of the distributed tree has %d sons", i, (int) son[i].size ()); Num x = beg[i]; for (int s : son[i]) { beg[s] = x; x += sz[s]; todo.push_back (s); } CHECK (x == beg[i] + sz[i], "the sons of node %d of the distributed tree hold %lld vertices out of %lld", i, (LL) (x - beg[i]), (LL) sz[i]); CHECK (sz[son[i][0]] > 0 && sz[son[i][1]] > 0, "node %d of the distributed tree has an empty part", i);
        Num b0 = beg[i], b1 = beg[son[i][1]], b2 = b1 + sz[son[i][1]]; for (Num z = b0; z < b1; z ++) for (auto &ed : g.adj[inv[z]]) { Num y = pv[ed.first] - base; CHECK (y < b1 || y >= b2, "edge %d-%d links the two parts of node %d of the distributed tree", inv[z], ed.first, i); } }
      CHECK (k == (size_t) cd, "%d nodes of the distributed tree, of %lld, hang from its root", (int) k, (LL) cd); if (cd > 1) { tag ("dissected"); if (P > 1) nontrivial (); } if (cd > 7) tag ("deep-tree"); } }
  // centralisation
  int times = (int) irange (1, 2); NumV cp, cr, ct; Num ccb = -1; for (int t = 0; t < times; t ++) { int root = (int) draw (P); unsigned m = chance (1, 3) ? (unsigned) draw (32) : 31; bool fg = chance (1, 6); SCOTCH_Ordering co; OArr<Num> pe (n, -77), pi (n, -77), ra (n + 1, -77), tr (n, -77); Num cb = -1; e = 9; auto opt = [&] (int i, Num *x) { return m >> i & 1 ? x : fg ? (Num *) q : nullptr; };
    if (me == root) { if (fg) scotchfdgraphcorderinit_ (q, &co, opt (0, pe.p), opt (1, pi.p), opt (2, &cb), opt (3, ra.p), opt (4, tr.p), &e); else e = SCOTCH_dgraphCorderInit (q, &co, opt (0, pe.p), opt (1, pi.p), opt (2, &cb), opt (3, ra.p), opt (4, tr.p)); CHECK (e == 0, "dgraphCorderInit fails"); }
    e = 9; if (fg) scotchfdgraphordergather_ (q, &od, me == root ? (void *) &co : (void *) &od, &e); else e = SCOTCH_dgraphOrderGather (q, &od, me == root ? &co : nullptr); CHECK (e == 0, "dgraphOrderGather fails: %s", lastErr ().c_str ());
    if (me == root) { if (fg) scotchfdgraphcorderexit_ (q, &co); else SCOTCH_dgraphCorderExit (q, &co); for (int v = 0; v < n; v ++) CHECK (! (m & 1) || pe[v] == pv[v], "vertex %d has rank %lld in the centralised ordering, %lld in the distributed one", v, (LL) pe[v], (LL) pv[v]); for (int v = 0; v < n; v ++) CHECK (! (m & 2) || pi[pv[v] - base] == v + base, "the centralised inverse permutation has %lld at the rank of vertex %d", (LL) pi[pv[v] - base], v);
      checkOrder (g, base, pv.data (), m & 2 ? pi.p : nullptr, m & 4 ? cb : -1, m & 8 ? ra.p : nullptr, (m & 8) && (m & 16) ? tr.p : nullptr, {}, strongTree (st.d)); }
    if (m == 31) { MPI_Bcast (&cb, 1, SCOTCH_NUM_MPI, root, MPI_COMM_WORLD); if (n > 0) { MPI_Bcast (ra.p, (int) cb + 1, SCOTCH_NUM_MPI, root, MPI_COMM_WORLD); MPI_Bcast (tr.p, (int) cb, SCOTCH_NUM_MPI, root, MPI_COMM_WORLD); } if (ccb >= 0) { CHECK (cb == ccb && std::equal (cr.begin (), cr.end (), ra.p) && std::equal (ct.begin (), ct.end (), tr.p), "a second centralisation gives other column blocks"); } ccb = cb; cr.assign (ra.p, ra.p + (n > 0 ? cb + 1 : 0)); ct.assign (tr.p, tr.p + (n > 0 ? cb : 0)); } }
  if (ccb > 1) { tag ("blocks>1"); nontrivial (); }
  // files
  if (chance (1, 2)) { int root = (int) draw (P), k = weighted ({2, ccb >= 0 ? 1 : 0, ccb >= 0 ? 1 : 0}); std::unique_ptr<OutStream> os; if (me == root) os.reset (new OutStream); FILE *f = me == root ? os->f : nullptr; const char *nm[] = {"ordering", "mapping", "tree"};
    e = k == 0 ? SCOTCH_dgraphOrderSave (q, &od, f) : k == 1 ? SCOTCH_dgraphOrderSaveMap (q, &od, f) : SCOTCH_dgraphOrderSaveTree (q, &od, f); CHECK (e == 0, "saving the %s fails: %s", nm[k], lastErr ().c_str ()); tag (std::string ("saved-") + nm[k]);
    if (me == root) { auto a = pairsIn (os->str (), n, nm[k]); std::vector<int> bl (n); if (k > 0) for (int c = 0, i = 0; c < ccb; c ++) for (; i < cr[c + 1] - base; i ++) bl[i] = c; auto lb = [&] (int v) { return r.bylbl ? g.vlbl[v] : v + base; };
      for (int v = 0; v < n; v ++) { int x = pv[v] - base; Num ex = k == 0 ? lb (x) : k == 1 ? bl[x] : ct[bl[x]]; CHECK (a[v].first == lb (v), "line %d of the %s file is about vertex %lld instead of %lld", v, nm[k], (LL) a[v].first, (LL) lb (v)); CHECK (a[v].second == ex, "the %s file gives vertex %d value %lld instead of %lld", nm[k], v, (LL) a[v].second, (LL) ex); } } }
  if (fort) scotchfdgraphorderexit_ (q, &od); else SCOTCH_dgraphOrderExit (q, &od); b.reset (); goodD (&r.graf, "graph after ordering"); r.unchanged ("ordering data");
}
