// Distributed graphs: distribution of a model graph over the MPI processes, and its read-back.
// Every process draws the same choices, so that the global model is known everywhere.
#pragma once
#include "graph.hpp"
#ifdef VF_MPI
typedef long long LL;
// Communicator of the helpers below: all processes, or those of a folded graph
struct DScope { static MPI_Comm &comm () { static MPI_Comm c = MPI_COMM_WORLD; return c; } static int &np () { static int n = 0; if (n == 0) n = g_mpi_size; return n; } static int &me () { static int n = g_mpi_rank; return n; }
  MPI_Comm oc; int on, om; DScope (MPI_Comm c) { oc = comm (); on = np (); om = me (); comm () = c; MPI_Comm_size (c, &np ()); MPI_Comm_rank (c, &me ()); } ~DScope () { comm () = oc; np () = on; me () = om; } };
inline NumV allgather (const Num *p, int n) {
  int P = DScope::np (); std::vector<int> c (P), d (P + 1, 0); MPI_Allgather (&n, 1, MPI_INT, c.data (), 1, MPI_INT, DScope::comm ()); for (int i = 0; i < P; i ++) d[i + 1] = d[i] + c[i];
  NumV r (d[P] + 1); Num dum = 0; MPI_Allgatherv (n > 0 ? (void *) p : (void *) &dum, n, SCOTCH_NUM_MPI, r.data (), c.data (), d.data (), SCOTCH_NUM_MPI, DScope::comm ()); r.resize (d[P]); return r;
}
inline NumV allgather1 (Num x) { return allgather (&x, 1); }
inline Num allmax (Num x) { NumV v = allgather1 (x); return *std::max_element (v.begin (), v.end ()); }
inline Num allmin (Num x) { NumV v = allgather1 (x); return *std::min_element (v.begin (), v.end ()); }
inline bool sameAll (Num x) { return allmin (x) == allmax (x); }
struct DDist {                                  // model of a distribution: contiguous chunks of vertices, possibly with holes in the global numbering
  int P = 1; std::vector<int> cnt, max, off, vrt;    // off: first model vertex, vrt: first (unbased) global number
  void finish () { off.assign (P + 1, 0); vrt.assign (P + 1, 0); for (int i = 0; i < P; i ++) { off[i + 1] = off[i] + cnt[i]; vrt[i + 1] = vrt[i] + max[i]; } }
  int owner (int v) const { int p = 0; while (v >= off[p + 1]) p ++; return p; }
  Num glb (int v) const { int p = owner (v); return vrt[p] + v - off[p]; }          // unbased
  int model (Num x) const { for (int p = 0; p < P; p ++) if (x >= vrt[p] && x < vrt[p + 1]) return x - vrt[p] < cnt[p] ? off[p] + (int) (x - vrt[p]) : -1; return -1; }
};
inline DDist genDist (int n, bool holes = true) {
  DDist d; d.P = g_mpi_size; d.cnt.assign (d.P, 0); int k = weighted ({4, 3, 2, 1}); if (d.P == 1) k = 0;
  if (k == 0) { for (int p = 0; p < d.P; p ++) d.cnt[p] = n / d.P + (p < n % d.P); tag ("even-split"); }
  else if (k == 1) { for (int v = 0, p = 0; v < n; v ++) { (void) p; } std::vector<int> cut; for (int i = 0; i + 1 < d.P; i ++) cut.push_back ((int) irange (0, n)); std::sort (cut.begin (), cut.end ()); int l = 0; for (int i = 0; i < d.P; i ++) { int e = i + 1 < d.P ? cut[i] : n; d.cnt[i] = e - l; l = e; } tag ("random-split"); }
  else if (k == 2) { int e = (int) draw (d.P); for (int v = 0; v < n; v ++) ; int q = 0; for (int p = 0; p < d.P; p ++) if (p != e || d.P == 1) q ++; int i = 0; for (int p = 0; p < d.P; p ++) if (p != e || d.P == 1) { d.cnt[p] = n / q + (i < n % q); i ++; } tag ("one-empty"); }
  else { d.cnt[draw (d.P)] = n; tag ("all-on-one"); }
  d.max = d.cnt; if (holes && chance (1, 3)) { for (int p = 0; p < d.P; p ++) d.max[p] += (int) draw (4); tag ("holes-in-numbering"); }
  d.finish (); return d;
}
struct DRep {
  MGraph g; DDist d; Num base = 0, locnbr = 0, locmax = 0, edgenbr = 0, edgesiz = 0;
  Num *vert = nullptr, *vend = nullptr, *velo = nullptr, *vlbl = nullptr, *edge = nullptr, *gst = nullptr, *edlo = nullptr; bool compact = true, allnc = false, bylbl = false;
  NumV cvert, cvend, cvelo, cvlbl, cedge, cedlo; SCOTCH_Dgraph graf; bool inited = false;
  DRep () {} DRep (const DRep &) = delete; DRep &operator= (const DRep &) = delete;
  ~DRep () { exit (); free (vert); free (vend); free (velo); free (vlbl); free (edge); free (gst); free (edlo); }
  void exit () { if (inited) SCOTCH_dgraphExit (&graf); inited = false; }
  // model vertices keep their order; when the graph has labels, arcs may be given in terms of labels
  void make (const MGraph &gg, const DDist &dd, int fbase = -1, int fgst = -1, bool allowlbl = true) {
    g = gg; d = dd; base = fbase >= 0 ? fbase : (Num) draw (2); bool hasgst = fgst >= 0 ? fgst != 0 : chance (1, 3); int lay = weighted ({3, 1, 1}); Rng r = bulk (); bylbl = g.hasVlbl && allowlbl; unsigned mix = lay == 2 ? (unsigned) draw (1 << d.P) : lay == 1 ? ~0u : 0;
    for (int p = 0; p < d.P; p ++) { allnc = lay == 1; const bool nc = (mix >> p & 1) != 0; NumV ve, vn, w, l, e, el; int c = d.cnt[p]; ve.resize (c + (nc ? 0 : 1)); vn.resize (c); std::vector<int> ord (c); std::iota (ord.begin (), ord.end (), 0); if (nc) shuffleR (ord, r); Num nb = 0;
      auto gap = [&] { if (nc) for (int k = (int) r.below (3); k > 0; k --) { e.push_back (-9999); el.push_back (-9999); } };
      gap (); for (int i : ord) { int v = d.off[p] + i; ve[i] = base + e.size (); for (auto &x : g.adj[v]) { e.push_back (bylbl ? g.vlbl[x.first] : base + d.glb (x.first)); el.push_back (x.second); nb ++; } vn[i] = base + e.size (); gap (); } if (! nc) ve[c] = base + e.size ();
      for (int i = 0; i < c; i ++) { int v = d.off[p] + i; w.push_back (g.vw (v)); if (g.hasVlbl) l.push_back (g.vlbl[v]); }
      if (p != g_mpi_rank) continue;
      locnbr = c; locmax = d.max[p]; edgenbr = nb; edgesiz = e.size (); cvert = ve; cvend = vn; cvelo = w; cvlbl = l; cedge = e; cedlo = el; vert = dupNum (ve); compact = ! nc; if (nc) vend = dupNum (vn); edge = dupNum (e); if (g.hasVelo) velo = dupNum (w); if (g.hasVlbl && bylbl) vlbl = dupNum (l); if (g.hasEdlo) edlo = dupNum (el); if (hasgst) gst = dupNum (NumV (e.size (), -7777)); }
    if (hasgst) tag ("user-ghost-array"); if (lay == 1) tag ("non-compact"); if (lay == 2) tag ("mixed-compactness"); if (bylbl) tag ("labels"); tag (strf ("base%d", (int) base)); tag (strf ("np%d", d.P));
  }
  void init () { if (! inited) { CHECK (SCOTCH_dgraphInit (&graf, MPI_COMM_WORLD) == 0, "dgraphInit failed"); inited = true; } }
  int tryBuild () { init (); const bool exv = draw (2) != 0; return SCOTCH_dgraphBuild (&graf, base, locnbr, locmax, vert, compact ? (exv ? vert + 1 : nullptr) : vend, velo, vlbl, edgenbr, edgesiz, edge, gst, edlo); }
  void build () { int o = tryBuild (); CHECK (o == 0, "dgraphBuild failed on rank %d: %s", g_mpi_rank, lastErr ().c_str ()); }
  void unchanged (const char *w) {
    auto eq = [&] (const Num *a, const NumV &b, const char *n) { if (! a) return; for (size_t i = 0; i < b.size (); i ++) CHECK (a[i] == b[i], "%s modified user array %s at index %d", w, n, (int) i); };
    eq (vert, cvert, "vertloctab"); if (! compact) eq (vend, cvend, "vendloctab"); eq (velo, cvelo, "veloloctab"); eq (vlbl, cvlbl, "vlblloctab"); eq (edlo, cedlo, "edloloctab"); if (! bylbl) eq (edge, cedge, "edgeloctab");
  }
  std::string text () const { std::string s = g.text () + " dist="; for (int p = 0; p < d.P; p ++) s += strf ("%d/%d ", d.cnt[p], d.max[p]); return s + strf ("base=%d%s%s%s", (int) base, compact ? "" : " non-compact", gst ? " gst" : "", bylbl ? " by-label" : ""); }
};
struct DInfo { Num base, vglb, eglb; DDist d; NumV lbl; bool hasLbl = false, hasVelo = false, hasEdlo = false; std::vector<NumV> glbadj; };
// Reads a distributed graph through its accessor only; the model is the same on every process
inline MGraph extractD (SCOTCH_Dgraph *gr, DInfo *inf = nullptr, const char *what = "graph") {
  Num base, vg, vl, vx, vs, eg, el, ex; Num *vt, *vn, *wt, *lt, *et, *gt, *dt; MPI_Comm c; SCOTCH_dgraphData (gr, &base, &vg, &vl, &vx, &vs, &vt, &vn, &wt, &lt, &eg, &el, &ex, &et, &gt, &dt, &c);
  CHECK (vl >= 0 && vx >= vl && el >= 0 && ex >= el, "%s: %lld local vertices of at most %lld, %lld arcs in an array of %lld", what, (LL) vl, (LL) vx, (LL) el, (LL) ex);
  CHECK (sameAll (base) && sameAll (vg) && sameAll (eg), "%s: global values differ between processes", what); CHECK (sameAll (wt != nullptr) && sameAll (dt != nullptr) && sameAll (lt != nullptr), "%s: optional arrays are not present on all processes", what);
  NumV cv = allgather1 (vl), mv = allgather1 (vx), ce = allgather1 (el); DDist d; d.P = DScope::np (); for (int p = 0; p < d.P; p ++) { d.cnt.push_back ((int) cv[p]); d.max.push_back ((int) mv[p]); } d.finish ();
  CHECK (d.off[d.P] == vg, "%s: %lld global vertices, and local numbers sum to %d", what, (LL) vg, d.off[d.P]); Num es = 0; for (Num x : ce) es += x; CHECK (es == eg, "%s: %lld global arcs, and local numbers sum to %lld", what, (LL) eg, (LL) es);
  NumV deg, ends, edl, wl, ll; Num s = 0; for (Num v = 0; v < vl; v ++) { Num b = vt[v] - base, e = vn[v] - base; CHECK (b >= 0 && b <= e && e <= ex, "%s: local vertex %lld spans arcs %lld to %lld, of %lld", what, (LL) v, (LL) b, (LL) e, (LL) ex); deg.push_back (e - b); s += e - b; for (Num i = b; i < e; i ++) { ends.push_back (et[i]); edl.push_back (dt ? dt[i] : 1); } if (wt) wl.push_back (wt[v]); if (lt) ll.push_back (lt[v]); }
  CHECK (s == el, "%s: degrees sum to %lld for %lld local arcs", what, (LL) s, (LL) el);
  NumV D = allgather (deg.data (), (int) deg.size ()), E = allgather (ends.data (), (int) ends.size ()), L = allgather (edl.data (), (int) edl.size ()), W = allgather (wl.data (), (int) wl.size ()), B = allgather (ll.data (), (int) ll.size ());
  MGraph g; g.resize ((int) vg); g.hasVelo = wt != nullptr; g.hasEdlo = dt != nullptr; if (wt) g.velo = W; size_t k = 0;
  for (int v = 0; v < g.n; v ++) for (Num i = 0; i < D[v]; i ++, k ++) { int x = d.model (E[k] - base); CHECK (x >= 0, "%s: vertex %d has an arc to global number %lld, which is nobody's", what, v, (LL) E[k]); g.adj[v].push_back ({x, L[k]}); }
  if (lt) { g.hasVlbl = true; g.vlbl = B; } if (inf) { inf->base = base; inf->vglb = vg; inf->eglb = eg; inf->d = d; inf->hasLbl = lt != nullptr; inf->lbl = B; inf->hasVelo = wt != nullptr; inf->hasEdlo = dt != nullptr; }
  return g;
}
inline void goodD (SCOTCH_Dgraph *g, const char *what) { int o = SCOTCH_dgraphCheck (g); CHECK (o == 0, "%s: dgraphCheck rejects it on rank %d: %s", what, g_mpi_rank, lastErr ().c_str ()); }
// Ghost numbering of one process, from its definition
inline void ghostOf (const MGraph &g, const DDist &d, int p, std::vector<int> &gh) { std::set<int> s; for (int v = d.off[p]; v < d.off[p + 1]; v ++) for (auto &e : g.adj[v]) if (d.owner (e.first) != p) s.insert (e.first); gh.assign (s.begin (), s.end ()); }
#endif
