// P01: valid mappings.  P03: fixed vertices.  P04: remapping.  P05: overlap partitions.
#include "arch.hpp"

struct StratX { SCOTCH_Strat s; std::string desc; StratX () { SCOTCH_stratInit (&s); } ~StratX () { SCOTCH_stratExit (&s); } StratX (const StratX &) = delete; };
static void genStrat (StratX &st, int kind, int n, bool remap) {       // kind 0: mapping, 1: overlap
  switch (weighted ({3, 2, 4})) {
    case 0: st.desc = "default"; break;
    case 1: {
      int f = 0; for (int b : {SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATRECURSIVE}) if (chance (1, 4)) f |= b; if (remap || chance (1, 6)) f |= SCOTCH_STRATREMAP;
      double bal = pick (std::vector<double> {0.01, 0.05, 0.2, 0.5}); int rc = kind == 0 ? SCOTCH_stratGraphMapBuild (&st.s, f, n, bal) : SCOTCH_stratGraphPartOvlBuild (&st.s, f & ~SCOTCH_STRATREMAP, n, bal);
      st.desc = strf ("flags=0x%x bal=%g", f, bal); CHECK (rc == 0, "building a strategy from %s failed: %s", st.desc.c_str (), lastErr ().c_str ()); break; }
    default: {
      std::string t = kind == 0 ? stratMap ((int) draw (3), remap) : stratOvl ((int) draw (3));
      int rc = kind == 0 ? SCOTCH_stratGraphMap (&st.s, t.c_str ()) : SCOTCH_stratGraphPartOvl (&st.s, t.c_str ());
      st.desc = "'" + t + "'"; CHECK (rc == 0, "strategy %s rejected: %s", t.c_str (), lastErr ().c_str ()); }
  }
  tag (st.desc[0] == '\'' ? "strat-string" : st.desc[0] == 'f' ? "strat-flags" : "strat-default");
}
static std::string parts (const Num *p, int n) { std::string s; for (int i = 0; i < n && i < 60; i ++) s += strf ("%lld ", (long long) p[i]); return s; }
static void archSame (ArchP a, const char *w) { CHECK (SCOTCH_archSize (&a->arch) == a->n || a->var, "%s changed the architecture size", w); for (int i = 0; i < a->n && ! a->var; i ++) { SCOTCH_ArchDom d; CHECK (SCOTCH_archDomTerm (&a->arch, &d, a->num (i)) == 0, "%s: terminal %d lost", w, i); CHECK (SCOTCH_archDomWght (&a->arch, &d) == a->w[i], "%s changed the load of terminal %d", w, i); } }

PROPERTY (P01, "at least two terminals and at least two vertices, and the mapping uses at least two terminals") {
  GenOpt o; o.nmin = 1; o.nmax = 30; o.big = 250; MGraph g = genGraph (o); tag (g.family);
  Rep r; r.make (g); r.build (); ArchOpt ao; ao.nmax = 24; ao.var = true; ArchP a; bool part = chance (1, 3);
  if (part) a = archCmplt ((int) irange (1, chance (1, 4) ? 60 : 12)); else a = genArch (ao);
  StratX st; if (a->var) { double d = pick (std::vector<double> {0.1, 0.5, 0.9}); int pw = (int) irange (1, 20); CHECK (SCOTCH_stratGraphClusterBuild (&st.s, coin () ? SCOTCH_STRATSPEED : SCOTCH_STRATDEFAULT, pw, d, 0.05) == 0, "cluster strategy failed"); st.desc = strf ("cluster(%d,%g)", pw, d); } else genStrat (st, 0, a->n, false);
  seedLib (); tag ("arch-" + a->kind); describe ("%s target=%s strat=%s", g.text ().c_str (), a->desc.c_str (), st.desc.c_str ());
  Num *p = dupNum (NumV (g.n, -77)); int rc; clearErr ();
  if (part) { rc = SCOTCH_graphPart (&r.graf, a->n, &st.s, p); tag ("graphPart"); }
  else if (coin ()) rc = SCOTCH_graphMap (&r.graf, &a->arch, &st.s, p);
  else { SCOTCH_Mapping m; CHECK (SCOTCH_graphMapInit (&r.graf, &m, &a->arch, p) == 0, "graphMapInit failed"); rc = SCOTCH_graphMapCompute (&r.graf, &m, &st.s); SCOTCH_graphMapExit (&r.graf, &m); tag ("MapInit/Compute"); }
  CHECK (rc == 0, "mapping failed: %s", lastErr ().c_str ()); r.unchanged ("mapping"); archSame (a, "mapping");
  std::set<Num> used; for (int v = 0; v < g.n; v ++) { CHECK (a->var ? p[v] > 0 : a->idx (p[v]) >= 0, "vertex %d mapped to %lld (target has %d terminals): %s", v, (long long) p[v], a->n, parts (p, g.n).c_str ()); used.insert (p[v]); }
  nontrivial (used.size () > 1); free (p);
}

PROPERTY (P03, "some vertices fixed, some free, at least two terminals") {
  GenOpt o; o.nmin = 1; o.nmax = 30; o.big = 200; MGraph g = genGraph (o); tag (g.family);
  Rep r; r.make (g); r.build (); ArchOpt ao; ao.nmax = 16; bool part = coin (); ArchP a = part ? archCmplt ((int) irange (1, 12)) : genArch (ao);
  bool re = chance (1, 3); StratX st; genStrat (st, 0, a->n, re); seedLib (); tag ("arch-" + a->kind);
  NumV fx (g.n, -1), old (g.n, -1), vm; Rng rr = bulk (); int f = (int) draw (11), nf = 0; bool clustered = coin ();
  for (int v = 0; v < g.n; v ++) if ((int) (g.n <= 30 ? draw (10) : rr.below (10)) < f) { fx[v] = a->num (clustered ? (int) ((int64_t) v * a->n / g.n) : (int) (g.n <= 30 ? draw (a->n) : rr.below (a->n))); nf ++; }
  if (re) { int q = (int) draw (4); for (int v = 0; v < g.n; v ++) old[v] = (int) rr.below (4) < q ? -1 : a->num ((int) rr.below (a->n)); if (coin ()) for (int v = 0; v < g.n; v ++) vm.push_back (rr.below (6)); tag ("remap"); }
  double em = pick (std::vector<double> {1.0, 0.0, 0.3, 5.0}); std::string ft; for (int v = 0; v < g.n && v < 40; v ++) ft += strf ("%d ", (int) fx[v]);
  describe ("%s target=%s strat=%s fixed=[%s]%s em=%g", g.text ().c_str (), a->desc.c_str (), st.desc.c_str (), ft.c_str (), re ? " remap" : "", em);
  Num *p = dupNum (fx), *po = dupNum (old), *vl = vm.empty () ? nullptr : dupNum (vm); int rc; clearErr ();
  if (re) rc = part ? SCOTCH_graphRepartFixed (&r.graf, a->n, po, em, vl, &st.s, p) : SCOTCH_graphRemapFixed (&r.graf, &a->arch, po, em, vl, &st.s, p);
  else rc = part ? SCOTCH_graphPartFixed (&r.graf, a->n, &st.s, p) : SCOTCH_graphMapFixed (&r.graf, &a->arch, &st.s, p);
  CHECK (rc == 0, "mapping with fixed vertices failed: %s", lastErr ().c_str ()); r.unchanged ("fixed mapping"); archSame (a, "fixed mapping");
  for (int v = 0; v < g.n; v ++) { CHECK (a->idx (p[v]) >= 0, "vertex %d mapped to %lld of %d", v, (long long) p[v], a->n); CHECK (fx[v] < 0 || p[v] == fx[v], "vertex %d fixed to %lld was mapped to %lld", v, (long long) fx[v], (long long) p[v]); CHECK (po[v] == old[v], "old part array modified"); if (vl) CHECK (vl[v] == vm[v], "migration cost array modified"); }
  nontrivial (nf > 0 && nf < g.n && a->n > 1); if (nf == g.n) tag ("all-fixed"); if (nf == 0) tag ("none-fixed"); free (p); free (po); free (vl);
}

PROPERTY (P04, "at least two terminals, two vertices and one vertex with an old part") {
  GenOpt o; o.nmin = 1; o.nmax = 30; o.big = 250; MGraph g = genGraph (o); tag (g.family);
  Rep r; r.make (g); r.build (); ArchOpt ao; ao.nmax = 16; bool part = coin (); ArchP a = part ? archCmplt ((int) irange (1, 12)) : genArch (ao);
  StratX st; genStrat (st, 0, a->n, true); seedLib (); tag ("arch-" + a->kind);
  NumV old (g.n, -1), vm; Rng rr = bulk (); int q = (int) draw (5); int nold = 0; bool contig = coin ();
  for (int v = 0; v < g.n; v ++) if ((int) rr.below (4) >= q) { old[v] = a->num (contig ? (int) ((int64_t) v * a->n / g.n) : (int) (g.n <= 30 ? draw (a->n) : rr.below (a->n))); nold ++; }
  if (coin ()) for (int v = 0; v < g.n; v ++) vm.push_back (g.n <= 30 ? draw (6) : rr.below (6));
  double em = pick (std::vector<double> {1.0, 0.0, 0.3, 5.0, 50.0});
  describe ("%s target=%s strat=%s old=[%s] vmlo=%d em=%g", g.text ().c_str (), a->desc.c_str (), st.desc.c_str (), parts (old.data (), std::min (g.n, 30)).c_str (), (int) vm.size (), em);
  Num *p = dupNum (NumV (g.n, -77)), *po = dupNum (old), *vl = vm.empty () ? nullptr : dupNum (vm); int rc; clearErr ();
  if (part) rc = SCOTCH_graphRepart (&r.graf, a->n, po, em, vl, &st.s, p); else rc = SCOTCH_graphRemap (&r.graf, &a->arch, po, em, vl, &st.s, p);
  CHECK (rc == 0, "remapping failed: %s", lastErr ().c_str ()); r.unchanged ("remapping"); archSame (a, "remapping");
  for (int v = 0; v < g.n; v ++) { CHECK (a->idx (p[v]) >= 0, "vertex %d mapped to %lld of %d", v, (long long) p[v], a->n); CHECK (po[v] == old[v], "old part array modified"); if (vl) CHECK (vl[v] == vm[v], "migration cost array modified"); }
  nontrivial (nold > 0 && g.n > 1 && a->n > 1); free (p); free (po); free (vl);
}

PROPERTY (P05, "at least two parts non-empty and one separator vertex") {
  GenOpt o; o.nmin = 1; o.nmax = 30; o.big = 250; MGraph g = genGraph (o); tag (g.family); Rep r; r.make (g); r.build ();
  int n = (int) irange (1, chance (1, 4) ? 40 : 8); StratX st; genStrat (st, 1, n, false); seedLib ();
  describe ("%s parts=%d strat=%s", g.text ().c_str (), n, st.desc.c_str ());
  Num *p = dupNum (NumV (g.n, -77)); clearErr (); int rc = SCOTCH_graphPartOvl (&r.graf, n, &st.s, p);
  CHECK (rc == 0, "partitioning with overlap failed: %s", lastErr ().c_str ()); r.unchanged ("overlap partitioning");
  std::set<Num> used; for (int v = 0; v < g.n; v ++) { CHECK (p[v] >= -1 && p[v] < n, "vertex %d labelled %lld with %d parts", v, (long long) p[v], n); used.insert (p[v]);
    for (auto &e : g.adj[v]) if (p[v] >= 0 && p[e.first] >= 0) CHECK (p[v] == p[e.first], "edge %d-%d links parts %lld and %lld", v, e.first, (long long) p[v], (long long) p[e.first]); }
  nontrivial (used.count (-1) && used.size () > 2); if (used.count (-1)) tag ("separator"); free (p);
}

// Known finding: vertex-separator FM refinement with unlimited passes cycles for ever when the balance cannot be met.
#include <signal.h>
#include <sys/time.h>
static void onAlarm (int) { static const char m[] = "KNOWN-STILL-FAILS\n"; if (write (1, m, sizeof m - 1)) {} _exit (0); }
static void knownP05 () {
  static const Num vl[17] = {2,1,1,4,3,6,2,4,4,5,6,2,4,3,4,6,5}; static const int fa[17] = {0,0,0,1,2,3,2,3,0,6,6,1,6,10,9,8,3};
  MGraph g; g.resize (17); g.hasVelo = true; g.velo.assign (vl, vl + 17); for (int i = 1; i < 17; i ++) g.add (fa[i], i);
  Rep r; r.make (g, 0, 1); r.build (); SCOTCH_Strat s; SCOTCH_stratInit (&s); SCOTCH_stratGraphPartOvl (&s, "r{sep=h{pass=5}f{bal=0,pass=-1}}"); SCOTCH_randomReset ();
  signal (SIGVTALRM, onAlarm); struct itimerval it = {{0, 0}, {2, 0}}; setitimer (ITIMER_VIRTUAL, &it, nullptr);
  Num p[17]; SCOTCH_graphPartOvl (&r.graf, 2, &s, p); SCOTCH_stratExit (&s);
}
static KReg kP05 ("P05-K1", knownP05);
