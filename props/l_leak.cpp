// L01: the library leaks no memory.  Each case is a case of another property, or a history of computations, some of which fail;
// it is executed several times and the memory in use must not grow (VF_LEAK in core.cpp).
#include "job.hpp"

struct Ctx { SCOTCH_Context c; Ctx () { CHECK (SCOTCH_contextInit (&c) == 0, "contextInit failed"); } ~Ctx () { SCOTCH_contextExit (&c); } };
static int jobKind () { return weighted ({5, 2, 2, 4, 1, 3, 1, 2, 1, 3, 2, 3, 2, 2}); }

static void history () { // computations on shared contexts, all of them run several times
  int nt = weighted ({2, 2}) ? (int) irange (2, 4) : 1; bool ctx = coin (); tag (ctx ? strf ("context%d", nt) : "plain"); std::unique_ptr<Ctx> c; if (ctx) { c.reset (new Ctx ()); if (coin ()) SCOTCH_contextRandomClone (&c->c); if (nt > 1) CHECK (SCOTCH_contextThreadSpawn (&c->c, nt, nullptr) == 0, "contextThreadSpawn failed"); if (coin ()) SCOTCH_contextOptionParse (&c->c, pick (std::vector<const char *> {"d", "u", "f", "r,x"})); }
  for (int i = (int) irange (1, 3); i > 0; i --) { Job j; j.make (jobKind (), 300); tag (Job::kname (j.k)); NumV o = j.run (ctx ? &c->c : nullptr); j.valid (o, "run"); nontrivial (j.work); } }

static void failing () { // operations that the library refuses, between valid ones
  GenOpt o; o.nmin = 1; o.nmax = 25; MGraph g = genGraph (o); if (g.n == 0) { g = MGraph (); g.resize (1); } Rep r; r.make (g); r.build (); SCOTCH_Graph *p = &r.graf; int n = g.n; describe ("%s", g.text ().c_str ()); std::string seq; nontrivial (n > 1);
  for (int s = (int) irange (1, 6); s > 0; s --) { int k = (int) draw (13); tag (strf ("refused%d", k)); seq += strf (" %d", k); clearErr ();
    switch (k) {
      case 0: { SCOTCH_Strat st; SCOTCH_stratInit (&st); for (int i = 0; i < 3; i ++) { std::string t = i == 0 ? stratMap (1, false) : i == 1 ? stratOrder (2) : stratOvl (1); if (chance (2, 3) && ! t.empty ()) { size_t q = draw (t.size ()); int m = (int) draw (3); if (m == 0) t.resize (q); else if (m == 1) t.erase (q, 1); else t[q] = "{}()[];,=?:/|&!+-%<>x1 "[draw (23)]; } SCOTCH_Strat s2; SCOTCH_stratInit (&s2); int rc = i == 0 ? SCOTCH_stratGraphMap (&s2, t.c_str ()) : i == 1 ? SCOTCH_stratGraphOrder (&s2, t.c_str ()) : SCOTCH_stratGraphPartOvl (&s2, t.c_str ()); (void) rc; SCOTCH_stratExit (&s2); } SCOTCH_stratExit (&st); break; }
      case 1: { SCOTCH_Graph h; SCOTCH_graphInit (&h); Num b = 1, *ve = dupNum (NumV {0, 2}); SCOTCH_graphBuild (&h, 0, -1, ve, ve + 1, 0, 0, b, ve, 0); SCOTCH_graphExit (&h); free (ve); break; }
      case 2: { SCOTCH_Graph h; SCOTCH_graphInit (&h); Num *l = dupNum (NumV {(Num) (r.base + (int) draw (n)), (Num) (r.base + n + (int) draw (3))}); SCOTCH_graphInduceList (p, 1, l, &h); SCOTCH_graphExit (&h); SCOTCH_graphInit (&h); SCOTCH_graphInduceList (p, 1, l, &h); SCOTCH_graphFree (&h); SCOTCH_graphExit (&h); free (l); break; }
      case 3: { SCOTCH_Graph h; SCOTCH_graphInit (&h); Num *mu = dupNum (NumV (2 * n, 0)); SCOTCH_graphCoarsen (p, coin () ? (Num) n + 5 : 0, pick (std::vector<double> {0.5, 0.51, 0.8, 1.0}), (Num) draw (2) * SCOTCH_COARSENNOMERGE, &h, mu); SCOTCH_graphExit (&h); free (mu); break; }
      case 4: { SCOTCH_Arch a; SCOTCH_archInit (&a); NumV d; int q = (int) irange (1, 3); for (int i = 0; i < q; i ++) d.push_back ((Num) irange (-1, 3)); Num *dd = dupNum (d); bool bad = false; for (Num x : d) bad |= x < 1; if (! bad) { SCOTCH_archMeshX (&a, q, dd); SCOTCH_archSize (&a); } SCOTCH_archExit (&a); free (dd); break; }
      case 5: { SCOTCH_Arch a, b; SCOTCH_archInit (&a); SCOTCH_archInit (&b); SCOTCH_archCmplt (&a, 6); Num *l = dupNum (NumV {(Num) draw (6), (Num) draw (6), (Num) draw (9)}); std::set<Num> u (l, l + 3); if (u.size () == 3) SCOTCH_archSub (&b, &a, 3, l); SCOTCH_archExit (&b); SCOTCH_archExit (&a); free (l); break; }
      case 6: { SCOTCH_Arch a; SCOTCH_archInit (&a); std::string t = pick (std::vector<const char *> {"", "cmplt", "cmpltw 3 1 2", "deco 0 3 5\n1 1 1", "deco 1 3 5\n1 2 3", "tleaf 3 2 1", "mesh2D 3", "torusXD 4 1 2", "sub 3 0 1 2 cmplt", "sub 2 0 9 cmplt 4", "sub 3 2 1 1 mesh2D 4 4", "dist 5 cmplt", "ltleaf 2 2 3 1 2 2 0 1", "ltleaf 2 2 3 1 2 3 0 1", "deco 2 3 0", "zzz", "cmplt -3", "hcub 99", "varcmplt", "varhcub"}); FILE *f = memIn (t); SCOTCH_archLoad (&a, f); fclose (f); SCOTCH_archExit (&a); break; }
      case 7: { SCOTCH_Arch a; SCOTCH_archInit (&a); SCOTCH_Strat st; SCOTCH_stratInit (&st); if (coin ()) SCOTCH_stratGraphOrder (&st, "s"); Num *l = dupNum (NumV {(Num) r.base}); bool one = true; for (int v = 0; v < n; v ++) one &= g.vw (v) > 0; for (auto &x : g.adj) for (auto &e : x) one &= e.second <= 9; if (one) { SCOTCH_archBuild0 (&a, p, coin (), l, &st); } SCOTCH_archExit (&a); SCOTCH_stratExit (&st); free (l); break; }
      case 8: { SCOTCH_Ordering od; Num *pe = dupNum (NumV (n, 0)), cb; SCOTCH_Strat st; SCOTCH_stratInit (&st); if (coin ()) SCOTCH_stratGraphMap (&st, "r"); else if (coin ()) SCOTCH_stratGraphOrder (&st, stratOrder (2).c_str ()); if (SCOTCH_graphOrderInit (p, &od, coin () ? pe : nullptr, nullptr, &cb, nullptr, nullptr) == 0) { bool done = false; if (coin ()) { std::string t = pick (std::vector<const char *> {"", "0\n", "1\n1 1\n", "2\n0 0\n1 1\n", "3\n0 0\n"}); FILE *f = memIn (t); done = SCOTCH_graphOrderLoad (p, &od, f) == 0; fclose (f); } if (! done && coin ()) SCOTCH_graphOrderCompute (p, &od, &st); SCOTCH_graphOrderExit (p, &od); } SCOTCH_stratExit (&st); free (pe); break; }
      case 9: { SCOTCH_Arch a; SCOTCH_archInit (&a); SCOTCH_archCmplt (&a, (Num) irange (1, 6)); SCOTCH_Mapping mp; Num *t = dupNum (NumV (n, 0)); SCOTCH_Strat st; SCOTCH_stratInit (&st); if (coin ()) SCOTCH_stratGraphOrder (&st, "s"); else if (coin ()) SCOTCH_stratGraphMap (&st, stratMap (2, false).c_str ()); if (SCOTCH_graphMapInit (p, &mp, &a, coin () ? t : nullptr) == 0) { if (coin ()) SCOTCH_graphMapCompute (p, &mp, &st); if (coin ()) { std::string x = pick (std::vector<const char *> {"", "1\n0 0\n", "2\n0 0\n1 1\n", "1\n0\n", "x"}); FILE *f = memIn (x); SCOTCH_graphMapLoad (p, &mp, f); fclose (f); } if (coin ()) SCOTCH_graphMapCompute (p, &mp, &st); SCOTCH_graphMapExit (p, &mp); } SCOTCH_archExit (&a); SCOTCH_stratExit (&st); free (t); break; }
      case 10: { SCOTCH_Mesh m; SCOTCH_meshInit (&m); std::string t = pick (std::vector<const char *> {"", "1\n1 1 2\n1 0 000\n1 1\n1 0\n", "1\n1 1 2\n0 1 000\n1 1\n1 0\n", "1\n2 1 2\n0 2 000\n1 2\n", "9", "1\n1 1 2\n0 1 111\n5 3 1 1\n4 2 1 0\n"}); FILE *f = memIn (t); int rc = SCOTCH_meshLoad (&m, f, -1); fclose (f); if (rc == 0) { SCOTCH_Graph h; SCOTCH_graphInit (&h); SCOTCH_meshGraph (&m, &h); SCOTCH_graphExit (&h); } SCOTCH_meshExit (&m); break; }
      case 11: { SCOTCH_Graph *h = SCOTCH_graphAlloc (); SCOTCH_Arch *a = SCOTCH_archAlloc (); SCOTCH_Strat *st = SCOTCH_stratAlloc (); SCOTCH_Mesh *m = SCOTCH_meshAlloc (); SCOTCH_Context *x = SCOTCH_contextAlloc (); SCOTCH_Ordering *od = SCOTCH_orderAlloc (); SCOTCH_Mapping *mp = SCOTCH_mapAlloc (); SCOTCH_Geom *ge = SCOTCH_geomAlloc (); CHECK (h && a && st && m && x && od && mp && ge, "allocation failed"); SCOTCH_graphInit (h); SCOTCH_archInit (a); SCOTCH_stratInit (st); SCOTCH_meshInit (m); SCOTCH_contextInit (x); SCOTCH_geomInit (ge); SCOTCH_graphExit (h); SCOTCH_archExit (a); SCOTCH_stratExit (st); SCOTCH_meshExit (m); SCOTCH_contextExit (x); SCOTCH_geomExit (ge); for (void *q : {(void *) h, (void *) a, (void *) st, (void *) m, (void *) x, (void *) od, (void *) mp, (void *) ge}) SCOTCH_memFree (q); break; }
      default: { SCOTCH_Graph h; SCOTCH_graphInit (&h); std::string t = r.base ? "0\n1 0\n1 000\n0\n" : pick (std::vector<const char *> {"0\n2 2\n0 000\n1 1\n1 0\n", "0\n2 2\n0 000\n1 1\n1 7\n", "0\n2 2\n0 111\n5 1 1 1 6\n6 2 1 1 5\n", "0\n2 2\n0 100\n5 1 6\n5 1 5\n", "0\n2 2\n0 100\n5 1 6\n6 1", "0\n2 3\n0 000\n1 1\n1 0\n", "3\n1"}); FILE *f = memIn (t); if (SCOTCH_graphLoad (&h, f, -1, 0) == 0 && coin ()) { SCOTCH_graphFree (&h); SCOTCH_graphExit (&h); } else SCOTCH_graphExit (&h); fclose (f); break; } } }
  describe ("refused:%s", seq.c_str ()); }

PROPERTY (L01, "the case is a non-trivial one of the property it is taken from, or a computation with at least two parts, blocks, colours or pairs, or a history of refused operations on at least two vertices") {
  static const char *ids[] = {"G01", "G02", "G03", "G04", "G05", "G06", "G07", "G08", "G09", "P01", "P03", "P04", "P05", "P06", "P07", "A01", "A02", "A03", "O01", "O03", "M01", "M02", "M03", "S01", "R01"}; const int ni = sizeof ids / sizeof *ids; g_failskip = true;
  int k = (int) draw (ni + 14); if (k < 8) { history (); return; } if (k < 14) { failing (); return; } const char *id = ids[k - 14]; tag (strf ("via-%s", id)); describe ("%s:", id);
  for (Prop *q = g_props; q; q = q->next) if (! strcmp (q->id, id)) { q->fn (); return; } fail ("property %s is missing", id); }
