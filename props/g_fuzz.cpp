// G09: every text loader, on structured mutations of valid files.
#include "mesh.hpp"
#include "arch.hpp"

static std::string num (long long x) { return strf ("%lld", x); }
static std::string mutateText (std::string t, const std::string &other) {
  int k = (int) irange (1, 4); static const std::vector<std::string> ext = {"-1", "0", "1", "2", "-2", "2147483647", "-2147483648", "2147483646", "2147483648", "4294967295", "4294967296", "1073741824", "536870912", "268435456", "99999999999999999999", "65536", "1000000", "x", "+3", "-", "1e9", "nan", "111", "110", "100", "(", ")", ",", "%", "mesh2D", "torus3D", "deco", "sub", "cmpltw", "tleaf", "ltleaf", "hcub", "varcmplt", "0x10"};
  for (int i = 0; i < k; i ++) {
    std::vector<std::pair<size_t,size_t>> tk; size_t p = 0; while (p < t.size ()) { while (p < t.size () && isspace ((unsigned char) t[p])) p ++; size_t s = p; while (p < t.size () && ! isspace ((unsigned char) t[p])) p ++; if (p > s) tk.push_back ({s, p - s}); }
    // header tokens are as interesting as all the others together
    auto at = [&] () { return tk[chance (1, 2) ? draw (std::min<size_t> (tk.size (), 9)) : draw (tk.size ())]; };
    int op = (int) draw (12); if (tk.empty ()) op = 8;
    switch (op) {
      case 0: case 1: case 2: { auto x = at (); t.replace (x.first, x.second, ext[draw (ext.size ())]); break; }
      case 3: case 4: case 5: { auto x = at (); char *e; std::string s = t.substr (x.first, x.second); long long v = strtoll (s.c_str (), &e, 10); if (*e == 0) { static const int dl[] = {1, -1, 2, -2, 10, -10, 100}; int o = (int) draw (10); v = o < 7 ? v + dl[o] : o == 7 ? -v : o == 8 ? v * 2 : (long long) draw (40); } t.replace (x.first, x.second, num (v)); break; }
      case 6: { auto x = at (); t.erase (x.first, x.second + (coin () ? 1 : 0)); break; }
      case 7: { auto x = at (); t.insert (x.first, t.substr (x.first, x.second) + " "); break; }
      case 8: { size_t q = draw (t.size () + 1); t.resize (q); break; }
      case 9: { size_t q = draw (t.size () + 1); std::string s; for (int n = (int) irange (1, 4); n > 0; n --) s += (char) draw (256); t.insert (q, s); break; }
      case 10: { auto x = at (), y = at (); std::string a = t.substr (x.first, x.second), b = t.substr (y.first, y.second); if (x.first > y.first) { std::swap (x, y); std::swap (a, b); } if (x.first != y.first) { t.replace (y.first, y.second, a); t.replace (x.first, x.second, b); } break; }
      default: { size_t q = draw (t.size () + 1), q2 = draw (other.size () + 1); t = t.substr (0, q) + other.substr (q2); break; }
    }
    if (t.size () > 40000) t.resize (40000);
  }
  return t;
}
static std::string graphText () { GenOpt o; o.nmax = 14; o.big = 60; MGraph g = genGraph (o); Rep r; r.make (g); r.build (); OutStream s; CHECK (SCOTCH_graphSave (&r.graf, s.f) == 0, "save"); return s.str (); }
static std::string meshText () { MeshOpt o; o.big = 50; MMesh m = genMesh (o); MRep r; r.make (m); r.build (); OutStream s; CHECK (SCOTCH_meshSave (&r.mesh, s.f) == 0, "save"); return s.str (); }
static std::string archText () {
  if (chance (1, 4)) { static const std::vector<std::string> t = {"cmplt 5\n", "cmpltw 4 1 2 3 4\n", "hcub 3\n", "mesh2D 3 4\n", "mesh3D 2 3 4\n", "meshXD 3 2 2 3\n", "torus2D 3 3\n", "torusXD 2 4 4\n", "tleaf 3 2 5 2 3 2 1\n", "ltleaf 2 3 5 2 1 2 1 0\n", "varcmplt\n", "varhcub\n", "deco 0 3 5 0 1 1 1 2 1 3 1 2 4 1 5 1 4 1 5 1 2 2\n", "sub 3 0 2 4\nmesh2D 3 3\n", "mesh2D 1 1\n", "deco 2 1\n"}; return pick (t); }
  ArchOpt o; o.nmax = 12; ArchP a = genArch (o); OutStream s; CHECK (SCOTCH_archSave (&a->arch, s.f) == 0, "archSave failed on %s", a->desc.c_str ()); return s.str ();
}
static std::string chacoText () { GenOpt o; o.nmax = 12; o.big = 50; o.vlbl = false; o.velozero = false; MGraph g = genGraph (o); Rep r; r.make (g); r.build (); OutStream s; SCOTCH_Geom ge; SCOTCH_geomInit (&ge); SCOTCH_graphGeomSaveChac (&r.graf, &ge, s.f, nullptr, nullptr); return s.str (); }
static std::string mmktText () { GenOpt o; o.nmax = 12; o.big = 50; o.vlbl = false; MGraph g = genGraph (o); Rep r; r.make (g); r.build (); OutStream s; SCOTCH_Geom ge; SCOTCH_geomInit (&ge); SCOTCH_graphGeomSaveMmkt (&r.graf, &ge, s.f, nullptr, nullptr); return s.str (); }
static std::string haboText (bool mesh) {
  std::vector<int> ptr {1}, ind; int n = (int) irange (1, 8); for (int i = 0; i < n; i ++) { int k = (int) draw (4); for (int j = 0; j < k; j ++) ind.push_back (1 + (int) draw (n)); ptr.push_back ((int) ind.size () + 1); }
  auto nums = [] (std::vector<int> &v) { std::string s; for (size_t i = 0; i < v.size (); i ++) { s += strf ("%5d", v[i]); if (i % 16 == 15 || i + 1 == v.size ()) s += "\n"; } return s; }; int lp = ((int) ptr.size () + 15) / 16, li = ((int) ind.size () + 15) / 16;
  return strf ("%-72s%-8s\n%14d%14d%14d%14d%14d\n%-14s%14d%14d%14d%14d\n%-16s%-16s\n", "title", "key", lp + li, lp, li, 0, 0, mesh ? "PSE" : "PUA", n, n, (int) ind.size (), 0, "(16I5)", "(16I5)") + nums (ptr) + nums (ind);
}
static std::string pairText (int n, int base) { std::string s = num (n) + "\n"; Rng r = bulk (); std::vector<int> p (n); std::iota (p.begin (), p.end (), 0); shuffleR (p, r); for (int i = 0; i < n; i ++) s += strf ("%d\t%d\n", i + base, p[i] + base); return s; }
static std::string geomText (int n, int base) { int d = (int) irange (1, 3); std::string s = strf ("%d\n%d\n", d, n); for (int i = 0; i < n; i ++) { s += num (i + base); for (int k = 0; k < d; k ++) s += strf ("\t%d.5", i * k); s += "\n"; } return s; }

static void tried (bool ok) { tag (ok ? "accepted" : "rejected"); }
PROPERTY (G09, "the mutated text differs from the valid one") {
  g_errok = true; int kind = (int) draw (13); static const char *kn[] = {"graph", "mesh", "arch", "chaco", "mmkt", "habo", "meshhabo", "geom", "meshgeom", "mapping", "tab", "order", "strat"}; tag (kn[kind]); seedLib ();
  GenOpt go; go.nmin = 1; go.nmax = 10; MGraph g = genGraph (go); Rep r; r.make (g); r.build ();
  std::string t, other;
  for (int i = 0; i < 2; i ++) { std::string &x = i ? other : t; switch (kind) {
      case 0: x = graphText (); break; case 1: x = meshText (); break; case 2: x = archText (); break; case 3: x = chacoText (); break; case 4: x = mmktText (); break; case 5: x = haboText (false); break; case 6: x = haboText (true); break;
      case 7: x = geomText (g.n, r.base); break; case 8: x = ""; break; case 9: case 10: case 11: x = pairText (g.n, r.base); break;
      default: switch (draw (4)) { case 0: x = stratMap (2); break; case 1: x = stratOrder (2); break; case 2: x = stratOvl (2); break; default: x = stratBipart (2); } } }
  std::string orig = t; MMesh mm; MRep mr; if (kind == 8) { MeshOpt o; mm = genMesh (o); mr.make (mm); mr.build (); t = orig = geomText (mm.nn, mr.nb); other = geomText (4, 0); }
  t = mutateText (t, other); describe ("%s: %s", kn[kind], t.substr (0, 1200).c_str ()); nontrivial (t != orig); clearErr ();
  FILE *f = memIn (t);
  switch (kind) {
    case 0: case 3: case 4: case 5: { SCOTCH_Graph h; SCOTCH_graphInit (&h); SCOTCH_Geom ge; SCOTCH_geomInit (&ge); Num b = (Num) irange (-1, 1), fl = (Num) draw (4); int rc = kind == 0 ? SCOTCH_graphLoad (&h, f, b, fl) : kind == 3 ? SCOTCH_graphGeomLoadChac (&h, &ge, f, nullptr, nullptr) : kind == 4 ? SCOTCH_graphGeomLoadMmkt (&h, &ge, f, nullptr, b < 0 ? nullptr : b ? "1" : "0") : SCOTCH_graphGeomLoadHabo (&h, &ge, f, nullptr, b < 0 ? nullptr : b ? "1" : "0"); tried (rc == 0);
      if (rc == 0) { CHECK (SCOTCH_graphCheck (&h) == 0, "a loaded graph fails its check"); MGraph q = extract (&h); OutStream s; CHECK (SCOTCH_graphSave (&h, s.f) == 0, "a loaded graph cannot be saved"); SCOTCH_Graph h2; SCOTCH_graphInit (&h2); FILE *f2 = memIn (s.str ()); CHECK (SCOTCH_graphLoad (&h2, f2, -1, 0) == 0, "a saved graph is rejected: %s", s.str ().substr (0, 300).c_str ()); fclose (f2); std::string d = diffGraph (q, extract (&h2)); CHECK (d.empty (), "reloaded graph differs: %s", d.c_str ()); SCOTCH_graphExit (&h2); }
      SCOTCH_geomExit (&ge); SCOTCH_graphExit (&h); break; }
    case 1: case 6: { SCOTCH_Mesh h; SCOTCH_meshInit (&h); SCOTCH_Geom ge; SCOTCH_geomInit (&ge); int rc = kind == 1 ? SCOTCH_meshLoad (&h, f, (Num) irange (-1, 1)) : SCOTCH_meshGeomLoadHabo (&h, &ge, f, nullptr, coin () ? "0" : ""); tried (rc == 0); if (rc == 0) { CHECK (SCOTCH_meshCheck (&h) == 0, "a loaded mesh fails its check"); MMesh q = extractMesh (&h); OutStream s; CHECK (SCOTCH_meshSave (&h, s.f) == 0, "a loaded mesh cannot be saved"); SCOTCH_Mesh h2; SCOTCH_meshInit (&h2); FILE *f2 = memIn (s.str ()); CHECK (SCOTCH_meshLoad (&h2, f2, -1) == 0, "a saved mesh is rejected: %s", s.str ().substr (0, 300).c_str ()); fclose (f2); std::string d = diffMesh (q, extractMesh (&h2)); CHECK (d.empty (), "reloaded mesh differs: %s", d.c_str ()); SCOTCH_meshExit (&h2); } SCOTCH_geomExit (&ge); SCOTCH_meshExit (&h); break; }
    case 2: { SCOTCH_Arch a; SCOTCH_archInit (&a); int rc = SCOTCH_archLoad (&a, f); tried (rc == 0); if (rc == 0) { (void) SCOTCH_archName (&a); (void) SCOTCH_archSize (&a); OutStream s; CHECK (SCOTCH_archSave (&a, s.f) == 0, "a loaded architecture cannot be saved"); } SCOTCH_archExit (&a); break; }
    case 7: { SCOTCH_Geom ge; SCOTCH_geomInit (&ge); int rc = SCOTCH_graphGeomLoadScot (&r.graf, &ge, nullptr, f, nullptr); tried (rc == 0); Num d; double *p, s = 0; SCOTCH_geomData (&ge, &d, &p); if (rc == 0 && g.n > 0) { CHECK (d >= 1 && d <= 3 && p, "loaded geometry has dimension %lld", (long long) d); for (int i = 0; i < g.n * d; i ++) s += p[i]; } SCOTCH_geomExit (&ge); break; }
    case 8: { SCOTCH_Geom ge; SCOTCH_geomInit (&ge); int rc = SCOTCH_meshGeomLoadScot (&mr.mesh, &ge, nullptr, f, nullptr); tried (rc == 0); Num d; double *p, s = 0; SCOTCH_geomData (&ge, &d, &p); if (rc == 0 && mm.nn > 0) { CHECK (d >= 1 && d <= 3 && p, "loaded geometry has dimension %lld", (long long) d); for (int i = 0; i < mm.nn * d; i ++) s += p[i]; } SCOTCH_geomExit (&ge); break; }
    case 9: { ArchP a = archCmplt (20); SCOTCH_Mapping m; Num *p = dupNum (NumV (g.n, -88)); SCOTCH_graphMapInit (&r.graf, &m, &a->arch, p); int rc = SCOTCH_graphMapLoad (&r.graf, &m, f); tried (rc == 0); for (int v = 0; rc == 0 && v < g.n; v ++) CHECK (p[v] != -88, "loaded mapping leaves vertex %d unset", v); SCOTCH_graphMapExit (&r.graf, &m); free (p); break; }
    case 10: { Num *p = dupNum (NumV (g.n, -88)); int rc = SCOTCH_graphTabLoad (&r.graf, p, f); tried (rc == 0); free (p); break; }
    case 11: { Num *p = dupNum (NumV (g.n, -88)), *q = coin () ? dupNum (NumV (g.n, -88)) : nullptr; SCOTCH_Ordering o; SCOTCH_graphOrderInit (&r.graf, &o, p, q, nullptr, nullptr, nullptr); int rc = SCOTCH_graphOrderLoad (&r.graf, &o, f); tried (rc == 0); if (rc == 0) { std::vector<char> s (g.n, 0); for (int v = 0; v < g.n; v ++) { Num k = p[v] - r.base; CHECK (k >= 0 && k < g.n && ! s[k], "loaded ordering is not a permutation"); s[k] = 1; CHECK (! q || q[k] == v + r.base, "loaded inverse permutation differs"); } } SCOTCH_graphOrderExit (&r.graf, &o); free (p); free (q); break; }
    default: { { std::string u = t.c_str (); t = u; t.shrink_to_fit (); } SCOTCH_Strat s; SCOTCH_stratInit (&s); int w = (int) draw (5); int rc = w == 0 ? SCOTCH_stratGraphMap (&s, t.c_str ()) : w == 1 ? SCOTCH_stratGraphOrder (&s, t.c_str ()) : w == 2 ? SCOTCH_stratGraphPartOvl (&s, t.c_str ()) : w == 3 ? SCOTCH_stratGraphBipart (&s, t.c_str ()) : SCOTCH_stratMeshOrder (&s, t.c_str ()); tried (rc == 0);
      if (rc == 0) { OutStream o; CHECK (SCOTCH_stratSave (&s, o.f) == 0, "an accepted strategy cannot be saved"); } SCOTCH_stratExit (&s); break; }
  }
  fclose (f); r.unchanged ("loading");
}
