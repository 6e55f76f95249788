// A01: domain hierarchy.  A02: sizes, loads, distances.  A03: saved and derived architectures.
#include "arch.hpp"

struct Walk { ArchP a; std::vector<int> seen; int maxDepth = 0, splits = 0; std::vector<SCOTCH_ArchDom> keep; };
static std::vector<int> walk (Walk &w, const SCOTCH_ArchDom &dom, int depth) {   // returns the terminals of the domain
  SCOTCH_Arch *ar = &w.a->arch; Num n = SCOTCH_archDomSize (ar, (SCOTCH_ArchDom *) &dom), wg = SCOTCH_archDomWght (ar, (SCOTCH_ArchDom *) &dom), nu = SCOTCH_archDomNum (ar, (SCOTCH_ArchDom *) &dom);
  CHECK (n >= 1 && n <= w.a->n, "domain of size %lld in an architecture of %d terminals", (long long) n, w.a->n); CHECK (depth <= 4 * w.a->n + 40, "bipartition does not end"); w.maxDepth = std::max (w.maxDepth, depth);
  SCOTCH_ArchDom d0, d1; int rc = SCOTCH_archDomBipart (ar, (SCOTCH_ArchDom *) &dom, &d0, &d1); std::vector<int> t;
  if (n == 1) {
    CHECK (rc == 1, "bipartitioning a terminal domain returned %d", rc); int i = w.a->idx (nu); CHECK (i >= 0, "terminal domain has number %lld", (long long) nu);
    CHECK (w.seen[i] ++ == 0, "terminal %lld reached twice", (long long) nu); CHECK (wg == w.a->w[i], "terminal %lld has load %lld in the hierarchy, expected %lld", (long long) nu, (long long) wg, (long long) w.a->w[i]);
    SCOTCH_ArchDom td; CHECK (SCOTCH_archDomTerm (ar, &td, nu) == 0, "no terminal domain %lld", (long long) nu); CHECK (SCOTCH_archDomDist (ar, (SCOTCH_ArchDom *) &dom, &td) == 0, "terminal %lld of the hierarchy differs from the terminal domain of that number", (long long) nu);
    t.push_back (i);
  } else {
    CHECK (rc == 0, "bipartitioning a domain of %lld terminals returned %d", (long long) n, rc); w.splits ++;
    std::vector<int> a = walk (w, d0, depth + 1), b = walk (w, d1, depth + 1); t = a; t.insert (t.end (), b.begin (), b.end ());
    CHECK (SCOTCH_archDomSize (ar, &d0) + SCOTCH_archDomSize (ar, &d1) == n, "sizes of subdomains (%lld, %lld) do not add to %lld", (long long) SCOTCH_archDomSize (ar, &d0), (long long) SCOTCH_archDomSize (ar, &d1), (long long) n);
    CHECK (SCOTCH_archDomWght (ar, &d0) + SCOTCH_archDomWght (ar, &d1) == wg, "loads of subdomains do not add to %lld", (long long) wg);
  }
  CHECK ((Num) t.size () == n, "domain of declared size %lld holds %zu terminals", (long long) n, t.size ());
  int64_t s = 0; bool in = false; Num mn = -1; for (int i : t) { s += w.a->w[i]; Num x = w.a->num (i); if (x == nu) in = true; if (mn < 0 || x < mn) mn = x; }
  CHECK (s == wg, "domain load is %lld, its terminals add to %lld", (long long) wg, (long long) s); CHECK (in, "domain number %lld is not one of its terminals", (long long) nu);
  const std::string &k = w.a->kind; if (k == "cmplt" || k == "hcub" || k == "mesh" || k == "torus" || k == "tleaf" || k == "decofile") CHECK (nu == mn, "domain number is %lld, smallest terminal is %lld", (long long) nu, (long long) mn);
  if (w.keep.size () < 200) w.keep.push_back (dom); return t;
}
// A terminal-wise decomposition ("deco 0") file with arbitrary loads and distances
static ArchP genDecoFile (int nmax) {
  int n = (int) irange (1, std::min (nmax, 12)); ArchP a = std::make_shared<MArch> (); a->kind = "decofile"; a->name = "deco"; a->n = n; CHECK (SCOTCH_archInit (&a->arch) == 0, "archInit failed"); a->inited = true;
  std::vector<std::pair<int, int>> st {{1, n}}; std::vector<int> dom; while (! st.empty ()) { auto [k, c] = st.back (); st.pop_back (); if (c == 1) { dom.push_back (k); continue; } int l = (k >= 32) ? c / 2 : (int) irange (1, c - 1); st.push_back ({2 * k + 1, c - l}); st.push_back ({2 * k, l}); }
  shuffleC (dom); std::vector<int> lab (n); std::iota (lab.begin (), lab.end (), coin () ? 0 : 1); shuffleC (lab); int mx = *std::max_element (dom.begin (), dom.end ());
  std::string t = strf ("deco 0\n%d %d\n", n, mx); a->w.resize (n); for (int i = 0; i < n; i ++) { a->w[i] = irange (1, 6); a->tn.push_back (lab[i]); t += strf ("%d %d %d\n", lab[i], (int) a->w[i], dom[i]); }
  auto d = std::make_shared<std::vector<NumV>> (n, NumV (n, 0)); for (int i = 1; i < n; i ++) for (int j = 0; j < i; j ++) { (*d)[i][j] = (*d)[j][i] = irange (1, 9); t += strf ("%d%c", (int) (*d)[i][j], j == i - 1 ? '\n' : ' '); }
  a->dist = [d] (int i, int j) { return (*d)[i][j]; }; FILE *f = memIn (t); int rc = SCOTCH_archLoad (&a->arch, f); fclose (f); a->desc = t; for (auto &c : a->desc) if (c == '\n') c = '/';
  CHECK (rc == 0, "archLoad failed on '%s': %s", t.c_str (), lastErr ().c_str ()); return a;
}
static ArchP anyArch (int nmax, bool var) { ArchOpt o; o.nmax = nmax; o.var = var; if (chance (1, 8)) return genDecoFile (nmax); return genArch (o); }

PROPERTY (A01, "at least three terminals") {
  ArchP a = anyArch (chance (1, 6) ? 200 : 32, true); tag ("arch-" + a->kind); describe ("%s", a->desc.c_str ()); SCOTCH_ArchDom d; CHECK (SCOTCH_archDomFrst (&a->arch, &d) == 0, "archDomFrst failed");
  CHECK (SCOTCH_archVar (&a->arch) == (a->var ? 1 : 0), "archVar returned %d", SCOTCH_archVar (&a->arch));
  if (a->var) {                                                   // unbounded hierarchy: walk a random path, and check sibling numbers
    nontrivial (); bool h = a->kind == "varhcub"; Num id = 1; CHECK (SCOTCH_archDomNum (&a->arch, &d) == 1, "root of a variable-sized architecture has number %lld", (long long) SCOTCH_archDomNum (&a->arch, &d)); (void) h;
    int l = (int) irange (1, 14); for (int i = 0; i < l; i ++) { SCOTCH_ArchDom d0, d1; CHECK (SCOTCH_archDomBipart (&a->arch, &d, &d0, &d1) == 0, "cannot bipartition a variable-sized domain"); Num n0 = SCOTCH_archDomNum (&a->arch, &d0), n1 = SCOTCH_archDomNum (&a->arch, &d1);
      CHECK (n0 == 2 * id && n1 == 2 * id + 1, "children of domain %lld are %lld and %lld", (long long) id, (long long) n0, (long long) n1); CHECK (SCOTCH_archDomSize (&a->arch, &d0) > 0 && SCOTCH_archDomWght (&a->arch, &d1) > 0, "bad size of a variable-sized domain");
      CHECK (SCOTCH_archDomDist (&a->arch, &d0, &d1) > 0 && SCOTCH_archDomDist (&a->arch, &d0, &d0) == 0, "bad distance between sibling domains"); SCOTCH_ArchDom t; CHECK (SCOTCH_archDomTerm (&a->arch, &t, n1) == 0, "no domain %lld", (long long) n1); CHECK (SCOTCH_archDomNum (&a->arch, &t) == n1, "domain %lld has number %lld", (long long) n1, (long long) SCOTCH_archDomNum (&a->arch, &t)); CHECK (SCOTCH_archDomDist (&a->arch, &t, &d1) == 0 && SCOTCH_archDomDist (&a->arch, &t, &d0) > 0, "domain %lld built by number differs", (long long) n1);
      if (coin ()) { d = d1; id = n1; } else { d = d0; id = n0; } }
    return; }
  CHECK (SCOTCH_archDomSize (&a->arch, &d) == a->n, "whole domain has size %lld, expected %d", (long long) SCOTCH_archDomSize (&a->arch, &d), a->n); CHECK (SCOTCH_archDomWght (&a->arch, &d) == a->wsum (), "whole domain has load %lld, expected %lld", (long long) SCOTCH_archDomWght (&a->arch, &d), (long long) a->wsum ());
  Walk w; w.a = a; w.seen.assign (a->n, 0); walk (w, d, 0); for (int i = 0; i < a->n; i ++) CHECK (w.seen[i] == 1, "terminal %lld is never reached", (long long) a->num (i));
  for (int i = 0; i < a->n; i ++) { SCOTCH_ArchDom t; CHECK (SCOTCH_archDomTerm (&a->arch, &t, a->num (i)) == 0, "no terminal %lld", (long long) a->num (i)); CHECK (SCOTCH_archDomNum (&a->arch, &t) == a->num (i), "terminal %lld has number %lld", (long long) a->num (i), (long long) SCOTCH_archDomNum (&a->arch, &t)); CHECK (SCOTCH_archDomSize (&a->arch, &t) == 1, "terminal %lld has size %lld", (long long) a->num (i), (long long) SCOTCH_archDomSize (&a->arch, &t)); CHECK (SCOTCH_archDomWght (&a->arch, &t) == a->w[i], "terminal %lld has load %lld", (long long) a->num (i), (long long) SCOTCH_archDomWght (&a->arch, &t)); }
  if (a->tn.empty ()) for (int k = 0; k < 3; k ++) { SCOTCH_ArchDom t; int rc = SCOTCH_archDomTerm (&a->arch, &t, a->n + k * 7); CHECK (rc != 0, "terminal %d of %d exists", a->n + k * 7, a->n); }
  for (int k = 0; k < 20; k ++) { const SCOTCH_ArchDom &x = w.keep[draw (w.keep.size ())], &y = w.keep[draw (w.keep.size ())]; Num p = SCOTCH_archDomDist (&a->arch, (SCOTCH_ArchDom *) &x, (SCOTCH_ArchDom *) &y); CHECK (p >= 0, "distance between two domains is %lld", (long long) p); }
  nontrivial (a->n >= 3); if (w.maxDepth > 5) tag ("deep"); if (a->wsum () != a->n) tag ("weighted");
}
static std::vector<NumV> distances (ArchP a) {
  std::vector<SCOTCH_ArchDom> t (a->n); for (int i = 0; i < a->n; i ++) CHECK (SCOTCH_archDomTerm (&a->arch, &t[i], a->num (i)) == 0, "no terminal %lld", (long long) a->num (i));
  std::vector<NumV> d (a->n, NumV (a->n)); for (int i = 0; i < a->n; i ++) for (int j = 0; j < a->n; j ++) d[i][j] = SCOTCH_archDomDist (&a->arch, &t[i], &t[j]); return d;
}
PROPERTY (A02, "at least three terminals with distances the model knows") {
  ArchP a = anyArch (chance (1, 6) ? 100 : 32, false); tag ("arch-" + a->kind); describe ("%s", a->desc.c_str ());
  CHECK (SCOTCH_archSize (&a->arch) == a->n, "architecture has %lld terminals, expected %d", (long long) SCOTCH_archSize (&a->arch), a->n); auto d = distances (a); Num mx = 0;
  for (int i = 0; i < a->n; i ++) for (int j = 0; j < a->n; j ++) { Num x = d[i][j]; mx = std::max (mx, x); CHECK (x == d[j][i], "distance from %d to %d is %lld, back %lld", i, j, (long long) x, (long long) d[j][i]); CHECK ((x == 0) == (i == j) && x >= 0, "distance from %d to %d is %lld", i, j, (long long) x); if (a->exact) CHECK (x == a->dist (i, j), "distance from terminal %lld to %lld is %lld, expected %lld", (long long) a->num (i), (long long) a->num (j), (long long) x, (long long) a->dist (i, j)); }
  for (int i = 0; i < a->n; i ++) { SCOTCH_ArchDom t; SCOTCH_archDomTerm (&a->arch, &t, a->num (i)); CHECK (SCOTCH_archDomWght (&a->arch, &t) == a->w[i], "terminal %lld has load %lld, expected %lld", (long long) a->num (i), (long long) SCOTCH_archDomWght (&a->arch, &t), (long long) a->w[i]); }
  { std::vector<SCOTCH_ArchDom> l (1); CHECK (SCOTCH_archDomFrst (&a->arch, &l[0]) == 0, "archDomFrst failed"); // distances between domains of any size
    for (size_t i = 0; i < l.size () && l.size () < 400; i ++) { SCOTCH_ArchDom x = l[i], d0, d1; if (SCOTCH_archDomSize (&a->arch, &x) > 1 && SCOTCH_archDomBipart (&a->arch, &x, &d0, &d1) == 0) { l.push_back (d0); l.push_back (d1); } }
    bool all = l.size () <= 40; size_t nb = all ? l.size () * l.size () : 800;
    for (size_t k = 0; k < nb; k ++) { SCOTCH_ArchDom &x = l[all ? k / l.size () : draw (l.size ())], &y = l[all ? k % l.size () : draw (l.size ())]; Num p = SCOTCH_archDomDist (&a->arch, &x, &y), q = SCOTCH_archDomDist (&a->arch, &y, &x);
      CHECK (p >= 0 && p == q, "distance between a domain of size %lld (number %lld) and one of size %lld (number %lld) is %lld, back %lld", (long long) SCOTCH_archDomSize (&a->arch, &x), (long long) SCOTCH_archDomNum (&a->arch, &x), (long long) SCOTCH_archDomSize (&a->arch, &y), (long long) SCOTCH_archDomNum (&a->arch, &y), (long long) p, (long long) q); } }
  nontrivial (a->n >= 3 && a->exact); if (mx > 1) tag ("non-uniform distances");
}
PROPERTY (A03, "at least two terminals") {
  ArchP a = anyArch (24, true); { ArchP h = a->sub.empty () ? a : a->sub[0]; if (h->kind == "hcub" && h->n == 1) skipCase (); }
  tag ("arch-" + a->kind); std::string t; clearErr (); describe ("%s", a->desc.c_str ());
  { OutStream o; CHECK (SCOTCH_archSave (&a->arch, o.f) == 0, "archSave failed: %s", lastErr ().c_str ()); t = o.str (); }
  ArchP b = std::make_shared<MArch> (); b->kind = a->kind; b->n = a->n; b->tn = a->tn; b->w = a->w; CHECK (SCOTCH_archInit (&b->arch) == 0, "archInit failed"); b->inited = true;
  std::string lead = chance (1, 4) ? "\n  \t" : ""; FILE *f = memIn (lead + t); int rc = SCOTCH_archLoad (&b->arch, f); fclose (f); CHECK (rc == 0, "a saved architecture is rejected (%s): %s", lastErr ().c_str (), t.c_str ());
  CHECK (std::string (SCOTCH_archName (&a->arch)) == SCOTCH_archName (&b->arch), "name was '%s', is '%s' after loading", SCOTCH_archName (&a->arch), SCOTCH_archName (&b->arch)); CHECK (SCOTCH_archName (&a->arch) == a->name, "architecture named '%s', expected '%s'", SCOTCH_archName (&a->arch), a->name.c_str ());
  std::string t2; { OutStream o; CHECK (SCOTCH_archSave (&b->arch, o.f) == 0, "second archSave failed"); t2 = o.str (); }
  { SCOTCH_Arch c; SCOTCH_archInit (&c); FILE *f2 = memIn (t2); rc = SCOTCH_archLoad (&c, f2); fclose (f2); CHECK (rc == 0, "an architecture saved after loading is rejected: %s", t2.c_str ()); OutStream o; CHECK (SCOTCH_archSave (&c, o.f) == 0, "third archSave failed"); CHECK (o.str () == t2, "saving the loaded architecture gives '%s' instead of '%s'", o.str ().c_str (), t2.c_str ()); SCOTCH_archExit (&c); }
  CHECK (SCOTCH_archVar (&b->arch) == (int) a->var, "archVar changed"); if (a->var) { nontrivial (); return; }
  CHECK (SCOTCH_archSize (&b->arch) == a->n, "loaded architecture has %lld terminals, expected %d", (long long) SCOTCH_archSize (&b->arch), a->n);
  auto d = distances (a), e = distances (b); for (int i = 0; i < a->n; i ++) for (int j = 0; j < a->n; j ++) CHECK (d[i][j] == e[i][j], "distance %d-%d was %lld, is %lld after loading", i, j, (long long) d[i][j], (long long) e[i][j]);
  SCOTCH_ArchDom r; SCOTCH_archDomFrst (&b->arch, &r); Walk w; w.a = b; w.seen.assign (b->n, 0); walk (w, r, 0);
  if (a->kind == "sub") { auto o = a->sub[0]; auto od = distances (o); (void) od; tag ("sub of " + o->kind); }
  nontrivial (a->n >= 2);
}
