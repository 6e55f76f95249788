// S01: strategy strings: acceptance, save/parse round trip, condition semantics, rejection of malformed strings, flag builders.
#include "arch.hpp"
#include "mesh.hpp"
#include "order.hpp"

enum Kind { MAP, ORD, OVL, MSH, BIP };
static const char *kname[] = {"map", "order", "overlap", "mesh-order", "bipart"};
struct St { SCOTCH_Strat s; St () { SCOTCH_stratInit (&s); } ~St () { SCOTCH_stratExit (&s); } St (const St &) = delete; };
static int parse (St &s, Kind k, const std::string &t) {
  switch (k) { case MAP: return SCOTCH_stratGraphMap (&s.s, t.c_str ()); case ORD: return SCOTCH_stratGraphOrder (&s.s, t.c_str ()); case OVL: return SCOTCH_stratGraphPartOvl (&s.s, t.c_str ()); case MSH: return SCOTCH_stratMeshOrder (&s.s, t.c_str ()); default: return SCOTCH_stratGraphBipart (&s.s, t.c_str ()); } }
static std::string save (St &s) { OutStream o; CHECK (SCOTCH_stratSave (&s.s, o.f) == 0, "stratSave failed: %s", lastErr ().c_str ()); return o.str (); }
struct Subject {                               // what strategies are applied to
  MGraph g; Rep r; MMesh m; MRep mr; ArchP a; int parts = 2;
  void make (Kind k, bool two = false) {
    if (k == MSH) { MeshOpt o; o.big = 120; o.lbl = false; m = genMesh (o); if (m.nn == 0) skipCase (); mr.make (m); mr.build (); describe ("%s ", m.text ().c_str ()); return; }
    GenOpt o; o.nmin = 1; o.nmax = 25; o.big = 120; g = genGraph (o); if (g.n == 0) skipCase (); r.make (g); r.build (); describe ("%s ", g.text ().c_str ()); parts = two ? 2 : (int) irange (2, 7); if (k == MAP) a = archCmplt (parts); }
  int run (Kind k, St &s, NumV &res) {         // result of applying a strategy
    SCOTCH_randomReset (); int rc; clearErr ();
    if (k == MAP || k == OVL) { Num *p = dupNum (NumV (g.n, -77)); rc = k == MAP ? SCOTCH_graphMap (&r.graf, &a->arch, &s.s, p) : SCOTCH_graphPartOvl (&r.graf, parts, &s.s, p); res.assign (p, p + g.n); free (p); }
    else { int n = k == MSH ? m.nn : g.n; Num *pe = dupNum (NumV (n, -77)), *ra = dupNum (NumV (n + 1, -77)), *tr = dupNum (NumV (n, -77)), cb = 0; rc = k == MSH ? SCOTCH_meshOrder (&mr.mesh, &s.s, pe, nullptr, &cb, ra, tr) : SCOTCH_graphOrder (&r.graf, &s.s, pe, nullptr, &cb, ra, tr); res.assign (pe, pe + n); res.push_back (cb); if (rc == 0) { res.insert (res.end (), ra, ra + cb + 1); res.insert (res.end (), tr, tr + cb); } free (pe); free (ra); free (tr); }
    return rc; }
  void valid (Kind k, const NumV &res, const std::string &d) {
    if (k == MAP || k == OVL) { for (int v = 0; v < g.n; v ++) { CHECK (res[v] >= (k == OVL ? -1 : 0) && res[v] < parts, "vertex %d gets part %lld of %d with %s", v, (long long) res[v], parts, d.c_str ()); if (k == OVL && res[v] >= 0) for (auto &e : g.adj[v]) CHECK (res[e.first] < 0 || res[e.first] == res[v], "edge %d-%d links parts with %s", v, e.first, d.c_str ()); } return; }
    int n = k == MSH ? m.nn : g.n; Num cb = res[n]; NumV t (res); checkOrder (k == MSH ? nodeGraph (m) : g, k == MSH ? mr.base : r.base, t.data (), nullptr, cb, t.data () + n + 1, t.data () + n + 2 + cb, {}, false); }
};
static std::string gen (Kind k, int d) { switch (k) { case MAP: return stratMap (d); case ORD: return stratOrder (d); case OVL: return stratOvl (d); case MSH: return stratMesh (d); default: return stratBipart (d); } }
static std::string dress (const std::string &s) { // same strategy, written differently: spaces, letter case, superfluous parentheses
  std::string o; bool sp = coin (), ca = coin (); Rng r = bulk (); auto al = [] (char c) { return isalnum ((unsigned char) c) || c == '.'; }; char prev = 0;
  for (size_t i = 0; i < s.size (); i ++) { char c = s[i]; if (sp && r.below (5) == 0 && ! (i > 0 && al (s[i - 1]) && al (c)) ) o += " \t\n"[r.below (3)]; if (ca && isalpha ((unsigned char) c) && prev != '=' && r.below (2)) c = toupper (c); o += c; if (! isspace ((unsigned char) c)) prev = s[i]; }
  if (chance (1, 4)) o = "(" + o + ")"; if (chance (1, 6)) o = " " + o + "\n"; return o; }

// --- conditions: random expressions with a reference evaluator -------------------------------------
struct Ex { char op; std::vector<Ex> k; std::string txt; bool dbl = false; int64_t i = 0; double d = 0; bool b = false; double val () const { return dbl ? d : (double) i; } };
static std::vector<std::pair<std::string, int64_t>> s_vars;
static Ex genAr (int d) {
  Ex e; e.op = 'v';
  if (d <= 0 || chance (1, 3)) { if (coin ()) { auto &p = pick (s_vars); e.txt = p.first; e.i = p.second; } else if (chance (1, 4)) { e.dbl = true; e.txt = pick (std::vector<const char *> {"0.5", "2.5", "10.0", "1e1", "0.125", "33.75", "-1.5", "4E0"}); e.d = atof (e.txt.c_str ()); } else { int64_t x = pick (std::vector<int> {0, 1, 2, 3, 5, 7, 10, 25, 60, 100, 1000}); if (chance (1, 3)) x = pick (s_vars).second + irange (-1, 1); if (x != 0 && chance (1, 8)) x = - x; e.i = x; e.txt = strf ("%lld", (long long) x); } return e; }
  e.op = "+-*%"[draw (4)]; e.k.push_back (genAr (d - 1)); e.k.push_back (genAr (d - 1)); const Ex &a = e.k[0], &b = e.k[1]; e.dbl = a.dbl || b.dbl;
  if (e.op == '%' && b.val () == 0) e.op = '+'; if (e.op == '*' && fabs (a.val () * b.val ()) > 1e8) e.op = '-';
  if (e.dbl) e.d = e.op == '+' ? a.val () + b.val () : e.op == '-' ? a.val () - b.val () : e.op == '*' ? a.val () * b.val () : fmod (a.val (), b.val ()); else e.i = e.op == '+' ? a.i + b.i : e.op == '-' ? a.i - b.i : e.op == '*' ? a.i * b.i : a.i % b.i;
  return e; }
static Ex genCo (int d) {
  Ex e; if (d > 0 && coin ()) { e.op = "|&!"[draw (3)]; e.k.push_back (genCo (d - 1)); if (e.op != '!') e.k.push_back (genCo (d - 1)); e.b = e.op == '!' ? ! e.k[0].b : e.op == '|' ? e.k[0].b || e.k[1].b : e.k[0].b && e.k[1].b; return e; }
  e.op = "<>="[draw (3)]; int q = (int) irange (0, 3); e.k.push_back (genAr (q)); e.k.push_back (genAr ((int) irange (0, 3))); const Ex &a = e.k[0], &b = e.k[1];
  if (a.dbl || b.dbl) e.b = e.op == '<' ? a.val () < b.val () : e.op == '>' ? a.val () > b.val () : a.val () == b.val (); else e.b = e.op == '<' ? a.i < b.i : e.op == '>' ? a.i > b.i : a.i == b.i; return e; }
static int prec (char op) { switch (op) { case '|': return 0; case '&': return 1; case '!': return 2; case '<': case '>': case '=': return 3; case '+': case '-': return 4; case '*': return 5; case '%': return 6; default: return 7; } }
static std::string show (const Ex &e, int extra) { // minimal parentheses for the documented precedences, plus some superfluous ones
  if (e.op == 'v') return e.txt; int p = prec (e.op); auto sub = [&] (const Ex &c, bool right) { std::string s = show (c, extra); int q = prec (c.op); bool need = q < p || (right && q == p && p != 0 && p != 1) || (e.op == '!' && p == q && false); if (need || (extra && c.op != 'v' && (int) draw (4) < extra)) s = "(" + s + ")"; return s; };
  if (e.op == '!') return "!" + sub (e.k[0], true); return sub (e.k[0], false) + e.op + sub (e.k[1], true); }

static std::string mutate (std::string s, Kind k, std::string &cls) { // a string that no grammar accepts
  auto at = [&] (const char *set) { std::vector<size_t> p; for (size_t i = 0; i < s.size (); i ++) if (strchr (set, s[i])) p.push_back (i); return p; };
  for (;;) switch (draw (11)) {
    case 0: { auto p = at ("(){}"); if (p.empty ()) break; s.erase (pick (p), 1); cls = "unbalanced"; return s; }
    case 1: { size_t i = draw (s.size () + 1); s.insert (i, 1, "(){}"[draw (4)]); cls = "unbalanced"; return s; }
    case 2: s += coin () ? "q" : "(q)"; cls = "unknown-method"; return s;
    case 3: { auto p = at ("{"); if (p.empty ()) break; s.insert (pick (p) + 1, pick (std::vector<const char *> {"zq=1,", "zq=h,", "zq,"})); cls = "unknown-parameter"; return s; }
    case 4: case 5: { std::vector<size_t> p; for (size_t i = 0; i + 1 < s.size (); i ++) if (s[i] == '=' && i > 0 && isalpha ((unsigned char) s[i - 1])) for (const char *n : {"pass", "move", "bal", "rat", "cmin", "cmax", "frat", "width", "siz", "dif", "rem"}) { size_t l = strlen (n); if (i >= l + 1 && s.compare (i - l, l, n) == 0 && (s[i - l - 1] == '{' || s[i - l - 1] == ',')) { p.push_back (i); break; } }
      if (p.empty ()) break; size_t i = pick (p), j = i + 1; while (j < s.size () && s[j] != ',' && s[j] != '}') j ++; s.replace (i + 1, j - i - 1, pick (std::vector<const char *> {"", "x", "h{pass=1}", "=3", "1 2", "\"a\"", "--1", "1.", ".5", "@"})); cls = "bad-value"; return s; }
    case 6: { auto p = at (";"); if (p.empty ()) break; s.erase (pick (p), 1); cls = "missing-semicolon"; return s; }
    case 7: s += pick (std::vector<const char *> {";", ",", "@", "?", ":", "&", "=", "5=", "}"}); cls = "trailing"; return s;
    case 8: s = "/" + std::string (pick (std::vector<const char *> {"edge", "(edge)", "zqzq<3", "edge<", "<3", "(edge<3)<4", "edge<3<4", "edge&3", "edge<3|", "!edge", "edge!<3", "edge+(edge<3)", "edge<3)&(edge>2", "1.5.2<edge", "edge=>3", ""})) + "?" + s + ";"; cls = "bad-condition"; return s;
    case 9: { auto p = at ("?"); if (p.empty ()) break; s.erase (pick (p), 1); cls = "missing-question"; return s; }
    default: { std::vector<size_t> p; for (size_t i = 1; i + 2 < s.size (); i ++) if (s.compare (i, 5, "type=") == 0 || s.compare (i, 4, "job=") == 0 || s.compare (i, 5, "poli=") == 0) p.push_back (s.find ('=', i)); if (p.empty ()) break; s.replace (pick (p) + 1, 1, pick (std::vector<const char *> {"Q", "7", "", "-", "zz"})); cls = "bad-switch"; return s; }
  } }

PROPERTY (S01, "strategies with at least 12 characters, conditions whose two branches give different results, or flag combinations other than the default") {
  if (chance (1, 80)) { Subject x; Kind k = (Kind) draw (4); x.make (k); St a; std::string t = strf ("/%s%%%s<5?%s:%s;", k == MSH ? "vnod" : "vert", pick (std::vector<const char *> {"0", "(edge-edge)", "(0*edge)"}), k == MAP ? "r" : k == OVL ? "z" : "s", k == MAP ? "r" : k == OVL ? "z" : "s"); tag ("zero-modulus"); describe ("%s", t.c_str ()); CHECK (parse (a, k, t) == 0, "strategy '%s' rejected: %s", t.c_str (), lastErr ().c_str ()); NumV r; clearErr (); CHECK (x.run (k, a, r) != 0 && ! lastErr ().empty (), "a modulus by zero goes unnoticed"); return; }
  int mode = weighted ({4, 4, 3, 3, 2}); Kind k = (Kind) weighted ({4, 4, 2, 2, mode == 0 || mode == 2 ? 1 : 0}); tag (kname[k]); static const char *mn[] = {"round-trip", "condition", "malformed", "flags", "incomplete"}; tag (mn[mode]);
  if (mode == 0) {
    std::string t = gen (k, (int) draw (4)), u = dress (t); Subject x; if (k != BIP) x.make (k); describe ("round trip of %s strategy '%s'", kname[k], u.c_str ()); clearErr (); St a, b, c;
    CHECK (parse (a, k, t) == 0, "%s strategy '%s' rejected: %s", kname[k], t.c_str (), lastErr ().c_str ()); CHECK (parse (b, k, u) == 0, "%s strategy '%s' rejected: %s", kname[k], u.c_str (), lastErr ().c_str ());
    std::string s1 = save (a), s2 = save (b); CHECK (s1 == s2, "'%s' and '%s' are saved as '%s' and '%s'", t.c_str (), u.c_str (), s1.c_str (), s2.c_str ()); CHECK (parse (c, k, s1) == 0, "saved %s strategy '%s' rejected: %s", kname[k], s1.c_str (), lastErr ().c_str ()); std::string s3 = save (c); CHECK (s3 == s1, "saved strategy '%s' is saved as '%s' once parsed", s1.c_str (), s3.c_str ());
    nontrivial (t.size () >= 12); if (k == BIP) return; NumV ra, rb, rc; int oa = x.run (k, a, ra), ob = x.run (k, b, rb), oc = x.run (k, c, rc); CHECK (oa == 0 && ob == 0 && oc == 0, "strategy '%s' fails: %s", t.c_str (), lastErr ().c_str ()); x.valid (k, ra, t); CHECK (ra == rb, "'%s' and '%s' give different results", t.c_str (), u.c_str ()); CHECK (ra == rc, "'%s' and its saved form '%s' give different results", t.c_str (), s1.c_str ());
    return; }
  if (mode == 1) {
    bool inner = k == MAP && chance (1, 3); Subject x; x.make (k, inner); s_vars.clear ();
    if (k == MSH) { s_vars = {{"vnod", x.m.nn}, {"velm", x.m.ne}, {"edge", x.m.arcs ()}, {"levl", 0}}; int64_t l = 0; for (int i = 0; i < x.m.nn; i ++) l += x.m.nw (i); s_vars.push_back ({"load", l}); int md = 0; for (auto &e : x.m.el) md = std::max (md, (int) e.size ()); for (auto &e : x.m.no) md = std::max (md, (int) e.size ()); s_vars.push_back ({"mdeg", md}); }
    else { s_vars = {{"vert", x.g.n}, {"edge", x.g.arcs ()}}; if (k != OVL) { s_vars.push_back ({"load", x.g.velosum ()}); if (! inner) s_vars.push_back ({"levl", 0}); } else s_vars.push_back ({"part", x.parts}); if (k == ORD) { int md = 0; for (auto &e : x.g.adj) md = std::max (md, (int) e.size ()); s_vars.push_back ({"mdeg", md}); } }
    Ex e = genCo ((int) irange (0, 3)); std::string c = show (e, (int) irange (0, 2)); std::string A, B; 
    switch (k) { case MAP: A = inner ? "h" : "r{sep=h}"; B = inner ? "z" : "r{sep=z}"; break; case ORD: A = "s"; B = coin () ? "d" : "g"; break; case OVL: A = "r{sep=h}"; B = "z"; break; default: A = "s"; B = coin () ? "d{cmin=0,cmax=100000,frat=0.1}" : "g"; } if (coin ()) std::swap (A, B);
    auto wrap = [&] (const std::string &q) { return inner ? "r{job=t,sep=" + q + "}" : q; }; std::string t = wrap ("/" + c + "?" + A + ":" + B + ";"), u = dress (t); if (chance (1, 3)) u = t; describe ("condition is %s: '%s'", e.b ? "true" : "false", u.c_str ()); clearErr (); St a, b, c1, c2;
    CHECK (parse (a, k, wrap (A)) == 0 && parse (b, k, wrap (B)) == 0, "branch rejected"); CHECK (parse (c1, k, u) == 0, "strategy '%s' rejected: %s", u.c_str (), lastErr ().c_str ()); std::string s1 = save (c1); CHECK (parse (c2, k, s1) == 0, "saved strategy '%s' rejected: %s", s1.c_str (), lastErr ().c_str ()); std::string s2 = save (c2); CHECK (s2 == s1, "saved strategy '%s' is saved as '%s' once parsed", s1.c_str (), s2.c_str ());
    NumV ra, rb, rc, rd; CHECK (x.run (k, a, ra) == 0 && x.run (k, b, rb) == 0, "branch failed: %s", lastErr ().c_str ()); CHECK (x.run (k, c1, rc) == 0, "strategy '%s' fails: %s", u.c_str (), lastErr ().c_str ()); CHECK (x.run (k, c2, rd) == 0, "saved strategy '%s' fails: %s", s1.c_str (), lastErr ().c_str ());
    if (ra != rb) { tag (e.b ? "true" : "false"); nontrivial (true); } CHECK (rc == (e.b ? ra : rb), "condition '%s' is %s but the other branch was taken", c.c_str (), e.b ? "true" : "false"); CHECK (rd == rc, "saving '%s' as '%s' changed its meaning", u.c_str (), s1.c_str ()); return; }
  if (mode == 2) {
    std::string t = gen (k, 1 + (int) draw (3)), t2 = gen (k, (int) draw (2)), cls, bad = mutate (t, k, cls); tag (cls); describe ("malformed %s strategy (%s) '%s'", kname[k], cls.c_str (), bad.c_str ()); St a, b; clearErr ();
    CHECK (parse (a, k, t2) == 0, "strategy '%s' rejected: %s", t2.c_str (), lastErr ().c_str ()); std::string s0 = save (a); bool pre = coin (); if (pre) CHECK (parse (b, k, t) == 0, "strategy '%s' rejected: %s", t.c_str (), lastErr ().c_str ()); clearErr (); CHECK (parse (b, k, bad) != 0, "malformed %s strategy '%s' accepted", kname[k], bad.c_str ()); CHECK (! lastErr ().empty (), "malformed strategy rejected without message");
    CHECK (save (a) == s0, "rejecting '%s' changed another strategy", bad.c_str ()); CHECK (parse (b, k, t2) == 0, "strategy '%s' rejected after a malformed one: %s", t2.c_str (), lastErr ().c_str ()); std::string s1 = save (b); CHECK (s1 == s0, "'%s' is saved as '%s' after a malformed strategy, '%s' before", t2.c_str (), s1.c_str (), s0.c_str ()); nontrivial (t.size () >= 12); return; }
  if (mode == 4) {                              // sub-strategies left out: a clean refusal or a valid result, and nothing broken afterwards
    std::string t = gen (k, 1 + (int) draw (3)), cut = t, gone; Subject x; x.make (k); St a, b; clearErr ();
    for (int i = (int) irange (1, 3); i > 0; i --) { std::vector<size_t> p; for (const char *n : {"sep=", "low=", "asc=", "ole=", "ose=", "cpr=", "unc=", "strat="}) for (size_t q = cut.find (n); q != std::string::npos; q = cut.find (n, q + 1)) if (q > 0 && (cut[q - 1] == '{' || cut[q - 1] == ',')) p.push_back (q); if (p.empty ()) break;
      size_t q = pick (p), j = q; int l = 0; for ( ; j < cut.size (); j ++) { if (strchr ("({", cut[j])) l ++; if (strchr (")}", cut[j]) && -- l < 0) break; if (cut[j] == ',' && l == 0) break; } gone += cut.substr (q, cut.find ('=', q) - q) + " "; if (cut[j] == ',') cut.erase (q, j + 1 - q); else { if (cut[q - 1] == ',') q --; cut.erase (q, j - q); } for (size_t e; (e = cut.find ("{}")) != std::string::npos; ) cut.erase (e, 2); }
    describe ("%s strategy '%s' (without %s)", kname[k], cut.c_str (), gone.c_str ()); nontrivial (! gone.empty ()); int rc = parse (a, k, cut); if (rc != 0) { CHECK (! lastErr ().empty (), "strategy '%s' rejected without a message", cut.c_str ()); tag ("refused at once"); return; }
    NumV r0, r1; rc = x.run (k, a, r0); if (rc == 0) { tag ("works"); x.valid (k, r0, cut); } else { tag ("refused when run"); CHECK (! lastErr ().empty (), "strategy '%s' fails without a message", cut.c_str ()); }
    clearErr (); CHECK (parse (b, k, t) == 0 && x.run (k, b, r1) == 0, "strategy '%s' fails after the incomplete one: %s", t.c_str (), lastErr ().c_str ()); x.valid (k, r1, t); return; }
  Subject x; x.make (k); St a, b; int f = 0; std::string d; double bal = pick (std::vector<double> {0.05, 0.01, 0.2, 0.001, 0.5, 0.0}); clearErr (); int rc;
  for (int q : {SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATRECURSIVE, SCOTCH_STRATREMAP, SCOTCH_STRATLEVELMAX, SCOTCH_STRATLEVELMIN, SCOTCH_STRATLEAFSIMPLE, SCOTCH_STRATSEPASIMPLE, SCOTCH_STRATDISCONNECTED, SCOTCH_STRATSCALABILITY}) if (chance (1, 4)) f |= q;
  bool clu = k == MAP && chance (1, 3);
  if (clu) { x.a = nullptr; int pw = (int) irange (1, 30); double de = pick (std::vector<double> {0.0, 0.1, 0.5, 1.0}); ArchOpt ao; ao.var = true; rc = SCOTCH_stratGraphClusterBuild (&a.s, f, pw, de, bal); d = strf ("stratGraphClusterBuild(0x%x,%d,%g,%g)", f, pw, de, bal); tag ("cluster"); }
  else if (k == MAP) { int p = coin () ? x.parts : (int) irange (1, 300); rc = SCOTCH_stratGraphMapBuild (&a.s, f, p, bal); d = strf ("stratGraphMapBuild(0x%x,%d,%g)", f, p, bal); }
  else if (k == OVL) { int p = coin () ? x.parts : (int) irange (1, 300); rc = SCOTCH_stratGraphPartOvlBuild (&a.s, f, p, bal); d = strf ("stratGraphPartOvlBuild(0x%x,%d,%g)", f, p, bal); }
  else if (k == ORD) { int l = (int) irange (0, 8); rc = SCOTCH_stratGraphOrderBuild (&a.s, f, l, bal); d = strf ("stratGraphOrderBuild(0x%x,%d,%g)", f, l, bal); }
  else { rc = SCOTCH_stratMeshOrderBuild (&a.s, f, bal); d = strf ("stratMeshOrderBuild(0x%x,%g)", f, bal); }
  describe ("%s", d.c_str ()); CHECK (rc == 0, "%s failed: %s", d.c_str (), lastErr ().c_str ()); std::string s = save (a); CHECK (parse (b, k, s) == 0, "%s is saved as '%s', which is rejected: %s", d.c_str (), s.c_str (), lastErr ().c_str ()); std::string s2 = save (b); CHECK (s2 == s, "%s: '%s' is saved as '%s' once parsed", d.c_str (), s.c_str (), s2.c_str ()); nontrivial (f != 0);
  NumV ra, rb; if (clu) { for (St *q : {&a, &b}) { SCOTCH_randomReset (); SCOTCH_Arch ar; CHECK (SCOTCH_archVcmplt (&ar) == 0, "archVcmplt failed"); Num *p = dupNum (NumV (x.g.n, -77)); CHECK (SCOTCH_graphMap (&x.r.graf, &ar, &q->s, p) == 0, "%s: clustering fails: %s", d.c_str (), lastErr ().c_str ()); (q == &a ? ra : rb).assign (p, p + x.g.n); free (p); SCOTCH_archExit (&ar); for (Num v : q == &a ? ra : rb) CHECK (v > 0, "cluster number %lld", (long long) v); } }
  else { CHECK (x.run (k, a, ra) == 0 && x.run (k, b, rb) == 0, "%s: running fails: %s", d.c_str (), lastErr ().c_str ()); x.valid (k, ra, d); }
  CHECK (ra == rb, "%s and its saved form '%s' give different results", d.c_str (), s.c_str ());
}
