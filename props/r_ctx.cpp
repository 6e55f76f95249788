// R01: reproducibility from the random seed.  C01: execution contexts, options and threads.
#include "job.hpp"
#include <malloc.h>
#include <pthread.h>
#include <sched.h>

// Memory is handed out with varying contents, so that results depending on uninitialised data differ from run to run.
static bool s_junk = false; static uint64_t s_junkst = 1;
extern "C" void *__real_malloc (size_t); extern "C" void *__real_realloc (void *, size_t);
static void junk (void *p, size_t a, size_t b) { if (! s_junk || ! p) return; uint64_t x = __atomic_add_fetch (&s_junkst, 0x9e3779b97f4a7c15ULL, __ATOMIC_RELAXED); b = std::min (b, a + 65536); for (unsigned char *q = (unsigned char *) p; a < b; a ++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; q[a] = (unsigned char) (x >> 11); } }
extern "C" void *__wrap_malloc (size_t n) { void *p = __real_malloc (n); junk (p, 0, n); return p; }
extern "C" void *__wrap_realloc (void *o, size_t n) { size_t a = o ? malloc_usable_size (o) : 0; void *p = __real_realloc (o, n); if (a < n) junk (p, a, n); return p; }
#ifdef VF_SCHED
// Thread schedules are perturbed around every synchronisation of the library.
static int s_pert = 0; static uint64_t s_pertst = 1;
static void pert () { if (! s_pert) return; uint64_t x = __atomic_add_fetch (&s_pertst, 0x9e3779b97f4a7c15ULL, __ATOMIC_RELAXED); x ^= x >> 31; x *= 0x94d049bb133111ebULL; x ^= x >> 29; int q = (int) (x % 64); if (q < 8 * s_pert) sched_yield (); else if (q < 9 * s_pert) usleep ((useconds_t) (x >> 40) % 150); }
extern "C" { int __real_pthread_mutex_lock (pthread_mutex_t *); int __real_pthread_mutex_unlock (pthread_mutex_t *); int __real_pthread_cond_broadcast (pthread_cond_t *); int __real_pthread_cond_wait (pthread_cond_t *, pthread_mutex_t *);
  int __wrap_pthread_mutex_lock (pthread_mutex_t *m) { pert (); return __real_pthread_mutex_lock (m); }
  int __wrap_pthread_mutex_unlock (pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock (m); pert (); return r; }
  int __wrap_pthread_cond_broadcast (pthread_cond_t *c) { int r = __real_pthread_cond_broadcast (c); pert (); return r; }
  int __wrap_pthread_cond_wait (pthread_cond_t *c, pthread_mutex_t *m) { int r = __real_pthread_cond_wait (c, m); pert (); return r; } }
#endif
static std::string rsave () { OutStream o; CHECK (SCOTCH_randomSave (o.f) == 0, "randomSave failed: %s", lastErr ().c_str ()); return o.str (); }
static int rload (const std::string &s) { FILE *f = memIn (s); int rc = SCOTCH_randomLoad (f); fclose (f); return rc; }
static NumV vals (int k, Num m) { NumV v; for (int i = 0; i < k; i ++) { Num x = SCOTCH_randomVal (m); CHECK (x >= 0 && x < m, "randomVal (%lld) returned %lld", (long long) m, (long long) x); v.push_back (x); } return v; }
static void same (const NumV &a, const NumV &b, const char *w) { if (a == b) return; size_t i = 0; while (i < a.size () && i < b.size () && a[i] == b[i]) i ++; fail ("%s: results differ at position %zu of %zu/%zu (%lld, %lld)", w, i, a.size (), b.size (), i < a.size () ? (long long) a[i] : -99, i < b.size () ? (long long) b[i] : -99); }
static int jobKind () { return weighted ({5, 2, 2, 4, 1, 2, 1, 2, 1, 3, 1, 3, 0}); }
struct Hist { std::vector<std::unique_ptr<Job>> j; void make () { for (int i = (int) draw (3); i > 0; i --) { j.emplace_back (new Job ()); describe ("history:"); j.back ()->make (jobKind (), 60); } } void run () { for (auto &x : j) x->run (); if (j.empty ()) return; SCOTCH_Strat s; SCOTCH_stratInit (&s); SCOTCH_stratGraphMap (&s, "r{sep=h"); SCOTCH_stratExit (&s); vals (3, 10); } };

PROPERTY (R01, "the computation had at least two possible outcomes (parts, blocks, colours or pairs) and something else was computed in between, or at least 5 values were drawn") {
  s_junkst = draw (1000000) + 1; s_junk = true; struct Off { ~Off () { s_junk = false; } } off; Num seed = (Num) (coin () ? draw (1 << 30) : draw (8)); SCOTCH_randomProc (0); SCOTCH_randomReset ();
  int mode = weighted ({6, 4, 3, 2}); static const char *mn[] = {"reset", "save-load", "contexts", "process"}; tag (mn[mode]); describe ("mode=%s seed=%lld", mn[mode], (long long) seed);
  if (mode == 0) {
    Job a, b; a.make (jobKind ()); bool two = chance (1, 3); if (two) b.make (jobKind (), 60); Hist h; h.make (); tag (Job::kname (a.k)); SCOTCH_randomSeed (seed);
    NumV r1 = a.run (), q1 = two ? b.run () : NumV (), v1 = vals (4, 1000); a.valid (r1, "first run"); h.run (); SCOTCH_randomReset (); NumV r2 = a.run (); same (r1, r2, "run after randomReset"); if (two) { NumV q2 = b.run (); same (q1, q2, "second computation after randomReset"); } same (v1, vals (4, 1000), "values drawn after the same computations");
    if (coin ()) { h.run (); SCOTCH_randomSeed (seed); same (r1, a.run (), "run after randomSeed"); } nontrivial (a.work && ! h.j.empty ()); return; }
  if (mode == 1) {
    Job a; a.make (jobKind ()); Hist h; h.make (); tag (Job::kname (a.k)); SCOTCH_randomSeed (seed); if (coin ()) SCOTCH_randomReset (); vals ((int) draw (6), 100); NumV r0 = vals (3, 1 << 30);
    std::string s = rsave (); CHECK (rsave () == s, "saving the state changes it"); NumV v1 = vals (5, 1 << 30), r1 = a.run (), w1 = vals (5, 7); a.valid (r1, "first run"); std::string e1 = rsave (); h.run (); if (chance (1, 2)) { SCOTCH_randomSeed ((Num) draw (1000)); SCOTCH_randomProc ((int) draw (5)); SCOTCH_randomReset (); tag ("other-seed"); }
    CHECK (rload (s) == 0, "saved state '%s' rejected: %s", s.c_str (), lastErr ().c_str ()); CHECK (rsave () == s, "state '%s' is '%s' once loaded", s.c_str (), rsave ().c_str ()); same (v1, vals (5, 1 << 30), "values after randomLoad"); same (r1, a.run (), "run after randomLoad"); same (w1, vals (5, 7), "values after run after randomLoad"); CHECK (rsave () == e1, "state differs after the same computations");
    CHECK (rload (s) == 0, "saved state rejected"); SCOTCH_randomReset (); NumV x1 = vals (5, 1 << 30); SCOTCH_randomProc (0); SCOTCH_randomSeed (seed); same (vals (5, 1 << 30), x1, "randomReset after randomLoad");
    std::string bad = s; switch (draw (4)) { case 0: bad = "2" + s.substr (1); break; case 1: { size_t p = s.find_last_of ("\t"); bad = s.substr (0, p); break; } case 2: bad = s.substr (0, draw (4)); break; default: { bad = s; size_t p = 2 + draw (s.size () - 2); while (p > 2 && (isspace ((unsigned char) s[p]) || ! isspace ((unsigned char) s[p - 1]))) p --; bad[p] = 'x'; } } clearErr (); CHECK (rload (bad) != 0, "malformed state '%s' accepted", bad.c_str ()); CHECK (! lastErr ().empty (), "malformed state rejected without message"); SCOTCH_randomReset ();
    nontrivial (a.work && ! h.j.empty ()); return; }
  if (mode == 2) { // contexts own their generators
    Job a, b; int k; do k = jobKind (); while (k == Job::DECO && false); a.make (k); b.make (jobKind (), 60); tag (Job::kname (a.k)); SCOTCH_Context c1, c2; struct Ex { std::vector<SCOTCH_Context *> v; ~Ex () { for (auto c : v) SCOTCH_contextExit (c); } };
    SCOTCH_randomSeed (seed); vals ((int) draw (4), 100); std::string s0 = rsave (); NumV g1 = a.run (), gb = b.run (); a.valid (g1, "unbound run"); CHECK (rload (s0) == 0, "state rejected");
    Ex ex; for (SCOTCH_Context *c : {&c1, &c2}) { CHECK (SCOTCH_contextInit (c) == 0, "contextInit failed"); ex.v.push_back (c); CHECK (SCOTCH_contextRandomClone (c) == 0, "contextRandomClone failed"); } CHECK (rsave () == s0, "cloning changes the global generator");
    NumV r1 = a.run (&c1); same (g1, r1, "run on a container with a clone of the generator"); CHECK (rsave () == s0, "running on a container with its own generator changes the global one");
    if (coin ()) { SCOTCH_randomSeed (seed + 12); vals (3, 9); } NumV r2 = a.run (&c2); same (g1, r2, "run on a second container"); same (gb, b.run (&c1), "second computation in the first context"); same (gb, b.run (&c2), "second computation in the second context");
    Num sd = (Num) draw (1000); SCOTCH_contextRandomSeed (&c1, sd); NumV x1 = a.run (&c1); SCOTCH_contextRandomReset (&c1); same (x1, a.run (&c1), "run after contextRandomReset"); SCOTCH_contextRandomSeed (&c2, sd); same (x1, a.run (&c2), "run in another context with the same seed"); SCOTCH_randomSeed (sd); same (x1, a.run (), "unbound run with the same seed");
    SCOTCH_Context c3; CHECK (SCOTCH_contextInit (&c3) == 0, "contextInit failed"); ex.v.push_back (&c3); SCOTCH_randomSeed (sd); same (x1, a.run (&c3), "run in a context without private generator"); std::string s3 = rsave (); SCOTCH_contextRandomReset (&c3); same (x1, a.run (), "contextRandomReset of the global generator"); CHECK (rsave () == s3, "the context without private generator advances differently");
    nontrivial (a.work); return; }
  { std::map<NumV, int> seen; int k = (int) irange (2, 12); std::vector<NumV> sq; for (int p = 0; p < k; p ++) { SCOTCH_randomProc (p); if (coin ()) SCOTCH_randomSeed (seed); else { SCOTCH_randomSeed (seed); SCOTCH_randomProc (p); SCOTCH_randomReset (); } NumV v = vals (8, 1 << 30); auto it = seen.find (v); CHECK (it == seen.end (), "instances %d and %d have the same pseudo-random sequence with seed %lld", it->second, p, (long long) seed); seen[v] = p; sq.push_back (v); }
    for (int i = 0; i < 3; i ++) { int p = (int) draw (k); SCOTCH_randomProc (p); SCOTCH_randomReset (); same (sq[p], vals (8, 1 << 30), "sequence of an instance"); }
    Job a; a.make (jobKind (), 60); SCOTCH_Context c; CHECK (SCOTCH_contextInit (&c) == 0, "contextInit failed"); int p = (int) draw (k); SCOTCH_randomProc (p); SCOTCH_randomSeed (seed); CHECK (SCOTCH_contextRandomClone (&c) == 0, "clone failed"); NumV r1 = a.run (); SCOTCH_randomProc (0); SCOTCH_randomSeed (5); SCOTCH_contextRandomReset (&c); SCOTCH_contextRandomSeed (&c, seed); same (r1, a.run (&c), "clone of an instance"); SCOTCH_contextExit (&c);
    Num m = (Num) (coin () ? irange (1, 10) : irange (1, 2147483647)); vals (20, m); SCOTCH_randomReset (); nontrivial (true); }
}

#ifdef VF_SCHED
struct Imp { SCOTCH_Context *c; int n; };
static void *impThread (void *p) { auto *q = (std::pair<Imp *, int> *) p; int rc = SCOTCH_contextThreadImport2 (q->first->c, q->second); return rc ? (void *) 1 : nullptr; }
PROPERTY (C01, "a context with at least two threads, and a computation with at least two parts, blocks, colours or pairs") {
  s_pertst = s_junkst = draw (1000000) + 1; s_junk = true; s_pert = (int) draw (4); struct Off { ~Off () { s_junk = false; s_pert = 0; } } off; SCOTCH_randomProc (0); SCOTCH_randomSeed ((Num) draw (1000));
  if (chance (1, 8)) { // options
    tag ("options"); int nctx = 2; SCOTCH_Context c[2]; Num m[2][2]; for (int i = 0; i < nctx; i ++) { CHECK (SCOTCH_contextInit (&c[i]) == 0, "contextInit failed"); for (int o = 0; o < 2; o ++) CHECK (SCOTCH_contextOptionGetNum (&c[i], o, &m[i][o]) == 0, "contextOptionGetNum failed"); }
    for (int s = (int) irange (1, 8); s > 0; s --) { int i = (int) draw (2); clearErr ();
      if (coin ()) { int o = (int) irange (-1, 3); Num v = (Num) pick (std::vector<int> {0, 1, 2, 7}); bool ok = o == 0 || o == 1; describe ("c%d: option %d := %d", i, o, (int) v); int rc = SCOTCH_contextOptionSetNum (&c[i], o, v); CHECK ((rc == 0) == ok, "contextOptionSetNum (%d, %d) returned %d", o, (int) v, rc); if (ok) { m[i][o] = v != 0; if (o == SCOTCH_OPTIONNUMDETERMINISTIC && v != 0) m[i][SCOTCH_OPTIONNUMRANDOMFIXEDSEED] = 1; } else CHECK (! lastErr ().empty () || true, "no message"); }
      else { std::string t; int k = (int) irange (0, 4); auto sp = [&] { if (chance (1, 4)) t += pick (std::vector<const char *> {" ", "\t", "  "}); }; Num w[2] = {m[i][0], m[i][1]}; for (int j = 0; j < k; j ++) { sp (); char ch = "dufr"[draw (4)]; t += ch; if (ch == 'd') w[0] = w[1] = 1; if (ch == 'u') w[0] = 0; if (ch == 'f') w[1] = 1; if (ch == 'r') w[1] = 0; sp (); if (j + 1 < k && coin ()) t += ","; } bool bad = chance (1, 4); if (bad) t += pick (std::vector<const char *> {"x", "1", "=", ",,d", "d?"});
        describe ("c%d: parse '%s'", i, t.c_str ()); int rc = SCOTCH_contextOptionParse (&c[i], t.c_str ()); CHECK ((rc == 0) == ! bad, "option string '%s' %s", t.c_str (), rc ? "rejected" : "accepted"); if (! bad) { m[i][0] = w[0]; m[i][1] = w[1]; } else for (int o = 0; o < 2; o ++) SCOTCH_contextOptionGetNum (&c[i], o, &m[i][o]); }
      for (int q = 0; q < 2; q ++) for (int o = 0; o < 2; o ++) { Num x = -1; CHECK (SCOTCH_contextOptionGetNum (&c[q], o, &x) == 0 && x == m[q][o], "option %d of context %d is %lld, expected %lld", o, q, (long long) x, (long long) m[q][o]); } Num x; CHECK (SCOTCH_contextOptionGetNum (&c[0], 2 + (int) draw (3), &x) != 0 && SCOTCH_contextOptionGetNum (&c[0], -1, &x) != 0, "invalid option number accepted"); }
    for (int i = 0; i < 2; i ++) SCOTCH_contextExit (&c[i]); return; }
  int nt = weighted ({1, 4}) ? (int) irange (2, 8) : 1; bool det = coin (), clone = coin (), import = chance (1, 4); SCOTCH_Context c; CHECK (SCOTCH_contextInit (&c) == 0, "contextInit failed"); if (det) { if (coin ()) CHECK (SCOTCH_contextOptionSetNum (&c, SCOTCH_OPTIONNUMDETERMINISTIC, 1) == 0, "cannot set the deterministic option"); else CHECK (SCOTCH_contextOptionParse (&c, "d") == 0, "cannot parse option"); }
  tag (strf ("threads%d", nt)); tag (det ? "deterministic" : "free"); describe ("%d threads%s%s%s", nt, det ? " deterministic" : "", clone ? " private generator" : "", import ? " imported" : ""); if (clone) CHECK (SCOTCH_contextRandomClone (&c) == 0, "clone failed");
  int nj = (int) irange (1, 2); std::vector<std::unique_ptr<Job>> jobs; for (int i = 0; i < nj; i ++) { jobs.emplace_back (new Job ()); int k = weighted ({6, 2, 2, 5, 1, 3, 2, 1, 1, 3, 1, 2, 1, 1}); jobs.back ()->make (k, 700); tag (Job::kname (k)); }
  std::vector<pthread_t> th; std::vector<std::pair<Imp *, int>> ar (nt); Imp imp {&c, nt};
  if (import) { tag ("import"); CHECK (SCOTCH_contextThreadImport1 (&c, nt) == 0, "contextThreadImport1 failed"); for (int i = 1; i < nt; i ++) { ar[i] = {&imp, i}; pthread_t t; CHECK (pthread_create (&t, nullptr, impThread, &ar[i]) == 0, "pthread_create"); th.push_back (t); } CHECK (SCOTCH_contextThreadImport2 (&c, 0) == 0, "contextThreadImport2 failed"); }
  else CHECK (SCOTCH_contextThreadSpawn (&c, nt, nullptr) == 0, "contextThreadSpawn failed: %s", lastErr ().c_str ());
  if (chance (1, 5)) { clearErr (); CHECK (SCOTCH_contextThreadSpawn (&c, 2, nullptr) != 0, "threads spawned twice"); }
  int rep = det ? 3 : 1; std::vector<NumV> first; bool nt2 = false;
  for (int q = 0; q < rep; q ++) { if (clone) SCOTCH_contextRandomReset (&c); else SCOTCH_randomReset (); for (int i = 0; i < nj; i ++) { NumV o = jobs[i]->run (&c); jobs[i]->valid (o, strf ("run with %d threads", nt).c_str ()); nt2 |= jobs[i]->work; if (jobs[i]->k >= Job::ACCESS) same (jobs[i]->run (), o, "accessors of the bound object"); if (q == 0) first.push_back (o); else same (first[i], o, strf ("deterministic run %d with %d threads", q + 1, nt).c_str ()); } }
  SCOTCH_contextExit (&c); for (auto t : th) { void *r; pthread_join (t, &r); CHECK (r == nullptr, "contextThreadImport2 failed in a worker"); } nontrivial (nt > 1 && nt2);
}
#endif
