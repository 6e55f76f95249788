#include "core.hpp"
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>
#include <time.h>
#include <sys/resource.h>
#include <unordered_set>
#ifdef VF_MPI
#include <mpi.h>
#endif
#ifdef VF_LEAK
extern "C" int __sanitizer_install_malloc_and_free_hooks (void (*) (const volatile void *, size_t), void (*) (const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size (const volatile void *p);
extern "C" size_t __sanitizer_get_current_allocated_bytes (void);
#endif

Prop *g_props = nullptr;
Known *g_known = nullptr;
int g_mpi_rank = 0, g_mpi_size = 1;
bool g_thorough = false;
bool g_errok = false;
bool g_failskip = false;
static bool s_skipped;

static Rng s_rng (0);
static const uint64_t *s_rep = nullptr;
static size_t s_nrep = 0, s_pos = 0;
static bool s_isrep = false;
static const size_t MAXCH = 1 << 20;
static StateHdr *s_hdr = nullptr;
static uint64_t *s_ch = nullptr;
static std::string s_sample, s_err, s_scratch;
static std::set<std::string> s_tags, s_known;
static bool s_nontriv;
static uint64_t s_hash;
static char s_msgbuf[8192];
static const char *s_failpath = nullptr;

std::string strf (const char *fmt, ...) { char b[4096]; va_list ap; va_start (ap, fmt); vsnprintf (b, sizeof b, fmt, ap); va_end (ap); return b; }

void coreStart (uint64_t seed, const uint64_t *rep, size_t nrep) {
  s_rng = Rng (seed); s_rep = rep; s_nrep = nrep; s_isrep = rep != nullptr; s_pos = 0;
  s_sample.clear (); s_tags.clear (); s_nontriv = false; s_err.clear (); s_hash = 1469598103934665603ULL; s_known.clear ();
  if (s_hdr) s_hdr->nchoice = 0;
}
uint64_t draw (uint64_t n) {
  uint64_t v;
  if (s_isrep) v = s_pos < s_nrep ? s_rep[s_pos] : 0; else v = s_rng.next ();
  if (n <= 1) v = 0; else if (v >= n) v %= n;
  if (s_pos < MAXCH && s_ch) { s_ch[s_pos] = v; s_hdr->nchoice = s_pos + 1; }
  s_pos ++;
  s_hash = (s_hash ^ v) * 1099511628211ULL;
  return v;
}
struct Skip {};
void fail (const char *fmt, ...) {
  va_list ap; va_start (ap, fmt); vsnprintf (s_msgbuf, sizeof s_msgbuf, fmt, ap); va_end (ap);
  if (g_failskip) { tag ("decided-elsewhere"); skipCase (); }  // the oracles of other properties are not this property's
  std::string m = strf ("FAIL: %s%s%s [rank %d] case: %s\n", s_msgbuf, s_err.empty () ? "" : " | last library error: ", s_err.c_str (), g_mpi_rank, s_sample.substr (0, 1500).c_str ());
  if (s_failpath) { int fd = open (s_failpath, O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd >= 0) { (void) ! write (fd, m.data (), m.size ()); close (fd); } }
  fprintf (stderr, "%s", m.c_str ()); fflush (stderr);
#ifdef VF_MPI
  MPI_Abort (MPI_COMM_WORLD, 77);
#endif
  _exit (77);
}
void tag (const std::string &s) { s_tags.insert (s); }
void nontrivial (bool b) { if (b) s_nontriv = true; }
void describe (const char *fmt, ...) { char b[4096]; va_list ap; va_start (ap, fmt); vsnprintf (b, sizeof b, fmt, ap); va_end (ap); if (getenv ("VF_DESC")) fprintf (stderr, "DESC %s\n", b); if (s_sample.size () < 8000) { s_sample += b; s_sample += ' '; } }
void known (const char *id) { s_known.insert (id); }
void skipCase () { throw Skip (); }
const std::string &lastErr () { return s_err; }
void clearErr () { s_err.clear (); }

static void rmrf (const std::string &d) {
  DIR *dp = opendir (d.c_str ()); if (! dp) return;
  while (dirent *e = readdir (dp)) { std::string n = e->d_name; if (n == "." || n == "..") continue; unlink ((d + "/" + n).c_str ()); }
  closedir (dp); rmdir (d.c_str ());
}
std::string scratchDir () {
  if (s_scratch.empty ()) { const char *t = getenv ("VF_SCRATCH"); std::string b = t ? t : "/tmp"; b += "/vf.XXXXXX";
    std::vector<char> v (b.begin (), b.end ()); v.push_back (0); if (! mkdtemp (v.data ())) { perror ("mkdtemp"); _exit (2); } s_scratch = v.data ();
    atexit ([] { rmrf (s_scratch); }); }
  return s_scratch;
}

static int s_intl = 0; static char s_inttxt[300]; // the library noticed that its own data is inconsistent, whatever it returns
extern "C" {
void SCOTCH_errorPrint (const char *const fmt, ...) { char b[1024]; va_list ap; va_start (ap, fmt); vsnprintf (b, sizeof b, fmt, ap); va_end (ap); static const char *const lf = getenv ("VF_ERRLOG"); if (lf) if (FILE *f = fopen (lf, "a")) { fprintf (f, "%d: %s\n", (int) getpid (), b); fclose (f); } if (strstr (b, "internal error") && strncmp (b, "stratTestEval", 13) != 0) { if (! __sync_lock_test_and_set (&s_intl, 1)) { strncpy (s_inttxt, b, sizeof s_inttxt - 1); } } if (s_err.size () < 600) { if (! s_err.empty ()) s_err += " / "; s_err += b; } }
void SCOTCH_errorPrintW (const char *const fmt, ...) { (void) fmt; }
void SCOTCH_errorProg (const char *const s) { (void) s; }
}

static std::string jesc (const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c < 32 || c > 126) r += strf ("\\u%04x", c); else r += c; } return r; }

static void runOne (Prop *p) {
  s_skipped = false; s_intl = 0; g_errok = false; try { p->fn (); if (s_intl && ! g_errok) fail ("the library reports '%s'", s_inttxt); } catch (Skip &) { tag ("skipped"); s_skipped = true; }
  g_failskip = false;
}
#ifdef VF_LEAK
static __thread int s_inhook;
static size_t liveBytes () { return __sanitizer_get_current_allocated_bytes (); }
#endif

int main (int argc, char **argv) {
  std::map<std::string, std::string> a;
#ifdef VF_MPI
  int prov; MPI_Init_thread (&argc, &argv, MPI_THREAD_MULTIPLE, &prov);
  MPI_Comm_rank (MPI_COMM_WORLD, &g_mpi_rank); MPI_Comm_size (MPI_COMM_WORLD, &g_mpi_size);
#endif
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  g_thorough = a["--tier"] == "thorough";
  static std::string fp = a["--fail"]; if (! fp.empty ()) s_failpath = fp.c_str ();
  struct rlimit rl = {0, 0}; setrlimit (RLIMIT_CORE, &rl);
  if (a.count ("--known")) {
    for (Known *k = g_known; k; k = k->next) if (a["--known"] == k->id) { coreStart (1, nullptr, 0); s_known.clear (); k->fn (); bool hit = s_known.count (k->id); printf ("%s\n", hit ? "KNOWN-STILL-FAILS" : "KNOWN-GONE"); return 0; }
    printf ("KNOWN-NOT-FOUND\n"); return 3;
  }
  Prop *p = nullptr; for (Prop *q = g_props; q; q = q->next) if (a["--prop"] == q->id) p = q;
  if (! p) { fprintf (stderr, "no property\n"); return 3; }
  std::string st = a["--state"];
  if (g_mpi_rank == 0 && ! st.empty ()) {
    int fd = open (st.c_str (), O_RDWR | O_CREAT | O_TRUNC, 0644); size_t sz = sizeof (StateHdr) + MAXCH * 8;
    if (fd < 0 || ftruncate (fd, sz)) { perror ("state"); return 3; }
    s_hdr = (StateHdr *) mmap (nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); s_ch = (uint64_t *) (s_hdr + 1); close (fd);
    s_hdr->magic = 0x56455249ULL;
  }
  if (a.count ("--replay")) {
    FILE *f = fopen (a["--replay"].c_str (), "r"); if (! f) { perror ("replay"); return 3; }
    std::vector<uint64_t> v; unsigned long long x; while (fscanf (f, "%llu", &x) == 1) v.push_back (x); fclose (f);
    v.push_back (0);
    coreStart (0, v.data (), v.size () - 1);
    size_t reps = a.count ("--reps") ? atoi (a["--reps"].c_str ()) : 1;
    for (size_t r = 0; r < reps; r ++) {
#ifdef VF_LEAK
      size_t b0 = liveBytes ();
#endif
      coreStart (0, v.data (), v.size () - 1); runOne (p);
#ifdef VF_LEAK
      s_sample.shrink_to_fit (); 
      if (r >= 2) { static size_t prev; size_t b1 = liveBytes (); if (r > 2 && ! s_skipped && b1 > b0 && b1 - b0 == prev && prev > 0) fail ("leak: %zu bytes lost by each execution of the case", b1 - b0); prev = b1 > b0 ? b1 - b0 : 0; }
#endif
    }
    if (s_hdr) s_hdr->done = 1;
    if (g_mpi_rank == 0) printf ("PASS %s\n", s_sample.c_str ());
#ifdef VF_MPI
    MPI_Finalize ();
#endif
    return 0;
  }
  uint64_t seed = strtoull (a["--seed"].c_str (), 0, 10), start = strtoull (a["--start"].c_str (), 0, 10), stride = strtoull (a["--stride"].c_str (), 0, 10), count = strtoull (a["--count"].c_str (), 0, 10);
  double tmax = a.count ("--tmax") ? atof (a["--tmax"].c_str ()) : 1e9;
  FILE *out = g_mpi_rank == 0 && a.count ("--out") ? fopen (a["--out"].c_str (), "w") : nullptr;
  std::map<std::string, uint64_t> tags, knowns; std::unordered_set<uint64_t> dist; uint64_t evals = 0; std::vector<std::string> samples;
  uint64_t ph = 1469598103934665603ULL; for (const char *c = p->id; *c; c ++) ph = (ph ^ (unsigned char) *c) * 1099511628211ULL;
  timespec t0; clock_gettime (CLOCK_MONOTONIC, &t0);
  for (uint64_t k = 0, i = start; k < count; k ++, i += stride) {
    timespec t1; clock_gettime (CLOCK_MONOTONIC, &t1);
    int stop = (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > tmax;
#ifdef VF_MPI
    MPI_Bcast (&stop, 1, MPI_INT, 0, MPI_COMM_WORLD);
#endif
    if (stop) break;
    Rng h (ph ^ (seed * 0x9E3779B97F4A7C15ULL)); h.s += i * 0xD1B54A32D192ED03ULL; uint64_t cs = h.next ();
    if (s_hdr) s_hdr->caseidx = i + 1;
#ifdef VF_LEAK
    size_t b0 = liveBytes ();
#endif
    coreStart (cs, nullptr, 0);
    runOne (p);
#ifdef VF_LEAK
    { size_t b1 = liveBytes ();
      if (b1 > b0 && ! s_skipped) {                                  // may be lazily allocated static data or bookkeeping: replay until stable
        size_t prev = 0, same = 0; std::vector<uint64_t> v (s_ch, s_ch + s_hdr->nchoice); v.push_back (0);
        std::string sv;
        for (int r = 0; r < 6; r ++) { coreStart (0, v.data (), v.size () - 1); sv.reserve (0); size_t c0 = liveBytes (); runOne (p); s_tags.clear (); s_known.clear (); s_sample.clear (); s_sample.shrink_to_fit (); s_err.shrink_to_fit (); size_t c1 = liveBytes (); size_t d = c1 > c0 ? c1 - c0 : 0; if (r >= 2) { if (d > 0 && d == prev) same ++; } prev = d; }
        if (same >= 3) fail ("leak: %zu bytes lost by each execution of the case", prev);
        coreStart (0, v.data (), v.size () - 1); runOne (p);
      } }
#endif
    evals ++;
    for (auto &t : s_tags) tags[t] ++;
    for (auto &t : s_known) knowns[t] ++;
    if (s_nontriv) { dist.insert (s_hash); if (samples.size () < 4 && (evals % 7 == 1 || count < 50)) samples.push_back (s_sample.substr (0, 400)); }
  }
  if (out) {
    fprintf (out, "{\"evaluations\":%llu,\"distinct_nontrivial\":%zu,\"rule\":\"%s\",\"tags\":{", (unsigned long long) evals, dist.size (), jesc (p->rule).c_str ());
    bool f = true; for (auto &t : tags) { fprintf (out, "%s\"%s\":%llu", f ? "" : ",", jesc (t.first).c_str (), (unsigned long long) t.second); f = false; }
    fprintf (out, "},\"known\":{"); f = true; for (auto &t : knowns) { fprintf (out, "%s\"%s\":%llu", f ? "" : ",", jesc (t.first).c_str (), (unsigned long long) t.second); f = false; }
    fprintf (out, "},\"samples\":["); f = true; for (auto &s : samples) { fprintf (out, "%s\"%s\"", f ? "" : ",", jesc (s).c_str ()); f = false; }
    fprintf (out, "]}\n"); fclose (out);
  }
  if (s_hdr) s_hdr->done = 1;
#ifdef VF_MPI
  MPI_Finalize ();
#endif
  return 0;
}
