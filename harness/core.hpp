// Property-based testing core: choice-sequence generation, checks, classification.
// Every random decision of a case is drawn through Src, so that a case is a finite
// list of integers; the driver (vrun.py) shrinks that list and replays it.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <numeric>
#include <unistd.h>

struct Rng {                                   // splitmix64
  uint64_t s;
  explicit Rng (uint64_t seed = 0) : s (seed) {}
  uint64_t next () { uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  uint64_t below (uint64_t n) { return n <= 1 ? 0 : next () % n; }
  int64_t range (int64_t lo, int64_t hi) { return lo + (int64_t) below ((uint64_t) (hi - lo + 1)); }
};

struct StateHdr {                              // shared with vrun.py through an mmap-ed file
  uint64_t magic, caseidx, nchoice, done, phase;
  uint64_t rsv[3];
};

void coreStart (uint64_t seed, const uint64_t *replay, size_t nreplay);
uint64_t draw (uint64_t n);                    // uniform in [0,n), recorded
[[noreturn]] void fail (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
void tag (const std::string &s);               // classification label of the current case
void nontrivial (bool b = true);               // the current case counts as non-trivial
void describe (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));  // appended to the sample text
void known (const char *id);                   // the case hit listed known finding id (and is excluded)
[[noreturn]] void skipCase ();                 // end the case (counted as evaluated, trivial)
const std::string &lastErr ();                 // last library error message
void clearErr ();
extern int g_mpi_rank, g_mpi_size;
extern bool g_thorough;
extern bool g_errok;
extern bool g_failskip;                        // failed checks end the case instead of reporting it
std::string scratchDir ();                     // per-process scratch directory

inline int64_t irange (int64_t lo, int64_t hi) { return lo + (int64_t) draw ((uint64_t) (hi - lo + 1)); }
inline bool chance (int num, int den) { return (int) draw (den) >= den - num; }  // shrinks to false
inline bool coin () { return draw (2) == 1; }
template <class T> const T &pick (const std::vector<T> &v) { return v[draw (v.size ())]; }
inline int weighted (std::initializer_list<int> w) {   // shrinks to alternative 0
  int tot = 0; for (int x : w) tot += x;
  int r = (int) draw (tot), i = 0;
  for (int x : w) { if (r < x) return i; r -= x; i ++; }
  return 0;
}
inline Rng bulk () { return Rng (draw ((uint64_t) 1 << 32) * 0x2545F4914F6CDD1DULL + 77); }
template <class T> void shuffleC (std::vector<T> &v) { for (size_t i = 0; i + 1 < v.size (); i ++) std::swap (v[i], v[i + draw (v.size () - i)]); }
template <class T> void shuffleR (std::vector<T> &v, Rng &r) { for (size_t i = 0; i + 1 < v.size (); i ++) std::swap (v[i], v[i + r.below (v.size () - i)]); }
std::string strf (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));

#define CHECK(c, ...) do { if (! (c)) fail (__VA_ARGS__); } while (0)

struct Prop { const char *id; const char *rule; void (*fn) (); Prop *next; };
extern Prop *g_props;
struct Reg { Prop p; Reg (const char *id, const char *rule, void (*fn) ()) { p = Prop {id, rule, fn, g_props}; g_props = &p; } };
#define PROPERTY(ID, RULE) static void case_##ID (); static Reg reg_##ID (#ID, RULE, case_##ID); static void case_##ID ()
struct Known { const char *id; void (*fn) (); Known *next; };
extern Known *g_known;
struct KReg { Known k; KReg (const char *id, void (*fn) ()) { k = Known {id, fn, g_known}; g_known = &k; } };
