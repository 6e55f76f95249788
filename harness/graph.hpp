// Reference model of graphs, generators, and conversion to and from SCOTCH_Graph.
#pragma once
#include "core.hpp"
#define OMPI_SKIP_MPICXX 1
#define MPICH_SKIP_MPICXX 1
extern "C" {
#include <stdio.h>
#include <stdint.h>
#ifdef VF_MPI
#include <mpi.h>
#include <ptscotch.h>
#else
#include <scotch.h>
#endif
}
typedef SCOTCH_Num Num;
typedef std::vector<Num> NumV;

struct MGraph {                                // model: vertices 0..n-1
  int n = 0;
  std::vector<std::vector<std::pair<int, Num>>> adj;   // (neighbour, edge load)
  bool hasVelo = false, hasEdlo = false, hasVlbl = false;
  NumV velo, vlbl;
  const char *family = "";
  Num vw (int v) const { return hasVelo ? velo[v] : 1; }
  int arcs () const { size_t s = 0; for (auto &a : adj) s += a.size (); return (int) s; }
  int64_t velosum () const { int64_t s = 0; for (int v = 0; v < n; v ++) s += vw (v); return s; }
  int64_t edlosum () const { int64_t s = 0; for (auto &a : adj) for (auto &e : a) s += hasEdlo ? e.second : 1; return s; }
  void resize (int k) { n = k; adj.assign (k, {}); }
  bool has (int u, int v) const { for (auto &e : adj[u]) if (e.first == v) return true; return false; }
  void add (int u, int v, Num w = 1) { if (u == v || has (u, v)) return; adj[u].push_back ({v, w}); adj[v].push_back ({u, w}); }
  void addFast (int u, int v, Num w = 1) { adj[u].push_back ({v, w}); adj[v].push_back ({u, w}); }
  void sort () { for (auto &a : adj) std::sort (a.begin (), a.end ()); }
  std::string text () const;
};

struct GenOpt {
  int nmin = 0, nmax = 40;                     // individual draws
  int big = 0;                                 // if > 0, sometimes bulk-generated graphs up to that size
  bool velo = true, edlo = true, vlbl = true;
  bool velozero = true;                        // zero vertex loads allowed
  bool connected = false;
  Num velomax = 20, edlomax = 20;
};
MGraph genGraph (const GenOpt &o);
void shuffleAdj (MGraph &g, Rng &r);

// A concrete in-memory representation of a model graph, in exactly-sized heap arrays.
struct Rep {
  Num base = 0, vertnbr = 0, edgenbr = 0;
  Num *verttab = nullptr, *vendtab = nullptr, *velotab = nullptr, *vlbltab = nullptr, *edgetab = nullptr, *edlotab = nullptr;
  size_t edgesiz = 0; bool compact = true;
  std::vector<NumV> copy;                      // pristine copies, for the "input unchanged" oracle
  SCOTCH_Graph graf;
  bool inited = false;
  Rep () {}
  Rep (const Rep &) = delete;
  Rep &operator= (const Rep &) = delete;
  ~Rep ();
  void make (const MGraph &g, int forceBase = -1, int forceCompact = -1);   // draws base and layout
  void dup (const Rep &o);                     // same contents, other addresses
  void build ();                               // SCOTCH_graphInit + SCOTCH_graphBuild
  void unchanged (const char *where);          // user arrays still hold what the user put there
};
Num *dupNum (const NumV &v);
MGraph extract (SCOTCH_Graph *g, Num *baseptr = nullptr, bool wantLbl = true);    // read back through SCOTCH_graphData
std::string diffGraph (const MGraph &a, const MGraph &b, bool velo = true, bool edlo = true, bool vlbl = true);  // "" when equal as labelled weighted graphs
void components (const MGraph &g, std::vector<int> &comp, int &nb);
FILE *memIn (const std::string &s);            // stream reading the given text
std::string slurp (FILE *f);                   // contents of a stream from its start
struct OutStream { char *buf = nullptr; size_t len = 0; FILE *f; OutStream () { f = open_memstream (&buf, &len); } std::string str () { fflush (f); return std::string (buf, len); } ~OutStream () { fclose (f); free (buf); } };
void seedLib ();                               // draws a seed and resets the library generator
