// Target architectures with a reference model, and strategy-string generators.
#pragma once
#include <memory>
#include "graph.hpp"

struct MArch {
  SCOTCH_Arch arch; bool inited = false;
  std::string desc, kind, name; int n = 0; NumV w;          // number of terminals, terminal loads
  bool var = false, exact = true;                           // exact: the model knows distances
  NumV tn;                                                   // terminal numbers (empty: 0..n-1)
  Num num (int i) const { return tn.empty () ? i : tn[i]; }
  int idx (Num t) const { if (tn.empty ()) return t >= 0 && t < n ? (int) t : -1; for (int i = 0; i < n; i ++) if (tn[i] == t) return i; return -1; }
  std::function<Num (int, int)> dist;
  std::vector<std::shared_ptr<MArch>> sub;                  // underlying architecture
  std::shared_ptr<Rep> rep;
  MArch () {}
  MArch (const MArch &) = delete;
  ~MArch () { if (inited) SCOTCH_archExit (&arch); }
  int64_t wsum () const { int64_t s = 0; for (auto x : w) s += x; return s; }
};
typedef std::shared_ptr<MArch> ArchP;
struct ArchOpt { int nmax = 32; bool var = false; bool deco = true; bool sub = true; bool load = true; int depth = 0; };
ArchP genArch (const ArchOpt &o);
ArchP archCmplt (int n);
std::vector<NumV> shortest (const MGraph &g);               // all-pairs shortest paths, -1 when unreachable

// Strategy strings of the documented grammar.
std::string stratBipart (int depth, bool first = true);
std::string stratMap (int depth, bool remap = false);
std::string stratSep (int depth, bool first = true);
std::string stratOrder (int depth);
std::string stratOvl (int depth);
std::string stratDbipart (int depth);
std::string stratDmap (int depth);
std::string stratDsep (int depth);
std::string stratDorder (int depth);
