ID="s04-metis-volume"; PROP="X01"
F="src/libscotchmetis/metis_graph_part.c"
EDITS=[(F,"  memSet (nghbtax, ~0, partnbr * sizeof (SCOTCH_Num));","  memSet (nghbtax, 0, partnbr * sizeof (SCOTCH_Num));")]
NEEDS="METIS call asking for the communication volume, numbering from 0, and vertex 0 having a neighbour in another part"
BREAKS="the communication volume reported by METIS_PartGraph* misses the contribution of vertex 0 when arrays are based at 0"
DEMO=r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <scotch.h>
#include <metis.h>
/* METIS v3 interface: METIS_PartGraphVKway */
int main (void) {
  SCOTCH_Num n = 8, wgt = 0, num = 0, np = 4, opt[5] = {0}, vol = -1, ref = 0, i, j, k;
  SCOTCH_Num xadj[9], adj[56], part[8];
  for (i = k = 0; i < n; i ++) { xadj[i] = k; for (j = 0; j < n; j ++) if (j != i) adj[k ++] = j; }
  xadj[n] = k;
  METIS_PartGraphVKway (&n, xadj, adj, NULL, NULL, &wgt, &num, &np, opt, &vol, part);
  for (i = 0; i < n; i ++) {
    char s[8] = {0};
    for (j = xadj[i]; j < xadj[i + 1]; j ++)
      if (part[adj[j]] != part[i] && ! s[part[adj[j]]]) { s[part[adj[j]]] = 1; ref ++; }
  }
  printf ("%ld %ld\n", (long) vol, (long) ref);
  return (vol == ref) ? 0 : 1;
}
'''
LIBS="-lscotchmetisv3 -lscotch -lscotcherr"
CC="gcc -DSCOTCH_METIS_VERSION=3"
