ID="s05-color-tie"; PROP="G06"
F="src/libscotch/library_graph_color.c"
EDITS=[(F,"""        if ((randend > randval) ||
            ((randend == randval) && (vertend > vertnum))) /* Tie breaking when same random value */
          break;""","""        if (randend > randval)                    /* Neighbor has a higher random value */
          break;""")]
NEEDS="a graph with many vertices and adjacent vertices which are given the same random value in the same round"
BREAKS="adjacent vertices that drew the same random number get the same colour"
DEMO=r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <scotch.h>
int main (void) {
  SCOTCH_Num n = 300, i, j, k, nc, r, bad = 0, *v, *e, *c;
  v = malloc ((n + 1) * sizeof *v); e = malloc (n * n * sizeof *e); c = malloc (n * sizeof *c);
  for (i = k = 0; i < n; i ++) { v[i] = k; for (j = 0; j < n; j ++) if (j != i) e[k ++] = j; }
  v[n] = k;
  for (r = 0; r < 20; r ++) {
    SCOTCH_Graph g; SCOTCH_graphInit (&g);
    if (SCOTCH_graphBuild (&g, 0, n, v, NULL, NULL, NULL, k, e, NULL)) return 1;
    if (SCOTCH_graphColor (&g, c, &nc, 0)) return 1;
    if (nc != n) bad ++;
    for (i = 0; i < n; i ++) for (j = v[i]; j < v[i + 1]; j ++) if (c[i] == c[e[j]]) bad ++;
    SCOTCH_graphExit (&g);
  }
  printf ("%ld\n", (long) bad);
  return bad != 0;
}
'''
