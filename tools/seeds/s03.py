ID="s03-diam-decrease"; PROP="G07"
EDITS=[("src/libscotch/graph_diam.c","""          if (distold == GNUMMAX)                 /* If newly touched node      */
            fiboHeapAdd (&fibodat, (FiboNode *) vexxpnd); /* Add it to the heap */
          else
            fiboHeapDecrease (&fibodat, (FiboNode *) vexxpnd); /* Else decrease its value in the heap */
""","""          if (distold == GNUMMAX)                 /* If newly touched node      */
            fiboHeapAdd (&fibodat, (FiboNode *) vexxpnd); /* Add it to the heap */
""")]
NEEDS="a graph with edge loads in which a vertex already in the heap gets a shorter distance and another vertex lies between"
BREAKS="the weighted pseudo-diameter is not a distance between two vertices any more"
DEMO=r'''
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <scotch.h>
/* returned value must be the eccentricity of some vertex */
int main (void) {
  unsigned s = 12345; int t;
  for (t = 0; t < 400; t ++) {
    enum { N = 30 };
    static SCOTCH_Num w[N][N]; static long d[N][N];
    SCOTCH_Num vert[N + 1], edge[N * N], edlo[N * N], m = 0; int i, j, k, ok = 0;
    SCOTCH_Graph g; long r;
    memset (w, 0, sizeof (w));
    for (i = 1; i < N; i ++) { s = s * 1103515245u + 12345u; j = (s >> 16) % i; s = s * 1103515245u + 12345u; w[i][j] = w[j][i] = 1 + (s >> 16) % 100; }
    for (k = 0; k < 60; k ++) { s = s * 1103515245u + 12345u; i = (s >> 16) % N; s = s * 1103515245u + 12345u; j = (s >> 16) % N; s = s * 1103515245u + 12345u; if (i != j) w[i][j] = w[j][i] = 1 + (s >> 16) % 100; }
    for (i = 0; i < N; i ++) { vert[i] = m; for (j = 0; j < N; j ++) { d[i][j] = (i == j) ? 0 : w[i][j] ? w[i][j] : 1000000; if (w[i][j]) { edge[m] = j; edlo[m ++] = w[i][j]; } } }
    vert[N] = m;
    for (k = 0; k < N; k ++) for (i = 0; i < N; i ++) for (j = 0; j < N; j ++) if (d[i][k] + d[k][j] < d[i][j]) d[i][j] = d[i][k] + d[k][j];
    SCOTCH_graphInit (&g);
    if (SCOTCH_graphBuild (&g, 0, N, vert, NULL, NULL, NULL, m, edge, edlo) != 0) return 1;
    r = SCOTCH_graphDiamPV (&g);
    for (i = 0; i < N; i ++) { long e = 0; for (j = 0; j < N; j ++) if (d[i][j] > e) e = d[i][j]; if (e == r) ok = 1; }
    if (! ok) { printf ("%ld\n", r); return 1; }
    SCOTCH_graphExit (&g);
  }
  return 0;
}
'''
