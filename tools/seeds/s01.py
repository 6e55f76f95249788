ID="s01-save-noncompact"; PROP="G01"
F="src/libscotch/graph_io.c"
EDITS=[(F,"""(Gnum) (grafptr->vendtax[vertnum] - grafptr->verttax[vertnum])) == EOF); /* Write vertex degree */

    for (edgenum = grafptr->verttax[vertnum];
         (edgenum < grafptr->vendtax[vertnum]) && (o == 0); edgenum ++) {""",
"""(Gnum) (grafptr->vendtax[vertnum] - grafptr->verttax[vertnum])) == EOF); /* Write vertex degree */

    for (edgenum = (vertnum == grafptr->baseval) ? grafptr->verttax[vertnum] : grafptr->vendtax[vertnum - 1];
         (edgenum < grafptr->vendtax[vertnum]) && (o == 0); edgenum ++) {""")]
NEEDS="a graph whose adjacency lists are not contiguous (vendtab distinct from verttab + 1, with holes), saved with SCOTCH_graphSave"
BREAKS="the saved file lists stale edge slots, so that loading it does not give the graph back"
DEMO=r'''
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <scotch.h>
int main (void) {
  SCOTCH_Num vert[3] = {0, 4, 8}, vend[3] = {1, 6, 9}, edge[12] = {1,1,1,1, 0,2,0,0, 1,0,0,0};
  SCOTCH_Graph g, h; SCOTCH_Num n, m; FILE * f = tmpfile ();
  SCOTCH_graphInit (&g); SCOTCH_graphInit (&h);
  if (SCOTCH_graphBuild (&g, 0, 3, vert, vend, NULL, NULL, 4, edge, NULL) != 0) return 1;
  if (SCOTCH_graphSave (&g, f) != 0) return 1;
  rewind (f);
  if (SCOTCH_graphLoad (&h, f, -1, 0) != 0) return 1;
  SCOTCH_graphSize (&h, &n, &m);
  return (n == 3 && m == 4 && SCOTCH_graphCheck (&h) == 0) ? 0 : 1;
}
'''
