ID="s02-base-holes"; PROP="G03"
EDITS=[("src/libscotch/graph_base.c","""  for (vertnum = grafptr->baseval; vertnum < grafptr->vertnnd; vertnum ++) {
    for (edgenum = grafptr->verttax[vertnum]; edgenum < grafptr->vendtax[vertnum]; edgenum ++)
      grafptr->edgetax[edgenum] += baseadj;
    grafptr->verttax[vertnum] += baseadj;
  }
""","""  for (edgenum = grafptr->baseval; edgenum < grafptr->edgenbr + grafptr->baseval; edgenum ++)
    grafptr->edgetax[edgenum] += baseadj;
  for (vertnum = grafptr->baseval; vertnum < grafptr->vertnnd; vertnum ++)
    grafptr->verttax[vertnum] += baseadj;
""")]
NEEDS="SCOTCH_graphBase called on a graph with holes in its edge array"
BREAKS="edge ends located past edgenbr are not re-based: the graph changes under a base change"
DEMO=r'''
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <scotch.h>
int main (void) {
  SCOTCH_Num vert[3] = {0, 4, 8}, vend[3] = {1, 6, 9}, edge[12] = {1,1,1,1, 0,2,0,0, 1,0,0,0};
  SCOTCH_Graph g;
  SCOTCH_graphInit (&g);
  if (SCOTCH_graphBuild (&g, 0, 3, vert, vend, NULL, NULL, 4, edge, NULL) != 0) return 1;
  SCOTCH_graphBase (&g, 1);
  return (edge[0] == 2 && edge[4] == 1 && edge[5] == 3 && edge[8] == 2) ? 0 : 1;
}
'''
