ID="s09-dual-threshold"; PROP="M02"
F="src/libscotch/mesh_graph.c"
EDITS=[(F,"nghbnbr = MIN (veconbr, (meshptr->vendtax[velmend] - meshptr->verttax[velmend] - 1)) - 1;","nghbnbr = veconbr - 1;")]
NEEDS="dual graph of a mesh mixing small and large elements, with a threshold above the size of the small ones"
BREAKS="the dual graph links a pair of elements in one direction only"
DEMO=r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <scotch.h>
int main (void) { /* element 0: nodes 0,1 ; element 1: nodes 0,1,2,3,4 */
  SCOTCH_Mesh m; SCOTCH_Graph g; SCOTCH_Num n, e;
  SCOTCH_Num v[] = {0, 2, 7, 9, 11, 12, 13, 14}, ed[] = {2,3, 2,3,4,5,6, 0,1, 0,1, 1, 1, 1};
  SCOTCH_meshInit (&m); SCOTCH_graphInit (&g);
  if (SCOTCH_meshBuild (&m, 0, 2, 2, 5, v, NULL, NULL, NULL, NULL, 14, ed)) return 1;
  if (SCOTCH_meshCheck (&m)) return 1;
  if (SCOTCH_meshGraphDual (&m, &g, 3)) return 1;
  SCOTCH_graphSize (&g, &n, &e);
  printf ("%ld %ld\n", (long) n, (long) e);
  return SCOTCH_graphCheck (&g) != 0;
}
'''
