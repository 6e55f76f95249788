ID="s06-map-foreign"; PROP="P07"
F="src/libscotch/library_graph_map_io.c"
EDITS=[(F,"""      while (mappsorttab[mappfilenum].labl < vertsorttab[vertsortnum].labl) {
        mappfilenum ++; """,
"""      if (mappsorttab[mappfilenum].labl < vertsorttab[vertsortnum].labl) {
        mappfilenum ++; """)]
NEEDS="a mapping file written for a larger graph, with two consecutive labels absent from the graph at hand"
BREAKS="loading the mapping of a supergraph leaves vertices unmapped although the file gives their part"
DEMO=r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <scotch.h>
int main (void) {
  SCOTCH_Graph g; SCOTCH_Arch a; SCOTCH_Mapping m; SCOTCH_Num v[4] = {0, 1, 3, 4}, e[4] = {1, 0, 2, 1}, l[3] = {4, 5, 9}, p[3] = {-5, -5, -5};
  FILE * f = tmpfile (); int i;
  fprintf (f, "10\n"); for (i = 0; i < 10; i ++) fprintf (f, "%d\t%d\n", i, i % 4); rewind (f);
  SCOTCH_graphInit (&g); SCOTCH_archInit (&a); SCOTCH_archCmplt (&a, 4);
  if (SCOTCH_graphBuild (&g, 0, 3, v, NULL, NULL, l, 4, e, NULL)) return 1;
  if (SCOTCH_graphMapInit (&g, &m, &a, p)) return 1;
  if (SCOTCH_graphMapLoad (&g, &m, f)) return 1;
  printf ("%ld %ld %ld\n", (long) p[0], (long) p[1], (long) p[2]);
  return ! (p[0] == 0 && p[1] == 1 && p[2] == 1);
}
'''
