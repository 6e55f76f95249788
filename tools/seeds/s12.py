ID="s12-scatter-edlo"; PROP="D02"
F="src/libscotch/dgraph_scatter.c"
EDITS=[(F,"""           edgetmp < edgetnd; edgetmp ++, edgenum ++)
        edlotax[edgenum] = cgrfptr->edlotax[edgetmp];""","""           edgetmp < edgetnd; edgetmp ++, edgenum ++)
        edlotax[edgenum] = cgrfptr->edlotax[edgenum];""")]
NEEDS="scattering a centralized graph with edge loads and an edge array with holes"
BREAKS="edge loads of the scattered graph are taken from wrong places"
CC="mpicc"
LIBS="-lptscotch -lscotch -lptscotcherr"
PRE="OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated"
RUN='mpiexec --oversubscribe -n 3 "$T/demo"'
DEMO=r'''
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <ptscotch.h>
int main (int argc, char ** argv) { /* chain of 9, lists separated by two unused cells */
  SCOTCH_Dgraph g; SCOTCH_Graph c, d; SCOTCH_Num v[10], w[10], e[64], l[64], i, k, q = 0; int r, bad = 0, gb;
  MPI_Init (&argc, &argv); MPI_Comm_rank (MPI_COMM_WORLD, &r);
  SCOTCH_dgraphInit (&g, MPI_COMM_WORLD); SCOTCH_graphInit (&c); SCOTCH_graphInit (&d);
  for (i = 0; i < 64; i ++) { e[i] = 0; l[i] = 1000; }
  for (i = k = 0; i < 9; i ++) { k += 2; v[i] = k; if (i > 0) { l[k] = i * 3; e[k ++] = i - 1; q ++; } if (i < 8) { l[k] = i * 3 + 3; e[k ++] = i + 1; q ++; } w[i] = k; }
  if (r == 0) { if (SCOTCH_graphBuild (&c, 0, 9, v, w, NULL, NULL, q, e, l) || SCOTCH_graphCheck (&c)) MPI_Abort (MPI_COMM_WORLD, 1); }
  if (SCOTCH_dgraphScatter (&g, r == 0 ? &c : NULL)) MPI_Abort (MPI_COMM_WORLD, 1);
  if (SCOTCH_dgraphCheck (&g)) bad = 1;
  if (! bad && SCOTCH_dgraphGather (&g, r == 1 ? &d : NULL)) bad = 1;
  if (! bad && r == 1) {
    SCOTCH_Num *vt, *ed, *lo; SCOTCH_graphData (&d, NULL, NULL, &vt, NULL, NULL, NULL, NULL, &ed, &lo);
    for (i = 0; i < 9; i ++) for (k = vt[i]; k < vt[i + 1]; k ++) if (lo[k] != 3 * (i > ed[k] ? i : ed[k])) bad = 1;
  }
  MPI_Allreduce (&bad, &gb, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  SCOTCH_dgraphExit (&g); SCOTCH_graphExit (&c); SCOTCH_graphExit (&d); MPI_Finalize ();
  return gb;
}
'''
