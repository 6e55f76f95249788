ID="s11-dinduce-holes"; PROP="D04"
F="src/libscotch/dgraph_induce.c"
EDITS=[(F,"orgvertglbadj = orggrafptr->procvrttab[orggrafptr->proclocnum] - baseval;","orgvertglbadj = orggrafptr->procdsptab[orggrafptr->proclocnum] - baseval;")]
NEEDS="inducing a subgraph of a distributed graph whose global numbering has holes (vertlocmax larger than vertlocnbr), three processes, and using the labels of the induced graph"
BREAKS="the vertices of the induced graph are labelled with wrong global numbers of the original graph"
CC="mpicc"
LIBS="-lptscotch -lscotch -lptscotcherr"
PRE="OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated"
RUN='mpiexec --oversubscribe -n 3 "$T/demo"'
DEMO=r'''
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <ptscotch.h>
int main (int argc, char ** argv) { /* chain over 3 processes, 4 vertices each, vertlocmax 10 */
  SCOTCH_Dgraph g, h; SCOTCH_Num v[5], e[8], pt[4], i, k, *lab = NULL, *vl, *ve, lb, bad = 0, gb; int r;
  MPI_Init (&argc, &argv); MPI_Comm_rank (MPI_COMM_WORLD, &r);
  SCOTCH_dgraphInit (&g, MPI_COMM_WORLD); SCOTCH_dgraphInit (&h, MPI_COMM_WORLD);
#define GN(t) (((t) / 4) * 10 + (t) % 4)
  for (i = k = 0; i < 4; i ++) { SCOTCH_Num t = r * 4 + i; v[i] = k; if (t > 0) e[k ++] = GN (t - 1); if (t < 11) e[k ++] = GN (t + 1); pt[i] = i & 1; }
  v[4] = k;
  if (SCOTCH_dgraphBuild (&g, 0, 4, 10, v, NULL, NULL, NULL, k, k, e, NULL, NULL)) return 1;
  if (SCOTCH_dgraphCheck (&g)) return 1;
  if (SCOTCH_dgraphInducePart (&g, pt, 1, 2, &h)) return 1;
  SCOTCH_dgraphData (&h, NULL, NULL, &lb, NULL, NULL, NULL, NULL, NULL, &lab, NULL, NULL, NULL, NULL, NULL, NULL, NULL);
  if (lb != 2 || lab == NULL || lab[0] != r * 10 + 1 || lab[1] != r * 10 + 3) bad = 1;
  if (lab != NULL) printf ("%d: %ld %ld\n", r, (long) lab[0], (long) lab[1]);
  { int b = (int) bad, c; MPI_Allreduce (&b, &c, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = c; }
  SCOTCH_dgraphExit (&h); SCOTCH_dgraphExit (&g); MPI_Finalize ();
  return bad != 0;
}
'''
