ID="s13-dcoarsen-merge"; PROP="D03"
F="src/libscotch/dgraph_coarsen.c"
EDITS=[(F,"""      coarvertglbend = ercvdattab[ercvidxnum ++]; /* Get coarse end vertex number                 */
      edlolocval = (edloloctax != NULL) ? ercvdattab[ercvidxnum ++] : 1; /* Read edge load if any */
      if (coarvertglbend == coarvertglbnum)       /* If loop coarse edge, skip it                 */
        continue;

      for (h = (coarvertglbend * COARHASHPRIME) & coarhashmsk; ; h = (h + 1) & coarhashmsk) {""","""      coarvertglbend = ercvdattab[ercvidxnum ++]; /* Get coarse end vertex number                 */
      edlolocval = (edloloctax != NULL) ? ercvdattab[ercvidxnum ++] : 1; /* Read edge load if any */
      if (coarvertglbend == coarvertglbnum)       /* If loop coarse edge, skip it                 */
        continue;

      if ((degrlocval == 0) && (coaredgelocnum > finegrafptr->baseval) && /* If last edge goes to the neighbor just recorded */
          (coaredgeloctax[coaredgelocnum - 1] == coarvertglbend)) {
        coaredloloctax[coaredgelocnum - 1] += edlolocval;
        break;
      }
      for (h = (coarvertglbend * COARHASHPRIME) & coarhashmsk; ; h = (h + 1) & coarhashmsk) {""")]
NEEDS="distributed coarsening where the remote mate of a vertex has, as its only remaining distinct neighbour, the neighbour recorded last for the previous coarse vertex"
BREAKS="a coarse arc is missing: its load is added to the previous coarse vertex's arc"
CC="mpicc"
LIBS="-lptscotch -lscotch -lptscotcherr"
PRE="OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated"
RUN='mpiexec --oversubscribe -n 3 "$T/demo"'
DEMO=r'''
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <ptscotch.h>
int main (int argc, char ** argv) { /* rings over 3 processes, interleaved so that most neighbours are remote */
  int r, bad = 0, gb, t;
  MPI_Init (&argc, &argv); MPI_Comm_rank (MPI_COMM_WORLD, &r);
  for (t = 0; t < 60; t ++) {
    SCOTCH_Dgraph g, h; SCOTCH_Num N = 3 * (3 + t % 17), L = N / 3, i, k, *v, *e, *m, cb; double s = 0.99; SCOTCH_Num st = 0;
    v = malloc ((L + 1) * sizeof *v); e = malloc (4 * L * sizeof *e); m = malloc (4 * N * sizeof *m);
    SCOTCH_dgraphInit (&g, MPI_COMM_WORLD); SCOTCH_dgraphInit (&h, MPI_COMM_WORLD);
#define GN(x) ((((x) + N) % N % 3) * L + ((x) + N) % N / 3)
    for (i = k = 0; i < L; i ++) { SCOTCH_Num x = i * 3 + r; v[i] = k; if (t & 1 || x > 0) e[k ++] = GN (x - 1); if (t & 1 || x < N - 1) e[k ++] = GN (x + 1); }
    v[L] = k;
    if (SCOTCH_dgraphBuild (&g, 0, L, L, v, NULL, NULL, NULL, k, k, e, NULL, NULL)) MPI_Abort (MPI_COMM_WORLD, 1);
    if (SCOTCH_dgraphCoarsen (&g, 0, s, 0, &h, m) != 0) bad = 1; /* Long paths and rings always coarsen */
    else if (SCOTCH_dgraphCheck (&h)) bad = 1;
    SCOTCH_dgraphExit (&h); SCOTCH_dgraphExit (&g); free (v); free (e); free (m);
  }
  MPI_Allreduce (&bad, &gb, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  MPI_Finalize ();
  return gb;
}
'''
