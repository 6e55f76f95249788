ID="s08-rand-load-seed"; PROP="R01"
F="src/libscotch/common_integer.c"
EDITS=[(F,"""  INT                 versval;

  if (intLoad (stream, &versval) != 1) {          /* Read version number */
    errorPrint ("intRandLoad: bad input (1)");""","""  INT                 versval;
  UINT64              seedval;

  if (intLoad (stream, &versval) != 1) {          /* Read version number */
    errorPrint ("intRandLoad: bad input (1)");"""),
(F,"""  if (fscanf (stream, "%d%" PRIu64,
              &randptr->procval,
              &randptr->seedval) != 2) {""","""  if (fscanf (stream, "%d%" PRIu64,
              &randptr->procval,
              &seedval) != 2) {""")]
NEEDS="restoring a saved random state whose seed differs from the current one, then resetting the generator"
BREAKS="after loading a saved random state, a reset does not restart the sequence of the saved state"
DEMO=r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <scotch.h>
int main (void) {
  FILE * f = tmpfile (); SCOTCH_Num a[8], b[8]; int i;
  SCOTCH_randomSeed (12345); SCOTCH_randomReset ();
  for (i = 0; i < 8; i ++) a[i] = SCOTCH_randomVal (1000000);
  if (SCOTCH_randomSave (f)) return 1;
  SCOTCH_randomSeed (777); SCOTCH_randomReset ();
  rewind (f);
  if (SCOTCH_randomLoad (f)) return 1;
  SCOTCH_randomReset ();
  for (i = 0; i < 8; i ++) b[i] = SCOTCH_randomVal (1000000);
  for (i = 0; i < 8; i ++) if (a[i] != b[i]) return 1;
  return 0;
}
'''
