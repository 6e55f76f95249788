ID="s07-tleaf-dist"; PROP="A02"
F="src/libscotch/arch_tleaf.c"
EDITS=[(F,"""    else {
      idx1nbr = 1;
      do {
        lev1num --;
        idx1min /= sizetab[lev1num];
        distval += linktab[lev1num];""","""    else {
      do {
        lev1num --;
        idx1min /= sizetab[lev1num];
        distval += linktab[lev1num];""")]
NEEDS="distance between two tree-leaf domains of different levels, the deeper one (second argument) spanning several sibling subtrees"
BREAKS="the distance depends on the order of its arguments"
CC='gcc -D_GNU_SOURCE -include stdbool.h'
DEMO=r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <scotch.h>
static int bad = 0;
static SCOTCH_ArchDom all[64]; static int nb = 0;
static void rec (SCOTCH_Arch * a, SCOTCH_ArchDom * d) {
  SCOTCH_ArchDom x, y; int i;
  all[nb ++] = *d;
  if (SCOTCH_archDomBipart (a, d, &x, &y) == 0) { rec (a, &x); rec (a, &y); }
}
int main (void) {
  SCOTCH_Arch a; SCOTCH_Num s[2] = {5, 4}, l[2] = {7, 3}; SCOTCH_ArchDom d; int i, j;
  SCOTCH_archInit (&a); if (SCOTCH_archTleaf (&a, 2, s, l)) return 1;
  SCOTCH_archDomFrst (&a, &d); rec (&a, &d);
  for (i = 0; i < nb; i ++) for (j = 0; j < nb; j ++)
    if (SCOTCH_archDomDist (&a, &all[i], &all[j]) != SCOTCH_archDomDist (&a, &all[j], &all[i])) bad ++;
  printf ("%d %d\n", nb, bad);
  return bad != 0;
}
'''
