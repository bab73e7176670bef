/* Stands in for the planarity executable: for the input names listed in LIE_FILE (one per line) a homeomorph
   search "finds nothing"; every other call is passed on to the executable named in LIE_REAL. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int c, char **v)
{
    if (c >= 4 && !strcmp(v[1], "-s") && (!strcmp(v[2], "-2") || !strcmp(v[2], "-3") || !strcmp(v[2], "-4")))
    {
        char l[512]; FILE *f = fopen(getenv("LIE_FILE"), "r");
        while (f && fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; if (!strcmp(l, v[3])) { printf("The graph has no subgraph homeomorphic to the target.\n"); return 0; } }
    }
    v[0] = getenv("LIE_REAL"); execv(v[0], v); return 99;
}
