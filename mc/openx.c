/* openx PATH MODE FORCE TEXT: opens with the library's helper, writes TEXT when writing, closes. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "librsync.h"
int main(int argc, char **argv)
{
    if (argc != 5) return 64;
    FILE *f = rs_file_open(argv[1], argv[2], atoi(argv[3]));
    if (!f) return 3;
    if (argv[2][0] == 'w') { if (fputs(argv[4], f) < 0) return 4; }
    else { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) fwrite(b, 1, n, stdout); }
    if (rs_file_close(f)) { fputs("close failed\n", stderr); return 5; }
    return 0;
}
