/* Replay runtime (native build only). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
unsigned verif_nd_idx;
static long long *vals; static unsigned nvals;
void harness(void);
void verif_replay_fail(const char *msg) { fprintf(stderr, "REPLAY-FAIL: %s\n", msg); fflush(stderr); _exit(42); }
void verif_replay_assume(int ok) { if (!ok) { fprintf(stderr, "REPLAY-ASSUME-VIOLATED\n"); _exit(77); } }
long long verif_replay_value(unsigned idx) { return idx < nvals ? vals[idx] : 0; }
int main(int argc, char **argv)
{
    FILE *f; unsigned i; long long v; 
    if (argc < 2 || !(f = fopen(argv[1], "r"))) return 78;
    nvals = 0; 
    while (fscanf(f, "%u %lld", &i, &v) == 2) {
        if (i >= nvals) { unsigned n = i + 64; vals = realloc(vals, n * sizeof *vals);
            memset(vals + nvals, 0, (n - nvals) * sizeof *vals); nvals = n; }
        vals[i] = v;
    }
    fclose(f);
    harness();
    free(vals);
    fprintf(stderr, "REPLAY-OK\n");
    return 0;
}
