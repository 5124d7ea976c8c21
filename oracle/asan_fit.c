/* linked with the back end's sources under -fsanitize=address,undefined: exact-size heap arrays */
#include "fit.h"
#include <stdio.h>
#include <stdlib.h>
int main(int argc, char **argv) {
    int seed = atoi(argv[1]), nb = atoi(argv[2]), m = atoi(argv[3]), iter = 0;
    double fret, bw = 30.;
    srand(seed);
    double *x = malloc(2 * nb * sizeof(double));
    double complex *t = malloc(m * sizeof(double complex));
    for (int i = 0; i < m; i++) {
        double complex zi = (2 * i + 1) * PI / bw * I;
        t[i] = 2 * (zi - csqrt(zi * zi - 1.));
    }
    extern int nbath;
    nbath = nb;
    for (int rep = 0; rep < 2; rep++) {
        if (rep == 0) init_bath(x);
        else for (int i = 0; i < 2 * nb; i++) x[i] = 2. * rand() / RAND_MAX - 1.;
        fit(x, &iter, &fret, nb, m, t, bw);
    }
    free(x); free(t);
    return 0;
}
