/* Interposed on the real libglpk during replay: lets the harness see the posed LP and choose the
   allocation returned to pywr. Inactive until a callback is registered. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>

typedef int (*cb_t)(void *P);      /* returns 0: use supplied point, 1: really solve */
static cb_t cb = NULL;
static int active = 0, status = 5, retv = 0;
static double prim[4096];

void vp_set_callback(cb_t f) { cb = f; active = 0; }
void vp_set_point(int n, const double *x, int st, int ret) {
    for (int i = 0; i < n && i < 4095; i++) prim[i + 1] = x[i];
    status = st; retv = ret;
}
int glp_simplex(void *P, const void *parm) {
    static int (*real)(void *, const void *) = NULL;
    if (!real) real = dlsym(RTLD_NEXT, "glp_simplex");
    active = 0;
    if (cb) {
        int r = cb(P);
        if (r == 0) { active = 1; return retv; }
    }
    return real(P, parm);
}
int glp_get_status(void *P) {
    static int (*real)(void *) = NULL;
    if (!real) real = dlsym(RTLD_NEXT, "glp_get_status");
    return active ? status : real(P);
}
double glp_get_col_prim(void *P, int j) {
    static double (*real)(void *, int) = NULL;
    if (!real) real = dlsym(RTLD_NEXT, "glp_get_col_prim");
    return active ? prim[j] : real(P, j);
}
