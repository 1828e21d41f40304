// Loops with known behaviour, to check the scheduler itself: out = sum of the n elements of x.
#include <stdint.h>
#include <pthread.h>
#define SUM(NAME, DECL, PRE, POST) \
void NAME(char **args, const intptr_t *dims, const intptr_t *steps, void *data) { \
    (void) data; DECL; char *in = args[0], *out = args[1]; \
    for (intptr_t i = 0; i < dims[0]; ++i, in += steps[0], out += steps[1]) { \
        PRE; acc = 0; \
        for (intptr_t k = 0; k < dims[1]; ++k) acc += *(double *) (in + k*steps[2]); \
        *(double *) out = acc; POST; \
    } }
static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static volatile double shared;
SUM(toy_plain, double acc, , )
SUM(toy_static, static volatile double acc, , )
SUM(toy_tls, static __thread volatile double acc, , )
#define acc shared
SUM(toy_locked, , pthread_mutex_lock(&mtx), pthread_mutex_unlock(&mtx))
