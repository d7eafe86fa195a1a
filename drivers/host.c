/* Runs several drivers at once, one per thread: host (plug-in script log)...
   Each plug-in file is loaded on its own, so that drivers share nothing but the library. */
#include <stdio.h>
#include <stdlib.h>
#include <dlfcn.h>
#include <pthread.h>
__thread void (*host_err)(const char *);
static void on_err(const char *m) { if (host_err) host_err(m); else { fprintf(stderr, "AMINO ERROR: %s\n", m); abort(); } }
extern void aa_la_set_err(void (*)(const char *));
struct job { int (*f)(int, char **); char *argv[3]; int r; };
static pthread_barrier_t bar;
static void *run(void *a) { struct job *j = a; pthread_barrier_wait(&bar); j->r = j->f(3, j->argv); return NULL; }
int main(int argc, char **argv) {
    int n = (argc - 1) / 3; struct job *J = calloc((size_t)n + 1, sizeof *J); pthread_t *t = calloc((size_t)n + 1, sizeof *t);
    if (!n) return 0;
    for (int i = 0; i < n; i++) {
        void *h = dlopen(argv[1+3*i], RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
        J[i].f = (int (*)(int, char **))dlsym(h, "drv_shared"); if (!J[i].f) return 3;
        J[i].argv[0] = argv[0]; J[i].argv[1] = argv[2+3*i]; J[i].argv[2] = argv[3+3*i];
    }
    aa_la_set_err(on_err);
    pthread_barrier_init(&bar, NULL, (unsigned)n);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64u<<20);
    for (int i = 0; i < n; i++) if (pthread_create(&t[i], &at, run, &J[i])) return 3;
    for (int i = 0; i < n; i++) { pthread_join(t[i], NULL); if (J[i].r) return J[i].r; }
    _Exit(0);
}
