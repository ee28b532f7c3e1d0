/* The world around the program: streams, the dynamic loader, threads. */
#include "v.h"
#include <pthread.h>
#undef stdout
#undef stderr
#undef stdin
char v_stdout_obj[216], v_stderr_obj[216], v_stdin_obj[216], v_lib_obj[8];
FILE *stdout = (FILE *) v_stdout_obj, *stderr = (FILE *) v_stderr_obj, *stdin = (FILE *) v_stdin_obj;
int v_in_thread, v_data_on_stdout, v_exit_is_error = 1;
int (*v_getinfo)(GeneratorInfo *gi, const CallerAPI *intf);
BatteryExitCode (*v_battery)(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *opts);

void *dlopen(const char *name, int flags) { (void) name; (void) flags; return v_lib_obj; }
int dlclose(void *h) { (void) h; return 0; }
char *dlerror(void) { return "error"; }
void *dlsym(void *h, const char *name)
{
    (void) h;
    if (!strcmp(name, "gen_getinfo")) return (void *) v_getinfo;
    if (!strcmp(name, "battery_func")) return (void *) v_battery;
    return NULL;
}

/* Threads run one after another; interleavings are covered by the lock sets
   and by the disjointness of the memory that threads use without locks. */
unsigned long v_thread_fails; /* number of the thread that can't be started */
unsigned long v_thread_self, v_nthreads; /* 0: main thread */
pthread_t pthread_self(void) { return v_thread_self; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
typedef struct { void *(*f)(void *); void *arg; } VThread;
static VThread v_pending[64];
int pthread_create(pthread_t *id, const pthread_attr_t *attr, void *(*f)(void *), void *arg)
{
    (void) attr;
    if (v_thread_fails && v_nthreads + 1 == v_thread_fails) { v_reached("refused"); return 11; }
    *id = ++v_nthreads;
    v_pending[v_nthreads].f = f;
    v_pending[v_nthreads].arg = arg;
    if (v_in_thread == 0) v_threads_begin();
    v_in_thread++;
    return 0;
}
int pthread_join(pthread_t id, void **ret)
{
    (void) ret;
    unsigned long self = v_thread_self;
    v_thread_self = id;
    v_pending[id].f(v_pending[id].arg);
    v_must_unlocked("when the thread ends");
    v_in_thread--;
    v_thread_self = self;
    return 0;
}
/* files */
size_t (*v_on_fread)(void *p, size_t n, FILE *f);
size_t fread(void *p, size_t size, size_t n, FILE *f)
{
    if (v_on_fread == NULL) return 0;
    return v_on_fread(p, size * n, f) / size;
}
