/* Stand-in for the OpenMP runtime in replays: a parallel region is a team of eight threads that all run. The threads of
   a pool are held back when they enter the library, so that they run side by side, and making a plan with FFTW counts as
   writing to its planner unless that has been made safe for threads. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <pthread.h>
#include <stdlib.h>
#include <stdbool.h>

#define TEAM 8
static __thread int me;
static __thread int depth;
static int team = 1;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_barrier_t bar;
typedef struct { void (*fn)(void*); void* d; int id; } arg;

static void* run(void* p)
{
    arg* a = p;
    me = a->id;
    depth = 1;
    a->fn(a->d);
    return 0;
}

void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned flags)
{
    pthread_t t[TEAM];
    arg a[TEAM];
    team = TEAM;
    pthread_barrier_init(&bar, 0, TEAM);
    for(int i = 0; i < TEAM; i++)
    {
        a[i] = (arg) { fn, d, i };
        pthread_create(&t[i], 0, run, &a[i]);
    }
    for(int i = 0; i < TEAM; i++)
        pthread_join(t[i], 0);
    team = 1;
}

void GOMP_barrier(void) { if(team > 1) pthread_barrier_wait(&bar); }
void GOMP_critical_start(void) { pthread_mutex_lock(&lock); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&lock); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&lock); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&lock); }
bool GOMP_single_start(void) { return me == 0; }
int omp_get_num_threads(void) { return team; }
int omp_get_thread_num(void) { return me; }
int omp_get_max_threads(void) { return TEAM; }
void omp_set_num_threads(int n) { }
void omp_set_dynamic(int n) { }
int omp_in_parallel(void) { return team > 1; }

#define QUIET __attribute__((no_instrument_function, no_sanitize_thread))

QUIET void __cyg_profile_func_enter(void* f, void* c)
{
    if(depth++ == 0 && syscall(SYS_gettid) != getpid())
        usleep(30000);
}
QUIET void __cyg_profile_func_exit(void* f, void* c) { depth--; }

static __thread int safe;
static volatile int planner;

QUIET static void* next(const char* lib, const char* name)
{
    return dlsym(dlopen(lib, RTLD_NOW), name);
}

void fftwf_make_planner_thread_safe(void)
{
    safe = 1;
    ((void (*)(void)) next("libfftw3f_threads.so.3", "fftwf_make_planner_thread_safe"))();
}

void* fftwf_plan_dft_1d(int n, void* in, void* out, int sign, unsigned flags)
{
    if(!safe)
        planner++;
    return ((void* (*)(int, void*, void*, int, unsigned)) next("libfftw3f.so.3", "fftwf_plan_dft_1d"))(n, in, out, sign, flags);
}

void* fftwf_plan_dft_2d(int m, int n, void* in, void* out, int sign, unsigned flags)
{
    if(!safe)
        planner++;
    return ((void* (*)(int, int, void*, void*, int, unsigned)) next("libfftw3f.so.3", "fftwf_plan_dft_2d"))(m, n, in, out, sign, flags);
}
