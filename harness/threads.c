/* Multithreaded batteries: ownership of generators, races, locks, determinism of the distribution. */
#include "v.h"
// opts: --partition --prov --forkrem=4 --paths=4096 --ret1=entfuncs_test --loop=5000000 | --partition --mallocfail --prov --forkrem=4 --paths=4096 --ret1=entfuncs_test --loop=5000000
#define MAXG 12
extern unsigned long v_thread_self;
static unsigned v_state[MAXG]; /* the number of the generator */
static unsigned v_ncreated, v_nfreed, v_owner[MAXG], v_freed[MAXG], v_ran[4], v_runner[4];
static uint64_t v_seed[MAXG];
static int use_seeds, use_printf, use_gen;
static void *g_create(const GeneratorInfo *gi, const CallerAPI *intf)
{
    unsigned k = v_ncreated;
    v_must(v_thread_self == 0 || use_gen, "generators must be created before the threads start: the order of the seeds would depend on the schedule");
    v_must(k < MAXG, "too many generators");
    v_seed[k] = intf->get_seed64();
    v_owner[k] = 99;
    v_state[k] = k;
    v_ncreated++;
    (void) gi;
    return v_state + k;
}
static void g_free(void *st, const GeneratorInfo *gi, const CallerAPI *intf)
{
    unsigned k = *(unsigned *) st;
    v_must(k < v_ncreated && !v_freed[k], "a generator is destroyed twice");
    v_freed[k] = 1;
    v_nfreed++;
    (void) gi; (void) intf;
}
static uint64_t g_bits(void *st)
{
    unsigned k = *(unsigned *) st;
    v_must(k < v_ncreated && !v_freed[k], "a destroyed generator is used");
    if (v_thread_self != 0) {
        if (v_owner[k] == 99) v_owner[k] = (unsigned) v_thread_self;
        v_must(v_owner[k] == v_thread_self, "a generator is used by several threads");
    }
    return v_gen64(0, UINT64_MAX);
}
static int g_info(GeneratorInfo *gi, const CallerAPI *intf)
{
    (void) intf;
    gi->name = "name"; gi->description = NULL; gi->nbits = 64;
    gi->create = g_create; gi->free = g_free; gi->get_bits = g_bits;
    gi->self_test = NULL; gi->get_sum = NULL; gi->parent = NULL;
    return 1;
}
static const unsigned index_[4] = {0, 1, 2, 3};
static const char *const names[] = {"test0", "test1", "test2", "test3"};
static TestResults t_run(GeneratorState *obj, const void *udata)
{
    unsigned k = *(const unsigned *) udata;
    TestResults r = TestResults_create("synthetic");
    v_must(v_thread_self != 0, "tests of a multithreaded battery are run by threads");
    v_ran[k]++;
    v_runner[k] = (unsigned) v_thread_self;
    (void) obj->gi->get_bits(obj->state);
    if (use_printf) obj->intf->printf("message %d\n", (int) k);
    if (use_seeds) { (void) obj->intf->get_seed64(); (void) obj->intf->get_seed32(); }
    if (use_gen) { void *st = obj->gi->create(obj->gi, obj->intf); (void) obj->gi->get_bits(st); obj->gi->free(st, obj->gi, obj->intf); }
    /* each test has its own class of p-values: rows show which result is which */
    r.p = k == 0 ? v_f64(0.0, 0.9e-10) : k == 1 ? v_f64(1.1e-10, 0.99e-3) : v_f64(0.3, 0.4);
    r.alpha = 1.0 - r.p;
    r.x = 1.0;
    r.penalty = 1.0;
    return r;
}
#define T(k) {"test" #k, t_run, &index_[k]}
static const TestDescription tests3[] = {T(0), T(1), T(2), {NULL, NULL, NULL}};
static const TestsBattery bat3 = {.name = "bat", .tests = tests3};
static unsigned nthr;
static BatteryExitCode battery3(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *opts)
{
    v_must(opts->nthreads == nthr, "the number of threads isn't the requested one");
    if (!v_thread_fails) {
        v_expect_row("test0", 1, "FAIL");
        v_expect_row("test1", 2, "SUSPICIOUS");
        v_expect_row("test2", 3, "Ok");
        v_expect("Used seed", nthr);
    }
    BatteryExitCode code = TestsBattery_run(&bat3, gi, intf, opts);
    if (code == BATTERY_ERROR && v_oom()) return code;
    v_must(code == BATTERY_FAILED, "wrong result");
    for (unsigned k = 0; k < 3; k++) v_must(v_ran[k] == 1, "each test must be run exactly once");
    v_must(v_in_thread == 0, "threads are still running");
    v_must(v_ncreated == v_nfreed, "each generator must be destroyed");
    v_must_unlocked("after the battery");
    v_reached("run");
    return code;
}
static void go(unsigned n, char *opt)
{
    char *argv[] = {"smokerand", "s=lib", "gen", opt, NULL};
    nthr = n;
    v_getinfo = g_info; v_battery = battery3;
    int rc = smokerand_main(4, argv);
    v_must(rc == BATTERY_FAILED || (v_oom() && rc == BATTERY_ERROR), "wrong exit status");
    v_must_unlocked("at the end of the program");
    v_reached("end");
}
void sc_2(void) { go(2, "--nthreads=2"); } // reach=run,end
void sc_3(void) { go(3, "--nthreads=3"); } // reach=run,end
void sc_4(void) { go(4, "--nthreads=4"); } // reach=run,end
void sc_2_printf(void) { use_printf = 1; go(2, "--nthreads=2"); } // reach=run,end
void sc_2_seeds(void) { use_seeds = 1; go(2, "--nthreads=2"); } // reach=run,end opts: --partition --prov --forkrem=4 --paths=4096 --ret1=entfuncs_test --loop=5000000
void sc_3_seeds(void) { use_seeds = use_printf = 1; go(3, "--nthreads=3"); } // reach=run,end opts: --partition --prov --forkrem=4 --paths=4096 --ret1=entfuncs_test --loop=5000000
void sc_2_gen(void) { use_gen = 1; go(2, "--nthreads=2"); } // reach=run,end
/* threads that cannot be started */
void sc_nothread(void) // reach=refused
{
    char *argv[] = {"smokerand", "s=lib", "gen", "--nthreads=3", NULL};
    nthr = 3;
    v_getinfo = g_info; v_battery = battery3;
    v_thread_fails = 2;
    int rc = smokerand_main(4, argv);
    v_must(v_oom() && rc == BATTERY_ERROR, "the battery goes on although a thread couldn't be started");
}
/* the battery is run twice by the same program: the registry of threads starts anew */
static BatteryExitCode twice(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *opts)
{
    battery3(gi, intf, opts);
    for (unsigned k = 0; k < 3; k++) v_ran[k] = 0;
    return battery3(gi, intf, opts);
}
void sc_twice(void) // reach=run,end opts: --partition --prov --forkrem=3 --paths=4096 --ret1=entfuncs_test --loop=5000000
{
    char *argv[] = {"smokerand", "s=lib", "gen", "--nthreads=2", NULL};
    nthr = 2;
    v_getinfo = g_info; v_battery = twice;
    v_must(smokerand_main(4, argv) == BATTERY_FAILED, "wrong exit status");
    v_reached("end");
}
