/* Verdicts: classes of p-values, summary of a battery, exit status of the program. */
#include "v.h"
// opts: --partition --prov --forkrem=4 --paths=4096 --ret1=entfuncs_test | --partition --prov --mallocfail --forkrem=4 --paths=4096 --ret1=entfuncs_test
#include <math.h>
/* ---- classes of p-values: bounds of the intervals are neighbouring numbers */
#define P10 1.0e-10
#define P3 1.0e-3
static void cls(double lo, double hi, PValueCategory want, const char *txt)
{
    v_must(get_pvalue_category(v_f64(lo, hi)) == want, "p-value is put into a wrong class");
    v_must(!strcmp(interpret_pvalue(v_f64(lo, hi)), txt), "p-value gets a wrong label");
}
void sc_class(void) // reach=end
{
    cls(0.0, 0x1.b7cdfd9d7bdbap-34, PVALUE_FAILED, "FAIL");
    cls(0x1.b7cdfd9d7bdbbp-34 * (1 + 1e-15), 0x1.0624dd2f1a9fbp-10, PVALUE_WARNING, "SUSPICIOUS");
    cls(0x1.0624dd2f1a9fdp-10, 0.999 * (1 - 1e-15), PVALUE_PASSED, "Ok");
    cls(0.999 * (1 + 1e-15), (1.0 - P10) * (1 - 1e-15), PVALUE_WARNING, "SUSPICIOUS");
    cls((1.0 - P10) * (1 + 1e-15), 1.0, PVALUE_FAILED, "FAIL");
    v_reached("end");
}
void sc_class_nan(void) // reach=end
{
    /* no p-value: the test could not be performed; that must not look like a defect of the generator */
    v_must(get_pvalue_category(v_nan()) == PVALUE_PASSED, "an absent p-value is reported as a failure");
    v_reached("end");
}
/* ---- batteries of synthetic tests */
static int nalive;
static char state[8];
static void *g_create(const GeneratorInfo *gi, const CallerAPI *intf) { (void) gi; (void) intf; nalive++; return state; }
static void g_free(void *st, const GeneratorInfo *gi, const CallerAPI *intf) { (void) st; (void) gi; (void) intf; nalive--; }
static unsigned g_width = 32;
static uint64_t g_bits(void *st) { (void) st; return g_width == 64 ? v_gen64(0, UINT64_MAX) : v_gen64(0, 0xFFFFFFFFu); }
static int g_selftest(const CallerAPI *intf);
static int has_selftest, has_descr;
static int g_info(GeneratorInfo *gi, const CallerAPI *intf)
{
    (void) intf;
    gi->name = "name"; gi->description = has_descr ? "descr" : NULL; gi->nbits = g_width;
    gi->create = g_create; gi->free = g_free; gi->get_bits = g_bits;
    gi->self_test = has_selftest ? g_selftest : NULL; gi->get_sum = NULL; gi->parent = NULL;
    return 1;
}
/* classes: f(ail) low, F(ail) high, w(arning) low, W high, p(assed), n(an) */
static const char *classes;
static double penalty[8];
static unsigned v_ran[8];
static const unsigned index_[8] = {0, 1, 2, 3, 4, 5, 6, 7};
static TestResults t_run(GeneratorState *obj, const void *udata)
{
    unsigned k = *(const unsigned *) udata;
    TestResults r = TestResults_create("synthetic");
    v_must(obj->state == state, "a test gets a generator that doesn't exist");
    v_ran[k]++;
    switch (classes[k]) {
    case 'f': r.p = v_f64(0.0, 0.9e-10); break;
    case 'F': r.p = v_f64(1.0 - 0.9e-10, 1.0); break;
    case 'w': r.p = v_f64(1.1e-10, 0.99e-3); break;
    case 'W': r.p = v_f64(0.9991, 1.0 - 1.1e-10); break;
    case 'p': r.p = v_f64(1.01e-3, 0.9989); break;
    case 'n': r.p = v_nan(); break;
    }
    r.alpha = 1.0 - r.p;
    r.x = v_f64(-1e9, 1e9);
    r.penalty = penalty[k];
    return r;
}
#define T(k) {"test" #k, t_run, &index_[k]}
static const TestDescription tests6[] = {T(0), T(1), T(2), T(3), T(4), T(5), {NULL, NULL, NULL}};
static const TestsBattery bat6 = {.name = "bat", .tests = tests6};
static const char *const names[] = {"test0", "test1", "test2", "test3", "test4", "test5"};
static int want;
static int only = -1;
static unsigned nt = 6;
static const TestDescription tests3[] = {T(0), T(1), T(2), {NULL, NULL, NULL}};
static const TestsBattery bat3 = {.name = "bat", .tests = tests3};
static BatteryExitCode battery6(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *opts)
{
    unsigned nf = 0, nw = 0, np = 0;
    double grade = 4.0;
    for (unsigned k = 0; k < nt; k++) {
        v_ran[k] = 0;
        if (want < 0 || (only >= 0 && (int) k != only)) continue;
        switch (classes[k]) {
        case 'f': case 'F': nf++; grade -= penalty[k]; v_expect_row(names[k], k + 1, "FAIL"); break;
        case 'w': case 'W': nw++; v_expect_row(names[k], k + 1, "SUSPICIOUS"); break;
        case 'p': np++; if (opts->report_type == REPORT_FULL) v_expect_row(names[k], k + 1, "Ok"); break;
        }
    }
    if (grade < 0) grade = 0;
    if (want >= 0) { v_expect("Failed", nf); v_expect("Suspicious", nw); }
    if (want >= 0 && strchr(classes, 'n') == NULL) v_expect("Passed", np);
    if (want >= 0 && only < 0 && nt >= 5) v_expect("Quality", grade);
    BatteryExitCode code = TestsBattery_run(nt == 3 ? &bat3 : &bat6, gi, intf, opts);
    if (code == BATTERY_ERROR) { v_must(want < 0 || v_oom(), "the battery fails without reason"); v_reached("error"); return code; }
    v_must(want >= 0, "the battery is run although its settings are invalid");
    v_must((int) code == want, "the battery reports a wrong overall result");
    for (unsigned k = 0; k < nt; k++)
        v_must(v_ran[k] == ((only < 0 || (int) k == only) ? 1u : 0u), "each selected test must be run exactly once");
    v_must(nalive == 0, "generators created by the battery must be destroyed");
    v_reached("run");
    return code;
}
static void go(const char *cl, const double *pen, int want_, int only_, char *opt, char *opt2)
{
    char *argv[] = {"smokerand", "s=lib", "gen", opt, opt2, NULL};
    classes = cl; want = want_; only = only_;
    for (unsigned k = 0; k < 6; k++) penalty[k] = pen[k];
    v_getinfo = g_info; v_battery = battery6;
    int code = smokerand_main(opt2 ? 5 : 4, argv);
    if (v_oom() && code == BATTERY_ERROR) return;
    v_must(code == (want < 0 ? BATTERY_ERROR : want), "the exit status of the program isn't the result of the battery");
    v_reached("end");
}
static const double pens[] = {0.25, 1.0, 2.0, 3.0, 4.0, 1.0};
void sc_all_passed(void) { go("pppppp", pens, 0, -1, "--report-brief", NULL); } // reach=run,end
void sc_mixed(void) { go("fpWwpp", pens, 1, -1, "--report-brief", NULL); } // reach=run,end
void sc_first(void) { go("Fppppp", pens, 1, -1, "--batparam=x", NULL); } // reach=run,end
void sc_last(void) { go("pppppf", pens, 1, -1, "--batparam=x", NULL); } // reach=run,end
void sc_two(void) { go("pFfwWp", pens, 1, -1, "--batparam=x", NULL); } // reach=run,end
void sc_floor(void) { go("ppfFFp", pens, 1, -1, "--batparam=x", NULL); } // reach=run,end
void sc_warn(void) { go("wppWpp", pens, 0, -1, "--report-brief", NULL); } // reach=run,end
void sc_nan(void) { go("npwppn", pens, 0, -1, "--batparam=x", NULL); } // reach=run,end
void sc_one(void) { go("fpppfp", pens, 1, 4, "--testid=5", NULL); } // reach=run,end
void sc_one_passed(void) { go("fpppfp", pens, 0, 2, "--testname=test2", NULL); } // reach=run,end
void sc_one_first(void) { go("fppppp", pens, 1, 0, "--testname=test0", NULL); } // reach=run,end
void sc_one_last(void) { go("pppppF", pens, 1, 5, "--testid=6", NULL); } // reach=run,end
void sc_id_big(void) { go("pppppp", pens, -1, 0, "--testid=7", NULL); } // reach=error,end
void sc_name_unknown(void) { go("pppppp", pens, -1, 0, "--testname=test6", NULL); } // reach=error,end
void sc_id_name(void) { go("pppppp", pens, -1, 0, "--testname=test1", "--testid=2"); } // reach=end
void sc_threads(void) { nt = 3; go("fpW", pens, 1, -1, "--nthreads=2", "--report-brief"); } // reach=run,end
void sc_threads_passed(void) { nt = 3; go("pwp", pens, 0, -1, "--nthreads=2", NULL); } // reach=run,end
void sc_threads3(void) { nt = 3; go("pwF", pens, 1, -1, "--nthreads=3", NULL); } // reach=run,end
void sc_threads_many(void) { nt = 3; go("pwF", pens, 1, -1, "--nthreads=5", NULL); } // reach=run,end
void sc_threads_one(void) { go("pppppf", pens, 1, 5, "--nthreads=2", "--testid=6"); } // reach=run,end
/* ---- results of other batteries and modes are the exit status */
static BatteryExitCode ret;
static BatteryExitCode any_battery(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *opts) { (void) gi; (void) intf; (void) opts; v_reached("run"); return ret; }
static void exitcode(BatteryExitCode c)
{
    char *argv[] = {"smokerand", "s=lib", "gen", NULL};
    v_getinfo = g_info; v_battery = any_battery; ret = c;
    v_must(smokerand_main(3, argv) == (int) c, "the exit status of the program isn't the result of the battery");
    v_reached("end");
}
void sc_exit0(void) { exitcode(BATTERY_PASSED); } // reach=run,end opts: --partition --prov
void sc_exit1(void) { exitcode(BATTERY_FAILED); } // reach=run,end
void sc_exit2(void) { exitcode(BATTERY_ERROR); } // reach=run,end
void sc_entropy_bad(void) // reach=end opts: --partition --ret0=entfuncs_test
{
    char *argv[] = {"smokerand", "s=lib", "gen", NULL};
    v_getinfo = g_info; v_battery = any_battery; ret = BATTERY_PASSED;
    v_must(smokerand_main(3, argv) == BATTERY_ERROR, "a failed self-test of the seed generator must be an error");
    v_reached("end");
}
static void mode(char *name, int want_)
{
    char *argv[] = {"smokerand", name, "gen", NULL};
    v_getinfo = g_info; v_battery = NULL;
    v_must(smokerand_main(3, argv) == want_, "wrong exit status");
    v_reached("end");
}
static int st_result;
static int g_selftest(const CallerAPI *intf) { (void) intf; v_reached("selftest"); return st_result; }
void sc_selftest_ok(void) { has_selftest = 1; st_result = (int) v_u64(1, 1); mode("selftest", BATTERY_PASSED); } // reach=selftest,end
void sc_selftest_bad(void) { has_selftest = 1; st_result = 0; mode("selftest", BATTERY_FAILED); } // reach=selftest,end
void sc_selftest_none(void) { has_selftest = 0; mode("selftest", BATTERY_ERROR); } // reach=end
void sc_unknown(void) { mode("no-such-battery", BATTERY_UNKNOWN); } // reach=end
void sc_nofile(void) { mode("f=", BATTERY_ERROR); } // reach=end
void sc_nolib(void) { mode("s=", BATTERY_ERROR); } // reach=end
void sc_nofunc(void) { mode("s=lib", BATTERY_ERROR); } // reach=end
void sc_help(void) { has_descr = 1; mode("help", BATTERY_PASSED); } // reach=end
static int g_info_bad(GeneratorInfo *gi, const CallerAPI *intf) { (void) gi; (void) intf; v_reached("info"); return 0; }
void sc_badgen(void) // reach=info,end
{
    char *argv[] = {"smokerand", "express", "gen", NULL};
    v_getinfo = g_info_bad;
    v_must(smokerand_main(3, argv) != 0, "a generator module that can't be initialised must be an error");
    v_reached("end");
}
void sc_nogen(void) // reach=end
{
    char *argv[] = {"smokerand", "express", "gen", NULL};
    v_getinfo = NULL;
    v_must(smokerand_main(3, argv) != 0, "a library without generator must be an error");
    v_reached("end");
}
/* ---- a 32-bit generator that returns more than 32 bits isn't tested */
static uint64_t g_wide(void *st) { (void) st; return v_gen64(1ull << 32, UINT64_MAX); }
static int g_info_wide(GeneratorInfo *gi, const CallerAPI *intf) { g_info(gi, intf); gi->get_bits = g_wide; return 1; }
void sc_wide(void) // reach=error,end
{
    char *argv[] = {"smokerand", "s=lib", "gen", NULL};
    classes = "pppppp"; want = -1;
    v_getinfo = g_info_wide; v_battery = battery6;
    v_must(smokerand_main(3, argv) == BATTERY_ERROR, "a 32-bit generator with longer outputs must be refused");
    v_reached("end");
}
