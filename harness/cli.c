/* Command line: every option arrives where it belongs, everything else is refused. */
#include "v.h"
#include <limits.h>
#include "smokerand_bat.h"
// opts: --partition --prov --numbers --paths=4096 --ret1=entfuncs_test | --partition --prov --numbers --paths=4096 --mallocfail --ret1=entfuncs_test
static char state[8];
static void *g_create(const GeneratorInfo *gi, const CallerAPI *intf) { (void) gi; (void) intf; return state; }
static void g_free(void *st, const GeneratorInfo *gi, const CallerAPI *intf) { (void) st; (void) gi; (void) intf; }
static uint64_t g_bits(void *st) { (void) st; return v_gen64(0, ~(uint64_t) 0); }
static const char *param = "";
static int anyparam;
static int g_info(GeneratorInfo *gi, const CallerAPI *intf)
{
    if (!anyparam) v_must(intf->get_param() != NULL && !strcmp(intf->get_param(), param), "the generator doesn't get the text of --param");
    gi->name = "name"; gi->description = NULL; gi->nbits = 64;
    gi->create = g_create; gi->free = g_free; gi->get_bits = g_bits;
    gi->self_test = NULL; gi->get_sum = NULL; gi->parent = NULL;
    return 1;
}
/* ---- what the battery gets */
static unsigned nthreads = 1, testid, kthreads, ktest;
static const char *testname, *batparam = "";
static ReportType report = REPORT_FULL;
static unsigned nbits = 64;
static int nruns;
static BatteryExitCode battery(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *o)
{
    (void) intf;
    nruns++;
    v_must(gi->nbits == nbits, "the filter isn't the chosen one");
    if (kthreads) v_must_num(o->nthreads, kthreads, 1, 255, "--nthreads");
    else v_must(o->nthreads == nthreads, "the number of threads differs from the given one");
    if (ktest) v_must_num(o->test.id, ktest, 1, INT_MAX, "--testid");
    else v_must(o->test.id == testid, "the number of the test differs from the given one");
    v_must((o->test.name == NULL) == (testname == NULL), "--testname is lost or invented");
    if (o->test.name != NULL && testname != NULL) v_must(!strcmp(o->test.name, testname), "the name of the test differs from the given one");
    v_must(o->report_type == report, "the kind of report differs from the chosen one");
    v_must(o->param != NULL && !strcmp(o->param, batparam), "the parameter of the battery differs from the given one");
    v_reached("run");
    return BATTERY_FAILED;
}
static void go(char *a, char *b, char *c, char *d, char *e, char *f, char *g)
{
    char *argv[] = {"smokerand", "s=lib", "gen", a, b, c, d, e, f, g, NULL};
    int n = 3;
    while (n < 10 && argv[n] != NULL) n++;
    v_getinfo = g_info; v_battery = battery; nruns = 0;
    int rc = smokerand_main(n, argv);
    v_must(nruns == 1 ? rc == BATTERY_FAILED : (kthreads || ktest || v_oom()) && rc == BATTERY_ERROR, "wrong exit status");
    v_reached("end");
}
#define GO1(a) go(a, NULL, NULL, NULL, NULL, NULL, NULL)
#define GO2(a, b) go(a, b, NULL, NULL, NULL, NULL, NULL)
void sc_none(void) { GO1(NULL); } // reach=run,end
void sc_nthreads(void) { kthreads = 16; GO1("--nthreads=16"); } // reach=run,end
void sc_nthreads_1(void) { nthreads = 001; GO1("--nthreads=001"); } // reach=run,end
void sc_nthreads_255(void) { nthreads = 255; GO1("--nthreads=255"); } // reach=run,end
void sc_threads(void) // reach=run,end opts: --partition --ret1=entfuncs_test --redirect=sysconf:v_sysconf --redirect=battery_shared_lib:v_bat_any
{ go("--threads", NULL, NULL, NULL, NULL, NULL, NULL); }
long v_sysconf(int name) { return name == 84 ? v_i64(-1, 1 << 24) : v_i64(1, 4096); } /* 84: processors */
BatteryExitCode v_bat_any(const char *f, const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *o)
{
    (void) f; (void) gi; (void) intf;
    nruns++;
    v_must(o->nthreads >= 1 && o->nthreads <= 255, "--threads chooses an impossible number of threads");
    v_reached("run");
    return BATTERY_FAILED;
}
void sc_testid(void) { ktest = 17; GO1("--testid=17"); } // reach=run,end
void sc_testname(void) { testname = "bspace32_1d"; GO1("--testname=bspace32_1d"); } // reach=run,end
void sc_testname_eq(void) { testname = "a=b"; GO1("--testname=a=b"); } // reach=run,end
void sc_brief(void) { report = REPORT_BRIEF; GO1("--report-brief"); } // reach=run,end
void sc_param(void) { param = "some-text"; GO1("--param=some-text"); } // reach=run,end
void sc_param_empty(void) { GO1("--param="); } // reach=run,end
void sc_param_eq(void) { param = "=x=y"; GO1("--param==x=y"); } // reach=run,end
void sc_batparam(void) { batparam = "1e5"; GO1("--batparam=1e5"); } // reach=run,end
void sc_filter_1(void) { GO1("--filter=reverse-bits"); } // reach=run,end
void sc_filter_2(void) { nbits = 32; GO1("--filter=interleaved32"); } // reach=run,end
void sc_filter_3(void) { nbits = 32; GO1("--filter=high32"); } // reach=run,end
void sc_filter_4(void) { nbits = 32; GO1("--filter=low32"); } // reach=run,end
void sc_all_1(void) // reach=run,end
{
    kthreads = 16; ktest = 17; report = REPORT_BRIEF; batparam = "p2"; nbits = 32; param = "p1";
    go("--nthreads=16", "--testid=17", "--report-brief", "--param=p1", "--batparam=p2", "--filter=low32", "--seed=text");
}
void sc_all_2(void) // reach=run,end
{
    kthreads = 16; testname = "t"; report = REPORT_BRIEF; batparam = "p2"; nbits = 32; param = "p1";
    go("--seed=text", "--filter=high32", "--batparam=p2", "--param=p1", "--report-brief", "--testname=t", "--nthreads=16");
}
/* the last one counts */
void sc_twice_1(void) { nthreads = 200; GO2("--nthreads=100", "--nthreads=200"); } // reach=run,end
void sc_twice_2(void) { testname = "b"; GO2("--testname=a", "--testname=b"); } // reach=run,end
void sc_twice_3(void) { nbits = 64; GO2("--filter=low32", "--filter=reverse-bits"); } // reach=run,end
/* the options start after the generator; a generator may be called like an option */
static void two(char *a) { char *argv[] = {"smokerand", a, NULL}; v_getinfo = g_info; int rc = smokerand_main(2, argv); v_must(rc == BATTERY_FAILED || v_oom(), "wrong exit status"); v_reached("end"); }
BatteryExitCode v_default(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *o) { v_must(gi != NULL, "no generator"); return battery(gi, intf, o); }
void sc_gen_only(void) { two("gen"); } // reach=run,end opts: --partition --numbers --ret1=entfuncs_test --redirect=battery_default:v_default
/* ---- names of batteries */
static int which;
#define BAT(n, id) BatteryExitCode v_##n(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *o) { v_must(which == id, "another battery is run"); return battery(gi, intf, o); }
BAT(b_default, 1) BAT(b_brief, 2) BAT(b_full, 3) BAT(b_express, 4) BAT(b_ising, 5) BAT(b_usphere, 6)
#define SBAT(n, id) BatteryExitCode v_##n(const GeneratorInfo *gi, const CallerAPI *intf) { (void) intf; nruns++; v_must(gi->nbits == nbits, "another generator"); v_must(which == id, "another battery is run"); v_reached("run"); return BATTERY_FAILED; }
SBAT(b_selftest, 7) SBAT(b_speed, 8) SBAT(b_freq, 9) SBAT(b_birthday, 10)
// opts: --partition --numbers --ret1=entfuncs_test --redirect=battery_default:v_b_default --redirect=battery_brief:v_b_brief --redirect=battery_full:v_b_full --redirect=battery_express:v_b_express --redirect=battery_ising:v_b_ising --redirect=battery_unit_sphere_volume:v_b_usphere --redirect=battery_self_test:v_b_selftest --redirect=battery_speed:v_b_speed --redirect=battery_blockfreq:v_b_freq --redirect=battery_birthday:v_b_birthday
static void bat(char *name, int id)
{
    char *argv[] = {"smokerand", name, "gen", NULL};
    which = id; v_getinfo = g_info; nruns = 0;
    int rc = smokerand_main(3, argv);
    if (id) v_must(nruns == 1 && rc == BATTERY_FAILED, "the battery isn't run once or its result is lost");
    else v_must(nruns == 0 && rc != 0, "an unknown battery is a success");
    v_reached("end");
}
void sc_bat_default(void) { bat("default", 1); } // reach=run,end
void sc_bat_brief(void) { bat("brief", 2); } // reach=run,end
void sc_bat_full(void) { bat("full", 3); } // reach=run,end
void sc_bat_express(void) { bat("express", 4); } // reach=run,end
void sc_bat_ising(void) { bat("ising", 5); } // reach=run,end
void sc_bat_usphere(void) { bat("unitsphere", 6); } // reach=run,end
void sc_bat_selftest(void) { bat("selftest", 7); } // reach=run,end
void sc_bat_speed(void) { bat("speed", 8); } // reach=run,end
void sc_bat_freq(void) { bat("freq", 9); } // reach=run,end
void sc_bat_birthday(void) { bat("birthday", 10); } // reach=run,end
void sc_bat_unknown_1(void) { bat("defaul", 0); } // reach=end
void sc_bat_unknown_2(void) { bat("default2", 0); } // reach=end
void sc_bat_unknown_3(void) { bat("", 0); } // reach=end
void sc_bat_unknown_4(void) { bat("f=", 0); } // reach=end
void sc_bat_unknown_5(void) { bat("s=", 0); } // reach=end
void sc_bat_unknown_6(void) { bat("s", 0); } // reach=end
void sc_bat_unknown_7(void) { bat("f", 0); } // reach=end
void sc_bat_unknown_8(void) { bat("stdout3", 0); } // reach=end
/* ---- the length of the output */
static unsigned klen, len;
static void length(const GeneratorInfo *gi, const CallerAPI *intf, unsigned n, int id)
{
    (void) intf;
    nruns++;
    v_must(gi->nbits == nbits, "another generator");
    v_must(which == id, "another mode of output");
    if (klen) v_must_num(n, klen, 12, 63, "--maxlen_log2"); else v_must(n == len, "another length of the output");
    v_reached("run");
}
void v_out(GeneratorInfo *gi, const CallerAPI *intf, unsigned n) { length(gi, intf, n, 1); }
void v_outfl(GeneratorInfo *gi, const CallerAPI *intf, unsigned n) { length(gi, intf, n, 2); }
void v_outflx(GeneratorInfo *gi, const CallerAPI *intf, unsigned n) { length(gi, intf, n, 3); }
// opts: --partition --prov --numbers --paths=4096 --ret1=entfuncs_test --redirect=GeneratorInfo_bits_to_file:v_out --redirect=GeneratorInfo_floats_to_file:v_outfl --redirect=GeneratorInfo_accurate_floats_to_file:v_outflx
static void out(char *mode, int id, char *opt)
{
    char *argv[] = {"smokerand", mode, "gen", opt, NULL};
    which = id; v_getinfo = g_info; nruns = 0;
    int rc = smokerand_main(opt == NULL ? 3 : 4, argv);
    v_must(nruns == 1 ? rc == BATTERY_PASSED : klen && rc == BATTERY_ERROR, "wrong exit status");
    v_reached("end");
}
void sc_out_1(void) { klen = 16; out("stdout", 1, "--maxlen_log2=16"); } // reach=run,end
void sc_out_2(void) { klen = 16; out("stdoutfl", 2, "--maxlen_log2=16"); } // reach=run,end
void sc_out_3(void) { klen = 16; out("stdoutflx", 3, "--maxlen_log2=16"); } // reach=run,end
void sc_out_4(void) { len = 0; out("stdout", 1, NULL); } // reach=run,end
void sc_out_5(void) { len = 0; out("stdoutfl", 2, "--seed=a"); } // reach=run,end
void sc_out_6(void) { len = 0; out("stdoutflx", 3, "--report-brief"); } // reach=run,end
/* ---- refused: nothing is run */
static BatteryExitCode battery_no(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *o) { (void) gi; (void) intf; (void) o; v_must(0, "a wrong option is accepted"); return BATTERY_PASSED; }
// opts: --partition --numbers --ret1=entfuncs_test | --partition --numbers --mallocfail --ret1=entfuncs_test
static void bad2(char *a, char *b, char *c)
{
    char *argv[] = {"smokerand", "s=lib", "gen", a, b, c, NULL};
    v_getinfo = g_info; v_battery = battery_no;
    v_must(smokerand_main(c != NULL ? 6 : b != NULL ? 5 : 4, argv) == BATTERY_ERROR, "wrong exit status");
    v_reached("end");
}
static void bad(char *a) { bad2(a, NULL, NULL); bad2("--report-brief", a, NULL); bad2("--nthreads=001", a, "--testid=003"); }
#define X40 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
void sc_bad_1(void) { bad(""); } // reach=end
void sc_bad_2(void) { bad("-"); } // reach=end
void sc_bad_3(void) { bad("--"); } // reach=end
void sc_bad_4(void) { bad("="); } // reach=end
void sc_bad_5(void) { bad("-="); } // reach=end
void sc_bad_6(void) { bad("--="); } // reach=end
void sc_bad_7(void) { bad("--=x"); } // reach=end
void sc_bad_8(void) { bad("--nthreads"); } // reach=end
void sc_bad_9(void) { bad("nthreads=4"); } // reach=end
void sc_bad_10(void) { bad("-nthreads=4"); } // reach=end
void sc_bad_11(void) { bad("--nthread=004"); } // reach=end
void sc_bad_12(void) { bad("--nthreadss=004"); } // reach=end
void sc_bad_13(void) { bad("--nthreads=0"); } // reach=end
void sc_bad_14(void) { bad("--nthreads=-1"); } // reach=end
void sc_bad_15(void) { bad("--nthreads=256"); } // reach=end
void sc_bad_16(void) { bad("--nthreads="); } // reach=end
void sc_bad_17(void) { bad("--nthreads=x"); } // reach=end
void sc_bad_18(void) { bad("--testid=0"); } // reach=end
void sc_bad_19(void) { bad("--testid=-3"); } // reach=end
void sc_bad_20(void) { bad("--testid=abc"); } // reach=end
void sc_bad_21(void) { bad("--maxlen_log2=011"); } // reach=end
void sc_bad_22(void) { bad("--maxlen_log2=064"); } // reach=end
void sc_bad_23(void) { bad("--maxlen_log2=-12"); } // reach=end
void sc_bad_24(void) { bad("--filter=none"); } // reach=end
void sc_bad_25(void) { bad("--filter="); } // reach=end
void sc_bad_26(void) { bad("--filter=low3"); } // reach=end
void sc_bad_27(void) { bad("--filter=low322"); } // reach=end
void sc_bad_28(void) { bad("--report=brief"); } // reach=end
void sc_bad_29(void) { bad("--report-brief="); } // reach=end
void sc_bad_30(void) { bad("--Seed=1"); } // reach=end
void sc_bad_31(void) { bad("--" X40 "=1"); } // reach=end
void sc_bad_32(void) { bad("--" X40 X40 X40 X40 X40 "=" X40); } // reach=end
void sc_bad_33(void) { bad2("--testname=a", "--testid=003", NULL); bad2("--testid=003", "--seed=q", "--testname=a"); } // reach=end
void sc_bad_34(void) { bad("--threads=4"); } // reach=end
void sc_bad_35(void) { bad("--testnamexxxxxxxxxxxxxxxxxxxxxxx=a"); } // reach=end
void sc_bad_36(void) { bad("x--nthreads=004"); } // reach=end
void sc_bad_37(void) { bad("---nthreads=004"); } // reach=end
void sc_bad_38(void) { bad("--xxxxxxxxxxxxxxxxxxxxxxxxxxxxx=1"); } // reach=end
void sc_bad_39(void) { bad("--xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx=1"); } // reach=end
void sc_bad_40(void) { bad("--xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx=1"); } // reach=end
void sc_bad_41(void) { bad("--xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx=1"); } // reach=end
void sc_bad_42(void) { bad("--xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx=1"); } // reach=end
/* ---- an option of any characters: no access outside of the buffers, and it is either refused or one run follows */
static BatteryExitCode battery_any(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *o)
{
    (void) gi; (void) intf;
    nruns++;
    v_must(o->nthreads >= 1 && o->nthreads <= 255, "impossible number of threads");
    return BATTERY_FAILED;
}
uint32_t *v_base64(const char *in, size_t *n) { (void) in; *n = 0; if (v_either()) return NULL; *n = 8; return v_buf(32); }
static int g_info_any(GeneratorInfo *gi, const CallerAPI *intf) { anyparam = 1; return g_info(gi, intf); }
static void any(unsigned n)
{
    static char opt[200];
    char *argv[] = {"smokerand", "s=lib", "gen", opt, NULL};
    for (unsigned i = 0; i < n; i++) opt[i] = (char) v_u64(1, 255);
    opt[n] = '\0';
    v_getinfo = g_info_any; v_battery = battery_any; nruns = 0;
    int rc = smokerand_main(4, argv);
    v_must(rc == BATTERY_ERROR || rc == BATTERY_FAILED, "wrong exit status");
    v_reached("end");
}
// opts: --partition --paths=4096 --ret1=entfuncs_test --redirect=sr_base64_to_u32_bigendian:v_base64
void sc_any_1(void) { any(1); } // reach=end
void sc_any_2(void) { any(2); } // reach=end
void sc_any_3(void) { any(3); } // reach=end
void sc_any_4(void) { any(4); } // reach=end
void sc_any_20(void) { any(20); } // reach=end
void sc_any_33(void) { any(33); } // reach=end
void sc_any_34(void) { any(34); } // reach=end
void sc_any_60(void) { any(60); } // reach=end
