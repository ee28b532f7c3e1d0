/* Seeds: reproducibility from the command line, the printed seed, fresh entropy. */
#include "v.h"
// opts: --partition --prov --paths=4096 --ret1=entfuncs_test | --partition --prov --mallocfail --paths=4096 --ret1=entfuncs_test
static uint32_t key[8];
static void mk_key(void)
{
    for (unsigned i = 0; i < 4; i++) {
        uint64_t w = v_label64(1000 + 64 * i);
        key[2*i] = (uint32_t) w; key[2*i + 1] = (uint32_t) (w >> 32);
    }
}
static void is_key(const uint32_t *k, const char *msg)
{
    for (unsigned i = 0; i < 8; i++) v_must_bits(k[i], 0, 32, 1000 + 32 * i, 1, msg);
}
/* text -> key -> seeds -> text -> key */
void sc_roundtrip(void) // reach=end
{
    Entropy e, f;
    mk_key();
    char *txt = sr_u32_bigendian_to_base64(key, 8);
    if (txt == NULL) { v_must(v_oom(), "no text"); return; }
    if (!Entropy_init_from_base64_seed(&e, txt)) { v_must(v_oom(), "a valid seed is refused"); return; }
    is_key(Entropy_get_key(&e), "the key isn't the one that the text encodes");
    for (unsigned i = 0; i < 40; i++) (void) Entropy_seed64(&e, i);
    is_key(Entropy_get_key(&e), "the key is changed when seeds are produced");
    char *txt2 = Entropy_get_base64_key(&e);
    if (txt2 == NULL) { v_must(v_oom(), "no text of the key"); return; }
    v_must(strlen(txt2) == strlen(txt), "the text has a different length");
    if (!Entropy_init_from_base64_seed(&f, txt2)) { v_must(v_oom(), "the printed seed is refused"); return; }
    is_key(Entropy_get_key(&f), "the printed seed encodes another key");
    v_reached("end");
}
/* ---- whole program */
static char state[8];
static void *g_create(const GeneratorInfo *gi, const CallerAPI *intf) { (void) gi; (void) intf; return state; }
static void g_free(void *st, const GeneratorInfo *gi, const CallerAPI *intf) { (void) st; (void) gi; (void) intf; }
static uint64_t g_bits(void *st) { (void) st; return v_gen64(0, 0xFFFFFFFFu); }
static int g_info(GeneratorInfo *gi, const CallerAPI *intf)
{
    (void) intf;
    gi->name = "name"; gi->description = NULL; gi->nbits = 32;
    gi->create = g_create; gi->free = g_free; gi->get_bits = g_bits;
    gi->self_test = NULL; gi->get_sum = NULL; gi->parent = NULL;
    return 1;
}
static unsigned nthr = 1;
static uint64_t forbid, need;
static int nokey;
static TestResults t_run(GeneratorState *obj, const void *udata)
{
    TestResults r = TestResults_create("synthetic");
    for (unsigned i = 0; i < 12; i++) {
        uint64_t s = obj->intf->get_seed64();
        v_must_taint(s, forbid, need, "seeds must depend on the given seed (without one: on entropy of the system) and on nothing else");
        v_must_taint(obj->intf->get_seed32(), forbid, need, "32-bit seeds must depend on the given seed (without one: on entropy of the system) and on nothing else");
    }
    r.p = 0.5; r.alpha = 0.5; r.x = 0.0;
    (void) udata;
    return r;
}
static const TestDescription tests1[] = {{"test0", t_run, NULL}, {NULL, NULL, NULL}};
static const TestsBattery bat1 = {.name = "bat", .tests = tests1};
void v_on_str(const char *s)
{
    Entropy f;
    if (nokey) return;
    v_must(strlen(s) == 43 || strlen(s) == 44, "the text of the seed has a wrong length");
    if (!Entropy_init_from_base64_seed(&f, s)) { v_must(v_oom(), "the printed seed is refused"); return; }
    is_key(Entropy_get_key(&f), "the printed seed doesn't encode the key of this run");
}
static BatteryExitCode battery1(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *opts)
{
    v_must(opts->nthreads == nthr, "the number of threads differs from the one in the seed or in the options");
    BatteryOptions one = *opts;
    v_expect("Used seed", nthr);
    v_expect_str("Used seed");
    one.test.id = 1;
    BatteryExitCode code = TestsBattery_run(&bat1, gi, intf, &one);
    v_must(code == BATTERY_PASSED || v_oom(), "wrong result");
    v_reached("run");
    return code;
}
static void put(char *to, const char *a, const char *b)
{
    while (*a) *to++ = *a++;
    while (*b) *to++ = *b++;
    *to = 0;
}
static void go(char *opt, char *opt2)
{
    char *argv[] = {"smokerand", "s=lib", "gen", opt, opt2, NULL};
    v_getinfo = g_info; v_battery = battery1;
    int rc = smokerand_main(opt == NULL ? 3 : opt2 == NULL ? 4 : 5, argv);
    v_must(rc == BATTERY_PASSED || v_oom(), "wrong exit status");
    v_reached("end");
}
static char buf[300];
static void key_seed(const char *prefix, char *opt2)
{
    mk_key();
    char *txt = sr_u32_bigendian_to_base64(key, 8);
    if (txt == NULL) return;
    put(buf, prefix, txt);
    need = GEN; forbid = HW | ADDR | EXT | RAM;
    go(buf, opt2);
}
void sc_key_01(void) { nthr = 1; key_seed("--seed=_01_", NULL); } // reach=run,end
void sc_key_05(void) { nthr = 5; key_seed("--seed=_05_", NULL); } // reach=run,end
void sc_key_FF(void) { nthr = 255; key_seed("--seed=_FF_", NULL); } // reach=run,end
void sc_key_0a(void) { nthr = 10; key_seed("--seed=_0a_", NULL); } // reach=run,end
/* the seed decides about the number of threads, wherever it is given */
void sc_key_nthreads(void) { nthr = 9; key_seed("--seed=_09_", "--nthreads=3"); } // reach=run,end
void sc_key_brief(void) { nthr = 2; key_seed("--seed=_02_", "--report-brief"); } // reach=run,end
/* texts: every character matters, wherever it stands; nothing else does */
static void text(unsigned n, unsigned at)
{
    char *p = buf;
    const char *a = "--seed=";
    while (*a) *p++ = *a++;
    for (unsigned i = 0; i < n; i++) {
        uint64_t c = i == 0 ? (n % 2 ? v_u64(0x60, 127) : v_u64(128, 255)) : v_u64(1, 255); /* not an underscore */
        *p++ = (char) v_addtaint(c, i == at ? USER2 : USER);
    }
    *p = 0;
    need = USER2; forbid = HW | ADDR | EXT | RAM;
    nokey = 1;
    go(buf, NULL);
}
void sc_text_1(void) { text(1, 0); } // reach=run,end
void sc_text_5(void) { text(5, 4); } // reach=run,end
void sc_text_6_0(void) { text(6, 0); } // reach=run,end
void sc_text_6_5(void) { text(6, 5); } // reach=run,end
void sc_text_63(void) { text(63, 62); } // reach=run,end
void sc_text_64_0(void) { text(64, 0); } // reach=run,end
void sc_text_64(void) { text(64, 63); } // reach=run,end
void sc_text_65(void) { text(65, 64); } // reach=run,end
void sc_text_65_0(void) { text(65, 0); } // reach=run,end
void sc_text_128(void) { text(128, 127); } // reach=run,end
void sc_text_200_0(void) { text(200, 0); } // reach=run,end
void sc_text_200(void) { text(200, 199); } // reach=run,end
void sc_text_200_100(void) { text(200, 100); } // reach=run,end
void sc_text_empty(void) { need = 0; forbid = HW | ADDR | EXT | RAM; nokey = 1; go("--seed=", NULL); } // reach=run,end
void sc_text_us(void) { need = 0; forbid = HW | ADDR | EXT | RAM; nokey = 1; go("--seed=_01_", NULL); } // reach=run,end
void sc_text_nthreads(void) { nthr = 7; need = 0; forbid = HW | ADDR | EXT | RAM; nokey = 1; go("--seed=abc", "--nthreads=7"); } // reach=run,end
/* no seed: entropy of the system */
void sc_fresh(void) { need = HW; forbid = 0; nokey = 1; go(NULL, NULL); } // reach=run,end
/* malformed seeds are refused, the battery isn't run */
static BatteryExitCode battery_no(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *opts)
{
    (void) gi; (void) intf; (void) opts;
    v_must(0, "a malformed seed is accepted");
    return BATTERY_PASSED;
}
static void bad(char *opt)
{
    char *argv[] = {"smokerand", "s=lib", "gen", opt, NULL};
    v_getinfo = g_info; v_battery = battery_no;
    v_must(smokerand_main(4, argv) == BATTERY_ERROR, "wrong exit status");
    v_reached("end");
}
#define A40 "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"
void sc_bad_1(void) { bad("--seed=_0G_" A40 "AAA="); } // reach=end
void sc_bad_2(void) { bad("--seed=_G0_" A40 "AAA="); } // reach=end
void sc_bad_3(void) { bad("--seed=_01x" A40 "AAA="); } // reach=end
void sc_bad_4(void) { bad("--seed=_01_" A40); } // reach=end
void sc_bad_5(void) { bad("--seed=_01_" A40 "AA"); } // reach=end
void sc_bad_6(void) { bad("--seed=_01_" A40 "AAAA"); } // reach=end
void sc_bad_7(void) { bad("--seed=_01_" A40 "AAB="); } // reach=end
void sc_bad_8(void) { bad("--seed=_01_" A40 A40 "AAAAAA"); } // reach=end
void sc_bad_9(void) { bad("--seed=_01_AA"); } // reach=end
void sc_bad_10(void) { bad("--seed=_-1_" A40 "AAA="); } // reach=end
