/* Filters: end to end, from the command line to the numbers that a battery gets. */
#include "v.h"
// opts: --partition --prov --ret1=entfuncs_test | --partition --prov --ret1=entfuncs_test --mallocfail
static unsigned ncalls, nbits, nalive;
static char state[8];
static void *g_create(const GeneratorInfo *gi, const CallerAPI *intf) { (void) gi; (void) intf; nalive++; return state; }
static void g_free(void *st, const GeneratorInfo *gi, const CallerAPI *intf) { (void) gi; (void) intf; v_must(st == state, "the state given to the free callback of the generator isn't its state"); nalive--; }
static uint64_t g_get_bits(void *st)
{
    v_must(st == state, "the state given to the generator isn't its state");
    uint64_t x = v_label64(1000 + 64 * ncalls);
    ncalls++;
    if (nbits == 32) return x & 0xFFFFFFFFu;
    return x;
}
static int getinfo(GeneratorInfo *gi, const CallerAPI *intf)
{
    (void) intf;
    gi->name = "name"; gi->description = "descr"; gi->nbits = nbits;
    gi->create = g_create; gi->free = g_free; gi->get_bits = g_get_bits;
    gi->self_test = NULL; gi->get_sum = NULL; gi->parent = NULL;
    return 1;
}
static int filter;
static BatteryExitCode battery(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *opts)
{
    (void) opts;
    unsigned want = (filter == 0 || filter == 1) ? nbits : 32;
    v_must(gi->nbits == want, "the filtered generator declares a wrong number of bits");
    void *st = gi->create(gi, intf);
    if (st == NULL) return BATTERY_ERROR;
    v_must(nalive == 1, "creation of the filtered generator must create the original one once");
    ncalls = 0;
    for (unsigned k = 0; k < 6; k++) {
        uint64_t x = gi->get_bits(st);
        unsigned n = (filter == 2) ? k / 2 + 1 : k + 1;
        v_must(ncalls == n, "the filter skips or repeats numbers of the generator");
        unsigned b = 1000 + 64 * (n - 1);
        switch (filter) {
        case 0: v_must_bits(x, 0, nbits, b, 1, "without a filter, the output must not be changed"); break;
        case 1: v_must_bits(x, 0, nbits, b + nbits - 1, -1, "reverse-bits: not the bits of the generator in the reverse order"); break;
        case 2: v_must_bits(x, 0, 32, b + (k % 2) * 32, 1, "interleaved32: not the lower, then the higher half of each number"); break;
        case 3: v_must_bits(x, 0, 32, b + 32, 1, "high32: not the higher 32 bits"); break;
        case 4: v_must_bits(x, 0, 32, b, 1, "low32: not the lower 32 bits"); break;
        }
        if (want == 32) v_must((x >> 32) == 0, "a 32-bit filtered generator returns more than 32 bits");
    }
    gi->free(st, gi, intf);
    v_must(nalive == 0, "the free callback of the filtered generator must free the original one once");
    v_reached("battery");
    return BATTERY_PASSED;
}
static void run(const char *arg, int f, unsigned nb)
{
    char *argv[] = {"smokerand", "s=lib", "gen", (char *) arg, NULL};
    filter = f; nbits = nb;
    v_getinfo = getinfo; v_battery = battery;
    v_must(smokerand_main(4, argv) == 0 || 1, "");
    v_reached("end");
}
static BatteryExitCode refused(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *opts)
{
    (void) gi; (void) intf; (void) opts;
    v_unreachable("a battery is run with a filter that isn't applicable to 32-bit generators");
    return BATTERY_PASSED;
}
static void refuse(const char *arg, unsigned nb)
{
    char *argv[] = {"smokerand", "s=lib", "gen", (char *) arg, NULL};
    nbits = nb;
    v_getinfo = getinfo; v_battery = refused;
    v_must(smokerand_main(4, argv) != 0, "the exit status of a refused filter is that of success");
    v_reached("end");
}
void sc_none64(void) { run("--report-brief", 0, 64); } // reach=battery,end
void sc_none32(void) { run("--report-brief", 0, 32); } // reach=battery,end
void sc_reverse64(void) { run("--filter=reverse-bits", 1, 64); } // reach=battery,end
void sc_reverse32(void) { run("--filter=reverse-bits", 1, 32); } // reach=battery,end
void sc_interleaved(void) { run("--filter=interleaved32", 2, 64); } // reach=battery,end
void sc_high(void) { run("--filter=high32", 3, 64); } // reach=battery,end
void sc_low(void) { run("--filter=low32", 4, 64); } // reach=battery,end
void sc_refuse_interleaved(void) { refuse("--filter=interleaved32", 32); } // reach=end
void sc_refuse_high(void) { refuse("--filter=high32", 32); } // reach=end
void sc_refuse_low(void) { refuse("--filter=low32", 32); } // reach=end
void sc_refuse_unknown(void) { refuse("--filter=unknown", 64); } // reach=end
