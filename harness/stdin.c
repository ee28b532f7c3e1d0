/* The stdin generators: numbers are the bytes of the stream, in order, each used once. */
#include "v.h"
// opts: --partition --prov --forkrem=4 --ret1=entfuncs_test | --partition --prov --mallocfail --forkrem=4 --ret1=entfuncs_test
static unsigned v_pos, v_width, v_short;
extern char v_stdin_obj[];
static int at_eof;
/* word k of 64 bits of the stream carries the labels 1000 + 64 k ... */
static size_t supply(void *p, size_t n, FILE *f)
{
    v_must((void *) f == (void *) v_stdin_obj, "the generator reads something else than the standard input");
    v_must(n > 0 && n % 8 == 0, "a block of the input isn't a whole number of words");
    v_must(!at_eof, "the generator goes on after the end of the input");
    if (v_short && v_pos + n > 8 * v_short) { /* the stream ends inside of this block */
        size_t rest = 8 * v_short - v_pos;
        at_eof = 1;
        for (size_t i = 0; i + v_pos < 8 * v_short; i += 8) ((uint64_t *) p)[i / 8] = v_label64(1000 + 8 * (v_pos + i));
        v_pos = 8 * v_short;
        v_reached("eof");
        return rest;
    }
    for (size_t i = 0; i < n; i += 8) ((uint64_t *) p)[i / 8] = v_label64(1000 + 8 * (v_pos + i));
    v_pos += n;
    return n;
}
static unsigned nwords;
static BatteryExitCode words(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *opts)
{
    v_must(gi->nbits == v_width, "wrong width");
    void *st = gi->create(gi, intf);
    if (st == NULL) { v_must(v_oom(), "no generator"); return BATTERY_ERROR; }
    for (unsigned i = 0; i < nwords; i++) {
        uint64_t x = gi->get_bits(st);
        v_must_bits(x, 0, v_width, 1000 + v_width * i, 1, "a number isn't the next group of bytes of the input");
        if (v_width == 32) v_must_bits(x, 32, -32, 0, 0, "a 32-bit generator returns more than 32 bits");
        v_must(!at_eof, "a number is returned although the input has ended");
    }
    gi->free(st, gi, intf);
    v_must_noleak("generator");
    v_reached("battery");
    if (!v_oom()) v_expect("Bytes processed", v_pos);
    (void) opts;
    return BATTERY_PASSED;
}
static void run(char *gen, unsigned width, unsigned n)
{
    char *argv[] = {"smokerand", "s=lib", gen, NULL};
    v_width = width; nwords = n;
    v_on_fread = supply;
    v_battery = words;
    int code = smokerand_main(3, argv);
    v_must(code == 0 || v_oom(), "wrong exit status");
    v_reached("end");
}
void sc_32(void) { run("stdin32", 32, 600); } // reach=battery,end
void sc_64(void) { run("stdin64", 64, 300); } // reach=battery,end
void sc_32_exact(void) { run("stdin32", 32, 256); } // reach=battery,end
void sc_64_exact(void) { run("stdin64", 64, 128); } // reach=battery,end
/* the input ends: never a result, always a failure (v_exit_is_error makes exit(0) a violation) */
static void eof(char *gen, unsigned width, unsigned len)
{
    char *argv[] = {"smokerand", "s=lib", gen, NULL};
    v_width = width; nwords = 1000; v_short = len;
    v_on_fread = supply;
    v_battery = words;
    v_must(smokerand_main(3, argv) != 0, "the program succeeds although the input has ended");
}
void sc_short32(void) { eof("stdin32", 32, 1); } // reach=eof
void sc_short64(void) { eof("stdin64", 64, 1); } // reach=eof
void sc_eof32(void) { eof("stdin32", 32, 130); } // reach=eof
void sc_eof64(void) { eof("stdin64", 64, 200); } // reach=eof
void sc_eof32_block(void) { eof("stdin32", 32, 256); } // reach=eof
void sc_eof64_block(void) { eof("stdin64", 64, 128); } // reach=eof
void sc_threads(void) // reach=end
{
    char *argv[] = {"smokerand", "s=lib", "stdin32", "--nthreads=2", NULL};
    v_on_fread = supply; v_battery = words;
    v_must(smokerand_main(4, argv) == BATTERY_ERROR, "one stream can't be shared by threads");
    v_reached("end");
}
/* ---- filters over stdin generators */
static unsigned filt;
static BatteryExitCode filtered(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *opts)
{
    void *st = gi->create(gi, intf);
    if (st == NULL) { v_must(v_oom(), "no generator"); return BATTERY_ERROR; }
    for (unsigned i = 0; i < 300; i++) {
        uint64_t x = gi->get_bits(st);
        switch (filt) {
        case 0: v_must(gi->nbits == 64, "wrong width"); v_must_bits(x, 0, 64, 1000 + 64 * i + 63, -1, "reverse-bits: wrong order of bits"); break;
        case 1: v_must(gi->nbits == 32, "wrong width"); v_must_bits(x, 0, 32, 1000 + 64 * i + 32, 1, "high32: wrong bits"); break;
        case 2: v_must(gi->nbits == 32, "wrong width"); v_must_bits(x, 0, 32, 1000 + 64 * i, 1, "low32: wrong bits"); break;
        case 3: v_must(gi->nbits == 32, "wrong width"); v_must_bits(x, 0, 32, 1000 + 32 * i + 31, -1, "reverse-bits: wrong order of bits"); break;
        }
    }
    gi->free(st, gi, intf);
    v_must_noleak("generator");
    (void) opts;
    v_reached("battery");
    return BATTERY_PASSED;
}
static void runf(char *gen, char *filter, unsigned k, int ok)
{
    char *argv[] = {"smokerand", "s=lib", gen, filter, NULL};
    filt = k;
    v_on_fread = supply;
    v_battery = filtered;
    int code = smokerand_main(4, argv);
    v_must(code == (ok ? 0 : BATTERY_ERROR) || v_oom(), "wrong exit status");
    v_reached("end");
}
void sc_reverse64(void) { runf("stdin64", "--filter=reverse-bits", 0, 1); } // reach=battery,end
void sc_high(void) { runf("stdin64", "--filter=high32", 1, 1); } // reach=battery,end
void sc_low(void) { runf("stdin64", "--filter=low32", 2, 1); } // reach=battery,end
void sc_reverse32(void) { runf("stdin32", "--filter=reverse-bits", 3, 1); } // reach=battery,end
void sc_refuse(void) { runf("stdin32", "--filter=high32", 1, 0); } // reach=end
