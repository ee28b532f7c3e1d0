/* The stdout modes: only the output of the generator, in order, in the requested amount. */
#include "v.h"
// opts: --partition --prov --forkrem=4 --ret1=entfuncs_test --trip=100000 --loop=4000000 | --partition --prov --mallocfail --forkrem=4 --ret1=entfuncs_test --trip=100000 --loop=4000000
static unsigned v_width, v_words, v_written, v_floats, v_calls, filt;
static int v_fail_at = -1;
static char state[8];
static int nalive;
static void *g_create(const GeneratorInfo *gi, const CallerAPI *intf) { (void) gi; intf->printf("a message of the generator\n"); nalive++; return state; }
static void g_free(void *st, const GeneratorInfo *gi, const CallerAPI *intf) { (void) st; (void) gi; (void) intf; nalive--; }
static uint64_t g_bits(void *st)
{
    v_must(st == state, "wrong state");
    uint64_t x = v_label64(1000 + v_width * (v_calls & 511));
    v_calls++;
    return v_width == 64 ? x : (x & 0xFFFFFFFFu);
}
static int g_info(GeneratorInfo *gi, const CallerAPI *intf)
{
    intf->printf("a message\n");
    gi->name = "name"; gi->description = "descr"; gi->nbits = v_width;
    gi->create = g_create; gi->free = g_free; gi->get_bits = g_bits;
    gi->self_test = NULL; gi->get_sum = NULL; gi->parent = NULL;
    return 1;
}
/* called at every fwrite() to stdout */
size_t v_on_fwrite(void *p, size_t size, size_t n)
{
    size_t nb = size * n;
    v_must(v_fail_at < 0 || (int) v_written < v_fail_at, "the output goes on after an error");
    if (v_fail_at >= 0 && (int) (v_written + nb) >= v_fail_at) { v_reached("failed"); v_written += nb; return 0; }
    unsigned ow = (filt >= 2) ? 32 : v_width; /* width of the words of the stream */
    v_must(nb > 0 && nb % (ow / 8) == 0, "not a whole number of words");
    for (size_t i = 0; i < nb; i += ow / 8) {
        unsigned k = ((v_written + (unsigned) i) / (ow / 8)) & 511;
        uint64_t x = ow == 64 ? *(uint64_t *) ((char *) p + i) : *(uint32_t *) ((char *) p + i);
        switch (filt) {
        case 0: v_must_bits(x, 0, ow, 1000 + v_width * k, 1, "the output isn't the sequence of the generator"); break;
        case 1: v_must_bits(x, 0, ow, 1000 + v_width * k + v_width - 1, -1, "the output isn't the filtered sequence"); break;
        case 2: v_must_bits(x, 0, ow, 1000 + v_width * k + 32, 1, "the output isn't the filtered sequence"); break;
        }
    }
    v_written += nb;
    return n;
}
static void bits(unsigned width, char *opt, unsigned nbytes, unsigned f)
{
    char *argv[] = {"smokerand", "stdout", "gen", opt, f == 1 ? "--filter=reverse-bits" : "--filter=high32", NULL};
    v_width = width; filt = f;
    v_getinfo = g_info;
    v_data_on_stdout = 1;
    int code = smokerand_main(f ? 5 : 4, argv);
    if (code != 0) { v_must(v_oom(), "a successful run must have exit status 0"); return; }
    v_must(v_written == nbytes, "wrong amount of output");
    v_must(nalive == 0, "the generator must be destroyed");
    v_reached("end");
}
void sc_32_4k(void) { bits(32, "--maxlen_log2=12", 4096, 0); } // reach=end
void sc_64_4k(void) { bits(64, "--maxlen_log2=12", 4096, 0); } // reach=end
void sc_32_32k(void) { bits(32, "--maxlen_log2=15", 32768, 0); } // reach=end
void sc_64_16k(void) { bits(64, "--maxlen_log2=14", 16384, 0); } // reach=end
void sc_rev32(void) { bits(32, "--maxlen_log2=12", 4096, 1); } // reach=end
void sc_rev64(void) { bits(64, "--maxlen_log2=12", 4096, 1); } // reach=end
void sc_high(void) { bits(64, "--maxlen_log2=12", 4096, 2); } // reach=end
void sc_err32(void) { v_fail_at = 2048; bits(32, "--maxlen_log2=12", 4096, 0); v_must(0, "an output error must end the program"); } // reach=failed
void sc_err64(void) { v_fail_at = 3000; bits(64, "--maxlen_log2=12", 4096, 0); v_must(0, "an output error must end the program"); } // reach=failed
void v_on_float(double x)
{
    v_must(x >= 0.0 && x <= 1.0, "a number outside of [0;1]");
    v_floats++;
}
static void floats(char *mode, unsigned width, char *opt, unsigned n, unsigned per)
{
    char *argv[] = {"smokerand", mode, "gen", opt, NULL};
    v_width = width;
    v_getinfo = g_info;
    v_data_on_stdout = 1;
    int code = smokerand_main(4, argv);
    if (code != 0) { v_must(v_oom(), "a successful run must have exit status 0"); return; }
    v_must(v_floats == n, "wrong amount of output");
    if (per) v_must(v_calls == n * per, "one output of the generator must give one number");
    v_must(nalive == 0, "the generator must be destroyed");
    v_reached("end");
}
void sc_fl32(void) { floats("stdoutfl", 32, "--maxlen_log2=12", 4096, 1); } // reach=end
void sc_fl64(void) { floats("stdoutfl", 64, "--maxlen_log2=12", 4096, 1); } // reach=end
void sc_flx32(void) { floats("stdoutflx", 32, "--maxlen_log2=12", 4096, 0); } // reach=end
void sc_flx64(void) { floats("stdoutflx", 64, "--maxlen_log2=12", 4096, 0); } // reach=end
