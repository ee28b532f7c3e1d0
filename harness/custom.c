/* Custom batteries: the text file is the battery. The text "k" of one or two digits
   stands for any number (its bits are labelled 64 k, 64 k + 1, ...). */
#include "v.h"
#include "smokerand/bat_file.h"
#include "smokerand/coretests.h"
#include "smokerand/lineardep.h"
#include "smokerand/hwtests.h"
#include "smokerand/extratests.h"
// opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run | --partition --prov --numbers --paths=4096 --mallocfail --redirect=TestsBattery_run:v_battery_run
/* ---- the file */
static char fobj[216];
static const char *text;
static size_t pos, len;
static int nopen, nruns, numbers;
FILE *fopen(const char *name, const char *mode)
{
    (void) mode;
    v_must(!strcmp(name, "file"), "another file is opened");
    if (text == NULL) return NULL;
    pos = 0; len = strlen(text); nopen++;
    return (FILE *) fobj;
}
int fclose(FILE *f) { if (f == (FILE *) fobj) nopen--; return 0; }
int fgetc(FILE *f) { (void) f; return pos < len ? (unsigned char) text[pos++] : EOF; }
int getc(FILE *f) { return fgetc(f); }
int feof(FILE *f) { (void) f; return pos >= len; }
char *fgets(char *s, int n, FILE *f)
{
    int i = 0;
    (void) f;
    if (pos >= len) return NULL;
    while (i < n - 1 && pos < len) { s[i++] = text[pos++]; if (s[i - 1] == '\n') break; }
    s[i] = '\0';
    return s;
}
static size_t on_fread(void *p, size_t n, FILE *f)
{
    size_t i = 0;
    (void) f;
    while (i < n && pos < len) ((char *) p)[i++] = text[pos++];
    return i;
}
/* ---- the battery that it gives */
static void (*check)(const TestsBattery *b);
static BatteryExitCode result;
static GeneratorInfo *gen, gen_obj;
static const CallerAPI *api;
static const BatteryOptions *options;
BatteryExitCode v_battery_run(const TestsBattery *b, const GeneratorInfo *g, const CallerAPI *intf, const BatteryOptions *o)
{
    nruns++;
    v_must(g == gen && intf == api && o == options, "the battery is given another generator, interface or options");
    check(b);
    v_reached("run");
    return result;
}
static void go(const char *t, BatteryExitCode res)
{
    static CallerAPI a;
    static BatteryOptions o;
    text = t; gen = &gen_obj; api = &a; options = &o; result = res; nruns = 0; nopen = 0;
    v_on_fread = on_fread;
    BatteryExitCode rc = battery_file("file", gen, api, options);
    if (nruns || !(v_oom() || numbers)) { /* some of the numbers are refused */
        v_must(nruns == 1, "the battery isn't run once");
        v_must(rc == res, "the result of the battery is lost");
    } else v_must(rc == BATTERY_ERROR, "no error for numbers out of range or without memory");
    v_must(nopen == 0, "the file isn't closed");
    v_must_noleak("memory of the battery isn't freed");
    v_reached("end");
}
static void no(const TestsBattery *b) { (void) b; v_must(0, "a malformed battery is run"); }
static void refused(const char *t)
{
    static CallerAPI a;
    static BatteryOptions o;
    text = t; gen = &gen_obj; api = &a; options = &o; nruns = 0; nopen = 0; check = no;
    v_on_fread = on_fread;
    BatteryExitCode rc = battery_file("file", gen, api, options);
    v_must(rc == BATTERY_ERROR, "no error for a malformed battery");
    v_must(nruns == 0, "a malformed battery is run");
    v_must(nopen == 0, "the file isn't closed");
    v_must_noleak("memory of the refused battery isn't freed");
    v_reached("end");
}
static void is(const TestsBattery *b, unsigned i, const char *name, TestResults (*run)(GeneratorState *, const void *))
{
    v_must(b->tests[i].name != NULL && !strcmp(b->tests[i].name, name), "wrong name of the test");
    v_must(b->tests[i].run == run, "wrong kind of test");
    v_must(b->tests[i].udata != NULL, "no settings of the test");
}
static void one(const TestsBattery *b, TestResults (*run)(GeneratorState *, const void *))
{
    v_must(!strcmp(b->name, "My"), "wrong name of the battery");
    is(b, 0, "t1", run);
    v_must(b->tests[1].run == NULL && b->tests[1].name == NULL, "the battery has one test");
}
#define HEAD "battery name=My end\n"
#define OK(f, txt) { check = f; numbers = 1; go(HEAD txt, BATTERY_FAILED); }
/* ---- every number of the file arrives in its field, the limits are those of the test */
static void c_bspace(const TestsBattery *b)
{
    one(b, bspace_nd_test_wrap);
    const BSpaceNDOptions *o = b->tests[0].udata;
    v_must_num(o->nbits_per_dim, 16, 1, 64, "bspace_nd/nbits_per_dim");
    v_must_num(o->ndims, 17, 1, 64, "bspace_nd/ndims");
    v_must_num(o->nsamples, 18, 1, 1 << 30, "bspace_nd/nsamples");
    v_must_num(o->get_lower, 19, 0, 1, "bspace_nd/get_lower");
}
void sc_bspace(void) OK(c_bspace, "t1 test=bspace_nd nbits_per_dim=16 ndims=17 nsamples=18 get_lower=19 end") // reach=run,end
void sc_bspace_order(void) OK(c_bspace, "t1 get_lower=19 nsamples=18 ndims=17 nbits_per_dim=16 test=bspace_nd end") // reach=run,end
static void c_collover(const TestsBattery *b)
{
    one(b, collisionover_test_wrap);
    const CollOverNDOptions *o = b->tests[0].udata;
    v_must_num(o->nbits_per_dim, 16, 1, 63, "collisionover/nbits_per_dim");
    v_must_num(o->ndims, 17, 1, 63, "collisionover/ndims");
    v_must_num(o->nsamples, 18, 1, 1 << 30, "collisionover/nsamples");
    v_must_num(o->get_lower, 19, 0, 1, "collisionover/get_lower");
    v_must_num(o->n, 20, 1000, 1 << 30, "collisionover/n");
}
void sc_collover(void) OK(c_collover, "t1 test=collisionover nbits_per_dim=16 ndims=17 nsamples=18 get_lower=19 n=20 end") // reach=run,end
static void c_gap(const TestsBattery *b)
{
    one(b, gap_test_wrap);
    const GapOptions *o = b->tests[0].udata;
    v_must_num(o->shl, 16, 1, 31, "gap/shl");
    v_must_num(o->ngaps, 17, 10000, 1ll << 40, "gap/ngaps");
}
void sc_gap(void) OK(c_gap, "t1 test=gap shl=16 ngaps=17 end") // reach=run,end
static void c_gap16(const TestsBattery *b)
{
    one(b, gap16_count0_test_wrap);
    v_must_num(((const Gap16Count0Options *) b->tests[0].udata)->ngaps, 16, 10000, 1ll << 40, "gap16_count0/ngaps");
}
void sc_gap16(void) OK(c_gap16, "t1 test=gap16_count0 ngaps=16 end") // reach=run,end
static void c_hdistr(const TestsBattery *b)
{
    one(b, hamming_distr_test_wrap);
    const HammingDistrOptions *o = b->tests[0].udata;
    v_must_num(o->nvalues, 16, 65536, 1ll << 50, "hamming_distr/nvalues");
    v_must_num(o->nlevels, 17, 1, 20, "hamming_distr/nlevels");
}
void sc_hamming_distr(void) OK(c_hdistr, "t1 test=hamming_distr nvalues=16 nlevels=17 end") // reach=run,end
static int code;
static void c_hot(const TestsBattery *b)
{
    one(b, hamming_ot_test_wrap);
    const HammingOtOptions *o = b->tests[0].udata;
    v_must_num(o->nbytes, 16, 65536, 1ll << 50, "hamming_ot/nbytes");
    v_must((int) o->mode == code, "hamming_ot/mode");
}
void sc_hamming_ot_values(void) { code = HAMMING_OT_VALUES; OK(c_hot, "t1 test=hamming_ot nbytes=16 mode=values end") } // reach=run,end
void sc_hamming_ot_bytes(void) { code = HAMMING_OT_BYTES; OK(c_hot, "t1 test=hamming_ot nbytes=16 mode=bytes end") } // reach=run,end
void sc_hamming_ot_low8(void) { code = HAMMING_OT_BYTES_LOW8; OK(c_hot, "t1 test=hamming_ot nbytes=16 mode=bytes_low8 end") } // reach=run,end
void sc_hamming_ot_low1(void) { code = HAMMING_OT_BYTES_LOW1; OK(c_hot, "t1 test=hamming_ot nbytes=16 mode=bytes_low1 end") } // reach=run,end
static void c_hotl(const TestsBattery *b)
{
    one(b, hamming_ot_long_test_wrap);
    const HammingOtLongOptions *o = b->tests[0].udata;
    v_must_num(o->nvalues, 16, 65536, 1ll << 50, "hamming_ot_long/nvalues");
    v_must((int) o->wordsize == code, "hamming_ot_long/wordsize");
}
void sc_hamming_otl_128(void) { code = HAMMING_OT_W128; OK(c_hotl, "t1 test=hamming_ot_long nvalues=16 wordsize=w128 end") } // reach=run,end
void sc_hamming_otl_256(void) { code = HAMMING_OT_W256; OK(c_hotl, "t1 test=hamming_ot_long nvalues=16 wordsize=w256 end") } // reach=run,end
void sc_hamming_otl_512(void) { code = HAMMING_OT_W512; OK(c_hotl, "t1 test=hamming_ot_long nvalues=16 wordsize=w512 end") } // reach=run,end
void sc_hamming_otl_1024(void) { code = HAMMING_OT_W1024; OK(c_hotl, "t1 test=hamming_ot_long nvalues=16 wordsize=w1024 end") } // reach=run,end
static void c_lc(const TestsBattery *b)
{
    one(b, linearcomp_test_wrap);
    const LinearCompOptions *o = b->tests[0].udata;
    v_must_num(o->nbits, 16, 8, 1 << 30, "linearcomp/nbits");
    if (code == -100) v_must_num(o->bitpos, 17, 0, 63, "linearcomp/bitpos");
    else v_must(o->bitpos == code, "linearcomp/bitpos");
}
void sc_linearcomp(void) { code = -100; OK(c_lc, "t1 test=linearcomp nbits=16 bitpos=17 end") } // reach=run,end
void sc_linearcomp_low(void) { code = LINEARCOMP_BITPOS_LOW; OK(c_lc, "t1 test=linearcomp nbits=16 bitpos=low end") } // reach=run,end
void sc_linearcomp_mid(void) { code = LINEARCOMP_BITPOS_MID; OK(c_lc, "t1 test=linearcomp nbits=16 bitpos=mid end") } // reach=run,end
void sc_linearcomp_high(void) { code = LINEARCOMP_BITPOS_HIGH; OK(c_lc, "t1 test=linearcomp nbits=16 bitpos=high end") } // reach=run,end
static void c_mr(const TestsBattery *b)
{
    one(b, matrixrank_test_wrap);
    const MatrixRankOptions *o = b->tests[0].udata;
    v_must_num(o->max_nbits, 16, 8, 64, "matrixrank/max_nbits");
    v_must_num(o->n, 17, 256, 65536, "matrixrank/n");
}
void sc_matrixrank(void) OK(c_mr, "t1 test=matrixrank max_nbits=16 n=17 end") // reach=run,end
static void c_mod3(const TestsBattery *b)
{
    one(b, mod3_test_wrap);
    v_must_num(((const Mod3Options *) b->tests[0].udata)->nvalues, 16, 100000, 1ll << 50, "mod3/nvalues");
}
void sc_mod3(void) OK(c_mod3, "t1 test=mod3 nvalues=16 end") // reach=run,end
static void c_sumc(const TestsBattery *b)
{
    one(b, sumcollector_test_wrap);
    v_must_num(((const SumCollectorOptions *) b->tests[0].udata)->nvalues, 16, 100000, 1ll << 50, "sumcollector/nvalues");
}
void sc_sumcollector(void) OK(c_sumc, "t1 test=sumcollector nvalues=16 end") // reach=run,end
static void c_monobit(const TestsBattery *b)
{
    one(b, monobit_freq_test_wrap);
    v_must_num(((const MonobitFreqOptions *) b->tests[0].udata)->nvalues, 16, 1024, 1ll << 50, "monobit_freq/nvalues");
}
void sc_monobit(void) OK(c_monobit, "t1 test=monobit_freq nvalues=16 end") // reach=run,end
static void c_nbit(const TestsBattery *b)
{
    one(b, nbit_words_freq_test_wrap);
    const NBitWordsFreqOptions *o = b->tests[0].udata;
    v_must_num(o->bits_per_word, 16, 1, 16, "nbit_words_freq/bits_per_word");
    v_must_num(o->average_freq, 17, 8, 1 << 20, "nbit_words_freq/average_freq");
    v_must_num(o->nblocks, 18, 16, 1 << 30, "nbit_words_freq/nblocks");
}
void sc_nbit_words(void) OK(c_nbit, "t1 test=nbit_words_freq bits_per_word=16 average_freq=17 nblocks=18 end") // reach=run,end
static void c_decim(const TestsBattery *b)
{
    one(b, bspace4_8d_decimated_test_wrap);
    v_must_num(((const BSpace4x8dDecimatedOptions *) b->tests[0].udata)->step, 16, 1, 1 << 30, "bspace4_8d_decimated/step");
}
void sc_decimated(void) OK(c_decim, "t1 test=bspace4_8d_decimated step=16 end") // reach=run,end
static void c_ising(const TestsBattery *b)
{
    one(b, ising2d_test_wrap);
    const Ising2DOptions *o = b->tests[0].udata;
    v_must_num(o->sample_len, 16, 100, 10000000000, "ising2d/sample_len");
    v_must_num(o->nsamples, 17, 3, 100000, "ising2d/nsamples");
    v_must((int) o->algorithm == code, "ising2d/algorithm");
}
void sc_ising_wolff(void) { code = ISING_WOLFF; OK(c_ising, "t1 test=ising2d sample_len=16 nsamples=17 algorithm=wolff end") } // reach=run,end
void sc_ising_metropolis(void) { code = ISING_METROPOLIS; OK(c_ising, "t1 test=ising2d sample_len=16 nsamples=17 algorithm=metropolis end") } // reach=run,end
static void c_usphere(const TestsBattery *b)
{
    one(b, unit_sphere_volume_test_wrap);
    const UnitSphereOptions *o = b->tests[0].udata;
    v_must_num(o->ndims, 16, 2, 20, "usphere/ndims");
    v_must_num(o->npoints, 17, 1000, 1ll << 40, "usphere/npoints");
}
void sc_usphere(void) OK(c_usphere, "t1 test=usphere ndims=16 npoints=17 end") // reach=run,end
/* ---- several tests */
static void c_three(const TestsBattery *b)
{
    v_must(!strcmp(b->name, "My"), "wrong name of the battery");
    is(b, 0, "a", monobit_freq_test_wrap);
    v_must_num(((const MonobitFreqOptions *) b->tests[0].udata)->nvalues, 16, 1024, 1ll << 50, "test 1");
    is(b, 1, "b", monobit_freq_test_wrap);
    v_must_num(((const MonobitFreqOptions *) b->tests[1].udata)->nvalues, 17, 1024, 1ll << 50, "test 2");
    is(b, 2, "a_third_test_with_a_longer_name", mod3_test_wrap);
    v_must_num(((const Mod3Options *) b->tests[2].udata)->nvalues, 18, 100000, 1ll << 50, "test 3");
    v_must(b->tests[3].run == NULL && b->tests[3].name == NULL, "the battery has three tests");
}
#define THREE "a test=monobit_freq nvalues=16 end\nb test=monobit_freq nvalues=17 end\na_third_test_with_a_longer_name test=mod3 nvalues=18 end"
void sc_three(void) OK(c_three, THREE) // reach=run,end
void sc_three_nl(void) OK(c_three, THREE "\n") // reach=run,end
/* layout: one line, many lines, tabs, CRLF, comments, empty lines; the name may come last */
void sc_layout_1(void) OK(c_three, "a test=monobit_freq nvalues=16 end b test=monobit_freq nvalues=17 end a_third_test_with_a_longer_name test=mod3 nvalues=18 end") // reach=run,end
void sc_layout_2(void) OK(c_three, "a\ntest=monobit_freq\nnvalues=16\nend\nb\n\ttest=monobit_freq\n\tnvalues=17\nend\r\na_third_test_with_a_longer_name\r\n  test=mod3\r\n  nvalues=18\r\nend\r\n") // reach=run,end
void sc_layout_3(void) OK(c_three, "# comment\n\n#\n   \n\t\na test=monobit_freq # nvalues=77 end\n # x=y\nnvalues=16 end# z end\nb test=monobit_freq nvalues=17 end\na_third_test_with_a_longer_name test=mod3 nvalues=18 end\n\n#end") // reach=run,end
void sc_layout_4(void) { check = c_three; numbers = 1; go("\t# first\r\n" THREE " battery name=My end", BATTERY_PASSED); } // reach=run,end
void sc_layout_5(void) OK(c_three, "a test=monobit_freq nvalues=16 end b test=monobit_freq nvalues=_1_7_ end a_third_test_with_a_longer_name test=mod3 nvalues=1_8 end") // reach=run,end
static void c_long(const TestsBattery *b)
{
    v_must(!strcmp(b->name, "CUSTOM"), "wrong default name of the battery");
    is(b, 0, "t1", monobit_freq_test_wrap);
    v_must(((const MonobitFreqOptions *) b->tests[0].udata)->nvalues == 1234567, "digits may be separated by underscores");
    v_must(b->tests[1].run == NULL, "the battery has one test");
}
void sc_underscores(void) { check = c_long; go("t1 test=monobit_freq nvalues=__1___234_567_ end", BATTERY_PASSED); } // reach=run,end
/* ---- limits that combine two numbers (three and more digits are just numbers) */
static void c_any(const TestsBattery *b) { v_must(b->tests[0].run != NULL && b->tests[0].udata != NULL, "no test"); }
#define CO(nb, nd) HEAD "t1 test=collisionover nbits_per_dim=" nb " ndims=" nd " nsamples=100 get_lower=001 n=5000 end"
void sc_lim_1(void) { check = c_any; go(CO("063", "001"), BATTERY_PASSED); } // reach=run,end
void sc_lim_2(void) { check = c_any; go(CO("021", "003"), BATTERY_PASSED); } // reach=run,end
void sc_lim_3(void) { check = c_any; go(CO("001", "063"), BATTERY_PASSED); } // reach=run,end
void sc_lim_4(void) { refused(CO("008", "008")); } // reach=end
void sc_lim_5(void) { refused(CO("064", "001")); } // reach=end
void sc_lim_6(void) { refused(CO("001", "064")); } // reach=end
void sc_lim_7(void) { refused(CO("032", "002")); } // reach=end
#define GAP(s, n) HEAD "t1 test=gap shl=" s " ngaps=" n " end"
void sc_lim_8(void) { check = c_any; go(GAP("009", "10240"), BATTERY_PASSED); } // reach=run,end
void sc_lim_9(void) { refused(GAP("009", "10239")); } // reach=end
void sc_lim_10(void) { refused(GAP("031", "42949672959")); } // reach=end
void sc_lim_11(void) { check = c_any; go(GAP("031", "42949672960"), BATTERY_PASSED); } // reach=run,end
#define MR(n) HEAD "t1 test=matrixrank max_nbits=032 n=" n " end"
void sc_lim_12(void) { check = c_any; go(MR("4096"), BATTERY_PASSED); } // reach=run,end
void sc_lim_13(void) { refused(MR("4097")); } // reach=end
void sc_lim_14(void) { refused(MR("4224")); } // reach=end
/* ---- every parameter is required, and must be what it has to be */
typedef struct { const char *name, *par[5]; } Kind;
static const Kind kinds[] = {
    {"bspace_nd", {"nbits_per_dim=008", "ndims=008", "nsamples=008", "get_lower=001"}},
    {"bspace4_8d_decimated", {"step=008"}},
    {"collisionover", {"nbits_per_dim=005", "ndims=008", "nsamples=008", "get_lower=001", "n=5000"}},
    {"gap", {"shl=009", "ngaps=100000"}},
    {"gap16_count0", {"ngaps=100000"}},
    {"hamming_distr", {"nvalues=100000", "nlevels=008"}},
    {"hamming_ot", {"nbytes=100000", "mode=bytes"}},
    {"hamming_ot_long", {"nvalues=100000", "wordsize=w128"}},
    {"ising2d", {"sample_len=1000", "nsamples=008", "algorithm=wolff"}},
    {"linearcomp", {"nbits=1000", "bitpos=low"}},
    {"matrixrank", {"max_nbits=008", "n=256"}},
    {"mod3", {"nvalues=100000"}},
    {"monobit_freq", {"nvalues=100000"}},
    {"nbit_words_freq", {"bits_per_word=008", "average_freq=100", "nblocks=100"}},
    {"sumcollector", {"nvalues=100000"}},
    {"usphere", {"ndims=008", "npoints=100000"}},
};
static char buf[400];
static void add(const char *s, int upto) { char *p = buf + strlen(buf); while (*s && *s != upto) *p++ = *s++; if (*s == upto && upto) *p++ = *s; *p = '\0'; }
static void each(unsigned k, const char *bad) /* NULL: left out */
{
    for (unsigned omit = 0; omit < 5 && kinds[k].par[omit] != NULL; omit++) {
        buf[0] = '\0';
        add("good test=mod3 nvalues=200000 end\nt1 test=", 0); add(kinds[k].name, 0);
        for (unsigned i = 0; i < 5 && kinds[k].par[i] != NULL; i++) {
            if (i == omit && bad == NULL) continue;
            add(" ", 0);
            if (i == omit) { add(kinds[k].par[i], '='); add(bad, 0); } else add(kinds[k].par[i], 0);
        }
        add(" end\ngood2 test=mod3 nvalues=200000 end", 0);
        refused(buf);
    }
}
static void omitted(unsigned a, unsigned b) { for (unsigned i = a; i <= b; i++) each(i, NULL); }
static void bad(unsigned a, unsigned b, const char *with) { for (unsigned i = a; i <= b; i++) each(i, with); }
void sc_omitted_0(void) { omitted(0, 1); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_empty_0(void) { bad(0, 1, ""); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_text_0(void) { bad(0, 1, "abc"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_underscore_0(void) { bad(0, 1, "_"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_negative_0(void) { bad(0, 1, "-1"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_huge_0(void) { bad(0, 1, "2000000000000000"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_max_0(void) { bad(0, 1, "9223372036854775807"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_omitted_2(void) { omitted(2, 3); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_empty_2(void) { bad(2, 3, ""); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_text_2(void) { bad(2, 3, "abc"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_underscore_2(void) { bad(2, 3, "_"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_negative_2(void) { bad(2, 3, "-1"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_huge_2(void) { bad(2, 3, "2000000000000000"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_max_2(void) { bad(2, 3, "9223372036854775807"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_omitted_4(void) { omitted(4, 7); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_empty_4(void) { bad(4, 7, ""); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_text_4(void) { bad(4, 7, "abc"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_underscore_4(void) { bad(4, 7, "_"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_negative_4(void) { bad(4, 7, "-1"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_huge_4(void) { bad(4, 7, "2000000000000000"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_max_4(void) { bad(4, 7, "9223372036854775807"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_omitted_8(void) { omitted(8, 11); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_empty_8(void) { bad(8, 11, ""); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_text_8(void) { bad(8, 11, "abc"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_underscore_8(void) { bad(8, 11, "_"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_negative_8(void) { bad(8, 11, "-1"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_huge_8(void) { bad(8, 11, "2000000000000000"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_max_8(void) { bad(8, 11, "9223372036854775807"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_omitted_12(void) { omitted(12, 15); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_empty_12(void) { bad(12, 15, ""); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_text_12(void) { bad(12, 15, "abc"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_underscore_12(void) { bad(12, 15, "_"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_negative_12(void) { bad(12, 15, "-1"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_huge_12(void) { bad(12, 15, "2000000000000000"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
void sc_max_12(void) { bad(12, 15, "9223372036854775807"); } // reach=end opts: --partition --prov --numbers --paths=4096 --redirect=TestsBattery_run:v_battery_run
/* ---- malformed files */
void sc_nofile(void) { refused(NULL); } // reach=end
void sc_empty(void) { refused(""); } // reach=end
void sc_only_comments(void) { refused("# a test=mod3 nvalues=16 end\n\n  # end\n"); } // reach=end
void sc_only_name(void) { refused("battery name=My end\n"); } // reach=end
void sc_end_first(void) { refused("end\n" THREE); } // reach=end
void sc_end_twice(void) { refused("a test=mod3 nvalues=16 end end\n"); } // reach=end
void sc_unclosed(void) { refused("b test=mod3 nvalues=17 end a test=mod3 nvalues=16\n"); } // reach=end
void sc_unclosed_name(void) { refused("b test=mod3 nvalues=17 end battery name=x"); } // reach=end
void sc_unclosed_bare(void) { refused("b test=mod3 nvalues=17 end x"); } // reach=end
void sc_noname(void) { refused(THREE " battery title=My end"); } // reach=end
void sc_noname2(void) { refused("battery end\n" THREE); } // reach=end
void sc_noeq(void) { refused("b test=mod3 nvalues=17 end a test=mod3 nvalues 16 end"); } // reach=end
void sc_unknown(void) { refused("b test=mod3 nvalues=17 end\na test=mod33 nvalues=16 end"); } // reach=end
void sc_unknown2(void) { refused("a test=mod nvalues=16 end\nb test=mod3 nvalues=17 end"); } // reach=end
void sc_unknown3(void) { refused("a test= nvalues=16 end"); } // reach=end
void sc_notest(void) { refused("b test=mod3 nvalues=17 end\na tst=mod3 nvalues=16 end"); } // reach=end
void sc_mode(void) { refused("a test=hamming_ot nbytes=100000 mode=byte end"); } // reach=end
void sc_mode2(void) { refused("a test=hamming_ot nbytes=100000 mode=bytes_low end"); } // reach=end
void sc_wordsize(void) { refused("a test=hamming_ot_long nvalues=100000 wordsize=128 end"); } // reach=end
void sc_algorithm(void) { refused("a test=ising2d sample_len=1000 nsamples=8 algorithm=glauber end"); } // reach=end
/* long names and values stay within their buffers */
#define X50 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
#define X200 X50 X50 X50 X50
static void c_x(const TestsBattery *b) { v_must(strlen(b->name) >= 50 && b->name[0] == 'x' && strlen(b->tests[0].name) >= 50 && b->tests[0].name[0] == 'x', "a long name is lost"); }
void sc_long_names(void) { check = c_x; go("battery name=" X200 "\n" X200 "=1 end\n" X200 "\n" X200 "=" X50 " test=mod3 nvalues=100000\n" X200 "=" X200 " end", BATTERY_PASSED); } // reach=run,end
void sc_long_unknown(void) { refused(X200 " test=" X200 X50 " nvalues=16 end"); } // reach=end
void sc_long_token(void) { refused("x " X200 X200 X200 X200 " end"); } // reach=end
void sc_long_value(void) { refused("x test=mod3 nvalues=" X200 " end"); } // reach=end
/* ---- without a generator: information only */
void sc_info(void) // reach=end opts: --partition --prov --numbers --redirect=TestsBattery_run:v_battery_run
{
    text = HEAD "first test=mod3 nvalues=200000 end second test=gap16_count0 ngaps=30000 end"; gen = NULL; nruns = 0; nopen = 0; check = no;
    v_on_fread = on_fread;
    v_must(battery_file("file", NULL, NULL, NULL) == BATTERY_PASSED, "no information about a valid battery");
    v_must(nruns == 0, "the battery is run without a generator");
    v_must(nopen == 0, "the file isn't closed");
    v_must_noleak("memory of the battery isn't freed");
    v_reached("end");
}
/* ---- whole program */
static char state[8];
static void *g_create(const GeneratorInfo *gi, const CallerAPI *intf) { (void) gi; (void) intf; return state; }
static void g_free(void *st, const GeneratorInfo *gi, const CallerAPI *intf) { (void) st; (void) gi; (void) intf; }
static uint64_t g_bits(void *st) { (void) st; return v_gen64(0, 0xFFFFFFFFu); }
static int g_info(GeneratorInfo *gi, const CallerAPI *intf)
{
    (void) intf;
    gi->name = "name"; gi->description = NULL; gi->nbits = 32;
    gi->create = g_create; gi->free = g_free; gi->get_bits = g_bits;
    gi->self_test = NULL; gi->get_sum = NULL; gi->parent = NULL;
    return 1;
}
static TestResults t_run(GeneratorState *obj, const void *udata)
{
    TestResults r = TestResults_create("mod3");
    v_must(obj->gi != NULL && obj->state != NULL, "no generator");
    v_must(((const Mod3Options *) udata)->nvalues == 200000, "settings of another test");
    r.p = code ? 1e-20 : 0.5; r.alpha = 0.5; r.x = 0.0; r.penalty = 4;
    v_reached("run");
    nruns++;
    return r;
}
TestResults v_mod3(GeneratorState *obj, const void *udata) { return t_run(obj, udata); }
static void whole(char *bat, int rc)
{
    char *argv[] = {"smokerand", bat, "gen", "--seed=abc", NULL};
    v_getinfo = g_info;
    text = HEAD "first test=mod3 nvalues=200000 end\nsecond test=mod3 nvalues=200_000 end"; nruns = 0;
    v_on_fread = on_fread;
    v_must(smokerand_main(4, argv) == rc, "wrong exit status");
    v_must(nruns == 2, "each test of the file must be run once");
    v_reached("end");
}
void sc_main(void) { v_expect_row("first", 1, "Ok"); v_expect_row("second", 2, "Ok"); whole("f=file", BATTERY_PASSED); } // reach=run,end opts: --partition --prov --numbers --redirect=mod3_test_wrap:v_mod3 --ret1=entfuncs_test
void sc_main_fail(void) { code = 1; v_expect_row("first", 1, "FAIL"); v_expect_row("second", 2, "FAIL"); whole("f=file", BATTERY_FAILED); } // reach=run,end opts: --partition --prov --numbers --redirect=mod3_test_wrap:v_mod3 --ret1=entfuncs_test
