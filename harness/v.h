/* Vocabulary of the analysis scenarios: the v_* functions are not executed,
   they are interpreted by tool/scenario.cpp. */
#ifndef V_H
#define V_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "smokerand/core.h"
#include "smokerand/entropy.h"
#include "smokerand/base64.h"
#include "smokerand/threads_intf.h"
enum { SEED = 1, ADDR = 4, HW = 8, PARAM = 16, EXT = 32, GEN = 64, RAM = 128, USER = 256, USER2 = 512 };
uint64_t v_u64(uint64_t lo, uint64_t hi);   /* any number of [lo, hi] */
int64_t v_i64(int64_t lo, int64_t hi);
uint64_t v_gen64(uint64_t lo, uint64_t hi); /* any number, produced by a generator */
double v_f64(double lo, double hi);         /* any number of [lo, hi] */
double v_nan(void);
double v_anyf(void);
void v_any(void *p, size_t n);              /* any bytes */
char *v_str(size_t max);                    /* any string of up to max characters */
void *v_buf(size_t n);                      /* any initialised bytes */
uint64_t v_hw(void);                        /* clock, hardware */
uint64_t v_label64(unsigned base);          /* a word whose bits are tracked */
int v_either(void);
void v_must(int cond, const char *msg);
void v_must_bits(uint64_t v, int lo, int64_t n, unsigned base, int step, const char *msg);
void v_must_num(uint64_t v, unsigned k, int64_t lo, int64_t hi, const char *msg);
void v_must_taint(uint64_t v, unsigned forbidden, unsigned required, const char *msg);
void v_fmust_taint(double v, unsigned forbidden, unsigned required, const char *msg);
void v_must_init(const void *p, size_t n, const char *msg);
void v_must_noleak(const char *msg);
void v_threads_begin(void);
void v_must_unlocked(const char *msg);
uint64_t v_addtaint(uint64_t v, unsigned t);
void v_unreachable(const char *msg);
int v_oom(void);                            /* do allocations fail in this run? */
void v_stop(void);
void v_reached(const char *tag);
void v_expect(const char *key, double value);
void v_expect_row(const char *name, unsigned id, const char *text);
void v_expect_none(void);
void v_expect_str(const char *key);             /* the text printed with it goes to v_on_str */
void v_on_str(const char *s);
void v_show();
int smokerand_main(int argc, char *argv[]);
extern int v_in_thread, v_data_on_stdout, v_exit_is_error;
extern size_t (*v_on_fread)(void *p, size_t n, FILE *f);
extern unsigned long v_thread_self, v_thread_fails;
/* the plugin and the battery that the loader finds */
extern int (*v_getinfo)(GeneratorInfo *gi, const CallerAPI *intf);
extern BatteryExitCode (*v_battery)(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *opts);
#endif
