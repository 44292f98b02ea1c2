/* common declarations of the conformance harness */
#ifndef VH_H
#define VH_H
#include <stdbool.h>
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
/* ---- virtual time (vtime.c) ---- */
extern uint64_t vt_us;              /* current virtual time, microseconds */
extern uint64_t vt_base;            /* scenario start */
extern bool vt_step;                /* clock_gettime advances the clock by 1us */
void vt_advance_ms(unsigned ms);
static inline long vt_ms(void) { return (long)((vt_us - vt_base) / 1000); }
extern void (*vt_timer_fn)(void *);  /* captured periodic callback (NULL if no live timer) */
extern int vt_timers_created, vt_timers_deleted;
void vt_tick(void);
/* hook called whenever the code under test sleeps */
extern void (*vt_sleep_hook)(unsigned ms);
/* ---- allocation balance ---- */
extern __thread int vh_th;           /* 1 in the thread that plays the periodic timer */
void mock_park(int mode);           /* park the timer thread at its first driver call */
extern volatile int mock_parked, mock_release;
extern long vm_live;                 /* blocks currently allocated by the code under test */
extern long vm_fail_at;              /* fail the n-th next allocation (0: never) */
/* ---- trace output ---- */
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void ev_flush(void);
char *hexarr(const uint8_t *b, size_t n);  /* JSON array text, rotating static buffers */
char *jstr(const char *s);                 /* JSON string literal */
extern int ev_fd;
/* ---- mock interface (mockl0.c) ---- */
#define MAXDEV 4
void mock_reset(void);
int  mock_cmd(const char *op, char **av, int ac);  /* returns 1 if handled */
extern struct diag_l0_device *mock_dev[MAXDEV];
struct diag_l0_device *mock_get(int d);
/* ---- argument parsing ---- */
const char *kv(char **av, int ac, const char *key, const char *def);
long kvi(char **av, int ac, const char *key, long def);
size_t kvhex(char **av, int ac, const char *key, uint8_t *out, size_t max);
size_t hexbytes(const char *s, uint8_t *out, size_t max);
#endif
