/* Virtual time and allocation accounting: libc calls of the code under test
 * are routed here with -Wl,--wrap=... so that nothing ever waits for real. */
#define _GNU_SOURCE
#include "vh.h"
#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

uint64_t vt_us = 1000ULL * 1000 * 1000;
uint64_t vt_base = 1000ULL * 1000 * 1000;
bool vt_step = true;
void (*vt_timer_fn)(void *);
int vt_timers_created, vt_timers_deleted;
void (*vt_sleep_hook)(unsigned ms);
static void (*timer_cb)(union sigval);

void vt_advance_ms(unsigned ms) { vt_us += 1000ULL * ms; }

int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
	(void)c;
	if (vt_step) { vt_us++; }
	ts->tv_sec = vt_us / 1000000;
	ts->tv_nsec = (vt_us % 1000000) * 1000;
	return 0;
}
int __wrap_clock_getres(clockid_t c, struct timespec *ts) {
	(void)c;
	if (ts) { ts->tv_sec = 0; ts->tv_nsec = 1; }
	return 0;
}
static int do_sleep(const struct timespec *rq) {
	uint64_t us = rq->tv_sec * 1000000ULL + (rq->tv_nsec + 999) / 1000;
	vt_us += us;
	if (vt_sleep_hook) { vt_sleep_hook((unsigned)(us / 1000)); }
	return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *rq, struct timespec *rem) {
	(void)c; (void)rem;
	if (fl & TIMER_ABSTIME) {
		uint64_t t = rq->tv_sec * 1000000ULL + (rq->tv_nsec + 999) / 1000;
		if (t > vt_us) {
			unsigned d = (unsigned)((t - vt_us) / 1000);
			vt_us = t;
			if (vt_sleep_hook) { vt_sleep_hook(d); }
		}
		return 0;
	}
	return do_sleep(rq);
}
int __wrap_nanosleep(const struct timespec *rq, struct timespec *rem) { (void)rem; return do_sleep(rq); }
int __wrap_usleep(useconds_t u) {
	struct timespec t = { u / 1000000, (u % 1000000) * 1000 };
	return do_sleep(&t);
}
unsigned __wrap_sleep(unsigned s) { struct timespec t = { s, 0 }; do_sleep(&t); return 0; }
int __wrap_gettimeofday(struct timeval *tv, void *tz) {
	(void)tz;
	if (vt_step) { vt_us++; }
	tv->tv_sec = vt_us / 1000000; tv->tv_usec = vt_us % 1000000;
	return 0;
}
static void fire(void *x) { (void)x; union sigval v; memset(&v, 0, sizeof v); if (timer_cb) { timer_cb(v); } }
int __wrap_timer_create(clockid_t c, struct sigevent *sev, timer_t *id) {
	(void)c;
	vt_timers_created++;
	ev("{\"e\":\"tcreate\",\"t\":%ld}", vt_ms());
	timer_cb = sev ? sev->sigev_notify_function : NULL;
	*id = (timer_t)(intptr_t)vt_timers_created;
	vt_timer_fn = fire;
	return 0;
}
int __wrap_timer_settime(timer_t id, int f, const struct itimerspec *n, struct itimerspec *o) {
	(void)id; (void)f; (void)n; (void)o;
	return 0;
}
int __wrap_timer_delete(timer_t id) { (void)id; vt_timers_deleted++; ev("{\"e\":\"tdelete\",\"t\":%ld}", vt_ms()); vt_timer_fn = NULL; return 0; }
void vt_tick(void) { if (timer_cb) { fire(NULL); } }

/* ---- allocation balance ---- */
long vm_live, vm_fail_at;
__thread int vh_th;
void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t s);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);
char *__real_strdup(const char *s);
static int failnow(void) { return vm_fail_at && --vm_fail_at == 0; }
void *__wrap_malloc(size_t n) { if (failnow()) { return NULL; } void *p = __real_malloc(n); if (p) { vm_live++; } return p; }
void *__wrap_calloc(size_t n, size_t s) { if (failnow()) { return NULL; } void *p = __real_calloc(n, s); if (p) { vm_live++; } return p; }
void *__wrap_realloc(void *p, size_t n) {
	void *q = __real_realloc(p, n);
	if (!p && q) { vm_live++; }
	return q;
}
void __wrap_free(void *p) { if (p) { vm_live--; } __real_free(p); }
char *__wrap_strdup(const char *s) { if (failnow()) { return NULL; } char *p = __real_strdup(s); if (p) { vm_live++; } return p; }
