/* Scripted serial port with an adapter at the other end, in virtual time
 * (replaces diag_tty_unix.c). The adapter answers each line written. */
#define _GNU_SOURCE
#include "vh.h"
#include <assert.h>
#include <ctype.h>
#include <stdlib.h>
#include <string.h>
#include "diag.h"
#include "diag_err.h"
#include "diag_tty.h"
extern void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t); extern void __real_free(void *);
struct seg { uint64_t at; int err; uint8_t *b; size_t n, off; };
struct bst { unsigned gap; int err; uint8_t *b; size_t n; };
struct turn { struct bst b[128]; int n; };
struct ent { uint8_t c[64]; size_t n; struct turn **t; int nt, next; };
struct ovr { int at; struct turn *t; };
static struct seg *q; static int nq, cq, capq;
static struct ent ents[64]; static int nents;
static struct ovr ovrs[64]; static int novrs;
static struct turn *wrong;                /* answer at a wrong speed */
static unsigned baud = 38400, speed; static int lines, sets, opens, writes;
static int openrc[8], nopen, setrc[16], nset, writerc[64], nwrite; /* indexes that fail */
static uint8_t *acc; static size_t nacc, cacc; static int naccr, accerr; static long acc1; static unsigned accn;
static uint8_t line[2048]; static size_t nline;
static int budget = 200000, isopen;
static bool raw, echo;                    /* a plain port: no adapter that answers lines */
static struct ent xents[64]; static int nxents;   /* answers to exactly these bytes */
static int ctls, brks, nctl, nbrk, ctlrc[16], brkrc[16];
static struct turn *parse_turn(const char **ps) {
	const char *s = *ps; struct turn *t = __real_calloc(1, sizeof *t);
	while (*s && *s != '|') {
		if (*s == '-') { s++; continue; }
		if (*s == ',') { s++; continue; }
		struct bst *b = &t->b[t->n++]; char *e;
		b->gap = (unsigned)strtoul(s, &e, 10);
		if (*e == ':') e++;
		if (*e == 'E') b->err = (int)strtol(e + 1, &e, 10);
		else { size_t n = 0; while (isxdigit((unsigned char)e[n])) n++; b->b = __real_malloc(n / 2 + 1); b->n = hexbytes(e, b->b, n / 2); e += n; }
		s = e;
		if (t->n >= 128) break;
	}
	if (*s == '|') s++;
	*ps = s; return t;
}
void mtty_reset(void) {
	raw = echo = false; nxents = ctls = brks = nctl = nbrk = 0;
	nq = cq = nents = novrs = 0; wrong = NULL; baud = 38400; speed = 0; lines = sets = opens = writes = 0; nopen = nset = nwrite = 0; nacc = 0; naccr = 0; accerr = 0; nline = 0; budget = 200000; isopen = 0;
}
static int ints(const char *s, int *o, int max) { int n = 0; while (*s && n < max) { o[n++] = atoi(s); while (*s && *s != ',') s++; if (*s) s++; } return n; }
int mtty_cmd(const char *op, char **av, int ac) {
	if (!strcmp(op, "tta")) {              /* answers to lines beginning with c */
		if (nents >= 64) { return 0; }
		struct ent *e = &ents[nents++]; e->n = kvhex(av, ac, "c", e->c, sizeof e->c); e->t = __real_calloc(64, sizeof *e->t); e->nt = e->next = 0;
		const char *s = kv(av, ac, "r", ""); do e->t[e->nt++] = parse_turn(&s); while (*s && e->nt < 64);
		return 1;
	}
	if (!strcmp(op, "tto")) { const char *s = kv(av, ac, "r", ""); if (novrs >= 64) { return 0; } ovrs[novrs].at = lines + (int)kvi(av, ac, "at", 0); ovrs[novrs++].t = parse_turn(&s); return 1; }
	if (!strcmp(op, "ttb")) { const char *s = kv(av, ac, "r", "-"); baud = (unsigned)kvi(av, ac, "v", 38400); wrong = parse_turn(&s); return 1; }
	if (!strcmp(op, "ttf")) {
		nopen = ints(kv(av, ac, "open", ""), openrc, 8); nset = ints(kv(av, ac, "set", ""), setrc, 16); nwrite = ints(kv(av, ac, "write", ""), writerc, 64);
		nctl = ints(kv(av, ac, "ctl", ""), ctlrc, 16); nbrk = ints(kv(av, ac, "brk", ""), brkrc, 16);
		opens = sets = writes = ctls = brks = 0; return 1;
	}
	if (!strcmp(op, "ttw")) { raw = true; echo = kvi(av, ac, "echo", 0); return 1; }
	if (!strcmp(op, "ttx")) {
		if (nxents >= 64) { return 0; }
		struct ent *e = &xents[nxents++]; e->n = kvhex(av, ac, "c", e->c, sizeof e->c); e->t = __real_calloc(64, sizeof *e->t); e->nt = e->next = 0;
		const char *s = kv(av, ac, "r", ""); do e->t[e->nt++] = parse_turn(&s); while (*s && e->nt < 64);
		return 1;
	}
	if (!strcmp(op, "ttp")) {              /* something arrives by itself */
		extern void mtty_push(struct turn *); const char *s = kv(av, ac, "r", "-"); mtty_push(parse_turn(&s)); return 1;
	}
	return 0;
}
int mtty_left(void) { int n = 0; for (int i = cq; i < nq && q[i].at <= vt_us; i++) n += (int)(q[i].n - q[i].off); return n; }
void mtty_call(void) { nline = 0; }
static void use(void) { if (--budget < 0) { ev("{\"e\":\"livelock\",\"t\":%ld}", vt_ms()); _Exit(77); } }
void mtty_push(struct turn *t) {
	uint64_t at = vt_us;
	for (int i = 0; i < t->n; i++) {
		at += 1000ULL * t->b[i].gap;
		if (nq == capq) { capq = capq ? 2 * capq : 64; q = __real_realloc(q, (size_t)capq * sizeof *q); }
		int p = nq++;
		for (; raw && p > cq && q[p - 1].at > at; p--) q[p] = q[p - 1];
		q[p] = (struct seg){ at, t->b[i].err, t->b[i].b, t->b[i].n, 0 };
	}
}
void mtty_sync(void) {                    /* report what has been read since the last report */
	if (!naccr) return;
	ev("{\"e\":\"rd\",\"t\":%ld,\"k\":%d,\"t1\":%ld,\"err\":%d,\"b\":%s}", vt_ms(), naccr, acc1, accerr, hexarr(acc, nacc));
	nacc = 0; naccr = 0; accerr = 0;
}
static bool in(int v, const int *a, int n) { for (int i = 0; i < n; i++) if (a[i] == v) return true; return false; }
ttyp *diag_tty_open(const char *port) {
	mtty_sync(); use();
	bool bad = in(opens++, openrc, nopen);
	ev("{\"e\":\"topen\",\"t\":%ld,\"port\":%s,\"ok\":%d}", vt_ms(), jstr(port ? port : ""), !bad && !isopen);
	if (bad || isopen) return diag_pseterr(DIAG_ERR_GENERAL);
	isopen = 1; nline = 0; speed = 0;
	return &isopen;
}
void diag_tty_close(ttyp *t) { mtty_sync(); if (!t) return; isopen = 0; cq = nq; ev("{\"e\":\"tclose\",\"t\":%ld}", vt_ms()); }
int diag_tty_setup(ttyp *t, const struct diag_serial_settings *s) {
	mtty_sync(); use(); assert(t && isopen);
	bool bad = in(sets++, setrc, nset);
	ev("{\"e\":\"tset\",\"t\":%ld,\"v\":%u,\"db\":%d,\"sb\":%d,\"par\":%d,\"ok\":%d}", vt_ms(), s->speed, s->databits, s->stopbits, s->parflag, !bad);
	if (bad) return diag_iseterr(DIAG_ERR_BADRATE);
	speed = s->speed; return 0;
}
int diag_tty_control(ttyp *t, unsigned dtr, unsigned rts) {
	mtty_sync(); use(); assert(t && isopen);
	bool bad = in(ctls++, ctlrc, nctl);
	if (raw) ev("{\"e\":\"ctl\",\"t\":%ld,\"dtr\":%d,\"rts\":%d,\"ok\":%d}", vt_ms(), dtr != 0, rts != 0, !bad);
	return bad ? diag_iseterr(DIAG_ERR_GENERAL) : 0;
}
static int brk(ttyp *t, unsigned low, unsigned ms) {
	mtty_sync(); use(); assert(t && isopen);
	bool bad = in(brks++, brkrc, nbrk);
	if (raw) ev("{\"e\":\"brk\",\"t\":%ld,\"ms\":%u,\"ok\":%d}", vt_ms(), low, !bad);
	if (bad) return diag_iseterr(DIAG_ERR_GENERAL);
	if (echo) { struct turn *e = __real_calloc(1, sizeof *e); e->n = 1; e->b[0].gap = low; e->b[0].b = __real_calloc(1, 1); e->b[0].n = 1; mtty_push(e); }   /* the break is heard too */
	vt_advance_ms(ms); return 0;
}
int diag_tty_break(ttyp *t, unsigned ms) { return brk(t, ms, ms); }
int diag_tty_fastbreak(ttyp *t, unsigned ms) { if (ms < 25) return diag_iseterr(DIAG_ERR_TIMEOUT); return brk(t, 25, ms); }
char **diag_tty_getportlist(int *n) { char **l = calloc(1, sizeof *l); l[0] = strdup("/dev/obd0"); *n = 1; return l; }
static ssize_t rd(uint8_t *b, size_t n, unsigned to) {
	uint64_t end = vt_us + 1000ULL * to; size_t got = 0;
	while (got < n && cq < nq) {
		struct seg *s = &q[cq];
		if (s->at > end) break;
		if (s->at > vt_us) { vt_us = s->at; }
		if (s->err) { if (got) break; cq++; return s->err; }
		size_t k = s->n - s->off; if (k > n - got) k = n - got;
		if (b) memcpy(b + got, s->b + s->off, k);
		s->off += k; got += k; if (s->off == s->n) cq++;
	}
	if (got < n) { if (vt_us < end) vt_us = end; }
	return got ? (ssize_t)got : DIAG_ERR_TIMEOUT;
}
int diag_tty_iflush(ttyp *t) { mtty_sync(); use(); assert(t && isopen); while (cq < nq && q[cq].at <= vt_us) cq++; rd(NULL, MAXRBUF, IFLUSH_TIMEOUT); ev("{\"e\":\"fl\",\"t\":%ld}", vt_ms()); return 0; }
ssize_t diag_tty_read(ttyp *t, void *buf, size_t n, unsigned to) {
	use(); assert(t && isopen && n > 0 && to > 0 && to < MAXTIMEOUT);
	ssize_t r = rd(buf, n, to);
	if (cacc < nacc + n) { cacc = 2 * (nacc + n); acc = __real_realloc(acc, cacc); }
	naccr++;
	if (!nacc) acc1 = vt_ms();            /* when the first data had been read */
	if (r > 0) { memcpy(acc + nacc, buf, (size_t)r); nacc += (size_t)r; } else accerr = (int)r;
	return r < 0 && r != DIAG_ERR_TIMEOUT ? diag_iseterr((int)r) : r;
}
ssize_t diag_tty_write(ttyp *t, const void *buf, const size_t n) {
	mtty_sync(); use(); assert(t && isopen && n > 0);
	bool bad = in(writes++, writerc, nwrite);
	ev("{\"e\":\"tx\",\"t\":%ld,\"ok\":%d,\"b\":%s}", vt_ms(), !bad, hexarr(buf, n));
	if (bad) return diag_iseterr(DIAG_ERR_GENERAL);
	if (raw) {
		if (echo) {
			struct turn *e = __real_calloc(1, sizeof *e); unsigned per = speed ? (10000 + speed - 1) / speed : 1;
			for (size_t i = 0; i < n && e->n < 128; i++) { struct bst *b = &e->b[e->n++]; b->gap = per; b->b = __real_malloc(1); b->b[0] = ((const uint8_t *)buf)[i]; b->n = 1; }
			mtty_push(e);
		}
		for (size_t i = 0; i < n && nline < sizeof line; i++) line[nline++] = ((const uint8_t *)buf)[i];
		for (int k = 0; k < nxents; k++) { struct ent *e = &xents[k];
			if (e->n == nline && !memcmp(e->c, line, nline)) { mtty_push(e->t[e->next]); if (e->next < e->nt - 1) e->next++; nline = 0; break; } }
		return (ssize_t)n;
	}
	for (size_t i = 0; i < n; i++) {
		uint8_t c = ((const uint8_t *)buf)[i];
		if (nline < sizeof line) line[nline++] = c;
		if (c != '\r') continue;
		struct turn *r = NULL; int no = lines++;
		if (speed != baud) r = wrong;
		else {
			for (int k = 0; k < novrs; k++) if (ovrs[k].at == no) r = ovrs[k].t;
			for (int k = 0; !r && k < nents; k++) { struct ent *e = &ents[k];
				if (e->n <= nline && !memcmp(e->c, line, e->n)) { r = e->t[e->next]; if (e->next < e->nt - 1) e->next++; } }
		}
		nline = 0;
		if (r) mtty_push(r);
	}
	return (ssize_t)n;
}
