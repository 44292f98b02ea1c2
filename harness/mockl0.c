/* Scripted interface driver "MOCK": a serial line in virtual time with a
 * scripted ECU at the other end. Turn = what the ECU sends after the tester
 * has transmitted; a turn starts at the first (non-echo) receive following a
 * transmission, relative to the time of the last transmitted byte. */
#define _GNU_SOURCE
#include "vh.h"
#include <ctype.h>
#include <stdlib.h>
#include <string.h>
#include "diag.h"
#include "diag_err.h"
#include "diag_cfg.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_tty.h"

#include <time.h>
extern int __real_nanosleep(const struct timespec *, struct timespec *);
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t, size_t); extern void __real_free(void *);
#define MAXB 4096
struct burst { unsigned gap; int err; uint8_t *b; size_t n; };
struct turn { struct burst *b; int n; };
struct tabent { uint8_t v[300], m[300]; size_t n; bool exact; struct turn *t; int nt, next; };
struct pend { uint64_t at; int err; uint8_t *b; size_t n, off; };
struct initr { int keep; int rc; int kb1, kb2; struct turn t; unsigned ms; };
struct mdev {
	uint32_t flags; int mask; bool smart;
	struct turn turns[2048]; int nt, it;
	struct tabent tab[1200]; int ntab;
	struct initr inits[256]; int ni, ii;
	int openrc[64], no, io; int sendrc[512], ns, is; 
	struct pend *p; int np, cp, capp;
	bool armed; uint64_t t_tx;
	uint8_t txacc[MAXB]; size_t ntx;
	int echo;                       /* 0 none 1 echo */
	uint8_t eq[MAXB]; int eqn, eqi; 
	int efault_at, efault_mode;     /* byte index since start (-1 none); 1 drop 2 alter 3 insert */
	long txcount;
	bool opened;
	int opens, closes;
	unsigned byte_us;               /* transmission time per byte */
	long ioctl_rc[8];               /* setspeed,iflush,setwm */
	int fev;                        /* report flushes */
	int budget;
	int ntmask;                     /* run the periodic tick from inside: 1 send 2 recv 4 ioctl 8 open 16 close */
	int nt_skip, nt_left;
	/* KWP1281 ECU */
	int kw, kwgap; int kwst;        /* kwst: 0 waiting for the keyword answer, 1 receiving a block, 2 sending one */
	struct kwblk { int s, l, x; uint8_t b[256]; int n; } *kwb; int nkwb, kwnext;
	struct kwf { int n, mode; } kwf[32]; int nkwf; int kwact;
	uint8_t kwrx[300], kwtx[300]; int kwrn, kwtn, kwtp, kwseq; uint64_t kwlast;
};
static struct mdev M[MAXDEV];
struct diag_l0_device *mock_dev[MAXDEV];
extern const struct diag_l0 vmock;
static struct diag_l0 vmocks[MAXDEV];
static int next_new;   /* device number given to the next driver instance */

void mock_reset(void) {
	memset(M, 0, sizeof M);
	for (int i = 0; i < MAXDEV; i++) {
		M[i].mask = 0xff; M[i].efault_at = -1; M[i].flags = DIAG_L1_NOTTY | DIAG_L1_AUTOSPEED | DIAG_L1_SLOW | DIAG_L1_FAST;
		M[i].budget = 20000;
		mock_dev[i] = NULL;
	}
	next_new = 0;
}
/* turn syntax: gap:hex,gap:hex,...  gap:E<code> = receive error; "-" = nothing */
static struct turn parse_turn(const char *s) {
	struct turn t = { 0 };
	t.b = __real_calloc(256, sizeof(struct burst));
	while (s && *s && *s != '-' && t.n < 256) {
		struct burst *b = &t.b[t.n++];
		char *e;
		b->gap = (unsigned)strtoul(s, &e, 10);
		if (*e == ':') { e++; }
		if (*e == 'E') { b->err = (int)strtol(e + 1, &e, 10); }
		else {
			size_t n = 0;
			while (isxdigit((unsigned char)e[n])) { n++; }
			b->b = __real_malloc(n / 2 + 1);
			b->n = hexbytes(e, b->b, n / 2);
			e += n;
		}
		while (*e && *e != ',') { e++; }
		s = *e == ',' ? e + 1 : e;
	}
	return t;
}
extern void *__real_realloc(void *, size_t);
#define realloc_raw __real_realloc
static int dnum(struct diag_l0_device *d) { return (int)(intptr_t)d->l0_int - 1; }
struct diag_l0_device *mock_get(int d) { return mock_dev[d]; }
static struct mdev *md(struct diag_l0_device *d) { return &M[dnum(d)]; }

static void schedule(struct mdev *m, struct turn *t, uint64_t t0) {
	uint64_t at = t0;
	for (int i = 0; i < t->n; i++) {
		at += 1000ULL * t->b[i].gap;
		if (m->np == m->capp) {
			extern void *__real_realloc(void *, size_t);
			m->capp = m->capp ? 2 * m->capp : 64;
			m->p = __real_realloc(m->p, (size_t)m->capp * sizeof *m->p);
		}
		m->p[m->np++] = (struct pend){ at, t->b[i].err, t->b[i].b, t->b[i].n, 0 };
	}
}
static void fire(struct mdev *m) {
	if (!m->armed) { return; }
	m->armed = false;
	if (m->ntab) {
		for (int i = 0; i < m->ntab; i++) {
			struct tabent *e = &m->tab[i];
			if (m->ntx < e->n || (e->exact && m->ntx != e->n)) { continue; }
			bool ok = true;
			for (size_t k = 0; k < e->n; k++) { if (e->m[k] && m->txacc[k] != e->v[k]) { ok = false; break; } }
			if (!ok) { continue; }
			struct turn *t = &e->t[e->next];
			if (e->next < e->nt - 1) { e->next++; }
			schedule(m, t, m->t_tx);
			break;
		}
		m->ntx = 0;
		return;
	}
	m->ntx = 0;
	if (m->it < m->nt) { schedule(m, &m->turns[m->it++], m->t_tx); }
}
static void m_budget(struct mdev *m) {
	if (--m->budget < 0) { ev("{\"e\":\"livelock\",\"t\":%ld}", vt_ms()); _Exit(77); }
}
static int nt_depth;
volatile int mock_parked, mock_release;
static int park_armed;
void mock_park(int on) { park_armed = on; mock_parked = mock_release = 0; }
static void nested(struct mdev *m, int bit) {
	if (vh_th) {
		if (park_armed) {
			park_armed = 0;
			mock_parked = 1;
			for (int i = 0; i < 600 && !mock_release; i++) { struct timespec ts = { 0, 100000 }; __real_nanosleep(&ts, NULL); }
		}
		return;
	}
	if (!(m->ntmask & bit) || nt_depth >= 2 || m->nt_left <= 0) { return; }
	if (m->nt_skip > 0) { m->nt_skip--; return; }
	m->nt_left--;
	nt_depth++;
	ev("{\"e\":\"nt0\",\"t\":%ld}", vt_ms());
	vt_tick();
	ev("{\"e\":\"nt1\",\"t\":%ld}", vt_ms());
	nt_depth--;
}
/* one byte (or, framed, one block) from the ECU, unless a fault is planned for it */
static void kw_put(struct mdev *m, const uint8_t *b, size_t n, unsigned gap) {
	int f = 0;
	for (int i = 0; i < m->nkwf; i++) { if (m->kwf[i].n == m->kwact) { f = m->kwf[i].mode; } }
	m->kwact++;
	if (f == 1) { return; }
	struct burst bu = { f == 3 ? 80 : gap, 0, __real_malloc(n), n };
	memcpy(bu.b, b, n);
	if (f == 2) { bu.b[n / 2] ^= 0x10; }
	if (f == 3) { bu.b[0] = m->kwtx[0]; m->kwtp = 1; }
	struct turn t = { &bu, 1 };
	schedule(m, &t, vt_us);
}
static void kw_block(struct mdev *m) {
	struct kwblk *k = m->kwnext < m->nkwb ? &m->kwb[m->kwnext++] : NULL;
	static const uint8_t ack = 9;
	const uint8_t *b = k ? k->b : &ack; int n = k ? k->n : 1;
	m->kwtx[0] = (uint8_t)(k && k->l >= 0 ? k->l : n + 2);
	m->kwtx[1] = (uint8_t)(m->kwseq + 1 + (k ? k->s : 0));
	memcpy(m->kwtx + 2, b, (size_t)n);
	m->kwtx[2 + n] = (uint8_t)(k ? k->x : 3);
	m->kwtn = n + 3; m->kwtp = 0; m->kwst = 2;
	if (m->flags & DIAG_L1_DOESL2FRAME) { kw_put(m, m->kwtx, (size_t)m->kwtn, (unsigned)m->kwgap); m->kwst = 1; return; }
	m->kwtp = 1;
	kw_put(m, m->kwtx, 1, (unsigned)m->kwgap);
	if (m->kwtn == 1) { m->kwst = 1; }
}
static void kw_got(struct mdev *m, const uint8_t *b, size_t n) {
	bool late = m->kwlast && vt_us - m->kwlast > 100000;
	m->kwlast = vt_us;
	if (m->flags & DIAG_L1_DOESL2FRAME && m->kwst != 0) { m->kwseq = n > 1 ? b[1] : 0; kw_block(m); return; }
	if (m->kwst == 0) { kw_block(m); return; }
	if (late) { m->kwrn = 0; if (m->kwst == 2) { m->kwst = 1; } }
	if (m->kwst == 2) {
		uint8_t x = m->kwtx[m->kwtp++];
		if (m->kwtp >= m->kwtn) { m->kwst = 1; m->kwrn = 0; }
		kw_put(m, &x, 1, (unsigned)m->kwgap);
		return;
	}
	m->kwrx[m->kwrn++] = b[0];
	if (m->kwrn == m->kwrx[0] + 1) { m->kwseq = m->kwrx[1]; m->kwrn = 0; kw_block(m); return; }
	uint8_t c = (uint8_t)~b[0];
	kw_put(m, &c, 1, (unsigned)m->kwgap);
}
static int m_init(void) { return 0; }
#ifdef VARIANT_vcli
extern bool vh_prog;
static char *modes[] = { "slow", "Fast", "auto" };
static struct cfgi *mkitems(void) {   /* one item of every type */
	static struct cfgi it[5]; static const char *nm[5] = { "addr", "delay", "dbg", "mode", "name" };
	memset(it, 0, sizeof it);
	diag_cfgn_u8(&it[0], 7, 7); diag_cfgn_int(&it[1], -5, -5); diag_cfgn_bool(&it[2], 1, 1); diag_cfgn_str(&it[3], "slow", "Speed mode", "mode"); diag_cfgn_str(&it[4], "x1", "Some name", "name");
	(void)modes;
	for (int i = 0; i < 5; i++) { it[i].shortname = nm[i]; if (!it[i].descr) { it[i].descr = nm[i]; } it[i].next = i < 4 ? &it[i + 1] : NULL; }
	return it;
}
static struct cfgi *items;
static void delitems(void) { for (int i = 0; items && i < 5; i++) { diag_cfg_clear(&items[i]); } items = NULL; }
#endif
static int m_new(struct diag_l0_device *d) {
	int n = next_new < MAXDEV ? next_new++ : MAXDEV - 1;
#ifdef VARIANT_vcli
	if (vh_prog) {
		n = 0; next_new = 0; vmocks[0] = *d->dl0; vmocks[0].l1proto_mask = M[0].mask; d->dl0 = &vmocks[0]; items = mkitems();
		ev("{\"e\":\"l0new\",\"n\":\"%s\"}", d->dl0->shortname);
	}
#endif
	d->l0_int = (void *)(intptr_t)(n + 1);
	mock_dev[n] = d;
	return 0;
}
#ifdef VARIANT_vcli
static struct cfgi *m_getcfg(struct diag_l0_device *d) { (void)d; return items; }
#else
static struct cfgi *m_getcfg(struct diag_l0_device *d) { (void)d; return NULL; }
#define delitems() ((void)0)
#endif
static void m_del(struct diag_l0_device *d) { int n = dnum(d); delitems(); ev("{\"e\":\"l0del\",\"d\":%d}", n); mock_dev[n] = NULL; }
static int m_open(struct diag_l0_device *d, int proto) {
	struct mdev *m = md(d);
	int rc = m->io < m->no ? m->openrc[m->io++] : 0;
	ev("{\"e\":\"l0open\",\"d\":%d,\"t\":%ld,\"proto\":%d,\"rc\":%d,\"was\":%d,\"th\":%d}", dnum(d), vt_ms(), proto, rc, m->opened, vh_th);
	nested(m, 8);
	if (rc == 0) { m->opened = true; d->opened = true; m->opens++; }
	return rc;
}
static void m_close(struct diag_l0_device *d) {
	struct mdev *m = md(d);
	ev("{\"e\":\"l0close\",\"d\":%d,\"t\":%ld,\"was\":%d,\"th\":%d}", dnum(d), vt_ms(), m->opened, vh_th);
	nested(m, 16);
	m->opened = false; d->opened = false; m->closes++;
	m->np = m->cp = 0; m->armed = false; m->ntx = 0; m->eqn = m->eqi = 0;
}
static uint32_t m_getflags(struct diag_l0_device *d) { return md(d)->flags; }
static int m_send(struct diag_l0_device *d, const void *data, size_t len) {
	struct mdev *m = md(d);
	m_budget(m);
	const uint8_t *b = data;
	int rc = m->is < m->ns ? m->sendrc[m->is++] : 0;
	vt_us += (uint64_t)m->byte_us * len;
	ev("{\"e\":\"tx\",\"d\":%d,\"t\":%ld,\"rc\":%d,\"th\":%d,\"b\":%s}", dnum(d), vt_ms(), rc, vh_th, hexarr(b, len));
	nested(m, 1);
	if (rc) { return rc; }
	if (m->kw) { kw_got(m, b, len); return 0; }
	m->armed = true; m->t_tx = vt_us;
	for (size_t i = 0; i < len; i++) {
		if (m->ntx < MAXB) { m->txacc[m->ntx++] = b[i]; }
		if (m->echo && m->eqn < MAXB - 2) {
			bool f = m->efault_at == (int)m->txcount;
			if (f && m->efault_mode == 1) { }
			else if (f && m->efault_mode == 2) { m->eq[m->eqn++] = b[i] ^ 0x10; }
			else { m->eq[m->eqn++] = b[i]; }
		}
		m->txcount++;
	}
	return 0;
}
static int m_recv(struct diag_l0_device *d, void *data, size_t len, unsigned int timeout) {
	struct mdev *m = md(d);
	m_budget(m);
	nested(m, 2);
	uint8_t *out = data;
	size_t n = 0;
	uint64_t dl = vt_us + 1000ULL * timeout;
	if (m->eqi < m->eqn) {
		while (m->eqi < m->eqn && n < len) { out[n++] = m->eq[m->eqi++]; }
		if (m->eqi == m->eqn) { m->eqi = m->eqn = 0; }
		if (n < len) { vt_us = dl; }
		ev("{\"e\":\"ec\",\"d\":%d,\"t\":%ld,\"w\":%u,\"n\":%zu,\"b\":%s}", dnum(d), vt_ms(), timeout, len, hexarr(out, n));
		return (int)n;
	}
	fire(m);
	bool smart = (m->flags & DIAG_L1_DOESL2FRAME) != 0;
	int err = 0;
	uint64_t t_first = 0;
	while (n < len && m->cp < m->np) {
		struct pend *p = &m->p[m->cp];
		if (p->at > dl) { break; }
		if (p->err) {
			if (n) { break; }
			if (p->at > vt_us) { vt_us = p->at; }
			m->cp++;
			err = p->err;
			ev("{\"e\":\"in\",\"d\":%d,\"t\":%ld,\"err\":%d,\"b\":[]}", dnum(d), (long)((p->at - vt_base) / 1000), err);
			break;
		}
		if (p->off == 0) { ev("{\"e\":\"in\",\"d\":%d,\"t\":%ld,\"err\":0,\"b\":%s}", dnum(d), (long)((p->at - vt_base) / 1000), hexarr(p->b, p->n)); }
		if (p->at > vt_us) { vt_us = p->at; }
		if (!n) { t_first = p->at; }
		while (p->off < p->n && n < len) { out[n++] = p->b[p->off++]; }
		if (p->off >= p->n || smart) { m->cp++; if (smart) { break; } }
	}
	if (m->cp == m->np) { m->cp = m->np = 0; }
	if (err) {
		ev("{\"e\":\"rx\",\"d\":%d,\"t\":%ld,\"w\":%u,\"n\":%zu,\"err\":%d,\"b\":[]}", dnum(d), vt_ms(), timeout, len, err);
		return err;
	}
	if (!n || (n < len && !smart)) { if (vt_us < dl) { vt_us = dl; } }
	(void)t_first;
	ev("{\"e\":\"rx\",\"d\":%d,\"t\":%ld,\"w\":%u,\"n\":%zu,\"err\":0,\"b\":%s}", dnum(d), vt_ms(), timeout, len, hexarr(out, n));
	return n ? (int)n : DIAG_ERR_TIMEOUT;
}
static int m_ioctl(struct diag_l0_device *d, unsigned cmd, void *data) {
	struct mdev *m = md(d);
	nested(m, 4);
	switch (cmd) {
	case DIAG_IOCTL_INITBUS: {
		struct diag_l1_initbus_args *a = data;
		struct initr *r = m->ii < m->ni ? &m->inits[m->ii] : NULL;
		if (r && !r->keep) { m->ii++; }
		ev("{\"e\":\"ib\",\"d\":%d,\"t\":%ld,\"type\":%d,\"addr\":%d,\"tester\":%d,\"phys\":%d,\"rc\":%d}",
		   dnum(d), vt_ms(), a->type, a->addr, a->testerid, a->physaddr, r ? r->rc : 0);
		vt_advance_ms(a->type == DIAG_L1_INITBUS_FAST ? 50 : 2000);
		m->armed = false; m->ntx = 0;
		if (!r) { return 0; }
		if (r->rc) { return r->rc; }
		if (r->kb1 >= 0) { a->kb1 = (uint8_t)r->kb1; a->kb2 = (uint8_t)r->kb2; }
		schedule(m, &r->t, vt_us);
		if (m->kw) { m->kwst = 0; m->kwrn = 0; m->kwseq = 0; m->kwlast = 0; if (m->flags & DIAG_L1_DOESSLOWINIT) { kw_block(m); } }
		return 0;
	}
	case DIAG_IOCTL_SETSPEED: {
		const struct diag_serial_settings *s = data;
		ev("{\"e\":\"speed\",\"d\":%d,\"t\":%ld,\"v\":%u,\"db\":%d,\"sb\":%d,\"par\":%d}", dnum(d), vt_ms(), s->speed, (int)s->databits, (int)s->stopbits, (int)s->parflag);
		return (int)m->ioctl_rc[0];
	}
	case DIAG_IOCTL_IFLUSH: {
		fire(m);
		while (m->cp < m->np && m->p[m->cp].at <= vt_us) { m->cp++; }
		m->eqn = m->eqi = 0;
		if (m->fev) { ev("{\"e\":\"flush\",\"d\":%d,\"t\":%ld}", dnum(d), vt_ms()); }
		return (int)m->ioctl_rc[1];
	}
	case DIAG_IOCTL_SETWM: {
		struct diag_msg *w = data;
		ev("{\"e\":\"wm\",\"d\":%d,\"t\":%ld,\"b\":%s}", dnum(d), vt_ms(), hexarr(w->data, w->len));
		return (int)m->ioctl_rc[2];
	}
	default:
		ev("{\"e\":\"ioctl\",\"d\":%d,\"t\":%ld,\"cmd\":%u}", dnum(d), vt_ms(), cmd);
		return DIAG_ERR_IOCTL_NOTSUPP;
	}
}
#define DEF(N, NAME) const struct diag_l0 N = { "Scripted mock interface", NAME, \
	0xff, m_init, m_new, m_getcfg, m_del, m_open, m_close, m_getflags, m_recv, m_send, m_ioctl }
DEF(vmock, "MOCK");
#ifdef VARIANT_vcli
DEF(vdumb, "DUMB");
#endif

int mock_cmd(const char *op, char **av, int ac) {
	int d = (int)kvi(av, ac, "d", 0);
	struct mdev *m = &M[d];
	if (!strcmp(op, "dev")) {
		m->flags = (uint32_t)kvi(av, ac, "flags", m->flags);
		m->mask = (int)kvi(av, ac, "mask", m->mask);
		m->echo = (int)kvi(av, ac, "echo", 0);
		m->efault_at = (int)kvi(av, ac, "efat", -1);
		m->efault_mode = (int)kvi(av, ac, "efmode", 0);
		m->byte_us = (unsigned)kvi(av, ac, "byteus", 0);
		m->ioctl_rc[0] = kvi(av, ac, "speedrc", 0);
		m->ioctl_rc[2] = kvi(av, ac, "wmrc", 0); m->ioctl_rc[1] = kvi(av, ac, "flushrc", 0); m->fev = (int)kvi(av, ac, "fev", 0);
		vmocks[d] = vmock;
		if (mock_dev[d]) { vmocks[d].l1proto_mask = m->mask; mock_dev[d]->dl0 = &vmocks[d]; }
		return 1;
	}
	if (!strcmp(op, "dnew")) {       /* create driver instances through the public constructor */
		struct diag_l0_device *x = diag_l0_new("MOCK");
		(void)x;
		for (int i = 0; i < MAXDEV; i++) {
			if (mock_dev[i] == x && x) { vmocks[i] = vmock; vmocks[i].l1proto_mask = M[i].mask; x->dl0 = &vmocks[i]; }
		}
		return 1;
	}
	if (!strcmp(op, "ddel")) { diag_l0_del(mock_dev[d]); return 1; }
	if (!strcmp(op, "turn")) { if (m->nt >= 2048) { return 0; } { m->turns[m->nt++] = parse_turn(kv(av, ac, "r", "-")); } return 1; }
	if (!strcmp(op, "push")) { struct turn t = parse_turn(kv(av, ac, "r", "-")); schedule(m, &t, vt_us); return 1; }
	if (!strcmp(op, "openrc")) { if (m->no >= 64) { return 0; } { m->openrc[m->no++] = (int)kvi(av, ac, "rc", 0); } return 1; }
	if (!strcmp(op, "sendrc")) { if (m->ns >= 512) { return 0; } { m->sendrc[m->ns++] = (int)kvi(av, ac, "rc", 0); } return 1; }
	if (!strcmp(op, "init")) {
		if (m->ni >= 256) { return 0; }
		{
			struct initr *r = &m->inits[m->ni++];
			r->rc = (int)kvi(av, ac, "rc", 0); r->keep = (int)kvi(av, ac, "keep", 0); r->kb1 = (int)kvi(av, ac, "kb1", -1); r->kb2 = (int)kvi(av, ac, "kb2", 0);
			r->t = parse_turn(kv(av, ac, "r", "-"));
		}
		return 1;
	}
	if (!strcmp(op, "tab")) {        /* tab d=0 rq=hex(.. any) x=1(exact) r=turn|turn|... */
		if (m->ntab >= 1200) { return 0; }
		struct tabent *e = &m->tab[m->ntab++];
		memset(e, 0, sizeof *e);
		const char *s = kv(av, ac, "rq", "");
		while (s[0] && s[1] && e->n < 300) {
			if (s[0] == '.') { e->m[e->n] = 0; } else { e->m[e->n] = 1; hexbytes(s, &e->v[e->n], 1); }
			e->n++; s += 2;
		}
		e->exact = kvi(av, ac, "x", 0) != 0;
		const char *r = kv(av, ac, "r", "-");
		e->t = __real_calloc(256, sizeof(struct turn));
		char tmp[20000];
		while (*r) {
			if (e->nt >= 256) { return 0; }
			size_t n = strcspn(r, "|");
			memcpy(tmp, r, n); tmp[n] = 0;
			e->t[e->nt++] = parse_turn(tmp);
			r += n; if (*r == '|') { r++; }
		}
		if (!e->nt) { e->nt = 1; }
		return 1;
	}
	if (!strcmp(op, "nested")) { m->ntmask = (int)kvi(av, ac, "v", 0); m->nt_skip = (int)kvi(av, ac, "skip", 0); m->nt_left = (int)kvi(av, ac, "n", 1); return 1; }
	if (!strcmp(op, "kw")) { m->kw = 1; m->kwgap = (int)kvi(av, ac, "g", 2); return 1; }
	if (!strcmp(op, "kwb")) {
		m->kwb = realloc_raw(m->kwb, (size_t)(m->nkwb + 1) * sizeof *m->kwb);
		struct kwblk *k = &m->kwb[m->nkwb++];
		k->s = (int)kvi(av, ac, "s", 0); k->l = (int)kvi(av, ac, "l", -1); k->x = (int)kvi(av, ac, "x", 3);
		k->n = (int)kvhex(av, ac, "b", k->b, 253);
		return 1;
	}
	if (!strcmp(op, "kwf")) { if (m->nkwf >= 32) { return 0; } { m->kwf[m->nkwf++] = (struct kwf){ (int)kvi(av, ac, "n", 0), (int)kvi(av, ac, "mode", 1) }; } return 1; }
	if (!strcmp(op, "failat")) { vm_fail_at = kvi(av, ac, "n", 1); return 1; }
	if (!strcmp(op, "mflags")) { m->flags = (uint32_t)kvi(av, ac, "v", 0); return 1; }
	return 0;
}
