/* further op families of the scenario driver: decoders, messages, errors, configuration items */
#define _GNU_SOURCE
#include <fcntl.h>
#include "vh.h"
#include <stdlib.h>
#include <string.h>
#include "diag.h"
#include "diag_cfg.h"
#include "diag_err.h"
#include "diag_l3.h"
#include "diag_l3_iso14230.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_tty.h"
#include "diag_os.h"
void *__real_malloc(size_t);
void __real_free(void *);
#define RET(fmt, ...) ev("{\"e\":\"ret\",\"op\":\"%s\",\"t\":%ld," fmt "}", op, vt_ms(), __VA_ARGS__)
/* ---- message chains ---- */
#define NS 8
static struct diag_msg *M[NS];
static struct cfgi *K[NS];
static const char *ports;            /* what the port scan finds: a|b|c */
char **__wrap_diag_tty_getportlist(int *n) {
	char **l = NULL; *n = 0;
	char t[1024], *q = t, *w; snprintf(t, sizeof t, "%s", ports ? ports : "");
	while (*t && (w = strsep(&q, "|"))) { char **l2 = strlist_add(l, w, *n); if (!l2) { strlist_free(l, *n); *n = 0; l = NULL; break; } l = l2; (*n)++; }
	return l;
}
static void show(struct diag_msg *m, char *o, size_t max) {
	size_t n = 0; int k = 0;
	n += (size_t)snprintf(o, max, "[");
	for (; m && k < 40; m = m->next, k++)
		n += (size_t)snprintf(o + n, max - n, "%s{\"fmt\":%u,\"type\":%u,\"dest\":%u,\"src\":%u,\"rx\":%lu,\"len\":%u,\"b\":%s}", k ? "," : "", (unsigned)m->fmt, (unsigned)m->type, (unsigned)m->dest, (unsigned)m->src, m->rxtime, m->len, hexarr(m->data, m->len));
	snprintf(o + n, max - n, "]");
}
void vh_extra_reset(void) { memset(M, 0, sizeof M); memset(K, 0, sizeof K); ports = NULL; }
static int msgops(const char *op, char **av, int ac) {
	static uint8_t buf[8192]; static char txt[900000];
	long h = kvi(av, ac, "h", 0), a = kvi(av, ac, "a", 0);
	if (!strcmp(op, "mall")) { M[h] = diag_allocmsg((size_t)kvi(av, ac, "n", 0)); RET("\"null\":%d", M[h] == NULL); }
	else if (!strcmp(op, "mset")) {            /* the k-th message of chain h */
		struct diag_msg *m = M[h]; long k = kvi(av, ac, "k", 0); while (m && k--) m = m->next;
		if (m) {
			m->fmt = (uint8_t)kvi(av, ac, "fmt", 0); m->type = (uint8_t)kvi(av, ac, "type", 0); m->dest = (uint8_t)kvi(av, ac, "dest", 0); m->src = (uint8_t)kvi(av, ac, "src", 0); m->rxtime = (unsigned long)kvi(av, ac, "rx", 0);
			size_t n = kvhex(av, ac, "b", buf, sizeof buf); if (n > m->len) n = m->len;
			if (n) memcpy(m->data, buf, n);
		}
		RET("\"rc\":0", 0);
	}
	else if (!strcmp(op, "mlink")) { struct diag_msg **p = &M[h]; while (*p) p = &(*p)->next; *p = M[a]; M[a] = NULL; RET("\"rc\":0", 0); }
	else if (!strcmp(op, "mcut")) {            /* messages after the k-th of h go to a */
		struct diag_msg *m = M[h]; long k = kvi(av, ac, "k", 1); while (m && --k > 0) m = m->next;
		if (m) { M[a] = m->next; m->next = NULL; }
		RET("\"rc\":0", 0);
	}
	else if (!strcmp(op, "mpeel")) {           /* as the protocol layers do: strip a header */
		struct diag_msg *m = M[h]; long n = kvi(av, ac, "n", 0);
		if (m && (long)m->len >= n) { m->data += n; m->len -= (unsigned)n; }
		RET("\"rc\":0", 0);
	}
	else if (!strcmp(op, "mdup")) { M[h] = diag_dupmsg(M[a]); RET("\"null\":%d", M[h] == NULL); }
	else if (!strcmp(op, "mdup1")) { M[h] = diag_dupsinglemsg(M[a]); RET("\"null\":%d", M[h] == NULL); }
	else if (!strcmp(op, "mfree")) { diag_freemsg(M[h]); M[h] = NULL; RET("\"rc\":0", 0); }
	else if (!strcmp(op, "mshow")) { show(M[h], txt, sizeof txt); RET("\"m\":%s", txt); }
	else if (!strcmp(op, "mcks")) { size_t n = kvhex(av, ac, "b", buf, sizeof buf); RET("\"rc\":%d", diag_cks1(buf, (unsigned)n)); }
	else if (!strcmp(op, "eset")) {
		int code = (int)kvi(av, ac, "v", -1), rc = 0; const char *k = kv(av, ac, "k", "i");
		if (!strcmp(k, "i")) rc = diag_iseterr(code);
		else if (!strcmp(k, "if")) rc = diag_ifwderr(code);
		else { void *p = !strcmp(k, "p") ? diag_pseterr(code) : diag_pfwderr(code); rc = p ? 99 : 0; }
		RET("\"rc\":%d", rc);
	}
	else if (!strcmp(op, "elook")) { RET("\"s\":%s", jstr(diag_errlookup((int)kvi(av, ac, "v", 0)))); }
	else return 0;
	return 1;
}
/* ---- configuration items ---- */
static char *hexs(char **av, int ac, const char *k, char *o, size_t max) { size_t n = kvhex(av, ac, k, (uint8_t *)o, max - 1); o[n] = 0; return o; }
static const char *kval(struct cfgi *c) {
	static char o[9000];
	if (!c) return "\"-\"";
	switch (c->type) {
	case CFGT_STR: return c->val.str ? jstr(c->val.str) : "\"<none>\"";
	case CFGT_INT: snprintf(o, sizeof o, "\"%d\"", c->val.i); break;
	case CFGT_U8: snprintf(o, sizeof o, "\"%d\"", c->val.u8); break;
	default: snprintf(o, sizeof o, "\"%d\"", c->val.b); break;
	}
	return o;
}
static int cfgops(const char *op, char **av, int ac) {
	static char s1[4096], s2[4096], pl[1024];
	long h = kvi(av, ac, "h", 0); const char *ty = kv(av, ac, "ty", "");
	struct cfgi *c = K[h]; int rc = 0;
#define KRET RET("\"rc\":%d,\"v\":%s,\"n\":%d", rc, kval(K[h]), K[h] ? K[h]->numopts : 0)
	if (!strcmp(op, "knew")) {
		c = calloc(1, sizeof *c); K[h] = c;
		int v = (int)kvi(av, ac, "v", 0), d = (int)kvi(av, ac, "def", 0);
		if (!strcmp(ty, "int")) rc = diag_cfgn_int(c, v, d);
		else if (!strcmp(ty, "u8")) rc = diag_cfgn_u8(c, (uint8_t)v, (uint8_t)d);
		else if (!strcmp(ty, "bool")) rc = diag_cfgn_bool(c, v != 0, d != 0);
		else if (!strcmp(ty, "str")) rc = diag_cfgn_str(c, hexs(av, ac, "b", s1, sizeof s1), "descr", "name");
		else rc = diag_cfgn_tty(c);
		KRET;
		if (rc) { free(c); K[h] = NULL; }
		return 1;
	}
	if (!strcmp(op, "kports")) { snprintf(pl, sizeof pl, "%s", kv(av, ac, "p", "")); ports = pl; RET("\"rc\":0", 0); return 1; }
	if (strcmp(op, "kset") && strcmp(op, "kself") && strcmp(op, "kopt") && strcmp(op, "kopts") && strcmp(op, "kget") && strcmp(op, "kreset") && strcmp(op, "kclear") && strcmp(op, "kref") && strcmp(op, "kdel")) return 0;
	if (!c) { rc = 1; KRET; return 1; }
	if (!strcmp(op, "kset")) {
		int v = (int)kvi(av, ac, "v", 0);
		if (!strcmp(ty, "int")) rc = diag_cfg_setint(c, v);
		else if (!strcmp(ty, "u8")) rc = diag_cfg_setu8(c, (uint8_t)v);
		else if (!strcmp(ty, "bool")) rc = diag_cfg_setbool(c, v != 0);
		else rc = diag_cfg_setstr(c, hexs(av, ac, "b", s2, sizeof s2));
	}
	else if (!strcmp(op, "kself")) rc = diag_cfg_setstr(c, c->type == CFGT_STR && c->val.str ? c->val.str : "x");
	else if (!strcmp(op, "kopt")) rc = diag_cfg_setopt(c, (int)kvi(av, ac, "v", 0));
	else if (!strcmp(op, "kopts")) {           /* the item's owner installs a list of options */
		const char *old = ports; ports = kv(av, ac, "p", ""); c->opt = __wrap_diag_tty_getportlist(&c->numopts); c->dyn_opt = true; ports = old;
		if (c->type != CFGT_STR) { static char *st[16]; int n = c->numopts, i; for (i = 0; i < n && i < 16; i++) { st[i] = __real_malloc(64); snprintf(st[i], 64, "%s", c->opt[i]); } strlist_free(c->opt, n); c->opt = st; c->dyn_opt = false; }
	}
	else if (!strcmp(op, "kget")) { char *g = diag_cfg_getstr(c); RET("\"rc\":%d,\"v\":%s,\"n\":%d,\"g\":%s", g == NULL, kval(c), c->numopts, jstr(g ? g : "")); free(g); return 1; }
	else if (!strcmp(op, "kreset")) diag_cfg_reset(c);
	else if (!strcmp(op, "kclear")) diag_cfg_clear(c);
	else if (!strcmp(op, "kref")) diag_cfg_refresh(c);
	else if (!strcmp(op, "kdel")) { diag_cfg_clear(c); free(c); K[h] = NULL; }
	KRET;
	return 1;
}
/* ---- the car simulator, through the interface (L0) API ---- */
#ifdef VARIANT_vh
extern const char *vh_base;          /* path prefix for scratch files */
static struct diag_l0_device *SD[4];
static int sim_fds;
static int open_fds(void) { int n = 0; for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) != -1; return n; }
static int simops(const char *op, char **av, int ac) {
	static uint8_t buf[70000];
	long h = kvi(av, ac, "h", 0); struct diag_l0_device *d = h >= 0 && h < 4 ? SD[h] : NULL; int rc = 0;
	if (!strcmp(op, "snew")) { SD[h] = diag_l0_new("CARSIM"); sim_fds = open_fds(); RET("\"null\":%d", SD[h] == NULL); return 1; }
	if (!strcmp(op, "sdb")) {            /* write database file h */
		char p[512]; size_t n = kvhex(av, ac, "b", buf, sizeof buf); snprintf(p, sizeof p, "%s.db%ld", vh_base, h);
		FILE *f = fopen(p, "w"); if (f) { fwrite(buf, 1, n, f); fclose(f); }
		RET("\"rc\":0", 0); return 1;
	}
	if (strcmp(op, "suse") && strcmp(op, "sopen") && strcmp(op, "sclose") && strcmp(op, "ssend") && strcmp(op, "srecv") && strcmp(op, "sinit") && strcmp(op, "sdel")) return 0;
	if (!d) { RET("\"rc\":1", 0); return 1; }
	if (!strcmp(op, "suse")) { char p[512]; snprintf(p, sizeof p, "%s.db%ld", vh_base, kvi(av, ac, "f", 0)); rc = diag_cfg_setstr(diag_l0_getcfg(d), p); RET("\"rc\":%d", rc); }
	else if (!strcmp(op, "sopen")) { rc = diag_l0_open(d, (int)kvi(av, ac, "p", 1)); RET("\"rc\":%d,\"opened\":%d,\"flags\":%u", rc, d->opened, rc ? 0u : (unsigned)diag_l0_getflags(d)); }
	else if (!strcmp(op, "sclose")) { diag_l0_close(d); RET("\"rc\":0,\"opened\":%d", d->opened); }
	else if (!strcmp(op, "sdel")) { diag_l0_del(d); SD[h] = NULL; RET("\"rc\":0,\"files\":%d", open_fds() - sim_fds); }
	else if (!strcmp(op, "ssend")) {
		size_t n = kvhex(av, ac, "b", buf, sizeof buf); uint8_t *b2 = __real_malloc(n ? n : 1); memcpy(b2, buf, n);
		rc = diag_l0_send(d, b2, n); __real_free(b2); RET("\"rc\":%d", rc);
	}
	else if (!strcmp(op, "srecv")) {
		size_t n = (size_t)kvi(av, ac, "n", 300); uint8_t *b2 = __real_malloc(n ? n : 1);
		unsigned long ms = diag_os_getms();
		rc = diag_l0_recv(d, b2, n, (unsigned)kvi(av, ac, "w", 100));
		RET("\"rc\":%d,\"ms\":%lu,\"b\":%s", rc, ms % 1000, hexarr(b2, rc > 0 && (size_t)rc <= n ? (size_t)rc : 0)); __real_free(b2);
	}
	else {
		struct diag_l1_initbus_args in; memset(&in, 0, sizeof in);
		in.type = (uint8_t)kvi(av, ac, "type", 1); in.addr = (uint8_t)kvi(av, ac, "addr", 0x33); in.testerid = 0xf1;
		rc = diag_l0_ioctl(d, DIAG_IOCTL_INITBUS, &in); RET("\"rc\":%d", rc);
	}
	return 1;
}
#elif defined(VARIANT_vhelm)
/* ---- the ELM adapter driver, through the interface (L0) API ---- */
static struct diag_l0_device *SD;
void mtty_sync(void); int mtty_left(void); void mtty_call(void); int mtty_cmd(const char *op, char **av, int ac);
static int simops(const char *op, char **av, int ac) {
	static uint8_t buf[70000]; int rc = 0; struct diag_l0_device *d = SD;
	if (mtty_cmd(op, av, ac)) { RET("\"rc\":0", 0); return 1; }
	if (!strcmp(op, "enew")) { SD = diag_l0_new(kv(av, ac, "n", "ELM")); RET("\"null\":%d", SD == NULL); return 1; }
	if (strcmp(op, "ecfg") && strcmp(op, "eopen") && strcmp(op, "eclose") && strcmp(op, "esend") && strcmp(op, "erecv") && strcmp(op, "einit") && strcmp(op, "ewm") && strcmp(op, "eio") && strcmp(op, "espeed") && strcmp(op, "edel")) return 0;
	if (!d) { RET("\"rc\":1", 0); return 1; }
	if (!strcmp(op, "ecfg")) {
		size_t n = kvhex(av, ac, "b", buf, 200); buf[n] = 0; struct cfgi *c = diag_l0_getcfg(d);
		rc = diag_cfg_setstr(c, (char *)buf) || (c->next && (c->next->type == CFGT_U8 ? diag_cfg_setu8(c->next, (uint8_t)kvi(av, ac, "v", 0x38)) : diag_cfg_setint(c->next, (int)kvi(av, ac, "v", 38400))));
		RET("\"rc\":%d", rc); return 1;
	}
	if (!strcmp(op, "edel")) { if (d->opened) { RET("\"rc\":1", 0); return 1; } diag_l0_del(d); SD = NULL; RET("\"rc\":0", 0); return 1; }
	mtty_call();
	if (!strcmp(op, "eopen")) {
		if (d->opened) { RET("\"rc\":1", 0); return 1; }
		rc = diag_l0_open(d, (int)kvi(av, ac, "p", 1)); mtty_sync(); RET("\"rc\":%d,\"opened\":%d,\"left\":%d,\"flags\":%u", rc, d->opened, mtty_left(), rc ? 0u : (unsigned)diag_l0_getflags(d)); return 1;
	}
	if (!d->opened) { RET("\"rc\":1", 0); return 1; }
	if (!strcmp(op, "eclose")) { diag_l0_close(d); mtty_sync(); RET("\"rc\":0,\"opened\":%d", d->opened); }
	else if (!strcmp(op, "esend")) {
		size_t n = kvhex(av, ac, "b", buf, sizeof buf); uint8_t *b2 = __real_malloc(n ? n : 1); memcpy(b2, buf, n);
		rc = diag_l0_send(d, b2, n); __real_free(b2); mtty_sync(); RET("\"rc\":%d", rc);
	}
	else if (!strcmp(op, "erecv")) {
		size_t n = (size_t)kvi(av, ac, "n", MAXRBUF); uint8_t *b2 = __real_malloc(n ? n : 1);
		rc = diag_l0_recv(d, b2, n, (unsigned)kvi(av, ac, "w", 100)); mtty_sync();
		RET("\"rc\":%d,\"b\":%s", rc, hexarr(b2, rc > 0 && (size_t)rc <= n ? (size_t)rc : 0)); __real_free(b2);
	}
	else if (!strcmp(op, "ewm")) {
		size_t n = kvhex(av, ac, "b", buf, sizeof buf); struct diag_msg m; memset(&m, 0, sizeof m); m.data = __real_malloc(n ? n : 1); memcpy(m.data, buf, n); m.len = (unsigned)n;
		rc = diag_l0_ioctl(d, DIAG_IOCTL_SETWM, &m); __real_free(m.data); mtty_sync(); RET("\"rc\":%d", rc);
	}
	else if (!strcmp(op, "espeed")) {
		struct diag_serial_settings s = { (unsigned)kvi(av, ac, "v", 10400), (enum diag_databits)kvi(av, ac, "db", 8), (enum diag_stopbits)kvi(av, ac, "sb", 1), (enum diag_parity)kvi(av, ac, "par", 3) };
		rc = diag_l0_ioctl(d, DIAG_IOCTL_SETSPEED, &s); mtty_sync(); RET("\"rc\":%d", rc);
	}
	else if (!strcmp(op, "eio")) { rc = diag_l0_ioctl(d, (unsigned)kvi(av, ac, "cmd", 0), NULL); mtty_sync(); RET("\"rc\":%d", rc); }
	else {
		struct diag_l1_initbus_args in; memset(&in, 0, sizeof in);
		in.type = (uint8_t)kvi(av, ac, "type", 1); in.addr = (uint8_t)kvi(av, ac, "addr", 0x33); in.testerid = (uint8_t)kvi(av, ac, "src", 0xf1);
		in.physaddr = (uint8_t)kvi(av, ac, "phys", 0); in.kb1 = 0xEE; in.kb2 = 0xEE;
		rc = diag_l0_ioctl(d, DIAG_IOCTL_INITBUS, &in); mtty_sync(); RET("\"rc\":%d,\"left\":%d,\"kb1\":%d,\"kb2\":%d", rc, mtty_left(), in.kb1, in.kb2);
	}
	return 1;
}
#elif defined(VARIANT_vtty)
int fake_ops(const char *op, char **av, int ac);
static int simops(const char *op, char **av, int ac) { return fake_ops(op, av, ac); }
#else
static int simops(const char *op, char **av, int ac) { (void)op; (void)av; (void)ac; return 0; }
#endif
int vh_extra(const char *op, char **av, int ac) {
	static uint8_t buf[8192];
	if (!strcmp(op, "nrdec")) {
		size_t n = kvhex(av, ac, "b", buf, sizeof buf), bs = (size_t)kvi(av, ac, "bs", 300);
		uint8_t *b2 = __real_malloc(n ? n : 1); memcpy(b2, buf, n);
		struct diag_msg m; memset(&m, 0, sizeof m); m.len = (unsigned)n; m.data = b2;
		char *txt = __real_malloc(bs); memset(txt, 'Z', bs); txt[0] = 0;
		diag_l3_iso14230_decode_response(&m, txt, bs);
		txt[bs - 1] = 0;
		RET("\"out\":%s", jstr(txt));
		__real_free(txt); __real_free(b2);
		return 1;
	}
#ifdef VARIANT_vcli
	extern int cliops(const char *, char **, int);
	if (cliops(op, av, ac)) { return 1; }
#endif
	return simops(op, av, ac) || msgops(op, av, ac) || cfgops(op, av, ac);
}
