/* Scenario driver: executes public API calls of the libraries in /repo against
 * the scripted mock interface, one forked child per scenario, and records a
 * trace (ndjson) of calls, line activity and results. */
#define _GNU_SOURCE
#include "vh.h"
#include <errno.h>
#include <pthread.h>
#include <time.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/resource.h>
#include "diag.h"
#include "diag_cfg.h"
#include "diag_dtc.h"
#include "diag_err.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_l2.h"
#include "diag_l3.h"
#include "diag_l3_saej1979.h"
#include "diag_l7.h"
#include "diag_l7_d2.h"
#include "diag_l7_kwp71.h"
#include "diag_os.h"
#include "diag_tty.h"

extern void *__real_malloc(size_t); extern void __real_free(void *);
#define MAXC 16
static struct diag_l2_conn *C[MAXC];
static struct diag_l3_conn *L3[MAXC];
static struct diag_msg *G[MAXC * 4];
static int outfd = -1;      /* memfd receiving the code's stdout */
static long mark_live;
static int opidx;

static char *msgs_json(struct diag_msg *m) {
	static char *buf; static size_t cap;
	extern void *__real_realloc(void *, size_t);
	size_t n = 0;
	if (!cap) { cap = 65536; buf = __real_malloc(cap); }
	buf[n++] = '[';
	int k = 0;
	for (; m && k < 3000; m = m->next, k++) {
		size_t need = n + m->len * 4 + 200;
		if (need > cap) { cap = need * 2; buf = __real_realloc(buf, cap); }
		n += (size_t)sprintf(buf + n, "%s{\"fmt\":%u,\"type\":%u,\"dest\":%u,\"src\":%u,\"b\":", k ? "," : "", m->fmt, m->type, m->dest, m->src);
		n += (size_t)sprintf(buf + n, "%s}", m->len ? hexarr(m->data, m->len) : "[]");
	}
	buf[n++] = ']'; buf[n] = 0;
	return buf;
}
static char *capture(void) {
	static char text[65536];
	fflush(stdout);
	off_t e = lseek(1, 0, SEEK_CUR);
	text[0] = 0;
	if (e > 0) {
		if (e > (off_t)sizeof text - 1) { e = sizeof text - 1; }
		ssize_t k = pread(1, text, (size_t)e, 0);
		if (k < 0) { k = 0; }
		text[k] = 0;
	}
	if (ftruncate(1, 0) != 0 || lseek(1, 0, SEEK_SET) != 0) { }
	return text;
}
static void rcv_cb(void *h, struct diag_msg *m) { ev("{\"e\":\"cb\",\"h\":%ld,\"t\":%ld,\"m\":%s}", (long)(intptr_t)h, vt_ms(), msgs_json(m)); }
static struct diag_msg mkmsg(char **av, int ac, uint8_t *buf, size_t max) {
	struct diag_msg m;
	memset(&m, 0, sizeof m);
	m.len = (unsigned)kvhex(av, ac, "b", buf, max);
	m.data = buf;
	m.type = (uint8_t)kvi(av, ac, "mtype", 0);
	m.dest = (uint8_t)kvi(av, ac, "mdest", 0);
	m.src = (uint8_t)kvi(av, ac, "msrc", 0);
	m.fmt = (uint8_t)kvi(av, ac, "mfmt", 0);
	return m;
}
#define RET(fmt, ...) ev("{\"e\":\"ret\",\"op\":\"%s\",\"t\":%ld," fmt "}", op, vt_ms(), __VA_ARGS__)
static const char *unesc(const char *s, char *out) { /* + = space, %xx */
	char *o = out;
	for (; *s; s++) {
		if (*s == '+') { *o++ = ' '; }
		else if (*s == '%' && s[1] && s[2]) { uint8_t b; hexbytes(s + 1, &b, 1); *o++ = (char)b; s += 2; }
		else { *o++ = *s; }
	}
	*o = 0;
	return out;
}
static void *race_main(void *x) {
	(void)x;
	vh_th = 1;
	ev("{\"e\":\"rt0\",\"t\":%ld}", vt_ms());
	vt_tick();
	ev("{\"e\":\"rt1\",\"t\":%ld}", vt_ms());
	mock_parked = 2;
	return NULL;
}
static void *release_main(void *x) { (void)x; struct timespec ts = { 0, 25000000 }; extern int __real_nanosleep(const struct timespec *, struct timespec *); __real_nanosleep(&ts, NULL); mock_release = 1; return NULL; }
static pthread_t race_th, rel_th; static int race_on;
static void race_begin(void) {   /* a periodic pass is under way in its own thread, held at its first driver call */
	mock_park(1); race_on = 1;
	extern int __real_nanosleep(const struct timespec *, struct timespec *);
	pthread_create(&race_th, NULL, race_main, NULL);
	while (!mock_parked) { struct timespec ts = { 0, 50000 }; __real_nanosleep(&ts, NULL); }
	pthread_create(&rel_th, NULL, release_main, NULL);
}
static void race_end(void) { if (race_on) { pthread_join(rel_th, NULL); mock_release = 1; pthread_join(race_th, NULL); race_on = 0; } }
int vh_extra(const char *op, char **av, int ac);   /* further op families */
const char *vh_base;

static int run_op(char *line) {
	char *av[64]; int ac = 0;
	char *save = NULL;
	for (char *t = strtok_r(line, " \n", &save); t && ac < 64; t = strtok_r(NULL, " \n", &save)) { av[ac++] = t; }
	if (!ac) { return 0; }
	const char *op = av[0];
	int d = (int)kvi(av, ac, "d", 0);
	int c = (int)kvi(av, ac, "c", 0);
	int h = (int)kvi(av, ac, "h", 0);
	uint8_t *buf = __real_malloc(8192);
	if (!strcmp(op, "race")) { race_begin(); goto done; }
	if (!strcmp(op, "raceend")) { race_end(); goto done; }
	if (mock_cmd(op, av, ac)) { goto done; }
	ev("{\"e\":\"call\",\"i\":%d,\"t\":%ld,\"u\":%ld}", opidx, vt_ms(), (long)(vt_us - vt_base));
	if (!strcmp(op, "adv")) { vt_advance_ms((unsigned)kvi(av, ac, "ms", 0)); RET("\"rc\":0", 0); }
	else if (!strcmp(op, "l1open")) { int rc = diag_l1_open(mock_dev[d], (int)kvi(av, ac, "p", 1)); RET("\"rc\":%d", rc); }
	else if (!strcmp(op, "l1close")) { diag_l1_close(mock_dev[d]); RET("\"rc\":0", 0); }
	else if (!strcmp(op, "l1send")) {
		size_t n = kvhex(av, ac, "b", buf, 4096);
		if (kv(av, ac, "len", NULL)) { n = (size_t)kvi(av, ac, "len", 0); }
		uint8_t *b2 = __real_malloc(n ? n : 1); memset(b2, 0x5a, n); memcpy(b2, buf, n < 4096 ? n : 4096);
		int rc = diag_l1_send(mock_dev[d], b2, n, (unsigned)kvi(av, ac, "p4", 0)); RET("\"rc\":%d", rc);
		__real_free(b2);
	}
	else if (!strcmp(op, "l1recv")) {
		size_t n = (size_t)kvi(av, ac, "n", 1);
		uint8_t *b2 = __real_malloc(n ? n : 1);
		int rc = diag_l1_recv(mock_dev[d], b2, n, (unsigned)kvi(av, ac, "w", 100));
		RET("\"rc\":%d,\"b\":%s", rc, hexarr(b2, rc > 0 ? (size_t)rc : 0));
		__real_free(b2);
	}
	else if (!strcmp(op, "l2open")) { int rc = diag_l2_open(mock_dev[d], (int)kvi(av, ac, "p", 1)); RET("\"rc\":%d", rc); }
	else if (!strcmp(op, "l2close")) { int rc = diag_l2_close(mock_dev[d]); RET("\"rc\":%d", rc); }
	else if (!strcmp(op, "start")) {
		(void)diag_geterr();
		struct diag_l2_conn *x = diag_l2_StartCommunications(mock_dev[d], (int)kvi(av, ac, "p", 1),
			(flag_type)kvi(av, ac, "fl", 0), (unsigned)kvi(av, ac, "br", 10400), (uint8_t)kvi(av, ac, "tgt", 0x10), (uint8_t)kvi(av, ac, "src", 0xf1));
		C[c] = x;
		if (x) {
			struct diag_l2_data dd; memset(&dd, 0, sizeof dd);
			uint32_t l2f = 0;
			diag_l2_ioctl(x, DIAG_IOCTL_GET_L2_DATA, &dd);
			diag_l2_ioctl(x, DIAG_IOCTL_GET_L2_FLAGS, &l2f);
			RET("\"rc\":0,\"kb\":[%u,%u],\"phys\":%u,\"l2f\":%u", dd.kb1, dd.kb2, dd.physaddr, l2f);
		} else { RET("\"rc\":%d,\"kb\":[],\"phys\":0,\"l2f\":0", diag_geterr()); }
	}
	else if (!strcmp(op, "stop")) {
		if (!C[c]) { RET("\"rc\":%d", 1); } else { int rc = diag_l2_StopCommunications(C[c]); C[c] = NULL; RET("\"rc\":%d", rc); }
	}
	else if (!strcmp(op, "send")) {
		if (!C[c]) { RET("\"rc\":%d", 1); } else { struct diag_msg m = mkmsg(av, ac, buf, 8192); int rc = diag_l2_send(C[c], &m); RET("\"rc\":%d", rc); }
	}
	else if (!strcmp(op, "recv")) {
		if (!C[c]) { RET("\"rc\":%d", 1); } else { int rc = diag_l2_recv(C[c], (unsigned)kvi(av, ac, "w", 100), rcv_cb, (void *)(intptr_t)kvi(av, ac, "cbh", 7)); RET("\"rc\":%d", rc); }
	}
	else if (!strcmp(op, "req")) {
		if (!C[c]) { RET("\"rc\":%d", 1); } else {
			struct diag_msg m = mkmsg(av, ac, buf, 8192); int err = (int)kvi(av, ac, "err0", 4711);
			struct diag_msg *r = diag_l2_request(C[c], &m, &err);
			RET("\"null\":%d,\"err\":%d,\"m\":%s", r == NULL, err, msgs_json(r));
			int keep = (int)kvi(av, ac, "keep", -1);
			if (keep >= 0) { G[keep] = r; } else { diag_freemsg(r); }
		}
	}
	else if (!strcmp(op, "gshow")) { RET("\"null\":%d,\"m\":%s", G[h] == NULL, msgs_json(G[h])); }
	else if (!strcmp(op, "gfree")) { diag_freemsg(G[h]); G[h] = NULL; RET("\"rc\":0", 0); }
	else if (!strcmp(op, "l2timer")) { diag_l2_timer(); RET("\"rc\":0", 0); }
	else if (!strcmp(op, "l3timer")) { diag_l3_timer(); RET("\"rc\":0", 0); }
	else if (!strcmp(op, "tick")) { int live = vt_timer_fn != NULL; if (live || kvi(av, ac, "force", 0)) { vt_tick(); } RET("\"rc\":0,\"live\":%d", live); }
	else if (!strcmp(op, "l2ioctl")) {
		uint32_t v = 0; unsigned cmd = (unsigned)kvi(av, ac, "cmd", 0); struct diag_l2_data dd; memset(&dd, 0, sizeof dd);
		if (!C[c]) { RET("\"rc\":%d,\"v\":0", 1); }
		else if (cmd == DIAG_IOCTL_SETSPEED) { struct diag_serial_settings s = { (unsigned)kvi(av, ac, "v", 9600), diag_databits_8, diag_stopbits_1, diag_par_n }; int rc = diag_l2_ioctl(C[c], cmd, &s); RET("\"rc\":%d,\"v\":0", rc); }
		else if (cmd == DIAG_IOCTL_SETWM) { struct diag_msg m = mkmsg(av, ac, buf, 8192); int rc = diag_l2_ioctl(C[c], cmd, &m); RET("\"rc\":%d,\"v\":0", rc); }
		else if (cmd == DIAG_IOCTL_GET_L2_DATA) { int rc = diag_l2_ioctl(C[c], cmd, &dd); RET("\"rc\":%d,\"v\":%d", rc, dd.physaddr * 65536 + dd.kb1 * 256 + dd.kb2); }
		else { int rc = diag_l2_ioctl(C[c], cmd, &v); RET("\"rc\":%d,\"v\":%u", rc, v); }
	}
	else if (!strcmp(op, "l3start")) {
		char nm[100]; unesc(kv(av, ac, "name", "SAEJ1979"), nm);
		(void)diag_geterr();
		L3[h] = diag_l3_start(nm, C[c]);
		RET("\"rc\":%d,\"null\":%d", L3[h] ? 0 : diag_geterr(), L3[h] == NULL);
	}
	else if (!strcmp(op, "l3stop")) { if (!L3[h]) { RET("\"rc\":%d", 1); } else { int rc = diag_l3_stop(L3[h]); L3[h] = NULL; RET("\"rc\":%d", rc); } }
	else if (!strcmp(op, "l3send")) { if (!L3[h]) { RET("\"rc\":%d", 1); } else { struct diag_msg m = mkmsg(av, ac, buf, 8192); int rc = diag_l3_send(L3[h], &m); RET("\"rc\":%d", rc); } }
	else if (!strcmp(op, "l3recv")) {
		if (!L3[h]) { RET("\"rc\":%d,\"out\":\"\"", 1); } else { int rc = diag_l3_recv(L3[h], (unsigned)kvi(av, ac, "w", 100), rcv_cb, (void *)(intptr_t)kvi(av, ac, "cbh", 7)); RET("\"rc\":%d,\"out\":%s", rc, jstr(capture())); }
	}
	else if (!strcmp(op, "l3req")) {
		if (!L3[h]) { RET("\"rc\":%d", 1); } else {
			struct diag_msg m = mkmsg(av, ac, buf, 8192); int err = (int)kvi(av, ac, "err0", 4711);
			struct diag_msg *r = diag_l3_request(L3[h], &m, &err);
			RET("\"null\":%d,\"err\":%d,\"m\":%s", r == NULL, err, msgs_json(r));
			diag_freemsg(r);
		}
	}
	else if (!strcmp(op, "l3dec")) {
		if (!L3[h]) { RET("\"out\":%s", "\"\""); } else {
			struct diag_msg m = mkmsg(av, ac, buf, 8192);
			/* exact-size heap copy so that reads past the message are caught */
			uint8_t *b2 = __real_malloc(m.len ? m.len : 1); memcpy(b2, buf, m.len); m.data = b2;
			size_t bs = (size_t)kvi(av, ac, "bs", 300);
			char *txt = __real_malloc(bs); memset(txt, 'Z', bs); txt[0] = 0;
			diag_l3_decode(L3[h], &m, txt, bs);
			txt[bs - 1] = 0;
			RET("\"out\":%s", jstr(txt));
			__real_free(txt); __real_free(b2);
		}
	}
	else if (!strcmp(op, "dtc")) {
		char *out = __real_malloc(256); memset(out, 'Z', 256);
		size_t n = kvhex(av, ac, "b", buf, 8192);
		out[0] = 0;
		char *r = diag_dtc_decode(buf, (int)n, NULL, NULL, (int)kvi(av, ac, "proto", 0), out, (size_t)kvi(av, ac, "bs", 256));
		out[255] = 0;
		RET("\"out\":%s,\"r\":%s", jstr(out), jstr(r ? r : "(null)"));
		__real_free(out);
	}
	else if (!strcmp(op, "d2") || !strcmp(op, "k71")) {
		const char *f = kv(av, ac, "f", "ping");
		int n = (int)kvi(av, ac, "n", 8), rc = -999, wn;
		bool isd2 = op[0] == 'd';
		uint16_t addr = (uint16_t)kvi(av, ac, "addr", 0);
		uint8_t *out = __real_malloc((size_t)(n > 0 ? n : 1)); memset(out, 0xCC, (size_t)(n > 0 ? n : 1));
		if (!C[c]) { rc = 1; }
		else if (!strcmp(f, "ping")) { rc = isd2 ? diag_l7_d2_ping(C[c]) : diag_l7_kwp71_ping(C[c]); }
		else if (!strcmp(f, "read")) { enum l7_namespace ns = (enum l7_namespace)kvi(av, ac, "ns", 0); rc = isd2 ? diag_l7_d2_read(C[c], ns, addr, n, out) : diag_l7_kwp71_read(C[c], ns, addr, n, out); }
		else if (!strcmp(f, "dtclist")) { rc = isd2 ? diag_l7_d2_dtclist(C[c], n, out) : diag_l7_kwp71_dtclist(C[c], n, out); }
		else if (!strcmp(f, "cleardtc")) { rc = isd2 ? diag_l7_d2_cleardtc(C[c]) : diag_l7_kwp71_cleardtc(C[c]); }
		else if (!strcmp(f, "io")) { rc = diag_l7_d2_io_control(C[c], (uint8_t)addr, (uint8_t)kvi(av, ac, "reps", 0)); }
		else if (!strcmp(f, "run")) { rc = diag_l7_d2_run_routine(C[c], (uint8_t)addr); }
		wn = n;
		RET("\"rc\":%d,\"out\":%s", rc, hexarr(out, (size_t)(wn > 0 ? wn : 0)));
		__real_free(out);
	}
	else if (!strcmp(op, "mark")) { mark_live = vm_live; RET("\"rc\":0", 0); }
	else if (!strcmp(op, "live")) { RET("\"v\":%ld", vm_live - mark_live); }
	else if (!strcmp(op, "geterr")) { RET("\"rc\":%d", diag_geterr()); }
	else if (!strcmp(op, "drain")) { (void)diag_geterr(); (void)capture(); RET("\"rc\":0", 0); }
	else if (!strcmp(op, "end")) { int rc = diag_end(); RET("\"rc\":%d,\"live\":%d", rc, vt_timer_fn != NULL); }
	else if (!strcmp(op, "ini")) { int rc = diag_init(); RET("\"rc\":%d,\"live\":%d", rc, vt_timer_fn != NULL); }
	else if (!vh_extra(op, av, ac)) { ev("{\"e\":\"badop\",\"op\":\"%s\"}", op); }
done:
	__real_free(buf);
	return 0;
}
struct vh_shared { struct diag_msg **G; };
struct diag_msg **vh_G = G;
struct diag_l2_conn **vh_C = C;
struct diag_l3_conn **vh_L3 = L3;
char *vh_capture(void) { return capture(); }
char *vh_msgs(struct diag_msg *m) { return msgs_json(m); }
const char *vh_unesc(const char *s, char *o) { return unesc(s, o); }

int main(int argc, char **argv) {
	(void)argc;
	FILE *in = fopen(argv[1], "r");
	if (!in) { perror("scenario file"); return 3; }
	vh_base = argv[2];
	ev_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
	if (ev_fd < 0) { perror("trace file"); return 3; }
	outfd = memfd_create("out", 0);
	fflush(stdout);
	dup2(outfd, 1);
	int en = open(argc > 3 ? argv[3] : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0644);
	if (en >= 0) { dup2(en, 2); }
	if (diag_init()) { return 3; }
	char *line = NULL; size_t cap = 0;
	char **ops = NULL; int nops = 0, copt = 0; long id = -1;
	extern void *__real_realloc(void *, size_t);
	while (getline(&line, &cap, in) > 0) {
		if (line[0] == 'S' && line[1] == ' ') { id = strtol(line + 2, NULL, 10); nops = 0; continue; }
		if (line[0] != 'E' || line[1] > ' ') {
			if (nops == copt) { copt = copt ? 2 * copt : 256; ops = __real_realloc(ops, sizeof(char *) * (size_t)copt); }
			char *cp = __real_malloc(strlen(line) + 1); strcpy(cp, line);
			ops[nops++] = cp;
			continue;
		}
		ev("{\"e\":\"begin\",\"id\":%ld}", id);
		fflush(stdout);
		pid_t p = fork();
		if (p < 0) { return 3; }
		if (p == 0) {
			alarm(30);
			off_t at = lseek(ev_fd, 0, SEEK_END);   /* endless output ends here */
			struct rlimit rl = { (rlim_t)at + (48 << 20), (rlim_t)at + (48 << 20) };
			setrlimit(RLIMIT_FSIZE, &rl);
			outfd = memfd_create("out", 0);
			dup2(outfd, 1);
			vt_us = 1000000000ULL; vt_base = vt_us;
			mock_reset();
#ifdef VARIANT_vtty
			extern void fake_reset(void); fake_reset();
#endif
			for (opidx = 0; opidx < nops; opidx++) { run_op(ops[opidx]); }
			_exit(0);
		}
		int st = 0;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
		if (WIFSIGNALED(st)) { ev("{\"e\":\"%s\",\"sig\":%d}", WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXFSZ ? "hang" : "crash", WTERMSIG(st)); }
		else if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 77) { ev("{\"e\":\"crash\",\"sig\":%d}", -WEXITSTATUS(st)); }
		ev("{\"e\":\"end\",\"id\":%ld}", id);
		for (int i = 0; i < nops; i++) { __real_free(ops[i]); }
	}
	return 0;
}
