/* A serial device behind the file descriptor calls, in virtual time: what the
 * real diag_tty_unix.c does to it is recorded (open, close, bytes written, break)
 * and its state is reported with every result. */
#define _GNU_SOURCE
#include "vh.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/time.h>
#include <asm/termbits.h>
#include <asm/ioctls.h>
#include <sys/ioctl.h>
#include <linux/serial.h>
#include "diag.h"
#include "diag_err.h"
#include "diag_tty.h"
extern void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t); extern void __real_free(void *);
extern void strlist_free(char **, int);
#define FD0 900
static struct { struct termios2 t; int mdm; struct serial_struct ss; int tioc; unsigned base; bool brk; } D, D0;
static bool on;                            /* the code under test is running */
static int nfd, fdfl, ndirs, testfds; static char path[300];
static uint64_t busy;                      /* when the last byte will have left */
struct rb { uint64_t at; uint8_t b; };
static struct rb rx[70000]; static int nrx, crx; static bool echo;
struct act { long n; int err; unsigned us; };
static struct act wr[128], rd[128], sel[128]; static int nwr, cwr, nrd, crd, nsel, csel;
static struct { char k[12]; int at, n; } fl[16]; static int nfl;
static struct { char name[300]; char kind; int dir; } ent[64]; static int nent;
static ttyp *T; static int budget;
static uint64_t now(void) { return vt_us - vt_base; }
static void use(void) { if (--budget < 0) { ev("{\"e\":\"livelock\",\"t\":%ld}", vt_ms()); _Exit(77); } }
static bool failing(const char *k) {
	use();
	for (int i = 0; i < nfl; i++) if (!strcmp(fl[i].k, k) && (fl[i].at < 0 || fl[i].n++ == fl[i].at)) { ev("{\"e\":\"fail\",\"k\":\"%s\"}", k); errno = EIO; return true; }
	return false;
}
static int bits(void) { int c = D.t.c_cflag, n = (c & CSIZE) == CS5 ? 5 : (c & CSIZE) == CS6 ? 6 : (c & CSIZE) == CS7 ? 7 : 8; return n; }
static int par(void) { int c = D.t.c_cflag; return !(c & PARENB) ? 3 : c & CMSPAR ? 9 : c & PARODD ? 2 : 1; }
static int stops(void) { return D.t.c_cflag & CSTOPB ? 2 : 1; }
static const struct { unsigned b, v; } std[] = { {B0,0},{B50,50},{B75,75},{B110,110},{B134,134},{B150,150},{B200,200},{B300,300},{B600,600},{B1200,1200},{B1800,1800},{B2400,2400},{B4800,4800},{B9600,9600},{B19200,19200},{B38400,38400},{B57600,57600},{B115200,115200},{B230400,230400} };
static unsigned achieved(unsigned v) { if (!v || !D.base) return v; unsigned q = (D.base + v / 2) / v; return D.base / (q ? q : 1); }
static void setspeed(struct termios2 *t, bool two) {  /* what a driver makes of the requested speed */
	unsigned b = t->c_cflag & CBAUD;
	if (b == BOTHER) { if (!two) t->c_ospeed = D.t.c_ospeed; else t->c_ospeed = achieved(t->c_ospeed); }
	else for (unsigned i = 0; i < sizeof std / sizeof *std; i++) if (std[i].b == b) t->c_ospeed = std[i].v == 38400 && D.tioc && (D.ss.flags & ASYNC_SPD_MASK) == ASYNC_SPD_CUST && D.ss.custom_divisor ? (unsigned)(D.ss.baud_base / D.ss.custom_divisor) : std[i].v;
	t->c_ispeed = t->c_ospeed;
}
static void apply(const struct termios2 *n, bool two) {
	struct termios2 t = *n; setspeed(&t, two);
	if (!t.c_ospeed) D.mdm &= ~(TIOCM_DTR | TIOCM_RTS);   /* hang up */
	D.t = t;
}
static void drain(void) { if (vt_us < busy) vt_us = busy; }
static void push(uint64_t at, uint8_t b) {
	if (nrx >= 70000) return;
	int p = nrx++;
	for (; p > crx && rx[p - 1].at > at; p--) rx[p] = rx[p - 1];
	rx[p] = (struct rb){ at, b };
}
static void acts(const char *s, struct act *a, int *n, int *c) {   /* 5,0,E4@2000,3@100 */
	*n = *c = 0; char *e;
	while (*s && *n < 128) {
		struct act *x = &a[(*n)++]; memset(x, 0, sizeof *x);
		if (*s == 'E') x->err = (int)strtol(s + 1, &e, 10); else x->n = strtol(s, &e, 10);
		if (*e == '@') x->us = (unsigned)strtoul(e + 1, &e, 10);
		s = *e ? e + 1 : e;
	}
}
void fake_reset(void) {
	memset(&D, 0, sizeof D); on = false; nfd = ndirs = testfds = 0; nrx = crx = 0; busy = 0; nwr = cwr = nrd = crd = nsel = csel = 0; nfl = nent = 0; T = NULL; echo = false; budget = 400000;
	D.t.c_cflag = CS8 | CREAD | B9600 | HUPCL; D.t.c_ispeed = D.t.c_ospeed = 9600; D.mdm = TIOCM_DTR | TIOCM_RTS | TIOCM_CTS; D0 = D;
}
static bool raw(void) {
	return !(D.t.c_iflag & (IGNBRK | BRKINT | PARMRK | ISTRIP | INLCR | IGNCR | ICRNL | IXON | IXOFF)) && !(D.t.c_oflag & OPOST) && !(D.t.c_lflag & (ICANON | ISIG | ECHO | IEXTEN)) &&
		!(D.t.c_cflag & CRTSCTS) && (D.t.c_cflag & CREAD) && (D.t.c_cflag & CLOCAL) && D.t.c_cc[VMIN] == 1;
}
static bool same(void) {
	return D.t.c_iflag == D0.t.c_iflag && D.t.c_oflag == D0.t.c_oflag && D.t.c_cflag == D0.t.c_cflag && D.t.c_lflag == D0.t.c_lflag && !memcmp(D.t.c_cc, D0.t.c_cc, sizeof D.t.c_cc) &&
		D.t.c_ospeed == D0.t.c_ospeed && D.ss.flags == D0.ss.flags && D.ss.custom_divisor == D0.ss.custom_divisor;
}
static void ret(const char *op, long rc, const char *more) {
	int left = 0; for (int i = crx; i < nrx && rx[i].at <= vt_us; i++) left++;
	ev("{\"e\":\"ret\",\"op\":\"%s\",\"t\":%ld,\"u\":%ld,\"rc\":%ld,\"fds\":%d,\"dirs\":%d,\"nb\":%d,\"spd\":%u,\"db\":%d,\"sb\":%d,\"par\":%d,\"raw\":%d,\"mdm\":%d,\"brk\":%d,\"busy\":%ld,\"left\":%d,\"same\":%d%s}",
	   op, vt_ms(), (long)now(), rc, nfd + testfds, ndirs, !!(fdfl & O_NONBLOCK), D.t.c_ospeed, bits(), stops(), par(), raw(), D.mdm, D.brk, busy > vt_us ? (long)(busy - vt_us) : 0L, left, same(), more);
}
int fake_ops(const char *op, char **av, int ac) {
	static uint8_t buf[70000]; static char more[20000];
	if (!strcmp(op, "fdev")) {
		static const struct { unsigned v, b; } x[] = { {1200,B1200},{9600,B9600},{38400,B38400},{115200,B115200},{50,B50} };
		D.t.c_cflag = (unsigned)kvi(av, ac, "cf", CS8 | CREAD | HUPCL) & ~CBAUD; D.t.c_iflag = (unsigned)kvi(av, ac, "if", 0); D.t.c_oflag = (unsigned)kvi(av, ac, "of", 0); D.t.c_lflag = (unsigned)kvi(av, ac, "lf", 0);
		unsigned v = (unsigned)kvi(av, ac, "v", 9600); D.t.c_ispeed = D.t.c_ospeed = v; unsigned b = BOTHER; for (int i = 0; i < 5; i++) if (x[i].v == v) b = x[i].b; D.t.c_cflag |= b;
		D.t.c_cc[VMIN] = (uint8_t)kvi(av, ac, "vmin", 0); D.t.c_cc[VTIME] = (uint8_t)kvi(av, ac, "vtime", 0);
		D.mdm = (int)kvi(av, ac, "mdm", 6); D.tioc = (int)kvi(av, ac, "tioc", 0); D.ss.baud_base = 115200; D.base = (unsigned)kvi(av, ac, "base", 0); D0 = D; echo = kvi(av, ac, "echo", 0);
		ret(op, 0, ""); return 1;
	}
	if (!strcmp(op, "ffail")) {
		const char *k = kv(av, ac, "k", NULL);
		if (!k) nfl = 0; else { memset(&fl[nfl], 0, sizeof fl[0]); snprintf(fl[nfl].k, sizeof fl[0].k, "%s", k); fl[nfl++].at = (int)kvi(av, ac, "at", 0); }
		ret(op, 0, ""); return 1;
	}
	if (!strcmp(op, "fwr")) { acts(kv(av, ac, "r", ""), wr, &nwr, &cwr); ret(op, 0, ""); return 1; }
	if (!strcmp(op, "frd")) { acts(kv(av, ac, "r", ""), rd, &nrd, &crd); ret(op, 0, ""); return 1; }
	if (!strcmp(op, "fsel")) { acts(kv(av, ac, "r", ""), sel, &nsel, &csel); ret(op, 0, ""); return 1; }
	if (!strcmp(op, "frx")) {              /* bytes arriving: microseconds:hex,... each from the previous */
		const char *s = kv(av, ac, "r", ""); char *e; uint64_t at = vt_us;
		while (*s) {
			at += strtoul(s, &e, 10); s = e + 1; uint8_t b[600]; size_t n = hexbytes(s, b, sizeof b); s += 2 * n; if (*s) s++;
			for (size_t i = 0; i < n; i++) { push(at, b[i]); ev("{\"e\":\"arr\",\"u\":%ld,\"b\":%u}", (long)(at - vt_base), b[i]); }
		}
		ret(op, 0, ""); return 1;
	}
	if (!strcmp(op, "fls")) {
		const char *s = kv(av, ac, "r", "");
		while (*s && nent < 64) { size_t n = strcspn(s, ","); snprintf(ent[nent].name, sizeof ent[0].name, "%.*s", (int)(n > 2 ? n - 2 : 0), s); ent[nent].kind = n ? s[n - 1] : 'x'; ent[nent++].dir = (int)kvi(av, ac, "d", 0); s += n; if (*s) s++; }
		ret(op, 0, ""); return 1;
	}
	if (op[0] != 'y') return 0;
	on = true;
	if (!strcmp(op, "yopen")) {
		if (T) { on = false; ret(op, 1, ",\"ok\":1"); return 1; }
		D0 = D;                            /* the port as found */
		T = diag_tty_open(kv(av, ac, "n", "/dev/ttyS0")); on = false; ret(op, T ? 0 : diag_geterr(), T ? ",\"ok\":1" : ",\"ok\":0"); return 1;
	}
	if (!strcmp(op, "yports")) {
		int n = -1; char **l = diag_tty_getportlist(&n); size_t k = (size_t)sprintf(more, ",\"n\":%d,\"null\":%d,\"l\":[", n, l == NULL);
		for (int i = 0; l && i < n; i++) k += (size_t)sprintf(more + k, "%s%s", i ? "," : "", jstr(l[i]));
		strcpy(more + k, "]"); if (l) strlist_free(l, n); on = false; ret(op, 0, more); return 1;
	}
	if (!T) { on = false; ret(op, 1, ",\"b\":[]"); return 1; }
	long rc = 0; more[0] = 0;
	if (!strcmp(op, "yclose")) { diag_tty_close(T); T = NULL; }
	else if (!strcmp(op, "yset")) { struct diag_serial_settings s = { (unsigned)kvi(av, ac, "v", 10400), (enum diag_databits)kvi(av, ac, "db", 8), (enum diag_stopbits)kvi(av, ac, "sb", 1), (enum diag_parity)kvi(av, ac, "par", 3) }; rc = diag_tty_setup(T, &s); }
	else if (!strcmp(op, "yctl")) rc = diag_tty_control(T, (unsigned)kvi(av, ac, "dtr", 0), (unsigned)kvi(av, ac, "rts", 0));
	else if (!strcmp(op, "ywrite")) { size_t n = kvhex(av, ac, "b", buf, sizeof buf); uint8_t *b2 = __real_malloc(n); memcpy(b2, buf, n); rc = (long)diag_tty_write(T, b2, n); __real_free(b2); }
	else if (!strcmp(op, "yread")) {
		size_t n = (size_t)kvi(av, ac, "n", 1); uint8_t *b2 = __real_malloc(n); rc = (long)diag_tty_read(T, b2, n, (unsigned)kvi(av, ac, "w", 100));
		snprintf(more, sizeof more, ",\"b\":%s", hexarr(b2, rc > 0 && (size_t)rc <= n ? (size_t)rc : 0)); __real_free(b2);
	}
	else if (!strcmp(op, "yflush")) rc = diag_tty_iflush(T);
	else if (!strcmp(op, "ybrk")) rc = diag_tty_break(T, (unsigned)kvi(av, ac, "ms", 10));
	else if (!strcmp(op, "yfbrk")) rc = diag_tty_fastbreak(T, (unsigned)kvi(av, ac, "ms", 50));
	else { on = false; return 0; }
	on = false; ret(op, rc, more); return 1;
}
/* ---- the calls ---- */
extern int __real_open(const char *, int, ...), __real_close(int), __real_fcntl(int, int, ...), __real_ioctl(int, unsigned long, ...), __real_isatty(int), __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *), __real_poll(struct pollfd *, nfds_t, int);
extern ssize_t __real_read(int, void *, size_t), __real_write(int, const void *, size_t); extern DIR *__real_opendir(const char *); extern struct dirent *__real_readdir(DIR *); extern int __real_closedir(DIR *), __real_tcdrain(int), __real_tcflush(int, int);
#define MINE(fd) (on && (fd) >= FD0 && (fd) < FD0 + 100)
int __wrap_open(const char *p, int f, ...) {
	va_list ap; va_start(ap, f); int m = f & O_CREAT ? va_arg(ap, int) : 0; va_end(ap);
	if (!on) return __real_open(p, f, m);
	char full[400];
	for (int i = 0; i < nent; i++) {       /* an entry of a directory */
		snprintf(full, sizeof full, "/dev/%s%s", ent[i].dir ? "usb/" : "", ent[i].name);
		if (!strcmp(full, p)) { if (ent[i].kind == 'x') { errno = EACCES; return -1; } testfds++; return FD0 + 10 + i; }
	}
	if (nent) { errno = ENOENT; return -1; }
	snprintf(path, sizeof path, "%s", p);
	bool bad = failing("open");
	ev("{\"e\":\"opn\",\"n\":%s,\"ok\":%d}", jstr(p), !bad && !nfd);
	if (bad || nfd) { errno = bad ? EACCES : EBUSY; return -1; }
	nfd = 1; fdfl = f; return FD0;
}
int __wrap_close(int fd) {
	if (!MINE(fd)) return __real_close(fd);
	if (fd > FD0) { testfds--; return 0; }
	if (!nfd) { ev("{\"e\":\"badfd\"}"); errno = EBADF; return -1; }
	nfd = 0; ev("{\"e\":\"cls\"}"); return 0;
}
static bool dead(int fd) { if (fd == FD0 && nfd) return false; ev("{\"e\":\"badfd\"}"); errno = EBADF; return true; }
int __wrap_fcntl(int fd, int c, ...) {
	va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap);
	if (!MINE(fd)) return __real_fcntl(fd, c, a);
	if (dead(fd)) return -1;
	if (failing("fcntl")) return -1;
	if (c == F_GETFL) return fdfl;
	if (c == F_SETFL) fdfl = (int)a;
	return 0;
}
int __wrap_isatty(int fd) { if (!MINE(fd)) return __real_isatty(fd); if (fd >= FD0 + 10) return ent[fd - FD0 - 10].kind == 't'; return 1; }
static int flush(long q) {
	if (failing("tcflsh")) return -1;
	if (q == 0 || q == 2) { while (crx < nrx && rx[crx].at <= vt_us) crx++; ev("{\"e\":\"flsh\",\"u\":%ld}", (long)now()); }
	if (q == 1 || q == 2) busy = vt_us;
	return 0;
}
int __wrap_ioctl(int fd, unsigned long c, ...) {
	va_list ap; va_start(ap, c); void *a = va_arg(ap, void *); va_end(ap);
	if (!MINE(fd)) return __real_ioctl(fd, c, a);
	if (dead(fd)) return -1;
	use();
	switch (c) {
	case TIOCGSERIAL: if (!D.tioc || failing("gser")) { errno = ENOTTY; return -1; } *(struct serial_struct *)a = D.ss; return 0;
	case TIOCSSERIAL: if (!D.tioc || failing("sser")) { errno = ENOTTY; return -1; } D.ss = *(struct serial_struct *)a; return 0;
	case TIOCMGET: if (failing("mget")) return -1; *(int *)a = D.mdm; return 0;
	case TIOCMSET: if (failing("mset")) return -1; D.mdm = (D.mdm & ~6) | (*(int *)a & 6); return 0;
	case TIOCMBIS: if (failing("mset")) return -1; D.mdm |= *(int *)a & 6; return 0;
	case TIOCMBIC: if (failing("mset")) return -1; D.mdm &= ~(*(int *)a & 6); return 0;
	case TCGETS: if (failing("tcget")) return -1; memcpy(a, &D.t, sizeof(struct termios)); return 0;
	case TCGETS2: if (failing("tcget")) return -1; *(struct termios2 *)a = D.t; return 0;
	case TCSETSF: flush(0); /* fall through */
	case TCSETSW: drain(); /* fall through */
	case TCSETS: { if (failing("tcset")) return -1; struct termios2 t = D.t; memcpy(&t, a, sizeof(struct termios)); apply(&t, false); return 0; }
	case TCSETSF2: flush(0); /* fall through */
	case TCSETSW2: drain(); /* fall through */
	case TCSETS2: if (failing("tcset")) return -1; apply(a, true); return 0;
	case TCSBRK: if (failing("drain")) return -1; drain(); if (!a) { ev("{\"e\":\"brk\",\"u\":%ld,\"on\":1,\"busy\":0}", (long)now()); vt_advance_ms(250); ev("{\"e\":\"brk\",\"u\":%ld,\"on\":0,\"busy\":0}", (long)now()); } return 0;
	case TIOCSBRK: case TIOCCBRK:
		if (failing(c == TIOCSBRK ? "brkon" : "brkoff")) return -1;
		D.brk = c == TIOCSBRK; ev("{\"e\":\"brk\",\"u\":%ld,\"on\":%d,\"busy\":%ld}", (long)now(), D.brk, busy > vt_us ? (long)(busy - vt_us) : 0L); return 0;
	case TCFLSH: return flush((long)a);
	case FIONREAD: { int n = 0; for (int i = crx; i < nrx && rx[i].at <= vt_us; i++) n++; *(int *)a = n; return 0; }
	}
	ev("{\"e\":\"badioctl\",\"c\":%lu}", c); errno = EINVAL; return -1;
}
int __wrap_tcdrain(int fd) { if (!MINE(fd)) return __real_tcdrain(fd); if (failing("drain")) return -1; drain(); return 0; }
int __wrap_tcflush(int fd, int q) { return MINE(fd) ? flush(q) : __real_tcflush(fd, q); }
ssize_t __wrap_write(int fd, const void *b, size_t n) {
	if (!MINE(fd)) return __real_write(fd, b, n);
	if (dead(fd)) return -1;
	use();
	struct act a = { .n = (long)n };
	if (cwr < nwr) a = wr[cwr++];
	vt_us += a.us;
	if (a.err) { if (a.err != EINTR) ev("{\"e\":\"fail\",\"k\":\"write\"}"); else vt_us += 500; errno = a.err; return -1; }
	if (!a.n) vt_us += 500;
	size_t k = (size_t)a.n < n ? (size_t)a.n : n; const uint8_t *p = b;
	if (k) ev("{\"e\":\"wr\",\"u\":%ld,\"spd\":%u,\"db\":%d,\"sb\":%d,\"par\":%d,\"b\":%s}", (long)now(), D.t.c_ospeed, bits(), stops(), par(), hexarr(p, k));
	if (busy < vt_us) busy = vt_us;
	unsigned g = 1 + (unsigned)bits() + (unsigned)stops() + (par() != 3);
	for (size_t i = 0; i < k; i++) {
		busy += D.t.c_ospeed ? (g * 1000000ULL + D.t.c_ospeed - 1) / D.t.c_ospeed : 0;
		if (echo) { push(busy, p[i]); ev("{\"e\":\"arr\",\"u\":%ld,\"b\":%u}", (long)(busy - vt_base), p[i]); }
	}
	return (ssize_t)k;
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
	if (!MINE(fd)) return __real_read(fd, b, n);
	if (dead(fd)) return -1;
	use();
	if (crd < nrd) {
		struct act a = rd[crd++]; vt_us += a.us;
		if (a.err) { if (a.err != EINTR) ev("{\"e\":\"fail\",\"k\":\"read\"}"); errno = a.err; return -1; }
		if (a.n < 0) { ev("{\"e\":\"fail\",\"k\":\"eof\"}"); return 0; }
		if (a.n && (size_t)a.n < n) n = (size_t)a.n;
	}
	if (crx >= nrx || rx[crx].at > vt_us) {
		if (fdfl & O_NONBLOCK) { errno = EAGAIN; return -1; }
		if (crx >= nrx) { ev("{\"e\":\"stuck\",\"u\":%ld}", (long)now()); _Exit(77); }
		vt_us = rx[crx].at;
	}
	size_t k = 0; uint8_t *p = b;
	while (k < n && crx < nrx && rx[crx].at <= vt_us) p[k++] = rx[crx++].b;
	ev("{\"e\":\"rdv\",\"u\":%ld,\"k\":%zu}", (long)now(), k);
	return (ssize_t)k;
}
static int ready(uint64_t us, bool inf) {       /* wait for input: 1 there is some, 0 timed out, -1 interrupted or failed */
	use();
	uint64_t end = vt_us + us;
	if (csel < nsel) {
		struct act a = sel[csel++];
		uint64_t in = crx < nrx ? rx[crx].at : UINT64_MAX;   /* a signal only interrupts a wait that has not ended */
		if (a.err && (a.err != EINTR || (in > vt_us && end > vt_us))) { uint64_t at = vt_us + a.us; if (at >= end) at = end - 1; if (at >= in) at = in - 1; if (at < vt_us) at = vt_us; vt_us = at; if (a.err != EINTR) ev("{\"e\":\"fail\",\"k\":\"select\"}"); errno = a.err; return -1; }
	}
	if (crx < nrx && (inf || rx[crx].at <= end)) { if (rx[crx].at > vt_us) vt_us = rx[crx].at; return 1; }
	if (inf) { ev("{\"e\":\"stuck\",\"u\":%ld}", (long)now()); _Exit(77); }
	vt_us = end; return 0;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
	if (!on) return __real_select(n, r, w, x, tv);
	if (!r || n <= FD0 || !FD_ISSET(FD0, r)) { ev("{\"e\":\"badfd\"}"); return -1; }
	int k = ready(tv ? tv->tv_sec * 1000000ULL + (uint64_t)tv->tv_usec : 0, !tv);
	if (k == 0) FD_CLR(FD0, r);            /* on error the sets are left alone, as the kernel does */
	if (k >= 0 && tv) { tv->tv_sec = 0; tv->tv_usec = 0; }
	return k;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int ms) {
	if (!on || n != 1 || p->fd != FD0) return __real_poll(p, n, ms);
	int k = ready(1000ULL * (unsigned)(ms < 0 ? 0 : ms), ms < 0); p->revents = k > 0 ? POLLIN : 0; return k;
}
struct fdir { int dir, at; struct dirent e; };
DIR *__wrap_opendir(const char *p) {
	if (!on) return __real_opendir(p);
	int d = !strcmp(p, "/dev") || !strcmp(p, "/dev/") ? 0 : !strcmp(p, "/dev/usb") || !strcmp(p, "/dev/usb/") ? 1 : -1;
	bool any = d == 0; for (int i = 0; i < nent; i++) any |= ent[i].dir == d;
	if (d < 0 || !any) { errno = ENOENT; return NULL; }
	struct fdir *f = __real_calloc(1, sizeof *f); f->dir = d; ndirs++; return (DIR *)f;
}
struct dirent *__wrap_readdir(DIR *x) {
	if (!on) return __real_readdir(x);
	struct fdir *f = (struct fdir *)x;
	while (f->at < nent && ent[f->at].dir != f->dir) f->at++;
	if (f->at >= nent) return NULL;
	snprintf(f->e.d_name, sizeof f->e.d_name, "%s", ent[f->at++].name); return &f->e;
}
int __wrap_closedir(DIR *x) { if (!on) return __real_closedir(x); ndirs--; __real_free(x); return 0; }
