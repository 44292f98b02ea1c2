#define _GNU_SOURCE
#include "vh.h"
#include <ctype.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int ev_fd = 1;
static char ebuf[1 << 16];
static size_t elen;
void ev_flush(void) {
	size_t o = 0;
	while (o < elen) { ssize_t k = write(ev_fd, ebuf + o, elen - o); if (k <= 0) { break; } o += (size_t)k; }
	elen = 0;
}
void (*ev_pre)(void);
void ev(const char *fmt, ...) {
	if (ev_pre) { ev_pre(); }
	va_list ap;
	char *line = NULL;
	va_start(ap, fmt);
	int n = vasprintf(&line, fmt, ap);
	va_end(ap);
	if (n < 0) { abort(); }
	/* libc's own vasprintf allocation is not wrapped: use the real allocator */
	extern void __real_free(void *); extern void *__real_realloc(void *, size_t);
	line = __real_realloc(line, (size_t)n + 2);
	line[n] = '\n';
	if (write(ev_fd, line, (size_t)n + 1) < 0) { _exit(99); }
	__real_free(line);
}
#define NB 16
char *hexarr(const uint8_t *b, size_t n) {
	static __thread char *bufs[NB];
	static __thread int k;
	extern void *__real_realloc(void *, size_t);
	k = (k + 1) % NB;
	bufs[k] = __real_realloc(bufs[k], n * 4 + 8);
	char *p = bufs[k];
	*p++ = '[';
	for (size_t i = 0; i < n; i++) { p += sprintf(p, i ? ",%u" : "%u", b[i]); }
	*p++ = ']';
	*p = 0;
	return bufs[k];
}
char *jstr(const char *s) {
	static __thread char *bufs[NB];
	static __thread int k;
	extern void *__real_realloc(void *, size_t);
	size_t n = strlen(s);
	k = (k + 1) % NB;
	bufs[k] = __real_realloc(bufs[k], n * 6 + 8);
	char *p = bufs[k];
	*p++ = '"';
	for (; *s; s++) {
		unsigned char c = (unsigned char)*s;
		if (c == '"' || c == '\\') { *p++ = '\\'; *p++ = (char)c; }
		else if (c == '\n') { *p++ = '\\'; *p++ = 'n'; }
		else if (c == '\t') { *p++ = '\\'; *p++ = 't'; }
		else if (c < 32 || c > 126) { p += sprintf(p, "\\u%04x", c); }
		else { *p++ = (char)c; }
	}
	*p++ = '"';
	*p = 0;
	return bufs[k];
}
const char *kv(char **av, int ac, const char *key, const char *def) {
	size_t n = strlen(key);
	for (int i = 0; i < ac; i++) {
		if (strncmp(av[i], key, n) == 0 && av[i][n] == '=') { return av[i] + n + 1; }
	}
	return def;
}
long kvi(char **av, int ac, const char *key, long def) {
	const char *s = kv(av, ac, key, NULL);
	return s ? strtol(s, NULL, 0) : def;
}
static int hv(int c) { return isdigit(c) ? c - '0' : tolower(c) - 'a' + 10; }
size_t hexbytes(const char *s, uint8_t *out, size_t max) {
	size_t n = 0;
	while (isxdigit((unsigned char)s[0]) && isxdigit((unsigned char)s[1]) && n < max) {
		out[n++] = (uint8_t)(hv(s[0]) * 16 + hv(s[1]));
		s += 2;
	}
	return n;
}
size_t kvhex(char **av, int ac, const char *key, uint8_t *out, size_t max) {
	const char *s = kv(av, ac, key, "");
	return hexbytes(s, out, max);
}
