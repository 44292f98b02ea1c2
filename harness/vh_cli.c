/* Command line harness: the CLI engine on a table of test commands (op "cli")
 * and the whole program with its own main() (op "prog").  Standard input is a
 * scripted stream; everything printed between two events is one "out" event. */
#define _GNU_SOURCE
#include "vh.h"
#include <fcntl.h>
#include <ftw.h>
#include <setjmp.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include "diag.h"
#include "diag_cfg.h"
#include "diag_err.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "libcli.h"
#include "scantool.h"
#include "scantool_cli.h"
extern void *__real_malloc(size_t); extern void __real_free(void *);
extern char *vh_capture(void); extern const char *vh_base;
extern void (*ev_pre)(void);
#define RET(fmt, ...) ev("{\"e\":\"ret\",\"op\":\"%s\",\"t\":%ld," fmt "}", op, vt_ms(), __VA_ARGS__)
static bool on;
static void flush_out(void) {
	if (!on) { return; }
	char *s = vh_capture();
	if (*s) { void (*p)(void) = ev_pre; ev_pre = NULL; ev("{\"e\":\"out\",\"t\":%ld,\"s\":%s}", vt_ms(), jstr(s)); ev_pre = p; }
}
static void onabrt(int sig) { flush_out(); signal(sig, SIG_DFL); raise(sig); }
/* ---- scripted standard input ---- */
static char *inp; static size_t inn, inpos;
static bool line_start = true;
static ssize_t in_read(void *c, char *b, size_t n) {
	(void)c;
	if (inpos >= inn) { ev("{\"e\":\"eof\",\"t\":%ld}", vt_ms()); return 0; }
	size_t k = 0;
	if (line_start) {
		size_t e = inpos; while (e < inn && inp[e] != '\n') { e++; }
		char *t = __real_malloc(e - inpos + 1); memcpy(t, inp + inpos, e - inpos); t[e - inpos] = 0;
		ev("{\"e\":\"line\",\"t\":%ld,\"s\":%s}", vt_ms(), jstr(t));
		__real_free(t);
	}
	line_start = false;
	while (k < n && inpos < inn) { b[k++] = inp[inpos++]; if (b[k - 1] == '\n') { line_start = true; break; } }
	return (ssize_t)k;
}
static void open_stdin(char **av, int ac) {
	const char *s = kv(av, ac, "b", "");
	inn = strlen(s) / 2; inp = __real_malloc(inn + 1); inn = hexbytes(s, (uint8_t *)inp, inn); inpos = 0; line_start = true;
	cookie_io_functions_t f = { in_read, NULL, NULL, NULL };
	stdin = fopencookie(NULL, "r", f);
	stderr = stdout; signal(SIGABRT, onabrt);
}
/* ---- is a key waiting? ---- */
static char pend[4096]; static int pendi;
int __wrap_diag_os_ipending(void) {
	int v = pend[pendi] ? pend[pendi++] == '1' : 1;
	ev("{\"e\":\"key\",\"t\":%ld,\"v\":%d}", vt_ms(), v);
	return v;
}
/* ---- scratch directory ---- */
static char wd[4096];
static int rmf(const char *p, const struct stat *s, int f, struct FTW *b) { (void)s; (void)f; (void)b; return remove(p); }
static void scratch(void) {
	if (*wd) { return; }
	char b[4096];
	if (vh_base[0] == '/') { snprintf(b, sizeof b, "%s", vh_base); }
	else { char cw[2048]; if (!getcwd(cw, sizeof cw)) { abort(); } snprintf(b, sizeof b, "%s/%s", cw, vh_base); }
	snprintf(wd, sizeof wd, "%s.wd", b);
	nftw(wd, rmf, 16, FTW_DEPTH | FTW_PHYS);
	if (mkdir(wd, 0755) || chdir(wd)) { abort(); }
}
/* ---- test commands ---- */
static enum cli_retval run(const char *m, const char *n, int argc, char **argv, enum cli_retval rv) {
	size_t cap = 64; for (int i = 0; i < argc; i++) { cap += strlen(argv[i]) * 6 + 8; }
	char *t = __real_malloc(cap); size_t k = 0; t[0] = 0;
	for (int i = 0; i < argc; i++) { k += (size_t)sprintf(t + k, "%s%s", i ? "," : "", jstr(argv[i])); }
	ev("{\"e\":\"run\",\"m\":\"%s\",\"n\":\"%s\",\"a\":[%s]}", m, n, t);
	__real_free(t);
	return rv;
}
#define CMD(M, N, RV) static enum cli_retval c_##M##_##N(int argc, char **argv) { return run(#M, #N, argc, argv, RV); }
CMD(root, alpha, CMD_OK) CMD(root, beta, CMD_OK) CMD(root, fail, CMD_FAILED) CMD(root, use, CMD_USAGE)
CMD(m1, alpha, CMD_OK) CMD(m1, gamma, CMD_OK) CMD(m1, fail, CMD_FAILED) CMD(m1, use, CMD_USAGE)
CMD(m2, alpha, CMD_OK) CMD(m2, any, CMD_OK)
CMD(deep, beta, CMD_OK) CMD(deep, m1, CMD_FAILED)
static const struct cmd_tbl_entry t_deep[] = {
	{ "beta", "beta <x>", "Deep beta", c_deep_beta, 0, NULL },
	{ "m1", "m1 [y]", "Not a menu", c_deep_m1, CLI_CMD_HIDDEN, NULL },
	{ "source", "source <file>", "Run a file", cmd_source, CLI_CMD_FILEARG, NULL },
	CLI_TBL_BUILTINS, CLI_TBL_END };
static enum cli_retval m1_help(int argc, char **argv);
static const struct cmd_tbl_entry t_m1[] = {
	{ "help", "help [command]", "Gives help", m1_help, 0, NULL },
	{ "alpha", "alpha [a]", "First of m1", c_m1_alpha, 0, NULL },
	{ "Gamma", "gamma [g]", "Third", c_m1_gamma, 0, NULL },
	{ "deep", "deep <command>", "Deeper menu", NULL, 0, t_deep },
	{ "fail", "fail", "Fails", c_m1_fail, CLI_CMD_HIDDEN, NULL },
	{ "use", "use <it>", "Wants help", c_m1_use, 0, NULL },
	{ "source", "source <file>", "Run a file", cmd_source, CLI_CMD_FILEARG, NULL },
	CLI_TBL_BUILTINS, CLI_TBL_END };
static enum cli_retval m1_help(int argc, char **argv) { return cli_help_basic(argc, argv, t_m1); }
static enum cli_retval m2_help(int argc, char **argv);
static const struct cmd_tbl_entry t_m2[] = {
	{ "alpha", "alpha", "First of m2", c_m2_alpha, 0, NULL },
	{ "", "", "", c_m2_any, CLI_CMD_CUSTOM | CLI_CMD_HIDDEN, NULL },
	{ "?", "? [command]", "Gives help", m2_help, CLI_CMD_HIDDEN, NULL },
	{ "m1", "m1 <command>", "Another way to m1", NULL, 0, t_m1 },
	CLI_TBL_BUILTINS, CLI_TBL_END };
static enum cli_retval m2_help(int argc, char **argv) { return cli_help_basic(argc, argv, t_m2); }
static enum cli_retval root_help(int argc, char **argv);
static const struct cmd_tbl_entry t_root[] = {
	{ "alpha", "alpha [a [b]]", "First", c_root_alpha, 0, NULL },
	{ "Beta", "beta", "Second", c_root_beta, 0, NULL },
	{ "m1", "m1 <command>", "Menu one", NULL, 0, t_m1 },
	{ "M2", "M2 <command>", "Menu two", NULL, CLI_CMD_HIDDEN, t_m2 },
	{ "fail", "fail", "Fails", c_root_fail, CLI_CMD_HIDDEN, NULL },
	{ "use", "use <this>", "Wants\nhelp", c_root_use, 0, NULL },
	{ "source", "source <file>", "Run a file", cmd_source, CLI_CMD_FILEARG, NULL },
	{ "help", "help [command]", "Gives help for a command", root_help, 0, NULL },
	{ "?", "? [command]", "Gives help for a command", root_help, CLI_CMD_HIDDEN, NULL },
	CLI_TBL_BUILTINS, CLI_TBL_END };
static enum cli_retval root_help(int argc, char **argv) { return cli_help_basic(argc, argv, t_root); }
static void t_log(int argc, char **argv) {
	(void)run("", "", argc, argv, CMD_OK);
}
static void t_atexit(void) { ev("{\"e\":\"atexit\",\"t\":%ld}", vt_ms()); }
/* ---- whole program ---- */
static jmp_buf out_jb; static bool in_prog;
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int rc) {
	if (!in_prog) { __real_exit(rc); }
	ev("{\"e\":\"exit\",\"t\":%ld,\"rc\":%d}", vt_ms(), rc);
	longjmp(out_jb, 1);
}
extern int freediag_main(int, char **);
bool vh_prog;
int cliops(const char *op, char **av, int ac) {
	if (!strcmp(op, "file")) {     /* file n=name b=hex */
		scratch();
		const char *s = kv(av, ac, "b", ""); size_t n = strlen(s) / 2; uint8_t *b = __real_malloc(n + 1); n = hexbytes(s, b, n);
		FILE *f = fopen(kv(av, ac, "n", "x"), "w"); if (!f) { abort(); }
		fwrite(b, 1, n, f); fclose(f); __real_free(b);
		RET("\"rc\":0", 0);
		return 1;
	}
	if (!strcmp(op, "keys")) { snprintf(pend, sizeof pend, "%s", kv(av, ac, "r", "")); pendi = 0; RET("\"rc\":0", 0); return 1; }
	if (!strcmp(op, "slurp")) {    /* what a file holds now */
		static char t[4000000]; FILE *f = fopen(kv(av, ac, "n", "x"), "r"); size_t n = f ? fread(t, 1, sizeof t - 1, f) : 0; t[n] = 0; if (f) { fclose(f); }
		RET("\"rc\":%d,\"s\":%s", f != NULL, jstr(t)); return 1;
	}
	if (!strcmp(op, "htoi")) { int v; char t[600]; size_t n = kvhex(av, ac, "b", (uint8_t *)t, sizeof t - 1); t[n] = 0; v = htoi(t); RET("\"rc\":%d", v); return 1; }
	if (!strcmp(op, "cli")) {      /* cli b=<stdin> [f=init file] */
		scratch(); open_stdin(av, ac);
		struct cli_callbacks cb = { t_log, t_atexit };
		cli_set_callbacks(&cb);
		vh_capture(); on = true; ev_pre = flush_out;
		cli_enter("t", kv(av, ac, "f", NULL), t_root);
		flush_out(); on = false; ev_pre = NULL;
		RET("\"rc\":0", 0);
		return 1;
	}
	if (!strcmp(op, "prog")) {     /* prog b=<stdin> [f=init file] [a=extra argument] */
		scratch(); diag_end(); open_stdin(av, ac);
		char *argv[6]; int argc = 0; argv[argc++] = "freediag";
		const char *f = kv(av, ac, "f", NULL), *a = kv(av, ac, "a", NULL);
		if (a) { argv[argc++] = (char *)a; }
		if (f) { argv[argc++] = "-f"; if (*f) { argv[argc++] = (char *)f; } }
		argv[argc] = NULL;
		vh_capture(); on = true; ev_pre = flush_out; in_prog = vh_prog = true;
		if (setjmp(out_jb) == 0) { int rc = freediag_main(argc, argv); ev("{\"e\":\"exit\",\"t\":%ld,\"rc\":%d}", vt_ms(), rc); }
		fflush(NULL);          /* as exit() would */
		flush_out(); on = false; ev_pre = NULL; in_prog = vh_prog = false;
		int open = 0; for (int i = 0; i < MAXDEV; i++) { if (mock_dev[i] && mock_dev[i]->opened) { open++; } }
		RET("\"rc\":0,\"open\":%d,\"timer\":%d", open, vt_timer_fn != NULL);
		return 1;
	}
	return 0;
}
