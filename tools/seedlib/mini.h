/* a small scripted interface for demonstrations: linked against the built libdiag.a.
   The demo defines  static void on_tx(const uint8_t *b, size_t n);  and pushes bursts with rx(). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include "diag.h"
#include "diag_os.h"
#include "diag_err.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_l2.h"
#include "diag_l3.h"
#include "diag_cfg.h"
static uint32_t mini_flags = DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_PREFFAST | DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY;
static struct { unsigned long at; size_t n; uint8_t b[300]; size_t off; } mini_q[256];
static int mini_nq, mini_cq, mini_kb1 = -1, mini_kb2 = -1;
static void on_tx(const uint8_t *b, size_t n);
static void rxb(int delay, const uint8_t *b, size_t n) {
	unsigned long base = mini_nq > mini_cq ? mini_q[mini_nq - 1].at : diag_os_getms();
	if (base < diag_os_getms()) { base = diag_os_getms(); }
	mini_q[mini_nq].at = base + (unsigned long)delay; mini_q[mini_nq].n = n; mini_q[mini_nq].off = 0;
	memcpy(mini_q[mini_nq].b, b, n); mini_nq++;
}
#define RX(delay, ...) do { const uint8_t b_[] = { __VA_ARGS__ }; rxb(delay, b_, sizeof b_); } while (0)
static int mi_init(void) { return 0; }
static int mi_new(struct diag_l0_device *d) { (void)d; return 0; }
static struct cfgi *mi_cfg(struct diag_l0_device *d) { (void)d; return NULL; }
static void mi_del(struct diag_l0_device *d) { (void)d; }
static int mi_open(struct diag_l0_device *d, int p) { (void)p; d->opened = true; return 0; }
static void mi_close(struct diag_l0_device *d) { d->opened = false; }
static uint32_t mi_flags(struct diag_l0_device *d) { (void)d; return mini_flags; }
static int mi_send(struct diag_l0_device *d, const void *b, size_t n) { (void)d; on_tx(b, n); return 0; }
static int mi_recv(struct diag_l0_device *d, void *data, size_t len, unsigned int to) {
	(void)d; uint8_t *o = data; size_t n = 0; unsigned long dl = diag_os_getms() + to;
	while (n < len) {
		unsigned long now = diag_os_getms();
		if (mini_cq < mini_nq && mini_q[mini_cq].at <= dl) {
			if (mini_q[mini_cq].at > now) { usleep(1000); continue; }
			while (mini_q[mini_cq].off < mini_q[mini_cq].n && n < len) { o[n++] = mini_q[mini_cq].b[mini_q[mini_cq].off++]; }
			if (mini_q[mini_cq].off == mini_q[mini_cq].n || (mini_flags & DIAG_L1_DOESL2FRAME)) { mini_cq++; }
			if (mini_flags & DIAG_L1_DOESL2FRAME) { break; }
			continue;
		}
		if (now >= dl) { break; }
		usleep(1000);
	}
	return n ? (int)n : DIAG_ERR_TIMEOUT;
}
static int mi_ioctl(struct diag_l0_device *d, unsigned cmd, void *data) {
	(void)d;
	if (cmd == DIAG_IOCTL_INITBUS) {
		struct diag_l1_initbus_args *a = data;
		if (mini_kb1 >= 0) { a->kb1 = (uint8_t)mini_kb1; a->kb2 = (uint8_t)mini_kb2; }
		return 0;
	}
	if (cmd == DIAG_IOCTL_IFLUSH || cmd == DIAG_IOCTL_SETSPEED || cmd == DIAG_IOCTL_SETWM) { return 0; }
	return DIAG_ERR_IOCTL_NOTSUPP;
}
static const struct diag_l0 mini_l0 = { "mini", "MINI", 0xff, mi_init, mi_new, mi_cfg, mi_del, mi_open, mi_close, mi_flags, mi_recv, mi_send, mi_ioctl };
const struct diag_l0 *l0dev_list[] = { &mini_l0, NULL };
extern const struct diag_l2_proto diag_l2_proto_iso9141, diag_l2_proto_iso14230, diag_l2_proto_mb1, diag_l2_proto_raw, diag_l2_proto_saej1850, diag_l2_proto_vag, diag_l2_proto_d2;
const struct diag_l2_proto *l2proto_list[] = { &diag_l2_proto_iso9141, &diag_l2_proto_iso14230, &diag_l2_proto_mb1, &diag_l2_proto_raw, &diag_l2_proto_saej1850, &diag_l2_proto_vag, &diag_l2_proto_d2, NULL };
extern const struct diag_l3_proto diag_l3_j1979, diag_l3_vag, diag_l3_iso14230;
const struct diag_l3_proto *diag_l3_protocols[] = { &diag_l3_j1979, &diag_l3_vag, &diag_l3_iso14230, NULL };
static struct diag_l0_device *mini_dev;
static void need(int c, const char *what) { if (!c) { printf("FAIL: %s\n", what); exit(1); } }
static void mini_open(int l1proto) {
	need(diag_init() == 0, "diag_init");
	mini_dev = diag_l0_new("MINI"); need(mini_dev != NULL, "diag_l0_new");
	need(diag_l2_open(mini_dev, l1proto) == 0, "diag_l2_open");
}
