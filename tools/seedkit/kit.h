/* Small demonstration kit: a stand-in RTU driver and application for each role. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include "modbus_slave.h"
#include "modbus_master.h"
#include "modbus_driver_interface.h"
#include "modbus_master_data_interface.h"

static int demo_fails;
#define CHECK(c, ...) do { if (!(c)) { printf("FAIL line %d: %s: ", __LINE__, #c); printf(__VA_ARGS__); printf("\n"); demo_fails++; } } while (0)
#define DONE() do { printf(demo_fails ? "property broken\n" : "ok\n"); exit(demo_fails != 0); } while (0)

typedef struct {
    modbus_req_resp_t *rx;
    void (*tx_done)(void), (*t15)(void), (*t35)(void), (*ferr)(void);
    uint8_t out[600]; int out_len; int sends; const uint8_t *live; int inits; baud_t baud; parity_t par; int done_in_send;
} line_t;
static line_t S, M;

#define DRV(L, P) \
    static void P##_init(baud_t b, parity_t p) { L.inits++; L.baud = b; L.par = p; } \
    static void P##_send(modbus_buf_t *d, modbus_buf_size_t n) { L.live = d; memcpy(L.out, d, n); L.out_len = n; L.sends++; if (L.done_in_send) L.tx_done(); } \
    static void P##_en(modbus_req_resp_t *r) { L.rx = r; } \
    static void P##_dis(void) {} \
    static void P##_s1(driver_subscr_cb_t c) { L.t15 = c; } \
    static void P##_s2(driver_subscr_cb_t c) { L.tx_done = c; } \
    static void P##_s3(driver_subscr_cb_t c) { L.t35 = c; } \
    static void P##_s4(driver_subscr_cb_t c) { L.ferr = c; } \
    static const modbus_RTU_driver_struct_t P##_drv = {P##_init, P##_send, P##_en, P##_dis, P##_s1, P##_s2, P##_s3, P##_s4};
DRV(S, sl)
DRV(M, ma)
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &sl_drv; }
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &ma_drv; }

static uint16_t kit_crc(const uint8_t *p, int n) {
    uint16_t c = 0xFFFF;
    while (n--) { c ^= *p++; for (int i = 0; i < 8; i++) c = (c & 1) ? (c >> 1) ^ 0xA001 : c >> 1; }
    return c;
}
static uint8_t fb[600]; static int fn;
/* builds a frame with CRC in fb */
static void frame_v(const uint8_t *p, int n) { memcpy(fb, p, n); uint16_t c = kit_crc(fb, n); fb[n] = c & 0xFF; fb[n + 1] = c >> 8; fn = n + 2; }
#define FRAME(...) do { uint8_t t_[] = {__VA_ARGS__}; frame_v(t_, sizeof t_); } while (0)
static void line_rx(line_t *l, const uint8_t *p, int n) { while (n--) { l->rx->data[l->rx->len] = *p++; l->rx->len++; } }

static void spoll(int n) { while (n--) check_modbus_request(); }
static void mpoll(int n) { while (n--) update_modbus_master_manager(); }
static void s_silence(void) { S.t15(); spoll(4); S.t35(); spoll(4); }
static void m_silence(void) { M.t15(); mpoll(4); M.t35(); mpoll(4); }
/* sends fb to the slave and completes a response; returns its length, 0 if none */
static int s_xfer(void) {
    int before = S.sends; S.out_len = 0;
    line_rx(&S, fb, fn); s_silence();
    if (S.sends == before) return 0;
    if (!S.done_in_send) S.tx_done();
    spoll(4);
    return S.out_len;
}
static int out_is(line_t *l, const uint8_t *p, int n) {
    uint16_t c = kit_crc(p, n);
    return l->out_len == n + 2 && !memcmp(l->out, p, n) && l->out[n] == (c & 0xFF) && l->out[n + 1] == (c >> 8);
}
#define OUT_IS(l, ...) ({ uint8_t t_[] = {__VA_ARGS__}; out_is(&(l), t_, sizeof t_); })
static void s_init(uint8_t id) { modbus_slave_init(RTU, 19200, NONE, id); }
static void m_init(void) { modbus_master_init(RTU, 19200, NONE); }
/* lets the queued request out and completes its transmission */
static void m_sent(void) { mpoll(3); M.tx_done(); mpoll(2); }
/* answers the running request with fb */
static void m_answer(void) { line_rx(&M, fb, fn); m_silence(); }

/* record of the application callbacks */
static char rec[200000]; static int rn;
static void rec_clear(void) { rn = 0; rec[0] = 0; }
#define REC(...) rn += snprintf(rec + rn, sizeof rec - rn, __VA_ARGS__)
void modbus_master_coil_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { REC("c%d,%d=%d ", s, a, v); }
void modbus_master_coil_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { REC("cw%d,%d,%d ", s, a, q); }
void modbus_master_coil_exception(const modbus_read_data_t *r) { REC("cx%d,%d,%d,%d,%d ", r->slave_ID, r->fun_conde, r->exception_code, r->data_adr, r->data_qty); }
void modbus_master_disin_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { REC("d%d,%d=%d ", s, a, v); }
void modbus_master_disin_exception(const modbus_read_data_t *r) { REC("dx%d,%d,%d,%d,%d ", r->slave_ID, r->fun_conde, r->exception_code, r->data_adr, r->data_qty); }
void modbus_master_hreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { REC("h%d,%d=%d ", s, a, v); }
void modbus_master_hreg_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { REC("hw%d,%d,%d ", s, a, q); }
void modbus_master_hreg_exception(const modbus_read_data_t *r) { REC("hx%d,%d,%d,%d,%d ", r->slave_ID, r->fun_conde, r->exception_code, r->data_adr, r->data_qty); }
void modbus_master_inreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { REC("i%d,%d=%d ", s, a, v); }
void modbus_master_inreg_exception(const modbus_read_data_t *r) { REC("ix%d,%d,%d,%d,%d ", r->slave_ID, r->fun_conde, r->exception_code, r->data_adr, r->data_qty); }
void modbus_master_data_timeout_error(const modbus_master_error_report_t *r) { REC("to%d,%d,%d,%d,%d ", r->slave_ID, r->fun_conde, r->data_adr, r->data_qty, r->resp_read_error); }
void modbus_master_communication_error(const modbus_master_error_report_t *r) { REC("ce%d,%d,%d,%d,%d ", r->slave_ID, r->fun_conde, r->data_adr, r->data_qty, r->resp_read_error); }
static int rec_is(const char *s) { return !strcmp(rec, s); }

static modbus_coil_disin_t co[65536], di[65536]; static modbus_reg_t hr[65536], ir[65536];
static void reg_all(int n) {
    for (int i = 0; i < n; i++) {
        register_app_data_to_modbus_slave_coils_table(i, &co[i]); register_app_data_to_modbus_slave_din_table(i, &di[i]);
        register_app_data_to_modbus_slave_hreg_table(i, &hr[i]); register_app_data_to_modbus_slave_inreg_table(i, &ir[i]);
    }
}
