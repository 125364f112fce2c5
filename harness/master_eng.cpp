#include "master_eng.hpp"
MasterCheck MC;
static const uint8_t FCS[8] = {1, 2, 3, 4, 5, 6, 15, 16};
bool is_read(int fc) { return fc <= 4; }
unsigned max_qty(int fc) { return fc <= 2 ? 2000 : fc <= 4 ? 125 : fc <= 6 ? 1 : fc == 15 ? 1968 : 123; }
bool valid_qty(const Req &r) { return r.fc == 5 || r.fc == 6 || (r.qty >= 1 && r.qty <= max_qty(r.fc)); }
void finish_req(Req &r) {
    r.rqty = (r.fc == 5 || r.fc == 6) ? 1 : r.qty;
    Bytes &b = r.adu;
    b = {r.id, r.fc, (uint8_t)(r.adr >> 8), (uint8_t)r.adr};
    if (r.fc == 5) { b.push_back(r.vals[0] ? 0xFF : 0); b.push_back(0); }
    else if (r.fc == 6) { b.push_back(r.vals[0] >> 8); b.push_back(r.vals[0]); }
    else { b.push_back(r.qty >> 8); b.push_back(r.qty); }
    if (r.fc == 15) {
        unsigned bc = (r.qty + 7) / 8; b.push_back(bc);
        size_t o = b.size(); b.resize(o + bc, 0);
        for (unsigned i = 0; i < r.qty; i++) if (r.vals[i]) b[o + i / 8] |= 1 << (i % 8);
    } else if (r.fc == 16) {
        b.push_back(2 * r.qty);
        for (unsigned i = 0; i < r.qty; i++) { b.push_back(r.vals[i] >> 8); b.push_back(r.vals[i]); }
    }
    put_crc(b);
}
static void rnd_vals(Req &r, unsigned n) {
    r.vals.resize(n);
    int st = R.below(6);
    for (auto &v : r.vals) v = (r.fc == 5 || r.fc == 15) ? (st == 0 ? 1 : st == 1 ? 0 : R.below(2)) : (st == 0 ? 0xFFFF : st == 1 ? 0 : st == 2 ? R.byte() : R.u16());
    if (r.fc >= 15 && st == 3) for (auto &v : r.vals) v = 0;
    if (r.fc == 16 && st == 4) for (unsigned i = 0; i < n; i++) r.vals[i] = i * 0x0101;
}
Req gen_req(int fc, int id) {
    Req r;
    r.fc = fc ? fc : FCS[R.below(8)];
    static uint8_t lastid = 1;
    r.id = id ? id : R.chance(40) ? lastid : R.chance(20) ? (R.chance(50) ? 1 : 247) : R.range(1, 247);
    lastid = r.id;
    r.qty = (r.fc == 5 || r.fc == 6) ? 0 : R.chance(50) ? R.range(1, std::min(max_qty(r.fc), 12u)) : pick_qty(max_qty(r.fc));
    switch (R.below(6)) {
    case 0: r.adr = 0; break;
    case 1: r.adr = 0xFFFF - R.below(3); break;
    case 2: r.adr = 0x10000 - std::max<unsigned>(r.qty, 1); break;
    case 3: r.adr = R.below(256) << 8 | R.below(2) * 0xFF; break;
    default: r.adr = R.u16();
    }
    if (r.fc >= 5) rnd_vals(r, r.fc <= 6 ? 1 : r.qty);
    finish_req(r);
    return r;
}
Req gen_refused() {
    Req r; static const uint8_t F[6] = {1, 2, 3, 4, 15, 16};
    r.fc = F[R.below(6)]; r.id = R.range(1, 247); r.adr = R.u16();
    unsigned m = max_qty(r.fc);
    switch (R.below(7)) {
    case 0: r.qty = 0; break;
    case 1: r.qty = m + 1; break;
    case 2: r.qty = m + R.range(1, 20); break;
    case 3: r.qty = 0xFFFF - R.below(3); break;
    case 4: r.qty = (R.range(1, 255) << 8) | R.range(1, std::min(m, 255u)); break; // small in the low byte
    case 5: r.qty = r.fc == 15 ? (R.chance(50) ? 2000 : R.range(1969, 2048)) : r.fc <= 2 ? R.range(2001, 2048) : R.range(m + 1, 256); break;
    default: r.qty = R.range(m + 1, 0xFFFF);
    }
    if (valid_qty(r)) r.qty = 0;
    return r;
}

std::string cb_str(const Cb &c) {
    static const char *N[] = {"coil_read", "disin_read", "hreg_read", "inreg_read", "coil_write", "hreg_write", "coil_exception", "disin_exception", "hreg_exception", "inreg_exception", "timeout_error", "communication_error"};
    char b[160];
    if (c.k <= K_HREGWR) snprintf(b, sizeof b, "%s(slave %u, address %u, %s %u)", N[c.k], c.id, c.adr, c.k >= K_COILWR ? "quantity" : "value", c.v);
    else snprintf(b, sizeof b, "%s(slave %u, function %u, address %u, quantity %u, code %u)", N[c.k], c.id, c.fc, c.adr, c.v, c.code);
    return b;
}

bool acceptable(const Req &r, const uint8_t *f, unsigned n) {
    if (n < 4 || f[0] != r.id || !crc_ok(f, n)) return false;
    if (f[1] == (r.fc | 0x80)) return n == 5;
    if (f[1] != r.fc) return false;
    if (is_read(r.fc)) { unsigned bc = r.fc <= 2 ? (r.qty + 7) / 8 : 2 * r.qty; return f[2] == bc && n == 3 + bc + 2; }
    return n == 8 && !memcmp(f + 2, r.adu.data() + 2, 4);
}
std::vector<Cb> outcome_of(const Req &r, const uint8_t *f, unsigned) {
    std::vector<Cb> v;
    if (f[1] & 0x80) {
        int k = (r.fc == 1 || r.fc == 5 || r.fc == 15) ? K_COILEX : r.fc == 2 ? K_DINEX : r.fc == 4 ? K_IREGEX : K_HREGEX;
        v.push_back({k, r.id, r.adr, r.rqty, r.fc, f[2]});
    } else if (is_read(r.fc)) {
        static const int K[5] = {0, K_COILRD, K_DINRD, K_HREGRD, K_IREGRD};
        for (unsigned i = 0; i < r.qty; i++)
            v.push_back({K[r.fc], r.id, (uint16_t)(r.adr + i), r.fc <= 2 ? (uint32_t)(f[3 + i / 8] >> (i % 8) & 1) : (uint32_t)(f[3 + 2 * i] << 8 | f[4 + 2 * i]), 0, 0});
    } else v.push_back({r.fc == 5 || r.fc == 15 ? K_COILWR : K_HREGWR, r.id, r.adr, r.rqty, 0, 0});
    return v;
}

// ---- the checker ----
Req &cur() { return MC.q.front(); }
void MasterCheck::finish() {
    n_out++;
    if (q.empty()) return;
    last = q.front().adu;
    q.pop_front(); st = IDLE; attempts = 0; due.clear(); pos = 0; grp.clear(); gpos = 0; due_retry = false; t15_since = false; snap15.clear();
}
void MasterCheck::good(const uint8_t *f, unsigned n) { st = DUE; due_retry = false; due = outcome_of(q[0], f, n); pos = 0; }
void MasterCheck::bad(int kind) {
    st = DUE; due.clear(); pos = 0; errkind = kind;
    due_retry = attempts <= LC.retries;
}
static bool fail_req(const char *key, const char *what, const Cb *c) {
    std::string r = MC.q.empty() ? "none" : hex(MC.q[0].adu.data(), std::min<size_t>(MC.q[0].adu.size(), 24));
    static const char *S[] = {"idle", "transmitting", "waiting for the response", "response complete"};
    return fail(key, "%s: %s; running request %s (%s, attempt %u)", what, c ? cb_str(*c).c_str() : "", r.c_str(), S[MC.st], MC.attempts);
}
static void on_master_send(const uint8_t *m, unsigned n) {
    if (MC.in_api) { fail("send-in-api", "a transmission was started by a request function"); return; }
    if (MC.q.empty()) { fail("send-of-nothing", "transmission of %s although no request is queued", hex(m, n).c_str()); return; }
    Req &r = MC.q[0];
    if (MC.st == MasterCheck::IDLE) {}
    else if (MC.st == MasterCheck::DUE && MC.due_retry && MC.pos == 0) MC.n_retry++;
    else if (MC.relaxed && MC.st == MasterCheck::WAIT && MC.attempts <= LC.retries && MC.t15_since && MC.grp.empty()) MC.n_retry++;
    else { fail_req("unexpected-send", ("unexpected transmission of " + hex(m, n)).c_str(), nullptr); return; }
    if (n != r.adu.size() || memcmp(m, r.adu.data(), n) != 0) {
        Bytes sent(m, m + n); bool order = sent == MC.last;
        for (size_t i = 1; i < MC.q.size() && !MC.attempts; i++) if (MC.q[i].adu == sent) order = true;
        if (fail(order ? "wrong-order" : MC.attempts ? "retry-differs" : "wrong-request-frame", "%s %s, expected %s", MC.attempts ? "retransmission" : "transmitted request", hex(m, n).c_str(), hex(r.adu.data(), r.adu.size()).c_str())) return;
        if (!MC.attempts) r.adu = sent; // another property's business: retransmissions must equal it
    }
    MC.attempts++; MC.st = MasterCheck::TX; MC.due_retry = false; MC.seen = false; MC.t15_since = false; MC.snap15.clear();
    COUNT("transmissions", 1);
}
static void on_master_txdone() {
    if (MC.st == MasterCheck::TX) { MC.st = MasterCheck::WAIT; MC.ticks_tx = MC.ticks_seen = 0; MC.seen = false; }
}
static bool err_fields_ok(const Cb &c) { const Req &r = MC.q[0]; return c.id == r.id && c.fc == r.fc && c.adr == r.adr && c.v == r.rqty; }
static void check_cb(const Cb &c) {
    if (MC.in_api) { fail("callback-in-api", "callback from a request function: %s", cb_str(c).c_str()); return; }
    if (MC.q.empty() || MC.st == MasterCheck::IDLE || MC.st == MasterCheck::TX) { fail_req("unexpected-callback", "report although no response can have been received", &c); return; }
    const Req &r = MC.q[0];
    if (c.k == K_TMO) {
        if (MC.st != MasterCheck::WAIT) { fail_req("unexpected-timeout", "timeout reported although the response has been received", &c); return; }
        if (!MC.grp.empty()) { fail_req("incomplete-data", "timeout report in the middle of the data", &c); return; }
        if (MC.ticks_tx + 1 < LC.timeout && fail("early-timeout", "timeout reported %llu ticks after the end of the transmission, configured %u: %s", (unsigned long long)MC.ticks_tx, LC.timeout, cb_str(c).c_str())) return;
        if ((!err_fields_ok(c) || c.code != MODBUS_MASTER_RESP_TIMEOUT_ERR) && fail_req("wrong-report", "timeout report does not describe the failed request", &c)) return;
        MC.n_tmo++; COUNT("timeout reports", 1);
        MC.finish(); return;
    }
    if (c.k == K_COMM) {
        bool ok = MC.st == MasterCheck::DUE ? MC.due.empty() && !MC.due_retry : MC.relaxed && MC.t15_since && MC.grp.empty() && MC.attempts == LC.retries + 1;
        if (!ok) { fail_req("unexpected-error-report", "unexpected communication error report", &c); return; }
        if (!err_fields_ok(c) && fail_req("wrong-report", "communication error report does not describe the failed request", &c)) return;
        int want = MC.st == MasterCheck::DUE ? MC.errkind : EK_ANY;
        if ((want == EK_ANY ? (c.code != MODBUS_MASTER_RESP_RTU_CRC_ERR && c.code != MODBUS_MASTER_RESP_FRAME_ERR) : (int)c.code != want) && fail_req("wrong-error-kind", want == EK_CRC ? "communication error report is not of CRC kind" : "communication error report is not of frame error kind", &c)) return;
        MC.n_comm++; COUNT("communication error reports", 1);
        MC.finish(); return;
    }
    // data, confirmation, exception
    std::vector<Cb> *e = &MC.due; size_t *p = &MC.pos;
    if (MC.relaxed && MC.st == MasterCheck::WAIT) {
        if (MC.grp.empty()) { // begins a delivery: something acceptable must have been received
            const uint8_t *f = DM.rx ? DM.rx->data : nullptr; unsigned n = DM.rx ? DM.rx->len : 0;
            if (MC.lax) {
                Bytes z = c.k >= K_COILEX ? gen_exc(r, c.code) : gen_good(r);
                MC.grp = outcome_of(r, z.data(), z.size());
            } else if (f && acceptable(r, f, n)) MC.grp = outcome_of(r, f, n);
            else if (acceptable(r, MC.snap15.data(), MC.snap15.size())) MC.grp = outcome_of(r, MC.snap15.data(), MC.snap15.size());
            else { fail_req("delivery-without-answer", ("report although nothing that answers the request was received (" + hex(f, n) + ")").c_str(), &c); return; }
            MC.gpos = 0;
        }
        e = &MC.grp; p = &MC.gpos;
    } else if (MC.st != MasterCheck::DUE || MC.due.empty()) { fail_req("unexpected-callback", "unexpected report", &c); return; }
    if (MC.lax && *p < e->size()) { if (c.k <= K_IREGRD) (*e)[*p].v = c.v; else (*e)[*p].id = c.id; } // bytes arriving during the report may wrap around in the driver's 256 byte buffer
    if (*p >= e->size() || !((*e)[*p] == c)) { int ek = *p < e->size() ? (*e)[*p].k : c.k; if (fail(ek <= K_IREGRD ? "wrong-callback:data" : ek <= K_HREGWR ? "wrong-callback:confirmation" : "wrong-callback:exception", "got %s, expected %s", cb_str(c).c_str(), *p < e->size() ? cb_str((*e)[*p]).c_str() : "nothing") || *p >= e->size()) return; }
    if (++*p == e->size()) {
        if (c.k >= K_COILEX) { MC.n_exc++; COUNT("exception reports", 1); } else { MC.n_ok++; COUNT("successful requests", 1); }
        MC.finish();
    }
}
static void on_cb(const Cb &c) {
    bool hk = H.on; H.on = false;
    VLOG("  M callback %s", cb_str(c).c_str());
    COUNT("callbacks", 1);
    watch_app(cb_str(c).c_str());
    if (!MC.in_poll) fail("callback-outside-poll", "callback outside the manager: %s", cb_str(c).c_str());
    MC.in_cb = true;
    check_cb(c);
    if (MC.sink) MC.sink(c);
    if (MC.cb_hook && !C.failed) MC.cb_hook();
    MC.in_cb = false;
    H.on = hk;
}
template <class T> static uint32_t en(const T &e) { uint32_t v = 0; memcpy(&v, &e, sizeof e); return v; } // enum objects may hold any value
static void on_exc(int k, const modbus_read_data_t *d) {
    if (!d) { fail("null-report", "exception report without data"); return; }
    on_cb({k, d->slave_ID, d->data_adr, d->data_qty, en(d->fun_conde), en(d->exception_code)});
}
static void on_err(int k, const modbus_master_error_report_t *d) {
    if (!d) { fail("null-report", "error report without data"); return; }
    on_cb({k, d->slave_ID, d->data_adr, d->data_qty, en(d->fun_conde), en(d->resp_read_error)});
}
static uint32_t bv(modbus_coil_disin_t b) { uint8_t x; memcpy(&x, &b, 1); return x; }
extern "C" {
void modbus_master_coil_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { on_cb({K_COILRD, s, a, bv(v), 0, 0}); }
void modbus_master_disin_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { on_cb({K_DINRD, s, a, bv(v), 0, 0}); }
void modbus_master_hreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { on_cb({K_HREGRD, s, a, v, 0, 0}); }
void modbus_master_inreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { on_cb({K_IREGRD, s, a, v, 0, 0}); }
void modbus_master_coil_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { on_cb({K_COILWR, s, a, q, 0, 0}); }
void modbus_master_hreg_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { on_cb({K_HREGWR, s, a, q, 0, 0}); }
void modbus_master_coil_exception(const modbus_read_data_t *d) { on_exc(K_COILEX, d); }
void modbus_master_disin_exception(const modbus_read_data_t *d) { on_exc(K_DINEX, d); }
void modbus_master_hreg_exception(const modbus_read_data_t *d) { on_exc(K_HREGEX, d); }
void modbus_master_inreg_exception(const modbus_read_data_t *d) { on_exc(K_IREGEX, d); }
void modbus_master_data_timeout_error(const modbus_master_error_report_t *d) { on_err(K_TMO, d); }
void modbus_master_communication_error(const modbus_master_error_report_t *d) { on_err(K_COMM, d); }
}

// ---- actions ----
static void m_start(bool checks, baud_t b, parity_t p) {
    DM.reset_sim();
    MC = MasterCheck();
    DM.on_send = on_master_send; DM.on_txdone = on_master_txdone; DM.spur = R.chance(25); DM.stray15 = R.chance(20);
    { In w(W_INIT); modbus_master_init(RTU, b, p); }
    if (checks) {
        if (DM.inits != 1 || DM.baud != b || DM.parity != p) fail("driver-init", "driver init calls %d with (%u,%d), expected one with (%u,%d)", DM.inits, (unsigned)DM.baud, DM.parity, (unsigned)b, p);
        if (!DM.c15 || !DM.c35 || !DM.ctx || !DM.cfe) fail("not-subscribed", "a driver event is not subscribed after the master's initialisation");
        if (DM.sends) fail("send-in-init", "transmission started by the initialisation");
    }
}
void m_begin(bool checks) {
    static const unsigned bauds[] = {1200, 2400, 9600, 19200, 38400, 57600, 115200, 4000000000u};
    baud_t b = R.chance(70) ? bauds[R.below(8)] : (baud_t)(R.next() | 1); parity_t p = (parity_t)R.below(3);
    m_start(checks, b, p);
}
void m_begin_at(baud_t b, parity_t p) { m_start(true, b, p); }
int m_api(const Req &r) {
    bool valid = valid_qty(r);
    size_t n = r.fc == 15 || r.fc == 16 ? r.qty : 0;
    bool alloc = valid || R.chance(50);  // refused requests: often no array at all
    void *arr = nullptr; size_t bytes = 0; Bytes copy;
    if (r.fc == 15 && alloc) { bytes = valid ? n : std::min<size_t>(n, 1); arr = malloc(bytes ? bytes : 1); for (size_t i = 0; i < bytes; i++) ((uint8_t *)arr)[i] = i < r.vals.size() ? r.vals[i] : 1; }
    if (r.fc == 16 && alloc) { bytes = 2 * (valid ? n : std::min<size_t>(n, 1)); arr = malloc(bytes ? bytes : 1); for (size_t i = 0; i < bytes / 2; i++) ((uint16_t *)arr)[i] = i < r.vals.size() ? r.vals[i] : 0x5A5A; }
    if (arr) copy.assign((uint8_t *)arr, (uint8_t *)arr + bytes);
    VLOG("  request fc %u address %u quantity %u slave %u (unfinished %zu of %u)", r.fc, r.adr, r.qty, r.id, MC.q.size(), LC.queue);
    modbus_master_req_ret_t ret = MODBUS_MASTER_LIB_RTU_SEND_ERROR;
    bool hk = H.on, ia = MC.in_api; MC.in_api = true;
    if (H.api && !hk && !MC.in_cb) { H.points = 0; H.on = true; }
    { In w(W_API);
    switch (r.fc) {
    case 1: ret = modbus_master_read_coils(r.adr, r.qty, r.id); break;
    case 2: ret = modbus_master_read_discrete_inputs(r.adr, r.qty, r.id); break;
    case 3: ret = modbus_master_read_holding_reg(r.adr, r.qty, r.id); break;
    case 4: ret = modbus_master_read_input_reg(r.adr, r.qty, r.id); break;
    case 5: ret = modbus_master_write_single_coil(r.adr, r.id, r.vals[0] != 0); break;
    case 6: ret = modbus_master_write_single_reg(r.adr, r.id, r.vals[0]); break;
    case 15: ret = modbus_master_write_multiple_coils(r.adr, r.qty, r.id, (modbus_coil_disin_t *)arr); break;
    case 16: ret = modbus_master_write_multiple_reg(r.adr, r.qty, r.id, (modbus_reg_t *)arr); break;
    } }
    MC.in_api = ia; H.on = hk;
    int rv = (int)en(ret);
    VLOG("    returned %d", rv);
    if (arr) {
        if (memcmp(arr, copy.data(), bytes) != 0) fail("caller-data-changed", "the caller's array was modified by the request function (function %u)", r.fc);
        memset(arr, 0xEE, bytes ? bytes : 1);
        free(arr);
    }
    unsigned used = MC.q.size();
    if (!valid) {
        COUNT("refusable requests", 1);
        if (rv == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE) fail("invalid-accepted", "request fc %u with quantity %u was accepted", r.fc, r.qty);
        return rv;
    }
    bool may = used < LC.queue || (MC.in_cb && used == LC.queue), must = used < LC.queue;
    // inside the callback that ends a request its place may already count as free or not
    if (MC.in_cb && MC.st == MasterCheck::IDLE) { must = used + 1 < LC.queue; may = used < LC.queue; }
    if (rv == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE) {
        if (!may) { fail("queue-overrun", "request accepted although %u of %u requests are unfinished", used, LC.queue); return rv; }
        MC.q.push_back(r); MC.n_acc++;
        COUNT("requests accepted", 1);
    } else if (must) fail("request-refused", "valid request fc %u address %u quantity %u refused with code %d although only %u of %u requests are unfinished", r.fc, r.adr, r.qty, rv, used, LC.queue);
    else if (rv != MODBUS_MASTER_FREE_QUEUE_EMPTY_ERROR) fail("wrong-refusal-code", "request beyond the queue size refused with code %d instead of the queue-full code", rv);
    else COUNT("requests beyond the queue size", 1);
    return rv;
}
void m_poll() {
    bool ip = MC.in_poll, waiting = MC.st == MasterCheck::WAIT; MC.in_poll = true; MC.polls35++;
    uint64_t tx0 = DM.txdones;
    bool stray = DM.stray(12);
    poll_master();
    MC.in_poll = ip;
    if (!MC.grp.empty()) fail_req("incomplete-data", "only a part of the data was reported", nullptr);
    if (MC.st == MasterCheck::DUE && MC.pos) fail_req("incomplete-data", "only a part of the data was reported", nullptr);
    if (MC.st == MasterCheck::WAIT && waiting && tx0 == DM.txdones) MC.seen = true; // this poll began after the end of the transmission
    if (stray && !C.failed) { DM.stray15 = false; for (int i = 0; i < 3 && !C.failed; i++) m_poll(); DM.stray15 = true; } // further polls follow before a character comes
}
void m_tick() {
    tick();
    if (MC.st == MasterCheck::WAIT) { MC.ticks_tx++; if (MC.seen) MC.ticks_seen++; }
}
bool m_quiet_polls(unsigned n) { while (n-- && !C.failed) m_poll(); return !C.failed; }
bool m_settle() {
    for (int i = 0; i < 16 && !C.failed && MC.st == MasterCheck::DUE; i++) m_poll();
    if (!C.failed && MC.st == MasterCheck::DUE) {
        if (MC.due.empty()) fail_req(MC.due_retry ? "no-retry" : "no-error-report", MC.due_retry ? "failed attempt is not repeated" : "no communication error report after the last attempt failed", nullptr);
        else fail("no-delivery", "nothing reported for a complete answer, expected %s", cb_str(MC.due[MC.pos]).c_str());
    }
    return !C.failed;
}
bool m_pump_sent() {
    if (MC.q.empty()) return !C.failed;
    for (int i = 0; i < 16 && !C.failed && MC.st == MasterCheck::IDLE; i++) m_poll();
    if (!C.failed && MC.st == MasterCheck::IDLE) fail_req("not-sent", "queued request is not transmitted", nullptr);
    return !C.failed;
}
static void line_reset() { DM.inframe = DM.after15 = false; DM.quiet = true; }
bool m_tx(bool noise, bool calls) {
    if (MC.st != MasterCheck::TX) { if (MC.st == MasterCheck::WAIT) line_reset(); return !C.failed; } // ended inside send
    unsigned n = R.chance(30) ? 0 : R.below(8);
    if (R.chance(3)) n = 40;
    bool open = false;
    for (unsigned i = 0; i < n && !C.failed; i++) {
        switch (R.below(6)) {
        case 0: case 1: m_poll(); break;
        case 2: { unsigned k = R.chance(80) ? R.below(4) : R.range(1, 400); while (k--) m_tick(); break; }
        case 3: if (calls) m_api(R.chance(80) ? gen_req() : gen_refused()); break;
        default:
            if (noise) {
                unsigned k = R.range(1, 12); const Bytes &a = cur().adu;
                for (unsigned j = 0; j < k; j++) { DM.byte(R.chance(60) ? a[j % a.size()] : R.chance(20) ? cur().id : R.byte()); if (R.chance(5)) DM.fe(); }
                open = true;
                if (R.chance(70)) { DM.t15(); if (R.chance(50)) m_poll(); DM.t35(); if (R.chance(50)) m_poll(); open = false; }
                else if (R.chance(30)) DM.fe();
                COUNT("noise while transmitting", 1);
            }
        }
        if (MC.st != MasterCheck::TX && !C.failed) { fail_req("left-transmission", "state changed before the end of the transmission", nullptr); }
    }
    (void)open; // an unfinished burst of noise is cut off by the end of the transmission
    if (C.failed) return false;
    DM.txdone();
    line_reset();
    for (unsigned k = R.below(3); k && !C.failed; k--) m_poll();
    return !C.failed;
}
static void silence_polls(bool late) { // the 3.5 event and at least four polls of the silence
    if (!late) for (unsigned k = R.below(3); k && !C.failed; k--) m_poll();
    DM.t35();
    for (unsigned k = R.range(4, 6); k && !C.failed; k--) m_poll();
}
Bytes gen_foreign_resp(uint8_t notid) {
    Bytes b; unsigned n;
    switch (R.below(5)) {
    case 0: { Req r = gen_req(); b = gen_good(r); break; }
    case 1: { b = gen_req().adu; break; }
    case 2: n = R.range(1, 8); while (n--) b.push_back(R.byte()); break;
    case 3: n = R.range(1, 255); while (n--) b.push_back(R.chance(20) ? notid : R.byte()); break;
    default: { Req r = gen_req(); r.id = notid; finish_req(r); b = gen_good(r); b.resize(b.size() - 2); b[0] ^= 1 << R.below(8); put_crc(b); if (R.chance(30)) b[R.below(b.size())] ^= 1; }
    }
    while (b[0] == notid) b[0] = R.byte();
    return b;
}
void m_foreign(unsigned n) {
    while (n-- && !C.failed && MC.st == MasterCheck::WAIT) {
        Bytes f = gen_foreign_resp(cur().id);
        if (R.chance(10)) { size_t k = R.range(1, 60); while (k--) f.push_back(R.byte()); if (f.size() > 255) f.resize(255); }
        VLOG("frame of another slave: %s", hex(f.data(), f.size()).c_str());
        mixb(f.data(), std::min<size_t>(f.size(), 6));
        COUNT("foreign frames", 1);
        int fe = R.chance(35) ? (int)R.below(f.size()) : -1;
        if (fe >= 0) COUNT("foreign frames with errors", 1);
        for (int i = 0; i < (int)f.size(); i++) {
            if (i == fe && R.chance(50)) { DM.fe(); DM.byte(f[i]); } else { DM.byte(f[i]); if (i == fe) DM.fe(); }
            if (R.chance(2) && i + 1 < (int)f.size()) m_poll();
        }
        DM.t15();
        if (fe >= 0 && R.chance(40)) { // a late byte (timing error): not the awaited address
            if (R.chance(60)) m_poll();
            unsigned k = R.range(1, 5);
            for (unsigned i = 0; i < k; i++) { uint8_t x; do x = R.byte(); while (x == cur().id); if (!i && R.chance(50)) DM.fe(); DM.byte(x); if (!i) DM.fe(); }
            DM.t15();
        }
        silence_polls(R.chance(30));
        line_reset();
        if (!C.failed && MC.st != MasterCheck::WAIT) fail_req("disturbed-by-foreign", "a frame of another slave changed the state of the request", nullptr);
    }
}
bool m_deliver(const Bytes &f, const DeliverOpt &o, int bad_kind) {
    if (C.failed) return false;
    VLOG("response %s%s", hex(f.data(), f.size()).c_str(), bad_kind < 0 ? "" : " (to be rejected)");
    mixb(f.data(), std::min<size_t>(f.size(), 8)); mix(f.size() * 16 + bad_kind);
    for (int i = 0; i < (int)f.size(); i++) {
        if (i == o.gap_at) { DM.t15(); if (R.chance(60)) m_poll(); if (R.chance(30)) m_poll(); if (R.chance(50)) DM.fe(); DM.byte(f[i]); DM.fe(); continue; }
        bool before = R.chance(50);
        if (i == o.fe_at && before) DM.fe();
        DM.byte(f[i]);
        if (i == o.fe_at && !before) DM.fe();
        if (o.polls_inside && R.chance(10)) m_poll();
    }
    DM.t15();
    if (o.late_byte) {
        if (R.chance(60)) m_poll();
        if (R.chance(50)) DM.fe();
        DM.byte(R.byte()); DM.fe();
        if (R.chance(30)) DM.byte(R.byte());
        DM.t15();
    }
    if (!o.late) for (unsigned k = R.below(4); k && !C.failed; k--) m_poll();
    for (unsigned k = o.ticks_after15; k; k--) m_tick();
    if (!o.late && R.chance(40)) m_poll();
    if (C.failed) return false;
    if (MC.st != MasterCheck::WAIT) { fail_req("early-outcome", "the outcome came before the line was silent for 3.5 characters", nullptr); return false; }
    if (bad_kind < 0) MC.good(f.data(), f.size()); else MC.bad(bad_kind);
    DM.t35();
    if (R.chance(20)) for (unsigned k = R.below(4); k; k--) { if (R.chance(50)) DM.t35(); else m_tick(); }
    line_reset();
    return m_settle();
}
bool m_silence() {
    int style = R.below(6);
    uint64_t guard = 0; unsigned over = 0;
    VLOG("no response (style %d)", style);
    mix(style);
    if (style == 5) { for (uint64_t k = (uint64_t)LC.timeout + R.below(LC.timeout < 100 ? 200 : 50); k; k--) m_tick(); } // nothing polled for the whole time
    while (!C.failed && MC.st == MasterCheck::WAIT) {
        unsigned t = 1, p = 1;
        switch (style) {
        case 1: t = R.below(4); p = R.below(4); break;
        case 2: t = R.range(1, LC.timeout > 4 ? LC.timeout / 4 : 2); break;
        case 3: t = R.chance(60) ? LC.timeout : R.range(1, LC.timeout + 3); break;
        case 4: t = R.chance(90) ? 1 : R.below(5); p = R.chance(50) ? 1 : R.below(3); break;
        default: break;
        }
        if (LC.timeout > 5000 && style != 3 && style != 2) t += R.below(900);
        for (unsigned k = 0; k < t; k++) m_tick();
        for (unsigned k = 0; k < p && !C.failed && MC.st == MasterCheck::WAIT; k++) { m_poll(); if (MC.st == MasterCheck::WAIT && MC.seen && MC.ticks_seen >= (uint64_t)LC.timeout + 1) over++; }
        if (over > 16 && MC.st == MasterCheck::WAIT) fail("no-timeout", "no timeout report %llu ticks and %u polls after the transmission, configured %u", (unsigned long long)MC.ticks_tx, over, LC.timeout);
        if (++guard > 2000000) fail("no-timeout", "no timeout report");
    }
    return !C.failed;
}

// ---- responses ----
Bytes gen_good(const Req &r) {
    Bytes b = {r.id, r.fc};
    if (is_read(r.fc)) {
        unsigned bc = r.fc <= 2 ? (r.qty + 7) / 8 : 2 * r.qty;
        b.push_back(bc);
        int st = R.below(5);
        for (unsigned i = 0; i < bc; i++) b.push_back(st == 0 ? 0xFF : st == 1 ? 0 : st == 2 ? i : R.byte());
        if (r.fc <= 2 && r.qty % 8) b.back() &= (1 << r.qty % 8) - 1;
    } else b.insert(b.end(), r.adu.begin() + 2, r.adu.begin() + 6);
    put_crc(b);
    return b;
}
Bytes gen_exc(const Req &r, int code) {
    Bytes b = {r.id, (uint8_t)(r.fc | 0x80), code >= 0 ? (uint8_t)code : R.chance(60) ? (uint8_t)R.range(1, 11) : R.byte()};
    put_crc(b); return b;
}
Bytes gen_crcbad(const Req &r) {
    Bytes b = R.chance(80) ? gen_good(r) : gen_exc(r);
    for (;;) {
        switch (R.below(7)) {
        case 0: if (b.size() > 1) { unsigned i = R.range(1, b.size() - 1); b[i] ^= 1 << R.below(8); } break;
        case 1: b.resize(R.range(1, b.size())); break;
        case 2: { unsigned n = R.range(1, 10); while (n-- && b.size() < 255) b.push_back(R.byte()); break; }
        case 3: if (b.size() >= 3) std::swap(b[b.size() - 1], b[b.size() - 2]); break;
        case 4: if (b.size() >= 3) b[b.size() - 1 - R.below(2)] = R.byte(); break;
        case 5: for (unsigned i = 1; i < b.size(); i++) if (R.chance(20)) b[i] = R.byte(); break;
        default: if (b.size() > 2) { unsigned i = R.range(1, b.size() - 1); b.erase(b.begin() + i); } break;
        }
        if (b.size() > 255) b.resize(255);
        if (b.empty()) b.push_back(r.id);
        b[0] = r.id;
        if (ref_crc(b.data(), b.size()) != 0) return b;
    }
}
Bytes gen_mismatch(const Req &r) {
    for (int tries = 0; tries < 200; tries++) {
        Bytes b;
        if (R.chance(4)) { b = {r.id}; put_crc(b); return b; } // nothing but the address with its CRC
        switch (R.below(9)) {
        case 0: { Req o = gen_req(0, r.id); b = gen_good(o); break; }                          // response to something else
        case 1: { Req o = r; unsigned d = R.range(1, 16); o.qty = (is_read(r.fc) || r.fc >= 15) ? (R.chance(50) && r.qty > d ? r.qty - d : r.qty + d) : r.qty; if (o.qty > max_qty(o.fc)) o.qty = max_qty(o.fc); if (o.fc >= 15) o.vals.resize(o.qty); finish_req(o); b = gen_good(o); break; } // other quantity
        case 2: { b = gen_good(r); b.resize(b.size() - 2); b.push_back(R.byte()); put_crc(b); break; } // one byte more
        case 3: { b = gen_good(r); if (b.size() > 4) b.resize(b.size() - 3 - R.below(std::min<unsigned>(3, b.size() - 4))); put_crc(b); break; } // bytes missing
        case 4: { b = gen_good(r); b.resize(b.size() - 2); b[R.range(1, b.size() - 1)] ^= 1 << R.below(8); put_crc(b); break; } // one bit of the message
        case 5: { b = gen_good(r); b.resize(b.size() - 2); b[1] = R.chance(50) ? R.byte() : FCS[R.below(8)]; put_crc(b); break; } // other function
        case 6: { b = {r.id, (uint8_t)(0x80 | (R.chance(50) ? FCS[R.below(8)] : R.below(128)))}; unsigned n = R.chance(50) ? 1 : R.below(4); while (n--) b.push_back(R.byte()); put_crc(b); break; } // exception of another function or length
        case 7: { b = {r.id}; unsigned n = R.range(1, R.chance(50) ? 6 : 252); while (n--) b.push_back(R.chance(30) ? r.fc : R.byte()); if (R.chance(60)) b[1] = r.fc; if (R.chance(30) && b.size() > 2) b[2] = is_read(r.fc) ? (r.fc <= 2 ? (r.qty + 7) / 8 : 2 * r.qty) : b[2]; put_crc(b); break; }
        default: { b = gen_good(r); b.resize(b.size() - 2); if (b.size() > 2) { unsigned i = R.range(2, std::min<unsigned>(b.size() - 1, 5)); b[i] = R.chance(50) ? b[i] + 1 : R.byte(); } put_crc(b); break; }
        }
        if (b.size() >= 4 && b.size() <= 255 && b[0] == r.id && crc_ok(b.data(), b.size()) && !acceptable(r, b.data(), b.size())) return b;
    }
    Bytes b = {r.id, 0x2B}; b.push_back(0); put_crc(b); return b;
}

bool m_attempt(int plan, const Mix &mx) {
    if (!m_pump_sent() || MC.q.empty()) return false;
    if (!m_tx(R.chance(mx.noise), R.chance(mx.calls))) return false;
    if (MC.st != MasterCheck::WAIT) { if (!C.failed) fail_req("harness", "not waiting after the transmission", nullptr); return false; }
    mixb(cur().adu.data(), std::min<size_t>(cur().adu.size(), 8)); mix(plan);
    C.nontrivial = true;
    if (R.chance(mx.foreign)) m_foreign(R.range(1, 4));
    if (C.failed) return false;
    if (R.chance(mx.calls)) m_api(R.chance(80) ? gen_req() : gen_refused());
    if (plan == P_SILENCE) return m_silence();
    // time that passes before the response: up to two ticks before the timeout
    if (LC.timeout > 2 && MC.ticks_tx + 2 < LC.timeout) {
        uint64_t room = LC.timeout - 2 - MC.ticks_tx;
        uint64_t k = R.chance(40) ? 0 : R.chance(25) ? room : R.below(room + 1);
        if (k > 3000 && R.chance(95)) k = R.below(3000);
        while (k-- && !C.failed) { m_tick(); if (R.chance(3)) m_poll(); }
        if (C.failed) return false;
    }
    DeliverOpt o; o.late = R.chance(20); o.polls_inside = R.chance(20);
    if (R.chance(15)) o.ticks_after15 = R.chance(50) ? R.below(5) : LC.timeout < 3000 ? LC.timeout + 2 : 3;
    switch (plan) {
    case P_GOOD: COUNT("good responses", 1); return m_deliver(gen_good(cur()), o, -1);
    case P_EXC: COUNT("exception responses", 1); return m_deliver(gen_exc(cur()), o, -1);
    case P_CRC: COUNT("damaged responses", 1); return m_deliver(gen_crcbad(cur()), o, EK_CRC);
    case P_MISMATCH: COUNT("mismatching responses", 1); return m_deliver(gen_mismatch(cur()), o, EK_ANY);
    default: {
        COUNT("responses with frame errors", 1);
        Bytes f = R.chance(70) ? gen_good(cur()) : R.chance(50) ? gen_crcbad(cur()) : gen_mismatch(cur());
        switch (R.below(3)) {
        case 0: if (f.size() < 250) { o.late_byte = true; break; } // fallthrough
        case 1: if (f.size() > 1) { o.gap_at = R.range(1, f.size() - 1); break; } // fallthrough
        default: o.fe_at = R.below(f.size());
        }
        return m_deliver(f, o, EK_FRAME);
    }
    }
}
static int pick_plan(const Mix &m) {
    unsigned t = m.good + m.exc + m.crc + m.fe + m.mismatch + m.silence, k = R.below(t);
    if (k < m.good) return P_GOOD;
    k -= m.good;
    if (k < m.exc) return P_EXC;
    k -= m.exc;
    if (k < m.crc) return P_CRC;
    k -= m.crc;
    if (k < m.fe) return P_FE;
    k -= m.fe;
    if (k < m.mismatch) return P_MISMATCH;
    return P_SILENCE;
}
bool m_run(const Mix &mx, unsigned maxatt) {
    while (!MC.q.empty() && maxatt-- && !C.failed) if (!m_attempt(pick_plan(mx), mx)) return false;
    return !C.failed;
}
bool m_drain() {
    unsigned n = 0;
    while (!MC.q.empty() && !C.failed) {
        if (!m_pump_sent() || !m_tx(false, false) || !m_silence()) return false;
        if (++n > 300) { fail("endless", "the queue does not become empty"); return false; }
    }
    return !C.failed;
}
