// X06: the library with the repository's reference drivers (STM32G070, master and slave) on simulated peripherals:
// USART with transmit shifter, receiver timeout and level interrupts, one-pulse timer, bus, SysTick, main loops.
// Time is counted in cycles of the 64 MHz clock. The driver sources are the ones in /repo/examples, unchanged.
#include "master_eng.hpp"
extern "C" {
#include "stm32_regs.h"
extern vh_mcu_t m_mcu, s_mcu; extern const vh_bits_t vh_bits;
void m_usart_irq(void); void m_tim_irq(void); void s_usart_irq(void); void s_tim_irq(void);
const modbus_RTU_driver_struct_t *stm_master_interface(void), *stm_slave_interface(void);
}
extern const modbus_RTU_driver_struct_t *drv_override[2]; extern bool log_polls;
#define B vh_bits
namespace stm {
static const uint64_t NEVER = ~0ull, US = 64;
struct Node {
    vh_mcu_t *m; void (*usart)(void); void (*tim)(void); Drv *d; const char *name;
    bool shifting, tdr_full; uint8_t shreg; uint64_t sh_end;      // transmitter
    bool receiving, corrupt; uint8_t rxb; uint64_t rx_end;        // receiver
    uint64_t rto, tmr, cpu_free, next_poll;                       // receiver timeout, timer expiry, end of the running interrupt, main loop
    uint32_t cnt; bool tim_on;                                     // counter of the stopped timer
    Bytes wire, rec;                                               // sent since send(), received since the last 3.5 character event (or send)
    bool got_buf; uint64_t nirq, nrto, ntim, nstorm, storm_at; bool polled;
};
static Node N[2];
static uint64_t now, next_tick, next_noise, stop_noise, last_air, disturb_end; static unsigned gap_lo, gap_hi, noise_pct, noise_gap;
static bool clean;
struct Air { int src; uint8_t b; uint64_t end; };
static std::vector<Air> noise_air; static Bytes noise_q; static bool noise_tx; static uint64_t noise_end; static uint8_t noise_b;
static uint32_t usart_bits(const vh_usart_t &u) { return 1 + ((u.CR1 & B.cr1_m0) ? 9 : 8) + ((u.CR2 & B.cr2_stop1) ? 2 : 1); }
static uint64_t char_time(Node &n) { return (uint64_t)usart_bits(n.m->usart) * n.m->usart.BRR; }
static void start_on_air(int src, uint8_t b, uint64_t end) { // every other station begins to receive
    last_air = std::max(last_air, end);
    for (int i = 0; i < 2; i++) {
        Node &n = N[i];
        if (i == src || n.shifting || !(n.m->usart.CR1 & B.cr1_ue) || !(n.m->usart.CR1 & B.cr1_re)) continue;
        if (n.receiving) { n.corrupt = true; continue; }
        n.receiving = true; n.corrupt = false; n.rxb = b; n.rx_end = end; n.rto = NEVER;
    }
}
static void shift_out(int i) { // TDR into the shift register
    Node &n = N[i]; vh_usart_t &u = n.m->usart;
    if (!n.tdr_full || n.shifting) return;
    n.tdr_full = false; n.shifting = true; n.shreg = (uint8_t)u.TDR_[0]; n.sh_end = now + char_time(n);
    if (n.receiving) { n.receiving = false; } // the transmitter takes the line
    n.wire.push_back(n.shreg);
    u.ISR |= B.isr_txe;
    start_on_air(i, n.shreg, n.sh_end);
}
static uint64_t tim_len(Node &n) { return (uint64_t)(n.m->tim.ARR + 1 - n.cnt) * (n.m->tim.PSC + 1); }
static void settle(int i) { // the peripherals' reaction to what the driver has written
    Node &n = N[i]; vh_usart_t &u = n.m->usart; vh_tim_t &t = n.m->tim;
    if (n.m->tdr_writes) {
        if (n.m->tdr_writes > 1 || n.tdr_full) fail("driver:overwritten", "%s: a character was written over one not yet sent", n.name);
        n.m->tdr_writes = 0; n.tdr_full = true;
        shift_out(i);
    }
    if (u.ICR & B.icr_rtocf) u.ISR &= ~B.isr_rtof;
    u.ICR = 0; n.m->rdr_reads = 0;
    if (t.ARR > 0xFFFF || t.PSC > 0xFFFF || u.BRR > 0xFFFF || u.RTOR > 0xFFFFFF) fail("driver:register", "%s: register value beyond its width", n.name);
    if (t.EGR & B.tim_ug) { n.cnt = 0; if (n.tim_on) n.tmr = now + tim_len(n); }
    t.EGR = 0;
    bool on = t.CR1 & B.tim_cen;
    if (on && !n.tim_on) n.tmr = now + tim_len(n);
    if (!on && n.tim_on) { n.cnt = n.tmr > now ? (t.ARR + 1) - (uint32_t)((n.tmr - now) / (t.PSC + 1)) : 0; if (n.cnt > t.ARR) n.cnt = t.ARR; n.tmr = NEVER; }
    n.tim_on = on;
}
static int pending(int i) { // 2: timer, 1: USART
    Node &n = N[i]; vh_usart_t &u = n.m->usart;
    if ((n.m->tim.SR & B.tim_uif) && (n.m->tim.DIER & B.tim_uie) && (n.m->irqs & 2)) return 2;
    if (!(n.m->irqs & 1)) return 0;
    if (((u.ISR & B.isr_rxne) && (u.CR1 & B.cr1_rxneie)) || ((u.ISR & B.isr_txe) && (u.CR1 & B.cr1_txeie)) || ((u.ISR & B.isr_rtof) && (u.CR1 & B.cr1_rtoie))) return 1;
    return 0;
}
static void interrupts(int i) {
    Node &n = N[i];
    if (n.cpu_free > now || C.failed) return;
    int p = pending(i);
    if (!p) return;
    // a receiver timeout the driver does not acknowledge interrupts again and again: coarser steps then, to save time
    bool again = p == 1 && !(n.m->usart.ISR & B.isr_rxne) && n.storm_at == n.cpu_free; unsigned slow = again && ++n.nstorm > 10 ? char_time(n) / US / 20 : 0;
    if (!again) n.nstorm = 0;
    if (!n.got_buf) crash_where(i == MASTER ? "master-driver-without-buffer" : "slave-driver-without-buffer");
    if (p == 2) { n.ntim++; n.tim(); } else { n.nirq++; n.usart(); }
    if (!n.got_buf) crash_where("");
    n.cpu_free = now + (R.range(1, 5) + slow) * US; n.storm_at = n.cpu_free;
    settle(i);
}
// ---- monitors between the library and the driver ----
static const modbus_RTU_driver_struct_t *mon[2], *drv[2];
static Expect E; static bool e_valid, s_judged; static unsigned s_sends;
static Bytes s_sent; // last response, as handed to the driver
template <int I> static void i_init(baud_t b, parity_t p) { mon[I]->init(b, p); if (b < 2400) crash_where(I ? "slave-driver-init-below-2400" : "master-driver-init-below-2400"); drv[I]->init(b, p); crash_where(""); settle(I); }
template <int I> static void i_send(modbus_buf_t *m, modbus_buf_size_t n) { N[I].wire.clear(); N[I].rec.clear(); mon[I]->send(m, n); if (C.failed) return; drv[I]->send(m, n); settle(I); }
template <int I> static void i_en(modbus_req_resp_t *b) { mon[I]->enable_rcev(b); N[I].got_buf = true; drv[I]->enable_rcev(b); settle(I); }
template <int I> static void i_dis() { mon[I]->disable_rcev(); drv[I]->disable_rcev(); settle(I); }
template <int I> static void t15() {
    Drv &d = *N[I].d; if (N[I].nstorm < 3) VLOG("  %s T1.5", N[I].name);
    if (I == MASTER && MC.st == MasterCheck::WAIT) { MC.t15_since = true; MC.snap15.assign(d.rx->data, d.rx->data + d.rx->len); }
    d.ev15();
}
template <int I> static void t35() {
    Node &n = N[I]; VLOG("  %s T3.5", n.name);
    if (I == SLAVE) {
        // a frame is judged if it was received while the line was undisturbed
        e_valid = clean && !n.rec.empty();
        if (e_valid) { E = slave_expect(n.rec.data(), n.rec.size(), false); s_sends = 0; }
    } else if (clean && MC.st == MasterCheck::WAIT && !n.rec.empty()) {
        if (n.rec != s_sent) fail("driver:wire", "the master received %s, the slave had sent %s", hex(n.rec.data(), n.rec.size()).c_str(), hex(s_sent.data(), s_sent.size()).c_str());
        else if (acceptable(MC.q[0], n.rec.data(), n.rec.size())) MC.good(n.rec.data(), n.rec.size());
        else fail("wrong-response", "the slave's response %s does not answer the request %s", hex(n.rec.data(), n.rec.size()).c_str(), hex(MC.q[0].adu.data(), 8).c_str());
    }
    n.rec.clear(); n.d->quiet = true;
    n.d->ev35();
}
template <int I> static void fe() { VLOG("  %s frame error", N[I].name); COUNT("characters within 3.5 characters", 1); N[I].d->evfe(); }
template <int I> static void txc() { if (N[I].d->busy) N[I].d->txdone(); else { COUNT("tx-done events without a transmission", 1); N[I].d->evtx(); } }
template <int I> static void s15(driver_subscr_cb_t c) { mon[I]->subscribe_t_1_5_char_expired_cb(c); drv[I]->subscribe_t_1_5_char_expired_cb(t15<I>); }
template <int I> static void stx(driver_subscr_cb_t c) { mon[I]->subscribe_msg_tx_done_cb(c); drv[I]->subscribe_msg_tx_done_cb(txc<I>); }
template <int I> static void s35(driver_subscr_cb_t c) { mon[I]->subscribe_t_3_5_char_expired_cb(c); drv[I]->subscribe_t_3_5_char_expired_cb(t35<I>); }
template <int I> static void sfe(driver_subscr_cb_t c) { mon[I]->subscribe_modbus_frame_error_cb(c); drv[I]->subscribe_modbus_frame_error_cb(fe<I>); }
static const modbus_RTU_driver_struct_t OM = {i_init<0>, i_send<0>, i_en<0>, i_dis<0>, s15<0>, stx<0>, s35<0>, sfe<0>};
static const modbus_RTU_driver_struct_t OS = {i_init<1>, i_send<1>, i_en<1>, nullptr, s15<1>, stx<1>, s35<1>, sfe<1>};

static void on_send_s(const uint8_t *p, unsigned n) {
    s_sent.assign(p, p + n);
    if (!clean) return;
    if (!DS.quiet) { fail("early-response", "the slave sent %s before the line was silent", hex(p, n).c_str()); return; }
    if (!e_valid) { fail("several-responses", "transmission of %s without a request", hex(p, n).c_str()); return; }
    if (s_sends++) { fail("several-responses", "a second transmission for one request: %s", hex(p, n).c_str()); return; }
    bool ok = false; for (auto &a : E.alts) if (a == s_sent) ok = true;
    if (!ok) { fail(E.alts.empty() ? "response-to-bad-frame" : "wrong-response", "%s frame answered %s, expected %s", E.what, hex(p, n).c_str(), E.alts.empty() ? "no response" : hex(E.alts[0].data(), E.alts[0].size()).c_str()); return; }
    bool success = !(p[1] & 0x80);
    for (unsigned k = 0; k < E.wval.size(); k++) {
        int v = SA.map[E.wtab][E.wadr + k]; if (v < 0) continue;
        if (success) { if (E.wtab < 2) SA.xbits[v] = E.wval[k]; else SA.xregs[v] = E.wval[k]; }
        else if (E.partial) { if (E.wtab < 2) { if (SA.bits[v] == E.wval[k]) SA.xbits[v] = E.wval[k]; } else if (SA.regs[v] == E.wval[k]) SA.xregs[v] = E.wval[k]; }
    }
    COUNT("responses judged", 1);
}
static void (*m_txdone_chk)();
template <int I> static void on_txdone() {
    if (I == MASTER) m_txdone_chk();
    if (N[I].wire.size() != N[I].d->txlen || memcmp(N[I].wire.data(), N[I].d->snap, N[I].d->txlen)) fail("driver:wire", "%s: sent %s instead of %s", N[I].name, hex(N[I].wire.data(), N[I].wire.size()).c_str(), hex(N[I].d->snap, N[I].d->txlen).c_str());
}
static bool live(const Req &r) { return r.id == SA.id; }
static uint64_t lost;
static void sink(const Cb &c) {
    if (!clean || C.failed) return;
    bool err = c.k == K_TMO || c.k == K_COMM;
    if (err && c.id == SA.id) fail("lost-exchange", "%s although the line is undisturbed and the slave answers", cb_str(c).c_str());
    if (c.k == K_COMM && c.id != SA.id) fail("unexpected-error-report", "%s although nothing was received", cb_str(c).c_str());
}
// ---- the world ----
static void world(baud_t baud, parity_t par, uint64_t polls_lo, uint64_t polls_hi) {
    log_polls = false; now = 0; next_tick = R.below(64000); next_noise = NEVER; stop_noise = 0; last_air = 0; noise_tx = false; noise_q.clear(); clean = false; lost = 0;
    gap_lo = polls_lo; gap_hi = polls_hi;
    vh_mcu_t *mm[2] = {&m_mcu, &s_mcu}; void (*us[2])(void) = {m_usart_irq, s_usart_irq}; void (*ti[2])(void) = {m_tim_irq, s_tim_irq};
    for (int i = 0; i < 2; i++) {
        Node &n = N[i]; n = Node();
        n.m = mm[i]; n.usart = us[i]; n.tim = ti[i]; n.d = i ? &DS : &DM; n.name = i ? "S" : "M";
        memset((void *)n.m, 0, sizeof *n.m);
        n.m->usart.ISR = B.isr_txe; n.m->tim.ARR = 0xFFFF;
        n.rto = n.tmr = n.rx_end = n.sh_end = NEVER; n.next_poll = R.below(400 * US);
    }
    mon[0] = drv_iface(MASTER); mon[1] = drv_iface(SLAVE); drv[0] = stm_master_interface(); drv[1] = stm_slave_interface();
    drv_override[0] = &OM; drv_override[1] = &OS;
    SA.id = R.range(1, 247); e_valid = false; s_sends = 0; s_sent.clear();
    // both devices start (master checks as in m_begin, with the configured speed)
    bool master_first = R.chance(50);
    if (master_first) m_begin_at(baud, par);
    DS.reset_sim(); DS.on_send = on_send_s; DS.on_txdone = on_txdone<SLAVE>; DS.spur = false; DS.quiet = true;
    { In w(W_INIT); modbus_slave_init(RTU, baud, par, SA.id); }
    slave_layout(R.chance(60) ? DENSE : SPARSE); SA.randomize_values();
    if (!master_first) m_begin_at(baud, par);
    DM.spur = DM.stray15 = false;
    m_txdone_chk = DM.on_txdone; DM.on_txdone = on_txdone<MASTER>;
    MC.sink = sink;
    for (int i = 0; i < 2; i++) {
        Drv &d = *N[i].d; vh_mcu_t *m = N[i].m;
        if (d.inits != 1 || d.baud != baud || d.parity != par) fail("driver-init", "%s: driver not initialised once with (%u,%d)", N[i].name, (unsigned)baud, (int)par);
        if (!d.c15 || !d.c35 || !d.ctx || !d.cfe) fail("not-subscribed", "%s: a driver event is not subscribed", N[i].name);
        uint64_t bits = 64000000ull / baud, ct = char_time(N[i]);
        if (m->usart.BRR != bits || usart_bits(m->usart) != 11 || !(m->usart.CR1 & B.cr1_pce) != (par == NONE) || (par != NONE && !(m->usart.CR1 & B.cr1_ps) != (par == EVEN))) fail("driver:line", "%s: USART set to BRR %u, %u bits, CR1 %x for %u Bd parity %d", N[i].name, (unsigned)m->usart.BRR, (unsigned)usart_bits(m->usart), (unsigned)m->usart.CR1, (unsigned)baud, (int)par);
        uint64_t rto = (uint64_t)m->usart.RTOR * bits, t35 = (uint64_t)(m->tim.ARR + 1) * (m->tim.PSC + 1);
        // the standard's times: at least 1.5 characters (750 us above 19200 Bd; drivers may take longer), at least 3.5 characters (1750 us)
        uint64_t w15 = baud <= 19200 ? ct * 3 / 2 : std::min<uint64_t>(ct * 3 / 2, 750 * US), w35 = baud <= 19200 ? ct * 7 / 2 : 1750 * US;
        if (rto + bits < w15 || t35 + 65 * 3 + w35 / 100 < w35 || t35 <= rto + bits) fail("driver:times", "%s: %u Bd: silence times %llu and %llu us", N[i].name, (unsigned)baud, (unsigned long long)(rto / US), (unsigned long long)(t35 / US));
    }
}
static void recv_done(int i) {
    Node &n = N[i]; vh_usart_t &u = n.m->usart;
    n.receiving = false; n.rx_end = NEVER;
    uint8_t b = n.corrupt ? n.rxb ^ (1 + R.below(255)) : n.rxb;
    VLOG("  %s received %02x%s", n.name, b, n.corrupt ? " (collision)" : "");
    n.rec.push_back(b); n.d->quiet = false;
    u.RDR_[0] = b | ((u.CR1 & B.cr1_pce) ? (uint32_t)R.below(2) << 8 : 0);
    u.ISR |= B.isr_rxne;
    n.rto = (u.CR2 & B.cr2_rtoen) ? now + (uint64_t)u.RTOR * u.BRR : NEVER;
    COUNT("characters received", 1);
}
static void noise_step() {
    if (noise_q.empty()) { // a burst: a fragment, somebody's frame, or garbage
        if (now >= stop_noise) { next_noise = NEVER; disturb_end = now; return; }
        unsigned k = R.below(6);
        const Req *r = MC.q.empty() ? nullptr : &MC.q[0];
        if (k == 0) noise_q = gen_foreign_resp(SA.id);
        else if (k == 1) noise_q = gen_foreign();
        else if (k == 2 && r) noise_q = gen_good(*r);
        else if (k == 3 && r) noise_q = gen_crcbad(*r);
        else { noise_q.resize(R.range(1, 6)); for (auto &b : noise_q) b = R.chance(20) ? SA.id : R.byte(); }
        if (R.chance(30) && noise_q.size() > 2) noise_q.resize(R.range(1, noise_q.size()));
        COUNT("disturbances on the line", 1);
    }
    uint8_t b = noise_q.front(); noise_q.erase(noise_q.begin());
    uint64_t ct = char_time(N[0]);
    start_on_air(2, b, now + ct);
    next_noise = now + ct + (R.chance(90) ? 0 : R.below(6) * ct / 2);
    if (noise_q.empty()) next_noise += R.chance(50) ? R.below(8 * ct) : R.below(noise_gap + 1) * US;
}
static bool stuck(const char *what) { return fail("stuck", "%s (%zu requests unfinished)", what, MC.q.size()); }
// runs the world until the given time or until stop() holds
template <class F> static void run(uint64_t until, F stop) {
    while (!C.failed && now < until && !stop()) {
        uint64_t t = std::min({until, next_tick, next_noise});
        for (auto &n : N) {
            t = std::min({t, n.shifting ? n.sh_end : NEVER, n.receiving ? n.rx_end : NEVER, n.rto, n.tmr});
            int i = &n - N;
            uint64_t at = std::max(n.cpu_free, now);
            t = std::min(t, pending(i) ? at : std::max(at, n.next_poll));
        }
        now = t;
        if (now >= until) break;
        for (int i = 0; i < 2; i++) if (N[i].receiving && N[i].rx_end == now) recv_done(i);
        for (int i = 0; i < 2; i++) if (N[i].shifting && N[i].sh_end == now) { N[i].shifting = false; N[i].sh_end = NEVER; }
        for (int i = 0; i < 2; i++) shift_out(i);
        if (now == next_noise) noise_step();
        for (int i = 0; i < 2; i++) {
            Node &n = N[i]; vh_usart_t &u = n.m->usart;
            if (n.rto == now) { n.rto = NEVER; u.ISR |= B.isr_rtof; n.nrto++; }
            if (n.tmr == now) { n.tmr = NEVER; n.tim_on = false; n.cnt = 0; n.m->tim.CR1 &= ~B.tim_cen; n.m->tim.SR |= B.tim_uif; }
        }
        if (now == next_tick) { next_tick += 64000; m_tick(); }
        int first = R.below(2);
        for (int k = 0; k < 2 && !C.failed; k++) {
            int i = k ^ first; Node &n = N[i];
            interrupts(i);
            if (!pending(i) && n.cpu_free <= now && n.next_poll <= now && !C.failed) {
                if (i == MASTER) m_poll(); else poll_slave();
                settle(i); n.next_poll = now + R.range(gap_lo, gap_hi);
            }
        }
    }
}
static uint64_t silence(Node &n) { return std::max({4 * char_time(n), 2500 * US, (uint64_t)(n.m->tim.ARR + 2) * (n.m->tim.PSC + 1) + char_time(n) / 2}); } // until the 3.5 character event
static uint64_t t_req(const Req &r) { // bounds of an exchange: request, silence, polls, response, silence
    uint64_t ct = char_time(N[0]), resp = is_read(r.fc) ? 5 + (r.fc <= 2 ? (r.qty + 7) / 8 : 2 * r.qty) : 8;
    return (r.adu.size() + resp) * ct + silence(N[0]) + silence(N[1]) + 40 * gap_hi;
}
static bool fits(const Req &r) { // the response comes well before the timeout
    uint64_t ct = char_time(N[0]), resp = is_read(r.fc) ? 5 + (r.fc <= 2 ? (r.qty + 7) / 8 : 2 * r.qty) : 8;
    uint64_t need = (resp + 2) * ct + silence(N[0]) + silence(N[1]) + 1000 * US + 40 * gap_hi;
    return need < (uint64_t)(LC.timeout > 6 ? LC.timeout - 6 : 0) * 64000;
}
static const uint8_t FCS[8] = {1, 2, 3, 4, 5, 6, 15, 16};
static Req req_in() { // mostly addresses the slave has
    if (R.chance(25)) return gen_req(0, SA.id);
    Req r; r.id = SA.id; r.fc = FCS[R.below(8)];
    unsigned size = tab_size((r.fc == 1 || r.fc == 5 || r.fc == 15) ? COILS : r.fc == 2 ? DINS : r.fc == 4 ? IREGS : HREGS), q;
    q = (r.fc == 5 || r.fc == 6) ? 1 : R.chance(70) ? R.range(1, std::min(std::min(max_qty(r.fc), size), 10u)) : pick_qty(std::min(max_qty(r.fc), size));
    r.adr = pick_adr(size, q); r.qty = (r.fc == 5 || r.fc == 6) ? 0 : q;
    if (r.fc >= 5) { r.vals.resize(q); for (auto &v : r.vals) v = (r.fc == 5 || r.fc == 15) ? R.below(2) : R.u16(); }
    finish_req(r);
    return r;
}
static void case_(bool noise, bool slow, bool before) {
    static const unsigned bauds[] = {2400, 4800, 2400, 4800, 9600, 14400, 19200, 38400, 57600, 115200, 230400, 250000};
    baud_t baud = slow ? (R.chance(50) ? 1200 : R.range(1200, 2399)) : R.chance(85) ? bauds[R.below(12)] : R.chance(50) ? R.range(2400, 250000) : R.range(2400, 20000);
    parity_t par = (parity_t)R.below(3);
    unsigned hi = R.chance(30) ? 20 : R.chance(50) ? 100 : 350;
    world(baud, par, R.range(2, 15) * US, hi * US);
    if (C.failed) return;
    uint64_t ct = char_time(N[0]); unsigned rounds = noise ? R.range(1, 3) : 1;
    noise_gap = R.chance(50) ? 3000 : R.chance(50) ? 300 : 40000;
    auto never = [] { return false; };
    if (before) { // noise before the first request
        MC.relaxed = true; stop_noise = now + R.below(30 * ct); next_noise = now; run(stop_noise + 300 * ct, [] { return next_noise == NEVER; }); run(now + silence(N[0]) + silence(N[1]) + 12 * ct + 6000 * US, never);
        MC.relaxed = false; COUNT("noise before the first request", 1);
    }
    SA.xbits = SA.bits; SA.xregs = SA.regs;
    for (unsigned r = 0; r < rounds && !C.failed; r++) {
        // undisturbed
        clean = true; for (auto &n : N) n.rec.clear();
        unsigned nreq = R.range(2, 8), bursts = R.range(1, 3);
        for (unsigned b = 0; b < bursts && !C.failed; b++) {
            uint64_t bound = now;
            for (unsigned k = 0; k < nreq && MC.q.size() < LC.queue && !C.failed; k++) {
                Req q; int g = 0; bool here = R.chance(85);
                do { q = here ? req_in() : gen_req(0, 0); if (q.id == 0) q.id = 1; finish_req(q); } while ((!fits(q) || t_req(q) > 64000000ull * 2) && ++g < 200);
                if (g >= 200) { q = gen_req(5, SA.id); if (!fits(q)) { COUNT("too slow for the timeout", 1); return; } }
                m_api(q); mixb(q.adu.data(), std::min<size_t>(q.adu.size(), 10));
                bound += live(q) ? t_req(q) : t_req(q) + (uint64_t)(LC.timeout + 3) * 64000;
            }
            uint64_t ok0 = MC.n_ok + MC.n_exc; (void)ok0;
            run(bound + 64000, [] { return MC.q.empty(); });
            if (!C.failed && !MC.q.empty()) stuck("requests do not end within the time the exchanges take");
            run(now + R.below(8) * ct + silence(N[0]) + silence(N[1]) + 5000 * US, never);
            if (!C.failed) SA.check_memory("after undisturbed exchanges");
            if (!C.failed && R.chance(30)) SA.app_writes(5);
        }
        C.nontrivial = !C.failed;
        COUNT("undisturbed phases", 1);
        if (!noise || C.failed) break;
        // disturbed
        clean = false; MC.relaxed = true;
        uint64_t dur = R.below(400) * ct + R.below(50000) * US;
        stop_noise = now + dur; next_noise = now + R.below(20 * ct);
        uint64_t nextq = now;
        while (!C.failed && now < stop_noise) {
            if (MC.q.size() < LC.queue) m_api(R.chance(80) ? req_in() : gen_req(0, R.chance(50) ? SA.id : R.range(1, 247)));
            nextq = now + R.below(60) * ct; run(std::min(nextq, stop_noise), never);
        }
        run(now + 400 * ct, [] { return next_noise == NEVER; });
        // the disturbance is over: everything ends, then the line is idle again
        uint64_t bound = now;
        for (auto &q : MC.q) bound += (LC.retries + 1) * (t_req(q) + (uint64_t)(LC.timeout + 4) * 64000);
        run(bound + 64000, [] { return MC.q.empty(); });
        if (!C.failed && !MC.q.empty()) stuck("requests do not end after the disturbance");
        run(now + 300 * ct, [] { return last_air + 12 * char_time(N[0]) + silence(N[0]) < now; });
        run(now + silence(N[0]) + silence(N[1]) + 12 * ct + 6000 * US, never);
        MC.relaxed = false; SA.xbits = SA.bits; SA.xregs = SA.regs;
        for (int i = 0; i < 2; i++) if (!C.failed && N[i].d->busy) stuck("a transmission has not ended");
        if (r + 1 == rounds) { rounds++; noise = false; } // ends with an undisturbed phase
    }
    COUNT("simulated ms", now / 64000); COUNT("USART interrupts", N[0].nirq + N[1].nirq); COUNT("receiver timeouts", N[0].nrto + N[1].nrto); COUNT("timer interrupts", N[0].ntim + N[1].ntim);
    mix(baud); mix(par);
}
static void clean_() { case_(false, false, false); }
static void noisy_() { case_(true, false, false); }
static void slow_() { case_(R.chance(50), true, false); }
static void before_() { case_(R.chance(50), false, true); }
static RegProp P06("X06", "A case is one run of two simulated devices (random speed, parity, main loop gaps) with the reference drivers: bursts of requests on an undisturbed line, and in mode noisy also phases with another station sending fragments and frames at any time; nontrivial: at least one undisturbed phase was judged completely; distinct by hash of speed, parity and requests.",
    {{"clean", clean_, 1500, 40000, 1}, {"noisy", noisy_, 1500, 40000, 1}, {"slow", slow_, 20, 60, 1}, {"before", before_, 20, 60, 1}});
}
