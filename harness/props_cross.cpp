// X01 (CRC), X02 (both roles on a simulated line), X03 (both roles in one device), X05 (configurations)
#include "master_eng.hpp"
#include <ucontext.h>
static const uint8_t FCS[8] = {1, 2, 3, 4, 5, 6, 15, 16};

// ================================================================ X01
// Bits are numbered in the order of transmission (least significant bit of every byte first).
static void flip(Bytes &f, unsigned bit) { f[bit / 8] ^= 1 << (bit % 8); }
static void x01_slave_begin() { slave_layout(DENSE); SA.randomize_values(); slave_start(R.range(1, 247)); }
static bool s_light(const Bytes &f) { // a damaged request: no answer, no effect
    uint64_t s0 = DS.sends;
    for (uint8_t b : f) DS.byte(b);
    DS.t15(); poll_slave(); DS.t35(); poll_slave(); poll_slave(); poll_slave();
    if (DS.sends != s0) { fail("acted-on-damaged-frame", "slave %u answered the damaged frame %s with %s", SA.id, hex(f.data(), f.size()).c_str(), hex(DS.snap, DS.txlen).c_str()); return false; }
    return SA.check_memory("after a damaged frame");
}
static Bytes short_request() { // short enough for exhaustive damage
    int fc = FCS[R.below(8)];
    unsigned size = tab_size((fc == 1 || fc == 5 || fc == 15) ? COILS : fc == 2 ? DINS : fc == 4 ? IREGS : HREGS);
    unsigned q = fc == 15 ? R.range(1, std::min(size, 20u)) : fc == 16 ? R.range(1, std::min(size, 3u)) : fc == 5 || fc == 6 ? 1 : pick_qty(std::min(size, 125u));
    return gen_valid_at(fc, pick_adr(size, q), q);
}
// applies the damage patterns of a case to a frame and passes each damaged frame to fn
template <class F> static void x01_bursts(const Bytes &f, unsigned start, F fn) { // every burst of up to 16 bits beginning at this bit
    unsigned bits = f.size() * 8, n = 0;
    start %= bits;
    unsigned room = std::min(15u, bits - start - 1);
    for (unsigned p = 0; p < (1u << room) && !C.failed; p++) {
        Bytes g = f; flip(g, start);
        for (unsigned k = 0; k < room; k++) if (p >> k & 1) flip(g, start + 1 + k);
        if (!fn(g)) return;
        n++;
    }
    COUNT("bursts of up to 16 bits", n); mixb(f.data(), f.size()); mix(start); C.nontrivial = true;
}
template <class F> static void x01_few(const Bytes &f, unsigned first, F fn) { // every single, double and triple error containing this bit as its first one
    unsigned bits = f.size() * 8, n = 0;
    first %= bits;
    Bytes g = f; flip(g, first);
    if (!fn(g)) return;
    n++;
    for (unsigned a = first + 1; a < bits; a++) {
        Bytes h = g; flip(h, a);
        if (!fn(h)) return;
        n++;
        for (unsigned b = a + 1; b < bits; b++) { Bytes k = h; flip(k, b); if (!fn(k)) return; n++; }
    }
    COUNT("single, double and triple errors", n); mixb(f.data(), f.size()); mix(first); C.nontrivial = true;
}
template <class F> static void x01_sample(const Bytes &f, unsigned singles, unsigned others, F fn) {
    unsigned bits = f.size() * 8;
    if (singles >= bits) { for (unsigned b = 0; b < bits; b++) { Bytes g = f; flip(g, b); if (!fn(g)) return; } COUNT("frames with every single bit changed", 1); }
    else for (unsigned k = 0; k < singles; k++) { Bytes g = f; flip(g, R.below(bits)); if (!fn(g)) return; }
    for (unsigned k = 0; k < others; k++) {
        Bytes g = f;
        if (R.chance(50)) { // two or three different bits
            unsigned a = R.below(bits), b = R.below(bits), c = R.below(bits);
            if (a == b) continue;
            flip(g, a); flip(g, b); if (R.chance(50) && c != a && c != b) flip(g, c);
        } else {
            unsigned s = R.below(bits), len = R.range(1, std::min(16u, bits - s)); uint16_t p = R.u16() | 1;
            for (unsigned i = 0; i < len; i++) if (p >> i & 1) flip(g, s + i);
        }
        if (!fn(g)) return;
        COUNT("sampled errors in longer frames", 1);
    }
    mixb(f.data(), f.size()); C.nontrivial = true;
}
static void x01_slave_after() { if (!C.failed) slave_xfer(gen_valid()); }
static void x01_slave_burst() { x01_slave_begin(); x01_bursts(short_request(), C.index, s_light); x01_slave_after(); }
static void x01_slave_few() { x01_slave_begin(); x01_few(short_request(), C.index, s_light); x01_slave_after(); }
static void x01_slave_long() { x01_slave_begin(); Bytes f = gen_valid(R.chance(70) ? (R.chance(50) ? 15 : 16) : 0); x01_sample(f, R.chance(30) ? 4000 : 100, 200, s_light); x01_slave_after(); }

static Req x01_req; static uint64_t x01_out;
static bool m_light_ready() { // the request is being waited for
    if (MC.q.empty()) m_api(x01_req);
    if (!m_pump_sent()) return false;
    if (MC.st == MasterCheck::TX) DM.txdone();
    m_quiet_polls(2);
    return !C.failed && MC.st == MasterCheck::WAIT;
}
static bool m_light(const Bytes &f) { // a damaged response: failed attempt, or ignored if the address byte is damaged
    if (!m_light_ready()) { if (!C.failed) fail("harness", "not waiting"); return false; }
    uint64_t ok = MC.n_ok + MC.n_exc;
    for (uint8_t b : f) DM.byte(b);
    DM.t15(); m_poll();
    if (f[0] != x01_req.id) { m_poll(); DM.t35(); m_quiet_polls(4); if (!C.failed && MC.st != MasterCheck::WAIT) fail("acted-on-damaged-frame", "state changed by a frame with another address"); }
    else { if (MC.st == MasterCheck::WAIT) MC.bad(EK_CRC); DM.t35(); m_settle(); }
    DM.inframe = DM.after15 = false; DM.quiet = true;
    if (!C.failed && MC.n_ok + MC.n_exc != ok) fail("acted-on-damaged-frame", "the damaged response %s was accepted", hex(f.data(), f.size()).c_str());
    return !C.failed;
}
static void x01_master_begin(bool small) {
    m_begin();
    x01_req = gen_req();
    if (small && x01_req.fc <= 4) { x01_req.qty = R.range(1, x01_req.fc <= 2 ? 24 : 2); finish_req(x01_req); }
    if (small && x01_req.fc >= 15) { x01_req.qty = R.range(1, 12); x01_req.vals.resize(x01_req.qty); finish_req(x01_req); }
    (void)x01_out;
    m_light_ready();
}
static void x01_master_after() { // an intact response is accepted afterwards
    if (C.failed || !m_light_ready()) return;
    uint64_t ok = MC.n_ok; DeliverOpt o;
    m_deliver(gen_good(x01_req), o, -1);
    if (!C.failed && MC.n_ok != ok + 1) fail("no-delivery", "intact response not accepted");
}
static void x01_master_burst() { x01_master_begin(true); Bytes f = R.chance(85) ? gen_good(x01_req) : gen_exc(x01_req); if (!C.failed) x01_bursts(f, C.index, m_light); x01_master_after(); }
static void x01_master_few() { x01_master_begin(true); Bytes f = R.chance(85) ? gen_good(x01_req) : gen_exc(x01_req); if (!C.failed) x01_few(f, C.index, m_light); x01_master_after(); }
static void x01_master_long() { x01_master_begin(false); Bytes f = gen_good(x01_req); if (!C.failed) x01_sample(f, R.chance(20) ? 4000 : 50, 100, m_light); x01_master_after(); }
static void x01_frames() { // every frame sent has the right CRC (exact comparison with the reference frames); all kinds and lengths
    slave_layout(DENSE); SA.randomize_values(); slave_start(R.range(1, 247));
    for (int k = 0; k < 3 && !C.failed; k++) {
        slave_xfer(R.chance(80) ? gen_valid() : gen_invalid());
        if (DS.txlen && !C.failed && slave_resp_seen && !crc_ok(slave_last_resp.data(), slave_last_resp.size())) fail("bad-crc-sent", "slave sent %s", hex(slave_last_resp.data(), slave_last_resp.size()).c_str());
    }
    if (C.failed) return;
    m_begin();
    for (int k = 0; k < 3 && !C.failed; k++) {
        m_api(gen_req()); m_pump_sent();
        if (!C.failed && !crc_ok(DM.snap, DM.txlen)) fail("bad-crc-sent", "master sent %s", hex(DM.snap, DM.txlen).c_str());
        COUNT("frames checked", 1);
        m_run({80, 5, 15, 0, 0, 0, 0, 0, 0}, 10);
    }
}
static RegProp P01("X01", "A case is one frame (request to the slave, response to the master) damaged in many ways (modes burst: every burst of up to 16 bits at one bit position; few: every single, double and triple error beginning at one bit; long: sampled errors in longer frames), each delivered and judged, followed by an intact frame that must be accepted; mode frames checks the CRC of sent frames; nontrivial: all damage patterns of the case were delivered; distinct by hash of frame and position.",
    {{"slave_burst", x01_slave_burst, 256, 16384, 8}, {"slave_few", x01_slave_few, 1200, 30000, 50}, {"slave_long", x01_slave_long, 2500, 100000, 100},
     {"master_burst", x01_master_burst, 128, 8192, 4}, {"master_few", x01_master_few, 800, 20000, 50}, {"master_long", x01_master_long, 1500, 60000, 100}, {"frames", x01_frames, 12000, 500000, 500}});

// ================================================================ X02
// Character-level line: one character takes 10 units of time, the drivers raise their events 15 and 35 units
// after the last received character. All nodes are simulated in one thread on one time axis.
namespace bus {
struct Item { uint8_t b; bool lost, fe; unsigned gap; };
struct Tx { int src; std::vector<Item> it; size_t pos; uint64_t next; };
static uint64_t now, next_pm, next_ps, next_tick, tick_len, last_disturb, last_act, first_tx, oth_at, noise_at;
static std::vector<Tx> txs;
static struct Node { Drv *d; uint64_t last; bool a15, a35, fe; } N[2];
static unsigned pnoise; static bool s_rxmute, s_txmute, abandoned, noisy;
static Bytes m_cur, pend, resp, oth_f; static std::vector<Bytes> origs;
static Req xreq; static size_t xidx; static bool have_x;
static int s_due; static bool s_ok, pend35, s_late; static unsigned s_polls_txd;
static void (*mc_send)(const uint8_t *, unsigned);
static const int NOISE = 3, OTHER = 2;
static uint64_t strict_from;           // requests first transmitted from here on must succeed
static unsigned n_succ, n_err;

static void disturb() { last_disturb = now; COUNT("line disturbances", 1); }
static bool answers(uint8_t id) { return id == SA.id || id % 4 != 0; }
static void start(int src, const Bytes &f) {
    Tx t; t.src = src; t.pos = 0;
    for (uint8_t b : f) t.it.push_back({b, false, false, 0});
    if (src != NOISE) { origs.push_back(f); if (origs.size() > 6) origs.erase(origs.begin()); }
    if (src != NOISE && R.chance(pnoise)) {
        disturb();
        unsigned n = t.it.size(), bits = n * 8, k;
        switch (R.below(9)) {
        case 0: for (k = R.range(1, 3); k; k--) { unsigned x = R.below(bits); t.it[x / 8].b ^= 1 << x % 8; } break;
        case 1: { unsigned s = R.below(bits), len = R.range(1, std::min(16u, bits - s)); uint16_t p = R.u16() | 1; for (unsigned i = 0; i < len; i++) if (p >> i & 1) t.it[(s + i) / 8].b ^= 1 << (s + i) % 8; break; }
        case 2: { unsigned s = R.below(n); for (k = R.range(1, 4); k && s < n; k--) t.it[s++].lost = true; break; }
        case 3: { Item x = {R.byte(), false, false, 0}; t.it.insert(t.it.begin() + R.below(n + 1), x); break; }
        case 4: for (unsigned s = R.below(n); s < n; s++) t.it[s].lost = true; break;
        case 5: t.it[R.below(n)].gap = R.range(6, 70); break;
        case 6: { unsigned s = R.below(n); t.it[s].fe = true; if (R.chance(50)) t.it[s].b ^= 1 << R.below(8); break; }
        case 7: for (auto &x : t.it) x.lost = true; break;
        default: for (k = R.range(1, 3); k; k--) { Item x = {R.byte(), false, R.chance(30), R.chance(30) ? R.range(5, 60) : 0}; t.it.push_back(x); } break;
        }
    }
    t.next = now + 10 + t.it[0].gap;
    txs.push_back(t);
}
static void m_send(const uint8_t *p, unsigned n) {
    mc_send(p, n);
    m_cur.assign(p, p + n);
    if (MC.attempts == 1 && !MC.q.empty()) { xreq = MC.q[0]; xidx = 0; have_x = true; first_tx = now; }
    resp.clear(); oth_at = 0;
    start(MASTER, m_cur);
}
static void s_send(const uint8_t *p, unsigned n) {
    Bytes f(p, p + n);
    if (pend.empty()) { fail("answer-without-request", "the slave sent %s although it received no intact request", hex(p, n).c_str()); return; }
    if (!pend35) { fail("early-response", "the slave started to send before the line was silent"); return; }
    Expect e = slave_expect(pend.data(), pend.size(), false);
    bool ok = false; for (auto &a : e.alts) if (a == f) ok = true;
    if (!ok) { fail("wrong-response", "request %s answered %s", hex(pend.data(), pend.size()).c_str(), hex(p, n).c_str()); return; }
    if (!(f[1] & 0x80)) {
        for (unsigned k = 0; k < e.wval.size(); k++) { int v = SA.map[e.wtab][e.wadr + k]; if (e.wtab < 2) SA.xbits[v] = e.wval[k]; else SA.xregs[v] = e.wval[k]; }
        if (e.wval.size()) COUNT("writes executed", 1);
    } else if (e.partial) {
        for (unsigned k = 0; k < e.wval.size(); k++) {
            int v = SA.map[e.wtab][e.wadr + k]; if (v < 0) continue;
            if (e.wtab < 2) { if (SA.bits[v] == e.wval[k]) SA.xbits[v] = e.wval[k]; } else if (SA.regs[v] == e.wval[k]) SA.xregs[v] = e.wval[k];
        }
    }
    pend.clear(); s_due = 0;
    COUNT("slave responses", 1);
    if (!s_txmute) resp = f;
    start(SLAVE, f);
    if (s_txmute) { for (auto &x : txs.back().it) x.lost = true; disturb(); }
}
static void sink(const Cb &c) {
    if (C.failed || !have_x) return;
    if (c.k == K_TMO || c.k == K_COMM) {
        bool silent = !answers(xreq.id) && c.k == K_TMO;
        if (!silent && (first_tx >= strict_from || last_disturb + 100 < first_tx)) fail("undisturbed-failure", "request %s failed although nothing disturbed it: %s", hex(xreq.adu.data(), std::min<size_t>(24, xreq.adu.size())).c_str(), cb_str(c).c_str());
        n_err++; have_x = false; return;
    }
    if (resp.empty() || !acceptable(xreq, resp.data(), resp.size())) { fail("report-without-response", "%s although no slave answered this request", cb_str(c).c_str()); return; }
    std::vector<Cb> v = outcome_of(xreq, resp.data(), resp.size());
    if (xidx >= v.size() || !(v[xidx] == c)) { fail("untrue-report", "%s, but the slave's response %s says %s", cb_str(c).c_str(), hex(resp.data(), resp.size()).c_str(), xidx < v.size() ? cb_str(v[xidx]).c_str() : "nothing"); return; }
    if (++xidx == v.size()) { n_succ++; have_x = false; COUNT("requests completed end to end", 1); }
}
static void deliver(int n, uint8_t b, bool fe) {
    Node &x = N[n];
    if (n == 1 && s_rxmute) { disturb(); return; }
    if (x.d->quiet) { x.fe = false; if (n == 1) s_ok = !DS.busy && s_polls_txd >= 4; }
    if (n == 1 && DS.busy) s_ok = false;
    if (n == 1) s_due = 0; // a byte that arrives before the slave has processed the silence may spoil the request
    if (x.d->after15) { fe = true; if (n == 1) pend.clear(); }
    if (fe) x.fe = true;
    bool first = R.chance(50);
    if (fe && first) x.d->fe();
    x.d->byte(b);
    if (fe && !first) x.d->fe();
    x.last = now; x.a15 = x.a35 = true;
}
static void timers(int n) {
    Node &x = N[n];
    if (x.a15 && now == x.last + 15) {
        x.a15 = false;
        const modbus_req_resp_t *r = x.d->rx;
        if (r && r->len >= 4 && crc_ok(r->data, r->len)) { // damage beyond the power of the CRC: nothing can be demanded
            bool known = false; for (auto &o : origs) if (o.size() == r->len && !memcmp(o.data(), r->data, r->len)) known = true;
            if (!known) { abandoned = true; COUNT("cases abandoned (undetectable damage)", 1); return; }
        }
        if (n == 1) { pend.clear(); pend35 = false; s_due = 0; if (r && !x.fe && m_cur.size() == r->len && m_cur[0] == SA.id && !memcmp(m_cur.data(), r->data, r->len)) pend = m_cur; if (s_ok && pend.empty() && r && r->len == 0) s_ok = false; DS.t15(); }
        else m_ev15();
    }
    if (x.a35 && now == x.last + 35) {
        x.a35 = false;
        if (n == 1) { if (DS.busy) s_ok = false; pend35 = true; if (!pend.empty() && s_ok) s_due = 8; s_late = true; DS.t35(); } else m_ev35();
    }
}
static void finish_tx(int src) {
    last_act = now;
    if (src == MASTER) {
        DM.txdone();
        if (have_x && xreq.id != SA.id && answers(xreq.id) && last_disturb + 3000 < now) { Bytes f = R.chance(85) ? gen_good(xreq) : gen_exc(xreq); oth_f = f; oth_at = now + 35 + R.range(1, 200); }
        else if (have_x && xreq.id != SA.id && answers(xreq.id)) { bool whole = last_disturb < first_tx; if (whole || R.chance(50)) { oth_f = gen_good(xreq); oth_at = now + 35 + R.range(1, 200); } }
    } else if (src == SLAVE) { DS.txdone(); s_polls_txd = 0; }
}
static void step() {
    now++;
    for (size_t i = 0; i < txs.size(); i++) {
        Tx &t = txs[i];
        if (t.next != now) continue;
        last_act = now;
        Item x = t.it[t.pos];
        bool coll = txs.size() > 1;
        if (coll) disturb();
        int src = t.src;
        if (!x.lost) for (int n = 0; n < 2; n++) if (n != src) deliver(n, coll ? R.byte() : x.b, x.fe || (coll && R.chance(20)));
        if (++t.pos < t.it.size()) t.next = now + 10 + t.it[t.pos].gap;
        else { txs.erase(txs.begin() + i); i--; finish_tx(src); }
    }
    timers(0); timers(1);
    if (abandoned || C.failed) return;
    if (oth_at && now >= oth_at) { oth_at = 0; resp = oth_f; start(OTHER, oth_f); COUNT("responses of other devices", 1); }
    if (noise_at && now >= noise_at) {
        noise_at = 0; disturb();
        Bytes f; for (unsigned k = R.range(1, R.chance(10) ? 300 : 8); k; k--) f.push_back(R.byte());
        start(NOISE, f);
    }
    if (now >= next_tick) { m_tick(); next_tick = now + tick_len; }
    bool mf = R.chance(50);
    for (int k = 0; k < 2; k++) {
        if ((k == 0) == mf) { if (now >= next_pm) { m_poll(); next_pm = now + R.range(1, 6); } }
        else if (now >= next_ps) {
            poll_slave(); next_ps = now + R.range(1, 6); s_polls_txd++;
            // the poll that notices the silence comes after the next frame has begun: the characters until then are dropped
            if (s_late) { s_late = false; if (DS.rx && DS.rx->len == 0 && !DS.quiet) { N[1].fe = false; s_ok = false; COUNT("beginnings of frames dropped by a late poll", 1); } }
            if (s_due && --s_due == 0) fail("no-response", "the slave does not answer %s", hex(pend.data(), pend.size()).c_str());
            if (pend.empty()) SA.check_memory("on the line");
        }
    }
}
static void begin() {
    slave_layout(R.chance(70) ? DENSE : HOLES); SA.randomize_values();
    slave_start(R.range(1, 247)); DS.sync_done = false;
    m_begin(); MC.relaxed = MC.lax = true;
    mc_send = DM.on_send; DM.on_send = m_send; DS.on_send = s_send; MC.sink = sink;
    now = 1000; next_pm = next_ps = now + 1; tick_len = LC.timeout > 3 ? std::max<uint64_t>(1, 12000 / (LC.timeout - 2)) : 12000; next_tick = now + R.range(1, tick_len);
    last_disturb = 0; last_act = 0; first_tx = 0; oth_at = noise_at = 0; txs.clear(); origs.clear(); m_cur.clear(); pend.clear(); resp.clear();
    N[0] = {&DM, 0, false, false, false}; N[1] = {&DS, 0, false, false, false};
    pnoise = 0; s_rxmute = s_txmute = abandoned = noisy = have_x = false; s_due = 0; s_ok = false; s_polls_txd = 10; strict_from = ~0ull; n_succ = n_err = 0; xidx = 0; s_late = false;
}
static Req request() {
    Req r;
    if (R.chance(70)) {
        r.id = SA.id; r.fc = FCS[R.below(8)];
        unsigned size = tab_size((r.fc == 1 || r.fc == 5 || r.fc == 15) ? COILS : r.fc == 2 ? DINS : r.fc == 4 ? IREGS : HREGS), q;
        q = (r.fc == 5 || r.fc == 6) ? 1 : R.chance(70) ? R.range(1, std::min(std::min(max_qty(r.fc), size), 10u)) : pick_qty(std::min(max_qty(r.fc), size));
        r.adr = pick_adr(size, q); r.qty = (r.fc == 5 || r.fc == 6) ? 0 : q;
        if (r.fc >= 5) { r.vals.resize(q); for (auto &v : r.vals) v = (r.fc == 5 || r.fc == 15) ? R.below(2) : R.u16(); }
        finish_req(r);
    } else r = gen_req(0, R.chance(50) ? SA.id : R.range(1, 247));
    return r;
}
static bool go(uint64_t units) { while (units-- && !abandoned && !C.failed) step(); return !abandoned && !C.failed; }
static bool idle_line() { return txs.empty() && !oth_at && now > last_act + 60 && DM.quiet && DS.quiet; }
static bool session(unsigned nreq, unsigned noise) { // issues requests and runs until all have ended
    pnoise = noise; noisy = noise > 0;
    uint64_t guard = 0, limit = (uint64_t)(nreq + LC.queue) * (LC.retries + 1) * (tick_len * LC.timeout + 8000) + 100000;
    while ((nreq || !MC.q.empty()) && !C.failed && !abandoned) {
        if (nreq && MC.q.size() < LC.queue && R.below(MC.q.empty() ? 20 : 300) == 0) {
            Req r = request(); nreq--;
            if (m_api(r) == 1) {}
            mixb(r.adu.data(), std::min<size_t>(8, r.adu.size()));
        }
        if (R.below(200) == 0 && idle_line() && pend.empty()) SA.app_writes(R.range(1, 10));
        if (noisy) {
            unsigned k = R.below(20000);
            if (k < 4 * noise && !noise_at) noise_at = now + R.range(1, 50);
            else if (k == 19990) s_rxmute = !s_rxmute;
            else if (k == 19991) s_txmute = !s_txmute;
            if (k == 19992) s_rxmute = s_txmute = false;
        }
        step();
        if (++guard > limit) { fail("stuck", "%zu requests have not ended after %llu units of line time", MC.q.size(), (unsigned long long)guard); }
    }
    pnoise = 0; noisy = false; s_rxmute = s_txmute = false; noise_at = 0;
    return !C.failed && !abandoned;
}
static void calm() { while (!C.failed && !abandoned && !idle_line()) step(); go(100); strict_from = now; }
}
static void x02_clean() {
    if (LC.timeout < 3) return;
    bus::begin(); bus::strict_from = 0;
    if (!bus::session(R.range(4, 14), 0)) return;
    bus::go(200);
    C.nontrivial = true;
    SA.check_memory("at the end");
}
static void x02_noisy() {
    if (LC.timeout < 3) return;
    bus::begin();
    for (unsigned k = R.range(1, 3); k; k--) {
        bus::strict_from = ~0ull;
        if (!bus::session(R.range(3, 12), R.chance(30) ? R.range(1, 8) : R.range(5, 50))) return;
        bus::calm();
        if (C.failed || bus::abandoned) return;
        unsigned want = R.range(1, 3);
        if (!bus::session(want, 0)) return; // normal service resumes
        COUNT("recoveries checked", 1);
        C.nontrivial = true;
        mix(bus::n_succ << 8 | bus::n_err);
    }
    if (!C.failed) SA.check_memory("at the end");
}
static RegProp P02("X02", "A case is a session of a real master, the real slave and simulated other devices on a character-level line with random poll periods (mode clean: undisturbed, everything must succeed; mode noisy: flipped, lost, inserted characters, pauses, character errors, collisions, muted directions, then an undisturbed phase that must succeed completely); nontrivial: the session was judged to its end (not abandoned because of damage beyond the power of the CRC); distinct by hash of the requests and outcomes.",
    {{"clean", x02_clean, 3000, 120000, 100}, {"noisy", x02_noisy, 4000, 200000, 100}});

// ================================================================ X03
namespace co {
static ucontext_t ucm, uc[2]; static bool done[2], active; static int cur;
static void (*fn[2])(); static unsigned denom; static char *stk[2]; static uint64_t switches, nested;
static void sw(int to) { // leaves the current session, continues the other
    if (done[to]) return;
    int from = cur; uint64_t pts = H.points; bool on = H.on; Where wh = g_where;
    cur = to; switches++;
    H.on = false;
    swapcontext(&uc[from], &uc[to]);
    H.on = on; H.points = pts; g_where = wh;
}
static void at_point() { if (active && R.below(denom) == 0) { nested++; sw(1 - cur); } }
static void between() { if (active && R.below(3) == 0) sw(1 - cur); }
static void entry(int i) {
    fn[i]();
    done[i] = true; H.on = false;
    int o = 1 - i;
    if (!done[o]) { cur = o; swapcontext(&uc[i], &uc[o]); }
    swapcontext(&uc[i], &ucm);
}
static void run(void (*m)(), void (*s)(), unsigned d) {
    fn[0] = m; fn[1] = s; denom = d; switches = nested = 0;
    const size_t SZ = 1 << 20;
    for (int i = 0; i < 2; i++) {
        if (!stk[i]) stk[i] = (char *)malloc(SZ);
        done[i] = false;
        getcontext(&uc[i]); uc[i].uc_stack.ss_sp = stk[i]; uc[i].uc_stack.ss_size = SZ; uc[i].uc_link = &ucm;
        makecontext(&uc[i], (void (*)())entry, 1, i);
    }
    cur = R.below(2); active = true;
    H.fire = d ? at_point : nullptr; H.multi = d != 0; H.between = between;
    swapcontext(&ucm, &uc[cur]);
    active = false; H.fire = nullptr; H.multi = false; H.between = nullptr; H.on = false;
    COUNT("switches between the roles", switches); COUNT("switches inside a poll", nested);
    mix(switches << 20 ^ nested);
}
}
static const char *MSESS[][2] = {{"M01", "session"}, {"M03", "session"}, {"M04", "plans"}, {"M05", "session"}, {"M06", "session"}, {"M07", "session"}, {"M08", "session"}, {"M09", "justintime"}, {"M10", "session"}, {"M13", "session"}};
static const char *SSESS[][2] = {{"S01", "session"}, {"S02", "session"}, {"S03", "session"}, {"S04", "session"}, {"S05", "session"}, {"S06", "session"}, {"S09", "session"}, {"S09", "overlap"}};
static void x03_run(unsigned d) {
    auto m = MSESS[R.below(10)], s = SSESS[R.below(8)];
    VLOG("roles: %s %s and %s %s", m[0], m[1], s[0], s[1]);
    co::run(find_mode(m[0], m[1])->fn, find_mode(s[0], s[1])->fn, d);
}
static void x03_calls() { x03_run(0); }
static void x03_nested() {
    if (!hooks_compiled_in()) return;
    static const unsigned D[] = {3, 20, 100, 600};
    x03_run(D[R.below(4)]);
}
static void x03_solo() { // one poll of a role runs completely inside a poll of the other, at every point in turn
    if (!hooks_compiled_in()) return;
    x03_run(1 + R.below(2));
}
static RegProp P03("X03", "A case is a master session and a slave session (those of the single-role checks, with their complete checkers) run as two coroutines in one process, switched at random between calls (mode calls) or also at instrumented memory accesses and branches inside the polls (modes nested, dense); nontrivial: at least one exchange was judged; distinct by hash of both sessions and the switches.",
    {{"calls", x03_calls, 6000, 200000, 200}, {"nested", x03_nested, 12000, 500000, 200}, {"dense", x03_solo, 2000, 60000, 100}});

// ================================================================ X05
struct Ref { const char *id, *mode; unsigned quick, thorough; };
static const Ref X05[] = {
    {"S01", "enum", 1500, 40000}, {"S01", "session", 1200, 40000}, {"S02", "session", 1200, 40000}, {"S03", "enum", 1200, 37000}, {"S03", "session", 1200, 40000},
    {"S04", "session", 800, 30000}, {"S05", "enum", 800, 30000}, {"S06", "session", 800, 30000}, {"S08", "session", 1000, 30000}, {"S10", "session", 600, 20000},
    {"M01", "enum", 800, 30000}, {"M01", "session", 500, 15000}, {"M02", "enum", 400, 24576}, {"M02", "session", 300, 10000}, {"M03", "session", 300, 10000}, {"M03", "long", 30, 800},
    {"M04", "soup", 300, 10000}, {"M04", "plans", 300, 10000}, {"M05", "enum", 500, 15000}, {"M07", "session", 500, 15000}, {"M08", "enum", 400, 15000}, {"M08", "session", 300, 10000},
    {"M09", "silence", 300, 8000}, {"M09", "justintime", 300, 8000}, {"M10", "timeout", 100, 3000}, {"M11", "enum", 300, 10000}, {"M13", "session", 300, 10000}, {"M14", "session", 300, 10000},
    {"X02", "clean", 100, 3000}, {"X02", "noisy", 100, 3000}};
template <int I> static void x05_fn() {
    static const Mode *m = find_mode(X05[I].id, X05[I].mode);
    C.index = (C.index * 2654435761ull + C.seed * 40503) % (m->thorough ? m->thorough : 1); // anywhere in the enumerations
    m->fn();
}
template <int... I> static std::vector<Mode> x05_modes(std::integer_sequence<int, I...>) {
    static std::string names[sizeof...(I)];
    std::vector<Mode> v;
    (void)std::initializer_list<int>{(names[I] = std::string(X05[I].id) + "-" + X05[I].mode, v.push_back({names[I].c_str(), x05_fn<I>, X05[I].quick, X05[I].thorough, (unsigned)(X05[I].quick < 200 ? 10 : 50)}), 0)...};
    return v;
}
static RegProp P05("X05", "A case is a case of one of the other checks (its name is the mode), run on a library compiled with another configuration (queue length, retries, timeout, table sizes); nontrivial and distinct as defined there, summed over configurations.", x05_modes(std::make_integer_sequence<int, sizeof(X05) / sizeof(X05[0])>()));
