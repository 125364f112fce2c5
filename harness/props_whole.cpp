// X08: interrupts of the application read and change its data at any point of a slave poll (and a caller's array at any
// point of a request function). After every step of the library the variables are compared with what they may be.
#include "master_eng.hpp"
namespace {
Rng R2; unsigned denom; uint64_t changes, stores, looks;
void draw() { static const unsigned D[] = {3, 10, 30, 100, 400, 1500}; denom = D[R.below(6)]; }
// ---- slave ----
std::vector<uint8_t> cb; std::vector<modbus_reg_t> cr;      // what the variables hold according to the monitor
std::vector<std::vector<uint16_t>> hb, hr;                  // the values they had since the silence that ended the request
std::vector<int> hotb, hotr;                                // addressed variables
Expect E; bool reading, armed; unsigned sends;
std::vector<uint8_t> used;                                  // items of the write request that have taken effect
bool requested(bool bit, int v, uint16_t val) {
    if (E.wtab < 0 || (E.wtab < 2) != bit) return false;
    for (unsigned k = 0; k < E.wval.size(); k++) if (SA.map[E.wtab][E.wadr + k] == v && E.wval[k] == val) return true;
    return false;
}
// a change made by the library: asked for, and not done before (a second store would put a stale value over the application's)
void stored(bool bit, int v, uint16_t val, uint16_t old) {
    const char *what = bit ? "coil or input" : "register";
    if (!armed || !requested(bit, v, val)) { fail("foreign-value", "the slave changed a %s from %04x to %04x, which no accepted request asks for", what, old, val); return; }
    for (unsigned k = 0; k < E.wval.size(); k++) if (SA.map[E.wtab][E.wadr + k] == v && E.wval[k] == val && !used[k]) { used[k] = 1; return; }
    fail("stale-value", "the slave changed a %s from %04x to %04x once more, after the write had taken effect and the application had changed it", what, old, val);
}
void look() { // changes since the last look were made by the library
    looks++;
    if (memcmp(cb.data(), SA.bits.data(), cb.size())) for (unsigned i = 0; i < cb.size(); i++) if (cb[i] != SA.bits[i]) {
        stores++;
        stored(true, i, SA.bits[i], cb[i]);
        cb[i] = SA.bits[i]; hb[i].push_back(cb[i]);
    }
    if (memcmp(cr.data(), SA.regs.data(), cr.size() * 2)) for (unsigned i = 0; i < cr.size(); i++) if (cr[i] != SA.regs[i]) {
        stores++;
        stored(false, i, SA.regs[i], cr[i]);
        cr[i] = SA.regs[i]; hr[i].push_back(cr[i]);
    }
}
void change() { // the application changes one of its variables
    bool bit = hotb.empty() ? hotr.empty() ? R2.chance(50) : R2.chance(15) : R2.chance(85);
    auto &hot = bit ? hotb : hotr; unsigned n = bit ? cb.size() : cr.size(); if (!n) return;
    int i = !hot.empty() && R2.chance(90) ? hot[R2.below(hot.size())] : (int)R2.below(n);
    changes++;
    if (bit) { cb[i] = SA.bits[i] = !cb[i]; hb[i].push_back(cb[i]); VLOG("   -- application sets bit %d to %u at point %llu", i, cb[i], (unsigned long long)H.points); }
    else { cr[i] = SA.regs[i] = R2.chance(20) ? cr[i] ^ 0x0101 : R2.below(0x10000); hr[i].push_back(cr[i]); VLOG("   -- application sets register %d to %04x at point %llu", i, cr[i], (unsigned long long)H.points); }
}
void fire() { look(); if (!R2.below(denom)) change(); }
bool had(const std::vector<uint16_t> &h, uint16_t v) { for (uint16_t x : h) if (x == v) return true; return false; }
void on_send(const uint8_t *p, unsigned n) {
    look();
    Bytes g(p, p + n);
    if (!armed) { fail("unexpected-response", "the slave sent %s unasked", hex(p, n).c_str()); return; }
    if (sends++) { fail("several-responses", "a second transmission for one request: %s", hex(p, n).c_str()); return; }
    bool exact = false; for (auto &a : E.alts) if (a == g) exact = true;
    if (!exact && !reading) { fail("wrong-response", "%s frame answered %s, expected %s", E.what, hex(p, n).c_str(), E.alts.empty() ? "no response" : hex(E.alts[0].data(), E.alts[0].size()).c_str()); return; }
    if (reading) {
        const Bytes &a = E.alts[0];
        if (g.size() != a.size() || !std::equal(a.begin(), a.begin() + 3, g.begin()) || !crc_ok(p, n)) { fail("wrong-response", "read request answered %s, expected the form of %s", hex(p, n).c_str(), hex(a.data(), a.size()).c_str()); return; }
        static const int T[5] = {0, COILS, DINS, HREGS, IREGS}; int t = T[g[1]];
        for (unsigned k = 0; k < E.wval.size(); k++) { // (address and number of items are kept here)
            int v = SA.map[t][E.wadr + k];
            uint16_t x = t < 2 ? g[3 + k / 8] >> (k % 8) & 1 : g[3 + 2 * k] << 8 | g[4 + 2 * k];
            if (v < 0 || !had(t < 2 ? hb[v] : hr[v], x)) fail("torn-value", "address %u is answered with %04x, a value its variable never had (%04x before)", E.wadr + k, x, (t < 2 ? hb[v] : hr[v])[0]);
        }
        if (t < 2) for (unsigned k = E.wval.size(); k < 8u * g[2]; k++) if (g[3 + k / 8] >> (k % 8) & 1) fail("wrong-response", "padding is not zero: %s", hex(p, n).c_str());
    } else if (!(g[1] & 0x80)) for (unsigned k = 0; k < E.wval.size(); k++) { // written, or changed by the application since
        int v = SA.map[E.wtab][E.wadr + k]; if (v < 0) continue;
        auto &h = E.wtab < 2 ? hb[v] : hr[v]; uint16_t x = E.wtab < 2 ? cb[v] : cr[v];
        if (h.size() == 1 && !requested(E.wtab < 2, v, x)) fail("lost-write", "write confirmed, but address %u holds %04x instead of %04x", E.wadr + k, x, E.wval[k]);
    }
    E.wtab = -1; // done: nothing may be changed any more
}
void arm(const Bytes &f) {
    E = slave_expect(f.data(), f.size(), false); sends = 0; armed = true;
    for (auto &h : hb) h.clear(); for (auto &h : hr) h.clear();
    for (unsigned i = 0; i < cb.size(); i++) hb[i].push_back(cb[i]);
    for (unsigned i = 0; i < cr.size(); i++) hr[i].push_back(cr[i]);
    used.assign(E.wval.size(), 0);
    reading = E.alts.size() == 1 && E.alts[0][1] >= 1 && E.alts[0][1] <= 4;
    if (reading) { E.wtab = -1; E.wadr = f[2] << 8 | f[3]; E.wval.assign(f[4] << 8 | f[5], 0); }
}
void app() { if (R2.chance(10)) change(); }
void polls(unsigned a, unsigned b) { for (unsigned k = R.range(a, b); k && !C.failed; k--) { app(); poll_slave(); look(); } }
void slave_case() {
    if (!hooks_compiled_in()) return;
    int lay = R.chance(55) ? DENSE : R.chance(50) ? HOLES : ALIASED;
    slave_layout(lay); SA.randomize_values(); slave_start(R.range(1, 247)); DS.spur = false; DS.sync_done = false; DS.on_send = on_send;
    cb = SA.bits; cr = SA.regs; hb.assign(cb.size(), {}); hr.assign(cr.size(), {}); armed = false; reading = false; E = Expect(); hotb.clear(); hotr.clear();
    R2 = R; R2.next(); changes = stores = looks = 0; H.multi = true; H.fire = fire; draw();
    for (unsigned n = R.range(1, 4); n && !C.failed; n--) {
        if (R.chance(40)) draw();
        Bytes f; for (int t = 0; t < 30; t++) { f = R.chance(90) ? gen_valid() : R.chance(70) ? gen_invalid() : gen_badlen(); if (f.size() < 30) break; }
        mixb(f.data(), std::min<size_t>(f.size(), 16));
        hotb.clear(); hotr.clear();
        static const int T[17] = {-1, COILS, DINS, HREGS, IREGS, COILS, HREGS, -1, -1, -1, -1, -1, -1, -1, -1, COILS, HREGS};
        if (f.size() >= 8 && f[1] <= 16 && T[f[1]] >= 0) {
            int t = T[f[1]]; unsigned a = f[2] << 8 | f[3], q = f[1] == 5 || f[1] == 6 ? 1 : f[4] << 8 | f[5];
            for (unsigned k = 0; k < q && a + k < tab_size(t); k++) if (SA.map[t][a + k] >= 0) (t < 2 ? hotb : hotr).push_back(SA.map[t][a + k]);
        }
        for (uint8_t b : f) { DS.byte(b); app(); if (R.chance(3)) { poll_slave(); look(); } }
        DS.t15(); polls(0, 2);
        look(); arm(f);
        DS.t35();
        for (int i = 0; i < 8 && !sends && !C.failed; i++) { poll_slave(); look(); app(); }
        if (C.failed) break;
        if (!sends && !E.silent_ok) { fail("no-response", "no response to %s request", E.what); break; }
        polls(0, 2);
        if (DS.busy) DS.txdone();
        polls(4, 5);
        armed = false;
    }
    H.multi = false; H.fire = nullptr;
    SA.xbits = SA.bits; SA.xregs = SA.regs;
    COUNT("changes by application interrupts", changes); COUNT("stores of the library observed", stores); COUNT("comparisons of all variables", looks);
    if (changes) C.nontrivial = true;
    mix(changes); mix(stores);
}
// ---- master: the caller's array ----
std::vector<modbus_reg_t> ar, sr; std::vector<std::vector<uint16_t>> ha; uint8_t *ac; std::vector<uint8_t> sc; bool coils; Bytes sent;
void look_m() {
    if (coils ? !sc.empty() && memcmp(ac, sc.data(), sc.size()) : ar != sr) { fail("caller-data-changed", "the request function changed the caller's array"); if (coils) memcpy(ac, sc.data(), sc.size()); else ar = sr; }
}
void fire_m() {
    look_m(); if (R2.below(denom)) return;
    unsigned i = R2.below(ha.size()); changes++;
    if (coils) { ac[i] = sc[i] = !sc[i]; ha[i].push_back(sc[i]); } else { ar[i] = sr[i] = R2.chance(20) ? sr[i] ^ 0x0101 : R2.below(0x10000); ha[i].push_back(sr[i]); }
}
void on_send_m(const uint8_t *p, unsigned n) { sent.assign(p, p + n); }
void master_case() {
    if (!hooks_compiled_in()) return;
    m_begin(); DM.sync_done = DM.spur = DM.stray15 = false; DM.on_send = on_send_m;
    R2 = R; R2.next(); changes = 0;
    for (unsigned k = R.range(1, LC.queue); k && !C.failed; k--) {
        draw(); if (denom > 400) denom = 400;
        Req r = gen_req(R.chance(70) ? 16 : 15); if (r.qty > 24 && R.chance(80)) { r.qty = 1 + r.qty % 24; r.vals.resize(r.qty); finish_req(r); }
        mixb(r.adu.data(), std::min<size_t>(r.adu.size(), 16));
        coils = r.fc == 15; unsigned q = r.qty; ha.assign(q, {}); ar.clear(); sr.clear(); sc.clear();
        static_assert(sizeof(modbus_coil_disin_t) == 1, "coil type"); std::vector<uint8_t> store(q);
        if (coils) { ac = store.data(); for (unsigned i = 0; i < q; i++) { ac[i] = r.vals[i]; ha[i].push_back(ac[i]); } sc = store; }
        else { ar.assign(r.vals.begin(), r.vals.end()); sr = ar; for (unsigned i = 0; i < q; i++) ha[i].push_back(ar[i]); }
        H.points = 0; H.multi = true; H.fire = fire_m; H.on = true;
        modbus_master_req_ret_t ret;
        { In w(W_API); ret = coils ? modbus_master_write_multiple_coils(r.adr, q, r.id, (modbus_coil_disin_t *)ac) : modbus_master_write_multiple_reg(r.adr, q, r.id, ar.data()); }
        H.on = false; H.multi = false; H.fire = nullptr;
        look_m();
        if ((int)ret < 0) { fail("request-refused", "a valid request was refused (%d)", (int)ret); return; }
        sent.clear();
        for (int i = 0; i < 4 && sent.empty(); i++) poll_master();
        if (sent.size() != r.adu.size() || memcmp(sent.data(), r.adu.data(), 7) || !crc_ok(sent.data(), sent.size())) { fail("wrong-request-frame", "sent %s, expected the form of %s", hex(sent.data(), sent.size()).c_str(), hex(r.adu.data(), r.adu.size()).c_str()); return; }
        for (unsigned i = 0; i < q; i++) {
            uint16_t x = coils ? sent[7 + i / 8] >> (i % 8) & 1 : sent[7 + 2 * i] << 8 | sent[8 + 2 * i];
            if (!had(ha[i], x)) { fail("torn-value", "item %u of the request is %04x, a value the caller's array never had (%04x before)", i, x, ha[i][0]); return; }
        }
        COUNT("requests whose array was changed during the call", 1);
        { In w(W_INIT); modbus_master_init(RTU, 9600, NONE); } DM.busy = false; DM.on_send = on_send_m;
    }
    COUNT("changes by application interrupts", changes);
    if (changes) C.nontrivial = true;
    mix(changes);
}
RegProp P08("X08", "A case is a history of 1-4 requests to a slave (mode slave) or of multiple writes queued at a master (mode master) on instrumented builds: before every memory access and at every branch of the library all application variables (the caller's array) are compared with the values they may have, and at random points an interrupt of the application changes one of them, preferably an addressed one; every item of the frame sent must be a value that its variable had; nontrivial: data were changed inside library functions; distinct by hash of requests and changes.",
    {{"slave", slave_case, 6000, 2500000, 100}, {"master", master_case, 2500, 800000, 100}});
}
