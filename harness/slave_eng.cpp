#include "slave_eng.hpp"
SlaveApp SA;
unsigned slave_resp_seen; Bytes slave_last_resp;

void SlaveApp::setup(unsigned nb, unsigned nr) {
    // variables live in fixed places during a process: the library may keep pointers from earlier cases
    if (bits.size() != nb) { bits.assign(nb, 0); xbits.assign(nb, 0); }
    if (regs.size() != nr) { regs.assign(nr, 0); xregs.assign(nr, 0); }
    for (int t = 0; t < 4; t++) if (map[t].size() != tab_size(t)) map[t].assign(tab_size(t), -1);
}
void SlaveApp::reg(int tab, uint32_t adr, int32_t var) {
    modbus_coil_disin_t *bp = var < 0 ? nullptr : (modbus_coil_disin_t *)&bits[var < (int)bits.size() && tab < 2 ? var : 0];
    modbus_reg_t *rp = var < 0 ? nullptr : &regs[var < (int)regs.size() && tab >= 2 ? var : 0];
    In w(W_REG);
    switch (tab) {
    case COILS: register_app_data_to_modbus_slave_coils_table(adr, bp); break;
    case DINS: register_app_data_to_modbus_slave_din_table(adr, bp); break;
    case IREGS: register_app_data_to_modbus_slave_inreg_table(adr, rp); break;
    default: register_app_data_to_modbus_slave_hreg_table(adr, rp); break;
    }
    if (adr < map[tab].size()) map[tab][adr] = var;
}
void SlaveApp::randomize_values() {
    for (size_t i = 0; i < bits.size(); i += 64) { uint64_t x = R.next(); for (size_t k = i; k < bits.size() && k < i + 64; k++) bits[k] = xbits[k] = (x >> (k - i)) & 1; }
    for (size_t i = 0; i < regs.size(); i++) regs[i] = xregs[i] = R.u16();
}
void SlaveApp::app_writes(unsigned n) {
    for (unsigned k = 0; k < n; k++) {
        if (R.chance(50) && !bits.empty()) { unsigned i = R.below(bits.size()); bits[i] = xbits[i] = R.chance(50); }
        else if (!regs.empty()) { unsigned i = R.below(regs.size()); regs[i] = xregs[i] = R.u16(); }
    }
}
bool SlaveApp::check_memory(const char *when, const char *cls) {
    if (memcmp(bits.data(), xbits.data(), bits.size()) != 0) {
        for (size_t i = 0; i < bits.size(); i++) if (bits[i] != xbits[i]) {
            int a = -1, t = -1; for (int q = 0; q < 2; q++) for (size_t k = 0; k < map[q].size(); k++) if (map[q][k] == (int)i && t < 0) { t = q; a = k; }
            if (!fail((std::string("wrong-bit-data") + cls).c_str(), "%s: bit variable %zu (table %d address %d) is %u, expected %u", when, i, t, a, bits[i], xbits[i])) { xbits = bits; break; }
            return false;
        }
    }
    if (memcmp(regs.data(), xregs.data(), regs.size() * 2) != 0) {
        for (size_t i = 0; i < regs.size(); i++) if (regs[i] != xregs[i]) {
            int a = -1, t = -1; for (int q = 2; q < 4; q++) for (size_t k = 0; k < map[q].size(); k++) if (map[q][k] == (int)i && t < 0) { t = q; a = k; }
            if (!fail((std::string("wrong-reg-data") + cls).c_str(), "%s: register variable %zu (table %d address %d) is %04x, expected %04x", when, i, t, a, regs[i], xregs[i])) { xregs = regs; break; }
            return false;
        }
    }
    return true;
}

void slave_layout(int lay) {
    // variables: one per address of every table plus unregistered spares between the tables' blocks
    const unsigned SP = 8;
    SA.setup(LC.coils + LC.dins + 3 * SP, LC.iregs + LC.hregs + 3 * SP);
    unsigned base[4] = {SP, SP + LC.coils + SP, SP, SP + LC.iregs + SP};
    unsigned hole = R.range(2, 40);
    for (int t = 0; t < 4; t++) {
        unsigned n = tab_size(t);
        for (unsigned a = 0; a < n; a++) {
            int32_t v = base[t] + a;
            if (lay == HOLES && R.below(hole) == 0) v = -1;
            if (lay == SPARSE && R.below(4) != 0) v = -1;
            if (lay == EMPTY) v = -1;
            if (lay == ALIASED && R.below(4) == 0) v = R.below(t < 2 ? SA.bits.size() : SA.regs.size());
            if (SA.map[t][a] != v || lay == EMPTY) SA.reg(t, a, v);
        }
    }
}
static void on_slave_send(const uint8_t *m, unsigned n);
void slave_start(uint8_t id, bool) {
    static const unsigned bauds[] = {1200, 2400, 9600, 19200, 38400, 57600, 115200, 4000000000u};
    DS.reset_sim();
    DS.on_send = on_slave_send;
    slave_disable_null = R.chance(70);
    SA.id = id;
    baud_t b = R.chance(70) ? bauds[R.below(8)] : (baud_t)(R.next() | 1); parity_t p = (parity_t)R.below(3);
    { In w(W_INIT); modbus_slave_init(RTU, b, p, id); }
    if (DS.inits != 1 || DS.baud != b || DS.parity != p) fail("driver-init", "driver init calls %d with (%u,%d), expected one with (%u,%d)", DS.inits, (unsigned)DS.baud, DS.parity, (unsigned)b, p);
    if (!DS.c15 || !DS.c35 || !DS.ctx || !DS.cfe) fail("not-subscribed", "a driver event is not subscribed after the slave's initialisation");
    if (!DS.rx || !DS.rx->data || DS.rx->len) fail("reception", "reception is not enabled into an empty buffer after the slave's initialisation");
    DS.sync_done = R.chance(15); DS.spur = R.chance(25);
}

// ---- model ----
Bytes exc(uint8_t id, uint8_t fc, uint8_t code) { Bytes b = {id, (uint8_t)(fc | 0x80), code}; put_crc(b); return b; }
static unsigned be(const uint8_t *p) { return p[0] << 8 | p[1]; }
Expect slave_expect(const uint8_t *f, unsigned n, bool fe) {
    Expect e;
    if (n < 4 || fe || f[0] != SA.id || !crc_ok(f, n)) { e.silent_ok = true; e.cls = ":bad"; e.what = n < 4 ? "short" : fe ? "frame error" : f[0] != SA.id ? "foreign" : "damaged"; return e; }
    uint8_t fc = f[1];
    bool known = (fc >= 1 && fc <= 6) || fc == 15 || fc == 16;
    if (!known) {
        e.alts.push_back(exc(SA.id, fc, 1)); e.cls = ":exc"; e.what = "unsupported function";
        if (fc == 0 || fc >= 0x80) e.silent_ok = true;
        return e;
    }
    unsigned need = fc <= 6 ? 8 : n >= 9 ? 9u + f[6] : ~0u;
    if (n != need) {
        e.silent_ok = true; e.cls = ":len"; e.what = "wrong length";
        for (int c = 1; c <= 4; c++) e.alts.push_back(exc(SA.id, fc, c));
        return e;
    }
    unsigned adr = be(f + 2), q = be(f + 4);
    auto ex = [&](int c, const char *w) { e.cls = ":exc"; e.alts.push_back(exc(SA.id, fc, c)); e.what = w; };
    int tab = (fc == 1 || fc == 5 || fc == 15) ? COILS : fc == 2 ? DINS : fc == 4 ? IREGS : HREGS;
    unsigned max = fc == 1 || fc == 2 ? 2000 : fc == 3 || fc == 4 ? 125 : fc == 15 ? 1968 : fc == 16 ? 123 : 1;
    unsigned qty = (fc == 5 || fc == 6) ? 1 : q;
    if (fc == 5 && q != 0 && q != 0xFF00) { ex(3, "coil value"); return e; }
    if (qty == 0 || qty > max) { ex(3, "quantity"); return e; }
    bool badbc = (fc == 15 && f[6] != (qty + 7) / 8) || (fc == 16 && f[6] != 2 * qty);
    if (adr + qty > tab_size(tab)) { ex(2, "address"); if (badbc) e.alts.push_back(exc(SA.id, fc, 3)); return e; }
    if (badbc) { ex(3, "byte count"); return e; }
    bool missing = false;
    for (unsigned i = 0; i < qty; i++) if (SA.map[tab][adr + i] < 0) missing = true;
    Bytes r = {SA.id, fc};
    if (fc >= 5) {
        e.wtab = tab; e.wadr = adr;
        for (unsigned i = 0; i < qty; i++)
            e.wval.push_back(fc == 5 ? q == 0xFF00 : fc == 6 ? q : fc == 15 ? (f[7 + i / 8] >> (i % 8)) & 1 : be(f + 7 + 2 * i));
    }
    if (missing) { ex(4, "unregistered"); e.cls = ":unreg"; e.partial = fc >= 5; return e; }
    if (fc <= 2) {
        r.push_back((qty + 7) / 8);
        for (unsigned i = 0; i < qty; i++) { if (i % 8 == 0) r.push_back(0); r.back() |= SA.xbits[SA.map[tab][adr + i]] << (i % 8); }
    } else if (fc <= 4) {
        r.push_back(2 * qty);
        for (unsigned i = 0; i < qty; i++) { uint16_t v = SA.xregs[SA.map[tab][adr + i]]; r.push_back(v >> 8); r.push_back(v & 255); }
    } else r.insert(r.end(), f + 2, f + 6);
    put_crc(r);
    e.alts.push_back(r); e.what = "valid"; e.cls = ":valid";
    return e;
}

// ---- frames ----
Bytes rq_read(uint8_t id, uint8_t fc, uint16_t adr, uint16_t qty) { Bytes b = {id, fc, (uint8_t)(adr >> 8), (uint8_t)adr, (uint8_t)(qty >> 8), (uint8_t)qty}; put_crc(b); return b; }
Bytes rq_write1(uint8_t id, uint8_t fc, uint16_t adr, uint16_t val) { return rq_read(id, fc, adr, val); }
Bytes rq_wcoils(uint8_t id, uint16_t adr, uint16_t qty, const uint8_t *bits, int bc) {
    Bytes b = rq_read(id, 15, adr, qty); b.resize(6);
    unsigned n = bc < 0 ? (qty + 7) / 8 : bc;
    b.push_back(n);
    for (unsigned i = 0; i < n; i++) { uint8_t x = 0; for (int k = 0; k < 8; k++) if (i * 8 + k < qty ? bits[i * 8 + k] : 0) x |= 1 << k; b.push_back(x); }
    put_crc(b); return b;
}
Bytes rq_wregs(uint8_t id, uint16_t adr, uint16_t qty, const uint16_t *v, int bc) {
    Bytes b = rq_read(id, 16, adr, qty); b.resize(6);
    unsigned n = bc < 0 ? qty * 2 : bc;
    b.push_back(n);
    for (unsigned i = 0; i < n; i++) { uint16_t x = i / 2 < qty ? v[i / 2] : 0; b.push_back(i % 2 ? x & 255 : x >> 8); }
    put_crc(b); return b;
}
unsigned pick_qty(unsigned max) {
    switch (R.below(6)) {
    case 0: return 1;
    case 1: return max;
    case 2: { unsigned q = 8 * R.range(1, max / 8 ? max / 8 : 1); int d = (int)R.below(3) - 1; int v = (int)q + d; return v < 1 ? 1 : (unsigned)v > max ? max : v; }
    case 3: return R.range(1, max < 20 ? max : 20);
    default: return R.range(1, max);
    }
}
unsigned pick_adr(unsigned size, unsigned qty) {
    unsigned hi = size - qty;
    switch (R.below(5)) {
    case 0: return 0;
    case 1: return hi;
    case 2: { unsigned c = R.below(size / 256 + 1) * 256; int v = (int)c - (int)R.below(4); return v < 0 ? 0 : (unsigned)v > hi ? hi : v; }
    default: return R.range(0, hi);
    }
}
static const uint8_t FCS[8] = {1, 2, 3, 4, 5, 6, 15, 16};
static int fc_tab(int fc) { return (fc == 1 || fc == 5 || fc == 15) ? COILS : fc == 2 ? DINS : fc == 4 ? IREGS : HREGS; }
static unsigned fc_max(int fc) { return fc <= 2 ? 2000 : fc <= 4 ? 125 : fc <= 6 ? 1 : fc == 15 ? 1968 : 123; }
static void fill_pattern(Bytes &bits, std::vector<uint16_t> &regs, unsigned n) {
    bits.resize(n); regs.resize(n);
    int pat = R.below(5);
    for (unsigned i = 0; i < n; i++) {
        bits[i] = pat == 0 ? 1 : pat == 1 ? 0 : pat == 2 ? i & 1 : R.chance(50);
        regs[i] = pat == 0 ? 0xFFFF : pat == 1 ? 0 : pat == 2 ? (i & 1 ? 0x00FF : 0xFF00) : R.u16();
    }
}
Bytes gen_valid_at(int fc, uint16_t adr, uint16_t qty) {
    Bytes bits; std::vector<uint16_t> v; fill_pattern(bits, v, qty);
    switch (fc) {
    case 5: return rq_write1(SA.id, 5, adr, bits[0] ? 0xFF00 : 0);
    case 6: return rq_write1(SA.id, 6, adr, v[0]);
    case 15: {
        Bytes b = rq_wcoils(SA.id, adr, qty, bits.data());
        if (qty % 8 && R.chance(30)) { b.resize(b.size() - 2); b.back() |= (uint8_t)(0xFF << (qty % 8)); put_crc(b); } // padding bits are not data
        return b;
    }
    case 16: return rq_wregs(SA.id, adr, qty, v.data());
    default: return rq_read(SA.id, fc, adr, qty);
    }
}
Bytes gen_valid(int fc) {
    if (!fc) fc = FCS[R.below(8)];
    unsigned size = tab_size(fc_tab(fc)), max = std::min(fc_max(fc), size);
    unsigned q = pick_qty(max);
    return gen_valid_at(fc, pick_adr(size, q), q);
}
Bytes gen_invalid() {
    int fc = FCS[R.below(8)];
    unsigned size = tab_size(fc_tab(fc)), max = fc_max(fc);
    switch (R.below(6)) {
    case 0: { // unsupported function, any body
        uint8_t f; do f = R.below(256); while ((f >= 1 && f <= 6) || f == 15 || f == 16);
        if (R.chance(80)) f &= 0x7F;
        if ((f >= 1 && f <= 6) || f == 15 || f == 16 || f == 0) f = 7;
        Bytes b = {SA.id, f}; unsigned n = R.chance(50) ? 4 : R.below(60); while (n--) b.push_back(R.byte());
        put_crc(b); return b;
    }
    case 1: { // quantity
        if (fc == 5) return rq_write1(SA.id, 5, R.chance(70) ? pick_adr(size, 1) : R.u16(), R.chance(50) ? 1 + R.below(0xFEFF) : R.chance(50) ? 0xFF00 + R.range(1, 255) : R.chance(50) ? 0xFF : 1);
        if (fc == 6) fc = 3;
        size = tab_size(fc_tab(fc)); max = fc_max(fc);
        unsigned q = R.chance(30) ? 0 : R.chance(40) ? max + R.range(1, 4) : R.chance(30) ? 0xFFFF - R.below(3) : R.range(max + 1, 0xFFFF);
        unsigned a = R.chance(60) ? 0 : R.u16();
        if (fc < 15) return rq_read(SA.id, fc, a, q);
        std::vector<uint16_t> v(128); for (auto &x : v) x = R.u16();
        Bytes bits(2100); for (auto &x : bits) x = R.chance(50);
        unsigned bc = R.chance(40) ? std::min(fc == 15 ? (q + 7) / 8 : 2 * q, 246u) : R.chance(30) ? 0 : R.chance(50) ? (uint8_t)(fc == 15 ? (q + 7) / 8 : 2 * q) : R.range(0, 246);
        if (bc > 246) bc = 246;
        Bytes b = rq_read(SA.id, fc, a, q); b.resize(6); b.push_back(bc); for (unsigned i = 0; i < bc; i++) b.push_back(R.byte());
        put_crc(b); return b;
    }
    case 2: case 3: { // address range crosses the end of the table
        unsigned q = pick_qty(max);
        unsigned a;
        int k = R.below(5);
        if (k == 0) a = size >= q ? size - q + 1 : 0;
        else if (k == 1) a = size;
        else if (k == 2) a = 0xFFFF - R.below(q < 4 ? 4 : q);
        else if (k == 3) a = 0x10000 - q; // wraps to exactly 0
        else a = R.range(size >= q ? size - q + 1 : 0, 0xFFFF);
        a &= 0xFFFF;
        if (a + q <= size) a = size;
        if (a > 0xFFFF) a = 0xFFFF;
        return gen_valid_at(fc, a, q);
    }
    default: { // byte count contradicts the quantity, frame length fits the byte count
        fc = R.chance(50) ? 15 : 16;
        size = tab_size(fc_tab(fc)); max = std::min(fc_max(fc), size);
        unsigned q = pick_qty(max), right = fc == 15 ? (q + 7) / 8 : 2 * q, bc;
        switch (R.below(5)) { case 0: bc = right + 1; break; case 1: bc = right - 1; break; case 2: bc = 0; break; case 3: bc = fc == 15 ? q : q * 2 + 2; break; default: bc = R.below(247); }
        if (bc > 246) bc = 246;
        if (bc == right) bc = right ? right - 1 : 1;
        Bytes b = rq_read(SA.id, fc, R.chance(85) ? pick_adr(size, q) : R.u16(), q); b.resize(6); b.push_back(bc); for (unsigned i = 0; i < bc; i++) b.push_back(R.byte());
        put_crc(b); return b;
    }
    }
}
Bytes gen_badlen() {
    int fc = FCS[R.below(8)];
    for (int tries = 0; tries < 50; tries++) {
        Bytes b = gen_valid(fc);
        b.resize(b.size() - 2);
        unsigned len = b.size(), nl;
        switch (R.below(5)) {
        case 0: nl = len - 1; break;
        case 1: nl = len + 1; break;
        case 2: nl = R.range(2, len); break;
        case 3: nl = R.range(2, 253); break;
        default: nl = R.range(2, 8); break;
        }
        if (nl > 253) nl = 253;
        while (b.size() > nl) b.pop_back();
        while (b.size() < nl) b.push_back(R.byte());
        if ((fc == 15 || fc == 16) && nl >= 7 && R.chance(40)) b[6] = R.chance(50) ? (uint8_t)(b[6] + (R.chance(50) ? 1 : -1)) : R.byte();
        put_crc(b);
        unsigned n = b.size();
        unsigned need = fc <= 6 ? 8 : n >= 9 ? 9u + b[6] : ~0u;
        if (n != need) return b;
    }
    Bytes b = {SA.id, (uint8_t)fc}; put_crc(b); return b;
}
Bytes gen_foreign() {
    uint8_t other; do other = R.chance(30) ? (R.chance(50) ? 0 : SA.id ^ (1 << R.below(8))) : R.byte(); while (other == SA.id);
    Bytes b;
    if (R.chance(50)) { b = gen_valid(); }
    else { // response of another slave
        unsigned n = R.range(1, 250); b = {other, (uint8_t)(R.chance(80) ? R.range(1, 6) : R.byte()), (uint8_t)n};
        for (unsigned i = 0; i < n && b.size() < 253; i++) b.push_back(R.chance(10) ? SA.id : R.byte());
        b.push_back(0); b.push_back(0);
    }
    b[0] = other; b.resize(b.size() - 2);
    if (R.chance(85)) put_crc(b); else { b.push_back(R.byte()); b.push_back(R.byte()); }
    return b;
}
Bytes gen_damaged() {
    for (;;) {
        Bytes b = R.chance(75) ? gen_valid() : R.chance(50) ? gen_invalid() : gen_foreign();
        switch (R.below(8)) {
        case 0: b[R.below(b.size())] ^= 1 << R.below(8); break;
        case 1: b.resize(R.range(1, b.size() - 1)); break;           // truncated
        case 2: b.erase(b.begin() + R.below(b.size())); break;       // lost byte
        case 3: if (b.size() < 255) b.insert(b.begin() + R.below(b.size() + 1), R.byte()); break;
        case 4: std::swap(b[b.size() - 1], b[b.size() - 2]); break;  // CRC bytes swapped
        case 5: { int n = R.range(1, 4); while (n--) b[R.below(b.size())] = R.byte(); break; }
        case 6: { unsigned n = R.range(1, 3); b.resize(n); b[0] = SA.id; if (R.chance(50)) { b.resize(1); put_crc(b); } break; } // half: nothing but an address with its CRC
        default: { unsigned n = R.range(1, 255); b.resize(n); for (auto &x : b) x = R.byte(); b[0] = SA.id; break; }
        }
        if (b.empty()) continue;
        if (b.size() >= 4 && b[0] == SA.id && crc_ok(b.data(), b.size())) continue; // not damaged after all
        return b;
    }
}

// ---- exchange ----
static uint64_t sends_total; static Bytes got; static bool quiet_at_send, quiet_viol;
static void on_slave_send(const uint8_t *m, unsigned n) {
    sends_total++; got.assign(m, m + n);
    if (!DS.quiet) quiet_viol = true;
    quiet_at_send = DS.quiet;
}
static void apolls(unsigned max) { unsigned n = R.below(max + 1); while (n--) poll_slave(); }
void slave_xfer(const Bytes &f) { XferOpt o; o.late = R.chance(15); o.noise_during_tx = R.chance(10); slave_xfer(f, o); }
static void dwell(const XferOpt &o, int at) {
    if (o.dwell_at != at) return;
    VLOG("%u polls", o.dwell); COUNT("polls while dwelling in one state", o.dwell);
    bool lp = log_polls; log_polls = false;
    for (unsigned i = o.dwell; i; i--) poll_slave();
    log_polls = lp;
}
// the application changes variables (or, if wanted, registrations) at or near the addresses of the frame, while it is received or answered
bool slave_meddle_reg;
static void meddle(const Bytes &f, bool regs_too) {
    unsigned n = R.range(1, 4);
    int fc = f.size() > 1 ? f[1] : 3; unsigned adr = f.size() > 3 ? be(&f[2]) : 0, q = f.size() > 5 ? be(&f[4]) : 1;
    if (fc == 5 || fc == 6 || q == 0 || q > 2000) q = 1;
    while (n--) {
        int t = R.chance(85) ? fc_tab(fc & 0x7F) : (int)R.below(4);
        unsigned a = R.chance(90) ? adr + R.below(q) : R.below(tab_size(t));
        if (a >= tab_size(t)) a = R.below(tab_size(t));
        if (regs_too && R.chance(60)) {
            int v = R.chance(30) ? -1 : (int)R.below(t < 2 ? SA.bits.size() : SA.regs.size());
            VLOG("meanwhile table %d address %u gets variable %d", t, a, v); SA.reg(t, a, v); COUNT("registrations during an exchange", 1);
        } else {
            int v = SA.map[t][a]; if (v < 0) continue;
            if (t < 2) { SA.bits[v] = SA.xbits[v] = !SA.xbits[v]; VLOG("meanwhile bit variable %d becomes %d", v, SA.xbits[v]); } else { SA.regs[v] = SA.xregs[v] = R.u16(); VLOG("meanwhile register variable %d becomes %04x", v, SA.xregs[v]); }
            COUNT("changes by the application during an exchange", 1);
        }
    }
}
void slave_xfer(const Bytes &f, const XferOpt &o) {
    if (C.failed) return;
    const unsigned med = R.below(100) < 8 ? 1 + R.below(7) : 0; // bits: during reception, between the silences, during transmission
    sends_total = 0; quiet_viol = false; got.clear();
    VLOG("frame to slave %u%s%s%s: %s", SA.id, o.fe ? " +FE" : "", o.fe_between ? " +late byte" : "", o.gap_inside ? " +gap" : "", hex(f.data(), f.size()).c_str());
    bool fe = o.fe || o.fe_between || o.gap_inside;
    bool polls_in = !o.late && R.chance(30);
    unsigned fepos = o.fe_pos >= 0 ? o.fe_pos : R.below(f.size()), gappos = f.size() > 1 ? R.range(1, f.size() - 1) : 0;
    mix(fe | (uint64_t)o.late << 1 | (uint64_t)polls_in << 2);
    bool pending_fe = false;
    for (unsigned i = 0; i < f.size(); i++) {
        if (o.gap_inside && i == gappos && i) {
            DS.t15(); if (!o.late) apolls(2);
            pending_fe = true;
        }
        bool fe_here = (o.fe && i == fepos) || pending_fe;
        pending_fe = false;
        bool before = R.chance(50);
        if (fe_here && before) DS.fe();
        DS.byte(f[i]);
        if (fe_here && !before) DS.fe();
        if (fe_here) for (unsigned k = o.repfe; k; k--) DS.fe();
        if (i == f.size() / 2) { dwell(o, 0); if (med & 1) meddle(f, slave_meddle_reg); }
        if (polls_in && R.chance(20)) apolls(2);
    }
    Expect e = slave_expect(f.data(), f.size(), fe);
    if (!o.late) apolls(1);
    DS.t15();
    if (R.chance(5)) DS.t15();
    for (unsigned k = o.rep15; k; k--) { if (R.chance(20)) poll_slave(); DS.t15(); }
    if (o.fe_between) {
        if (!o.late) apolls(2);
        DS.fe(); DS.byte(R.byte());
        if (R.chance(50)) DS.byte(R.byte());
        DS.t15();
    }
    if (!o.late) apolls(3);
    dwell(o, 1);
    if (med & 2) { meddle(f, slave_meddle_reg); if (!o.late) apolls(2); }
    if (med & 3) e = slave_expect(f.data(), f.size(), fe);
    auto key = [&](const char *k) { return std::string(k) + e.cls; };
    if (sends_total) { fail("early-response", "slave sent %s before the line was silent for 3.5 characters", hex(got.data(), got.size()).c_str()); return; }
    SA.check_memory("before the end of the frame", e.cls);
    DS.t35();
    if (med >= 6) { meddle(f, slave_meddle_reg); e = slave_expect(f.data(), f.size(), fe); }
    unsigned i;
    for (i = 0; i < 16 && !sends_total && !C.failed; i++) poll_slave();
    if (C.failed) return;
    slave_resp_seen = sends_total; slave_last_resp = got;
    COUNT("frames to slave", 1);
    mixb(f.data(), std::min<size_t>(f.size(), 24));
    if (quiet_viol) { fail("early-response", "slave started to send before the line was silent"); return; }
    if (sends_total > 1) { fail("several-responses", "slave sent %llu frames for one request (%s)", (unsigned long long)sends_total, e.what); return; }
    bool success = false, bad = false;
    if (sends_total == 0) {
        if (!e.silent_ok) { bad = fail(key("no-response").c_str(), "no response to %s request %s, expected %s", e.what, hex(f.data(), f.size()).c_str(), hex(e.alts[0].data(), e.alts[0].size()).c_str()); }
        else COUNT("frames ignored", 1);
    } else {
        bool ok = false;
        for (auto &a : e.alts) if (a == got) ok = true;
        if (!ok) {
            const char *x = got.size() > 1 && got[1] & 0x80 ? "-exc" : "";
            bad = fail(((e.alts.empty() ? "response-to-bad-frame" : "wrong-response") + std::string(e.cls) + x).c_str(), "%s frame %s answered %s, expected %s", e.what, hex(f.data(), f.size()).c_str(), hex(got.data(), got.size()).c_str(),
                 e.alts.empty() ? "no response" : hex(e.alts[0].data(), e.alts[0].size()).c_str());
        }
        success = !(got[1] & 0x80);
        if (success) COUNT("successful responses", 1); else COUNT("exception responses", 1);
    }
    if (bad && !C.excluded) return;
    if (bad) { success = false; if (got.empty() || !(got[1] & 0x80)) e.partial = true; } // only the data are judged
    if (e.wtab >= 0 && e.wval.size()) {
        auto &vec = SA.map[e.wtab];
        if (success) {
            for (unsigned k = 0; k < e.wval.size(); k++) { int v = vec[e.wadr + k]; if (e.wtab < 2) SA.xbits[v] = e.wval[k]; else SA.xregs[v] = e.wval[k]; }
            COUNT("items written", e.wval.size());
        }
        if (success || e.partial) { // (a variable registered twice in the range may end with either value) partial: every item of the range: old or one of the values written to it
            for (unsigned k = 0; k < e.wval.size(); k++) {
                int v = vec[e.wadr + k]; if (v < 0) continue;
                if (e.wtab < 2) { if (SA.bits[v] == e.wval[k]) SA.xbits[v] = e.wval[k]; }
                else { if (SA.regs[v] == e.wval[k]) SA.xregs[v] = e.wval[k]; }
            }
        }
    }
    SA.check_memory("after a frame", e.cls);
    if (C.failed) return;
    // the transmission goes on for a while
    if (DS.busy) {
        unsigned d = o.txdone_delay >= 0 ? (unsigned)o.txdone_delay : R.chance(30) ? 0 : R.below(6);
        uint64_t s0 = sends_total;
        if (o.noise_during_tx) { // echo of the own response or other bytes during the transmission
            unsigned n = R.chance(40) ? got.size() : R.range(1, 40);
            bool echo = R.chance(50);
            bool err = false;
            for (unsigned k = 0; k < n; k++) { if (err || R.chance(2)) { DS.fe(); err = true; } DS.byte(echo && k < got.size() ? got[k] : R.byte()); if (R.chance(5)) poll_slave(); if (R.chance(4)) { DS.t15(); err = true; } else err = false; }
            DS.t15(); apolls(2); DS.t35(); apolls(2);
            COUNT("noise during transmission", 1);
        }
        while (d--) poll_slave();
        dwell(o, 2);
        if (med & 4) { meddle(f, slave_meddle_reg); apolls(2); }
        DS.txdone();
        if (sends_total != s0) { fail("several-responses", "a further transmission followed the response"); return; }
    }
    unsigned n = R.range(4, 7);
    uint64_t s1 = sends_total;
    while (n--) poll_slave();
    dwell(o, 3);
    if (sends_total != s1) { fail("several-responses", "a transmission without a request"); return; }
    if (R.chance(3)) { DS.t35(); poll_slave(); } // drivers may report a continuing silence again
    SA.check_memory("after the exchange", e.cls);
    C.nontrivial = true;
}
