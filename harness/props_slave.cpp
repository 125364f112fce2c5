#include "slave_eng.hpp"

static bool big() { return LC.coils + LC.dins + LC.iregs + LC.hregs > 9000; }
// starts a session; tables are laid out anew in most cases (rarely with huge tables, where it is slow)
static void begin(int lay = -1, int id = -1) {
    static int have = -1;
    slave_meddle_reg = false;
    bool relay = have < 0 || !big() || R.chance(4) || (lay >= 0 && lay != have);
    if (lay < 0) lay = R.below(10) < 6 ? DENSE : R.below(3) == 0 ? SPARSE : R.chance(50) ? HOLES : ALIASED;
    if (relay) { slave_layout(lay); have = lay; SA.randomize_values(); }
    else if (!big()) SA.randomize_values();
    else SA.app_writes(50);
    slave_start(id >= 0 ? id : R.chance(30) ? (R.chance(50) ? 1 : 247) : R.range(1, 247));
}
static Bytes gen_any() {
    unsigned k = R.below(100);
    return k < 50 ? gen_valid() : k < 65 ? gen_invalid() : k < 75 ? gen_damaged() : k < 85 ? gen_foreign() : gen_badlen();
}
static XferOpt rnd_opt(int fe_pct) {
    XferOpt o; o.late = R.chance(15); o.noise_during_tx = R.chance(8);
    if (R.chance(fe_pct)) { int k = R.below(3); o.fe = k == 0; o.fe_between = k == 1; o.gap_inside = k == 2; }
    return o;
}
static void xf(const Bytes &f, int fe_pct) {
    XferOpt o = rnd_opt(fe_pct);
    if (f.size() < 2) o.gap_inside = false;
    slave_xfer(f, o);
}
// a frame containing a frame-error must not be a prefix problem for gap_inside: any frame works

// ---- streaks: the same thing many times in a row, then judged requests ----
enum { SS_DAMAGED = 1, SS_FE = 2, SS_FOREIGN = 4, SS_INVALID = 8, SS_BADLEN = 16, SS_SAME = 32, SS_EVENTS = 64, SS_BREAK = 128, SS_DWELL = 256, SS_NOISE = 512, SS_INIT = 1024, SS_REG = 2048, SS_WRITES = 4096, SS_ALL = 8191 };
static unsigned streak_len() {
    unsigned k = R.below(100);
    return k < 50 ? R.range(6, 40) : k < 70 ? R.range(60, 70) : k < 85 ? R.range(120, 135) : k < 97 ? R.range(250, 300) : R.range(300, 1100);
}
static Bytes shortened(Bytes f) { if (f.size() > 40 && R.chance(80)) { f.resize(30); if (f[0] == SA.id && crc_ok(f.data(), f.size())) f[5] ^= 1; } return f; }
static void s_streak(unsigned mask) {
    unsigned k; do k = 1u << R.below(13); while (!(mask & k));
    unsigned n = streak_len();
    VLOG("streak of %u, kind %x", n, k); mix(k * 1000 + n);
    COUNT("streaks", 1); COUNT("events of streaks", n);
    switch (k) {
    case SS_DAMAGED: { Bytes f = gen_damaged(); bool same = R.chance(30); for (unsigned i = 0; i < n && !C.failed; i++) slave_xfer(same ? f : shortened(gen_damaged())); break; }
    case SS_FE: {
        bool same = R.chance(30), valid = R.chance(60); Bytes f = gen_valid(5 + R.below(2)); int how = R.below(4);
        for (unsigned i = 0; i < n && !C.failed; i++) {
            XferOpt o; int h = how == 3 ? (int)R.below(3) : how; o.late = R.chance(20);
            Bytes g = same ? f : valid ? gen_valid(R.range(1, 6)) : shortened(gen_any());
            o.fe = h == 0 || g.size() < 2; o.fe_between = h == 1 && !o.fe; o.gap_inside = h == 2 && !o.fe;
            slave_xfer(g, o);
        }
        break;
    }
    case SS_FOREIGN: { bool v = R.chance(50); for (unsigned i = 0; i < n && !C.failed; i++) { Bytes f = gen_foreign(); if (v && f.size() > 12) { f.resize(8); put_crc(f); } slave_xfer(f); } break; }
    case SS_INVALID: { Bytes f = gen_invalid(); bool same = R.chance(40); for (unsigned i = 0; i < n && !C.failed; i++) slave_xfer(same ? f : gen_invalid()); break; }
    case SS_BADLEN: { Bytes f = gen_badlen(); bool same = R.chance(30); for (unsigned i = 0; i < n && !C.failed; i++) slave_xfer(same ? f : gen_badlen()); break; }
    case SS_SAME: { Bytes f = R.chance(50) ? gen_valid() : gen_valid(R.range(1, 6)); bool w = R.chance(50); for (unsigned i = 0; i < n && !C.failed; i++) { if (w) SA.app_writes(3); slave_xfer(f); } break; }
    case SS_WRITES: { // writes to the same items with changing values, the application changing them as well
        int fc = R.chance(50) ? 6 : 16; unsigned q = fc == 6 ? 1 : std::min(R.range(1, 6), LC.hregs), a = pick_adr(LC.hregs, q);
        for (unsigned i = 0; i < n && !C.failed; i++) { slave_xfer(gen_valid_at(fc, a, q)); if (R.chance(20) && !C.failed) slave_xfer(rq_read(SA.id, 3, a, q)); if (R.chance(20)) SA.app_writes(5); }
        break;
    }
    case SS_EVENTS: {
        XferOpt o; int w = R.below(4);
        if (w == 0) o.rep15 = n;
        else if (w == 1) { o.fe = true; o.repfe = n; }
        else if (w == 2) { for (unsigned i = 0; i < n; i++) { DS.t35(); if (R.chance(40)) poll_slave(); } break; }
        else { for (unsigned i = 0; i < n; i++) { DS.evtx(); if (R.chance(40)) poll_slave(); } for (int i = 0; i < 4; i++) poll_slave(); break; } // ends of transmission although nothing is being sent
        Bytes f = gen_valid(); slave_xfer(f, o);
        break;
    }
    case SS_BREAK: // broken characters that are not stored: an error, then silence
        for (unsigned i = 0; i < n && !C.failed; i++) {
            DS.fe(); if (R.chance(20)) poll_slave();
            DS.inframe = true; DS.quiet = false; DS.t15(); if (R.chance(50)) poll_slave(); DS.t35(); for (int p = R.range(4, 5); p; p--) poll_slave();
            if (DS.busy) { fail("response-to-bad-frame:bad", "a broken character was answered"); return; }
        }
        break;
    case SS_DWELL: {
        XferOpt o; unsigned x = R.below(100); o.dwell = x < 60 ? R.range(30, 400) : x < 90 ? R.range(400, 3000) : x < 98 ? R.range(3000, 12000) : R.range(65400, 70000);
        o.dwell_at = R.below(4); o.txdone_delay = 0;
        bool sd = DS.sync_done; if (o.dwell_at == 2) DS.sync_done = false;
        slave_xfer(gen_valid(), o); DS.sync_done = sd;
        break;
    }
    case SS_NOISE: { if (n > 300) n = 300; bool sd = DS.sync_done; DS.sync_done = false; for (unsigned i = 0; i < n && !C.failed; i++) { XferOpt o; o.noise_during_tx = true; slave_xfer(gen_valid(R.range(5, 6)), o); } DS.sync_done = sd; break; }
    case SS_INIT: { uint8_t id = SA.id; for (unsigned i = 0; i < n && i < 300 && !C.failed; i++) { if (R.chance(40)) { Bytes f = gen_valid(5 + R.below(2)); size_t m = R.chance(50) ? f.size() : R.below(f.size()); for (size_t j = 0; j < m; j++) DS.byte(f[j]); if (R.chance(50)) { DS.t15(); if (R.chance(50)) poll_slave(); } } slave_start(R.chance(50) ? id : R.range(1, 247)); } SA.xbits = SA.bits; SA.xregs = SA.regs; break; }
    case SS_REG: { // one address registered again and again
        int t = R.below(4); unsigned a = R.below(tab_size(t)); int fc = t == COILS ? (R.chance(50) ? 1 : 5) : t == DINS ? 2 : t == IREGS ? 4 : R.chance(50) ? 3 : 6;
        for (unsigned i = 0; i < n && !C.failed; i++) {
            SA.reg(t, a, R.chance(10) ? -1 : (int)R.below(t < 2 ? SA.bits.size() : SA.regs.size()));
            if (R.chance(20)) slave_xfer(gen_valid_at(fc, a, 1));
        }
        if (!C.failed) slave_xfer(gen_valid_at(fc, a, 1));
        break;
    }
    }
}
template <unsigned MASK> static void s_streaks() {
    begin(R.chance(80) ? DENSE : -1);
    DS.sync_done = R.chance(10);
    unsigned n = R.range(1, 2);
    while (n-- && !C.failed) { s_streak(MASK); if (!C.failed) slave_xfer(gen_valid()); if (!C.failed && R.chance(30)) slave_xfer(gen_invalid()); }
    if (!C.failed) slave_xfer(gen_valid());
}

// ---- S01 ----
static uint64_t pairs(unsigned n, unsigned max) { uint64_t t = 0; for (unsigned q = 1; q <= std::min(n, max); q++) t += n - q + 1; return t; }
static void s01_enum() { // every address/quantity pair of the tables (all of them for small tables, a stride through them for large)
    static const uint8_t F[8] = {1, 2, 3, 4, 5, 6, 15, 16};
    static const unsigned MX[8] = {2000, 2000, 125, 125, 1, 1, 1968, 123};
    static const int T[8] = {COILS, DINS, HREGS, IREGS, COILS, HREGS, COILS, HREGS};
    static uint64_t cum[9], total = 0;
    if (!total) { for (int i = 0; i < 8; i++) cum[i + 1] = cum[i] + pairs(tab_size(T[i]), MX[i]); total = cum[8]; }
    begin(DENSE);
    for (int rep = 0; rep < 4 && !C.failed; rep++) {
        uint64_t k = C.index * 4 + rep;
        if (total > 200000) k = k * 2654435761ull + C.seed * 977;
        k %= total;
        int i = 0; while (k >= cum[i + 1]) i++;
        k -= cum[i];
        unsigned n = tab_size(T[i]), q = 1;
        while (k >= n - q + 1) { k -= n - q + 1; q++; }
        slave_xfer(gen_valid_at(F[i], (uint16_t)k, q));
        COUNT("address/quantity pairs", 1);
        if (R.chance(20)) SA.app_writes(8);
    }
}
static void s01_session() {
    begin(R.chance(70) ? DENSE : R.chance(50) ? ALIASED : HOLES);
    unsigned n = sess(4, 12);
    while (n-- && !C.failed) {
        if (R.chance(30)) SA.app_writes(R.range(1, 30));
        slave_xfer(R.chance(85) ? gen_valid() : gen_any());
    }
}
static const unsigned MARATHON = 66000; // more than a 16 bit counter
static void s01_marathon() {
    begin(DENSE);
    static const int T[8] = {COILS, DINS, HREGS, IREGS, COILS, HREGS, COILS, HREGS}; static const uint8_t F[8] = {1, 2, 3, 4, 5, 6, 15, 16};
    for (unsigned k = 0; k < MARATHON && !C.failed; k++) {
        unsigned i = R.below(8), q = (i == 4 || i == 5) ? 1 : std::min(R.range(1, 3), tab_size(T[i]));
        slave_xfer(R.below(1000) ? gen_valid_at(F[i], pick_adr(tab_size(T[i]), q), q) : gen_any());
        if (!R.below(64)) SA.app_writes(2);
    }
    COUNT("requests of uninterrupted histories", MARATHON);
}
static RegProp P01("S01", "A case is a session of requests to a freshly initialised slave (mode enum walks through address/quantity pairs of the tables, mode session draws them boundary-heavy with other traffic between, mode marathon: 66000 requests without initialisation); nontrivial: at least one exchange was judged against the reference slave; distinct by hash of frames and event options.",
    {{"enum", s01_enum, 20000, 400000, 400}, {"session", s01_session, 60000, 3000000, 1000}, {"marathon", s01_marathon, 8, 64, 1}, {"streaks", s_streaks<SS_ALL & ~SS_INIT>, 3000, 150000, 100}});

// ---- S02 ----
static void s02_session() {
    begin();
    unsigned n = sess(4, 12);
    static const int W[4] = {5, 6, 15, 16};
    while (n-- && !C.failed) {
        if (R.chance(10)) SA.app_writes(R.range(1, 10));
        unsigned k = R.below(100);
        if (k < 60) {
            Bytes f = gen_valid(W[R.below(4)]);
            slave_xfer(f);
            if (R.chance(50) && !C.failed) { // read back over the line
                unsigned a = f[2] << 8 | f[3], q = f[1] <= 6 ? 1 : f[4] << 8 | f[5];
                int fc = (f[1] == 5 || f[1] == 15) ? 1 : 3;
                slave_xfer(rq_read(SA.id, fc, a, q));
                COUNT("read back", 1);
            }
        } else if (k < 75) slave_xfer(gen_valid(R.range(1, 4)));
        else xf(gen_any(), 20);
    }
}
static void s02_marathon() {
    begin(DENSE);
    static const int W[4] = {5, 6, 15, 16};
    for (unsigned k = 0; k < MARATHON && !C.failed; k++) {
        int i = R.below(4), fc = W[i]; unsigned sz = fc == 5 || fc == 15 ? LC.coils : LC.hregs, q = i < 2 ? 1 : std::min(R.range(1, 3), sz);
        slave_xfer(R.below(1000) ? gen_valid_at(fc, pick_adr(sz, q), q) : gen_any());
        if (!R.below(64)) SA.app_writes(2);
    }
    COUNT("writes of uninterrupted histories", MARATHON);
}
static RegProp P02("S02", "A case is a session with mostly write requests, read back over the line, mixed with reads and rejected frames (mode marathon: 66000 writes without initialisation); after every event all registered variables and their unregistered neighbours are compared with the model; nontrivial: at least one exchange was judged; distinct by hash of frames and options.",
    {{"session", s02_session, 80000, 4000000, 1000}, {"marathon", s02_marathon, 2, 40, 1}, {"streaks", s_streaks<SS_WRITES | SS_SAME | SS_NOISE | SS_INVALID>, 3000, 150000, 100}});

// ---- S03 ----
static void s03_session() {
    begin();
    unsigned n = sess(4, 12);
    while (n-- && !C.failed) slave_xfer(R.chance(80) ? gen_invalid() : gen_any());
}
static void s03_enum() { // around the end of the table: all (address, quantity) near the limits; all functions; all coil values
    begin(DENSE, 1 + C.index % 247);
    static const uint8_t F[6] = {1, 2, 3, 4, 15, 16};
    uint64_t i = C.index;
    if (i < 256) { // all function codes
        Bytes b = {SA.id, (uint8_t)i}; unsigned n = R.below(2) ? 4 : R.below(40); while (n--) b.push_back(R.byte()); put_crc(b); slave_xfer(b); return;
    }
    i -= 256;
    if (i < 65536 / 16) { // all coil values, 16 per case
        for (unsigned k = 0; k < 16 && !C.failed; k++) slave_xfer(rq_write1(SA.id, 5, pick_adr(LC.coils, 1), i * 16 + k));
        COUNT("coil values", 16); return;
    }
    i -= 4096;
    if (i < 6 * 4096) { // all quantities, 16 per case
        int fc = F[i / 4096]; i %= 4096;
        for (unsigned k = 0; k < 16 && !C.failed; k++) {
            unsigned q = i * 16 + k, a = R.chance(60) ? 0 : R.chance(50) ? R.u16() : (uint16_t)(0x10000 - q);
            if (fc < 15) slave_xfer(rq_read(SA.id, fc, a, q));
            else { Bytes b = rq_read(SA.id, fc, a, q); b.resize(6); unsigned bc = std::min(fc == 15 ? (q + 7) / 8 : 2 * q, 246u); if (R.chance(20)) bc = (uint8_t)(fc == 15 ? (q + 7) / 8 : 2 * q); if (bc > 246) bc = 246; b.push_back(bc); while (bc--) b.push_back(R.byte()); put_crc(b); slave_xfer(b); }
        }
        COUNT("quantities", 16); return;
    }
    i -= 6 * 4096;
    // table end: quantity q, address so that the last item is at size-2..size+2
    static const uint8_t F8[8] = {1, 2, 3, 4, 5, 6, 15, 16};
    int fc = F8[i % 8]; i /= 8;
    static const unsigned MX[8] = {2000, 2000, 125, 125, 1, 1, 1968, 123};
    int t = (fc == 1 || fc == 5 || fc == 15) ? COILS : fc == 2 ? DINS : fc == 4 ? IREGS : HREGS;
    unsigned max = MX[(C.index - 256 - 4096 - 6 * 4096) % 8], q = 1 + i % max;
    for (int d = -2; d <= 2 && !C.failed; d++) {
        int a = (int)tab_size(t) + d - (int)q;
        if (a < 0 || a > 0xFFFF) continue;
        slave_xfer(gen_valid_at(fc, a, q));
        COUNT("table end probes", 1);
    }
}
static void s03_marathon() {
    begin(DENSE);
    for (unsigned k = 0; k < MARATHON && !C.failed; k++) { Bytes f = gen_invalid(); if (f.size() > 24 && R.chance(90)) f = rq_write1(SA.id, 5, pick_adr(LC.coils, 1), 1 + R.below(0xFEFF)); slave_xfer(f); }
    COUNT("requests of uninterrupted histories", MARATHON);
}
static RegProp P03("S03", "Mode enum: every function code, every coil value, every quantity of every function and every quantity around the end of every table; mode marathon: 66000 rejected requests without initialisation; mode session: random invalid requests (boundary-heavy) in sessions with other traffic; nontrivial: at least one exchange was judged; distinct by hash of frames and options.",
    {{"enum", s03_enum, 256 + 4096 + 6 * 4096 + 8000, 256 + 4096 + 6 * 4096 + 16000, 400}, {"session", s03_session, 40000, 3000000, 1000}, {"marathon", s03_marathon, 2, 40, 1}, {"streaks", s_streaks<SS_INVALID | SS_FE | SS_DAMAGED>, 3000, 150000, 100}});

// ---- S04 ----
static void s04_session() {
    begin();
    unsigned n = sess(4, 14);
    while (n-- && !C.failed) {
        unsigned k = R.below(100);
        if (k < 35) slave_xfer(gen_damaged());
        else if (k < 55) slave_xfer(gen_foreign());
        else if (k < 70) { XferOpt o; int w = R.below(3); o.fe = w == 0; o.fe_between = w == 1; o.gap_inside = w == 2; o.late = R.chance(25); Bytes f = R.chance(80) ? gen_valid() : gen_any(); if (f.size() < 2) { o.gap_inside = false; o.fe = true; } slave_xfer(f, o); COUNT("frame errors reported", 1); }
        else slave_xfer(gen_valid());
    }
    if (!C.failed) slave_xfer(gen_valid());
}
static void s04_feenum() { // a character error reported at every byte of every kind of request; truncation to every length
    begin(DENSE);
    for (int rep = 0; rep < 3 && !C.failed; rep++) {
        Bytes f = gen_valid();
        XferOpt o; o.fe = true; o.fe_pos = C.index % f.size(); o.late = C.index & 1;
        if (rep == 0) slave_xfer(f, o);
        else { Bytes t = f; t.resize(1 + (C.index + rep) % (f.size() - 1)); if (!(t.size() >= 4 && crc_ok(t.data(), t.size()))) slave_xfer(t); }
        if (!C.failed) slave_xfer(gen_valid());
    }
}
static void s04_ids() { // requests to every other slave, for every address of the slave
    begin(DENSE, 1 + C.index % 247);
    unsigned other = R.byte();
    for (unsigned k = 0; k < 256 && !C.failed; k++, other = (other + 1) & 255) {
        if (other == SA.id) continue;
        Bytes f = gen_valid(R.chance(50) ? R.range(5, 6) : 0); f.resize(f.size() - 2); f[0] = other; put_crc(f);
        slave_xfer(f);
    }
    COUNT("pairs of own and other address", 255);
    if (!C.failed) slave_xfer(gen_valid());
}
static void s04_marathon() {
    begin(DENSE);
    for (unsigned k = 0; k < MARATHON && !C.failed; k++) {
        Bytes f = R.chance(60) ? gen_damaged() : R.chance(60) ? gen_foreign() : gen_valid(5 + R.below(2));
        if (f.size() > 24 && R.chance(90)) { f.resize(24); if (f[0] == SA.id && crc_ok(f.data(), 24)) continue; }
        XferOpt o; o.late = R.chance(20); o.fe = R.chance(30); if (!o.fe && k % 2 == 0) o.fe_between = true;
        if (k % 500 < 3) { o.fe = o.fe_between = false; }
        slave_xfer(f, o);
    }
    COUNT("frames of uninterrupted histories", MARATHON);
    if (!C.failed) slave_xfer(gen_valid());
}
static RegProp P04("S04", "A case is a session of damaged, foreign, truncated frames and frames with driver-reported errors between valid requests; mode feenum walks error position and truncation length, mode ids all pairs of own and other address, mode marathon 66000 mostly bad frames without initialisation; nontrivial: at least one exchange was judged; distinct by hash of frames and options.",
    {{"session", s04_session, 70000, 4000000, 1000}, {"feenum", s04_feenum, 10000, 300000, 500}, {"ids", s04_ids, 494, 24700, 20}, {"marathon", s04_marathon, 6, 60, 1}, {"streaks", s_streaks<SS_DAMAGED | SS_FE | SS_FOREIGN | SS_BREAK>, 3000, 150000, 100}});

// ---- S05 ----
static void s05_session() {
    begin(R.chance(80) ? DENSE : -1);
    unsigned n = sess(3, 10);
    while (n-- && !C.failed) {
        unsigned k = R.below(100);
        if (k < 45) { // leave a long message in the buffer, then a shortened request whose missing part it would supply
            Bytes full = gen_valid(R.chance(50) ? 16 : 15);
            slave_xfer(full);
            if (C.failed) return;
            Bytes cut = full;
            cut.resize(R.range(2, full.size() - 3));
            if (R.chance(60) && cut.size() > 4) { unsigned size = tab_size(full[1] == 15 ? COILS : HREGS), q = full[4] << 8 | full[5]; unsigned a = pick_adr(size, q); cut[2] = a >> 8; cut[3] = a; }
            put_crc(cut);
            if (R.chance(50)) { for (unsigned i = 0; i < 6; i++) SA.app_writes(1); }
            slave_xfer(cut);
            COUNT("shortened after a complete message", 1);
        } else if (k < 85) slave_xfer(gen_badlen());
        else slave_xfer(gen_any());
    }
    if (!C.failed) slave_xfer(gen_valid());
}
static void s05_enum() { // every function, every total length
    begin(DENSE);
    static const uint8_t F[8] = {1, 2, 3, 4, 5, 6, 15, 16};
    int fc = F[C.index % 8]; unsigned len = 4 + (C.index / 8) % 252;
    slave_xfer(gen_valid(R.chance(50) ? 16 : 15));
    if (C.failed) return;
    Bytes b = gen_valid(fc); b.resize(b.size() - 2);
    while (b.size() > len - 2) b.pop_back();
    while (b.size() < len - 2) b.push_back(R.byte());
    if (R.chance(30) && b.size() >= 7 && fc >= 15) b[6] = R.byte();
    put_crc(b);
    slave_xfer(b);
    COUNT("function/length pairs", 1);
    if (!C.failed) slave_xfer(gen_valid());
}
static RegProp P05("S05", "Mode enum: every function with every total length 4-255 and a correct CRC after a complete long message; mode session: messages shortened, lengthened and with contradicting byte counts, the missing bytes being present in the buffer from an earlier message; nontrivial: at least one exchange was judged; distinct by hash of frames and options.",
    {{"enum", s05_enum, 16128, 200000, 500}, {"session", s05_session, 50000, 3000000, 1000}, {"streaks", s_streaks<SS_BADLEN>, 3000, 150000, 100}});

// ---- line garbage shared by S06, S07, S09, S10 ----
// Bytes, breaks, silences and errors in any order a driver can report them. strict: never a complete valid frame for the slave.
static bool buffer_is_request() {
    return DS.rx && DS.rx->data && DS.rx->len >= 4 && DS.rx->data[0] == SA.id && crc_ok(DS.rx->data, DS.rx->len);
}
static uint64_t soup_sends; static bool soup_quiet_viol;
static void soup_on_send(const uint8_t *, unsigned) { soup_sends++; if (!DS.quiet) soup_quiet_viol = true; }
void s_soup(unsigned events, unsigned pollpct, bool close) {
    Bytes cur; unsigned pos = 0; int style = R.below(4);
    for (unsigned i = 0; i < events; i++) {
        unsigned k = R.below(100);
        if (k < 75) {
            if (pos >= cur.size()) { cur = style == 0 ? gen_damaged() : style == 1 ? gen_any() : gen_foreign(); pos = 0; if (style == 3) { cur.resize(R.range(1, 40)); for (auto &b : cur) b = R.chance(20) ? SA.id : R.byte(); } }
            bool err = DS.after15 || R.chance(3), first = R.chance(50);
            if (err && first) DS.fe();
            DS.byte(cur[pos++]);
            if (err && !first) DS.fe();
        } else if (k < 85) { if (DS.inframe || DS.after15) { if (buffer_is_request()) DS.byte(R.byte() | 1); if (buffer_is_request()) DS.byte(0x55); DS.t15(); } }
        else if (k < 93) { if (DS.after15 || (DS.quiet && R.chance(5))) DS.t35(); }
        else if (k < 95) DS.txdone();
        else if (k < 96) { DS.fe(); DS.inframe = true; DS.quiet = DS.after15 = false; } // a broken character that is not stored: the silence after it is reported all the same
        if (R.chance(pollpct)) poll_slave();
    }
    if (close) {
        if (DS.inframe) { if (buffer_is_request()) DS.byte(R.byte() | 1); if (buffer_is_request()) DS.byte(0x55); DS.t15(); if (R.chance(50)) poll_slave(); }
        if (!DS.quiet) DS.t35();
        if (DS.busy) { if (R.chance(50)) poll_slave(); DS.txdone(); }
        for (int i = 0; i < 4; i++) poll_slave();
        if (DS.busy) { DS.txdone(); for (int i = 0; i < 4; i++) poll_slave(); }
    }
}
static void attach_soup(void (*f)(const uint8_t *, unsigned), void (**save)(const uint8_t *, unsigned)) { *save = DS.on_send; DS.on_send = f; soup_sends = 0; soup_quiet_viol = false; }
static void s06_session() {
    begin(R.chance(70) ? DENSE : -1);
    unsigned n = sess(2, 6);
    while (n-- && !C.failed) {
        void (*save)(const uint8_t *, unsigned); attach_soup(soup_on_send, &save);
        bool sd = DS.sync_done; DS.sync_done = R.chance(30);
        unsigned ev = R.chance(10) ? R.range(200, 700) : R.range(1, 60);
        VLOG("disturbance of %u events", ev);
        unsigned pp = R.below(4) * 12;
        mix(ev * 4 + pp);
        if (R.chance(30)) { // begin it while a response is being sent
            DS.sync_done = false; XferOpt o; Bytes f = gen_valid();
            for (uint8_t b : f) DS.byte(b);
            DS.t15(); poll_slave(); DS.t35(); poll_slave(); if (R.chance(50)) poll_slave();
            COUNT("disturbances during a response", 1);
        }
        s_soup(ev, pp, true);
        // data may have been changed by requests hidden in the disturbance: take them as they are
        SA.xbits = SA.bits; SA.xregs = SA.regs;
        DS.on_send = save; DS.sync_done = sd;
        COUNT("disturbances", 1); COUNT("disturbance events", ev);
        if (C.failed) return;
        slave_xfer(R.chance(85) ? gen_valid() : gen_invalid());
    }
}
static RegProp P06("S06", "A case is a sequence of random disturbances (bytes, frames, breaks, character errors, silences, transmissions ending, at any state), each followed by silence with four polls and one intact request that must be answered correctly; nontrivial: at least one such request was judged; distinct by hash.",
    {{"session", s06_session, 60000, 4000000, 1000}, {"streaks", s_streaks<SS_ALL & ~SS_INIT & ~SS_REG>, 5000, 150000, 100}});

// ---- S07 (sanitizer build) ----
static void s07_hostile() {
    // registration anywhere, also outside the tables
    begin(R.chance(40) ? DENSE : R.chance(50) ? SPARSE : -1);
    slave_meddle_reg = R.chance(60);
    unsigned n = R.range(2, 8);
    while (n-- && !C.failed) {
        switch (R.below(8)) {
        case 0: for (int k = 0; k < 6; k++) { int t = R.below(4); unsigned a = R.chance(50) ? tab_size(t) + R.below(3) : R.chance(50) ? 0xFFFF - R.below(3) : R.u16(); if (a > 0xFFFF) a = 0xFFFF; SA.reg(t, a, R.chance(20) ? -1 : (int)R.below(t < 2 ? SA.bits.size() : SA.regs.size())); COUNT("registrations", 1); } break;
        case 1: case 2: { void (*save)(const uint8_t *, unsigned); attach_soup(soup_on_send, &save); s_soup(R.chance(20) ? R.range(250, 700) : R.range(1, 100), R.below(50), R.chance(80)); DS.on_send = save; SA.xbits = SA.bits; SA.xregs = SA.regs; COUNT("disturbances", 1); break; }
        case 3: slave_start(R.byte()); if (SA.id == 0) SA.id = 0; break;
        case 4: { // intact frames of arbitrary content and length
            Bytes b = {SA.id, (uint8_t)(R.chance(80) ? (R.chance(50) ? R.range(1, 6) : R.range(15, 16)) : R.byte())};
            unsigned len = R.chance(50) ? R.range(0, 10) : R.range(0, 251);
            while (len--) b.push_back(R.chance(30) ? (R.chance(50) ? 0xFF : 0) : R.byte());
            put_crc(b);
            void (*save)(const uint8_t *, unsigned); attach_soup(soup_on_send, &save);
            for (uint8_t x : b) DS.byte(x);
            DS.t15(); poll_slave(); DS.t35(); for (int i = 0; i < 3; i++) poll_slave(); DS.txdone(); for (int i = 0; i < 4; i++) poll_slave();
            DS.on_send = save; SA.xbits = SA.bits; SA.xregs = SA.regs; COUNT("arbitrary intact frames", 1); mixb(b.data(), std::min<size_t>(b.size(), 16)); C.nontrivial = true;
            break; }
        default: { { void (*save)(const uint8_t *, unsigned); attach_soup(soup_on_send, &save); s_soup(0, 0, true); DS.on_send = save; SA.xbits = SA.bits; SA.xregs = SA.regs; } xf(gen_any(), 10); break; }
        }
        if (DS.busy) { DS.txdone(); for (int i = 0; i < 4; i++) poll_slave(); }
    }
}
static RegProp P07("S07", "A case is a hostile session (arbitrary intact and broken frames of 0-700 bytes, extreme quantities, registrations at any address, re-initialisation) on the ASan+UBSan build; nontrivial: at least one frame was processed; distinct by hash.",
    {{"hostile", s07_hostile, 24000, 1500000, 400}, {"valid", s01_session, 8000, 300000, 400}, {"invalid", s03_session, 8000, 300000, 400}, {"badlen", s05_session, 8000, 300000, 400}, {"streaks", s_streaks<SS_ALL>, 1000, 50000, 50}});

// ---- S08 ----
static void s08_session() {
    begin(R.chance(40) ? EMPTY : R.chance(50) ? SPARSE : HOLES);
    slave_meddle_reg = R.chance(60);
    unsigned n = sess(4, 12);
    while (n-- && !C.failed) {
        unsigned m = R.chance(60) ? R.range(1, 6) : R.chance(70) ? 0 : R.range(20, 60);
        static unsigned focus[4];
        if (R.chance(40)) for (int t = 0; t < 4; t++) focus[t] = R.below(tab_size(t));
        while (m--) {
            int t = R.below(4); unsigned a;
            switch (R.below(6)) { case 0: a = R.below(tab_size(t)); break; case 1: a = tab_size(t) - 1; break; case 2: a = R.chance(50) ? tab_size(t) : tab_size(t) + R.below(300); break; case 3: a = R.chance(50) ? 0 : R.u16(); break; default: a = focus[t] + R.below(10); }
            if (a > 0xFFFF) a = 0xFFFF;
            int var = R.chance(20) ? -1 : (int)R.below(t < 2 ? SA.bits.size() : SA.regs.size());
            SA.reg(t, a, var);
            VLOG("register table %d address %u variable %d", t, a, var);
            mix(t << 20 ^ a ^ (uint64_t)var << 32);
            COUNT("registrations", 1); if (a >= tab_size(t)) COUNT("registrations outside the tables", 1);
            // fill a run so that requests over several items can succeed
            if (R.chance(30)) { unsigned len = R.range(1, 30); for (unsigned k = 1; k < len && a + k < tab_size(t); k++) SA.reg(t, a + k, R.chance(5) ? -1 : (int)R.below(t < 2 ? SA.bits.size() : SA.regs.size())); }
        }
        SA.check_memory("after registration");
        static const uint8_t F[8] = {1, 2, 3, 4, 5, 6, 15, 16};
        int fc = F[R.below(8)], t = (fc == 1 || fc == 5 || fc == 15) ? COILS : fc == 2 ? DINS : fc == 4 ? IREGS : HREGS;
        if (R.chance(60)) { // around the focus
            unsigned sz = tab_size(t), q = (fc == 5 || fc == 6) ? 1 : R.range(1, std::min(sz, 14u)); unsigned a = focus[t] > sz - 1 ? 0 : focus[t]; a = a >= 2 ? a - R.below(3) : a; if (a + q > sz) a = sz - q;
            slave_xfer(gen_valid_at(fc, a, q));
        } else if (R.chance(80)) slave_xfer(gen_valid(fc)); else slave_xfer(gen_any());
    }
}
static RegProp P08("S08", "A case is a history of registrations, replacements and removals in all tables (also outside them) mixed with requests around them; nontrivial: at least one exchange was judged; distinct by hash of registrations and frames.",
    {{"session", s08_session, 60000, 3000000, 1000}, {"streaks", s_streaks<SS_REG>, 2000, 150000, 100}});

// ---- S09 ----
static void s09_session() {
    begin(R.chance(70) ? DENSE : -1);
    DS.sync_done = R.chance(20);
    unsigned n = sess(3, 10);
    while (n-- && !C.failed) {
        XferOpt o; o.late = R.chance(40); o.noise_during_tx = R.chance(60); o.txdone_delay = R.chance(50) ? (int)R.range(5, 60) : 0;
        Bytes f = R.chance(75) ? gen_valid() : gen_any();
        if (R.chance(8)) { o.fe_between = R.chance(50); o.gap_inside = !o.fe_between && f.size() > 1; }
        slave_xfer(f, o);
        COUNT("transmissions watched", slave_resp_seen);
    }
}
static void s09_overlap() { // a second complete request arrives while the first is being answered: no second send before tx done
    begin(DENSE);
    DS.sync_done = false;
    unsigned n = R.range(2, 6);
    while (n-- && !C.failed) {
        void (*save)(const uint8_t *, unsigned); attach_soup(soup_on_send, &save);
        Bytes f = gen_valid();
        VLOG("request %s", hex(f.data(), f.size()).c_str()); mixb(f.data(), std::min<size_t>(8, f.size()));
        for (uint8_t b : f) DS.byte(b);
        DS.t15(); if (R.chance(50)) poll_slave(); DS.t35(); for (int i = 0; i < 5; i++) poll_slave();
        if (soup_sends != 1 || !DS.busy) { fail("no-response", "request not answered (%llu transmissions)", (unsigned long long)soup_sends); return; }
        if (R.chance(4)) { unsigned d = R.chance(75) ? R.range(100, 4000) : R.chance(50) ? R.range(4000, 35000) : R.range(65400, 70000); VLOG("%u polls", d); COUNT("polls while dwelling in one state", d); bool lp = log_polls; log_polls = false; while (d--) poll_slave(); log_polls = lp; }
        unsigned m = R.range(1, 3);
        while (m--) {
            Bytes g = R.chance(70) ? gen_valid() : gen_any();
            VLOG("second request %s during the response", hex(g.data(), g.size()).c_str());
            for (uint8_t b : g) { DS.byte(b); if (R.chance(10)) poll_slave(); }
            DS.t15(); if (R.chance(70)) poll_slave(); DS.t35(); for (unsigned i = R.below(6); i; i--) poll_slave();
            COUNT("requests during a response", 1);
        }
        if (soup_sends != 1) { fail("send-during-transmission", "%llu transmissions started for one request", (unsigned long long)soup_sends); return; }
        DS.txdone();
        // the requests received during the response may be dropped or answered, one at a time
        for (int k = 0; k < 4; k++) { for (int i = 0; i < 5; i++) poll_slave(); DS.txdone(); }
        if (soup_sends > 4) { fail("several-responses", "%llu responses to at most four requests", (unsigned long long)soup_sends); return; }
        if (soup_quiet_viol) { fail("early-response", "transmission started while the line was not silent"); return; }
        SA.xbits = SA.bits; SA.xregs = SA.regs;
        DS.on_send = save;
        if (!C.failed) slave_xfer(gen_valid());
    }
}
static RegProp P09("S09", "A case is a session with slow or immediate transmissions, noise, echoes and complete further requests during them, and late polls; monitors compare the transmit buffer after every event, forbid overlapping transmissions and transmissions before the 3.5 character silence; nontrivial: at least one exchange was judged; distinct by hash.",
    {{"session", s09_session, 40000, 2500000, 1000}, {"overlap", s09_overlap, 20000, 1000000, 1000}, {"streaks", s_streaks<SS_EVENTS | SS_DWELL | SS_NOISE | SS_SAME>, 3000, 150000, 100}});

// ---- S10 ----
static void s10_session() {
    begin(R.chance(80) ? DENSE : -1);
    unsigned n = R.range(2, 6);
    while (n-- && !C.failed) {
        // bring the slave into any state
        void (*save)(const uint8_t *, unsigned); attach_soup(soup_on_send, &save);
        uint8_t oldid = SA.id; Bytes old = gen_valid();
        switch (R.below(6)) {
        case 0: s_soup(R.range(1, 60), R.below(40), false); break;
        case 1: for (uint8_t b : old) DS.byte(b); break;                                                  // whole frame, no silence yet
        case 2: for (uint8_t b : old) DS.byte(b); DS.t15(); if (R.chance(60)) poll_slave(); break;
        case 3: for (uint8_t b : old) DS.byte(b); DS.t15(); if (R.chance(50)) poll_slave(); DS.t35(); break;
        case 4: { unsigned k = R.below(old.size()); for (unsigned i = 0; i < k; i++) DS.byte(old[i]); if (R.chance(40)) DS.fe(); break; }
        default: DS.sync_done = false; for (uint8_t b : old) DS.byte(b); DS.t15(); poll_slave(); DS.t35(); for (int i = 0; i < 3; i++) poll_slave(); break; // transmitting
        }
        DS.on_send = save;
        SA.xbits = SA.bits; SA.xregs = SA.regs;
        bool wasbusy = DS.busy; (void)wasbusy;
        driver_subscr_cb_t otx = DS.ctx;
        slave_start(R.chance(25) ? oldid : R.range(1, 247));
        COUNT("re-initialisations", 1); if (wasbusy) COUNT("re-initialisations during a response", 1);
        if (C.failed) return;
        // nothing of the old frame may be answered
        soup_sends = 0; DS.on_send = soup_on_send;
        if (R.chance(30) && otx) otx();        // late end-of-transmission event of the old response
        for (unsigned i = R.below(5); i; i--) poll_slave();
        if (R.chance(30)) { // the line falls silent after the old frame: events without bytes
            DS.t15(); for (unsigned i = R.below(3); i; i--) poll_slave(); DS.t35(); for (int i = 0; i < 5; i++) poll_slave();
        }
        if (soup_sends) { fail("answer-after-init", "slave answered something received before its initialisation"); return; }
        SA.check_memory("after initialisation");
        DS.on_send = save;
        if (C.failed) return;
        mix(oldid * 256 + SA.id);
        slave_xfer(R.chance(80) ? gen_valid() : gen_invalid());
        if (!C.failed && oldid != SA.id && R.chance(50)) { Bytes f = gen_valid(); f.resize(f.size() - 2); f[0] = oldid; put_crc(f); slave_xfer(f); } // old address no longer effective
        if (!C.failed && R.chance(50)) slave_xfer(gen_valid());
    }
}
static RegProp P10("S10", "A case is a sequence of re-initialisations with random speed, parity and address in random states (in a frame, between the silences, while transmitting, in a disturbance), each followed by stale events and judged requests to the new and the old address; nontrivial: at least one exchange was judged; distinct by hash.",
    {{"session", s10_session, 50000, 2500000, 1000}, {"streaks", s_streaks<SS_INIT>, 2000, 150000, 100}});
