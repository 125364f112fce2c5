#include "master_eng.hpp"

static void hook_calls() { // the application issues requests from its callbacks
    if (R.chance(15)) { COUNT("requests from callbacks", 1); m_api(R.chance(85) ? gen_req() : gen_refused()); }
}
static void begin(unsigned hookpct = 0) {
    m_begin();
    DM.sync_done = R.chance(12);
    if (R.chance(hookpct)) MC.cb_hook = hook_calls;
}
static void add(unsigned n) { while (n-- && !C.failed) m_api(gen_req()); }
static unsigned some(unsigned n) { return R.chance(20) ? n : R.range(1, n); } // 1..n, often n
static const uint8_t FCS[8] = {1, 2, 3, 4, 5, 6, 15, 16};

static bool fill_and_check() { // exactly the whole queue is available
    unsigned used = MC.q.size();
    for (unsigned i = used; i < LC.queue && !C.failed; i++) m_api(gen_req(0, 0));
    if (!C.failed) m_api(gen_req()); // one too many
    return !C.failed;
}

// ---- streaks: the same thing many times in a row, and very many polls or ticks in one state, then judged requests ----
enum { SK_FOREIGN = 1, SK_CRC = 2, SK_FE = 4, SK_MIS = 8, SK_SILENT = 16, SK_GOOD = 32, SK_EXC = 64, SK_REFUSED = 128, SK_NOISE = 256, SK_EVENTS = 512, SK_BUSY = 1024, SK_DWELL = 2048, SK_INIT = 4096, SK_ALL = 4095 };
static const Mix M0 = {0, 0, 0, 0, 0, 0, 0, 0, 0};
static unsigned streak_len() {
    unsigned k = R.below(100);
    return k < 50 ? R.range(6, 40) : k < 70 ? R.range(60, 70) : k < 85 ? R.range(120, 135) : k < 97 ? R.range(250, 300) : R.range(300, 1100);
}
static unsigned dwell_len() { unsigned k = R.below(100); return k < 60 ? R.range(30, 400) : k < 90 ? R.range(400, 3000) : k < 98 ? R.range(3000, 12000) : R.range(65400, 70000); }
static Req small_req(int fc = 0) {
    Req r = gen_req(fc);
    if (r.qty > 4 && r.fc != 5 && r.fc != 6) { r.qty = 1 + r.qty % 4; if (r.fc >= 15) r.vals.resize(r.qty); finish_req(r); }
    return r;
}
static bool to_wait() { // the next request is transmitted and its response is awaited
    if (MC.q.empty()) m_api(small_req());
    return m_pump_sent() && m_tx(false, false) && MC.st == MasterCheck::WAIT && !C.failed;
}
static void streak_probe() { // judged requests: full retries, full timeout, any response
    if (C.failed) return;
    switch (R.below(5)) {
    case 0: if (R.chance(40)) { fill_and_check(); break; } // fallthrough
    case 1: if (MC.q.empty()) m_api(gen_req()); for (unsigned a = 0; a <= LC.retries && a < 20 && !C.failed; a++) m_attempt(R.chance(50) ? P_CRC : R.chance(50) ? P_FE : P_MISMATCH, {0, 0, 0, 0, 0, 0, 5, 5, 0}); break;
    case 2: if (MC.q.empty()) m_api(gen_req()); m_attempt(P_SILENCE, {0, 0, 0, 0, 0, 0, 10, 10, 0}); break;
    default: break;
    }
    if (!C.failed && MC.q.empty()) m_api(gen_req());
    m_run({70, 20, 2, 2, 2, 0, 10, 5, 5}, 2);
    if (!C.failed && R.chance(50)) m_run({80, 20, 0, 0, 0, 0, 0, 0, 0}, LC.queue + 2);
}
static void dwell(int state) { // very many polls (and ticks where they have no consequence) in one state
    unsigned p = dwell_len(), t = R.chance(50) ? dwell_len() : 0;
    VLOG("dwelling in state %d: %u polls, %u ticks", state, p, t);
    COUNT("polls while dwelling in one state", p);
    bool lp = log_polls; log_polls = false;
    bool ticks = MC.st == MasterCheck::IDLE || MC.st == MasterCheck::TX;
    while ((p || t) && !C.failed) {
        if (p) { p--; m_poll(); }
        if (t) { t--; if (ticks) m_tick(); }
    }
    log_polls = lp;
}
static void m_streak(unsigned mask) {
    unsigned k; do k = 1u << R.below(13); while (!(mask & k));
    unsigned n = streak_len();
    VLOG("streak of %u, kind %x", n, k); mix(k * 1000 + n);
    COUNT("streaks", 1); COUNT("events of streaks", n);
    switch (k) {
    case SK_FOREIGN: {
        if (!to_wait()) return;
        bool sm = R.chance(60);
        for (unsigned i = 0; i < n && !C.failed; i++) {
            if (sm && R.chance(80)) { // short foreign frames, damaged or not
                Req o = small_req(); do o.id = R.byte(); while (o.id == cur().id); finish_req(o);
                Bytes f = R.chance(70) ? gen_good(o) : gen_exc(o); if (R.chance(20)) f.back() ^= 1;
                for (uint8_t b : f) DM.byte(b);
                if (R.chance(10)) DM.fe();
                DM.t15(); m_quiet_polls(R.below(2)); DM.t35(); m_quiet_polls(4);
                if (!C.failed && MC.st != MasterCheck::WAIT) { fail("disturbed-by-foreign", "frame %u of another slave in one wait changed the state of the request", i + 1); return; }
            } else m_foreign(1);
            if (R.chance(30) && MC.ticks_tx + 4 < LC.timeout) m_tick();
        }
        if (C.failed) return;
        DM.inframe = DM.after15 = false; DM.quiet = true;
        COUNT("foreign frames in one wait", n);
        if (R.chance(30)) { m_silence(); break; }
        DeliverOpt o; Bytes f = R.chance(60) ? gen_good(cur()) : gen_crcbad(cur()); bool ok = acceptable(cur(), f.data(), f.size()) && crc_ok(f.data(), f.size());
        m_deliver(f, o, ok ? -1 : EK_CRC);
        break;
    }
    case SK_CRC: case SK_FE: case SK_MIS: case SK_SILENT: case SK_EXC: {
        int plan = k == SK_CRC ? P_CRC : k == SK_FE ? P_FE : k == SK_MIS ? P_MISMATCH : k == SK_EXC ? P_EXC : P_SILENCE;
        if (plan == P_SILENCE) n = std::min(n, 200000 / LC.timeout + 2);
        if (plan != P_SILENCE && n > 300) n = 300;
        bool same = R.chance(30); Req r = small_req();
        for (unsigned i = 0; i < n && !C.failed; i++) {
            if (MC.q.empty()) m_api(same ? r : small_req());
            if (MC.q.size() < 2 && MC.q.size() < LC.queue && R.chance(30)) m_api(same ? r : small_req());
            m_attempt(plan, M0);
        }
        break;
    }
    case SK_GOOD: {
        Req r = small_req(); Bytes f = gen_good(r); bool samef = R.chance(50);
        while (!MC.q.empty() && !C.failed) if (!m_attempt(P_GOOD, M0)) return;
        for (unsigned i = 0; i < n && !C.failed; i++) {
            m_api(r);
            if (!samef) m_attempt(P_GOOD, M0);
            else { if (!to_wait()) return; DeliverOpt o; m_deliver(f, o, -1); C.nontrivial = true; }
        }
        break;
    }
    case SK_REFUSED: {
        int st = R.below(3);
        if (st == 1) { if (MC.q.empty()) m_api(small_req()); m_pump_sent(); }
        if (st == 2) if (!to_wait()) return;
        Req r = gen_refused(); bool same = R.chance(40);
        for (unsigned i = 0; i < n && !C.failed; i++) { m_api(same ? r : gen_refused()); if (R.chance(10)) m_poll(); }
        if (R.chance(40) && !C.failed) { // far too many for the queue
            for (unsigned i = MC.q.size(); i < LC.queue && !C.failed; i++) m_api(small_req());
            for (unsigned i = 0; i < n && !C.failed; i++) m_api(small_req());
            COUNT("requests offered to a full queue in a row", n);
        }
        if (C.failed) return;
        if (MC.st == MasterCheck::TX && !m_tx(false, false)) return;
        if (MC.st == MasterCheck::WAIT) { DeliverOpt o; m_deliver(gen_good(cur()), o, -1); }
        break;
    }
    case SK_NOISE: {
        if (MC.q.empty()) m_api(gen_req());
        m_pump_sent();
        if (MC.st != MasterCheck::TX || C.failed) { if (!C.failed && MC.st == MasterCheck::WAIT) { DeliverOpt o; m_deliver(gen_good(cur()), o, -1); } return; }
        for (unsigned i = 0; i < n && !C.failed; i++) {
            Bytes g = gen_good(cur()); unsigned len = R.chance(50) ? g.size() : R.range(1, 6); if (R.chance(30)) g = cur().adu;
            for (unsigned j = 0; j < len && j < 12; j++) DM.byte(j < g.size() ? g[j] : R.byte());
            if (R.chance(20)) DM.fe();
            if (R.chance(80)) { DM.t15(); if (R.chance(30)) m_poll(); DM.t35(); if (R.chance(50)) m_quiet_polls(R.below(5)); }
            if (!C.failed && MC.st != MasterCheck::TX) { fail("left-transmission", "state changed before the end of the transmission"); return; }
        }
        if (!C.failed && m_tx(false, false) && MC.st == MasterCheck::WAIT) { C.nontrivial = true; DeliverOpt o; m_deliver(gen_good(cur()), o, -1); }
        break;
    }
    case SK_EVENTS: {
        int w = R.below(6);
        if (w == 0) { // the silence is reported again and again while nothing is running or a response is awaited
            if (R.chance(50)) { if (!to_wait()) return; }
            for (unsigned i = 0; i < n && !C.failed; i++) { DM.t35(); if (R.chance(40)) m_poll(); }
            break;
        }
        if (w == 1) { // end of transmission reported although nothing is being transmitted
            if (R.chance(50)) { if (!to_wait()) return; } else while (!MC.q.empty() && !C.failed) if (!m_attempt(P_GOOD, M0)) return;
            for (unsigned i = 0; i < n && !C.failed; i++) { DM.evtx(); if (R.chance(40)) m_poll(); }
            break;
        }
        if (!to_wait()) return;
        C.nontrivial = true;
        if (w == 2) { // 1.5 character events without a character
            for (unsigned i = 0; i < n && !C.failed; i++) { DM.ev15(); m_quiet_polls(3); }
            DeliverOpt o; m_deliver(gen_good(cur()), o, -1);
        } else if (w == 3) { // many errors in one frame
            Bytes f = gen_good(cur());
            for (size_t j = 0; j < f.size(); j++) { DM.byte(f[j]); if (j == f.size() / 2) for (unsigned i = 0; i < n; i++) DM.fe(); }
            DM.t15(); m_quiet_polls(R.below(3));
            if (C.failed) return;
            MC.bad(EK_FRAME); DM.t35(); DM.inframe = DM.after15 = false; DM.quiet = true; m_settle();
        } else if (w == 4) { // repeated 1.5 character events before the 3.5 character event
            Bytes f = gen_good(cur());
            for (uint8_t b : f) DM.byte(b);
            for (unsigned i = 0; i < n && !C.failed; i++) { DM.t15(); if (R.chance(30)) m_poll(); }
            if (C.failed) return;
            if (MC.st != MasterCheck::WAIT) { fail("early-outcome", "the outcome came before the line was silent for 3.5 characters"); return; }
            MC.good(f.data(), f.size()); DM.t35(); DM.inframe = DM.after15 = false; DM.quiet = true; m_settle();
        } else { // many late characters, each with its error, between the silences
            Bytes f = gen_good(cur());
            for (uint8_t b : f) DM.byte(b);
            DM.t15();
            unsigned late = 0;
            for (unsigned i = 0; i < n && i + f.size() < 250 && !C.failed; i++) { late++; if (R.chance(30)) m_poll(); DM.fe(); DM.byte(R.byte()); DM.t15(); }
            m_quiet_polls(R.below(3));
            if (C.failed) return;
            if (late) MC.bad(EK_FRAME); else MC.good(f.data(), f.size()); DM.t35(); DM.inframe = DM.after15 = false; DM.quiet = true; m_settle();
        }
        break;
    }
    case SK_BUSY: { // the queue never becomes empty
        if (n > 300) n = 300;
        for (unsigned i = 0; i < n && !C.failed; i++) {
            while (MC.q.size() < 2 && MC.q.size() < LC.queue && !C.failed) m_api(small_req());
            if (R.chance(30) && MC.q.size() < LC.queue) m_api(small_req());
            m_attempt(P_GOOD, {0, 0, 0, 0, 0, 0, 0, 0, LC.queue < 3 ? 50u : 0u});
        }
        break;
    }
    case SK_DWELL: {
        int st = R.below(6);
        if (st == 0) { while (!MC.q.empty() && !C.failed) if (!m_attempt(P_GOOD, M0)) return; dwell(0); break; }
        if (MC.q.empty()) m_api(gen_req());
        m_pump_sent();
        if (C.failed) return;
        if (st == 1) dwell(1);
        if (!m_tx(R.chance(20), false) || MC.st != MasterCheck::WAIT) return;
        C.nontrivial = true;
        if (st == 2) { dwell(2); if (!C.failed && R.chance(50)) { m_silence(); break; } }
        if (C.failed) return;
        Bytes f = R.chance(70) ? gen_good(cur()) : gen_crcbad(cur()); bool ok = crc_ok(f.data(), f.size());
        unsigned at = R.below(f.size());
        for (size_t j = 0; j < f.size() && !C.failed; j++) { DM.byte(f[j]); if (st == 3 && j == at) dwell(3); }
        DM.t15();
        if (st == 4) dwell(4);
        if (C.failed) return;
        if (MC.st != MasterCheck::WAIT) { fail("early-outcome", "the outcome came before the line was silent for 3.5 characters"); return; }
        if (ok) MC.good(f.data(), f.size()); else MC.bad(EK_CRC);
        DM.t35(); DM.inframe = DM.after15 = false; DM.quiet = true;
        m_settle();
        break;
    }
    case SK_INIT: {
        if (n > 300) n = 300;
        for (unsigned i = 0; i < n && !C.failed; i++) {
            if (R.chance(50)) { m_api(small_req()); if (R.chance(70)) m_pump_sent(); if (R.chance(50)) { DM.txdone(); m_quiet_polls(R.below(2)); } }
            m_begin();
        }
        COUNT("re-initialisations in a row", n);
        break;
    }
    }
}
template <unsigned MASK> static void m_streaks() {
    begin();
    if (R.chance(70)) DM.sync_done = false;
    unsigned n = R.range(1, 2);
    while (n-- && !C.failed) { m_streak(MASK); streak_probe(); }
    if (!C.failed) m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, LC.queue + 2);
}

// ---- marathons: more requests, attempts or events than a 16 bit counter holds, without initialisation ----
static const unsigned MARATHON = 66000;
template <int GOOD, int EXC, int CRC, int FE, int MIS, int FC> static void m_marathon() { // FC: 0 any, 1 reads, 2 writes
    begin();
    unsigned att = 0;
    while (att < MARATHON && !C.failed) {
        while (MC.q.size() < 2 && MC.q.size() < LC.queue && !C.failed) {
            static const uint8_t RD[4] = {1, 2, 3, 4}, WR[4] = {5, 6, 15, 16};
            m_api(small_req(FC == 1 ? RD[R.below(4)] : FC == 2 ? WR[R.below(4)] : FCS[R.below(8)]));
        }
        unsigned k = R.below(GOOD + EXC + CRC + FE + MIS);
        m_attempt(k < GOOD ? P_GOOD : k < GOOD + EXC ? P_EXC : k < GOOD + EXC + CRC ? P_CRC : k < GOOD + EXC + CRC + FE ? P_FE : P_MISMATCH, M0);
        att++;
    }
    COUNT("attempts of uninterrupted histories", att);
    m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, LC.queue + 1);
}
static void m10_marathon() { // foreign frames, all in one wait
    begin();
    if (!to_wait()) return;
    for (unsigned i = 0; i < MARATHON && !C.failed; i++) {
        static const uint8_t one[2] = {1, 3};
        uint8_t f[8] = {(uint8_t)(cur().id ^ R.range(1, 255)), one[R.below(2)], 2, R.byte(), R.byte(), R.byte(), R.byte(), R.byte()}; unsigned n = R.range(2, 8);
        for (unsigned j = 0; j < n; j++) DM.byte(f[j]);
        if (R.chance(5)) DM.fe();
        DM.t15(); m_quiet_polls(R.below(2)); DM.t35(); m_quiet_polls(4);
        if (!C.failed && MC.st != MasterCheck::WAIT) { fail("disturbed-by-foreign", "frame %u of another slave in one wait changed the state of the request", i + 1); return; }
    }
    if (C.failed) return;
    DM.inframe = DM.after15 = false; DM.quiet = true; C.nontrivial = true;
    COUNT("foreign frames in one wait", MARATHON);
    if (R.chance(50)) { m_silence(); return; }
    DeliverOpt o; m_deliver(gen_good(cur()), o, -1);
}

// ---- M01 ----
static const Mix MX_MOSTLY_GOOD = {80, 5, 4, 3, 3, 0, 5, 10, 15};
static void m01_enum() { // every function with every valid quantity
    static const unsigned TOT = 2000 + 2000 + 125 + 125 + 1 + 1 + 1968 + 123;
    begin();
    for (int rep = 0; rep < 2 && !C.failed; rep++) {
        unsigned k = (C.index * 2 + rep) % TOT; int i = 0;
        while (k >= max_qty(FCS[i])) { k -= max_qty(FCS[i]); i++; }
        Req r = gen_req(FCS[i]);
        if (FCS[i] != 5 && FCS[i] != 6) { r.qty = k + 1; if (r.fc >= 15) { r.vals.resize(r.qty); for (auto &v : r.vals) v = r.fc == 15 ? R.below(2) : R.u16(); } finish_req(r); }
        m_api(r);
        COUNT("function/quantity pairs", 1);
    }
    m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, 4);
}
static void m01_session() {
    begin(30);
    unsigned n = sess(2, 6);
    while (n-- && !C.failed) { add(some(LC.queue < 12 ? LC.queue : 12)); m_run(MX_MOSTLY_GOOD, R.range(1, 8)); }
    m_run({90, 5, 3, 0, 2, 0, 0, 0, 0}, 40);
}
static void m01_values() { // every address (and with functions 5 and 6 every value) of every function
    begin();
    int fc = FCS[C.index % 8];
    for (unsigned k = 0; k < 16 && !C.failed; k++) {
        unsigned a = (C.index / 8 % 4096) * 16 + k;
        Req r = gen_req(fc);
        r.adr = a;
        if (r.qty > 3) { r.qty = 1 + r.qty % 3; if (fc >= 15) r.vals.resize(r.qty); }
        if (fc == 6) r.vals[0] = (uint16_t)(a * 40503u + 77u);
        finish_req(r);
        m_api(r);
        if (MC.q.size() == LC.queue || k == 15) m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, LC.queue);
    }
    COUNT("function/address pairs", 16);
}
static RegProp P01("M01", "A case is a session in which every transmitted frame is compared with a reference encoder (mode enum walks through all functions and valid quantities, mode session mixes fill levels, outcomes, retries and calls at any time, mode values walks through all addresses of all functions; argument arrays are overwritten and freed right after each call); mode marathon: 66000 attempts without initialisation; nontrivial: at least one request was transmitted and answered; distinct by hash of requests, plans and responses.",
    {{"enum", m01_enum, 12800, 400000, 400}, {"session", m01_session, 25000, 1200000, 500}, {"values", m01_values, 32768, 262144, 1000}, {"streaks", m_streaks<SK_ALL & ~SK_SILENT>, 1500, 150000, 100}, {"marathon", m_marathon<90, 2, 4, 2, 2, 0>, 1, 40, 1}});

// ---- M02 ----
static void m02_enum() { // all quantities 0-65535 of the six functions with a quantity
    static const uint8_t F[6] = {1, 2, 3, 4, 15, 16};
    begin();
    int fc = F[C.index / 4096 % 6];
    for (unsigned k = 0; k < 16 && !C.failed; k++) {
        Req r; r.fc = fc; r.qty = (C.index % 4096) * 16 + k; r.id = R.range(1, 247); r.adr = R.u16();
        if (valid_qty(r)) { if (fc >= 15) { r.vals.resize(r.qty); for (auto &v : r.vals) v = R.below(2); } finish_req(r); }
        m_api(r);
        if (valid_qty(r) && MC.q.size() == LC.queue) if (!m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, LC.queue)) return;
    }
    COUNT("quantities", 16);
    fill_and_check();
    m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, 2);
    if (!C.failed && MC.q.empty()) m_quiet_polls(6);
    mix(C.index); C.nontrivial = true;
}
static void m02_session() {
    begin(40);
    unsigned n = sess(2, 6);
    while (n-- && !C.failed) {
        unsigned m = R.range(1, 40);
        while (m-- && !C.failed) m_api(R.chance(85) ? gen_refused() : gen_req());
        Mix mx = {70, 8, 5, 3, 5, R.chance(20) ? 3u : 0u, 0, 5, 60};
        m_run(mx, R.range(0, 6));
        if (R.chance(30)) fill_and_check();
    }
    if (!C.failed) fill_and_check();
    m_run({90, 5, 3, 0, 2, 0, 0, 0, 0}, 30);
    if (!C.failed && MC.q.empty()) m_quiet_polls(8);
}
static RegProp P02("M02", "Mode enum: every quantity 0-65535 of the six functions that take one, followed by filling the queue to its exact size; mode session: many refused requests in any state between valid ones, callbacks included; nontrivial: at least one request was transmitted; distinct by hash.",
    {{"enum", m02_enum, 24576, 24576 * 4, 500}, {"session", m02_session, 15000, 800000, 500}, {"streaks", m_streaks<SK_REFUSED | SK_CRC | SK_EXC | SK_BUSY | SK_GOOD | SK_DWELL | SK_SILENT>, 3000, 150000, 100}});

// ---- M03 ----
static void m03_session() {
    begin(60);
    unsigned n = R.range(5, 25);
    while (n-- && !C.failed) {
        unsigned m = R.chance(30) ? LC.queue + R.range(1, 2) : R.below(LC.queue + 1);
        if (LC.queue > 20 && R.chance(80)) m = R.below(12);
        while (m-- && !C.failed) m_api(R.chance(97) ? gen_req() : gen_refused());
        Mix mx = {70, 8, 6, 4, 4, R.chance(15) ? 4u : 0u, 3, 3, 40};
        m_run(mx, R.range(1, 2 * LC.queue < 12 ? 2 * LC.queue : 12));
        if (R.chance(10)) m_quiet_polls(R.range(1, 6));
    }
    m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, 2 * LC.queue + 2);
    if (!C.failed && R.chance(50)) { fill_and_check(); m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, LC.queue + 1); }
    if (!C.failed && MC.q.empty()) m_quiet_polls(6);
}
static void m03_long() { // histories much longer than the queue, small requests
    begin(50);
    unsigned n = R.range(100, 600);
    while (n-- && !C.failed) {
        if (R.chance(60)) for (unsigned m = R.below(LC.queue + 2 > 8 ? 8 : LC.queue + 2); m && !C.failed; m--) { Req r = gen_req(R.chance(50) ? 6 : 5); m_api(r); }
        if (!MC.q.empty()) m_attempt(R.chance(90) ? P_GOOD : R.chance(50) ? P_CRC : P_EXC, {0, 0, 0, 0, 0, 0, 0, 0, 20});
    }
    m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, LC.queue + 1);
}
static void m03_marathon() {
    begin();
    while (MC.n_out < MARATHON && !C.failed) {
        if (R.chance(60)) for (unsigned m = R.below(LC.queue + 2 > 8 ? 8 : LC.queue + 2); m && !C.failed; m--) { static const uint8_t F[4] = {5, 6, 1, 4}; Req r = gen_req(F[R.below(4)]); if (r.qty > 2) { r.qty = 2; finish_req(r); } m_api(r); }
        if (!MC.q.empty()) m_attempt(R.chance(98) ? P_GOOD : R.chance(50) ? P_CRC : P_EXC, {0, 0, 0, 0, 0, 0, 0, 0, 5});
    }
    COUNT("requests of uninterrupted histories", MC.n_out);
    m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, LC.queue + 1);
    if (!C.failed) fill_and_check();
}
static RegProp P03("M03", "A case is a history of requests (also beyond the queue size and from callbacks), outcomes and errors over many times the queue size (mode marathon: 66000 requests without initialisation), compared with a reference FIFO of exactly the configured capacity; nontrivial: at least one request was transmitted; distinct by hash of requests, plans and responses.",
    {{"session", m03_session, 12000, 600000, 300}, {"long", m03_long, 1500, 60000, 50}, {"marathon", m03_marathon, 8, 64, 1}, {"streaks", m_streaks<SK_ALL>, 2000, 150000, 100}});

// ---- M04, M12: line garbage ----
static void snap() { MC.t15_since = true; if (DM.rx && DM.rx->data) MC.snap15.assign(DM.rx->data, DM.rx->data + DM.rx->len); }
void m_ev35() { DM.t35(); MC.polls35 = 0; }
void m_ev15() { if (MC.st == MasterCheck::WAIT) snap(); DM.t15(); }
void m_soup(unsigned events, unsigned pollpct) {
    Bytes f; size_t pos = 0; int style = R.below(5);
    for (unsigned i = 0; i < events && !C.failed; i++) {
        unsigned k = R.below(1000);
        if (k < 700) {
            if (pos >= f.size()) {
                pos = 0;
                Req none = gen_req(); const Req &r = MC.q.empty() ? none : MC.q[0];
                switch (R.chance(70) ? style : (int)R.below(5)) {
                case 0: f = gen_good(r); break;
                case 1: f = gen_crcbad(r); break;
                case 2: f = gen_mismatch(r); break;
                case 3: f = gen_foreign_resp(r.id); break;
                default: f.resize(R.range(1, 40)); for (auto &b : f) b = R.chance(20) ? r.id : R.byte(); break;
                }
                if (R.chance(3)) { f.resize(R.range(250, 600)); for (auto &b : f) b = R.byte(); }
            }
            // a frame is usually received as a whole, sometimes interrupted
            size_t n = R.chance(75) ? f.size() - pos : R.range(1, f.size() - pos);
            bool err = DM.after15;
            if (!MC.lax && DM.quiet && !C.failed) while (MC.polls35 < 4) m_poll(); // the main loop polls in every silence
            for (size_t j = 0; j < n; j++) {
                bool e = (j == 0 && err) || R.below(400) == 0, first = R.chance(50);
                if (e && first) DM.fe();
                DM.byte(f[pos++]);
                if (e && !first) DM.fe();
                if (R.below(100) < pollpct / 8) m_poll();
            }
            if (R.chance(70) && DM.inframe) { m_ev15(); if (R.below(100) < pollpct) m_poll(); if (R.chance(85) && DM.after15) { m_ev35(); for (unsigned p = R.below(5); p && !C.failed; p--) m_poll(); } }
        } else if (k < 780) { if (DM.inframe) m_ev15(); }
        else if (k < 840) { if (DM.after15) m_ev35(); }
        else if (k < 900) { if (DM.busy) { DM.txdone(); } }
        else if (k < 950) { unsigned t = R.chance(70) ? R.below(4) : R.chance(70) ? R.below(LC.timeout < 3000 ? LC.timeout : 3000) : LC.timeout; while (t--) m_tick(); }
        else if (k < 985) m_api(R.chance(90) ? gen_req() : gen_refused());
        else if (k < 990) { if (DM.quiet) m_ev35(); }
        else for (unsigned p = R.below(20); p && !C.failed; p--) m_poll();
        if (R.below(100) < pollpct) m_poll();
    }
}
bool m_soup_drain() { // the line falls silent: every request ends within bounded time
    if (DM.inframe) { m_ev15(); if (R.chance(50)) m_poll(); }
    if (!DM.quiet) m_ev35();
    for (int i = 0; i < 4; i++) m_poll();
    uint64_t bound = (uint64_t)MC.q.size() * (LC.retries + 1) + 4, rounds = 0;
    while (!MC.q.empty() && !C.failed) {
        uint64_t before = MC.n_out;
        for (int i = 0; i < 8 && !C.failed && MC.n_out == before; i++) m_poll();
        if (DM.busy) { DM.txdone(); m_poll(); }
        if (MC.n_out == before && !C.failed) {
            for (unsigned t = 0; t < LC.timeout + 2; t++) { m_tick(); if (LC.timeout < 3000 ? R.chance(10) : R.below(500) == 0) m_poll(); }
            for (int i = 0; i < 16 && !C.failed && MC.n_out == before; i++) m_poll();
        }
        if (++rounds > bound) { fail("stuck", "%zu requests do not end although the line is silent and %llu timeouts have passed (first: %s)", MC.q.size(), (unsigned long long)rounds, hex(MC.q[0].adu.data(), 6).c_str()); return false; }
    }
    if (!C.failed) m_quiet_polls(4);
    if (!C.failed && MC.n_out != MC.n_acc) fail("outcome-count", "%llu outcomes for %llu accepted requests", (unsigned long long)MC.n_out, (unsigned long long)MC.n_acc);
    return !C.failed;
}
static void m04_soup() {
    begin(30);
    MC.relaxed = true; MC.lax = R.chance(40);
    unsigned n = R.range(1, 4);
    while (n-- && !C.failed) {
        unsigned ev = R.range(3, 60), pp = R.below(5) * 15;
        add(some(LC.queue < 10 ? LC.queue : 10));
        mix(ev * 64 + pp); for (auto &r : MC.q) mixb(r.adu.data(), std::min<size_t>(6, r.adu.size()));
        DM.sync_done = R.chance(15);
        m_soup(ev, pp);
        COUNT("disturbance events", ev);
        if (!m_soup_drain()) return;
        C.nontrivial = true;
        mix(MC.n_tmo << 40 ^ MC.n_comm << 20 ^ MC.n_ok);
        // normal service afterwards
        bool lax = MC.lax; MC.relaxed = MC.lax = false; DM.inframe = DM.after15 = false; DM.quiet = true;
        if (R.chance(60)) { add(R.range(1, 2)); m_run({80, 10, 4, 2, 2, 0, 0, 0, 0}, 10); if (!C.failed && !MC.q.empty()) m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, 10); }
        MC.relaxed = true; MC.lax = lax;
    }
}
static void m04_plans() { // any sequence of outcomes, all requests end; late responses to finished requests
    begin(40);
    unsigned n = sess(3, 10);
    while (n-- && !C.failed) {
        add(R.range(1, 3));
        Mix mx = {30, 10, 15, 15, 15, R.chance(50) ? 5u : 0u, 20, 30, 20};
        bool tmo0 = MC.n_tmo; Req last = MC.q.empty() ? gen_req() : MC.q[0]; (void)tmo0;
        m_run(mx, R.range(1, 8));
        if (!C.failed && MC.st == MasterCheck::IDLE && R.chance(30)) { // a response that comes too late, while nothing is running
            Bytes f = R.chance(70) ? gen_good(last) : gen_crcbad(last);
            VLOG("late frame %s", hex(f.data(), f.size()).c_str());
            std::deque<Req> keep; keep.swap(MC.q); // nothing may happen now unless further requests are queued
            if (keep.empty()) {
                for (uint8_t b : f) DM.byte(b);
                if (R.chance(20)) DM.fe();
                DM.t15(); m_quiet_polls(R.below(3)); if (R.chance(80)) DM.t35(); m_quiet_polls(R.below(5));
                DM.inframe = DM.after15 = false; DM.quiet = true;
                COUNT("frames while idle", 1);
            }
            keep.swap(MC.q);
        }
    }
    m_run({80, 5, 5, 5, 5, 0, 0, 0, 0}, 60);
    if (!C.failed && MC.q.empty() && MC.n_out != MC.n_acc) fail("outcome-count", "%llu outcomes for %llu accepted requests", (unsigned long long)MC.n_out, (unsigned long long)MC.n_acc);
}
static void m04_marathon() { // more failed attempts, error reports and timeouts than a 16 bit counter holds
    begin();
    unsigned att = 0, lim = LC.timeout > 100 ? 3 : 30;
    while (att < MARATHON && !C.failed) {
        while (MC.q.size() < 2 && MC.q.size() < LC.queue && !C.failed) m_api(gen_req(5 + R.below(2)));
        unsigned k = R.below(100);
        m_attempt(k < lim ? P_SILENCE : k < 50 ? P_CRC : k < 70 ? P_FE : k < 95 ? P_MISMATCH : P_GOOD, {0, 0, 0, 0, 0, 0, 0, 0, 0});
        att++;
    }
    COUNT("attempts of uninterrupted histories", att);
    m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, LC.queue + 1);
    if (!C.failed && MC.q.empty() && MC.n_out != MC.n_acc) fail("outcome-count", "%llu outcomes for %llu accepted requests", (unsigned long long)MC.n_out, (unsigned long long)MC.n_acc);
}
static RegProp P04("M04", "Mode soup: random bytes, frames, breaks, errors, ticks, requests and ends of transmission in any state, then silence in which every request must end within (retries+1) timeouts; every report must be justified by the received bytes or the elapsed ticks; mode plans: judged sequences of outcomes with frames arriving while idle; mode marathon: 66000 mostly failing attempts without initialisation; nontrivial: requests ended; distinct by hash.",
    {{"soup", m04_soup, 12000, 800000, 300}, {"plans", m04_plans, 12000, 600000, 400}, {"marathon", m04_marathon, 4, 40, 1}, {"streaks", m_streaks<SK_ALL>, 4000, 150000, 100}});

// ---- M05 ----
static void m05_enum() {
    static const unsigned TOT = 2000 + 2000 + 125 + 125;
    begin();
    unsigned k = C.index % TOT; int i = 0;
    while (k >= max_qty(FCS[i])) { k -= max_qty(FCS[i]); i++; }
    Req r = gen_req(FCS[i]); r.qty = k + 1;
    if (R.chance(20)) r.adr = 0x10000 - 1 - R.below(r.qty);
    finish_req(r);
    m_api(r);
    COUNT("function/quantity pairs", 1);
    m_attempt(P_GOOD, {0, 0, 0, 0, 0, 0, 10, 10, 10});
    m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, 4);
}
static void m05_session() {
    begin(25);
    unsigned n = sess(4, 16);
    while (n-- && !C.failed) {
        m_api(gen_req(R.chance(85) ? R.range(1, 4) : 0));
        if (R.chance(50)) m_api(gen_req(R.range(1, 4)));
        m_run({75, 4, 6, 4, 6, 0, 5, 5, 5}, R.range(1, 3));
    }
    m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, LC.queue + 1);
}
static RegProp P05("M05", "Mode enum: all read functions with all valid quantities; mode session: sequences of reads to any slaves with failed attempts between; every callback is compared with the response's contents; mode marathon: 66000 attempts without initialisation; nontrivial: at least one response was delivered or rejected; distinct by hash of requests and responses.",
    {{"enum", m05_enum, 12750, 300000, 400}, {"session", m05_session, 15000, 900000, 400}, {"streaks", m_streaks<SK_GOOD | SK_EXC | SK_CRC | SK_FE | SK_MIS | SK_FOREIGN | SK_EVENTS | SK_BUSY | SK_DWELL>, 3000, 150000, 100}, {"marathon", m_marathon<90, 2, 4, 2, 2, 1>, 1, 40, 1}});

// ---- M06 ----
static void m06_enum() { // all functions with all exception codes
    begin();
    int fc = FCS[C.index % 8]; int code = C.index / 8 % 256;
    m_api(gen_req(fc));
    if (R.chance(60)) m_api(gen_req());
    m_pump_sent(); m_tx(R.chance(20), R.chance(20));
    if (C.failed) return;
    C.nontrivial = true; mix(fc * 256 + code); mixb(cur().adu.data(), 6);
    DeliverOpt o; o.late = R.chance(30);
    COUNT("function/exception code pairs", 1);
    m_deliver(gen_exc(cur(), code), o, -1);
    m_run({70, 30, 0, 0, 0, 0, 0, 0, 0}, 3);
}
static void m06_session() {
    begin(25);
    unsigned n = sess(4, 16);
    while (n-- && !C.failed) {
        static const uint8_t W[4] = {5, 6, 15, 16};
        m_api(gen_req(R.chance(70) ? W[R.below(4)] : 0));
        if (R.chance(50)) m_api(gen_req());
        m_run({50, 40, 4, 3, 5, 0, 5, 5, 5}, R.range(1, 3));
    }
    m_run({60, 40, 0, 0, 0, 0, 0, 0, 0}, LC.queue + 1);
}
static RegProp P06("M06", "Mode enum: all functions with all exception codes 0-255; mode session: mostly writes, confirmed or answered by exceptions, with other requests before and behind them; mode marathon: 66000 attempts without initialisation; nontrivial: a response was judged; distinct by hash of requests and responses.",
    {{"enum", m06_enum, 20480, 400000, 500}, {"session", m06_session, 25000, 1200000, 500}, {"streaks", m_streaks<SK_GOOD | SK_EXC | SK_CRC | SK_FE | SK_MIS | SK_BUSY>, 3000, 150000, 100}, {"marathon", m_marathon<50, 44, 2, 2, 2, 2>, 1, 40, 1}});

// ---- M07 ----
static void m07_session() {
    begin(15);
    unsigned n = sess(3, 12);
    while (n-- && !C.failed) {
        // complete responses first, so that every buffer holds data that would complete a short one
        Req r = gen_req();
        m_api(r);
        if (R.chance(60)) { m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, LC.queue + 1); Req s = r; if (R.chance(50)) { s.adr = R.u16(); finish_req(s); } m_api(s); }
        m_run({15, 5, 2, 2, 76, 0, 2, 2, 2}, R.range(1, LC.retries + 3));
    }
    m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, LC.queue + 1);
}
static void m07_enum() { // every function with every length and (reads) every byte count
    begin();
    int fc = FCS[C.index % 8]; uint64_t i = C.index / 8;
    Req r = gen_req(fc);
    m_api(r); m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, 1); // leaves a complete response in a buffer
    for (unsigned k = 1; k < LC.queue && k < 4 && !C.failed; k++) { m_api(r); m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, 1); }
    m_api(r); m_pump_sent(); m_tx(false, false);
    if (C.failed) return;
    C.nontrivial = true; mix(C.index); mixb(r.adu.data(), 6);
    Bytes g = gen_good(r), b;
    unsigned len = 4 + i % 252;
    if (i / 252 % 2 == 0) { b = g; b.resize(b.size() - 2); b.resize(len - 2, 0); for (size_t k = g.size() - 2; k < b.size(); k++) b[k] = R.byte(); } // cut or extended to that length
    else { b = g; b.resize(b.size() - 2); if (b.size() > 2) b[2] = len; } // that byte count (reads) or address byte (writes)
    put_crc(b);
    COUNT("function/length pairs", 1);
    bool acc = acceptable(r, b.data(), b.size());
    DeliverOpt o; o.late = R.chance(30);
    m_deliver(b, o, acc ? -1 : EK_ANY);
    m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, 1);
}
static RegProp P07("M07", "Mode enum: every function with responses of every length 4-255 and every byte count, after complete responses in the same buffers; mode session: responses mismatching in function, length, byte count, address, value, quantity or by one bit (correct CRC) between correct ones; mode marathon: 66000 attempts without initialisation; nontrivial: a response was judged; distinct by hash.",
    {{"enum", m07_enum, 16128, 300000, 500}, {"session", m07_session, 30000, 1500000, 500}, {"streaks", m_streaks<SK_MIS | SK_GOOD | SK_EXC | SK_CRC>, 3000, 150000, 100}, {"marathon", m_marathon<30, 5, 0, 0, 65, 0>, 1, 40, 1}});

// ---- M08 ----
static int m08_kind(unsigned k) { static const int P[5] = {P_CRC, P_FE, P_MISMATCH, P_GOOD, P_EXC}; return P[k]; }
static void m08_enum() { // all sequences of three kinds of failure up to the retry limit (sampled if there are too many), ending in any way
    begin();
    unsigned n = LC.retries + 1;
    // number of failures and their kinds are taken from the index
    uint64_t i = C.index;
    for (int round = 0; round < 3 && !C.failed; round++) {
        m_api(gen_req());
        unsigned f = round == 0 ? (unsigned)(i % (n + 1)) : R.below(n + 1);
        uint64_t seq = round == 0 ? i / (n + 1) : R.next() >> 20;
        for (unsigned k = 0; k < f && !C.failed; k++) { m_attempt(m08_kind(seq % 3), {0, 0, 0, 0, 0, 0, 5, 5, 0}); seq /= 3; }
        if (C.failed) return;
        if (f <= LC.retries) { // one more attempt is available
            if (MC.q.empty()) { fail("too-few-retries", "request ended after %u failed attempts", f); return; }
            static const int E[3] = {P_GOOD, P_EXC, P_SILENCE};
            m_attempt(E[R.below(LC.timeout < 3000 ? 3 : 2)], {0, 0, 0, 0, 0, 0, 5, 5, 0});
        }
        if (!C.failed && !MC.q.empty()) { fail("not-ended", "request is still running after its last attempt"); return; }
        COUNT("retry sequences", 1); COUNT("failed attempts", f);
        if (LC.retries > 20) break;
    }
}
static void m08_session() {
    begin(20);
    unsigned n = sess(4, 16);
    while (n-- && !C.failed) {
        add(R.range(1, LC.queue < 3 ? LC.queue : 3));
        m_run({15, 4, 35, 25, 20, R.chance(20) ? 2u : 0u, 5, 10, 10}, R.range(1, 2 * LC.retries + 4));
    }
    m_run({10, 0, 50, 20, 20, 0, 0, 0, 0}, 60);
}
static RegProp P08("M08", "Mode enum: sequences of CRC, frame-error and mismatch failures up to the retry limit, ending successfully, with a timeout or with the error report, on consecutive requests; mode session: the same with queues, noise and foreign frames; the checker counts transmissions per request and compares every retransmission; mode marathon: 66000 attempts without initialisation; nontrivial: a response was judged; distinct by hash.",
    {{"enum", m08_enum, 16000, 600000, 400}, {"session", m08_session, 16000, 900000, 400}, {"streaks", m_streaks<SK_CRC | SK_FE | SK_MIS | SK_EXC | SK_SILENT | SK_GOOD | SK_DWELL>, 3000, 150000, 100}, {"marathon", m_marathon<20, 5, 40, 30, 5, 0>, 1, 40, 1}});

// ---- M09 ----
static void m09_silence() {
    begin();
    unsigned n = R.range(1, 3);
    while (n-- && !C.failed) {
        add(R.range(1, LC.queue < 2 ? 1 : 2));
        // possibly failed attempts before (each transmission has its full time)
        for (unsigned k = R.chance(40) ? R.range(1, LC.retries ? LC.retries : 1) : 0; k && !C.failed && !MC.q.empty(); k--) m_attempt(R.chance(50) ? P_CRC : P_FE, {0, 0, 0, 0, 0, 0, 5, 10, 0});
        if (!C.failed && !MC.q.empty()) m_attempt(P_SILENCE, {0, 0, 0, 0, 0, 0, 40, 20, 10});
        COUNT("silent attempts", 1);
    }
    m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, LC.queue + 1);
}
static void m09_justintime() { // the response ends exactly k ticks before the timeout, polls late
    begin();
    unsigned n = R.range(1, 4);
    while (n-- && !C.failed) {
        m_api(gen_req());
        if (!m_pump_sent() || !m_tx(R.chance(20), false)) return;
        C.nontrivial = true; mixb(cur().adu.data(), 6);
        if (LC.timeout < 3) return;
        uint64_t room = LC.timeout - 2, k = R.chance(70) ? room - R.below(room < 4 ? room + 1 : 4) : R.below(room + 1);
        Bytes f = gen_good(cur());
        bool before = R.chance(50), dopoll = R.chance(60); unsigned pe = R.chance(50) ? 1 : R.range(1, 300);
        VLOG("response ends %llu ticks after the transmission", (unsigned long long)k); mix(k);
        if (before) for (uint64_t t = 0; t < k; t++) { m_tick(); if (dopoll && t % pe == 0) m_poll(); }
        for (size_t j = 0; j < f.size(); j++) DM.byte(f[j]);
        if (!before) for (uint64_t t = 0; t < k; t++) { m_tick(); if (dopoll && t % pe == 0) m_poll(); }
        if (C.failed) return;
        if (MC.st != MasterCheck::WAIT) { fail_with: fail("early-outcome", "outcome while the response is being received"); return; }
        DM.t15();
        // the timeout passes now: too late, the response has been received
        for (unsigned t = R.below(6); t; t--) m_tick();
        if (R.chance(60)) m_poll();
        for (unsigned t = R.below(6); t; t--) m_tick();
        if (R.chance(40)) m_poll();
        if (C.failed) return;
        if (MC.st != MasterCheck::WAIT) goto fail_with;
        MC.good(f.data(), f.size());
        DM.t35();
        if (R.chance(30)) for (unsigned t = R.below(LC.timeout < 3000 ? LC.timeout + 3 : 10); t; t--) m_tick();
        DM.inframe = DM.after15 = false;
        m_settle();
        COUNT("responses just in time", 1);
    }
}
static RegProp P09("M09", "Mode silence: no response, ticks and polls distributed in six ways (single, bursts, all ticks before the first poll), after retries, noise and foreign frames; mode justintime: responses ending up to two ticks before the timeout, polled late; the checker compares the ticks counted since the end of the transmission; nontrivial: a timeout or response was judged; distinct by hash.",
    {{"silence", m09_silence, 12000, 500000, 300}, {"justintime", m09_justintime, 16000, 600000, 400}, {"streaks", m_streaks<SK_SILENT | SK_FOREIGN | SK_DWELL | SK_EVENTS | SK_CRC | SK_FE | SK_NOISE>, 3000, 150000, 100}});

// ---- M10 ----
static void m10_session() {
    begin(15);
    unsigned n = sess(2, 8);
    while (n-- && !C.failed) {
        add(R.range(1, 2));
        m_run({55, 10, 8, 6, 6, R.chance(25) ? 10u : 0u, 90, 5, 5}, R.range(1, 4));
    }
    m_run({80, 10, 4, 3, 3, 0, 90, 0, 0}, 40);
}
static void m10_timeout() { // foreign frames all the time must not extend the timeout
    begin();
    m_api(gen_req());
    if (!m_pump_sent() || !m_tx(false, false)) return;
    C.nontrivial = true; mixb(cur().adu.data(), 6);
    unsigned over = 0;
    while (!C.failed && MC.st == MasterCheck::WAIT) {
        unsigned step = LC.timeout > 40 ? R.range(1, LC.timeout / 10) : R.range(1, 3);
        for (unsigned t = 0; t < step && MC.st == MasterCheck::WAIT; t++) { m_tick(); if (R.chance(20)) m_poll(); }
        if (MC.st != MasterCheck::WAIT) break;
        if (MC.ticks_tx + 1 < LC.timeout) m_foreign(1);
        else { m_quiet_polls(1); over++; }
        if (MC.st == MasterCheck::WAIT && MC.seen && MC.ticks_seen >= LC.timeout + 1 && ++over > 16) fail("no-timeout", "no timeout report %llu ticks after the transmission while other slaves' frames arrive", (unsigned long long)MC.ticks_tx);
    }
    COUNT("timeouts with foreign traffic", 1);
}
static void m10_straddle() { // the timeout elapses in the middle of a frame of another slave: it must be reported in time and the rest of the frame ignored
    begin();
    unsigned n = R.range(1, 4);
    while (n-- && !C.failed) {
        m_api(gen_req());
        if (!m_pump_sent() || !m_tx(R.chance(20), false)) return;
        C.nontrivial = true; mixb(cur().adu.data(), 6);
        uint8_t id = cur().id;
        Bytes f = gen_foreign_resp(id); if (f.size() > 1 && R.chance(30)) f.resize(R.range(1, f.size()));
        uint64_t lead = R.chance(70) ? (LC.timeout > 12 ? LC.timeout - R.below(12) : R.below(LC.timeout + 1)) : R.below(LC.timeout + 1);
        VLOG("%llu ticks, then %s across the timeout", (unsigned long long)lead, hex(f.data(), f.size()).c_str()); mix(lead); mixb(f.data(), std::min<size_t>(f.size(), 6));
        unsigned pe = R.chance(50) ? 1 : R.range(1, 40);
        for (uint64_t t = 0; t < lead && MC.st == MasterCheck::WAIT && !C.failed; t++) { m_tick(); if (t % pe == 0) m_poll(); }
        unsigned over = 0; const unsigned tk = R.chance(50) ? 1 : R.range(1, 3), pl = R.range(1, 3);
        auto step = [&](unsigned chance) {
            if (R.chance(chance)) for (unsigned k = R.below(tk + 1); k; k--) m_tick();
            for (unsigned k = R.below(pl + 1); k && !C.failed; k--) { m_poll(); if (MC.st == MasterCheck::WAIT && MC.seen && MC.ticks_seen >= (uint64_t)LC.timeout + 1) over++; }
            if (!C.failed && over > 16 && MC.st == MasterCheck::WAIT) fail("no-timeout", "no timeout report %llu ticks and %u polls after the transmission while a frame of another slave is being received, configured %u", (unsigned long long)MC.ticks_tx, over, LC.timeout);
        };
        unsigned reps = f.size() < 40 ? R.range(1, 5) : 1;
        while (reps-- && !C.failed) {
            for (size_t j = 0; j < f.size() && !C.failed; j++) { DM.byte(f[j]); if (R.chance(2)) DM.fe(); step(f.size() < 60 ? 60 : 20); }
            if (C.failed) return;
            DM.t15(); step(40); step(40); m_ev35(); for (int k = 0; k < 5 && !C.failed; k++) m_poll();
            DM.inframe = DM.after15 = false; DM.quiet = true;
        }
        if (!C.failed && MC.st == MasterCheck::WAIT) m_silence();
        COUNT("timeouts within a frame of another slave", 1);
    }
    m_run({80, 10, 4, 3, 3, 0, 90, 0, 0}, 3);
}
static void m10_edge() { // foreign frame ends together with the timeout
    begin();
    m_api(gen_req()); m_api(gen_req());
    for (int k = 0; k < 2 && !C.failed && !MC.q.empty(); k++) {
        m_attempt(R.chance(50) ? P_GOOD : P_CRC, {0, 0, 0, 0, 0, 0, 100, 10, 0});
    }
    m_run({100, 0, 0, 0, 0, 0, 100, 0, 0}, 4);
}
static void m10_ids() { // complete responses of every other slave while a response of every slave is awaited
    begin();
    unsigned id = 1 + C.index % 247;
    Req r = gen_req(0, id);
    if (r.qty > 3) { r.qty = 1 + r.qty % 3; if (r.fc >= 15) r.vals.resize(r.qty); finish_req(r); }
    m_api(r);
    if (!m_pump_sent() || !m_tx(false, false)) return;
    C.nontrivial = true; mixb(cur().adu.data(), 6); mix(C.index);
    unsigned other = R.byte();
    for (unsigned k = 0; k < 256 && !C.failed; k++, other = (other + 1) & 255) {
        if (other == id) continue;
        Req o = r; o.id = other; finish_req(o);
        Bytes f = R.chance(80) ? gen_good(o) : gen_exc(o);
        if (R.chance(10)) { f.resize(f.size() - 2); f[f.size() - 1] ^= 1; put_crc(f); }
        VLOG("response of slave %u: %s", other, hex(f.data(), f.size()).c_str());
        for (uint8_t b : f) DM.byte(b);
        DM.t15(); m_quiet_polls(R.below(3)); DM.t35(); m_quiet_polls(4);
        if (!C.failed && MC.st != MasterCheck::WAIT) { fail("disturbed-by-foreign", "a frame of slave %u changed the state of a request to slave %u", other, id); return; }
    }
    COUNT("pairs of awaited and foreign slave", 255);
    DM.inframe = DM.after15 = false; DM.quiet = true;
    if (!C.failed) { DeliverOpt o; m_deliver(gen_good(cur()), o, -1); }
}
static RegProp P10("M10", "A case is a session in which other slaves' frames (any content and length, damaged, with character and timing errors) arrive while a response is awaited (mode ids: complete responses of every other slave, for every awaited slave; mode straddle: the timeout elapses within such a frame); no report, retransmission or prolongation may result and the response or timeout that follows is judged as usual; mode marathon: 66000 foreign frames in one wait, without initialisation; nontrivial: at least one attempt was judged; distinct by hash.",
    {{"session", m10_session, 14000, 900000, 400}, {"timeout", m10_timeout, 5000, 200000, 300}, {"edge", m10_edge, 8000, 300000, 400}, {"straddle", m10_straddle, 4000, 300000, 300}, {"ids", m10_ids, 988, 24700, 30}, {"streaks", m_streaks<SK_FOREIGN>, 3000, 150000, 100}, {"marathon", m10_marathon, 1, 40, 1}});

// ---- M11 ----
static void m11_session() {
    begin(20);
    unsigned n = sess(2, 6);
    while (n-- && !C.failed) {
        add(some(LC.queue < 4 ? LC.queue : 4));
        int kind = R.below(5);
        Mix mx = kind == 0 ? Mix{0, 0, 100, 0, 0, 0, 5, 10, 10} : kind == 1 ? Mix{0, 0, 0, 100, 0, 0, 5, 10, 10} : kind == 2 ? Mix{0, 0, 0, 0, 100, 0, 5, 10, 10} : kind == 3 ? Mix{5, 5, 30, 30, 30, 0, 5, 10, 10} : Mix{0, 0, 5, 5, 5, 85, 20, 10, 10};
        m_run(mx, R.range(LC.retries + 1 > 30 ? 30 : LC.retries + 1, LC.retries + 1 > 30 ? 300 : 3 * (LC.retries + 1)));
    }
}
static void m11_enum() { // every function fails in every way
    begin();
    m_api(gen_req(FCS[C.index % 8]));
    if (R.chance(70)) m_api(gen_req()); // another one behind it
    static const int K[4] = {P_CRC, P_FE, P_MISMATCH, P_SILENCE};
    int k = K[C.index / 8 % 4];
    uint64_t e0 = MC.n_out;
    for (unsigned a = 0; a <= LC.retries && !C.failed && MC.n_out == e0; a++) m_attempt(k, {0, 0, 0, 0, 0, 0, 5, 10, 10});
    COUNT("function/failure pairs", 1);
    m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, LC.queue + 1);
}
static RegProp P11("M11", "Mode enum: every function failing by CRC, frame error, mismatch and timeout with random arguments; mode session: queues of requests failing in mixed ways with arbitrary damaged responses; every error report is compared with the request that failed; mode marathon: 66000 attempts without initialisation; nontrivial: an attempt was judged; distinct by hash.",
    {{"enum", m11_enum, 12800, 500000, 400}, {"session", m11_session, 8000, 500000, 200}, {"streaks", m_streaks<SK_CRC | SK_FE | SK_MIS | SK_SILENT | SK_EVENTS>, 3000, 150000, 100}, {"marathon", m_marathon<4, 0, 40, 28, 28, 0>, 1, 40, 1}});

// ---- M12 (sanitizer build) ----
static void m12_hostile() {
    begin(30);
    MC.relaxed = MC.lax = true;
    unsigned n = R.range(1, 5);
    while (n-- && !C.failed) {
        switch (R.below(6)) {
        case 0: { for (unsigned k = R.range(1, 12); k && !C.failed; k--) m_api(R.chance(60) ? gen_refused() : gen_req()); break; }
        case 1: m_begin(); MC.relaxed = MC.lax = true; DM.sync_done = R.chance(20); break; // at any moment
        default: add(R.range(1, 3)); m_soup(R.range(3, 80), R.below(5) * 15); COUNT("disturbances", 1); mix(MC.n_out);
        }
        if (R.chance(30)) m_soup_drain();
    }
    mix(MC.n_ok << 20 ^ MC.n_comm << 10 ^ MC.n_tmo); C.nontrivial = true;
}
static RegProp P12("M12", "A case is a hostile session (frames of 0-600 bytes in any event order, all quantities with exactly sized heap arrays, re-initialisation) or a judged session of the other properties, on the ASan+UBSan build; nontrivial: requests were processed; distinct by hash.",
    {{"hostile", m12_hostile, 9000, 500000, 250}, {"quantities", m02_enum, 6000, 49152, 250}, {"requests", m01_enum, 3000, 60000, 250}, {"responses", m05_enum, 4300, 50000, 250}, {"mismatch", m07_session, 4000, 200000, 250}, {"plans", m04_plans, 3000, 150000, 250}, {"streaks", m_streaks<SK_ALL>, 600, 30000, 50}});

// ---- M13 ----
static void m13_session() {
    begin(30);
    DM.sync_done = R.chance(25);
    unsigned n = sess(3, 12);
    while (n-- && !C.failed) {
        add(some(LC.queue < 8 ? LC.queue : 8));
        m_run({55, 8, 10, 8, 8, R.chance(20) ? 6u : 0u, 10, 60, 80}, R.range(1, 5));
    }
    m_run({80, 5, 5, 5, 5, 0, 0, 40, 40}, 40);
}
static RegProp P13("M13", "A case is a session with slow and immediate transmissions, noise and echoes during them, requests filling the queue meanwhile, and late polls; monitors compare the transmit buffer after every event, forbid overlapping transmissions and transmissions while a response is awaited or before the 3.5 character silence after one; nontrivial: an attempt was judged; distinct by hash.",
    {{"session", m13_session, 16000, 1000000, 400}, {"streaks", m_streaks<SK_NOISE | SK_EVENTS | SK_DWELL | SK_FOREIGN | SK_BUSY>, 3000, 150000, 100}});

// ---- M14 ----
static void m14_session() {
    begin();
    unsigned n = R.range(2, 6);
    while (n-- && !C.failed) {
        // bring the master into any state
        add(some(LC.queue < 6 ? LC.queue : 6));
        if (R.chance(50)) m_run({40, 10, 20, 15, 15, R.chance(20) ? 3u : 0u, 0, 10, 10}, R.range(1, LC.retries + 4 > 12 ? 12 : LC.retries + 4));
        if (C.failed) return;
        if (R.chance(10)) fill_and_check();
        if (MC.q.empty()) m_api(gen_req());
        int stop = R.below(8);
        if (stop >= 1) m_pump_sent();                                     // transmitting
        if (stop >= 2 && MC.st == MasterCheck::TX) { DM.txdone(); m_quiet_polls(R.below(3)); }
        if (C.failed) return;
        if (stop >= 3 && MC.st == MasterCheck::WAIT) {
            for (unsigned t = R.below(LC.timeout < 1000 ? LC.timeout - 1 : 500); t; t--) { m_tick(); if (R.chance(5)) m_poll(); }
            Bytes f = R.chance(50) ? gen_good(cur()) : R.chance(50) ? gen_crcbad(cur()) : gen_mismatch(cur());
            if (!C.failed && MC.st == MasterCheck::WAIT) {
                if (stop >= 4) { size_t k = stop == 4 ? R.below(f.size()) : f.size(); for (size_t j = 0; j < k; j++) DM.byte(f[j]); if (R.chance(20)) DM.fe(); }
                if (stop >= 5) { DM.t15(); m_quiet_polls(R.below(3)); }
                if (stop >= 6) { MC.relaxed = MC.lax = true; snap(); DM.t35(); if (stop == 7) m_poll(); } // the outcome may or may not have been processed
            }
        }
        if (C.failed) return;
        driver_subscr_cb_t o15 = DM.c15, o35 = DM.c35, otx = DM.ctx, ofe = DM.cfe;
        bool wasbusy = DM.busy;
        VLOG("initialisation in state %d", (int)MC.st);
        mix(stop * 8 + MC.st);
        COUNT("re-initialisations", 1); if (wasbusy) COUNT("re-initialisations during a transmission", 1);
        m_begin();
        if (C.failed) return;
        DM.sync_done = R.chance(12);
        // events of the time before
        if (R.chance(60)) {
            unsigned k = R.range(1, 5);
            while (k--) switch (R.below(6)) { case 0: if (o15) o15(); break; case 1: if (o35) o35(); break; case 2: if (otx) otx(); break; case 3: if (ofe) ofe(); break; case 4: m_tick(); break; default: m_poll(); }
            COUNT("stale events after initialisation", 1);
        }
        m_quiet_polls(R.below(6)); // nothing may be transmitted or reported
        if (R.chance(40)) fill_and_check(); else add(R.range(1, LC.queue < 3 ? LC.queue : 3));
        if (C.failed) return;
        switch (R.below(4)) { // full retries, full timeout
        case 0: for (unsigned a = 0; a <= LC.retries && a < 20 && !C.failed; a++) m_attempt(R.chance(50) ? P_CRC : P_FE, {0, 0, 0, 0, 0, 0, 0, 10, 0}); break;
        case 1: m_attempt(P_SILENCE, {0, 0, 0, 0, 0, 0, 10, 10, 0}); break;
        default: m_attempt(R.chance(80) ? P_GOOD : P_EXC, {0, 0, 0, 0, 0, 0, 10, 10, 0});
        }
        if (R.chance(50)) m_run({70, 10, 8, 6, 6, 0, 0, 5, 5}, 8);
        C.nontrivial = true;
    }
}
static RegProp P14("M14", "A case is a sequence of re-initialisations in random states (queued, transmitting, waiting, receiving, between the silences, after failed attempts), each followed by stale events and by judged requests using the whole queue, all retries or the full timeout; nontrivial: at least one request after a re-initialisation was judged; distinct by hash.",
    {{"session", m14_session, 16000, 900000, 400}, {"streaks", m_streaks<SK_INIT>, 2000, 150000, 100}});
