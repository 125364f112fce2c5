// X04: driver events inside the library's functions. A script of events is generated first and executed once
// as it is; then again and again with the events that follow a poll moved to a point inside that poll.
#include "master_eng.hpp"
#include <unistd.h>
extern FILE *g_logf;
namespace {
enum K { POLL, API, BYTE, FE, T15, T35, TXQ, TICK, SETTLE, WAITSENT, TXSURE, CHECK }; // FE: character error, then the BYTE that follows
struct Ev { K k; int n; };
bool isr(const Ev &e) { return e.k == BYTE || e.k == FE || e.k == T15 || e.k == T35 || e.k == TXQ || e.k == TICK; }
struct Frame { Bytes f; bool fe; int kind; };          // kind (master): -1 good, EK_*, 100 foreign
std::vector<Ev> S; std::vector<Frame> F; std::vector<Req> Q;
bool master;
size_t pc, next_ev; int limit;             // limit: events that may be executed at the target point
unsigned denom; Rng R2;
std::vector<uint64_t> npoints;
uint64_t moved;
// slave
bool e35, active; unsigned nsends; Expect E;

void on_send_s(const uint8_t *p, unsigned n) {
    Bytes g(p, p + n);
    if (!e35) { fail("early-response", "the slave sent %s before the line was silent", hex(p, n).c_str()); return; }
    if (nsends++) { fail("several-responses", "a second transmission for one request: %s", hex(p, n).c_str()); return; }
    bool ok = false; for (auto &a : E.alts) if (a == g) ok = true;
    if (!ok) { fail(E.alts.empty() ? "response-to-bad-frame" : "wrong-response", "%s frame answered %s, expected %s", E.what, hex(p, n).c_str(), E.alts.empty() ? "no response" : hex(E.alts[0].data(), E.alts[0].size()).c_str()); return; }
    bool success = !(g[1] & 0x80);
    for (unsigned k = 0; k < E.wval.size(); k++) {
        int v = SA.map[E.wtab][E.wadr + k]; if (v < 0) continue;
        if (success) { if (E.wtab < 2) SA.xbits[v] = E.wval[k]; else SA.xregs[v] = E.wval[k]; }
        else if (E.partial) { if (E.wtab < 2) { if (SA.bits[v] == E.wval[k]) SA.xbits[v] = E.wval[k]; } else if (SA.regs[v] == E.wval[k]) SA.xregs[v] = E.wval[k]; }
    }
}
void isr_event(const Ev &e) {
    Drv &d = master ? DM : DS;
    switch (e.k) {
    case BYTE: d.byte(e.n); break;
    case FE: d.fe(); break;
    case TXQ: if (d.busy) d.txdone(); break;
    case TICK: m_tick(); break;
    case T15: d.t15(); break;
    case T35: {
        const Frame &f = F[e.n];
        if (!master) { E = slave_expect(f.f.data(), f.f.size(), f.fe); e35 = active = true; nsends = 0; }
        else if (f.kind != 100) {
            if (MC.st != MasterCheck::WAIT) { fail("early-outcome", "the outcome came before the line was silent for 3.5 characters"); return; }
            if (f.kind < 0) MC.good(f.f.data(), f.f.size()); else MC.bad(f.kind);
        }
        d.t35(); break; }
    default: break;
    }
}
bool next_isr() { // executes the next event of the script if it can interrupt the running function
    if (next_ev >= S.size() || !isr(S[next_ev]) || C.failed) return false;
    VLOG("   -- interrupt at point %llu", (unsigned long long)H.points);
    if (S[next_ev].k == FE) { isr_event(S[next_ev++]); } // together with its character
    isr_event(S[next_ev++]); moved++;
    return true;
}
void fire_one() { for (int k = 0; k < limit; k++) if (!next_isr()) break; }
void fire_multi() { if (R2.below(denom) == 0) next_isr(); }
void poll() {
    if (master) m_poll();
    else {
        poll_slave();
        if (!C.failed && !active) SA.check_memory("without a request");
    }
}
void settle() {
    if (master) { m_settle(); return; }
    if (E.silent_ok || nsends || C.failed) return;
    for (int i = 0; i < 12 && !nsends && !C.failed; i++) poll_slave();
    if (!nsends && !C.failed) fail("no-response", "no response to %s request", E.what);
}
// one execution of the script; events are moved at host event `host` (-1: anywhere at random)
void run(size_t host, uint64_t point, int n, bool record) {
    H.target = 0; H.multi = false; H.fire = nullptr; H.api = true;
    if (record) npoints.assign(S.size(), 0);
    for (pc = 0; pc < S.size() && !C.failed; pc = next_ev) {
        next_ev = pc + 1;
        const Ev e = S[pc];
        switch (e.k) {
        case POLL: case API:
            if (denom) { H.multi = true; H.fire = fire_multi; }
            else if (pc == host) { H.target = point; limit = n; H.fire = fire_one; }
            if (e.k == POLL) poll(); else m_api(Q[e.n]);
            H.target = 0; H.multi = false; H.fire = nullptr;
            if (record) npoints[pc] = H.points;
            break;
        case SETTLE: settle(); break;
        case WAITSENT: if (master) m_pump_sent(); break;
        case TXSURE: {
            Drv &d = master ? DM : DS;
            if (d.busy) d.txdone();
            break; }
        case CHECK:
            if (!master) { SA.check_memory("after the exchange"); e35 = active = false; }
            else if (e.n && !MC.q.empty() && MC.st == MasterCheck::WAIT) { // a timeout must have been reported
                for (int i = 0; i < 17 && MC.st == MasterCheck::WAIT && !C.failed; i++) m_poll();
                if (!C.failed && MC.st == MasterCheck::WAIT && MC.seen) fail("no-timeout", "no timeout report %llu ticks after the transmission, configured %u", (unsigned long long)MC.ticks_tx, LC.timeout);
            }
            break;
        default:
            if (e.k == FE) { isr_event(e); isr_event(S[next_ev++]); } else isr_event(e);
        }
    }
    H.api = false; H.fire = nullptr; H.multi = false; H.target = 0;
}
void emit(K k, int n = 0) { S.push_back({k, n}); }
void polls(unsigned a, unsigned b) { for (unsigned k = R.range(a, b); k; k--) emit(POLL); }
int emit_frame(const Frame &f, unsigned pollpct, int *ticks) { // bytes of the frame and the 1.5 character event
    int idx = F.size(); F.push_back(f);
    const bool late_only = f.fe && R.chance(35); // the only error is a character between the two silences
    unsigned fepos = f.fe && !late_only ? R.below(f.f.size()) : ~0u;
    for (unsigned i = 0; i < f.f.size(); i++) {
        if (R.chance(pollpct)) emit(POLL);
        if (ticks && *ticks > 0 && R.chance(4)) { emit(TICK); --*ticks; }
        if (i == fepos) emit(FE);
        emit(BYTE, f.f[i]);
    }
    if (R.chance(60)) emit(POLL);
    emit(T15);
    if (late_only || (f.fe && R.chance(30))) { polls(0, 2); emit(FE); emit(BYTE, R.byte()); if (R.chance(50)) emit(POLL); emit(T15); } // late byte
    return idx;
}
// ---- cases ----
std::vector<uint8_t> sbits; std::vector<modbus_reg_t> sregs; uint8_t sid; Rng rsave;
void gen_slave() {
    slave_layout(R.chance(80) ? DENSE : HOLES); SA.randomize_values(); sbits = SA.bits; sregs = SA.regs;
    SA.id = sid = R.range(1, 247);
    unsigned n = R.range(1, 3);
    while (n--) {
        Frame f; f.fe = false; f.kind = 0;
        unsigned k = R.below(100);
        for (int t = 0; t < 20; t++) { f.f = k < 62 ? gen_valid() : k < 71 ? gen_invalid() : k < 78 ? gen_foreign() : k < 86 ? gen_damaged() : k < 89 ? gen_badlen() : gen_valid(); if (f.f.size() < 24) break; }
        if (k >= 89) f.fe = true;
        mixb(f.f.data(), std::min<size_t>(f.f.size(), 16));
        int idx = emit_frame(f, R.chance(50) ? 0 : 10, nullptr);
        if (!R.chance(15)) polls(1, 2);
        emit(T35, idx);
        unsigned when = R.below(9);
        for (unsigned p = 0; p < 6; p++) { emit(POLL); if (p == when || when == 8) emit(TXQ); }
        emit(SETTLE); polls(0, 2);
        if (R.chance(50)) emit(TXQ); else emit(TXSURE);
        polls(1, 2); emit(TXSURE); polls(4, 5);
        emit(CHECK);
    }
    rsave = R;
}
void begin_slave() {
    R = rsave;
    std::copy(sbits.begin(), sbits.end(), SA.bits.begin()); std::copy(sregs.begin(), sregs.end(), SA.regs.begin());
    SA.xbits = SA.bits; SA.xregs = SA.regs;
    slave_start(sid); DS.sync_done = DS.spur = false; DS.on_send = on_send_s;
    e35 = active = false; nsends = 0; E = Expect();
}
void gen_master() {
    unsigned nq = R.range(1, std::min(LC.queue, 3u)), api = 0;
    for (unsigned i = 0; i < nq; i++) {
        Req r; for (int t = 0; t < 20; t++) { r = gen_req(); if (r.adu.size() < 24 && (!is_read(r.fc) || (r.fc <= 2 ? (r.qty + 7) / 8 : 2 * r.qty) < 20)) break; }
        Q.push_back(r); mixb(r.adu.data(), std::min<size_t>(r.adu.size(), 8));
    }
    emit(API, api++);
    bool noise = R.chance(25), noise_next;
    for (unsigned i = 0; i < nq; i++) {
        const Req &r = Q[i];
        if (api <= i) emit(API, api++);
        for (unsigned att = 0; att <= LC.retries; att++) {
            unsigned when = noise ? 9 : R.below(6); noise_next = R.chance(25);
            for (unsigned p = 0; p < 3; p++) { emit(POLL); if (p == when || when == 5) emit(TXQ); }
            emit(WAITSENT);
            if (noise) { // noise while the request is being transmitted
                for (unsigned k = R.range(1, 4); k; k--) { if (R.chance(10)) emit(FE); emit(BYTE, R.chance(40) ? r.id : R.byte()); if (R.chance(30)) emit(POLL); }
                emit(T15); polls(0, 1); if (R.chance(60)) emit(T35, (F.push_back({Bytes(), false, 100}), (int)F.size() - 1));
                polls(1, 2);
            }
            noise = noise_next; polls(0, 1); emit(TXQ); emit(POLL); emit(TXSURE);
            int ticks = LC.timeout >= 8 ? (int)std::min(LC.timeout - 7, 8u) : 0;
            polls(1, 2); if (ticks > 0 && R.chance(50)) { emit(TICK); ticks--; } polls(3, 4);
            if (api < nq && R.chance(50)) emit(API, api++);
            if (R.chance(20)) { // a frame of another slave
                Frame f; do f.f = gen_foreign_resp(r.id); while (f.f.size() > 20); f.fe = R.chance(30); f.kind = 100;
                if (f.fe) { f.fe = false; int idx = F.size(); F.push_back(f); unsigned at = R.below(f.f.size()); for (unsigned k = 0; k < f.f.size(); k++) { if (k == at) emit(FE); emit(BYTE, f.f[k]); } emit(T15); polls(1, 2); emit(T35, idx); }
                else { int idx = emit_frame(f, 10, &ticks); polls(1, 2); emit(T35, idx); }
                polls(5, 6);
            }
            unsigned plan = R.below(100); bool last;
            if (plan < 10 && LC.timeout < 100) { // no response
                for (unsigned t = 0; t < LC.timeout + 2; t++) { emit(TICK); if (R.chance(70)) emit(POLL); }
                polls(3, 4); emit(CHECK, 1); last = true;
            } else {
                Frame f; f.fe = false;
                if (plan < 45) { f.f = gen_good(r); f.kind = -1; }
                else if (plan < 58) { f.f = gen_exc(r); f.kind = -1; }
                else if (plan < 72) { do f.f = gen_crcbad(r); while (f.f.size() > 30); f.kind = EK_CRC; }
                else if (plan < 86) { f.f = R.chance(70) ? gen_good(r) : gen_crcbad(r); f.fe = true; f.kind = EK_FRAME; }
                else { int g = 0; do f.f = gen_mismatch(r); while (f.f.size() > 30 && ++g < 200); f.kind = EK_ANY; }
                last = f.kind < 0;
                int idx = emit_frame(f, R.chance(50) ? 0 : 10, &ticks);
                if (!R.chance(15)) polls(1, 2);
                if (R.chance(30)) { emit(TICK); emit(POLL); }
                emit(T35, idx);
                if (R.chance(30)) { emit(TICK); }
                unsigned w2 = R.below(8);
                for (unsigned p = 0; p < 5; p++) { emit(POLL); if (p == w2 && !noise && (!last || i + 1 < nq)) { emit(TXQ); break; } }
                emit(SETTLE);
            }
            mix(plan);
            if (last) break;
        }
    }
    polls(3, 5);
    rsave = R;
}
void begin_master() { R = rsave; m_begin(); DM.sync_done = DM.spur = DM.stray15 = false; }
void start() { if (master) begin_master(); else begin_slave(); }
long logpos;
void finish(const char *how, size_t host, uint64_t point, int n) {
    if (!C.failed && master) {
        if (!MC.q.empty()) fail("lost-request", "%zu requests have not ended", MC.q.size());
        else { m_quiet_polls(4); }
    }
    if (C.failed) { char t[160]; snprintf(t, sizeof t, " [%s: event %zu of the script, point %llu, %d events]", how, host, (unsigned long long)point, n); C.msg += t; VLOG("%s", t); }
}
void restart_log() { if (g_logf) { fflush(g_logf); if (ftruncate(fileno(g_logf), logpos)) {} fseek(g_logf, logpos, SEEK_SET); } else if (C.logging) C.log.clear(); }
void body(bool m, bool multi) {
    if (!hooks_compiled_in()) return;
    master = m; S.clear(); F.clear(); Q.clear();
    if (g_logf) logpos = ftell(g_logf);
    if (m) gen_master(); else gen_slave();
    R2 = R; R2.next();
    denom = 0; start(); run(~0ull, 0, 0, true); finish("unmodified", 0, 0, 0);
    if (C.failed) return;
    uint64_t runs = 0; moved = 0;
    std::vector<size_t> hosts; uint64_t total = 0;
    for (size_t i = 0; i + 1 < S.size(); i++) if ((S[i].k == POLL || S[i].k == API) && isr(S[i + 1])) { hosts.push_back(i); total += npoints[i]; }
    if (multi) {
        static const unsigned D[] = {2, 6, 20, 80, 300};
        unsigned n = C.thorough ? 600 : 150;
        for (unsigned k = 0; k < n && !C.failed; k++) {
            restart_log();
            start(); denom = D[k % 5]; run(~0ull, 0, 0, false); denom = 0; finish("random interrupts", 0, k, 0); runs++;
        }
    } else {
        unsigned cap = C.thorough ? 100000 : 400;  // points per poll
        uint64_t budget = C.thorough ? 20000 : 1600;
        if (total > budget) cap = std::max<uint64_t>(8, std::min<uint64_t>(cap, budget / (hosts.size() + 1)));
        for (size_t h : hosts) {
            unsigned avail = 0; for (size_t j = h + 1; j < S.size() && isr(S[j]); j++) if (S[j].k != FE) avail++;
            uint64_t np = npoints[h];
            // every point, or beginning, end and a sample of the middle
            for (uint64_t q = 0; q < std::min<uint64_t>(np, cap) && !C.failed; q++) {
                uint64_t p = np <= cap ? q + 1 : q < cap / 3 ? q + 1 : q < 2 * cap / 3 ? np - (q - cap / 3) : 1 + R2.below(np);
                for (int n = 1; n <= (int)std::min(avail, 3u) && !C.failed; n++) {
                    if (n > 1 && R2.below(3)) continue;
                    restart_log();
                    start(); run(h, p, n, false); finish("interrupt", h, p, n); runs++;
                }
            }
            if (np <= cap) COUNT("polls enumerated at every point", 1); else COUNT("polls sampled", 1);
        }
    }
    COUNT("executions", runs); COUNT("events moved into a library function", moved);
    if (moved) C.nontrivial = true;
}
void slave_each() { body(false, false); }
void slave_multi() { body(false, true); }
void master_each() { body(true, false); }
void master_multi() { body(true, true); }

// ---- garbage with interrupts ----
bool has_byte, has_sil; 
uint64_t polls_seen; void count_poll() { polls_seen++; has_byte = has_sil = false; }
void garbage() {
    if (R2.below(denom)) return;
    Drv &d = master ? DM : DS; moved++;
    VLOG("   -- interrupt at point %llu", (unsigned long long)H.points);
    switch (R2.below(8)) {
    case 0: case 1: if (has_sil) break; has_byte = true; if (d.after15 || R2.below(10) == 0) d.fe(); d.byte(R2.chance(30) ? (master && !MC.q.empty() ? MC.q[0].id : SA.id) : R2.byte()); break;
    case 2: if (d.inframe && !has_byte && !has_sil) { has_sil = true; if (master) m_ev15(); else d.t15(); } break;
    case 3: if (d.after15 && !has_byte && !has_sil) { has_sil = true; if (master) m_ev35(); else d.t35(); } break;
    case 4: case 5: if (d.busy) d.txdone(); break;
    default: if (master) m_tick();
    }
}
uint64_t g_s;
void g_send(const uint8_t *, unsigned) { g_s++; }
void slave_garbage() {
    if (!hooks_compiled_in()) return;
    static const unsigned D[] = {3, 10, 40, 200};
    master = false; moved = 0; has_byte = has_sil = false;
    slave_layout(DENSE); SA.randomize_values(); slave_start(R.range(1, 247)); DS.spur = false;
    unsigned n = R.range(1, 3);
    while (n-- && !C.failed) {
        auto save = DS.on_send; DS.on_send = g_send; bool sd = DS.sync_done; DS.sync_done = false;
        R2 = R; R2.next(); denom = D[R.below(4)]; H.multi = true; H.fire = garbage; H.between = count_poll;
        s_soup(R.range(5, 120), R.below(5) * 12, false);
        H.multi = false; H.fire = nullptr; H.between = nullptr;
        s_soup(0, 0, true);
        SA.xbits = SA.bits; SA.xregs = SA.regs; DS.on_send = save; DS.sync_done = sd;
        COUNT("disturbances", 1);
        if (!C.failed) slave_xfer(R.chance(85) ? gen_valid() : gen_invalid());
    }
    COUNT("events moved into a library function", moved); mix(moved);
}
void master_garbage() {
    if (!hooks_compiled_in()) return;
    static const unsigned D[] = {3, 10, 40, 200};
    master = true; moved = 0; has_byte = has_sil = false;
    m_begin(); DM.spur = DM.stray15 = false; SA.id = R.byte();
    unsigned n = R.range(1, 3);
    while (n-- && !C.failed) {
        MC.relaxed = MC.lax = true;
        for (unsigned k = R.range(1, std::min(LC.queue, 4u)); k && !C.failed; k--) m_api(gen_req());
        R2 = R; R2.next(); denom = D[R.below(4)]; H.multi = true; H.fire = garbage; H.between = count_poll; H.api = true;
        m_soup(R.range(3, 50), R.below(5) * 15);
        H.multi = false; H.fire = nullptr; H.between = nullptr; H.api = false;
        if (C.failed || !m_soup_drain()) return;
        C.nontrivial = true; mix(MC.n_tmo << 40 ^ MC.n_comm << 20 ^ MC.n_ok);
        MC.relaxed = MC.lax = false; DM.inframe = DM.after15 = false; DM.quiet = true;
        COUNT("disturbances", 1);
        m_api(gen_req()); m_run({80, 10, 4, 2, 2, 0, 0, 0, 0}, 10); if (!C.failed && !MC.q.empty()) m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, 10);
    }
    COUNT("events moved into a library function", moved);
}
// noise right behind the longest responses, while the poll processes them: it wraps around to the start of the buffer
unsigned noise_left;
void fire_noise() { moved++; VLOG("   -- %u characters at point %llu", noise_left, (unsigned long long)H.points); while (noise_left) { noise_left--; if (R2.below(8) == 0) DM.fe(); DM.byte(R2.byte()); } }
void master_after() {
    if (!hooks_compiled_in()) return;
    master = true; moved = 0;
    m_begin(); DM.sync_done = DM.spur = DM.stray15 = false; R2 = R; R2.next();
    unsigned n = R.range(1, 3);
    while (n-- && !C.failed) {
        Req r = gen_req(R.chance(50) ? R.range(3, 4) : R.range(1, 2));
        r.qty = r.fc <= 2 ? R.range(1977, 2000) : R.range(124, 125); finish_req(r);
        MC.relaxed = MC.lax = true;
        m_api(r); if (R.chance(40)) m_api(gen_req());
        m_pump_sent(); DM.txdone(); m_poll(); m_poll();
        Bytes f = gen_good(r); for (uint8_t b : f) DM.byte(b);
        mixb(f.data(), 16);
        m_ev15(); if (R.chance(80)) { m_poll(); if (R.chance(50)) m_poll(); }
        m_ev35();
        for (unsigned k = R.below(3); k; k--) { // the noise comes in up to two polls
            noise_left = R.chance(50) ? R.range(1, 5) : R.range(1, 12);
            H.api = true; H.target = R.chance(60) ? R.range(1, 120) : R.range(1, 6000); H.fire = fire_noise;
            m_poll();
            H.api = false; H.target = 0; H.fire = nullptr;
        }
        if (C.failed || !m_soup_drain()) return;
        MC.relaxed = MC.lax = false; DM.inframe = DM.after15 = false; DM.quiet = true;
        m_run({80, 10, 4, 2, 2, 0, 0, 0, 0}, 2); if (!C.failed && !MC.q.empty()) m_run({100, 0, 0, 0, 0, 0, 0, 0, 0}, 10);
    }
    COUNT("events moved into a library function", moved); if (moved) C.nontrivial = true; mix(moved);
}
RegProp P04("X04", "A case is one generated script of calls and driver events (1-3 requests with retries, errors, foreign frames, timeouts, noise); modes *_each execute it once per point (memory access or branch of the library) inside every poll or request call that precedes an event, with 1-3 of the following events moved to that point; modes *_multi move events to random points everywhere; mode master_after puts noise into the poll that processes a response of maximal length; modes *_garbage let random events interrupt the polls during line garbage and then judge normal service; nontrivial: events were moved into library functions and the whole script was judged every time; distinct by hash of the script.",
    {{"slave_each", slave_each, 700, 6000, 10}, {"slave_multi", slave_multi, 1200, 20000, 20}, {"master_each", master_each, 500, 6000, 10}, {"master_multi", master_multi, 1000, 20000, 20}, {"slave_garbage", slave_garbage, 12000, 500000, 200}, {"master_garbage", master_garbage, 6000, 300000, 100}, {"master_after", master_after, 8000, 200000, 100}});
}
