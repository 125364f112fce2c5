// Core of the monitoring harness: random numbers, event log, violation recording, coverage counters,
// reference CRC, simulated driver. Everything observes the library through its public interface only.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <deque>
#include <algorithm>
extern "C" {
#include "modbus_public_type.h"
#include "modbus_driver_interface.h"
#include "modbus_master.h"
#include "modbus_slave.h"
#include "modbus_master_data_interface.h"
}

// ---- configuration the library was compiled with (cfg.cpp is compiled per configuration) ----
struct LibCfg { unsigned queue, retries, timeout, coils, dins, iregs, hregs; };
extern const LibCfg LC;

// ---- random numbers ----
// numbers that occur in the compiled library (check.py extracts them): generators prefer them a little
extern "C" const unsigned short vh_consts[]; extern "C" const unsigned vh_nconsts;
struct Rng {
    uint64_t s = 1;
    unsigned konst(uint64_t v) {
        unsigned c = vh_consts[(v >> 20) % vh_nconsts], d = v >> 60;
        return d < 9 ? c : d < 11 ? c + 1 : d < 13 ? c - 1 : d < 14 ? (c << 8 | c >> 8) & 0xFFFF : d < 15 ? c * 2 : c / 2;
    }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    unsigned below(unsigned n) { return n ? (unsigned)((next() >> 32) * (uint64_t)n >> 32) : 0; }
    unsigned range(unsigned a, unsigned b) { // inclusive
        if (b - a >= 24 && b > a && vh_nconsts) { uint64_t v = next(); if ((v & 15) == 0) { unsigned c = konst(v); if (c >= a && c <= b) return c; } }
        return a + below(b - a + 1);
    }
    bool chance(unsigned pct) { return below(100) < pct; }
    uint8_t byte() { uint64_t v = next(); return (v & 31) == 0 && vh_nconsts ? (uint8_t)konst(v) : (uint8_t)(v >> 40); }
    uint16_t u16() { uint64_t v = next(); return (v & 15) == 0 && vh_nconsts ? (uint16_t)konst(v) : (uint16_t)(v >> 40); }
};

// ---- context of the running case ----
void crash_where(const char *w);
struct Ctx {
    Rng rng;
    uint64_t seed, index;      // seed of the run, index of the case within its mode
    bool thorough;
    bool logging = false;
    std::string log;
    bool failed = false;                 // the case has ended with a deviation
    bool excluded = false;               // ... that is not this property's business
    std::string key, msg;
    uint64_t digest;
    bool nontrivial;
    volatile bool in_case = false;
};
extern Ctx C;
#define R C.rng

__attribute__((format(printf, 1, 2))) void vlog_(const char *f, ...);
#define VLOG(...) do { if (__builtin_expect(C.logging, 0)) vlog_(__VA_ARGS__); } while (0)
// records the first deviation of a case; false: it is another property's business and the case can go on
__attribute__((format(printf, 2, 3))) bool fail(const char *key, const char *f, ...);
void scope_set(const char *prop);
bool scope_excludes(const char *key);
bool scope_soft(const char *key);
inline void mix(uint64_t v) { C.digest = (C.digest ^ v) * 0x100000001B3ull; C.digest ^= C.digest >> 29; }
inline void mixb(const uint8_t *p, unsigned n) { for (unsigned i = 0; i < n; i++) mix(p[i]); }
std::string hex(const uint8_t *p, unsigned n);

int cnt_id(const char *name);
void cnt_add(int id, uint64_t n);
#define COUNT(name, n) do { static int id_ = cnt_id(name); cnt_add(id_, n); } while (0)

// length of a session: rarely one that passes every 8 bit counter
inline unsigned sess(unsigned a, unsigned b) { unsigned n = C.rng.range(a, b); return C.rng.below(200) == 0 ? n * 80 : n; }

// ---- CRC-16/MODBUS, bit by bit ----
uint16_t ref_crc(const uint8_t *p, unsigned n);
typedef std::vector<uint8_t> Bytes;
inline void put_crc(Bytes &b) { uint16_t c = ref_crc(b.data(), b.size()); b.push_back(c & 255); b.push_back(c >> 8); }
inline bool crc_ok(const uint8_t *p, unsigned n) { return n >= 2 && ref_crc(p, n - 2) == (p[n - 2] | p[n - 1] << 8); }

// ---- which part of the library is running (X07) ----
enum Where { W_OUT, W_POLL_M, W_POLL_S, W_INIT, W_API, W_REG, W_EVENT, W_TICK };
extern Where g_where;
extern bool g_watch;                     // judge what is called from where
void watch_app(const char *what);
extern bool g_meter;                     // measure the stack used by library functions
struct In { Where old; uint64_t s0; char *top; unsigned depth; In(Where w); ~In(); };

// ---- simulated driver of one role ----
enum Role { MASTER = 0, SLAVE = 1 };
struct Drv {
    Role role;
    driver_subscr_cb_t c15 = nullptr, ctx = nullptr, c35 = nullptr, cfe = nullptr;
    modbus_req_resp_t *rx = nullptr;
    int inits = 0, subs15 = 0, subs35 = 0, substx = 0, subsfe = 0, rxen = 0;
    baud_t baud = 0; parity_t parity = NONE;
    int init_order_err = 0;
    // transmission
    bool busy = false;
    const uint8_t *txp = nullptr;
    unsigned txlen = 0;
    uint8_t snap[256];
    uint64_t sends = 0, txdones = 0;
    bool sync_done = false;              // report the end of transmission from inside send()
    bool spur = false;                   // reports the end of transmission with every byte and break too (as the reference driver does)
    bool stray15 = false;                // 1.5 character events without a character after a transmission (as the reference master driver raises them)
    // line state
    bool after_tx = false;               // nothing received since the last transmission ended
    bool quiet = true;                   // no byte since the last 3.5 character event
    bool after15 = false;                // 1.5 event raised, 3.5 not yet
    bool inframe = false;                // bytes since the last 1.5 event
    void (*on_send)(const uint8_t *, unsigned) = nullptr; // checker
    void (*on_txdone)() = nullptr;

    void ev15() { if (c15) { In w(W_EVENT); c15(); } }
    void ev35() { if (c35) { In w(W_EVENT); c35(); } }
    void evtx() { if (ctx) { In w(W_EVENT); ctx(); } }
    void evfe() { if (cfe) { In w(W_EVENT); cfe(); } }
    void reset_sim();
    void check_tx();                     // transmit buffer unchanged
    // events (called by the workload)
    bool stray(unsigned pct);
    void byte(uint8_t b);
    void t15();
    void t35();
    void fe();
    void txdone();
};
extern Drv DM, DS;
extern bool slave_disable_null;          // the slave driver offers no disable_rcev (as the STM32 example)
const modbus_RTU_driver_struct_t *drv_iface(Role r);

// ---- preemption hooks (only active in the hooked build) ----
extern "C" void vh_hook_point();
struct Hooks {
    bool on = false;          // inside a monitored library call
    uint64_t points = 0;      // points passed in the current call
    uint64_t target = 0;      // fire before passing this point (1-based), 0 = never
    void (*fire)() = nullptr;
    bool fired = false;
    bool multi = false;       // fire called at every point (decides itself)
    bool api = false;         // request functions are monitored as well
    void (*between)() = nullptr; // called before every poll
};
extern Hooks H;
bool hooks_compiled_in();

extern bool log_polls;
// polls: all polls of the workloads go through these
void poll_slave();
void poll_master();
inline void tick() { In w(W_TICK); update_modbus_master_timout_timer(); }

// ---- properties ----
struct Mode { const char *name; void (*fn)(); uint64_t quick, thorough; unsigned chunk; };
const Mode *find_mode(const char *prop, const char *mode);
struct Prop { const char *id; std::vector<Mode> modes; const char *rule; };
std::vector<Prop> &props();
struct RegProp { RegProp(const char *id, const char *rule, std::vector<Mode> m) { props().push_back({id, m, rule}); } };
