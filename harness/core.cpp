#include "slave_eng.hpp"
Ctx C;
FILE *g_logf = nullptr; // replay: the log is written through
Hooks H;
Drv DM, DS;
bool slave_disable_null = true;

// ---- which part of the library is running ----
Where g_where = W_OUT;
bool g_watch = false;
static const char *where_name() { static const char *N[] = {"outside the library", "the master's poll", "the slave's poll", "an initialisation", "a request function", "a registration function", "a driver event", "the timeout tick"}; return N[g_where]; }
// the application's variables may not change outside the slave's poll
static std::vector<uint8_t> w_bits; static std::vector<modbus_reg_t> w_regs; static bool w_saved;
static bool w_data(Where w) { return w == W_EVENT || w == W_TICK || w == W_API || w == W_REG || w == W_POLL_M || w == W_INIT; }
// memory accesses and branches of the library so far (builds with hooks), and the most that any call may take: many
// times what the library needs for the longest messages, few for a wait
static uint64_t g_steps; static bool g_called;
bool g_meter = false; static char *g_top; static unsigned g_depth; // X09: where the stack of the running library function begins, and how much it used
static uint64_t max_steps(Where w) {
    switch (w) { case W_POLL_M: return g_called ? 2000000 : 150000; case W_POLL_S: case W_API: return 400000; case W_INIT: return 2000000; default: return 20000; }
}
In::In(Where w) : old(g_where), s0(g_steps), top(g_top), depth(g_depth) {
    g_where = w;
    g_top = (char *)__builtin_frame_address(0); g_depth = 0;
    if (!g_watch) return;
    if (w == W_POLL_M) g_called = false;
    static const int ids[] = {0, cnt_id("polls of the master watched"), cnt_id("polls of the slave watched"), cnt_id("initialisations watched"), cnt_id("request functions watched"), cnt_id("registrations watched"), cnt_id("driver events watched"), cnt_id("ticks watched")};
    cnt_add(ids[w], 1);
    if ((w == W_EVENT || w == W_TICK || w == W_API || w == W_REG) && old != W_OUT) COUNT("calls watched within another library function", 1);
    w_saved = w_data(w); if (w_saved) { w_bits = SA.bits; w_regs = SA.regs; }
}
In::~In() {
    if (g_meter) {
        if (g_depth > 2048) fail("stack", "%s used %u bytes of stack", where_name(), g_depth);
        COUNT("calls measured", 1);
        if (g_depth <= 256) COUNT("calls using up to 256 bytes of stack", 1); else if (g_depth <= 512) COUNT("calls using up to 512 bytes of stack", 1);
        else if (g_depth <= 1024) COUNT("calls using up to 1024 bytes of stack", 1); else COUNT("calls using more than 1024 bytes of stack", 1);
    }
    g_top = top; g_depth = depth;
    if (g_watch && w_data(g_where) && w_saved) {
        w_saved = false;
        if (w_bits != SA.bits || w_regs != SA.regs) fail("memory-outside-poll", "application variables were changed by %s", where_name());
    }
    if (g_watch && g_steps - s0 > max_steps(g_where)) fail("waits", "%s took %llu memory accesses and branches", where_name(), (unsigned long long)(g_steps - s0));
    g_where = old;
}
void watch_driver(bool slave, const char *what, bool init_ok) {
    if (!g_watch || g_where == (slave ? W_POLL_S : W_POLL_M) || (init_ok && g_where == W_INIT)) return;
    fail(init_ok ? "driver-outside-poll" : "send-outside-poll", "the %s's driver function %s was called by %s", slave ? "slave" : "master", what, where_name());
}
void watch_app(const char *what) { g_called = true; if (g_watch && g_where != W_POLL_M) fail("callback-outside-poll", "callback %s was called by %s", what, where_name()); }

void vlog_(const char *f, ...) {
    char b[2048];
    va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    if (g_logf) { fprintf(g_logf, "%s\n", b); fflush(g_logf); return; }
    if (C.log.size() < (1u << 20)) { C.log += b; C.log += '\n'; }
}
bool fail(const char *key, const char *f, ...) {
    if (C.failed && !C.excluded) return true;
    bool ex = scope_excludes(key);
    if (ex && C.failed) return true;
    if (ex && scope_soft(key)) { COUNT("deviations outside this property passed over", 1); return false; }
    char b[2048];
    va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    C.failed = true; C.excluded = ex; C.key = key; C.msg = b;
    VLOG("%s %s: %s", ex ? "DEVIATION OUTSIDE THIS PROPERTY" : "VIOLATION", key, b);
    return true;
}
std::string hex(const uint8_t *p, unsigned n) {
    std::string s; char t[4];
    for (unsigned i = 0; i < n; i++) { snprintf(t, sizeof t, "%02x", p[i]); s += t; }
    return s;
}
uint16_t ref_crc(const uint8_t *p, unsigned n) {
    uint16_t c = 0xFFFF;
    while (n--) {
        c ^= *p++;
        for (int i = 0; i < 8; i++) c = (c & 1) ? (c >> 1) ^ 0xA001 : c >> 1;
    }
    return c;
}

// ---- driver ----
void Drv::reset_sim() {
    Role r = role; auto os = on_send; auto ot = on_txdone;
    *this = Drv(); role = r; on_send = os; on_txdone = ot;
}
void Drv::check_tx() {
    if (busy && memcmp(txp, snap, txlen) != 0)
        fail("tx-buffer-changed", "%s: frame handed to send() changed during transmission: %s now %s", role == MASTER ? "master" : "slave", hex(snap, txlen).c_str(), hex(txp, txlen).c_str());
}
template <Role RL> static Drv &D() { return RL == MASTER ? DM : DS; }
template <Role RL> static void d_init(baud_t b, parity_t p) {
    Drv &d = D<RL>();
    watch_driver(RL == SLAVE, "init", true);
    d.inits++; d.baud = b; d.parity = p;
    d.busy = false; d.quiet = true; d.after15 = d.inframe = false;
    VLOG("  %s driver init(%u,%d)", RL == MASTER ? "M" : "S", (unsigned)b, (int)p);
}
template <Role RL> static void d_send(modbus_buf_t *m, modbus_buf_size_t n) {
    Drv &d = D<RL>();
    bool hk = H.on; H.on = false;
    watch_driver(RL == SLAVE, "send", false);
    VLOG("  %s send %s", RL == MASTER ? "M" : "S", hex(m, n).c_str());
    if (d.busy) fail("send-while-busy", "%s: send() while the previous transmission (%s) has not ended", RL == MASTER ? "master" : "slave", hex(d.snap, d.txlen).c_str());
    if (!m || n == 0) { fail("empty-send", "send() of an empty frame"); H.on = hk; return; }
    d.busy = true; d.txp = m; d.txlen = n; memcpy(d.snap, m, n); d.sends++;
    if (d.on_send) d.on_send(m, n);
    if (d.sync_done) d.txdone();
    H.on = hk;
}
template <Role RL> static void d_rxen(modbus_req_resp_t *b) { Drv &d = D<RL>(); watch_driver(RL == SLAVE, "enable_rcev", true); d.rx = b; d.rxen++; VLOG("  %s enable_rcev", RL == MASTER ? "M" : "S"); }
template <Role RL> static void d_rxdis(void) { Drv &d = D<RL>(); watch_driver(RL == SLAVE, "disable_rcev", true); d.rx = nullptr; VLOG("  %s disable_rcev", RL == MASTER ? "M" : "S"); }
template <Role RL> static void d_s15(driver_subscr_cb_t c) { D<RL>().c15 = c; D<RL>().subs15++; }
template <Role RL> static void d_stx(driver_subscr_cb_t c) { D<RL>().ctx = c; D<RL>().substx++; }
template <Role RL> static void d_s35(driver_subscr_cb_t c) { D<RL>().c35 = c; D<RL>().subs35++; }
template <Role RL> static void d_sfe(driver_subscr_cb_t c) { D<RL>().cfe = c; D<RL>().subsfe++; }
const modbus_RTU_driver_struct_t *drv_override[2]; // X06
static const modbus_RTU_driver_struct_t IM = {d_init<MASTER>, d_send<MASTER>, d_rxen<MASTER>, d_rxdis<MASTER>, d_s15<MASTER>, d_stx<MASTER>, d_s35<MASTER>, d_sfe<MASTER>};
static const modbus_RTU_driver_struct_t IS = {d_init<SLAVE>, d_send<SLAVE>, d_rxen<SLAVE>, d_rxdis<SLAVE>, d_s15<SLAVE>, d_stx<SLAVE>, d_s35<SLAVE>, d_sfe<SLAVE>};
static const modbus_RTU_driver_struct_t IS0 = {d_init<SLAVE>, d_send<SLAVE>, d_rxen<SLAVE>, nullptr, d_s15<SLAVE>, d_stx<SLAVE>, d_s35<SLAVE>, d_sfe<SLAVE>};
const modbus_RTU_driver_struct_t *drv_iface(Role r) { return r == MASTER ? &IM : &IS; }
extern "C" const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return drv_override[MASTER] ? drv_override[MASTER] : &IM; }
extern "C" const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return drv_override[SLAVE] ? drv_override[SLAVE] : slave_disable_null ? &IS0 : &IS; }

bool Drv::stray(unsigned pct) {
    if (!stray15 || !after_tx || !quiet || busy || !R.chance(pct)) return false;
    VLOG("  %s T1.5 without a character", role == MASTER ? "M" : "S"); COUNT("1.5 character events without a character", 1);
    ev15();
    return true;
}
void Drv::byte(uint8_t b) {
    after_tx = false;
    VLOG("  %s byte %02x", role == MASTER ? "M" : "S", b);
    quiet = false; inframe = true; after15 = false;
    if (rx && rx->data) rx->data[rx->len++] = b;
    if (spur && !busy) evtx();
}
void Drv::t15() { VLOG("  %s T1.5", role == MASTER ? "M" : "S"); inframe = false; after15 = true; if (spur && !busy) evtx(); ev15(); }
void Drv::t35() { VLOG("  %s T3.5", role == MASTER ? "M" : "S"); quiet = true; after15 = false; ev35(); }
void Drv::fe() { VLOG("  %s frame error", role == MASTER ? "M" : "S"); evfe(); }
void Drv::txdone() {
    if (!busy) return;
    check_tx();
    VLOG("  %s tx done", role == MASTER ? "M" : "S");
    busy = false; txdones++;
    if (on_txdone) on_txdone();
    evtx();
    after_tx = true;
}

// ---- polls ----
bool log_polls = true;
void poll_slave() {
    if (H.between) H.between();
    if (log_polls) VLOG("  S poll");
    H.points = 0; H.on = true;
    { In w(W_POLL_S); check_modbus_request(); }
    H.on = false;
    DS.check_tx();
}
void poll_master() {
    if (H.between) H.between();
    if (log_polls) VLOG("  M poll");
    H.points = 0; H.on = true;
    { In w(W_POLL_M); update_modbus_master_manager(); }
    H.on = false;
    DM.check_tx();
}
void __attribute__((used)) vh_hook_point() {
    g_steps++;
    if (g_meter) { size_t d = g_top - (char *)__builtin_frame_address(0); if (d > g_depth && d < (1u << 24)) g_depth = d; }
    if (!H.on) return;
    H.points++;
    if ((H.multi || (H.target && H.points == H.target)) && H.fire) {
        H.on = false; H.fired = true;
        H.fire();
        H.on = true;
    }
}
std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
const Mode *find_mode(const char *prop, const char *mode) {
    for (auto &p : props()) if (!strcmp(p.id, prop)) for (auto &m : p.modes) if (!strcmp(m.name, mode)) return &m;
    fprintf(stderr, "no mode %s of %s\n", mode, prop); abort();
}
