// Master: requests, online checker of the master's trace specification, scenario building blocks.
#pragma once
#include "slave_eng.hpp"

struct Req {
    uint8_t fc = 0, id = 0;
    uint16_t adr = 0, qty = 0;           // qty as passed to the API
    std::vector<uint16_t> vals;          // values to write
    uint16_t rqty = 0;                   // quantity in reports (1 for single writes)
    Bytes adu;                           // reference frame
};
bool is_read(int fc);
unsigned max_qty(int fc);
bool valid_qty(const Req &r);
void finish_req(Req &r);                 // computes rqty and adu
Req gen_req(int fc = 0, int id = 0);     // valid request
Req gen_refused();                       // quantity out of limits

enum CbK { K_COILRD, K_DINRD, K_HREGRD, K_IREGRD, K_COILWR, K_HREGWR, K_COILEX, K_DINEX, K_HREGEX, K_IREGEX, K_TMO, K_COMM };
struct Cb {
    int k; uint8_t id; uint16_t adr; uint32_t v; // v: value or quantity
    uint32_t fc, code;                           // reports only; code: exception code or kind of error
    bool operator==(const Cb &o) const { return k == o.k && id == o.id && adr == o.adr && v == o.v && fc == o.fc && code == o.code; }
};
std::string cb_str(const Cb &c);
enum ErrKind { EK_CRC = 0, EK_FRAME = 2, EK_ANY = 9 };

// A response frame decoded against a request: returns false if it does not answer it.
bool acceptable(const Req &r, const uint8_t *f, unsigned n);
std::vector<Cb> outcome_of(const Req &r, const uint8_t *f, unsigned n); // of an acceptable frame

struct MasterCheck {
    enum St { IDLE, TX, WAIT, DUE } st = IDLE;
    std::deque<Req> q;                   // accepted and unfinished, q[0] may be running
    unsigned attempts = 0;               // transmissions of q[0]
    Bytes last;                          // frame of the request that ended last
    bool due_retry = false; std::vector<Cb> due; size_t pos = 0; int errkind = 0; // DUE: what must happen next
    uint64_t ticks_tx = 0, ticks_seen = 0; bool seen = false; // ticks since the end of the transmission / since the first poll after it
    bool in_api = false, in_poll = false, in_cb = false;
    unsigned polls35 = 0;                // polls since the last 3.5 character event
    bool lax = false;                    // relaxed, and the contents of deliveries are not judged
    bool relaxed = false; bool t15_since = false; Bytes snap15; std::vector<Cb> grp; size_t gpos = 0; // relaxed
    uint64_t n_out = 0, n_tmo = 0, n_comm = 0, n_exc = 0, n_ok = 0, n_retry = 0, n_acc = 0;
    void (*cb_hook)() = nullptr;         // application code inside the callbacks
    void (*sink)(const Cb &) = nullptr;  // every callback, after checking
    bool idle() const { return st == IDLE; }
    void finish();
    void good(const uint8_t *f, unsigned n); // an answer has been received completely
    void bad(int kind);                      // a failed attempt has been received completely
};
extern MasterCheck MC;

void m_begin(bool checks = true);        // (re-)initialises the master with random speed and parity
void m_begin_at(baud_t b, parity_t p);
int m_api(const Req &r);                 // request through the library; judged against the queue model
void m_poll();
void m_tick();
Req &cur();

struct DeliverOpt {
    int fe_at = -1;                      // the driver reports a character error at this byte
    bool late_byte = false;              // a byte arrives between the 1.5 and 3.5 events (frame error by contract)
    int gap_at = -1;                     // 1.5 break before this byte (frame error by contract)
    bool late = false;                   // no poll between the two silence events
    bool polls_inside = false;
    unsigned ticks_after15 = 0;
};
bool m_pump_sent();                      // polls until the next request is being transmitted
bool m_tx(bool noise, bool calls);       // the transmission phase of the current request up to its end
void m_foreign(unsigned n);              // frames of other slaves while waiting
bool m_deliver(const Bytes &f, const DeliverOpt &o, int bad_kind /* -1: good */); // a frame of the addressed slave and its consequence
bool m_silence();                        // no response: ticks and polls until the timeout report
bool m_settle();                         // polls until nothing is due
bool m_quiet_polls(unsigned n);
enum Plan { P_GOOD, P_EXC, P_CRC, P_FE, P_MISMATCH, P_SILENCE };
struct Mix { unsigned good, exc, crc, fe, mismatch, silence, foreign, noise, calls; };
bool m_attempt(int plan, const Mix &mx); // transmission phase + response phase of one attempt
bool m_run(const Mix &mx, unsigned maxreq); // until the queue is empty
bool m_drain();                          // bounded: every request of the queue ends although nothing is received
Bytes gen_good(const Req &r);
Bytes gen_exc(const Req &r, int code = -1);
Bytes gen_crcbad(const Req &r);
Bytes gen_mismatch(const Req &r);
Bytes gen_foreign_resp(uint8_t notid);
// line garbage (props_master.cpp)
void m_soup(unsigned events, unsigned pollpct);
bool m_soup_drain();
void m_ev15();
void m_ev35();
