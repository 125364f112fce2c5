// Slave: application memory, reference model of the Modbus slave, exchange driver.
#pragma once
#include "vh.hpp"

enum Tab { COILS = 0, DINS, IREGS, HREGS };
inline unsigned tab_size(int t) { return t == COILS ? LC.coils : t == DINS ? LC.dins : t == IREGS ? LC.iregs : LC.hregs; }

struct SlaveApp {
    // application variables: the real ones (registered with the library) and the expected values
    std::vector<uint8_t> bits, xbits;    // used as modbus_coil_disin_t objects
    std::vector<modbus_reg_t> regs, xregs;
    std::vector<int32_t> map[4];         // address -> variable (index into bits or regs), -1 none
    uint8_t id = 1;
    void setup(unsigned nbits, unsigned nregs);
    void reg(int tab, uint32_t adr, int32_t var); // through the library; outside the table: must have no effect
    void randomize_values();
    void app_writes(unsigned n);          // the application changes some of its variables
    bool check_memory(const char *when, const char *cls = "");  // all variables as expected; cls: class of the frame handled last
};
extern SlaveApp SA;

enum Layout { DENSE, SPARSE, HOLES, ALIASED, EMPTY };
void slave_layout(int layout);           // registers variables in all tables
void slave_start(uint8_t id, bool reuse_values = false); // init with random baud/parity; monitors attached

// ---- model ----
struct Expect {
    bool silent_ok = false;
    std::vector<Bytes> alts;             // acceptable response frames
    int wtab = -1;                       // write effect if the response is successful
    uint32_t wadr = 0; std::vector<uint16_t> wval;
    bool partial = false;                // 04 on a write: items of the range may have the old or the new value
    const char *what = "", *cls = "";     // cls: :valid :exc (invalid) :unreg :len (wrong length) :bad (to be ignored)
};
Expect slave_expect(const uint8_t *f, unsigned n, bool frame_error);
Bytes exc(uint8_t id, uint8_t fc, uint8_t code);

// ---- frames ----
Bytes rq_read(uint8_t id, uint8_t fc, uint16_t adr, uint16_t qty);
Bytes rq_write1(uint8_t id, uint8_t fc, uint16_t adr, uint16_t val);
Bytes rq_wcoils(uint8_t id, uint16_t adr, uint16_t qty, const uint8_t *bits, int bytecnt = -1);
Bytes rq_wregs(uint8_t id, uint16_t adr, uint16_t qty, const uint16_t *v, int bytecnt = -1);
Bytes gen_valid(int fc = 0);             // valid request for data inside the tables (registered or not)
Bytes gen_valid_at(int fc, uint16_t adr, uint16_t qty);
Bytes gen_invalid();                     // intact frame asking for something invalid
Bytes gen_badlen();                      // intact CRC, length contradicts the function
Bytes gen_foreign();                     // other slave's request or response
Bytes gen_damaged();                     // wrong CRC or too short
unsigned pick_qty(unsigned max);
unsigned pick_adr(unsigned size, unsigned qty);

// ---- exchange ----
struct XferOpt {
    bool fe = false;                     // the driver reports a character error within this frame
    int fe_pos = -1;                     // -1 random
    bool fe_between = false;             // a byte arrives between the 1.5 and 3.5 events (frame error by contract)
    bool gap_inside = false;             // 1.5 break inside the frame, rest follows (frame error by contract)
    bool noise_during_tx = false;
    bool late = false;                   // first poll after the frame only after the 3.5 event
    int txdone_delay = -1;               // polls before the end of transmission (-1 random)
    unsigned rep15 = 0, repfe = 0;       // further 1.5 character events in the silence / further errors of an erroneous character
    int dwell_at = -1; unsigned dwell = 0; // very many polls 0 within the frame, 1 between the silences, 2 while sending, 3 afterwards
};
// sends one frame to the slave and judges everything that happens until the line is idle again
void slave_xfer(const Bytes &f, const XferOpt &o);
void slave_xfer(const Bytes &f);
extern bool slave_meddle_reg;            // registrations may change in the middle of an exchange
extern unsigned slave_resp_seen;         // responses seen in the last exchange
extern Bytes slave_last_resp;
// line garbage (props_slave.cpp): bytes, breaks, silences and errors in any order a driver can report them
void s_soup(unsigned events, unsigned pollpct, bool close);
