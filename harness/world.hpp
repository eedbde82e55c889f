// The world around the library: driver simulation, application callbacks, operations, traces.
#pragma once
#include "engine.hpp"
#include <deque>
#include <memory>
#include <array>
#include <algorithm>
extern "C" {
#include "modbus_public_type.h"
#include "modbus_driver_interface.h"
}

typedef std::vector<uint8_t> Bytes;
enum Role { M = 0, S = 1 };
enum Tab { COIL = 0, DIN = 1, HREG = 2, INREG = 3 };

struct Cfg { uint32_t size[4]; uint32_t queue, timeout, repeat; };
extern Cfg cfg;

// what the library did, as seen from outside
struct Ev {
    enum K : uint8_t { SEND, RD, WR, EXC, TMO, COMM, API, INIT, RXEN } k = SEND;
    uint8_t tab = 0, slave = 0, fc = 0, code = 0;
    uint16_t adr = 0, qty = 0;
    uint32_t val = 0;
    Bytes bytes;
    bool quiet = false;   // slave SEND: 3.5 characters of silence were reported since the last byte
    bool operator==(const Ev &o) const {
        return k == o.k && tab == o.tab && slave == o.slave && fc == o.fc && code == o.code && adr == o.adr && qty == o.qty && val == o.val && bytes == o.bytes;
    }
    bool operator!=(const Ev &o) const { return !(*this == o); }
    std::string str() const;
};
std::string hex(const Bytes &b, size_t max = 40);
extern std::vector<Ev> tr[2];
extern const char *tabname[4];

struct Port {
    uint32_t baud = 0;
    int parity = -1;
    unsigned inits = 0;
    void (*t15)(void) = nullptr;
    void (*t35)(void) = nullptr;
    void (*txdone)(void) = nullptr;
    void (*ferr)(void) = nullptr;
    modbus_req_resp_t *rx = nullptr;
    bool busy = false;
    bool sync = false;          // driver that completes the transmission inside send()
    const uint8_t *txp = nullptr;
    Bytes tx;
    bool quiet = false;
    uint32_t rxcount = 0;       // bytes since the last time the library emptied the buffer (informative)
    // contract violations of the library seen by the driver
    unsigned send_while_busy = 0;
    unsigned tx_changed = 0;
    unsigned bad_len = 0;
};
extern Port port[2];
extern std::function<void(const Ev &)> on_cb;   // master application callback hook

enum OpK : uint8_t { O_INIT, O_API, O_POLL, O_TICK, O_TXDONE, O_RX, O_T15, O_T35, O_FERR, O_REG, O_APPW };
struct Req {
    uint8_t fc = 3, slave = 1;
    uint16_t adr = 0, qty = 1;
    uint16_t sval = 0;               // single write value (coil: 0/1)
    std::vector<uint16_t> vals;      // multiple write values (coils: 0/1)
};
struct Inj { uint8_t role, k, v; uint32_t after; };
struct Op {
    uint8_t role = 0, k = 0, v = 0;
    uint32_t a = 0, b = 0, c = 0;    // INIT: baud, parity, id   REG: table, adr, var   APPW: isreg, var, value   TICK: count (0 = 1)
    std::shared_ptr<Req> req;        // API
    std::vector<Inj> inj;            // POLL/API: events that interrupt the call
    std::string str() const;
};
extern std::vector<Op> *rec_ops;     // when set, every operation is appended
int do_op(const Op &o);              // returns API result

// shorthands
void op_init_m(uint32_t baud = 9600, int parity = 0, bool unsupported = false);
void op_init_s(uint8_t id, uint32_t baud = 9600, int parity = 0, bool unsupported = false);
int op_api(const Req &r);
void op_ev(int role, uint8_t k, uint8_t v = 0);     // line event or tick, outside any call
void op_ticks(uint32_t n);                          // n ticks of the master's timer
void op_poll(int role, std::vector<Inj> *inj = nullptr);
constexpr uint32_t NOVAR = 0xFFFFFFFF;  // NULL: the item is taken away
void op_reg(int tab, uint32_t adr, uint32_t var);
void op_appw(int isreg, uint32_t var, uint32_t val);
extern uint64_t isr_fired;

// application variables of the slave
extern bool *abit;
extern uint16_t *areg;
extern uint32_t nbit, nreg;
void app_alloc(uint32_t bits, uint32_t regs);

// work done outside the role's own poll function: transmissions, callbacks and (watch_app) changes of application data
extern unsigned off_poll;
extern unsigned caller_changed; // calls that changed the data the caller handed over
extern std::string off_poll_what;
extern bool watch_app;

uint64_t edges_last_call();
