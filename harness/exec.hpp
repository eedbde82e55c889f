// Line simulation: drives slave frames and master transactions with scheduled polls, ticks and interrupts.
#pragma once
#include "model.hpp"

struct Sched {
    Bytes key, fine;     // choices at frame-level and byte-level events; exhausted = 0 = plain
    uint32_t scale = 1;  // spread of interrupt positions
    bool isr = false;    // events may interrupt library calls
    size_t ki = 0, fi = 0;
    uint8_t k() { return ki < key.size() ? key[ki++] : 0; }
    uint8_t f() { return fi < fine.size() ? fine[fi++] : 0; }
    void rewind() { ki = fi = 0; }
};
inline Sched gen_sched(Src &s, bool isr, uint32_t maxkey = 40) {
    Sched c;
    uint32_t n = s.weighted({3, 4, 3}) ;
    n = n == 0 ? 0 : n == 1 ? s.range(0, 8) : s.range(0, maxkey);
    for (uint32_t i = 0; i < n; i++) c.key.push_back((uint8_t)s.pick(256));
    n = s.chance(40) ? s.range(0, 16) : 0;
    for (uint32_t i = 0; i < n; i++) c.fine.push_back((uint8_t)s.pick(256));
    c.isr = isr;
    if (isr) { static const uint32_t sc[] = {1, 2, 4, 16, 50}; c.scale = sc[s.pick(5)]; }
    return c;
}

struct Line {
    int role;
    Sched *sc;
    std::vector<Inj> pend;
    std::function<void()> after_poll;
    std::function<uint32_t(uint32_t)> tick_max;  // how many of these ticks may pass (and accounts for them)
    uint64_t polls = 0;
    Line(int r, Sched *s) : role(r), sc(s) {}
    void poll() {
        op_poll(role, &pend);
        polls++;
        if (after_poll) after_poll();
    }
    void flush() { while (!pend.empty()) poll(); }
    void ev(uint8_t k, uint8_t v = 0, bool fine = false) {
        uint8_t c = 0;
        if (sc->isr) c = fine ? sc->f() : sc->k();
        if (c & 3) {
            pend.push_back({(uint8_t)role, k, v, (uint32_t)(c >> 2) * sc->scale});
            return;
        }
        flush();
        op_ev(role, k, v);
    }
    void tick(uint32_t n = 1) {
        op_ticks(tick_max ? tick_max(n) : n);
    }
    uint8_t breathe() {
        uint8_t c = sc->k();
        switch (c & 7) {
        case 0: poll(); break;
        case 1: break;
        case 2: poll(); poll(); break;
        case 3: poll(); poll(); poll(); break;
        case 4: if (role == M) tick(); poll(); break;
        case 5: poll(); if (role == M) tick(); poll(); break;
        case 6: if (role == M) tick(1 + (c >> 5)); break;
        default: poll(); poll(); poll(); poll(); break;
        }
        return c;
    }
    // drivers may report T1.5 again until T3.5 is over (the shipped slave driver keeps the interrupt pending)
    void t15_again(uint8_t c) {
        if ((c & 0x18) != 0x18) return;
        ev(O_T15);
        breathe();
    }
    void fine(bool gapped = false) {
        uint8_t c = sc->f();
        if (gapped && (c & 0xC0) == 0xC0) ev(O_T15);
        if ((c & 3) == 3) poll();
        if ((c & 12) == 12) poll();
        if (role == M && (c & 48) == 48) tick();
    }
};

// ------------------------------------------------------------------ slave side
enum : uint32_t { RXERR = 0x80000000u };
struct Frame {
    Bytes b;
    std::vector<uint32_t> gaps; // silence between T1.5 and T3.5 before byte i (i >= 1); RXERR | i: the driver reports byte i as damaged
    const char *kind = "";
    Bytes txnoise;              // bytes received while the reply is transmitted
    uint32_t txrep = 1;         // so many times
    std::vector<uint32_t> txgaps;
    uint32_t txcut = 0;         // > 0: the reply ends before byte txcut of the last noise / before its T1.5 (n), its T3.5 (n + 1, n + 2)
    std::vector<std::pair<uint32_t, Op>> mid; // done by the application before byte i / (i - length): 0 before T1.5, 1, 2 after it, 3 after T3.5
    std::string str() const;
};
struct SlaveLine {
    Line ln;
    Sched &sc;
    explicit SlaveLine(Sched &s) : ln(S, &s), sc(s) {}
    uint32_t hold = 0;          // polls between T1.5 and T3.5
    std::vector<Ev> feed(const Frame &f);   // everything the slave sent
    void raw(const Bytes &b, const std::vector<uint32_t> &gaps, const std::vector<std::pair<uint32_t, Op>> *mid = nullptr);
    void finish_tx();
};

struct Window { int tab; uint32_t start, len; };
struct SlaveCase {
    SlaveModel m;
    std::vector<Window> win;
    uint32_t seed = 1, fill = 0;
    uint32_t baud = 9600;
    int parity = 0;
    std::vector<std::array<uint32_t, 3>> regs; // tab, adr, var
    uint32_t late = 0;         // so many of the items (the last ones) are registered after the initialisation
    uint32_t bits = 0, words = 0;
    uint8_t id = 1;
    bool relate = false;       // some frames are made from the one before
    Bytes prev;
    void generate(Src &s, uint32_t maxwin = 2000);
    void setup();              // registers, fills, initialises
    void fill_vars();
    void remap(Src &s);        // registers one address anew, with another variable
    bool remap_op(Src &s, Op &o) const; // the operation that does so
    void apply(const Op &o);   // effect of a registration or an application write on the model
    const Window *pick_win(Src &s, int tab) const;
};
Frame gen_frame(Src &s, SlaveCase &c, const uint32_t w[12]);
uint32_t gen_gap(Src &s, size_t n);
void gen_cut(Src &s, const Bytes &b, int own, std::vector<uint32_t> &gaps, uint32_t &cut);
enum { G_READ, G_WRITE, G_UNSUP, G_VALUE, G_ADDR, G_UNREG, G_FOREIGN, G_BADCRC, G_GAP, G_SHORT, G_NOISE, G_OVER };
bool is_registered(int tab, uint32_t adr, uint32_t n);
Req gen_valid_req(Src &s, SlaveCase &c, bool rd);

// ------------------------------------------------------------------ master side
struct Seg {                 // one frame on the line towards the master
    Bytes b;
    std::vector<uint32_t> gaps;
    uint32_t delay = 0;      // ticks before
    bool foreign = false;
};
enum AK { A_GOOD, A_EXC, A_SILENT, A_CRC, A_GAP, A_MIS, A_LATE, A_FREE };
static const char *AKN[] = {"good", "exception", "silent", "crc-damaged", "gap", "mismatch", "late", "free"};
struct Att {
    AK kind = A_GOOD;
    std::vector<Seg> segs;
    std::vector<Ev> evs;     // what a proper answer delivers
    const char *sub = "";
    bool hard = false;       // CRC damage guaranteed detected
};
struct Item {
    Req r;
    std::vector<Att> att;    // one per transmission, last one repeats
    uint32_t after = 0;      // issued when this many requests have ended
    uint8_t mid = 0;         // 0: at once, 1: while the current request is sent, 2: before its answer, 3: inside the answer, 4: after it
    bool incb = false;       // issued from inside the first callback of that outcome
    bool illegal = false;
    std::vector<Seg> idle_noise; // before the request is issued (only when nothing is outstanding)
    Bytes tx_noise;          // bytes seen while the request is transmitted
    uint32_t tx_rep = 1;     // so many times
    std::vector<uint32_t> tx_gaps;
    uint32_t tx_cut = 0;     // as Frame::txcut
};
struct Res {
    bool issued = false, ended = false, hung = false, vanished = false, maybe_full = false;
    int ret = -1, want = -1;
    std::vector<Bytes> sends;
    std::vector<Ev> out;
    uint64_t tmo_txdone = 0, tmo_obs = 0;   // ticks at the timeout report since tx-done / since the poll after it
    unsigned late_polls = 0;                // polls later than the time limit that did not end the request
    size_t order = 0;
    std::vector<uint64_t> ticks_to_end;
};
struct MasterRun {
    std::vector<Item> *items;
    Sched &sc;
    Line ln;
    std::vector<Res> res;
    std::deque<int> fifo;        // accepted, not ended
    int cur = -1;
    size_t scanned = 0;
    uint32_t ended = 0;
    int nest = 0;
    uint64_t since_tx = 0, since_obs = 0;
    bool obs = true, txd = false;
    uint64_t last_tick_total = 0;
    unsigned stray_send = 0, stray_cb = 0;
    std::string stray;
    uint32_t answer_limit = 0;   // ticks that may pass before the answer is complete
    bool in_answer = false;
    bool own_frame = false;
    bool stop = false;
    bool resend_seen = false;
    std::function<Bytes(const Bytes &)> remote;   // when set: the real peer
    MasterRun(std::vector<Item> *it, Sched &s);
    void run();
    void scan();
    void issue_due(int stage);
    bool active() const { return cur >= 0 && !res[(size_t)cur].ended; }
    bool need_tx = false;
    bool progress() const { return need_tx || !active() || stop; }
    void end_cur();
    unsigned polls_since_tx = 0;
    uint32_t split_rest = 0;
    void do_issue(size_t i, bool from_cb);
    void tx_done();
    void transmit();
    void answer(const Att &a);
    void seg(const Seg &g);
    void await();
    bool over() const;
    void ticks(uint32_t n);
    void note(Ctx &c);
};
// outcome predicted for an item whose behaviours are all of determinate kind
struct Outcome2 {
    int kind = 0;               // 0 delivered/exception, 1 timeout, 2 comm error, 3 indeterminate
    std::vector<Ev> evs;
    unsigned sends = 1;
    uint8_t err = 0;
};
Outcome2 predict(const Item &it);
void master_noise(Sched &sc, const Seg &g);  // bytes on the line towards the idle master
Att gen_att(Src &s, const Req &r, AK k, uint32_t foreign_pct = 0);
Seg gen_foreign(Src &s, const Req &r);
std::string out_str(const std::vector<Ev> &v, size_t max = 6);
// CRC damage guaranteed to be detected, leaving the first `keep` bytes alone
void damage(Src &s, Bytes &b, uint32_t keep, std::string *what = nullptr);
