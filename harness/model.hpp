// Independent model: CRC, frame encoders, reference slave, expected master outcomes.
#pragma once
#include "world.hpp"

inline uint16_t crc16(const uint8_t *d, size_t n) { // bitwise CRC-16/MODBUS
    uint16_t c = 0xFFFF;
    for (size_t i = 0; i < n; i++) {
        c ^= d[i];
        for (int k = 0; k < 8; k++) c = (c & 1) ? (uint16_t)((c >> 1) ^ 0xA001) : (uint16_t)(c >> 1);
    }
    return c;
}
inline Bytes with_crc(Bytes b) {
    uint16_t c = crc16(b.data(), b.size());
    b.push_back(c & 255);
    b.push_back(c >> 8);
    return b;
}
// makes the two bytes at a position of the frame body give a chosen checksum
inline void solve_at(Bytes &b, size_t pos, uint16_t target) {
    if (pos + 2 > b.size()) return;
    uint16_t t = target;
    auto back = [&] { for (int k = 0; k < 8; k++) t = (t & 0x8000) ? (uint16_t)((uint16_t)(t ^ 0xA001) << 1 | 1) : (uint16_t)(t << 1); };
    for (size_t i = b.size(); i > pos + 2; i--) { back(); t ^= b[i - 1]; }
    back();
    back();
    uint16_t m = (uint16_t)(crc16(b.data(), pos) ^ t);
    b[pos] = (uint8_t)m;
    b[pos + 1] = (uint8_t)(m >> 8);
}
inline void solve_tail(Bytes &b, uint16_t target) { if (b.size() >= 2) solve_at(b, b.size() - 2, target); }
inline uint16_t special_crc(Src &s) {
    uint8_t x = s.byte();
    switch (s.pick(8)) {
    case 0: return 0;
    case 1: return 0xFFFF;
    case 2: return (uint16_t)(x << 8);
    case 3: return x;
    case 4: return (uint16_t)(0xFF00 | x);
    case 5: return (uint16_t)(x << 8 | 0xFF);
    case 6: return (uint16_t)(x << 8 | x);
    default: return (uint16_t)(x * 0x101 ^ 0x0100);
    }
}
inline bool crc_ok(const Bytes &b) { return b.size() >= 3 && crc16(b.data(), b.size() - 2) == (uint16_t)(b[b.size() - 2] | b[b.size() - 1] << 8); }
inline unsigned be16(const Bytes &b, size_t i) { return (unsigned)b[i] << 8 | b[i + 1]; }
inline void put16(Bytes &b, unsigned v) { b.push_back((uint8_t)(v >> 8)); b.push_back((uint8_t)v); }
inline unsigned maxqty(unsigned fc) { return fc <= 2 ? 2000 : fc <= 4 ? 125 : fc == 15 ? 1968 : fc == 16 ? 123 : 1; }
inline bool is_read(unsigned fc) { return fc >= 1 && fc <= 4; }
inline bool is_multi(unsigned fc) { return fc == 15 || fc == 16; }
inline bool is_single(unsigned fc) { return fc == 5 || fc == 6; }
inline bool known_fc(unsigned fc) { return is_read(fc) || is_multi(fc) || is_single(fc); }
inline bool bit_fc(unsigned fc) { return fc == 1 || fc == 2 || fc == 5 || fc == 15; }
inline int fc_tab(unsigned fc) {
    switch (fc) {
    case 1: case 5: case 15: return COIL;
    case 2: return DIN;
    case 4: return INREG;
    default: return HREG;
    }
}
static const uint8_t FCS[8] = {3, 1, 6, 5, 16, 15, 4, 2};
inline unsigned field2(const Req &r) { return r.fc == 5 ? (r.sval ? 0xFF00 : 0) : r.fc == 6 ? r.sval : r.qty; }

// request frame
inline Bytes enc(const Req &r) {
    Bytes b{r.slave, r.fc};
    put16(b, r.adr);
    put16(b, field2(r));
    if (r.fc == 15) {
        unsigned n = (r.qty + 7) / 8;
        b.push_back((uint8_t)n);
        Bytes d(n, 0);
        for (unsigned i = 0; i < r.qty; i++) if (r.vals[i]) d[i / 8] |= 1 << (i % 8);
        b.insert(b.end(), d.begin(), d.end());
    }
    if (r.fc == 16) {
        b.push_back((uint8_t)(2 * r.qty));
        for (unsigned i = 0; i < r.qty; i++) put16(b, r.vals[i]);
    }
    return with_crc(b);
}
inline bool legal(const Req &r) { return is_single(r.fc) || (r.qty >= 1 && r.qty <= maxqty(r.fc)); }

inline std::string req_str(const Req &r) {
    char t[120];
    snprintf(t, sizeof t, "{fc=%u slave=%u adr=%u %s=%u}", r.fc, r.slave, r.adr, is_single(r.fc) ? "value" : "qty", is_single(r.fc) ? r.sval : r.qty);
    return t;
}

// ---------------------------------------------------------------- generators
inline uint16_t gen_val(Src &s) {
    switch (s.weighted({3, 2, 1, 1, 1})) {
    case 0: return s.u16();
    case 1: return (uint16_t)s.pick(65536);
    case 2: return 0xFFFF;
    case 3: return (uint16_t)(s.byte() << 8);
    default: return 0x00FF;
    }
}
inline void gen_vals(Src &s, Req &r) {
    r.vals.clear();
    if (!is_multi(r.fc)) return;
    r.vals.resize(r.qty);
    uint32_t mode = s.pick(6);
    uint32_t seed = s.pick(65536);
    Rng g(seed * 77 + 5);
    for (unsigned i = 0; i < r.qty; i++) {
        uint16_t v;
        switch (mode) {
        case 0: v = (uint16_t)g.below(65536); break;
        case 1: v = 0xFFFF; break;
        case 2: v = (uint16_t)(0x100 * (i + 1) + i + 2 + seed); break;
        case 3: v = (g.below(8) == 0) ? 0xFFFF : 0; break;
        case 4: v = i + 1 == r.qty ? (uint16_t)(seed | 1) : 0; break;
        default: v = i < 24 ? gen_val(s) : (uint16_t)g.below(65536);
        }
        r.vals[i] = r.fc == 15 ? (v & 1) : v;
    }
}
// sometimes the checksum of the request is a special one
inline void special_req(Src &s, Req &r, bool any_adr) {
    if ((is_multi(r.fc) && r.vals.empty()) || !s.chance(4)) return;
    bool val = r.fc == 6 || r.fc == 16;
    if (!val && !any_adr) return;
    Bytes b = enc(r);
    b.resize(b.size() - 2);
    size_t pos = val ? b.size() - 2 : 2;
    solve_at(b, pos, special_crc(s));
    uint16_t v = (uint16_t)be16(b, pos);
    if (r.fc == 6) r.sval = v;
    else if (r.fc == 16) r.vals[r.qty - 1u] = v;
    else if (v + r.qty <= 65536) r.adr = v;
}
// any legal master request
inline Req gen_req(Src &s, bool anyslave = false, uint32_t maxq = 65535) {
    Req r;
    r.fc = FCS[s.pick(8)];
    r.slave = anyslave ? (uint8_t)s.val(0, 255) : (uint8_t)s.val(1, 247);
    uint32_t mq = std::min<uint32_t>(maxqty(r.fc), maxq);
    r.qty = is_single(r.fc) ? 1 : (uint16_t)s.val(1, mq);
    r.adr = (uint16_t)s.val(0, 65536 - r.qty);
    if (r.fc == 5) r.sval = (uint16_t)s.pick(2);
    if (r.fc == 6) r.sval = gen_val(s);
    gen_vals(s, r);
    special_req(s, r, true);
    return r;
}

inline uint32_t gen_rep(Src &s) { return s.chance(70) ? 1 : s.range(2, 5); }
// ---------------------------------------------------------------- responses to a master request
struct Resp { Bytes frame; std::vector<Ev> evs; };
inline std::vector<Ev> ev_read(const Req &r, const Bytes &data) {
    std::vector<Ev> v;
    for (unsigned i = 0; i < r.qty; i++) {
        Ev e;
        e.k = Ev::RD;
        e.tab = (uint8_t)fc_tab(r.fc);
        e.slave = r.slave;
        e.adr = (uint16_t)(r.adr + i);
        e.val = r.fc <= 2 ? (data[i / 8] >> (i % 8) & 1) : be16(data, 2 * i);
        v.push_back(e);
    }
    return v;
}
inline Ev ev_write(const Req &r) {
    Ev e;
    e.k = Ev::WR;
    e.tab = (uint8_t)fc_tab(r.fc);
    e.slave = r.slave;
    e.adr = r.adr;
    e.qty = is_single(r.fc) ? 1 : r.qty;
    return e;
}
inline Ev ev_exc(const Req &r, uint8_t code) {
    Ev e;
    e.k = Ev::EXC;
    e.tab = (uint8_t)fc_tab(r.fc);
    e.slave = r.slave;
    e.fc = r.fc;
    e.code = code;
    e.adr = r.adr;
    e.qty = (uint16_t)field2(r);
    return e;
}
inline Bytes data_bytes(Src &s, const Req &r) {
    unsigned n = r.fc <= 2 ? (r.qty + 7) / 8 : 2 * r.qty;
    Bytes d(n);
    uint32_t mode = s.pick(5), seed = s.pick(65536);
    Rng g(seed * 31 + 1);
    for (unsigned i = 0; i < n; i++) {
        switch (mode) {
        case 0: d[i] = (uint8_t)g.below(256); break;
        case 1: d[i] = 0xFF; break;
        case 2: d[i] = (uint8_t)(i * 7 + seed); break;
        case 3: d[i] = g.below(6) == 0 ? 1 << g.below(8) : 0; break;
        default: d[i] = i < 24 ? s.byte() : (uint8_t)g.below(256);
        }
    }
    if (r.fc <= 2 && r.qty % 8) d[n - 1] &= (uint8_t)((1 << (r.qty % 8)) - 1);
    return d;
}
inline Resp good_resp(Src &s, const Req &r) {
    Resp x;
    Bytes b{r.slave, r.fc};
    if (is_read(r.fc)) {
        Bytes d = data_bytes(s, r);
        b.push_back((uint8_t)d.size());
        b.insert(b.end(), d.begin(), d.end());
        if (d.size() >= 2 && (r.fc >= 3 || r.qty % 8 == 0) && s.chance(4)) {
            solve_tail(b, special_crc(s));
            std::copy(b.begin() + 3, b.end(), d.begin());
        }
        x.evs = ev_read(r, d);
    } else {
        put16(b, r.adr);
        put16(b, field2(r));
        x.evs.push_back(ev_write(r));
    }
    x.frame = with_crc(b);
    return x;
}
inline Resp exc_resp(Src &s, const Req &r) {
    static const uint8_t codes[] = {2, 1, 3, 4, 5, 6, 8, 10, 11};
    uint8_t c = codes[s.pick(9)];
    Resp x;
    x.frame = with_crc({r.slave, (uint8_t)(r.fc | 0x80), c});
    x.evs.push_back(ev_exc(r, c));
    return x;
}

// ---------------------------------------------------------------- reference slave
enum FK { F_READ, F_WRITE, F_UNSUP, F_VALUE, F_ADDR, F_UNREG, F_FOREIGN, F_BADCRC, F_GAP, F_SHORT, F_OVER };
static const char *FKN[] = {"read", "write", "unsupported", "bad-value", "bad-address", "unregistered", "foreign", "bad-crc", "gap", "short", "over-long"};
struct Exp {
    FK fk = F_FOREIGN;
    bool may_silent = false;          // no reply is acceptable
    bool any_exc = false;             // any exception reply is acceptable
    bool anything = false;            // unspecified by the properties (over-long frames)
    std::vector<Bytes> replies;       // acceptable replies
    bool partial = false;             // addressed items old or new
    std::vector<std::pair<int, uint32_t>> writes; // (isreg,var) -> new value, in order
    std::vector<uint32_t> wvals;
};
struct SlaveModel {
    uint8_t id = 1;
    static int32_t *map[4];                       // address -> variable, -1: not registered
    std::vector<std::pair<int, uint32_t>> touched;
    std::vector<uint8_t> bit;                     // expected values of the application variables
    std::vector<uint16_t> reg;
    void reset(uint32_t bits, uint32_t regs);
    void map_set(int tab, uint32_t adr, uint32_t var);
    Exp expect(const Bytes &f, bool gap) const;
    void sync_from_app();
    // expected data after the frame; returns description of the first difference or ""
    std::string judge_data(const Exp &e);
};
// any rate a driver may be asked for
inline uint32_t gen_baud(Src &s) {
    static const uint32_t std_rate[] = {9600, 300, 1200, 2400, 4800, 19200, 38400, 57600, 115200, 230400, 921600, 4000000};
    if (s.chance(60)) return std_rate[s.pick(12)];
    uint32_t hi = s.u16();
    return hi << 16 | s.u16();
}
