#include "exec.hpp"

// ================================================================== slave
static std::string gaps_str(const std::vector<uint32_t> &gaps) {
    std::string s;
    for (auto g : gaps) s += (g & RXERR ? " byte-error@" : " gap@") + std::to_string(g & ~RXERR);
    return s;
}
uint32_t gen_gap(Src &s, size_t n) {
    if (n < 2 || s.chance(20)) return RXERR | s.pick((uint32_t)n);
    return 1 + s.pick((uint32_t)n - 1);
}
static std::string cut_str(const std::vector<uint32_t> &gaps, uint32_t cut) {
    std::string s = gaps_str(gaps);
    if (cut) s += " end of transmission at " + std::to_string(cut);
    return s;
}
std::string Frame::str() const {
    std::string s = std::string(kind) + " [" + hex(b, 24) + "]" + gaps_str(gaps);
    for (auto &q : mid) s += " {at " + std::to_string(q.first) + ": " + q.second.str() + "}";
    if (!txnoise.empty()) s += " +noise during reply " + std::to_string(txrep) + "x[" + hex(txnoise, 8) + "]" + cut_str(txgaps, txcut);
    return s;
}
static void drive(Line &ln, const Bytes &b, const std::vector<uint32_t> &gaps, const std::function<void(int)> &stage, const std::vector<std::pair<uint32_t, Op>> *mid = nullptr, const std::function<void(size_t)> &hook = nullptr) {
    bool gapped = false;
    auto at = [&](size_t i) {
        if (hook) hook(i);
        if (mid) for (auto &q : *mid) if (q.first == i) do_op(q.second);
    };
    for (size_t i = 0; i < b.size(); i++) {
        at(i);
        for (auto g : gaps)
            if (g == i && i > 0) {
                ln.ev(O_T15);
                ln.t15_again(ln.breathe());
                gapped = true;
                break;
            }
        ln.ev(O_RX, b[i], true);
        bool bad = gapped;
        for (auto g : gaps) bad = bad || g == (RXERR | (uint32_t)i);
        if (bad) {
            if (!ln.pend.empty()) ln.pend.push_back({(uint8_t)ln.role, O_FERR, 0, 0});
            else ln.ev(O_FERR, 0, true);
        }
        if (i + 1 < b.size()) ln.fine(gapped);
    }
    at(b.size());
    if (stage) stage(0);
    ln.ev(O_T15);
    at(b.size() + 1);
    if (stage) stage(1);
    ln.t15_again(ln.breathe());
    at(b.size() + 2);
    if (stage) stage(2);
    ln.ev(O_T35);
    at(b.size() + 3);
    if (stage) stage(3);
}
void SlaveLine::raw(const Bytes &b, const std::vector<uint32_t> &gaps, const std::vector<std::pair<uint32_t, Op>> *mid) {
    drive(ln, b, gaps, [this](int st) { if (st == 2) for (uint32_t i = 0; i < hold; i++) ln.poll(); }, mid);
    ln.breathe();
}
void SlaveLine::finish_tx() {
    ln.ev(O_TXDONE);
    ln.flush();
    for (int i = 0; i < 3; i++) ln.poll();
}
std::vector<Ev> SlaveLine::feed(const Frame &f) {
    size_t t0 = tr[S].size();
    raw(f.b, f.gaps, f.mid.empty() ? nullptr : &f.mid);
    ln.flush();
    for (int i = 0; i < 4; i++) ln.poll();
    for (int k = 0; k < 3 && port[S].busy; k++) {
        if (k == 0 && !f.txnoise.empty()) {
            for (uint32_t i = 0; i < f.txrep; i++) {
                if (f.txcut && i + 1 == f.txrep) { // the noise goes on after the end of the reply
                    drive(ln, f.txnoise, f.txgaps, nullptr, nullptr, [&](size_t p) { if (p == f.txcut) { ln.ev(O_TXDONE); ln.breathe(); } });
                    break;
                }
                raw(f.txnoise, f.txgaps);
                ln.flush();
                for (uint32_t q = 0; i && q < i; q++) ln.poll();
            }
            if (f.txcut) {
                ln.flush();
                for (int i = 0; i < 4; i++) ln.poll();
                continue;
            }
        } else ln.breathe();
        finish_tx();
    }
    std::vector<Ev> out;
    for (size_t i = t0; i < tr[S].size(); i++) if (tr[S][i].k == Ev::SEND) out.push_back(tr[S][i]);
    return out;
}

bool is_registered(int tab, uint32_t adr, uint32_t n) {
    for (uint32_t i = 0; i < n; i++)
        if (adr + i >= cfg.size[tab] || SlaveModel::map[tab][adr + i] < 0) return false;
    return true;
}
void SlaveCase::generate(Src &s, uint32_t maxwin) {
    id = (uint8_t)s.val(1, 247);
    seed = s.pick(65536);
    fill = s.pick(5);
    uint32_t mode = s.weighted({6, 2, 2, 1}); // full, windows, holes, aliases
    bits = words = 0;
    regs.clear();
    win.clear();
    Rng g(seed * 101 + 3);
    for (int t = 0; t < 4; t++) {
        uint32_t sz = cfg.size[t];
        auto add = [&](uint32_t st, uint32_t len) {
            if (!len) return;
            win.push_back({t, st, len});
            for (uint32_t a = st; a < st + len; a++) {
                if (mode == 2 && g.below(6) == 0) continue;
                uint32_t var;
                uint32_t &cnt = t < 2 ? bits : words;
                if (mode == 3 && cnt > 2 && g.below(5) == 0) var = g.below(cnt);
                else var = cnt++;
                regs.push_back({(uint32_t)t, a, var});
            }
        };
        if (sz <= maxwin && (mode == 0 || mode == 3)) add(0, sz);
        else if (sz <= maxwin && mode == 2 && sz <= 200) add(0, sz);
        else {
            uint32_t lim = std::min(sz, maxwin);
            uint32_t n = 1 + s.pick(2);
            for (uint32_t i = 0; i < n; i++) {
                uint32_t len = s.chance(60) ? s.val(1, lim) : s.val(1, std::min<uint32_t>(lim, 20));
                uint32_t st;
                switch (s.pick(3)) {
                case 0: st = sz - len; break;
                case 1: st = 0; break;
                default: st = s.val(0, sz - len);
                }
                add(st, len);
            }
        }
    }
    late = s.chance(15) ? s.pick((uint32_t)regs.size() + 1) : 0;
}
bool SlaveCase::remap_op(Src &s, Op &o) const {
    int tab = (int)s.pick(4);
    uint32_t vars = tab < 2 ? bits : words;
    const Window *w = pick_win(s, tab);
    uint32_t adr = w && s.chance(85) ? w->start + s.pick(w->len) : s.val(0, cfg.size[tab] - 1);
    uint32_t var = s.pick(vars);
    if (!vars) return false;
    uint32_t how = s.pick(12);
    if (how == 10) var = NOVAR;
    if (how == 11) { // beyond the table: no effect
        if (cfg.size[tab] > 65535) return false;
        adr = s.val(cfg.size[tab], 65535);
    }
    o = Op();
    o.role = S; o.k = O_REG; o.a = (uint32_t)tab; o.b = adr; o.c = var;
    return true;
}
void SlaveCase::apply(const Op &o) {
    if (o.k == O_REG) { if (o.b < cfg.size[o.a]) m.map_set((int)o.a, o.b, o.c); }
    else if (o.k == O_APPW) { if (o.a) m.reg[o.b] = (uint16_t)o.c; else m.bit[o.b] = o.c & 1; }
}
void SlaveCase::remap(Src &s) {
    Op o;
    if (!remap_op(s, o)) return;
    apply(o);
    do_op(o);
}
void SlaveCase::fill_vars() {
    Rng g(seed * 13 + fill);
    for (uint32_t i = 0; i < nbit; i++) {
        bool v = fill == 0 ? g.below(2) : fill == 1 ? true : fill == 2 ? (i % 3 == 0) : fill == 3 ? false : g.below(9) == 0;
        abit[i] = v;
    }
    for (uint32_t i = 0; i < nreg; i++) {
        uint16_t v = fill == 0 ? (uint16_t)g.below(65536) : fill == 1 ? 0xFFFF : fill == 2 ? (uint16_t)(0x0100 * (i & 255) + (i & 255) + 0x0102) : fill == 3 ? 0 : (uint16_t)(g.below(4) == 0 ? 0xFF00 : g.below(2) ? 0x00FF : 0x8000 + i);
        areg[i] = v;
    }
}
void SlaveCase::setup() {
    m.id = id;
    m.reset(bits, words);
    fill_vars();
    for (size_t i = 0; i < regs.size(); i++) {
        if (i + late == regs.size()) op_init_s(id, baud, parity);
        m.map_set((int)regs[i][0], regs[i][1], regs[i][2]);
        op_reg((int)regs[i][0], regs[i][1], regs[i][2]);
    }
    if (!late) op_init_s(id, baud, parity);
    m.sync_from_app();
}
const Window *SlaveCase::pick_win(Src &s, int tab) const {
    const Window *c[8];
    uint32_t n = 0;
    for (auto &w : win) if (w.tab == tab && n < 8) c[n++] = &w;
    return n ? c[s.pick(n)] : nullptr;
}
Req gen_valid_req(Src &s, SlaveCase &c, bool rd) {
    static const uint8_t R[] = {3, 1, 2, 4}, W[] = {6, 5, 16, 15};
    Req r;
    r.slave = c.id;
    r.fc = rd ? R[s.pick(4)] : W[s.pick(4)];
    int tab = fc_tab(r.fc);
    const Window *w = c.pick_win(s, tab);
    r.adr = 0;
    r.qty = 1;
    if (w) {
        uint32_t mq = maxqty(r.fc);
        if (s.chance(75) || is_single(r.fc)) {
            r.adr = (uint16_t)(w->start + s.val(0, w->len - 1));
            uint32_t run = 0, lim = std::min(mq, w->start + w->len - r.adr);
            while (run < lim && is_registered(tab, r.adr + run, 1)) run++;
            r.qty = run ? (uint16_t)s.val(1, run) : 1;
        } else { // choose the quantity first, so that large ones are frequent
            uint32_t q = s.val(1, std::min(mq, w->len));
            r.qty = (uint16_t)q;
            r.adr = (uint16_t)(w->start + s.val(0, w->len - q));
        }
    }
    if (r.fc == 5) r.sval = (uint16_t)s.pick(2);
    if (r.fc == 6) r.sval = gen_val(s);
    gen_vals(s, r);
    special_req(s, r, false);
    return r;
}
static Bytes multi_frame(uint8_t id, uint8_t fc, uint32_t adr, uint32_t qty, uint32_t bc, Src &s) {
    Bytes b{id, fc};
    put16(b, adr);
    put16(b, qty);
    b.push_back((uint8_t)bc);
    Rng g(s.pick(65536) + 9);
    for (uint32_t i = 0; i < bc; i++) b.push_back((uint8_t)g.below(256));
    return with_crc(b);
}
void damage(Src &s, Bytes &b, uint32_t keep, std::string *what) {
    uint32_t lo = keep * 8, n = (uint32_t)b.size() * 8;
    if (n <= lo) return;
    auto flip = [&](uint32_t i) { b[i / 8] ^= 1 << (i % 8); };
    const char *k = "";
    Bytes before = b;
    switch (s.pick(5)) {
    case 0: flip(lo + s.pick(n - lo)); k = "1 bit"; break;
    case 4: { // the checksum field only, by a special value
        if (b.size() < keep + 2) { flip(lo); break; }
        uint8_t &l = b[b.size() - 2], &h = b.back();
        switch (s.pick(6)) {
        case 0: l = h = 0; break;
        case 1: l = h = 0xFF; break;
        case 2: std::swap(l, h); break;
        case 3: l = (uint8_t)~l; h = (uint8_t)~h; break;
        case 4: h = (uint8_t)s.byte(); break;
        default: l = (uint8_t)s.byte();
        }
        k = "checksum";
        break;
    }
    case 1: {
        uint32_t i = lo + s.pick(n - lo), j = lo + s.pick(n - lo - 1);
        if (j >= i) j++;
        flip(i);
        flip(j);
        k = "2 bits";
        break;
    }
    case 2: {
        uint32_t cnt = 3 + 2 * s.pick(8);
        for (uint32_t i = 0; i < cnt; i++) flip(lo + s.pick(n - lo)); // an odd number of flips: parity of the pattern is odd
        k = "odd";
        break;
    }
    default: {
        uint32_t len = std::min<uint32_t>(2 + s.pick(15), n - lo);
        uint32_t st = lo + s.pick(n - lo - len + 1), pat = s.pick(65536);
        for (uint32_t i = 0; i < len; i++) if (i == 0 || i + 1 == len || (pat >> i & 1)) flip(st + i);
        k = "burst";
    }
    }
    if (b == before) { flip(lo); }
    if (what) *what = k;
}
// a frame that differs from the one before in one respect only (or not at all)
static Frame related_frame(Src &s, const Bytes &prev, uint8_t id) {
    Frame f;
    Bytes b = prev;
    Bytes crc(b.end() - 2, b.end());
    b.resize(b.size() - 2);
    uint32_t n = (uint32_t)b.size();
    f.kind = "like the one before";
    static const uint8_t FC[] = {1, 2, 3, 4, 5, 6, 15, 16};
    switch (s.pick(9)) {
    case 0: break;
    case 1: b[n - 1] ^= (uint8_t)(1 + s.pick(255)); break;                   // last byte
    case 2: b[s.pick(n)] ^= (uint8_t)(1 << s.pick(8)); break;                // any bit
    case 3: b[3 % n] = (uint8_t)(b[3 % n] + (s.pick(2) ? 1 : 255)); break;   // next address
    case 4: b[5 % n] = (uint8_t)(b[5 % n] + (s.pick(2) ? 1 : 255)); break;   // quantity
    case 5: b[1] = FC[s.pick(8)]; break;                                    // another function
    case 6: b[0] = b[0] == id ? (uint8_t)s.val(0, 255) : id; break;          // addressed to another device
    case 7: {                                                               // other content under the same checksum
        b[s.pick(n)] ^= (uint8_t)(1 + s.pick(255));
        f.b = b;
        f.b.insert(f.b.end(), crc.begin(), crc.end());
        return f;
    }
    default: {                                                              // the same with a gap
        f.gaps.push_back(gen_gap(s, n + 1));
    }
    }
    f.b = with_crc(b);
    return f;
}
static Frame gen_frame_(Src &s, SlaveCase &c, const uint32_t w[12]);
// how the noise during a transmission lies in time; own: the device the receiver waits for
void gen_cut(Src &s, const Bytes &b, int own, std::vector<uint32_t> &gaps, uint32_t &cut) {
    uint32_t n = (uint32_t)b.size();
    gaps.clear();
    cut = 0;
    if (!n) return;
    if (s.chance(25)) gaps.push_back(gen_gap(s, n));
    if (!s.chance(40)) return;
    cut = s.chance(60) ? n + s.pick(3) : 1 + s.pick(n);
    if (cut >= n) return;
    if (own >= 0 && (b[cut] == own || !gaps.empty())) cut = n; // the rest would be an answer of its own
    else for (uint32_t i = cut; i + 4 <= n; i++) if (crc_ok(Bytes(b.begin() + i, b.end()))) cut = n; // the rest must not be a frame
}
Frame gen_frame(Src &s, SlaveCase &c, const uint32_t w[12]) {
    if (!c.relate) return gen_frame_(s, c, w);
    bool rel = s.chance(12);
    Frame f = rel && c.prev.size() >= 4 ? related_frame(s, c.prev, c.id) : gen_frame_(s, c, w);
    if (f.b.size() >= 4 && f.b.size() <= 255) c.prev = f.b;
    return f;
}
static Frame gen_frame_(Src &s, SlaveCase &c, const uint32_t w[12]) {
    Frame f;
    uint32_t sum = 0;
    for (int i = 0; i < 12; i++) sum += w[i];
    uint32_t v = s.pick(sum), kind = 0;
    while (v >= w[kind]) { v -= w[kind]; kind++; }
    static const uint8_t ANY[] = {3, 16, 6, 1, 5, 15, 4, 2};
    switch (kind) {
    case G_READ: f.kind = "valid read"; f.b = enc(gen_valid_req(s, c, true)); break;
    case G_WRITE: f.kind = "valid write"; f.b = enc(gen_valid_req(s, c, false)); break;
    case G_UNSUP: {
        f.kind = "unsupported function";
        uint8_t fc = (uint8_t)s.val(0, 255);
        while (known_fc(fc)) fc = (uint8_t)(fc + 7);
        Bytes b{c.id, fc};
        uint32_t n = s.chance(70) ? s.range(0, 8) : s.range(0, 251); // at most 255 bytes: the receive length is 8 bits wide
        for (uint32_t i = 0; i < n; i++) b.push_back(i < 8 ? s.byte() : (uint8_t)i);
        f.b = with_crc(b);
        break;
    }
    case G_VALUE: {
        f.kind = "bad value";
        uint8_t fc = ANY[s.pick(8)];
        if (fc == 6) fc = 16;
        int tab = fc_tab(fc);
        uint32_t adr = s.chance(60) ? s.val(0, cfg.size[tab] - 1) : s.val(0, 65535);
        if (fc == 5) {
            uint32_t q = s.val(1, 65535);
            if (q == 0xFF00) q = 0xFF01;
            Bytes b{c.id, fc};
            put16(b, adr);
            put16(b, q);
            f.b = with_crc(b);
        } else if (is_read(fc)) {
            uint32_t q = s.chance(40) ? 0 : s.val(maxqty(fc) + 1, 65535);
            Bytes b{c.id, fc};
            put16(b, adr);
            put16(b, q);
            f.b = with_crc(b);
        } else {
            uint32_t mq = maxqty(fc);
            switch (s.pick(3)) {
            case 0: { // byte count contradicts the quantity
                uint32_t q = s.val(1, mq), good = fc == 16 ? 2 * q : (q + 7) / 8;
                uint32_t bc = s.chance(50) ? (good + (s.chance(50) ? 1 : good ? (uint32_t)-1 : 1)) : s.val(0, 246);
                if (bc == good) bc = good + 1;
                if (bc > 246) bc = good - 1;
                if (s.chance(60) && q <= cfg.size[tab]) adr = s.val(0, cfg.size[tab] - q);
                f.b = multi_frame(c.id, fc, adr, q, bc, s);
                break;
            }
            case 1: f.b = multi_frame(c.id, fc, adr, 0, s.val(0, 20), s); break;
            default: {
                uint32_t q = s.val(mq + 1, 65535), bc = (fc == 16 ? 2 * q : (q + 7) / 8) & 255;
                if (bc > 246 || s.chance(30)) bc = s.val(0, 246);
                f.b = multi_frame(c.id, fc, adr, q, bc, s);
            }
            }
        }
        break;
    }
    case G_ADDR: {
        f.kind = "bad address";
        uint8_t fc = ANY[s.pick(8)];
        uint32_t sz = cfg.size[fc_tab(fc)];
        uint32_t q = is_single(fc) ? 1 : s.val(1, maxqty(fc));
        uint32_t lo = sz + 1 > q ? sz + 1 - q : 0;
        uint32_t adr = lo > 65535 ? 65535 : s.chance(50) ? s.range(lo, std::min(65535u, lo + 3)) : s.val(lo, 65535);
        if (is_multi(fc)) f.b = multi_frame(c.id, fc, adr, q, fc == 16 ? 2 * q : (q + 7) / 8, s);
        else {
            Bytes b{c.id, fc};
            put16(b, adr);
            put16(b, fc == 5 ? (s.pick(2) ? 0xFF00 : 0) : fc == 6 ? gen_val(s) : q);
            f.b = with_crc(b);
        }
        break;
    }
    case G_UNREG: {
        f.kind = "maybe unregistered";
        uint8_t fc = ANY[s.pick(8)];
        int tab = fc_tab(fc);
        uint32_t sz = cfg.size[tab];
        uint32_t q = is_single(fc) ? 1 : s.val(1, std::min(maxqty(fc), sz));
        uint32_t adr = s.val(0, sz - q);
        const Window *w2 = c.pick_win(s, tab);
        if (w2 && s.chance(60)) { // around the edge of a registered range
            uint32_t e = s.chance(50) ? w2->start + w2->len : w2->start;
            uint32_t back = s.pick(q + 1);
            adr = e > back ? e - back : 0;
            if (adr + q > sz) adr = sz - q;
        }
        if (is_multi(fc)) f.b = multi_frame(c.id, fc, adr, q, fc == 16 ? 2 * q : (q + 7) / 8, s);
        else {
            Bytes b{c.id, fc};
            put16(b, adr);
            put16(b, fc == 5 ? (s.pick(2) ? 0xFF00 : 0) : fc == 6 ? gen_val(s) : q);
            f.b = with_crc(b);
        }
        break;
    }
    case G_FOREIGN: {
        f.kind = "foreign";
        Req r = gen_valid_req(s, c, s.chance(40));
        uint8_t o = (uint8_t)s.val(0, 255);
        if (o == c.id) o = (uint8_t)(o + 1);
        r.slave = o;
        if (s.chance(40)) {
            f.kind = "foreign reply";
            f.b = s.chance(70) ? good_resp(s, r).frame : exc_resp(s, r).frame;
        } else f.b = enc(r);
        break;
    }
    case G_BADCRC: {
        f.kind = "bad crc";
        f.b = enc(gen_valid_req(s, c, s.chance(30)));
        switch (s.pick(5)) {
        case 4: { // something directly in front of it or behind it, without a silence
            f.kind = "run together";
            Bytes x;
            uint32_t how = s.pick(4);
            if (how == 0) for (uint32_t i = 0, n = s.range(1, 4); i < n; i++) x.push_back(s.byte());
            else if (how == 1) x.push_back(c.id);
            else if (how == 2) { x = f.b; x.resize(1 + s.pick((uint32_t)x.size() - 1)); }
            else x = enc(gen_valid_req(s, c, s.chance(50)));
            if (x.size() + f.b.size() > 255) { f.b.resize(8); x.resize(std::min<size_t>(x.size(), 8)); }
            if (s.chance(60)) f.b.insert(f.b.begin(), x.begin(), x.end());
            else f.b.insert(f.b.end(), x.begin(), x.end());
            break;
        }
        case 0: { uint32_t x = 1 + s.pick(65535); f.b[f.b.size() - 2] ^= x & 255; f.b[f.b.size() - 1] ^= x >> 8; break; }
        case 1: damage(s, f.b, s.pick(2)); break;
        case 2: { uint32_t cut = 1 + s.pick((uint32_t)f.b.size() - 1); f.b.resize(f.b.size() - cut); break; }
        default: std::swap(f.b[f.b.size() - 1], f.b[f.b.size() - 2]);
        }
        break;
    }
    case G_GAP: {
        f.kind = "gap";
        f.b = enc(gen_valid_req(s, c, s.chance(30)));
        uint32_t n = 1 + s.pick(2);
        for (uint32_t i = 0; i < n; i++) f.gaps.push_back(gen_gap(s, f.b.size()));
        break;
    }
    case G_SHORT: {
        f.kind = "short";
        Bytes b = enc(gen_valid_req(s, c, s.chance(30)));
        b.resize(b.size() - 2);
        if (b.size() > 7 && s.chance(50)) b.resize(7 + s.pick((uint32_t)b.size() - 7)); // data missing
        else b.resize(1 + s.pick((uint32_t)b.size() - 1));
        f.b = with_crc(b);
        break;
    }
    case G_NOISE: {
        f.kind = "noise";
        uint32_t n = s.chance(90) ? s.range(1, 12) : s.range(1, 300);
        for (uint32_t i = 0; i < n; i++) f.b.push_back(i < 40 ? s.byte() : (uint8_t)(i * 37));
        if (s.chance(40)) f.b[0] = c.id;
        if (s.chance(40)) f.gaps.push_back(gen_gap(s, n));
        break;
    }
    default: {
        f.kind = "over-long";
        Bytes b = enc(gen_valid_req(s, c, s.chance(60)));
        b.resize(b.size() - 2);
        uint32_t n = 1 + s.pick(6);
        for (uint32_t i = 0; i < n && b.size() < 254; i++) b.push_back(s.byte());
        f.b = with_crc(b);
    }
    }
    return f;
}

// ================================================================== master
MasterRun::MasterRun(std::vector<Item> *it, Sched &s) : items(it), sc(s), ln(M, &s) {
    res.resize(it->size());
    ln.after_poll = [this]() {
        if (txd) {
            polls_since_tx++;
            if (!obs && polls_since_tx >= (sc.isr ? 2u : 1u)) { obs = true; since_obs = 0; }
        }
        int me = cur;
        bool was = active() && obs && !need_tx;
        scan();
        if (was && cur == me && active() && !need_tx && !own_frame && since_obs > cfg.timeout) res[(size_t)me].late_polls++;
    };
    ln.tick_max = [this](uint32_t n) -> uint32_t {
        if (in_answer || !ln.pend.empty()) n = since_tx >= answer_limit ? 0 : (uint32_t)std::min<uint64_t>(n, answer_limit - since_tx);
        since_tx += n;
        since_obs += n;
        return n;
    };
    scanned = tr[M].size();
    on_cb = [this](const Ev &) {
        // which item may be issued from inside this callback?
        if (!active() || nest) return;
        for (size_t i = 0; i < items->size(); i++)
            if (!res[i].issued && (*items)[i].incb && (*items)[i].after == ended + 1) {
                bool prev = true;
                for (size_t k = 0; k < i; k++) if (!res[k].issued) prev = false;
                if (!prev) break;
                nest++;
                do_issue(i, true);
                nest--;
                break;
            }
    };
}
void MasterRun::end_cur() {
    res[(size_t)cur].ended = true;
    ended++;
}
void MasterRun::scan() {
    for (; scanned < tr[M].size(); scanned++) {
        const Ev &e = tr[M][scanned];
        if (e.k == Ev::API || e.k == Ev::INIT) continue;
        if (e.k == Ev::SEND) {
            if (active() && res[(size_t)cur].out.empty() && e.bytes == enc((*items)[(size_t)cur].r)) {
                res[(size_t)cur].sends.push_back(e.bytes);
            } else {
                if (active()) {
                    if (res[(size_t)cur].out.empty()) res[(size_t)cur].vanished = true;
                    end_cur();
                }
                if (fifo.empty()) {
                    stray_send++;
                    stray = e.str();
                    cur = -1;
                } else {
                    cur = fifo.front();
                    fifo.pop_front();
                    res[(size_t)cur].sends.push_back(e.bytes);
                }
            }
            need_tx = true;
            txd = port[M].sync;
            obs = false;
            since_tx = 0;
            since_obs = 0;
            polls_since_tx = 0;
            continue;
        }
        if (!active()) {
            stray_cb++;
            stray = e.str();
            continue;
        }
        Res &r = res[(size_t)cur];
        if (r.out.empty()) {
            r.tmo_txdone = since_tx;
            r.tmo_obs = since_obs;
        }
        r.out.push_back(e);
    }
    if (active() && !res[(size_t)cur].out.empty() && !nest) end_cur(); // inside a callback the report may still go on
}
void MasterRun::do_issue(size_t i, bool from_cb) {
    Item &it = (*items)[i];
    Res &r = res[i];
    r.issued = true;
    size_t use = fifo.size() + (active() ? 1 : 0);
    bool full = use >= cfg.queue;
    r.maybe_full = from_cb && use == cfg.queue && active();
    r.want = it.illegal ? 1 : full ? 2 : 0; // 0 accept, 1 refused as illegal, 2 queue full
    if (it.illegal && full) r.want = 3;     // any error
    Op o;
    o.role = M;
    o.k = O_API;
    o.req = std::make_shared<Req>(it.r);
    if (!from_cb) {
        o.inj = ln.pend;
        ln.pend.clear();
    }
    r.ret = do_op(o);
    if (r.ret == 0) {
        if (!it.illegal) fifo.push_back((int)i);
        else stray = "illegal request accepted";
    } else r.ended = true;
    scan();
}
void MasterRun::issue_due(int stage) {
    for (size_t i = 0; i < items->size(); i++) {
        if (res[i].issued) continue;
        Item &it = (*items)[i];
        if (it.after > ended) return;                 // keep the order
        if (it.incb && it.after > ended) return;
        if (stage == 0 && it.mid != 0 && (active() || !fifo.empty())) return;
        if (stage != 0 && it.mid != stage) return;
        if (stage == 0 && !active() && fifo.empty() && !port[M].busy)
            for (auto &g : it.idle_noise) {
                ln.flush();
                ticks(g.delay);
                drive(ln, g.b, g.gaps, nullptr);
                ln.breathe();
                ln.flush();
            }
        do_issue(i, false);
    }
}
void MasterRun::ticks(uint32_t n) {
    if (!n) return;
    ln.flush();
    uint8_t c = sc.k();
    uint32_t step = (c & 3) == 0 ? n : (c & 3) == 1 ? 1 + n / 2 : (c & 3) == 2 ? 1 + n / 5 : (1 + (c >> 2)) * (n > 2000 ? n / 1000 : 1);
    while (n) {
        uint32_t k = std::min(n, step);
        ln.tick(k);
        n -= k;
        ln.poll();
        if (need_tx || stop) return;
    }
}
void MasterRun::seg(const Seg &g) {
    bool last = true;
    own_frame = !g.foreign; // a frame that may be the answer ends the waiting, however long its T3.5 takes
    drive(ln, g.b, g.gaps, [&](int st) {
        if (st == 0 && last) issue_due(3);
        if (st == 1) in_answer = in_answer && g.foreign;
    });
    if (g.foreign) { // the library sees the end of a foreign frame before the next frame begins
        ln.flush();
        for (int i = 0; i < 3; i++) ln.poll();
    } else ln.breathe();
    own_frame = false;
}
void MasterRun::tx_done() {
    ln.ev(O_TXDONE);
    txd = true;
    polls_since_tx = 0;
    since_tx = 0;
    obs = false;
    since_obs = 0;
}
void MasterRun::transmit() {
    Item *it = cur >= 0 ? &(*items)[(size_t)cur] : nullptr;
    answer_limit = cfg.timeout > 3 ? cfg.timeout - 3 : 0;
    in_answer = port[M].sync; // the time for the answer is running already
    issue_due(1);
    ln.breathe();
    if (!port[M].sync) {
        if (it && !it->tx_noise.empty() && res[(size_t)cur].sends.size() == 1) {
            for (uint32_t i = 0; i < it->tx_rep; i++) {
                if (it->tx_cut && i + 1 == it->tx_rep) { // the noise goes on after the end of the transmission
                    drive(ln, it->tx_noise, it->tx_gaps, nullptr, nullptr, [&](size_t p) {
                        if (p != it->tx_cut || need_tx) return;
                        tx_done();
                        in_answer = true;
                        ln.breathe();
                    });
                    ln.flush();
                    for (int q = 0; q < 3 && !need_tx; q++) ln.poll();
                    in_answer = false;
                    return;
                }
                drive(ln, it->tx_noise, it->tx_gaps, nullptr);
                ln.flush();
                for (uint32_t q = 0; i && q < i && !need_tx; q++) ln.poll();
            }
        }
        ln.flush();
        if (need_tx) return; // sent again while transmitting: reported by the driver
        tx_done();
    } // otherwise the transmission was over when send() returned: time runs since then
}
void MasterRun::answer(const Att &a) {
    answer_limit = cfg.timeout > 3 ? cfg.timeout - 3 : 0;
    in_answer = true;
    issue_due(2);
    ln.breathe();
    if (remote && !stop && !need_tx) {
        Bytes req = tr[M].empty() ? Bytes() : res[(size_t)cur].sends.back();
        Bytes rep = remote(req);
        if (!rep.empty()) {
            Seg g;
            g.b = rep;
            seg(g);
        }
        in_answer = false;
        return;
    }
    if (a.kind != A_SILENT && a.kind != A_LATE) {
        for (auto &g : a.segs) {
            if (need_tx || stop || !active()) break;
            ticks(g.delay);
            seg(g);
        }
    } else if (a.kind == A_SILENT) {
        for (auto &g : a.segs) { // only foreign frames
            if (need_tx || stop || !active()) break;
            ticks(g.delay);
            seg(g);
        }
    }
    in_answer = false;
}
void MasterRun::await() {
    in_answer = false;
    ln.flush();
    for (int i = 0; i < 6 && !progress(); i++) ln.poll();
    if (progress()) return;
    uint32_t T = cfg.timeout;
    uint8_t c = sc.k();
    uint32_t mode = c & 3;
    auto tk = [&](uint32_t n) { since_tx += n; since_obs += n; op_ticks(n); };
    if (mode == 2) tk(2 * T + 3);
    else {
        if (mode == 0 && since_obs + 4 < T) {
            tk((uint32_t)(T - 4 - since_obs));
            ln.poll();
            ln.poll();
        }
        uint32_t step = mode == 3 ? (1 + (c >> 2)) * (T > 2000 ? T / 1000 : 1) : mode == 1 ? (T > 60 ? 1 + T / 60 : 1) : 1;
        while (since_obs < T + 1 && !progress()) {
            tk(step);
            ln.poll();
        }
    }
    for (int i = 0; i < 6 && !progress(); i++) ln.poll();
    if (!progress()) {
        // a little more patience, so that a late report is told from a hang
        for (int k = 0; k < 3 && !progress(); k++) {
            tk(2 * T + 5);
            for (int i = 0; i < 6 && !progress(); i++) ln.poll();
        }
        if (!progress()) {
            res[(size_t)cur].hung = true;
            stop = true;
        }
    }
}
void MasterRun::run() {
    for (uint64_t guard = 0; guard < 4 * items->size() * (cfg.repeat + 3) + 100 && !stop; guard++) {
        issue_due(0);
        if (need_tx) {
            need_tx = false;
            transmit();
            if (need_tx) { if (port[M].send_while_busy) { stop = true; } continue; }
            if (cur < 0) { ln.flush(); for (int i = 0; i < 3; i++) ln.poll(); if (stray_send > 3) stop = true; continue; }
            size_t nth = res[(size_t)cur].sends.size();
            Item &it = (*items)[(size_t)cur];
            static const Att none = [] { Att a; a.kind = A_SILENT; return a; }();
            const Att &a = it.att.empty() ? none : it.att[std::min(nth ? nth - 1 : 0, it.att.size() - 1)];
            if (res[(size_t)cur].sends.size() > cfg.repeat + 4) { stop = true; break; }
            int me = cur;
            uint32_t part = 0;
            if (a.kind == A_LATE && !a.segs.empty()) { // the answer may have begun before the time is over
                part = (uint32_t)(a.segs[0].delay % (a.segs[0].b.size()));
                ln.breathe();
                for (uint32_t i = 0; i < part; i++) ln.ev(O_RX, a.segs[0].b[i], true);
            } else answer(a);
            await();
            if (a.kind == A_LATE && !a.segs.empty() && (!active() || cur != me || need_tx) && !(port[M].sync && (need_tx || !fifo.empty()))) { // never after the next request was sent
                Bytes rest(a.segs[0].b.begin() + part, a.segs[0].b.end());
                drive(ln, rest, {}, nullptr);
                ln.flush();
            }
            issue_due(4);
            continue;
        }
        if (!active() && fifo.empty()) {
            bool all = true;
            for (size_t i = 0; i < items->size(); i++)
                if (!res[i].issued) {
                    all = false;
                    (*items)[i].after = std::min((*items)[i].after, ended);
                    break;
                }
            if (all) break;
            continue;
        }
        ln.flush();
        for (int i = 0; i < 8 && !need_tx && !stop; i++) ln.poll();
        if (!need_tx && !stop) {
            if (active()) continue; // awaited before
            if (!fifo.empty()) { res[(size_t)fifo.front()].hung = true; stop = true; }
        }
    }
    // nothing may happen any more
    if (!stop) {
        ln.flush();
        for (int i = 0; i < 3; i++) ln.poll();
        op_ticks(cfg.timeout + 2);
        for (int i = 0; i < 3; i++) ln.poll();
    }
    scan();
    on_cb = nullptr;
}
std::string out_str(const std::vector<Ev> &v, size_t max) {
    std::string s;
    for (size_t i = 0; i < v.size() && i < max; i++) s += (i ? ", " : "") + v[i].str();
    if (v.size() > max) s += ", .. (" + std::to_string(v.size()) + ")";
    return s.empty() ? "nothing" : s;
}
void MasterRun::note(Ctx &c) {
    if (!c.verbose) return;
    for (size_t i = 0; i < items->size(); i++) {
        Item &it = (*items)[i];
        std::string s = "#" + std::to_string(i) + " " + req_str(it.r) + (it.illegal ? " (illegal)" : "") + " after=" + std::to_string(it.after) + (it.incb ? " in callback" : "") + (it.mid ? " mid=" + std::to_string(it.mid) : "");
        for (auto &g : it.idle_noise) s += " idle-noise[" + hex(g.b, 10) + "]" + gaps_str(g.gaps);
        if (!it.tx_noise.empty()) s += " noise-while-sending " + std::to_string(it.tx_rep) + "x[" + hex(it.tx_noise, 10) + "]" + cut_str(it.tx_gaps, it.tx_cut);
        for (auto &a : it.att) {
            s += std::string(" | line: ") + AKN[a.kind] + (*a.sub ? std::string("/") + a.sub : "");
            for (auto &g : a.segs) {
                s += " +" + std::to_string(g.delay) + "ms [" + hex(g.b, 14) + "]" + (g.foreign ? "(foreign)" : "");
                s += gaps_str(g.gaps);
            }
        }
        if (res[i].issued) s += " => returned " + std::to_string(res[i].ret) + ", sent " + std::to_string(res[i].sends.size()) + "x, outcome: " + out_str(res[i].out) + (res[i].hung ? " HANGS" : "");
        c.note("%s", s.c_str());
    }
    if (!sc.key.empty() || !sc.fine.empty()) c.note("schedule key=[%s] fine=[%s]%s scale=%u sync=%d", hex(sc.key, 60).c_str(), hex(sc.fine, 20).c_str(), sc.isr ? " with interrupts" : "", sc.scale, port[M].sync);
}

Outcome2 predict(const Item &it) {
    Outcome2 o;
    for (uint32_t a = 0; a <= cfg.repeat; a++) {
        const Att &t = it.att.empty() ? Att() : it.att[std::min<size_t>(a, it.att.size() - 1)];
        o.sends = a + 1;
        switch (t.kind) {
        case A_GOOD: case A_EXC: o.kind = 0; o.evs = t.evs; return o;
        case A_SILENT: case A_LATE: o.kind = 1; return o;
        case A_CRC: o.err = 0; break;
        case A_GAP: o.err = 2; break;
        default: o.kind = 3; return o;
        }
    }
    o.kind = 2;
    return o;
}
void master_noise(Sched &sc, const Seg &g) {
    Line ln(M, &sc);
    drive(ln, g.b, g.gaps, nullptr);
    ln.breathe();
    ln.flush();
    for (int i = 0; i < 3; i++) ln.poll();
}
Seg gen_foreign(Src &s, const Req &r) {
    Seg g;
    g.foreign = true;
    Req q = gen_req(s, false, 60);
    if (s.chance(50)) { q = r; }
    do { q.slave = (uint8_t)s.val(0, 255); if (q.slave == r.slave) q.slave = (uint8_t)(r.slave + 1); } while (q.slave == r.slave);
    switch (s.pick(3)) {
    case 0: g.b = good_resp(s, q).frame; break;
    case 1: g.b = exc_resp(s, q).frame; break;
    default: g.b = enc(q);
    }
    return g;
}
Att gen_att(Src &s, const Req &r, AK k, uint32_t foreign_pct) {
    Att a;
    a.kind = k;
    uint32_t limit = cfg.timeout > 3 ? cfg.timeout - 3 : 0;
    uint32_t left = limit;
    auto delay = [&]() -> uint32_t {
        if (!s.chance(35)) return 0;
        uint32_t d = s.val(0, left);
        left -= d;
        return d;
    };
    while (foreign_pct && a.segs.size() < 4 && s.chance(foreign_pct)) {
        Seg g = gen_foreign(s, r);
        g.delay = delay();
        a.segs.push_back(g);
    }
    Seg g;
    switch (k) {
    case A_GOOD: { Resp x = good_resp(s, r); g.b = x.frame; a.evs = x.evs; break; }
    case A_EXC: { Resp x = exc_resp(s, r); g.b = x.frame; a.evs = x.evs; break; }
    case A_SILENT: return a;
    case A_LATE: { Resp x = s.chance(80) ? good_resp(s, r) : exc_resp(s, r); g.b = x.frame; g.delay = s.pick(300); a.segs.push_back(g); return a; }
    case A_CRC: {
        Resp x = s.chance(80) ? good_resp(s, r) : exc_resp(s, r);
        g.b = x.frame;
        uint32_t how = s.pick(4);
        if (how == 1 && g.b.size() > 2) { g.b.resize(1 + s.pick((uint32_t)g.b.size() - 1)); a.sub = "truncated"; }
        else if (how == 2 && g.b.size() < 250) { uint32_t n = 1 + s.pick(4); for (uint32_t i = 0; i < n; i++) g.b.push_back(s.byte()); a.sub = "extended"; }
        else if (how == 3 && g.b.size() < 120 && s.chance(50)) { // a part of an answer and an answer, or two answers, without a silence in between
            Bytes y = s.chance(60) ? g.b : good_resp(s, r).frame;
            if (y.size() > 120) y.resize(120);
            if (s.chance(60)) g.b.resize(1 + s.pick((uint32_t)g.b.size()));
            g.b.insert(g.b.end(), y.begin(), y.end());
            a.sub = "run together";
        }
        else { damage(s, g.b, 1); a.sub = "bits"; }
        if (crc16(g.b.data(), g.b.size()) == 0) g.b.back() ^= 0x40;
        break;
    }
    case A_GAP: {
        Resp x = s.chance(80) ? good_resp(s, r) : exc_resp(s, r);
        g.b = x.frame;
        uint32_t n = 1 + s.pick(2);
        for (uint32_t i = 0; i < n; i++) g.gaps.push_back(gen_gap(s, g.b.size()));
        break;
    }
    default: break;
    }
    g.delay = delay();
    a.segs.push_back(g);
    return a;
}
