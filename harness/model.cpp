#include "model.hpp"
static int32_t maps[4][65536];
int32_t *SlaveModel::map[4] = {maps[0], maps[1], maps[2], maps[3]};
static bool maps_init = false;
static std::vector<std::pair<int, uint32_t>> g_touched;

void SlaveModel::reset(uint32_t bits, uint32_t regs) {
    if (!maps_init) {
        memset(maps, 0xff, sizeof maps);
        maps_init = true;
    }
    for (auto &t : g_touched) maps[t.first][t.second] = -1;
    g_touched.clear();
    app_alloc(bits, regs);
    bit.assign(nbit, 0);
    reg.assign(nreg, 0);
}
void SlaveModel::map_set(int tab, uint32_t adr, uint32_t var) {
    if (map[tab][adr] < 0) g_touched.push_back({tab, adr});
    map[tab][adr] = (int32_t)var; // NOVAR: -1
}
static Bytes exc(uint8_t id, uint8_t fc, uint8_t code) { return with_crc({id, (uint8_t)(fc | 0x80), code}); }

Exp SlaveModel::expect(const Bytes &f, bool gap) const {
    Exp e;
    if (f.empty() || f[0] != id) { e.fk = F_FOREIGN; e.may_silent = true; return e; }
    if (!crc_ok(f)) { e.fk = F_BADCRC; e.may_silent = true; return e; }
    if (gap) { e.fk = F_GAP; e.may_silent = true; return e; }
    auto shortf = [&]() { e.fk = F_SHORT; e.may_silent = true; e.any_exc = true; };
    if (f.size() < 4) { e.fk = F_SHORT; e.may_silent = true; return e; } // not even a function code
    uint8_t fc = f[1];
    if (!known_fc(fc)) { e.fk = F_UNSUP; e.replies.push_back(exc(id, fc, 1)); return e; }
    if (f.size() < 8) { shortf(); return e; }
    if (is_multi(fc) && (f.size() < 9 || f.size() < 9u + f[6])) { shortf(); return e; }
    size_t full = is_multi(fc) ? 9u + f[6] : 8;
    if (f.size() > full) { e.fk = F_OVER; e.anything = true; e.may_silent = true; }
    bool over = e.fk == F_OVER;
    auto setk = [&](FK k) { if (!over) e.fk = k; };
    unsigned adr = be16(f, 2), q = be16(f, 4);
    int tab = fc_tab(fc);
    bool isreg = tab >= HREG;
    if (fc == 5 && q != 0 && q != 0xFF00) { setk(F_VALUE); e.replies.push_back(exc(id, fc, 3)); return e; }
    unsigned n = is_single(fc) ? 1 : q;
    if (!is_single(fc) && (q == 0 || q > maxqty(fc))) { setk(F_VALUE); e.replies.push_back(exc(id, fc, 3)); return e; }
    bool badcnt = is_multi(fc) && f[6] != (isreg ? 2 * q : (q + 7) / 8);
    bool badadr = adr + n > cfg.size[tab];
    if (badcnt) e.replies.push_back(exc(id, fc, 3));
    if (badadr) e.replies.push_back(exc(id, fc, 2));
    if (badcnt || badadr) { setk(badcnt ? F_VALUE : F_ADDR); return e; }
    bool unreg = false;
    for (unsigned i = 0; i < n; i++) if (map[tab][adr + i] < 0) unreg = true;
    if (is_read(fc)) {
        if (unreg) { setk(F_UNREG); e.replies.push_back(exc(id, fc, 4)); return e; }
        setk(F_READ);
        Bytes b{id, fc};
        if (!isreg) {
            Bytes d((n + 7) / 8, 0);
            for (unsigned i = 0; i < n; i++) if (bit[(size_t)map[tab][adr + i]]) d[i / 8] |= 1 << (i % 8);
            b.push_back((uint8_t)d.size());
            b.insert(b.end(), d.begin(), d.end());
        } else {
            b.push_back((uint8_t)(2 * n));
            for (unsigned i = 0; i < n; i++) put16(b, reg[(size_t)map[tab][adr + i]]);
        }
        e.replies.push_back(with_crc(b));
        return e;
    }
    for (unsigned i = 0; i < n; i++) {
        if (map[tab][adr + i] < 0) continue;
        uint32_t v;
        if (is_single(fc)) v = fc == 5 ? q != 0 : q;
        else v = isreg ? be16(f, 7 + 2 * i) : (f[7 + i / 8] >> (i % 8) & 1);
        e.writes.push_back({isreg, (uint32_t)map[tab][adr + i]});
        e.wvals.push_back(v);
    }
    if (unreg) {
        setk(F_UNREG);
        e.replies.push_back(exc(id, fc, 4));
        e.partial = true;
        return e;
    }
    setk(F_WRITE);
    Bytes b{id, fc};
    put16(b, adr);
    put16(b, q);
    e.replies.push_back(with_crc(b));
    return e;
}
void SlaveModel::sync_from_app() {
    for (uint32_t i = 0; i < nbit; i++) bit[i] = ((uint8_t *)abit)[i];
    memcpy(reg.data(), areg, nreg * 2);
}
std::string SlaveModel::judge_data(const Exp &e) {
    char t[200];
    if (!e.partial && !e.anything)
        for (size_t i = 0; i < e.writes.size(); i++) {
            if (e.writes[i].first) reg[e.writes[i].second] = (uint16_t)e.wvals[i];
            else bit[e.writes[i].second] = (uint8_t)e.wvals[i];
        }
    bool same = memcmp(bit.data(), abit, nbit) == 0 && memcmp(reg.data(), areg, nreg * 2) == 0;
    if (same) return "";
    auto allowed = [&](int isr, uint32_t var, uint32_t v) {
        size_t n = 0;
        bool val = false;
        for (size_t i = 0; i < e.writes.size(); i++)
            if (e.writes[i].first == isr && e.writes[i].second == var) {
                n++;
                val |= e.wvals[i] == v;
            }
        return val && (n > 1 || e.partial || e.anything); // a variable under several of the addresses may end with the value of any of them
    };
    for (uint32_t i = 0; i < nbit; i++) {
        uint8_t v = ((uint8_t *)abit)[i];
        if (v != bit[i] && !allowed(0, i, v)) {
            snprintf(t, sizeof t, "bit variable %u is %u, expected %u", i, v, bit[i]);
            sync_from_app();
            return t;
        }
    }
    for (uint32_t i = 0; i < nreg; i++)
        if (areg[i] != reg[i] && !allowed(1, i, areg[i])) {
            snprintf(t, sizeof t, "register variable %u is 0x%04x, expected 0x%04x", i, areg[i], reg[i]);
            sync_from_app();
            return t;
        }
    sync_from_app();
    return "";
}
