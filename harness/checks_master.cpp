// Properties of the master: C09..C19, C25 (and generators shared with C21..C23).
#include "checks.hpp"

// ---------------------------------------------------------------- generators
Seg gen_noise(Src &s, const Req *near) {
    Seg g;
    uint32_t k = s.pick(4);
    if (near && k == 0) g.b = good_resp(s, *near).frame;
    else if (near && k == 1) g.b = exc_resp(s, *near).frame;
    else {
        uint32_t n = s.chance(95) ? s.range(1, 10) : s.range(1, 300);
        for (uint32_t i = 0; i < n; i++) g.b.push_back(i < 16 ? s.byte() : (uint8_t)(i * 11));
        if (near && s.chance(50)) g.b[0] = near->slave;
        if (near && s.chance(15)) { // directly followed by an answer
            Bytes y = good_resp(s, *near).frame;
            if (g.b.size() + y.size() < 256) g.b.insert(g.b.end(), y.begin(), y.end());
        }
    }
    if (s.chance(30)) g.gaps.push_back(gen_gap(s, g.b.size()));
    g.delay = s.chance(20) ? s.val(0, cfg.timeout) : 0;
    return g;
}
bool matches(const Req &r, const Bytes &f) {
    if (f.size() < 5 || !crc_ok(f) || f[0] != r.slave) return false;
    if (f[1] == (r.fc | 0x80)) return f.size() == 5;
    if (f[1] != r.fc) return false;
    if (is_read(r.fc)) {
        unsigned n = r.fc <= 2 ? (r.qty + 7) / 8 : 2 * r.qty;
        return f[2] == (n & 255) && f.size() == n + 5;
    }
    return f.size() == 8 && be16(f, 2) == r.adr && be16(f, 4) == field2(r);
}
Att gen_mismatch(Src &s, const Req &r) {
    Att a;
    a.kind = A_MIS;
    Seg g;
    for (int tries = 0; tries < 8; tries++) {
        Bytes b;
        Bytes ok = good_resp(s, r).frame;
        ok.resize(ok.size() - 2);
        switch (s.pick(11)) {
        case 0: { // a proper response to another function
            Req q = gen_req(s, false, 40);
            q.slave = r.slave;
            if (s.chance(60)) { q.adr = r.adr; if (!is_single(q.fc) && r.qty <= maxqty(q.fc)) { q.qty = r.qty; gen_vals(s, q); } }
            a.sub = "other-function";
            b = good_resp(s, q).frame;
            b.resize(b.size() - 2);
            break;
        }
        case 1: a.sub = "function-replaced"; b = ok; b[1] = (uint8_t)s.val(0, 127); break;
        case 2: a.sub = "byte-count"; b = ok; b[2] = s.chance(50) ? (uint8_t)(b[2] + (s.pick(2) ? 1 : 255)) : s.byte(); break;
        case 3: a.sub = "truncated"; b = ok; b.resize(1 + s.pick((uint32_t)b.size() - 1)); break;
        case 4: a.sub = "extended"; b = ok; for (uint32_t i = 0, n = s.range(1, 6); i < n && b.size() < 253; i++) b.push_back(s.byte()); break;
        case 5: a.sub = "echo-address"; b = ok; if (b.size() >= 6) { b[2 + s.pick(2)] ^= 1 << s.pick(8); } break;
        case 6: a.sub = "echo-value"; b = ok; if (b.size() >= 6) { b[4 + s.pick(2)] ^= 1 << s.pick(8); } break;
        case 7: { a.sub = "other-exception"; uint8_t fc = s.chance(60) ? FCS[s.pick(8)] : (uint8_t)s.pick(128); b = {r.slave, (uint8_t)(fc | 0x80), (uint8_t)s.range(1, 11)}; break; }
        case 8: { // exception of the right function, wrong length
            a.sub = "exception-length";
            b = {r.slave, (uint8_t)(r.fc | 0x80)};
            for (uint32_t i = 0, n = s.pick(2) ? s.range(2, 8) : 0; i < n; i++) b.push_back((uint8_t)s.range(1, 11));
            break;
        }
        case 9: a.sub = "request-echo"; b = enc(r); b.resize(b.size() - 2); break;
        default: {
            a.sub = "other-quantity";
            Req q = r;
            if (!is_single(q.fc)) q.qty = (uint16_t)s.val(1, maxqty(q.fc));
            gen_vals(s, q);
            b = good_resp(s, q).frame;
            b.resize(b.size() - 2);
        }
        }
        if (b.size() > 253) b.resize(253);
        g.b = with_crc(b);
        if (!matches(r, g.b)) break;
        g.b = with_crc({r.slave, (uint8_t)(r.fc ^ 1), 0});
    }
    if (s.chance(25)) g.delay = s.val(0, cfg.timeout > 3 ? cfg.timeout - 3 : 0);
    a.segs.push_back(g);
    return a;
}
static Att gen_free(Src &s, const Req &r) {
    Att a;
    a.kind = A_FREE;
    uint32_t n = s.range(1, 3);
    for (uint32_t i = 0; i < n; i++) {
        Seg g = gen_noise(s, &r);
        if (s.chance(25)) g = gen_foreign(s, r), g.foreign = false; // not necessarily polled before the next bytes
        a.segs.push_back(g);
    }
    return a;
}
Item gen_item(Src &s, const MOpt &o, uint8_t slave, const Req *like) {
    Item it;
    if (like) it.r = *like;
    else it.r = gen_req(s, o.anyslave, o.maxq);
    if (slave) it.r.slave = slave;
    if (!like && o.illegal && s.chance(o.illegal)) {
        it.illegal = true;
        static const uint8_t Q[] = {3, 1, 16, 15, 4, 2};
        it.r.fc = Q[s.pick(6)];
        it.r.qty = s.chance(40) ? 0 : (uint16_t)s.val(maxqty(it.r.fc) + 1, 65535);
        it.r.vals.clear();
        gen_vals(s, it.r);
    }
    for (uint32_t a = 0; a <= cfg.repeat; a++) {
        uint32_t sum = 0, k = 0;
        for (uint32_t w : o.kinds) sum += w;
        uint32_t v = s.pick(sum);
        while (v >= o.kinds[k]) { v -= o.kinds[k]; k++; }
        Att t = k == A_MIS ? gen_mismatch(s, it.r) : k == A_FREE ? gen_free(s, it.r) : gen_att(s, it.r, (AK)k, o.foreign);
        it.att.push_back(t);
        if (k == A_GOOD || k == A_EXC || k == A_SILENT || k == A_LATE) break;
        if (cfg.repeat > 5 ? s.chance(30) : s.chance(4)) break; // the last behaviour goes on for all further attempts
    }
    if (o.noise) {
        if (s.chance(o.noise)) for (uint32_t i = 0, n = s.range(1, 2); i < n; i++) it.idle_noise.push_back(gen_noise(s, &it.r));
        if (s.chance(o.noise)) { it.tx_noise = gen_noise(s, &it.r).b; it.tx_rep = gen_rep(s); gen_cut(s, it.tx_noise, it.r.slave, it.tx_gaps, it.tx_cut); }
    }
    return it;
}
void gen_items(Src &s, MCase &m, const MOpt &o) {
    uint32_t n = s.range(o.nmin, o.nmax);
    bool fill = o.fill && cfg.queue > 10 && s.chance(25); // enough to fill a large queue
    if (fill) n = cfg.queue + s.range(0, 20);
    MOpt of = o;
    of.maxq = 4;
    of.noise = of.foreign = 0;
    static const uint32_t fk[8] = {80, 12, 0, 1, 1, 0, 0, 0};
    memcpy(of.kinds, fk, sizeof fk);
    uint8_t slave = s.chance(o.few_slaves) ? (uint8_t)s.val(1, 247) : 0;
    for (uint32_t i = 0; i < n; i++) {
        Item it;
        if (i && !m.items.back().illegal && s.chance(12)) { // a request like the one before
            const Item &p = m.items.back();
            Req q = p.r;
            switch (s.pick(5)) {
            case 0: it = p; it.after = it.mid = 0; it.incb = false; break; // answered the same way, too
            case 1: it = gen_item(s, fill ? of : o, 0, &q); break;
            case 2: { // another function, address and quantity as before
                q.fc = FCS[s.pick(8)];
                q.qty = is_single(q.fc) ? 1 : (uint16_t)std::min<uint32_t>(q.qty, maxqty(q.fc));
                q.sval = q.fc == 5 ? (uint16_t)s.pick(2) : gen_val(s);
                gen_vals(s, q);
                it = gen_item(s, fill ? of : o, 0, &q);
                break;
            }
            case 3:
                q.adr = (uint16_t)(q.adr + (s.pick(2) ? 1 : 65535));
                if (q.adr + q.qty > 65536) q.adr = (uint16_t)(65536 - q.qty);
                it = gen_item(s, fill ? of : o, 0, &q);
                break;
            default: // other values
                if (is_multi(q.fc)) gen_vals(s, q);
                else if (q.fc == 6) q.sval ^= (uint16_t)(1 << s.pick(16));
                else if (q.fc == 5) q.sval ^= 1;
                else q.slave = (uint8_t)s.val(1, 247);
                it = gen_item(s, fill ? of : o, 0, &q);
            }
        } else it = gen_item(s, fill ? of : o, slave && s.chance(90) ? slave : 0);
        it.after = i;
        if (i && s.chance(fill ? 98 : o.burst)) {
            it.after = m.items.back().after;
            if (s.chance(o.mid)) it.mid = (uint8_t)s.pick(5);
        }
        if (i && o.incb && s.chance(o.incb)) { it.incb = true; it.mid = 0; it.after = m.items.back().after + (s.chance(70) ? 1 : 0); }
        m.items.push_back(it);
    }
}
void gen_mcase(Src &s, MCase &m, const MOpt &o) {
    m.sync = o.sync && s.chance(o.sync);
    gen_items(s, m, o);
    m.sc = gen_sched(s, o.isr, o.extreme_maxkey);
}
void MCase::execute(Ctx &c, bool init) {
    if (init) {
        port[M].sync = sync;
        op_init_m();
    }
    run.reset(new MasterRun(&items, sc));
    run->run();
    run->note(c);
    for (auto &it : items) for (auto &a : it.att) c.cls(AKN[a.kind]);
}
// does `out` consist of exactly one of the permitted outcomes of the request?
bool outcome_shape(const Item &it, const std::vector<Ev> &out) {
    if (out.empty()) return false;
    if (out[0].k == Ev::RD) {
        if (!is_read(it.r.fc) || out.size() != it.r.qty) return false;
        for (size_t i = 0; i < out.size(); i++)
            if (out[i].k != Ev::RD || out[i].tab != fc_tab(it.r.fc) || out[i].slave != it.r.slave || out[i].adr != (uint16_t)(it.r.adr + i)) return false;
        return true;
    }
    if (out.size() != 1) return false;
    return out[0].k == Ev::WR ? !is_read(it.r.fc) : true;
}
static std::string istr(const MCase &m, size_t i) { return "request #" + std::to_string(i) + " " + req_str(m.items[i].r); }
// request answered properly on the predicted attempt
static bool delivered_ok(const MCase &m, size_t i, std::string &why) {
    const Res &r = m.run->res[i];
    Outcome2 p = predict(m.items[i]);
    if (r.out == p.evs) return true;
    why = "application got " + out_str(r.out) + (r.hung ? " (request never ended)" : "") + ", expected " + out_str(p.evs);
    return false;
}
static Ev tmo_ev(const Req &r) {
    Ev e;
    e.k = Ev::TMO;
    e.slave = r.slave;
    e.fc = r.fc;
    e.code = 1;
    e.adr = r.adr;
    e.qty = (uint16_t)field2(r);
    return e;
}
static bool is_tmo(const std::vector<Ev> &out, const Req &r) { return out.size() == 1 && out[0] == tmo_ev(r); }
static bool is_comm(const std::vector<Ev> &out, const Req &r, int kind) {
    return out.size() == 1 && out[0].k == Ev::COMM && out[0].slave == r.slave && out[0].fc == r.fc && out[0].adr == r.adr && (is_single(r.fc) || out[0].qty == r.qty) && (kind < 0 || out[0].code == kind);
}
static void strays(Ctx &c, MCase &m) {
    if (c.failed) return;
    if (m.run->stray_send) c.fail("stray-send", "transmission that belongs to no accepted request: %s", m.run->stray.c_str());
    if (m.run->stray_cb) c.fail("stray-report", "report that belongs to no pending request: %s", m.run->stray.c_str());
}
// full judgement of requests with predictable outcome
static void judge_exact(Ctx &c, MCase &m, size_t i, bool anykind) {
    Res &r = m.run->res[i];
    if (c.failed || !r.issued || r.ret != 0) return;
    Item &it = m.items[i];
    Outcome2 p = predict(it);
    if (p.kind == 3) return;
    if (r.sends.empty()) { c.fail("not-sent", "%s: accepted, never transmitted", istr(m, i).c_str()); return; }
    if (r.sends[0] != enc(it.r)) { c.fail("wrong-frame", "%s: transmitted %s", istr(m, i).c_str(), hex(r.sends[0]).c_str()); return; }
    std::string why;
    if (p.kind == 0) { if (!delivered_ok(m, i, why)) c.fail("delivery", "%s: %s", istr(m, i).c_str(), why.c_str()); }
    else if (p.kind == 1) { if (!is_tmo(r.out, it.r)) c.fail("timeout", "%s: silent slave, application got %s%s", istr(m, i).c_str(), out_str(r.out).c_str(), r.hung ? " (request never ended)" : ""); }
    else if (!is_comm(r.out, it.r, anykind ? -1 : p.err)) c.fail("comm-error", "%s: expected a communication error of kind %u, application got %s%s", istr(m, i).c_str(), p.err, out_str(r.out).c_str(), r.hung ? " (request never ended)" : "");
    if (!c.failed && r.sends.size() != p.sends) c.fail("send-count", "%s: transmitted %zu times, expected %u", istr(m, i).c_str(), r.sends.size(), p.sends);
}

// ---------------------------------------------------------------- properties
static void plain_kinds(MOpt &o) {
    if (cfg.timeout > 2000) o.kinds[A_SILENT] = o.kinds[A_LATE] = o.kinds[A_FREE] = 0;
    if (cfg.repeat > 20) o.kinds[A_CRC] = o.kinds[A_GAP] = o.kinds[A_FREE] = 0;
}
void Rounds::tame(MOpt &o) const {
    if (!special && !(medium && (cfg.repeat > 20 || cfg.timeout > 2000))) return;
    if (special) o.maxq = std::min<uint32_t>(o.maxq, 6);
    if (special) o.extreme_maxkey = 8;
    plain_kinds(o);
}
// the driver sends from the library's buffer, byte after byte
void tx_stable(Ctx &c) {
    for (int r = 0; r < 2; r++)
        if (!c.failed && port[r].tx_changed) c.fail("frame-changed", "bytes of a frame of the %s changed while it is being sent", r == M ? "master" : "slave");
}
void run_C09(Ctx &c) {
    Rounds rounds(c.src);
    MCase m;
    MOpt o;
    o.nmax = 6;
    o.noise = 5;
    rounds.tame(o);
    gen_mcase(c.src, m, o);
    m.rounds(c, rounds, [&] {
        for (size_t i = 0; i < m.items.size() && !c.failed; i++) {
            Res &r = m.run->res[i];
            if (r.ret != 0 || r.sends.empty()) continue;
            for (auto &b : r.sends) if (b != enc(m.items[i].r)) c.fail("encoding", "%s: transmitted %s, expected %s", istr(m, i).c_str(), hex(b, 60).c_str(), hex(enc(m.items[i].r), 60).c_str());
            if (m.items[i].r.qty > 8 || i) c.nontrivial();
        }
        tx_stable(c);
        if (!c.failed && caller_changed) c.fail("caller-data", "a write request changed the caller's data");
        if (m.run->stray_send && m.run->fifo.empty() && !m.run->stop) c.fail("stray-send", "transmission that belongs to no accepted request: %s", m.run->stray.c_str());
    });
}
static void judge_returns(Ctx &c, MCase &m) {
    for (size_t i = 0; i < m.items.size() && !c.failed; i++) {
        Res &r = m.run->res[i];
        if (!r.issued || r.want < 0) continue;
        if (r.want == 0 && r.ret != 0 && !r.maybe_full) c.fail("refused", "%s: refused with %d although message buffers are free", istr(m, i).c_str(), r.ret);
        if (r.want == 1 && r.ret != 2 && r.ret != 3 && !(r.maybe_full && r.ret == 1)) c.fail("illegal-accepted", "%s: returned %d, expected a request error", istr(m, i).c_str(), r.ret);
        if (r.want == 2 && r.ret != 1 && !r.maybe_full) c.fail("capacity", "%s: returned %d, expected queue full", istr(m, i).c_str(), r.ret);
        if (r.want == 3 && r.ret == 0) c.fail("illegal-accepted", "%s: accepted", istr(m, i).c_str());
    }
}
static void judge_all_executed(Ctx &c, MCase &m) {
    for (size_t i = 0; i < m.items.size() && !c.failed; i++) {
        Res &r = m.run->res[i];
        if (!r.issued || r.ret != 0 || m.items[i].illegal) continue;
        if (r.sends.empty()) c.fail("not-sent", "%s: accepted, but never transmitted", istr(m, i).c_str());
        else if (r.sends[0] != enc(m.items[i].r)) c.fail("order", "%s: at its turn %s was transmitted", istr(m, i).c_str(), hex(r.sends[0]).c_str());
        else if (r.vanished) c.fail("overlap", "%s: the next request was transmitted before this one had ended", istr(m, i).c_str());
    }
}
void run_C10(Ctx &c) {
    Rounds rounds(c.src);
    MCase m;
    MOpt o;
    o.fill = true;
    o.nmin = 2;
    o.nmax = 4 + 3 * std::min<uint32_t>(cfg.queue, 6);
    o.illegal = 45;
    o.burst = 60;
    o.kinds[A_GOOD] = 14;
    o.maxq = 40;
    o.extreme_maxkey = 30;
    o.incb = 10;
    rounds.tame(o);
    gen_mcase(c.src, m, o);
    m.rounds(c, rounds, [&] {
        judge_returns(c, m);
        judge_all_executed(c, m);
        strays(c, m);
        uint32_t ill = 0;
        for (size_t i = 0; i < m.items.size(); i++) if (m.items[i].illegal) ill++;
        if (ill && ill < m.items.size()) c.nontrivial();
        if (ill >= cfg.queue) c.cls("as many illegal requests as buffers");
        for (size_t i = 0; i < m.items.size() && !c.failed; i++) if (!m.items[i].illegal) judge_exact(c, m, i, true);
    });
}
void run_C11(Ctx &c) {
    MCase m;
    MOpt o;
    bool special = c.src.special() == 1; // one history beyond any 16 bit count
    o.fill = true;
    o.nmin = 2;
    o.nmax = 6 + 3 * std::min<uint32_t>(cfg.queue, 8);
    o.burst = 75;
    o.mid = 40;
    o.incb = 25;
    o.illegal = 4;
    o.maxq = special ? 4 : 30;
    o.foreign = 5;
    o.noise = 4;
    o.sync = 10;
    static const uint32_t k[8] = {12, 4, 3, 3, 3, 2, 2, 1};
    memcpy(o.kinds, k, sizeof k);
    if (special) plain_kinds(o);
    gen_mcase(c.src, m, o);
    uint32_t rounds = c.src.chance(2) ? c.src.range(20, c.thorough ? 1000 : 120) : 1;
    if (special) rounds = 66000 / (uint32_t)m.items.size() + 1;
    if (cfg.queue > 10 && !special) rounds = std::min(rounds, 3u);
    m.execute(c);
    auto judge = [&]() {
        judge_returns(c, m);
        judge_all_executed(c, m);
        strays(c, m);
        tx_stable(c);
        for (size_t i = 0; i < m.items.size() && !c.failed; i++)
            if (m.run->res[i].hung) c.fail("stuck", "%s: never ended, the queue is stuck", istr(m, i).c_str());
    };
    judge();
    uint64_t t0 = now_ms();
    for (uint32_t q = 1; q < rounds && !c.failed && (!special || now_ms() < t0 + 30000); q++) { // the same again: capacity must not shrink
        bool v = c.verbose;
        c.verbose = false;
        m.sc.rewind();
        for (auto &it : m.items) it.after = (uint32_t)(&it - &m.items[0]) / 2;
        m.execute(c, false);
        c.verbose = v;
        judge();
        c.cls("repeated");
    }
    bool full = false;
    for (auto &r : m.run->res) if (r.want == 2) full = true;
    if (full) c.cls("queue full");
    if (m.items.size() > cfg.queue || full) c.nontrivial();
}
void run_C12(Ctx &c) {
    Rounds rounds(c.src);
    MCase m;
    MOpt o;
    o.noise = 4;
    static const uint32_t k[8] = {16, 2, 1, 2, 2, 1, 1, 0};
    memcpy(o.kinds, k, sizeof k);
    rounds.tame(o);
    gen_mcase(c.src, m, o);
    m.rounds(c, rounds, [&] {
        for (size_t i = 0; i < m.items.size() && !c.failed; i++) {
            Res &r = m.run->res[i];
            if (r.ret != 0 || !is_read(m.items[i].r.fc)) continue;
            Outcome2 p = predict(m.items[i]);
            if (p.kind != 0 || p.evs[0].k != Ev::RD) continue;
            std::string why;
            if (!delivered_ok(m, i, why)) c.fail("read-delivery", "%s: %s", istr(m, i).c_str(), why.c_str());
            c.nontrivial();
            c.cls("read delivered");
        }
        if (!c.failed && m.run->stray_cb) c.fail("stray-report", "report that belongs to no pending request: %s", m.run->stray.c_str());
    });
}
void run_C13(Ctx &c) {
    Rounds rounds(c.src);
    MCase m;
    MOpt o;
    o.noise = 4;
    static const uint32_t k[8] = {10, 10, 1, 2, 2, 1, 1, 0};
    memcpy(o.kinds, k, sizeof k);
    rounds.tame(o);
    gen_mcase(c.src, m, o);
    m.rounds(c, rounds, [&] {
        for (size_t i = 0; i < m.items.size() && !c.failed; i++) {
            Res &r = m.run->res[i];
            if (r.ret != 0) continue;
            Outcome2 p = predict(m.items[i]);
            if (p.kind != 0 || p.evs[0].k == Ev::RD) continue;
            std::string why;
            if (!delivered_ok(m, i, why)) c.fail("confirmation", "%s: %s", istr(m, i).c_str(), why.c_str());
            c.nontrivial();
            c.cls(p.evs[0].k == Ev::EXC ? "exception reported" : "write confirmed");
        }
        if (!c.failed && m.run->stray_cb) c.fail("stray-report", "report that belongs to no pending request: %s", m.run->stray.c_str());
    });
}
void run_C14(Ctx &c) {
    Rounds rounds(c.src);
    MCase m;
    MOpt o;
    o.nmax = 3;
    static const uint32_t k[8] = {3, 1, 1, 1, 1, 12, 0, 0};
    memcpy(o.kinds, k, sizeof k);
    rounds.tame(o);
    gen_mcase(c.src, m, o);
    m.rounds(c, rounds, [&] {
        for (size_t i = 0; i < m.items.size() && !c.failed; i++) {
            Item &it = m.items[i];
            Res &r = m.run->res[i];
            if (r.ret != 0 || r.sends.empty()) continue;
            size_t first = it.att.size();
            for (size_t a = 0; a < it.att.size(); a++) if (it.att[a].kind == A_MIS) { first = a; break; }
            if (first == it.att.size() || r.sends.size() <= first) continue;
            c.nontrivial();
            c.cls(it.att[first].sub);
            bool ok = false;
            if (r.out.size() == 1 && (r.out[0].k == Ev::TMO || r.out[0].k == Ev::COMM)) ok = true;
            for (size_t a = 0; a < it.att.size() && a < r.sends.size(); a++)
                if ((it.att[a].kind == A_GOOD || it.att[a].kind == A_EXC) && r.out == it.att[a].evs) ok = true;
            if (!ok) {
                std::string l;
                for (size_t a = 0; a < it.att.size() && a < r.sends.size(); a++) l += std::string(a ? "; " : "") + AKN[it.att[a].kind] + " " + it.att[a].sub + " [" + (it.att[a].segs.empty() ? "" : hex(it.att[a].segs[0].b, 20)) + "]";
                c.fail("mismatch-accepted", "%s answered by %s: application got %s%s", istr(m, i).c_str(), l.c_str(), out_str(r.out).c_str(), r.hung ? " (request never ended)" : "");
            }
        }
        strays(c, m);
    });
}
void run_C15(Ctx &c) {
    Rounds rounds(c.src);
    MCase m;
    MOpt o;
    o.nmax = 5;
    o.noise = 15;
    o.foreign = 10;
    o.sync = 10;
    o.maxq = c.src.chance(80) ? 20 : 65535;
    static const uint32_t k[8] = {6, 3, 4, 4, 4, 4, 3, 6};
    memcpy(o.kinds, k, sizeof k);
    rounds.tame(o);
    gen_mcase(c.src, m, o);
    m.rounds(c, rounds, [&] {
        for (size_t i = 0; i < m.items.size() && !c.failed; i++) {
            Item &it = m.items[i];
            Res &r = m.run->res[i];
            if (r.ret != 0) continue;
            if (r.hung || (r.sends.empty() && !m.run->stop)) c.fail("hang", "%s: never ends (sent %zu times, %zu reports)", istr(m, i).c_str(), r.sends.size(), r.out.size());
            else if (r.vanished) c.fail("no-outcome", "%s: ended without any report", istr(m, i).c_str());
            else if (r.ended && !outcome_shape(it, r.out)) c.fail("outcome", "%s: not exactly one outcome: %s", istr(m, i).c_str(), out_str(r.out).c_str());
            else if (r.sends.size() > cfg.repeat + 1u) c.fail("too-many-sends", "%s: transmitted %zu times", istr(m, i).c_str(), r.sends.size());
        }
        if (port[M].send_while_busy) c.fail("send-while-busy", "request handed to the driver while it is still sending the previous one");
        strays(c, m);
        if (!m.sc.key.empty() || m.items.size() > 1) c.nontrivial();
    });
}
void run_C16(Ctx &c) {
    Rounds rounds(c.src);
    MCase m;
    MOpt o;
    o.nmax = 4;
    o.noise = 8;
    o.foreign = 10;
    o.sync = 10;
    o.maxq = c.src.chance(80) ? 20 : 65535;
    static const uint32_t k[8] = {6, 2, 10, 1, 1, 0, 5, 0};
    memcpy(o.kinds, k, sizeof k);
    rounds.tame(o);
    gen_mcase(c.src, m, o);
    m.rounds(c, rounds, [&] {
        for (size_t i = 0; i < m.items.size() && !c.failed; i++) {
            Item &it = m.items[i];
            Res &r = m.run->res[i];
            if (r.ret != 0 || r.sends.empty()) continue;
            Outcome2 p = predict(it);
            if (p.kind == 1) {
                c.nontrivial();
                if (!is_tmo(r.out, it.r)) c.fail("timeout-report", "%s: silent slave, expected %s, application got %s%s", istr(m, i).c_str(), tmo_ev(it.r).str().c_str(), out_str(r.out).c_str(), r.hung ? " (request never ended)" : "");
                else if (r.tmo_txdone + 2 < cfg.timeout) c.fail("timeout-early", "%s: timeout reported %llu ticks after the request was sent, configured %u", istr(m, i).c_str(), (unsigned long long)r.tmo_txdone, cfg.timeout);
                else if (r.late_polls > 3) c.fail("timeout-late", "%s: %u polls after the configured time had passed before the timeout was reported", istr(m, i).c_str(), r.late_polls);
            } else if (p.kind != 3) {
                for (auto &e : r.out) if (e.k == Ev::TMO) c.fail("false-timeout", "%s: answered in time, but a timeout is reported", istr(m, i).c_str());
                if (p.kind == 0) c.cls("answered in time");
            }
        }
    });
}
void run_C17(Ctx &c) {
    Rounds rounds(c.src);
    MCase m;
    MOpt o;
    o.nmax = 4;
    o.sync = 5;
    o.maxq = c.src.chance(70) ? 20 : 65535;
    o.foreign = 3;
    static const uint32_t k[8] = {4, 2, 1, 9, 9, 0, 0, 0};
    memcpy(o.kinds, k, sizeof k);
    rounds.tame(o);
    gen_mcase(c.src, m, o);
    m.rounds(c, rounds, [&] {
        for (size_t i = 0; i < m.items.size() && !c.failed; i++) {
            Item &it = m.items[i];
            if (it.att.empty() || (it.att[0].kind != A_CRC && it.att[0].kind != A_GAP)) continue;
            judge_exact(c, m, i, false);
            c.nontrivial();
            Outcome2 p = predict(it);
            if (p.kind == 2) c.cls("retries exhausted");
            else c.cls("repaired by a retry");
        }
        strays(c, m);
    });
}
void run_C18(Ctx &c) {
    Rounds rounds(c.src);
    MCase m;
    MOpt o;
    o.nmax = 3;
    o.sync = 5;
    o.foreign = 75;
    o.maxq = c.src.chance(70) ? 20 : 65535;
    static const uint32_t k[8] = {8, 4, 5, 2, 0, 0, 0, 0};
    memcpy(o.kinds, k, sizeof k);
    rounds.tame(o);
    gen_mcase(c.src, m, o);
    m.rounds(c, rounds, [&] {
        for (size_t i = 0; i < m.items.size() && !c.failed; i++) {
            Item &it = m.items[i];
            Res &r = m.run->res[i];
            if (r.ret != 0 || r.sends.empty() || it.att.empty()) continue;
            bool foreign = false;
            for (auto &a : it.att) for (auto &g : a.segs) foreign |= g.foreign;
            if (!foreign) continue;
            c.nontrivial();
            judge_exact(c, m, i, false);
            if (c.failed) break;
            Outcome2 p = predict(it);
            if (p.kind == 1) {
                if (r.tmo_txdone + 2 < cfg.timeout) c.fail("timeout-early", "%s: timeout reported %llu ticks after the request was sent, configured %u", istr(m, i).c_str(), (unsigned long long)r.tmo_txdone, cfg.timeout);
                else if (r.late_polls > 3) c.fail("timeout-late", "%s: foreign traffic delayed the timeout", istr(m, i).c_str());
            }
        }
        strays(c, m);
    });
}
void run_C19(Ctx &c) {
    MCase h, r;
    MOpt o;
    bool special = c.src.special() == 1; // one history beyond any 16 bit count
    o.nmin = 1;
    o.nmax = c.thorough ? 8 : 5;
    o.noise = 15;
    o.foreign = 10;
    o.illegal = 8;
    o.sync = 10;
    o.maxq = special ? 4 : c.src.chance(60) ? 20 : 65535;
    static const uint32_t k[8] = {6, 4, 4, 4, 4, 4, 3, 4};
    memcpy(o.kinds, k, sizeof k);
    if (special) plain_kinds(o);
    gen_mcase(c.src, h, o);
    uint32_t reps = c.src.chance(2) ? c.src.range(5, c.thorough ? 400 : 60) : 1;
    if (special) reps = 66000 / (uint32_t)h.items.size() + 1;
    bool trailing = c.src.chance(40);
    Seg last = gen_noise(c.src, &h.items.back().r);
    MOpt q;
    q.nmax = 2;
    q.maxq = o.maxq;
    q.foreign = 5;
    static const uint32_t k2[8] = {6, 3, 3, 3, 3, 3, 0, 0};
    memcpy(q.kinds, k2, sizeof k2);
    gen_items(c.src, r, q);
    r.sc = gen_sched(c.src, false, 30);
    r.sync = h.sync;
    // first after start-up
    std::vector<Item> keep = r.items;
    r.execute(c);
    std::vector<Ev> fresh = tr[M];
    fresh.erase(fresh.begin()); // driver init
    if (r.run->stop) return;    // not a scenario that ends
    std::vector<uint64_t> tm;
    for (auto &x : r.run->res) tm.push_back(x.tmo_txdone);
    // after the history
    world_reset();
    uint64_t started = now_ms();
    for (uint32_t i = 0; i < reps && (!special || now_ms() < started + 30000); i++) {
        bool v = c.verbose;
        if (i) c.verbose = false;
        h.sc.rewind();
        h.execute(c, i == 0);
        c.verbose = v;
        if (h.run->stop) return; // the history does not end: another property
    }
    if (reps > 1) c.cls("long history");
    if (trailing) {
        master_noise(h.sc, last);
        c.note("then noise [%s] on the idle line", hex(last.b, 12).c_str());
    }
    size_t t0 = tr[M].size();
    r.items = keep;
    r.sc.rewind();
    c.note("-- then:");
    r.execute(c, false);
    std::vector<Ev> later(tr[M].begin() + (long)t0, tr[M].end());
    if (later != fresh) {
        size_t i = 0;
        while (i < later.size() && i < fresh.size() && later[i] == fresh[i]) i++;
        c.fail("history-dependent", "after the history event %zu is %s, on a fresh master it is %s", i, i < later.size() ? later[i].str().c_str() : "missing", i < fresh.size() ? fresh[i].str().c_str() : "missing");
        return;
    }
    for (size_t i = 0; i < tm.size() && !c.failed; i++)
        if (r.run->res[i].out.size() == 1 && r.run->res[i].out[0].k == Ev::TMO && r.run->res[i].tmo_txdone != tm[i])
            c.fail("timeout-shifted", "%s: timeout %llu ticks after sending, on a fresh master %llu", istr(r, i).c_str(), (unsigned long long)r.run->res[i].tmo_txdone, (unsigned long long)tm[i]);
    c.nontrivial();
}
void run_C25(Ctx &c) {
    Rounds rounds(c.src);
    MCase m;
    MOpt o;
    o.nmax = 4;
    o.isr = true;
    o.sync = 30;
    o.foreign = 5;
    o.mid = 60;
    o.illegal = 5;
    o.maxq = c.src.chance(80) ? 12 : 300;
    static const uint32_t k[8] = {10, 4, 4, 4, 4, 0, 0, 0};
    memcpy(o.kinds, k, sizeof k);
    rounds.tame(o);
    gen_mcase(c.src, m, o);
    uint64_t f0 = isr_fired;
    m.rounds(c, rounds, [&] {
        if (isr_fired > f0) c.nontrivial();
        judge_returns(c, m);
        judge_all_executed(c, m);
        for (size_t i = 0; i < m.items.size() && !c.failed; i++) if (!m.items[i].illegal) judge_exact(c, m, i, true);
        strays(c, m);
        tx_stable(c);
    });
}
// ---------------------------------------------------------------- C29
void run_C29(Ctx &c) {
    Src &s = c.src;
    Rounds rounds(s);
    MCase h, r;
    MOpt o;
    o.nmin = 1;
    o.nmax = 3;
    o.maxq = s.chance(70) ? 20 : 2000;
    o.illegal = 20;
    o.sync = 15;
    static const uint32_t k[8] = {6, 4, 4, 3, 3, 3, 1, 2};
    memcpy(o.kinds, k, sizeof k);
    rounds.tame(o);
    bool used = s.chance(75);
    Req last = gen_req(s);
    Sched sc = gen_sched(s, true, 30);
    if (used) {
        gen_mcase(s, h, o);
        last = h.items.back().r;
        h.execute(c);
        if (h.run->stop) return; // another property
        c.cls("after requests");
    } else {
        port[M].sync = h.sync = s.chance(15);
        op_init_m();
        c.cls("no request yet");
    }
    size_t t0 = tr[M].size();
    auto quiet = [&](const std::string &what) {
        for (size_t i = t0; i < tr[M].size() && !c.failed; i++) {
            const Ev &e = tr[M][i];
            if (e.k == Ev::API || e.k == Ev::RXEN || e.k == Ev::INIT) continue;
            c.fail("unasked", "no request is pending, after %s: %s", what.c_str(), e.str().c_str());
        }
        t0 = tr[M].size();
        return !c.failed;
    };
    std::vector<Op> log;
    if (rounds.any()) rec_ops = &log;
    uint32_t n = s.range(1, c.thorough ? 20 : 10);
    std::vector<Inj> pend;
    for (uint32_t i = 0; i < n && !c.failed; i++) {
        std::string what;
        switch (s.weighted({8, 4, 3, 3, 2, 2})) {
        case 0: { // a frame, mostly one that would answer the last request
            Seg g;
            switch (legal(last) ? s.pick(5) : 4) {
            case 0: case 1: g.b = good_resp(s, last).frame; break;
            case 2: g.b = exc_resp(s, last).frame; break;
            case 3: g.b = gen_foreign(s, last).b; break;
            default: g = gen_noise(s, &last);
            }
            if (s.chance(15)) g.b[s.pick((uint32_t)g.b.size())] ^= (uint8_t)(1 << s.pick(8));
            if (s.chance(15)) g.gaps.push_back(gen_gap(s, g.b.size()));
            if (s.chance(10) && port[M].rx) g.b.insert(g.b.begin(), s.range(1, 3), 0x55);
            c.note("idle line: %s", hex(g.b, 12).c_str());
            what = "bytes " + hex(g.b, 12);
            master_noise(sc, g);
            break;
        }
        case 1: { // single events, possibly in the middle of a poll
            uint8_t ev = (uint8_t[]){O_T15, O_T35, O_FERR, O_RX}[s.pick(4)];
            uint8_t v = s.byte();
            what = "a driver event";
            if (s.chance(60)) op_ev(M, ev, v);
            else { pend.push_back({M, ev, v, s.pick(25)}); op_poll(M, &pend); pend.clear(); }
            break;
        }
        case 2: what = "ticks"; op_ticks(s.val(1, 2 * std::min<uint32_t>(cfg.timeout, 2000))); break;
        case 3: { what = "polls"; for (uint32_t q = s.range(1, 10); q; q--) op_poll(M); break; }
        case 4: { // refused requests
            Req q = gen_req(s, false, 30);
            if (is_single(q.fc)) q.fc = 3;
            q.vals.assign(is_multi(q.fc) ? 2100 : 0, 1);
            q.qty = s.chance(50) ? 0 : (uint16_t)(maxqty(q.fc) + 1 + s.pick(40));
            if ((uint32_t)q.adr + q.qty > 65536) q.adr = 0;
            what = "a refused request";
            op_api(q);
            break;
        }
        default: what = "polls and ticks"; for (uint32_t q = s.range(1, 30); q; q--) { op_ticks(1); op_poll(M); }
        }
        quiet(what);
    }
    rec_ops = nullptr;
    if (c.failed) return;
    rounds.run(c, n, [&] {
        for (auto &x : log) do_op(x);
        return quiet("the same again");
    });
    if (c.failed) return;
    c.nontrivial();
    // the silence ends any bytes left, then requests work as ever
    op_ev(M, O_T15);
    op_poll(M);
    op_ev(M, O_T35);
    op_poll(M);
    if (!quiet("silence")) return;
    MOpt q;
    q.nmax = 2;
    q.maxq = 30;
    static const uint32_t k2[8] = {8, 3, 1, 2, 2, 0, 0, 0};
    memcpy(q.kinds, k2, sizeof k2);
    plain_kinds(q);
    gen_items(s, r, q);
    r.sc = gen_sched(s, false, 30);
    r.sync = h.sync;
    c.note("-- then:");
    r.execute(c, false);
    for (size_t i = 0; i < r.items.size() && !c.failed; i++) judge_exact(c, r, i, true);
    strays(c, r);
}
