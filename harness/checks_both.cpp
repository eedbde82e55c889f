// Properties of both roles: C07, C08, C20..C23.
#include "checks.hpp"

// ---------------------------------------------------------------- C07
static std::string malformed(const Bytes &b, bool master) {
    if (b.size() < 4 || b.size() > 256) return "length " + std::to_string(b.size());
    if (!crc_ok(b)) return "wrong CRC";
    size_t want = 0;
    uint8_t fc = b[1];
    if (master) {
        if (!known_fc(fc)) return "not a request";
        want = is_multi(fc) ? (b.size() > 6 ? 9u + b[6] : 0) : 8;
    } else if (fc & 0x80) want = 5;
    else if (is_read(fc)) want = 5u + b[2];
    else if (known_fc(fc)) want = 8;
    else return "reply with an unsupported function code";
    if (b.size() != want) return "length " + std::to_string(b.size()) + ", its content needs " + std::to_string(want);
    return "";
}
void run_C07(Ctx &c) {
    Src &s = c.src;
    Rounds rounds(s);
    if (s.chance(50)) { // slave
        SlaveCase sc;
        sc.generate(s, rounds.special ? 24 : 2000);
        sc.id = (uint8_t)s.val(0, 255);
        sc.setup();
        Sched sch;
        SlaveLine line(sch);
        static const uint32_t w[12] = {10, 5, 3, 2, 2, 2, 0, 0, 0, 0, 0, 0};
        uint32_t n = s.range(1, 5);
        std::vector<Frame> all;
        auto go = [&](const Frame &f) {
            for (auto &e : line.feed(f)) {
                std::string m = malformed(e.bytes, false);
                if (m.empty() && e.bytes[0] != sc.id) m = "device address " + std::to_string(e.bytes[0]) + " instead of " + std::to_string(sc.id);
                if (!m.empty()) c.fail("malformed", "slave reply %s to %s: %s", hex(e.bytes, 300).c_str(), f.str().c_str(), m.c_str());
                if (e.bytes.size() > 5) c.nontrivial();
                c.cls(e.bytes.size() > 128 ? "long slave reply" : "slave reply");
            }
            c.note("slave id=%u, %s", sc.id, f.str().c_str());
        };
        for (uint32_t i = 0; i < n && !c.failed; i++) {
            Frame f = gen_frame(s, sc, w);
            special_reply(s, sc, f);
            sch = gen_sched(s, false, 8);
            if (rounds.any()) all.push_back(f);
            go(f);
        }
        rounds.run(c, all.size(), [&] {
            for (auto &f : all) {
                sch.rewind();
                if (!c.failed) go(f);
            }
            return true;
        });
    } else {
        MCase m;
        MOpt o;
        static const uint32_t k[8] = {10, 2, 1, 3, 3, 0, 0, 0};
        memcpy(o.kinds, k, sizeof k);
        o.nmax = 5;
        rounds.tame(o);
        gen_mcase(s, m, o);
        size_t t0 = 0;
        m.rounds(c, rounds, [&] {
        for (size_t i = 0; i < m.items.size() && !c.failed; i++)
            for (auto &b : m.run->res[i].sends) {
                std::string e = malformed(b, true);
                if (e.empty() && b[0] != m.items[i].r.slave) e = "device address";
                if (!e.empty()) c.fail("malformed", "request %s transmitted as %s: %s", req_str(m.items[i].r).c_str(), hex(b, 300).c_str(), e.c_str());
                c.nontrivial();
                c.cls(b.size() > 128 ? "long master request" : "master request");
            }
        for (; t0 < tr[M].size(); t0++) if (tr[M][t0].k == Ev::SEND) { // whatever it belongs to
            const Ev &e = tr[M][t0];
            std::string x = malformed(e.bytes, true);
            if (!x.empty()) c.fail("malformed", "master transmitted %s: %s", hex(e.bytes, 300).c_str(), x.c_str());
        }
        });
    }
    tx_stable(c);
}
// ---------------------------------------------------------------- C08
void run_C08(Ctx &c) {
    Src &s = c.src;
    Rounds rounds(s);
    if (s.chance(50)) {
        SlaveCase sc;
        sc.generate(s, rounds.special ? 24 : 2000);
        sc.setup();
        Sched sch;
        SlaveLine line(sch);
        static const uint32_t w[12] = {6, 8, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0};
        uint32_t n = s.range(1, 4);
        struct Step { Frame f; Bytes good; std::string what; bool dmg; };
        std::vector<Step> all;
        auto go = [&](const Frame &f, const Bytes &good, const std::string &what, bool dmg) {
            std::vector<Ev> out = line.feed(f);
            c.note("slave id=%u, %s, damage: %s", sc.id, f.str().c_str(), dmg ? what.c_str() : "none");
            if (dmg) {
                c.nontrivial();
                c.cls("damaged request");
                if (!out.empty()) c.fail("damaged-accepted", "request %s damaged (%s) to %s is answered by %s", hex(good, 40).c_str(), what.c_str(), hex(f.b, 40).c_str(), out_str(out, 2).c_str());
                std::string d = sc.m.judge_data(Exp());
                if (!d.empty()) c.fail("damaged-executed", "request %s damaged (%s) to %s is executed: %s", hex(good, 40).c_str(), what.c_str(), hex(f.b, 40).c_str(), d.c_str());
            }
            sc.m.sync_from_app();
        };
        for (uint32_t i = 0; i < n && !c.failed; i++) {
            Frame f = gen_frame(s, sc, w);
            sch = gen_sched(s, false, 8);
            Bytes good = f.b;
            std::string what;
            bool dmg = s.chance(80);
            if (dmg) damage(s, f.b, 0, &what);
            if (f.b == good) dmg = false;
            if (rounds.any()) all.push_back({f, good, what, dmg});
            go(f, good, what, dmg);
        }
        rounds.run(c, all.size(), [&] {
            for (auto &x : all) {
                sch.rewind();
                if (!c.failed) go(x.f, x.good, x.what, x.dmg);
            }
            return true;
        });
    } else {
        MCase m;
        MOpt o;
        o.nmax = 3;
        static const uint32_t k[8] = {5, 3, 0, 0, 0, 0, 0, 0};
        memcpy(o.kinds, k, sizeof k);
        o.maxq = s.chance(60) ? 30 : 65535;
        rounds.tame(o);
        gen_mcase(s, m, o);
        for (auto &it : m.items) {
            Att good = it.att[0];
            std::vector<Att> v;
            for (uint32_t a = 0; a <= cfg.repeat && s.chance(80); a++) {
                Att t = good;
                t.kind = A_FREE;
                t.segs.resize(1);
                std::string w;
                Bytes before = t.segs[0].b;
                damage(s, t.segs[0].b, 0, &w);
                t.sub = "damaged";
                if (t.segs[0].b != before) v.push_back(t);
            }
            if (v.size() <= cfg.repeat) v.push_back(good);
            it.att = v;
        }
        m.rounds(c, rounds, [&] {
        for (size_t i = 0; i < m.items.size() && !c.failed; i++) {
            Item &it = m.items[i];
            Res &r = m.run->res[i];
            if (r.ret != 0 || r.sends.empty() || it.att[0].kind != A_FREE) continue;
            c.nontrivial();
            c.cls("damaged response");
            bool ok = r.out.size() <= 1 && (r.out.empty() || r.out[0].k == Ev::TMO || r.out[0].k == Ev::COMM);
            if (it.att.size() <= r.sends.size() && it.att.back().kind != A_FREE && r.out == it.att.back().evs) ok = true;
            if (!ok) c.fail("damaged-accepted", "request %s: damaged response [%s] gives %s", req_str(it.r).c_str(), hex(it.att[0].segs[0].b, 40).c_str(), out_str(r.out).c_str());
        }
        });
    }
}
// ---------------------------------------------------------------- C20
static Req any_req(Src &s) {
    Req r;
    r.fc = FCS[s.pick(8)];
    r.slave = s.chance(60) ? 1 : s.byte();
    r.adr = s.u16();
    r.qty = is_single(r.fc) ? 1 : s.chance(85) ? (uint16_t)s.val(0, maxqty(r.fc) + 2) : s.u16();
    r.sval = s.u16();
    gen_vals(s, r);
    return r;
}
// the same operations again and again
static void replay_ops(Ctx &c, Rounds &rounds, const std::vector<Op> &log, size_t transactions) {
    rec_ops = nullptr;
    rounds.run(c, transactions, [&] {
        for (auto &o : log) if (o.k != O_TXDONE || port[o.role].busy) do_op(o);
        return true;
    });
}
static void arbitrary(Ctx &c, uint32_t isr_pct, bool watch = false) {
    Src &s = c.src;
    Rounds rounds(s);
    SlaveCase sc;
    sc.generate(s, 130);
    sc.id = s.chance(70) ? 1 : s.byte();
    sc.setup();
    port[M].sync = s.chance(20);
    port[S].sync = s.chance(20);
    op_init_m();
    std::vector<Op> log;
    if (c.verbose || rounds.any()) rec_ops = &log;
    uint32_t n = rounds.any() || s.chance(97) ? s.range(5, 120) : s.range(100, c.thorough ? 4000 : 900);
    std::vector<Inj> pend;
    Req lastreq;
    std::deque<Req> incb;
    if (s.chance(20)) for (uint32_t i = 0, k = s.range(1, 4); i < k; i++) incb.push_back(any_req(s));
    on_cb = [&](const Ev &) {
        if (incb.empty()) return;
        Req r = incb.front();
        incb.pop_front();
        op_api(r);
    };
    bool isr = s.chance(isr_pct);
    watch_app = watch;
    uint32_t sent = 0;
    static const uint32_t wfr[12] = {6, 6, 2, 3, 2, 3, 1, 2, 1, 4, 3, 3};
    auto bytes = [&](int role, const Bytes &b) {
        for (uint8_t x : b) {
            if (isr && s.chance(5)) pend.push_back({(uint8_t)role, O_RX, x, s.pick(200)});
            else op_ev(role, O_RX, x);
        }
        sent += (uint32_t)b.size();
    };
    for (uint32_t i = 0; i < n; i++) {
        int role = (int)s.pick(2);
        switch (s.weighted({14, 8, 6, 6, 3, 4, 10, 6, 3, 1, 2})) {
        case 0: op_poll(role, &pend); break;
        case 1: {
            uint8_t k = s.pick(2) ? O_T15 : O_T35;
            if (isr && s.chance(40)) pend.push_back({(uint8_t)role, k, 0, s.pick(200)});
            else op_ev(role, k);
            break;
        }
        case 2: if (port[role].busy) { if (isr && s.chance(40)) pend.push_back({(uint8_t)role, O_TXDONE, 0, s.pick(200)}); else op_ev(role, O_TXDONE); } else op_ev(role, O_T35); break;
        case 3: { Req r = s.chance(60) ? gen_req(s) : any_req(s); if (s.chance(50)) r.slave = sc.id; lastreq = r; Op o; o.role = M; o.k = O_API; o.req = std::make_shared<Req>(r); o.inj.swap(pend); do_op(o); break; }
        case 4: op_ev(role, O_FERR); break;
        case 5: op_ticks(s.pick(4) ? 1 : cfg.timeout); break;
        case 6: { // a frame, then its end
            Bytes b;
            if (role == S) b = gen_frame(s, sc, wfr).b;
            else switch (s.pick(5)) {
                case 0: b = good_resp(s, legal(lastreq) ? lastreq : Req{}).frame; break;
                case 1: b = exc_resp(s, lastreq).frame; break;
                case 2: { Req q = legal(lastreq) ? lastreq : gen_req(s); b = gen_mismatch(s, q).segs[0].b; break; }
                case 3: b = {lastreq.slave, lastreq.fc, s.byte()}; for (uint32_t k = s.pick(20); k; k--) b.push_back(s.byte()); b = with_crc(b); break;
                default: b = enc(legal(lastreq) ? lastreq : Req{});
            }
            bytes(role, b);
            if (s.chance(85)) { op_ev(role, O_T15); op_poll(role, &pend); op_ev(role, O_T35); op_poll(role, &pend); }
            break;
        }
        case 7: { // raw bytes
            Bytes b;
            uint32_t k = s.weighted({10, 3, 1}) ;
            k = k == 0 ? s.range(1, 12) : k == 1 ? s.range(200, 300) : s.range(250, 1500);
            uint8_t x = s.byte();
            for (uint32_t q = 0; q < k; q++) b.push_back(q < 12 ? s.byte() : (uint8_t)(x + q));
            bytes(role, b);
            break;
        }
        case 8: for (int k = 0; k < 4; k++) op_poll(role, &pend); break;
        case 9: if (role == M) op_init_m(gen_baud(s), (int)s.pick(3)); else op_init_s(s.byte(), gen_baud(s), (int)s.pick(3)); break;
        default: {
            int t = (int)s.pick(4);
            op_reg(t, s.chance(15) ? s.val(0, 65535) : s.val(0, cfg.size[t] - 1), s.chance(5) ? NOVAR : s.pick(t < 2 ? nbit : nreg));
        }
        }
    }
    on_cb = nullptr;
    replay_ops(c, rounds, log, 1 + n / 20);
    if (sent >= 8) c.nontrivial();
    c.cls(sent > 256 ? "more than a buffer of bytes" : "short");
    if (isr) c.cls("with interrupts");
    if (c.verbose) for (auto &o : log) c.note("%s", o.str().c_str());
}
void run_C20(Ctx &c) { arbitrary(c, 30); }
// ---------------------------------------------------------------- C21
void run_C21(Ctx &c) {
    Src &s = c.src;
    Rounds rounds(s);
    SlaveCase sc;
    bool huge = cfg.size[0] > 5000;
    sc.generate(s, rounds.special ? 24 : huge ? 300 : 2000);
    sc.setup();
    Sched ssch;
    SlaveLine line(ssch);
    MCase m;
    m.sync = s.chance(10);
    port[S].sync = s.chance(15);
    uint32_t n = s.range(1, 6);
    for (uint32_t i = 0; i < n; i++) {
        Item it;
        uint32_t k = s.weighted({10, 3, 1});
        it.r = k == 0 ? gen_valid_req(s, sc, s.chance(50)) : gen_req(s);
        if (k == 1) {
            it.r.slave = sc.id;
            uint32_t sz = cfg.size[fc_tab(it.r.fc)];
            if (s.chance(70)) it.r.adr = (uint16_t)std::min<uint32_t>(65536 - it.r.qty, s.val(0, sz));
        }
        it.after = i;
        if (i && s.chance(30)) it.after = m.items.back().after;
        Att a;
        a.kind = A_FREE;
        it.att.push_back(a);
        m.items.push_back(it);
    }
    m.sc = gen_sched(s, false, 30);
    std::vector<Sched> slave_sched;
    for (uint32_t i = 0; i < n; i++) slave_sched.push_back(gen_sched(s, false, 8));
    std::vector<uint32_t> errs;  // number of damaged replies per request
    for (uint32_t i = 0; i < n; i++) errs.push_back(cfg.repeat && s.chance(15) ? s.range(1, cfg.repeat) : 0);
    // damage is drawn before the run, so that replay does not depend on the code under test
    struct D { uint32_t pos, bit; bool gap; };
    std::vector<D> dm;
    for (uint32_t i = 0; i < n; i++) dm.push_back({s.pick(64), s.pick(8), false});
    port[M].sync = m.sync;
    op_init_m();
    auto go = [&] {
        m.run.reset(new MasterRun(&m.items, m.sc));
        std::vector<std::vector<Ev>> want(n);
        std::vector<Exp> exps(n);
        std::vector<uint32_t> tries(n, 0);
        std::string bad;
        MasterRun &r = *m.run;
        r.remote = [&](const Bytes &req) -> Bytes {
            size_t i = (size_t)r.cur;
            Frame f;
            f.b = req;
            f.kind = "request";
            ssch = slave_sched[i];
            Exp e = sc.m.expect(req, false);
            Req &q = m.items[i].r;
            if (tries[i] == 0) {
                if (e.fk == F_READ) want[i] = ev_read(q, Bytes(e.replies[0].begin() + 3, e.replies[0].end() - 2));
                else if (e.fk == F_WRITE) want[i] = {ev_write(q)};
                else if (!e.replies.empty()) want[i] = {ev_exc(q, e.replies[0][2])};
                exps[i] = e;
            }
            std::vector<Ev> out = line.feed(f);
            std::string d = sc.m.judge_data(e);
            sc.m.sync_from_app();
            if (!d.empty() && bad.empty()) bad = "after " + req_str(q) + ": " + d;
            tries[i]++;
            if (out.empty()) return {};
            Bytes b = out.back().bytes;
            if (tries[i] <= errs[i]) { size_t p = 1 + dm[i].pos % (b.size() - 1); b[p] ^= 1 << dm[i].bit; }
            return b;
        };
        r.run();
        if (c.verbose) {
            c.note("slave id=%u", sc.id);
            r.note(c);
        }
        if (!bad.empty()) c.fail("slave-data", "%s", bad.c_str());
        for (uint32_t i = 0; i < n && !c.failed; i++) {
            Req &q = m.items[i].r;
            Res &x = r.res[i];
            if (!x.issued || x.ret != 0) {
                if (x.issued && x.want == 0) c.fail("refused", "%s: refused with %d", req_str(q).c_str(), x.ret);
                continue;
            }
            bool mine = q.slave == sc.id;
            if (x.sends.empty()) { c.fail("not-sent", "%s never transmitted", req_str(q).c_str()); break; }
            c.cls(mine ? FKN[exps[i].fk] : "other address");
            if (errs[i] && mine) c.cls("with line errors repaired by retries");
            if (mine) c.nontrivial();
            bool ok = mine ? x.out == want[i] : (x.out.size() == 1 && x.out[0].k == Ev::TMO);
            if (!ok) c.fail("end-to-end", "%s: master application got %s%s, expected %s", req_str(q).c_str(), out_str(x.out).c_str(), x.hung ? " (request never ended)" : "", mine ? out_str(want[i]).c_str() : "a timeout");
            else if (mine && x.sends.size() != errs[i] + 1) c.fail("sends", "%s: transmitted %zu times, expected %u", req_str(q).c_str(), x.sends.size(), errs[i] + 1);
        }
        if (!c.failed && (r.stray_cb || r.stray_send)) c.fail("stray", "%s", r.stray.c_str());
    };
    go();
    if (!rounds.any()) return;
    std::vector<Item> keep = m.items;
    rounds.run(c, n, [&] {
        m.items = keep;
        m.sc.rewind();
        if (m.run->stop) return false;
        go();
        return true;
    });
}
// ---------------------------------------------------------------- C22
static void random_master_ops(Ctx &c, uint32_t n) {
    Src &s = c.src;
    Req last;
    for (uint32_t i = 0; i < n; i++) {
        switch (s.weighted({8, 6, 4, 4, 3, 2, 2})) {
        case 0: op_poll(M); break;
        case 1: last = gen_req(s, false, 30); if (s.chance(10)) last.qty = 0; op_api(last); break;
        case 2: if (port[M].busy) op_ev(M, O_TXDONE); break;
        case 3: {
            Bytes b;
            switch (s.pick(3)) {
            case 0: b = legal(last) ? good_resp(s, last).frame : Bytes{1}; break;
            case 1: b = exc_resp(s, last).frame; if (s.chance(50)) b[2] ^= 1; break;
            default: b = gen_noise(s, &last).b;
            }
            if (s.chance(30)) b.resize(1 + s.pick((uint32_t)b.size()));
            for (uint8_t x : b) op_ev(M, O_RX, x);
            if (s.chance(20)) op_ev(M, O_FERR);
            if (s.chance(70)) op_ev(M, O_T15);
            if (s.chance(50)) op_poll(M);
            if (s.chance(70)) op_ev(M, O_T35);
            break;
        }
        case 4: op_ev(M, s.pick(2) ? O_T15 : O_T35); break;
        case 5: op_ev(M, O_FERR); break;
        default: op_ticks(s.range(1, cfg.timeout));
        }
    }
}
void run_C22(Ctx &c) {
    Src &s = c.src;
    Rounds rounds(s);
    uint32_t baud = gen_baud(s);
    int par = (int)s.pick(3);
    if (s.chance(50)) { // slave
        SlaveCase sc;
        sc.generate(s, 500);
        bool same = s.chance(25); // initialised again with the same parameters
        sc.baud = same ? baud : gen_baud(s);
        sc.parity = same ? par : (int)s.pick(3);
        sc.setup();
        auto params = [&](uint32_t b, int p, const char *when) {
            unsigned n = 0;
            const Ev *last = nullptr;
            for (auto &e : tr[S]) if (e.k == Ev::INIT) { n++; last = &e; }
            if (!last || last->val != b || last->code != p) c.fail("init-parameters", "slave %s: driver initialised with %s, expected baud=%u parity=%d", when, last ? last->str().c_str() : "nothing", b, p);
            else if (!port[S].t15 || !port[S].t35 || !port[S].txdone || !port[S].ferr) c.fail("init-subscriptions", "slave %s: not subscribed to all driver events", when);
            else if (!port[S].rx || !port[S].rx->data) c.fail("init-reception", "slave %s: reception not enabled", when);
        };
        params(sc.baud, sc.parity, "start");
        if (c.failed) return;
        Sched sch;
        SlaveLine line(sch);
        static const uint32_t w[12] = {6, 6, 1, 1, 1, 1, 3, 3, 3, 2, 3, 0};
        uint32_t times = s.range(1, 2);
        for (uint32_t q = 0; q < times && !c.failed; q++) {
            std::vector<Op> log;
            if (rounds.any() && q == 0) rec_ops = &log;
            uint32_t n = s.range(0, 3);
            for (uint32_t i = 0; i < n; i++) {
                sch = gen_sched(s, false, 8);
                line.feed(gen_frame(s, sc, w));
            }
            // stop in the middle of something
            uint32_t how = s.pick(6);
            Frame f = gen_frame(s, sc, w);
            uint32_t cut = s.pick((uint32_t)f.b.size() + 1);
            if (how >= 1) for (uint32_t i = 0; i < (how == 1 ? cut : f.b.size()); i++) op_ev(S, O_RX, f.b[i]);
            if (s.chance(25)) op_ev(S, O_FERR);
            if (how >= 2) op_ev(S, O_T15);
            if (s.chance(60)) op_poll(S);
            if (how >= 3) op_ev(S, O_T35);
            if (how >= 4) { op_poll(S); op_poll(S); }
            if (how >= 5 && port[S].busy && s.chance(50)) op_ev(S, O_TXDONE);
            if (!same) sc.id = (uint8_t)s.val(1, 247);
            sc.m.id = sc.id;
            if (s.chance(10)) sc.remap(s);
            c.note("re-initialised (stage %u, %u bytes of %s) as slave %u", how, cut, f.str().c_str(), sc.id);
            op_init_s(sc.id, baud, par);
            rec_ops = nullptr;
            if (q == 0) replay_ops(c, rounds, log, 1 + n);
            params(baud, par, "re-initialisation");
            sc.m.sync_from_app();
            line.ln.pend.clear();
            c.cls("slave re-initialised");
            c.nontrivial();
            uint32_t k = s.range(1, 3);
            bool rest = how == 1 && cut < f.b.size() && s.chance(50); // the sender of the interrupted frame goes on
            for (uint32_t i = 0; i < k && !c.failed; i++) {
                sch = gen_sched(s, false, 8);
                static const uint32_t w2[12] = {6, 6, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0};
                Frame g;
                if (rest && i == 0) {
                    g.b.assign(f.b.begin() + cut, f.b.end());
                    g.kind = "rest of the interrupted frame";
                } else g = gen_frame(s, sc, w2);
                Exp e = sc.m.expect(g.b, !g.gaps.empty());
                std::vector<Ev> out = line.feed(g);
                c.note("then %s -> %s", g.str().c_str(), out_str(out, 2).c_str());
                std::string r = judge_reply(e, out, sc.id, g.b.size() > 1 ? g.b[1] : 0);
                if (!r.empty()) c.fail("after-reinit", "%s after re-initialisation: %s", g.str().c_str(), r.c_str());
                std::string d = sc.m.judge_data(e);
                if (!d.empty()) c.fail("after-reinit", "%s after re-initialisation: %s", g.str().c_str(), d.c_str());
                sc.m.sync_from_app();
            }
        }
    } else {
        MCase r;
        MOpt o;
        o.nmin = 1;
        o.nmax = 2 + std::min<uint32_t>(cfg.queue, 7);
        o.burst = 60;
        o.maxq = 30;
        o.illegal = 4;
        static const uint32_t k[8] = {6, 3, 3, 3, 3, 0, 0, 0};
        memcpy(o.kinds, k, sizeof k);
        gen_items(s, r, o);
        r.sc = gen_sched(s, false, 30);
        std::vector<Item> keep = r.items;
        bool sync = s.chance(20);
        port[M].sync = sync;
        op_init_m(baud, par);
        auto params = [&](const char *when) {
            const Ev *last = nullptr;
            for (auto &e : tr[M]) if (e.k == Ev::INIT) last = &e;
            if (!last || last->val != baud || last->code != par) c.fail("init-parameters", "master %s: driver initialised with %s, expected baud=%u parity=%d", when, last ? last->str().c_str() : "nothing", baud, par);
            else if (!port[M].t15 || !port[M].t35 || !port[M].txdone || !port[M].ferr) c.fail("init-subscriptions", "master %s: not subscribed to all driver events", when);
        };
        params("start");
        if (c.failed) return;
        size_t t0 = tr[M].size();
        r.execute(c, false);
        std::vector<Ev> fresh(tr[M].begin() + (long)t0, tr[M].end());
        bool ends = !r.run->stop;
        world_reset();
        port[M].sync = sync;
        std::vector<Op> log;
        if (rounds.any()) rec_ops = &log;
        if (s.chance(25)) op_init_m(baud, par); // the same parameters
        else op_init_m(gen_baud(s), (int)s.pick(3));
        random_master_ops(c, s.range(0, 25));
        rec_ops = nullptr;
        replay_ops(c, rounds, log, 2);
        op_init_m(baud, par);
        params("re-initialisation");
        if (c.failed) return;
        c.note("-- the same after a history and re-initialisation:");
        t0 = tr[M].size();
        r.items = keep;
        r.sc.rewind();
        r.execute(c, false);
        if (!ends && r.run->stop) return;
        std::vector<Ev> later(tr[M].begin() + (long)t0, tr[M].end());
        c.cls("master re-initialised");
        c.nontrivial();
        if (later != fresh) {
            size_t i = 0;
            while (i < later.size() && i < fresh.size() && later[i] == fresh[i]) i++;
            c.fail("after-reinit", "event %zu after re-initialisation is %s, on a fresh master it is %s", i, i < later.size() ? later[i].str().c_str() : "missing", i < fresh.size() ? fresh[i].str().c_str() : "missing");
        }
    }
}
// ---------------------------------------------------------------- C23
void run_C23(Ctx &c) {
    Src &s = c.src;
    Rounds rounds(s);
    uint32_t again = rounds.special ? 600 : rounds.medium ? 80 : 0;
    if (again) c.cls("repeated");
    auto repeat = [&](const std::vector<Op> &v) { // without the initialisation
        for (uint32_t i = 0; i < again; i++) for (auto &o : v) if (o.k != O_INIT && (o.k != O_TXDONE || port[o.role].busy)) do_op(o);
    };
    std::vector<Op> mo, so;
    // master alone
    MCase m;
    MOpt o;
    o.nmax = 4;
    o.maxq = s.chance(70) ? 20 : 2000;
    o.noise = 5;
    o.foreign = 5;
    static const uint32_t k[8] = {10, 4, 2, 3, 3, 2, 1, 2};
    memcpy(o.kinds, k, sizeof k);
    gen_mcase(s, m, o);
    port[M].sync = m.sync;
    rec_ops = &mo;
    m.execute(c);
    rec_ops = nullptr;
    repeat(mo);
    std::vector<Ev> mt = tr[M];
    // slave alone
    world_reset();
    SlaveCase sc;
    sc.generate(s, 200);
    // the master may ask the very slave (or one of the same identifier): the same frames on both lines
    std::vector<Bytes> same;
    if (s.chance(40) && !m.items.empty()) {
        const Req &r = m.items[s.pick((uint32_t)m.items.size())].r;
        if (r.slave >= 1 && r.slave <= 247) {
            sc.id = r.slave;
            for (auto &it : m.items) if (it.r.slave == sc.id) same.push_back(enc(it.r));
            c.cls("same identifier on both lines");
        }
    }
    rec_ops = &so;
    sc.setup();
    Sched sch;
    SlaveLine line(sch);
    static const uint32_t w[12] = {8, 8, 1, 2, 2, 2, 2, 2, 2, 2, 2, 0};
    uint32_t n = s.range(1, 5);
    for (uint32_t i = 0; i < n; i++) {
        sch = gen_sched(s, false, 8);
        Frame f = gen_frame(s, sc, w);
        if (!same.empty() && s.chance(50)) {
            f = Frame();
            f.kind = "request of the master";
            f.b = same[s.pick((uint32_t)same.size())];
        }
        c.note("slave id=%u frame %s", sc.id, f.str().c_str());
        line.feed(f);
    }
    rec_ops = nullptr;
    repeat(so);
    std::vector<Ev> st = tr[S];
    std::vector<uint8_t> bits((uint8_t *)abit, (uint8_t *)abit + nbit);
    std::vector<uint16_t> regs(areg, areg + nreg);
    // both, interleaved
    world_reset();
    port[M].sync = m.sync;
    sc.fill_vars();
    size_t a = 0, b = 0;
    bool isr = s.chance(50);
    uint32_t often = s.chance(50) ? 10 : 40, spread = s.chance(50) ? 30 : s.chance(50) ? 150 : 800;
    uint32_t runlen[2] = {s.range(1, 40), s.range(1, 40)};
    if (s.chance(20)) runlen[0] = runlen[1] = 100000; // one entirely before the other
    int turn = (int)s.pick(2);
    uint32_t stops = 0;
    uint32_t lap[2] = {0, 0};
    for (;;) {
        if (a == mo.size() && lap[0] < again) { a = 0; lap[0]++; }
        if (b == so.size() && lap[1] < again) { b = 0; lap[1]++; }
        if (a >= mo.size() && b >= so.size()) break;
        std::vector<Op> &v = turn ? so : mo;
        size_t &i = turn ? b : a;
        uint32_t len = stops < 60 ? s.range(1, runlen[turn]) : 50;
        stops++;
        for (uint32_t q = 0; q < len && i < v.size(); q++) {
            Op op = v[i++];
            if (lap[turn] && (op.k == O_INIT || (op.k == O_TXDONE && !port[op.role].busy))) continue;
            // events of the other line may interrupt this call
            if (isr && (op.k == O_POLL || op.k == O_API) && stops < 60 && s.chance(often)) {
                std::vector<Op> &ov = turn ? mo : so;
                size_t &oi = turn ? a : b;
                while (oi < ov.size() && op.inj.size() < 12 && (ov[oi].k == O_RX || ov[oi].k == O_T15 || ov[oi].k == O_T35 || ov[oi].k == O_FERR || (ov[oi].k == O_TICK && ov[oi].a <= 1) || (ov[oi].k == O_POLL && ov[oi].inj.empty() && op.k == O_POLL))) {
                    op.inj.push_back({ov[oi].role, ov[oi].k, ov[oi].v, s.pick(spread)});
                    oi++;
                }
            }
            do_op(op);
        }
        turn = !turn;
    }
    c.nontrivial();
    c.cls(isr ? "interleaved, with interrupts" : "interleaved");
    auto cmp = [&](const std::vector<Ev> &x, const std::vector<Ev> &y, const char *who) {
        if (x == y) return;
        size_t i = 0;
        while (i < x.size() && i < y.size() && x[i] == y[i]) i++;
        c.fail("influence", "%s: event %zu is %s, alone it is %s", who, i, i < y.size() ? y[i].str().c_str() : "missing", i < x.size() ? x[i].str().c_str() : "missing");
    };
    cmp(mt, tr[M], "master");
    cmp(st, tr[S], "slave");
    if (!c.failed && (memcmp(bits.data(), abit, nbit) || memcmp(regs.data(), areg, nreg * 2))) c.fail("influence", "slave application data differ from those of the slave alone");
    tx_stable(c);
}
// ---------------------------------------------------------------- C26
// anything the line, the timers and the main loop can do to a slave
static void random_slave_ops(Ctx &c, SlaveCase &sc, uint32_t n, bool inject) {
    Src &s = c.src;
    static const uint32_t w[12] = {6, 6, 2, 2, 1, 1, 2, 2, 2, 2, 2, 1};
    std::vector<Inj> pend;
    for (uint32_t i = 0; i < n; i++) {
        switch (s.weighted({6, 8, 2, 2, 1})) {
        case 0: op_poll(S, &pend); break;
        case 1: {
            Bytes b = gen_frame(s, sc, w).b;
            uint32_t how = s.pick(5);
            if (how == 0) b.resize(1 + s.pick((uint32_t)b.size()));
            for (uint8_t x : b) op_ev(S, O_RX, x);
            if (how == 1) op_ev(S, O_FERR);
            if (inject && s.chance(20)) pend.push_back({S, O_T35, 0, s.pick(12)});
            op_ev(S, O_T15);
            op_poll(S, &pend);
            if (how != 2) op_ev(S, O_T35);
            for (uint32_t k = s.pick(5); k; k--) op_poll(S, &pend);
            break;
        }
        case 2: op_ev(S, s.pick(2) ? O_T15 : O_T35); break;
        case 3: if (port[S].busy) op_ev(S, O_TXDONE); break;
        default: op_ev(S, O_FERR);
        }
    }
    if (!pend.empty()) op_poll(S, &pend);
}
void run_C26(Ctx &c) {
    Src &s = c.src;
    Rounds rounds(s);
    uint32_t how = s.pick(4); // 0 before any initialisation, 1 after one in an unsupported mode, 2 both, 3 after service
    uint32_t baud = gen_baud(s);
    int par = (int)s.pick(3);
    static const char *hows[] = {"before initialisation", "unsupported mode from the start", "not initialised, then unsupported mode", "unsupported mode after service"};
    c.cls(hows[how]);
    c.nontrivial();
    if (s.chance(50)) {
        c.cls("slave");
        SlaveCase sc;
        sc.generate(s, 300);
        sc.baud = baud;
        sc.parity = par;
        port[S].sync = s.chance(15);
        std::vector<uint8_t> bits;
        std::vector<uint16_t> words;
        size_t t0 = 0;
        auto mark = [&] {
            bits.assign((uint8_t *)abit, (uint8_t *)abit + nbit);
            words.assign(areg, areg + nreg);
            t0 = tr[S].size();
        };
        auto inert = [&](const char *when) {
            for (size_t i = t0; i < tr[S].size(); i++)
                if (tr[S][i].k == Ev::SEND) { c.fail("inert-slave", "slave %s transmitted: %s", when, tr[S][i].str().c_str()); return; }
            if (memcmp(bits.data(), abit, nbit) || memcmp(words.data(), areg, nreg * 2)) c.fail("inert-slave", "slave %s changed application data", when);
        };
        uint32_t reg_first = s.pick(2);
        sc.m.id = sc.id;
        sc.m.reset(sc.bits, sc.words);
        sc.fill_vars();
        auto reg_all = [&] { for (auto &r : sc.regs) { sc.m.map_set((int)r[0], r[1], r[2]); op_reg((int)r[0], r[1], r[2]); } };
        if (reg_first) reg_all();
        if (how == 0 || how == 2) {
            mark();
            c.note("slave not initialised");
            random_slave_ops(c, sc, s.range(1, 8), true);
            inert("before initialisation");
        }
        if (how == 3) {
            if (!reg_first) { reg_all(); reg_first = 1; }
            op_init_s(sc.id, gen_baud(s), (int)s.pick(3));
            random_slave_ops(c, sc, s.range(0, 8), false);
        }
        if (how != 0 && !c.failed) {
            mark();
            c.note("slave initialised in an unsupported mode (%s)", hows[how]);
            op_init_s(s.chance(70) ? sc.id : s.byte(), s.chance(40) ? baud : gen_baud(s), s.chance(50) ? par : (int)s.pick(3), true);
            inert("initialised in an unsupported mode");
            random_slave_ops(c, sc, s.range(1, 8), true);
            inert("in an unsupported mode");
        }
        if (c.failed) return;
        if (!reg_first) reg_all();
        op_init_s(sc.id, baud, par);
        sc.m.sync_from_app();
        Sched sch;
        SlaveLine line(sch);
        for (uint32_t i = 0, k = s.range(1, 3); i < k && !c.failed; i++) {
            sch = gen_sched(s, false, 8);
            static const uint32_t w2[12] = {6, 6, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0};
            Frame g = gen_frame(s, sc, w2);
            Exp e = sc.m.expect(g.b, !g.gaps.empty());
            std::vector<Ev> out = line.feed(g);
            c.note("then, in RTU mode, %s -> %s", g.str().c_str(), out_str(out, 2).c_str());
            std::string r = judge_reply(e, out, sc.id, g.b.size() > 1 ? g.b[1] : 0);
            if (!r.empty()) c.fail("service-after", "%s in RTU mode afterwards: %s", g.str().c_str(), r.c_str());
            std::string d = sc.m.judge_data(e);
            if (!d.empty()) c.fail("service-after", "%s in RTU mode afterwards: %s", g.str().c_str(), d.c_str());
            sc.m.sync_from_app();
        }
    } else {
        c.cls("master");
        MCase r;
        MOpt o;
        o.nmin = 1;
        o.nmax = 1 + std::min<uint32_t>(cfg.queue, 6);
        o.burst = 70;
        o.maxq = 30;
        o.illegal = 4;
        static const uint32_t k[8] = {6, 3, 3, 3, 3, 0, 0, 0};
        memcpy(o.kinds, k, sizeof k);
        gen_items(s, r, o);
        r.sc = gen_sched(s, false, 20);
        std::vector<Item> keep = r.items;
        bool sync = s.chance(20);
        port[M].sync = sync;
        op_init_m(baud, par);
        size_t t0 = tr[M].size();
        r.execute(c, false);
        std::vector<Ev> fresh(tr[M].begin() + (long)t0, tr[M].end());
        bool ends = !r.run->stop;
        world_reset();
        port[M].sync = sync;
        auto inert = [&](const char *when) {
            c.note("master %s", when);
            size_t t1 = tr[M].size();
            uint32_t n = rounds.special ? 400 : rounds.medium || s.chance(10) ? cfg.queue + 5 : s.range(1, 12);
            bool req = n > 12;
            for (uint32_t i = 0; i < n; i++) {
                if (req || s.chance(40)) { Req q = gen_req(s, true, 40); if (s.chance(15)) q.qty = (uint16_t)s.pick(3) * 1000; if (q.vals.size() < q.qty) q.vals.resize(q.qty); op_api(q); }
                else random_master_ops(c, 1);
            }
            op_poll(M);
            op_poll(M);
            for (size_t i = t1; i < tr[M].size() && !c.failed; i++) {
                const Ev &e = tr[M][i];
                if (e.k == Ev::API && e.val == 0) c.fail("inert-master", "master %s accepted a request", when);
                else if (e.k != Ev::API && e.k != Ev::INIT && e.k != Ev::RXEN) c.fail("inert-master", "master %s: %s", when, e.str().c_str());
            }
        };
        if (how == 0 || how == 2) inert("before initialisation");
        if (how == 3) {
            op_init_m(gen_baud(s), (int)s.pick(3));
            random_master_ops(c, s.range(0, 25));
        }
        if (how != 0 && !c.failed) {
            op_init_m(s.chance(40) ? baud : gen_baud(s), s.chance(50) ? par : (int)s.pick(3), true);
            inert("in an unsupported mode");
        }
        if (c.failed) return;
        op_init_m(baud, par);
        c.note("-- the same after a history and initialisation in RTU mode:");
        t0 = tr[M].size();
        r.items = keep;
        r.sc.rewind();
        r.execute(c, false);
        if (!ends && r.run->stop) return;
        std::vector<Ev> later(tr[M].begin() + (long)t0, tr[M].end());
        if (later != fresh) {
            size_t i = 0;
            while (i < later.size() && i < fresh.size() && later[i] == fresh[i]) i++;
            c.fail("service-after", "event %zu after initialisation in RTU mode is %s, on a fresh master it is %s", i, i < later.size() ? later[i].str().c_str() : "missing", i < fresh.size() ? fresh[i].str().c_str() : "missing");
        }
    }
}
// ---------------------------------------------------------------- C28
void run_C28(Ctx &c) {
    Src &s = c.src;
    uint32_t how = s.pick(3);
    if (how == 0) {
        c.cls("arbitrary operations");
        arbitrary(c, 60, true);
    } else if (how == 1) {
        c.cls("slave frames");
        Rounds rounds(s);
        SlaveCase sc;
        sc.generate(s, rounds.special ? 24 : 150);
        sc.setup();
        port[S].sync = s.chance(25);
        watch_app = true;
        Sched sch;
        SlaveLine line(sch);
        static const uint32_t w[12] = {8, 10, 1, 2, 2, 2, 1, 2, 2, 2, 2, 1};
        std::vector<Frame> all;
        for (uint32_t i = 0, n = s.range(1, 5); i < n; i++) {
            sch = gen_sched(s, s.chance(60), 12);
            Frame f = gen_frame(s, sc, w);
            if (s.chance(25)) { f.txnoise = gen_frame(s, sc, w).b; f.txrep = gen_rep(s); gen_cut(s, f.txnoise, -1, f.txgaps, f.txcut); }
            size_t t0 = tr[S].size();
            line.feed(f);
            c.note("%s -> %zu transmissions", f.str().c_str(), tr[S].size() - t0);
            if (tr[S].size() > t0) c.nontrivial();
            if (rounds.any()) all.push_back(f);
        }
        rounds.run(c, all.size(), [&] {
            for (auto &f : all) { sch.rewind(); line.feed(f); }
            return !off_poll;
        });
    } else {
        c.cls("master requests");
        MCase r;
        Rounds rounds(s);
        MOpt o;
        o.nmin = 1;
        o.nmax = std::min<uint32_t>(cfg.queue + 2, 8);
        o.isr = true;
        o.sync = 25;
        o.illegal = 10;
        o.noise = 20;
        o.foreign = 20;
        o.incb = 25;
        o.mid = 40;
        static const uint32_t k[8] = {6, 3, 3, 3, 3, 3, 2, 1};
        memcpy(o.kinds, k, sizeof k);
        rounds.tame(o);
        gen_mcase(s, r, o);
        app_alloc(4, 4);
        watch_app = true;
        r.rounds(c, rounds, [&] { if (!r.run->stop) c.nontrivial(); });
    }
    if (!c.failed && off_poll) c.fail("off-poll", "%s", off_poll_what.c_str());
}
