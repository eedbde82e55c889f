// Properties of the slave: C01..C06, C24 (and the slave half of C08, C22).
#include "checks.hpp"

std::string judge_reply(const Exp &e, const std::vector<Ev> &out, uint8_t id, uint8_t fc) {
    if (out.empty()) {
        if (e.may_silent) return "";
        return "no reply, expected " + hex(e.replies.empty() ? Bytes() : e.replies[0]);
    }
    if (out.size() > 1) return "transmitted " + std::to_string(out.size()) + " times: " + out_str(out, 3);
    const Bytes &b = out[0].bytes;
    if (e.anything) return "";
    for (auto &r : e.replies) if (r == b) return "";
    if (e.any_exc && b.size() == 5 && b[0] == id && b[1] == (uint8_t)(fc | 0x80) && b[2] >= 1 && b[2] <= 4 && crc_ok(b)) return "";
    if (e.replies.empty()) return "transmitted " + hex(b) + ", expected silence";
    return "replied " + hex(b) + ", expected " + hex(e.replies[0]) + (e.replies.size() > 1 ? " or " + hex(e.replies[1]) : "");
}

// application changes its own data, or what is registered, between frames or while the frame is received
static void app_changes(Src &s, SlaveCase &c, Frame *f = nullptr, uint32_t pct = 25, uint32_t max = 3, uint32_t regs = 25) {
    if (!s.chance(pct)) return;
    uint32_t n = s.range(1, max);
    bool mid = f && s.chance(40);
    for (uint32_t i = 0; i < n; i++) {
        Op o;
        if (s.chance(regs)) {
            if (!c.remap_op(s, o)) continue;
        } else {
            bool w = s.pick(2);
            o.role = S; o.k = O_APPW; o.a = w;
            o.b = s.pick(w ? nreg : nbit);
            o.c = w ? gen_val(s) : s.pick(2);
        }
        if (mid && s.chance(70)) f->mid.push_back({s.val(0, (uint32_t)f->b.size() + 3), o});
        else {
            c.apply(o);
            do_op(o);
        }
    }
    c.m.sync_from_app();
    if (!f) return;
    std::stable_sort(f->mid.begin(), f->mid.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &q : f->mid) c.apply(q.second);
}

// sometimes the data are such that the checksum of the reply is a special one
void special_reply(Src &s, SlaveCase &c, const Frame &f) {
    const Bytes &b = f.b;
    if (b.size() != 8 || (b[1] != 3 && b[1] != 4) || !s.chance(5)) return;
    uint32_t adr = be16(b, 2), qty = be16(b, 4);
    int tab = fc_tab(b[1]);
    if (!qty || qty > 125 || adr + qty > 65536 || !is_registered(tab, adr, qty)) return;
    Exp e = c.m.expect(b, false);
    if (e.replies.empty()) return;
    Bytes r = e.replies[0];
    r.resize(r.size() - 2);
    solve_tail(r, special_crc(s));
    Op o;
    o.role = S; o.k = O_APPW; o.a = 1; o.b = (uint32_t)SlaveModel::map[tab][adr + qty - 1]; o.c = be16(r, r.size() - 2);
    c.apply(o);
    do_op(o);
}

struct SRun {
    Ctx &c;
    SlaveCase sc;
    Sched sched;
    SlaveLine line;
    bool first = true;
    SRun(Ctx &ctx) : c(ctx), line(sched) {}
    void start(uint32_t maxwin = 2000) {
        sc.generate(c.src, maxwin);
        sc.relate = true;
        sc.setup();
        c.note("slave id=%u registered=%zu items, %u bit and %u register variables", sc.id, sc.regs.size(), sc.bits, sc.words);
    }
    void new_sched(bool isr = false) {
        sched = gen_sched(c.src, isr, 12);
        line.ln.pend.clear();
    }
    // feeds the frame; returns true when the frame was answered/treated as modelled
    FK step(const Frame &f, const bool *judged, const char *key, bool data_always = false, bool silent_rest = false) {
        Exp e = sc.m.expect(f.b, !f.gaps.empty());
        std::vector<Ev> out = line.feed(f);
        if (c.verbose) c.note("frame %s (%s) -> %s", f.str().c_str(), FKN[e.fk], out_str(out, 2).c_str());
        c.cls(FKN[e.fk]);
        uint8_t fc = f.b.size() > 1 ? f.b[1] : 0;
        bool j = judged[e.fk];
        bool rd = f.b.size() > 1 && is_read(fc);
        if (j) {
            std::string r = judge_reply(e, out, sc.id, fc);
            if (!r.empty()) c.fail(key, "%s: %s", f.str().c_str(), r.c_str());
        } else if (silent_rest && out.size() > 1) c.fail(key, "%s: %zu transmissions", f.str().c_str(), out.size());
        if (j || (data_always && rd)) {
            std::string d = sc.m.judge_data(e);
            if (!d.empty() && !e.anything) c.fail(key, "%s: %s", f.str().c_str(), d.c_str());
        }
        sc.m.sync_from_app();
        return e.fk;
    }
};

static void slave_hist(Ctx &c, const uint32_t w[12], std::initializer_list<FK> kinds, const char *key, bool reads_untouched, uint32_t maxframes) {
    Rounds rounds(c.src);
    SRun r(c);
    bool judged[16] = {false};
    for (auto k : kinds) judged[k] = true;
    r.start(rounds.special ? 24 : 2000);
    uint32_t n = c.src.range(1, maxframes);
    static const uint32_t plain[12] = {6, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0};
    std::vector<Frame> all;
    for (uint32_t i = 0; i < n && !c.failed; i++) {
        r.new_sched();
        const uint32_t *ww = (i + 1 < n && c.src.chance(30)) ? plain : w;
        Frame f = gen_frame(c.src, r.sc, ww);
        special_reply(c.src, r.sc, f);
        app_changes(c.src, r.sc, &f);
        FK k = r.step(f, judged, key, reads_untouched);
        if (judged[k]) c.nontrivial();
        f.mid.clear();
        if (rounds.any()) all.push_back(f);
    }
    rounds.run(c, all.size(), [&] {
        for (auto &f : all) {
            r.sched.rewind();
            if (!c.failed) r.step(f, judged, key, reads_untouched);
        }
        return true;
    });
}
void run_C01(Ctx &c) {
    static const uint32_t w[12] = {20, 2, 0, 1, 1, 1, 1, 1, 0, 0, 0, 0};
    slave_hist(c, w, {F_READ}, "read-reply", true, 6);
}
void run_C02(Ctx &c) {
    static const uint32_t w[12] = {2, 20, 0, 1, 1, 1, 1, 1, 0, 0, 0, 0};
    slave_hist(c, w, {F_WRITE}, "write", false, 6);
}
void run_C03(Ctx &c) {
    static const uint32_t w[12] = {1, 1, 6, 10, 8, 6, 0, 0, 0, 0, 0, 0};
    slave_hist(c, w, {F_UNSUP, F_VALUE, F_ADDR, F_UNREG}, "exception", false, 6);
}
void run_C04(Ctx &c) {
    static const uint32_t w[12] = {2, 4, 0, 0, 0, 0, 6, 8, 6, 10, 3, 0};
    slave_hist(c, w, {F_FOREIGN, F_BADCRC, F_GAP, F_SHORT}, "acted-on-bad-frame", false, 8);
}

// registrations at any moment, compared with a model of what refers to what
void run_C27(Ctx &c) {
    Src &s = c.src;
    Rounds rounds(s);
    SRun r(c);
    bool judged[16] = {false};
    for (auto k : {F_READ, F_WRITE, F_UNSUP, F_VALUE, F_ADDR, F_UNREG, F_FOREIGN, F_BADCRC}) judged[k] = true;
    static const uint32_t w[12] = {14, 8, 1, 1, 2, 6, 1, 1, 0, 0, 0, 0};
    r.start(rounds.special ? 24 : s.chance(50) ? 40 : 400);
    uint32_t n = s.range(2, 6);
    std::vector<Frame> all_frames;
    std::vector<std::vector<Op>> regs;
    for (uint32_t i = 0; i < n && !c.failed; i++) {
        r.new_sched();
        Frame f = gen_frame(s, r.sc, w);
        size_t t0 = tr[S].size();
        std::vector<uint8_t> b0((uint8_t *)abit, (uint8_t *)abit + nbit);
        std::vector<uint16_t> w0(areg, areg + nreg);
        // registrations between frames
        std::vector<Op> ops;
        for (uint32_t k = s.weighted({4, 3, 2, 1}); k; k--) {
            Op o;
            if (!r.sc.remap_op(s, o)) continue;
            r.sc.apply(o);
            do_op(o);
            ops.push_back(o);
            c.note("%s", o.str().c_str());
            c.nontrivial();
            if (s.chance(20)) op_poll(S);
        }
        if (s.chance(10)) { // another initialisation keeps what is registered
            r.sc.id = r.sc.m.id = (uint8_t)s.val(1, 247);
            op_init_s(r.sc.id);
            r.line.ln.pend.clear();
            f = gen_frame(s, r.sc, w);
        }
        if (memcmp(b0.data(), abit, nbit) || memcmp(w0.data(), areg, nreg * 2)) c.fail("registration", "registering changed the value of an application variable");
        for (size_t q = t0; q < tr[S].size(); q++) if (tr[S][q].k == Ev::SEND) c.fail("registration", "registering made the slave transmit %s", tr[S][q].str().c_str());
        if (c.failed) return;
        app_changes(s, r.sc, &f, 70, 4, 70);
        if (!f.mid.empty()) { c.nontrivial(); c.cls("registered while a frame was received"); }
        r.step(f, judged, "registration", true);
        f.mid.clear();
        if (rounds.any()) { all_frames.push_back(f); regs.push_back(ops); }
    }
    rounds.run(c, n, [&] {
        for (size_t i = 0; i < all_frames.size() && !c.failed; i++) {
            for (auto &o : regs[i]) { r.sc.apply(o); do_op(o); }
            r.sched.rewind();
            r.step(all_frames[i], judged, "registration", true);
        }
        return true;
    });
}

void run_C05(Ctx &c) {
    SRun r(c);
    bool judged[16];
    for (bool &b : judged) b = true;
    bool big = cfg.size[0] > 5000;
    bool special = c.src.special() == 1; // one history beyond any 16 bit count
    r.start(special ? 24 : big ? 300 : 2000);
    bool marathon = c.src.chance(1) || special;
    bool isr = c.src.chance(25);
    port[S].sync = c.src.chance(20);
    static const uint32_t w[12] = {6, 6, 2, 2, 2, 2, 5, 5, 6, 5, 6, 0};
    uint32_t n = c.src.range(1, c.thorough ? 14 : 9);
    bool whole = marathon && !special && c.src.chance(60); // the whole history is repeated, not one frame
    struct Step { Frame f; Sched s; uint32_t hold; };
    std::vector<Step> all;
    if (isr) c.cls("with interrupts inside polls");
    for (uint32_t i = 0; i < n && !c.failed; i++) {
        r.new_sched(isr);
        Frame f = gen_frame(c.src, r.sc, w);
        app_changes(c.src, r.sc);
        if (c.src.chance(12)) {
            uint32_t k = c.src.range(1, 9);
            f.txrep = gen_rep(c.src);
            if (c.src.chance(20)) f.txnoise = enc(gen_valid_req(c.src, r.sc, c.src.chance(50)));
            else for (uint32_t q = 0; q < k; q++) f.txnoise.push_back(c.src.chance(20) ? r.sc.id : c.src.byte());
            gen_cut(c.src, f.txnoise, -1, f.txgaps, f.txcut);
        }
        if (f.b.size() > 255) { // the receive buffer overflows: only recovery is specified
            r.line.feed(f);
            r.sc.m.sync_from_app();
            c.cls("overflow");
            continue;
        }
        r.line.hold = c.src.chance(15) ? c.src.range(1, 20) : 0;
        r.step(f, judged, "history");
        if (whole) all.push_back({f, r.sched, r.line.hold});
        r.line.hold = 0;
        if (marathon && !whole && i == 0) {
            uint32_t reps = special ? 66000 : c.src.range(200, c.thorough ? 20000 : 1200);
            c.cls("marathon");
            r.sched = Sched();
            uint64_t t0 = now_ms();
            for (uint32_t q = 0; q < reps && !c.failed && (!special || now_ms() < t0 + 30000); q++) {
                r.sched.rewind();
                bool v = c.verbose;
                if (q > 3) c.verbose = false;
                r.step(f, judged, "history");
                c.verbose = v;
            }
            c.note("repeated %u times", reps);
        }
    }
    if (!all.empty()) {
        uint32_t reps = c.src.range(50, c.thorough ? 8000 : 900), q = 0;
        c.cls("marathon of a whole history");
        bool v = c.verbose;
        for (uint64_t t0 = now_ms(); q < reps && !c.failed && now_ms() < t0 + 30000; q++) {
            for (auto &x : all) {
                r.sched = x.s;
                r.sched.rewind();
                r.line.hold = x.hold;
                if (!c.failed) r.step(x.f, judged, "history");
            }
            if (q > 1) c.verbose = false;
        }
        c.verbose = v;
        r.line.hold = 0;
        c.note("history repeated %u times", q);
    }
    if (c.failed) return;
    // the probe
    r.new_sched(isr);
    Frame f;
    f.kind = "probe";
    f.b = enc(gen_valid_req(c.src, r.sc, c.src.chance(50)));
    r.step(f, judged, "probe");
    if (n > 1) c.nontrivial();
}

void run_C06(Ctx &c) {
    Rounds rounds(c.src);
    SRun r(c);
    r.start(rounds.special ? 24 : cfg.size[0] > 5000 ? 200 : 2000);
    port[S].sync = c.src.chance(30);
    static const uint32_t w[12] = {8, 8, 2, 2, 2, 2, 2, 2, 3, 2, 2, 0};
    uint32_t n = c.src.range(1, 6);
    c.note("driver completes %s", port[S].sync ? "inside send()" : "later");
    uint64_t f0 = isr_fired;
    struct Step { Frame f; Sched s; uint32_t hold; };
    std::vector<Step> all;
    auto go = [&](const Frame &f) {
        size_t t0 = tr[S].size();
        r.line.feed(f);
        r.sc.m.sync_from_app();
        if (c.verbose) c.note("frame %s schedule key=[%s] fine=[%s] scale=%u", f.str().c_str(), hex(r.sched.key, 20).c_str(), hex(r.sched.fine, 10).c_str(), r.sched.scale);
        for (size_t k = t0; k < tr[S].size(); k++)
            if (tr[S][k].k == Ev::SEND) {
                c.cls("reply");
                if (!tr[S][k].quiet) c.fail("early-reply", "%s: reply handed over before 3.5 characters of silence", f.str().c_str());
            }
        if (port[S].send_while_busy) c.fail("send-while-busy", "%s: second reply handed over while the first is being sent", f.str().c_str());
        if (port[S].tx_changed) c.fail("reply-changed", "%s: bytes of the reply changed while it is being sent", f.str().c_str());
    };
    for (uint32_t i = 0; i < n && !c.failed; i++) {
        r.new_sched(true);
        Frame f = gen_frame(c.src, r.sc, w);
        if (c.src.chance(25)) {
            uint32_t k = c.src.range(1, 9);
            f.txrep = gen_rep(c.src);
            if (c.src.chance(50)) f.txnoise = enc(gen_valid_req(c.src, r.sc, c.src.chance(50)));
            else for (uint32_t q = 0; q < k; q++) f.txnoise.push_back(c.src.byte());
            gen_cut(c.src, f.txnoise, -1, f.txgaps, f.txcut);
        }
        r.line.hold = c.src.chance(30) ? c.src.range(1, 6) : 0;
        if (rounds.any()) all.push_back({f, r.sched, r.line.hold});
        go(f);
    }
    rounds.run(c, all.size(), [&] {
        for (auto &x : all) {
            if (c.failed) break;
            r.line.ln.pend.clear();
            r.sched = x.s;
            r.line.hold = x.hold;
            go(x.f);
        }
        return true;
    });
    if (isr_fired > f0) { c.nontrivial(); c.cls("interrupted calls"); }
}

void run_C24(Ctx &c) {
    Rounds rounds(c.src);
    SRun r(c);
    SlaveCase &sc = r.sc;
    Src &s = c.src;
    sc.id = (uint8_t)s.val(1, 247);
    sc.seed = s.pick(65536);
    sc.fill = s.pick(5);
    // everything registered when the tables are small, else the two ends and one window
    for (int t = 0; t < 4; t++) {
        uint32_t sz = cfg.size[t];
        auto add = [&](uint32_t st, uint32_t len) {
            sc.win.push_back({t, st, len});
            for (uint32_t a = st; a < st + len; a++) sc.regs.push_back({(uint32_t)t, a, t < 2 ? sc.bits++ : sc.words++});
        };
        if (sz <= 3000) add(0, sz);
        else {
            uint32_t q = t < 2 ? 2000 : 125;
            add(0, 40);
            add(sz - q, q);
            add(s.range(40, sz - 2 * q), q);
        }
    }
    sc.setup();
    c.note("slave id=%u, all items of small tables and the ends of large ones registered; %s", sc.id, "");
    static const uint8_t ANY[] = {3, 16, 6, 1, 5, 15, 4, 2};
    bool judged[16] = {false};
    judged[F_READ] = judged[F_WRITE] = judged[F_ADDR] = judged[F_UNREG] = true;
    uint32_t n = s.range(1, 5);
    std::vector<Frame> all;
    for (uint32_t i = 0; i < n && !c.failed; i++) {
        r.new_sched();
        Req q;
        q.slave = sc.id;
        q.fc = ANY[s.pick(8)];
        uint32_t sz = cfg.size[fc_tab(q.fc)];
        q.qty = is_single(q.fc) ? 1 : (uint16_t)s.val(1, maxqty(q.fc));
        if (!is_single(q.fc) && s.chance(30)) q.qty = (uint16_t)std::min<uint32_t>(maxqty(q.fc), s.chance(50) ? sz : sz + 1);
        if (q.qty == 0) q.qty = 1;
        uint32_t a;
        switch (s.weighted({6, 2, 2})) {
        case 0: { // end of the request around the end of the table
            int64_t e = (int64_t)sz - q.qty + (int)s.pick(5) - 2;
            a = e < 0 ? 0 : e > 65535 ? 65535 : (uint32_t)e;
            break;
        }
        case 1: a = s.val(0, 65535); break;
        default: a = s.chance(50) ? s.val(0, sz - 1) : std::min<uint32_t>(65535, sz + s.pick(20));
        }
        q.adr = (uint16_t)a;
        if (q.fc == 5) q.sval = (uint16_t)s.pick(2);
        if (q.fc == 6) q.sval = gen_val(s);
        gen_vals(s, q);
        if (c.src.chance(20)) { // registering just beyond the end has no effect
            int t = (int)c.src.pick(4);
            uint32_t e = cfg.size[t] + (c.src.chance(70) ? c.src.pick(3) : c.src.pick(65536));
            if (e <= 65535 && (t < 2 ? r.sc.bits : r.sc.words)) { op_reg(t, e, 0); c.cls("registration beyond the end"); }
        } else if (c.src.chance(20)) r.sc.remap(c.src);
        Frame f;
        f.kind = "boundary";
        f.b = enc(q);
        FK k = r.step(f, judged, "table-size");
        int64_t d = (int64_t)q.adr + q.qty - sz;
        if (d >= -2 && d <= 2) { c.nontrivial(); c.cls(d > 0 ? "just beyond the end" : "just inside the end"); }
        (void)k;
        f.mid.clear();
        if (rounds.any()) all.push_back(f);
    }
    rounds.run(c, all.size(), [&] {
        for (auto &f : all) {
            r.sched.rewind();
            if (!c.failed) r.step(f, judged, "table-size");
        }
        return true;
    });
}
