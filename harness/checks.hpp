// Shared by the check files.
#pragma once
#include "exec.hpp"

// slave
std::string judge_reply(const Exp &e, const std::vector<Ev> &out, uint8_t id, uint8_t fc);
void special_reply(Src &s, SlaveCase &c, const Frame &f);
struct SlaveJudge {
    bool kinds[16] = {false};   // FK values whose frames are judged
    bool read_untouched = false;
};
// master
struct MOpt {
    uint32_t nmin = 1, nmax = 4;
    uint32_t kinds[8] = {10, 3, 2, 2, 2, 0, 0, 0}; // weights of AK
    uint32_t foreign = 0;       // percent
    bool isr = false;
    uint32_t sync = 0;          // percent of cases with a driver completing inside send()
    uint32_t illegal = 0;       // percent of items
    uint32_t noise = 0;         // percent of items with line noise while idle / sending
    uint32_t burst = 40;        // percent of items issued together with the previous one
    uint32_t incb = 0, mid = 20;
    bool anyslave = true;
    uint32_t maxq = 65535;
    uint32_t few_slaves = 60;   // percent of cases with a single slave address
    uint32_t extreme_maxkey = 60;
    bool fill = false;          // sometimes as many requests as a large queue holds
};
struct MCase {
    std::vector<Item> items;
    Sched sc;
    bool sync = false;
    std::unique_ptr<MasterRun> run;
    void execute(Ctx &c, bool init = true);
    // executes the case (once or many times on the same master) and judges it each time
    template <class R, class F> void rounds(Ctx &c, R &r, F judge) {
        execute(c);
        judge();
        if (!r.any()) return;
        std::vector<Item> keep = items;
        r.run(c, items.size(), [&] {
            items = keep;
            sc.rewind();
            execute(c, false);
            if (c.failed || run->stop) return false;
            judge();
            return true;
        });
    }
};
// The case again and again on the same device: beyond 8 bit counts in some cases, beyond 16 bit counts in one case of every worker (Src::special).
struct Rounds {
    bool special = false, medium = false;
    explicit Rounds(Src &s) {
        uint32_t v = s.special();
        special = v == 1;
        medium = v == 2;
    }
    bool any() const { return special || medium; }
    void tame(MOpt &o) const; // nothing that takes thousands of steps by itself
    template <class F> void run(Ctx &c, size_t per_round, F f) {
        if (!any() || c.failed) return;
        c.cls(special ? "repeated for a 16 bit count" : "repeated for an 8 bit count");
        uint64_t t0 = now_ms(), cap = special ? 25000 : 3000;
        uint32_t n = (special ? 66000 : 600) / (uint32_t)(per_round ? per_round : 1) + 1;
        for (uint32_t q = 0; q < n && !c.failed && now_ms() < t0 + cap; q++) {
            bool v = c.verbose;
            if (q > 1) c.verbose = false;
            bool go = f();
            c.verbose = v;
            if (c.failed) c.note("(in repetition %u)", q + 1);
            if (!go) break;
        }
    }
};
void gen_items(Src &s, MCase &m, const MOpt &o);
void gen_mcase(Src &s, MCase &m, const MOpt &o);
Item gen_item(Src &s, const MOpt &o, uint8_t slave, const Req *like = nullptr);
bool outcome_shape(const Item &it, const std::vector<Ev> &out);
Seg gen_noise(Src &s, const Req *near);
Att gen_mismatch(Src &s, const Req &r);
bool matches(const Req &r, const Bytes &f);
void tx_stable(Ctx &c);

#define DECL(n) void run_##n(Ctx &c);
DECL(C01) DECL(C02) DECL(C03) DECL(C04) DECL(C05) DECL(C06) DECL(C07) DECL(C08) DECL(C09) DECL(C10) DECL(C11) DECL(C12) DECL(C13)
DECL(C14) DECL(C15) DECL(C16) DECL(C17) DECL(C18) DECL(C19) DECL(C20) DECL(C21) DECL(C22) DECL(C23) DECL(C24) DECL(C25) DECL(C26) DECL(C27) DECL(C28) DECL(C29)
