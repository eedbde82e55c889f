// Property-based testing engine: choice-sequence generation, coverage-guided mutation,
// crash-tolerant workers, shrinking and replay.  No knowledge of the code under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return (uint32_t)((next() >> 32) * (uint64_t)n >> 32); }
};

// values seen in comparisons of the code under test (see engine.cpp)
extern std::vector<uint32_t> g_dict;

uint64_t now_ms();

class Src {
  public:
    // generation (optionally guided by a mutated prefix) or replay
    Rng rng{1};
    std::vector<uint32_t> in;   // choices to replay
    size_t pos = 0;
    bool random_tail = true;    // past the end of `in`: random (true) or 0 (false)
    std::vector<uint32_t> out;  // choices made
    uint32_t *live = nullptr;   // shared copy that survives a crash
    volatile uint32_t *live_n = nullptr;
    uint32_t live_max = 0;
    Src *up = nullptr;          // recording sub-source: draw from `up`, remember in `out`

    uint32_t commit(uint32_t v) {
        if (live && out.size() < live_max) {
            live[out.size()] = v;
            *live_n = (uint32_t)out.size() + 1;
        }
        out.push_back(v);
        return v;
    }
    // uniform in [0,n)
    uint32_t pick(uint32_t n) {
        if (n == 0) n = 1;
        if (up) return commit(up->pick(n));
        if (pos < in.size()) {
            uint32_t v = in[pos++];
            return commit(v < n ? v : n - 1);
        }
        if (!random_tail) return commit(0);
        return commit(rng.below(n));
    }
    // "interesting" value in [lo,hi]: mixture of uniform, edges, dictionary; simplest = lo
    uint32_t val(uint32_t lo, uint32_t hi) {
        uint32_t n = hi - lo + 1;
        if (hi <= lo) n = 1;
        if (up) return lo + commit(up->val(lo, hi) - lo);
        if (pos < in.size()) {
            uint32_t v = in[pos++];
            return lo + commit(v < n ? v : n - 1);
        }
        if (!random_tail) return lo + commit(0);
        uint32_t r = rng.below(100);
        if (r < 40) return lo + commit(rng.below(n));
        if (r < 57) return lo + commit(rng.below(n < 10 ? n : 10));
        if (r < 70) return lo + commit(n - 1 - rng.below(n < 10 ? n : 10));
        if (r < 86 && !g_dict.empty()) {
            for (int t = 0; t < 6; t++) {
                int64_t d = (int64_t)g_dict[rng.below((uint32_t)g_dict.size())];
                uint32_t k = rng.below(6);
                if (k == 0) d -= 1;
                if (k == 1) d += 1;
                if (d >= lo && d <= (int64_t)hi) return lo + commit((uint32_t)(d - lo));
            }
        }
        if (r < 93) { // around powers of two and multiples of eight
            uint32_t b = rng.below(17);
            int64_t d = (1ll << b) + (int64_t)rng.below(3) - 1;
            if (d >= lo && d <= (int64_t)hi) return lo + commit((uint32_t)(d - lo));
        }
        uint32_t m = rng.below(n);
        uint32_t a = (m / 8) * 8 + rng.below(3);
        a = a ? a - 1 : 0;
        return lo + commit(a < n ? a : n - 1);
    }
    uint32_t range(uint32_t lo, uint32_t hi) { return hi <= lo ? (pick(1), lo) : lo + pick(hi - lo + 1); }
    // true with pct percent; simplest = false
    bool chance(uint32_t pct) { return pick(100) >= 100 - pct; }
    // index by weights; simplest = 0
    uint32_t weighted(std::initializer_list<uint32_t> w) {
        uint32_t sum = 0;
        for (auto x : w) sum += x;
        uint32_t v = pick(sum), i = 0;
        for (auto x : w) {
            if (v < x) return i;
            v -= x;
            i++;
        }
        return 0;
    }
    // 1 in one case of every worker (and its replay): room for one very long history; 2 in a few cases: a long one
    enum { NEVER, ALWAYS, MEDIUM, REPLAY } special_mode = NEVER;
    uint32_t special() {
        if (up) return commit(up->special());
        uint32_t v = pos < in.size() ? in[pos++] : 0;
        return commit(special_mode == REPLAY ? (v < 3 ? v : 0) : special_mode == ALWAYS ? 1 : special_mode == MEDIUM ? 2 : 0);
    }
    uint8_t byte() { return (uint8_t)val(0, 255); }
    uint16_t u16() { return (uint16_t)val(0, 65535); }
};

struct Ctx {
    Src &src;
    int cfg_index = 0;
    bool failed = false;
    std::string key, msg;
    bool nontriv = false;
    bool verbose = false;      // record notes
    std::vector<std::string> notes;
    std::map<const char *, uint64_t> *classes = nullptr;
    bool thorough = false;
    explicit Ctx(Src &s) : src(s) {}
    void fail(const char *k, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
        if (failed) return;
        failed = true;
        key = k;
        char buf[3000];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        msg = buf;
    }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (!verbose || notes.size() > 400) return;
        char buf[2000];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        notes.push_back(buf);
    }
    void cls(const char *c) { if (classes) (*classes)[c]++; }
    void nontrivial() { nontriv = true; }
};

struct Check {
    const char *id;
    const char *rule;                      // how cases are made, what is non-trivial
    std::vector<const char *> configs;     // library builds used, in rotation over the workers
    uint64_t quick_cases, thorough_cases;  // total over all workers
    void (*run)(Ctx &);
};
extern std::vector<Check> g_checks;

// provided by the world (code under test)
bool world_load(const char *libpath, std::string &err);
void world_reset();                        // restore power-on state before a case
const char *world_limits();                // textual description of the loaded configuration

// called from instrumentation hooks
extern "C" void engine_hang(const char *what);
