#include "engine.hpp"
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <ctime>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <set>

std::vector<uint32_t> g_dict;
static uint8_t g_dict_seen[65536 / 8];
static const uint32_t MAXC = 1u << 18;
static const uint32_t MAXDICT = 600;

struct Shared {
    volatile uint32_t n;
    volatile int status;  // 0 running/none, 1 ok, 2 failed, 3 hang
    volatile int nontriv;
    volatile uint64_t evals;
    char key[64];
    char msg[3000];
    uint32_t v[MAXC];
};
static Shared *g_sh = nullptr;

// ------------------------------------------------------------- coverage
static const uint32_t NG = 1 << 13;
uint8_t g_cov[NG];
static uint32_t g_nguards = 0;
static uint8_t g_cov_seen[NG];           // bitmask of hit-count buckets seen
static const uint32_t NCMP = 1 << 16;
static uint8_t g_cmp_seen[NCMP];
static bool g_cmp_new = false;
static bool g_track = false;
static uint64_t g_edges_seen = 0;

void (*g_edge_hook)() = nullptr;

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; x++) *x = (++g_nguards < NG) ? g_nguards : NG - 1;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    uint32_t i = *g;
    if (i) {
        if (g_cov[i] != 255) g_cov[i]++;
    }
    if (g_edge_hook) g_edge_hook();
}
#define MEMHOOK(n) extern "C" void __sanitizer_cov_##n(void *) { if (g_edge_hook) g_edge_hook(); }
MEMHOOK(load1) MEMHOOK(load2) MEMHOOK(load4) MEMHOOK(load8) MEMHOOK(load16)
MEMHOOK(store1) MEMHOOK(store2) MEMHOOK(store4) MEMHOOK(store8) MEMHOOK(store16)
static inline void add_dict(uint64_t v) {
    if (v > 65535) return;
    if (g_dict_seen[v >> 3] & (1 << (v & 7))) return;
    if (g_dict.size() >= MAXDICT) return;
    g_dict_seen[v >> 3] |= 1 << (v & 7);
    g_dict.push_back((uint32_t)v);
}
static inline void cmp_feature(uintptr_t pc, uint64_t a, uint64_t b) {
    if (!g_track) return;
    uint32_t d = a == b ? 0 : 1 + __builtin_popcountll(a ^ b);
    uint32_t h = (uint32_t)((pc * 0x9E3779B97F4A7C15ull) >> 51) * 8 + (d > 7 ? 7 : d);
    if (!g_cmp_seen[h & (NCMP - 1)]) {
        g_cmp_seen[h & (NCMP - 1)] = 1;
        g_cmp_new = true;
    }
}
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { cmp_feature(PC, a, b); }
extern "C" void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cmp_feature(PC, a, b); }
extern "C" void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cmp_feature(PC, a, b); }
extern "C" void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cmp_feature(PC, a, b); }
extern "C" void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { add_dict(a); cmp_feature(PC, a, b); }
extern "C" void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { add_dict(a); cmp_feature(PC, a, b); }
extern "C" void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { add_dict(a); cmp_feature(PC, a, b); }
extern "C" void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { add_dict(a); cmp_feature(PC, a, b); }
extern "C" void __sanitizer_cov_trace_switch(uint64_t val, uint64_t *cases) {
    (void)val;
    for (uint64_t i = 0; i < cases[0]; i++) add_dict(cases[2 + i]);
}

extern "C" void engine_hang(const char *what) {
    if (g_sh) {
        g_sh->status = 3;
        snprintf(g_sh->key, sizeof g_sh->key, "hang");
        snprintf(g_sh->msg, sizeof g_sh->msg, "endless loop: %s", what);
    }
    _exit(77);
}

// ------------------------------------------------------------- one case
static void run_case(const Check &ck, Ctx &ctx) {
    world_reset();
    ck.run(ctx);
}

uint64_t now_ms() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
static uint64_t hash_seq(const std::vector<uint32_t> &v, uint64_t h) {
    for (auto x : v) {
        h ^= x;
        h *= 0x100000001B3ull;
        h ^= h >> 29;
    }
    return h;
}
static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

struct Opts {
    std::string prop, tier = "quick", libdir, evidence, replays, tmpdir, replay, known;
    uint64_t seed = 1, cases = 0;
    int workers = 8;
    uint64_t max_ms = 0;
    bool shrink = true;
    bool print = false;
} O;

static Shared *new_shared() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared *)p;
}
static void load_or_die(const char *cfg) {
    std::string err;
    if (!world_load((O.libdir + "/libmodbus_" + cfg + ".so").c_str(), err)) {
        fprintf(stderr, "cannot load library for config %s: %s\n", cfg, err.c_str());
        _exit(66);
    }
}

static void write_stats(const std::string &path, uint64_t evals, const std::unordered_set<uint64_t> &nt,
                        const std::map<const char *, uint64_t> &cl, const std::vector<std::string> &samples, size_t pool,
                        uint64_t choices) {
    std::ofstream f(path);
    f << "evals " << evals << "\n" << "pool " << pool << "\n" << "edges " << g_edges_seen << "\n" << "guards " << g_nguards << "\n" << "dict " << g_dict.size() << "\n";
    f << "choices " << choices << "\n";
    for (auto &c : cl) f << "class " << c.second << " " << c.first << "\n";
    for (auto h : nt) f << "h " << h << "\n";
    for (auto &s : samples) f << "s " << s << "\n";
}

// configurations are written "name" or "name/divisor of the number of cases"
static std::string cname(const Check &ck, int i) { std::string s = ck.configs[i]; return s.substr(0, s.find('/')); }
static uint64_t cdiv(const Check &ck, int i) { const char *p = strchr(ck.configs[i], '/'); return p ? strtoull(p + 1, 0, 10) : 1; }
static void worker(const Check &ck, int w, uint64_t ncases, Shared *sh, uint64_t deadline) {
    g_sh = sh;
    std::string errf = O.tmpdir + "/err." + std::to_string(w);
    int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) dup2(fd, 2);
    const std::string cfgs = cname(ck, w % (int)ck.configs.size());
    const char *cfg = cfgs.c_str();
    load_or_die(cfg);
    std::map<const char *, uint64_t> classes;
    std::unordered_set<uint64_t> nt;
    std::vector<std::vector<uint32_t>> pool;
    std::vector<std::string> samples;
    Rng mrng(O.seed * 1000003 + w * 7919 + 17);
    for (const char *c = ck.id; *c; c++) mrng.s = mrng.s * 31 + *c;
    uint64_t evals = 0, total_choices = 0;
    g_track = true;
    for (uint64_t i = 0; i < ncases; i++) {
        if ((i & 15) == 0 && now_ms() > deadline) break;
        Src src;
        src.rng = Rng(mrng.next());
        bool longer = i == 2 || i == 10 || i % 2500 == 500;
        if (longer) src.special_mode = i == 2 ? Src::ALWAYS : Src::MEDIUM;
        src.live = sh->v;
        src.live_n = &sh->n;
        src.live_max = MAXC;
        sh->n = 0;
        if (!longer && !pool.empty() && mrng.below(100) < 35) {
            // mutate an interesting case
            std::vector<uint32_t> b = pool[mrng.below((uint32_t)pool.size())];
            uint32_t nm = 1 + mrng.below(4);
            for (uint32_t k = 0; k < nm && !b.empty(); k++) {
                uint32_t p = mrng.below((uint32_t)b.size());
                switch (mrng.below(6)) {
                case 0: b[p] = mrng.below(65536); break;
                case 1: b[p] = mrng.below(b[p] + 2); break;
                case 2: b[p] ^= 1u << mrng.below(16); break;
                case 3: if (!g_dict.empty()) b[p] = g_dict[mrng.below((uint32_t)g_dict.size())]; break;
                case 4: { uint32_t l = 1 + mrng.below(8); b.erase(b.begin() + p, b.begin() + std::min<size_t>(b.size(), p + l)); break; }
                default: { uint32_t l = 1 + mrng.below(8); std::vector<uint32_t> ins; for (uint32_t q = 0; q < l; q++) ins.push_back(mrng.below(256)); b.insert(b.begin() + p, ins.begin(), ins.end()); break; }
                }
            }
            if (mrng.below(3) == 0 && b.size() > 4) b.resize(mrng.below((uint32_t)b.size()));
            src.in = b;
        }
        Ctx ctx(src);
        ctx.cfg_index = w % (int)ck.configs.size();
        ctx.classes = &classes;
        ctx.thorough = O.tier == "thorough";
        memset(g_cov, 0, g_nguards + 1 < NG ? g_nguards + 1 : NG);
        g_cmp_new = false;
        sh->status = 0;
        run_case(ck, ctx);
        evals++;
        sh->evals = evals;
        total_choices += src.out.size();
        if (ctx.failed) {
            snprintf(sh->key, sizeof sh->key, "%s", ctx.key.c_str());
            snprintf(sh->msg, sizeof sh->msg, "%s", ctx.msg.c_str());
            sh->n = (uint32_t)std::min<size_t>(src.out.size(), MAXC);
            sh->status = 2;
            write_stats(O.tmpdir + "/stats." + std::to_string(w), evals, nt, classes, samples, pool.size(), total_choices);
            _exit(2);
        }
        bool fresh = g_cmp_new;
        for (uint32_t g = 1; g <= g_nguards && g < NG; g++) {
            uint8_t c = g_cov[g];
            if (!c) continue;
            uint8_t bit = c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128;
            if (!(g_cov_seen[g] & bit)) {
                if (!g_cov_seen[g]) g_edges_seen++;
                g_cov_seen[g] |= bit;
                fresh = true;
            }
        }
        if (fresh && !longer && src.out.size() < 20000) {
            if (pool.size() < 400) pool.push_back(src.out);
            else pool[mrng.below(400)] = src.out;
        }
        if (ctx.nontriv) {
            nt.insert(hash_seq(src.out, 0xcbf29ce484222325ull + w % ck.configs.size()));
            if (w < 2 && samples.size() < 3 && !longer && (i % 7 == 3) && src.out.size() < 4000) {
                Src s2;
                s2.in = src.out;
                s2.random_tail = false;
                s2.special_mode = Src::REPLAY;
                Ctx c2(s2);
                c2.cfg_index = ctx.cfg_index;
                c2.verbose = true;
                c2.thorough = ctx.thorough;
                run_case(ck, c2);
                std::string t = std::string("[") + cfg + "] ";
                for (auto &n : c2.notes) { if (t.size() > 1500) { t += " ..."; break; } t += n + "; "; }
                samples.push_back(t);
            }
        }
    }
    write_stats(O.tmpdir + "/stats." + std::to_string(w), evals, nt, classes, samples, pool.size(), total_choices);
    sh->status = 1;
    _exit(0);
}

struct Outcome {
    bool failed = false;
    std::string key, msg;
    std::vector<uint32_t> used;
    std::vector<std::string> notes;
};
static std::string crash_summary(const std::string &errf, int st) {
    std::ifstream f(errf);
    std::string l, s;
    while (std::getline(f, l)) {
        if (l.find("SUMMARY:") != std::string::npos || l.find("runtime error") != std::string::npos) {
            // strip addresses
            size_t p = l.find("SUMMARY:");
            s = p != std::string::npos ? l.substr(p) : l;
            if (p == std::string::npos) break;
        }
    }
    if (s.empty()) {
        char b[64];
        snprintf(b, sizeof b, "process ended abnormally (status 0x%x)", st);
        s = b;
    }
    return s;
}
// run one case in a child of its own
static Outcome attempt(const Check &ck, int ci, const std::vector<uint32_t> &choices, bool verbose) {
    static Shared *sh = new_shared();
    Outcome o;
    sh->status = 0;
    sh->n = 0;
    sh->key[0] = sh->msg[0] = 0;
    std::string errf = O.tmpdir + "/err.shrink", notef = O.tmpdir + "/notes";
    unlink(notef.c_str());
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(3); }
    if (p == 0) {
        g_sh = sh;
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) dup2(fd, 2);
        Src src;
        src.in = choices;
        src.random_tail = false;
        src.special_mode = Src::REPLAY;
        src.live = sh->v;
        src.live_n = &sh->n;
        src.live_max = MAXC;
        Ctx ctx(src);
        ctx.cfg_index = ci;
        ctx.verbose = verbose;
        ctx.thorough = O.tier == "thorough";
        run_case(ck, ctx);
        if (verbose) {
            std::ofstream f(notef);
            for (auto &n : ctx.notes) f << n << "\n";
        }
        if (ctx.failed) {
            snprintf(sh->key, sizeof sh->key, "%s", ctx.key.c_str());
            snprintf(sh->msg, sizeof sh->msg, "%s", ctx.msg.c_str());
            sh->status = 2;
            _exit(2);
        }
        sh->status = 1;
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    o.used.assign(sh->v, sh->v + sh->n);
    if (sh->status == 1) return o;
    o.failed = true;
    if (sh->status == 2 || sh->status == 3) {
        o.key = sh->key;
        o.msg = sh->msg;
    } else {
        o.key = "crash";
        o.msg = crash_summary(errf, st);
    }
    if (verbose) {
        std::ifstream f(notef);
        std::string l;
        while (std::getline(f, l)) o.notes.push_back(l);
    }
    return o;
}

static std::vector<uint32_t> shrink(const Check &ck, int ci, std::vector<uint32_t> best, const std::string &key, uint64_t budget_ms, int &tries) {
    uint64_t end = now_ms() + budget_ms;
    auto ok = [&](const std::vector<uint32_t> &c) -> bool {
        if (now_ms() > end || tries > 6000) return false;
        tries++;
        Outcome o = attempt(ck, ci, c, false);
        if (o.failed && o.key == key) {
            std::vector<uint32_t> u = o.used;
            if (u.size() > c.size()) u.resize(c.size());
            best = (u.size() <= c.size()) ? u : c;
            while (!best.empty() && best.back() == 0) best.pop_back();
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now_ms() < end) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for (size_t p = 0; p < best.size();) {
                if (now_ms() > end) break;
                std::vector<uint32_t> c = best;
                c.erase(c.begin() + p, c.begin() + std::min(c.size(), p + len));
                if (ok(c)) progress = true;
                else p += len;
            }
            if (len == 1) break;
        }
        for (size_t len = 16; len >= 1; len /= 4) {
            for (size_t p = 0; p < best.size(); p += len) {
                bool nz = false;
                for (size_t k = p; k < best.size() && k < p + len; k++) nz |= best[k] != 0;
                if (!nz) continue;
                std::vector<uint32_t> c = best;
                for (size_t k = p; k < c.size() && k < p + len; k++) c[k] = 0;
                if (ok(c)) progress = true;
            }
            if (len == 1) break;
        }
        for (size_t p = 0; p < best.size(); p++) {
            if (best[p] == 0) continue;
            uint32_t lo = 0, hi = best[p];
            while (lo + 1 < hi && now_ms() < end) {
                uint32_t mid = lo + (hi - lo) / 2;
                std::vector<uint32_t> c = best;
                if (p >= c.size()) break;
                c[p] = mid;
                if (ok(c)) { hi = mid; progress = true; }
                else lo = mid;
                if (p >= best.size()) break;
            }
        }
    }
    return best;
}

static bool read_replay(const std::string &path, std::string &prop, std::string &cfg, std::vector<uint32_t> &ch, std::string &tier) {
    std::ifstream f(path);
    if (!f) return false;
    std::string l;
    while (std::getline(f, l)) {
        std::istringstream is(l);
        std::string k;
        is >> k;
        if (k == "property") is >> prop;
        else if (k == "config") is >> cfg;
        else if (k == "tier") is >> tier;
        else if (k == "choices") { uint32_t v; while (is >> v) ch.push_back(v); }
    }
    return true;
}

int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") O.prop = nxt();
        else if (a == "--tier") O.tier = nxt();
        else if (a == "--seed") O.seed = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--libdir") O.libdir = nxt();
        else if (a == "--evidence") O.evidence = nxt();
        else if (a == "--replays") O.replays = nxt();
        else if (a == "--tmp") O.tmpdir = nxt();
        else if (a == "--replay") O.replay = nxt();
        else if (a == "--cases") O.cases = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--workers") O.workers = atoi(nxt().c_str());
        else if (a == "--max-ms") O.max_ms = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--no-shrink") O.shrink = false;
        else if (a == "--list") { for (auto &c : g_checks) printf("%s\n", c.id); return 0; }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::string rcfg;
    std::vector<uint32_t> rch;
    if (!O.replay.empty()) {
        std::string p, t;
        if (!read_replay(O.replay, p, rcfg, rch, t)) { fprintf(stderr, "cannot read %s\n", O.replay.c_str()); return 3; }
        if (O.prop.empty()) O.prop = p;
        if (!t.empty()) O.tier = t;
    }
    const Check *ck = nullptr;
    for (auto &c : g_checks) if (O.prop == c.id) ck = &c;
    if (!ck) { fprintf(stderr, "no such property %s\n", O.prop.c_str()); return 3; }
    if (O.tmpdir.empty()) O.tmpdir = "/tmp";

    if (!O.replay.empty()) {
        int ci = 0;
        for (size_t k = 0; k < ck->configs.size(); k++) if (rcfg == cname(*ck, (int)k)) ci = (int)k;
        load_or_die(cname(*ck, ci).c_str());
        Outcome o = attempt(*ck, ci, rch, true);
        for (auto &n : o.notes) printf("  %s\n", n.c_str());
        if (o.failed) {
            printf("reproduced: [%s] %s\n", o.key.c_str(), o.msg.c_str());
            printf("VIOLATION property=%s replay=%s\n", ck->id, O.replay.c_str());
            return 1;
        }
        printf("not reproduced on this tree\n");
        return 0;
    }

    uint64_t t0 = now_ms();
    uint64_t total = O.cases ? O.cases : (O.tier == "thorough" ? ck->thorough_cases : ck->quick_cases);
    uint64_t max_ms = O.max_ms ? O.max_ms : (O.tier == "thorough" ? 700000 : 240000);
    int W = O.workers;
    if (W < (int)ck->configs.size()) W = (int)ck->configs.size();
    std::vector<Shared *> sh(W);
    std::vector<pid_t> pid(W);
    fflush(stdout);
    for (int w = 0; w < W; w++) {
        sh[w] = new_shared();
        pid[w] = fork();
        if (pid[w] < 0) { perror("fork"); return 3; }
        if (pid[w] == 0) worker(*ck, w, ((total + W - 1) / W + cdiv(*ck, w % (int)ck->configs.size()) - 1) / cdiv(*ck, w % (int)ck->configs.size()), sh[w], t0 + max_ms);
    }
    int failing = -1, left = W;
    bool infra = false;
    int fst = 0;
    while (left > 0) {
        int st;
        pid_t p = wait(&st);
        if (p < 0) break;
        int w = -1;
        for (int k = 0; k < W; k++) if (pid[k] == p) w = k;
        if (w < 0) continue;
        left--;
        pid[w] = -1;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 66) { infra = true; failing = -1; fst = st; break; }
        if (failing < 0) { failing = w; fst = st; }
        for (int k = 0; k < W; k++) if (pid[k] > 0) kill(pid[k], SIGKILL);
    }
    if (infra) {
        for (int k = 0; k < W; k++) if (pid[k] > 0) kill(pid[k], SIGKILL);
        fprintf(stderr, "internal error: library could not be loaded (see %s/err.*)\n", O.tmpdir.c_str());
        return 3;
    }
    int nviol = 0;
    std::string rpath;
    std::string vkey, vmsg;
    if (failing >= 0) {
        int w = failing, ci = w % (int)ck->configs.size();
        std::vector<uint32_t> ch(sh[w]->v, sh[w]->v + sh[w]->n);
        load_or_die(cname(*ck, ci).c_str());
        Outcome first = attempt(*ck, ci, ch, false);
        for (int k = 0; k < 3 && !first.failed; k++) first = attempt(*ck, ci, ch, false);
        if (!first.failed && WIFSIGNALED(fst) && WTERMSIG(fst) == SIGKILL) {
            fprintf(stderr, "internal error: worker %d was killed\n", w);
            return 3;
        }
        int tries = 0;
        std::vector<uint32_t> best = ch;
        Outcome o = first;
        if (first.failed) {
            if (O.shrink) best = shrink(*ck, ci, ch, first.key, O.tier == "thorough" ? 120000 : 60000, tries);
            for (int k = 0; k < 3; k++) {
                o = attempt(*ck, ci, best, true);
                if (o.failed && o.key == first.key) break;
            }
            if (!o.failed) { best = ch; o = first; }
        } else { // seen in the worker, but not in isolation: memory the library never set plays a part
            o.failed = true;
            o.key = sh[w]->key[0] ? sh[w]->key : "crash";
            o.msg = std::string(sh[w]->msg[0] ? sh[w]->msg : "library call crashed") + " (seen once, status " + std::to_string(fst) + "; not reproduced in isolation)";
        }
        nviol = 1;
        vkey = o.key;
        vmsg = o.msg;
        rpath = O.replays + "/" + ck->id + "-" + std::to_string(hash_seq(best, 77) % 100000000ull) + ".replay";
        std::ofstream f(rpath);
        f << "property " << ck->id << "\nconfig " << cname(*ck, ci) << "\ntier " << O.tier << "\nseed " << O.seed << "\nkey " << o.key << "\nmessage " << o.msg << "\nchoices";
        for (auto v : best) f << " " << v;
        f << "\nshrink " << ch.size() << " -> " << best.size() << " choices in " << tries << " attempts\ncase:\n";
        for (auto &n : o.notes) f << "  " << n << "\n";
        printf("minimal failing case (%s):\n", cname(*ck, ci).c_str());
        for (auto &n : o.notes) printf("  %s\n", n.c_str());
        printf("[%s] %s\n", o.key.c_str(), o.msg.c_str());
    }
    // merge statistics
    uint64_t evals = 0, choices = 0, pool = 0, edges = 0, guards = 0, dict = 0;
    std::set<uint64_t> nt;
    std::map<std::string, uint64_t> cl;
    std::vector<std::string> samples;
    for (int w = 0; w < W; w++) {
        std::ifstream f(O.tmpdir + "/stats." + std::to_string(w));
        if (!f) { evals += sh[w]->evals; continue; }
        std::string l;
        while (std::getline(f, l)) {
            std::istringstream is(l);
            std::string k;
            is >> k;
            uint64_t v = 0;
            if (k == "s") { samples.push_back(l.substr(2)); continue; }
            is >> v;
            if (k == "evals") evals += v;
            else if (k == "choices") choices += v;
            else if (k == "pool") pool += v;
            else if (k == "edges") edges = std::max(edges, v);
            else if (k == "guards") guards = std::max(guards, v);
            else if (k == "dict") dict = std::max(dict, v);
            else if (k == "h") nt.insert(v);
            else if (k == "class") { std::string n; std::getline(is, n); cl[n.substr(1)] += v; }
        }
    }
    if (failing >= 0 && samples.empty()) samples.push_back("[violation] " + vmsg);
    double wall = (now_ms() - t0) / 1000.0;
    if (!O.evidence.empty()) {
        std::ofstream f(O.evidence);
        f << "{\n \"property\": " << jstr(ck->id) << ",\n \"tier\": " << jstr(O.tier) << ",\n \"seed\": " << O.seed << ",\n \"level\": \"exploration\",\n";
        f << " \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << nt.size() << ",\n  \"rule\": " << jstr(ck->rule) << ",\n  \"samples\": [";
        for (size_t i = 0; i < samples.size() && i < 6; i++) f << (i ? ", " : "") << jstr(samples[i]);
        f << "],\n  \"random_choices\": " << choices << ",\n  \"edges_covered_max_per_worker\": " << edges << ",\n  \"edges_instrumented\": " << guards << ",\n  \"interesting_cases_kept\": " << pool << ",\n  \"comparison_constants_learned\": " << dict << ",\n  \"classes\": {";
        bool firstc = true;
        for (auto &c : cl) { f << (firstc ? "" : ", ") << jstr(c.first) << ": " << c.second; firstc = false; }
        f << "},\n  \"configurations\": [";
        std::set<std::string> cs;
        for (int k = 0; k < (int)ck->configs.size(); k++) cs.insert(cname(*ck, k));
        firstc = true;
        for (auto &c : cs) { f << (firstc ? "" : ", ") << jstr(c); firstc = false; }
        f << "]\n },\n";
        f << " \"assumptions\": [\"driver and application follow the contract described in DESIGN.md (section Assumptions)\"],\n";
        f << " \"wall_s\": " << wall << ",\n \"violations\": " << nviol << "\n}\n";
    }
    printf("%s %s seed=%llu: %llu cases, %zu distinct non-trivial, %llu/%llu edges, %.1fs\n", ck->id, O.tier.c_str(), (unsigned long long)O.seed,
           (unsigned long long)evals, nt.size(), (unsigned long long)edges, (unsigned long long)guards, wall);
    if (nviol) {
        printf("VIOLATION property=%s replay=%s\n", ck->id, rpath.c_str());
        return 1;
    }
    return 0;
}
