#include "world.hpp"
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>

Cfg cfg;
std::vector<Ev> tr[2];
Port port[2];
std::function<void(const Ev &)> on_cb;
std::vector<Op> *rec_ops = nullptr;
uint64_t isr_fired = 0;
const char *tabname[4] = {"coil", "din", "hreg", "inreg"};
bool *abit = nullptr;
uint16_t *areg = nullptr;
uint32_t nbit = 0, nreg = 0;

extern void (*g_edge_hook)();

extern "C" const char *__asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:print_legend=0:symbolize=1:handle_abort=1:quarantine_size_mb=16:malloc_context_size=4"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }

// ------------------------------------------------------------ library binding
static struct {
    modbus_master_req_ret_t (*rd[4])(modbus_adr_t, modbus_data_qty_t, modbus_device_ID_t); // by fc-1
    modbus_master_req_ret_t (*wsc)(modbus_adr_t, modbus_device_ID_t, modbus_coil_disin_t);
    modbus_master_req_ret_t (*wsr)(modbus_adr_t, modbus_device_ID_t, modbus_reg_t);
    modbus_master_req_ret_t (*wmr)(modbus_adr_t, modbus_data_qty_t, modbus_device_ID_t, modbus_reg_t *);
    modbus_master_req_ret_t (*wmc)(modbus_adr_t, modbus_data_qty_t, modbus_device_ID_t, modbus_coil_disin_t *);
    void (*minit)(modbus_mode_t, baud_t, parity_t);
    void (*mpoll)(void);
    void (*mtick)(void);
    void (*regb[2])(modbus_adr_t, modbus_coil_disin_t *);
    void (*regr[2])(modbus_adr_t, modbus_reg_t *);
    void (*sinit)(modbus_mode_t, baud_t, parity_t, modbus_device_ID_t);
    void (*spoll)(void);
} L;

struct Region { uint8_t *p; size_t n; uint8_t *save; };
static std::vector<Region> regions;

__attribute__((no_sanitize("address", "undefined"), noinline)) static void raw_copy(void *d, const void *s, size_t n) {
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
static uintptr_t g_base;
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
    if (i->dlpi_addr != g_base) return 0;
    uintptr_t rs = 0, re = 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
            rs = (g_base + i->dlpi_phdr[k].p_vaddr) & ~4095ull;
            re = (g_base + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz) & ~4095ull;
        }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto &p = i->dlpi_phdr[k];
        if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
        uintptr_t s = g_base + p.p_vaddr, e = s + p.p_memsz;
        auto add = [&](uintptr_t a, uintptr_t b) {
            if (b <= a) return;
            uint8_t *sv = (uint8_t *)malloc(b - a);
            raw_copy(sv, (void *)a, b - a);
            regions.push_back({(uint8_t *)a, b - a, sv});
        };
        if (re > rs && rs < e && re > s) {
            add(s, std::max(s, rs));
            add(std::min(e, re), e);
        } else add(s, e);
    }
    return 0;
}
static std::string g_limits;
const char *world_limits() { return g_limits.c_str(); }

// ------------------------------------------------------------ interrupts
static std::deque<Inj> injq;
static uint32_t inj_count = 0;
static bool in_isr = false, in_call = false;
static uint64_t edge_budget = 0, edge_last = 0;
static const char *cur_call = "";
static const uint64_t EDGE_LIMIT = 30000000;
static void line_event(int role, uint8_t k, uint8_t v);
static void check_tx(int r);
static FILE *g_trace = getenv("VP_TRACE") ? fopen(getenv("VP_TRACE"), "a") : nullptr; // for debugging a replay

// ------------------------------------------------------------ who is at work
unsigned off_poll = 0;
unsigned caller_changed = 0;
std::string off_poll_what;
bool watch_app = false;
static int poll_role = -1, ev_depth = 0, api_depth = 0;
static void off_work(int r, const std::string &what) {
    if (poll_role == r && !ev_depth && !api_depth) return;
    if (off_poll++) return;
    off_poll_what = what + (ev_depth ? " during a driver event or timer tick" : api_depth ? " during a request call" : poll_role >= 0 ? " during the poll of the other role" : std::string(" during ") + (in_call ? cur_call : "nothing"));
}
struct AppWatch {
    std::vector<uint8_t> b;
    std::vector<uint16_t> w;
    const char *what;
    explicit AppWatch(const char *wh) : what(wh) {
        if (!watch_app) return;
        b.assign((uint8_t *)abit, (uint8_t *)abit + nbit);
        w.assign(areg, areg + nreg);
    }
    ~AppWatch() {
        if (!watch_app || b.size() != nbit || w.size() != nreg) return;
        if (memcmp(b.data(), abit, nbit) || memcmp(w.data(), areg, nreg * 2)) {
            if (!off_poll++) off_poll_what = std::string("application data changed during ") + what;
        }
    }
};
struct Depth {
    int &d;
    explicit Depth(int &x) : d(x) { d++; }
    ~Depth() { d--; }
};

// what interrupts a call: an event, or the poll of the other role (called from another task)
static void fire(const Inj &e) {
    if (e.k != O_POLL) {
        line_event(e.role, e.k, e.v);
        return;
    }
    if (poll_role == e.role) return; // a role's poll is never interrupted by itself
    int before = poll_role, ed = ev_depth, ad = api_depth;
    poll_role = e.role;
    ev_depth = api_depth = 0;
    if (g_trace) fprintf(g_trace, "  %s poll (interrupting)\n", e.role == M ? "M" : "S");
    if (e.role == M) L.mpoll();
    else L.spoll();
    poll_role = before;
    ev_depth = ed;
    api_depth = ad;
    check_tx(e.role);
}
static void edge_hook() {
    if (++edge_budget > EDGE_LIMIT) engine_hang(cur_call);
    if (injq.empty() || in_isr || !in_call) return;
    if (inj_count++ < injq.front().after) return;
    Inj e = injq.front();
    if (e.k == O_TXDONE && !port[e.role].busy) return;
    injq.pop_front();
    inj_count = 0;
    in_isr = true;
    isr_fired++;
    fire(e);
    in_isr = false;
}
uint64_t edges_last_call() { return edge_last; }

struct CallScope {
    bool outer;
    explicit CallScope(const char *what, const std::vector<Inj> *inj = nullptr) {
        outer = !in_call;
        if (outer) {
            cur_call = what;
            edge_budget = 0;
            inj_count = 0;
            injq.clear();
            if (inj) injq.assign(inj->begin(), inj->end());
            in_call = true;
        }
    }
    ~CallScope() {
        if (!outer) return;
        in_call = false;
        edge_last = edge_budget;
        // interrupts that found no place inside the call arrive right after it
        std::deque<Inj> rest;
        rest.swap(injq);
        for (auto &e : rest) {
            if (e.k == O_TXDONE && !port[e.role].busy) continue;
            fire(e);
        }
    }
};

// C enumerations may hold any value; C++ ones may not
template <class T> static uint8_t raw(const T &v) { int i = 0; memcpy(&i, &v, sizeof v < sizeof i ? sizeof v : sizeof i); return (uint8_t)i; }
// ------------------------------------------------------------ driver
static void check_tx(int r) {
    Port &p = port[r];
    if (p.busy && (memcmp(p.txp, p.tx.data(), p.tx.size()) != 0)) p.tx_changed++;
}
static void drv_init(int r, baud_t b, parity_t par) {
    Port &p = port[r];
    Port o = p; // subscriptions and the reception buffer survive, whether they were set before or are set after it
    p = Port();
    p.t15 = o.t15; p.t35 = o.t35; p.txdone = o.txdone; p.ferr = o.ferr;
    p.rx = o.rx;
    p.sync = o.sync;
    p.inits = o.inits + 1;
    p.baud = b;
    p.parity = (int)par;
    Ev e;
    e.k = Ev::INIT;
    e.val = b;
    e.code = (uint8_t)par;
    tr[r].push_back(e);
}
static void drv_send(int r, modbus_buf_t *d, uint32_t len) {
    Port &p = port[r];
    if (p.busy) p.send_while_busy++;
    check_tx(r);
    Ev e;
    e.k = Ev::SEND;
    if (len) {
        volatile uint8_t probe = d[0]; // sanitizer sees an invalid buffer here
        probe = d[len - 1];
        (void)probe;
    }
    e.bytes.assign(d, d + len);
    e.quiet = p.quiet;
    if (!off_poll) off_work(r, r == M ? "the master transmitted" : "the slave transmitted");
    p.quiet = false;
    p.txp = d;
    p.tx = e.bytes;
    p.busy = true;
    tr[r].push_back(e);
    if (p.sync) {
        p.busy = false;
        Depth d(ev_depth);
        if (p.txdone) p.txdone();
    }
}
static void drv_rxen(int r, modbus_req_resp_t *t) {
    port[r].rx = t;
}
#define DRV(N, R)                                                            \
    static void N##_init(baud_t b, parity_t p) { drv_init(R, b, p); }        \
    static void N##_send(modbus_buf_t *d, modbus_buf_size_t n) { drv_send(R, d, n); } \
    static void N##_rxen(modbus_req_resp_t *t) { drv_rxen(R, t); }           \
    static void N##_rxdis(void) {}                                           \
    static void N##_s15(driver_subscr_cb_t c) { port[R].t15 = c; }           \
    static void N##_s35(driver_subscr_cb_t c) { port[R].t35 = c; }           \
    static void N##_stx(driver_subscr_cb_t c) { port[R].txdone = c; }        \
    static void N##_sfe(driver_subscr_cb_t c) { port[R].ferr = c; }
DRV(mdrv, M)
DRV(sdrv, S)

extern "C" {
__attribute__((visibility("default"), used)) const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) {
    static modbus_RTU_driver_struct_t d;
    d.init = mdrv_init; d.send = mdrv_send; d.enable_rcev = mdrv_rxen; d.disable_rcev = mdrv_rxdis;
    d.subscribe_t_1_5_char_expired_cb = mdrv_s15; d.subscribe_msg_tx_done_cb = mdrv_stx;
    d.subscribe_t_3_5_char_expired_cb = mdrv_s35; d.subscribe_modbus_frame_error_cb = mdrv_sfe;
    return &d;
}
__attribute__((visibility("default"), used)) const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) {
    static modbus_RTU_driver_struct_t d;
    d.init = sdrv_init; d.send = sdrv_send; d.enable_rcev = sdrv_rxen; d.disable_rcev = sdrv_rxdis;
    d.subscribe_t_1_5_char_expired_cb = sdrv_s15; d.subscribe_msg_tx_done_cb = sdrv_stx;
    d.subscribe_t_3_5_char_expired_cb = sdrv_s35; d.subscribe_modbus_frame_error_cb = sdrv_sfe;
    return &d;
}
// ------------------------------------------------------------ master application callbacks
static void cb(const Ev &e) {
    if (!off_poll) off_work(M, "a callback");
    tr[M].push_back(e);
    if (on_cb) on_cb(e);
}
static void cb_read(int t, unsigned s, unsigned a, unsigned v) {
    Ev e;
    e.k = Ev::RD; e.tab = (uint8_t)t; e.slave = (uint8_t)s; e.adr = (uint16_t)a; e.val = v;
    cb(e);
}
static void cb_write(int t, unsigned s, unsigned a, unsigned q) {
    Ev e;
    e.k = Ev::WR; e.tab = (uint8_t)t; e.slave = (uint8_t)s; e.adr = (uint16_t)a; e.qty = (uint16_t)q;
    cb(e);
}
static void cb_exc(int t, const modbus_read_data_t *d) {
    Ev e;
    e.k = Ev::EXC; e.tab = (uint8_t)t; e.slave = d->slave_ID; e.fc = raw(d->fun_conde); e.code = raw(d->exception_code); e.adr = d->data_adr; e.qty = d->data_qty;
    cb(e);
}
static void cb_err(Ev::K k, const modbus_master_error_report_t *d) {
    Ev e;
    e.k = k; e.slave = d->slave_ID; e.fc = raw(d->fun_conde); e.code = raw(d->resp_read_error);
    e.adr = d->data_adr;
    e.qty = d->data_qty;
    cb(e);
}
#define EXP __attribute__((visibility("default"), used))
EXP void modbus_master_coil_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { cb_read(COIL, s, a, v); }
EXP void modbus_master_disin_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { cb_read(DIN, s, a, v); }
EXP void modbus_master_hreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { cb_read(HREG, s, a, v); }
EXP void modbus_master_inreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { cb_read(INREG, s, a, v); }
EXP void modbus_master_coil_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { cb_write(COIL, s, a, q); }
EXP void modbus_master_hreg_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { cb_write(HREG, s, a, q); }
EXP void modbus_master_coil_exception(const modbus_read_data_t *d) { cb_exc(COIL, d); }
EXP void modbus_master_disin_exception(const modbus_read_data_t *d) { cb_exc(DIN, d); }
EXP void modbus_master_hreg_exception(const modbus_read_data_t *d) { cb_exc(HREG, d); }
EXP void modbus_master_inreg_exception(const modbus_read_data_t *d) { cb_exc(INREG, d); }
EXP void modbus_master_data_timeout_error(const modbus_master_error_report_t *d) { cb_err(Ev::TMO, d); }
EXP void modbus_master_communication_error(const modbus_master_error_report_t *d) { cb_err(Ev::COMM, d); }
}

// ------------------------------------------------------------ operations

static void line_event(int r, uint8_t k, uint8_t v) {
    Depth depth(ev_depth);
    AppWatch watch("a driver event or timer tick");
    Port &p = port[r];
    if (g_trace) fprintf(g_trace, "  %s event %d %02x%s\n", r == M ? "M" : "S", k, v, in_isr ? " (interrupt)" : "");
    switch (k) {
    case O_TICK: L.mtick(); break;
    case O_TXDONE:
        check_tx(r);
        p.busy = false;
        if (p.txdone) p.txdone();
        break;
    case O_RX:
        p.quiet = false;
        if (p.rx) {
            if (p.rx->data && (uint32_t)p.rx->len < 256) {
                p.rx->data[p.rx->len] = v;
                p.rx->len++;
            }
        }
        break;
    case O_T15: if (p.t15) p.t15(); break;
    case O_T35:
        p.quiet = true;
        if (p.t35) p.t35();
        break;
    case O_FERR: if (p.ferr) p.ferr(); break;
    default: break;
    }
}

static int api_call(const Req &r) {
    int ret = -1;
    switch (r.fc) {
    case 1: case 2: case 3: case 4: ret = (int)L.rd[r.fc - 1](r.adr, r.qty, r.slave); break;
    case 5: ret = (int)L.wsc(r.adr, r.slave, r.sval != 0); break;
    case 6: ret = (int)L.wsr(r.adr, r.slave, r.sval); break;
    case 15: {
        // half of the callers use one buffer for everything, the others a buffer of exactly the size needed
        size_t n = r.vals.size() ? r.vals.size() : 1;
        static bool reused[70000];
        bool own = ((r.adr ^ r.slave) & 1) || n > 70000;
        bool *d = own ? (bool *)malloc(n) : reused;
        memset(d, 0, n);
        for (size_t i = 0; i < r.vals.size(); i++) d[i] = r.vals[i] != 0;
        std::vector<uint8_t> was((uint8_t *)d, (uint8_t *)d + n);
        ret = (int)L.wmc(r.adr, r.qty, r.slave, d);
        if (memcmp(was.data(), d, n)) caller_changed++;
        for (size_t i = 0; i < n; i++) d[i] = !was[i]; // the caller reuses its buffer
        if (own) free(d);
        break;
    }
    case 16: {
        size_t n = r.vals.size() ? r.vals.size() : 1;
        static uint16_t reused[70000];
        bool own = ((r.adr ^ r.slave) & 1) || n > 70000;
        uint16_t *d = own ? (uint16_t *)malloc(n * 2) : reused;
        memset(d, 0, n * 2);
        for (size_t i = 0; i < r.vals.size(); i++) d[i] = r.vals[i];
        std::vector<uint16_t> was(d, d + n);
        ret = (int)L.wmr(r.adr, r.qty, r.slave, d);
        if (memcmp(was.data(), d, n * 2)) caller_changed++;
        for (size_t i = 0; i < n; i++) d[i] = (uint16_t)~was[i];
        if (own) free(d);
        break;
    }
    }
    return ret;
}

int do_op(const Op &o) {
    if (g_trace) fflush(g_trace);
    if (g_trace) fprintf(g_trace, "op role=%d kind=%d inj=%zu trace=%zu\n", o.role, o.k, o.inj.size(), tr[o.role & 1].size());
    if (rec_ops) rec_ops->push_back(o);
    int ret = 0;
    switch (o.k) {
    case O_INIT: {
        CallScope c(o.role == M ? "modbus_master_init" : "modbus_slave_init");
        AppWatch watch(cur_call);
        modbus_mode_t mode = o.v ? UNKNOWN_MODE : RTU;
        if (o.role == M) L.minit(mode, o.a, (parity_t)o.b);
        else L.sinit(mode, o.a, (parity_t)o.b, (modbus_device_ID_t)o.c);
        break;
    }
    case O_API: {
        {
            CallScope c("master request", &o.inj);
            Depth d(api_depth);
            AppWatch watch("a request call");
            ret = api_call(*o.req);
        }
        Ev e;
        e.k = Ev::API;
        e.val = (uint32_t)ret;
        tr[M].push_back(e);
        break;
    }
    case O_POLL: {
        {
            CallScope c(o.role == M ? "update_modbus_master_manager" : "check_modbus_request", &o.inj);
            int before = poll_role;
            poll_role = o.role;
            if (o.role == M) { AppWatch watch("the master's poll"); L.mpoll(); }
            else L.spoll();
            poll_role = before;
        }
        check_tx(o.role);
        break;
    }
    case O_REG: {
        CallScope c("register_app_data");
        AppWatch watch(cur_call);
        if (o.a < 2) L.regb[o.a]((modbus_adr_t)o.b, o.c == NOVAR ? nullptr : &abit[o.c]);
        else L.regr[o.a - 2]((modbus_adr_t)o.b, o.c == NOVAR ? nullptr : &areg[o.c]);
        break;
    }
    case O_APPW:
        if (o.a) areg[o.b] = (uint16_t)o.c;
        else abit[o.b] = o.c & 1;
        break;
    case O_TICK: {
        CallScope c("timer tick");
        Depth depth(ev_depth);
        AppWatch watch("a timer tick");
        for (uint32_t n = o.a ? o.a : 1; n; n--) L.mtick();
        break;
    }
    default: {
        CallScope c("driver event");
        line_event(o.role, o.k, o.v);
    }
    }
    return ret;
}
void op_init_m(uint32_t baud, int parity, bool unsupported) {
    Op o; o.v = unsupported; o.role = M; o.k = O_INIT; o.a = baud; o.b = (uint32_t)parity; do_op(o);
}
void op_init_s(uint8_t id, uint32_t baud, int parity, bool unsupported) {
    Op o; o.v = unsupported; o.role = S; o.k = O_INIT; o.a = baud; o.b = (uint32_t)parity; o.c = id; do_op(o);
}
int op_api(const Req &r) {
    Op o; o.role = M; o.k = O_API; o.req = std::make_shared<Req>(r); return do_op(o);
}
void op_ev(int role, uint8_t k, uint8_t v) {
    if (!rec_ops) { // fast path
        CallScope c("driver event");
        line_event(role, k, v);
        return;
    }
    Op o; o.role = (uint8_t)role; o.k = k; o.v = v; do_op(o);
}
void op_ticks(uint32_t n) {
    if (!n) return;
    Op o; o.role = M; o.k = O_TICK; o.a = n;
    do_op(o);
}
void op_poll(int role, std::vector<Inj> *inj) {
    Op o; o.role = (uint8_t)role; o.k = O_POLL;
    if (inj) { o.inj = *inj; inj->clear(); }
    do_op(o);
}
void op_reg(int tab, uint32_t adr, uint32_t var) {
    Op o; o.role = S; o.k = O_REG; o.a = (uint32_t)tab; o.b = adr; o.c = var; do_op(o);
}
void op_appw(int isreg, uint32_t var, uint32_t val) {
    Op o; o.role = S; o.k = O_APPW; o.a = (uint32_t)isreg; o.b = var; o.c = val; do_op(o);
}
void app_alloc(uint32_t bits, uint32_t regs) {
    free(abit);
    free(areg);
    nbit = bits ? bits : 1;
    nreg = regs ? regs : 1;
    abit = (bool *)calloc(nbit, 1);
    areg = (uint16_t *)calloc(nreg, 2);
}

// ------------------------------------------------------------ load and reset
bool world_load(const char *path, std::string &err) {
    void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
    if (!h) { err = dlerror(); return false; }
    auto sym = [&](const char *n) -> void * {
        void *p = dlsym(h, n);
        if (!p) err = std::string("missing symbol ") + n;
        return p;
    };
    *(void **)&L.rd[0] = sym("modbus_master_read_coils");
    *(void **)&L.rd[1] = sym("modbus_master_read_discrete_inputs");
    *(void **)&L.rd[2] = sym("modbus_master_read_holding_reg");
    *(void **)&L.rd[3] = sym("modbus_master_read_input_reg");
    *(void **)&L.wsc = sym("modbus_master_write_single_coil");
    *(void **)&L.wsr = sym("modbus_master_write_single_reg");
    *(void **)&L.wmr = sym("modbus_master_write_multiple_reg");
    *(void **)&L.wmc = sym("modbus_master_write_multiple_coils");
    *(void **)&L.minit = sym("modbus_master_init");
    *(void **)&L.mpoll = sym("update_modbus_master_manager");
    *(void **)&L.mtick = sym("update_modbus_master_timout_timer");
    *(void **)&L.regb[0] = sym("register_app_data_to_modbus_slave_coils_table");
    *(void **)&L.regb[1] = sym("register_app_data_to_modbus_slave_din_table");
    *(void **)&L.regr[0] = sym("register_app_data_to_modbus_slave_hreg_table");
    *(void **)&L.regr[1] = sym("register_app_data_to_modbus_slave_inreg_table");
    *(void **)&L.sinit = sym("modbus_slave_init");
    *(void **)&L.spoll = sym("check_modbus_request");
    const unsigned *c = (const unsigned *)sym("vp_cfg");
    if (!err.empty()) return false;
    cfg.size[COIL] = c[0]; cfg.size[DIN] = c[1]; cfg.size[INREG] = c[2]; cfg.size[HREG] = c[3];
    cfg.queue = c[4]; cfg.timeout = c[5]; cfg.repeat = c[6];
    struct link_map *lm = nullptr;
    dlinfo(h, RTLD_DI_LINKMAP, &lm);
    g_base = lm->l_addr;
    for (auto &r : regions) free(r.save);
    regions.clear();
    dl_iterate_phdr(phdr_cb, nullptr);
    if (regions.empty()) { err = "no writable segment"; return false; }
    g_edge_hook = edge_hook;
    return true;
}
void world_reset() {
    for (auto &r : regions) raw_copy(r.p, r.save, r.n);
    port[0] = Port();
    port[1] = Port();
    tr[0].clear();
    tr[1].clear();
    on_cb = nullptr;
    rec_ops = nullptr;
    injq.clear();
    in_isr = in_call = false;
    off_poll = 0;
    caller_changed = 0;
    off_poll_what.clear();
    watch_app = false;
    poll_role = -1;
    ev_depth = api_depth = 0;
}

// ------------------------------------------------------------ printing
std::string hex(const Bytes &b, size_t max) {
    std::string s;
    char t[8];
    for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, sizeof t, i ? " %02x" : "%02x", b[i]); s += t; }
    if (b.size() > max) { snprintf(t, sizeof t, " .."); s += t; s += "(" + std::to_string(b.size()) + " bytes)"; }
    return s;
}
std::string Ev::str() const {
    char b[200];
    switch (k) {
    case SEND: return "send " + hex(bytes);
    case RD: snprintf(b, sizeof b, "%s_read(slave=%u adr=%u val=%u)", tabname[tab], slave, adr, val); break;
    case WR: snprintf(b, sizeof b, "%s_write(slave=%u adr=%u qty=%u)", tabname[tab], slave, adr, qty); break;
    case EXC: snprintf(b, sizeof b, "%s_exception(slave=%u fc=%u code=%u adr=%u qty=%u)", tabname[tab], slave, fc, code, adr, qty); break;
    case TMO: snprintf(b, sizeof b, "timeout_error(slave=%u fc=%u adr=%u qty=%u kind=%u)", slave, fc, adr, qty, code); break;
    case COMM: snprintf(b, sizeof b, "communication_error(slave=%u fc=%u adr=%u qty=%u kind=%u)", slave, fc, adr, qty, code); break;
    case API: snprintf(b, sizeof b, "request -> %u", val); break;
    case INIT: snprintf(b, sizeof b, "driver init(baud=%u parity=%u)", val, code); break;
    default: snprintf(b, sizeof b, "?"); break;
    }
    return b;
}
static const char *opname[] = {"init", "request", "poll", "tick", "tx-done", "rx", "T1.5", "T3.5", "gap-error", "register", "app-write"};
std::string Op::str() const {
    char b[200];
    std::string s;
    const char *rn = role == M ? "master" : "slave";
    switch (k) {
    case O_API: snprintf(b, sizeof b, "%s request fc=%u slave=%u adr=%u qty=%u val=%u", rn, req->fc, req->slave, req->adr, req->qty, req->sval); break;
    case O_RX: snprintf(b, sizeof b, "%s rx %02x", rn, v); break;
    case O_TICK: if (a > 1) snprintf(b, sizeof b, "%u ticks", a); else snprintf(b, sizeof b, "tick"); break;
    case O_INIT: snprintf(b, sizeof b, "%s init%s baud=%u parity=%u id=%u", rn, v ? " (unsupported mode)" : "", a, this->b, c); break;
    case O_REG: snprintf(b, sizeof b, "register %s[%u] -> var %d", tabname[a & 3], this->b, (int)c); break;
    case O_APPW: snprintf(b, sizeof b, "application writes %s var %u = %u", a ? "reg" : "bit", this->b, c); break;
    default: snprintf(b, sizeof b, "%s %s", rn, opname[k]); break;
    }
    s = b;
    for (auto &i : inj) {
        if (i.k == O_RX) snprintf(b, sizeof b, " [interrupted after %u accesses by %s rx %02x]", i.after, i.role == M ? "master" : "slave", i.v);
        else snprintf(b, sizeof b, " [interrupted after %u accesses by %s %s]", i.after, i.role == M ? "master" : "slave", opname[i.k]);
        s += b;
    }
    return s;
}
