// C27 lifecycle of instances
#include "hist.hpp"

#include <dirent.h>
#include <malloc.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#else
static size_t __sanitizer_get_current_allocated_bytes() { return mallinfo2().uordblks; }
#endif

using namespace hxt;

namespace {

std::size_t entries(const char *dir) {
    std::size_t n = 0;
    if (DIR *d = opendir(dir)) { while (readdir(d)) n++; closedir(d); }
    return n;
}

int keep_encode(void *src, const size_t n, void **dst, size_t *dst_size, void *extra) {
    if (n && *(char *) extra && ((char *) src)[0] == *(char *) extra) return HXHIM_ERROR;
    *dst = ::operator new(n);
    if (n) memcpy(*dst, src, n);
    *dst_size = n;
    return HXHIM_SUCCESS;
}

enum Bad { GOOD, NO_CREATE, UNDER_FILE };
enum Kind2 { INIT, OPEN, OPEN_ONE, CLOSE, REFUSED, OP, HIST, FLUSH, CHANGE_HASH, CHANGE_NAME, READ, DROP };
struct Step {
    int kind = 0;
    int inst = 0;
    std::size_t conf = 0;
    int bad = GOOD;
    QOp q;
    std::vector<QOp> bulk;
    bool c_api = false, keep = false;
    int flush = F_ALL;
    std::size_t which = 0;
    std::string name;
};

enum State { NONE, READY, RUNNING };

struct Plan {
    std::vector<Conf> confs;
    std::vector<char> enc_bad, dec_bad;     // per configuration: 0, or the first byte a user callback refuses
    std::vector<Step> steps;
};

// everything that needs a running instance says no
void refused(hxhim_t *hx, State st, const char *what) {
    char a[4] = "abc";
    float f = 1; double d = 1; (void) f; (void) d;
    void *ps[1] = {a}; std::size_t ls[1] = {3}; hxhim_data_t ts[1] = {HXHIM_DATA_BYTE};
    hxhim_put_permutation_t pm[1] = {HXHIM_PUT_SPO};
    std::size_t nr[1] = {1}; hxhim_getop_t go[1] = {HXHIM_GETOP_EQ};
    const hxhim_data_t B = HXHIM_DATA_BYTE;
    auto no = [&](int rc, const char *call) { PBT_CHECK(rc == HXHIM_ERROR, call << " on " << what << " returned " << rc); };
    auto none = [&](bool got, const char *call) { PBT_CHECK(!got, call << " on " << what << " returned results"); };
    if (st != RUNNING) {
        no(hxhim::Put(hx, a, 3, B, a, 3, B, a, 3, B, HXHIM_PUT_SPO), "Put");
        no(hxhimPut(hx, a, 3, B, a, 3, B, a, 3, B, HXHIM_PUT_SPO), "hxhimPut");
        no(hxhim::Get(hx, a, 3, B, a, 3, B, B), "Get");
        no(hxhimGet(hx, a, 3, B, a, 3, B, B), "hxhimGet");
        no(hxhim::GetOp(hx, a, 3, B, a, 3, B, B, 1, HXHIM_GETOP_EQ), "GetOp");
        no(hxhim::Delete(hx, a, 3, B, a, 3, B), "Delete");
        no(hxhimDelete(hx, a, 3, B, a, 3, B), "hxhimDelete");
        no(hxhim::Histogram(hx, 0, "a", 1), "Histogram");
        no(hxhim::BPut(hx, ps, ls, ts, ps, ls, ts, ps, ls, ts, pm, 1), "BPut");
        no(hxhim::BGet(hx, ps, ls, ts, ps, ls, ts, ts, 1), "BGet");
        no(hxhim::BGetOp(hx, ps, ls, ts, ps, ls, ts, ts, nr, go, 1), "BGetOp");
        no(hxhim::BDelete(hx, ps, ls, ts, ps, ls, ts, 1), "BDelete");
        none(hxhim::FlushPuts(hx), "FlushPuts"); none(hxhim::FlushGets(hx), "FlushGets"); none(hxhim::FlushGetOps(hx), "FlushGetOps");
        none(hxhim::FlushDeletes(hx), "FlushDeletes"); none(hxhim::FlushHistograms(hx), "FlushHistograms");
        none(hxhim::Flush(hx), "Flush"); none(hxhim::Sync(hx), "Sync");
        none(hxhim::ChangeHash(hx, "x", spread_hash, nullptr), "ChangeHash");
        none(hxhim::ChangeDatastoreName(hx, "x", true, true, true), "ChangeDatastoreName");
        for (int i = 0; i < 2; i++) {
            hxhim_results_t *r = i ? hxhimSync(hx) : hxhimFlush(hx);
            std::size_t n = 0;
            none(r && hxhim_results_size(r, &n) == HXHIM_SUCCESS && n, "hxhimFlush");
            hxhim_results_destroy(r);
        }
        MPI_Comm comm; int rank, size, exists; std::size_t n;
        no(hxhim::GetMPI(hx, &comm, &rank, &size), "GetMPI");
        no(hxhim::GetDatastoreCount(hx, &n), "GetDatastoreCount");
        no(hxhim::GetRangeServerCount(hx, &n), "GetRangeServerCount");
        no(hxhim::GetDatastoreLocation(hx, 0, &rank, &size), "GetDatastoreLocation");
        no(hxhim::HaveHistogram(hx, "a", 1, &exists), "HaveHistogram");
        no(hxhimHaveHistogram(hx, "a", 1, &exists), "hxhimHaveHistogram");
        no(hxhim::GetHash(hx, nullptr, nullptr, nullptr), "GetHash");
        std::ostringstream text;
        no(hxhim::GetPrintBufferContents(hx, text), "GetPrintBufferContents");
        std::size_t client, server;
        no(hxhim::GetRangeServerClientToServerRatio(hx, &client, &server), "GetRangeServerClientToServerRatio");
        no(hxhimGetRangeServerClientToServerRatio(hx, &client, &server), "hxhimGetRangeServerClientToServerRatio");
    }
    if (st != READY) {
        no(hxhim::Open(hx), "Open");
        no(hxhimOpen(hx), "hxhimOpen");
        no(hxhim::OpenOne(hx, "nowhere"), "OpenOne");
        no(hxhim_set_debug_level(hx, MLOG_EMERG), "set_debug_level");
        no(hxhim_set_client_ratio(hx, 1), "set_client_ratio");
        no(hxhim_set_datastores_per_server(hx, 1), "set_datastores_per_server");
        no(hxhim_set_datastore_in_memory(hx), "set_datastore_in_memory");
        no(hxhim_set_datastore_name(hx, "a", "b", "c"), "set_datastore_name");
        no(hxhim_set_hash_name(hx, "DATASTORE_0"), "set_hash_name");
        no(hxhim_set_transport_null(hx), "set_transport_null");
        no(hxhim_set_start_async_puts_at(hx, 1), "set_start_async_puts_at");
        no(hxhim_set_maximum_ops_per_request(hx, 1), "set_maximum_ops_per_request");
        no(hxhim_add_histogram_track_predicate(hx, "a", 1), "add_histogram_track_predicate");
    }
    if (st == NONE) {
        struct timespec t;
        no(hxhim::Close(hx), "Close");
        no(hxhimClose(hx), "hxhimClose");
        no(hxhim::GetEpoch(hx, &t), "GetEpoch");
    }
}

struct Kept { hxhim::Results *cxx = nullptr; hxhim_results_t *c = nullptr; };

void run(const Plan &plan, const std::string &dir) {
    static const char *names[] = {"INIT", "OPEN", "OPEN_ONE", "CLOSE", "REFUSED", "OP", "HIST", "FLUSH", "CHANGE_HASH", "CHANGE_NAME", "READ", "DROP"};
    std::filesystem::create_directories(dir);
    { FILE *f = fopen((dir + "/file").c_str(), "w"); if (f) fclose(f); }
    Session S[2];
    State st[2] = {NONE, NONE};
    std::vector<char> enc_bad(2), dec_bad(2);
    bool unknown[2] = {false, false};       // opened without creating, then changed: may or may not exist
    bool one[2] = {false, false};
    std::vector<Kept> kept;
    auto drop = [&](std::size_t i) {
        hxhim::Results::Destroy(kept[i].cxx);
        if (kept[i].c) hxhim_results_destroy(kept[i].c);
        kept.erase(kept.begin() + i);
    };
    struct Cleanup { std::vector<Kept> &k; ~Cleanup() { for (Kept &x : k) { hxhim::Results::Destroy(x.cxx); if (x.c) hxhim_results_destroy(x.c); } } } cleanup{kept};
    auto shut = [&](int i) {
        S[i].open_ = false;
        const int rc = i ? hxhimClose(&S[i].hx) : hxhim::Close(&S[i].hx);
        PBT_CHECK(rc == HXHIM_SUCCESS, "Close returned " << rc);
        PBT_CHECK(!S[i].hx.p, "Close left state behind");
        st[i] = NONE;
    };
    for (std::size_t n = 0; n < plan.steps.size(); n++) {
        Step x = plan.steps[n];
        Session &s = S[x.inst];
        hxhim_t *hx = &s.hx;
        auto &eb = enc_bad[x.inst];
        auto configure = [&]() {
            Conf c = plan.confs[x.conf];
            c.prefix = x.bad == UNDER_FILE ? dir + "/file/deep" : x.bad == NO_CREATE ? dir + "/missing" : dir + "/c" + std::to_string(x.conf) + "i" + std::to_string(x.inst);
            if (x.bad) c.create = x.bad != NO_CREATE;
            c.extra = [&](hxhim_t *h) {
                if (plan.enc_bad[x.conf] || plan.dec_bad[x.conf])
                    PBT_CHECK(hxhim_set_transform_function(h, HXHIM_DATA_BYTE, keep_encode, (void *) &plan.enc_bad[x.conf], keep_encode, (void *) &plan.dec_bad[x.conf]) == HXHIM_SUCCESS, "transform refused");
            };
            enc_bad[x.inst] = plan.enc_bad[x.conf]; dec_bad[x.inst] = plan.dec_bad[x.conf];
            apply(hx, c);
            s.cfg = c;
        };
        auto at = [&]() { std::ostringstream o; o << "step " << n << " (" << names[x.kind] << " of instance " << x.inst << "): "; return o.str(); };
        switch (x.kind) {
            case INIT: s.init(); st[x.inst] = READY; break;
            case OPEN: case OPEN_ONE: {
                configure();
                int rc;
                if (x.kind == OPEN) rc = x.c_api ? hxhimOpen(hx) : hxhim::Open(hx);
                else {
                    s.cfg.per_server = 1;
                    // opens what exists, never creates
                    const std::string name = "i" + std::to_string(x.inst) + "b" + std::to_string(s.cfg.backend);
                    std::string path = x.bad == UNDER_FILE ? dir + "/file/one" : dir + (x.bad ? "/gone/" : "/one/") + name + "-0";
                    if (!x.bad && s.cfg.backend != MEM && !std::filesystem::exists(path)) {
                        Conf mk;
                        mk.backend = s.cfg.backend; mk.prefix = dir + "/one"; mk.basename = name;
                        Session maker;
                        maker.open(mk);
                        maker.close();
                    }
                    rc = x.c_api ? hxhimOpenOne(hx, path.data(), path.size()) : hxhim::OpenOne(hx, path);
                }
                const bool ok = !x.bad || s.cfg.backend == MEM;
                PBT_CHECK((rc == HXHIM_SUCCESS) == ok, at() << "returned " << rc << " for " << describe(s.cfg));
                st[x.inst] = ok ? RUNNING : NONE;
                unknown[x.inst] = false; one[x.inst] = x.kind == OPEN_ONE && s.cfg.backend != MEM;
                if (!ok) { s.open_ = false; PBT_CHECK(!hx->p, at() << "a failed open left state behind"); }
                break;
            }
            case CLOSE: shut(x.inst); break;
            case REFUSED:
                refused(hx, st[x.inst], st[x.inst] == NONE ? "a closed instance" : st[x.inst] == READY ? "an instance that is not open" : "an open instance");
                if (st[x.inst] == NONE) refused(nullptr, NONE, "no instance");
                break;
            case OP:
                if (x.bulk.size()) PBT_CHECK(submit_bulk(s, x.bulk, x.c_api) == HXHIM_SUCCESS, at() << "refused");
                else PBT_CHECK(submit(s, x.q, x.c_api) == HXHIM_SUCCESS, at() << "refused");
                break;
            case HIST:
                PBT_CHECK(hxhim::Histogram(hx, (int) (x.which % s.cfg.per_server), plan.steps[n].name.data(), plan.steps[n].name.size()) == HXHIM_SUCCESS, at() << "refused");
                break;
            case FLUSH: case CHANGE_HASH: case CHANGE_NAME: {
                Kept k;
                if (x.kind != FLUSH && one[x.inst]) unknown[x.inst] = true;
                const std::string name = x.kind == CHANGE_HASH ? dir + "/" + x.name + "i" + std::to_string(x.inst) : x.name;
                if (x.kind == CHANGE_HASH) {
                    if (x.c_api) k.c = hxhimChangeHash(hx, name.data(), name.size(), spread_hash, nullptr);
                    else k.cxx = hxhim::ChangeHash(hx, name, spread_hash, nullptr);
                }
                else if (x.kind == CHANGE_NAME) {
                    if (x.c_api) k.c = hxhimChangeDatastoreName(hx, name.data(), name.size(), x.which & 1, x.which & 2, x.which & 4);
                    else k.cxx = hxhim::ChangeDatastoreName(hx, name, x.which & 1, x.which & 2, x.which & 4);
                }
                else if (x.c_api) k.c = x.flush == F_PUTS ? hxhimFlushPuts(hx) : x.flush == F_GETS ? hxhimFlushGets(hx) : x.flush == F_SYNC ? hxhimSync(hx) : hxhimFlush(hx);
                else k.cxx = x.flush == F_PUTS ? hxhim::FlushPuts(hx) : x.flush == F_GETS ? hxhim::FlushGets(hx) : x.flush == F_SYNC ? hxhim::Sync(hx) : hxhim::Flush(hx);
                PBT_CHECK(k.c || k.cxx, at() << "no results");
                kept.push_back(k);
                if (!x.keep) drop(kept.size() - 1);
                break;
            }
            case READ: {
                // the instance works: write, read back
                flush(s, F_ALL, false);
                PBT_CHECK(submit(s, x.q, x.c_api) == HXHIM_SUCCESS, at() << "refused");
                std::vector<Rec> rs = flush(s, F_PUTS, x.c_api);
                if (unknown[x.inst]) { PBT_CHECK(rs.size() == 1, at() << rs.size() << " results for one PUT"); break; }
                auto byte_bad = [&](const Val &v) { return v.type == HXHIM_DATA_BYTE && eb && v.bytes[0] == eb; };
                const bool ok = !byte_bad(x.q.s) && !byte_bad(x.q.p) && !byte_bad(x.q.o);
                PBT_CHECK(rs.size() == 1 && rs[0].status == (ok ? HXHIM_SUCCESS : HXHIM_ERROR), at() << x.q << ": " << rs.size() << " results");
                QOp g = x.q; g.kind = K_GET;
                PBT_CHECK(submit(s, g, x.c_api) == HXHIM_SUCCESS, at() << "refused");
                rs = flush(s, F_GETS, x.c_api);
                const char db = dec_bad[x.inst];
                const bool readable = ok && !(x.q.o.type == HXHIM_DATA_BYTE && db && x.q.o.bytes[0] == db);
                PBT_CHECK(rs.size() == 1, at() << rs.size() << " results for one GET");
                if (readable) PBT_CHECK(rs[0].status == HXHIM_SUCCESS && same(rs[0].o, x.q.o), at() << x.q << " was written, then read " << rs[0]);
                else if (ok) PBT_CHECK(rs[0].status == HXHIM_ERROR, at() << rs[0]);
                break;
            }
            case DROP: if (kept.size()) drop(x.which % kept.size()); break;
        }
    }
    for (int i = 0; i < 2; i++) if (st[i] != NONE) shut(i);
    while (kept.size()) drop(0);
}

void c27(pbt::Src &src, pbt::Case &c) {
    static const char *names[] = {"init", "open", "open-one", "close", "refused", "op", "histogram", "flush", "change hash", "change name", "read", "drop"};
    Dir dir;
    Plan plan;
    std::vector<Val> vals;
    GenOpts g;
    for (std::size_t i = 0, n = 2 + src.below(4); i < n; i++) vals.push_back(gen_val(src, g));
    const std::string hist = "ab";
    const bool rocks = src.chance(1, 12);
    for (std::size_t i = 0, n = 1 + src.below(3); i < n; i++) {
        Conf cfg = gen_config(src, "", 5, rocks ? 0 : 3, rocks ? 2 : 0);
        if (src.chance(1, 3)) cfg.async_at = 1 + src.below(4);
        if (src.chance(1, 3)) { cfg.hist_names = {hist, "h2"}; cfg.hist_read = src.coin(); cfg.hist_write = src.coin(); cfg.hist_first_n = 1 + src.below(4); }
        const char none = 0;
        char e = none, d = none;
        if (src.chance(1, 4)) { if (src.coin()) e = 'a'; else d = 'b'; }
        plan.confs.push_back(cfg); plan.enc_bad.push_back(e); plan.dec_bad.push_back(d);
        c.desc << "configuration " << i << ": " << describe(cfg);
        if (e) c.desc << " encode refuses " << e;
        if (d) c.desc << " decode refuses " << d;
        c.desc << "\n";
    }
    State st[2] = {NONE, NONE};
    int backend[2] = {MEM, MEM};
    std::size_t opens = 0, failed = 0, sessions = 0, kept_over = 0;
    auto gen_op = [&](Kind k) {
        QOp q; q.kind = k; q.s = src.pick(vals); q.p = src.chance(1, 3) ? byte(hist) : src.pick(vals); q.o = src.pick(vals);
        if (k == K_PUT && q.p == byte(hist)) q.o = num<double>(HXHIM_DATA_DOUBLE, (double) src.below(20));
        if (k == K_PUT && src.chance(1, 4)) q.perms = (hxhim_put_permutation_t) src.below(64);
        if (k == K_GETOP) { q.gop = (hxhim_getop_t) src.below(7); q.nrec = src.below(4); }
        q.want = src.pick(vals).type;
        return q;
    };
    for (std::size_t n = 4 + src.below(30); n; n--) {
        Step x;
        x.inst = src.chance(1, 4);
        x.c_api = src.coin();
        x.conf = src.below(plan.confs.size());
        State &s = st[x.inst];
        if (src.chance(1, 10)) x.kind = REFUSED;
        else if (s == NONE) x.kind = INIT;
        else if (s == READY) x.kind = std::vector<int>{OPEN, OPEN_ONE, CLOSE}[src.weighted({6, 2, 1})];
        else x.kind = std::vector<int>{OP, FLUSH, READ, CLOSE, HIST, CHANGE_HASH, CHANGE_NAME, DROP}[src.weighted({8, 4, 2, 3, 1, 1, 1, 1})];
        c.desc << names[x.kind] << " " << x.inst;
        switch (x.kind) {
            case INIT: s = READY; break;
            case OPEN: case OPEN_ONE:
                backend[x.inst] = plan.confs[x.conf].backend;
                if (backend[x.inst] != MEM && src.chance(1, 4)) x.bad = src.coin() ? NO_CREATE : UNDER_FILE;
                c.desc << " configuration " << x.conf << (x.bad == NO_CREATE ? " missing" : x.bad ? " impossible path" : "");
                if (x.bad) { s = NONE; failed++; } else { s = RUNNING; opens++; }
                break;
            case CLOSE: if (s == RUNNING) sessions++; s = NONE; break;
            case OP: {
                const Kind k = (Kind) src.weighted({5, 3, 2, 2});
                if (src.chance(1, 3)) { for (std::size_t m = 1 + src.below(4); m; m--) { x.bulk.push_back(gen_op(k)); c.desc << " " << x.bulk.back(); } }
                else { x.q = gen_op(k); c.desc << " " << x.q; }
                break;
            }
            case HIST: x.name = src.chance(1, 3) ? "unknown" : hist; x.which = src.below(4); break;
            case FLUSH: x.flush = std::vector<int>{F_ALL, F_PUTS, F_GETS, F_SYNC}[src.below(4)]; x.keep = src.chance(1, 3); if (x.keep) kept_over++; c.desc << " " << flush_name(x.flush) << (x.keep ? " kept" : ""); break;
            case CHANGE_HASH: case CHANGE_NAME: x.name = src.coin() ? "n1" : "n2"; x.which = src.below(8); x.keep = src.coin(); c.desc << " " << x.name << " " << x.which; break;
            case READ: x.q = gen_op(K_PUT); x.q.perms = HXHIM_PUT_SPO; c.desc << " " << x.q; break;
            case DROP: x.which = src.below(8); break;
            default: break;
        }
        c.desc << (x.c_api ? " (C)\n" : "\n");
        plan.steps.push_back(x);
        c.ops++;
    }
    // the same history several times: nothing may pile up
    const int times = rocks ? 2 : 4;
    std::size_t bytes[5], fds[5], threads[5];
    for (int i = 0; i < times; i++) {
        const std::string d = dir.path + "/r" + std::to_string(i);
        run(plan, d);
        std::error_code ec;
        std::filesystem::remove_all(d, ec);
        bytes[i] = __sanitizer_get_current_allocated_bytes(); fds[i] = entries("/proc/self/fd"); threads[i] = entries("/proc/self/task");
    }
    if (!rocks) {
        auto grows = [&](const std::size_t *v) { return v[1] > v[0] && v[2] > v[1] && v[3] > v[2]; };
        PBT_CHECK(!grows(fds), "every repetition leaves files open: " << fds[0] << " " << fds[1] << " " << fds[2] << " " << fds[3]);
        PBT_CHECK(!grows(threads), "every repetition leaves threads behind: " << threads[0] << " " << threads[1] << " " << threads[2] << " " << threads[3]);
        PBT_CHECK(!grows(bytes), "every repetition leaves memory behind: " << bytes[1] - bytes[0] << ", " << bytes[2] - bytes[1] << ", " << bytes[3] - bytes[2] << " bytes");
    }
    if (failed) c.label("failed open");
    if (kept_over) c.label("results outlive the flush");
    if (opens >= 2) c.label("opened again");
    c.nontrivial = opens >= 1 && (sessions >= 1 || failed >= 1);
}

pbt::Reg r27("C27", "4-33 steps over two instances: Init, Open and OpenOne with 1-3 random configurations (a quarter of the disk ones at places that cannot be opened), operations in every form, flushes with results kept past later steps and past Close, histograms, ChangeHash, ChangeDatastoreName, Close with work still queued, and every public call in a state where it must be refused; the whole history runs four times and memory, open files and threads must not grow with each repetition. Non-trivial: something was opened and something closed or failed to open.",
    c27, 5000, 100000, 20);

}
