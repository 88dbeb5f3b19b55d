// C22 asynchronous PUTs are equivalent to synchronous ones
// C23 data-race freedom (the same histories and more, under ThreadSanitizer)
#include "hist.hpp"

#include <atomic>
#include <chrono>
#include <thread>

using namespace hxt;

namespace {

// ----------------------------------------------------- schedule perturbation

// delays inside the callbacks the two threads run; reseeded per case
std::atomic<std::uint64_t> g_noise{0};
std::atomic<unsigned> g_level{0};           // 0: none

std::uint64_t noise() {
    std::uint64_t z = g_noise.fetch_add(0x9e3779b97f4a7c15ULL, std::memory_order_relaxed);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
void perturb() {
    const unsigned l = g_level.load(std::memory_order_relaxed);
    if (!l) return;
    const std::uint64_t v = noise();
    if (v % 4 == 0) std::this_thread::yield();
    else if (v % 4 == 1 && l > 1) std::this_thread::sleep_for(std::chrono::microseconds((v >> 8) % (l == 2 ? 60 : 400)));
}

int copy_cb(void *src, const size_t n, void **dst, size_t *dn, void *) {
    perturb();
    *dn = n;
    *dst = ::operator new(n);
    memcpy(*dst, src, n);
    return HXHIM_SUCCESS;
}
int noisy_hash(hxhim_t *hx, void *s, const size_t sl, void *p, const size_t pl, void *a) {
    perturb();
    return spread_hash(hx, s, sl, p, pl, a);
}

// ------------------------------------------------------------------- model

struct Pending { std::size_t seq; Val v; };     // seq: position in the queue of its datastore
typedef std::set<std::pair<std::size_t, std::pair<bool, Val>>> Worlds;   // (PUTs applied, stored value)

struct PairState {
    std::size_t ds = 0;
    std::vector<Pending> pend;
    Worlds worlds;
    PairState() { worlds.insert({0, {false, Val()}}); }
};

struct AsyncModel {
    std::map<Key, PairState> pairs;
    std::vector<std::size_t> queued;            // PUTs queued per datastore
    std::vector<std::size_t> low;               // PUTs known to be applied per datastore

    static std::pair<std::size_t, std::pair<bool, Val>> next(const PairState &p, std::size_t i) { return {i + 1, {true, p.pend[i].v}}; }

    PairState &at(const Key &k) {
        auto it = pairs.find(k);
        if (it == pairs.end()) {
            it = pairs.emplace(k, PairState()).first;
            it->second.ds = spread(k.first, k.second, queued.size());
        }
        return it->second;
    }
    // a PUT that is known to be applied cannot be outstanding in any world
    void advance(PairState &p) {
        Worlds w;
        for (auto x : p.worlds) {
            while (x.first < p.pend.size() && p.pend[x.first].seq < low[p.ds]) x = next(p, x.first);
            w.insert(x);
        }
        p.worlds = w;
    }
    // any number of outstanding PUTs may have been applied by now
    Worlds closure(const PairState &p) const {
        Worlds w;
        for (auto x : p.worlds) {
            w.insert(x);
            while (x.first < p.pend.size()) { x = next(p, x.first); w.insert(x); }
        }
        return w;
    }
    // what an observation says about the queue of the datastore
    void learn(PairState &p) {
        std::size_t least = SIZE_MAX;
        for (auto const &x : p.worlds) least = std::min(least, x.first ? p.pend[x.first - 1].seq + 1 : 0);
        if (least != SIZE_MAX && least > low[p.ds]) {
            low[p.ds] = least;
            for (auto &o : pairs) if (o.second.ds == p.ds) advance(o.second);
        }
    }
    void put(const Key &k, const Val &v) {
        PairState &p = at(k);
        p.pend.push_back({queued[p.ds]++, v});
    }
    // every queued PUT is applied
    void settle() {
        for (std::size_t d = 0; d < queued.size(); d++) low[d] = queued[d];
        for (auto &o : pairs) {
            advance(o.second);
            Worlds w;
            for (auto const &x : o.second.worlds) w.insert({0, x.second});
            o.second.worlds = w;
            o.second.pend.clear();
        }
    }
    std::string show(const Key &k) {
        std::ostringstream s;
        PairState &p = at(k);
        s << "possible:";
        for (auto const &x : closure(p)) { s << " "; if (x.second.first) s << x.second.second; else s << "absent"; }
        return s.str();
    }
    void get(const Key &k, const Rec &r) {
        PairState &p = at(k);
        Worlds w;
        const std::string before = show(k);
        for (auto const &x : closure(p)) {
            if (r.status == HXHIM_SUCCESS ? (x.second.first && same(x.second.second, r.o)) : !x.second.first) w.insert(x);
        }
        PBT_CHECK(w.size(), r << " matches no order of the PUTs queued so far (" << before << ")");
        p.worlds = w;
        learn(p);
    }
    void del(const Key &k, const Rec &r) {
        PairState &p = at(k);
        Worlds w;
        for (auto const &x : closure(p)) {
            if (r.status != HXHIM_SUCCESS && x.second.first) continue;       // it was there, so it cannot fail
            w.insert({x.first, {false, Val()}});
        }
        PBT_CHECK(w.size(), r << " of a pair that is stored (" << show(k) << ")");
        p.worlds = w;
        learn(p);
    }
};

// ------------------------------------------------------------------ engine

void run(pbt::Src &src, pbt::Case &c, bool races) {
    Dir dir;
    Conf cfg;
    cfg.backend = (int) src.weighted({9, races ? 1u : 2u, 0});
    cfg.per_server = 1 + src.below(5);
    cfg.max_ops = std::vector<std::size_t>{1, 2, 3, 8, 128}[src.below(5)];
    cfg.max_size = std::vector<std::size_t>{0, 0, 1, 100, 400}[src.below(5)];
    cfg.debug = gen_debug(src);
    cfg.async_at = std::vector<std::size_t>{1, 2, 3, 5, 9, 20, 100}[src.below(7)];
    cfg.hash_func = noisy_hash;
    cfg.prefix = dir.path;
    const bool hists = src.chance(1, 3);
    if (hists) { cfg.hist_names = {"h"}; cfg.hist_first_n = 1 + src.below(6); }
    const bool slow = src.coin();
    cfg.extra = [&](hxhim_t *hx) {
        if (slow) PBT_CHECK(hxhim_set_transform_function(hx, HXHIM_DATA_BYTE, copy_cb, nullptr, copy_cb, nullptr) == HXHIM_SUCCESS, "transform refused");
    };
    g_noise = src.u64();
    g_level = src.below(4);
    c.desc << describe(cfg) << " noise=" << g_level << " slow=" << slow << "\n";

    std::vector<Val> subj, pred;
    GenOpts g;
    for (std::size_t i = 0, n = 1 + src.below(4); i < n; i++) subj.push_back(gen_val(src, g));
    for (std::size_t i = 0, n = 1 + src.below(3); i < n; i++) pred.push_back(gen_val(src, g));
    if (hists) pred.push_back(byte("h"));

    AsyncModel m;
    m.queued.assign(cfg.per_server, 0);
    m.low.assign(cfg.per_server, 0);

    Session S;
    S.open(cfg);

    std::deque<QOp> puts;                      // queued since PUT results were last taken, with their addresses
    std::vector<QOp> gets, dels;
    std::size_t nhist = 0;
    unsigned counter = 0;
    std::size_t visible_early = 0, bulk = 0, waits = 0;
    std::vector<hxhim::Results *> held;        // histogram results kept while PUTs go on

    auto new_put = [&]() {
        QOp q; q.kind = K_PUT;
        q.s = src.pick(subj); q.p = src.pick(pred);
        // every value is different, so a read tells which PUT it saw
        if (hists && q.p == byte("h")) q.o = num<double>(HXHIM_DATA_DOUBLE, (double) ++counter);
        else q.o = byte("v" + std::to_string(++counter) + std::string(src.below(40), '.'));
        if (src.chance(1, 10)) q.perms = HXHIM_PUT_SPO | HXHIM_PUT_PSO;
        return q;
    };
    auto queued = [&](const QOp &q) {
        for (auto const &e : expand(q)) m.put(e.first, e.second);
        puts.push_back(q);
    };
    auto check_puts = [&](const std::vector<Rec> &rs) {
        // per datastore, one successful result per PUT in queue order
        std::vector<std::deque<std::pair<Key, std::pair<void *, void *>>>> want(cfg.per_server);
        for (auto const &q : puts) for (auto const &e : expand(q)) {
            const bool swapped = !(e.first.first == q.s && e.first.second == q.p) || false;
            want[spread(e.first.first, e.first.second, cfg.per_server)].push_back({e.first, swapped ? std::make_pair(q.pp, q.sp) : std::make_pair(q.sp, q.pp)});
        }
        std::size_t total = 0, got = 0;
        for (auto const &w : want) total += w.size();
        for (auto const &r : rs) {
            if (r.op != HXHIM_PUT) continue;
            got++;
            PBT_CHECK(r.status == HXHIM_SUCCESS, r << " failed");
            PBT_CHECK(r.rs >= 0 && (std::size_t) r.rs < want.size(), r << " from datastore " << r.rs);
            auto &w = want[r.rs];
            PBT_CHECK(w.size(), r << " from datastore " << r.rs << " which has no more PUTs outstanding");
            PBT_CHECK(w.front().first == Key(r.s, r.p), r << " from datastore " << r.rs << ", next queued PUT is for (" << w.front().first.first << ", " << w.front().first.second << ")");
            w.pop_front();
        }
        PBT_CHECK(got == total, total << " PUTs queued, " << got << " results");
        puts.clear();
    };
    auto check_reads = [&](const std::vector<Rec> &rs, bool g1, bool d1) {
        if (g1) {
            std::map<Key, std::size_t> want;
            for (auto const &q : gets) want[Key(q.s, q.p)]++;
            std::size_t n = 0;
            for (auto const &r : rs) if (r.op == HXHIM_GET) {
                n++;
                PBT_CHECK(want[Key(r.s, r.p)]-- > 0, "unexpected " << r);
                Key k(r.s, r.p);
                if (m.at(k).pend.size() && r.status == HXHIM_SUCCESS) {
                    for (auto const &x : m.at(k).pend) if (same(x.v, r.o)) visible_early++;
                }
                m.get(k, r);
            }
            PBT_CHECK(n == gets.size(), gets.size() << " GETs, " << n << " results");
            gets.clear();
        }
        if (d1) {
            std::size_t n = 0;
            for (auto const &r : rs) if (r.op == HXHIM_DELETE) { n++; m.del(Key(r.s, r.p), r); }
            PBT_CHECK(n == dels.size(), dels.size() << " DELETEs, " << n << " results");
            dels.clear();
        }
    };
    auto read_held = [&](hxhim::Results *r) {
        // touches every byte the results refer to
        double sum = 0;
        HXHIM_CXX_RESULTS_LOOP(r) {
            const char *name = nullptr; std::size_t nl = 0, sz = 0; double *b = nullptr; std::size_t *n = nullptr;
            if (r->Histogram(&name, &nl, &b, &n, &sz) == HXHIM_SUCCESS) for (std::size_t i = 0; i < sz; i++) sum += b[i] + (double) n[i];
        }
        return sum;
    };

    const std::size_t steps = 3 + src.below(races ? 25 : 40);
    for (std::size_t i = 0; i < steps; i++) {
        const bool c_api = src.coin();
        switch (src.weighted({6, 4, 4, 2, 2, 1, 1, 2, 1, hists ? 2u : 0u})) {
            case 0: {
                QOp q = new_put();
                c.desc << q << "\n";
                PBT_CHECK(submit(S, q, c_api) == HXHIM_SUCCESS, "put refused");
                queued(q);
                c.ops++;
                break;
            }
            case 1: {
                std::vector<QOp> qs;
                for (std::size_t j = 0, n = several(src, src.chance(1, 6) ? 40 : 8, 250, 40); j < n; j++) qs.push_back(new_put());
                c.desc << "bulk " << qs.size() << ":";
                for (auto const &q : qs) c.desc << " " << q;
                c.desc << "\n";
                if (src.chance(1, 4)) {
                    // the single type form
                    const hxhim_data_t t = qs[0].o.type;
                    std::vector<QOp> same_type;
                    for (auto &q : qs) if (q.o.type == t) same_type.push_back(q);
                    qs = same_type;
                    const std::size_t n = qs.size();
                    std::vector<void *> s(n), p(n), o(n); std::vector<std::size_t> sl(n), pl(n), ol(n); std::vector<hxhim_data_t> st(n), pt(n);
                    std::vector<hxhim_put_permutation_t> pm(n);
                    for (std::size_t j = 0; j < n; j++) {
                        QOp &q = qs[j];
                        s[j] = q.sp = S.arena.put(q.s.bytes); sl[j] = q.s.bytes.size(); st[j] = q.s.type;
                        p[j] = q.pp = S.arena.put(q.p.bytes); pl[j] = q.p.bytes.size(); pt[j] = q.p.type;
                        o[j] = S.arena.put(q.o.bytes); ol[j] = q.o.bytes.size(); pm[j] = q.perms;
                    }
                    PBT_CHECK(hxhim::BPutSingleType(&S.hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), o.data(), ol.data(), t, pm.data(), n) == HXHIM_SUCCESS, "single type put refused");
                }
                else PBT_CHECK(submit_bulk(S, qs, c_api) == HXHIM_SUCCESS, "bulk put refused");
                for (auto const &q : qs) queued(q);
                c.ops += qs.size();
                bulk++;
                break;
            }
            case 2: {
                QOp q; q.kind = K_GET; q.s = src.pick(subj); q.p = src.pick(pred);
                q.want = hists && q.p == byte("h") ? HXHIM_DATA_DOUBLE : HXHIM_DATA_BYTE;
                c.desc << q << "\n";
                PBT_CHECK(submit(S, q, c_api) == HXHIM_SUCCESS, "get refused");
                gets.push_back(q);
                if (src.coin()) { c.desc << "FlushGets\n"; check_reads(flush(S, F_GETS, c_api), true, false); }
                break;
            }
            case 3: {
                QOp q; q.kind = K_DEL; q.s = src.pick(subj); q.p = src.pick(pred);
                c.desc << q << "\n";
                PBT_CHECK(submit(S, q, c_api) == HXHIM_SUCCESS, "delete refused");
                dels.push_back(q);
                if (src.coin()) { c.desc << "FlushDeletes\n"; check_reads(flush(S, F_DELS, c_api), false, true); }
                break;
            }
            case 4: {
                c.desc << "FlushPuts\n";
                std::vector<Rec> rs = flush(S, F_PUTS, c_api);
                check_puts(rs);
                m.settle();
                break;
            }
            case 5: case 6: {
                const int f = src.chance(1, 3) ? F_SYNC : F_ALL;
                c.desc << flush_name(f) << "\n";
                std::vector<Rec> rs = flush(S, f, c_api);
                // in the order PUT, GET, GETOP, DELETE, HISTOGRAM, SYNC
                static const int rank[] = {0, 1, 2, 3, 5, 4, 9};
                int last = 0;
                std::size_t nh = 0;
                for (auto const &r : rs) {
                    const int k = rank[(unsigned) r.op < 7 ? r.op : 6];
                    PBT_CHECK(k >= last, "result of " << r << " after one of a later kind");
                    last = k;
                    nh += r.op == HXHIM_HISTOGRAM;
                }
                check_puts(rs);
                m.settle();
                check_reads(rs, true, true);
                PBT_CHECK(nh == nhist, nhist << " HISTOGRAMs, " << nh << " results");
                nhist = 0;
                break;
            }
            case 7: {
                const unsigned us = (unsigned) src.below(4) * 120;
                c.desc << "pause " << us << "\n";
                if (us) std::this_thread::sleep_for(std::chrono::microseconds(us)); else std::this_thread::yield();
                break;
            }
            case 8: {
                // PUTs past the threshold are stored without being flushed
                std::size_t pending = 0;
                Key last_key; bool have = false;
                std::vector<std::pair<Key, Val>> all;
                for (auto const &q : puts) for (auto const &e : expand(q)) all.push_back(e);
                pending = all.size();
                if (pending < cfg.async_at) break;
                // at most async_at - 1 of the PUTs stay queued
                const std::size_t at = pending - cfg.async_at;
                last_key = all[at].first;
                have = true;
                c.desc << "wait for " << last_key.first << ", " << last_key.second << "\n";
                waits++;
                PairState &p = m.at(last_key);
                // position of that PUT among those of its pair
                std::size_t nth = 0;
                for (std::size_t j = 0; j <= at; j++) if (all[j].first == last_key) nth++;
                // p.pend holds the PUTs since the last settle, puts those since results were taken: the same
                const auto stop = std::chrono::steady_clock::now() + std::chrono::seconds(60);
                bool done = false;
                while (have && !done) {
                    QOp q; q.kind = K_GET; q.s = last_key.first; q.p = last_key.second;
                    PBT_CHECK(submit(S, q, false) == HXHIM_SUCCESS, "get refused");
                    gets.push_back(q);
                    check_reads(flush(S, F_GETS, false), true, false);
                    // equal values of one pair cannot be told apart: one possible order is enough
                    bool known = m.low[p.ds] > p.pend[nth - 1].seq;
                    for (auto const &x : p.worlds) known = known || x.first >= nth;
                    if (known) { done = true; break; }
                    bool absent = false;
                    for (auto const &x : p.worlds) if (!x.second.first && x.first > 0) absent = true;
                    if (absent) break;               // deleted: nothing to observe
                    PBT_CHECK(std::chrono::steady_clock::now() < stop, "PUT number " << at + 1 << " of " << pending << " is not stored although PUTs start at " << cfg.async_at << " (" << m.show(last_key) << ")");
                    std::this_thread::sleep_for(std::chrono::microseconds(200));
                }
                break;
            }
            default: {
                if (src.coin() && held.size()) {
                    for (auto *r : held) { read_held(r); hxhim::Results::Destroy(r); }
                    held.clear();
                    c.desc << "read held histograms\n";
                    break;
                }
                const int ds = (int) src.below(cfg.per_server);
                c.desc << "histogram of " << ds << "\n";
                PBT_CHECK(hxhim::Histogram(&S.hx, ds, "h", 1) == HXHIM_SUCCESS, "histogram refused");
                hxhim::Results *r = hxhim::FlushHistograms(&S.hx);
                PBT_CHECK(r && r->Size() == 1 + nhist, "one HISTOGRAM, " << (r ? r->Size() : 0) << " results");
                nhist = 0;
                read_held(r);
                held.push_back(r);
                c.label("held histogram");
            }
        }
    }
    for (auto *r : held) { read_held(r); hxhim::Results::Destroy(r); }
    c.nontrivial = visible_early > 0 || waits > 0;
    c.label("reads that saw a PUT before its flush", visible_early);
    c.label("waits", waits);

    if (cfg.backend == LEVEL && src.coin()) {
        // closing completes what is queued
        c.desc << "Close, reopen\n";
        c.label("reopened");
        g_level = 0;
        S.close();
        m.settle();
        gets.clear();
        if (dels.size()) return;               // queued DELETEs were carried out too, in no observed order
        Session T;
        cfg.create = false;
        T.open(cfg);
        for (auto const &k : m.pairs) {
            QOp q; q.kind = K_GET; q.s = k.first.first; q.p = k.first.second;
            PBT_CHECK(submit(T, q, false) == HXHIM_SUCCESS, "get refused");
            gets.push_back(q);
        }
        if (gets.size()) check_reads(flush(T, F_ALL, false), true, false);
        T.close();
        return;
    }

    std::vector<Rec> rs = flush(S, F_ALL, false);
    check_puts(rs);
    m.settle();
    check_reads(rs, true, true);
    for (auto const &k : m.pairs) {
        QOp q; q.kind = K_GET; q.s = k.first.first; q.p = k.first.second;
        PBT_CHECK(submit(S, q, false) == HXHIM_SUCCESS, "get refused");
        gets.push_back(q);
    }
    check_reads(flush(S, F_ALL, false), true, true);
    // sometimes leave PUTs behind for Close
    if (src.chance(1, 3)) {
        for (std::size_t j = 0, n = 1 + src.below(8); j < n; j++) { QOp q = new_put(); submit(S, q, false); }
        c.desc << "PUTs left at Close\n";
    }
    S.close();
}

pbt::Reg r22("C22",
    "Random histories of single, bulk and single-type PUTs (every value unique, duplicate pairs, several permutations) with GETs, DELETEs, FlushPuts, Flush, Sync, HISTOGRAMs, pauses and closes, asynchronous PUTs starting at 1 to 100 queued PUTs, 1-5 datastores, 1-8 operations per packet, random delays inside the hash and the transform functions of both threads; a case is non-trivial when a read saw a PUT before it was flushed or a wait for the threshold took place",
    [](pbt::Src &s, pbt::Case &c) { run(s, c, false); }, 9000, 300000, 20, 120, 0, true);

pbt::Reg r23("C23",
    "The histories of C22 (asynchronous PUTs next to every other operation, results and histograms read while PUTs continue) under ThreadSanitizer; a case is non-trivial when a read saw a PUT before it was flushed or a wait for the threshold took place",
    [](pbt::Src &s, pbt::Case &c) { run(s, c, true); }, 5000, 150000, 20, 120, 0, true);

}
