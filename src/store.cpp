// C01 store model, C02 one result per operation, C03 permutations
#include "hist.hpp"

using namespace hxt;

namespace {

struct Pools { std::vector<Val> s, p, o; };
Pools gen_pools(pbt::Src &s, const GenOpts &g, std::size_t maxn = 4) {
    Pools r;
    auto fill = [&](std::vector<Val> &v, std::size_t n) { for (std::size_t i = 0; i < n; i++) v.push_back(gen_val(s, g)); };
    fill(r.s, 1 + s.below(maxn));
    fill(r.p, several(s, maxn, 60, 40));
    fill(r.o, 2 + s.below(4));
    return r;
}

// ------------------------------------------------------------------- C01

void c01(pbt::Src &src, pbt::Case &c) {
    Dir dir;
    Session S;
    Conf cfg = gen_config(src, dir.path);
    GenOpts g; g.big = src.chance(1, 3);
    Pools pool = gen_pools(src, g);
    c.desc << describe(cfg) << "\n";
    c.label(backend_name(cfg.backend));
    S.open(cfg);

    Model model;
    std::vector<QOp> puts, gets, dels;
    std::size_t overwrites = 0, hits = 0, removed = 0;
    const std::size_t steps = 2 + src.below(26);

    auto gen = [&](Kind k) {
        QOp q;
        q.kind = k;
        q.s = src.pick(pool.s);
        q.p = src.pick(pool.p);
        if (k == K_PUT) q.o = src.pick(pool.o);
        if (k == K_GET) q.want = src.chance(1, 8) ? HXHIM_DATA_DOUBLE : src.pick(pool.o).type;
        return q;
    };
    auto match = [&](std::vector<Rec> &rs, hxhim_op_t op, const std::vector<std::pair<Key, std::pair<int, Val>>> &want) {
        // want: key -> (status: 0 error, 1 success, 2 either; object)
        std::multimap<Key, Rec *> got;
        std::size_t n = 0;
        for (auto &r : rs) if (r.op == op) { got.emplace(Key(r.s, r.p), &r); n++; }
        PBT_CHECK(n == want.size(), want.size() << " operations flushed, " << n << " results of that kind");
        std::map<Key, std::vector<const std::pair<int, Val> *>> w;
        for (auto const &x : want) w[x.first].push_back(&x.second);
        for (auto const &x : w) {
            auto range = got.equal_range(x.first);
            const std::size_t have = std::distance(range.first, range.second);
            PBT_CHECK(have == x.second.size(), "(" << x.first.first << ", " << x.first.second << "): " << x.second.size() << " operations, " << have << " results");
            std::size_t i = 0;
            for (auto it = range.first; it != range.second; ++it, ++i) {
                const int st = x.second[i]->first;
                if (st == 2) { PBT_CHECK(it->second->status == HXHIM_SUCCESS || it->second->status == HXHIM_ERROR, "status " << it->second->status); continue; }
                PBT_CHECK((it->second->status == HXHIM_SUCCESS) == (st == 1), *it->second << ", expected " << (st ? "SUCCESS" : "ERROR"));
                if (st == 1 && op == HXHIM_GET)
                    PBT_CHECK(same(it->second->o, x.second[i]->second), *it->second << ", last stored value is " << x.second[i]->second);
            }
        }
    };
    auto settle = [&](int f, bool c_api) {
        c.desc << flush_name(f) << "\n";
        std::vector<Rec> rs = flush(S, f, c_api);
        std::vector<std::pair<Key, std::pair<int, Val>>> want;
        if (f == F_ALL || f == F_SYNC || f == F_PUTS) {
            for (auto const &q : puts) {
                Key k(q.s, q.p);
                if (model.count(k) && model[k] != q.o) overwrites++;
                model[k] = q.o;
                want.push_back({k, {1, Val()}});
            }
            match(rs, HXHIM_PUT, want);
            puts.clear(); want.clear();
        }
        if (f == F_ALL || f == F_SYNC || f == F_GETS) {
            for (auto const &q : gets) {
                Key k(q.s, q.p);
                auto it = model.find(k);
                if (it != model.end()) { hits++; want.push_back({k, {1, it->second}}); }
                else want.push_back({k, {0, Val()}});
            }
            match(rs, HXHIM_GET, want);
            gets.clear(); want.clear();
        }
        if (f == F_ALL || f == F_SYNC || f == F_DELS) {
            for (auto const &q : dels) {
                Key k(q.s, q.p);
                if (model.erase(k)) { removed++; want.push_back({k, {1, Val()}}); }
                else want.push_back({k, {2, Val()}});
            }
            match(rs, HXHIM_DELETE, want);
            dels.clear(); want.clear();
        }
    };

    for (std::size_t i = 0; i < steps; i++) {
        const bool c_api = src.coin();
        switch (src.weighted({5, 3, 2, 3, 2, 1, 4})) {
            case 0: case 1: case 2: {
                // a run of one kind, single or bulk
                const Kind k = (Kind) std::vector<Kind>{K_PUT, K_GET, K_DEL}[src.weighted({5, 3, 2})];
                const std::size_t n = several(src, 5);
                std::vector<QOp> qs;
                for (std::size_t j = 0; j < n; j++) qs.push_back(gen(k));
                const bool bulk = src.coin();
                c.desc << (bulk ? "bulk " : "");
                for (auto const &q : qs) c.desc << q << " ";
                c.desc << "\n";
                if (bulk) PBT_CHECK(submit_bulk(S, qs, c_api) == HXHIM_SUCCESS, "bulk operation refused");
                else for (auto &q : qs) PBT_CHECK(submit(S, q, c_api) == HXHIM_SUCCESS, q << " refused");
                auto &dst = k == K_PUT ? puts : k == K_GET ? gets : dels;
                for (auto const &q : qs) dst.push_back(q);
                c.ops += n;
                break;
            }
            case 3: settle(F_ALL, c_api); break;
            case 4: settle((int) std::vector<int>{F_PUTS, F_GETS, F_DELS}[src.below(3)], c_api); break;
            case 5: settle(F_SYNC, c_api); break;
            default: {
                QOp q = gen(K_PUT);
                c.desc << q << "\n";
                PBT_CHECK(submit(S, q, c_api) == HXHIM_SUCCESS, q << " refused");
                puts.push_back(q);
                c.ops++;
            }
        }
    }
    settle(F_ALL, false);
    // read everything back: present keys hold the last value, absent ones are absent
    for (auto const &s : pool.s) for (auto const &p : pool.p) {
        QOp q; q.kind = K_GET; q.s = s; q.p = p;
        PBT_CHECK(submit(S, q, false) == HXHIM_SUCCESS, "final get refused");
        gets.push_back(q);
    }
    settle(F_ALL, false);
    if (overwrites) c.label("overwrite");
    if (removed) c.label("delete of a present pair");
    if (cfg.per_server > 1) c.label("several datastores");
    c.nontrivial = hits > 0 && (overwrites || removed);
    S.close();
}

// ------------------------------------------------------------------- C02

void c02(pbt::Src &src, pbt::Case &c) {
    Dir dir;
    Session S;
    Conf cfg = gen_config(src, dir.path);
    cfg.hash = "";                       // the harness knows where each pair goes
    cfg.hist_names = {"h"};
    GenOpts g;
    Pools pool = gen_pools(src, g, 5);
    c.desc << describe(cfg) << "\n";
    c.label(backend_name(cfg.backend));
    S.open(cfg);

    struct Pending { QOp q; std::size_t ds; };
    std::vector<Pending> pend[4];        // by kind, queue order
    std::vector<std::string> hist_pend;
    std::size_t rejected = 0, total = 0, longest = 0;

    auto settle = [&](int f, bool c_api) {
        c.desc << flush_name(f) << "\n";
        std::vector<Rec> rs = flush(S, f, c_api);
        static const hxhim_op_t opof[4] = {HXHIM_PUT, HXHIM_GET, HXHIM_GETOP, HXHIM_DELETE};
        bool did[6] = {f == F_ALL || f == F_SYNC || f == F_PUTS, f == F_ALL || f == F_SYNC || f == F_GETS,
                       f == F_ALL || f == F_SYNC || f == F_GETOPS, f == F_ALL || f == F_SYNC || f == F_DELS,
                       f == F_ALL || f == F_SYNC || f == F_HISTS, f == F_SYNC};
        // nothing but what was flushed, in the documented order of kinds
        static const std::map<int, int> rank = {{HXHIM_PUT, 0}, {HXHIM_GET, 1}, {HXHIM_GETOP, 2}, {HXHIM_DELETE, 3}, {HXHIM_HISTOGRAM, 4}, {HXHIM_SYNC, 5}};
        int last = 0;
        for (auto const &r : rs) {
            PBT_CHECK(rank.count(r.op), "result of an unknown operation");
            const int k = rank.at(r.op);
            PBT_CHECK(did[k], "a result of kind " << k << " was returned by " << flush_name(f));
            PBT_CHECK(k >= last, "results are not ordered PUT, GET, GETOP, DELETE, HISTOGRAM");
            last = k;
            PBT_CHECK(r.status == HXHIM_SUCCESS || r.status == HXHIM_ERROR, "status " << r.status);
        }
        for (int k = 0; k < 4; k++) {
            if (!did[k]) continue;
            std::vector<Rec *> got;
            for (auto &r : rs) if (r.op == opof[k]) got.push_back(&r);
            if (k == K_GETOP) {
                // a scan may return several records, never none
                PBT_CHECK(pend[k].empty() ? got.empty() : got.size() >= pend[k].size(), pend[k].size() << " scans produced " << got.size() << " results");
            } else {
                PBT_CHECK(got.size() == pend[k].size(), pend[k].size() << " operations of kind " << k << " produced " << got.size() << " results");
                // per datastore, results come in the order the operations were queued
                std::map<std::size_t, std::vector<const QOp *>> w;
                for (auto const &x : pend[k]) w[x.ds].push_back(&x.q);
                std::map<std::size_t, std::size_t> pos;
                for (auto const *r : got) {
                    const std::size_t ds = spread(r->s, r->p, cfg.per_server);
                    auto &v = w[ds];
                    std::size_t &i = pos[ds];
                    PBT_CHECK(i < v.size(), *r << " belongs to no queued operation");
                    PBT_CHECK(v[i]->s == r->s && v[i]->p == r->p, "result " << *r << " where " << *v[i] << " was queued");
                    PBT_CHECK(r->sp == v[i]->sp && r->pp == v[i]->pp, "result " << *r << " does not carry the caller's buffers");
                    i++;
                }
                longest = std::max(longest, got.size());
            }
            total += pend[k].size();
            pend[k].clear();
        }
        if (did[4]) {
            std::size_t n = 0;
            for (auto const &r : rs) if (r.op == HXHIM_HISTOGRAM) {
                PBT_CHECK(n < hist_pend.size(), "more HISTOGRAM results than requests");
                PBT_CHECK((r.status == HXHIM_SUCCESS) == (hist_pend[n] == "h"), "HISTOGRAM \"" << hist_pend[n] << "\": wrong status");
                n++;
            }
            PBT_CHECK(n == hist_pend.size(), hist_pend.size() << " HISTOGRAM requests, " << n << " results");
            hist_pend.clear();
        }
        if (did[5]) {
            std::size_t n = 0;
            for (auto const &r : rs) if (r.op == HXHIM_SYNC) { n++; PBT_CHECK(r.status == HXHIM_SUCCESS, "SYNC failed"); }
            PBT_CHECK(n == cfg.per_server, "Sync of " << cfg.per_server << " datastores returned " << n << " SYNC results");
        }
    };

    static const char *const hn[] = {"h", "nope", "hh"};
    const std::size_t steps = 2 + src.below(24);
    for (std::size_t i = 0; i < steps; i++) {
        const bool c_api = src.coin();
        const std::size_t what = src.weighted({8, 2, 3, 2, 2, 1});
        if (what == 0) {
            const Kind k = (Kind) src.weighted({5, 3, 2, 3});
            const std::size_t n = several(src, 6);
            std::vector<QOp> qs;
            for (std::size_t j = 0; j < n; j++) {
                QOp q;
                q.kind = k;
                q.s = src.pick(pool.s); q.p = src.pick(pool.p);
                if (k == K_PUT) q.o = src.pick(pool.o);
                if (k == K_GETOP) { q.gop = src.coin() ? HXHIM_GETOP_NEXT : HXHIM_GETOP_EQ; q.nrec = 1 + src.below(3); }
                qs.push_back(q);
            }
            const bool bulk = src.coin();
            c.desc << (bulk ? "bulk " : "");
            for (auto const &q : qs) c.desc << q << " ";
            c.desc << "\n";
            if (bulk) PBT_CHECK(submit_bulk(S, qs, c_api) == HXHIM_SUCCESS, "bulk operation refused");
            else for (auto &q : qs) PBT_CHECK(submit(S, q, c_api) == HXHIM_SUCCESS, q << " refused");
            for (auto const &q : qs) pend[k].push_back({q, spread(q.s, q.p, cfg.per_server)});
            c.ops += n;
        } else if (what == 1) {
            // a call that must be refused, and must leave nothing behind
            QOp q; q.s = src.pick(pool.s); q.p = src.pick(pool.p); q.o = src.pick(pool.o);
            void *s = S.arena.put(q.s.bytes), *p = S.arena.put(q.p.bytes), *o = S.arena.put(q.o.bytes);
            std::size_t sl = q.s.bytes.size(), pl = q.p.bytes.size(), ol = q.o.bytes.size();
            const std::size_t bad = src.below(6);
            switch (bad) { case 0: s = nullptr; break; case 1: sl = 0; break; case 2: p = nullptr; break; case 3: pl = 0; break; case 4: o = nullptr; break; default: ol = 0; }
            int rc;
            if (bad >= 4) rc = hxhim::Put(&S.hx, s, sl, q.s.type, p, pl, q.p.type, o, ol, q.o.type, HXHIM_PUT_SPO);
            else switch (src.below(3)) {
                case 0: rc = hxhim::Put(&S.hx, s, sl, q.s.type, p, pl, q.p.type, o, ol, q.o.type, HXHIM_PUT_SPO); break;
                case 1: rc = hxhim::Get(&S.hx, s, sl, q.s.type, p, pl, q.p.type, HXHIM_DATA_BYTE); break;
                default: rc = hxhim::Delete(&S.hx, s, sl, q.s.type, p, pl, q.p.type); break;
            }
            c.desc << "bad call " << bad << "\n";
            PBT_CHECK(rc == HXHIM_ERROR, "a call with a missing argument (" << bad << ") returned " << rc);
            rejected++;
        } else if (what == 2) settle(F_ALL, c_api);
        else if (what == 3) settle((int) 1 + (int) src.below(5), c_api);
        else if (what == 4) {
            const char *n = hn[src.below(3)];
            c.desc << "histogram " << n << "\n";
            const int rc = c_api ? hxhimHistogram(&S.hx, 0, n, strlen(n)) : hxhim::Histogram(&S.hx, 0, n, strlen(n));
            PBT_CHECK(rc == HXHIM_SUCCESS, "Histogram refused");
            hist_pend.push_back(n);
        } else settle(F_SYNC, c_api);
    }
    settle(F_SYNC, false);
    // nothing is left behind
    PBT_CHECK(flush(S, F_ALL, false).empty(), "a second Flush returned results");
    if (rejected) c.label("refused calls");
    if (cfg.per_server > 1) c.label("several datastores");
    c.nontrivial = total >= 4 && longest >= 2;
    S.close();
}

// ------------------------------------------------------------------- C03

void c03(pbt::Src &src, pbt::Case &c) {
    Dir dir;
    Session S;
    Conf cfg = gen_config(src, dir.path);
    GenOpts g;
    Pools pool = gen_pools(src, g, 3);
    if (src.coin()) for (auto &o : pool.o) if (src.coin()) o = src.pick(pool.s);   // values that are also subjects
    c.desc << describe(cfg) << "\n";
    c.label(backend_name(cfg.backend));
    S.open(cfg);
    Model model;
    const std::size_t rounds = 1 + src.below(3);
    std::set<Key> touched;
    unsigned multi = 0;
    for (std::size_t r = 0; r < rounds; r++) {
        std::vector<QOp> qs;
        const std::size_t n = several(src, 4, 120);
        std::size_t expected = 0;
        for (std::size_t i = 0; i < n; i++) {
            QOp q;
            q.kind = K_PUT;
            q.s = src.pick(pool.s); q.p = src.pick(pool.p); q.o = src.pick(pool.o);
            q.perms = src.chance(1, 6) ? HXHIM_PUT_ALL : src.below(64);
            c.desc << q << " ";
            if (__builtin_popcountll(q.perms) > 1) multi++;
            expected += (std::size_t) __builtin_popcountll(q.perms);
            for (auto const &e : expand(q)) model[e.first] = e.second;
            QOp all = q; all.perms = HXHIM_PUT_ALL;
            for (auto const &e : expand(all)) touched.insert(e.first);
            qs.push_back(q);
        }
        c.desc << "\n";
        const bool bulk = src.coin(), c_api = src.coin();
        if (bulk) PBT_CHECK(submit_bulk(S, qs, c_api) == HXHIM_SUCCESS, "bulk put refused");
        else for (auto &q : qs) PBT_CHECK(submit(S, q, c_api) == HXHIM_SUCCESS, q << " refused");
        c.ops += expected;
        std::vector<Rec> rs = flush(S, src.coin() ? F_ALL : F_PUTS, src.coin());
        PBT_CHECK(rs.size() == expected, "masks ask for " << expected << " orderings, " << rs.size() << " results");
        for (auto const &x : rs) PBT_CHECK(x.op == HXHIM_PUT && x.status == HXHIM_SUCCESS, "result " << x);
        // the result names the pair it stored
        std::multiset<Key> want, got;
        for (auto const &q : qs) for (auto const &e : expand(q)) want.insert(e.first);
        for (auto const &x : rs) got.insert(Key(x.s, x.p));
        PBT_CHECK(want == got, "the PUT results do not name the stored orderings");
    }
    std::vector<Key> keys(touched.begin(), touched.end());
    for (auto const &k : keys) {
        QOp q; q.kind = K_GET; q.s = k.first; q.p = k.second;
        auto it = model.find(k);
        if (it != model.end()) q.want = it->second.type;
        PBT_CHECK(submit(S, q, false) == HXHIM_SUCCESS, "get refused");
    }
    std::vector<Rec> rs = flush(S, F_GETS, false);
    PBT_CHECK(rs.size() == keys.size(), "results missing");
    std::map<Key, Rec *> by;
    for (auto &r : rs) by[Key(r.s, r.p)] = &r;
    for (auto const &k : keys) {
        PBT_CHECK(by.count(k), "no result for (" << k.first << ", " << k.second << ")");
        auto it = model.find(k);
        Rec *r = by[k];
        if (it == model.end()) PBT_CHECK(r->status == HXHIM_ERROR, "(" << k.first << ", " << k.second << ") was never requested but is stored as " << r->o);
        else {
            PBT_CHECK(r->status == HXHIM_SUCCESS, "(" << k.first << ", " << k.second << ") was requested but is absent");
            PBT_CHECK(same(r->o, it->second), "(" << k.first << ", " << k.second << ") -> " << r->o << ", expected " << it->second);
        }
    }
    c.nontrivial = multi > 0;
    S.close();
}

pbt::Reg r1("C01", "history of put/get/delete in single, bulk, C and C++ form over a small pool of typed pairs, with flushes of every kind, over all "
    "backends, datastore counts, hashes and request limits; checked against a map. Non-trivial: a get found a stored value and some value was overwritten or deleted",
    c01, 9000, 400000, 40);
pbt::Reg r2("C02", "history of put/get/scan/delete/histogram calls, refused calls and flushes of every kind; the result list is checked for count, kind order, "
    "per-datastore queue order and the caller's buffers. Non-trivial: at least 4 operations and a flush with 2 or more results of a kind",
    c02, 9000, 400000, 40);
pbt::Reg r3("C03", "puts with random permutation masks over values that may coincide; every ordering of every triple is then read back. "
    "Non-trivial: some mask asks for more than one ordering", c03, 9000, 400000, 40);

}
