// C04 ordered scans (GETOP)
#include "scanmodel.hpp"

using namespace hxt;

namespace {

const ScanModel model;
std::string key_of(const Val &s, const Val &p) { return model.key_of(s, p); }
Want expect(const Store &db, const QOp &q) { return model.expect(db, q); }
void match(const std::vector<Rec> &rs, std::size_t &pos, const QOp &q, const Want &w) { ScanModel::match(rs, pos, q, w); }

void c04(pbt::Src &src, pbt::Case &c) {
    Dir dir;
    Session S;
    Conf cfg = gen_config(src, dir.path, 6, 4, 1);
    cfg.hash = src.chance(1, 4) ? "DATASTORE_0" : "";
    GenOpts g;
    // a few subjects, predicates that share prefixes
    std::vector<Val> subs, preds, objs;
    for (std::size_t i = 0, n = 1 + src.below(4); i < n; i++) subs.push_back(gen_val(src, g));
    const bool all_num = src.chance(1, 4);
    const hxhim_data_t nt = std::vector<hxhim_data_t>{HXHIM_DATA_INT32, HXHIM_DATA_DOUBLE, HXHIM_DATA_UINT64, HXHIM_DATA_FLOAT}[src.below(4)];
    for (std::size_t i = 0, n = 1 + src.below(8); i < n; i++) {
        if (!all_num) { preds.push_back(gen_val(src, g)); continue; }
        if (nt == HXHIM_DATA_INT32) preds.push_back(num(nt, gen_int<std::int32_t>(src)));
        else if (nt == HXHIM_DATA_UINT64) preds.push_back(num(nt, gen_int<std::uint64_t>(src)));
        else if (nt == HXHIM_DATA_FLOAT) preds.push_back(num(nt, gen_exact<float>(src)));
        else preds.push_back(num(nt, gen_exact<double>(src)));
    }
    for (std::size_t i = 0; i < 3; i++) objs.push_back(gen_val(src, g));
    // now and then hundreds of pairs
    std::vector<QOp> wide;
    if (src.chance(1, 25)) for (std::size_t i = 0, n = 20 + src.below(300), step = 1 + src.below(9); i < n; i++) {
        QOp q; q.kind = K_PUT; q.s = subs[0]; q.o = objs[i % 3];
        q.p = !all_num ? byte("w" + std::to_string(i * step)) : nt == HXHIM_DATA_INT32 ? num(nt, (std::int32_t) (i * step) - 100) : nt == HXHIM_DATA_UINT64 ? num(nt, (std::uint64_t) (i * step)) :
              nt == HXHIM_DATA_FLOAT ? num(nt, (float) (i * step) / 4) : num(nt, (double) (i * step) / 4 - 100);
        wide.push_back(q);
    }
    for (std::size_t i = 0; i < wide.size(); i += 7) preds.push_back(wide[i].p);
    c.desc << describe(cfg) << "\n";
    c.label(backend_name(cfg.backend));
    S.open(cfg);

    std::vector<Store> db(cfg.per_server);
    auto where = [&](const Val &s, const Val &p) { return cfg.hash.size() ? (std::size_t) 0 : spread(s, p, cfg.per_server); };
    std::size_t deep = 0, found = 0;
    if (wide.size()) {
        c.desc << wide.size() << " pairs: " << wide[0] << " ... " << wide.back() << "\n";
        c.label("hundreds of pairs");
        PBT_CHECK(submit_bulk(S, wide, false) == HXHIM_SUCCESS, "bulk PUT refused");
        PBT_CHECK(flush(S, F_ALL, false).size() == wide.size(), "results missing");
        for (auto const &q : wide) db[where(q.s, q.p)][key_of(q.s, q.p)] = Triple{q.s, q.p, q.o};
    }
    const std::size_t rounds = 1 + src.below(4);
    for (std::size_t round = 0; round < rounds; round++) {
        // change the contents
        const std::size_t n = src.below(14);
        for (std::size_t i = 0; i < n; i++) {
            QOp q; q.kind = src.chance(1, 5) ? K_DEL : K_PUT;
            q.s = src.pick(subs); q.p = src.pick(preds); q.o = src.pick(objs);
            c.desc << q << " ";
            PBT_CHECK(submit(S, q, false) == HXHIM_SUCCESS, q << " refused");
            if (q.kind == K_DEL) { db[where(q.s, q.p)].erase(key_of(q.s, q.p)); flush(S, F_ALL, false); }
            else {
                Triple t{q.s, q.p, q.o};
                db[where(q.s, q.p)][key_of(q.s, q.p)] = t;
                if (src.coin()) flush(S, F_ALL, false);
            }
            flush(S, F_ALL, false);
        }
        flush(S, F_ALL, false);
        c.desc << "\n";
        // scan it
        const bool one_store = cfg.per_server == 1 || cfg.hash.size();
        const std::size_t scans = 1 + src.below(8);
        std::vector<QOp> batch;
        auto run = [&]() {
            if (batch.empty()) return;
            const bool bulk = src.coin(), c_api = src.coin();
            // PUTs and DELETEs flushed together with the scans: the former are seen, the latter are not
            std::vector<QOp> along;
            if (src.chance(1, 4)) for (std::size_t i = 0, n = 1 + src.below(4); i < n; i++) {
                QOp q; q.kind = src.coin() ? K_DEL : K_PUT;
                q.s = src.pick(subs); q.p = src.pick(preds); q.o = src.pick(objs);
                along.push_back(q);
            }
            auto submit_along = [&](bool before) {
                for (std::size_t i = 0; i < along.size(); i++) if (before == (i % 2 == 0)) {
                    c.desc << along[i] << " (with the scans) ";
                    PBT_CHECK(submit(S, along[i], c_api) == HXHIM_SUCCESS, along[i] << " refused");
                }
            };
            submit_along(true);
            if (bulk) PBT_CHECK(submit_bulk(S, batch, c_api) == HXHIM_SUCCESS, "bulk GETOP refused");
            else for (auto &q : batch) PBT_CHECK(submit(S, q, c_api) == HXHIM_SUCCESS, q << " refused");
            submit_along(false);
            std::vector<Rec> rs = flush(S, along.size() || src.coin() ? F_ALL : F_GETOPS, c_api);
            if (along.size()) {
                c.label("scans flushed with PUTs and DELETEs");
                std::size_t others = 0;
                std::vector<Rec> only;
                for (auto const &r : rs) { if (r.op == HXHIM_GETOP) only.push_back(r); else others++; }
                PBT_CHECK(others == along.size(), along.size() << " other operations, " << others << " results");
                rs = only;
                for (std::size_t before = 2; before-- > 0;)
                    for (std::size_t i = 0; i < along.size(); i++) if (along[i].kind == K_PUT && before == (i % 2 == 0)) {
                        const QOp &q = along[i];
                        db[where(q.s, q.p)][key_of(q.s, q.p)] = Triple{q.s, q.p, q.o};
                    }
            }
            std::size_t pos = 0;
            for (auto &q : batch) {
                Val np = q.p; if (q.null_pred) np.bytes.clear();
                Want w = expect(db[where(q.s, np)], q);
                if (w.free_form) { pos = rs.size(); break; }
                match(rs, pos, q, w);
                if (w.recs.size() >= 2) deep++;
                if (w.recs.size()) found++;
                c.label(std::string("scan ") + HXHIM_GETOP_STR[q.gop] + (w.recs.size() ? "" : " (nothing)"));
            }
            PBT_CHECK(pos == rs.size(), "records left over: " << rs[pos]);
            for (auto const &q : along) if (q.kind == K_DEL) db[where(q.s, q.p)].erase(key_of(q.s, q.p));
            c.ops += batch.size() + along.size();
            batch.clear();
        };
        for (std::size_t i = 0; i < scans; i++) {
            QOp q; q.kind = K_GETOP;
            q.gop = (hxhim_getop_t) src.below(7);
            q.s = src.pick(subs);
            q.p = src.chance(1, 5) ? gen_val(src, g) : src.pick(preds);
            if (src.chance(1, 6)) q.s = gen_val(src, g);
            q.null_pred = src.chance(1, 4) && !((q.gop == HXHIM_GETOP_LOWEST || q.gop == HXHIM_GETOP_HIGHEST) && numeric(q.p.type) && !all_num);
            if (q.null_pred && !all_num) q.p.type = HXHIM_DATA_BYTE;
            if (!q.null_pred && q.p.type == HXHIM_DATA_BYTE && q.p.bytes.size() > 1 && src.chance(1, 4)) q.p.bytes.resize(1);
            static const std::vector<std::size_t> nrs = {1, 2, 3, 5, 100, 1000, 0};
            q.nrec = nrs[src.weighted({3, 3, 3, 3, 2, 1, 1})];
            q.want = src.pick(objs).type;
            c.desc << q << "; ";
            Val np = q.p; if (q.null_pred) np.bytes.clear();
            const Want w = expect(db[where(q.s, np)], q);
            if (w.free_form) { run(); batch.push_back(q); run(); continue; }
            batch.push_back(q);
            if (!one_store || src.coin()) run();
        }
        run();
        c.desc << "\n";
    }
    c.nontrivial = deep >= 1 && found >= 2;
    S.close();
}

pbt::Reg r04("C04", "1-4 rounds of random PUTs/DELETEs, then 1-8 GETOP scans (some flushed together with PUTs and DELETEs) of every kind (present, absent, partial and NULL predicates; 0-100 records; single, bulk, C and C++ forms), each compared record by record with a sorted model. Non-trivial: some scan returned two or more records and at least two scans found something.",
    c04, 9000, 300000);

}
