// C33 the statistics of an instance count what was done
#include <cmath>
#include <numeric>
#include "hist.hpp"
#include "hxhim/private/hxhim.hpp"
#include "hxhim/single_type.hpp"

using namespace hxt;

namespace {

struct Report {
    struct Line { std::size_t count = 0; double seconds = 0; };
    struct Fill { std::size_t count = 0; double avg = 0; std::size_t max = 0; double percent = 0; };
    std::map<std::string, Line> single, bulk;
    std::map<std::string, Fill> fill;
    std::map<std::string, std::map<int, std::size_t>> out;
};

// the bulk forms for objects of one type
int submit_single_type(Session &S, std::vector<QOp> &qs) {
    const std::size_t n = qs.size();
    std::vector<void *> s, p, o;
    std::vector<std::size_t> sl, pl, ol, nr;
    std::vector<hxhim_data_t> st, pt;
    std::vector<hxhim_put_permutation_t> pm;
    std::vector<hxhim_getop_t> go;
    for (auto &q : qs) {
        s.push_back(S.arena.put(q.s.bytes)); sl.push_back(q.s.bytes.size()); st.push_back(q.s.type);
        p.push_back(S.arena.put(q.p.bytes)); pl.push_back(q.p.bytes.size()); pt.push_back(q.p.type);
        if (q.kind == K_PUT) { o.push_back(S.arena.put(q.o.bytes)); ol.push_back(q.o.bytes.size()); }
        pm.push_back(q.perms); nr.push_back(q.nrec); go.push_back(q.gop);
    }
    const hxhim_data_t t = qs[0].kind == K_PUT ? qs[0].o.type : qs[0].want;
    switch (qs[0].kind) {
        case K_PUT: return hxhim::BPutSingleType(&S.hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), o.data(), ol.data(), t, pm.data(), n);
        case K_GET: return hxhim::BGetSingleType(&S.hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), t, n);
        default: return hxhim::BGetOpSingleType(&S.hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), t, nr.data(), go.data(), n);
    }
}

// the report as a user reads it
Report parse(const std::string &text) {
    Report r;
    std::istringstream in(text);
    std::string line, section;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string op, w;
        if (line.find("Single Ops:") != std::string::npos) { section = "single"; continue; }
        if (line.find("Bulk Ops:") != std::string::npos) { section = "bulk"; continue; }
        if (line.find("Fill Rate:") != std::string::npos) { section = "fill"; continue; }
        if (line.find("Outgoing:") != std::string::npos) { section = "out"; continue; }
        l >> op;
        if (section == "single" || section == "bulk") {
            Report::Line x;
            l >> w >> x.count >> w >> x.seconds;
            PBT_CHECK(l, "unreadable line \"" << line << "\"");
            auto &m = section == "single" ? r.single : r.bulk;
            PBT_CHECK(!m.count(op), "two lines for " << op);
            m[op] = x;
        } else if (section == "fill") {
            Report::Fill x;
            char slash = 0, par = 0;
            l >> w >> x.count >> w >> w >> x.avg >> slash >> x.max >> par >> x.percent;
            PBT_CHECK(l && slash == '/' && par == '(', "unreadable line \"" << line << "\"");
            PBT_CHECK(!r.fill.count(op), "two lines for " << op);
            r.fill[op] = x;
        } else if (section == "out") {
            int dst; std::size_t n; char colon = 0;
            l >> w >> dst >> colon >> n;
            PBT_CHECK(l && colon == ':', "unreadable line \"" << line << "\"");
            PBT_CHECK(!r.out[op].count(dst), "two lines for " << op << " to " << dst);
            r.out[op][dst] = n;
        } else PBT_FAIL("unexpected line \"" << line << "\"");
    }
    return r;
}

void c33(pbt::Src &src, pbt::Case &c) {
    Dir dir;
    Session S;
    Conf cfg = gen_config(src, dir.path, 12, 2, 1);
    cfg.hash = "";
    if (src.chance(1, 4)) cfg.async_at = 1 + src.below(6);
    cfg.hist_names = {"h"};
    GenOpts g;
    std::vector<Val> subs, preds, objs;
    for (std::size_t i = 0, n = 1 + src.below(5); i < n; i++) subs.push_back(gen_val(src, g));
    for (std::size_t i = 0, n = 1 + src.below(5); i < n; i++) preds.push_back(gen_val(src, g));
    for (std::size_t i = 0, n = 1 + src.below(4); i < n; i++) objs.push_back(gen_val(src, g));
    c.desc << describe(cfg) << "\n";
    c.label(backend_name(cfg.backend));
    S.open(cfg);
    const std::size_t nds = cfg.per_server;

    enum { PUT, GET, GETOP, DEL, HIST, KINDS };
    static const char *const name[KINDS] = {"HXHIM_PUT", "HXHIM_GET", "HXHIM_GETOP", "HXHIM_DELETE", "HXHIM_HISTOGRAM"};
    static const int flush_of[KINDS] = {F_PUTS, F_GETS, F_GETOPS, F_DELS, F_HISTS};
    std::size_t single[KINDS] = {}, bulk[KINDS] = {};
    std::vector<std::size_t> queued[KINDS], sent[KINDS], exact[KINDS];
    for (int k = 0; k < KINDS; k++) { queued[k].assign(nds, 0); sent[k].assign(nds, 0); exact[k].assign(nds, 0); }
    auto queue = [&](const QOp &q) {
        if (q.kind == K_PUT) for (auto const &e : expand(q)) queued[PUT][spread(e.first.first, e.first.second, nds)]++;
        else queued[q.kind == K_GET ? GET : q.kind == K_GETOP ? GETOP : DEL][spread(q.s, q.p, nds)]++;
    };
    auto kind_of = [](Kind k) { return k == K_PUT ? PUT : k == K_GET ? GET : k == K_GETOP ? GETOP : DEL; };
    std::size_t refused = 0;

    auto verify = [&]() {
        std::ostringstream out;
        out.precision(11);
        const std::ios_base::fmtflags flags = out.flags();
        hxhim::print_stats(&S.hx, out);
        PBT_CHECK(out.flags() == flags && out.precision() == 11, "printing the statistics changed the format of the stream");
        // so does the print buffer, whatever is in it
        std::ostringstream buf;
        buf.precision(11);
        PBT_CHECK(hxhim::GetPrintBufferContents(&S.hx, buf) == HXHIM_SUCCESS, "GetPrintBufferContents failed");
        PBT_CHECK(buf.good() && buf.flags() == flags && buf.precision() == 11, "the stream cannot be used after GetPrintBufferContents");
        std::ostringstream again;
        PBT_CHECK(hxhim::GetPrintBufferContents(&S.hx, again) == HXHIM_SUCCESS && again.str().empty(), "the print buffer was not emptied");
        const Report r = parse(out.str());
        auto calls = [&](const std::map<std::string, Report::Line> &m, const std::size_t *n, const char *what) {
            std::size_t lines = 0;
            for (int k = 0; k < KINDS; k++) {
                auto it = m.find(name[k]);
                const std::size_t have = it == m.end() ? 0 : it->second.count;
                PBT_CHECK(have == n[k], n[k] << " " << what << " " << name[k] << " calls, the statistics count " << have);
                if (it == m.end()) continue;
                lines++;
                PBT_CHECK(std::isfinite(it->second.seconds) && it->second.seconds >= 0 && it->second.seconds < 600, name[k] << ": duration " << it->second.seconds);
            }
            PBT_CHECK(lines == m.size(), "the statistics list " << what << " calls of other operations");
        };
        calls(r.single, single, "single");
        calls(r.bulk, bulk, "bulk");
        // packets
        std::vector<std::vector<std::size_t>> packets(KINDS, std::vector<std::size_t>(nds, 0));
        for (int k = 0; k < KINDS; k++) {
            const std::size_t total = std::accumulate(sent[k].begin(), sent[k].end(), (std::size_t) 0);
            std::size_t out_n = 0;
            if (r.out.count(name[k])) for (auto const &d : r.out.at(name[k])) {
                PBT_CHECK(d.first >= 0 && (std::size_t) d.first < nds, name[k] << " packets to datastore " << d.first);
                packets[k][d.first] = d.second;
                out_n += d.second;
            }
            auto f = r.fill.find(name[k]);
            const std::size_t fill_n = f == r.fill.end() ? 0 : f->second.count;
            PBT_CHECK(fill_n == out_n, name[k] << ": fill rate of " << fill_n << " packets, " << out_n << " packets sent");
            if (k == PUT && cfg.async_at) continue;     // some of them may still be queued
            for (std::size_t d = 0; d < nds; d++) {
                PBT_CHECK((packets[k][d] == 0) == (sent[k][d] == 0), sent[k][d] << " " << name[k] << "s went to datastore " << d << " in " << packets[k][d] << " packets");
                if (!cfg.max_size) PBT_CHECK(packets[k][d] == exact[k][d], sent[k][d] << " " << name[k] << "s went to datastore " << d << ", in " << exact[k][d] << " packets of at most " << cfg.max_ops << " per flush; the statistics count " << packets[k][d]);
                else PBT_CHECK(packets[k][d] >= exact[k][d] && packets[k][d] <= sent[k][d], sent[k][d] << " " << name[k] << "s to datastore " << d << ", packets of at most " << cfg.max_ops << ": " << packets[k][d] << " packets");
            }
            if (f != r.fill.end()) {
                PBT_CHECK(f->second.max == cfg.max_ops, "fill rate out of " << f->second.max << ", the limit is " << cfg.max_ops);
                PBT_CHECK(std::fabs(f->second.avg - (double) total / fill_n) < 0.001, name[k] << ": " << total << " in " << fill_n << " packets, average " << f->second.avg);
                PBT_CHECK(std::fabs(f->second.percent - 100.0 * total / fill_n / cfg.max_ops) < 0.01, name[k] << ": " << total << " in " << fill_n << " packets of at most " << cfg.max_ops << ": " << f->second.percent << "%");
            }
        }
        // what the datastores counted
        if (!cfg.async_at) for (std::size_t d = 0; d < nds; d++) {
            std::uint64_t pt = ~0ULL, gt = ~0ULL;
            std::size_t np = 999999, ng = 999999;
            Datastore::Datastore *ds = S.hx.p->range_server.datastores.ds[d];
            PBT_CHECK(ds->GetStats(src.chance(1, 8) ? nullptr : &pt, &np, &gt, &ng) == DATASTORE_SUCCESS, "GetStats failed");
            PBT_CHECK(np == packets[PUT][d], "datastore " << d << " counts " << np << " PUT packets, " << packets[PUT][d] << " were sent");
            const std::size_t want = packets[GET][d] + sent[GETOP][d] + packets[HIST][d];
            PBT_CHECK(ng == want, "datastore " << d << " counts " << ng << " reads, expected " << want << " (" << packets[GET][d] << " GET packets, " << sent[GETOP][d] << " GETOPs, " << packets[HIST][d] << " HISTOGRAM packets)");
            PBT_CHECK(gt < 600000000000ULL && (pt == ~0ULL || pt < 600000000000ULL), "datastore " << d << ": " << pt << " ns of PUTs, " << gt << " ns of reads");
            PBT_CHECK((gt > 0) == (ng > 0) || ng > 0, "time without reads");
        }
    };
    auto settled = [&](int k) {
        for (std::size_t d = 0; d < nds; d++) {
            sent[k][d] += queued[k][d];
            exact[k][d] += (queued[k][d] + cfg.max_ops - 1) / cfg.max_ops;
            queued[k][d] = 0;
        }
    };
    auto settle = [&](int f, bool c_api) {
        c.desc << flush_name(f) << "\n";
        flush(S, f, c_api);
        for (int k = 0; k < KINDS; k++) if (f == F_ALL || f == F_SYNC || f == flush_of[k]) settled(k);
    };

    const std::size_t steps = 2 + src.below(20);
    std::size_t calls = 0, checked = 0;
    for (std::size_t i = 0; i < steps; i++) {
        const bool c_api = src.coin();
        switch (src.weighted({8, 2, 1, 2, 2, 2, 1})) {
            case 0: {
                const Kind k = (Kind) src.weighted({4, 3, 3, 2});
                std::vector<QOp> qs;
                for (std::size_t j = 0, n = 1 + src.below(7); j < n; j++) {
                    QOp q;
                    q.kind = k;
                    q.s = src.pick(subs); q.p = src.pick(preds);
                    if (k == K_PUT) { q.o = src.pick(objs); if (src.chance(1, 4)) q.perms = src.below(64); }
                    if (k == K_GETOP) { q.gop = (hxhim_getop_t) src.below(7); q.nrec = 1 + src.below(3); }
                    qs.push_back(q);
                }
                const bool b = src.coin(), one_type = b && k != K_DEL && src.chance(1, 4);
                if (one_type && k == K_PUT) for (auto &q : qs) q.o = qs[0].o;
                c.desc << (one_type ? "single type " : "") << (b ? "bulk " : "");
                for (auto const &q : qs) { c.desc << q << " "; queue(q); }
                c.desc << "\n";
                if (one_type) {
                    c.label("bulk forms for one type");
                    PBT_CHECK(submit_single_type(S, qs) == HXHIM_SUCCESS, "bulk operation refused");
                    bulk[kind_of(k)]++; calls++;
                    if (k == K_PUT) settled(PUT);      // without a background thread, the PUTs run here
                }
                else if (b) { PBT_CHECK(submit_bulk(S, qs, c_api) == HXHIM_SUCCESS, "bulk operation refused"); bulk[kind_of(k)]++; calls++; }
                else for (auto &q : qs) { PBT_CHECK(submit(S, q, c_api) == HXHIM_SUCCESS, q << " refused"); single[kind_of(k)]++; calls++; }
                c.ops += qs.size();
                break;
            }
            case 1: {
                const std::size_t n = 1 + src.below(3);
                std::vector<int> ids; std::vector<const char *> nm; std::vector<std::size_t> nl;
                for (std::size_t j = 0; j < n; j++) { ids.push_back((int) src.below(nds)); nm.push_back(src.coin() ? "h" : "none"); nl.push_back(strlen(nm.back())); queued[HIST][ids.back()]++; }
                if (n == 1) { PBT_CHECK(hxhim::Histogram(&S.hx, ids[0], nm[0], nl[0]) == HXHIM_SUCCESS, "Histogram refused"); single[HIST]++; }
                else { PBT_CHECK(hxhim::BHistogram(&S.hx, ids.data(), nm.data(), nl.data(), n) == HXHIM_SUCCESS, "BHistogram refused"); bulk[HIST]++; }
                c.desc << n << " histograms\n";
                calls++;
                break;
            }
            case 2: {
                // refused calls do nothing, and are not counted
                Val s = src.pick(subs);
                const int rc = src.coin() ? hxhim::Put(&S.hx, S.arena.put(s.bytes), s.bytes.size(), s.type, nullptr, 0, s.type, nullptr, 0, s.type, HXHIM_PUT_SPO)
                             : src.coin() ? hxhim::Get(&S.hx, nullptr, 0, s.type, nullptr, 0, s.type, s.type)
                             : src.coin() ? hxhim::GetOp(&S.hx, nullptr, 0, s.type, nullptr, 0, s.type, s.type, 1, HXHIM_GETOP_EQ)
                             : src.coin() ? hxhim::Delete(&S.hx, nullptr, 0, s.type, nullptr, 0, s.type)
                             : hxhim::Histogram(&S.hx, (int) nds, "h", 1);
                PBT_CHECK(rc == HXHIM_ERROR, "a call without arguments was accepted");
                c.desc << "refused call\n";
                refused++;
                break;
            }
            case 3: settle(F_ALL, c_api); break;
            case 4: settle(flush_of[src.below(KINDS)], c_api); break;
            case 5: verify(); checked++; break;
            default: settle(F_SYNC, c_api); break;
        }
    }
    settle(F_ALL, false);
    verify();
    if (refused) c.label("refused calls");
    if (cfg.async_at) c.label("background PUTs");
    if (nds > 1) c.label("several datastores");
    std::size_t kinds = 0;
    for (int k = 0; k < KINDS; k++) kinds += std::accumulate(sent[k].begin(), sent[k].end(), (std::size_t) 0) > 0;
    c.nontrivial = calls >= 3 && kinds >= 2;
    S.close();
}

pbt::Reg r33("C33", "histories of single, bulk and refused calls of every kind, flushed in every way, with packet limits and background PUTs; the printed statistics and the counters of the datastores are compared with what was done, at random points and at the end. Non-trivial: at least three calls, and two kinds of operations were executed.",
    c33, 6000, 200000);

}
