// C13 histograms reflect the successful PUTs; C14 histogram persistence
#include "hist.hpp"

using namespace hxt;

namespace {

// a bucket rule of the harness's own: as many buckets as extra says, starting at the smallest value
std::string trouble;                       // what a user's rule noticed
int my_rule(const double *v, const size_t n, double **buckets, size_t *size, void *extra) {
    if (!v || !n || !buckets || !size) { trouble = "the user's rule was called without values"; return HISTOGRAM_ERROR; }
    // some data cannot be put into buckets
    if ((uintptr_t) extra == 7) for (size_t i = 0; i < n; i++) if (v[i] >= 0) return HISTOGRAM_ERROR;
    *size = (std::size_t) (uintptr_t) extra;
    *buckets = alloc_array<double>(*size + 1);
    double lo = v[0];
    for (size_t i = 1; i < n; i++) lo = std::min(lo, v[i]);
    for (size_t i = 0; i < *size; i++) (*buckets)[i] = lo + 3.5 * i;
    return HISTOGRAM_SUCCESS;
}

struct Rule { std::string name; HistogramBucketGenerator_t fn; void *extra; };
Rule rule_of(const Conf &c) {
    if (c.hist_func) return {"custom", c.hist_func, c.hist_args};
    // the names config.hpp documents
    static const std::map<std::string, std::pair<HistogramBucketGenerator_t, std::size_t>> rules = {
        {"10_BUCKETS", {histogram_n_buckets, 10}}, {"SQUARE_ROOT_CHOICE", {histogram_square_root_choice, 0}},
        {"STURGES_FORMULA", {histogram_sturges_formula, 0}}, {"RICE_RULE", {histogram_rice_rule, 0}},
        {"SCOTTS_NORMAL_REFERENCE_RULE", {histogram_scotts_normal_reference_rule, 0}},
        {"UNIFORM_LOG2", {histogram_uniform_logn, 2}}, {"UNIFORM_LOG10", {histogram_uniform_logn, 10}}};
    auto const &r = rules.at(c.hist_gen);
    return {c.hist_gen, r.first, (void *) (uintptr_t) r.second};
}

// reference histogram: remembers every value, counts by looking at all of them
struct HM {
    std::size_t first_n = 1;
    Rule rule;
    std::vector<double> vals, ends;
    bool fixed = false, broken = false;       // broken: the rule cannot make buckets of these values
    void add(double v) {
        vals.push_back(v);
        if (fixed || broken || vals.size() < first_n) return;
        double *b = nullptr; std::size_t n = 0;
        if (rule.fn(vals.data(), first_n, &b, &n, rule.extra) != HISTOGRAM_SUCCESS || !n) { broken = true; return; }
        ends.assign(b, b + n);
        dealloc_array(b, n + 1);
        fixed = true;
    }
    void compare(const HistRec &h, const std::string &what) const {
        if (broken) return;
        PBT_CHECK(h.ready == fixed, what << ": " << vals.size() << " of " << first_n << " values were added, buckets " << (h.ready ? "exist" : "do not exist"));
        if (!fixed) return;
        PBT_CHECK(h.counts.size() == ends.size(), what << ": " << h.counts.size() << " buckets, expected " << ends.size());
        std::vector<std::size_t> want(ends.size(), 0);
        double top = std::numeric_limits<double>::lowest();
        for (double v : vals) {
            std::size_t k = ends.size();
            for (std::size_t j = 0; j < ends.size(); j++) if (ends[j] <= v) k = j;
            if (k == ends.size()) continue;
            want[k]++; top = std::max(top, v);
        }
        for (std::size_t j = 0; j < ends.size(); j++) {
            PBT_CHECK(h.buckets[j] == ends[j], what << ": bucket " << j << " starts at " << h.buckets[j] << ", expected " << ends[j]);
            PBT_CHECK(h.counts[j] == want[j], what << ": bucket " << j << " (from " << ends[j] << ") counts " << h.counts[j] << ", expected " << want[j] << " of " << vals.size() << " values");
        }
        PBT_CHECK(h.buckets[ends.size()] == top, what << ": upper bound " << h.buckets[ends.size()] << ", largest value is " << top);
    }
};
typedef std::map<std::string, HM> Hists;

// reads a live histogram object into a record
HistRec read(const Histogram::Histogram &h) {
    HistRec r; double *b = nullptr; std::size_t *c = nullptr, n = 0;
    h.get_name(r.name);
    if (h.get(&b, &c, &n) == HISTOGRAM_SUCCESS) {
        r.ready = true;
        if (n) { r.buckets.assign(b, b + n + 1); r.counts.assign(c, c + n); }
    }
    return r;
}

double gen_num(pbt::Src &s) {
    switch (s.below(5)) {
        case 0: return (double) s.below(6);
        case 1: return (double) s.range(-20, 20) / 2;
        case 2: return gen_exact<double>(s) / 8;
        case 3: return (double) s.range(-300, 300) + (double) s.below(1000) / 1000.0;
        default: return (double) s.range(0, 100);
    }
}
Val gen_numval(pbt::Src &s) {
    const double d = gen_num(s);
    return s.coin() ? num<double>(HXHIM_DATA_DOUBLE, d) : num<float>(HXHIM_DATA_FLOAT, (float) d);
}
void gen_hist_conf(pbt::Src &s, Conf &c) {
    static const std::vector<std::size_t> ns = {1, 2, 3, 5, 10, 20, 300};
    static const std::vector<std::string> rules = {"10_BUCKETS", "SQUARE_ROOT_CHOICE", "STURGES_FORMULA", "RICE_RULE", "SCOTTS_NORMAL_REFERENCE_RULE", "UNIFORM_LOG2", "UNIFORM_LOG10"};
    c.hist_first_n = s.pick(ns);
    c.hist_func = nullptr;
    if (s.chance(1, 4)) { c.hist_func = my_rule; c.hist_args = (void *) (uintptr_t) (1 + s.below(7)); c.hist_gen = "custom"; }
    else c.hist_gen = s.pick(rules);
}

// adds what a successful PUT of one pair does to the datastore's histograms
bool track(Hists &h, const Val &p, const Val &o) {
    if (p.type != HXHIM_DATA_BYTE) return false;
    auto it = h.find(p.bytes);
    if (it == h.end()) return false;
    // a number is as long as its type
    if (o.type == HXHIM_DATA_DOUBLE && o.bytes.size() == sizeof(double)) it->second.add(as<double>(o));
    else if (o.type == HXHIM_DATA_FLOAT && o.bytes.size() == sizeof(float)) it->second.add(as<float>(o));
    else return false;
    return true;
}

int query(Session &S, int ds, const std::string &name, bool c_api) {
    const char *n = (const char *) S.arena.put(name);
    return c_api ? hxhimHistogram(&S.hx, ds, n, name.size()) : hxhim::Histogram(&S.hx, ds, n, name.size());
}
int bquery(Session &S, const std::vector<std::pair<int, std::string>> &q, bool c_api) {
    std::vector<int> ids; std::vector<const char *> n; std::vector<std::size_t> l;
    for (auto const &x : q) { ids.push_back(x.first); n.push_back((const char *) S.arena.put(x.second)); l.push_back(x.second.size()); }
    return c_api ? hxhimBHistogram(&S.hx, ids.data(), n.data(), l.data(), q.size()) : hxhim::BHistogram(&S.hx, ids.data(), n.data(), l.data(), q.size());
}

const std::vector<std::string> NAMES = {"n", "temp", std::string("a\0b", 3), "n2", "\xff", "te", std::string(300, 'q') + "1", std::string(300, 'q') + "2"};

// queries a list of (datastore, name), one datastore per flush, and compares
void ask(Session &S, pbt::Src &src, pbt::Case &c, const std::vector<Hists> &live, std::size_t &ready) {
    const std::size_t nds = live.size();
    const std::size_t ds = src.below(nds);
    std::vector<std::pair<int, std::string>> q;
    for (std::size_t i = 0, n = several(src, 5, 150, 60); i < n; i++) q.push_back({(int) ds, src.pick(NAMES)});
    const bool bulk = src.coin(), c_api = src.coin();
    if (src.chance(1, 6)) {        // no such datastore
        const int bad = src.coin() ? -1 - (int) src.below(3) : (int) (nds + src.below(3));
        PBT_CHECK(query(S, bad, NAMES[0], c_api) != HXHIM_SUCCESS, "a histogram of datastore " << bad << " of " << nds << " was accepted");
        auto q2 = q; q2.push_back({bad, NAMES[0]});
        PBT_CHECK(bquery(S, q2, c_api) != HXHIM_SUCCESS, "bulk histograms with datastore " << bad << " of " << nds << " were accepted");
        c.label("refused");
    }
    if (bulk) PBT_CHECK(bquery(S, q, c_api) == HXHIM_SUCCESS, "bulk histogram refused");
    else for (auto const &x : q) PBT_CHECK(query(S, x.first, x.second, c_api) == HXHIM_SUCCESS, "histogram of datastore " << x.first << " refused");
    std::vector<Rec> rs = flush(S, src.coin() ? F_ALL : F_HISTS, c_api);
    PBT_CHECK(trouble.empty(), trouble);
    PBT_CHECK(rs.size() == q.size(), rs.size() << " results for " << q.size() << " histograms");
    for (std::size_t i = 0; i < q.size(); i++) {
        std::ostringstream w; w << "histogram " << hex(q[i].second) << " of datastore " << ds;
        PBT_CHECK(rs[i].op == HXHIM_HISTOGRAM, w.str() << ": result of another kind: " << rs[i]);
        auto it = live[ds].find(q[i].second);
        if (it == live[ds].end()) {
            PBT_CHECK(rs[i].status == HXHIM_ERROR, w.str() << " does not exist, but status is " << rs[i].status);
            c.label("no such histogram");
            continue;
        }
        PBT_CHECK(rs[i].status == HXHIM_SUCCESS, w.str() << " failed");
        PBT_CHECK(rs[i].h.name == q[i].second, w.str() << " is named " << hex(rs[i].h.name));
        it->second.compare(rs[i].h, w.str());
        if (it->second.fixed) { ready++; c.label("with buckets: " + it->second.rule.name); } else c.label("not enough values");
    }
    c.ops += q.size();
}

Hists fresh(const Conf &c) {
    Hists h;
    for (auto const &n : c.hist_names) { HM m; m.first_n = c.hist_first_n; m.rule = rule_of(c); h[n] = m; }
    return h;
}

std::vector<std::string> pick_names(pbt::Src &s) {
    std::vector<std::string> r;
    for (auto const &n : NAMES) if (s.coin()) r.push_back(n);
    if (r.empty()) r.push_back(NAMES[0]);
    return r;
}

struct Put { QOp q; };

QOp gen_put(pbt::Src &src, const std::vector<Val> &subs, const std::vector<std::string> &names) {
    GenOpts g;
    QOp q; q.kind = K_PUT;
    q.s = src.pick(subs);
    switch (src.below(8)) {
        case 0: q.p = gen_val(src, g); break;
        case 1: q.p = byte(src.pick(names)); q.p.type = HXHIM_DATA_POINTER; break;      // same bytes, other type
        case 2: q.p = byte(src.pick(NAMES) + "x"); break;                               // starts like a name
        default: q.p = byte(src.pick(names)); break;
    }
    q.o = src.chance(1, 6) ? gen_val(src, g) : gen_numval(src);
    if (src.chance(1, 6)) {       // other orderings: a tracked name may end up anywhere
        q.perms = (hxhim_put_permutation_t) (1 + src.below(63));
        switch (src.below(3)) {
            case 0: std::swap(q.s, q.p); break;
            case 1: std::swap(q.o, q.p); break;
            default: break;
        }
    }
    return q;
}

void c13(pbt::Src &src, pbt::Case &c) {
    Dir dir;
    trouble.clear();
    Session S;
    Conf cfg = gen_config(src, dir.path, 10, 2, 1);
    cfg.hash = src.chance(1, 4) ? "DATASTORE_0" : "";
    gen_hist_conf(src, cfg);
    cfg.hist_names = pick_names(src);
    // numbers that are stored as they are can have any length
    const bool plain = src.chance(1, 6);
    if (plain) cfg.extra = [](hxhim_t *h) {
        for (hxhim_data_t t : {HXHIM_DATA_FLOAT, HXHIM_DATA_DOUBLE}) PBT_CHECK(hxhim_set_transform_function(h, t, nullptr, nullptr, nullptr, nullptr) == HXHIM_SUCCESS, "a transform was refused");
    };
    std::vector<Val> subs;
    GenOpts g;
    for (std::size_t i = 0, n = 1 + src.below(5); i < n; i++) subs.push_back(gen_val(src, g));
    c.desc << describe(cfg) << (plain ? " plain numbers" : "") << "\n";
    c.label(backend_name(cfg.backend));
    std::size_t odd = 0;
    S.open(cfg);
    const std::size_t nds = cfg.per_server;
    std::vector<Hists> live(nds, fresh(cfg));
    auto where = [&](const Key &k) { return cfg.hash.size() ? (std::size_t) 0 : spread(k.first, k.second, nds); };
    for (auto const &n : NAMES) {
        int have = -1;
        PBT_CHECK((src.coin() ? hxhimHaveHistogram(&S.hx, n.data(), n.size(), &have) : hxhim::HaveHistogram(&S.hx, n.data(), n.size(), &have)) == HXHIM_SUCCESS, "HaveHistogram failed");
        PBT_CHECK((have != 0) == (live[0].count(n) > 0), "HaveHistogram(" << hex(n) << ") says " << have);
    }
    std::size_t ready = 0, tracked = 0, failed = 0;
    for (std::size_t round = 0, rounds = 1 + src.below(6); round < rounds; round++) {
        std::vector<QOp> puts;
        for (std::size_t i = 0, n = several(src, 16, 400, 50) - 1; i < n; i++) {
            QOp q = gen_put(src, subs, cfg.hist_names);
            if (plain && (q.o.type == HXHIM_DATA_FLOAT || q.o.type == HXHIM_DATA_DOUBLE) && src.coin()) { q.o.bytes.resize(1 + src.below(12), '\x3f'); odd++; }
            if (src.chance(1, 10)) { q.s.type = HXHIM_DATA_INVALID; }   // cannot be stored
            c.desc << q << " ";
            puts.push_back(q);
        }
        const bool bulk = src.coin(), c_api = src.coin();
        if (puts.size()) {
            if (bulk) PBT_CHECK(submit_bulk(S, puts, c_api) == HXHIM_SUCCESS, "bulk PUT refused");
            else for (auto &q : puts) PBT_CHECK(submit(S, q, c_api) == HXHIM_SUCCESS, q << " refused");
        }
        std::vector<Rec> rs = flush(S, src.coin() ? F_ALL : F_PUTS, c_api);
        std::size_t expected = 0;
        for (auto const &q : puts) for (auto const &kv : expand(q)) {
            expected++;
            if (kv.first.first.type == HXHIM_DATA_INVALID || kv.first.second.type == HXHIM_DATA_INVALID || kv.second.type == HXHIM_DATA_INVALID) { failed++; continue; }
            if (track(live[where(kv.first)], kv.first.second, kv.second)) tracked++;
        }
        PBT_CHECK(rs.size() == expected, rs.size() << " results for " << expected << " PUTs");
        for (auto const &r : rs) {
            const bool bad = r.s.type == HXHIM_DATA_INVALID || r.p.type == HXHIM_DATA_INVALID;
            if (bad) PBT_CHECK(r.status == HXHIM_ERROR, r << " succeeded");
        }
        if (src.chance(1, 4) && puts.size()) {      // deleting does not take values back
            QOp d = src.pick(puts); d.kind = K_DEL; d.o = Val();
            c.desc << d << " ";
            PBT_CHECK(submit(S, d, c_api) == HXHIM_SUCCESS, d << " refused");
            flush(S, F_ALL, c_api);
        }
        if (src.chance(1, 8)) flush(S, F_SYNC, c_api);
        c.desc << "\n";
        c.ops += puts.size();
        for (std::size_t i = 0, n = 1 + src.below(3); i < n; i++) ask(S, src, c, live, ready);
    }
    if (odd) c.label("numbers of other lengths", odd);
    if (failed) c.label("failing PUTs", failed);
    c.nontrivial = ready && tracked >= 2;
    S.close();
}

pbt::Reg r13("C13", "random PUTs (tracked, untracked and look-alike predicates; every type; all permutations; failing PUTs) and DELETEs over 1-4 datastores with 1-6 tracked names, all bucket rules and thresholds 1-20; between them HISTOGRAM requests (single, bulk, C, C++; existing and unknown names, bad datastores) are compared with a model that recounts every value. Non-trivial: a histogram with buckets was compared and two or more PUTs were counted.",
    c13, 6000, 300000);

// ---------------------------------------------------------------------------------- C14

struct Store14 { Hists saved; std::set<std::string> pairs; };     // one datastore's files

void c14(pbt::Src &src, pbt::Case &c) {
    Dir dir;
    trouble.clear();
    Conf base = gen_config(src, dir.path, 1, 8, 2);
    base.hash = "";
    base.per_server = 1 + src.below(2);
    const std::size_t nds = base.per_server;
    static const std::vector<std::string> bases = {"one", "two", "three"};
    std::map<std::pair<std::string, std::size_t>, Store14> disk;
    std::vector<Val> subs;
    GenOpts g;
    for (std::size_t i = 0, n = 1 + src.below(4); i < n; i++) subs.push_back(gen_val(src, g));
    c.label(backend_name(base.backend));
    const bool mem = base.backend == MEM;
    std::size_t ready = 0, restored = 0;

    for (std::size_t sess = 0, sessions = 1 + src.below(4); sess < sessions; sess++) {
        Conf cfg = base;
        cfg.basename = src.pick(bases);
        cfg.hist_read = src.chance(2, 3);
        cfg.hist_write = src.chance(2, 3);
        gen_hist_conf(src, cfg);
        cfg.hist_names = pick_names(src);
        c.desc << "session " << cfg.basename << ": " << describe(cfg) << "\n";
        Session S;
        S.open(cfg);
        std::string at = cfg.basename;
        std::vector<Hists> live(nds);
        auto load = [&](bool read, bool create) {
            for (std::size_t d = 0; d < nds; d++) {
                if (mem) disk[{at, d}] = Store14();
                live[d].clear();
                Hists def = fresh(cfg);
                for (auto const &n : cfg.hist_names) {
                    auto const &saved = disk[{at, d}].saved;
                    auto it = saved.find(n);
                    if (read && it != saved.end()) { live[d][n] = it->second; live[d][n].rule = rule_of(cfg); if (it->second.vals.size()) restored++; }
                    else if (create) live[d][n] = def[n];
                }
            }
        };
        auto save = [&]() { for (std::size_t d = 0; d < nds; d++) for (auto const &h : live[d]) disk[{at, d}].saved[h.first] = h.second; };
        load(cfg.hist_read, true);

        for (std::size_t step = 0, steps = 1 + src.below(8); step < steps; step++) {
            const bool c_api = src.coin();
            switch (src.weighted({5, 3, 1, 2, 1})) {
                case 0: {
                    std::vector<QOp> puts;
                    for (std::size_t i = 0, n = 1 + src.below(14); i < n; i++) puts.push_back(gen_put(src, subs, cfg.hist_names));
                    for (auto const &q : puts) c.desc << q << " ";
                    c.desc << "\n";
                    PBT_CHECK(submit_bulk(S, puts, c_api) == HXHIM_SUCCESS, "bulk PUT refused");
                    for (auto const &q : puts) for (auto const &kv : expand(q)) {
                        const std::size_t d = spread(kv.first.first, kv.first.second, nds);
                        track(live[d], kv.first.second, kv.second);
                        std::ostringstream k; k << kv.first.first.type << "," << kv.first.first.bytes.size() << "," << kv.first.first.bytes << kv.first.second.type << "," << kv.first.second.bytes;
                        disk[{at, d}].pairs.insert(k.str());
                    }
                    for (auto const &r : flush(S, F_ALL, c_api)) PBT_CHECK(r.status == HXHIM_SUCCESS, r << " failed");
                    c.ops += puts.size();
                    break;
                }
                case 1: for (std::size_t i = 0; i < 2; i++) ask(S, src, c, live, ready); break;
                case 2: {
                    c.desc << "Sync\n";
                    for (auto const &r : flush(S, F_SYNC, c_api)) PBT_CHECK(r.status == HXHIM_SUCCESS, r << " failed");
                    if (cfg.hist_write) save();
                    break;
                }
                case 3: {
                    const std::string to = src.pick(bases);
                    const bool w = src.coin(), r = src.coin(), m = src.coin();
                    c.desc << "ChangeDatastoreName " << to << " write=" << w << " read=" << r << " create=" << m << "\n";
                    std::vector<Rec> rs = c_api ? drain(hxhimChangeDatastoreName(&S.hx, to.data(), to.size(), w, r, m)) : drain(hxhim::ChangeDatastoreName(&S.hx, to, w, r, m));
                    for (auto const &x : rs) PBT_CHECK(x.status == HXHIM_SUCCESS, x << " failed");
                    if (cfg.hist_write || w) save();
                    at = to;
                    load(r, m);
                    c.label("changed datastore");
                    break;
                }
                case 4: {
                    // the stored histograms are ordinary records
                    const std::size_t d = src.below(nds);
                    QOp q; q.kind = K_GETOP; q.gop = src.coin() ? HXHIM_GETOP_FIRST : HXHIM_GETOP_LAST; q.nrec = 5000;
                    q.p = byte("p");
                    for (std::size_t i = 0;; i++) { q.s = byte("s" + std::to_string(i)); if (spread(q.s, q.p, nds) == d) break; }
                    PBT_CHECK(submit(S, q, c_api) == HXHIM_SUCCESS, q << " refused");
                    std::vector<Rec> rs = flush(S, F_ALL, c_api);
                    auto const &st = disk[{at, d}];
                    if (st.pairs.empty() && st.saved.empty()) { PBT_CHECK(rs.size() == 1 && rs[0].status == HXHIM_ERROR, "scan of an empty datastore: " << rs[0]); break; }
                    std::set<std::string> seen;
                    for (auto const &r : rs) {
                        PBT_CHECK(r.status == HXHIM_SUCCESS, "full scan: " << r);
                        if (r.s != byte("HISTOGRAM")) continue;
                        PBT_CHECK(st.saved.count(r.p.bytes) && seen.insert(r.p.bytes).second, "scan of datastore " << d << " of " << at << " finds a stored histogram " << r.p << " that was not written");
                        PBT_CHECK(r.o.type == HXHIM_DATA_BYTE, "stored histogram has type " << r.o.type);
                        Histogram::Histogram h;
                        PBT_CHECK(h.unpack(r.o.bytes.data(), r.o.bytes.size()), "stored histogram cannot be unpacked");
                        st.saved.at(r.p.bytes).compare(read(h), "stored histogram " + hex(r.p.bytes));
                    }
                    PBT_CHECK(seen.size() == st.saved.size(), seen.size() << " stored histograms in datastore " << d << " of " << at << ", expected " << st.saved.size());
                    PBT_CHECK(rs.size() == seen.size() + st.pairs.size(), rs.size() << " records in datastore " << d << " of " << at << ", expected " << st.pairs.size() << " and " << seen.size() << " histograms");
                    c.label("scanned");
                    break;
                }
            }
        }
        for (std::size_t i = 0; i < nds; i++) ask(S, src, c, live, ready);
        S.close();
        if (cfg.hist_write) save();
        c.desc << "closed\n";
    }
    c.nontrivial = restored && ready;
}

pbt::Reg r14("C14", "1-4 sessions over the same directory (LevelDB, RocksDB, in-memory), each with random read and write flags, tracked names, threshold and bucket rule; inside them PUTs, HISTOGRAM requests, Sync, ChangeDatastoreName with random flags and full scans, compared with a model of what each datastore's files hold. Non-trivial: a histogram with values was restored and one with buckets was compared.",
    c14, 1500, 60000);

}
