// C26 every form of a call is the same operation, C30 results belong to the user,
// C28 transform functions, C27 lifecycle
#include "hist.hpp"
#include "utils/elen.hpp"

using namespace hxt;

namespace {

std::ostream &operator<<(std::ostream &o, const HistRec &h) {
    o << hex(h.name) << (h.ready ? "" : " (no buckets)");
    for (std::size_t i = 0; i < h.counts.size(); i++) o << " " << h.buckets[i] << ":" << h.counts[i];
    return o;
}
bool equal(const HistRec &a, const HistRec &b) { return a.ready == b.ready && a.buckets == b.buckets && a.counts == b.counts && a.name == b.name; }
bool equal(const Rec &a, const Rec &b) {
    return a.op == b.op && a.status == b.status && a.rs == b.rs && a.has_sp == b.has_sp && a.has_o == b.has_o && a.has_h == b.has_h &&
           a.s == b.s && a.p == b.p && a.o == b.o && equal(a.h, b.h);
}
std::string show(const Rec &r) {
    std::ostringstream s;
    s << r << " from " << r.rs;
    if (r.has_h) s << " " << r.h;
    return s.str();
}

// ------------------------------------------------------------------- C26

// an operation of a history, histograms included
struct Op {
    QOp q;
    bool hist = false;
    int ds = 0;
    std::string name;
    int broken = -1;            // which part of it is missing
};
std::ostream &operator<<(std::ostream &o, const Op &x) {
    if (x.broken >= 0) o << "[without part " << x.broken << "]";
    if (x.hist) return o << "histogram(" << x.ds << ", " << hex(x.name) << ")";
    return o << x.q;
}

// exactly sized lists, overwritten and freed as soon as the call returns
struct Lists {
    std::vector<std::vector<char>> mem;
    template <typename T> T *list(const std::vector<T> &v) {
        mem.emplace_back((const char *) v.data(), (const char *) v.data() + v.size() * sizeof(T));
        mem.back().shrink_to_fit();
        static char none[8];
        return v.empty() ? (T *) none : (T *) mem.back().data();
    }
    ~Lists() { for (auto &m : mem) std::fill(m.begin(), m.end(), (char) 0xa5); }
};

enum Form { FORM_SINGLE, FORM_BULK, FORM_SINGLE_TYPE, FORM_FLOAT, FORM_BULK_FLOAT, FORM_DOUBLE, FORM_BULK_DOUBLE };
const char *form_names[] = {"single", "bulk", "single type", "float", "bulk float", "double", "bulk double"};

hxhim_data_t object_type(const Op &x) { return x.q.kind == K_PUT ? x.q.o.type : x.q.want; }

// breaks: -1 a proper call, otherwise which pointer argument is left out
int call(Session &S, hxhim_t *hx, Form f, bool c_api, std::vector<Op> &ops, int breaks) {
    const std::size_t n = ops.size();
    Lists L;
    std::vector<void *> s(n), p(n), o(n);
    std::vector<std::size_t> sl(n), pl(n), ol(n), nr(n);
    std::vector<hxhim_data_t> st(n), pt(n), ot(n);
    std::vector<hxhim_put_permutation_t> pm(n);
    std::vector<hxhim_getop_t> go(n);
    std::vector<int> ids(n);
    std::vector<const char *> names(n);
    const bool hist = n && ops[0].hist;
    for (std::size_t i = 0; i < n; i++) {
        Op &x = ops[i]; QOp &q = x.q;
        if (hist) { ids[i] = x.ds; names[i] = x.broken >= 0 ? nullptr : (const char *) S.arena.put(x.name); sl[i] = x.name.size(); continue; }
        s[i] = q.sp = maybe(S, q.s); sl[i] = q.s.bytes.size(); st[i] = q.s.type;
        p[i] = q.pp = maybe(S, q.p, q.null_pred); pl[i] = q.null_pred ? 0 : q.p.bytes.size(); pt[i] = q.p.type;
        if (q.kind == K_PUT) { o[i] = maybe(S, q.o); ol[i] = q.o.bytes.size(); ot[i] = q.o.type; }
        else ot[i] = q.want;
        pm[i] = q.perms; nr[i] = q.nrec; go[i] = q.gop;
        switch (x.broken) {
            case 0: s[i] = nullptr; break;
            case 1: p[i] = nullptr; if (!pl[i]) pl[i] = 3; break;
            case 2: sl[i] = 0; break;
            case 3: if (q.kind == K_GETOP) s[i] = nullptr; else pl[i] = 0; break;
            case 4: if (q.kind == K_PUT) o[i] = nullptr; else s[i] = nullptr; break;
            default: break;
        }
    }
    const Kind k = n ? ops[0].q.kind : K_PUT;
    const hxhim_data_t t = n ? ot[0] : HXHIM_DATA_BYTE;
    if (f == FORM_SINGLE || f == FORM_FLOAT || f == FORM_DOUBLE) {
        // a length of zero is as good as no pointer
        if (breaks == 0) s[0] = nullptr;
        if (breaks == 1) p[0] = nullptr;
        if (breaks == 2) o[0] = nullptr;
        if (breaks == 3) sl[0] = 0;
        if (breaks == 4) pl[0] = 0;
        if (breaks == 5) ol[0] = 0;
    }
    if (f == FORM_SINGLE) {
        if (hist) return c_api ? hxhimHistogram(hx, ids[0], names[0], sl[0]) : hxhim::Histogram(hx, ids[0], names[0], sl[0]);
        switch (k) {
            case K_PUT: return c_api ? hxhimPut(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0], o[0], ol[0], ot[0], pm[0])
                                     : hxhim::Put(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0], o[0], ol[0], ot[0], pm[0]);
            case K_GET: return c_api ? hxhimGet(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0], ot[0])
                                     : hxhim::Get(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0], ot[0]);
            case K_DEL: return c_api ? hxhimDelete(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0])
                                     : hxhim::Delete(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0]);
            case K_GETOP: return c_api ? hxhimGetOp(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0], ot[0], nr[0], go[0])
                                       : hxhim::GetOp(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0], ot[0], nr[0], go[0]);
        }
    }
    if (f == FORM_FLOAT) switch (k) {
        case K_PUT: return c_api ? hxhimPutFloat(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0], (float *) o[0], pm[0])
                                 : hxhim::PutFloat(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0], (float *) o[0], pm[0]);
        case K_GET: return c_api ? hxhimGetFloat(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0])
                                 : hxhim::GetFloat(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0]);
        default:    return c_api ? hxhimGetOpFloat(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0], nr[0], go[0])
                                 : hxhim::GetOpFloat(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0], nr[0], go[0]);
    }
    if (f == FORM_DOUBLE) switch (k) {
        case K_PUT: return c_api ? hxhimPutDouble(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0], (double *) o[0], pm[0])
                                 : hxhim::PutDouble(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0], (double *) o[0], pm[0]);
        case K_GET: return c_api ? hxhimGetDouble(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0])
                                 : hxhim::GetDouble(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0]);
        default:    return c_api ? hxhimGetOpDouble(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0], nr[0], go[0])
                                 : hxhim::GetOpDouble(hx, s[0], sl[0], st[0], p[0], pl[0], pt[0], nr[0], go[0]);
    }
    // lists
    int *lids = L.list(ids); const char **ln = L.list(names);
    void **ls = L.list(s), **lp = L.list(p), **lo = L.list(o);
    std::size_t *lsl = L.list(sl), *lpl = L.list(pl), *lol = L.list(ol), *lnr = L.list(nr);
    hxhim_data_t *lst = L.list(st), *lpt = L.list(pt), *lot = L.list(ot);
    hxhim_put_permutation_t *lpm = L.list(pm);
    hxhim_getop_t *lgo = L.list(go);
    switch (breaks) {
        case 0: ls = nullptr; lids = nullptr; break;
        case 1: lsl = nullptr; break;
        case 2: lst = nullptr; ln = nullptr; break;
        case 3: lp = nullptr; break;
        case 4: lpl = nullptr; break;
        case 5: lpt = nullptr; break;
        case 6: lo = nullptr; lnr = nullptr; break;
        case 7: lpm = nullptr; lgo = nullptr; break;
        case 8: lol = nullptr; break;
        case 9: lot = nullptr; break;
        default: break;
    }
    if (hist) return c_api ? hxhimBHistogram(hx, lids, ln, lsl, n) : hxhim::BHistogram(hx, lids, ln, lsl, n);
    if (f == FORM_BULK) switch (k) {
        case K_PUT: return c_api ? hxhimBPut(hx, ls, lsl, lst, lp, lpl, lpt, lo, lol, lot, lpm, n) : hxhim::BPut(hx, ls, lsl, lst, lp, lpl, lpt, lo, lol, lot, lpm, n);
        case K_GET: return c_api ? hxhimBGet(hx, ls, lsl, lst, lp, lpl, lpt, lot, n) : hxhim::BGet(hx, ls, lsl, lst, lp, lpl, lpt, lot, n);
        case K_DEL: return c_api ? hxhimBDelete(hx, ls, lsl, lst, lp, lpl, lpt, n) : hxhim::BDelete(hx, ls, lsl, lst, lp, lpl, lpt, n);
        case K_GETOP: return c_api ? hxhimBGetOp(hx, ls, lsl, lst, lp, lpl, lpt, lot, lnr, lgo, n) : hxhim::BGetOp(hx, ls, lsl, lst, lp, lpl, lpt, lot, lnr, lgo, n);
    }
    if (f == FORM_SINGLE_TYPE) switch (k) {
        case K_PUT: return c_api ? hxhimBPutSingleType(hx, ls, lsl, lst, lp, lpl, lpt, lo, lol, t, lpm, n) : hxhim::BPutSingleType(hx, ls, lsl, lst, lp, lpl, lpt, lo, lol, t, lpm, n);
        case K_GET: return c_api ? hxhimBGetSingleType(hx, ls, lsl, lst, lp, lpl, lpt, t, n) : hxhim::BGetSingleType(hx, ls, lsl, lst, lp, lpl, lpt, t, n);
        default:    return c_api ? hxhimBGetOpSingleType(hx, ls, lsl, lst, lp, lpl, lpt, t, lnr, lgo, n) : hxhim::BGetOpSingleType(hx, ls, lsl, lst, lp, lpl, lpt, t, lnr, lgo, n);
    }
    if (f == FORM_BULK_FLOAT) switch (k) {
        case K_PUT: return c_api ? hxhimBPutFloat(hx, ls, lsl, lst, lp, lpl, lpt, (float **) lo, lpm, n) : hxhim::BPutFloat(hx, ls, lsl, lst, lp, lpl, lpt, (float **) lo, lpm, n);
        case K_GET: return c_api ? hxhimBGetFloat(hx, ls, lsl, lst, lp, lpl, lpt, n) : hxhim::BGetFloat(hx, ls, lsl, lst, lp, lpl, lpt, n);
        default:    return c_api ? hxhimBGetOpFloat(hx, ls, lsl, lst, lp, lpl, lpt, lnr, lgo, n) : hxhim::BGetOpFloat(hx, ls, lsl, lst, lp, lpl, lpt, lnr, lgo, n);
    }
    switch (k) {
        case K_PUT: return c_api ? hxhimBPutDouble(hx, ls, lsl, lst, lp, lpl, lpt, (double **) lo, lpm, n) : hxhim::BPutDouble(hx, ls, lsl, lst, lp, lpl, lpt, (double **) lo, lpm, n);
        case K_GET: return c_api ? hxhimBGetDouble(hx, ls, lsl, lst, lp, lpl, lpt, n) : hxhim::BGetDouble(hx, ls, lsl, lst, lp, lpl, lpt, n);
        default:    return c_api ? hxhimBGetOpDouble(hx, ls, lsl, lst, lp, lpl, lpt, lnr, lgo, n) : hxhim::BGetOpDouble(hx, ls, lsl, lst, lp, lpl, lpt, lnr, lgo, n);
    }
}

// which pointer arguments each form must not be called without
std::vector<int> required(Form f, const Op &x) {
    if (f == FORM_SINGLE || f == FORM_FLOAT || f == FORM_DOUBLE) {
        if (x.hist) return {};
        if (x.q.kind == K_GETOP) return {0, 3};
        if (x.q.kind == K_PUT) return f == FORM_SINGLE ? std::vector<int>{0, 1, 2, 3, 4, 5} : std::vector<int>{0, 1, 2, 3, 4};
        return {0, 1, 3, 4};
    }
    if (x.hist) return {0, 1, 2};
    std::vector<int> r = {0, 1, 2, 3, 4, 5};
    if (x.q.kind == K_PUT) { r.push_back(6); r.push_back(7); if (f == FORM_BULK || f == FORM_SINGLE_TYPE) r.push_back(8); }
    if (x.q.kind == K_GETOP) { r.push_back(6); r.push_back(7); }
    if (f == FORM_BULK && x.q.kind != K_DEL) r.push_back(9);
    return r;
}

// a hash function that has no datastore for some pairs
bool homeless(const unsigned char *s, std::size_t sl, const unsigned char *p, std::size_t pl) {
    unsigned n = 0;
    for (std::size_t i = 0; i < sl; i++) n += s[i];
    for (std::size_t i = 0; i < pl; i++) n += 2 * p[i];
    return n % 4 == 1;
}
int picky(hxhim_t *hx, void *s, const size_t sl, void *p, const size_t pl, void *args) {
    return homeless((unsigned char *) s, sl, (unsigned char *) p, pl) ? -1 : spread_hash(hx, s, sl, p, pl, args);
}

void c26(pbt::Src &src, pbt::Case &c) {
    Dir d1, d2;
    Session A, B;
    Conf cfg = gen_config(src, d1.path, 8, 2, 1);
    cfg.hash = "";
    const bool tracking = src.coin();
    if (tracking) { cfg.hist_names = {"a", "zz"}; cfg.hist_first_n = 1 + src.below(5); }
    const bool fussy = src.chance(1, 4);
    if (fussy) cfg.hash_func = picky;
    c.desc << describe(cfg) << (fussy ? " without datastores for some pairs" : "") << "\n";
    c.label(backend_name(cfg.backend));
    A.open(cfg);
    cfg.prefix = d2.path;
    B.open(cfg);
    // whether an operation can be queued; a PUT can if all its orderings can
    auto accepted = [&](const Op &x) {
        if (x.broken >= 0) return false;
        if (!fussy || x.hist) return true;
        auto none = [](const Val &s, const Val &p, bool np) { return homeless((const unsigned char *) s.bytes.data(), s.bytes.size(), (const unsigned char *) p.bytes.data(), np ? 0 : p.bytes.size()); };
        if (x.q.kind != K_PUT) return !none(x.q.s, x.q.p, x.q.null_pred);
        for (auto const &e : expand(x.q)) if (none(e.first.first, e.first.second, false)) return false;
        return true;
    };
    std::size_t queued_puts = 0, left_out = 0;

    GenOpts g;
    std::vector<Val> subs, preds, objs;
    for (std::size_t i = 0, n = 1 + src.below(4); i < n; i++) subs.push_back(gen_val(src, g));
    for (std::size_t i = 0, n = 1 + src.below(4); i < n; i++) preds.push_back(gen_val(src, g));
    preds.push_back(byte("a"));
    for (std::size_t i = 0; i < 4; i++) objs.push_back(gen_val(src, g));
    std::size_t forms = 0, refused = 0, hits = 0;
    std::set<std::string> kinds;

    auto gen = [&](int kind, int type) {
        Op x;
        if (kind == 4) { x.hist = true; x.ds = (int) src.below(cfg.per_server); x.name = src.chance(1, 6) ? "other" : src.coin() ? "a" : "zz"; return x; }
        QOp &q = x.q;
        q.kind = (Kind) kind;
        q.s = src.pick(subs); q.p = src.pick(preds);
        if (type == 1) q.o = num<float>(HXHIM_DATA_FLOAT, gen_exact<float>(src));
        else if (type == 2) q.o = num<double>(HXHIM_DATA_DOUBLE, gen_exact<double>(src));
        else q.o = src.pick(objs);
        q.want = q.o.type;
        if (q.kind == K_PUT && src.chance(1, 3)) q.perms = (hxhim_put_permutation_t) src.below(64);
        if (q.kind == K_GETOP) {
            q.gop = (hxhim_getop_t) src.below(7);
            q.nrec = src.below(5);
            q.null_pred = src.chance(1, 5);
        }
        return x;
    };
    auto compare = [&](std::vector<Rec> a, std::vector<Rec> b, const char *what) {
        // the order between datastores is not part of the comparison
        auto by = [](const Rec &x, const Rec &y) { return std::tie(x.op, x.rs) < std::tie(y.op, y.rs); };
        std::stable_sort(a.begin(), a.end(), by);
        std::stable_sort(b.begin(), b.end(), by);
        for (std::size_t i = 0; i < a.size() && i < b.size(); i++) {
            PBT_CHECK(equal(a[i], b[i]), what << ": single operations give " << show(a[i]) << ", other forms give " << show(b[i]));
            if (a[i].status == HXHIM_SUCCESS && (a[i].has_o || a[i].has_h)) hits++;
        }
        PBT_CHECK(a.size() == b.size(), what << ": single operations give " << a.size() << " results, other forms give " << b.size());
    };
    bool puts = false;
    auto settle = [&](int f) {
        const bool ca = src.coin(), cb = src.coin();
        // PUTs of one type may already be stored
        auto count = [&](const std::vector<Rec> &rs) {
            std::size_t n = 0;
            for (auto const &r : rs) n += r.op == HXHIM_PUT;
            PBT_CHECK(n == queued_puts, n << " PUT results, the accepted PUTs asked for " << queued_puts);
            queued_puts = 0;
            return rs;
        };
        if (puts && f != F_ALL && f != F_PUTS && f != F_SYNC) compare(count(flush(A, F_PUTS, ca)), flush(B, F_PUTS, cb), "FlushPuts");
        puts = puts && f != F_ALL && f != F_PUTS && f != F_SYNC ? false : puts;
        if (f == F_ALL || f == F_PUTS || f == F_SYNC) puts = false;
        c.desc << flush_name(f) << "\n";
        std::vector<Rec> ra = flush(A, f, ca);
        if (f == F_ALL || f == F_PUTS || f == F_SYNC) count(ra);
        compare(ra, flush(B, f, cb), flush_name(f));
    };

    const std::size_t steps = 2 + src.below(14);
    for (std::size_t i = 0; i < steps; i++) {
        const int kind = (int) src.weighted({6, 3, 2, 2, tracking ? 2u : 0u});
        const int type = (int) src.weighted({3, 2, 2});
        std::vector<Op> ops;
        for (std::size_t j = 0, n = several(src, 6, 200, 30) - 1; j < n; j++) ops.push_back(gen(kind, type));
        // the plain form
        for (Op &x : ops) {
            std::vector<Op> one(1, x);
            const int rc = call(A, &A.hx, FORM_SINGLE, false, one, -1);
            PBT_CHECK(rc == (accepted(x) ? HXHIM_SUCCESS : HXHIM_ERROR), x << " returned " << rc);
            if (kind == K_PUT && accepted(x)) queued_puts += expand(x.q).size();
        }
        // any other
        for (std::size_t at = 0, rest; at <= ops.size(); at += rest) {
            rest = ops.empty() ? 0 : 1 + src.below(ops.size() - at ? ops.size() - at : 1);
            std::vector<Op> part(ops.begin() + at, ops.begin() + std::min(ops.size(), at + rest));
            if (part.empty() && at) break;
            std::vector<Form> can;
            bool uniform = !part.empty();
            for (Op &x : part) if (object_type(x) != object_type(part[0])) uniform = false;
            const bool typed = uniform && kind != K_DEL && kind != 4;
            const hxhim_data_t t = uniform ? object_type(part[0]) : HXHIM_DATA_INVALID;
            can.push_back(FORM_BULK);
            if (part.size() == 1) can.push_back(FORM_SINGLE);
            if (typed) can.push_back(FORM_SINGLE_TYPE);
            if (typed && t == HXHIM_DATA_FLOAT) { can.push_back(FORM_BULK_FLOAT); if (part.size() == 1) can.push_back(FORM_FLOAT); }
            if (typed && t == HXHIM_DATA_DOUBLE) { can.push_back(FORM_BULK_DOUBLE); if (part.size() == 1) can.push_back(FORM_DOUBLE); }
            const Form f = src.pick(can);
            const bool c_api = src.coin();
            if (part.size() && src.chance(1, 4)) {
                // an unusable call first: it must be refused and leave no trace
                std::vector<int> req = required(f, part[0]);
                const std::size_t w = src.below(req.size() + 2);
                int rc;
                std::vector<Op> bad = part;
                std::string how;
                if (w < req.size()) { rc = call(B, &B.hx, f, c_api, bad, req[w]); how = "argument " + std::to_string(req[w]) + " left out"; }
                else if (kind == 4) {
                    bad[src.below(bad.size())].ds = src.coin() ? -1 : (int) cfg.per_server + (int) src.below(3);
                    rc = call(B, &B.hx, f, c_api, bad, -1);
                    how = "no such datastore";
                }
                else { rc = call(B, nullptr, f, c_api, bad, -1); how = "no instance"; }
                c.desc << "refused ";
                PBT_CHECK(rc == HXHIM_ERROR, form_names[f] << (c_api ? " (C) " : " (C++) ") << part[0] << " with " << how << " returned " << rc);
                refused++;
            }
            // in a list, operations without a part or a datastore are left out and the call says so
            const bool list = f == FORM_BULK || f == FORM_SINGLE_TYPE || f == FORM_BULK_FLOAT || f == FORM_BULK_DOUBLE;
            const std::size_t size = part.size();
            if (list && size && src.chance(1, 6)) {
                for (std::size_t j = 0, n = 1 + src.below(2); j < n; j++) {
                    Op x = part[src.below(size)];
                    x.broken = (int) src.below(5);
                    part.insert(part.begin() + src.below(part.size() + 1), x);
                }
                c.label("a list with missing elements");
            }
            bool whole = true;
            for (Op &x : part) if (!accepted(x)) { whole = false; left_out++; }
            c.desc << form_names[f] << (c_api ? " C" : " C++") << "{";
            for (Op &x : part) c.desc << x << " ";
            c.desc << "} ";
            const int rc = call(B, &B.hx, f, c_api, part, -1);
            PBT_CHECK(rc == (whole ? HXHIM_SUCCESS : HXHIM_ERROR), form_names[f] << (c_api ? " (C)" : " (C++)") << " form of " << part.size() << " operations returned " << rc);
            if (kind == K_PUT) puts = true;
            if (f != FORM_SINGLE || c_api) forms++;
            static const char *kn[] = {"PUT", "GET", "GETOP", "DELETE", "HISTOGRAM"};
            c.label(std::string(kn[kind]) + " " + form_names[f] + (c_api ? " C" : " C++"));
            kinds.insert(std::string(kn[kind]) + form_names[f]);
            if (ops.empty()) break;
        }
        c.ops += ops.size();
        c.desc << "\n";
        if (src.chance(1, 2)) settle((int) src.below(7));
    }
    settle(F_ALL);
    // the contents, in order
    for (std::size_t round = 0; round < 2; round++) {
        for (auto const &s : subs) {
            Op x; x.q.kind = round ? K_GETOP : K_GET; x.q.s = s; x.q.gop = HXHIM_GETOP_FIRST; x.q.nrec = 100;
            for (auto const &p : preds) {
                x.q.p = p;
                std::vector<Op> one(1, x);
                const int want = accepted(x) ? HXHIM_SUCCESS : HXHIM_ERROR;
                PBT_CHECK(call(A, &A.hx, FORM_SINGLE, false, one, -1) == want && call(B, &B.hx, FORM_SINGLE, false, one, -1) == want, "reading " << x << " is not " << (want == HXHIM_SUCCESS ? "accepted" : "refused"));
            }
        }
        compare(flush(A, F_ALL, false), flush(B, F_ALL, false), "contents");
    }
    c.label("refused calls", refused);
    c.label("operations left out of a call", left_out);
    c.nontrivial = forms >= 3 && kinds.size() >= 2 && hits >= 2;
    A.close();
    B.close();
}

pbt::Reg r26("C26", "one random history of PUTs (with permutations), GETs, GETOPs, DELETEs and HISTOGRAMs twice: as single C++ calls, and cut into random parts each submitted by a random form (single, bulk, single type, float, double, their bulk forms; C or C++), with unusable calls in between, lists with missing elements, and a quarter of the cases under a hash function that has no datastore for some pairs; all results and the contents must be equal. Non-trivial: three or more parts in another form, of two or more kinds, and two or more results with a value.",
    c26, 6000, 200000);


// ------------------------------------------------------------------- C30

// one entry as the accessors show it: addresses and contents
struct Entry {
    hxhim_op_t op = HXHIM_INVALID;
    int status = 0, rs = -1;
    bool sp = false, obj = false, hist = false;
    void *ptr[3] = {nullptr, nullptr, nullptr};
    Val val[3];
    HistRec h;
    const double *buckets = nullptr; const std::size_t *counts = nullptr; const char *name = nullptr;
};
std::string show(const Entry &e) {
    std::ostringstream s;
    s << "op " << (int) e.op << " status " << e.status << " from " << e.rs << " (" << e.val[0] << ", " << e.val[1];
    if (e.obj) s << " -> " << e.val[2];
    s << ")";
    if (e.hist) s << " " << e.h;
    return s.str();
}
bool equal(const Entry &a, const Entry &b) {
    for (int i = 0; i < 3; i++) if (a.ptr[i] != b.ptr[i] || a.val[i] != b.val[i]) return false;
    return a.op == b.op && a.status == b.status && a.rs == b.rs && a.sp == b.sp && a.obj == b.obj && a.hist == b.hist && equal(a.h, b.h) &&
           a.buckets == b.buckets && a.counts == b.counts && a.name == b.name;
}

// either kind of list behind one face
struct List {
    hxhim::Results *x = nullptr;
    hxhim_results_t *k = nullptr;
    std::vector<Entry> want;
    std::size_t at = 0;           // cursor, want.size(): past the end
    bool placed = false;          // the cursor means something
    std::size_t size() { if (x) return x->Size(); std::size_t n = 0; PBT_CHECK(hxhim_results_size(k, &n) == HXHIM_SUCCESS, "size failed"); return n; }
    bool valid() { return x ? x->ValidIterator() : hxhim_results_valid_iterator(k) == HXHIM_SUCCESS; }
    void head() {
        if (x) x->GoToHead();
        else PBT_CHECK((hxhim_results_goto_head(k) == HXHIM_SUCCESS) == valid(), "goto_head disagrees with valid_iterator");
    }
    void next() {
        if (x) x->GoToNext();
        else PBT_CHECK((hxhim_results_goto_next(k) == HXHIM_SUCCESS) == valid(), "goto_next disagrees with valid_iterator");
    }
    int op(hxhim_op_t *o) { return x ? x->Op(o) : hxhim_result_op(k, o); }
    int status(int *o) { return x ? x->Status(o) : hxhim_result_status(k, o); }
    int rs(int *o) { return x ? x->RangeServer(o) : hxhim_result_range_server(k, o); }
    int subject(void **p, std::size_t *l, hxhim_data_t *t) { return x ? x->Subject(p, l, t) : hxhim_result_subject(k, p, l, t); }
    int predicate(void **p, std::size_t *l, hxhim_data_t *t) { return x ? x->Predicate(p, l, t) : hxhim_result_predicate(k, p, l, t); }
    int object(void **p, std::size_t *l, hxhim_data_t *t) { return x ? x->Object(p, l, t) : hxhim_result_object(k, p, l, t); }
    int hist(const char **n, std::size_t *nl, double **b, std::size_t **cn, std::size_t *s) { return x ? x->Histogram(n, nl, b, cn, s) : hxhim_result_histogram(k, n, nl, b, cn, s); }
    void destroy() { if (x) hxhim::Results::Destroy(x); if (k) hxhim_results_destroy(k); x = nullptr; k = nullptr; }

    // the entry under the cursor
    Entry read() {
        Entry e;
        PBT_CHECK(op(&e.op) == HXHIM_SUCCESS && status(&e.status) == HXHIM_SUCCESS && rs(&e.rs) == HXHIM_SUCCESS, "accessors of an entry failed");
        PBT_CHECK(e.status == HXHIM_SUCCESS || e.status == HXHIM_ERROR, "status " << e.status);
        PBT_CHECK(op(nullptr) == HXHIM_SUCCESS && status(nullptr) == HXHIM_SUCCESS && rs(nullptr) == HXHIM_SUCCESS, "accessors need an output");
        char mark = 0;
        for (int i = 0; i < 3; i++) {
            void *p = &mark; std::size_t l = 12345; hxhim_data_t t = HXHIM_DATA_MAX_KNOWN;
            auto get = [&](void **pp, std::size_t *pl, hxhim_data_t *pt) { return i == 0 ? subject(pp, pl, pt) : i == 1 ? predicate(pp, pl, pt) : object(pp, pl, pt); };
            const int rc = get(&p, &l, &t);
            const bool has = i < 2 ? e.op == HXHIM_PUT || e.op == HXHIM_GET || e.op == HXHIM_GETOP || e.op == HXHIM_DELETE
                                   : (e.op == HXHIM_GET || e.op == HXHIM_GETOP) && e.status == HXHIM_SUCCESS;
            PBT_CHECK((rc == HXHIM_SUCCESS) == has, "accessor " << i << " of op " << e.op << " status " << e.status << " returned " << rc);
            PBT_CHECK(has || (p == &mark && l == 12345 && t == HXHIM_DATA_MAX_KNOWN), "accessor " << i << " failed and wrote its outputs");
            PBT_CHECK((get(nullptr, nullptr, nullptr) == HXHIM_SUCCESS) == has, "accessor " << i << " without outputs");
            if (!has) continue;
            // outputs are optional, one by one
            void *p2 = &mark; std::size_t l2 = 12345; hxhim_data_t t2 = HXHIM_DATA_MAX_KNOWN;
            PBT_CHECK(get(&p2, nullptr, nullptr) == HXHIM_SUCCESS && get(nullptr, &l2, nullptr) == HXHIM_SUCCESS && get(nullptr, nullptr, &t2) == HXHIM_SUCCESS, "single outputs");
            PBT_CHECK(p2 == p && l2 == l && t2 == t, "accessor " << i << " gives other values one by one");
            e.ptr[i] = p; e.val[i] = to_val(p, l, t);
            if (i < 2) e.sp = true; else e.obj = true;
        }
        const char *n = nullptr; std::size_t nl = 0, sz = 0, *cn = nullptr; double *b = nullptr;
        const int rc = hist(&n, &nl, &b, &cn, &sz);
        if (e.op == HXHIM_HISTOGRAM && e.status == HXHIM_SUCCESS) {
            e.hist = true;
            PBT_CHECK(n, "histogram without a name");
            e.h.name.assign(n, nl); e.name = n;
            hist(nullptr, nullptr, nullptr, nullptr, nullptr);
            if (rc == HXHIM_SUCCESS) {
                e.h.ready = true; e.buckets = b; e.counts = cn;
                if (sz) { e.h.buckets.assign(b, b + sz + 1); e.h.counts.assign(cn, cn + sz); }
            }
            if (x) {
                ::Histogram::Histogram *obj_ = nullptr;
                PBT_CHECK(x->Histogram(&obj_) == HXHIM_SUCCESS && obj_, "no histogram object");
                double *b2 = nullptr; std::size_t *c2 = nullptr, s2 = 0;
                PBT_CHECK((obj_->get(&b2, &c2, &s2) == HISTOGRAM_SUCCESS) == e.h.ready, "the histogram object disagrees");
                if (e.h.ready) PBT_CHECK(b2 == b && c2 == cn && s2 == sz, "the histogram object has other buckets");
            }
        }
        else {
            PBT_CHECK(rc == HXHIM_ERROR, "histogram accessor of op " << e.op << " returned " << rc);
            if (x) { ::Histogram::Histogram *obj_ = nullptr; PBT_CHECK(x->Histogram(&obj_) == HXHIM_ERROR, "histogram object of op " << e.op); }
        }
        return e;
    }
    void end_checks() {
        hxhim_op_t o; int v; void *p; std::size_t l, *cn; hxhim_data_t t; const char *n; double *b;
        PBT_CHECK(!valid(), "the cursor is past the last entry and valid");
        PBT_CHECK(op(&o) == HXHIM_ERROR && status(&v) == HXHIM_ERROR && rs(&v) == HXHIM_ERROR && subject(&p, &l, &t) == HXHIM_ERROR && predicate(&p, &l, &t) == HXHIM_ERROR &&
                  object(&p, &l, &t) == HXHIM_ERROR && hist(&n, &l, &b, &cn, &l) == HXHIM_ERROR, "an accessor works past the last entry");
        next();
        PBT_CHECK(!valid(), "going on from the end");
    }
    std::vector<Entry> all() {
        std::vector<Entry> r;
        for (head(); valid(); next()) { r.push_back(read()); PBT_CHECK(r.size() <= size(), "more entries than Size() says"); }
        end_checks();
        placed = true; at = r.size();
        PBT_CHECK(r.size() == size(), "Size() is " << size() << ", the loop saw " << r.size());
        return r;
    }
    void check(const char *when) {
        std::vector<Entry> now = all();
        PBT_CHECK(now.size() == want.size(), when << ": " << now.size() << " entries, " << want.size() << " before");
        for (std::size_t i = 0; i < now.size(); i++) PBT_CHECK(equal(now[i], want[i]), when << ": entry " << i << " was " << show(want[i]) << ", is " << show(now[i]));
        at = want.size();
    }
};

void c30(pbt::Src &src, pbt::Case &c) {
    Dir dir;
    Conf cfg = gen_config(src, dir.path, 8, 2, 1);
    cfg.hist_names = {"a", "zz"}; cfg.hist_first_n = 1 + src.below(4);
    c.desc << describe(cfg) << "\n";
    c.label(backend_name(cfg.backend));
    std::list<Session> sessions;        // closed ones too: they own the buffers results refer to
    std::list<List> lists;
    struct Clean { std::list<List> &l; ~Clean() { for (auto &x : l) x.destroy(); } } clean{lists};
    bool open = false;
    GenOpts g;
    std::vector<Val> subs, preds, objs;
    for (std::size_t i = 0, n = 1 + src.below(3); i < n; i++) subs.push_back(gen_val(src, g));
    for (std::size_t i = 0, n = 1 + src.below(3); i < n; i++) preds.push_back(gen_val(src, g));
    preds.push_back(byte("a"));
    for (std::size_t i = 0; i < 4; i++) objs.push_back(gen_val(src, g));
    objs.push_back(num<double>(HXHIM_DATA_DOUBLE, 1.5));
    std::size_t survived = 0, appended = 0, outlived = 0;

    // nothing but errors without a list
    hxhim_results_destroy(nullptr);
    hxhim::Results::Destroy(nullptr);
    PBT_CHECK(hxhim_results_valid(nullptr) == HXHIM_ERROR && hxhim_results_size(nullptr, nullptr) == HXHIM_ERROR && hxhim_results_valid_iterator(nullptr) == HXHIM_ERROR &&
              hxhim_results_goto_head(nullptr) == HXHIM_ERROR && hxhim_results_goto_next(nullptr) == HXHIM_ERROR && hxhim_result_op(nullptr, nullptr) == HXHIM_ERROR &&
              hxhim_result_status(nullptr, nullptr) == HXHIM_ERROR && hxhim_result_range_server(nullptr, nullptr) == HXHIM_ERROR && hxhim_result_subject(nullptr, nullptr, nullptr, nullptr) == HXHIM_ERROR &&
              hxhim_result_predicate(nullptr, nullptr, nullptr, nullptr) == HXHIM_ERROR && hxhim_result_object(nullptr, nullptr, nullptr, nullptr) == HXHIM_ERROR &&
              hxhim_result_histogram(nullptr, nullptr, nullptr, nullptr, nullptr, nullptr) == HXHIM_ERROR, "a missing list is accepted");

    const std::size_t steps = 6 + src.below(30);
    for (std::size_t i = 0; i < steps; i++) {
        if (!open) {
            sessions.emplace_back();
            sessions.back().open(cfg);
            open = true;
            c.desc << "open\n";
        }
        Session &S = sessions.back();
        auto some = [&]() { auto it = lists.begin(); std::advance(it, src.below(lists.size())); return it; };
        switch (src.weighted({8, 6, 4, 4, 3, 3, 1, 1})) {
            case 0: {
                for (std::size_t n = several(src, 4, 400, 60); n; n--) {
                    const int kind = (int) src.weighted({5, 3, 2, 2, 2});
                    if (kind == 4) {
                        const std::string name = src.chance(1, 5) ? "other" : "a";
                        PBT_CHECK(hxhim::Histogram(&S.hx, (int) src.below(cfg.per_server), (const char *) S.arena.put(name), name.size()) == HXHIM_SUCCESS, "histogram refused");
                        c.desc << "histogram; ";
                        continue;
                    }
                    QOp q; q.kind = (Kind) kind;
                    q.s = src.pick(subs); q.p = src.pick(preds); q.o = src.pick(objs);
                    q.gop = (hxhim_getop_t) src.below(7); q.nrec = 1 + src.below(4);
                    c.desc << q << "; ";
                    PBT_CHECK(submit(S, q, src.coin()) == HXHIM_SUCCESS, q << " refused");
                }
                c.desc << "\n";
                break;
            }
            case 1: {
                lists.emplace_back();
                List &l = lists.back();
                const int f = (int) src.weighted({6, 2, 2, 2, 2, 2, 1});
                hxhim_t *hx = &S.hx;
                if (src.coin()) l.x = f == F_PUTS ? hxhim::FlushPuts(hx) : f == F_GETS ? hxhim::FlushGets(hx) : f == F_GETOPS ? hxhim::FlushGetOps(hx) : f == F_DELS ? hxhim::FlushDeletes(hx) :
                                      f == F_HISTS ? hxhim::FlushHistograms(hx) : f == F_SYNC ? hxhim::Sync(hx) : hxhim::Flush(hx);
                else l.k = f == F_PUTS ? hxhimFlushPuts(hx) : f == F_GETS ? hxhimFlushGets(hx) : f == F_GETOPS ? hxhimFlushGetOps(hx) : f == F_DELS ? hxhimFlushDeletes(hx) :
                           f == F_HISTS ? hxhimFlushHistograms(hx) : f == F_SYNC ? hxhimSync(hx) : hxhimFlush(hx);
                PBT_CHECK(l.x || (l.k && hxhim_results_valid(l.k) == HXHIM_SUCCESS), flush_name(f) << " returned no list");
                l.want = l.all();
                c.desc << flush_name(f) << (l.x ? " C++: " : " C: ") << l.want.size() << " entries\n";
                c.ops++;
                break;
            }
            case 2: if (lists.size()) { auto l = some(); l->check("later"); if (l->want.size()) survived++; } break;
            case 3: if (lists.size()) {
                // a random walk of the cursor
                auto l = some();
                for (std::size_t n = several(src, 8, 400, 30); n; n--) {
                    if (!l->placed || src.chance(1, 4)) { l->head(); l->at = 0; l->placed = true; }
                    else { l->next(); if (l->at < l->want.size()) l->at++; }
                    PBT_CHECK(l->valid() == (l->at < l->want.size()), "cursor at " << l->at << " of " << l->want.size() << " is " << (l->valid() ? "" : "not ") << "valid");
                    if (l->at < l->want.size()) PBT_CHECK(equal(l->read(), l->want[l->at]), "entry " << l->at << " was " << show(l->want[l->at]) << ", is " << show(l->read()));
                    else l->end_checks();
                }
            } break;
            case 4: if (lists.size()) {
                // move one list to the end of another
                std::vector<std::list<List>::iterator> cpp;
                for (auto it = lists.begin(); it != lists.end(); ++it) if (it->x) cpp.push_back(it);
                if (cpp.empty()) break;
                auto a = cpp[src.below(cpp.size())], b = cpp[src.below(cpp.size())];
                if (a == b) { a->x->Append(nullptr); a->check("after appending nothing"); break; }
                c.desc << "append " << b->want.size() << " to " << a->want.size() << "\n";
                if (b->want.size()) appended++;
                a->x->Append(b->x);
                a->want.insert(a->want.end(), b->want.begin(), b->want.end());
                b->want.clear();
                PBT_CHECK(b->x->Size() == 0, "the appended list keeps " << b->x->Size() << " entries");
                a->placed = b->placed = false;
                if (src.coin()) b->check("appended list");
                if (src.chance(1, 3)) { b->destroy(); lists.erase(b); }
                a->check("after Append");
            } break;
            case 5: if (lists.size()) { auto l = some(); c.desc << "destroy " << l->want.size() << "\n"; l->destroy(); lists.erase(l); } break;
            case 6: {
                c.desc << "close\n";
                PBT_CHECK(hxhim::Close(&S.hx) == HXHIM_SUCCESS, "Close failed");
                S.open_ = false; open = false;
                for (auto &l : lists) if (l.want.size()) outlived++;
                break;
            }
            default: for (auto &l : lists) { l.check("all"); if (l.want.size()) survived++; }
        }
    }
    if (open) { hxhim::Close(&sessions.back().hx); sessions.back().open_ = false; }
    for (auto &l : lists) { l.check("after Close"); if (l.want.size()) outlived++; }
    c.label("lists that outlived their instance", outlived);
    c.label("appended", appended);
    c.nontrivial = survived >= 1 && outlived >= 1;
}

pbt::Reg r30("C30", "6-35 steps that queue operations, take result lists (C or C++), read them again, walk their cursor, append and destroy them, close and reopen the instance; every list must keep the entries, addresses and contents it had when it was returned. Non-trivial: a non-empty list was read again later and one outlived its instance.",
    c30, 6000, 200000);

// ------------------------------------------------------------------- C31

typedef ::Stats::Chronopoint Time;

void c31(pbt::Src &src, pbt::Case &c) {
    Dir dir;
    Session S;
    Conf cfg = gen_config(src, dir.path, 10, 1, 1);
    cfg.hash = "";
    if (src.chance(1, 4)) cfg.async_at = 1 + src.below(4);
    c.desc << describe(cfg) << "\n";
    const Time before = ::Stats::now();
    S.open(cfg);
    const Time opened = ::Stats::now();
    auto ns = [](Time a, Time b) { return std::chrono::duration_cast<std::chrono::nanoseconds>(b - a).count(); };
    Time epoch;
    PBT_CHECK(hxhim::GetEpoch(&S.hx, epoch) == HXHIM_SUCCESS, "no epoch");
    // one epoch per process, taken when its first instance was opened
    static Time first_epoch;
    static bool known = false;
    PBT_CHECK(known ? epoch == first_epoch : (before <= epoch && epoch <= opened),
              "the epoch is not the time the first instance was opened: " << ns(before, epoch) << " ns after it started, " << ns(epoch, opened) << " ns before it was done");
    first_epoch = epoch; known = true;
    for (int i = 0; i < 2; i++) {
        struct timespec ts;
        PBT_CHECK((i ? hxhimGetEpoch(&S.hx, &ts) : hxhim::GetEpoch(&S.hx, &ts)) == HXHIM_SUCCESS, "no epoch");
        const std::int64_t n = std::chrono::duration_cast<std::chrono::nanoseconds>(epoch.time_since_epoch()).count();
        PBT_CHECK(ts.tv_sec == n / 1000000000 && ts.tv_nsec == n % 1000000000, "the two forms of the epoch differ");
    }
    GenOpts g;
    std::vector<Val> subs, preds, objs;
    for (std::size_t i = 0, n = 1 + src.below(3); i < n; i++) { subs.push_back(gen_val(src, g)); preds.push_back(gen_val(src, g)); objs.push_back(gen_val(src, g)); }
    struct Sent { Time from, to; };
    std::map<std::pair<int, std::size_t>, std::deque<Sent>> sent;     // (op, datastore) -> in queue order
    std::size_t seen = 0;
    const hxhim_op_t ops[] = {HXHIM_PUT, HXHIM_GET, HXHIM_GETOP, HXHIM_DELETE};
    for (std::size_t i = 0, steps = 1 + src.below(6); i < steps; i++) {
        for (std::size_t groups = 1 + src.below(5); groups; groups--) {
            const Kind k = (Kind) src.weighted({4, 3, 2, 2});
            std::vector<QOp> qs;
            for (std::size_t n = several(src, 4, 200, 40); n; n--) {
                QOp q; q.kind = k; q.s = src.pick(subs); q.p = src.pick(preds); q.o = src.pick(objs);
                if (k == K_PUT && src.coin()) q.perms = (hxhim_put_permutation_t) src.below(64);
                q.gop = HXHIM_GETOP_EQ; q.nrec = 1;
                qs.push_back(q);
            }
            const bool bulk = src.coin();
            auto note = [&](const QOp &q, Time a, Time b) {
                if (q.kind != K_PUT) sent[{ops[k], spread(q.s, q.p, cfg.per_server)}].push_back({a, b});
                else for (auto const &e : expand(q)) sent[{HXHIM_PUT, spread(e.first.first, e.first.second, cfg.per_server)}].push_back({a, b});
            };
            Time a = ::Stats::now();
            if (bulk) PBT_CHECK(submit_bulk(S, qs, false) == HXHIM_SUCCESS, "refused");
            for (QOp &q : qs) {
                c.desc << (bulk ? "bulk " : "") << q << "; ";
                if (!bulk) { a = ::Stats::now(); PBT_CHECK(submit(S, q, false) == HXHIM_SUCCESS, "refused"); }
                note(q, a, ::Stats::now());
            }
        }
        c.desc << "\n";
        const bool sync = src.chance(1, 6);
        const Time fa = ::Stats::now();
        hxhim::Results *res = sync ? hxhim::Sync(&S.hx) : hxhim::Flush(&S.hx);
        const Time fb = ::Stats::now();
        struct Free { hxhim::Results *r; ~Free() { hxhim::Results::Destroy(r); } } fr{res};
        std::size_t syncs = 0;
        HXHIM_CXX_RESULTS_LOOP(res) {
            hxhim_op_t op; int ds;
            PBT_CHECK(res->Op(&op) == HXHIM_SUCCESS && res->RangeServer(&ds) == HXHIM_SUCCESS, "accessors");
            struct hxhim::Result::Timestamps *t = nullptr;
            PBT_CHECK(res->Timestamps(nullptr) == HXHIM_SUCCESS && res->Timestamps(&t) == HXHIM_SUCCESS && t, "no timestamps");
            std::vector<std::pair<const char *, Time>> chain;
            if (op == HXHIM_SYNC) {
                PBT_CHECK(fa <= t->send.hash.start && t->recv.result.end <= fb, "a SYNC did not happen during Sync");
                syncs++;
                continue;
            }
            auto &q = sent[{op, (std::size_t) ds}];
            PBT_CHECK(q.size(), "a result of op " << op << " from datastore " << ds << " that was not queued");
            const Sent s = q.front(); q.pop_front();
            chain = {{"submission", s.from}, {"hash.start", t->send.hash.start}, {"hash.end", t->send.hash.end}, {"insert.start", t->send.insert.start}, {"insert.end", t->send.insert.end}, {"return of the call", s.to}};
            auto follow = [&]() {
                for (std::size_t j = 1; j < chain.size(); j++)
                    PBT_CHECK(chain[j - 1].second <= chain[j].second, "op " << op << " of datastore " << ds << ": " << chain[j].first << " is " << ns(chain[j].second, chain[j - 1].second) << " ns before " << chain[j - 1].first);
            };
            follow();
            chain = {{"insert.end", t->send.insert.end}, {"transport.start", t->transport.start}, {"pack.start", t->transport.pack.start}, {"pack.end", t->transport.pack.end}, {"send_start", t->transport.send_start},
                     {"recv_end", t->transport.recv_end}, {"unpack.start", t->transport.unpack.start}, {"unpack.end", t->transport.unpack.end}, {"cleanup_rpc.start", t->transport.cleanup_rpc.start},
                     {"cleanup_rpc.end", t->transport.cleanup_rpc.end}, {"transport.end", t->transport.end}, {"result.start", t->recv.result.start}, {"result.end", t->recv.result.end}, {"end of the flush", fb}};
            follow();
            if (!(op == HXHIM_PUT && cfg.async_at)) PBT_CHECK(fa <= t->transport.start, "op " << op << " went out before the flush");
            if (t->alloc) PBT_CHECK(s.from >= epoch && epoch <= t->alloc->start && t->alloc->start <= t->alloc->end && t->alloc->end <= t->transport.start, "allocation of the packet");
            seen++;
        }
        for (auto const &q : sent) PBT_CHECK(q.second.empty(), q.second.size() << " operations without a result");
        PBT_CHECK(syncs == (sync ? cfg.per_server : 0), syncs << " SYNC results");
        c.ops++;
    }
    c.nontrivial = seen >= 3;
    S.close();
}

pbt::Reg r31("C31", "1-6 flushes of random operations (single, bulk, permutations, asynchronous PUTs) on random layouts and limits; the timestamps of every result must lie between submission and return of its own call, then in order up to the end of the flush. Non-trivial: three or more results.",
    c31, 8000, 200000);

}
