// Random operation histories over the public API, with every call form.
#ifndef VERIF_HIST_HPP
#define VERIF_HIST_HPP
#include "hx.hpp"

namespace hxt {

enum Kind { K_PUT, K_GET, K_GETOP, K_DEL };

struct QOp {
    Kind kind;
    Val s, p, o;                    // o: PUT only
    hxhim_data_t want = HXHIM_DATA_BYTE;
    hxhim_put_permutation_t perms = HXHIM_PUT_SPO;
    std::size_t nrec = 0;
    hxhim_getop_t gop = HXHIM_GETOP_EQ;
    bool null_pred = false;         // GETOP with a NULL predicate
    void *sp = nullptr, *pp = nullptr;
};

inline std::ostream &operator<<(std::ostream &o, const QOp &q) {
    static const char *g[] = {"EQ", "NEXT", "PREV", "FIRST", "LAST", "LOWEST", "HIGHEST", "INVALID"};
    switch (q.kind) {
        case K_PUT: o << "put(" << q.s << ", " << q.p << ", " << q.o << ")"; if (q.perms != HXHIM_PUT_SPO) o << " perms=" << q.perms; return o;
        case K_GET: return o << "get(" << q.s << ", " << q.p << ")";
        case K_DEL: return o << "del(" << q.s << ", " << q.p << ")";
        case K_GETOP: o << "getop(" << g[q.gop] << " " << q.nrec << " "; o << q.s << ", "; if (q.null_pred) o << "NULL"; else o << q.p; return o << ")";
    }
    return o;
}

inline void *maybe(Session &S, const Val &v, bool null = false) { return null ? nullptr : S.arena.put(v.bytes); }

// submit one operation through the single-operation form
inline int submit(Session &S, QOp &q, bool c_api) {
    void *s = q.sp = maybe(S, q.s), *p = q.pp = maybe(S, q.p, q.null_pred);
    const std::size_t sl = q.s.bytes.size(), pl = q.null_pred ? 0 : q.p.bytes.size();
    hxhim_t *hx = &S.hx;
    switch (q.kind) {
        case K_PUT: {
            void *o = maybe(S, q.o);
            return c_api ? hxhimPut(hx, s, sl, q.s.type, p, pl, q.p.type, o, q.o.bytes.size(), q.o.type, q.perms)
                         : hxhim::Put(hx, s, sl, q.s.type, p, pl, q.p.type, o, q.o.bytes.size(), q.o.type, q.perms);
        }
        case K_GET:
            return c_api ? hxhimGet(hx, s, sl, q.s.type, p, pl, q.p.type, q.want) : hxhim::Get(hx, s, sl, q.s.type, p, pl, q.p.type, q.want);
        case K_DEL:
            return c_api ? hxhimDelete(hx, s, sl, q.s.type, p, pl, q.p.type) : hxhim::Delete(hx, s, sl, q.s.type, p, pl, q.p.type);
        case K_GETOP:
            return c_api ? hxhimGetOp(hx, s, sl, q.s.type, p, pl, q.p.type, q.want, q.nrec, q.gop)
                         : hxhim::GetOp(hx, s, sl, q.s.type, p, pl, q.p.type, q.want, q.nrec, q.gop);
    }
    return HXHIM_ERROR;
}

// submit several operations of one kind through the bulk form
inline int submit_bulk(Session &S, std::vector<QOp> &qs, bool c_api) {
    const std::size_t n = qs.size();
    std::vector<void *> s(n), p(n), o(n);
    std::vector<std::size_t> sl(n), pl(n), ol(n), nr(n);
    std::vector<hxhim_data_t> st(n), pt(n), ot(n);
    std::vector<hxhim_put_permutation_t> pm(n);
    std::vector<hxhim_getop_t> go(n);
    for (std::size_t i = 0; i < n; i++) {
        QOp &q = qs[i];
        s[i] = q.sp = maybe(S, q.s); sl[i] = q.s.bytes.size(); st[i] = q.s.type;
        p[i] = q.pp = maybe(S, q.p, q.null_pred); pl[i] = q.null_pred ? 0 : q.p.bytes.size(); pt[i] = q.p.type;
        if (q.kind == K_PUT) { o[i] = maybe(S, q.o); ol[i] = q.o.bytes.size(); ot[i] = q.o.type; }
        else ot[i] = q.want;
        pm[i] = q.perms; nr[i] = q.nrec; go[i] = q.gop;
    }
    hxhim_t *hx = &S.hx;
    switch (qs[0].kind) {
        case K_PUT:
            return c_api ? hxhimBPut(hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), o.data(), ol.data(), ot.data(), pm.data(), n)
                         : hxhim::BPut(hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), o.data(), ol.data(), ot.data(), pm.data(), n);
        case K_GET:
            return c_api ? hxhimBGet(hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), ot.data(), n)
                         : hxhim::BGet(hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), ot.data(), n);
        case K_DEL:
            return c_api ? hxhimBDelete(hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), n)
                         : hxhim::BDelete(hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), n);
        case K_GETOP:
            return c_api ? hxhimBGetOp(hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), ot.data(), nr.data(), go.data(), n)
                         : hxhim::BGetOp(hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), ot.data(), nr.data(), go.data(), n);
    }
    return HXHIM_ERROR;
}

enum FlushKind { F_ALL, F_PUTS, F_GETS, F_GETOPS, F_DELS, F_HISTS, F_SYNC };
inline const char *flush_name(int f) { static const char *n[] = {"Flush", "FlushPuts", "FlushGets", "FlushGetOps", "FlushDeletes", "FlushHistograms", "Sync"}; return n[f]; }
inline std::vector<Rec> flush(Session &S, int f, bool c_api) {
    hxhim_t *hx = &S.hx;
    switch (f) {
        case F_PUTS: return c_api ? drain(hxhimFlushPuts(hx)) : drain(hxhim::FlushPuts(hx));
        case F_GETS: return c_api ? drain(hxhimFlushGets(hx)) : drain(hxhim::FlushGets(hx));
        case F_GETOPS: return c_api ? drain(hxhimFlushGetOps(hx)) : drain(hxhim::FlushGetOps(hx));
        case F_DELS: return c_api ? drain(hxhimFlushDeletes(hx)) : drain(hxhim::FlushDeletes(hx));
        case F_HISTS: return c_api ? drain(hxhimFlushHistograms(hx)) : drain(hxhim::FlushHistograms(hx));
        case F_SYNC: return c_api ? drain(hxhimSync(hx)) : drain(hxhim::Sync(hx));
        default: return c_api ? drain(hxhimFlush(hx)) : drain(hxhim::Flush(hx));
    }
}

// logging is not supposed to change anything (the log goes to the worker's stderr)
inline int gen_debug(pbt::Src &s) {
    if (!s.chance(1, 16)) return MLOG_EMERG;
    static const std::vector<int> levels = {MLOG_WARN, MLOG_DBG3, MLOG_INFO, MLOG_ERR};
    return s.pick(levels);
}

inline Conf gen_config(pbt::Src &s, const std::string &dir, unsigned mem = 8, unsigned level = 3, unsigned rocks = 1) {
    Conf c;
    c.backend = (int) s.weighted({mem, level, rocks});
    c.per_server = 1 + s.below(c.backend == MEM ? 4 : 2);
    static const std::vector<std::string> hashes = {"", "SUM_MOD_DATASTORES", "UTHASH_FNV", "UTHASH_JEN", "DATASTORE_0"};
    c.hash = s.chance(1, 3) ? s.pick(hashes) : std::string();
    static const std::vector<std::size_t> ops = {1, 2, 3, 5, 50, 128, 500};
    static const std::vector<std::size_t> size = {0, 1, 70, 200, 1000, 0, 1048576};
    c.max_ops = s.pick(ops);
    c.max_size = s.pick(size);
    c.prefix = dir;
    c.debug = gen_debug(s);
    return c;
}

typedef std::pair<Val, Val> Key;
typedef std::map<Key, Val> Model;

// every (key, value) a PUT with a permutation mask stores, in queue order
inline std::vector<std::pair<Key, Val>> expand(const QOp &q) {
    std::vector<std::pair<Key, Val>> r;
    if (q.perms & HXHIM_PUT_SPO) r.push_back({{q.s, q.p}, q.o});
    if (q.perms & HXHIM_PUT_SOP) r.push_back({{q.s, q.o}, q.p});
    if (q.perms & HXHIM_PUT_PSO) r.push_back({{q.p, q.s}, q.o});
    if (q.perms & HXHIM_PUT_POS) r.push_back({{q.p, q.o}, q.s});
    if (q.perms & HXHIM_PUT_OSP) r.push_back({{q.o, q.s}, q.p});
    if (q.perms & HXHIM_PUT_OPS) r.push_back({{q.o, q.p}, q.s});
    return r;
}

}
#endif
