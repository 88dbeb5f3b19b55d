// The reference model of ordered scans: a map sorted by encoded key.
#ifndef VERIF_SCANMODEL_HPP
#define VERIF_SCANMODEL_HPP
#include "hist.hpp"
#include "utils/elen.hpp"

namespace hxt {

// the documented order: encoded subject, encoded predicate, 0xff, then lengths and types
inline std::string default_enc(const Val &v) {
    switch (v.type) {
        case HXHIM_DATA_INT32:  return elen::encode::integers(as<std::int32_t>(v));
        case HXHIM_DATA_INT64:  return elen::encode::integers(as<std::int64_t>(v));
        case HXHIM_DATA_UINT32: return elen::encode::integers(as<std::uint32_t>(v));
        case HXHIM_DATA_UINT64: return elen::encode::integers(as<std::uint64_t>(v));
        case HXHIM_DATA_FLOAT:  return elen::encode::floating_point(as<float>(v), elen::encode::FLOAT_PRECISION);
        case HXHIM_DATA_DOUBLE: return elen::encode::floating_point(as<double>(v), elen::encode::DOUBLE_PRECISION);
        default: return v.bytes;
    }
}

struct Triple { Val s, p, o; };
typedef std::map<std::string, Triple> Store;
inline bool numeric(hxhim_data_t t) { return t != HXHIM_DATA_BYTE && t != HXHIM_DATA_POINTER; }

struct Want {
    std::vector<const Triple *> recs;     // expected records, in order
    bool may_fail = false;                // an ERROR is acceptable as well
    bool free_form = false;               // only the shape is checked
};

struct ScanModel {
    std::function<std::string(const Val &)> enc = default_enc;

    std::string key_of(const Val &s, const Val &p) const {
        const std::string a = enc(s), b = enc(p);
        std::string k = a + b + "\xff";
        auto le = [&](std::uint64_t n) { for (int i = 0; i < 8; i++) k += (char) (n >> (8 * i)); };
        le(a.size()); le(b.size());
        k += (char) s.type; k += (char) p.type;
        return k;
    }
    Want expect(const Store &db, const QOp &q) const {
        Want w;
        const std::string prefix = enc(q.s) + (q.null_pred ? std::string() : enc(q.p));
        auto has = [&](Store::const_iterator it) { return it->first.compare(0, prefix.size(), prefix) == 0; };
        const Store::const_iterator lb = db.lower_bound(prefix);
        std::vector<const Triple *> in;       // keys with the prefix
        for (auto it = lb; it != db.end() && has(it); ++it) in.push_back(&it->second);
        auto back = [&](Store::const_iterator it) {   // from it towards the front
            for (std::size_t j = 0; j < q.nrec; j++) { w.recs.push_back(&it->second); if (it == db.begin()) break; --it; }
        };
        switch (q.gop) {
            case HXHIM_GETOP_EQ: if (in.size()) w.recs.push_back(in[0]); break;
            case HXHIM_GETOP_NEXT:
                for (auto it = lb; it != db.end() && w.recs.size() < q.nrec; ++it) w.recs.push_back(&it->second);
                w.may_fail = in.empty();
                break;
            case HXHIM_GETOP_PREV:
                if (lb != db.end()) back(lb);
                w.may_fail = in.empty();
                break;
            case HXHIM_GETOP_FIRST:
                for (auto it = db.begin(); it != db.end() && w.recs.size() < q.nrec; ++it) w.recs.push_back(&it->second);
                break;
            case HXHIM_GETOP_LAST: if (!db.empty()) back(std::prev(db.end())); break;
            case HXHIM_GETOP_LOWEST:
                for (auto const *t : in) if (w.recs.size() < q.nrec) w.recs.push_back(t);
                break;
            case HXHIM_GETOP_HIGHEST:
                for (auto it = in.rbegin(); it != in.rend() && w.recs.size() < q.nrec; ++it) w.recs.push_back(*it);
                break;
            default: break;
        }
        if (q.null_pred && numeric(q.p.type) && (q.gop == HXHIM_GETOP_LOWEST || q.gop == HXHIM_GETOP_HIGHEST)) {
            // "the lowest number": meaningful when every predicate with this prefix is a number of that kind
            for (auto const *t : in) if (t->s != q.s || !numeric(t->p.type)) w.free_form = true;
        }
        if (q.gop != HXHIM_GETOP_EQ && q.nrec == 0) { w.recs.clear(); w.may_fail = true; }
        return w;
    }

    // consumes the records of one scan from rs, starting at pos
    static void match(const std::vector<Rec> &rs, std::size_t &pos, const QOp &q, const Want &w) {
        PBT_CHECK(pos < rs.size(), q << ": no result");
        if (rs[pos].status != HXHIM_SUCCESS) {
            PBT_CHECK(rs[pos].status == HXHIM_ERROR, q << ": status " << rs[pos].status);
            PBT_CHECK(w.recs.empty() || w.may_fail || w.free_form, q << " failed, " << w.recs.size() << " records were expected, the first being (" << w.recs[0]->s << ", " << w.recs[0]->p << ")");
            PBT_CHECK(rs[pos].s == q.s, q << " failed and names subject " << rs[pos].s);
            if (!q.null_pred) PBT_CHECK(rs[pos].p == q.p, q << " failed and names predicate " << rs[pos].p);
            pos++;
            return;
        }
        if (w.free_form) { PBT_FAIL("free form scan not run alone"); }
        PBT_CHECK(w.recs.size() || q.nrec == 0, q << " returned " << rs[pos] << ", nothing was expected");
        if (w.recs.empty()) { pos++; return; }
        for (std::size_t j = 0; j < w.recs.size(); j++) {
            PBT_CHECK(pos < rs.size(), q << ": " << j << " records, expected " << w.recs.size());
            const Rec &r = rs[pos++];
            PBT_CHECK(r.status == HXHIM_SUCCESS, q << " record " << j << " failed");
            PBT_CHECK(same(r.s, w.recs[j]->s) && same(r.p, w.recs[j]->p), q << " record " << j << ": " << r << ", expected (" << w.recs[j]->s << ", " << w.recs[j]->p << ")");
            PBT_CHECK(same(r.o, w.recs[j]->o), q << " record " << j << ": " << r << ", expected value " << w.recs[j]->o);
        }
    }
};

}
#endif
