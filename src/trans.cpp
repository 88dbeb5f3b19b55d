// C28 transform functions
#include "scanmodel.hpp"

using namespace hxt;

namespace {

enum Shape { COPY, XOR, REVERSE, HEX, FRAME, SHAPES };
const char *shape_names[] = {"copy", "xor", "reverse", "hex", "frame"};

struct Trans;

// the size of a number; other types have any size
std::size_t size_of(hxhim_data_t t) {
    switch (t) {
        case HXHIM_DATA_INT32: case HXHIM_DATA_UINT32: case HXHIM_DATA_FLOAT: return 4;
        case HXHIM_DATA_INT64: case HXHIM_DATA_UINT64: case HXHIM_DATA_DOUBLE: return 8;
        default: return 0;
    }
}
bool number(const Val &v) { return size_of(v.type) != 0; }

// what the extra pointer of one callback points to
struct Extra {
    std::uint64_t magic = 0x7ab1e5;
    Trans *t = nullptr;
    bool encodes = false;
};

struct Trans {
    hxhim_data_t type = HXHIM_DATA_INVALID;
    bool plain = false;                    // NULL functions
    int shape = COPY;
    unsigned char key = 0;
    int enc_fail = 0, dec_fail = 0;        // 0: never, else the last byte of the value, modulo this, is 1
    Extra ee, de;
    std::set<std::string> may_encode, may_decode;
    std::size_t encoded = 0, decoded = 0;

    static bool hit(int m, const std::string &v) { return m && v.size() && (unsigned char) v.back() % m == 1; }
    bool can_encode(const std::string &v) const { return !hit(enc_fail, v); }
    bool can_decode(const std::string &v) const { return !hit(dec_fail, v); }

    std::string enc(const std::string &v) const {
        std::string r;
        switch (plain ? COPY : shape) {
            case XOR: for (char c : v) r += (char) (c ^ key); return r;
            case REVERSE: r.assign(v.rbegin(), v.rend()); return r;
            case HEX: for (unsigned char c : v) { r += "0123456789abcdef"[c >> 4]; r += "0123456789abcdef"[c & 15]; } return r;
            case FRAME: return std::string("<") + v + std::string("\0>", 2);
            default: return v;
        }
    }
    std::string dec(const std::string &e) const {
        std::string r;
        switch (plain ? COPY : shape) {
            case XOR: for (char c : e) r += (char) (c ^ key); return r;
            case REVERSE: r.assign(e.rbegin(), e.rend()); return r;
            case HEX: for (std::size_t i = 0; i + 1 < e.size(); i += 2) {
                auto d = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
                r += (char) (d(e[i]) * 16 + d(e[i + 1]));
            } return r;
            case FRAME: return e.size() >= 3 ? e.substr(1, e.size() - 3) : std::string();
            default: return e;
        }
    }
};

std::string trouble;                       // what a callback noticed
void complain(const std::string &s) { if (trouble.empty()) trouble = s; }

int give(const std::string &v, void **dst, size_t *dst_size) {
    *dst = ::operator new(v.size());
    if (v.size()) memcpy(*dst, v.data(), v.size());
    *dst_size = v.size();
    return HXHIM_SUCCESS;
}

int on_encode(void *src, const size_t n, void **dst, size_t *dst_size, void *extra) {
    Extra *x = (Extra *) extra;
    if (!x || x->magic != 0x7ab1e5 || !x->encodes) { complain("an encode function did not get its own argument"); return HXHIM_ERROR; }
    Trans &t = *x->t;
    const std::string v = n ? std::string((const char *) src, n) : std::string();
    t.encoded++;
    if (!t.may_encode.count(v)) complain("type " + std::to_string((int) t.type) + " was asked to encode " + hex(v) + ", which nobody passed");
    if (!t.can_encode(v)) return HXHIM_ERROR;
    return give(t.enc(v), dst, dst_size);
}
int on_decode(void *src, const size_t n, void **dst, size_t *dst_size, void *extra) {
    Extra *x = (Extra *) extra;
    if (!x || x->magic != 0x7ab1e5 || x->encodes) { complain("a decode function did not get its own argument"); return HXHIM_ERROR; }
    Trans &t = *x->t;
    const std::string e = n ? std::string((const char *) src, n) : std::string();
    t.decoded++;
    if (!t.may_decode.count(e)) complain("type " + std::to_string((int) t.type) + " was asked to decode " + hex(e) + ", which it did not encode");
    const std::string v = t.dec(e);
    if (!t.can_decode(v)) return HXHIM_ERROR;
    return give(v, dst, dst_size);
}

void c28(pbt::Src &src, pbt::Case &c) {
    Dir dir;
    trouble.clear();
    static const hxhim_data_t types[] = {HXHIM_DATA_INT32, HXHIM_DATA_INT64, HXHIM_DATA_UINT32, HXHIM_DATA_UINT64, HXHIM_DATA_FLOAT, HXHIM_DATA_DOUBLE, HXHIM_DATA_BYTE, HXHIM_DATA_POINTER};
    std::map<hxhim_data_t, Trans> custom;
    const bool fails = src.chance(1, 3);
    for (hxhim_data_t t : types) {
        if (!src.chance(1, 2)) continue;
        Trans &x = custom[t];
        x.type = t;
        x.plain = src.chance(1, 6);
        x.shape = (int) src.below(SHAPES);
        x.key = (unsigned char) (1 + src.below(255));
        if (fails && !x.plain && src.coin()) (src.coin() ? x.enc_fail : x.dec_fail) = 2 + (int) src.below(3);
        x.ee.t = x.de.t = &x; x.ee.encodes = true;
        c.desc << "type " << (int) t << ": " << (x.plain ? "none" : shape_names[x.shape]);
        if (x.enc_fail) c.desc << " encode fails " << x.enc_fail;
        if (x.dec_fail) c.desc << " decode fails " << x.dec_fail;
        c.desc << "; ";
    }
    // types of the user's own: the ones with functions work, the others cannot be encoded
    std::vector<hxhim_data_t> own;
    if (src.chance(1, 3)) {
        for (std::size_t n = 1 + src.below(3); n; n--) {
            const hxhim_data_t t = (hxhim_data_t) (HXHIM_DATA_MAX_KNOWN + 1 + src.below(5));
            own.push_back(t);
            if (custom.count(t) || src.chance(1, 5)) continue;
            Trans &x = custom[t];
            x.type = t;
            x.plain = src.chance(1, 4);
            x.shape = (int) src.below(SHAPES);
            x.key = (unsigned char) (1 + src.below(255));
            x.ee.t = x.de.t = &x; x.ee.encodes = true;
            c.desc << "own type " << (int) t << ": " << (x.plain ? "none" : shape_names[x.shape]) << "; ";
        }
        c.label("types of the user's own");
    }
    // how default numbers are written
    char neg = elen::NEG_SYMBOL, pos = elen::POS_SYMBOL;
    std::size_t fp = elen::encode::FLOAT_PRECISION, dp = elen::encode::DOUBLE_PRECISION;
    const bool numbers = src.chance(1, 3);
    if (numbers) {
        neg = (char) (1 + src.below('0' - 1)); pos = (char) ('9' + 1 + src.below(255 - '9'));
        fp = 8 + src.below(5); dp = fp + 1 + src.below(8);
        c.desc << "numbers " << (int) neg << "/" << (int) (unsigned char) pos << " precision " << fp << "/" << dp << "; ";
    }
    Conf cfg = gen_config(src, dir.path, 6, 3, 1);
    cfg.hash = "";
    cfg.extra = [&](hxhim_t *hx) {
        if (numbers) PBT_CHECK(hxhim_set_transform_numeric_values(hx, neg, pos, fp, dp) == HXHIM_SUCCESS, "numeric values refused");
        for (auto &x : custom) {
            Trans &t = x.second;
            PBT_CHECK(hxhim_set_transform_function(hx, t.type, t.plain ? nullptr : on_encode, t.plain ? nullptr : &t.ee, t.plain ? nullptr : on_decode, t.plain ? nullptr : &t.de) == HXHIM_SUCCESS, "transform refused");
        }
    };
    c.desc << describe(cfg) << "\n";
    c.label(backend_name(cfg.backend));
    if (fails) c.label("failing callbacks");

    auto custom_of = [&](const Val &v) -> Trans * { auto it = custom.find(v.type); return it == custom.end() ? nullptr : &it->second; };
    ScanModel model;
    model.enc = [&](const Val &v) -> std::string {
        if (Trans *t = custom_of(v)) return t->enc(v.bytes);
        if (number(v) && v.bytes.size() != size_of(v.type)) return v.bytes;      // never stored
        switch (v.type) {
            case HXHIM_DATA_INT32:  return elen::encode::integers(as<std::int32_t>(v), neg, pos);
            case HXHIM_DATA_INT64:  return elen::encode::integers(as<std::int64_t>(v), neg, pos);
            case HXHIM_DATA_UINT32: return elen::encode::integers(as<std::uint32_t>(v), neg, pos);
            case HXHIM_DATA_UINT64: return elen::encode::integers(as<std::uint64_t>(v), neg, pos);
            case HXHIM_DATA_FLOAT:  return elen::encode::floating_point(as<float>(v), (int) fp, neg, pos);
            case HXHIM_DATA_DOUBLE: return elen::encode::floating_point(as<double>(v), (int) dp, neg, pos);
            default: return v.bytes;
        }
    };
    auto can_encode = [&](const Val &v) { Trans *t = custom_of(v); return t ? t->can_encode(v.bytes) : v.type == HXHIM_DATA_BYTE || v.type == HXHIM_DATA_POINTER || (number(v) && v.bytes.size() == size_of(v.type)); };
    auto can_decode = [&](const Val &v) { Trans *t = custom_of(v); return !t || t->can_decode(v.bytes); };
    auto known = [&](const Val &v) { if (Trans *t = custom_of(v)) { t->may_encode.insert(v.bytes); t->may_decode.insert(t->enc(v.bytes)); } };
    // a NULL predicate is given to its type's encode function as an empty value
    const bool null_ok = !custom.count(HXHIM_DATA_BYTE) || (custom[HXHIM_DATA_BYTE].shape != FRAME || custom[HXHIM_DATA_BYTE].plain);

    GenOpts g; g.big = src.chance(1, 4);
    std::vector<Val> subs, preds, objs;
    for (std::size_t i = 0, n = 1 + src.below(4); i < n; i++) subs.push_back(gen_val(src, g));
    for (std::size_t i = 0, n = 1 + src.below(4); i < n; i++) preds.push_back(gen_val(src, g));
    for (std::size_t i = 0, n = 1 + src.below(4); i < n; i++) objs.push_back(gen_val(src, g));
    if (own.size()) {
        auto some = [&](std::vector<Val> &vs) { for (Val &v : vs) if (src.chance(1, 2)) { v.bytes = gen_bytes(src); v.type = src.pick(own); } };
        some(subs); some(preds); some(objs);
    }
    // numbers of the wrong size: only a user function can do something with them
    if (src.chance(1, 5)) {
        auto some = [&](std::vector<Val> &vs) { for (Val &v : vs) if (number(v) && src.chance(1, 2)) v.bytes.resize(1 + src.below(9)); };
        some(subs); some(preds); some(objs);
        c.label("numbers of any size");
    }
    // an uncustomised float keeps its documented digits only, also as part of a key
    std::vector<Store> db(cfg.per_server);
    std::size_t kept = 0, refused = 0;
    Session *S = nullptr;
    struct Owner { Session *&s; ~Owner() { delete s; } } owner{S};
    auto reopen = [&]() { if (S) { S->close(); delete S; S = nullptr; c.label("reopened"); } S = new Session; S->open(cfg); };
    reopen();
    const std::size_t steps = 1 + src.below(8);
    for (std::size_t step = 0; step < steps; step++) {
        if (step && cfg.backend != MEM && src.chance(1, 5)) { c.desc << "reopen\n"; reopen(); }
        const Kind k = (Kind) src.weighted({5, 3, 3, 1});
        std::vector<QOp> qs;
        for (std::size_t n = 1 + src.below(6); n; n--) {
            QOp q; q.kind = k; q.s = src.pick(subs); q.p = src.pick(preds); q.o = src.pick(objs);
            if (k == K_PUT && src.chance(1, 3)) q.perms = (hxhim_put_permutation_t) src.below(64);
            q.want = src.pick(objs).type;
            if (k == K_GETOP) {
                q.gop = (hxhim_getop_t) src.below(7);
                q.nrec = std::vector<std::size_t>{1, 2, 4, 50}[src.below(4)];
                if (null_ok && src.chance(1, 4)) { q.null_pred = true; q.p = Val(); q.p.type = HXHIM_DATA_BYTE; }
            }
            known(q.s); known(q.p); if (k == K_PUT) known(q.o);
            qs.push_back(q);
            c.desc << q << "; ";
        }
        if (qs.empty()) continue;
        c.desc << "\n";
        const bool bulk = src.coin(), c_api = src.coin();
        if (bulk) PBT_CHECK(submit_bulk(*S, qs, c_api) == HXHIM_SUCCESS, "bulk refused");
        else for (QOp &q : qs) PBT_CHECK(submit(*S, q, c_api) == HXHIM_SUCCESS, q << " refused");
        const std::vector<Rec> all = flush(*S, F_ALL, c_api);
        std::vector<std::vector<Rec>> rs(cfg.per_server);
        for (Rec const &r : all) {
            PBT_CHECK(r.rs >= 0 && (std::size_t) r.rs < cfg.per_server, r << " from datastore " << r.rs);
            rs[r.rs].push_back(r);
        }
        PBT_CHECK(trouble.empty(), trouble);
        std::vector<std::size_t> at(cfg.per_server);
        auto next = [&](const Val &s, const Val &p, const QOp &q) -> const Rec & {
            const std::size_t d = spread(s, p, cfg.per_server);
            PBT_CHECK(at[d] < rs[d].size(), q << ": no result from datastore " << d);
            const Rec &r = rs[d][at[d]++];
            PBT_CHECK(r.s == s && r.p == p, q << ": result of " << r << " instead");
            return r;
        };
        for (QOp const &q : qs) {
            c.ops++;
            auto note = [&](bool ok) { (ok ? kept : refused)++; };
            if (k == K_PUT) {
                for (auto const &e : expand(q)) {
                    const bool ok = can_encode(e.first.first) && can_encode(e.first.second) && can_encode(e.second);
                    const Rec &r = next(e.first.first, e.first.second, q);
                    PBT_CHECK(r.status == (ok ? HXHIM_SUCCESS : HXHIM_ERROR), r << (ok ? ": everything can be encoded" : ": something cannot be encoded"));
                    if (ok) db[spread(r.s, r.p, cfg.per_server)][model.key_of(r.s, r.p)] = Triple{r.s, r.p, e.second};
                    note(ok);
                }
                continue;
            }
            Store &m = db[spread(q.s, q.p, cfg.per_server)];
            if (k == K_GETOP) {
                const std::size_t d = spread(q.s, q.p, cfg.per_server);
                const bool ends = q.gop == HXHIM_GETOP_FIRST || q.gop == HXHIM_GETOP_LAST;
                Want w;
                bool must_fail = !ends && (!can_encode(q.s) || (!q.null_pred && !can_encode(q.p)));
                if (!must_fail) {
                    w = model.expect(m, q);
                    if (w.may_fail && w.recs.size()) w.may_fail = true;
                    for (auto const *t : w.recs) if (!can_decode(t->s) || !can_decode(t->p) || !can_decode(t->o)) must_fail = true;
                }
                if (must_fail) {
                    PBT_CHECK(at[d] < rs[d].size(), q << ": no result");
                    const Rec &r = rs[d][at[d]++];
                    PBT_CHECK(r.status == HXHIM_ERROR && r.s == q.s && (q.null_pred || r.p == q.p), q << ": " << r << ", though a value cannot be transformed");
                    refused++;
                }
                else {
                    ScanModel::match(rs[d], at[d], q, w);
                    kept += w.recs.size();
                }
                continue;
            }
            const Rec &r = next(q.s, q.p, q);
            const bool key_ok = can_encode(q.s) && can_encode(q.p);
            if (k == K_DEL) {
                if (!key_ok) PBT_CHECK(r.status == HXHIM_ERROR, r << ": the key cannot be encoded");
                else {
                    const auto it = m.find(model.key_of(q.s, q.p));
                    if (it != m.end()) { PBT_CHECK(r.status == HXHIM_SUCCESS, r << ": the pair is there"); m.erase(it); }
                }
                continue;
            }
            const auto it = key_ok ? m.find(model.key_of(q.s, q.p)) : m.end();
            const bool ok = it != m.end() && can_decode(it->second.o);
            PBT_CHECK(r.status == (ok ? HXHIM_SUCCESS : HXHIM_ERROR), r << (ok ? ": the pair is there" : it != m.end() ? ": the value cannot be decoded" : ": there is nothing to find"));
            if (ok) PBT_CHECK(custom_of(it->second.o) ? r.o == it->second.o : same(r.o, it->second.o), r << ", expected " << it->second.o);
            note(ok);
        }
        for (std::size_t d = 0; d < cfg.per_server; d++) PBT_CHECK(at[d] == rs[d].size(), "result left over: " << rs[d][at[d]]);
    }
    std::size_t used = 0;
    for (auto const &x : custom) { if (x.second.encoded) used++; if (x.second.decoded) c.label("decoded by a user function"); }
    if (used) c.label("encoded by a user function");
    if (refused) c.label("refused");
    c.nontrivial = kept >= 2 && (used || numbers);
    S->close();
}

pbt::Reg r28("C28", "user transform functions (copy, xor, reverse, hex, framing, none; some failing on some values) for a random half of the data types, random number symbols and precisions, 1-8 groups of PUTs with permutations, GETs, scans and DELETEs, reopened disk datastores; every result against a model sorted by the encoded bytes, every callback argument checked. Non-trivial: two or more values went through with a user function or changed number format in use.",
    c28, 12000, 300000);

}
