// C32 records that HXHIM cannot decode
#include "scanmodel.hpp"
#include "leveldb/db.h"
#include "rocksdb/db.h"

using namespace hxt;

namespace {

typedef std::map<std::string, std::string> Raw;

struct Numbers {
    char neg = elen::NEG_SYMBOL, pos = elen::POS_SYMBOL;
    std::size_t fp = elen::encode::FLOAT_PRECISION, dp = elen::encode::DOUBLE_PRECISION;
    std::string enc(const Val &v) const {
        switch (v.type) {
            case HXHIM_DATA_INT32:  return elen::encode::integers(as<std::int32_t>(v), neg, pos);
            case HXHIM_DATA_INT64:  return elen::encode::integers(as<std::int64_t>(v), neg, pos);
            case HXHIM_DATA_UINT32: return elen::encode::integers(as<std::uint32_t>(v), neg, pos);
            case HXHIM_DATA_UINT64: return elen::encode::integers(as<std::uint64_t>(v), neg, pos);
            case HXHIM_DATA_FLOAT:  return elen::encode::floating_point(as<float>(v), (int) fp, neg, pos);
            case HXHIM_DATA_DOUBLE: return elen::encode::floating_point(as<double>(v), (int) dp, neg, pos);
            default: return v.bytes;
        }
    }
};

// ----------------------------------------------- the files, without HXHIM

Raw raw_read(int backend, const std::string &path) {
    Raw r;
    if (backend == LEVEL) {
        leveldb::DB *db = nullptr;
        leveldb::Options o;
        PBT_CHECK(leveldb::DB::Open(o, path, &db).ok(), "cannot open " << path << " with leveldb");
        std::unique_ptr<leveldb::DB> own(db);
        std::unique_ptr<leveldb::Iterator> it(db->NewIterator(leveldb::ReadOptions()));
        for (it->SeekToFirst(); it->Valid(); it->Next()) r[it->key().ToString()] = it->value().ToString();
    }
    else {
        rocksdb::DB *db = nullptr;
        rocksdb::Options o;
        PBT_CHECK(rocksdb::DB::Open(o, path, &db).ok(), "cannot open " << path << " with rocksdb");
        std::unique_ptr<rocksdb::DB> own(db);
        std::unique_ptr<rocksdb::Iterator> it(db->NewIterator(rocksdb::ReadOptions()));
        for (it->SeekToFirst(); it->Valid(); it->Next()) r[it->key().ToString()] = it->value().ToString();
    }
    return r;
}
void raw_write(int backend, const std::string &path, const Raw &before, const Raw &after) {
    auto each = [&](auto put, auto del) {
        for (auto const &x : before) if (!after.count(x.first)) PBT_CHECK(del(x.first), "raw delete failed");
        for (auto const &x : after) PBT_CHECK(put(x.first, x.second), "raw put failed");
    };
    if (backend == LEVEL) {
        leveldb::DB *db = nullptr;
        leveldb::Options o; o.create_if_missing = true;
        PBT_CHECK(leveldb::DB::Open(o, path, &db).ok(), "cannot open " << path << " with leveldb");
        std::unique_ptr<leveldb::DB> own(db);
        each([&](const std::string &k, const std::string &v) { return db->Put(leveldb::WriteOptions(), k, v).ok(); },
             [&](const std::string &k) { return db->Delete(leveldb::WriteOptions(), k).ok(); });
    }
    else {
        rocksdb::DB *db = nullptr;
        rocksdb::Options o; o.create_if_missing = true;
        PBT_CHECK(rocksdb::DB::Open(o, path, &db).ok(), "cannot open " << path << " with rocksdb");
        std::unique_ptr<rocksdb::DB> own(db);
        each([&](const std::string &k, const std::string &v) { return db->Put(rocksdb::WriteOptions(), k, v).ok(); },
             [&](const std::string &k) { return db->Delete(rocksdb::WriteOptions(), k).ok(); });
    }
}

std::string le(std::uint64_t n, int bytes) { std::string r; for (int i = 0; i < bytes; i++) r += (char) (n >> (8 * i)); return r; }
std::uint64_t unle(const std::string &s, std::size_t at, int bytes) { std::uint64_t n = 0; for (int i = bytes; i--;) n = n << 8 | (unsigned char) s[at + i]; return n; }

// --------------------------------------------- what HXHIM makes of a record

enum Cls { GOOD, ANY, BAD };             // decodes to a known value; may be decoded; cannot be decoded

struct Known {
    Numbers n;
    std::map<std::pair<int, std::string>, Val> table;
    void learn(const Val &v) { table[{(int) v.type, n.enc(v)}] = v; }
    Cls cls(std::uint64_t type, const std::string &e, Val &v) const {
        v = Val();
        if (type < HXHIM_DATA_INT32 || type > HXHIM_DATA_POINTER) return BAD;
        v.type = (hxhim_data_t) type;
        if (!numeric(v.type)) { v.bytes = e; return GOOD; }
        auto it = table.find({(int) type, e});
        if (it != table.end()) { v = it->second; return GOOD; }
        if (e.empty() || (e.size() == 1 && e != "0")) return BAD;
        if (e == "0") { v.bytes.assign(v.type == HXHIM_DATA_INT32 || v.type == HXHIM_DATA_UINT32 || v.type == HXHIM_DATA_FLOAT ? 4 : 8, '\0'); return GOOD; }
        if (e[0] != n.neg && e[0] != n.pos && e[0] != '0') return BAD;
        return ANY;
    }
    Cls key(const std::string &k, Val &s, Val &p) const {
        if (k.size() < 19) return BAD;
        const std::size_t body = k.size() - 19;
        const std::uint64_t sl = unle(k, body + 1, 8), pl = unle(k, body + 9, 8);
        if (sl > body || pl != body - sl || (unsigned char) k[body] != 0xff) return BAD;
        const Cls a = cls((unsigned char) k[k.size() - 2], k.substr(0, sl), s), b = cls((unsigned char) k[k.size() - 1], k.substr(sl, pl), p);
        return std::max(a, b);
    }
    Cls value(const std::string &v, Val &o) const {
        if (v.size() < 4) { o = Val(); return BAD; }
        return cls(unle(v, v.size() - 4, 4), v.substr(0, v.size() - 4), o);
    }
};

bool like(const Val &got, const Val &want, Cls c) {
    if (c == GOOD) return same(got, want);
    if (got.type != want.type) return false;
    return got.bytes.size() == (want.type == HXHIM_DATA_INT32 || want.type == HXHIM_DATA_UINT32 || want.type == HXHIM_DATA_FLOAT ? 4u : 8u);
}

// ---------------------------------------------------------------- mutations

std::string some_bytes(pbt::Src &s) {
    std::string r;
    for (std::size_t n = s.below(24); n; n--) r += (char) (s.coin() ? s.below(256) : "\0\xff""0/:19ab-"[s.below(10)]);
    return r;
}
std::uint64_t some_len(pbt::Src &s, std::uint64_t was) {
    switch (s.below(6)) {
        case 0: return was + 1;
        case 1: return was - 1;
        case 2: return 0;
        case 3: return ~(std::uint64_t) 0 - s.below(40);
        case 4: return ((std::uint64_t) 1 << (8 * s.below(8))) + was;
        default: return s.below(64);
    }
}
std::uint64_t some_type(pbt::Src &s) { static const std::vector<std::uint64_t> t = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 127, 128, 255}; return s.pick(t); }

std::string mutate_key(pbt::Src &s, std::string k) {
    for (std::size_t n = 1 + s.below(2); n; n--) {
        const std::size_t body = k.size() >= 19 ? k.size() - 19 : 0;
        switch (k.size() < 19 ? 7 : s.below(8)) {
            case 0: k.resize(s.below(k.size() + 1)); break;                                       // cut
            case 1: k = k.substr(s.below(k.size() + 1)); break;
            case 2: k.replace(body + 1, 8, le(some_len(s, unle(k, body + 1, 8)), 8)); break;      // lengths
            case 3: k.replace(body + 9, 8, le(some_len(s, unle(k, body + 9, 8)), 8)); break;
            case 4: {                                                                             // another split
                const std::uint64_t t = unle(k, body + 1, 8) + unle(k, body + 9, 8), a = s.coin() ? s.below(body + 1) : some_len(s, unle(k, body + 1, 8));
                k.replace(body + 1, 16, le(a, 8) + le(t - a, 8)); break;
            }
            case 5: k[k.size() - 1 - s.below(2)] = (char) some_type(s); break;
            case 6: k[body] = (char) s.below(256); break;
            default: {
                if (k.empty() || s.coin()) { k = some_bytes(s); break; }
                k[s.below(k.size())] = (char) s.below(256);
            }
        }
    }
    return k;
}
std::string mutate_value(pbt::Src &s, std::string v) {
    for (std::size_t n = 1 + s.below(2); n; n--) {
        switch (v.size() < 4 ? 5 : s.below(7)) {
            case 0: v.resize(s.below(v.size() + 1)); break;
            case 1: v = v.substr(s.below(v.size() + 1)); break;
            case 2: v.resize(s.below(4)); break;
            case 3: v.replace(v.size() - 4, 4, le(some_type(s), 4)); break;
            case 4: { static const std::vector<std::uint64_t> t = {0xffffffff, 0x80000001, 0x100, 0x01000000, 0x7fffffff}; v.replace(v.size() - 4, 4, le(s.pick(t), 4)); break; }
            case 5: v = some_bytes(s) + (s.coin() ? le(some_type(s), 4) : std::string()); break;
            default: {
                const std::size_t at = s.below(v.size());
                if (s.coin()) v[at] = (char) s.below(256); else v.insert(at, 1, "09:/-.e"[s.below(7)]);
            }
        }
    }
    return v;
}

// the stored form of a histogram: is everything it announces there?
// huge: it announces more values than anybody can have memory for or count
bool whole(const std::string &b, bool *huge = nullptr) {
    std::size_t at = 0;
    auto left = [&]() { return b.size() - at; };
    auto num = [&](std::uint64_t &n) { if (left() < 8) return false; n = unle(b, at, 8); at += 8; return true; };
    std::uint64_t nl, count, first_n, size;
    if (!num(nl) || nl > left()) return false;
    at += nl;
    if (!num(count) || !num(first_n)) return false;
    if (huge && (first_n > 4096 || count >> 32)) *huge = true;
    if (count < first_n) { if (count > left() / 8) return false; at += 8 * count; }
    if (!num(size)) return false;
    if (size && count < first_n) return false;      // buckets of what?
    if (size && (size > left() / 16 || left() - size * 16 < 8)) return false;
    return true;
}
std::string mutate_hist(pbt::Src &s, std::string b) {
    for (std::size_t n = 1 + s.below(2); n && b.size() >= 8; n--) {
        switch (s.below(4)) {
            case 0: case 1: b.resize(s.below(b.size() + 1)); break;
            case 2: b.replace(0, 8, le(some_len(s, unle(b, 0, 8)), 8)); break;
            default: {        // a small number somewhere in the header
                const std::uint64_t nl = unle(b, 0, 8);
                const std::size_t at = nl < 64 ? 8 + nl + (s.coin() ? 0 : 16) : 0;
                if (at + 8 <= b.size()) b.replace(at, 8, le(s.chance(1, 3) ? ~(std::uint64_t) 0 - s.below(9) : s.below(200), 8));
            }
        }
    }
    bool huge = false;
    whole(b, &huge);
    if (huge) b.resize(8 * s.below(4));
    return b;
}

const std::vector<std::string> HNAMES = {"n", "temp"};

// --------------------------------------------------------------------- case

Numbers gen_numbers(pbt::Src &s) {
    Numbers n;
    if (!s.chance(1, 3)) return n;
    n.neg = (char) (1 + s.below('0' - 1)); n.pos = (char) ('9' + 1 + s.below(126 - '9'));
    n.fp = 8 + s.below(5); n.dp = n.fp + 1 + s.below(8);
    return n;
}

void c32(pbt::Src &src, pbt::Case &c) {
    Dir dir;
    Conf cfg = gen_config(src, dir.path, 0, 6, 1);
    cfg.per_server = 1;
    cfg.hash = "";
    const bool hists = src.chance(1, 3);
    if (hists) {
        cfg.hist_names.assign(HNAMES.begin(), HNAMES.begin() + 1 + src.below(2));
        cfg.hist_first_n = 1 + src.below(4);
    }
    Numbers na = gen_numbers(src), nb = src.chance(3, 4) ? na : gen_numbers(src);
    auto with = [&](Conf k, const Numbers &n) {
        k.extra = [n](hxhim_t *hx) { PBT_CHECK(hxhim_set_transform_numeric_values(hx, n.neg, n.pos, n.fp, n.dp) == HXHIM_SUCCESS, "numeric values refused"); };
        return k;
    };
    c.desc << describe(cfg) << "\nnumbers " << (int) na.neg << "/" << (int) na.pos << " " << na.fp << "/" << na.dp << ", then " << (int) nb.neg << "/" << (int) nb.pos << " " << nb.fp << "/" << nb.dp << "\n";
    c.label(backend_name(cfg.backend));

    GenOpts g;
    std::vector<Val> subs, preds, objs;
    for (std::size_t i = 0, n = 1 + src.below(4); i < n; i++) subs.push_back(gen_val(src, g));
    for (std::size_t i = 0, n = 1 + src.below(4); i < n; i++) preds.push_back(hists && src.coin() ? byte(src.pick(HNAMES)) : gen_val(src, g));
    for (std::size_t i = 0, n = 1 + src.below(4); i < n; i++) objs.push_back(hists && src.coin() ? num<double>(HXHIM_DATA_DOUBLE, (double) src.below(9)) : gen_val(src, g));

    // written by HXHIM
    Known know; know.n = nb;
    {
        Session A;
        Conf k = with(cfg, na);
        k.hist_write = hists;
        A.open(k);
        for (std::size_t n = 1 + src.below(10); n; n--) {
            QOp q; q.kind = K_PUT; q.s = src.pick(subs); q.p = src.pick(preds); q.o = src.pick(objs);
            c.desc << q << "; ";
            PBT_CHECK(submit(A, q, src.coin()) == HXHIM_SUCCESS, "PUT refused");
        }
        for (Rec const &r : flush(A, F_ALL, false)) PBT_CHECK(r.status == HXHIM_SUCCESS, r);
        A.close();
        c.desc << "\n";
    }
    std::string path;
    for (auto const &e : std::filesystem::directory_iterator(dir.path)) { PBT_CHECK(path.empty(), "two datastores"); path = e.path().string(); }

    // written by somebody else
    Raw raw = raw_read(cfg.backend, path);
    const Raw first = raw;
    auto any_of = [&](const Raw &r) { auto it = r.begin(); std::advance(it, src.below(r.size())); return it; };
    const std::string hprefix = "HISTOGRAM";
    auto hkey = [&](const std::string &n) { return ScanModel().key_of(byte(hprefix), byte(n)); };
    std::size_t odd = 0;
    for (std::size_t n = src.below(7); n && raw.size(); n--, odd++) {
        auto it = any_of(raw);
        const std::string k = it->first, v = it->second;
        c.desc << "record " << hex(k) << " " << hex(v) << ": ";
        switch (src.below(5)) {
            case 0: { const std::string m = mutate_key(src, k); raw[m] = v; c.desc << "copied to " << hex(m) << "\n"; break; }
            case 1: { const std::string m = mutate_key(src, k), w = mutate_value(src, v); raw[m] = w; c.desc << "and " << hex(m) << " " << hex(w) << "\n"; break; }
            case 2: raw.erase(k); c.desc << "removed\n"; break;
            default: { const std::string w = mutate_value(src, v); raw[k] = w; c.desc << "now " << hex(w) << "\n"; break; }
        }
    }
    if (hists) for (std::string const &n : cfg.hist_names) {
        const std::string k = hkey(n);
        if (!first.count(k) || src.coin()) continue;
        raw[k] = mutate_hist(src, first.at(k));
        odd++;
        c.desc << "stored histogram " << n << ": " << hex(raw[k]) << "\n";
        c.label("changed histogram");
    }
    for (std::string const &n : HNAMES) {
        bool huge = false;
        auto it = raw.find(hkey(n));
        if (it != raw.end() && (whole(it->second, &huge), huge)) { it->second.resize(8 * src.below(4)); c.desc << "stored histogram " << n << ": " << hex(it->second) << "\n"; }
    }
    raw_write(cfg.backend, path, first, raw);

    // HXHIM again
    auto learn = [&](const std::vector<Val> &vs) { for (Val const &v : vs) know.learn(v); };
    learn(subs); learn(preds); learn(objs);
    const bool one = src.chance(1, 3);
    Session B;
    Conf kb = with(cfg, nb);
    kb.create = src.coin();
    kb.hist_read = hists;
    if (one) {
        B.init();
        apply(&B.hx, kb);
        const int rc = src.coin() ? hxhim::OpenOne(&B.hx, path) : hxhimOpenOne(&B.hx, path.data(), path.size());
        if (rc != HXHIM_SUCCESS) B.open_ = false;
        PBT_CHECK(rc == HXHIM_SUCCESS, "OpenOne returned " << rc);
        c.label("OpenOne");
    }
    else B.open(kb);

    if (hists && !one) {
        std::vector<std::string> names;
        for (std::string const &n : cfg.hist_names) {
            const char *p = (const char *) B.arena.put(n);
            PBT_CHECK(hxhim::Histogram(&B.hx, 0, p, n.size()) == HXHIM_SUCCESS, "histogram refused");
        }
        const std::vector<Rec> rs = flush(B, F_ALL, src.coin());
        PBT_CHECK(rs.size() == cfg.hist_names.size(), rs.size() << " histograms");
        for (std::size_t i = 0; i < rs.size(); i++) {
            std::string const &n = cfg.hist_names[i];
            PBT_CHECK(rs[i].status == HXHIM_SUCCESS, "histogram " << n << " failed");
            auto it = raw.find(hkey(n));
            const bool kept = it != raw.end() && it->second.size() >= 4 && whole(it->second);
            if (!kept) {
                PBT_CHECK(!rs[i].h.ready && rs[i].h.name == n, "histogram " << hex(rs[i].h.name) << " of no values is ready or not named " << n);
                if (it != raw.end()) c.label("stored histogram not whole");
            }
        }
    }

    ScanModel model;
    model.enc = [&](const Val &v) { return nb.enc(v); };
    std::size_t failed = 0, fine = 0;
    const std::size_t steps = 1 + src.below(6);
    for (std::size_t step = 0; step < steps; step++) {
        // what is there, as this session reads it
        Store db;
        std::map<const Triple *, std::pair<Cls, Cls>> cls;       // key, value
        for (auto const &x : raw) {
            Triple &t = db[x.first];
            const Cls a = know.key(x.first, t.s, t.p), b = know.value(x.second, t.o);
            cls[&t] = {a, b};
        }
        const Kind kind = (Kind) src.weighted({2, 4, 6, 1});
        std::vector<QOp> qs;
        for (std::size_t n = 1 + src.below(5); n; n--) {
            QOp q; q.kind = kind; q.s = src.pick(subs); q.p = src.pick(preds); q.o = src.pick(objs);
            q.want = src.pick(objs).type;
            // something that is there
            if (kind != K_PUT && db.size() && src.coin()) {
                auto it = db.begin(); std::advance(it, src.below(db.size()));
                if (cls[&it->second].first == GOOD && it->second.s.bytes.size() && it->second.p.bytes.size()) { q.s = it->second.s; q.p = it->second.p; }
            }
            if (kind == K_GETOP) {
                q.gop = (hxhim_getop_t) src.below(7);
                q.nrec = std::vector<std::size_t>{1, 2, 4, 50}[src.below(4)];
                if (src.chance(1, 4)) { q.null_pred = true; q.p = byte(""); }
                const std::string prefix = nb.enc(q.s) + (q.null_pred ? "" : nb.enc(q.p));
                if (raw.count(prefix)) continue;         // no key of HXHIM is as short as that
            }
            qs.push_back(q);
            c.desc << q << "; ";
        }
        if (qs.empty()) continue;
        c.desc << "\n";
        const bool c_api = src.coin();
        if (src.coin()) PBT_CHECK(submit_bulk(B, qs, c_api) == HXHIM_SUCCESS, "bulk refused");
        else for (QOp &q : qs) PBT_CHECK(submit(B, q, c_api) == HXHIM_SUCCESS, q << " refused");
        const std::vector<Rec> rs = flush(B, F_ALL, c_api);
        std::size_t at = 0;
        for (QOp const &q : qs) {
            c.ops++;
            PBT_CHECK(at < rs.size(), q << ": no result");
            const std::string k = q.null_pred ? "" : model.key_of(q.s, q.p);
            if (kind != K_GETOP) {
                const Rec &r = rs[at++];
                PBT_CHECK(r.s == q.s && r.p == q.p, q << ": result of " << r << " instead");
                auto it = raw.find(k);
                if (kind == K_PUT) {
                    PBT_CHECK(r.status == HXHIM_SUCCESS, r << ": a PUT does not depend on what is there");
                    raw[k] = nb.enc(q.o) + le(q.o.type, 4);
                }
                else if (kind == K_DEL) {
                    if (it != raw.end()) { PBT_CHECK(r.status == HXHIM_SUCCESS, r << ": the pair is there"); raw.erase(it); }
                }
                else {
                    Val o;
                    const Cls x = it == raw.end() ? BAD : know.value(it->second, o);
                    if (r.status == HXHIM_SUCCESS) {
                        PBT_CHECK(x != BAD, r << ": " << (it == raw.end() ? "there is nothing to find" : "the value " + hex(it->second) + " cannot be decoded"));
                        PBT_CHECK(like(r.o, o, x), r << ", expected " << o << " from " << hex(it->second));
                        fine++;
                    }
                    else {
                        PBT_CHECK(r.status == HXHIM_ERROR && x != GOOD, r << ": the value " << hex(it->second) << " is fine");
                        if (it != raw.end()) failed++;
                    }
                }
                continue;
            }
            Want w = model.expect(db, q);
            bool bad = false, any = false;
            for (auto const *t : w.recs) { const Cls x = std::max(cls[t].first, cls[t].second); bad |= x == BAD; any |= x == ANY; }
            const Rec &r = rs[at];
            if (bad || (any && r.status != HXHIM_SUCCESS)) {
                PBT_CHECK(r.status == HXHIM_ERROR && r.s == q.s && (q.null_pred || r.p == q.p), q << ": " << r << ", though it reaches a record that cannot be decoded");
                at++; failed++;
                continue;
            }
            if (!any) { ScanModel::match(rs, at, q, w); fine += w.recs.size(); continue; }
            for (auto const *t : w.recs) {
                PBT_CHECK(at < rs.size(), q << ": too few records");
                const Rec &x = rs[at++];
                const Cls a = cls[t].first, b = cls[t].second;
                PBT_CHECK(x.status == HXHIM_SUCCESS, q << ": a record failed");
                if (a == GOOD) PBT_CHECK(same(x.s, t->s) && same(x.p, t->p), q << ": " << x << ", expected (" << t->s << ", " << t->p << ")");
                else PBT_CHECK(x.s.type == t->s.type && x.p.type == t->p.type, q << ": " << x << " has other types");
                PBT_CHECK(like(x.o, t->o, b), q << ": " << x << ", expected value " << t->o);
            }
        }
        PBT_CHECK(at == rs.size(), "result left over: " << rs[at]);
    }
    B.close();
    if (failed) c.label("cannot be decoded");
    if (odd && fine) c.label("decoded next to odd records");
    c.nontrivial = failed && fine;
    // nothing else was touched
    const Raw last = raw_read(cfg.backend, path);
    for (auto const &x : raw) {
        auto it = last.find(x.first);
        PBT_CHECK(it != last.end(), "record " << hex(x.first) << " is gone");
        PBT_CHECK(it->second == x.second, "record " << hex(x.first) << " is " << hex(it->second) << ", expected " << hex(x.second));
    }
    for (auto const &x : last) PBT_CHECK(raw.count(x.first), "record " << hex(x.first) << " appeared");
}

pbt::Reg r32("C32", "records written by HXHIM, then up to six records changed, copied to damaged keys or removed with the database's own interface (cut keys and values, wrong lengths, types, terminators, digits, stored histograms), then a session with the same or other number symbols that opens the files (Open or OpenOne) and runs 1-6 groups of GETs, scans, PUTs and DELETEs; every result against a model that knows which records can be decoded, and the files read back at the end. Non-trivial: an operation reached a record that cannot be decoded, and others returned records.",
    c32, 4000, 100000);

}
