// C07 key codec, C08 integer codec, C09 floating point codec, C10 wire format,
// C11 histogram counting, C12 histogram serialisation
#include "hx.hpp"

#include "datastore/constants.hpp"
#include "datastore/transform.hpp"
#include "datastore/triplestore.hpp"
#include "message/Messages.hpp"
#include "message/Packer.hpp"
#include "message/Unpacker.hpp"
#include "utils/Blob.hpp"
#include "utils/elen.h"
#include "utils/elen.hpp"
#include "utils/little_endian.hpp"
#include "utils/memory.hpp"

using namespace hxt;

namespace {

std::string raw_bytes(pbt::Src &s, std::size_t max) {
    if (max >= 20 && s.chance(1, 20)) {         // lengths around a power of two
        const std::size_t n = ((std::size_t) 1 << (6 + s.below(11))) + s.below(5) - 2;
        std::string r(n, (char) s.below(256));
        r[s.below(n)] = (char) s.below(256);
        return r;
    }
    const std::size_t n = s.small(max);
    std::string r(n, 'a');
    switch (s.below(3)) {
        case 0: for (auto &c : r) c = (char) ('a' + s.below(3)); break;
        case 1: for (auto &c : r) c = (char) s.below(256); break;
        default: for (auto &c : r) { static const char a[] = {'\0', '\xff', 'a', '\x01', '\x08'}; c = a[s.below(5)]; }
    }
    return r;
}
hxhim_data_t any_type(pbt::Src &s) {
    static const std::vector<hxhim_data_t> t = {HXHIM_DATA_BYTE, HXHIM_DATA_INT32, HXHIM_DATA_INT64, HXHIM_DATA_UINT32, HXHIM_DATA_UINT64,
        HXHIM_DATA_FLOAT, HXHIM_DATA_DOUBLE, HXHIM_DATA_POINTER};
    return s.pick(t);
}
std::string str(const Blob &b) { return b.size() ? std::string((const char *) b.data(), b.size()) : std::string(); }

// ------------------------------------------------------------------- C07

struct SP { std::string s, p; hxhim_data_t st, pt; };
std::string key_of(const SP &x) {
    Arena a;
    Blob s(a.put(x.s), x.s.size(), x.st), p(a.put(x.p), x.p.size(), x.pt), k;
    PBT_CHECK(sp_to_key(s, p, &k) == HXHIM_SUCCESS, "sp_to_key failed");
    return str(k);
}
void c07(pbt::Src &s, pbt::Case &c) {
    SP a; a.s = raw_bytes(s, 60); a.p = raw_bytes(s, 60); a.st = any_type(s); a.pt = any_type(s);
    SP b = a;
    switch (s.below(6)) {                       // a second pair that is easily confused with the first
        case 0: {                               // same bytes, other split
            const std::string all = a.s + a.p;
            const std::size_t cut = s.below(all.size() + 1);
            b.s = all.substr(0, cut); b.p = all.substr(cut);
            c.label("resplit");
            break;
        }
        case 1: std::swap(b.s, b.p); std::swap(b.st, b.pt); break;
        case 2: b.st = any_type(s); b.pt = any_type(s); c.label("types"); break;
        case 3: b.p += raw_bytes(s, 4); c.label("extended"); break;
        case 4: {                               // a pair that contains the other one's key
            const std::string k = key_of(a);
            b.p = k.substr(std::min(k.size(), a.s.size()));
            c.label("embedded key");
            break;
        }
        default: b.s = raw_bytes(s, 60); b.p = raw_bytes(s, 60);
    }
    if (s.chance(1, 10)) { b.s += std::string(250 + s.below(20), 'q'); }
    c.desc << hex(a.s) << "," << hex(a.p) << " types " << a.st << "," << a.pt << " / " << hex(b.s) << "," << hex(b.p) << " types " << b.st << "," << b.pt;
    const std::string ka = key_of(a), kb = key_of(b);
    for (int i = 0; i < 2; i++) {
        const SP &x = i ? b : a;
        const std::string &k = i ? kb : ka;
        Arena ar;
        Blob key(ar.put(k), k.size(), HXHIM_DATA_BYTE);
        for (int copy = 0; copy < 2; copy++) {
            Blob sub, pred;
            PBT_CHECK(key_to_sp(key, sub, pred, copy) == HXHIM_SUCCESS, "key_to_sp failed");
            PBT_CHECK(str(sub) == x.s && sub.data_type() == x.st, "subject " << hex(x.s) << " came back as " << hex(str(sub)) << " type " << sub.data_type());
            PBT_CHECK(str(pred) == x.p && pred.data_type() == x.pt, "predicate " << hex(x.p) << " came back as " << hex(str(pred)) << " type " << pred.data_type());
            if (copy && x.s.size()) PBT_CHECK(sub.data() != key.data(), "a copy was asked for");
        }
        PBT_CHECK(k.compare(0, x.s.size() + x.p.size(), x.s + x.p) == 0, "the key does not begin with the subject and the predicate");
    }
    const bool same_pair = a.s == b.s && a.p == b.p && a.st == b.st && a.pt == b.pt;
    PBT_CHECK((ka == kb) == same_pair, "two " << (same_pair ? "equal" : "different") << " pairs have " << (ka == kb ? "the same key" : "different keys"));
    c.nontrivial = !same_pair && (a.s.size() || a.p.size());
}

// ------------------------------------------------------------------- C08

template <typename T> T near_int(pbt::Src &s, T v) {
    const std::uint64_t d = 1 + s.below(3);
    return (T) (s.coin() ? (std::uint64_t) v + d : (std::uint64_t) v - d);
}
template <typename T> T codec_int(pbt::Src &s) {
    if (s.chance(1, 3)) {                       // around a power of ten
        std::uint64_t p = 1;
        for (std::uint64_t k = s.below(20); k; k--) p *= 10;
        const T v = (T) (p - s.below(3) + 1);
        return s.coin() ? v : (T) (0 - (std::uint64_t) v);
    }
    return gen_int<T>(s);
}
bool lex_less(const std::string &a, const std::string &b) {
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) { return (unsigned char) x < (unsigned char) y; });
}
void symbols(pbt::Src &s, char &neg, char &pos) {
    neg = elen::NEG_SYMBOL; pos = elen::POS_SYMBOL;
    if (s.chance(1, 3)) {
        // any byte that sorts below the digits, and any that sorts above them
        static const char n[] = {'-', '!', '*', '+', '\x01', ' ', '\0'}, p[] = {'>', '~', 'A', 'z', '\x80', '\xe9', '\xff'};
        neg = n[s.below(6)]; pos = p[s.below(7)];
    }
}
template <typename T> std::string c_encode(T, char, char, bool &has) { has = false; return ""; }
template <typename T> struct CApi;
#define CAPI(T, fn) template <> struct CApi<T> { \
    static std::string enc(T v, char n, char p) { char *x = elen_encode_##fn(v, n, p); std::string r(x); free(x); return r; } \
    static T dec(const std::string &v, std::size_t *l, char n, char p) { return elen_decode_##fn(v.c_str(), l, n, p); } };
CAPI(std::int8_t, int8_t) CAPI(std::int16_t, int16_t) CAPI(std::int32_t, int32_t) CAPI(std::int64_t, int64_t)
CAPI(std::uint8_t, uint8_t) CAPI(std::uint16_t, uint16_t) CAPI(std::uint32_t, uint32_t) CAPI(std::uint64_t, uint64_t)

template <typename T> void ints(pbt::Src &s, pbt::Case &c, const char *name) {
    const T a = codec_int<T>(s), b = s.coin() ? near_int<T>(s, a) : codec_int<T>(s);
    char neg, pos; symbols(s, neg, pos);
    c.desc << name << " " << +a << ", " << +b << " symbols " << neg << pos;
    c.label(name);
    const std::string ea = elen::encode::integers<T>(a, neg, pos), eb = elen::encode::integers<T>(b, neg, pos);
    c.desc << " -> " << ea << ", " << eb;
    const T da = elen::decode::integers<T>(ea, nullptr, neg, pos);
    PBT_CHECK(da == a, +a << " is encoded as " << ea << " and decoded as " << +da);
    PBT_CHECK(lex_less(ea, eb) == (a < b), +a << " and " << +b << " are encoded as " << ea << " and " << eb << ", which sort the other way");
    PBT_CHECK((ea == eb) == (a == b), "distinct numbers share an encoding");
    PBT_CHECK(lex_comp(ea, eb) == (a < b) && (lex_comp(ea.c_str(), eb.c_str()) != 0) == (a < b), "lex_comp orders " << ea << " and " << eb << " the other way");
    if (a != b) PBT_CHECK(ea.compare(0, eb.size(), eb) != 0 && eb.compare(0, ea.size(), ea) != 0, ea << " and " << eb << ": one is a prefix of the other");
    if (a != 0) {                               // decoding stops where the number ends
        std::size_t used = 0;
        const T d2 = elen::decode::integers<T>(ea + eb, &used, neg, pos);
        PBT_CHECK(d2 == a && used == ea.size(), ea << " followed by " << eb << ": decoded " << +d2 << " using " << used << " characters");
    }
    PBT_CHECK(CApi<T>::enc(a, neg, pos) == ea, "the C interface encodes differently");
    PBT_CHECK(CApi<T>::dec(ea, nullptr, neg, pos) == a, "the C interface decodes differently");
    c.nontrivial = a != b && a != 0;
}
// through the callbacks the datastores use
template <typename T, hxhim_data_t TYPE> void transform(pbt::Src &s, pbt::Case &c, T a, bool exact, double tol) {
    std::unique_ptr<Datastore::Transform::Callbacks> cb(Datastore::Transform::default_callbacks());
    symbols(s, cb->numeric_extra.neg, cb->numeric_extra.pos);
    Arena ar;
    void *in = ar.put(std::string((const char *) &a, sizeof(a)));
    void *mid = nullptr, *out = nullptr; std::size_t ml = 0, ol = 0;
    auto e = cb->encode.at(TYPE); auto d = cb->decode.at(TYPE);
    PBT_CHECK(e.first(in, sizeof(a), &mid, &ml, e.second) == DATASTORE_SUCCESS, "encode failed");
    void *m2 = ar.put(std::string((const char *) mid, ml));
    PBT_CHECK(d.first(m2, ml, &out, &ol, d.second) == DATASTORE_SUCCESS, "decode failed");
    PBT_CHECK(ol == sizeof(T), "decoded size " << ol);
    T b; memcpy(&b, out, sizeof(b));
    c.desc << " transform " << std::string((const char *) mid, ml);
    ::dealloc(mid); ::dealloc(out);
    if (exact) PBT_CHECK(a == b, +a << " came back from the transform as " << +b);
    else PBT_CHECK(std::fabs((double) a - (double) b) <= tol * std::fabs((double) a) + 1e-45, a << " came back from the transform as " << b);
}
void c08(pbt::Src &s, pbt::Case &c) {
    switch (s.below(8)) {
        case 0: ints<std::int32_t>(s, c, "int32"); transform<std::int32_t, HXHIM_DATA_INT32>(s, c, codec_int<std::int32_t>(s), true, 0); break;
        case 1: ints<std::int64_t>(s, c, "int64"); transform<std::int64_t, HXHIM_DATA_INT64>(s, c, codec_int<std::int64_t>(s), true, 0); break;
        case 2: ints<std::uint32_t>(s, c, "uint32"); transform<std::uint32_t, HXHIM_DATA_UINT32>(s, c, codec_int<std::uint32_t>(s), true, 0); break;
        case 3: ints<std::uint64_t>(s, c, "uint64"); transform<std::uint64_t, HXHIM_DATA_UINT64>(s, c, codec_int<std::uint64_t>(s), true, 0); break;
        case 4: ints<std::int8_t>(s, c, "int8"); break;
        case 5: ints<std::int16_t>(s, c, "int16"); break;
        case 6: ints<std::uint8_t>(s, c, "uint8"); break;
        default: ints<std::uint16_t>(s, c, "uint16"); break;
    }
}

// ------------------------------------------------------------------- C09

template <typename T> T from_bits(std::uint64_t b) { T v; memcpy(&v, &b, sizeof(v)); return v; }
template <typename T> T any_float(pbt::Src &s) {
    for (;;) {
        T v;
        switch (s.below(5)) {
            case 0: v = gen_exact<T>(s); break;
            case 1: {                           // near a place where the exponent changes
                const int span = std::numeric_limits<T>::max_exponent10 - 1;
                const double k = (double) s.range(-span, span) + (s.coin() ? 0.5 : 0.0);
                v = (T) std::pow(10.0, k);
                for (std::uint64_t n = s.below(4); n; n--) v = std::nextafter(v, s.coin() ? (T) 0 : std::numeric_limits<T>::max());
                break;
            }
            case 2: v = from_bits<T>(s.u64()); break;
            case 3: v = (T) ((double) s.range(-1000000, 1000000) / 1000.0); break;
            default: {
                static const std::vector<T> e = {0, (T) 1, std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(),
                    std::numeric_limits<T>::max() * (T) 0.99, (T) 0.1, (T) 0.9999999, (T) 3.1622777, (T) 9.9999999, std::numeric_limits<T>::epsilon()};
                v = s.pick(e);
            }
        }
        if (s.coin()) v = -v;
        if (!std::isfinite(v) || std::fabs(v) > std::numeric_limits<T>::max() * (T) 0.995) v = 0;
        if (v == 0) v = 0;                      // no negative zero
        return v;
    }
}
// the C functions do the same
template <typename T> struct C;
template <> struct C<float> {
    static constexpr auto encode = elen_encode_float; static constexpr auto decode = elen_decode_float;
    static constexpr auto encode_small = elen_encode_small_float; static constexpr auto decode_small = elen_decode_small_float;
    static constexpr auto encode_large = elen_encode_large_float; static constexpr auto decode_large = elen_decode_large_float;
};
template <> struct C<double> {
    static constexpr auto encode = elen_encode_double; static constexpr auto decode = elen_decode_double;
    static constexpr auto encode_small = elen_encode_small_double; static constexpr auto decode_small = elen_decode_small_double;
    static constexpr auto encode_large = elen_encode_large_double; static constexpr auto decode_large = elen_decode_large_double;
};
template <typename E, typename D, typename T> void c_form(E encode, D decode, T a, int prec, char neg, char pos, const std::string &ea, const std::string &eb, T da) {
    std::unique_ptr<char, void (*)(void *)> e(encode(a, prec, neg, pos), free);
    PBT_CHECK(ea == e.get(), a << " is encoded as " << ea << ", by the C function as " << e.get());
    const T d = decode(e.get(), neg, pos);
    PBT_CHECK(d == da, ea << " is decoded as " << da << ", by the C function as " << d);
    PBT_CHECK(!!lex_comp(ea.c_str(), eb.c_str()) == lex_less(ea, eb) && lex_comp(ea, eb) == lex_less(ea, eb), "lex_comp of " << ea << " and " << eb);
}
template <typename T> void floats(pbt::Src &s, pbt::Case &c, const char *name, double tol) {
    const T a = any_float<T>(s);
    T b = any_float<T>(s);
    if (s.coin()) { b = a; for (std::uint64_t n = 1 + s.below(5); n; n--) b = std::nextafter(b, s.coin() ? std::numeric_limits<T>::lowest() : std::numeric_limits<T>::max()); if (!std::isfinite(b) || std::fabs(b) > std::numeric_limits<T>::max() * (T) 0.995) b = a; }
    char neg, pos; symbols(s, neg, pos);
    int prec = elen::encode::default_precision<T>();
    if (s.chance(1, 3) && std::fabs(a) < std::numeric_limits<T>::max() / 2) { prec = 2 + (int) s.below(prec - 1); tol = std::max(tol, 20 * std::pow(10.0, -prec)); }
    c.label(name);
    c.desc << std::setprecision(17) << name << " " << a << ", " << b << " symbols " << neg << pos << " precision " << prec;
    const std::string ea = elen::encode::floating_point<T>(a, prec, neg, pos), eb = elen::encode::floating_point<T>(b, prec, neg, pos);
    c.desc << " -> " << ea << ", " << eb;
    const T da = elen::decode::floating_point<T>(ea, neg, pos);
    c_form(C<T>::encode, C<T>::decode, a, prec, neg, pos, ea, eb, da);
    const double err = std::fabs((double) da - (double) a);
    PBT_CHECK(err <= tol * std::fabs((double) a) + (double) std::numeric_limits<T>::denorm_min(), a << " is encoded as " << ea << " and decoded as " << da);
    PBT_CHECK((a == 0) == (da == 0) || std::fabs(a) <= std::numeric_limits<T>::denorm_min(), "zero");
    // the order never inverts, and values further apart than the precision stay apart
    if (a < b) PBT_CHECK(!lex_less(eb, ea), a << " < " << b << " but " << ea << " > " << eb);
    if (b < a) PBT_CHECK(!lex_less(ea, eb), a << " > " << b << " but " << ea << " < " << eb);
    if (a == b) PBT_CHECK(ea == eb, "equal numbers, different encodings");
    if (std::fabs((double) a - (double) b) > 2 * tol * std::max(std::fabs((double) a), std::fabs((double) b)) + std::numeric_limits<T>::denorm_min()) {
        PBT_CHECK(lex_less(ea, eb) == (a < b), a << " and " << b << " sort wrongly as " << ea << " and " << eb);
        c.nontrivial = true;
    }
}
template <typename T> void decimals(pbt::Src &s, pbt::Case &c, const char *name) {
    char neg, pos; symbols(s, neg, pos);
    const int prec = s.chance(1, 2) ? elen::encode::default_precision<T>() : 1 + (int) s.below(elen::encode::default_precision<T>());
    const double eps = std::pow(10.0, -prec) + 4 * std::numeric_limits<T>::epsilon();
    c.label(name);
    {
        auto gen = [&]() -> T {
            T v;
            switch (s.below(4)) {
                case 0: v = (T) s.below(1000) / (T) 1000; break;
                case 1: v = std::nextafter((T) 1, (T) 0); break;
                case 2: v = (T) (1.0 - std::pow(10.0, -(double) (1 + s.below(15)))); if (v >= 1) v = (T) 0.5; break;
                default: v = (T) ((double) (s.u64() >> 12) / 4503599627370496.0); if (v >= 1) v = (T) 0.25;
            }
            return s.coin() ? -v : v;
        };
        T a = gen(), b = gen();
        if (a == 0) a = 0;
        if (b == 0) b = 0;
        const std::string ea = elen::encode::small_decimals<T>(a, prec, neg, pos), eb = elen::encode::small_decimals<T>(b, prec, neg, pos);
        c.desc << std::setprecision(17) << "small " << a << ", " << b << " prec " << prec << " -> " << ea << ", " << eb;
        const T da = elen::decode::small_decimals<T>(ea, neg, pos);
        c_form(C<T>::encode_small, C<T>::decode_small, a, prec, neg, pos, ea, eb, da);
        PBT_CHECK(std::fabs((double) da - (double) a) <= eps, a << " is encoded as " << ea << " and decoded as " << da);
        if (a < b) PBT_CHECK(!lex_less(eb, ea), a << " < " << b << " but " << ea << " > " << eb);
        if (std::fabs((double) a - (double) b) > 2 * eps) { PBT_CHECK(lex_less(ea, eb) == (a < b), a << " and " << b << " sort wrongly as " << ea << " and " << eb); c.nontrivial = true; }
    }
    {
        const double lim = sizeof(T) == 4 ? 1e5 : 2e9;
        auto gen = [&]() -> T {
            double v;
            switch (s.below(3)) {
                case 0: v = (double) s.range(-4000, 4000) / 16; break;
                case 1: v = (double) s.range(-99999, 99999); break;
                default: v = ((double) (s.u64() >> 12) / 4503599627370496.0 - 0.5) * lim;
            }
            return (T) v;
        };
        T a = gen(), b = gen();
        if (a == 0) a = 0;
        if (b == 0) b = 0;
        const std::string ea = elen::encode::large_decimals<T>(a, prec, neg, pos), eb = elen::encode::large_decimals<T>(b, prec, neg, pos);
        const double leps = eps + 4 * std::numeric_limits<T>::epsilon() * std::max(std::fabs((double) a), std::fabs((double) b));
        c.desc << " large " << a << ", " << b << " -> " << ea << ", " << eb;
        const T da = elen::decode::large_decimals<T>(ea, neg, pos);
        c_form(C<T>::encode_large, C<T>::decode_large, a, prec, neg, pos, ea, eb, da);
        PBT_CHECK(std::fabs((double) da - (double) a) <= leps, a << " is encoded as " << ea << " and decoded as " << da);
        if (std::fabs((double) a - (double) b) > 2 * leps) PBT_CHECK(lex_less(ea, eb) == (a < b), a << " and " << b << " sort wrongly as " << ea << " and " << eb);
    }
}
void c09(pbt::Src &s, pbt::Case &c) {
    switch (s.below(6)) {
        case 0: case 1: floats<float>(s, c, "float", 1e-6); transform<float, HXHIM_DATA_FLOAT>(s, c, any_float<float>(s), false, 1e-6); break;
        case 2: case 3: floats<double>(s, c, "double", 2e-14); transform<double, HXHIM_DATA_DOUBLE>(s, c, (double) (float) any_float<float>(s), false, 2e-14); break;
        case 4: decimals<float>(s, c, "float decimals"); break;
        default: decimals<double>(s, c, "double decimals");
    }
}

// ------------------------------------------------------------------- C10

struct WireOp {
    std::string s, p, o; hxhim_data_t st, pt, ot;
    std::size_t nrec; hxhim_getop_t gop; int status; bool null_pred;
    std::vector<WireOp> recs;
};
WireOp gen_wire(pbt::Src &s, bool recs) {
    WireOp w;
    auto one = [&]() { std::string r = raw_bytes(s, 70); if (r.empty()) r = "k"; return r; };
    w.s = one(); w.p = one(); w.o = one();
    w.st = any_type(s); w.pt = any_type(s); w.ot = any_type(s);
    w.nrec = s.chance(1, 5) ? (std::size_t) s.u64() : s.below(10);
    w.gop = (hxhim_getop_t) s.below(7);
    w.null_pred = s.chance(1, 5);
    w.status = s.chance(1, 3) ? DATASTORE_ERROR : DATASTORE_SUCCESS;
    if (recs) for (std::size_t n = s.below(4); n; n--) w.recs.push_back(gen_wire(s, false));
    return w;
}
template <typename B> bool is(const B &b, const std::string &v, hxhim_data_t t) { return str(b) == v && b.data_type() == t; }
void *addr_of(std::size_t i, int k) { return (void *) (uintptr_t) (0x1000 + i * 16 + (unsigned) k); }

template <typename M, typename Base> Base *through(M &m, const std::string &pre, pbt::Case &c, std::string &image) {
    // pack into an exactly sized buffer
    void *buf = nullptr; std::size_t size = 0;
    if (pre == "given") buf = ::alloc(m.size());
    PBT_CHECK(Message::Packer::pack(static_cast<Base *>(&m), &buf, &size) == MESSAGE_SUCCESS, "pack failed");
    PBT_CHECK(buf && size == m.size(), "packed size " << size << ", announced " << m.size());
    image.assign((const char *) buf, size);
    Base *out = nullptr;
    const int rc = Message::Unpacker::unpack(&out, buf, size);
    // nothing may refer to the received buffer afterwards
    memset(buf, 0x5a, size);
    ::dealloc(buf);
    PBT_CHECK(rc == MESSAGE_SUCCESS && out, "unpack failed");
    PBT_CHECK(out->op == m.op && out->direction == m.direction && out->src == m.src && out->dst == m.dst, "header changed");
    PBT_CHECK(out->count == m.count, m.count << " entries were sent, " << out->count << " arrived");
    c.ops += m.count;
    return out;
}

void c10(pbt::Src &s, pbt::Case &c) {
    const std::size_t n = several(s, 6, 300, 100), cap = n + s.below(3);
    const int kind = (int) s.below(5);
    const bool resp = s.coin();
    const int src = (int) s.range(-1, 70000), dst = (int) s.range(-1, 70000);
    const std::string pre = s.coin() ? "given" : "";
    Arena ar;
    std::vector<WireOp> w;
    for (std::size_t i = 0; i < n; i++) w.push_back(gen_wire(s, resp && kind == 2));
    static const char *names[] = {"put", "get", "getop", "delete", "histogram"};
    c.desc << names[kind] << (resp ? " response" : " request") << " n=" << n << " src=" << src << " dst=" << dst;
    for (auto const &x : w) c.desc << "\n" << hex(x.s) << "," << hex(x.p) << "," << hex(x.o) << " types " << x.st << "," << x.pt << "," << x.ot << " nrec=" << x.nrec << " op=" << x.gop << " status=" << x.status << " recs=" << x.recs.size();
    c.label(std::string(names[kind]) + (resp ? " response" : " request"));
    std::string image;
    auto blob = [&](const std::string &v, hxhim_data_t t) { return ReferenceBlob(ar.put(v), v.size(), t); };
    auto own = [&](const std::string &v, hxhim_data_t t) { return RealBlob(v.size(), v.data(), t); };
    typedef Message::Request::Request RQ;
    typedef Message::Response::Response RS;
    c.nontrivial = n > 1;
    {
        // values are equal when nothing about them differs
        WireOp const &x = w[s.below(n)];
        const Blob a = own(x.s, x.st), same = own(x.s, x.st), type = own(x.s, x.st == HXHIM_DATA_BYTE ? HXHIM_DATA_POINTER : HXHIM_DATA_BYTE), longer = own(x.s + "x", x.st);
        std::string y = x.s;
        y[s.below(y.size())] ^= (char) (1 + s.below(255));
        const Blob other = own(y, x.st);
        PBT_CHECK(a == a && a == same && !(a != same), "a value is not equal to its copy");
        PBT_CHECK(a != other && !(a == other), hex(x.s) << " is equal to " << hex(y));
        PBT_CHECK(a != type && a != longer && longer != a, hex(x.s) << " is equal to a value of another type or length");
    }
    if (!resp) {
        std::unique_ptr<RQ> out;
        switch (kind) {
            case 0: {
                Message::Request::BPut m(cap); m.src = src; m.dst = dst;
                for (auto const &x : w) m.add(blob(x.s, x.st), blob(x.p, x.pt), blob(x.o, x.ot));
                out.reset(through<Message::Request::BPut, RQ>(m, pre, c, image));
                auto *o = static_cast<Message::Request::BPut *>(out.get());
                for (std::size_t i = 0; i < n; i++)
                    PBT_CHECK(is(o->subjects[i], w[i].s, w[i].st) && is(o->predicates[i], w[i].p, w[i].pt) && is(o->objects[i], w[i].o, w[i].ot)
                        && o->orig.subjects[i] == m.subjects[i].data() && o->orig.predicates[i] == m.predicates[i].data(), "entry " << i << " changed");
                break;
            }
            case 1: {
                Message::Request::BGet m(cap); m.src = src; m.dst = dst;
                for (auto const &x : w) m.add(blob(x.s, x.st), blob(x.p, x.pt), x.ot);
                out.reset(through<Message::Request::BGet, RQ>(m, pre, c, image));
                auto *o = static_cast<Message::Request::BGet *>(out.get());
                for (std::size_t i = 0; i < n; i++)
                    PBT_CHECK(is(o->subjects[i], w[i].s, w[i].st) && is(o->predicates[i], w[i].p, w[i].pt) && o->object_types[i] == w[i].ot
                        && o->orig.subjects[i] == m.subjects[i].data() && o->orig.predicates[i] == m.predicates[i].data(), "entry " << i << " changed");
                break;
            }
            case 2: {
                Message::Request::BGetOp m(cap); m.src = src; m.dst = dst;
                for (auto const &x : w) {
                    const bool nokey = x.gop == HXHIM_GETOP_FIRST || x.gop == HXHIM_GETOP_LAST;
                    m.add(nokey ? Blob() : blob(x.s, x.st), nokey || x.null_pred ? Blob((void *) nullptr, 0, x.pt) : blob(x.p, x.pt), x.ot, x.nrec, x.gop);
                }
                out.reset(through<Message::Request::BGetOp, RQ>(m, pre, c, image));
                auto *o = static_cast<Message::Request::BGetOp *>(out.get());
                for (std::size_t i = 0; i < n; i++) {
                    const bool nokey = w[i].gop == HXHIM_GETOP_FIRST || w[i].gop == HXHIM_GETOP_LAST;
                    PBT_CHECK(o->ops[i] == w[i].gop && o->object_types[i] == w[i].ot && o->num_recs[i] == w[i].nrec, "entry " << i << ": operation changed");
                    if (!nokey) PBT_CHECK(is(o->subjects[i], w[i].s, w[i].st) && is(o->predicates[i], w[i].null_pred ? "" : w[i].p, w[i].pt), "entry " << i << ": key changed");
                }
                break;
            }
            case 3: {
                Message::Request::BDelete m(cap); m.src = src; m.dst = dst;
                for (auto const &x : w) m.add(blob(x.s, x.st), blob(x.p, x.pt));
                out.reset(through<Message::Request::BDelete, RQ>(m, pre, c, image));
                auto *o = static_cast<Message::Request::BDelete *>(out.get());
                for (std::size_t i = 0; i < n; i++)
                    PBT_CHECK(is(o->subjects[i], w[i].s, w[i].st) && is(o->predicates[i], w[i].p, w[i].pt)
                        && o->orig.subjects[i] == m.subjects[i].data() && o->orig.predicates[i] == m.predicates[i].data(), "entry " << i << " changed");
                break;
            }
            default: {
                Message::Request::BHistogram m(cap); m.src = src; m.dst = dst;
                for (auto const &x : w) m.add(blob(x.s, HXHIM_DATA_BYTE));
                out.reset(through<Message::Request::BHistogram, RQ>(m, pre, c, image));
                auto *o = static_cast<Message::Request::BHistogram *>(out.get());
                for (std::size_t i = 0; i < n; i++) PBT_CHECK(str(o->names[i]) == w[i].s, "name " << i << " changed");
            }
        }
        // a request is not accepted as a response
        Message::Response::Response *wrong = nullptr;
        PBT_CHECK(Message::Unpacker::unpack(&wrong, (void *) image.data(), image.size()) != MESSAGE_SUCCESS && !wrong, "a request was unpacked as a response");
        return;
    }
    std::unique_ptr<RS> out;
    auto orig = [&](std::size_t i, const WireOp &x, int k) { return ReferenceBlob(addr_of(i, k), k ? x.p.size() : x.s.size(), k ? x.pt : x.st); };
    auto origs = [&](Message::Response::SubjectPredicate *o) {
        for (std::size_t i = 0; i < n; i++) {
            PBT_CHECK(o->statuses[i] == w[i].status, "status " << i << " changed");
            PBT_CHECK(o->orig.subjects[i].data() == addr_of(i, 0) && o->orig.subjects[i].size() == w[i].s.size() && o->orig.subjects[i].data_type() == w[i].st, "subject reference " << i << " changed");
            PBT_CHECK(o->orig.predicates[i].data() == addr_of(i, 1) && o->orig.predicates[i].size() == w[i].p.size() && o->orig.predicates[i].data_type() == w[i].pt, "predicate reference " << i << " changed");
        }
    };
    switch (kind) {
        case 0: {
            Message::Response::BPut m(cap); m.src = src; m.dst = dst;
            for (std::size_t i = 0; i < n; i++) m.add(orig(i, w[i], 0), orig(i, w[i], 1), w[i].status);
            out.reset(through<Message::Response::BPut, RS>(m, pre, c, image));
            origs(static_cast<Message::Response::SubjectPredicate *>(out.get()));
            break;
        }
        case 1: {
            Message::Response::BGet m(cap); m.src = src; m.dst = dst;
            for (std::size_t i = 0; i < n; i++) m.add(orig(i, w[i], 0), orig(i, w[i], 1), w[i].status == DATASTORE_SUCCESS ? own(w[i].o, w[i].ot) : Blob(), w[i].status);
            out.reset(through<Message::Response::BGet, RS>(m, pre, c, image));
            auto *o = static_cast<Message::Response::BGet *>(out.get());
            origs(o);
            for (std::size_t i = 0; i < n; i++) if (w[i].status == DATASTORE_SUCCESS) PBT_CHECK(is(o->objects[i], w[i].o, w[i].ot), "object " << i << " changed");
            break;
        }
        case 2: {
            Message::Response::BGetOp m(cap); m.src = src; m.dst = dst;
            for (auto const &x : w) {
                const std::size_t k = x.recs.size();
                Blob *a = alloc_array<Blob>(k), *b = alloc_array<Blob>(k), *d = alloc_array<Blob>(k);
                for (std::size_t j = 0; j < k; j++) {
                    a[j] = own(x.recs[j].s, x.recs[j].st); b[j] = own(x.recs[j].p, x.recs[j].pt);
                    if (x.status == DATASTORE_SUCCESS) d[j] = own(x.recs[j].o, x.recs[j].ot);
                }
                m.add(a, b, d, k, x.status);
            }
            out.reset(through<Message::Response::BGetOp, RS>(m, pre, c, image));
            auto *o = static_cast<Message::Response::BGetOp *>(out.get());
            for (std::size_t i = 0; i < n; i++) {
                PBT_CHECK(o->statuses[i] == w[i].status, "status " << i << " changed");
                PBT_CHECK(o->num_recs[i] == w[i].recs.size(), "record count " << i << " changed");
                for (std::size_t j = 0; j < w[i].recs.size(); j++) {
                    auto const &r = w[i].recs[j];
                    PBT_CHECK(is(o->subjects[i][j], r.s, r.st) && is(o->predicates[i][j], r.p, r.pt), "record " << i << "." << j << " changed");
                    if (w[i].status == DATASTORE_SUCCESS) PBT_CHECK(is(o->objects[i][j], r.o, r.ot), "object " << i << "." << j << " changed");
                }
            }
            break;
        }
        case 3: {
            Message::Response::BDelete m(cap); m.src = src; m.dst = dst;
            for (std::size_t i = 0; i < n; i++) m.add(orig(i, w[i], 0), orig(i, w[i], 1), w[i].status);
            out.reset(through<Message::Response::BDelete, RS>(m, pre, c, image));
            origs(static_cast<Message::Response::SubjectPredicate *>(out.get()));
            break;
        }
        default: {
            Message::Response::BHistogram m(cap); m.src = src; m.dst = dst;
            std::vector<std::shared_ptr<Histogram::Histogram>> hs;
            for (auto const &x : w) {
                Histogram::Config hc{1 + x.nrec % 5, histogram_n_buckets, (void *) (uintptr_t) (1 + x.nrec % 4)};
                hs.push_back(std::shared_ptr<Histogram::Histogram>(construct<Histogram::Histogram>(hc, x.s), Histogram::deleter));
                for (std::size_t k = 0; k < x.o.size() % 12; k++) hs.back()->add((double) (int) (k * 37 % 11) - 3.5);
                m.add(hs.back(), x.status);
            }
            out.reset(through<Message::Response::BHistogram, RS>(m, pre, c, image));
            auto *o = static_cast<Message::Response::BHistogram *>(out.get());
            for (std::size_t i = 0; i < n; i++) {
                PBT_CHECK(o->statuses[i] == w[i].status, "status " << i << " changed");
                if (w[i].status != DATASTORE_SUCCESS) continue;
                std::string name; o->histograms[i]->get_name(name);
                PBT_CHECK(name == w[i].s, "histogram name changed to " << hex(name));
                double *b1 = nullptr, *b2 = nullptr; std::size_t *c1 = nullptr, *c2 = nullptr, z1 = 0, z2 = 0;
                const int r1 = hs[i]->get(&b1, &c1, &z1), r2 = o->histograms[i]->get(&b2, &c2, &z2);
                PBT_CHECK(r1 == r2 && z1 == z2, "histogram size changed");
                for (std::size_t k = 0; r1 == HISTOGRAM_SUCCESS && k < z1; k++) PBT_CHECK(b1[k] == b2[k] && c1[k] == c2[k], "histogram bucket changed");
            }
        }
    }
    Message::Request::Request *wrong = nullptr;
    PBT_CHECK(Message::Unpacker::unpack(&wrong, (void *) image.data(), image.size()) != MESSAGE_SUCCESS && !wrong, "a response was unpacked as a request");
}

// -------------------------------------------------------------- C11, C12

struct Gen { const char *name; HistogramBucketGenerator_t f; void *extra; };
int uneven(const double *first_n, const size_t n, double **buckets, size_t *size, void *extra) {
    // left ends taken from the data: sorted, distinct, at most 4
    const std::size_t want = (std::size_t) (uintptr_t) extra;
    std::vector<double> v(first_n, first_n + n);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    if (v.empty()) v.push_back(0);
    if (v.size() > want) v.resize(want);
    *size = v.size();
    *buckets = alloc_array<double>(*size + 1);
    std::copy(v.begin(), v.end(), *buckets);
    return HISTOGRAM_SUCCESS;
}
Gen gen_gen(pbt::Src &s) {
    const std::size_t n = several(s, 12, 700, 25);
    switch (s.below(7)) {
        case 0: return {"n_buckets", histogram_n_buckets, (void *) (uintptr_t) n};
        case 1: return {"square root", histogram_square_root_choice, nullptr};
        case 2: return {"sturges", histogram_sturges_formula, nullptr};
        case 3: return {"rice", histogram_rice_rule, nullptr};
        case 4: return {"scott", histogram_scotts_normal_reference_rule, nullptr};
        case 5: return {"logn", histogram_uniform_logn, (void *) (uintptr_t) (n + 1)};
        default: return {"uneven", uneven, (void *) (uintptr_t) (1 + n % 4)};
    }
}
std::vector<double> gen_data(pbt::Src &s, std::size_t max) {
    std::vector<double> v(s.small(max));
    const double scale = s.pick(std::vector<double>{1, 0.001, 10, 250});
    const double off = s.pick(std::vector<double>{0, -5, -1000, 100});
    const bool same_values = s.chance(1, 8);
    for (auto &x : v) x = same_values ? off : off + scale * ((double) s.range(-40, 40) / 8);
    return v;
}
struct Snap { int rc = 0; std::vector<double> b; std::vector<std::size_t> c; std::size_t n = 0; std::vector<double> cache; std::size_t first_n = 0; };
Snap snap(const Histogram::Histogram &h) {
    Snap r;
    double *b = nullptr; std::size_t *c = nullptr, z = 0;
    r.rc = h.get(&b, &c, &z);
    if (r.rc == HISTOGRAM_SUCCESS && b && c) { r.n = z; r.b.assign(b, b + z + 1); r.c.assign(c, c + z); }
    return r;
}
// what the built-in rules promise: how many buckets, and how wide they are
struct Plan { double buckets, width; };      // buckets < 1: one bucket; width < 0: the range divided by the number
Plan rule(const Gen &g, const std::vector<double> &v) {
    const double n = (double) v.size(), range = *std::max_element(v.begin(), v.end()) - *std::min_element(v.begin(), v.end()), x = (double) (uintptr_t) g.extra;
    if (g.f == histogram_n_buckets) return {x, std::ceil(range / x)};
    if (g.f == histogram_square_root_choice) return {std::sqrt(n), -1};
    if (g.f == histogram_sturges_formula) return {std::log2(n) + 2, -1};
    if (g.f == histogram_rice_rule) return {std::cbrt(n) + 2, -1};
    if (g.f == histogram_uniform_logn) return {std::ceil(range * std::log(x) / std::log(range)), -1};
    double mean = 0, sq = 0;
    for (double d : v) mean += d / n;
    for (double d : v) sq += (d - mean) * (d - mean);
    const double dev = n > 1 ? std::sqrt(sq / (n - 1)) : 0;
    return {dev > 0 ? range / (3.5 * dev / std::cbrt(n)) : 0, -1};
}
void c11(pbt::Src &s, pbt::Case &c) {
    const bool lots = s.chance(1, 40);
    const std::size_t first_n = s.chance(1, 10) ? 1 : 1 + s.small(lots ? 400 : 40);
    const Gen g = gen_gen(s);
    std::vector<double> data = gen_data(s, lots ? 900 : 90);
    Histogram::Histogram h(Histogram::Config{first_n, g.f, g.extra}, "n");
    c.desc << g.name << "(" << (std::size_t) (uintptr_t) g.extra << ") first_n=" << first_n << " data";
    for (double d : data) c.desc << " " << d;
    c.label(g.name);
    std::vector<double> ends;
    std::size_t before = 0;
    for (std::size_t i = 0; i < data.size(); i++) {
        const int added = h.add(data[i]);
        if (g.f == histogram_uniform_logn && added != HISTOGRAM_SUCCESS) {
            // the rule divides by log(max - min)
            auto mm = std::minmax_element(data.begin(), data.begin() + first_n);
            if (*mm.second - *mm.first == 1) { c.label("no finite bucket count"); return; }
        }
        PBT_CHECK(added == HISTOGRAM_SUCCESS, "add of value " << i << " failed");
        Snap q = snap(h);
        PBT_CHECK((q.rc == HISTOGRAM_SUCCESS) == (i + 1 >= first_n), i + 1 << " of " << first_n << " values were added, get returned " << q.rc);
        if (q.rc != HISTOGRAM_SUCCESS) continue;
        if (lots && i + 1 != first_n && i + 1 != data.size() && i % 61) continue;
        PBT_CHECK(q.n >= 1, "no buckets");
        if (ends.empty()) {
            ends.assign(q.b.begin(), q.b.end() - 1);
            const double lo = *std::min_element(data.begin(), data.begin() + first_n);
            PBT_CHECK(ends[0] == lo, "the first bucket starts at " << ends[0] << ", the smallest of the first values is " << lo);
            PBT_CHECK(std::is_sorted(ends.begin(), ends.end()), "the buckets are not in order");
            if (g.f != uneven) {
                const std::vector<double> firsts(data.begin(), data.begin() + first_n);
                const Plan p = rule(g, firsts);
                const double range = *std::max_element(firsts.begin(), firsts.end()) - lo;
                // equal values have rounding errors for a range, the same for numbers next to an integer
                const double eps = 1e-9 * (1 + p.buckets);
                const std::size_t least = p.buckets - eps < 1 ? 1 : (std::size_t) (p.buckets - eps), most = p.buckets + eps < 1 ? 1 : (std::size_t) (p.buckets + eps);
                PBT_CHECK(ends.size() >= least && ends.size() <= most, g.name << " with " << first_n << " values over " << range << ": " << ends.size() << " buckets, expected " << least);
                const double width = p.width < 0 ? range / ends.size() : p.width;
                for (std::size_t j = 0; j < ends.size(); j++) PBT_CHECK(std::fabs(ends[j] - (lo + j * width)) <= 1e-9 * (std::fabs(lo) + range + j * width), "bucket " << j << " starts at " << ends[j] << ", expected " << lo + j * width);
            }
        } else PBT_CHECK(std::equal(ends.begin(), ends.end(), q.b.begin()) && q.n == ends.size(), "the buckets changed after they were generated");
        // every value that was added is counted once, in the last bucket that starts at or below it
        std::vector<std::size_t> want(ends.size(), 0);
        double top = -std::numeric_limits<double>::infinity();
        std::size_t total = 0;
        for (std::size_t k = 0; k <= i; k++) {
            if (data[k] < ends[0]) continue;
            std::size_t j = ends.size() - 1;
            while (ends[j] > data[k]) j--;
            want[j]++; total++;
            top = std::max(top, data[k]);
        }
        for (std::size_t j = 0; j < want.size(); j++)
            PBT_CHECK(q.c[j] == want[j], "after " << i + 1 << " values bucket " << j << " (from " << ends[j] << ") counts " << q.c[j] << ", expected " << want[j]);
        PBT_CHECK(q.b.back() == top, "the upper bound is " << q.b.back() << ", the largest value is " << top);
        PBT_CHECK(total >= before, "a count went down");
        before = total;
    }
    c.ops = data.size();
    c.nontrivial = ends.size() > 1 && data.size() > first_n;
}
void equal(const Histogram::Histogram &a, const Histogram::Histogram &b, const char *when) {
    Snap x = snap(a), y = snap(b);
    std::string na, nb; a.get_name(na); b.get_name(nb);
    PBT_CHECK(na == nb, when << ": name " << hex(na) << " became " << hex(nb));
    PBT_CHECK(x.rc == y.rc, when << ": readiness changed");
    PBT_CHECK(x.b == y.b, when << ": buckets changed");
    PBT_CHECK(x.c == y.c, when << ": counts changed");
    std::size_t f1 = 0, f2 = 0, n1 = 0, n2 = 0; double *c1 = nullptr, *c2 = nullptr;
    a.get_cache(&f1, &c1, &n1); b.get_cache(&f2, &c2, &n2);
    PBT_CHECK(f1 == f2 && n1 == n2, when << ": " << n1 << " of " << f1 << " initial values became " << n2 << " of " << f2);
    if (n1 < f1) for (std::size_t i = 0; i < n1; i++) PBT_CHECK(c1[i] == c2[i], when << ": initial value " << i << " changed");
}
void c12(pbt::Src &s, pbt::Case &c) {
    const std::size_t first_n = s.small(30);
    Gen g = gen_gen(s);
    if (first_n == 0) g = {"uneven", uneven, (void *) 1};
    const std::string name = raw_bytes(s, 40);
    std::vector<double> data = gen_data(s, 70), more = gen_data(s, 40), other = gen_data(s, 20);
    const Histogram::Config hc{first_n, g.f, g.extra};
    Histogram::Histogram a(hc, name);
    for (double d : data) a.add(d);
    c.desc << g.name << " first_n=" << first_n << " name=" << hex(name) << " " << data.size() << " values, then " << more.size();
    c.label(data.size() < first_n ? "incomplete" : "with buckets");
    // the receiver may have held something else before
    Histogram::Histogram b(Histogram::Config{s.coin() ? first_n : 1 + s.below(20), g.f, g.extra}, "other");
    if (s.coin()) for (double d : other) b.add(d);
    // packed in place between other data
    const std::size_t sz = a.pack_size(), pre = s.below(9);
    std::vector<char> buf(pre + sz);
    char *cur = buf.data() + pre; std::size_t avail = sz, used = 0;
    if (sz > 1) { char *c2 = cur; std::size_t less = sz - 1; PBT_CHECK(!a.pack(c2, less, nullptr), "packed into a buffer that is too small"); }
    PBT_CHECK(a.pack(cur, avail, &used), "pack failed");
    PBT_CHECK(used == sz && cur == buf.data() + pre + sz && avail == 0, "pack used " << used << " of " << sz << " announced bytes");
    cur = buf.data() + pre; avail = sz; used = 0;
    PBT_CHECK(b.unpack(cur, avail, &used), "unpack failed");
    PBT_CHECK(used == sz && cur == buf.data() + pre + sz, "unpack used " << used << " of " << sz << " bytes");
    equal(a, b, "after unpacking");
    // the copy goes on as the original would
    for (std::size_t i = 0; i < more.size(); i++) {
        a.add(more[i]); b.add(more[i]);
        equal(a, b, "after more values");
    }
    // and the allocating form
    void *p = nullptr; std::size_t n = 0;
    PBT_CHECK(b.pack(&p, &n) && p, "pack failed");
    Histogram::Histogram d(hc, "");
    PBT_CHECK(d.unpack(p, n), "unpack failed");
    ::dealloc(p);
    equal(a, d, "after a second trip");
    c.ops = data.size() + more.size();
    c.nontrivial = data.size() >= 2;
}

pbt::Reg r7("C07", "two pairs of arbitrary byte strings and types, the second derived from the first so that it is easily confused with it (other split, swapped, other types, "
    "extended, containing the other's key). Non-trivial: the pairs differ and are not empty", c07, 1000000, 60000000, 4000);
pbt::Reg r8("C08", "two integers of one of eight types, edge values, values around powers of ten, neighbours, and alternative sign symbols. Non-trivial: distinct, the first not zero",
    c08, 1500000, 90000000, 4000);
pbt::Reg r9("C09", "two numbers of float or double over the whole finite range, neighbours, exponent boundaries, decimals of several precisions, alternative sign symbols. "
    "Non-trivial: further apart than the encoding's precision", c09, 1000000, 60000000, 4000);
pbt::Reg r10("C10", "a request or response of each of the five kinds with random entries, packed into an exactly sized buffer that is destroyed after unpacking. Non-trivial: two or more entries",
    c10, 500000, 30000000, 2000);
pbt::Reg r11("C11", "a bucket rule, a threshold and a data series (negative, equal, scaled); after every value the counts are compared with a recount. "
    "Non-trivial: more than one bucket and values after the buckets were generated", c11, 600000, 40000000, 2000);
pbt::Reg r12("C12", "a histogram in any state, serialised in place, unpacked over another histogram, and both continued. Non-trivial: two or more values", c12, 400000, 24000000, 2000);

}
