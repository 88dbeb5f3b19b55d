// Shared harness layer: opens HXHIM sessions through the public API, builds
// typed values and reads results back into plain structures.
#ifndef VERIF_HX_HPP
#define VERIF_HX_HPP

#include "pbt.hpp"

#include <algorithm>
#include <cmath>
#include <deque>
#include <filesystem>
#include <functional>
#include <iomanip>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <tuple>

#include <mpi.h>
#include <unistd.h>

#include "hxhim/hxhim.hpp"
#include "utils/Histogram.hpp"
#include "utils/mlog2.h"
#include "utils/mlogfacs2.h"

namespace hxt {

inline MPI_Comm comm() {
    static bool done = false;
    if (!done) {
        int provided = 0;
        MPI_Init_thread(nullptr, nullptr, MPI_THREAD_MULTIPLE, &provided);
        done = true;
    }
    return MPI_COMM_WORLD;
}

inline std::string hex(const std::string &s) {
    std::ostringstream o;
    bool plain = s.size() <= 24;
    for (unsigned char c : s) if (c < 0x20 || c > 0x7e || c == '"' || c == '\\') plain = false;
    if (plain) { o << '"' << s << '"'; return o.str(); }
    o << "x'";
    for (std::size_t i = 0; i < s.size() && i < 24; i++) o << std::hex << std::setw(2) << std::setfill('0') << (unsigned) (unsigned char) s[i];
    o << "'";
    if (s.size() > 24) {
        std::uint64_t h = 1469598103934665603ULL;
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
        o << std::dec << "..(" << s.size() << " bytes, " << std::hex << (h & 0xffff) << ")";
    }
    return o.str();
}

// a typed value
struct Val {
    hxhim_data_t type = HXHIM_DATA_INVALID;
    std::string bytes;
    bool operator<(const Val &o) const { return std::tie(type, bytes) < std::tie(o.type, o.bytes); }
    bool operator==(const Val &o) const { return type == o.type && bytes == o.bytes; }
    bool operator!=(const Val &o) const { return !(*this == o); }
};
template <typename T> Val num(hxhim_data_t t, T v) { Val r; r.type = t; r.bytes.assign((const char *) &v, sizeof(v)); return r; }
inline Val byte(const std::string &s) { Val r; r.type = HXHIM_DATA_BYTE; r.bytes = s; return r; }
template <typename T> T as(const Val &v) { T t; memcpy(&t, v.bytes.data(), sizeof(t)); return t; }

inline std::ostream &operator<<(std::ostream &o, const Val &v) {
    const bool ok4 = v.bytes.size() == 4, ok8 = v.bytes.size() == 8;
    switch (v.type) {
        case HXHIM_DATA_INT32:  if (ok4) return o << "i32:" << as<std::int32_t>(v); break;
        case HXHIM_DATA_INT64:  if (ok8) return o << "i64:" << as<std::int64_t>(v); break;
        case HXHIM_DATA_UINT32: if (ok4) return o << "u32:" << as<std::uint32_t>(v); break;
        case HXHIM_DATA_UINT64: if (ok8) return o << "u64:" << as<std::uint64_t>(v); break;
        case HXHIM_DATA_FLOAT:  if (ok4) return o << "f:" << as<float>(v); break;
        case HXHIM_DATA_DOUBLE: if (ok8) return o << "d:" << as<double>(v); break;
        case HXHIM_DATA_POINTER: return o << "ptr:" << hex(v.bytes);
        case HXHIM_DATA_BYTE: return o << hex(v.bytes);
        default: break;
    }
    return o << "type" << (int) v.type << ":" << hex(v.bytes);
}

// a stored floating point number keeps the documented number of digits, not every bit
inline bool same(const Val &a, const Val &b) {
    if (a == b) return true;
    if (a.type != b.type || a.bytes.size() != b.bytes.size()) return false;
    double x, y, tol;
    if (a.type == HXHIM_DATA_FLOAT && a.bytes.size() == 4) { x = as<float>(a); y = as<float>(b); tol = 1e-6; }
    else if (a.type == HXHIM_DATA_DOUBLE && a.bytes.size() == 8) { x = as<double>(a); y = as<double>(b); tol = 2e-14; }
    else return false;
    return std::fabs(x - y) <= tol * std::max(std::fabs(x), std::fabs(y));
}

// exactly sized heap copies: an over-read of a user buffer is visible to ASan
class Arena {
public:
    ~Arena() { clear(); }
    void *put(const std::string &s) {
        char *p = new char[s.size() ? s.size() : 1];
        memcpy(p, s.data(), s.size());
        all.push_back(p);
        return p;
    }
    void clear() { for (char *p : all) delete[] p; all.clear(); }
private:
    std::list<char *> all;
};

// ------------------------------------------------------------- generators

struct GenOpts {
    bool big = false;        // allow values of some kilobytes
    bool floats = true;
    bool ints = true;
    bool ptr = true;
};

// how many: mostly a few, now and then hundreds
inline std::size_t several(pbt::Src &s, std::size_t usual, std::size_t lots = 300, unsigned every = 60) {
    return 1 + (s.chance(1, every) ? s.below(lots) : s.below(usual));
}

// byte strings that share prefixes and contain separators, NULs and 0xff
inline std::string gen_bytes(pbt::Src &s, bool big = false) {
    static const std::vector<std::string> alpha = {"a", "b", "ab", std::string("\0", 1), "\xff", "-", "\x01", "0", "/", ":", "zz"};
    if (big && s.chance(1, 12)) {
        std::size_t n = s.chance(1, 12) ? 65000 + s.below(s.coin() ? 1100 : 140000) : 100 + s.below(5000);
        std::string r(n, 'x');
        std::uint64_t k = s.u64();
        for (std::size_t i = 0; i < n; i++) { k = k * 6364136223846793005ULL + 1442695040888963407ULL; r[i] = (char) (k >> 56); }
        return r;
    }
    std::string r;
    std::size_t n = 1 + s.below(3);
    for (std::size_t i = 0; i < n; i++) r += s.pick(alpha);
    return r;
}
template <typename T> T gen_int(pbt::Src &s) {
    switch (s.below(4)) {
        case 0: return (T) s.below(4);
        case 1: return (T) ((std::int64_t) s.below(2001) - 1000);
        case 2: {
            static const std::vector<T> edge = {0, 1, (T) -1, 9, 10, 11, 99, 100, (T) 1000000000, std::numeric_limits<T>::max(),
                (T) (std::numeric_limits<T>::max() - 1), (T) (std::numeric_limits<T>::min() + 1), std::numeric_limits<T>::min()};
            return s.pick(edge);
        }
        default: return (T) s.u64();
    }
}
// numbers whose decimal form is short, so every precision stores them exactly
template <typename T> T gen_exact(pbt::Src &s) {
    const std::int64_t k = (std::int64_t) s.below(4001) - 2000;
    return k == 0 ? (T) 0 : (T) k / (T) 4;
}
inline Val gen_val(pbt::Src &s, const GenOpts &g) {
    switch (s.weighted({6, g.ints ? 1u : 0u, g.ints ? 1u : 0u, g.ints ? 1u : 0u, g.ints ? 1u : 0u, g.floats ? 1u : 0u, g.floats ? 1u : 0u, g.ptr ? 1u : 0u})) {
        case 1: return num<std::int32_t>(HXHIM_DATA_INT32, gen_int<std::int32_t>(s));
        case 2: return num<std::int64_t>(HXHIM_DATA_INT64, gen_int<std::int64_t>(s));
        case 3: return num<std::uint32_t>(HXHIM_DATA_UINT32, gen_int<std::uint32_t>(s));
        case 4: return num<std::uint64_t>(HXHIM_DATA_UINT64, gen_int<std::uint64_t>(s));
        case 5: return num<float>(HXHIM_DATA_FLOAT, gen_exact<float>(s));
        case 6: return num<double>(HXHIM_DATA_DOUBLE, gen_exact<double>(s));
        case 7: { Val v = num<std::uint64_t>(HXHIM_DATA_POINTER, s.u64()); return v; }
        default: { Val v; v.type = HXHIM_DATA_BYTE; v.bytes = gen_bytes(s, g.big); return v; }
    }
}

// ----------------------------------------------------------------- session

enum Backend { MEM = 0, LEVEL = 1, ROCKS = 2 };
inline const char *backend_name(int b) { return b == MEM ? "memory" : b == LEVEL ? "leveldb" : "rocksdb"; }

struct Conf {
    int backend = MEM;
    std::size_t per_server = 1;
    std::string hash;                       // built-in hash name, empty: the harness's own
    hxhim_hash_t hash_func = nullptr;
    void *hash_args = nullptr;
    std::size_t max_ops = 1;
    std::size_t max_size = 0;
    std::size_t async_at = 0;
    bool hist_read = false, hist_write = false;
    std::vector<std::string> hist_names;
    std::size_t hist_first_n = 10;
    std::string hist_gen = "10_BUCKETS";
    HistogramBucketGenerator_t hist_func = nullptr;
    void *hist_args = nullptr;
    std::string prefix = "db", basename = "base", postfix;
    bool create = true;
    int debug = MLOG_EMERG;
    std::function<void(hxhim_t *)> extra;    // more options, before Open
};

inline std::string describe(const Conf &c) {
    std::ostringstream o;
    o << backend_name(c.backend) << " ds=" << c.per_server << " hash=" << (c.hash.size() ? c.hash : "custom") << " max_ops=" << c.max_ops
      << " max_size=" << c.max_size << " async=" << c.async_at;
    if (c.hist_names.size()) {
        o << " hist{read=" << c.hist_read << " write=" << c.hist_write << " first_n=" << c.hist_first_n << " gen=" << c.hist_gen << " names=";
        for (auto const &n : c.hist_names) o << hex(n) << ",";
        o << "}";
    }
    if (c.debug != MLOG_EMERG) o << " debug=0x" << std::hex << c.debug << std::dec;
    return o.str();
}

// the harness's own hash: depends on nothing but the bytes
inline int spread_hash(hxhim_t *hx, void *s, const size_t sl, void *p, const size_t pl, void *) {
    std::size_t n = 1;
    hxhim::GetDatastoreCount(hx, &n);
    std::uint32_t h = 17;
    for (size_t i = 0; i < sl; i++) h = h * 31 + ((unsigned char *) s)[i];
    h = h * 31 + 7;
    for (size_t i = 0; i < pl; i++) h = h * 31 + ((unsigned char *) p)[i];
    h ^= h >> 13; h *= 0x5bd1e995; h ^= h >> 15;
    return (int) (h % n);
}
inline std::size_t spread(const Val &s, const Val &p, std::size_t n) {
    std::uint32_t h = 17;
    for (unsigned char c : s.bytes) h = h * 31 + c;
    h = h * 31 + 7;
    for (unsigned char c : p.bytes) h = h * 31 + c;
    h ^= h >> 13; h *= 0x5bd1e995; h ^= h >> 15;
    return h % n;
}

inline void apply(hxhim_t *hx, const Conf &c) {
    auto ok = [](int rc, const char *what) { PBT_CHECK(rc == HXHIM_SUCCESS, "setting " << what << " returned " << rc); };
    ok(hxhim_set_debug_level(hx, c.debug), "debug level");
    ok(hxhim_set_client_ratio(hx, 1), "client ratio");
    ok(hxhim_set_server_ratio(hx, 1), "server ratio");
    ok(hxhim_set_datastores_per_server(hx, c.per_server), "datastores per server");
    ok(hxhim_set_datastore_name(hx, c.prefix.c_str(), c.basename.c_str(), c.postfix.c_str()), "datastore name");
    if (c.backend == MEM) ok(hxhim_set_datastore_in_memory(hx), "in-memory datastore");
    else if (c.backend == LEVEL) ok(hxhim_set_datastore_leveldb(hx, c.create), "leveldb datastore");
    else ok(hxhim_set_datastore_rocksdb(hx, c.create), "rocksdb datastore");
    ok(hxhim_set_transport_null(hx), "null transport");
    if (c.hash.size()) ok(hxhim_set_hash_name(hx, c.hash.c_str()), "hash name");
    else ok(hxhim_set_hash_function(hx, "verif", c.hash_func ? c.hash_func : spread_hash, c.hash_args), "hash function");
    ok(hxhim_set_start_async_puts_at(hx, c.async_at), "async puts");
    ok(hxhim_set_maximum_ops_per_request(hx, c.max_ops), "maximum ops");
    ok(hxhim_set_maximum_size_per_request(hx, c.max_size), "maximum size");
    ok(hxhim_set_histogram_first_n(hx, c.hist_first_n), "histogram first n");
    if (c.hist_func) ok(hxhim_set_histogram_bucket_gen_function(hx, c.hist_func, c.hist_args), "histogram generator");
    else ok(hxhim_set_histogram_bucket_gen_name(hx, c.hist_gen.c_str()), "histogram generator");
    for (auto const &n : c.hist_names) ok(hxhim_add_histogram_track_predicate(hx, n.data(), n.size()), "histogram name");
    ok(hxhim_datastore_histograms(hx, c.hist_read, c.hist_write), "histogram read/write");
    if (c.extra) c.extra(hx);
}

class Session {
public:
    hxhim_t hx;
    Conf cfg;
    Arena arena;              // user buffers: live until after Close
    bool open_ = false;
    MPI_Comm world = nullptr; // communicator to open with, nullptr: the process's own
    Session() { hx.p = nullptr; }
    ~Session() { try { close(); } catch (...) {} }
    // either form of the calls, depending on the configuration
    bool c_form() const { return (cfg.max_ops + cfg.per_server) & 1; }
    void init() { init(c_form()); }
    void init(bool c_api) {
        MPI_Comm c = world ? world : comm();
        PBT_CHECK((c_api ? hxhimInit(&hx, c) : hxhim::Init(&hx, c)) == HXHIM_SUCCESS, "Init failed");
        open_ = true;         // holds state from here on
    }
    void open(const Conf &c) {
        cfg = c;
        init();
        apply(&hx, c);
        const int rc = c_form() ? hxhimOpen(&hx) : hxhim::Open(&hx);
        if (rc != HXHIM_SUCCESS) { open_ = false; PBT_FAIL("Open returned " << rc << " for " << describe(c)); }
    }
    int try_open(const Conf &c) {
        cfg = c;
        init();
        apply(&hx, c);
        const int rc = c_form() ? hxhimOpen(&hx) : hxhim::Open(&hx);
        if (rc != HXHIM_SUCCESS) open_ = false;
        return rc;
    }
    void close() {
        if (!open_) return;
        open_ = false;
        const int rc = c_form() ? hxhimClose(&hx) : hxhim::Close(&hx);
        arena.clear();
        PBT_CHECK(rc == HXHIM_SUCCESS, "Close returned " << rc);
    }
    // forget the session without closing (used by processes that are about to die)
    void abandon() { open_ = false; }
};

// a scratch directory for one case
class Dir {
public:
    std::string path;
    Dir() {
        static unsigned n = 0;
        path = pbt::scratch() + "/c" + std::to_string(getpid()) + "_" + std::to_string(n++);
        std::filesystem::create_directories(path);
    }
    ~Dir() {
        std::error_code ec;
        if (path.compare(0, pbt::scratch().size() + 1, pbt::scratch() + "/") == 0) std::filesystem::remove_all(path, ec);
    }
};

// ----------------------------------------------------------------- results

struct HistRec { bool ready = false; std::vector<double> buckets;   // buckets: left ends, then the upper bound
    std::vector<std::size_t> counts; std::string name; };

struct Rec {
    hxhim_op_t op = HXHIM_INVALID;
    int status = 0;
    int rs = -1;
    Val s, p, o;
    void *sp = nullptr, *pp = nullptr;      // addresses returned
    bool has_sp = false, has_o = false, has_h = false;
    HistRec h;
};

inline Val to_val(void *ptr, std::size_t len, hxhim_data_t t) { Val v; v.type = t; if (ptr && len) v.bytes.assign((const char *) ptr, len); return v; }

// reads every result through the C++ accessors, then destroys the list
inline std::vector<Rec> drain(hxhim::Results *res) {
    std::vector<Rec> out;
    PBT_CHECK(res, "no result list");
    const std::size_t n = res->Size();
    HXHIM_CXX_RESULTS_LOOP(res) {
        Rec r;
        PBT_CHECK(res->Op(&r.op) == HXHIM_SUCCESS, "Op accessor failed");
        PBT_CHECK(res->Status(&r.status) == HXHIM_SUCCESS, "Status accessor failed");
        PBT_CHECK(res->RangeServer(&r.rs) == HXHIM_SUCCESS, "RangeServer accessor failed");
        void *ptr = nullptr; std::size_t len = 0; hxhim_data_t t = HXHIM_DATA_INVALID;
        if (r.op == HXHIM_PUT || r.op == HXHIM_GET || r.op == HXHIM_GETOP || r.op == HXHIM_DELETE) {
            PBT_CHECK(res->Subject(&ptr, &len, &t) == HXHIM_SUCCESS, "Subject accessor failed");
            r.s = to_val(ptr, len, t); r.sp = ptr;
            ptr = nullptr; len = 0;
            PBT_CHECK(res->Predicate(&ptr, &len, &t) == HXHIM_SUCCESS, "Predicate accessor failed");
            r.p = to_val(ptr, len, t); r.pp = ptr;
            r.has_sp = true;
        }
        if ((r.op == HXHIM_GET || r.op == HXHIM_GETOP) && r.status == HXHIM_SUCCESS) {
            ptr = nullptr; len = 0;
            PBT_CHECK(res->Object(&ptr, &len, &t) == HXHIM_SUCCESS, "Object accessor failed");
            r.o = to_val(ptr, len, t);
            r.has_o = true;
        }
        if (r.op == HXHIM_HISTOGRAM && r.status == HXHIM_SUCCESS) {
            const char *name = nullptr; std::size_t nl = 0, sz = 0; double *b = nullptr; std::size_t *c = nullptr;
            // an error here means that the buckets do not exist yet
            r.has_h = true;
            if (res->Histogram(&name, &nl, &b, &c, &sz) == HXHIM_SUCCESS) {
                r.h.ready = true;
                if (sz) { r.h.buckets.assign(b, b + sz + 1); r.h.counts.assign(c, c + sz); }
            }
            if (name) r.h.name.assign(name, nl);
        }
        out.push_back(r);
    }
    PBT_CHECK(out.size() == n, "Size() says " << n << " results, iterating yields " << out.size());
    hxhim::Results::Destroy(res);
    return out;
}

// the same through the C interface
inline std::vector<Rec> drain(hxhim_results_t *res) {
    std::vector<Rec> out;
    PBT_CHECK(res && hxhim_results_valid(res) == HXHIM_SUCCESS, "no result list");
    std::size_t n = 0;
    PBT_CHECK(hxhim_results_size(res, &n) == HXHIM_SUCCESS, "size failed");
    HXHIM_C_RESULTS_LOOP(res) {
        Rec r;
        PBT_CHECK(hxhim_result_op(res, &r.op) == HXHIM_SUCCESS, "op accessor failed");
        PBT_CHECK(hxhim_result_status(res, &r.status) == HXHIM_SUCCESS, "status accessor failed");
        PBT_CHECK(hxhim_result_range_server(res, &r.rs) == HXHIM_SUCCESS, "range server accessor failed");
        void *ptr = nullptr; std::size_t len = 0; hxhim_data_t t = HXHIM_DATA_INVALID;
        if (r.op == HXHIM_PUT || r.op == HXHIM_GET || r.op == HXHIM_GETOP || r.op == HXHIM_DELETE) {
            PBT_CHECK(hxhim_result_subject(res, &ptr, &len, &t) == HXHIM_SUCCESS, "subject accessor failed");
            r.s = to_val(ptr, len, t); r.sp = ptr;
            ptr = nullptr; len = 0;
            PBT_CHECK(hxhim_result_predicate(res, &ptr, &len, &t) == HXHIM_SUCCESS, "predicate accessor failed");
            r.p = to_val(ptr, len, t); r.pp = ptr;
            r.has_sp = true;
        }
        if ((r.op == HXHIM_GET || r.op == HXHIM_GETOP) && r.status == HXHIM_SUCCESS) {
            ptr = nullptr; len = 0;
            PBT_CHECK(hxhim_result_object(res, &ptr, &len, &t) == HXHIM_SUCCESS, "object accessor failed");
            r.o = to_val(ptr, len, t);
            r.has_o = true;
        }
        if (r.op == HXHIM_HISTOGRAM && r.status == HXHIM_SUCCESS) {
            const char *name = nullptr; std::size_t nl = 0, sz = 0; double *b = nullptr; std::size_t *c = nullptr;
            // an error here means that the buckets do not exist yet
            r.has_h = true;
            if (hxhim_result_histogram(res, &name, &nl, &b, &c, &sz) == HXHIM_SUCCESS) {
                r.h.ready = true;
                if (sz) { r.h.buckets.assign(b, b + sz + 1); r.h.counts.assign(c, c + sz); }
            }
            if (name) r.h.name.assign(name, nl);
        }
        out.push_back(r);
    }
    PBT_CHECK(out.size() == n, "size says " << n << " results, iterating yields " << out.size());
    hxhim_results_destroy(res);
    return out;
}

inline std::ostream &operator<<(std::ostream &o, const Rec &r) {
    static const char *names[] = {"PUT", "GET", "GETOP", "DELETE", "SYNC", "HISTOGRAM", "INVALID"};
    o << names[(unsigned) r.op < 7 ? r.op : 6] << "(" << r.s << ", " << r.p;
    if (r.has_o) o << " -> " << r.o;
    return o << ") status=" << (r.status == HXHIM_SUCCESS ? "SUCCESS" : r.status == HXHIM_ERROR ? "ERROR" : "?");
}

}

#endif
