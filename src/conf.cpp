// C18 layout of ranks and datastores, C19 hashes, C20 configuration, C21 options
#include "hist.hpp"

#include <fstream>

#include <fcntl.h>

#include "datastore/datastores.hpp"
#include "hxhim/Datastore.hpp"
#include "hxhim/RangeServer.hpp"
#include "hxhim/config.hpp"
#include "hxhim/hash.h"
#include "hxhim/options.hpp"
#include "hxhim/private/hxhim.hpp"
#include "transport/backend/MPI/Options.hpp"

using namespace hxt;

// ----------------------------------------------------- a world of any size
// The library asks MPI who it is; these answers can be replaced. Barriers of
// such a world do nothing.
namespace { int fake_rank = -1, fake_size = -1; }
extern "C" {
int MPI_Comm_rank(MPI_Comm c, int *r) { if (fake_rank >= 0) { *r = fake_rank; return MPI_SUCCESS; } return PMPI_Comm_rank(c, r); }
int MPI_Comm_size(MPI_Comm c, int *s) { if (fake_size >= 0) { *s = fake_size; return MPI_SUCCESS; } return PMPI_Comm_size(c, s); }
}

namespace {

struct World {
    World(int rank, int size) { comm(); fake_rank = rank; fake_size = size; }
    ~World() { fake_rank = fake_size = -1; }
};

// ------------------------------------------------------------------- C18

// where everything is, written down rank by rank
struct Layout {
    std::vector<int> servers;               // range server id -> rank
    std::vector<int> id;                    // rank -> range server id or -1
    Layout(int size, std::size_t client, std::size_t server) : id(size, -1) {
        for (int r = 0; r < size; r++) {
            const bool is = server >= client || (std::size_t) r - (std::size_t) r / client * client < server;
            if (is) { id[r] = servers.size(); servers.push_back(r); }
        }
    }
};

void c18(pbt::Src &src, pbt::Case &c) {
    namespace RS = hxhim::RangeServer;
    namespace DS = hxhim::Datastore;
    const int size = 1 + src.below(src.chance(1, 4) ? 300 : 24);
    const std::size_t client = 1 + src.below(src.chance(1, 4) ? 40 : 6), server = 1 + src.below(src.chance(1, 4) ? 40 : 6), per = 1 + src.below(5);
    c.desc << size << " ranks, " << client << ":" << server << ", " << per << " datastores per server\n";
    const Layout L(size, client, server);
    const int nservers = L.servers.size(), total = nservers * (int) per;
    for (int r = -2; r < size + 3; r++) {
        const int id = r >= 0 && r < size ? L.id[r] : -1;
        c.ops++;
        PBT_CHECK(RS::get_id(r, size, client, server) == id, "rank " << r << " has range server id " << RS::get_id(r, size, client, server) << ", not " << id);
        if (r < size) {
            PBT_CHECK(RS::get_id(r, client, server) == id, "rank " << r << " has range server id " << RS::get_id(r, client, server) << ", not " << id);
            const int is = r < 0 ? -1 : id >= 0;
            PBT_CHECK(RS::is_range_server(r, client, server) == is, "rank " << r << ": is_range_server is " << RS::is_range_server(r, client, server) << ", not " << is);
        }
        const int is = r < 0 || r >= size ? -1 : id >= 0;
        PBT_CHECK(RS::is_range_server(r, size, client, server) == is, "rank " << r << ": is_range_server is " << RS::is_range_server(r, size, client, server) << ", not " << is);
        for (std::size_t off = 0; off < per + 2; off++) {
            const int ds = id < 0 || off >= per ? -1 : id * (int) per + (int) off;
            PBT_CHECK(DS::get_id(r, off, size, client, server, per) == ds, "datastore " << off << " of rank " << r << " has id " << DS::get_id(r, off, size, client, server, per) << ", not " << ds);
            if (r < size) PBT_CHECK(DS::get_id(r, off, client, server, per) == ds, "datastore " << off << " of rank " << r << " has id " << DS::get_id(r, off, client, server, per) << ", not " << ds);
        }
    }
    for (int i = -2; i < nservers + 3; i++) {
        const int r = i >= 0 && i < nservers ? L.servers[i] : -1;
        PBT_CHECK(RS::get_rank(i, size, client, server) == r, "range server " << i << " is at rank " << RS::get_rank(i, size, client, server) << ", not " << r);
        if (i < nservers) PBT_CHECK(RS::get_rank(i, client, server) == r, "range server " << i << " is at rank " << RS::get_rank(i, client, server) << ", not " << r);
    }
    for (int i = -2; i < total + 3; i++) {
        const int r = i >= 0 && i < total ? L.servers[i / per] : -1;
        PBT_CHECK(DS::get_rank(i, size, client, server, per) == r, "datastore " << i << " is at rank " << DS::get_rank(i, size, client, server, per) << ", not " << r);
        if (i < total) PBT_CHECK(DS::get_rank(i, client, server, per) == r, "datastore " << i << " is at rank " << DS::get_rank(i, client, server, per) << ", not " << r);
    }
    PBT_CHECK(RS::get_id(0, 0, server) == -1 && RS::get_id(0, client, 0) == -1 && RS::get_rank(0, 0, server) == -1 && RS::get_rank(0, client, 0) == -1 &&
              RS::is_range_server(0, 0, server) == -1 && RS::is_range_server(0, client, 0) == -1 && DS::get_rank(0, client, server, 0) == -1 &&
              DS::get_rank(0, 0, server, per) == -1 && DS::get_rank(0, client, 0, per) == -1 && DS::get_id(0, 0, client, server, 0) == -1 &&
              DS::get_id(0, 0, 0, server, per) == -1 && DS::get_id(0, 0, client, 0, per) == -1, "a ratio of 0 was accepted");

    // an instance of some rank of that world
    Dir dir;
    const int me = src.below(size);
    World w(me, size);
    Session S;
    Conf cfg;
    cfg.backend = src.chance(1, 12) ? LEVEL : MEM;
    cfg.per_server = per;
    cfg.prefix = dir.path; cfg.basename = "b"; cfg.postfix = src.coin() ? ".p" : "";
    int target = 0;
    cfg.hash_func = [](hxhim_t *, void *, const size_t, void *, const size_t, void *t) { return *(int *) t; };
    cfg.hash_args = &target;
    cfg.extra = [&](hxhim_t *hx) {
        PBT_CHECK(hxhim_set_client_ratio(hx, client) == HXHIM_SUCCESS && hxhim_set_server_ratio(hx, server) == HXHIM_SUCCESS, "ratios refused");
    };
    S.open(cfg);
    int rank = -1, sz = -1; MPI_Comm cm;
    std::size_t n = 0, cl = 0, sv = 0;
    PBT_CHECK((src.coin() ? hxhimGetMPI(&S.hx, &cm, &rank, &sz) : hxhim::GetMPI(&S.hx, &cm, &rank, &sz)) == HXHIM_SUCCESS && rank == me && sz == size && cm == comm(), "GetMPI says rank " << rank << " of " << sz);
    PBT_CHECK((src.coin() ? hxhimGetRangeServerCount(&S.hx, &n) : hxhim::GetRangeServerCount(&S.hx, &n)) == HXHIM_SUCCESS && n == (std::size_t) nservers, "GetRangeServerCount says " << n << ", not " << nservers);
    PBT_CHECK((src.coin() ? hxhimGetDatastoreCount(&S.hx, &n) : hxhim::GetDatastoreCount(&S.hx, &n)) == HXHIM_SUCCESS && n == (std::size_t) total, "GetDatastoreCount says " << n << ", not " << total);
    PBT_CHECK((src.coin() ? hxhimGetRangeServerClientToServerRatio(&S.hx, &cl, &sv) : hxhim::GetRangeServerClientToServerRatio(&S.hx, &cl, &sv)) == HXHIM_SUCCESS && cl == client && sv == server, "the ratio is " << cl << ":" << sv);
    for (int i = -2; i < total + 3; i++) {
        int r = -7, off = -7;
        // a caller may only want one of the two
        int *pr = src.chance(1, 4) ? nullptr : &r, *po = src.chance(1, 4) ? nullptr : &off;
        const int rc = src.coin() ? hxhimGetDatastoreLocation(&S.hx, i, pr, po) : hxhim::GetDatastoreLocation(&S.hx, i, pr, po);
        if (i < 0 || i >= total) { PBT_CHECK(rc == HXHIM_ERROR, "datastore " << i << " of " << total << " has a location"); continue; }
        PBT_CHECK(rc == HXHIM_SUCCESS && (!pr || r == L.servers[i / per]) && (!po || off == (int) (i % per)),
            "GetDatastoreLocation(" << i << ") returned " << rc << ", rank " << r << " offset " << off << " rather than rank " << L.servers[i / per] << " offset " << i % per);
    }
    // each local datastore is the one with its id
    std::size_t local = 0;
    if (L.id[me] >= 0) for (std::size_t off = 0; off < per; off++) {
        target = L.id[me] * (int) per + (int) off;
        QOp q; q.kind = K_PUT; q.s = byte("s" + std::to_string(off)); q.p = byte("p"); q.o = byte("o");
        PBT_CHECK(submit(S, q, false) == HXHIM_SUCCESS, "PUT refused");
        const std::vector<Rec> rs = flush(S, F_PUTS, false);
        PBT_CHECK(rs.size() == 1 && rs[0].status == HXHIM_SUCCESS && rs[0].rs == target, "a PUT to local datastore " << target << " of rank " << me << " gave " << rs.size() << " results" << (rs.size() ? " from " + std::to_string(rs[0].rs) : ""));
        local++;
    }
    if (cfg.backend == LEVEL) {
        std::set<std::string> want, got;
        if (L.id[me] >= 0) for (std::size_t off = 0; off < per; off++) want.insert("b-" + std::to_string(L.id[me] * per + off) + cfg.postfix);
        for (auto const &e : std::filesystem::directory_iterator(dir.path)) got.insert(e.path().filename().string());
        PBT_CHECK(want == got, "rank " << me << " has " << got.size() << " datastores on disk, expected " << want.size() << (got.size() ? ", the first is " + *got.begin() : ""));
        c.label("names on disk");
    }
    S.close();
    c.label(L.id[me] >= 0 ? "server" : "client only");
    c.label(server >= client ? "all ranks are servers" : "some ranks are servers");
    c.nontrivial = nservers > 1 && size > 2;
}

pbt::Reg r18("C18", "worlds of 1-300 ranks with every client to server ratio up to 40:40 and 1-5 datastores per server; all maps between ranks, range servers and datastores (and out-of-range arguments) are compared with a table written rank by rank, and a real instance of one rank of that world reports the same through the accessors, has the local datastores of that table and, on disk, their names. Non-trivial: two or more servers among three or more ranks.",
    c18, 60000, 2000000);

// ------------------------------------------------------------------- C19

typedef std::uint32_t u32;
u32 mix_jen(u32 &a, u32 &b, u32 &c) {
    static const int sh[9] = {13, -8, 13, 12, -16, 5, 3, -10, 15};
    u32 *v[3] = {&a, &b, &c};
    for (int i = 0; i < 9; i++) {
        u32 &x = *v[i % 3], &y = *v[(i + 1) % 3], &z = *v[(i + 2) % 3];
        x -= y; x -= z; x ^= sh[i] > 0 ? z >> sh[i] : z << -sh[i];
    }
    return c;
}
// the published functions, applied to the subject and then, continuing from its value, to the predicate
u32 ref_hash(const std::string &name, const std::string &s, const std::string &p) {
    auto uc = [](char c) { return (u32) (unsigned char) c; };
    u32 h = 0;
    if (name == "SUM_MOD_DATASTORES") { for (char c : s + p) h += uc(c); return h; }
    if (name == "UTHASH_BER") { for (char c : s + p) h = h * 33 + uc(c); return h; }
    if (name == "UTHASH_SAX") { for (char c : s + p) h ^= (h << 5) + (h >> 2) + uc(c); return h; }
    if (name == "UTHASH_FNV") { h = 2166136261u; for (char c : s + p) h = (h ^ uc(c)) * 16777619u; return h; }
    for (int part = 0; part < 2; part++) {
        const std::string &d = part ? p : s;
        if (name == "UTHASH_OAT") {
            for (char c : d) { h += uc(c); h += h << 10; h ^= h >> 6; }
            h += h << 3; h ^= h >> 11; h += h << 15;
        }
        else if (name == "UTHASH_JEN") {
            if (!part) h = 0xfeedbeefu;
            u32 a = 0x9e3779b9u, b = a;
            std::size_t i = 0;
            auto at = [&](std::size_t k) { return i + k < d.size() ? uc(d[i + k]) : 0u; };
            for (; d.size() - i >= 12; i += 12) {
                a += at(0) | at(1) << 8 | at(2) << 16 | at(3) << 24;
                b += at(4) | at(5) << 8 | at(6) << 16 | at(7) << 24;
                h += at(8) | at(9) << 8 | at(10) << 16 | at(11) << 24;
                mix_jen(a, b, h);
            }
            h += (u32) d.size();
            a += at(0) | at(1) << 8 | at(2) << 16 | at(3) << 24;
            b += at(4) | at(5) << 8 | at(6) << 16 | at(7) << 24;
            h += at(8) << 8; h += at(9) << 16; h += at(10) << 24;
            mix_jen(a, b, h);
        }
        else {                                   // SFH
            if (!part) h = 0xcafebabeu;
            std::size_t i = 0;
            auto g16 = [&](std::size_t k) { return uc(d[i + k + 1]) << 8 | uc(d[i + k]); };
            for (; d.size() - i >= 4; i += 4) { h += g16(0); const u32 t = g16(2) << 11 ^ h; h = h << 16 ^ t; h += h >> 11; }
            switch (d.size() - i) {
                case 3: h += g16(0); h ^= h << 16; h ^= uc(d[i + 2]) << 18; h += h >> 11; break;
                case 2: h += g16(0); h ^= h << 11; h += h >> 17; break;
                case 1: h += uc(d[i]); h ^= h << 10; h += h >> 1; break;
            }
            h ^= h << 3; h += h >> 5; h ^= h << 4; h += h >> 17; h ^= h << 25; h += h >> 6;
        }
    }
    return h;
}

struct Seen { hxhim_t *hx; int ret; std::size_t calls = 0; void *s, *p; std::size_t sl, pl; };
int spy(hxhim_t *hx, void *s, const size_t sl, void *p, const size_t pl, void *args) {
    Seen *e = (Seen *) args;
    e->hx = hx; e->calls++; e->s = s; e->p = p; e->sl = sl; e->pl = pl;
    return e->ret;
}

// exactly sized, possibly unaligned
struct Buf {
    char *base; void *p;
    Buf(const std::string &s, std::size_t shift) : base(new char[shift + s.size() + !s.size()]), p(base + shift) { memcpy(p, s.data(), s.size()); }
    ~Buf() { delete[] base; }
    Buf(const Buf &) = delete;
};

std::string gen_long(pbt::Src &src) {
    std::string r;
    const std::size_t n = src.chance(1, 10) ? src.below(src.chance(1, 8) ? 1500 : 300) : src.below(30);
    for (std::size_t i = 0; i < n; i++) r += (char) (src.coin() ? src.below(256) : src.below(3) + 'a');
    return r;
}

void c19(pbt::Src &src, pbt::Case &c) {
    static const std::vector<std::string> names = {"SUM_MOD_DATASTORES", "UTHASH_BER", "UTHASH_SAX", "UTHASH_FNV", "UTHASH_OAT", "UTHASH_JEN", "UTHASH_SFH", "DATASTORE_0", "RANK_MOD_DATASTORES"};
    const int size = 1 + src.below(src.chance(1, 3) ? 40 : 4), me = src.below(size);
    World w(me, size);
    Session S;
    Conf cfg;
    cfg.per_server = 1 + src.below(4);
    const std::size_t total = cfg.per_server * size;
    const bool custom = src.chance(1, 4);
    Seen seen;
    const std::string name = custom ? "mine" : src.pick(names);
    if (custom) { cfg.hash_func = spy; cfg.hash_args = &seen; cfg.extra = [&](hxhim_t *hx) { PBT_CHECK(hxhim_set_hash_function(hx, "mine", spy, &seen) == HXHIM_SUCCESS, "hash function refused"); }; }
    else cfg.hash = name;
    cfg.max_ops = 1 + src.below(4);
    S.open(cfg);
    c.desc << name << ", rank " << me << " of " << size << ", " << cfg.per_server << " datastores each\n";
    c.label(name);
    const char *gname = nullptr; hxhim_hash_t func = nullptr; void *args = nullptr;
    PBT_CHECK((src.coin() ? hxhimGetHash(&S.hx, &gname, &func, &args) : hxhim::GetHash(&S.hx, &gname, &func, &args)) == HXHIM_SUCCESS, "GetHash failed");
    PBT_CHECK(gname && gname == name && func && args == (custom ? (void *) &seen : nullptr), "GetHash returned the hash " << (gname ? gname : "NULL"));
    const int first = me * (int) cfg.per_server;
    std::set<int> hit;
    const std::size_t n = 1 + src.below(12);
    for (std::size_t i = 0; i < n; i++) {
        const std::string s = gen_long(src), p = gen_long(src);
        int want;
        if (custom) {
            want = src.chance(1, 4) ? (src.coin() ? -1 - (int) src.below(3) : (int) total + (int) src.below(3)) : first + (int) src.below(cfg.per_server);
            if (src.chance(1, 16)) want = src.coin() ? std::numeric_limits<int>::max() : std::numeric_limits<int>::min();
            seen.ret = want;
        }
        else if (name == "DATASTORE_0") want = 0;
        else if (name == "RANK_MOD_DATASTORES") want = me % total;
        else want = ref_hash(name, s, p) % total;
        const bool valid = want >= 0 && want < (int) total;
        for (int rep = 0; rep < 2; rep++) {
            Buf bs(s, src.below(8)), bp(p, src.below(8));
            c.ops++;
            const int got = src.coin() ? hxhim_hash(&S.hx, bs.p, s.size(), bp.p, p.size()) : custom ? spy(&S.hx, bs.p, s.size(), bp.p, p.size(), args) : func(&S.hx, bs.p, s.size(), bp.p, p.size(), args);
            if (valid) PBT_CHECK(got == want, "(" << hex(s) << ", " << hex(p) << ") goes to datastore " << got << " of " << total << ", not " << want);
            else PBT_CHECK(got == want || got == -1, "hash returned " << got << " for the invalid " << want);
        }
        // operations go where the hash says; those that go nowhere are refused
        if (valid && (want < first || want >= first + (int) cfg.per_server)) continue;   // another rank's
        if (!s.size() || !p.size()) continue;
        QOp q; q.kind = K_PUT; q.s = byte(s); q.p = byte(p); q.o = byte("o" + std::to_string(i));
        seen.calls = 0;
        const bool bulk = src.chance(1, 3), c_api = src.coin();
        std::vector<QOp> one(1, q);
        const int rc = bulk ? submit_bulk(S, one, c_api) : submit(S, one[0], c_api);
        if (custom) PBT_CHECK(seen.calls == 1 && seen.hx == &S.hx && seen.s == one[0].sp && seen.p == one[0].pp && seen.sl == s.size() && seen.pl == p.size(),
            "the hash function was called " << seen.calls << " times with a subject of " << seen.sl << " and a predicate of " << seen.pl << " bytes for " << q);
        PBT_CHECK(rc == (valid ? HXHIM_SUCCESS : HXHIM_ERROR), q << " with hash " << want << " of " << total << " returned " << rc);
        std::vector<Rec> rs = flush(S, F_ALL, c_api);
        PBT_CHECK(rs.size() == (valid ? 1u : 0u), rs.size() << " results for " << q << " with hash " << want << " of " << total);
        if (!valid) { c.label("refused"); continue; }
        PBT_CHECK(rs[0].status == HXHIM_SUCCESS && rs[0].rs == want, q << " was stored in datastore " << rs[0].rs << " with status " << rs[0].status << ", its hash is " << want);
        one[0].kind = K_GET;
        PBT_CHECK((src.coin() ? submit(S, one[0], c_api) : submit_bulk(S, one, c_api)) == HXHIM_SUCCESS, "GET refused");
        rs = flush(S, F_ALL, c_api);
        PBT_CHECK(rs.size() == 1 && rs[0].status == HXHIM_SUCCESS && rs[0].rs == want && rs[0].o == q.o, "GET of " << q << " returned something else");
        hit.insert(want);
        c.label("stored");
    }
    S.close();
    c.nontrivial = n > 2 && total > 1 && name != "DATASTORE_0";
}

pbt::Reg r19("C19", "every built-in hash and a recording user hash in worlds of 1-40 ranks with 1-4 datastores each; random byte strings of up to 300 bytes at any alignment, in exactly sized buffers, hashed twice and compared with independent implementations of the published functions; PUTs and GETs (single and bulk) must be served by that datastore, or be refused when the user hash names none. Non-trivial: three or more pairs over two or more datastores.",
    c19, 60000, 2000000);

// ------------------------------------------------- C20, C21: what was set

// everything that can be configured, as plain values
int my_encode(void *, const size_t, void **, size_t *, void *) { return 1; }
int my_decode(void *, const size_t, void **, size_t *, void *) { return 1; }
struct Settings {
    int debug = MLOG_CRIT;
    std::size_t client = 2, server = 1, per = 1;
    std::string prefix = ".", basename = "hxhim", postfix;
    int backend = LEVEL; bool create = true;
    int transport = Transport::TRANSPORT_NULL; std::size_t listeners = 1;
    std::string hash = "RANK_MOD_DATASTORES"; hxhim_hash_t hash_func = hxhim_hash_RankModDatastores; void *hash_args = nullptr;
    std::set<int> endpoints;
    std::size_t async_at = 0, ops = 128, size = 1048576;
    std::size_t first_n = 10; HistogramBucketGenerator_t gen = histogram_n_buckets; void *gen_args = (void *) (uintptr_t) 10;
    bool read = true, write = true;
    std::set<std::string> names;
    char neg = '/', pos = ':'; std::size_t flt = elen::encode::FLOAT_PRECISION, dbl = elen::encode::DOUBLE_PRECISION;
    bool open_init = true;
    // user transforms: encode, its argument, decode, its argument
    std::map<int, std::tuple<hxhim_encode_func, void *, hxhim_decode_func, void *>> transforms;
};

#define SAME(what, got, want) PBT_CHECK((got) == (want), when << ": " what " is " << (got) << ", not " << (want))
void compare(hxhim_t *hx, const Settings &w, const std::string &when) {
    auto *p = hx->p;
    SAME("the debug level", p->debug_level, w.debug);
    SAME("the client ratio", p->range_server.client_ratio, w.client);
    SAME("the server ratio", p->range_server.server_ratio, w.server);
    SAME("the number of datastores per server", p->range_server.datastores.per_server, w.per);
    SAME("the datastore prefix", p->range_server.datastores.prefix, w.prefix);
    SAME("the datastore basename", p->range_server.datastores.basename, w.basename);
    SAME("the datastore postfix", p->range_server.datastores.postfix, w.postfix);
    SAME("open_init", p->range_server.datastores.open_init, w.open_init);
    auto *d = p->range_server.datastores.config;
    PBT_CHECK(d, when << ": no datastore type");
    SAME("the datastore type", (int) d->type, (int) (w.backend == MEM ? Datastore::IN_MEMORY : w.backend == LEVEL ? Datastore::LEVELDB : Datastore::ROCKSDB));
    if (w.backend == LEVEL) SAME("create_if_missing", static_cast<Datastore::LevelDB::Config *>(d)->create_if_missing, w.create);
    if (w.backend == ROCKS) SAME("create_if_missing", static_cast<Datastore::RocksDB::Config *>(d)->create_if_missing, w.create);
    auto *t = p->transport.config;
    PBT_CHECK(t, when << ": no transport type");
    SAME("the transport", (int) t->type, w.transport);
    if (w.transport == Transport::TRANSPORT_MPI) SAME("the number of listeners", static_cast<Transport::MPI::Options *>(t)->listeners, w.listeners);
    SAME("the hash", p->hash.name, w.hash);
    PBT_CHECK(p->hash.func == w.hash_func && p->hash.args == w.hash_args, when << ": the hash function or its argument is not that of " << w.hash);
    PBT_CHECK(p->transport.endpointgroup == w.endpoints, when << ": the endpoint group has " << p->transport.endpointgroup.size() << " ranks, not those " << w.endpoints.size() << " given");
    SAME("asynchronous PUTs", p->async_puts.enabled, w.async_at != 0);
    if (w.async_at) SAME("the number of queued PUTs", p->async_puts.max_queued, w.async_at);
    SAME("the maximum of operations", p->queues.max_per_request.ops, w.ops);
    SAME("the maximum size", p->queues.max_per_request.size, w.size);
    SAME("histogram first n", p->histograms.config.first_n, w.first_n);
    PBT_CHECK(p->histograms.config.generator == w.gen && p->histograms.config.extra_args == w.gen_args, when << ": another histogram bucket generator is set");
    SAME("histogram read", p->histograms.read, w.read);
    SAME("histogram write", p->histograms.write, w.write);
    PBT_CHECK(p->histograms.names == w.names, when << ": the tracked predicates are " << p->histograms.names.size() << " other than the " << w.names.size() << " given");
    auto const &n = p->range_server.datastores.transform.numeric_extra;
    SAME("the negative symbol", n.neg, w.neg);
    SAME("the positive symbol", n.pos, w.pos);
    SAME("the float precision", n.float_precision, w.flt);
    SAME("the double precision", n.double_precision, w.dbl);
    auto const &tr = p->range_server.datastores.transform;
    for (int type = HXHIM_DATA_INT32; type <= HXHIM_DATA_POINTER; type++) {
        auto e = tr.encode.find((hxhim_data_t) type); auto d = tr.decode.find((hxhim_data_t) type);
        auto const u = w.transforms.find(type);
        if (u != w.transforms.end()) {
            PBT_CHECK(e != tr.encode.end() && d != tr.decode.end(), when << ": the transform of type " << type << " is missing");
            PBT_CHECK(e->second == std::make_pair(std::get<0>(u->second), std::get<1>(u->second)), when << ": type " << type << " has another encode function or argument");
            PBT_CHECK(d->second == std::make_pair(std::get<2>(u->second), std::get<3>(u->second)), when << ": type " << type << " has another decode function or argument");
        }
        else if (e != tr.encode.end() || d != tr.decode.end()) {      // the default ones are filled in somewhere else
            PBT_CHECK(e == tr.encode.end() || (e->second.first != my_encode), when << ": type " << type << " got an encode function");
            PBT_CHECK(d == tr.decode.end() || (d->second.first != my_decode), when << ": type " << type << " got a decode function");
        }
    }
}

const std::vector<std::pair<std::string, int>> LEVELS = {{"EMERGENCY", MLOG_EMERG}, {"ALERT", MLOG_ALERT}, {"CRITICAL", MLOG_CRIT}, {"ERROR", MLOG_ERR}, {"WARNING", MLOG_WARN}, {"NOTICE", MLOG_NOTE},
    {"INFO", MLOG_INFO}, {"DEBUG", MLOG_DBG}, {"DEBUG0", MLOG_DBG0}, {"DEBUG1", MLOG_DBG1}, {"DEBUG2", MLOG_DBG2}, {"DEBUG3", MLOG_DBG3}};
struct HashName { const char *name; hxhim_hash_t f; };
const std::vector<HashName> HASHNAMES = {{"DATASTORE_0", hxhim_hash_DatastoreZero}, {"RANK_MOD_DATASTORES", hxhim_hash_RankModDatastores}, {"SUM_MOD_DATASTORES", hxhim_hash_SumModDatastores},
    {"UTHASH_BER", hxhim_hash_uthash_BER}, {"UTHASH_SAX", hxhim_hash_uthash_SAX}, {"UTHASH_FNV", hxhim_hash_uthash_FNV}, {"UTHASH_OAT", hxhim_hash_uthash_OAT}, {"UTHASH_JEN", hxhim_hash_uthash_JEN}, {"UTHASH_SFH", hxhim_hash_uthash_SFH}};
struct GenName { const char *name; HistogramBucketGenerator_t f; void *args; };
const std::vector<GenName> GENNAMES = {{"10_BUCKETS", histogram_n_buckets, (void *) (uintptr_t) 10}, {"SQUARE_ROOT_CHOICE", histogram_square_root_choice, nullptr}, {"STURGES_FORMULA", histogram_sturges_formula, nullptr},
    {"RICE_RULE", histogram_rice_rule, nullptr}, {"SCOTTS_NORMAL_REFERENCE_RULE", histogram_scotts_normal_reference_rule, nullptr}, {"UNIFORM_LOG2", histogram_uniform_logn, (void *) (uintptr_t) 2}, {"UNIFORM_LOG10", histogram_uniform_logn, (void *) (uintptr_t) 10}};
const std::vector<std::string> WORDS = {"a", "x.y", "some dir", "two  spaces", "d/e", "#7", "-1", "'q'", "tab\there", "=v", "ALL"};

// a random valid value of a setting
std::string valid_value(pbt::Src &src, const std::string &key) {
    auto number = [&](std::size_t lo, std::size_t hi) { return std::to_string(lo + src.below(src.chance(1, 6) ? 1000000 : hi)); };
    if (key == "DEBUG_LEVEL") return src.pick(LEVELS).first;
    if (key == "CLIENT_RATIO" || key == "SERVER_RATIO" || key == "DATASTORES_PER_SERVER" || key == "MAXIMUM_OPS_PER_REQUEST") return number(1, 9);
    if (key == "START_ASYNC_PUTS_AT" || key == "MAXIMUM_SIZE_PER_REQUEST" || key == "HISTOGRAM_FIRST_N" || key == "NUM_LISTENERS") return number(0, 9);
    if (key == "DATASTORE") return std::vector<std::string>{"IN_MEMORY", "LEVELDB", "ROCKSDB"}[src.below(3)];
    if (key == "DATASTORE_PREFIX" && src.chance(1, 10)) {
        std::string r = "deep";
        for (std::size_t n = several(src, 4, 20, 6); n; n--) r += "/" + std::string(20 + src.below(80), (char) ('a' + n % 26));
        return r;
    }
    if (key == "DATASTORE_PREFIX" || key == "DATASTORE_BASENAME") return src.pick(WORDS);
    if (key == "DATASTORE_POSTFIX") return src.chance(1, 4) ? std::string() : src.pick(WORDS);
    if (key == "HASH") return src.pick(HASHNAMES).name;
    if (key == "TRANSPORT") return src.coin() ? "MPI" : "NULL";
    if (key == "HISTOGRAM_BUCKET_GEN_NAME") return src.pick(GENNAMES).name;
    if (key == "ENDPOINT_GROUP") {
        if (src.chance(1, 3)) return "ALL";
        std::string r;
        for (std::size_t i = 0, n = several(src, 4, 100, 10) - 1; i <= n; i++) r += (i ? src.coin() ? " " : "  " : "") + std::to_string(src.below(12));
        return r;
    }
    if (key == "HISTOGRAM_TRACK_PREDICATES") {
        std::string r;
        for (std::size_t i = 0, n = several(src, 4, 80, 10) - 1; i < n; i++) r += (i ? "," : "") + src.pick(WORDS) + (src.chance(1, 8) ? std::string(src.below(300), 'n') + std::to_string(i) : "");
        return r;
    }
    if (key == "ELEN_NEG_SYMBOL") return std::string(1, "!+/.,"[src.below(5)]);
    if (key == "ELEN_POS_SYMBOL") return std::string(1, ":;A_~\xe9"[src.below(6)]);
    if (key == "ELEN_ENCODE_FLOAT_PRECISION") return std::to_string(1 + src.below(12));
    if (key == "ELEN_ENCODE_DOUBLE_PRECISION") return std::to_string(14 + src.below(8));
    // booleans
    std::string b = src.coin() ? "true" : "false";
    if (src.chance(1, 3)) for (char &ch : b) if (src.coin()) ch = toupper(ch);
    return b;
}
const std::vector<std::string> KEYS = {"DEBUG_LEVEL", "CLIENT_RATIO", "SERVER_RATIO", "DATASTORES_PER_SERVER", "DATASTORE", "DATASTORE_PREFIX", "DATASTORE_BASENAME", "DATASTORE_POSTFIX", "LEVELDB_CREATE_IF_MISSING",
    "ROCKSDB_CREATE_IF_MISSING", "HASH", "TRANSPORT", "NUM_LISTENERS", "ENDPOINT_GROUP", "START_ASYNC_PUTS_AT", "MAXIMUM_OPS_PER_REQUEST", "MAXIMUM_SIZE_PER_REQUEST", "HISTOGRAM_FIRST_N", "HISTOGRAM_BUCKET_GEN_NAME",
    "HISTOGRAM_TRACK_PREDICATES", "HISTOGRAM_READ_EXISTING", "HISTOGRAM_WRITE_AT_EXIT", "ELEN_NEG_SYMBOL", "ELEN_POS_SYMBOL", "ELEN_ENCODE_FLOAT_PRECISION", "ELEN_ENCODE_DOUBLE_PRECISION"};

bool truth(std::string v) { for (char &ch : v) ch = tolower(ch); return v == "true"; }

// what an instance with these settings looks like
Settings expected(const std::map<std::string, std::string> &m, int world) {
    Settings w;
    auto has = [&](const char *k) { return m.count(k) != 0; };
    auto num = [&](const char *k, std::size_t d) { return has(k) ? (std::size_t) std::stoull(m.at(k)) : d; };
    auto str = [&](const char *k, const std::string &d) { return has(k) ? m.at(k) : d; };
    for (auto const &l : LEVELS) if (l.first == str("DEBUG_LEVEL", "CRITICAL")) w.debug = l.second;
    w.client = num("CLIENT_RATIO", 2); w.server = num("SERVER_RATIO", 1); w.per = num("DATASTORES_PER_SERVER", 1);
    w.prefix = str("DATASTORE_PREFIX", "."); w.basename = str("DATASTORE_BASENAME", "hxhim"); w.postfix = str("DATASTORE_POSTFIX", "");
    const std::string type = str("DATASTORE", "LEVELDB");
    w.backend = type == "IN_MEMORY" ? MEM : type == "LEVELDB" ? LEVEL : ROCKS;
    w.create = truth(str(w.backend == LEVEL ? "LEVELDB_CREATE_IF_MISSING" : "ROCKSDB_CREATE_IF_MISSING", "true"));
    if (str("TRANSPORT", "NULL") == "MPI") {
        w.transport = Transport::TRANSPORT_MPI;
        w.listeners = num("NUM_LISTENERS", 1);
        w.hash = str("HASH", w.hash);
        for (auto const &h : HASHNAMES) if (w.hash == h.name) w.hash_func = h.f;
    }
    const std::string eg = str("ENDPOINT_GROUP", "ALL");
    if (eg == "ALL") for (int i = 0; i < world; i++) w.endpoints.insert(i);
    else { std::istringstream in(eg); int i; while (in >> i) w.endpoints.insert(i); }
    w.async_at = num("START_ASYNC_PUTS_AT", 0); w.ops = num("MAXIMUM_OPS_PER_REQUEST", 128); w.size = num("MAXIMUM_SIZE_PER_REQUEST", 1048576);
    w.first_n = num("HISTOGRAM_FIRST_N", 10);
    for (auto const &g : GENNAMES) if (g.name == str("HISTOGRAM_BUCKET_GEN_NAME", "10_BUCKETS")) { w.gen = g.f; w.gen_args = g.args; }
    const std::string names = str("HISTOGRAM_TRACK_PREDICATES", "");
    for (std::size_t i = 0; i < names.size();) { const std::size_t j = std::min(names.find(',', i), names.size()); w.names.insert(names.substr(i, j - i)); i = j + 1; }
    w.read = truth(str("HISTOGRAM_READ_EXISTING", "true")); w.write = truth(str("HISTOGRAM_WRITE_AT_EXIT", "true"));
    if (has("ELEN_NEG_SYMBOL")) w.neg = m.at("ELEN_NEG_SYMBOL")[0];
    if (has("ELEN_POS_SYMBOL")) w.pos = m.at("ELEN_POS_SYMBOL")[0];
    w.flt = num("ELEN_ENCODE_FLOAT_PRECISION", w.flt); w.dbl = num("ELEN_ENCODE_DOUBLE_PRECISION", w.dbl);
    return w;
}

struct Env {
    std::vector<std::string> set_;
    int cwd;
    Env(const std::string &dir) { cwd = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC); if (chdir(dir.c_str())) PBT_FAIL("cannot enter " << dir); }
    ~Env() { for (auto const &k : set_) unsetenv(k.c_str()); if (cwd >= 0) { if (fchdir(cwd)) {} close(cwd); } }
    void set(const std::string &k, const std::string &v) { setenv(k.c_str(), v.c_str(), 1); set_.push_back(k); }
};

// a configuration file with the noise that such files have; the last line of a key counts
std::map<std::string, std::string> write_file(pbt::Src &src, const std::string &path, pbt::Case &c) {
    std::map<std::string, std::string> m;
    std::ofstream f(path, std::ios::binary);
    static const std::vector<std::string> gap = {" ", "\t", "   ", " \t "}, lead = {"", "", "", " ", "\t"}, trail = {"", "", "", " ", "\t ", "\r"};
    const std::size_t n = several(src, 10, 80, 15) - 1;
    c.desc << path << ":";
    for (std::size_t i = 0; i < n; i++) {
        switch (src.below(10)) {
            case 0: f << src.pick(lead) << "# " << src.pick(KEYS) << " 7\n"; break;
            case 1: f << src.pick(lead) << "\n"; break;
            case 2: f << "#" << src.pick(KEYS) << " false\n"; break;
            case 3: f << "UNKNOWN_" << src.pick(KEYS) << " 5\n"; break;
            default: {
                const std::string k = src.pick(KEYS), v = valid_value(src, k);
                f << src.pick(lead) << k << (v.empty() && src.coin() ? "" : src.pick(gap)) << v << src.pick(trail);
                if (i + 1 < n || src.chance(3, 4)) f << "\n";
                m[k] = v;
                c.desc << " " << k << "=" << hex(v);
            }
        }
    }
    c.desc << "\n";
    return m;
}

void c20(pbt::Src &src, pbt::Case &c) {
    Dir dir;
    Env env(dir.path);
    const int size = 1 + src.below(6), me = src.below(size);
    std::map<std::string, std::string> all;
    auto merge = [&](const std::map<std::string, std::string> &m) { for (auto const &kv : m) all[kv.first] = kv.second; };
    std::size_t layers = 0;
    if (src.chance(2, 3)) { merge(write_file(src, "hxhim.conf", c)); layers++; }
    switch (src.below(4)) {
        case 0: env.set("HXHIM_CONFIG", dir.path + "/does not exist"); break;
        case 1: case 2: merge(write_file(src, dir.path + "/other.conf", c)); env.set("HXHIM_CONFIG", src.coin() ? dir.path + "/other.conf" : "other.conf"); layers++; break;
    }
    if (src.coin()) {
        layers++;
        c.desc << "environment:";
        for (std::size_t i = 0, n = 1 + src.below(6); i < n; i++) {
            const std::string k = src.pick(KEYS), v = valid_value(src, k);
            env.set("HXHIM_" + k, v);
            all[k] = v;
            c.desc << " " << k << "=" << hex(v);
        }
        c.desc << "\n";
    }
    // a value that is not valid at all
    std::string bad;
    if (src.chance(1, 6)) {
        static const std::vector<std::pair<std::string, std::string>> bads = {{"DEBUG_LEVEL", "LOUD"}, {"CLIENT_RATIO", "0"}, {"SERVER_RATIO", "zero"}, {"DATASTORES_PER_SERVER", "0"}, {"DATASTORE", "FILES"}, {"LEVELDB_CREATE_IF_MISSING", "maybe"},
            {"HASH", "NO_HASH"}, {"TRANSPORT", "PIGEON"}, {"ENDPOINT_GROUP", "-3"}, {"MAXIMUM_OPS_PER_REQUEST", "0"}, {"MAXIMUM_SIZE_PER_REQUEST", "x"}, {"HISTOGRAM_FIRST_N", "many"}, {"HISTOGRAM_BUCKET_GEN_NAME", "11_BUCKETS"}, {"HISTOGRAM_READ_EXISTING", "yes"}, {"ELEN_POS_SYMBOL", "!"}, {"ELEN_NEG_SYMBOL", "\xe9"}, {"ELEN_ENCODE_FLOAT_PRECISION", "0"}, {"ELEN_ENCODE_FLOAT_PRECISION", "-5"}, {"ELEN_ENCODE_DOUBLE_PRECISION", "-1"}, {"ELEN_ENCODE_DOUBLE_PRECISION", "x"}};
        auto const &b = src.pick(bads);
        bad = b.first;
        env.set("HXHIM_" + b.first, b.second);
        c.desc << "environment: " << b.first << "=" << b.second << " (invalid)\n";
        c.label("invalid value");
    }
    World w(me, size);
    Session S;
    S.init(src.coin());
    c.ops += all.size();
    const Settings want = expected(all, size);
    if (bad.empty()) {
        compare(&S.hx, want, "after Init");
        // it can be opened like that
        if (want.transport == Transport::TRANSPORT_NULL && want.per <= 10 && want.create && want.basename.find('/') == std::string::npos && want.postfix.find('/') == std::string::npos && want.first_n < 100000 && (want.backend != ROCKS || src.chance(1, 4)) && src.coin()) {
            S.hx.p->debug_level = MLOG_EMERG;
            const int rc = hxhim::Open(&S.hx);
            if (rc != HXHIM_SUCCESS) S.open_ = false;
            PBT_CHECK(rc == HXHIM_SUCCESS, "Open returned " << rc);
            Settings now = want;
            now.debug = MLOG_EMERG;
            compare(&S.hx, now, "after Open");
            const Layout L(size, want.client, want.server);
            std::size_t n = 0;
            PBT_CHECK(hxhim::GetDatastoreCount(&S.hx, &n) == HXHIM_SUCCESS && n == L.servers.size() * want.per, "there are " << n << " datastores");
            if (want.backend != MEM && L.id[me] >= 0) for (std::size_t i = 0; i < want.per; i++) {
                const std::string path = want.prefix + "/" + want.basename + "-" + std::to_string(L.id[me] * want.per + i) + want.postfix;
                PBT_CHECK(std::filesystem::exists(path), "no datastore at " << hex(path));
            }
            c.label("opened");
        }
    }
    else {
        // the settings that are read before it hold, and it is not applied itself
        Settings d;
        auto *p = S.hx.p;
        const std::string when = "after Init with an invalid " + bad;
        if (bad == "CLIENT_RATIO") SAME("the client ratio", p->range_server.client_ratio, d.client);
        if (bad == "SERVER_RATIO") SAME("the server ratio", p->range_server.server_ratio, d.server);
        if (bad == "DATASTORES_PER_SERVER") SAME("the number of datastores", p->range_server.datastores.per_server, d.per);
        if (bad == "DEBUG_LEVEL") SAME("the debug level", p->debug_level, d.debug);
        if (bad == "MAXIMUM_OPS_PER_REQUEST") SAME("the maximum of operations", p->queues.max_per_request.ops, d.ops);
        if (bad == "MAXIMUM_SIZE_PER_REQUEST") SAME("the maximum size", p->queues.max_per_request.size, d.size);
        if (bad == "HISTOGRAM_FIRST_N") SAME("histogram first n", p->histograms.config.first_n, d.first_n);
        if (bad == "HISTOGRAM_BUCKET_GEN_NAME") PBT_CHECK(p->histograms.config.generator == d.gen && p->histograms.config.extra_args == d.gen_args, when << ": another generator is set");
        PBT_CHECK(p->range_server.datastores.config && p->transport.config && p->hash.func, when << ": the instance is not usable");
        auto const &num = p->range_server.datastores.transform.numeric_extra;
        PBT_CHECK((unsigned char) num.neg < (unsigned char) num.pos, when << ": symbols out of order");
        PBT_CHECK(num.float_precision && num.double_precision && num.float_precision <= 1000000 && num.double_precision <= 1000000, when << ": the precisions are " << num.float_precision << " and " << num.double_precision);
    }
    S.hx.p->debug_level = MLOG_EMERG;
    S.close();
    c.label("layers: " + std::to_string(layers));
    c.nontrivial = all.size() > 2 && layers > 1;
}

pbt::Reg r20("C20", "random valid values of all 26 settings spread over hxhim.conf, the file named by HXHIM_CONFIG (also missing) and HXHIM_ environment variables, with repeated keys, comments, blank lines, leading and trailing white space and unknown keys; after Init every setting must be the one of the last source that has it, and the instance opens with them; sometimes one invalid value is added. Non-trivial: three or more settings from two or more sources.",
    c20, 12000, 500000);

// ------------------------------------------------------------------- C21

double *unused_gen_args;
int my_gen(const double *, const size_t, double **, size_t *, void *) { return 1; }
int my_hash(hxhim_t *, void *, const size_t, void *, const size_t, void *) { return 0; }

// one random option call, and what it does to the settings when it is accepted
struct Call { std::string text; std::function<int(hxhim_t *)> call; bool valid; std::function<void(Settings &)> effect; };
Call gen_call(pbt::Src &src) {
    Call k;
    std::ostringstream t;
    auto num = [&]() { return (std::size_t) (src.chance(1, 5) ? 0 : src.chance(1, 5) ? src.u64() >> src.below(64) : src.below(9)); };
    k.valid = true;
    switch (src.below(24)) {
        case 22: { const hxhim_data_t type = (hxhim_data_t) (HXHIM_DATA_INT32 + src.below(8)); const bool e = src.coin(), d = src.coin(); void *ea = (void *) (uintptr_t) src.below(5), *da = (void *) (uintptr_t) src.below(5);
            t << "transform_function " << (int) type << (e ? " encode" : " -") << (d ? " decode" : " -") << " " << ea << " " << da;
            k.call = [=](hxhim_t *h) { return hxhim_set_transform_function(h, type, e ? my_encode : nullptr, ea, d ? my_decode : nullptr, da); };
            k.effect = [=](Settings &s) { s.transforms[type] = std::make_tuple(e ? my_encode : nullptr, ea, d ? my_decode : nullptr, da); }; break; }
        case 23: {      // names that are missing
            k.valid = false; const std::size_t len = src.below(2) ? 1 + src.below(9) : 0, which = src.below(7);
            static const std::vector<std::string> what = {"hash_name", "hash_function", "datastore prefix", "datastore basename", "datastore postfix", "bucket_gen_name", "track"};
            t << what[which] << " NULL";
            if (which == 6) { t << " " << len; k.valid = !len; }
            k.call = [=](hxhim_t *h) { switch (which) {
                case 0: return hxhim_set_hash_name(h, nullptr);
                case 1: return hxhim_set_hash_function(h, nullptr, my_hash, nullptr);
                case 2: return hxhim_set_datastore_name(h, nullptr, "b", "c");
                case 3: return hxhim_set_datastore_name(h, "a", nullptr, "c");
                case 4: return hxhim_set_datastore_name(h, "a", "b", nullptr);
                case 5: return hxhim_set_histogram_bucket_gen_name(h, (const char *) nullptr);
                default: return hxhim_add_histogram_track_predicate(h, nullptr, len);
            } };
            k.effect = [=](Settings &s) { s.names.insert(""); }; break; }
        case 0: { const int v = src.pick(LEVELS).second; t << "debug_level " << v; k.call = [=](hxhim_t *h) { return hxhim_set_debug_level(h, v); }; k.effect = [=](Settings &s) { s.debug = v; }; break; }
        case 1: { const std::size_t v = num(); t << "client_ratio " << v; k.valid = v > 0; k.call = [=](hxhim_t *h) { return hxhim_set_client_ratio(h, v); }; k.effect = [=](Settings &s) { s.client = v; }; break; }
        case 2: { const std::size_t v = num(); t << "server_ratio " << v; k.valid = v > 0; k.call = [=](hxhim_t *h) { return hxhim_set_server_ratio(h, v); }; k.effect = [=](Settings &s) { s.server = v; }; break; }
        case 3: { const std::size_t v = num(); t << "datastores_per_server " << v; k.valid = v > 0; k.call = [=](hxhim_t *h) { return hxhim_set_datastores_per_server(h, v); }; k.effect = [=](Settings &s) { s.per = v; }; break; }
        case 4: { const int r = src.below(3), w = src.below(3); t << "histograms " << r << " " << w; k.call = [=](hxhim_t *h) { return hxhim_datastore_histograms(h, r, w); }; k.effect = [=](Settings &s) { s.read = r; s.write = w; }; break; }
        case 5: { const std::string a = src.pick(WORDS), b = src.pick(WORDS), p = src.coin() ? "" : src.pick(WORDS); t << "datastore_name " << hex(a) << hex(b) << hex(p); k.call = [=](hxhim_t *h) { return hxhim_set_datastore_name(h, a.c_str(), b.c_str(), p.c_str()); }; k.effect = [=](Settings &s) { s.prefix = a; s.basename = b; s.postfix = p; }; break; }
        case 6: { const int b = src.below(3); const bool cr = src.coin(); t << "datastore " << backend_name(b) << " " << cr; k.call = [=](hxhim_t *h) { return b == MEM ? hxhim_set_datastore_in_memory(h) : b == LEVEL ? hxhim_set_datastore_leveldb(h, cr) : hxhim_set_datastore_rocksdb(h, cr); }; k.effect = [=](Settings &s) { s.backend = b; s.create = cr; }; break; }
        case 7: { const HashName n = src.pick(HASHNAMES); t << "hash_name " << n.name; k.call = [=](hxhim_t *h) { return hxhim_set_hash_name(h, n.name); }; k.effect = [=](Settings &s) { s.hash = n.name; s.hash_func = n.f; s.hash_args = nullptr; }; break; }
        case 8: { const std::string n = src.coin() ? "NO_HASH" : "uthash_ber"; t << "hash_name " << n; k.valid = false; k.call = [=](hxhim_t *h) { return hxhim_set_hash_name(h, n.c_str()); }; break; }
        case 9: { const bool null = src.chance(1, 3); void *a = (void *) (uintptr_t) src.below(5); const std::string n = src.pick(WORDS); t << "hash_function " << hex(n) << (null ? " NULL" : ""); k.valid = !null; k.call = [=](hxhim_t *h) { return hxhim_set_hash_function(h, n.c_str(), null ? nullptr : my_hash, a); }; k.effect = [=](Settings &s) { s.hash = n; s.hash_func = my_hash; s.hash_args = a; }; break; }
        case 10: { const char a = (char) src.range(0, 255), b = (char) src.range(0, 255); const std::size_t f = src.below(20), d = src.below(20); t << "numeric_values " << (int) (unsigned char) a << " " << (int) (unsigned char) b << " " << f << " " << d; k.valid = (unsigned char) a < (unsigned char) b && f && d; k.call = [=](hxhim_t *h) { return hxhim_set_transform_numeric_values(h, a, b, f, d); }; k.effect = [=](Settings &s) { s.neg = a; s.pos = b; s.flt = f; s.dbl = d; }; break; }
        case 11: { t << "transport_null"; k.call = [](hxhim_t *h) { return hxhim_set_transport_null(h); }; k.effect = [](Settings &s) { s.transport = Transport::TRANSPORT_NULL; }; break; }
        case 12: { const std::size_t v = num(); t << "transport_mpi " << v; k.call = [=](hxhim_t *h) { return hxhim_set_transport_mpi(h, v); }; k.effect = [=](Settings &s) { s.transport = Transport::TRANSPORT_MPI; s.listeners = v; }; break; }
        case 13: { const int v = (int) src.below(8) - 2; t << "add_endpoint " << v; k.valid = v >= 0; k.call = [=](hxhim_t *h) { return hxhim_add_endpoint_to_group(h, v); }; k.effect = [=](Settings &s) { s.endpoints.insert(v); }; break; }
        case 14: { t << "clear_endpoint_group"; k.call = [](hxhim_t *h) { return hxhim_clear_endpoint_group(h); }; k.effect = [](Settings &s) { s.endpoints.clear(); }; break; }
        case 15: { const std::size_t v = num(); t << "start_async_puts_at " << v; k.call = [=](hxhim_t *h) { return hxhim_set_start_async_puts_at(h, v); }; k.effect = [=](Settings &s) { s.async_at = v; }; break; }
        case 16: { const std::size_t v = num(); t << "maximum_ops " << v; k.valid = v > 0; k.call = [=](hxhim_t *h) { return hxhim_set_maximum_ops_per_request(h, v); }; k.effect = [=](Settings &s) { s.ops = v; }; break; }
        case 17: { const std::size_t v = num(); t << "maximum_size " << v; k.call = [=](hxhim_t *h) { return hxhim_set_maximum_size_per_request(h, v); }; k.effect = [=](Settings &s) { s.size = v; }; break; }
        case 18: { const std::size_t v = num(); t << "histogram_first_n " << v; k.call = [=](hxhim_t *h) { return hxhim_set_histogram_first_n(h, v); }; k.effect = [=](Settings &s) { s.first_n = v; }; break; }
        case 19: {
            if (src.chance(1, 3)) { t << "bucket_gen_name 11_BUCKETS"; k.valid = false; k.call = [](hxhim_t *h) { return hxhim_set_histogram_bucket_gen_name(h, "11_BUCKETS"); }; break; }
            const GenName n = src.pick(GENNAMES); const bool cxx = src.coin(); t << "bucket_gen_name " << n.name;
            k.call = [=](hxhim_t *h) { return cxx ? hxhim_set_histogram_bucket_gen_name(h, std::string(n.name)) : hxhim_set_histogram_bucket_gen_name(h, n.name); }; k.effect = [=](Settings &s) { s.gen = n.f; s.gen_args = n.args; }; break; }
        case 20: { const bool null = src.chance(1, 3); void *a = (void *) (uintptr_t) src.below(5); t << "bucket_gen_function" << (null ? " NULL" : ""); k.valid = !null; k.call = [=](hxhim_t *h) { return hxhim_set_histogram_bucket_gen_function(h, null ? nullptr : my_gen, a); }; k.effect = [=](Settings &s) { s.gen = my_gen; s.gen_args = a; }; break; }
        default: { const std::string n = gen_bytes(src); const bool cxx = src.coin(); t << "track " << hex(n); k.call = [=](hxhim_t *h) { return cxx ? hxhim_add_histogram_track_predicate(h, n) : hxhim_add_histogram_track_predicate(h, n.data(), n.size()); }; k.effect = [=](Settings &s) { s.names.insert(n); }; break; }
    }
    k.text = t.str();
    return k;
}
Call gen_call2(pbt::Src &src) {
    if (!src.chance(1, 14)) return gen_call(src);
    Call k;
    if (src.coin()) { const int v = src.below(3); k.text = "open_init " + std::to_string(v); k.valid = true; k.call = [=](hxhim_t *h) { return hxhim_set_open_init_datastore(h, v); }; k.effect = [=](Settings &s) { s.open_init = v; }; }
    else { k.text = "mpi_bootstrap NULL"; k.valid = false; k.call = [](hxhim_t *h) { return hxhim_set_mpi_bootstrap(h, MPI_COMM_NULL); }; }
    return k;
}

void c21(pbt::Src &src, pbt::Case &c) {
    Dir dir;
    Env env(dir.path);
    Session S;
    S.init(src.coin());
    Settings w;
    w.endpoints.insert(0);
    compare(&S.hx, w, "after Init");
    std::size_t accepted = 0, refused = 0;
    const std::size_t n = 1 + src.below(20);
    for (std::size_t i = 0; i < n; i++) {
        const Call k = gen_call2(src);
        const int rc = k.call(&S.hx);
        c.ops++;
        PBT_CHECK(rc == (k.valid ? HXHIM_SUCCESS : HXHIM_ERROR), k.text << " returned " << rc);
        if (k.valid) { k.effect(w); accepted++; } else refused++;
        c.desc << k.text << (k.valid ? "; " : " (invalid); ");
        compare(&S.hx, w, "after " + k.text);
        if (src.chance(1, 8)) {
            hxhim_t none; none.p = nullptr;
            PBT_CHECK(k.call(nullptr) == HXHIM_ERROR && k.call(&none) == HXHIM_ERROR, k.text << " was accepted without an instance");
        }
    }
    // an open instance keeps its options
    if (src.chance(3, 4)) {
        auto must = [](int rc) { PBT_CHECK(rc == HXHIM_SUCCESS, "option refused"); };
        must(hxhim_set_debug_level(&S.hx, MLOG_EMERG)); w.debug = MLOG_EMERG;
        if (w.transport != Transport::TRANSPORT_NULL) { must(hxhim_set_transport_null(&S.hx)); w.transport = Transport::TRANSPORT_NULL; }
        if (w.per > 9) { must(hxhim_set_datastores_per_server(&S.hx, 2)); w.per = 2; }
        if (w.backend != MEM && src.chance(7, 8)) { must(hxhim_set_datastore_in_memory(&S.hx)); w.backend = MEM; }
        if (w.first_n > 100000) { must(hxhim_set_histogram_first_n(&S.hx, 3)); w.first_n = 3; }
        if (w.ops > 1000) { must(hxhim_set_maximum_ops_per_request(&S.hx, 1000)); w.ops = 1000; }
        const bool expect = w.backend == MEM || !w.open_init || (w.create && w.basename.find('/') == std::string::npos && w.postfix.find('/') == std::string::npos);
        const int rc = hxhim::Open(&S.hx);
        if (rc != HXHIM_SUCCESS) S.open_ = false;
        PBT_CHECK((rc == HXHIM_SUCCESS) == expect, "Open returned " << rc);
        if (expect) {
            compare(&S.hx, w, "after Open");
            for (std::size_t i = 0, m = 1 + src.below(6); i < m; i++) {
                const Call k = gen_call2(src);
                c.desc << (i ? "" : "| ") << k.text << "; ";
                PBT_CHECK(k.call(&S.hx) == HXHIM_ERROR, k.text << " was accepted by an open instance");
                compare(&S.hx, w, "after " + k.text + " while open");
                refused++;
            }
            c.label("opened");
        }
        else c.label("cannot be opened");
    }
    S.hx.p ? (void) (S.hx.p->debug_level = MLOG_EMERG) : (void) 0;
    const bool was = S.open_;
    S.close();
    if (was) {
        const Call k = gen_call2(src);
        PBT_CHECK(!S.hx.p && k.call(&S.hx) == HXHIM_ERROR, k.text << " was accepted after Close");
    }
    c.label("accepted", accepted); c.label("refused", refused);
    c.nontrivial = accepted > 2 && refused > 0;
}

pbt::Reg r21("C21", "1-20 random option calls (all 26 setters, valid and invalid values, missing names, also without an instance), then Open, more calls, Close; after every call all options must be what the accepted calls so far make them, and an open or closed instance must refuse every call. Non-trivial: three accepted and one refused call.",
    c21, 12000, 500000);

}
