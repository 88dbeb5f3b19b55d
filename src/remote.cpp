// C05 request limits, C24 routing between ranks
//
// A world of several ranks lives in one process: every rank is an instance
// opened under a simulated rank and size, and an endpoint group of the harness
// carries the requests between them (packed and unpacked as on a real network).
#include "hist.hpp"

#include "hxhim/options.hpp"
#include "hxhim/private/hxhim.hpp"
#include "message/Messages.hpp"
#include "transport/backend/local/RangeServer.hpp"
#include "transport/transport.hpp"

using namespace hxt;

namespace { int fake_rank = -1, fake_size = -1; }
extern "C" {
int MPI_Comm_rank(MPI_Comm c, int *r) { if (fake_rank >= 0) { *r = fake_rank; return MPI_SUCCESS; } return PMPI_Comm_rank(c, r); }
int MPI_Comm_size(MPI_Comm c, int *s) { if (fake_size >= 0) { *s = fake_size; return MPI_SUCCESS; } return PMPI_Comm_size(c, s); }
}

namespace {

struct World;

// one operation as it was queued and as it has to arrive
struct Sent {
    hxhim_op_t kind = HXHIM_INVALID;
    Val s, p, o;                       // HISTOGRAM: s is the name
    hxhim_data_t want = HXHIM_DATA_INVALID;
    std::size_t nrec = 0;
    hxhim_getop_t gop = HXHIM_GETOP_INVALID;
    void *sp = nullptr, *pp = nullptr;
    bool same_wire(const Sent &x) const {
        if (kind != x.kind) return false;
        if (kind == HXHIM_HISTOGRAM) return s.bytes == x.s.bytes;
        if (kind == HXHIM_GETOP) {
            if (gop != x.gop || nrec != x.nrec || want != x.want) return false;
            return gop == HXHIM_GETOP_FIRST || gop == HXHIM_GETOP_LAST || (s == x.s && p == x.p);
        }
        if (!(s == x.s) || !(p == x.p)) return false;
        if (kind == HXHIM_PUT) return o == x.o;
        if (kind == HXHIM_GET) return want == x.want;
        return true;
    }
    // bytes the operation takes in a packet (length, type, data per blob; the caller's addresses)
    std::size_t wire_size() const {
        const std::size_t blob = sizeof(std::size_t) + sizeof(hxhim_data_t), addr = 2 * sizeof(void *);
        switch (kind) {
            case HXHIM_PUT: return 3 * blob + s.bytes.size() + p.bytes.size() + o.bytes.size() + addr;
            case HXHIM_GET: return 2 * blob + s.bytes.size() + p.bytes.size() + addr + sizeof(hxhim_data_t);
            case HXHIM_DELETE: return 2 * blob + s.bytes.size() + p.bytes.size() + addr;
            case HXHIM_HISTOGRAM: return sizeof(std::size_t) + s.bytes.size();
            default: return 0;         // depends on the operation
        }
    }
};
std::ostream &operator<<(std::ostream &o, const Sent &x) {
    static const char *n[] = {"PUT", "GET", "GETOP", "DELETE", "SYNC", "HISTOGRAM", "INVALID"};
    return o << n[(unsigned) x.kind < 7 ? x.kind : 6] << "(" << x.s << ", " << x.p << (x.kind == HXHIM_PUT ? ", " : "") << (x.kind == HXHIM_PUT ? hex(x.o.bytes) : std::string()) << ")";
}

struct Rank {
    Session S;
    int rank = 0;
    // queued and not yet sent, per operation and datastore
    std::map<hxhim_op_t, std::vector<std::deque<Sent>>> queued;
    // of the flush that is running: sent to others
    std::map<hxhim_op_t, std::vector<std::vector<std::vector<Sent>>>> packets;     // op -> datastore -> packet -> ops
};

struct World {
    pbt::Src *src = nullptr;
    int size = 0;
    std::size_t client = 1, server = 1, per = 1;
    std::vector<int> server_rank;      // range server id -> rank
    std::size_t total = 0;             // datastores
    std::vector<std::unique_ptr<Rank>> ranks;
    std::size_t messages = 0, multi = 0;
    std::size_t max_ops = 0, max_size = 0;
    bool check_limits = false;
    std::string problem;               // found inside a library call

    int ds_rank(std::size_t ds) const { return server_rank[ds / per]; }
};

Val blob(const Blob &b) { Val v; v.type = b.data_type(); if (b.size()) v.bytes.assign((const char *) b.data(), b.size()); return v; }

std::vector<Sent> ops_of(const Message::Request::Request *r) {
    std::vector<Sent> out;
    for (std::size_t i = 0; i < r->count; i++) {
        Sent x;
        x.kind = r->op;
        switch (r->op) {
            case HXHIM_PUT: { auto *m = static_cast<const Message::Request::BPut *>(r); x.s = blob(m->subjects[i]); x.p = blob(m->predicates[i]); x.o = blob(m->objects[i]); break; }
            case HXHIM_GET: { auto *m = static_cast<const Message::Request::BGet *>(r); x.s = blob(m->subjects[i]); x.p = blob(m->predicates[i]); x.want = m->object_types[i]; break; }
            case HXHIM_GETOP: {
                auto *m = static_cast<const Message::Request::BGetOp *>(r);
                x.gop = m->ops[i]; x.nrec = m->num_recs[i]; x.want = m->object_types[i];
                x.s = blob(m->subjects[i]); x.p = blob(m->predicates[i]);
                break;
            }
            case HXHIM_DELETE: { auto *m = static_cast<const Message::Request::BDelete *>(r); x.s = blob(m->subjects[i]); x.p = blob(m->predicates[i]); break; }
            case HXHIM_HISTOGRAM: { auto *m = static_cast<const Message::Request::BHistogram *>(r); x.s = blob(m->names[i]); break; }
            default: break;
        }
        out.push_back(x);
    }
    return out;
}

// carries requests to the other instances of the world
class Wire : public ::Transport::EndpointGroup {
public:
    Wire(World *w, Rank *me) : w(w), me(me) {}
    Message::Response::BPut *communicate(const ::Transport::ReqList<Message::Request::BPut> &l) override { return send<Message::Response::BPut>(l); }
    Message::Response::BGet *communicate(const ::Transport::ReqList<Message::Request::BGet> &l) override { return send<Message::Response::BGet>(l); }
    Message::Response::BGetOp *communicate(const ::Transport::ReqList<Message::Request::BGetOp> &l) override { return send<Message::Response::BGetOp>(l); }
    Message::Response::BDelete *communicate(const ::Transport::ReqList<Message::Request::BDelete> &l) override { return send<Message::Response::BDelete>(l); }
    Message::Response::BHistogram *communicate(const ::Transport::ReqList<Message::Request::BHistogram> &l) override { return send<Message::Response::BHistogram>(l); }

private:
    template <typename... T> void bad(const T &... t) { if (w->problem.empty()) { std::ostringstream s; (void) std::initializer_list<int>{(s << t, 0)...}; w->problem = s.str(); } }

    template <typename Res, typename Req> Res *send(const ::Transport::ReqList<Req> &list) {
        // any order of delivery
        std::vector<std::pair<int, Req *>> todo(list.begin(), list.end());
        std::sort(todo.begin(), todo.end(), [](const std::pair<int, Req *> &a, const std::pair<int, Req *> &b) { return a.first < b.first; });
        for (std::size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[w->src->below(i)]);
        if (todo.size() > 1) w->multi++;
        std::vector<Res *> got;
        for (auto const &t : todo) {
            const Req *req = t.second;
            w->messages++;
            if (!req || !req->count) { bad("rank ", me->rank, " sent an empty packet to rank ", t.first); continue; }
            if (t.first < 0 || t.first >= w->size || t.first == me->rank) { bad("rank ", me->rank, " sent a packet to rank ", t.first); continue; }
            if (req->src != me->rank) bad("packet of rank ", me->rank, " says it comes from ", req->src);
            if (req->dst < 0 || (std::size_t) req->dst >= w->total || w->ds_rank(req->dst) != t.first) { bad("packet for datastore ", req->dst, " sent to rank ", t.first); continue; }
            // as on the network
            void *buf = nullptr; std::size_t len = 0;
            if (Message::Packer::pack(req, &buf, &len) != MESSAGE_SUCCESS) { bad("packing failed"); continue; }
            if (w->check_limits && req->count > w->max_ops) bad("packet with ", req->count, " operations, the limit is ", w->max_ops);
            if (w->check_limits && w->max_size && req->count > 1 && len > w->max_size) bad("packet with ", req->count, " operations of ", len, " bytes, the limit is ", w->max_size);
            if (len != req->size()) bad("packet of ", len, " bytes says it has ", req->size());
            Message::Request::Request *in = nullptr;
            const int rc = Message::Unpacker::unpack(&in, buf, len);
            ::operator delete(buf);
            if (rc != MESSAGE_SUCCESS || !in) { bad("unpacking failed"); continue; }
            // what arrives
            auto &all = me->packets[req->op];
            all.resize(w->total);
            all[req->dst].push_back(ops_of(in));
            Message::Response::Response *res = ::Transport::local::range_server(&w->ranks[t.first]->S.hx, in);
            destruct(in);
            if (!res) { bad("no response from rank ", t.first); continue; }
            if (res->dst != me->rank) bad("response to rank ", me->rank, " is addressed to ", res->dst);
            buf = nullptr; len = 0;
            if (Message::Packer::pack(res, &buf, &len) != MESSAGE_SUCCESS) { bad("packing the response failed"); destruct(res); continue; }
            destruct(res);
            Message::Response::Response *back = nullptr;
            if (Message::Unpacker::unpack(&back, buf, len) != MESSAGE_SUCCESS || !back) bad("unpacking the response failed");
            ::operator delete(buf);
            if (back) got.push_back(dynamic_cast<Res *>(back));
        }
        for (std::size_t i = got.size(); i > 1; i--) std::swap(got[i - 1], got[w->src->below(i)]);
        for (std::size_t i = 0; i + 1 < got.size(); i++) got[i]->next = got[i + 1];
        return got.size() ? got[0] : nullptr;
    }
    World *w;
    Rank *me;
};

// two buckets that every value falls into
int two_buckets(const double *v, const size_t n, double **buckets, size_t *size, void *) {
    if (!v || !n) return HISTOGRAM_ERROR;
    *size = 2;
    *buckets = alloc_array<double>(3);
    (*buckets)[0] = -1e9; (*buckets)[1] = 50; (*buckets)[2] = 1e9;
    return HISTOGRAM_SUCCESS;
}

struct Expect {                        // one result
    Sent x;
    bool ok = true;                    // expected status
    bool any_status = false;
    Val o;
    std::size_t hist_count = 0;
};

void run(pbt::Src &src, pbt::Case &c, bool limits) {
    World w;
    w.src = &src;
    w.size = limits ? 2 + (int) src.below(2) : 2 + (int) src.below(6);
    w.client = 1 + src.below(limits ? 1 : 4);
    w.server = 1 + src.below(limits ? 1 : w.client + 1);
    w.per = 1 + src.below(limits ? 2 : 4);
    for (int r = 0; r < w.size; r++) {
        const bool is = w.server >= w.client || (std::size_t) r % w.client < w.server;
        if (is) w.server_rank.push_back(r);
    }
    w.total = w.server_rank.size() * w.per;

    Dir dir;
    Conf cfg;
    cfg.backend = src.chance(1, 12) ? LEVEL : MEM;
    cfg.per_server = w.per;
    if (limits) {
        static const std::vector<std::size_t> ops = {1, 2, 3, 4, 7, 30, 128, 1000};
        cfg.max_ops = src.pick(ops);
        cfg.max_size = src.chance(1, 4) ? 0 : src.chance(1, 8) ? 1 : 40 + src.below(700);
    }
    else {
        static const std::vector<std::size_t> ops = {1, 2, 3, 50};
        static const std::vector<std::size_t> size = {0, 1, 150, 1000};
        cfg.max_ops = src.pick(ops);
        cfg.max_size = src.pick(size);
    }
    w.check_limits = limits;
    w.max_ops = cfg.max_ops; w.max_size = cfg.max_size;
    cfg.prefix = dir.path;
    cfg.hist_names = {"h"};
    cfg.hist_first_n = 1;
    cfg.hist_func = two_buckets;
    cfg.extra = [&](hxhim_t *hx) {
        PBT_CHECK(hxhim_set_client_ratio(hx, w.client) == HXHIM_SUCCESS && hxhim_set_server_ratio(hx, w.server) == HXHIM_SUCCESS, "ratio refused");
    };
    c.desc << w.size << " ranks, " << w.client << ":" << w.server << ", " << describe(cfg) << "\n";
    comm();
    struct Reset { ~Reset() { fake_rank = fake_size = -1; } } reset;
    fake_size = w.size;
    for (int r = 0; r < w.size; r++) {
        w.ranks.emplace_back(new Rank());
        Rank &me = *w.ranks.back();
        me.rank = r;
        fake_rank = r;
        me.S.open(cfg);
        // the null transport has no endpoint group: install the harness's
        PBT_CHECK(!me.S.hx.p->transport.transport, "the null transport is not null");
        me.S.hx.p->transport.transport = construct<::Transport::Transport>();
        me.S.hx.p->transport.transport->SetEndpointGroup(construct<Wire>(&w, &me));
        for (hxhim_op_t k : {HXHIM_PUT, HXHIM_GET, HXHIM_GETOP, HXHIM_DELETE, HXHIM_HISTOGRAM}) me.queued[k].resize(w.total);
    }

    std::vector<Val> subj, pred;
    GenOpts g;
    g.big = limits;
    for (std::size_t i = 0, n = 1 + src.below(limits ? 10 : 5); i < n; i++) subj.push_back(gen_val(src, g));
    for (std::size_t i = 0, n = 1 + src.below(4); i < n; i++) pred.push_back(gen_val(src, g));

    Model model;                                   // all datastores together: a key has one place
    std::vector<std::vector<double>> tracked(w.total);
    auto where = [&](const Val &s, const Val &p) { return spread(s, p, w.total); };

    static const hxhim_op_t order[] = {HXHIM_PUT, HXHIM_GET, HXHIM_GETOP, HXHIM_DELETE, HXHIM_HISTOGRAM};
    std::size_t remote = 0, cross_reads = 0, full = 0, by_size = 0;
    std::map<Key, int> writer;

    // run every queue of one kind of one rank against the model
    auto execute = [&](Rank &me, hxhim_op_t kind) {
        std::vector<std::deque<Expect>> out(w.total);
        for (std::size_t d = 0; d < w.total; d++) {
            for (auto const &x : me.queued[kind][d]) {
                Expect e;
                e.x = x;
                const Key k(x.s, x.p);
                switch (kind) {
                    case HXHIM_PUT:
                        model[k] = x.o; writer[k] = me.rank;
                        if (x.p.bytes == "h" && x.p.type == HXHIM_DATA_BYTE && x.o.type == HXHIM_DATA_DOUBLE) tracked[d].push_back(as<double>(x.o));
                        break;
                    case HXHIM_GET: case HXHIM_GETOP: {
                        auto it = model.find(k);
                        e.ok = it != model.end();
                        if (e.ok) { e.o = it->second; if (writer[k] != me.rank) cross_reads++; }
                        if (kind == HXHIM_GETOP && x.gop != HXHIM_GETOP_EQ) e.any_status = true;
                        break;
                    }
                    case HXHIM_DELETE: e.ok = model.count(k); e.any_status = !e.ok; model.erase(k); break;
                    default: e.hist_count = tracked[d].size(); break;
                }
                out[d].push_back(e);
                if (w.ds_rank(d) != me.rank) remote++;
            }
        }
        return out;
    };
    // the packets of a flush carry exactly what was queued, in order, and are full
    auto check_packets = [&](Rank &me, hxhim_op_t kind) {
        auto &sent = me.packets[kind];
        sent.resize(w.total);
        for (std::size_t d = 0; d < w.total; d++) {
            std::deque<Sent> want = w.ds_rank(d) == me.rank ? std::deque<Sent>() : me.queued[kind][d];
            const std::size_t n = want.size();
            std::size_t bytes = 0;
            for (std::size_t k = 0; k < sent[d].size(); k++) {
                bytes = sizeof(int) * 4 + sizeof(std::size_t);
                for (auto const &x : sent[d][k]) {
                    PBT_CHECK(want.size(), "rank " << me.rank << " sent " << x << " to datastore " << d << ", which was not queued (again)");
                    PBT_CHECK(want.front().same_wire(x), "rank " << me.rank << " sent " << x << " to datastore " << d << ", the next operation queued for it is " << want.front());
                    bytes += x.wire_size();
                    want.pop_front();
                }
                if (limits && k + 1 < sent[d].size()) {
                    const Sent &next = sent[d][k + 1][0];
                    if (sent[d][k].size() >= w.max_ops) full++;
                    else {
                        by_size++;
                        PBT_CHECK(w.max_size, "packet of " << sent[d][k].size() << " operations followed by another one, the limit is " << w.max_ops);
                        if (kind != HXHIM_GETOP) PBT_CHECK(bytes + next.wire_size() > w.max_size, "packet of " << sent[d][k].size() << " operations and " << bytes << " bytes followed by another one although " << next << " would fit (limits " << w.max_ops << ", " << w.max_size << ")");
                    }
                }
            }
            PBT_CHECK(want.empty(), "rank " << me.rank << ": " << want.size() << " of " << n << " operations for datastore " << d << " were not sent");
        }
    };
    auto check_results = [&](Rank &me, hxhim_op_t kind, std::vector<std::deque<Expect>> &want, const std::vector<Rec> &rs) {
        std::vector<std::vector<Rec>> per(w.total);
        for (auto const &r : rs) if (r.op == kind) {
            PBT_CHECK(r.rs >= 0 && (std::size_t) r.rs < w.total, r << " from datastore " << r.rs << " of " << w.total);
            per[r.rs].push_back(r);
        }
        for (std::size_t d = 0; d < w.total; d++) {
            std::size_t k = 0;
            for (auto const &e : want[d]) {
                if (kind == HXHIM_GETOP && e.any_status) {
                    // FIRST: what is there belongs to that datastore
                    std::size_t n = 0;
                    for (; k < per[d].size() && n < std::max<std::size_t>(e.x.nrec, 1); k++, n++) {
                        const Rec &r = per[d][k];
                        if (r.status != HXHIM_SUCCESS) { k++; break; }
                        auto it = std::find_if(model.begin(), model.end(), [&](const Model::value_type &m) { return same(m.first.first, r.s) && same(m.first.second, r.p); });
                        PBT_CHECK(it != model.end() && same(it->second, r.o), r << " is not stored");
                        PBT_CHECK(where(it->first.first, it->first.second) == d, r << " is not in datastore " << d);
                        // fewer records than asked for: all of them
                        std::size_t have = 0;
                        for (auto const &m : model) have += where(m.first.first, m.first.second) == d;
                        if (n + 1 == have) { k++; break; }
                    }
                    continue;
                }
                PBT_CHECK(k < per[d].size(), "rank " << me.rank << ": " << want[d].size() << " operations on datastore " << d << ", " << per[d].size() << " results");
                const Rec &r = per[d][k++];
                if (kind == HXHIM_HISTOGRAM) {
                    PBT_CHECK(r.status == HXHIM_SUCCESS && r.h.name == e.x.s.bytes, "histogram " << hex(e.x.s.bytes) << " of datastore " << d << ": status " << r.status << " name " << hex(r.h.name));
                    std::size_t n = 0;
                    for (auto v : r.h.counts) n += v;
                    PBT_CHECK(r.h.ready == (e.hist_count > 0) && n == e.hist_count, "histogram of datastore " << d << " counts " << n << " values, " << e.hist_count << " were put there");
                    continue;
                }
                if (kind == HXHIM_GETOP) {
                    // EQ: the first record that starts with the pair (see C04), so one if the pair is stored
                    PBT_CHECK(r.status == HXHIM_SUCCESS || !e.ok, r << " at rank " << me.rank << ": " << e.x << " is stored");
                    if (r.status == HXHIM_SUCCESS) {
                        auto it = std::find_if(model.begin(), model.end(), [&](const Model::value_type &m) { return same(m.first.first, r.s) && same(m.first.second, r.p) && where(m.first.first, m.first.second) == d; });
                        PBT_CHECK(it != model.end() && same(it->second, r.o), r << " is not in datastore " << d);
                    }
                    continue;
                }
                PBT_CHECK(r.s == e.x.s && r.p == e.x.p, r << " from datastore " << d << ", the next operation is " << e.x);
                PBT_CHECK(r.sp == e.x.sp && r.pp == e.x.pp, r << " does not refer to the buffers it was given");
                if (!e.any_status) PBT_CHECK((r.status == HXHIM_SUCCESS) == e.ok, r << " at rank " << me.rank << ", datastore " << d);
                if (r.has_o && e.ok) PBT_CHECK(same(e.o, r.o), r << " expected " << e.o);
            }
            PBT_CHECK(k == per[d].size(), "rank " << me.rank << ": " << per[d].size() - k << " results too many from datastore " << d);
        }
    };
    auto do_flush = [&](Rank &me, int f, bool c_api) {
        std::vector<hxhim_op_t> kinds;
        switch (f) {
            case F_PUTS: kinds = {HXHIM_PUT}; break;
            case F_GETS: kinds = {HXHIM_GET}; break;
            case F_GETOPS: kinds = {HXHIM_GETOP}; break;
            case F_DELS: kinds = {HXHIM_DELETE}; break;
            case F_HISTS: kinds = {HXHIM_HISTOGRAM}; break;
            default: kinds.assign(order, order + 5);
        }
        std::map<hxhim_op_t, std::vector<std::deque<Expect>>> want;
        Model before = model;
        // GETOP scans see the state between the PUTs and the DELETEs: keep that one
        Model at_getop;
        for (auto k : kinds) { want[k] = execute(me, k); if (k == HXHIM_GETOP) at_getop = model; }
        me.packets.clear();
        const Model after = model;
        std::vector<Rec> rs = flush(me.S, f, c_api);
        PBT_CHECK(w.problem.empty(), w.problem);
        for (auto k : kinds) {
            if (k == HXHIM_GETOP) model = at_getop;
            check_packets(me, k);
            check_results(me, k, want[k], rs);
            model = after;
            for (auto &q : me.queued[k]) q.clear();
        }
        for (auto const &r : rs) {
            bool asked = f == F_SYNC && r.op == HXHIM_SYNC;
            for (auto k : kinds) asked = asked || r.op == k;
            PBT_CHECK(asked, "unexpected " << r);
        }
        if (f == F_SYNC) {
            std::size_t n = 0, mine = 0;
            for (auto const &r : rs) if (r.op == HXHIM_SYNC) { n++; PBT_CHECK(r.status == HXHIM_SUCCESS, "SYNC failed"); }
            for (std::size_t d = 0; d < w.total; d++) mine += w.ds_rank(d) == me.rank;
            PBT_CHECK(n == mine, n << " SYNC results, rank " << me.rank << " has " << mine << " datastores");
        }
    };

    const std::size_t steps = 4 + src.below(limits ? 14 : 45);
    for (std::size_t i = 0; i < steps; i++) {
        Rank &me = *w.ranks[src.below(w.size)];
        fake_rank = me.rank;
        const bool c_api = src.coin();
        const unsigned what = src.weighted({6, 5, 2, 3, 2, 6});
        auto sent = [&](const QOp &q) {
            c.ops++;
            Sent x;
            x.sp = q.sp; x.pp = q.pp;
            switch (q.kind) {
                case K_PUT:
                    for (auto const &e : expand(q)) {
                        x.kind = HXHIM_PUT; x.s = e.first.first; x.p = e.first.second; x.o = e.second;
                        me.queued[HXHIM_PUT][where(x.s, x.p)].push_back(x);
                    }
                    return;
                case K_GET: x.kind = HXHIM_GET; break;
                case K_DEL: x.kind = HXHIM_DELETE; break;
                default: x.kind = HXHIM_GETOP;
            }
            x.s = q.s; x.p = q.p; x.want = q.want; x.nrec = q.nrec; x.gop = q.gop;
            me.queued[x.kind][where(x.s, x.p)].push_back(x);
        };
        auto make = [&](Kind k) {
            QOp q; q.kind = k;
            q.s = src.pick(subj); q.p = src.pick(pred);
            if (k == K_PUT) {
                if (src.chance(1, 6)) { q.p = byte("h"); q.o = num<double>(HXHIM_DATA_DOUBLE, (double) src.below(100)); }
                else q.o = limits && src.chance(1, 3) ? byte(std::string(1 + src.below(300), 'o')) : gen_val(src, g);
            }
            else {
                if (src.chance(1, 6)) q.p = byte("h");
                auto it = model.find(Key(q.s, q.p));
                q.want = it != model.end() ? it->second.type : HXHIM_DATA_BYTE;
                // queued PUTs may change the type: the type asked for is that of the last one
                for (auto const &r : w.ranks) for (auto const &x : r->queued[HXHIM_PUT][where(q.s, q.p)]) if (r.get() == &me && x.s == q.s && x.p == q.p) q.want = x.o.type;
                q.nrec = 1;
                q.gop = k == K_GETOP && src.chance(1, 4) ? HXHIM_GETOP_FIRST : HXHIM_GETOP_EQ;
                if (q.gop == HXHIM_GETOP_FIRST) q.nrec = 1 + src.below(4);
            }
            return q;
        };
        // a read of one type after a write of another is about types, not about ranks: keep them apart
        if (what < 4) {
            static const Kind kinds[] = {K_PUT, K_GET, K_GETOP, K_DEL};
            const Kind k = kinds[what];
            std::vector<QOp> qs;
            const std::size_t n = src.coin() ? 1 : several(src, limits ? 30 : 9, 300, 40);
            for (std::size_t j = 0; j < n; j++) qs.push_back(make(k));
            c.desc << "rank " << me.rank << (n > 1 ? " bulk" : "");
            for (auto const &q : qs) c.desc << " " << q;
            c.desc << "\n";
            if (n == 1) PBT_CHECK(submit(me.S, qs[0], c_api) == HXHIM_SUCCESS, "operation refused");
            else PBT_CHECK(submit_bulk(me.S, qs, c_api) == HXHIM_SUCCESS, "bulk operation refused");
            for (auto const &q : qs) sent(q);
        }
        else if (what == 4) {
            const std::size_t n = 1 + src.below(limits ? 12 : 3);
            for (std::size_t j = 0; j < n; j++) {
                const std::size_t d = src.below(w.total);
                c.desc << "rank " << me.rank << " histogram of " << d << "\n";
                char *name = (char *) me.S.arena.put("h");
                PBT_CHECK((c_api ? hxhimHistogram(&me.S.hx, (int) d, name, 1) : hxhim::Histogram(&me.S.hx, (int) d, name, 1)) == HXHIM_SUCCESS, "histogram refused");
                Sent x; x.kind = HXHIM_HISTOGRAM; x.s = byte("h");
                me.queued[HXHIM_HISTOGRAM][d].push_back(x);
                c.ops++;
            }
        }
        else {
            const int f = src.chance(1, 2) ? F_ALL : (int) src.below(7);
            c.desc << "rank " << me.rank << " " << flush_name(f) << "\n";
            do_flush(me, f, c_api);
        }
    }
    for (auto &r : w.ranks) { fake_rank = r->rank; c.desc << "rank " << r->rank << " Flush\n"; do_flush(*r, F_ALL, false); }
    // everything is where the model has it, seen from any rank
    if (model.size()) {
        Rank &me = *w.ranks[src.below(w.size)];
        fake_rank = me.rank;
        for (auto const &m : model) {
            QOp q; q.kind = K_GET; q.s = m.first.first; q.p = m.first.second; q.want = m.second.type;
            PBT_CHECK(submit(me.S, q, false) == HXHIM_SUCCESS, "get refused");
            Sent x; x.kind = HXHIM_GET; x.s = q.s; x.p = q.p; x.want = q.want; x.sp = q.sp; x.pp = q.pp;
            me.queued[HXHIM_GET][where(q.s, q.p)].push_back(x);
        }
        c.desc << "rank " << me.rank << " reads everything\n";
        do_flush(me, F_GETS, false);
    }
    c.nontrivial = limits ? full + by_size > 0 : cross_reads > 0 && w.multi > 0;
    c.label("operations on remote datastores", remote);
    c.label("messages", w.messages);
    c.label("reads of another rank's data", cross_reads);
    c.label("packets closed by the operation limit", full);
    c.label("packets closed by the size limit", by_size);
    // queued leftovers are carried out while the others are still there
    for (auto &r : w.ranks) { fake_rank = r->rank; r->S.close(); }
}

pbt::Reg r05("C05",
    "Random operations of every kind with values of 1 byte to some kilobytes, single and bulk, from random ranks of 2-3, with operation limits of 1 to 1000 and size limits of 1 byte to 740 bytes or none; every packet sent is packed and compared with the queue it came from; a case is non-trivial when some packet was followed by another one because a limit was reached",
    [](pbt::Src &s, pbt::Case &c) { run(s, c, true); }, 7000, 600000);

pbt::Reg r24("C24",
    "Random worlds of 2-7 ranks (client:server ratios 1-4:1-5, 1-4 datastores per server, ranks without datastores) with random operations from random ranks, interleaved flushes and syncs, requests and responses delivered in random order; a case is non-trivial when a rank read data another rank put and one flush sent several packets at once",
    [](pbt::Src &s, pbt::Case &c) { run(s, c, false); }, 7000, 600000);

}
