// C25 concurrent ranks over the MPI transport
//
// All ranks of a world run as threads of one process. Each has a communicator
// of its own, and the MPI calls made with it are carried out by the simulated
// network below: messages arrive after random delays, sends complete when they
// like (eager or rendezvous), and nothing but what the MPI standard promises holds.
#include "hist.hpp"

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <optional>
#include <thread>

#include <sched.h>

using namespace hxt;

// one log per process: ranks that share a process must not open and close it
extern "C" int mlog_open(char *, int, int, int, char *, int, int, int) { return 0; }
extern "C" void mlog_close(void) {}

// Under ThreadSanitizer the simulated network must not order anything but what
// its messages and barriers order.
#if defined(__SANITIZE_THREAD__)
extern "C" {
void AnnotateIgnoreSyncBegin(const char *, int); void AnnotateIgnoreSyncEnd(const char *, int);
void AnnotateIgnoreReadsBegin(const char *, int); void AnnotateIgnoreReadsEnd(const char *, int);
void AnnotateIgnoreWritesBegin(const char *, int); void AnnotateIgnoreWritesEnd(const char *, int);
void __tsan_acquire(void *); void __tsan_release(void *);
}
#define TSAN(x) x
#else
#define TSAN(x)
#endif

namespace {

struct Hidden {
    Hidden() { TSAN(AnnotateIgnoreSyncBegin("", 0); AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0);) }
    ~Hidden() { TSAN(AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0); AnnotateIgnoreSyncEnd("", 0);) }
};

// -------------------------------------------------------- simulated network

struct Net;

struct FakeComm {
    std::uint64_t magic[4];
    Net *net;
    int rank;
};
const std::uint64_t MAGIC[4] = {0x6861726e65737331ULL, 0x9d3c51aa07be42f6ULL, 0x1b7ee01c3a94d58fULL, 0x5cf2a8346d9017ebULL};

struct Msg;
struct Req {
    std::uint64_t magic = MAGIC[3];
    Net *net = nullptr;
    bool send = false, matched = false, done = false, freed = false, cancelled = false;
    std::uint64_t done_at = 0;
    int rank = 0, peer = 0, tag = 0;          // own rank, source or destination
    char *buf = nullptr;
    std::size_t cap = 0, len = 0;
    int from = 0, from_tag = 0;
    std::string data;                         // taken from the sender when matched
};
struct Msg {
    int src = 0, dst = 0, tag = 0;
    std::uint64_t arrives = 0;
    std::size_t len = 0;
    bool eager = true;
    std::string data;                         // eager: copied when sent
    Req *sender = nullptr;                    // rendezvous: not complete before it is matched
};

struct Net {
    std::mutex m;
    int size = 0;
    std::vector<FakeComm> comms;
    std::uint64_t tick = 0, rng = 0;
    unsigned max_delay = 0, rendezvous = 0;   // rendezvous: out of 8
    std::deque<Msg> flying;                   // in order of arrival per (src, dst)
    std::deque<Msg> unexpected;               // arrived, not received
    std::list<Req *> posted;                  // receives waiting for a message
    std::list<Req *> active;                  // matched, or sends that will complete by themselves
    std::size_t live = 0;                     // requests that exist
    std::atomic<bool> dead{false};
    std::string problem;
    std::uint64_t progress = 0, messages = 0, overlapped = 0;
    std::vector<std::string> doing;           // per rank: what its user thread is in
    // barrier
    std::size_t arrived = 0, generation = 0;
    // what messages order (ThreadSanitizer)
    char order[16][16] = {}, barrier_order = 0;

    std::uint64_t next() {
        std::uint64_t z = (rng += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    std::uint64_t delay() { return max_delay ? next() % 3 ? next() % (max_delay + 1) : 0 : 0; }
    void bad(const std::string &s) { if (problem.empty()) problem = s; dead = true; }

    void complete(Req *r) {
        if (!r->send) {
            if (r->len > r->cap) { bad("a message of " + std::to_string(r->len) + " bytes (tag " + std::to_string(r->from_tag) + ", rank " + std::to_string(r->from) + " to rank " + std::to_string(r->rank) + ") was received into " + std::to_string(r->cap) + " bytes"); return; }
            memcpy(r->buf, r->data.data(), r->len);
        }
        r->done = true;
        progress++;
        if (r->freed) { delete r; live--; }
    }
    void match(Req *r, Msg &x) {
        r->matched = true;
        r->from = x.src; r->from_tag = x.tag; r->len = x.len;
        if (x.eager) r->data.swap(x.data);
        else r->data.assign(x.sender->buf, x.sender->len);
        r->done_at = tick + delay();
        active.push_back(r);
        if (x.sender) { x.sender->done_at = tick + delay(); active.push_back(x.sender); x.sender = nullptr; }
    }
    static bool fits(const Req *r, const Msg &x) { return r->rank == x.dst && (r->peer == MPI_ANY_SOURCE || r->peer == x.src) && (r->tag == MPI_ANY_TAG || r->tag == x.tag); }
    void step() {
        tick++;
        for (auto it = flying.begin(); it != flying.end();) {
            if (it->arrives > tick) { ++it; continue; }
            // in order between two ranks
            bool first = true;
            for (auto o = flying.begin(); o != it; ++o) if (o->src == it->src && o->dst == it->dst) first = false;
            if (!first) { ++it; continue; }
            bool taken = false;
            for (auto p = posted.begin(); p != posted.end(); ++p) if (fits(*p, *it)) { Req *r = *p; posted.erase(p); match(r, *it); taken = true; break; }
            if (!taken) unexpected.push_back(*it);
            progress++;
            it = flying.erase(it);
        }
        for (auto it = active.begin(); it != active.end();) {
            if ((*it)->done_at > tick) { ++it; continue; }
            Req *r = *it;
            it = active.erase(it);
            complete(r);
            if (dead) return;
        }
    }
    Req *isend(const void *buf, std::size_t len, int dst, int tag, int rank) {
        Req *r = new Req(); live++;
        r->net = this; r->send = true; r->rank = rank; r->peer = dst; r->tag = tag; r->buf = (char *) buf; r->len = len;
        if (dst < 0 || dst >= size) { bad("rank " + std::to_string(rank) + " sent to rank " + std::to_string(dst) + " of " + std::to_string(size)); return r; }
        Msg x;
        x.src = rank; x.dst = dst; x.tag = tag; x.len = len;
        x.eager = next() % 8 >= rendezvous;
        if (x.eager) { x.data.assign((const char *) buf, len); r->done_at = tick + delay(); active.push_back(r); }
        else x.sender = r;
        x.arrives = tick + delay();
        for (auto const &f : flying) if (f.dst == dst && f.src != rank) { overlapped++; break; }
        flying.push_back(x);
        messages++;
        return r;
    }
    Req *irecv(void *buf, std::size_t cap, int src, int tag, int rank) {
        Req *r = new Req(); live++;
        r->net = this; r->rank = rank; r->peer = src; r->tag = tag; r->buf = (char *) buf; r->cap = cap;
        for (auto it = unexpected.begin(); it != unexpected.end(); ++it) if (fits(r, *it)) { match(r, *it); unexpected.erase(it); return r; }
        posted.push_back(r);
        return r;
    }
};

FakeComm *fake(MPI_Comm c) {
    if (!c || (void *) c == (void *) MPI_COMM_NULL || (void *) c == (void *) MPI_COMM_WORLD || (void *) c == (void *) MPI_COMM_SELF) return nullptr;
    FakeComm *f = (FakeComm *) c;
    return memcmp(f->magic, MAGIC, sizeof(MAGIC)) == 0 ? f : nullptr;
}
Req *fake(MPI_Request q) { return (Req *) q; }

// a world that has failed never returns to its callers
void rest(Net *n) { while (n->dead) std::this_thread::sleep_for(std::chrono::seconds(1000)); }

thread_local unsigned idle_calls = 0;
void idle() {
    idle_calls++;
    if (idle_calls < 4) return;
    if (idle_calls < 40) sched_yield();
    else std::this_thread::sleep_for(std::chrono::microseconds(idle_calls < 400 ? 20 : 60));
}

std::size_t bytes(int count, MPI_Datatype t) {
    if (t == MPI_CHAR || t == MPI_BYTE) return (std::size_t) count;
    int s = 1;
    PMPI_Type_size(t, &s);
    return (std::size_t) count * s;
}

bool finished(Req *r, MPI_Request *q, MPI_Status *st) {
    if (!r->done && !r->cancelled) return false;
    if (st && st != MPI_STATUS_IGNORE) {
        st->MPI_SOURCE = r->from; st->MPI_TAG = r->from_tag; st->MPI_ERROR = MPI_SUCCESS;
        st->_ucount = r->len; st->_cancelled = r->cancelled;
    }
    delete r;
    *q = MPI_REQUEST_NULL;
    return true;
}

}

extern "C" {
int MPI_Comm_rank(MPI_Comm c, int *r) { FakeComm *f = fake(c); if (f) { *r = f->rank; return MPI_SUCCESS; } return PMPI_Comm_rank(c, r); }
int MPI_Comm_size(MPI_Comm c, int *s) { FakeComm *f = fake(c); if (f) { *s = f->net->size; return MPI_SUCCESS; } return PMPI_Comm_size(c, s); }
int MPI_Barrier(MPI_Comm c) {
    FakeComm *f = fake(c);
    if (!f) return PMPI_Barrier(c);
    Net *n = f->net;
    TSAN(__tsan_release(&n->barrier_order);)
    struct After { Net *n; ~After() { TSAN(__tsan_acquire(&n->barrier_order);) (void) n; } } after{n};
    Hidden hidden;
    rest(n);
    std::unique_lock<std::mutex> l(n->m);
    const std::size_t g = n->generation;
    if (++n->arrived == (std::size_t) n->size) { n->arrived = 0; n->generation++; n->progress++; return MPI_SUCCESS; }
    while (n->generation == g) {
        n->step();
        l.unlock();
        rest(n);
        std::this_thread::sleep_for(std::chrono::microseconds(30));
        l.lock();
    }
    return MPI_SUCCESS;
}
int MPI_Isend(const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q) {
    FakeComm *f = fake(c);
    if (!f) return PMPI_Isend(buf, count, t, dst, tag, c, q);
    TSAN(if (dst >= 0 && dst < f->net->size) __tsan_release(&f->net->order[f->rank][dst]);)
    Hidden hidden;
    rest(f->net);
    { std::lock_guard<std::mutex> l(f->net->m); f->net->step(); *q = (MPI_Request) f->net->isend(buf, bytes(count, t), dst, tag, f->rank); }
    rest(f->net);
    return MPI_SUCCESS;
}
int MPI_Irecv(void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *q) {
    FakeComm *f = fake(c);
    if (!f) return PMPI_Irecv(buf, count, t, src, tag, c, q);
    Hidden hidden;
    rest(f->net);
    { std::lock_guard<std::mutex> l(f->net->m); f->net->step(); *q = (MPI_Request) f->net->irecv(buf, bytes(count, t), src, tag, f->rank); }
    rest(f->net);
    return MPI_SUCCESS;
}
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *st) {
    if (*q == MPI_REQUEST_NULL) { *flag = 1; return MPI_SUCCESS; }
    Req *r = fake(*q);
    Net *n = r->net;
    int from = -1;
    const int rank = r->rank;
    (void) rank;
    {
        Hidden hidden;
        rest(n);
        {
            std::lock_guard<std::mutex> l(n->m);
            n->step();
            if (!r->send && r->done) from = r->from;
            *flag = !n->dead && finished(r, q, st);
            if (*flag) n->live--;
        }
        rest(n);
    }
    // the net may be gone when the last rank has been closed, but not while it has requests
    TSAN(if (*flag && from >= 0) __tsan_acquire(&n->order[from][rank]);)
    (void) from;
    if (*flag) idle_calls = 0; else idle();
    return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request *q, MPI_Status *st) {
    int flag = 0;
    while (!flag) MPI_Test(q, &flag, st);
    return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st) {
    for (int i = 0; i < n; i++) MPI_Wait(&q[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]);
    return MPI_SUCCESS;
}
int MPI_Send(const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c) {
    if (!fake(c)) return PMPI_Send(buf, count, t, dst, tag, c);
    MPI_Request q;
    MPI_Isend(buf, count, t, dst, tag, c, &q);
    return MPI_Wait(&q, MPI_STATUS_IGNORE);
}
int MPI_Recv(void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st) {
    if (!fake(c)) return PMPI_Recv(buf, count, t, src, tag, c, st);
    MPI_Request q;
    MPI_Irecv(buf, count, t, src, tag, c, &q);
    return MPI_Wait(&q, st);
}
int MPI_Request_free(MPI_Request *q) {
    if (*q == MPI_REQUEST_NULL) return MPI_SUCCESS;
    Req *r = fake(*q);
    Net *n = r->net;
    Hidden hidden;
    rest(n);
    std::lock_guard<std::mutex> l(n->m);
    if (r->done || r->cancelled) { delete r; n->live--; }
    else r->freed = true;
    *q = MPI_REQUEST_NULL;
    return MPI_SUCCESS;
}
int MPI_Cancel(MPI_Request *q) {
    if (*q == MPI_REQUEST_NULL) return MPI_SUCCESS;
    Req *r = fake(*q);
    Net *n = r->net;
    Hidden hidden;
    rest(n);
    std::lock_guard<std::mutex> l(n->m);
    for (auto it = n->posted.begin(); it != n->posted.end(); ++it) if (*it == r) { n->posted.erase(it); r->cancelled = true; break; }
    return MPI_SUCCESS;
}
int MPI_Test_cancelled(const MPI_Status *st, int *flag) { *flag = st->_cancelled; return MPI_SUCCESS; }
}

namespace {

// ----------------------------------------------------------------- scripts

typedef std::pair<bool, Val> State;              // stored?, value

struct Want {                                    // one result
    hxhim_op_t kind = HXHIM_INVALID;
    Key key;
    std::size_t act = 0, idx = 0;                // where it was queued
    bool swapped = false;                        // key is (predicate, subject) of the call
    bool any_status = false;
    bool exact = true;
    State state;                                 // exact
    std::size_t phase = 0;                       // otherwise: any state of that phase
    std::size_t lo = 0, hi = 0;                  // HISTOGRAM
    std::size_t nrec = 0;
    bool first = false;                          // GETOP FIRST
};

struct Act {
    enum { OPS, HIST, FLUSH, PAUSE, SYNC } what = OPS;
    std::vector<QOp> ops;
    bool bulk = false, c_api = false;
    int f = F_ALL;
    std::size_t ds = 0;
    unsigned us = 0;
    std::map<hxhim_op_t, std::vector<std::vector<Want>>> want;
};

struct Script { std::vector<Act> acts; };

struct Phase {
    std::map<Key, std::set<State>> states;       // every state a key has during the phase
    Model start;                                 // quiet phases: all there is
    bool quiet = false;
};

struct World {
    Net net;
    std::size_t client = 1, server = 1, per = 1, total = 0;
    std::vector<int> server_rank;
    std::vector<Script> scripts;
    std::vector<Phase> phases;
    Conf cfg;
    std::size_t listeners = 1;
    std::vector<std::thread> threads;
    std::atomic<int> finished{0};
    std::atomic<std::size_t> remote_reads{0};
    std::string dir;
    int ds_rank(std::size_t d) const { return server_rank[d / per]; }
};

int two_buckets(const double *v, const size_t n, double **buckets, size_t *size, void *) {
    if (!v || !n) return HISTOGRAM_ERROR;
    *size = 2;
    *buckets = alloc_array<double>(3);
    (*buckets)[0] = -1e9; (*buckets)[1] = 50; (*buckets)[2] = 1e9;
    return HISTOGRAM_SUCCESS;
}

std::ostream &operator<<(std::ostream &o, const State &s) { if (s.first) return o << s.second; return o << "absent"; }

// ------------------------------------------------------------------ one rank

void check_flush(World &w, int rank, Script &sc, Act &a, const std::vector<Rec> &rs) {
    static const hxhim_op_t all[] = {HXHIM_PUT, HXHIM_GET, HXHIM_GETOP, HXHIM_DELETE, HXHIM_HISTOGRAM};
    for (hxhim_op_t kind : all) {
        std::vector<std::vector<Rec>> per(w.total);
        for (auto const &r : rs) if (r.op == kind) {
            PBT_CHECK(r.rs >= 0 && (std::size_t) r.rs < w.total, "rank " << rank << ": " << r << " from datastore " << r.rs << " of " << w.total);
            per[r.rs].push_back(r);
        }
        auto it = a.want.find(kind);
        for (std::size_t d = 0; d < w.total; d++) {
            std::size_t k = 0;
            if (it != a.want.end()) for (auto const &e : it->second[d]) {
                if (e.first) {
                    std::size_t have = 0;
                    const Model &m = w.phases[e.phase].start;
                    for (auto const &x : m) have += spread(x.first.first, x.first.second, w.total) == d;
                    // Sync may have stored the histogram among them
                    bool stored = false;
                    auto skip = [&]() {
                        if (stored || !w.cfg.hist_write || k >= per[d].size() || per[d][k].s.bytes != "HISTOGRAM" || per[d][k].p.bytes != "h") return false;
                        PBT_CHECK(per[d][k].status == HXHIM_SUCCESS, "rank " << rank << ": " << per[d][k] << " failed");
                        k++;
                        return stored = true;
                    };
                    const std::size_t n = std::min<std::size_t>(have, e.nrec);
                    for (std::size_t i = 0; i < n; i++) {
                        if (skip() && have >= e.nrec && i + 1 == n) break;      // it took the place of the last one
                        PBT_CHECK(k < per[d].size(), "rank " << rank << ": scan of datastore " << d << " for " << e.nrec << " of " << have << " records returned " << i);
                        const Rec &r = per[d][k++];
                        PBT_CHECK(r.status == HXHIM_SUCCESS, "rank " << rank << ": " << r << ", datastore " << d << " has " << have << " records");
                        auto f = m.find(Key(r.s, r.p));
                        PBT_CHECK(f != m.end() && same(f->second, r.o) && spread(r.s, r.p, w.total) == d, "rank " << rank << ": " << r << " is not in datastore " << d);
                        if (stored && have >= e.nrec && i + 2 == n) break;
                    }
                    if (have < e.nrec && !skip() && !n && !stored) {
                        PBT_CHECK(k < per[d].size(), "rank " << rank << ": scan of the empty datastore " << d << " returned nothing");
                        PBT_CHECK(per[d][k].status == HXHIM_ERROR, "rank " << rank << ": " << per[d][k] << ", datastore " << d << " has no records");
                        k++;
                    }
                    continue;
                }
                PBT_CHECK(k < per[d].size(), "rank " << rank << ": " << it->second[d].size() << " operations of kind " << kind << " on datastore " << d << ", " << per[d].size() << " results");
                const Rec &r = per[d][k++];
                if (kind == HXHIM_HISTOGRAM) {
                    std::size_t n = 0;
                    for (auto v : r.h.counts) n += v;
                    PBT_CHECK(r.status == HXHIM_SUCCESS && r.h.name == "h", "rank " << rank << ": histogram of datastore " << d << ": status " << r.status << " name " << hex(r.h.name));
                    PBT_CHECK(n >= e.lo && n <= e.hi && r.h.ready == (n > 0), "rank " << rank << ": histogram of datastore " << d << " counts " << n << " values, between " << e.lo << " and " << e.hi << " were put there");
                    continue;
                }
                if (kind != HXHIM_GETOP) {
                    PBT_CHECK(r.s == e.key.first && r.p == e.key.second, "rank " << rank << ": " << r << " from datastore " << d << ", the next operation is on (" << e.key.first << ", " << e.key.second << ")");
                    const QOp &q = sc.acts[e.act].ops[e.idx];
                    PBT_CHECK(e.swapped ? r.sp == q.pp && r.pp == q.sp : r.sp == q.sp && r.pp == q.pp, "rank " << rank << ": " << r << " does not refer to the buffers it was given");
                }
                if (kind == HXHIM_PUT) { PBT_CHECK(r.status == HXHIM_SUCCESS, "rank " << rank << ": " << r << " at datastore " << d); continue; }
                if (kind == HXHIM_DELETE) { PBT_CHECK(e.any_status || r.status == HXHIM_SUCCESS, "rank " << rank << ": " << r << " at datastore " << d << " of a pair that is stored"); continue; }
                // reads
                const State got(r.status == HXHIM_SUCCESS, r.has_o ? r.o : Val());
                auto eq = [&](const State &s) { return s.first == got.first && (!s.first || same(s.second, got.second)); };
                if (kind == HXHIM_GETOP && got.first) {
                    // no key is the beginning of another one: EQ finds the pair
                    PBT_CHECK(r.s == e.key.first && r.p == e.key.second, "rank " << rank << ": EQ scan for (" << e.key.first << ", " << e.key.second << ") returned " << r);
                }
                if (e.exact) PBT_CHECK(eq(e.state), "rank " << rank << ": " << r << " from datastore " << d << ", expected " << e.state);
                else {
                    const Phase &ph = w.phases[e.phase];
                    auto s = ph.states.find(e.key);
                    bool ok = s == ph.states.end() ? !got.first : false;
                    if (s != ph.states.end()) for (auto const &x : s->second) ok = ok || eq(x);
                    std::ostringstream o;
                    if (!ok && s != ph.states.end()) for (auto const &x : s->second) o << " " << x;
                    PBT_CHECK(ok, "rank " << rank << ": " << r << " from datastore " << d << ", states of this phase:" << o.str());
                    if (got.first) w.remote_reads++;
                }
            }
            PBT_CHECK(k == per[d].size(), "rank " << rank << ": " << per[d].size() - k << " results of kind " << kind << " too many from datastore " << d);
        }
    }
}

void doing(World &w, int rank, const std::string &s) { Hidden hidden; std::lock_guard<std::mutex> l(w.net.m); w.net.doing[rank] = s; w.net.progress++; }

void user(World &w, int rank) {
    Session *S = new Session();                  // stays behind when the world fails
    try {
        S->world = (MPI_Comm) &w.net.comms[rank];
        doing(w, rank, "Open");
        S->open(w.cfg);
        Script &sc = w.scripts[rank];
        for (std::size_t i = 0; i < sc.acts.size(); i++) {
            Act &a = sc.acts[i];
            if (w.net.dead) return;
            switch (a.what) {
                case Act::OPS:
                    if (a.bulk) PBT_CHECK(submit_bulk(*S, a.ops, a.c_api) == HXHIM_SUCCESS, "rank " << rank << ": bulk operation refused");
                    else for (auto &q : a.ops) PBT_CHECK(submit(*S, q, a.c_api) == HXHIM_SUCCESS, "rank " << rank << ": operation refused");
                    break;
                case Act::HIST:
                    PBT_CHECK(hxhim::Histogram(&S->hx, (int) a.ds, "h", 1) == HXHIM_SUCCESS, "rank " << rank << ": histogram refused");
                    break;
                case Act::PAUSE:
                    if (a.us) std::this_thread::sleep_for(std::chrono::microseconds(a.us)); else sched_yield();
                    break;
                default: {
                    doing(w, rank, flush_name(a.f) + std::string(" (step ") + std::to_string(i) + ")");
                    std::vector<Rec> rs = flush(*S, a.f, a.c_api);
                    check_flush(w, rank, sc, a, rs);
                    if (a.f == F_SYNC) {
                        std::size_t n = 0, mine = 0;
                        for (auto const &r : rs) if (r.op == HXHIM_SYNC) { n++; PBT_CHECK(r.status == HXHIM_SUCCESS, "rank " << rank << ": SYNC failed"); }
                        for (std::size_t d = 0; d < w.total; d++) mine += w.ds_rank(d) == rank;
                        PBT_CHECK(n == mine, n << " SYNC results, rank " << rank << " has " << mine << " datastores");
                    }
                }
            }
        }
        doing(w, rank, "Close");
        S->close();
        doing(w, rank, "closed");
        delete S;
    }
    catch (const std::exception &e) {
        S->abandon();
        std::lock_guard<std::mutex> l(w.net.m);
        w.net.bad(e.what());
        return;
    }
    w.finished++;
}

// ----------------------------------------------------------------- one world

void run(pbt::Src &src, pbt::Case &c) {
    comm();
    {   // the epoch of the statistics is set by the first Open of a process
        static bool once = false;
        if (!once) { Session S; Conf k; S.open(k); S.close(); once = true; }
    }
    World *wp = new World();                     // leaked when it fails: its threads live on
    World &w = *wp;
    Dir dir;
    w.net.size = 2 + (int) src.below(4);
    w.client = 1 + src.below(3);
    w.server = 1 + src.below(w.client);
    w.per = 1 + src.below(3);
    for (int r = 0; r < w.net.size; r++) if ((std::size_t) r % w.client < w.server) w.server_rank.push_back(r);
    w.total = w.server_rank.size() * w.per;
    w.listeners = 1 + src.below(3);
    w.net.rng = src.u64();
    w.net.max_delay = std::vector<unsigned>{0, 3, 12, 60}[src.below(4)];
    w.net.rendezvous = (unsigned) std::vector<unsigned>{0, 2, 5, 8}[src.below(4)];
    w.net.doing.assign(w.net.size, "");
    for (int r = 0; r < w.net.size; r++) { FakeComm f; memcpy(f.magic, MAGIC, sizeof(MAGIC)); f.net = &w.net; f.rank = r; w.net.comms.push_back(f); }
    Conf &cfg = w.cfg;
    cfg.backend = src.chance(1, 12) ? LEVEL : MEM;
    cfg.per_server = w.per;
    cfg.max_ops = std::vector<std::size_t>{1, 2, 3, 30, 128}[src.below(5)];
    cfg.max_size = std::vector<std::size_t>{0, 0, 1, 200}[src.below(4)];
    cfg.async_at = src.chance(1, 3) ? 1 + src.below(6) : 0;
    cfg.prefix = dir.path;
    cfg.hist_names = {"h"};
    cfg.hist_write = src.chance(1, 3);            // Sync stores the histograms while other ranks go on
    cfg.hist_first_n = 1;
    cfg.hist_func = two_buckets;
    World *wq = wp;
    cfg.extra = [wq](hxhim_t *hx) {
        PBT_CHECK(hxhim_set_client_ratio(hx, wq->client) == HXHIM_SUCCESS && hxhim_set_server_ratio(hx, wq->server) == HXHIM_SUCCESS, "ratio refused");
        PBT_CHECK(hxhim_set_transport_mpi(hx, wq->listeners) == HXHIM_SUCCESS, "MPI transport refused");
        PBT_CHECK(hxhim_clear_endpoint_group(hx) == HXHIM_SUCCESS, "clearing the endpoint group failed");
        for (int r = 0; r < wq->net.size; r++) PBT_CHECK(hxhim_add_endpoint_to_group(hx, r) == HXHIM_SUCCESS, "endpoint refused");
    };
    c.desc << w.net.size << " ranks, " << w.client << ":" << w.server << ", listeners=" << w.listeners << " delay=" << w.net.max_delay << " rendezvous=" << w.net.rendezvous << "/8, " << describe(cfg) << "\n";

    const int size = w.net.size;
    w.scripts.resize(size);
    auto where = [&](const Key &k) { return spread(k.first, k.second, w.total); };

    // subjects begin with the rank they belong to and have one length, so no key is the beginning of another
    std::vector<std::vector<Val>> subj(size);
    std::vector<Val> pred;
    for (int r = 0; r < size; r++) for (std::size_t i = 0, n = 1 + src.below(3); i < n; i++) subj[r].push_back(byte(std::string(1, (char) ('A' + r)) + (char) ('0' + i) + "s"));
    for (std::size_t i = 0, n = 1 + src.below(3); i < n; i++) pred.push_back(byte("p" + std::to_string(i)));

    Model model;
    std::vector<std::size_t> counted(w.total, 0);
    unsigned counter = 0;
    const std::size_t nphases = 1 + src.below(4);
    std::size_t remote = 0;
    for (std::size_t ph = 0; ph < nphases; ph++) {
        w.phases.emplace_back();
        Phase &P = w.phases.back();
        P.quiet = ph && src.chance(1, 3);
        P.start = model;
        c.desc << "phase " << ph << (P.quiet ? " (reads only)" : "") << "\n";
        for (auto const &m : model) P.states[m.first].insert({true, m.second});
        const std::vector<std::size_t> before = counted;
        std::vector<Want *> hists;
        std::vector<std::vector<std::size_t>> own_hist(size, std::vector<std::size_t>(w.total, 0));
        for (int r = 0; r < size; r++) {
            Script &sc = w.scripts[r];
            std::map<hxhim_op_t, std::vector<std::vector<Want>>> queued;
            std::map<hxhim_op_t, std::vector<std::vector<QOp>>> dummy;
            std::map<Key, std::vector<Val>> pending;             // queued PUTs
            static const hxhim_op_t order[] = {HXHIM_PUT, HXHIM_GET, HXHIM_GETOP, HXHIM_DELETE, HXHIM_HISTOGRAM};
            for (auto k : order) queued[k].resize(w.total);
            std::map<Want *, Val> dontuse;
            std::deque<std::pair<std::pair<std::size_t, std::size_t>, Val>> unused;
            // the values of queued PUTs, per datastore and position
            std::vector<std::vector<Val>> values(w.total);

            auto flush_model = [&](int f, bool last) {
                Act a;
                a.what = Act::FLUSH;
                a.f = f; a.c_api = src.coin();
                std::vector<hxhim_op_t> kinds;
                switch (f) {
                    case F_PUTS: kinds = {HXHIM_PUT}; break;
                    case F_GETS: kinds = {HXHIM_GET}; break;
                    case F_GETOPS: kinds = {HXHIM_GETOP}; break;
                    case F_DELS: kinds = {HXHIM_DELETE}; break;
                    case F_HISTS: kinds = {HXHIM_HISTOGRAM}; break;
                    default: kinds.assign(order, order + 5);
                }
                for (auto k : kinds) {
                    auto &q = queued[k];
                    for (std::size_t d = 0; d < w.total; d++) {
                        for (std::size_t i = 0; i < q[d].size(); i++) {
                            Want &e = q[d][i];
                            if (w.ds_rank(d) != r) remote++;
                            const bool mine = e.key.first.bytes.size() && (e.key.first.bytes[0] == 'A' + r || (e.key.second.bytes.size() && e.key.second.bytes[0] == 'A' + r));
                            auto it = model.find(e.key);
                            switch (k) {
                                case HXHIM_PUT:
                                    model[e.key] = values[d][i];
                                    P.states[e.key].insert({true, values[d][i]});
                                    if (e.key.second == byte("h")) { counted[d]++; own_hist[r][d]++; }
                                    break;
                                case HXHIM_DELETE:
                                    e.any_status = it == model.end();
                                    model.erase(e.key);
                                    P.states[e.key].insert({false, Val()});
                                    break;
                                case HXHIM_GET: case HXHIM_GETOP:
                                    e.phase = ph;
                                    e.exact = !e.first && (P.quiet || (mine && !pending.count(e.key)) || (mine && !cfg.async_at));
                                    e.state = it == model.end() ? State(false, Val()) : State(true, it->second);
                                    break;
                                default:
                                    e.lo = before[d] + own_hist[r][d];
                                    break;
                            }
                        }
                        if (k == HXHIM_PUT) values[d].clear();
                    }
                    if (k == HXHIM_PUT) pending.clear();
                    a.want[k] = q;
                    q.assign(w.total, {});
                }
                c.desc << "rank " << r << " " << flush_name(f) << "\n";
                sc.acts.push_back(a);
                (void) last;
            };

            const std::size_t steps = src.below(14);
            for (std::size_t i = 0; i < steps; i++) {
                const unsigned what = P.quiet ? (unsigned) std::vector<unsigned>{1, 1, 2, 4, 5, 5}[src.below(6)] : src.weighted({6, 5, 2, 2, 1, 6, 1});
                if (what == 5) {
                    int f = src.coin() ? F_ALL : (int) src.below(6);
                    // whether an asynchronous PUT comes before or after a DELETE is not determined
                    if (cfg.async_at && f == F_DELS) f = F_ALL;
                    flush_model(f, false);
                    continue;
                }
                if (what == 6) { Act a; a.what = Act::PAUSE; a.us = (unsigned) src.below(4) * 60; sc.acts.push_back(a); continue; }
                Act a;
                a.c_api = src.coin();
                if (what == 4) {
                    a.what = Act::HIST;
                    a.ds = src.below(w.total);
                    Want e; e.kind = HXHIM_HISTOGRAM;
                    queued[HXHIM_HISTOGRAM][a.ds].push_back(e);
                    c.desc << "rank " << r << " histogram of " << a.ds << "\n";
                    sc.acts.push_back(a);
                    c.ops++;
                    continue;
                }
                a.bulk = src.coin();
                const std::size_t n = a.bulk ? several(src, 12, 150, 40) : 1 + src.below(2);
                const std::size_t at = sc.acts.size();
                c.desc << "rank " << r << (a.bulk ? " bulk" : "");
                for (std::size_t j = 0; j < n; j++) {
                    QOp q;
                    const int owner = what == 1 || what == 2 ? (src.coin() ? r : (int) src.below(size)) : r;
                    q.s = src.pick(subj[owner]);
                    q.p = src.chance(1, 6) ? byte("h") : src.pick(pred);
                    const bool h = q.p == byte("h");
                    q.want = h ? HXHIM_DATA_DOUBLE : HXHIM_DATA_BYTE;
                    Want e;
                    e.act = at; e.idx = j;
                    e.key = Key(q.s, q.p);
                    if (what == 0) {
                        q.kind = K_PUT;
                        ++counter;
                        q.o = h ? num<double>(HXHIM_DATA_DOUBLE, (double) (counter % 100)) : byte("v" + std::to_string(counter) + std::string(src.below(src.chance(1, 200) ? 200000 : src.chance(1, 8) ? 400 : 20), '.'));
                        if (!h && src.chance(1, 8)) q.perms = HXHIM_PUT_SPO | HXHIM_PUT_PSO;
                        for (auto const &x : expand(q)) {
                            e.kind = HXHIM_PUT;
                            e.key = x.first;
                            e.swapped = !(x.first == Key(q.s, q.p));
                            queued[HXHIM_PUT][where(x.first)].push_back(e);
                            values[where(x.first)].push_back(x.second);
                            pending[x.first].push_back(x.second);
                        }
                    }
                    else if (what == 1) { q.kind = K_GET; e.kind = HXHIM_GET; queued[HXHIM_GET][where(e.key)].push_back(e); }
                    else if (what == 2) {
                        q.kind = K_GETOP; e.kind = HXHIM_GETOP;
                        q.gop = HXHIM_GETOP_EQ; q.nrec = 1;
                        if (P.quiet && !h && src.chance(1, 3)) { q.gop = HXHIM_GETOP_FIRST; q.nrec = 1 + src.below(5); e.first = true; e.nrec = q.nrec; e.phase = ph; }
                        queued[HXHIM_GETOP][where(e.key)].push_back(e);
                    }
                    else { q.kind = K_DEL; e.kind = HXHIM_DELETE; queued[HXHIM_DELETE][where(e.key)].push_back(e); }
                    c.desc << " " << q;
                    a.ops.push_back(q);
                    c.ops++;
                }
                c.desc << "\n";
                sc.acts.push_back(a);
            }
            flush_model(F_SYNC, true);
        }
        // what a histogram may count at most is known now
        for (auto &sc : w.scripts) for (auto &a : sc.acts) {
            auto it = a.want.find(HXHIM_HISTOGRAM);
            if (it == a.want.end()) continue;
            for (std::size_t d = 0; d < w.total; d++) for (auto &e : it->second[d]) if (!e.hi) { e.hi = P.quiet ? before[d] : counted[d]; if (P.quiet) e.lo = before[d]; if (!e.hi) e.hi = 0; }
        }
    }
    // absent at the start of a phase
    for (std::size_t ph = 0; ph < w.phases.size(); ph++) for (auto &s : w.phases[ph].states) if (!w.phases[ph].start.count(s.first)) s.second.insert({false, Val()});

    // everything is there for every rank, and nothing else
    {
        w.phases.emplace_back();
        w.phases.back().quiet = true;
        w.phases.back().start = model;
        for (int r = 0; r < size; r++) {
            Act ops, fl;
            ops.bulk = true;
            fl.what = Act::FLUSH; fl.f = F_GETS;
            fl.want[HXHIM_GET].resize(w.total);
            for (int o = 0; o < size; o++) for (auto const &s : subj[o]) {
                std::vector<Val> ps = pred;
                ps.push_back(byte("h"));
                for (auto const &p : ps) {
                    QOp q; q.kind = K_GET; q.s = s; q.p = p; q.want = p == byte("h") ? HXHIM_DATA_DOUBLE : HXHIM_DATA_BYTE;
                    Want e; e.kind = HXHIM_GET; e.key = Key(s, p); e.act = w.scripts[r].acts.size(); e.idx = ops.ops.size();
                    auto it = model.find(e.key);
                    e.state = it == model.end() ? State(false, Val()) : State(true, it->second);
                    fl.want[HXHIM_GET][where(e.key)].push_back(e);
                    ops.ops.push_back(q);
                }
            }
            w.scripts[r].acts.push_back(ops);
            w.scripts[r].acts.push_back(fl);
            for (std::size_t d = 0; d < w.total; d++) {
                Act h; h.what = Act::HIST; h.ds = d;
                w.scripts[r].acts.push_back(h);
            }
            Act fh; fh.what = Act::FLUSH; fh.f = F_HISTS;
            fh.want[HXHIM_HISTOGRAM].resize(w.total);
            for (std::size_t d = 0; d < w.total; d++) { Want e; e.kind = HXHIM_HISTOGRAM; e.lo = e.hi = counted[d]; fh.want[HXHIM_HISTOGRAM][d].push_back(e); }
            w.scripts[r].acts.push_back(fh);
        }
    }

    for (int r = 0; r < size; r++) w.threads.emplace_back([wp, r]() { user(*wp, r); });
    std::uint64_t last = 0;
    auto since = std::chrono::steady_clock::now();
    while (w.finished < size) {
        std::this_thread::sleep_for(std::chrono::microseconds(200));
        std::lock_guard<std::mutex> l(w.net.m);
        if (w.net.dead) break;
        const auto now = std::chrono::steady_clock::now();
        if (w.net.progress != last) { last = w.net.progress; since = now; }
        else if (now - since > std::chrono::seconds(25)) {
            std::ostringstream o;
            o << "nothing happens any more:";
            for (int r = 0; r < size; r++) o << " rank " << r << " is in " << w.net.doing[r] << ";";
            o << " " << w.net.flying.size() + w.net.unexpected.size() << " messages not received, " << w.net.posted.size() << " receives waiting";
            w.net.bad(o.str());
            break;
        }
    }
    if (w.net.dead) {
        for (auto &t : w.threads) t.detach();
        std::string p;
        { std::lock_guard<std::mutex> l(w.net.m); p = w.net.problem; }
        PBT_FAIL(p);
    }
    for (auto &t : w.threads) t.join();
    std::string left;
    {
        std::lock_guard<std::mutex> l(w.net.m);
        for (int i = 0; i < 200; i++) w.net.step();
        std::ostringstream o;
        if (w.net.flying.size() + w.net.unexpected.size()) o << w.net.flying.size() + w.net.unexpected.size() << " messages were sent and never received";
        else if (w.net.posted.size()) o << w.net.posted.size() << " receives are still waiting after every rank was closed";
        else if (w.net.live) o << w.net.live << " requests were never completed";
        left = o.str();
        c.nontrivial = w.net.overlapped > 0 && w.remote_reads > 0;
        c.label("messages", w.net.messages);
        c.label("messages on their way to the same rank from several", w.net.overlapped);
    }
    c.label("operations on remote datastores", remote);
    c.label("reads of another rank's or a pending value", w.remote_reads);
    delete wp;
    PBT_CHECK(left.empty(), left);
}

pbt::Reg r25("C25",
    "Worlds of 2-5 concurrent ranks (threads) over the MPI transport on a simulated network (random message delays, eager and rendezvous sends), 1-3 listeners, 1-3 datastores per server, with and without asynchronous PUTs; every rank runs its own random script of single and bulk operations, flushes and pauses between collective Syncs, and every result is checked: own pairs exactly, pairs of others against the values they have in that phase, everything exactly after a Sync; a case is non-trivial when requests of several ranks were under way to the same rank and a rank read a value that another rank was changing",
    run, 3000, 200000, 10, 150, 3, true);

pbt::Reg r29("C29",
    "The worlds of C25 (concurrent ranks whose users, listeners and background PUT threads work on the same datastores) under ThreadSanitizer, where only messages, barriers and HXHIM's own locks order anything; a case is non-trivial when requests of several ranks were under way to the same rank and a rank read a value that another rank was changing",
    run, 2000, 100000, 10, 200, 3, true);

}
