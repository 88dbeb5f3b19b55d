// helpers for the demonstrations
#include <mpi.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "hxhim/hxhim.hpp"
#include "utils/mlog2.h"
#include "utils/mlogfacs2.h"
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); fflush(stdout); _exit(1); } } while (0)
struct Hx {
    hxhim_t hx;
    explicit Hx(bool init = true) {
        int f = 0, p; MPI_Initialized(&f); if (!f) MPI_Init_thread(nullptr, nullptr, MPI_THREAD_MULTIPLE, &p);
        memset(&hx, 0, sizeof(hx));
        if (init) setup();
    }
    void setup() {
        CHECK(hxhim::Init(&hx, MPI_COMM_WORLD) == HXHIM_SUCCESS);
        hxhim_set_datastore_in_memory(&hx);
        hxhim_set_transport_null(&hx);
        hxhim_set_start_async_puts_at(&hx, 0);
        hxhim_set_debug_level(&hx, MLOG_EMERG);
    }
    void open() { CHECK(hxhim::Open(&hx) == HXHIM_SUCCESS); }
    void close() { hxhim::Close(&hx); }
};
struct R { hxhim_op_t op; int status; std::string s, p, o; hxhim_data_t t; };
inline std::vector<R> drain(hxhim::Results *res) {
    std::vector<R> v;
    if (!res) return v;
    for (res->GoToHead(); res->ValidIterator(); res->GoToNext()) {
        R r; r.status = -1; r.t = HXHIM_DATA_INVALID; res->Op(&r.op); res->Status(&r.status);
        void *a; std::size_t n; hxhim_data_t t;
        if (res->Subject(&a, &n, &t) == HXHIM_SUCCESS && a) r.s.assign((char *) a, n);
        if (res->Predicate(&a, &n, &t) == HXHIM_SUCCESS && a) r.p.assign((char *) a, n);
        if (r.status == HXHIM_SUCCESS && res->Object(&a, &n, &t) == HXHIM_SUCCESS && a) { r.o.assign((char *) a, n); r.t = t; }
        v.push_back(r);
    }
    hxhim::Results::Destroy(res);
    return v;
}
inline void put(Hx &h, const std::string &s, const std::string &p, const std::string &o, hxhim_put_permutation_t m = HXHIM_PUT_SPO) {
    CHECK(hxhim::Put(&h.hx, (void *) s.data(), s.size(), HXHIM_DATA_BYTE, (void *) p.data(), p.size(), HXHIM_DATA_BYTE, (void *) o.data(), o.size(), HXHIM_DATA_BYTE, m) == HXHIM_SUCCESS);
    drain(hxhim::FlushPuts(&h.hx));
}
inline void del(Hx &h, const std::string &s, const std::string &p) {
    CHECK(hxhim::Delete(&h.hx, (void *) s.data(), s.size(), HXHIM_DATA_BYTE, (void *) p.data(), p.size(), HXHIM_DATA_BYTE) == HXHIM_SUCCESS);
    drain(hxhim::FlushDeletes(&h.hx));
}
inline std::string get(Hx &h, const std::string &s, const std::string &p) {   // "!" if absent
    CHECK(hxhim::Get(&h.hx, (void *) s.data(), s.size(), HXHIM_DATA_BYTE, (void *) p.data(), p.size(), HXHIM_DATA_BYTE, HXHIM_DATA_BYTE) == HXHIM_SUCCESS);
    auto v = drain(hxhim::FlushGets(&h.hx));
    CHECK(v.size() == 1);
    return v[0].status == HXHIM_SUCCESS ? v[0].o : "!";
}
inline std::vector<R> scan(Hx &h, hxhim_getop_t op, std::size_t n, const std::string &s, const std::string &p) {
    CHECK(hxhim::GetOp(&h.hx, (void *) s.data(), s.size(), HXHIM_DATA_BYTE, (void *) p.data(), p.size(), HXHIM_DATA_BYTE, HXHIM_DATA_BYTE, n, op) == HXHIM_SUCCESS);
    return drain(hxhim::FlushGetOps(&h.hx));
}
