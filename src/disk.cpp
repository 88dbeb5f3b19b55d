// C06 backends agree, C15 durability, C16 crashes, C17 changing datastores
#include "hist.hpp"

#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>

using namespace hxt;

// ------------------------------------------------- observed file operations

namespace {

struct Shared {                        // shared between the worker and the processes it forks
    volatile std::uint64_t acked, synced;      // batches acknowledged / acknowledged by Sync
    volatile std::uint64_t fileops;            // operations on files seen so far
    volatile std::uint64_t crash_at;           // die at this one (0: never)
    volatile std::uint64_t crash_how;          // 0 before, 1 after, 2 half way through a write
    volatile int armed;
    volatile std::uint64_t nfiles;
    struct { std::uint64_t ino, size; } files[4096];   // how much of each file was synced
    char text[8192];
};
Shared *shm = nullptr;
Shared *shared() {
    if (!shm) shm = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *) shm, 0, sizeof(*shm));
    return shm;
}
bool ours(int fd) {
    if (!shm || !shm->armed) return false;
    struct stat st;
    if (fstat(fd, &st) || !S_ISREG(st.st_mode)) return false;
    char l[64], p[512];
    snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
    const ssize_t n = readlink(l, p, sizeof(p) - 1);
    return n > 0 && std::string(p, n).compare(0, pbt::scratch().size(), pbt::scratch()) == 0;
}
// counts a file operation; true when the process is to die in it
bool doomed() {
    const std::uint64_t k = __sync_add_and_fetch(&shm->fileops, 1);
    return shm->crash_at && k == shm->crash_at;
}
[[noreturn]] void die() { shm->armed = 0; kill(getpid(), SIGKILL); for (;;) pause(); }
void synced_file(int fd) {
    struct stat st;
    if (fstat(fd, &st)) return;
    for (std::uint64_t i = 0; i < shm->nfiles; i++) if (shm->files[i].ino == st.st_ino) { shm->files[i].size = st.st_size; return; }
    if (shm->nfiles < 4096) { shm->files[shm->nfiles].ino = st.st_ino; shm->files[shm->nfiles].size = st.st_size; shm->nfiles = shm->nfiles + 1; }
}
int do_sync(int fd, long nr) {
    if (!ours(fd)) return (int) syscall(nr, fd);
    const bool d = doomed();
    if (d && shm->crash_how != 1) die();
    const int rc = (int) syscall(nr, fd);
    if (rc == 0) synced_file(fd);
    if (d) die();
    return rc;
}

}

extern "C" {
ssize_t write(int fd, const void *b, size_t n) {
    if (!ours(fd)) return syscall(SYS_write, fd, b, n);
    const bool d = doomed();
    if (d && shm->crash_how == 0) die();
    if (d && shm->crash_how == 2) { (void) !syscall(SYS_write, fd, b, n / 2); die(); }
    const ssize_t rc = syscall(SYS_write, fd, b, n);
    if (d) die();
    return rc;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    if (!ours(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
    const bool d = doomed();
    if (d && shm->crash_how == 0) die();
    if (d && shm->crash_how == 2) { (void) !syscall(SYS_pwrite64, fd, b, n / 2, o); die(); }
    const ssize_t rc = syscall(SYS_pwrite64, fd, b, n, o);
    if (d) die();
    return rc;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
}

namespace {

// runs f in a process of its own; "" when it ended normally, "killed" when it was killed, else what failed
std::string in_child(const std::function<void()> &f) {
    Shared *s = shm;
    s->text[0] = 0;
    fflush(stdout); fflush(stderr);
    const pid_t pid = fork();
    PBT_CHECK(pid >= 0, "fork failed");
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        try { f(); }
        catch (std::exception &e) { snprintf(s->text, sizeof(s->text), "%s", e.what()); s->armed = 0; _exit(7); }
        s->armed = 0;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 7) return std::string(s->text);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return "killed";
    std::ostringstream o; o << "process ended with " << (WIFEXITED(st) ? "exit status " : "signal ") << (WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
    return o.str();
}

std::vector<Val> gen_vals(pbt::Src &s, std::size_t n, bool big = false) { GenOpts g; g.big = big; std::vector<Val> r; for (std::size_t i = 0; i < n; i++) r.push_back(gen_val(s, g)); return r; }

// ------------------------------------------------------------------- C06

void c06(pbt::Src &src, pbt::Case &c) {
    Dir dirs[3];
    Session S[3];
    Conf cfg = gen_config(src, "", 1, 0, 0);
    cfg.per_server = 1 + src.below(2);
    cfg.hist_names = {"h"};
    cfg.hist_first_n = 1 + src.below(4);
    const std::size_t nb = src.chance(1, 3) ? 3 : 2;       // RocksDB is slow to open: in a third of the cases
    for (std::size_t b = 0; b < nb; b++) { Conf k = cfg; k.backend = (int) b; k.prefix = dirs[b].path; if (!b) c.desc << describe(k) << "\n"; S[b].open(k); }
    c.label(nb == 3 ? "memory, leveldb, rocksdb" : "memory, leveldb");
    const std::vector<Val> subs = gen_vals(src, 1 + src.below(4)), objs = gen_vals(src, 2 + src.below(4), src.coin());
    std::vector<Val> preds = gen_vals(src, 1 + src.below(5));
    preds.push_back(byte("h"));
    std::size_t good = 0, scans = 0;
    std::vector<QOp> queued;
    for (std::size_t i = 0, n = 2 + src.below(16); i < n; i++) {
        const bool c_api = src.coin(), bulk = src.coin();
        std::vector<QOp> qs;
        const Kind k = (Kind) std::vector<Kind>{K_PUT, K_GET, K_DEL, K_GETOP}[src.weighted({5, 3, 2, 4})];
        for (std::size_t j = 0, m = several(src, 4, 200); j < m; j++) {
            QOp q; q.kind = k;
            q.s = src.pick(subs); q.p = src.pick(preds); q.o = src.pick(objs); q.want = q.o.type;
            if (k == K_PUT && src.chance(1, 5)) q.perms = 1 + src.below(63);
            if (k == K_PUT && src.chance(1, 12)) q.o.type = HXHIM_DATA_INVALID;
            if (k == K_GETOP) {
                q.gop = (hxhim_getop_t) src.below(7);
                q.nrec = src.below(7);
                if (src.chance(1, 5)) q.p = gen_val(src, GenOpts());
                if (src.chance(1, 5)) { q.null_pred = true; if (src.coin()) q.p.type = HXHIM_DATA_BYTE; }
            }
            c.desc << q << " ";
            qs.push_back(q);
        }
        const int f = src.coin() ? F_ALL : F_SYNC;
        const bool do_flush = src.chance(2, 3) || i + 1 == n;
        const bool hist = src.chance(1, 4);
        if (do_flush) c.desc << flush_name(f);
        c.desc << "\n";
        for (auto const &q : qs) queued.push_back(q);
        std::vector<std::vector<Rec>> rs(nb);
        for (std::size_t b = 0; b < nb; b++) {
            if (bulk) PBT_CHECK(submit_bulk(S[b], qs, c_api) == HXHIM_SUCCESS, "refused");
            else for (auto &q : qs) PBT_CHECK(submit(S[b], q, c_api) == HXHIM_SUCCESS, q << " refused");
            if (hist) for (std::size_t d = 0; d < cfg.per_server; d++) PBT_CHECK(hxhim::Histogram(&S[b].hx, (int) d, "h", 1) == HXHIM_SUCCESS, "histogram refused");
            if (do_flush) rs[b] = flush(S[b], f, c_api);
        }
        c.ops += qs.size();
        if (!do_flush) continue;
        for (std::size_t b = 1; b < nb; b++) {
            PBT_CHECK(rs[0].size() == rs[b].size(), "memory returns " << rs[0].size() << " results, " << backend_name(b) << " " << rs[b].size());
            for (std::size_t j = 0; j < rs[0].size(); j++) {
                const Rec &x = rs[0][j], &y = rs[b][j];
                PBT_CHECK(x.op == y.op && x.rs == y.rs, "result " << j << ": memory " << x << ", " << backend_name(b) << " " << y);
                PBT_CHECK(x.s == y.s && x.p == y.p, "result " << j << ": memory " << x << ", " << backend_name(b) << " " << y);
                // removing what does not exist may or may not be an error
                if (x.op == HXHIM_DELETE && x.s.type != HXHIM_DATA_INVALID && x.p.type != HXHIM_DATA_INVALID) continue;
                PBT_CHECK(x.status == y.status, "result " << j << ": memory " << x << ", " << backend_name(b) << " " << y);
                PBT_CHECK(x.o == y.o, "result " << j << ": memory " << x << ", " << backend_name(b) << " " << y);
                PBT_CHECK(x.h.ready == y.h.ready && x.h.buckets == y.h.buckets && x.h.counts == y.h.counts, "histogram differs from the one of " << backend_name(b));
            }
        }
        for (auto const &r : rs[0]) {
            if (r.has_o) good++;
            if (r.op == HXHIM_GETOP && r.has_o) scans++;
        }
    }
    c.nontrivial = good >= 3 && scans >= 1;
    for (std::size_t b = 0; b < nb; b++) S[b].close();
}

pbt::Reg r06("C06", "one random history of PUTs (with permutations and unstorable values), GETs, DELETEs, GETOPs of every kind and HISTOGRAMs, in single or bulk form, run on the in-memory, LevelDB and (in a third of the cases) RocksDB datastores side by side; all results must be identical in number, order and content. Non-trivial: three values were returned, one of them by a scan.",
    c06, 2500, 100000);

// ------------------------------------------------------------------- C15

struct Disk { std::vector<Model> ds; };     // the files of one datastore name

void check_contents(Session &S, const std::vector<Model> &ds, const std::vector<Val> &subs, const std::vector<Val> &preds,
                    const std::function<std::size_t(const Key &)> &where, const char *when, std::size_t &hits) {
    std::vector<QOp> qs;
    for (auto const &s : subs) for (auto const &p : preds) { QOp q; q.kind = K_GET; q.s = s; q.p = p; qs.push_back(q); }
    PBT_CHECK(submit_bulk(S, qs, false) == HXHIM_SUCCESS, "GETs refused");
    std::map<Key, Rec> got;
    std::vector<Rec> rs = flush(S, F_GETS, false);
    PBT_CHECK(rs.size() == qs.size(), rs.size() << " results for " << qs.size() << " GETs");
    for (auto const &r : rs) got[Key(r.s, r.p)] = r;
    for (auto const &q : qs) {
        const Key k(q.s, q.p);
        PBT_CHECK(got.count(k), when << ": no result for " << q);
        const Rec &r = got[k];
        const Model &m = ds[where(k)];
        auto it = m.find(k);
        if (it == m.end()) { PBT_CHECK(r.status == HXHIM_ERROR, when << ": " << r << ", which was not stored there"); continue; }
        PBT_CHECK(r.status == HXHIM_SUCCESS, when << ": " << q << " failed, " << it->second << " was stored");
        PBT_CHECK(same(r.o, it->second), when << ": " << r << ", " << it->second << " was stored");
        hits++;
    }
}

// the number of records in each datastore
void check_size(Session &S, const std::vector<Model> &ds, const std::function<std::size_t(const Key &)> &where, const char *when) {
    for (std::size_t d = 0; d < ds.size(); d++) {
        QOp q; q.kind = K_GETOP; q.gop = HXHIM_GETOP_FIRST; q.nrec = 10000; q.p = byte("p");
        for (std::size_t i = 0;; i++) { q.s = byte("s" + std::to_string(i)); if (where(Key(q.s, q.p)) == d) break; }
        PBT_CHECK(submit(S, q, false) == HXHIM_SUCCESS, "scan refused");
        std::vector<Rec> rs = flush(S, F_GETOPS, false);
        std::size_t n = 0;
        for (auto const &r : rs) if (r.status == HXHIM_SUCCESS) n++;
        PBT_CHECK(n == ds[d].size(), when << ": datastore " << d << " holds " << n << " records, expected " << ds[d].size());
    }
}

void c15(pbt::Src &src, pbt::Case &c) {
    Dir dir;
    Conf base = gen_config(src, dir.path + (src.coin() ? "" : "/sub/x"), 1, 9, 2);
    base.hash = "";
    base.per_server = 1 + src.below(3);
    const std::size_t nds = base.per_server;
    const bool mem = base.backend == MEM;
    c.label(backend_name(base.backend));
    c.desc << describe(base) << "\n";
    const std::vector<Val> subs = gen_vals(src, 1 + src.below(4)), preds = gen_vals(src, 1 + src.below(4)), objs = gen_vals(src, 2 + src.below(4), src.coin());
    static const std::vector<std::string> names = {"one", "two"}, posts = {"", ".db"};
    static const std::vector<std::size_t> ops = {1, 2, 5, 50};
    std::map<std::string, std::vector<Model>> disk;         // by name and postfix
    auto where = [&](const Key &k) { return spread(k.first, k.second, nds); };
    std::size_t reopened = 0, hits = 0;
    for (std::size_t sess = 0, n = 2 + src.below(4); sess < n; sess++) {
        Conf cfg = base;
        cfg.basename = names[src.weighted({4, 1})];
        cfg.postfix = posts[src.weighted({4, 1})];
        cfg.max_ops = src.pick(ops);
        cfg.create = src.chance(3, 4);
        const std::string key = cfg.basename + "/" + cfg.postfix;
        const bool exists = disk.count(key);
        c.desc << "session " << key << (cfg.create ? "" : " (must exist)") << "\n";
        if (!mem && exists && src.chance(1, 4)) {
            // read one datastore on its own
            const std::size_t d = src.below(nds);
            std::ostringstream p; p << cfg.prefix << "/" << cfg.basename << "-" << d << cfg.postfix;
            Session S;
            S.cfg = cfg;
            S.init();
            apply(&S.hx, cfg);
            const int rc = src.coin() ? hxhim::OpenOne(&S.hx, p.str()) : hxhimOpenOne(&S.hx, p.str().data(), p.str().size());
            if (rc != HXHIM_SUCCESS) S.abandon();
            PBT_CHECK(rc == HXHIM_SUCCESS, "OpenOne of datastore " << d << " returned " << rc);
            check_contents(S, {disk[key][d]}, subs, preds, [](const Key &) { return (std::size_t) 0; }, "opened alone", hits);
            check_size(S, {disk[key][d]}, [](const Key &) { return (std::size_t) 0; }, "opened alone");
            S.close();
            c.label("OpenOne");
            reopened++;
            continue;
        }
        if (!mem && !exists && src.chance(1, 3)) {
            // OpenOne opens what is there and creates nothing, whatever the configuration says
            const std::size_t d = src.below(nds);
            std::ostringstream p; p << cfg.prefix << "/" << cfg.basename << "-" << d << cfg.postfix;
            for (int twice = 0; twice < 2; twice++) {
                Session S;
                S.cfg = cfg;
                S.init();
                apply(&S.hx, cfg);
                const int rc = src.coin() ? hxhim::OpenOne(&S.hx, p.str()) : hxhimOpenOne(&S.hx, p.str().data(), p.str().size());
                if (rc == HXHIM_SUCCESS) S.close(); else S.abandon();
                PBT_CHECK(rc != HXHIM_SUCCESS, "OpenOne opened a datastore that does not exist");
            }
            c.label("OpenOne refused: does not exist");
        }
        Session S;
        const int rc = S.try_open(cfg);
        if (!mem && !cfg.create && !exists) {
            PBT_CHECK(rc != HXHIM_SUCCESS, "a datastore that does not exist was opened without create_if_missing");
            c.label("refused: does not exist");
            continue;
        }
        PBT_CHECK(rc == HXHIM_SUCCESS, "Open returned " << rc);
        if (!exists || mem) disk[key] = std::vector<Model>(nds);
        auto &ds = disk[key];
        if (exists && !mem) {
            check_contents(S, ds, subs, preds, where, "reopened", hits);
            check_size(S, ds, where, "reopened");
            reopened++;
        }
        if (!mem && src.chance(1, 5)) {
            // in use: a second session must not get it
            Conf other = cfg;
            Session T;
            PBT_CHECK(T.try_open(other) != HXHIM_SUCCESS, "a datastore in use was opened a second time");
            c.label("refused: in use");
        }
        for (std::size_t step = 0, steps = src.below(6); step < steps; step++) {
            std::vector<QOp> qs;
            const Kind k = src.chance(1, 3) ? K_DEL : K_PUT;
            for (std::size_t i = 0, m = several(src, 6); i < m; i++) { QOp q; q.kind = k; q.s = src.pick(subs); q.p = src.pick(preds); q.o = src.pick(objs); qs.push_back(q); c.desc << q << " "; }
            PBT_CHECK(submit_bulk(S, qs, src.coin()) == HXHIM_SUCCESS, "refused");
            const int f = src.chance(1, 4) ? F_SYNC : F_ALL;
            for (auto const &r : flush(S, f, src.coin())) if (r.op != HXHIM_DELETE) PBT_CHECK(r.status == HXHIM_SUCCESS, r << " failed");
            for (auto const &q : qs) { Key kk(q.s, q.p); auto &m = ds[where(kk)]; if (k == K_PUT) m[kk] = q.o; else m.erase(kk); }
            c.ops += qs.size();
        }
        if (src.chance(1, 3)) {
            // left in the queues: Close completes them, all PUTs before all DELETEs
            std::vector<QOp> left[2];
            for (std::size_t i = 0, m = 1 + src.below(6); i < m; i++) {
                QOp q; q.kind = src.chance(1, 3) ? K_DEL : src.chance(1, 6) ? K_GET : K_PUT; q.s = src.pick(subs); q.p = src.pick(preds); q.o = src.pick(objs);
                c.desc << q << " ";
                PBT_CHECK(submit(S, q, src.coin()) == HXHIM_SUCCESS, q << " refused");
                if (q.kind != K_GET) left[q.kind == K_DEL].push_back(q);
                c.ops++;
            }
            for (auto const &l : left) for (auto const &q : l) { Key kk(q.s, q.p); auto &m = ds[where(kk)]; if (q.kind == K_PUT) m[kk] = q.o; else m.erase(kk); }
            c.label("operations queued at Close");
        }
        c.desc << "close\n";
        S.close();
    }
    c.nontrivial = reopened && hits;
}

pbt::Reg r15("C15", "2-5 sessions over the same directory (LevelDB, RocksDB; a new prefix directory; two names and postfixes; 1-3 datastores; changing request limits; create_if_missing on or off; OpenOne of a single datastore; a second open of a datastore in use), with random PUTs and DELETEs in each, some of them still queued at Close; every open is followed by reading every pair and counting every record. Non-trivial: a datastore with data was opened again.",
    c15, 2500, 100000);

// ------------------------------------------------------------------- C16

struct Batch { std::vector<QOp> puts, dels; bool sync = false, change = false; };

// the operations of a batch that go to datastore d, in the order in which they take effect
void batch_ops(const Batch &b, std::size_t d, std::size_t nds, std::vector<const QOp *> &out) {
    for (auto const &q : b.puts) if (spread(q.s, q.p, nds) == d) out.push_back(&q);
    for (auto const &q : b.dels) if (spread(q.s, q.p, nds) == d) out.push_back(&q);
}

void c16(pbt::Src &src, pbt::Case &c) {
    Dir dir;
    Shared *sh = shared();
    comm();
    Conf cfg = gen_config(src, dir.path, 0, 5, 1);
    cfg.hash = "";
    cfg.per_server = 1 + src.below(2);
    const std::size_t nds = cfg.per_server;
    c.label(backend_name(cfg.backend));
    c.desc << describe(cfg) << "\n";
    const std::vector<Val> subs = gen_vals(src, 1 + src.below(4)), preds = gen_vals(src, 1 + src.below(4)), objs = gen_vals(src, 3 + src.below(4), src.coin());
    std::vector<Model> state(nds);          // what is known to be stored
    bool crashed = false, lost = false;
    std::size_t kept = 0;
    for (std::size_t cycle = 0, cycles = 1 + src.below(3); cycle < cycles; cycle++) {
        std::vector<Batch> bs;
        for (std::size_t i = 0, n = 1 + src.below(8); i < n; i++) {
            Batch b;
            for (std::size_t j = 0, m = several(src, 6, 200, 100) - 1; j < m; j++) { QOp q; q.kind = K_PUT; q.s = src.pick(subs); q.p = src.pick(preds); q.o = src.pick(objs); b.puts.push_back(q); }
            for (std::size_t j = 0, m = src.chance(1, 3) ? src.below(3) : 0; j < m; j++) { QOp q; q.kind = K_DEL; q.s = src.pick(subs); q.p = src.pick(preds); b.dels.push_back(q); }
            b.sync = src.chance(1, 3);
            b.change = !b.sync && src.chance(1, 6);
            bs.push_back(b);
            for (auto const &q : b.puts) c.desc << q << " ";
            for (auto const &q : b.dels) c.desc << q << " ";
            c.desc << (b.sync ? "Sync; " : b.change ? "Flush, change and back; " : "Flush; ");
            c.ops += b.puts.size() + b.dels.size();
        }
        // how it ends: closed, killed between operations, killed in a file operation; then perhaps the power fails
        const std::size_t how = src.weighted({1, 2, 5});
        const bool power = src.chance(1, 2);
        const std::size_t kill_after = src.below(bs.size() + 1);
        memset((void *) sh, 0, sizeof(*sh));
        if (how == 2) { sh->crash_at = 1 + src.below(src.coin() ? 20 : 100); sh->crash_how = src.below(3); }
        // what was there before survived until now
        if (cycle) for (auto const &e : std::filesystem::recursive_directory_iterator(dir.path)) {
            struct stat st;
            if (e.is_regular_file() && !stat(e.path().c_str(), &st) && sh->nfiles < 4096) { sh->files[sh->nfiles].ino = st.st_ino; sh->files[sh->nfiles].size = st.st_size; sh->nfiles = sh->nfiles + 1; }
        }
        const bool c_api = src.coin();
        const std::string end = in_child([&]() {
            Session S;
            sh->armed = 1;
            S.open(cfg);
            for (std::size_t i = 0; i < bs.size(); i++) {
                if (how == 1 && i == kill_after) die();
                if (bs[i].puts.size()) PBT_CHECK(submit_bulk(S, bs[i].puts, c_api) == HXHIM_SUCCESS, "PUTs refused");
                for (auto &q : bs[i].dels) PBT_CHECK(submit(S, q, c_api) == HXHIM_SUCCESS, q << " refused");
                for (auto const &r : flush(S, bs[i].sync ? F_SYNC : F_ALL, c_api)) if (r.op != HXHIM_DELETE) PBT_CHECK(r.status == HXHIM_SUCCESS, r << " failed");
                sh->acked = i + 1;
                if (bs[i].sync) sh->synced = i + 1;
                if (bs[i].change) {
                    std::string to = "other" + std::to_string(cycle);
                    if (c_api) drain(hxhimChangeDatastoreName(&S.hx, to.data(), to.size(), 0, 0, 1)); else drain(hxhim::ChangeDatastoreName(&S.hx, to, false, false, true));
                    sh->synced = i + 1;
                    to = cfg.basename;
                    if (c_api) drain(hxhimChangeDatastoreName(&S.hx, to.data(), to.size(), 0, 0, 1)); else drain(hxhim::ChangeDatastoreName(&S.hx, to, false, false, true));
                }
            }
            if (how == 1) die();
            if (how == 2 && sh->fileops < sh->crash_at) sh->crash_at = 0;    // fewer file operations than that
            S.close();
            sh->synced = sh->acked;
        });
        PBT_CHECK(end.empty() || end == "killed", end);
        const bool died = end == "killed";
        const std::uint64_t acked = sh->acked, synced = sh->synced;
        std::ostringstream when;
        when << (died ? how == 1 ? "killed between operations" : "killed in a file operation" : "closed") << (power ? ", power lost" : "") << " after " << acked << " flushes, " << synced << " synced";
        c.desc << when.str() << "\n";
        if (died) { crashed = true; c.label(power ? "power lost" : "killed"); if (how == 2) c.label(std::string("in a file operation, ") + (sh->crash_how == 0 ? "before" : sh->crash_how == 1 ? "after" : "half way")); }
        else c.label(power ? "closed, power lost" : "closed");
        if (power) {
            // whatever was not synced may be missing
            for (auto const &e : std::filesystem::recursive_directory_iterator(dir.path)) {
                struct stat st;
                if (!e.is_regular_file() || stat(e.path().c_str(), &st)) continue;
                std::uint64_t keep = 0;
                for (std::uint64_t i = 0; i < sh->nfiles; i++) if (sh->files[i].ino == st.st_ino) keep = sh->files[i].size;
                const std::uint64_t size = st.st_size;
                if (keep >= size) continue;
                if (src.coin()) keep += src.below(size - keep + 1);
                if (truncate(e.path().c_str(), keep)) PBT_FAIL("cannot truncate " << e.path());
                lost = true;
            }
        }
        // each datastore must hold the state after a prefix of its operations
        const std::uint64_t sure = power ? synced : died ? acked : bs.size();
        const std::uint64_t most = std::min<std::uint64_t>(bs.size(), acked + 1);
        sh->armed = 0; sh->crash_at = 0;
        std::vector<std::vector<std::uint64_t>> cand(nds);
        const std::string bad = in_child([&]() {
            Session S;
            S.open(cfg);
            std::vector<QOp> qs;
            for (auto const &s : subs) for (auto const &p : preds) { QOp q; q.kind = K_GET; q.s = s; q.p = p; qs.push_back(q); }
            PBT_CHECK(submit_bulk(S, qs, false) == HXHIM_SUCCESS, "GETs refused");
            std::vector<Model> got(nds);
            std::vector<Rec> rs = flush(S, F_GETS, false);
            PBT_CHECK(rs.size() == qs.size(), rs.size() << " results for " << qs.size() << " GETs");
            for (auto const &r : rs) if (r.status == HXHIM_SUCCESS) got[spread(r.s, r.p, nds)][Key(r.s, r.p)] = r.o;
            std::string chosen;
            for (std::size_t d = 0; d < nds; d++) {
                std::vector<const QOp *> ops;
                std::size_t low = 0;
                for (std::size_t i = 0; i < most; i++) { batch_ops(bs[i], d, nds, ops); if (i + 1 == sure) low = ops.size(); }
                Model m = state[d];
                bool ok = false;
                std::size_t at = 0;
                for (std::size_t n = 0; n <= ops.size() && !ok; n++) {
                    if (n) { const QOp &q = *ops[n - 1]; if (q.kind == K_PUT) m[Key(q.s, q.p)] = q.o; else m.erase(Key(q.s, q.p)); }
                    if (n < low || m.size() != got[d].size()) continue;
                    ok = true; at = n;
                    for (auto const &kv : m) { auto it = got[d].find(kv.first); if (it == got[d].end() || !same(it->second, kv.second)) { ok = false; break; } }
                }
                if (!ok) {
                    std::ostringstream o;
                    for (auto const &kv : got[d]) o << "(" << kv.first.first << ", " << kv.first.second << ")=" << kv.second << " ";
                    PBT_FAIL(when.str() << ": datastore " << d << " is not in the state after " << low << " to " << ops.size() << " of its operations; it holds " << got[d].size() << " pairs: " << o.str().substr(0, 2000));
                }
                chosen += std::to_string(at) + " ";
            }
            check_size(S, got, [&](const Key &k) { return spread(k.first, k.second, nds); }, when.str().c_str());
            S.close();
            snprintf(sh->text, sizeof(sh->text), "%s", chosen.c_str());
        });
        PBT_CHECK(bad.empty(), bad);
        std::istringstream in(sh->text);
        for (std::size_t d = 0; d < nds; d++) {
            std::size_t at = 0; in >> at;
            std::vector<const QOp *> ops;
            for (std::size_t i = 0; i < most; i++) batch_ops(bs[i], d, nds, ops);
            for (std::size_t n = 0; n < at && n < ops.size(); n++) { const QOp &q = *ops[n]; if (q.kind == K_PUT) state[d][Key(q.s, q.p)] = q.o; else state[d].erase(Key(q.s, q.p)); }
            kept += state[d].size();
        }
    }
    if (lost) c.label("unsynced data was cut off");
    c.nontrivial = crashed && kept;
}

pbt::Reg r16("C16", "1-3 cycles of a process that opens the datastores (LevelDB, RocksDB), flushes and syncs 1-8 batches of PUTs and DELETEs, changes to another datastore and back, and closes them or is killed between operations or before, after or half way through its n-th write or sync of a file; in half of the cases the power fails too: what was not synced is cut from the files. Another process then opens them and reads every pair; each datastore must be in the state after a prefix of its operations that includes everything acknowledged (after a power failure: everything completed by Sync, ChangeDatastoreName or Close). Non-trivial: the process was killed and data survived.",
    c16, 1100, 40000, 20, 120);

// ------------------------------------------------------------------- C17

int other_hash(hxhim_t *hx, void *s, const size_t sl, void *p, const size_t pl, void *args) {
    std::size_t n = 1;
    hxhim::GetDatastoreCount(hx, &n);
    std::uint32_t h = (std::uint32_t) (uintptr_t) args;
    for (size_t i = 0; i < pl; i++) h = h * 33 + ((unsigned char *) p)[i];
    for (size_t i = 0; i < sl; i++) h = h * 33 + ((unsigned char *) s)[i];
    h ^= h >> 15; h *= 0x2c1b3c6d; h ^= h >> 12;
    return (int) (h % n);
}
std::size_t other(const Key &k, std::size_t n, std::uint32_t h) {
    for (unsigned char c : k.second.bytes) h = h * 33 + c;
    for (unsigned char c : k.first.bytes) h = h * 33 + c;
    h ^= h >> 15; h *= 0x2c1b3c6d; h ^= h >> 12;
    return h % n;
}

void c17(pbt::Src &src, pbt::Case &c) {
    Dir dir;
    Conf cfg = gen_config(src, dir.path, 5, 5, 1);
    cfg.hash = "";
    cfg.per_server = 1 + src.below(3);
    cfg.postfix = src.coin() ? "" : ".db";
    const std::size_t nds = cfg.per_server;
    const bool mem = cfg.backend == MEM;
    c.label(backend_name(cfg.backend));
    c.desc << describe(cfg) << "\n";
    const std::vector<Val> subs = gen_vals(src, 1 + src.below(4)), preds = gen_vals(src, 1 + src.below(4)), objs = gen_vals(src, 2 + src.below(4));
    static const std::vector<std::string> names = {"base", "two", "three"};
    // a place where datastore bad_ds cannot be opened
    const std::size_t bad_ds = src.below(nds);
    { std::ostringstream p; p << dir.path << "/bad-" << bad_ds << cfg.postfix; std::ofstream(p.str()) << "not a datastore"; }
    Session S;
    S.open(cfg);
    std::map<std::string, std::vector<Model>> disk;
    std::string at = "base";
    disk[at].resize(nds);
    std::uint32_t hash = 0;
    bool usual = true;                      // the harness's usual hash
    auto where = [&](const Key &k) { return !usual ? other(k, nds, hash) : spread(k.first, k.second, nds); };
    std::vector<QOp> puts, gets, scans, dels;
    std::size_t changes = 0, hits = 0, back = 0;
    auto unusable = [&](std::size_t d) { return !mem && at == "bad" && d == bad_ds; };
    auto settle = [&](std::vector<Rec> rs) {
        std::size_t n = 0;
        for (auto const &r : rs) if (r.op != HXHIM_SYNC) n++;
        const std::size_t want_n = puts.size() + gets.size() + scans.size() + dels.size();
        PBT_CHECK(n == want_n, n << " results, " << want_n << " operations were queued");
        auto &ds = disk[at];
        std::multimap<Key, bool> want_put;
        for (auto const &q : puts) { const Key k(q.s, q.p); const bool ok = !unusable(where(k)); if (ok) ds[where(k)][k] = q.o; }
        std::size_t next_scan = 0;
        for (auto const &r : rs) {
            if (r.op == HXHIM_SYNC) continue;
            if (r.op == HXHIM_GETOP) {       // looks for one pair, so there is one result
                next_scan++;
                if (r.status != HXHIM_SUCCESS) {
                    const Key k(r.s, r.p);
                    const std::size_t d = where(k);
                    if (unusable(d)) c.label("GETOP on an unusable datastore");
                    else PBT_CHECK(!ds[d].count(k), r << ", although " << at << " holds it");
                    continue;
                }
                // what was found is there (floating point subjects and predicates come back rounded)
                auto real = [](const Val &v) { return v.type == HXHIM_DATA_FLOAT || v.type == HXHIM_DATA_DOUBLE; };
                if (real(r.s) || real(r.p)) continue;
                std::size_t there = 0;
                for (std::size_t d = 0; d < nds; d++) { auto it = ds[d].find(Key(r.s, r.p)); if (it != ds[d].end() && same(r.o, it->second)) { PBT_CHECK(!unusable(d), r << " although the datastore could not be opened"); there++; } }
                PBT_CHECK(there, r << ", which is not in " << at);
                continue;
            }
            const Key k(r.s, r.p);
            const std::size_t d = where(k);
            if (unusable(d)) { PBT_CHECK(r.status == HXHIM_ERROR, r << " although the datastore could not be opened"); c.label("unusable datastore"); continue; }
            if (r.op == HXHIM_PUT) PBT_CHECK(r.status == HXHIM_SUCCESS, r << " failed");
            if (r.op == HXHIM_GET) {
                auto it = ds[d].find(k);
                if (it == ds[d].end()) { PBT_CHECK(r.status == HXHIM_ERROR, r << ", which is not in " << at); continue; }
                PBT_CHECK(r.status == HXHIM_SUCCESS && same(r.o, it->second), r << ", " << at << " holds " << it->second);
                hits++;
                if (changes) back++;
            }
        }
        for (auto const &q : dels) { const Key k(q.s, q.p); ds[where(k)].erase(k); }
        PBT_CHECK(next_scan == scans.size(), next_scan << " results of " << scans.size() << " GETOPs");
        puts.clear(); gets.clear(); scans.clear(); dels.clear();
    };
    // a change, or Sync, reports one SYNC for each datastore
    auto syncs = [&](const std::vector<Rec> &rs, const char *what) {
        std::multiset<int> got, want;
        for (auto const &r : rs) if (r.op == HXHIM_SYNC) got.insert(r.status);
        for (std::size_t d = 0; d < nds; d++) want.insert(unusable(d) ? HXHIM_ERROR : HXHIM_SUCCESS);
        PBT_CHECK(got == want, what << " reports " << got.size() << " SYNC results (" << got.count(HXHIM_SUCCESS) << " successful), expected " << want.count(HXHIM_SUCCESS) << " of " << nds << " to succeed");
    };
    auto moved = [&](const std::string &to) { at = to; auto &d = disk[at]; if (mem || d.empty()) d.assign(nds, Model()); changes++; };
    for (std::size_t i = 0, n = 3 + src.below(16); i < n; i++) {
        const bool c_api = src.coin();
        switch (src.weighted({5, 4, 2, 3, 1, 2})) {
            case 0: case 1: case 2: {
                const Kind k = std::vector<Kind>{K_PUT, K_GET, K_DEL, K_GETOP}[src.weighted({5, 4, 1, 2})];
                std::vector<QOp> qs;
                for (std::size_t j = 0, m = several(src, 4, 100); j < m; j++) { QOp q; q.kind = k; q.nrec = 1; q.gop = HXHIM_GETOP_EQ; q.s = src.pick(subs); q.p = src.pick(preds); q.o = src.pick(objs); qs.push_back(q); c.desc << q << " "; }
                PBT_CHECK(submit_bulk(S, qs, c_api) == HXHIM_SUCCESS, "refused");
                for (auto const &q : qs) (k == K_PUT ? puts : k == K_GET ? gets : k == K_DEL ? dels : scans).push_back(q);
                c.ops += qs.size();
                break;
            }
            case 3: {
                const std::string to = src.chance(1, 6) ? "bad" : src.pick(names);
                c.desc << "-> " << to << "\n";
                std::vector<Rec> rs = c_api ? drain(hxhimChangeDatastoreName(&S.hx, to.data(), to.size(), 0, 0, 0)) : drain(hxhim::ChangeDatastoreName(&S.hx, to, false, false, false));
                syncs(rs, "ChangeDatastoreName");
                settle(rs);
                moved(to);
                break;
            }
            case 4: {
                // another hash function, and datastores with its name
                const std::uint32_t h = (std::uint32_t) src.below(5);     // 0: no arguments
                const std::string to = dir.path + "/hash" + std::to_string(h);
                c.desc << "hash " << h << "\n";
                std::vector<Rec> rs = c_api ? drain(hxhimChangeHash(&S.hx, to.data(), to.size(), other_hash, (void *) (uintptr_t) h)) : drain(hxhim::ChangeHash(&S.hx, to, other_hash, (void *) (uintptr_t) h));
                syncs(rs, "ChangeHash");
                settle(rs);
                hash = h; usual = false;
                moved(to);
                const char *name = nullptr; hxhim_hash_t fn = nullptr; void *args = nullptr;
                PBT_CHECK(hxhim::GetHash(&S.hx, &name, &fn, &args) == HXHIM_SUCCESS && name && name == to && fn == other_hash && args == (void *) (uintptr_t) h, "GetHash does not return the new hash function");
                c.label("changed hash");
                break;
            }
            case 5: {
                const bool sync = src.chance(1, 3);
                c.desc << (sync ? "Sync\n" : "Flush\n");
                std::vector<Rec> rs = flush(S, sync ? F_SYNC : F_ALL, c_api);
                if (sync) syncs(rs, "Sync");
                settle(rs);
                break;
            }
        }
    }
    settle(flush(S, F_ALL, false));
    for (auto const &s : subs) for (auto const &p : preds) { QOp q; q.kind = K_GET; q.s = s; q.p = p; PBT_CHECK(submit(S, q, false) == HXHIM_SUCCESS, "refused"); gets.push_back(q); }
    settle(flush(S, F_ALL, false));
    if (!(at == "bad" && !mem)) check_size(S, disk[at], where, "at the end");
    S.close();
    c.nontrivial = changes >= 2 && back;
}

pbt::Reg r17("C17", "random PUTs, GETs and DELETEs, flushed or still queued, interleaved with ChangeDatastoreName (three names and one where a datastore cannot be opened) and ChangeHash over 1-3 datastores of each backend; a model keeps what each location holds and which operations each change completes. Non-trivial: two or more changes, and a value was read after one.",
    c17, 3500, 150000);

}
