#include "pbt.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <iostream>
#include <memory>
#include <set>
#include <unordered_set>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

std::vector<Property> &registry() { static std::vector<Property> r; return r; }
std::vector<Probe> &probes() { static std::vector<Probe> r; return r; }

static std::string g_scratch;
static unsigned g_worker = 0;
const std::string &scratch() { return g_scratch; }
unsigned worker_id() { return g_worker; }

static std::uint64_t now_ms() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (std::uint64_t) t.tv_sec * 1000 + t.tv_nsec / 1000000 + 1;
}

static std::uint64_t mix(std::uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static std::uint64_t hash_str(const std::string &s) {
    std::uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return mix(h);
}
static std::uint64_t case_seed(std::uint64_t seed, const std::string &prop, std::uint64_t index) {
    return mix(mix(seed) ^ hash_str(prop) ^ mix(index * 0x2545F4914F6CDD1DULL + 1));
}

// ---------------------------------------------------------------- wire format

static bool write_all(int fd, const void *p, std::size_t n) {
    const char *c = (const char *) p;
    while (n) {
        ssize_t k = ::write(fd, c, n);
        if (k < 0) { if (errno == EINTR) continue; return false; }
        c += k; n -= (std::size_t) k;
    }
    return true;
}
static bool read_all(int fd, void *p, std::size_t n) {
    char *c = (char *) p;
    while (n) {
        ssize_t k = ::read(fd, c, n);
        if (k < 0) { if (errno == EINTR) continue; return false; }
        if (k == 0) return false;
        c += k; n -= (std::size_t) k;
    }
    return true;
}
static bool put_u64(int fd, std::uint64_t v) { return write_all(fd, &v, sizeof(v)); }
static bool get_u64(int fd, std::uint64_t &v) { return read_all(fd, &v, sizeof(v)); }
static bool put_str(int fd, const std::string &s) { return put_u64(fd, s.size()) && write_all(fd, s.data(), s.size()); }
static bool get_str(int fd, std::string &s) {
    std::uint64_t n;
    if (!get_u64(fd, n)) return false;
    s.resize(n);
    return n == 0 || read_all(fd, &s[0], n);
}

enum Cmd : std::uint64_t { CMD_BATCH = 1, CMD_REPLAY = 2, CMD_PROBE = 3 };

struct Result {
    std::uint64_t status = 0;          // 0 ok, 1 failed
    std::uint64_t failed_index = 0;
    std::string message;
    std::string desc;                  // of the failing case / replayed case
    std::uint64_t evaluations = 0, dropped = 0, ops = 0;
    std::vector<std::uint64_t> hashes; // of non-trivial cases
    std::map<std::string, std::uint64_t> labels;
    std::vector<std::string> samples;

    bool send(int fd) const {
        bool ok = put_u64(fd, status) && put_u64(fd, failed_index) && put_str(fd, message) &&
                  put_str(fd, desc) && put_u64(fd, evaluations) && put_u64(fd, dropped) && put_u64(fd, ops) &&
                  put_u64(fd, hashes.size());
        if (ok && hashes.size()) ok = write_all(fd, hashes.data(), hashes.size() * sizeof(hashes[0]));
        ok = ok && put_u64(fd, labels.size());
        for (auto const &l : labels) ok = ok && put_str(fd, l.first) && put_u64(fd, l.second);
        ok = ok && put_u64(fd, samples.size());
        for (auto const &s : samples) ok = ok && put_str(fd, s);
        return ok;
    }
    bool recv(int fd) {
        std::uint64_t n;
        if (!(get_u64(fd, status) && get_u64(fd, failed_index) && get_str(fd, message) &&
              get_str(fd, desc) && get_u64(fd, evaluations) && get_u64(fd, dropped) && get_u64(fd, ops) && get_u64(fd, n))) return false;
        hashes.resize(n);
        if (n && !read_all(fd, hashes.data(), n * sizeof(hashes[0]))) return false;
        if (!get_u64(fd, n)) return false;
        for (std::uint64_t i = 0; i < n; i++) {
            std::string k; std::uint64_t v;
            if (!get_str(fd, k) || !get_u64(fd, v)) return false;
            labels[k] = v;
        }
        if (!get_u64(fd, n)) return false;
        samples.resize(n);
        for (auto &s : samples) if (!get_str(fd, s)) return false;
        return true;
    }
};

// -------------------------------------------------------------------- worker

static void run_one(const Property &p, ChoiceLog *log, Src &src, std::uint64_t index, Result &r, bool keep_desc) {
    Case c;
    log->index = index;
    log->started_ms = now_ms();
    try {
        p.run(src, c);
    } catch (const TooBig &) {
        r.dropped++;
        log->started_ms = 0;
        return;
    } catch (const Fail &f) {
        r.status = 1; r.failed_index = index; r.message = f.what();
    } catch (const std::exception &e) {
        r.status = 1; r.failed_index = index; r.message = std::string("uncaught exception: ") + e.what();
    }
    log->started_ms = 0;
    r.evaluations++;
    r.ops += c.ops;
    for (auto const &l : c.labels) r.labels[l.first] += l.second;
    if (c.nontrivial || keep_desc || r.status) {
        std::string d = c.desc.str();
        if (c.nontrivial) {
            r.hashes.push_back(hash_str(d));
            if (r.samples.size() < 2 && d.size() < 4000) r.samples.push_back(d);
        }
        if (keep_desc || r.status) r.desc = d;
    }
}

static void rm_tree(const std::string &path);

static void worker_loop(const Property &p, std::uint64_t seed, ChoiceLog *log, int in, int out) {
    for (;;) {
        std::uint64_t cmd;
        if (!get_u64(in, cmd)) _exit(0);
        Result r;
        if (cmd == CMD_BATCH) {
            std::uint64_t start, n;
            if (!get_u64(in, start) || !get_u64(in, n)) _exit(0);
            for (std::uint64_t i = start; i < start + n; i++) {
                Src src(log, case_seed(seed, p.id, i));
                run_one(p, log, src, i, r, false);
                if (r.status) break;
            }
        } else if (cmd == CMD_REPLAY) {
            std::uint64_t n;
            if (!get_u64(in, n)) _exit(0);
            std::vector<std::uint64_t> ch(n);
            if (n && !read_all(in, ch.data(), n * sizeof(ch[0]))) _exit(0);
            Src src(log, &ch);
            run_one(p, log, src, 0, r, true);
        } else if (cmd == CMD_PROBE) {
            std::uint64_t i;
            if (!get_u64(in, i)) _exit(0);
            log->started_ms = now_ms();
            r.status = probes()[i].run(r.message) ? 1 : 0;
            log->started_ms = 0;
        }
        if (!r.send(out)) _exit(0);
    }
}

typedef std::vector<std::pair<std::uint64_t, std::uint64_t> > Ranges;   // (first case, number)

struct Worker {
    pid_t pid = -1;
    int to = -1, from = -1;
    ChoiceLog *log = nullptr;
    std::string dir, err;
    bool busy = false;
    Ranges history;                          // batches given to this process so far
};

static void spawn(Worker &w, const Property &p, std::uint64_t seed, const std::string &base, unsigned id) {
    if (!w.log) {
        w.log = (ChoiceLog *) mmap(nullptr, sizeof(ChoiceLog), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (w.log == MAP_FAILED) { perror("mmap"); exit(2); }
    }
    w.log->started_ms = 0;
    w.log->n = 0;
    w.dir = base + "/w" + std::to_string(id);
    rm_tree(w.dir);
    mkdir(w.dir.c_str(), 0755);
    w.err = base + "/w" + std::to_string(id) + ".err";
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); exit(2); }
    fflush(nullptr);
    w.pid = fork();
    if (w.pid < 0) { perror("fork"); exit(2); }
    if (w.pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        close(a[1]); close(b[0]);
        int e = open(w.err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(e, 2); dup2(e, 1);
        int n = open("/dev/null", O_RDONLY);
        dup2(n, 0);
        g_worker = id;
        g_scratch = w.dir + "/s";
        mkdir(g_scratch.c_str(), 0755);
        std::string tmp = w.dir + "/t";
        mkdir(tmp.c_str(), 0755);
        setenv("TMPDIR", tmp.c_str(), 1);
        if (chdir(g_scratch.c_str())) _exit(3);
        worker_loop(p, seed, w.log, a[0], b[1]);
        _exit(0);
    }
    close(a[0]); close(b[1]);
    w.to = a[1]; w.from = b[0];
    w.busy = false;
    w.history.clear();
}

static int reap(Worker &w, bool force) {
    if (w.pid < 0) return 0;
    if (force) { kill(-w.pid, SIGKILL); kill(w.pid, SIGKILL); }
    int st = 0;
    // the worker may still be writing its sanitizer report: bounded wait
    for (int i = 0; i < 6000; i++) {
        pid_t r = waitpid(w.pid, &st, WNOHANG);
        if (r == w.pid) break;
        if (i == 5000) { kill(-w.pid, SIGKILL); kill(w.pid, SIGKILL); }
        usleep(2000);
    }
    kill(-w.pid, SIGKILL);           // anything it left behind
    close(w.to); close(w.from);
    w.pid = -1; w.to = w.from = -1; w.busy = false;
    return st;
}

static std::string crash_text(const Worker &w, int st) {
    std::ostringstream s;
    if (WIFSIGNALED(st)) s << "crashed with signal " << WTERMSIG(st);
    else s << "exited with status " << WEXITSTATUS(st);
    std::ifstream f(w.err.c_str());
    std::string line;
    int kept = 0;
    bool on = false;
    while (std::getline(f, line) && kept < 14) {
        if (line.find("ERROR: ") != std::string::npos || line.find("runtime error") != std::string::npos ||
            line.find("terminate called") != std::string::npos || line.find("what():") != std::string::npos ||
            line.find("Assertion") != std::string::npos || line.find("WARNING: ThreadSanitizer") != std::string::npos) on = true;
        if (on) { s << "\n    " << line.substr(0, 200); kept++; }
    }
    return s.str();
}

static void rm_tree(const std::string &path) {
    // only ever called on directories below the scratch base this process made
    if (path.find("/hxverif.") == std::string::npos) return;
    pid_t p = fork();
    if (p == 0) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 2);
        execlp("rm", "rm", "-rf", "--", path.c_str(), (char *) nullptr);
        _exit(1);
    }
    int st;
    waitpid(p, &st, 0);
}

static std::string json_str(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o + "\"";
}

// run one choice sequence (or probe) to completion in w; respawns it on a crash
struct Outcome { bool failed = false; bool crashed = false; bool hung = false; bool killed = false; std::string message, desc; std::vector<std::uint64_t> used; };

static Outcome finish(Worker &w, const Property &p, std::uint64_t seed, const std::string &base, unsigned id, unsigned hang_s) {
    Outcome o;
    const std::uint64_t t0 = now_ms();
    for (;;) {
        struct pollfd pf = {w.from, POLLIN, 0};
        int k = poll(&pf, 1, 200);
        if (k > 0) {
            Result r;
            if (r.recv(w.from)) {
                o.failed = r.status != 0;
                o.message = r.message;
                o.desc = r.desc;
                o.used.assign(w.log->c, w.log->c + w.log->n);
                return o;
            }
            o.used.assign(w.log->c, w.log->c + w.log->n);
            int st = reap(w, false);
            o.failed = o.crashed = true;
            o.killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
            o.message = crash_text(w, st);
            spawn(w, p, seed, base, id);
            return o;
        }
        if (now_ms() - t0 > hang_s * 1000ULL) {
            o.used.assign(w.log->c, w.log->c + w.log->n);
            reap(w, true);
            o.failed = o.hung = true;
            o.message = "did not finish within " + std::to_string(hang_s) + " s";
            spawn(w, p, seed, base, id);
            return o;
        }
    }
}

// cases that only fail after the ones before them in the same process: run those as well
static Outcome try_ranges(Worker &w, const Property &p, std::uint64_t seed, const std::string &base, unsigned id,
                          const Ranges &ranges, std::uint64_t cap_s) {
    Outcome o;
    reap(w, true);
    spawn(w, p, seed, base, id);
    for (auto const &r : ranges) {
        put_u64(w.to, CMD_BATCH);
        put_u64(w.to, r.first);
        put_u64(w.to, r.second);
        o = finish(w, p, seed, base, id, cap_s);
        if (o.failed) break;
    }
    return o;
}

static Outcome try_choices(Worker &w, const Property &p, std::uint64_t seed, const std::string &base, unsigned id,
                           const std::vector<std::uint64_t> &ch, unsigned hang_s) {
    put_u64(w.to, CMD_REPLAY);
    put_u64(w.to, ch.size());
    if (ch.size()) write_all(w.to, ch.data(), ch.size() * sizeof(ch[0]));
    return finish(w, p, seed, base, id, hang_s);
}

// racy properties: up to n times, until it fails
static Outcome try_often(Worker &w, const Property &p, std::uint64_t seed, const std::string &base, unsigned id,
                         const std::vector<std::uint64_t> &ch, unsigned hang_s, unsigned n) {
    Outcome o;
    const std::uint64_t t0 = now_ms();
    for (unsigned i = 0; i < (p.racy ? n : 1); i++) {
        o = try_choices(w, p, seed, base, id, ch, hang_s);
        if (o.failed || now_ms() - t0 > 20000) break;
    }
    return o;
}

static bool simpler(const std::vector<std::uint64_t> &a, const std::vector<std::uint64_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN);
    std::map<std::string, std::string> opt;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--list") {
            for (auto const &p : registry()) std::cout << p.id << "\n";
            return 0;
        }
        if (a.size() > 2 && a.compare(0, 2, "--") == 0 && i + 1 < argc) { opt[a.substr(2)] = argv[i + 1]; i++; }
    }
    const Property *pp = nullptr;
    for (auto const &p : registry()) if (p.id == opt["prop"]) pp = &p;
    if (!pp) { std::cerr << "no such property\n"; return 2; }
    const Property &p = *pp;
    const std::uint64_t seed = strtoull(opt.count("seed") ? opt["seed"].c_str() : "1", nullptr, 10);
    const bool thorough = opt["tier"] == "thorough";
    std::uint64_t total = thorough ? p.thorough : p.quick;
    if (opt.count("cases")) total = strtoull(opt["cases"].c_str(), nullptr, 10);
    const std::uint64_t cap_ms = 1000ULL * strtoull(opt.count("time-cap") ? opt["time-cap"].c_str() : (thorough ? "3000" : "240"), nullptr, 10);
    unsigned W = p.workers ? p.workers : 7;
    if (opt.count("workers")) W = atoi(opt["workers"].c_str());

    char tmpl[] = "/dev/shm/hxverif.XXXXXX";
    char tmpl2[] = "/tmp/hxverif.XXXXXX";
    const char *b = mkdtemp(tmpl);
    if (!b) b = mkdtemp(tmpl2);
    if (!b) { perror("mkdtemp"); return 2; }
    const std::string base = b;
    setenv("HXVERIF_BASE", base.c_str(), 1);

    const std::uint64_t t0 = now_ms();
    Result sum;
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    bool found = false;
    Outcome best;
    std::string origin;
    std::vector<std::string> probe_lines;
    std::vector<Worker> ws(W);

    if (opt.count("replay")) {
        std::ifstream f(opt["replay"].c_str());
        std::vector<std::uint64_t> ch;
        std::string line;
        Ranges ranges;
        std::uint64_t rseed = seed;
        while (std::getline(f, line)) {
            if (line.compare(0, 5, "seed:") == 0) rseed = strtoull(line.c_str() + 5, nullptr, 10);
            if (line.compare(0, 7, "ranges:") == 0) {
                std::istringstream s(line.substr(7));
                std::uint64_t a, n;
                while (s >> a >> n) ranges.push_back(std::make_pair(a, n));
            }
            if (line.compare(0, 8, "choices:") == 0) {
                std::istringstream s(line.substr(8));
                std::uint64_t v;
                while (s >> v) ch.push_back(v);
            }
        }
        spawn(ws[0], p, rseed, base, 0);
        Outcome o = ranges.size() ? try_ranges(ws[0], p, rseed, base, 0, ranges, 600)
                                  : try_often(ws[0], p, seed, base, 0, ch, p.hang_s, 500);
        std::cout << (o.failed ? "FAIL " : "ok ") << o.message << "\n" << o.desc << "\n";
        reap(ws[0], true);
        rm_tree(base);
        return o.failed ? 1 : 0;
    }

    for (unsigned i = 0; i < W; i++) spawn(ws[i], p, seed, base, i);

    // probes of known findings
    for (std::size_t i = 0; i < probes().size(); i++) {
        if (probes()[i].id != p.id) continue;
        put_u64(ws[0].to, CMD_PROBE);
        put_u64(ws[0].to, i);
        Outcome o = finish(ws[0], p, seed, base, 0, p.hang_s);
        if (o.failed) probe_lines.push_back("{\"key\": " + json_str(probes()[i].key) + ", \"what\": " + json_str(o.message) + "}");
    }

    std::uint64_t next = 0;
    struct Cand { std::uint64_t index; std::vector<std::uint64_t> ch; std::string msg, desc; bool hung, killed; Ranges history; };
    std::vector<Cand> cands;
    Ranges best_ranges;
    // the batches this process ran, up to and including case idx
    auto upto = [](Ranges h, std::uint64_t idx) {
        if (h.size() && idx >= h.back().first) h.back().second = idx - h.back().first + 1;
        return h;
    };
    unsigned active = 0;
    std::uint64_t unconfirmed = 0, flaky = 0, shrink_runs = 0;
    std::vector<std::string> unconfirmed_msgs;
    for (;;) {
        if (!active && cands.size()) {
            std::sort(cands.begin(), cands.end(), [](const Cand &a, const Cand &b) { return a.index < b.index; });
            for (auto const &c : cands) {
                Outcome o;
                bool believed = true;
                if (p.racy && !c.hung && !c.killed) {
                    o = try_often(ws[0], p, seed, base, 0, c.ch, p.hang_s, 60);
                    if (!o.failed || o.hung || o.killed) {
                        o = Outcome();
                        o.failed = true;
                        o.message = c.msg; o.desc = c.desc; o.used = c.ch;
                    }
                }
                else {
                    // the recorded case must fail again, three times, before it is believed
                    for (int i = 0; i < 3 && believed; i++) {
                        // fresh process each time
                        reap(ws[0], true);
                        spawn(ws[0], p, seed, base, 0);
                        o = try_choices(ws[0], p, seed, base, 0, c.ch, p.hang_s);
                        believed = o.failed && !o.killed;
                    }
                }
                if (!believed && !c.killed && !c.hung && c.history.size()) {
                    // it may need the state earlier cases left in the process: the same cases in the
                    // same order must fail twice in fresh processes
                    std::vector<Ranges> tries;
                    tries.push_back(Ranges(1, c.history.back()));
                    if (c.history.size() > 1) tries.push_back(c.history);
                    for (auto const &t : tries) {
                        bool again = true;
                        for (int i = 0; i < 2 && again; i++) {
                            o = try_ranges(ws[0], p, seed, base, 0, t, 300);
                            again = o.failed && !o.killed && !o.hung;
                        }
                        if (again) { believed = true; best_ranges = t; o.used = c.ch; break; }
                    }
                }
                if (!believed) {
                    unconfirmed_msgs.push_back(c.msg);
                    unconfirmed++;
                    if (c.hung || c.killed) continue;
                    // a schedule-dependent failure: no case of a property that holds ever fails like this,
                    // so many of them are a violation even though none repeats on demand
                    if (++flaky < 20) continue;
                    o = Outcome();
                    o.failed = true;
                    o.message = "fails intermittently (" + std::to_string(flaky) + " cases): " + c.msg;
                    o.desc = c.desc; o.used = c.ch;
                    best_ranges = c.history;
                }
                found = true;
                best = o;
                origin = "case " + std::to_string(c.index) + " of seed " + std::to_string(seed);
                break;
            }
            if (found || unconfirmed > 60) break;
            cands.clear();
        }
        for (unsigned i = 0; i < W; i++) {
            if (!ws[i].busy && next < total && cands.empty() && now_ms() - t0 < cap_ms) {
                std::uint64_t n = std::min<std::uint64_t>(p.batch, total - next);
                ws[i].history.push_back(std::make_pair(next, n));
                put_u64(ws[i].to, CMD_BATCH);
                put_u64(ws[i].to, next);
                put_u64(ws[i].to, n);
                ws[i].busy = true;
                next += n;
                active++;
            }
        }
        if (!active) break;
        std::vector<struct pollfd> pf;
        std::vector<unsigned> who;
        for (unsigned i = 0; i < W; i++) if (ws[i].busy) { pf.push_back({ws[i].from, POLLIN, 0}); who.push_back(i); }
        poll(pf.data(), pf.size(), 250);
        for (std::size_t k = 0; k < pf.size(); k++) {
            Worker &w = ws[who[k]];
            if (pf[k].revents) {
                Result r;
                if (r.recv(w.from)) {
                    w.busy = false; active--;
                    sum.evaluations += r.evaluations; sum.dropped += r.dropped; sum.ops += r.ops;
                    for (auto h : r.hashes) distinct.insert(h);
                    for (auto const &l : r.labels) sum.labels[l.first] += l.second;
                    for (auto const &s : r.samples) if (samples.size() < 4) samples.push_back(s);
                    if (r.status) w.history = upto(w.history, r.failed_index);
                    if (r.status) cands.push_back({r.failed_index, std::vector<std::uint64_t>(w.log->c, w.log->c + w.log->n), r.message, r.desc, false, false, upto(w.history, r.failed_index)});
                } else {
                    std::vector<std::uint64_t> ch(w.log->c, w.log->c + w.log->n);
                    std::uint64_t idx = w.log->index;
                    int st = reap(w, false);
                    active--;
                    cands.push_back({idx, ch, crash_text(w, st), "", false, WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL, upto(w.history, idx)});
                    spawn(w, p, seed, base, who[k]);
                }
            } else if (w.busy) {
                std::uint64_t s = w.log->started_ms;
                if (s && now_ms() > s && now_ms() - s > p.hang_s * 1000ULL) {
                    std::vector<std::uint64_t> ch(w.log->c, w.log->c + w.log->n);
                    std::uint64_t idx = w.log->index;
                    reap(w, true);
                    active--;
                    cands.push_back({idx, ch, "did not finish within " + std::to_string(p.hang_s) + " s", "", true, false, upto(w.history, idx)});
                    spawn(w, p, seed, base, who[k]);
                }
            }
        }
    }

    if (found && !best.hung && best_ranges.empty()) {
        // shrink: delete blocks, zero blocks, lower single values
        const std::uint64_t s0 = now_ms(), budget = 60000;
        auto attempt = [&](std::vector<std::uint64_t> ch) -> bool {
            if (now_ms() - s0 > budget || shrink_runs > 4000) return false;
            while (ch.size() && ch.back() == 0) ch.pop_back();
            if (!simpler(ch, best.used)) return false;
            shrink_runs++;
            Outcome o = try_often(ws[0], p, seed, base, 0, ch, p.hang_s, 12);
            if (!o.failed || o.hung || o.killed) return false;
            while (o.used.size() && o.used.back() == 0) o.used.pop_back();
            if (!simpler(o.used, best.used)) return false;
            best = o;
            return true;
        };
        bool progress = true;
        while (progress && now_ms() - s0 < budget) {
            progress = false;
            for (std::size_t len = std::max<std::size_t>(1, best.used.size() / 2); len >= 1; len /= 2) {
                for (std::size_t i = 0; i + len <= best.used.size();) {
                    std::vector<std::uint64_t> ch = best.used;
                    ch.erase(ch.begin() + i, ch.begin() + i + len);
                    if (attempt(ch)) progress = true; else i += len;
                }
                if (len == 1) break;
            }
            for (std::size_t i = 0; i < best.used.size(); i++) {
                if (!best.used[i]) continue;
                std::vector<std::uint64_t> ch = best.used;
                ch[i] = 0;
                if (attempt(ch)) { progress = true; continue; }
                // lower by bisection
                std::uint64_t lo = 0, hi = best.used.size() > i ? best.used[i] : 0;
                while (hi - lo > 1 && i < best.used.size()) {
                    std::uint64_t mid = lo + (hi - lo) / 2;
                    ch = best.used;
                    ch[i] = mid;
                    if (attempt(ch)) { progress = true; if (i < best.used.size()) hi = best.used[i]; else break; if (hi > mid) hi = mid; }
                    else lo = mid;
                }
            }
        }
        // the minimal case must fail three times as well
        for (int i = 0; i < 3; i++) {
            reap(ws[0], true);
            spawn(ws[0], p, seed, base, 0);
            Outcome o = try_often(ws[0], p, seed, base, 0, best.used, p.hang_s, 60);
            if (o.failed) { best.message = o.message; if (o.desc.size()) best.desc = o.desc; }
        }
    }

    for (auto &w : ws) reap(w, true);
    rm_tree(base);

    std::string replay;
    if (found) {
        replay = opt.count("replay-out") ? opt["replay-out"] : "replay.txt";
        std::ofstream f(replay.c_str());
        f << "property: " << p.id << "\nseed: " << seed << "\norigin: " << origin << "\nmessage: " << best.message
          << "\nchoices:";
        for (auto v : best.used) f << " " << v;
        if (best_ranges.size()) {
            f << "\nranges:";
            for (auto const &r : best_ranges) f << " " << r.first << " " << r.second;
        }
        f << "\ncase:\n" << best.desc << "\n";
    }

    std::ostringstream j;
    j << "{\n \"property\": " << json_str(p.id) << ",\n \"rule\": " << json_str(p.rule)
      << ",\n \"requested\": " << total << ",\n \"evaluations\": " << sum.evaluations
      << ",\n \"dropped_oversize\": " << sum.dropped << ",\n \"steps\": " << sum.ops
      << ",\n \"distinct_nontrivial\": " << distinct.size() << ",\n \"unconfirmed_failures\": " << unconfirmed
      << ",\n \"unconfirmed_messages\": [";
    for (std::size_t i = 0; i < unconfirmed_msgs.size(); i++) j << (i ? ", " : "") << json_str(unconfirmed_msgs[i]);
    j << "],\n \"shrink_runs\": " << shrink_runs << ",\n \"wall_s\": " << (now_ms() - t0) / 1000.0 << ",\n \"labels\": {";
    bool first = true;
    for (auto const &l : sum.labels) { j << (first ? "" : ", ") << json_str(l.first) << ": " << l.second; first = false; }
    j << "},\n \"probes\": [";
    for (std::size_t i = 0; i < probe_lines.size(); i++) j << (i ? ", " : "") << probe_lines[i];
    j << "],\n \"samples\": [";
    for (std::size_t i = 0; i < samples.size(); i++) j << (i ? ", " : "") << json_str(samples[i]);
    j << "],\n \"violation\": " << (found ? json_str(best.message) : "null")
      << ",\n \"violation_case\": " << (found ? json_str(best.desc) : "null")
      << ",\n \"replay\": " << (found ? json_str(replay) : "null") << "\n}\n";
    if (opt.count("out")) { std::ofstream f(opt["out"].c_str()); f << j.str(); }
    else std::cout << j.str();
    return found ? 1 : 0;
}

}

int main(int argc, char **argv) { return pbt::main(argc, argv); }
