// A small property-based-testing kernel.
//
// A case is a pure function of a sequence of 64-bit choices. Generation draws
// them from a PRNG seeded with (VERIF_SEED, property, case index); replay and
// shrinking feed a recorded sequence back. Every random decision of a property
// must come from a Src.
//
// Cases run in forked worker processes, so a crash (sanitizer report, signal,
// std::terminate) or a hang of the code under test is itself a failing case
// with a recorded choice sequence, and shrinks like any other.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Fail : std::runtime_error {
    explicit Fail(const std::string &m) : std::runtime_error(m) {}
};

// thrown by Src when a case exceeds the choice buffer: the case is dropped
struct TooBig {};

struct ChoiceLog {                       // lives in memory shared with the parent
    static const std::size_t MAX = 1 << 18;
    volatile std::uint64_t index;        // case being run
    volatile std::uint64_t started_ms;   // when it started (CLOCK_MONOTONIC), 0 = idle
    volatile std::uint64_t n;            // choices drawn so far
    std::uint64_t c[MAX];
};

class Src {
public:
    Src(ChoiceLog *log, std::uint64_t seed) : log(log), replay(nullptr), state(seed) { log->n = 0; }
    Src(ChoiceLog *log, const std::vector<std::uint64_t> *rep) : log(log), replay(rep), state(0) { log->n = 0; }

    // uniform in [0, n); 0 is the simplest value
    std::uint64_t below(std::uint64_t n) {
        if (n <= 1) return 0;
        std::uint64_t v = raw();
        v %= n;
        put(v);
        return v;
    }
    // uniform in [lo, hi], simplest value lo
    std::int64_t range(std::int64_t lo, std::int64_t hi) {
        return lo + (std::int64_t) below((std::uint64_t) (hi - lo) + 1);
    }
    // full 64 bits
    std::uint64_t u64() { std::uint64_t v = raw(); put(v); return v; }
    // true with probability num/den; false is the simplest value
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    bool coin() { return below(2) == 1; }
    template <typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    // skewed towards small values, up to max
    std::size_t small(std::size_t max) {
        if (!max) return 0;
        std::uint64_t k = below(4);
        std::size_t m = max;
        if (k == 0) m = max < 2 ? max : 2;
        else if (k == 1) m = max < 8 ? max : 8;
        else if (k == 2) m = max < 40 ? max : 40;
        return (std::size_t) below(m + 1);
    }
    // index drawn according to integer weights
    std::size_t weighted(const std::vector<unsigned> &w) {
        unsigned total = 0;
        for (unsigned x : w) total += x;
        std::uint64_t v = below(total);
        for (std::size_t i = 0; i < w.size(); i++) {
            if (v < w[i]) return i;
            v -= w[i];
        }
        return 0;
    }

private:
    std::uint64_t raw() {
        if (replay) {
            const std::size_t i = log->n;
            return i < replay->size() ? (*replay)[i] : 0;
        }
        std::uint64_t z = (state += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    void put(std::uint64_t v) {
        if (log->n >= ChoiceLog::MAX) throw TooBig();
        log->c[log->n] = v;
        log->n = log->n + 1;
    }
    ChoiceLog *log;
    const std::vector<std::uint64_t> *replay;
    std::uint64_t state;
};

// What a property reports about the case it ran.
struct Case {
    std::ostringstream desc;                 // the case, written out
    bool nontrivial = false;
    std::map<std::string, std::uint64_t> labels;
    std::uint64_t ops = 0;                   // steps executed inside this case
    void label(const std::string &l, std::uint64_t n = 1) { labels[l] += n; }
};

struct Property {
    std::string id;
    std::string rule;                        // generation + non-triviality rule
    std::function<void(Src &, Case &)> run;
    std::uint64_t quick;                     // number of cases per tier
    std::uint64_t thorough;
    std::uint64_t batch;
    unsigned hang_s;                         // a case running longer than this hangs
    unsigned workers;                        // 0: default
    // the outcome of a case depends on the schedule: a failure is believed when it is seen once
    // (the oracle must accept every schedule), and re-running a case means running it many times
    bool racy;
};

std::vector<Property> &registry();
struct Reg {
    Reg(const std::string &id, const std::string &rule, std::function<void(Src &, Case &)> run,
        std::uint64_t quick, std::uint64_t thorough, std::uint64_t batch = 50,
        unsigned hang_s = 60, unsigned workers = 0, bool racy = false) {
        registry().push_back(Property{id, rule, run, quick, thorough, batch, hang_s, workers, racy});
    }
};

// probes of listed known findings: return true (and fill what) while it still fails
struct Probe {
    std::string id;                          // property id
    std::string key;                         // key in known_findings.json
    std::function<bool(std::string &what)> run;
};
std::vector<Probe> &probes();
struct RegProbe {
    RegProbe(const std::string &id, const std::string &key, std::function<bool(std::string &)> run) {
        probes().push_back(Probe{id, key, run});
    }
};

// a scratch directory private to this worker, emptied between cases by the property
const std::string &scratch();
unsigned worker_id();
int main(int argc, char **argv);

#define PBT_FAIL(stream_expr)                                   \
    do { std::ostringstream pbt_s_; pbt_s_ << stream_expr;      \
         throw ::pbt::Fail(pbt_s_.str()); } while (0)
#define PBT_CHECK(cond, stream_expr)                            \
    do { if (!(cond)) PBT_FAIL("[" #cond "] " << stream_expr); } while (0)

}

#endif
