// A small property-based testing engine.
//
// A property is a function of a Gen&. Every random decision goes through the
// Gen as a bounded integer, so a case *is* its sequence of choices: it can be
// replayed exactly, shrunk by editing the sequence, and fed from libFuzzer.
// Cases run in forked workers: an assert(), a sanitizer report or a hang in
// the code under test is a failing case like any other.
#ifndef PBT_HPP
#define PBT_HPP
#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
    std::string msg;
};
struct Discard {};

class Gen {
    friend struct Engine;

  public:
    enum Mode { RANDOM, REPLAY, BYTES, BULK };

    explicit Gen(uint64_t seed) : mode_{RANDOM}, state_{seed} {}
    explicit Gen(const std::vector<uint64_t>& choices)
        : mode_{REPLAY}, state_{0}, replay_{choices} {}
    Gen(const uint8_t* data, size_t size)
        : mode_{BYTES}, state_{0}, bytes_{data}, nbytes_{size} {}

    /** a generator for bulk contents: all it gives follows from one choice */
    Gen bulk() {
        Gen b(below(1ULL << 32));
        b.mode_ = BULK;
        return b;
    }

    /** uniform in [0, n); 0 is the simplest value */
    uint64_t below(uint64_t n);
    /** uniform in [lo, hi] */
    int64_t range(int64_t lo, int64_t hi) {
        return lo + (int64_t)below((uint64_t)(hi - lo) + 1);
    }
    uint64_t u64() {
        uint64_t hi = below(1ULL << 32);
        return (hi << 32) | below(1ULL << 32);
    }
    /** true with probability num/den; false is simpler */
    bool chance(unsigned num, unsigned den) {
        return below(den) >= den - num;
    }
    bool coin() { return below(2) == 1; }
    /** length in [lo,hi], geometric-ish: small sizes are common, the
     *  occasional one is big */
    size_t size(size_t lo, size_t hi);
    /** list continuation: true with probability avg/(avg+1); a list written as
     *  while(g.more(avg)) shrinks element by element */
    bool more(unsigned avg) { return below(avg + 1) != 0; }
    size_t weighted(std::initializer_list<unsigned> w);
    template <class C>
    auto pick(const C& c) -> const typename C::value_type& {
        return c[below(c.size())];
    }
    template <class T>
    T one_of(std::initializer_list<T> l) {
        return *(l.begin() + below(l.size()));
    }

    /** describes the case for samples and failure reports */
    void note(const std::string& s) {
        if (notes_.size() < 60000) {
            notes_ += s + "\n";
            if (mirror()) mirror()(notes_);
        }
    }
    /** told of the notes as they grow: the process may die */
    static std::function<void(const std::string&)>& mirror() {
        static std::function<void(const std::string&)> f;
        return f;
    }
    bool noting() const { return noting_; }
    /** counts the case under a class label */
    void cls(const char* label);
    /** the case is non-trivial by the property's rule */
    void nontrivial() { nontrivial_ = true; }
    /** identity of the case for the distinct count (default: its choices) */
    void key(const std::string& k);
    /** the case hits a listed known finding: not judged, but counted */
    void excluded() { excluded_ = true; }
    [[noreturn]] void discard() { throw Discard{}; }

    Mode mode() const { return mode_; }

  private:
    Mode mode_;
    uint64_t state_;
    std::vector<uint64_t> replay_;
    const uint8_t* bytes_{nullptr};
    size_t nbytes_{0};
    size_t pos_{0};
    size_t drawn_{0};
    std::vector<uint64_t> own_;
    uint64_t khash_{0};
    bool haskey_{false};
    bool nontrivial_{false};
    bool excluded_{false};
    bool noting_{true};
    std::string notes_;
    std::vector<const char*> labels_;
};

struct Facet {
    std::string name;
    std::function<void(Gen&)> fn;
    uint64_t quick, thorough;
};
struct Example {
    std::string name;
    std::function<void()> fn;
    bool known;  // listed in known_findings when it fails
};

struct Registry {
    const char* id{"?"};
    const char* rule{"?"};
    std::vector<std::string> assumptions;
    std::vector<Facet> facets;
    std::vector<Example> examples;
    /** run once in the process before cases (e.g. scratch directory) */
    std::function<void()> worker_init;
    unsigned case_cpu_seconds{20};
    unsigned max_workers{8};
    /** a case that depends on a schedule is replayed up to so many times */
    unsigned tries{1};
    static Registry& get();
};

struct RegFacet {
    RegFacet(const char* n, uint64_t q, uint64_t t, std::function<void(Gen&)> f) {
        Registry::get().facets.push_back({n, f, q, t});
    }
};
struct RegExample {
    RegExample(const char* n, std::function<void()> f, bool known = false) {
        Registry::get().examples.push_back({n, f, known});
    }
};
struct RegMeta {
    RegMeta(const char* id, const char* rule,
            std::initializer_list<std::string> assumptions = {}) {
        auto& r = Registry::get();
        r.id = id;
        r.rule = rule;
        r.assumptions = assumptions;
    }
};

std::string esc(const std::string& s);

/** a scratch directory private to this process; removed by the engine */
std::string scratch();

}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(id, rule, ...) \
    static pbt::RegMeta pbt_meta_(id, rule, {__VA_ARGS__});
#define FACET(name, quick, thorough)                                     \
    static void PBT_CAT(facet_, name)(pbt::Gen & g);                     \
    static pbt::RegFacet PBT_CAT(regfacet_, name)(#name, quick, thorough, \
                                                  PBT_CAT(facet_, name)); \
    static void PBT_CAT(facet_, name)(pbt::Gen & g)
#define EXAMPLE(name)                                                      \
    static void PBT_CAT(example_, name)();                                 \
    static pbt::RegExample PBT_CAT(regex_, name)(#name, PBT_CAT(example_, name)); \
    static void PBT_CAT(example_, name)()
#define KNOWN(name)                                                        \
    static void PBT_CAT(known_, name)();                                   \
    static pbt::RegExample PBT_CAT(regkn_, name)(#name, PBT_CAT(known_, name), true); \
    static void PBT_CAT(known_, name)()

#define CHECK(cond, what)                                                   \
    do {                                                                    \
        if (!(cond)) {                                                      \
            std::ostringstream pbt_o;                                       \
            pbt_o << what;                                                  \
            throw pbt::Failure{pbt_o.str()};                                \
        }                                                                   \
    } while (0)
#define FAIL(what) CHECK(false, what)
#define CHECK_EQ(a, b, what)                                               \
    do {                                                                    \
        auto pbt_a = (a);                                                   \
        decltype(pbt_a) pbt_b = (b);                                        \
        if (!(pbt_a == pbt_b)) {                                            \
            std::ostringstream pbt_o;                                       \
            pbt_o << what << ": got [" << pbt::show(pbt_a) << "] expected [" \
                  << pbt::show(pbt_b) << "]";                               \
            throw pbt::Failure{pbt_o.str()};                                \
        }                                                                   \
    } while (0)

namespace pbt {
inline std::string show(const std::string& s) { return esc(s); }
inline std::string show(const char* s) { return esc(s); }
template <class T>
std::string show(const T& t) {
    std::ostringstream o;
    o << t;
    return o.str();
}
}  // namespace pbt
#endif
