// FUZZ: yes
#include "lib/bridge.hpp"
#include "ron/inc_stack.hpp"
using namespace model;

PROPERTY("U01",
         "sequences of pushes (runs of consecutive values, repeats, arbitrary values, the extremes) and pops on "
         "stacks of 32- and 64-bit numbers and of ids, against a vector; walks by random mixes of steps, jumps "
         "and span skips of any bound; non-trivial: at least two runs, one of three values or more",
         "a value just past the greatest one is not pushed as a continuation");

template <class T>
struct As;
template <>
struct As<uint32_t> {
    static uint32_t any(pbt::Gen& g) {
        return g.coin() ? (uint32_t)g.below(10) : g.one_of<uint32_t>({0, 1, UINT32_MAX - 40, 1u << 31, 77});
    }
    static uint32_t next(uint32_t v, unsigned n) { return v + n; }
};
template <>
struct As<uint64_t> {
    static uint64_t any(pbt::Gen& g) {
        return g.coin() ? g.below(10)
                        : g.one_of<uint64_t>({0, 1, UINT32_MAX, (uint64_t)UINT32_MAX - 3, 1ull << 32, 1ull << 63, UINT64_MAX - 400});
    }
    static uint64_t next(uint64_t v, unsigned n) { return v + n; }
};
template <>
struct As<ron::Uuid> {
    static ron::Uuid any(pbt::Gen& g) {
        Uid u = g.coin() ? gen_event(g) : gen_uid(g);
        if ((u.value & PAY) > PAY - 4000) u.value -= 5000;
        return R(u);
    }
    static ron::Uuid next(const ron::Uuid& u, unsigned n) {
        Uid m = M(u);
        m.value += n;
        return R(m);
    }
};
static string str(uint32_t v) { return std::to_string(v); }
static string str(uint64_t v) { return std::to_string(v); }
static string str(const ron::Uuid& v) { return text(M(v)); }

template <class T>
static size_t runs(const vector<T>& v, size_t* longest = nullptr) {
    size_t n = 0, len = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        if (i && As<T>::next(v[i - 1], 1) == v[i])
            ++len;
        else {
            ++n;
            len = 1;
        }
        if (longest && len > *longest) *longest = len;
    }
    return n;
}

template <class T>
static void expect(const inc_stack<T>& s, const vector<T>& v) {
    CHECK(s.size() == v.size(), "the size is " << s.size() << ", expected " << v.size());
    CHECK(s.empty() == v.empty(), "empty() is wrong at size " << v.size());
    if (v.empty()) {
        CHECK(s.begin() == s.end(), "begin is not end in an empty stack");
        return;
    }
    CHECK(s.front() == v.front(), "the first is " << str(s.front()) << ", expected " << str(v.front()));
    CHECK(s.back() == v.back(), "the last is " << str(s.back()) << ", expected " << str(v.back()));
    CHECK(s.span_size() == runs(v), "there are " << s.span_size() << " runs, expected " << runs(v));
}

template <class T>
static void run(pbt::Gen& g) {
    inc_stack<T> s;
    vector<T> v;
    size_t n = 0;
    string log;
    while (g.more(30) && n++ < 120) {
        switch (g.weighted({6, 2, 3, 1, 4})) {
            case 0: {  // a run
                T at = v.empty() || g.chance(1, 3) ? As<T>::any(g) : As<T>::next(v.back(), 1);
                size_t len = g.chance(1, 10) ? 200 + g.below(400) : 1 + g.below(8);
                log += " +" + str(at) + "x" + std::to_string(len);
                for (size_t k = 0; k < len; ++k) {
                    T x = As<T>::next(at, (unsigned)k);
                    if (!(at < x) && k) break;  // went past the greatest value
                    s.push_back(x);
                    v.push_back(x);
                }
                break;
            }
            case 1: {  // anything
                T x = As<T>::any(g);
                if (!v.empty() && g.chance(1, 3)) x = v[g.below(v.size())];
                if (!v.empty() && x < v.back() && As<T>::next(v.back(), 1) == x) break;
                log += " " + str(x);
                s.push_back(x);
                v.push_back(x);
                break;
            }
            case 2: {
                size_t len = g.chance(1, 6) ? g.below(v.size() + 1) : g.below(4);
                log += " -" + std::to_string(len);
                for (size_t k = 0; k < len && !v.empty(); ++k) {
                    s.pop_back();
                    v.pop_back();
                }
                break;
            }
            case 3:
                expect(s, v);
                break;
            default: {  // a walk
                auto i = s.begin();
                auto first = i;  // a place kept to compare with
                size_t first_at = 0;
                size_t at = 0, moves = 0;
                while (at < v.size() && moves++ < 60 && g.more(20)) {
                    CHECK(i != s.end(), "the walk is at the end after " << at << " values of " << v.size());
                    CHECK(*i == v[at], "value " << at << " of the walk is " << str(*i) << ", expected " << str(v[at]));
                    CHECK((i == first) == (at == first_at) && (i != first) == (at != first_at),
                          "places " << at << " and " << first_at << " of a walk compare wrong");
                    CHECK((first == i) == (at == first_at) && (first != i) == (at != first_at),
                          "places " << first_at << " and " << at << " of a walk compare wrong");
                    if (g.chance(1, 4)) {
                        first = i;
                        first_at = at;
                    }
                    switch (g.below(3)) {
                        case 0:
                            ++i;
                            ++at;
                            break;
                        case 1: {
                            uint32_t k = (uint32_t)g.below(std::min<size_t>(v.size() - at, g.chance(1, 3) ? 1000000 : 5) + 1);
                            i += k;
                            at += k;
                            break;
                        }
                        default: {
                            // to the end of the run, but no farther than asked
                            size_t rest = 1;
                            while (at + rest < v.size() && As<T>::next(v[at + rest - 1], 1) == v[at + rest]) ++rest;
                            uint32_t max = g.chance(1, 3) ? g.one_of<uint32_t>({UINT32_MAX, UINT32_MAX - 1, 1u << 31, 1u << 30})
                                                          : 1 + (uint32_t)g.below(rest + 3);
                            size_t want = std::min<size_t>(rest, max);
                            size_t got = i.skip_span(max);
                            CHECK(got == want, "a skip of at most " << max << " in a run with " << rest << " left skips " << got);
                            at += want;
                        }
                    }
                }
                if (at >= v.size())
                    CHECK(i == s.end() && !(i != s.end()), "the walk is not at the end after all values");
                else
                    CHECK(*i == v[at], "value " << at << " of the walk is " << str(*i) << ", expected " << str(v[at]));
            }
        }
        CHECK(s.size() == v.size(), "the size is " << s.size() << ", expected " << v.size());
    }
    g.note(log);
    expect(s, v);
    size_t at = 0;
    for (auto i = s.begin(); i != s.end(); ++i, ++at) {
        CHECK(at < v.size(), "a full walk goes on after the last value");
        CHECK(*i == v[at], "value " << at << " is " << str(*i) << ", expected " << str(v[at]));
    }
    CHECK(at == v.size(), "a full walk visits " << at << " values of " << v.size());
    size_t longest = 0;
    if (runs(v, &longest) > 1 && longest > 2) g.nontrivial();
}

// long runs, many runs
template <class T>
static void run_large(pbt::Gen& g) {
    inc_stack<T> s;
    vector<T> v;
    size_t n = 1 + g.below(4);
    for (size_t i = 0; i < n; ++i) {
        size_t len = gen_large_size(g);
        pbt::Gen bulk = g.bulk();
        T at = As<T>::any(bulk);
        if (v.size() && bulk.chance(1, 3)) at = As<T>::next(v.back(), 1);
        bool broken = bulk.chance(1, 3);
        for (size_t k = 0; k < len; ++k) {
            T x = As<T>::next(at, (unsigned)(broken ? 2 * k + k / 7 : k));
            if (!(at < x) && k) break;  // past the greatest value
            if (!v.empty() && x < v.back() && As<T>::next(v.back(), 1) == x) break;
            s.push_back(x);
            v.push_back(x);
        }
        if (g.chance(1, 3))
            for (size_t k = bulk.below(v.size()); k; --k) {
                s.pop_back();
                v.pop_back();
            }
    }
    size_t longest = 0;
    size_t r = runs(v, &longest);
    g.note(std::to_string(v.size()) + " values in " + std::to_string(r) + " runs");
    if (longest > 65535) g.cls("a run of more than 65535 values");
    if (r > 255) g.cls("more than 255 runs");
    g.nontrivial();
    expect(s, v);
    size_t at = 0;
    for (auto i = s.begin(); i != s.end(); ++i, ++at) {
        CHECK(at < v.size(), "a full walk goes on after the last value");
        CHECK(*i == v[at], "value " << at << " is " << str(*i) << ", expected " << str(v[at]));
    }
    CHECK(at == v.size(), "a full walk visits " << at << " values of " << v.size());
    for (int k = 0; k < 5; ++k) {
        auto i = s.begin();
        size_t to = g.below(v.size() + 1);
        i += (uint32_t)to;
        if (to == v.size())
            CHECK(i == s.end(), "a jump over everything is not at the end");
        else {
            CHECK(*i == v[to], "value " << to << " by a jump is " << str(*i) << ", expected " << str(v[to]));
            size_t rest = 1;
            while (to + rest < v.size() && As<T>::next(v[to + rest - 1], 1) == v[to + rest]) ++rest;
            uint32_t got = i.skip_span(UINT32_MAX);
            CHECK(got == rest, "a skip in a run with " << rest << " left skips " << got);
        }
    }
    while (!v.empty()) {
        CHECK(s.back() == v.back(), "the last is " << str(s.back()) << ", expected " << str(v.back()));
        s.pop_back();
        v.pop_back();
    }
    CHECK(s.empty(), "values are left after all are popped");
}
FACET(large_numbers, 500, 5000) { run_large<uint64_t>(g); }
FACET(large_ids, 500, 5000) { run_large<ron::Uuid>(g); }
FACET(numbers, 400000, 4000000) { run<uint32_t>(g); }
FACET(long_numbers, 400000, 4000000) { run<uint64_t>(g); }
FACET(ids, 400000, 4000000) { run<ron::Uuid>(g); }
