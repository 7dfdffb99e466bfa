// FUZZ: yes
#include "lib/rdtlib.hpp"
using namespace model;

PROPERTY("R01",
         "a pool of distinct ops by several writers, cut into id-ordered pieces that overlap in any way, "
         "merged as a last-write-wins object, a matrix or a yarn through every entry point, in any order, "
         "grouping and repetition; the result is the sorted union; non-trivial: at least two pieces "
         "hold ops and they interleave or overlap",
         "pieces that hold the same id hold the same op under it")

static const FORM FORMS[] = {ron::LWW_RDT_FORM, ron::MX_RDT_FORM, ron::YARN_RAW_FORM};
static const char* NAMES[] = {"lww", "mx", "yarn"};

static vector<Val> any_vals(pbt::Gen& g) {
    vector<Val> v;
    if (g.coin()) v.push_back(Val::U(uid(g.one_of<const char*>({"key", "name", "x"}))));
    while (g.more(1) && v.size() < 6) v.push_back(gen_val(g));
    return v;
}
static bool interleaved(const vector<Ops>& ps) {
    // some piece begins before another one has ended
    for (size_t i = 0; i < ps.size(); ++i)
        for (size_t k = i + 1; k < ps.size(); ++k) {
            if (ps[i].empty() || ps[k].empty()) continue;
            if (!(ps[i].back().id < ps[k].front().id) && !(ps[k].back().id < ps[i].front().id)) return true;
        }
    return false;
}
static void expect(const Ops& got, const Ops& pool, const char* what) {
    CHECK(same(got, pool), what << " is not the union: " << diff(got, pool));
}

FACET(merge, 130000, 1300000) {
    size_t f = g.below(3);
    g.cls(NAMES[f]);
    Ops pool = gen_pool(g, uid(NAMES[f]), g.coin(), 40, 9, any_vals);
    vector<Ops> ps = gen_pieces(g, pool);
    vector<string> in;
    for (auto& p : ps) in.push_back(lay(g, p));
    g.note("pool:\n" + show(pool) + show_in(in));
    if (interleaved(ps)) g.nontrivial();
    expect(merged(any_how(g), FORMS[f], in, "a merge"), pool, "a merge");
    shuffle(g, in);
    expect(merged(any_how(g), FORMS[f], in, "a merge in another order"), pool, "a merge in another order");
    size_t d = g.below(in.size());
    vector<string> again = in;
    for (size_t i = 0; i <= g.below(3); ++i) again.insert(again.begin() + g.below(again.size() + 1), in[d]);
    expect(merged(any_how(g), FORMS[f], again, "a merge with repeats"), pool, "a merge with repeats");
}

FACET(grouping, 100000, 1000000) {
    size_t f = g.below(3);
    Ops pool = gen_pool(g, uid(NAMES[f]), g.coin(), 40, 9, any_vals);
    vector<Ops> ps = gen_pieces(g, pool);
    vector<string> in;
    for (auto& p : ps) in.push_back(lay(g, p));
    g.note("pool:\n" + show(pool) + show_in(in));
    if (interleaved(ps)) g.nontrivial();
    // any bracketing: take a few inputs, merge them, put the result back
    vector<string> all = in;
    size_t steps = 0;
    while (in.size() > 1 && steps++ < 12) {
        vector<string> group;
        size_t n = 1 + g.below(in.size());
        for (size_t i = 0; i < n; ++i) {
            size_t k = g.below(in.size());
            group.push_back(in[k]);
            if (!g.chance(1, 5)) in.erase(in.begin() + k);
        }
        string out;
        Status ok = merge(any_how(g), FORMS[f], group, out);
        CHECK(ok, "a partial merge is refused: " << ok.str());
        in.insert(in.begin() + g.below(in.size() + 1), out);
    }
    string out;
    Status ok = merge(any_how(g), FORMS[f], in, out);
    CHECK(ok, "the last merge is refused: " << ok.str());
    expect(must_read(TextFrame{out}, "a merge of merges"), pool, "a merge of merges");
    // merging with what is merged already changes nothing
    vector<string> absorbed{out};
    for (auto& s : all)
        if (g.coin()) absorbed.insert(absorbed.begin() + g.below(absorbed.size() + 1), s);
    expect(merged(any_how(g), FORMS[f], absorbed, "a merge with the merged"), pool, "a merge with the merged");
}

FACET(by_frames, 80000, 800000) {
    // the type comes from the header, wherever that one is
    size_t f = g.below(3);
    Ops pool = gen_pool(g, uid(NAMES[f]), true, 30, 8, any_vals);
    vector<Ops> ps = gen_pieces(g, pool);
    vector<string> in;
    for (auto& p : ps) in.push_back(lay(g, p));
    shuffle(g, in);
    g.note("pool:\n" + show(pool) + show_in(in));
    if (interleaved(ps)) g.nontrivial();
    string out;
    Status ok = merge_frames(in, out);
    CHECK(ok, "a merge of frames is refused: " << ok.str());
    expect(must_read(TextFrame{out}, "a merge of frames"), pool, "a merge of frames");
}

// long histories, hundreds of pieces
FACET(large, 700, 8000) {
    size_t f = g.below(3);
    g.cls(NAMES[f]);
    size_t n = gen_large_size(g, g.chance(1, 10) ? 70000 : 4000);
    size_t pieces = g.coin() ? 6 : 400;
    pbt::Gen bulk = g.bulk();
    Ops pool = gen_pool(bulk, uid(NAMES[f]), g.coin(), n, 1000000, any_vals);
    vector<Ops> ps = gen_pieces(bulk, pool, pieces);
    vector<string> in;
    for (auto& p : ps) in.push_back(p.size() < 1000 ? lay(bulk, p) : build(p).data());
    g.note(std::to_string(pool.size()) + " ops in " + std::to_string(ps.size()) + " pieces");
    if (ps.size() > 255) g.cls("more than 255 pieces");
    if (pool.size() > 255) g.cls("more than 255 ops");
    if (ps.size() > 1) g.nontrivial();
    expect(merged(any_how(g), FORMS[f], in, "a large merge"), pool, "a large merge");
    shuffle(bulk, in);
    expect(merged(any_how(g), FORMS[f], in, "a large merge in another order"), pool, "a large merge in another order");
}
