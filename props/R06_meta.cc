#include <set>
#include "lib/rdtlib.hpp"
using namespace model;

PROPERTY("R06",
         "meta records (a key, a reference that is its version, values) with many records per key, in inputs "
         "sorted by key, in any order, grouping and repetition; the latest record of every key against a map; "
         "non-trivial: some key has two records or more in two inputs",
         "records of one key with one reference are the same record; inputs are in the order of a merge");

struct Recs {
    Ops all;
    vector<Ops> pieces;
};
static bool order(const Op& a, const Op& b) { return a.id == b.id ? b.ref < a.ref : a.id < b.id; }
static Recs gen_recs(pbt::Gen& g) {
    Recs r;
    std::map<std::pair<Uid, Uid>, Op> pool;
    vector<Uid> keys, refs;
    do keys.push_back(g.chance(1, 3) ? gen_uid(g) : gen_event(g));
    while (g.more(3) && keys.size() < 12);
    do refs.push_back(g.chance(1, 3) ? gen_uid(g) : gen_event(g));
    while (g.more(4) && refs.size() < 12);
    do {
        Op o;
        o.id = g.pick(keys);
        o.ref = g.pick(refs);
        if (pool.count({o.id, o.ref})) continue;
        while (g.more(2) && o.vals.size() < 5) o.vals.push_back(gen_val(g));
        o.term = g.chance(1, 6) ? g.one_of<int>({0, 2, 3}) : 1;
        pool[{o.id, o.ref}] = o;
    } while (g.more(12) && pool.size() < 40);
    size_t n = 1 + g.below(6);
    r.pieces.resize(n);
    std::map<Uid, std::set<size_t>> where;
    for (auto& p : pool) {
        r.all.push_back(p.second);
        size_t k = 1 + (g.chance(1, 3) ? g.below(n) : 0);
        std::set<size_t> to;
        while (to.size() < k) to.insert(g.below(n));
        for (size_t i : to) r.pieces[i].push_back(p.second);
        where[p.second.id].insert(to.begin(), to.end());
    }
    for (auto& p : r.pieces) {
        std::stable_sort(p.begin(), p.end(), order);
        if (!p.empty()) p.back().term = 0;
    }
    size_t contested = 0;
    std::map<Uid, int> per;
    for (auto& o : r.all) ++per[o.id];
    for (auto& w : where)
        if (w.second.size() > 1 && per[w.first] > 1) ++contested;
    if (contested) g.nontrivial();
    return r;
}
static Ops latest(const Ops& all) {
    std::map<Uid, Op> m;
    for (auto& o : all) {
        auto i = m.find(o.id);
        if (i == m.end() || i->second.ref < o.ref) m[o.id] = o;
    }
    Ops r;
    for (auto& p : m) r.push_back(p.second);
    return r;
}
static void expect(const Ops& got, const Ops& want, const char* what) {
    CHECK(same(got, want), what << ": " << diff(got, want) << "\ngot\n" << show(got) << "expected\n" << show(want));
}

FACET(merge, 100000, 1000000) {
    Recs r = gen_recs(g);
    vector<string> in;
    for (auto& p : r.pieces) in.push_back(lay(g, p));
    g.note("records:\n" + show(r.all) + show_in(in));
    Ops want = latest(r.all);
    expect(merged(any_how(g), ron::META_META_FORM, in, "a merge"), want, "a merge");
    shuffle(g, in);
    in.push_back(in[g.below(in.size())]);
    expect(merged(any_how(g), ron::META_META_FORM, in, "a merge in another order"), want, "a merge in another order");
    // with compaction
    ron::MetaRDT<TextFrame> meta;
    vector<TextFrame> frames;
    for (auto& s : in) frames.emplace_back(s);
    Cursors cs;
    for (auto& f : frames) {
        cs.emplace_back(f);
        if (!cs.back().Next()) cs.pop_back();
    }
    TextFrame::Builder b;
    Status ok = meta.MergeGC(b, cs);
    CHECK(ok, "a merge with compaction is refused: " << ok.str());
    expect(must_read(b.Release(), "a merge with compaction"), want, "a merge with compaction");
}

FACET(grouping, 60000, 600000) {
    Recs r = gen_recs(g);
    vector<string> in;
    for (auto& p : r.pieces) in.push_back(lay(g, p));
    g.note("records:\n" + show(r.all) + show_in(in));
    Ops want = latest(r.all);
    vector<string> all = in;
    size_t steps = 0;
    while (in.size() > 1 && steps++ < 10) {
        vector<string> group;
        size_t n = 1 + g.below(in.size());
        for (size_t i = 0; i < n; ++i) {
            size_t k = g.below(in.size());
            group.push_back(in[k]);
            if (!g.chance(1, 5)) in.erase(in.begin() + k);
        }
        string out;
        Status ok = merge(any_how(g), ron::META_META_FORM, group, out);
        CHECK(ok, "a partial merge is refused: " << ok.str());
        in.insert(in.begin() + g.below(in.size() + 1), out);
    }
    string out;
    Status ok = merge(any_how(g), ron::META_META_FORM, in, out);
    CHECK(ok, "the last merge is refused: " << ok.str());
    expect(must_read(TextFrame{out}, "a merge of merges"), want, "a merge of merges");
    vector<string> absorbed{out};
    for (auto& s : all)
        if (g.coin()) absorbed.insert(absorbed.begin() + g.below(absorbed.size() + 1), s);
    expect(merged(any_how(g), ron::META_META_FORM, absorbed, "a merge with the merged"), want,
           "a merge with the merged");
}
