// FUZZ: yes
#include "lib/rdtlib.hpp"
using namespace model;

PROPERTY("R05",
         "updates of a max register with values of all types (close, equal and extreme ones, many spellings), "
         "in inputs with and without the header, in any order, grouping and repetition; the winner is that "
         "of an explicit order of values, updates without a value have no say; non-trivial: two ops with values at least, in two inputs",
         "negative zero is not told from zero and is not generated; distinct ops have distinct ids");

static vector<Val> max_vals(pbt::Gen& g, int bias) {
    vector<Val> v;
    if (g.chance(1, 12)) return v;
    Val x;
    switch (bias < 4 ? bias : (int)g.below(4)) {
        case 0:
            x = Val::I(g.coin() ? g.range(-5, 5) : gen_int(g));
            break;
        case 1: {
            x = Val::F(g.chance(1, 3) ? (double)g.range(-5, 5) : gen_float(g));
            if (x.f == 0) x.f = 0.0;
            break;
        }
        case 2:
            x = Val::U(g.coin() ? uid(g.one_of<const char*>({"a", "b", "A", "1+A", "1+B", "2+A", "0"})) : gen_uid(g));
            break;
        default:
            x = g.coin() ? Val::S(g.one_of<const char*>({"", "a", "b", "ab", "B", "a'", "aa"})) : Val::S(gen_str(g));
    }
    v.push_back(x);
    if (g.chance(1, 8)) v.push_back(gen_val(g));
    return v;
}
static int rank(const Val& v) {
    switch (v.type) {
        case T_UUID: return 0;
        case T_INT: return 1;
        case T_STR: return 2;
        default: return 3;
    }
}
/** is the value of a less than the one of b? */
static bool less_op(const Op& a, const Op& b) {
    const Val &x = a.vals[0], &y = b.vals[0];
    if (x.type != y.type) return rank(x) < rank(y);
    switch (x.type) {
        case T_INT:
            if (x.i != y.i) return x.i < y.i;
            break;
        case T_FLT:
            if (x.f != y.f) return x.f < y.f;
            break;
        case T_UUID:
            if (x.u != y.u) return x.u < y.u;
            break;
        case T_STR:
            if (x.s != y.s) return x.s < y.s;  // by code points
            break;
    }
    return a.id < b.id;
}
static Ops expected(const Ops& pool, bool header) {
    Ops r;
    const Op* best = nullptr;
    for (auto& o : pool) {
        if (o.ref == uid("max")) {
            if (header) r.push_back(o);
            continue;
        }
        if (o.vals.empty()) continue;
        if (!best || less_op(*best, o)) best = &o;
    }
    if (best) r.push_back(*best);
    return r;
}
struct Reg {
    Ops pool;
    vector<Ops> pieces;
};
static Reg gen_reg(pbt::Gen& g) {
    Reg r;
    int bias = g.below(7);
    r.pool = gen_pool(g, uid("max"), true, 20, 6, [&](pbt::Gen& h) { return max_vals(h, bias); });
    // updates without a value have no say, whatever their ids
    r.pieces = gen_pieces(g, r.pool, 5);
    for (auto& p : r.pieces)
        if (!p.empty() && !(p[0].id == r.pool[0].id) && g.chance(1, 3)) p.insert(p.begin(), r.pool[0]);
    // an update may come in any order
    for (auto& p : r.pieces)
        if (g.chance(1, 4) && p.size() > 2) {
            Ops tail(p.begin() + 1, p.end());
            shuffle(g, tail);
            std::copy(tail.begin(), tail.end(), p.begin() + 1);
            p.back().term = 0;
        }
    size_t with = 0;
    for (auto& p : r.pieces) with += p.size() > (p.empty() || p[0].ref != uid("max") ? 0 : 1);
    if (with > 1) g.nontrivial();
    return r;
}
static void expect(Ops got, const Ops& want, const char* what) {
    bool value = false;
    for (auto& o : want) value |= !o.vals.empty();
    if (!value) {  // an update without a value may stay or go if there is no value at all
        Ops header;
        for (auto& o : got)
            if (o.ref == uid("max") || !o.vals.empty()) header.push_back(o);
        got = header;
    }
    CHECK(same(got, want), what << " gives [" << show(got) << "] expected [" << show(want) << "]");
}

FACET(merge, 100000, 1000000) {
    Reg r = gen_reg(g);
    vector<string> in;
    for (auto& p : r.pieces) in.push_back(lay(g, p));
    shuffle(g, in);
    g.note("pool:\n" + show(r.pool) + show_in(in));
    Ops want = expected(r.pool, true);
    expect(merged(any_how(g), ron::MAX_RDT_FORM, in, "a merge"), want, "a merge");
    shuffle(g, in);
    in.push_back(in[g.below(in.size())]);
    expect(merged(any_how(g), ron::MAX_RDT_FORM, in, "a merge in another order"), want, "a merge in another order");
    if (g.chance(1, 3)) {
        string out;
        Status ok = merge_frames(in, out);
        CHECK(ok, "a merge of frames is refused: " << ok.str());
        expect(must_read(TextFrame{out}, "a merge of frames"), want, "a merge of frames");
    }
}

FACET(grouping, 60000, 600000) {
    Reg r = gen_reg(g);
    vector<string> in;
    for (auto& p : r.pieces) in.push_back(lay(g, p));
    g.note("pool:\n" + show(r.pool) + show_in(in));
    Ops want = expected(r.pool, true);
    size_t steps = 0;
    vector<string> all = in;
    while (in.size() > 1 && steps++ < 10) {
        vector<string> group;
        size_t n = 1 + g.below(in.size());
        for (size_t i = 0; i < n; ++i) {
            size_t k = g.below(in.size());
            group.push_back(in[k]);
            if (!g.chance(1, 5)) in.erase(in.begin() + k);
        }
        string out;
        Status ok = merge(any_how(g), ron::MAX_RDT_FORM, group, out);
        CHECK(ok, "a partial merge is refused: " << ok.str());
        in.insert(in.begin() + g.below(in.size() + 1), out);
    }
    string out;
    Status ok = merge(any_how(g), ron::MAX_RDT_FORM, in, out);
    CHECK(ok, "the last merge is refused: " << ok.str());
    expect(must_read(TextFrame{out}, "a merge of merges"), want, "a merge of merges");
    vector<string> absorbed{out};
    for (auto& s : all)
        if (g.coin()) absorbed.insert(absorbed.begin() + g.below(absorbed.size() + 1), s);
    expect(merged(any_how(g), ron::MAX_RDT_FORM, absorbed, "a merge with the merged"), want, "a merge with the merged");
}

FACET(no_header, 30000, 300000) {
    Reg r = gen_reg(g);
    vector<string> in;
    for (auto& p : r.pieces) {
        Ops q;
        for (auto& o : p)
            if (o.ref != uid("max")) q.push_back(o);
        in.push_back(lay(g, q));
    }
    g.note("pool:\n" + show(r.pool) + show_in(in));
    Ops want = expected(r.pool, false);
    expect(merged(any_how(g), ron::MAX_RDT_FORM, in, "a merge of updates"), want, "a merge of updates");
}

// long histories, hundreds of pieces
FACET(large, 500, 6000) {
    size_t n = gen_large_size(g, g.chance(1, 10) ? 30000 : 3000);
    int bias = g.below(7);
    size_t npieces = g.coin() ? 5 : 400;
    pbt::Gen bulk = g.bulk();
    Ops pool = gen_pool(bulk, uid("max"), true, n, 1000000, [&](pbt::Gen& h) { return max_vals(h, bias); });
    vector<Ops> ps = gen_pieces(bulk, pool, npieces);
    vector<string> in;
    for (auto& p : ps) in.push_back(p.size() < 1000 ? lay(bulk, p) : build(p).data());
    shuffle(bulk, in);
    g.note(std::to_string(pool.size()) + " ops in " + std::to_string(in.size()) + " pieces");
    if (in.size() > 255) g.cls("more than 255 pieces");
    g.nontrivial();
    expect(merged(any_how(g), ron::MAX_RDT_FORM, in, "a large merge"), expected(pool, true), "a large merge");
}
