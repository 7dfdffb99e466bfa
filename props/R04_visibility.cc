// FUZZ: yes
#include "lib/treelib.hpp"
#include "rdt/rga.hpp"
using namespace model;

PROPERTY("R04",
         "causal trees where runs of deletes and undos hang on inserts, on each other and out of pattern, in "
         "any layout, whole or merged from pieces; the map of tombstones against a judgement line by line; "
         "broken trees must be refused; non-trivial: some delete takes effect and some insert stays visible",
         "the ids of a tree's ops are distinct")

static string bits(const vector<bool>& v) {
    string s;
    for (bool b : v) s += b ? '1' : '0';
    return s;
}
static Tree any_tree(pbt::Gen& g) {
    unsigned e = 1 + g.below(5);
    Tree t = g.chance(1, 60) ? gen_tree(g, 400, 200, e) : gen_tree(g, 40, 10, e);
    return t;
}
static vector<bool> expected(pbt::Gen& g, const Tree& t) {
    bool undone = false;
    auto h = hidden(t, &undone);
    vector<bool> want;
    bool killed = false, seen = false;
    for (int i : dfs(t, 0)) {
        want.push_back(h[i]);
        if (i && plain_kind(t.ops[i]) == K_INSERT) (h[i] ? killed : seen) = true;
    }
    if (killed && seen) g.nontrivial();
    if (undone) g.cls("has an effective undo");
    return want;
}

FACET(scan, 150000, 1500000) {
    Tree t = any_tree(g);
    Ops ops = pick_ops(t, dfs(t, 0));
    string s = lay(g, ops);
    g.note("tree:\n" + show_tree(t) + "text [" + pbt::esc(s) + "]");
    auto want = expected(g, t);
    ron::Booleans got;
    if (g.chance(1, 4)) got = {true, false, true};  // an old map is dropped
    Status ok = ron::ScanRGA<TextFrame>(got, TextFrame{s});
    CHECK(ok, "a causal tree is refused: " << ok.str());
    CHECK(got.size() == want.size(), "the map has " << got.size() << " entries for " << want.size() << " ops");
    CHECK(got == want, "the map of tombstones is " << bits(got) << " expected " << bits(want));
}

FACET(merged, 40000, 400000) {
    Tree t = any_tree(g);
    g.note("tree:\n" + show_tree(t));
    auto want = expected(g, t);
    for (int replica = 0; replica < 2; ++replica) {
        auto pieces = gen_tree_pieces(g, t);
        vector<string> in;
        for (auto& p : pieces) in.push_back(lay(g, pick_ops(t, p)));
        shuffle(g, in);
        string out;
        Status ok = merge(any_how(g), ron::RGA_RDT_FORM, in, out);
        CHECK(ok, "a merge is refused: " << ok.str());
        ron::Booleans got;
        ok = ron::ScanRGA<TextFrame>(got, TextFrame{out});
        CHECK(ok, "a merged tree is refused: " << ok.str());
        CHECK(got == want, "the map of a merged tree is " << bits(got) << " expected " << bits(want));
    }
}

FACET(refusal, 60000, 600000) {
    Tree t = any_tree(g);
    Ops ops = pick_ops(t, dfs(t, 0));
    switch (g.below(5)) {
        case 0:  // the root is of another type, or not an event
            if (g.coin())
                ops[0].ref = uid(g.one_of<const char*>({"lww", "0", "mx", "rga-A", "1+A", "rgb"}));
            else
                ops[0].id = uid(g.one_of<const char*>({"abc", "1-A", "1%A"}));
            break;
        case 1: {  // an op at a wrong place
            if (ops.size() < 3) g.discard();
            size_t a = 1 + g.below(ops.size() - 1), b = 1 + g.below(ops.size() - 1);
            Op o = ops[a];
            ops.erase(ops.begin() + a);
            ops.insert(ops.begin() + b, o);
            break;
        }
        case 2: {  // an op is lost
            if (ops.size() < 2) g.discard();
            ops.erase(ops.begin() + 1 + g.below(ops.size() - 1));
            break;
        }
        case 3: {  // an op refers to something else
            if (ops.size() < 2) g.discard();
            Op& o = ops[1 + g.below(ops.size() - 1)];
            o.ref = g.coin() ? ops[g.below(ops.size())].id : gen_uid(g);
            break;
        }
        default: {  // an id of another kind
            if (ops.size() < 2) g.discard();
            Op& o = ops[1 + g.below(ops.size() - 1)];
            o.id.origin = (o.id.origin & ~(3ULL << 60)) | g.one_of<uint64_t>({0, V_DERIVED, 1ULL << 60});
        }
    }
    ops.back().term = 0;
    // is it a tree still?
    bool tree = ops[0].ref == uid("rga") && ops[0].id.is_time();
    vector<Uid> path{ops[0].id};
    for (size_t i = 1; i < ops.size() && tree; ++i) {
        if (ops[i].ref == ops[i].id) g.discard();
        if (ops[i].id < ops[i].ref || !ops[i].id.is_time() || !ops[i].ref.is_time()) {
            tree = false;
            break;
        }
        while (!path.empty() && path.back() != ops[i].ref) path.pop_back();
        if (path.empty())
            tree = false;
        else
            path.push_back(ops[i].id);
    }
    string s = lay(g, ops);
    g.note("ops:\n" + show(ops) + "text [" + pbt::esc(s) + "]");
    ron::Booleans got;
    Status ok = ron::ScanRGA<TextFrame>(got, TextFrame{s});
    if (tree) {
        g.cls("still a tree");
        CHECK(ok, "a causal tree is refused: " << ok.str());
        CHECK(got.size() == ops.size(), "the map has " << got.size() << " entries for " << ops.size() << " ops");
    } else {
        g.cls("no tree");
        g.nontrivial();
        CHECK(!ok, "what is no causal tree is accepted");
    }
}

// long lines, wide levels, long runs of edits
FACET(large, 800, 8000) {
    Tree t = gen_large_tree(g, g.chance(1, 8) ? 70000 : 6000);
    Ops ops = pick_ops(t, dfs(t, 0));
    pbt::Gen bulk = g.bulk();
    string s = ops.size() < 3000 && g.coin() ? lay(bulk, ops) : build(ops).data();
    auto want = expected(g, t);
    if (want.size() > 255) g.cls("more than 255 ops");
    if (want.size() > 65535) g.cls("more than 65535 ops");
    g.note(std::to_string(t.ops.size()) + " ops");
    ron::Booleans got;
    Status ok = ron::ScanRGA<TextFrame>(got, TextFrame{s});
    CHECK(ok, "a large causal tree is refused: " << ok.str());
    CHECK(got.size() == want.size(), "the map has " << got.size() << " entries for " << want.size() << " ops");
    for (size_t i = 0; i < want.size(); ++i)
        CHECK(got[i] == want[i], "op " << i << " of " << want.size() << " is taken for " << (got[i] ? "hidden" : "visible"));
}
