// FUZZ: yes
#include "lib/treelib.hpp"
using namespace model;

PROPERTY("R03",
         "causal trees by several writers (chains, bushy and deep ones, with deletes and undos), cut into "
         "connected pieces in any way, with overlaps, in any layout, order, grouping and repetition; the "
         "order is the depth-first one with siblings newest first; some cases lack a piece and must be a "
         "causality error; non-trivial: two pieces at least and some op has two children",
         "the id of an op is greater than the one of its parent; deliveries to a replica respect causality")

static bool branchy(const Tree& t) {
    for (auto& k : t.kids())
        if (k.size() > 1) return true;
    return false;
}
static Tree any_tree(pbt::Gen& g) {
    Tree t = g.chance(1, 40) ? gen_tree(g, 400, 200, g.below(4)) : gen_tree(g, 60, 10, g.below(5));
    return t;
}
static void expect(const Ops& got, const Ops& want, const char* what) {
    CHECK(same(got, want), what << " has another order: " << diff(got, want) << "\nexpected order:\n" << show(want));
}

FACET(merge, 80000, 800000) {
    Tree t = any_tree(g);
    auto pieces = gen_tree_pieces(g, t);
    vector<string> in;
    for (auto& p : pieces) in.push_back(lay(g, pick_ops(t, p)));
    shuffle(g, in);
    if (g.chance(1, 3)) in.push_back(in[g.below(in.size())]);
    g.note("tree:\n" + show_tree(t) + show_in(in));
    if (pieces.size() > 1 && branchy(t)) g.nontrivial();
    Ops want = pick_ops(t, dfs(t, 0));
    expect(merged(any_how(g), ron::RGA_RDT_FORM, in, "a merge"), want, "a merge");
    if (g.chance(1, 3)) {
        string out;
        Status ok = merge_frames(in, out);
        CHECK(ok, "a merge of frames is refused: " << ok.str());
        expect(must_read(TextFrame{out}, "a merge of frames"), want, "a merge of frames");
    }
}

FACET(replicas, 30000, 300000) {
    // two replicas get the pieces in orders and groups of their own
    Tree t = any_tree(g);
    auto pieces = gen_tree_pieces(g, t);
    g.note("tree:\n" + show_tree(t));
    if (pieces.size() > 1 && branchy(t)) g.nontrivial();
    Ops want = pick_ops(t, dfs(t, 0));
    for (int replica = 0; replica < 2; ++replica) {
        vector<bool> have(t.ops.size());
        vector<bool> done(pieces.size());
        string state;
        size_t left = pieces.size(), rounds = 0;
        while (left) {
            CHECK(++rounds < 3000, "the harness makes no progress");
            vector<string> batch;
            if (!state.empty()) batch.push_back(state);
            size_t n = 1 + g.below(4);
            for (size_t k = 0; k < n; ++k) {
                size_t from = g.below(pieces.size());
                for (size_t j = 0; j < pieces.size(); ++j) {
                    size_t i = (from + j) % pieces.size();
                    auto& p = pieces[i];
                    bool ready = p[0] == 0 || have[t.parent[p[0]]];
                    if (!ready || (done[i] && !g.chance(1, 6))) continue;
                    if (!done[i]) --left;
                    done[i] = true;
                    batch.push_back(lay(g, pick_ops(t, p)));
                    for (int o : p) have[o] = true;
                    break;
                }
            }
            shuffle(g, batch);
            Status ok = merge(any_how(g), ron::RGA_RDT_FORM, batch, state);
            CHECK(ok, "a merge of what is there is refused: " << ok.str() << "\n" << show_in(batch));
            Ops got = must_read(TextFrame{state}, "a replica's state");
            vector<bool> h = have;
            expect(got, pick_ops(t, dfs(t, 0, &h)), "a replica's state");
            if (g.chance(1, 4)) state = lay(g, got);
        }
        expect(must_read(TextFrame{state}, "a replica's final state"), want, "a replica's final state");
    }
}

FACET(causality, 60000, 600000) {
    Tree t = any_tree(g);
    auto pieces = gen_tree_pieces(g, t, g.coin());
    // lose a piece or two
    size_t lose = 1 + g.below(2);
    for (size_t i = 0; i < lose && pieces.size() > 1; ++i) pieces.erase(pieces.begin() + g.below(pieces.size()));
    vector<string> in;
    for (auto& p : pieces) in.push_back(lay(g, pick_ops(t, p)));
    g.note("tree:\n" + show_tree(t) + show_in(in));
    // what can be attached: the piece of the least id, then all that hang on it
    vector<bool> have(t.ops.size()), on(pieces.size());
    Uid least = t.ops[pieces[0][0]].id;
    for (auto& p : pieces)
        if (t.ops[p[0]].id < least) least = t.ops[p[0]].id;
    size_t left = pieces.size();
    int base = 0;
    for (bool more = true; more;) {
        more = false;
        for (size_t i = 0; i < pieces.size(); ++i) {
            if (on[i]) continue;
            int h = pieces[i][0];
            if (t.ops[h].id == least) base = h;
            if (t.ops[h].id == least || (t.parent[h] >= 0 && have[t.parent[h]])) {
                on[i] = more = true;
                --left;
                for (int o : pieces[i]) have[o] = true;
            }
        }
    }
    string out;
    Status ok = merge(any_how(g), ron::RGA_RDT_FORM, in, out);
    if (left) {
        g.cls("causality break");
        g.nontrivial();
        CHECK(!ok, left << " of " << pieces.size() << " pieces have nothing to attach to, and the merge says OK");
        CHECK(ok == Status::CAUSEBREAK, "a causality break is reported as " << ok.str());
    } else {
        g.cls("complete");
        CHECK(ok, "a merge of attachable pieces is refused: " << ok.str());
        expect(must_read(TextFrame{out}, "a partial tree"), pick_ops(t, dfs(t, base, &have)), "a partial tree");
    }
}

// long lines, wide levels, hundreds of pieces
FACET(large, 300, 4000) {
    Tree t = gen_large_tree(g, g.chance(1, 6) ? 70000 : 6000);
    auto pieces = gen_large_pieces(g, t);
    vector<string> in;
    size_t longest = 0;
    for (auto& p : pieces) {
        longest = std::max(longest, p.size());
        pbt::Gen bulk = g.bulk();
        in.push_back(p.size() < 2000 ? lay(bulk, pick_ops(t, p)) : build(pick_ops(t, p)).data());
    }
    shuffle(g, in);
    if (in.size() > 255) g.cls("more than 255 pieces");
    if (longest > 255) g.cls("a piece of more than 255 ops");
    if (longest > 65535) g.cls("a piece of more than 65535 ops");
    g.note(std::to_string(t.ops.size()) + " ops in " + std::to_string(in.size()) + " pieces");
    if (pieces.size() > 1) g.nontrivial();
    Ops want = pick_ops(t, dfs(t, 0));
    Ops got = merged(any_how(g), ron::RGA_RDT_FORM, in, "a large merge");
    CHECK(same(got, want), "a large merge has another order: " << diff(got, want));
}
