// Causal trees: generation, the order they must merge to, visibility.
#ifndef TREELIB_HPP
#define TREELIB_HPP
#include <set>
#include "lib/rdtlib.hpp"

namespace model {

struct Tree {
    Ops ops;              // ops[0] is the root
    vector<int> parent;   // index of the op it refers to; -1 for the root
    vector<vector<int>> kids() const {
        vector<vector<int>> k(ops.size());
        for (size_t i = 1; i < ops.size(); ++i) k[parent[i]].push_back((int)i);
        for (auto& v : k)
            std::sort(v.begin(), v.end(), [&](int a, int b) { return ops[b].id < ops[a].id; });
        return k;
    }
};

/** depth first, siblings newest first; only the ops of `take` */
inline vector<int> dfs(const Tree& t, int from, const vector<bool>* take = nullptr) {
    auto kids = t.kids();
    vector<int> out, stack{from};
    while (!stack.empty()) {
        int n = stack.back();
        stack.pop_back();
        if (take && !(*take)[n]) continue;
        out.push_back(n);
        for (size_t i = kids[n].size(); i > 0; --i) stack.push_back(kids[n][i - 1]);
    }
    return out;
}
inline Ops pick_ops(const Tree& t, const vector<int>& idx) {
    Ops r;
    for (int i : idx) r.push_back(t.ops[i]);
    if (!r.empty()) r.back().term = 0;
    return r;
}

inline const Uid& RM() {
    static Uid u = uid("rm");
    return u;
}
inline const Uid& UN() {
    static Uid u = uid("un");
    return u;
}

/** `edits`: how many of 8 ops are deletes and undos */
inline Tree gen_tree(Gen& g, size_t max, unsigned avg, unsigned edits) {
    Tree t;
    std::set<Uid> taken;
    Op root;
    root.id = gen_event(g);
    if (root.id.value > PAY / 2) root.id.value = word_val("1gABC");
    root.ref = uid("rga");
    t.ops.push_back(root);
    t.parent.push_back(-1);
    taken.insert(root.id);
    int last = 0;
    static const char* rep[] = {"A", "B", "C", "2Zz~"};
    auto val = [&](bool run, const Op& p) -> vector<Val> {
        bool pe = p.vals.size() == 1 && p.vals[0].type == T_UUID;
        if (g.chance(edits, 8) || (pe && edits && g.chance(3, 5))) {
            Uid u = pe && g.chance(2, 3) ? p.vals[0].u : g.coin() ? RM() : UN();
            return {Val::U(u)};
        }
        switch (g.weighted({8, 1, 1, 1})) {
            case 0:
                return {Val::S(U32(1, gen_cp(g)))};
            case 1:
                return {};
            case 2:
                return {gen_val(g)};
            default: {  // near misses of an edit
                vector<Val> v{Val::U(g.coin() ? RM() : UN())};
                if (g.coin()) v[0].u.origin = g.one_of<uint64_t>({V_TIME, 1, V_DERIVED});
                else
                    v.push_back(gen_val(g));
                if (g.chance(1, 4)) v[0] = Val::S(g.coin() ? "rm" : "un");
                return v;
            }
        }
    };
    while (t.ops.size() < max && g.more(avg)) {
        int p = g.chance(3, 5) ? last : (int)g.below(t.ops.size());
        Op o;
        o.ref = t.ops[p].id;
        o.id = t.ops[p].id.inc(g.chance(2, 3) ? 1 : 1 + g.below(12));
        if (g.chance(1, 3)) o.id.origin = V_TIME | word_val(rep[g.below(4)]);
        if (g.chance(1, 8)) {  // the time of what it refers to, a greater yarn
            o.id = o.ref;
            o.id.origin = V_TIME | word_val(g.one_of<const char*>({"B", "C", "zz"}));
            if (!(o.ref < o.id)) o.id = o.ref.inc();
        }
        while (taken.count(o.id)) o.id = o.id.inc();
        if (g.chance(1, 30) && o.id.value < PAY / 2) o.id.value += g.below(1ULL << 40);
        if (taken.count(o.id)) continue;
        o.vals = val(p == last, t.ops[p]);
        taken.insert(o.id);
        last = (int)t.ops.size();
        t.ops.push_back(o);
        t.parent.push_back(p);
    }
    return t;
}

/** connected pieces: a cut of the tree in subtrees and chains, plus some more
 *  connected parts that overlap with those */
inline vector<vector<int>> gen_tree_pieces(Gen& g, const Tree& t, bool extras = true) {
    vector<vector<int>> pieces;
    unsigned cutp = g.below(9);
    vector<int> comp(t.ops.size(), 0), heads{0};
    for (size_t i = 1; i < t.ops.size(); ++i) {
        if (g.chance(cutp, 8)) {
            comp[i] = (int)heads.size();
            heads.push_back((int)i);
        } else
            comp[i] = comp[t.parent[i]];
    }
    for (size_t c = 0; c < heads.size(); ++c) {
        vector<bool> take(t.ops.size());
        for (size_t i = 0; i < t.ops.size(); ++i) take[i] = comp[i] == (int)c;
        pieces.push_back(dfs(t, heads[c], &take));
    }
    if (extras)
        while (g.chance(2, 5) && pieces.size() < 160) {
            int h = g.coin() ? 0 : (int)g.below(t.ops.size());
            unsigned keep = 1 + g.below(8);
            vector<bool> take(t.ops.size());
            take[h] = true;
            for (size_t i = h + 1; i < t.ops.size(); ++i) take[i] = take[t.parent[i]] && g.chance(keep, 8);
            pieces.push_back(dfs(t, h, &take));
        }
    return pieces;
}

/** large trees: long lines, wide levels, long runs of edits */
inline Tree gen_large_tree(Gen& g, size_t max) {
    size_t n = max > 65536 && g.coin() ? 65500 + g.below(3000) : gen_large_size(g, max);
    unsigned shape = (unsigned)g.below(5), edits = (unsigned)g.below(4), jump = (unsigned)g.below(4);
    Gen bulk = g.bulk();
    static const char* rep[] = {"A", "B", "C", "2Zz~"};
    Tree t;
    std::set<Uid> taken;
    Op root;
    root.id = gen_event(g);
    if (root.id.value > PAY / 2) root.id.value = word_val("1gABC");
    root.ref = uid("rga");
    t.ops.push_back(root);
    t.parent.push_back(-1);
    taken.insert(root.id);
    // a line of inserts, then of deletes that reach back, then of undos
    size_t ins = 0, rms = 0;
    if (shape == 4) {
        ins = 1 + g.below(n);
        rms = g.below(std::min(n - ins, ins + 3) + 1);
    }
    size_t fan = 1 + bulk.below(400);
    uint64_t top = root.id.value;
    while (t.ops.size() < n) {
        size_t k = t.ops.size(), last = k - 1, p = last;
        switch (shape) {
            case 0:  // a line
            case 4:
                break;
            case 1:  // all on the root
                p = 0;
                break;
            case 2:  // anywhere
                p = bulk.coin() ? last : bulk.below(k);
                break;
            default:  // lines on a line
                p = k % fan ? last : bulk.below(k);
        }
        if (shape != 1 && bulk.chance(jump, 400)) p = bulk.below(k);
        Op o;
        o.ref = t.ops[p].id;
        o.id = (shape == 1 ? t.ops[last].id : o.ref).inc(bulk.chance(1, 20) ? 1 + bulk.below(12) : 1);
        if (bulk.chance(jump, 40)) o.id.origin = V_TIME | word_val(rep[bulk.below(4)]);
        if (taken.count(o.id)) o.id.value = top + 1 + bulk.below(3);
        top = std::max(top, o.id.value);
        bool rm = shape == 4 ? k > ins && k <= ins + rms : bulk.chance(edits, 24);
        bool un = shape == 4 ? k > ins + rms : bulk.chance(edits, 60);
        if (rm)
            o.vals = {Val::U(RM())};
        else if (un)
            o.vals = {Val::U(UN())};
        else if (!bulk.chance(1, 16))
            o.vals = {Val::S(U32(1, U'a' + (char32_t)bulk.below(26)))};
        taken.insert(o.id);
        t.ops.push_back(o);
        t.parent.push_back((int)p);
    }
    return t;
}
/** a cut of a large tree in a few hundred pieces at most */
inline vector<vector<int>> gen_large_pieces(Gen& g, const Tree& t) {
    size_t n = t.ops.size(), want = g.chance(1, 4) ? 256 + g.below(200) : g.below(12);
    Gen bulk = g.bulk();
    std::set<size_t> heads{0};
    for (size_t i = 0; i < want && n > 1; ++i) heads.insert(1 + bulk.below(n - 1));
    vector<int> comp(n), cs(heads.begin(), heads.end());
    std::map<int, size_t> which;
    for (size_t i = 0; i < cs.size(); ++i) which[cs[i]] = i;
    for (size_t i = 0; i < n; ++i) comp[i] = which.count((int)i) ? (int)which[(int)i] : comp[t.parent[i]];
    vector<vector<int>> pieces(cs.size());
    for (int i : dfs(t, 0)) pieces[comp[i]].push_back(i);
    // (a component is connected, and its part of the whole order is its own order)
    if (g.coin()) {  // an overlap
        vector<bool> take(n);
        int h = (int)bulk.below(n);
        take[h] = true;
        for (size_t i = h + 1; i < n; ++i) take[i] = take[t.parent[i]] && !bulk.chance(1, 100);
        pieces.push_back(dfs(t, h, &take));
    }
    return pieces;
}

/** what an op is by its line from the root */
enum Kind { K_ROOT, K_INSERT, K_RM, K_UN, K_TRASH };
inline Kind plain_kind(const Op& o) {
    if (o.vals.size() == 1 && o.vals[0].type == T_UUID) {
        if (o.vals[0].u == RM()) return K_RM;
        if (o.vals[0].u == UN()) return K_UN;
    }
    return K_INSERT;
}
/** hidden ops of a tree, by op index: judged line by line */
inline vector<bool> hidden(const Tree& t, bool* undone = nullptr) {
    size_t n = t.ops.size();
    vector<Kind> kind(n);
    vector<size_t> depth(n), run(n);  // the ops above; the place in a run of its kind
    kind[0] = K_ROOT;
    run[0] = 1;
    for (size_t i = 1; i < n; ++i) {
        int p = t.parent[i];
        depth[i] = depth[p] + 1;
        // a line is inserts, then deletes, then undos of them; the rest is void
        Kind me = plain_kind(t.ops[i]), was = kind[p];
        kind[i] = K_TRASH;
        if (me == K_INSERT && (was == K_ROOT || was == K_INSERT)) kind[i] = K_INSERT;
        if (me == K_RM && (was == K_INSERT || was == K_RM)) kind[i] = K_RM;
        if (me == K_UN && (was == K_RM || was == K_UN)) kind[i] = K_UN;
        run[i] = kind[i] == was ? run[p] + 1 : 1;
    }
    auto target = [&](size_t i) -> int {
        // the k-th op of a run reaches k elements up from the run's parent
        size_t k = run[i];
        if (2 * k > depth[i]) return -1;
        int at = (int)i;
        for (size_t up = 2 * k - 1; up; --up) at = t.parent[at];
        Kind want = kind[i] == K_RM ? K_INSERT : K_RM;
        return kind[at] == want ? at : -1;
    };
    vector<bool> void_rm(n), kill(n), r(n);
    for (size_t i = 1; i < n; ++i)
        if (kind[i] == K_UN) {
            int at = target(i);
            if (at >= 0) {
                void_rm[at] = true;
                if (undone) *undone = true;
            }
        }
    for (size_t i = 1; i < n; ++i)
        if (kind[i] == K_RM && !void_rm[i]) {
            int at = target(i);
            if (at >= 0) kill[at] = true;
        }
    for (size_t i = 0; i < n; ++i) r[i] = kind[i] != K_INSERT || kill[i];
    return r;
}
inline string show_tree(const Tree& t) {
    string s;
    auto order = dfs(t, 0);
    vector<int> depth(t.ops.size());
    for (size_t i = 1; i < t.ops.size(); ++i) depth[i] = depth[t.parent[i]] + 1;
    size_t n = 0;
    for (int i : order) {
        if (n++ > 60) {
            s += "...\n";
            break;
        }
        s += string(std::min(depth[i], 40), ' ') + show(t.ops[i]) + "\n";
    }
    return s;
}
}  // namespace model
#endif
