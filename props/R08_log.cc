// FUZZ: yes
#include "lib/treelib.hpp"
using namespace model;

PROPERTY("R08",
         "logs of objects (arrays, last-write-wins, matrices, registers) in any causal order of the ops, with "
         "runs compressed in any way: chains against the runs of the model, the state against the merge of the "
         "same ops and against the model, the state as of every kind of op against the state of the cut log; "
         "non-trivial: the log has three chains or more, or the cut is inside a span",
         "an op comes in the log after the op it refers to");

struct Log {
    Tree t;           // by the reference; ops[0] is the header
    string form;
    vector<int> seq;  // the order of the log
};
static Log gen_log(pbt::Gen& g) {
    Log l;
    l.t = g.chance(1, 50) ? gen_tree(g, 300, 150, 1) : gen_tree(g, 40, 10, 1 + g.below(3));
    l.form = g.one_of<const char*>({"rga", "lww", "mx", "max"});
    l.t.ops[0].ref = uid(l.form);
    if (l.form == "max")
        for (size_t i = 1; i < l.t.ops.size(); ++i) l.t.ops[i].vals = {Val::I(g.range(-3, 12))};
    auto kids = l.t.kids();
    vector<int> ready{0};
    int last = -1;
    unsigned stick = g.below(9);
    while (!ready.empty()) {
        size_t at = g.below(ready.size());
        if (g.chance(stick, 8))
            for (size_t i = 0; i < ready.size(); ++i)
                if (l.t.parent[ready[i]] == last) at = i;
        int n = ready[at];
        ready.erase(ready.begin() + at);
        l.seq.push_back(n);
        for (int k : kids[n]) ready.push_back(k);
        last = n;
    }
    return l;
}
static Ops ops_of(const Log& l, size_t n) {
    Ops r;
    for (size_t i = 0; i < n; ++i) r.push_back(l.t.ops[l.seq[i]]);
    return r;
}
static Ops state_of(const Log& l, size_t n) {
    Ops r;
    if (l.form == "rga") {
        vector<bool> take(l.t.ops.size());
        for (size_t i = 0; i < n; ++i) take[l.seq[i]] = true;
        for (int i : dfs(l.t, 0, &take)) r.push_back(l.t.ops[i]);
        return r;
    }
    r = ops_of(l, n);
    if (l.form == "max") {
        Ops m{r[0]};
        const Op* best = nullptr;
        for (size_t i = 1; i < r.size(); ++i)
            if (!best || best->vals[0].i < r[i].vals[0].i ||
                (best->vals[0].i == r[i].vals[0].i && best->id < r[i].id))
                best = &r[i];
        if (best) m.push_back(*best);
        return m;
    }
    return by_id(r);
}
/** the text of a log; chunks end anywhere */
static string log_text(pbt::Gen& g, Ops ops) {
    for (auto& o : ops) o.term = g.chance(1, 10) ? g.one_of<int>({0, 2, 3}) : 1;
    ops.back().term = 0;
    return lay(g, ops);
}
static vector<Ops> runs(const Ops& ops) {
    vector<Ops> r;
    for (size_t i = 0; i < ops.size(); ++i) {
        if (!i || ops[i].ref != ops[i - 1].id) r.emplace_back();
        r.back().push_back(ops[i]);
    }
    return r;
}

static void check_chains(const TextFrame& f, const Ops& ops) {
    Cursors chains;
    Status ok = ron::SplitLogIntoChains<TextFrame>(chains, f);
    CHECK(ok, "a split of a log is refused: " << ok.str());
    auto want = runs(ops);
    CHECK(chains.size() == want.size(), "a log of " << want.size() << " chains is split in " << chains.size());
    for (size_t i = 0; i < chains.size(); ++i) {
        Cursor c = chains[i];
        Ops got;
        CHECK(c.valid(), "chain " << i << " has no op");
        do {
            got.push_back(read_op(c));
            CHECK(got.size() <= ops.size(), "chain " << i << " does not end");
        } while (c.Next());
        CHECK(same(got, want[i]), "chain " << i << ": " << diff(got, want[i]));
    }
    Frames re;
    ok = ron::Reserialize<TextFrame>(re, chains);
    CHECK(ok, "chains can not be written: " << ok.str());
    CHECK(re.size() == want.size(), "some chains were not written");
    for (size_t i = 0; i < re.size(); ++i) {
        Ops got = must_read(re[i], "a written chain");
        CHECK(same(got, want[i]), "written chain " << i << ": " << diff(got, want[i]));
    }
}

FACET(chains, 60000, 600000) {
    Log l = gen_log(g);
    Ops ops = ops_of(l, l.seq.size());
    string s = log_text(g, ops);
    g.note("log:\n" + show(ops) + "text [" + pbt::esc(s) + "]");
    if (runs(ops).size() > 2) g.nontrivial();
    check_chains(TextFrame{s}, ops);
}

FACET(any_log, 30000, 300000) {
    // a log of whatever ops
    Ops ops = gen_ops(g, 8, 40);
    string s = lay(g, ops);
    g.note("log:\n" + show(ops) + "text [" + pbt::esc(s) + "]");
    if (runs(ops).size() > 2) g.nontrivial();
    check_chains(TextFrame{s}, ops);
}

FACET(state, 60000, 600000) {
    Log l = gen_log(g);
    Ops ops = ops_of(l, l.seq.size());
    string s = log_text(g, ops);
    g.note(l.form + " log:\n" + show(ops) + "text [" + pbt::esc(s) + "]");
    if (runs(ops).size() > 2) g.nontrivial();
    Ops want = state_of(l, l.seq.size());
    TextFrame ret;
    Status ok = ron::ObjectLogToState<TextFrame>(ret, TextFrame{s});
    CHECK(ok, "the state of a log is refused: " << ok.str());
    Ops got = must_read(ret, "the state of a log");
    CHECK(same(got, want), "the state of a log: " << diff(got, want));
    // the merge of the same chains gives the same
    vector<string> in;
    for (auto& r : runs(ops)) {
        Ops x = r;
        x.back().term = 0;
        in.push_back(lay(g, x));
    }
    shuffle(g, in);
    string out;
    ok = merge(any_how(g), ron::uuid2form(R(uid(l.form))), in, out);
    CHECK(ok, "a merge of the chains is refused: " << ok.str());
    Ops m = must_read(TextFrame{out}, "a merge of the chains");
    CHECK(same(m, got), "the merge of the chains is not the state of the log: " << diff(m, got));
}

FACET(version, 60000, 600000) {
    Log l = gen_log(g);
    Ops ops = ops_of(l, l.seq.size());
    string s = log_text(g, ops);
    size_t n = 1 + g.below(ops.size());
    g.note(l.form + " log:\n" + show(ops) + "text [" + pbt::esc(s) + "]\nas of op " + std::to_string(n - 1));
    if (runs(ops).size() > 2 || (n < ops.size() && s.find('(') != string::npos && spannable(ops[n - 1], ops[n])))
        g.nontrivial();
    TextFrame ret;
    Status ok = ron::ObjectLogToState<TextFrame>(ret, TextFrame{s}, R(ops[n - 1].id));
    CHECK(ok, "the state of a log as of an op is refused: " << ok.str());
    Ops got = must_read(ret, "the state as of an op");
    Ops want = state_of(l, n);
    CHECK(same(got, want), "the state as of op " << n - 1 << ": " << diff(got, want) << "\ngot\n"
                                                 << show(got) << "expected\n" << show(want));
}

FACET(empty, 2000, 20000) {
    string s = g.one_of<const char*>({"", " ", "\n", " \t\r\n "});
    g.note("[" + pbt::esc(s) + "]");
    TextFrame ret;
    Uid cut = g.coin() ? gen_event(g) : Uid{};
    Status ok = g.coin() ? ron::ObjectLogToState<TextFrame>(ret, TextFrame{s})
                         : ron::ObjectLogToState<TextFrame>(ret, TextFrame{s}, R(cut));
    CHECK(ok, "the state of an empty log is refused: " << ok.str());
    CHECK(must_read(ret, "the state of an empty log").empty(), "the state of an empty log has ops");
    Cursors chains;
    ok = ron::SplitLogIntoChains<TextFrame>(chains, TextFrame{s});
    CHECK(ok && chains.empty(), "an empty log has chains");
    g.nontrivial();
}

// long logs
FACET(large, 300, 4000) {
    size_t n = gen_large_size(g, g.chance(1, 10) ? 20000 : 2500);
    pbt::Gen bulk = g.bulk();
    Log l;
    l.form = g.one_of<const char*>({"rga", "lww", "mx"});
    l.t = gen_large_tree(bulk, n);
    l.t.ops[0].ref = uid(l.form);
    for (size_t i = 0; i < l.t.ops.size(); ++i) l.seq.push_back((int)i);
    // (some are put off, past what does not hang on them)
    for (size_t i = 1; i + 1 < l.seq.size(); ++i)
        if (bulk.chance(1, 30) && l.t.parent[l.seq[i + 1]] != l.seq[i]) std::swap(l.seq[i], l.seq[i + 1]);
    Ops ops = ops_of(l, l.seq.size());
    string s = ops.size() < 1500 ? log_text(bulk, ops) : build(ops).data();
    size_t cut = g.coin() ? ops.size() : 1 + bulk.below(ops.size());
    g.note(l.form + " log of " + std::to_string(ops.size()) + " ops as of op " + std::to_string(cut - 1));
    auto r = runs(ops);
    if (r.size() > 2) g.nontrivial();
    if (r.size() > 255) g.cls("more than 255 chains");
    for (auto& x : r)
        if (x.size() > 255) {
            g.cls("a chain of more than 255 ops");
            break;
        }
    Cursors chains;
    Status ok = ron::SplitLogIntoChains<TextFrame>(chains, TextFrame{s});
    CHECK(ok, "a split of a large log is refused: " << ok.str());
    CHECK(chains.size() == r.size(), "a log of " << r.size() << " chains is split in " << chains.size());
    TextFrame ret;
    ok = cut == ops.size() ? ron::ObjectLogToState<TextFrame>(ret, TextFrame{s})
                           : ron::ObjectLogToState<TextFrame>(ret, TextFrame{s}, R(ops[cut - 1].id));
    CHECK(ok, "the state of a large log is refused: " << ok.str());
    Ops got = must_read(ret, "the state of a large log"), want = state_of(l, cut);
    CHECK(same(got, want), "the state of a large log as of op " << cut - 1 << ": " << diff(got, want));
}
