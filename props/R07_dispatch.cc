#include "lib/treelib.hpp"
using namespace model;

PROPERTY("R07",
         "inputs of any declared types (known with a rule, known without one, unknown, none), in agreement or "
         "not, with unreadable inputs among them, merged with the type given and with the type taken from the "
         "inputs; against the rule of every type; non-trivial: two readable inputs at least")

struct Rule {
    const char* name;
    FORM form;
    bool has;
};
static const Rule RULES[] = {
    {"zero", ron::ZERO_RAW_FORM, true},   {"yarn", ron::YARN_RAW_FORM, true},   {"log", ron::LOG_RAW_FORM, true},
    {"tail", ron::TAIL_RAW_FORM, false},  {"patch", ron::PATCH_RAW_FORM, false}, {"span", ron::SPAN_RAW_FORM, false},
    {"chain", ron::CHAIN_RAW_FORM, false}, {"graph", ron::GRAPH_RAW_FORM, false}, {"meta", ron::META_META_FORM, true},
    {"prev", ron::PREV_META_FORM, false}, {"obj", ron::OBJ_META_FORM, false},   {"sha3", ron::SHA3_META_FORM, false},
    {"vv", ron::VV_META_FORM, false},     {"lww", ron::LWW_RDT_FORM, true},     {"rga", ron::RGA_RDT_FORM, true},
    {"mx", ron::MX_RDT_FORM, true},       {"json", ron::JSON_MAP_FORM, false},  {"csv", ron::CSV_MAP_FORM, false},
    {"txt", ron::TXT_MAP_FORM, false},    {"max", ron::MAX_RDT_FORM, true}};

static string unreadable(pbt::Gen& g) {
    return g.one_of<const char*>({"", " ", "\n\n", ".", " .\n", "@", "@@", ":", "'", "'a", "@1+A :", "abc(", "@A$", "=",
                                  "(3)", "99999999999999999999", "@12345678901+A :lww;", "\xff\xfe", "*", "@~~~~ #",
                                  "\\", "'\\q';"});
}
/** puts unreadable inputs among the others */
static vector<string> noisy(pbt::Gen& g, vector<string> in) {
    while (g.chance(1, 2) && in.size() < 40) in.insert(in.begin() + g.below(in.size() + 1), unreadable(g));
    return in;
}
static void last_term(Ops& ops) {
    if (!ops.empty() && ops.back().term == 1) ops.back().term = 0;
}

/** a well-formed set of inputs for a type, and what it merges to */
struct Case {
    vector<Ops> in;
    Ops want;
    bool terms{false};
};
static Case gen_case(pbt::Gen& g, const Rule& rule, bool headers) {
    Case c;
    Uid form = uid(rule.name);
    string n = rule.name;
    auto vals = [](pbt::Gen& h) {
        vector<Val> v{h.coin() ? Val::U(uid(h.one_of<const char*>({"key", "x"}))) : Val::I(h.range(0, 5))};
        while (h.more(1) && v.size() < 4) v.push_back(gen_val(h));
        return v;
    };
    if (n == "rga") {
        Tree t = gen_tree(g, 16, 6, 2);
        for (auto& p : gen_tree_pieces(g, t)) c.in.push_back(pick_ops(t, p));
        c.want = pick_ops(t, dfs(t, 0));
        return c;
    }
    if (n == "log" || n == "zero" || !rule.has) {
        do {
            Ops o = gen_ops(g, 3, 8);
            for (size_t i = 0; i < o.size(); ++i)
                if (o[i].ref.is_name()) o[i].ref = gen_event(g);
            if (!c.in.empty() && g.chance(1, 4)) {
                // inputs that share ops: repeats, overlaps, one that goes on from another
                Ops x = g.pick(c.in);
                size_t b = g.coin() ? 0 : g.below(x.size()), e = g.coin() ? x.size() : b + 1 + g.below(x.size() - b);
                x = Ops(x.begin() + b, x.begin() + e);
                if (g.coin()) x.insert(x.end(), o.begin(), o.end());
                o = x;
            }
            if (headers && (c.in.empty() || g.coin())) o[0].ref = form;
            if (g.coin()) o.back().term = 1;
            c.in.push_back(o);
        } while (g.more(2) && c.in.size() < 8);
        if (n == "log") {
            for (auto& o : c.in) c.want.insert(c.want.end(), o.begin(), o.end());
            c.terms = true;
        } else {
            c.want = c.in.back();
            c.terms = true;
        }
        last_term(c.want);
        return c;
    }
    Ops pool = gen_pool(g, form, true, 20, 5, vals);
    for (auto& o : pool) o.term = 1;
    if (n == "meta") {
        for (size_t i = 1; i < pool.size(); ++i)
            if (pool[i].ref.is_name()) pool[i].ref = gen_event(g);
        pool[0].ref = form;
    }
    c.in = gen_pieces(g, pool, 5);
    c.in.erase(std::remove_if(c.in.begin(), c.in.end(), [](const Ops& o) { return o.empty(); }), c.in.end());
    if (n == "max") {
        c.want.push_back(pool[0]);
        // numbers below strings by type, ids below numbers: keep it to one kind
        const Op* best = nullptr;
        for (size_t i = 1; i < pool.size(); ++i) {
            int64_t v = (int64_t)g.below(50);
            for (auto& p : c.in)
                for (auto& o : p)
                    if (o.id == pool[i].id) o.vals = {Val::I(v)};
            pool[i].vals = {Val::I(v)};
            if (!best || best->vals[0].i <= v) best = &pool[i];
        }
        if (best) c.want.push_back(*best);
    } else
        c.want = pool;
    return c;
}

FACET(declared, 80000, 800000) {
    const Rule& rule = RULES[g.below(sizeof RULES / sizeof *RULES)];
    g.cls(rule.has ? "a type with a rule" : "a type without a rule");
    bool by_inputs = g.coin();
    Case c = gen_case(g, rule, by_inputs);
    vector<string> in;
    for (auto& o : c.in) in.push_back(lay(g, o));
    in = noisy(g, in);
    g.note(string(rule.name) + (by_inputs ? ", by the inputs" : ", declared") + "\n" + show_in(in));
    if (c.in.size() > 1) g.nontrivial();
    string out = "junk";
    Status ok = by_inputs ? merge_frames(in, out) : merge(any_how(g), rule.form, in, out);
    if (!rule.has) {
        CHECK(!ok, "a type without a rule (" << rule.name << ") is merged by some rule: [" << pbt::esc(out) << "]");
        return;
    }
    CHECK(ok, "a merge of type " << rule.name << " is refused: " << ok.str());
    Ops got = must_read(TextFrame{out}, "a merge");
    CHECK(same(got, c.want), "merged as " << rule.name << ": " << diff(got, c.want) << "\ngot\n"
                                          << show(got) << "expected\n" << show(c.want));
    if (c.terms)
        CHECK(terms_ok(got, c.want), "merged as " << rule.name << ", other chunk ends: got\n"
                                                  << show(got) << "expected\n" << show(c.want));
}

FACET(agreement, 80000, 800000) {
    // any first ops; the types they declare agree or not
    vector<string> in;
    vector<Ops> inputs;
    std::set<Uid> declared;
    unsigned variety = 1 + g.below(3);
    vector<Uid> names;
    for (unsigned i = 0; i < variety; ++i)
        names.push_back(uid(g.one_of<const char*>({"lww", "mx", "log", "zero", "yarn", "nosuch", "lwx", "rga", "tail"})));
    do {
        Op o;
        o.id = gen_event(g);
        switch (g.weighted({5, 3, 1})) {
            case 0:
                o.ref = g.pick(names);
                declared.insert(o.ref);
                break;
            case 1:
                o.ref = gen_event(g);
                if (g.chance(1, 3)) o.ref.origin = (o.ref.origin & PAY) | V_DERIVED;
                break;
            default:
                o.ref = Uid{};
        }
        o.vals.push_back(gen_val(g));
        Ops ops{o};
        ops[0].term = 0;
        inputs.push_back(ops);
        in.push_back(lay(g, ops));
    } while (g.more(3) && in.size() < 8);
    vector<string> noise = noisy(g, in);
    g.note(show_in(noise));
    if (in.size() > 1) g.nontrivial();
    string out;
    Status ok = merge_frames(noise, out);
    if (declared.size() > 1) {
        g.cls("disagreement");
        CHECK(!ok, "inputs of different types are merged: [" << pbt::esc(out) << "]");
        CHECK(ok == Status::BADARGS, "inputs of different types give " << ok.str());
        return;
    }
    string n = declared.empty() ? "zero" : text(*declared.begin());
    g.cls(declared.empty() ? "no type" : "agreement");
    if (n == "tail") {
        CHECK(!ok, "a type without a rule is merged");
        return;
    }
    if (n == "rga") return;  // the pieces may or may not be a tree: see R03
    CHECK(ok, "inputs that agree on " << n << " are refused: " << ok.str());
    Ops got = must_read(TextFrame{out}, "a merge");
    Ops want;
    if (n == "log")
        for (auto& o : inputs) want.push_back(o[0]);
    else if (n == "lww" || n == "mx" || n == "yarn") {
        std::map<Uid, vector<Op>> m;
        for (auto& o : inputs) m[o[0].id].push_back(o[0]);
        if (m.size() != inputs.size()) return;  // one id, two ops: no history
        for (auto& p : m) want.push_back(p.second[0]);
    } else
        want = inputs.back();
    CHECK(same(got, want), "merged as " << n << ": " << diff(got, want));
}

FACET(absent, 40000, 400000) {
    // nothing readable at all
    vector<string> in;
    while (g.more(2) && in.size() < 8) in.push_back(unreadable(g));
    g.note(show_in(in));
    g.nontrivial();
    const Rule& rule = RULES[g.below(sizeof RULES / sizeof *RULES)];
    string out = "junk";
    if (rule.has) {
        Status ok = merge(any_how(g), rule.form, in, out);
        CHECK(ok, "a merge of nothing as " << rule.name << " is refused: " << ok.str());
        CHECK(must_read(TextFrame{out}, "a merge of nothing").empty(), "a merge of nothing has ops: [" << pbt::esc(out) << "]");
    }
    Status ok = merge_frames(in, out);
    CHECK(ok, "a merge of no frames is refused: " << ok.str());
    CHECK(must_read(TextFrame{out}, "a merge of no frames").empty(), "a merge of no frames has ops: [" << pbt::esc(out) << "]");
}
