#include <cmath>
#include <set>
#include "lib/rdtlib.hpp"
using namespace model;
using LWW = ron::LastWriteWinsRDT<TextFrame>;
using Obj = ron::LWWObject<TextFrame>;

PROPERTY("R02",
         "an object's ops (field names of every type, values of every type, several values, versions by "
         "several writers) cut into a state and updates delivered in any order and layout; reads against a "
         "map of the newest op per field; compaction against the same map, with idempotence and commutation "
         "with merging; non-trivial: some field is set by two ops or more",
         "the ids of the ops of a history are distinct")

static vector<Val> field_vals(pbt::Gen& g) {
    vector<Val> v;
    switch (g.weighted({6, 3, 1, 1})) {
        case 0:
            v.push_back(Val::U(uid(g.one_of<const char*>({"a", "b", "name", "a+A", "0", "1", "1-A", "~~~~~~~~~~"}))));
            break;
        case 1:
            v.push_back(Val::S(g.one_of<const char*>({"", "a", "b", "ab", "ba", "it's", "\n", "name", "1", "key"})));
            break;
        case 2:
            v.push_back(Val::I(g.range(-1, 2)));
            break;
        default:
            v.push_back(Val::F(g.one_of<double>({0.0, 1.0, 2.0, 1.5, -1.0})));
    }
    if (g.chance(1, 12)) return v;  // names a field, sets nothing
    do v.push_back(gen_val(g));
    while (g.chance(1, 8) && v.size() < 5);
    return v;
}
static Ops gen_object(pbt::Gen& g, bool root = true) { return gen_pool(g, uid("lww"), root, 30, 8, field_vals); }

static string name_of(const Val& v) { return show(v); }
static std::map<string, Op> newest(const Ops& ops, bool& contested) {
    std::map<string, Op> m;
    contested = false;
    for (auto& o : by_id(ops)) {
        if (o.vals.size() < 2) continue;
        string n = name_of(o.vals[0]);
        if (m.count(n)) contested = true;
        m[n] = o;
    }
    return m;
}
static Ops compacted(const Ops& ops) {
    bool c;
    auto m = newest(ops, c);
    Ops r;
    for (auto& o : by_id(ops)) {
        if (o.vals.size() < 2) {
            if (r.empty() && o.ref == uid("lww")) r.push_back(o);
            continue;
        }
        if (m[name_of(o.vals[0])].id == o.id) r.push_back(o);
    }
    return r;
}

static void check_reads(Obj& obj, const std::map<string, Op>& m, const char* what) {
    static const char* names[] = {"a", "b", "name", "a+A", "0", "1", "1-A", "~~~~~~~~~~", "nosuch"};
    for (auto n : names) {
        Uid k = uid(n);
        auto i = m.find(name_of(Val::U(k)));
        const Val* v = i == m.end() ? nullptr : &i->second.vals[1];
        ron::Uuid key = R(k);
        // a string
        string s = obj.string(key);
        string ws = v && v->type == T_STR ? utf8(v->s) : "";
        CHECK(s == ws, what << ": string field " << n << " reads [" << pbt::esc(s) << "] expected [" << pbt::esc(ws) << "]");
        // an id
        Uid u = M(obj.uuid(key));
        Uid wu = v && v->type == T_UUID ? v->u : Uid{};
        CHECK(u == wu, what << ": id field " << n << " reads " << text(u) << " expected " << text(wu));
        // a float
        double f = obj.number(key);
        if (v && v->type == T_FLT)
            CHECK(memcmp(&f, &v->f, 8) == 0, what << ": float field " << n << " reads " << f << " expected " << v->f);
        else
            CHECK(std::isnan(f), what << ": float field " << n << " reads " << f << " though there is no such float");
        // an integer, by its atom
        ron::Atom a = obj.atom(key, ron::INT);
        if (v && v->type == T_INT)
            CHECK(a.type() == ron::INT && a.value.as_integer == v->i,
                  what << ": integer field " << n << " reads " << a.value.as_integer << " expected " << v->i);
        else
            CHECK(M(ron::Uuid{a}) == Uid{}, what << ": integer field " << n << " reads as something, expected nothing");
    }
}

FACET(read, 80000, 800000) {
    Ops pool = gen_object(g, g.chance(3, 4));
    vector<Ops> ps = gen_pieces(g, pool, 5);
    if (ps.size() > 12) ps.resize(12);
    // an update may be in any order in itself
    vector<string> in;
    Ops seen;
    for (auto& p : ps) {
        Ops q = p;
        if (g.chance(1, 4)) shuffle(g, q);
        if (!q.empty()) q.back().term = 0;
        in.push_back(lay(g, q));
    }
    g.note("pool:\n" + show(pool) + show_in(in));
    vector<TextFrame> frames;
    for (auto& s : in) frames.emplace_back(s);
    Obj obj{frames[0]};
    for (auto& o : ps[0]) seen.push_back(o);
    bool contested;
    check_reads(obj, newest(seen, contested), "the state");
    for (size_t i = 1; i < frames.size(); ++i) {
        if (g.chance(1, 5)) {  // op by op
            Cursor c{frames[i]};
            while (c.Next()) obj.Update(c);
        } else
            obj.Update(frames[i]);
        for (auto& o : ps[i]) seen.push_back(o);
        check_reads(obj, newest(seen, contested), "after an update");
    }
    newest(seen, contested);
    if (contested) g.nontrivial();
}

static Ops gc(const string& s, const char* what) {
    LWW lww;
    TextFrame::Builder b;
    Status ok = lww.GC(b, TextFrame{s});
    CHECK(ok, what << " is refused: " << ok.str());
    return must_read(b.Release(), what);
}

FACET(compaction, 80000, 800000) {
    Ops pool = gen_object(g, g.chance(5, 6));
    string s = lay(g, pool);
    g.note("object:\n" + show(pool) + "text [" + pbt::esc(s) + "]");
    bool contested;
    auto m = newest(pool, contested);
    if (contested) g.nontrivial();
    Ops want = compacted(pool);
    Ops got = gc(s, "compaction");
    CHECK(same(got, want), "a compacted object: " << diff(got, want));
    string s2 = lay(g, got);
    Ops twice = gc(s2, "the second compaction");
    CHECK(same(twice, want), "compaction twice: " << diff(twice, want));
    // the reads are the same
    TextFrame before{s}, after{s2};
    Obj a{before}, b{after};
    check_reads(a, m, "before compaction");
    check_reads(b, m, "after compaction");
}

FACET(merge_gc, 50000, 500000) {
    Ops pool = gen_object(g, true);
    vector<Ops> ps = gen_pieces(g, pool, 5);
    vector<string> in;
    bool contested;
    newest(pool, contested);
    if (contested) g.nontrivial();
    for (auto& p : ps) in.push_back(lay(g, p));
    g.note("pool:\n" + show(pool) + show_in(in));
    Ops want = compacted(pool);
    // merge and compact at once
    LWW lww;
    TextFrame::Builder b;
    vector<TextFrame> frames;
    for (auto& s : in) frames.emplace_back(s);
    Cursors cs;
    for (auto& f : frames) {
        cs.emplace_back(f);
        if (!cs.back().Next()) cs.pop_back();
    }
    Status ok = lww.MergeGC(b, cs);
    CHECK(ok, "merge with compaction is refused: " << ok.str());
    Ops got = must_read(b.Release(), "a merge with compaction");
    CHECK(same(got, want), "a merge with compaction: " << diff(got, want));
    // compact some of the inputs first
    vector<string> pre;
    for (auto& s : in) {
        if (g.coin()) {
            TextFrame::Builder p;
            CHECK(lww.GC(p, TextFrame{s}), "compaction of an input is refused");
            pre.push_back(p.Release().data());
        } else
            pre.push_back(s);
    }
    string out;
    ok = merge(any_how(g), ron::LWW_RDT_FORM, pre, out);
    CHECK(ok, "a merge is refused: " << ok.str());
    Ops both = gc(out, "compaction of a merge");
    CHECK(same(both, want), "compaction of compacted inputs merged: " << diff(both, want));
}

FACET(write, 40000, 400000) {
    // an object is changed through its own interface; changes chain up
    Ops pool = gen_object(g, true);
    string s = lay(g, pool);
    TextFrame state{s};
    Obj obj{state};
    Ops all = pool;
    Uid last = by_id(all).back().id;
    std::vector<TextFrame> kept;
    kept.reserve(40);
    vector<string> texts{s};
    g.note("object:\n" + show(pool));
    do {
        Uid id = last.inc(1 + g.below(5));
        Uid key = uid(g.one_of<const char*>({"a", "b", "name"}));
        Val v = gen_val(g);
        Op o;
        o.id = id;
        o.ref = last;
        o.vals = {Val::U(key), v};
        g.note("write " + show(o));
        switch (v.type) {
            case T_INT:
                kept.push_back(obj.Write(R(id), R(key), (ron::Integer)v.i));
                break;
            case T_FLT:
                kept.push_back(obj.Write(R(id), R(key), (ron::Float)v.f));
                break;
            case T_UUID:
                kept.push_back(obj.Write(R(id), R(key), R(v.u)));
                break;
            case T_STR:
                kept.push_back(obj.Write(R(id), R(key), utf8(v.s)));
                break;
        }
        Ops got = must_read(kept.back(), "a change");
        CHECK(same(got, Ops{o}), "a change written: " << diff(got, Ops{o}));
        if (g.coin()) obj.Update(kept.back());
        texts.push_back(kept.back().data());
        all.push_back(o);
        last = id;
    } while (g.more(3) && kept.size() < 30);
    g.nontrivial();
    Ops m = merged(any_how(g), ron::LWW_RDT_FORM, texts, "the merge of the changes");
    CHECK(same(m, by_id(all)), "the object after its changes: " << diff(m, by_id(all)));
    bool c;
    for (auto& f : kept) obj.Update(f);
    check_reads(obj, newest(all, c), "after the changes");
}

EXAMPLE(valueless_field) {
    // an op that names a field and gives no value sets nothing for a reader,
    // but compaction takes it for the newest op of the field
    TextFrame f{"@1+A :lww; @2+A :1+A key 'text'; @3+A :2+A key;"};
    LWW lww;
    TextFrame::Builder b;
    lww.GC(b, f);
    TextFrame after = b.Release();
    Obj x{f}, y{after};
    CHECK(x.string(ron::Uuid{"key"}) == y.string(ron::Uuid{"key"}),
          "compaction keeps an op without a value as the newest of its field, and the value it reads as is lost");
}

// objects of many fields and long histories
FACET(large, 400, 5000) {
    size_t n = gen_large_size(g, g.chance(1, 10) ? 30000 : 3000);
    size_t fields = 1 + g.below(n);
    pbt::Gen bulk = g.bulk();
    Ops pool = gen_pool(bulk, uid("lww"), true, n, 1000000, [&](pbt::Gen& h) {
        if (h.chance(1, 20)) return field_vals(h);
        vector<Val> v;
        size_t k = h.below(fields);
        v.push_back(h.chance(2, 3) ? Val::U(Uid{(uint64_t)(k + 10) << 30, 0}) : Val::S(std::to_string(k).c_str()));
        v.push_back(gen_val(h));
        return v;
    });
    string s = build(pool).data();
    g.note(std::to_string(pool.size()) + " ops");
    bool contested;
    auto m = newest(pool, contested);
    if (contested) g.nontrivial();
    if (m.size() > 255) g.cls("more than 255 fields");
    Ops want = compacted(pool);
    Ops got = gc(s, "compaction of a large object");
    CHECK(same(got, want), "a compacted large object: " << diff(got, want));
    TextFrame before{s}, after = build(got);
    Obj a{before}, b{after};
    check_reads(a, m, "a large object");
    check_reads(b, m, "a compacted large object");
    for (size_t i = 0; i < 60; ++i) {
        Uid k{(uint64_t)(bulk.below(fields) + 10) << 30, 0};
        auto at = m.find(name_of(Val::U(k)));
        const Val* v = at == m.end() ? nullptr : &at->second.vals[1];
        string ws = v && v->type == T_STR ? utf8(v->s) : "";
        CHECK(a.string(R(k)) == ws && b.string(R(k)) == ws, "field " << text(k) << " of a large object reads [" << pbt::esc(a.string(R(k)))
              << "] and [" << pbt::esc(b.string(R(k))) << "] expected [" << pbt::esc(ws) << "]");
        Uid wu = v && v->type == T_UUID ? v->u : Uid{};
        CHECK(M(a.uuid(R(k))) == wu && M(b.uuid(R(k))) == wu, "id field " << text(k) << " of a large object reads otherwise");
    }
    // the same in pieces
    vector<Ops> ps = gen_pieces(bulk, pool, 5);
    vector<string> in;
    for (auto& p : ps) in.push_back(build(p).data());
    LWW lww;
    TextFrame::Builder out;
    vector<TextFrame> frames;
    for (auto& x : in) frames.emplace_back(x);
    Cursors cs;
    for (auto& f : frames) {
        cs.emplace_back(f);
        if (!cs.back().Next()) cs.pop_back();
    }
    CHECK(lww.MergeGC(out, cs), "merge with compaction is refused");
    got = must_read(out.Release(), "a merge with compaction");
    CHECK(same(got, want), "a large merge with compaction: " << diff(got, want));
}
