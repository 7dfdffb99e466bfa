#include "lib/bridge.hpp"
#include "lib/refread.hpp"
using namespace model;
using ron::Status;
using ron::TextFrame;

PROPERTY("T09",
         "pairs of frames: the same ops in two layouts with comments put anywhere, or with one edit (id, "
         "reference, a value, its type, the number of values, an op dropped, added or swapped); equal "
         "exactly when the ops are, and the kind of the first difference; non-trivial: a pair that differs "
         "after the first op, or an equal one with different texts",
         "negative zero is not told from zero and is not generated; ops' terms are not compared")

static Ops gen_plain(pbt::Gen& g, size_t max = 14) {
    Ops ops = gen_ops(g, 4, max);
    for (auto& o : ops) {
        if (o.id == uid("~")) o.id = uid("1+A");
        for (auto& v : o.vals)
            if (v.type == T_FLT && v.f == 0) v.f = 0.0;
    }
    return ops;
}
/** the same ops with comments among them */
static Ops commented(pbt::Gen& g, const Ops& ops, bool& any) {
    Ops r;
    auto maybe = [&] {
        while (g.chance(1, 5)) {
            Op c;
            c.id = uid("~");
            c.ref = g.coin() ? Uid{} : gen_event(g);
            if (g.coin()) c.vals.push_back(gen_val(g));
            c.term = g.one_of<int>({0, 1, 2, 3});
            r.push_back(c);
            any = true;
        }
    };
    for (auto& o : ops) {
        maybe();
        r.push_back(o);
    }
    maybe();
    return r;
}
static string lay(pbt::Gen& g, const Ops& ops) {
    if (g.chance(1, 4)) return build(ops).data();
    Layout l{&g};
    string s = write_doc(l, ops, true);
    if (g.chance(1, 6)) s += ".\n";
    return s;
}
static bool val_same(const Val& a, const Val& b) {
    if (a.type == T_FLT && b.type == T_FLT) return a.f == b.f;
    return a == b;
}
/** the expected kind: 0 equal, else by the first difference */
static Status kind(const Ops& a, const Ops& b) {
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
        if (a[i].id != b[i].id) return Status::BADID;
        if (a[i].ref != b[i].ref) return Status::BADREF;
        if (a[i].vals.size() != b[i].vals.size()) return Status::BADVALUE;
        for (size_t k = 0; k < a[i].vals.size(); ++k)
            if (!val_same(a[i].vals[k], b[i].vals[k])) return Status::BADVALUE;
    }
    return a.size() == b.size() ? Status::OK : Status::BADFRAME;
}
static void check_pair(pbt::Gen& g, const Ops& a, const Ops& b) {
    bool comments = false;
    string x = lay(g, commented(g, a, comments)), y = lay(g, commented(g, b, comments));
    g.note("a:\n" + show(a) + pbt::esc(x) + "\nb:\n" + show(b) + pbt::esc(y));
    if (comments) g.cls("has comments");
    Status want = kind(a, b);
    TextFrame fx{x}, fy{y};
    Status got = ron::CompareFrames(fx, fy), rev = ron::CompareFrames(fy, fx);
    if (want) {
        g.cls("equal");
        CHECK((bool)got && (bool)rev, "frames of the same ops differ: " << got.str() << " / " << rev.str());
        if (x != y) g.nontrivial();
    } else {
        CHECK(!got && !rev, "different frames compare as equal; expected " << want.str());
        if (!a.empty() && !b.empty()) {
            CHECK(got == want, "a difference is reported as " << got.str() << " instead of " << want.str());
            CHECK(rev == want, "a difference is reported in reverse as " << rev.str() << " instead of " << want.str());
        }
        if (a.size() > 1 && b.size() > 1 && a[0].same(b[0])) g.nontrivial();
        g.cls(want == Status::BADID ? "BADID" : want == Status::BADREF ? "BADREF" : want == Status::BADVALUE ? "BADVALUE" : "BADFRAME");
    }
    // with cursors that stand on an op
    if (!a.empty() && !b.empty()) {
        auto c = fx.cursor(), d = fy.cursor();
        c.Next();
        d.Next();
        Status st = ron::CompareWithCursors(c, d);
        CHECK(st == want, "CompareWithCursors gives " << st.str() << " instead of " << want.str());
    }
    CHECK((bool)ron::CompareFrames(fx, fx), "a frame differs from itself");
}

FACET(same_ops, 120000, 1200000) {
    Ops ops = gen_plain(g);
    check_pair(g, ops, ops);
}

static Val near_val(pbt::Gen& g, const Val& v) {
    Val w = v;
    switch (v.type) {
        case T_INT:
            if (g.chance(1, 4)) return Val::F((double)v.i == 0 ? 0.0 : (double)v.i);  // the type differs
            if (g.chance(1, 5)) return Val::U(Uid{(uint64_t)v.i & PAY, 0});
            w.i = g.coin() ? (int64_t)((uint64_t)v.i + 1) : (int64_t)((uint64_t)v.i ^ (1ULL << g.below(64)));
            break;
        case T_FLT:
            w.f = std::nextafter(v.f, g.coin() ? 1e308 : -1e308);
            if (!std::isfinite(w.f)) w.f = 1;
            if (w.f == 0) w.f = 0.0;
            break;
        case T_UUID:
            if (g.chance(1, 4)) {
                U32 s;
                for (char ch : text(v.u)) s += (char32_t)ch;
                return Val::S(s);
            }
            if (g.coin())
                w.u.value ^= 1ULL << g.below(60);
            else
                w.u.origin ^= 1ULL << g.below(62);
            break;
        case T_STR:
            if (v.s.empty() || g.chance(1, 4))
                w.s += gen_cp(g);
            else if (g.coin())
                w.s.pop_back();
            else {
                size_t at = g.below(w.s.size());
                w.s[at] = gen_cp(g);
            }
    }
    return w;
}

FACET(one_edit, 250000, 2500000) {
    Ops a = gen_plain(g), b = a;
    size_t at = g.below(b.size());
    Op& o = b[at];
    switch (g.below(9)) {
        case 0:
            (g.coin() ? o.id.value : o.id.origin) ^= 1ULL << g.below(60);
            break;
        case 1:
            (g.coin() ? o.ref.value : o.ref.origin) ^= 1ULL << g.below(60);
            break;
        case 2:
        case 3:
            if (!o.vals.empty()) {
                Val& v = o.vals[g.below(o.vals.size())];
                v = near_val(g, v);
            }
            break;
        case 4:
            if (!o.vals.empty()) o.vals.erase(o.vals.begin() + g.below(o.vals.size()));
            break;
        case 5:
            o.vals.insert(o.vals.begin() + g.below(o.vals.size() + 1), gen_val(g));
            break;
        case 6: {
            int t = b.back().term;
            b.erase(b.begin() + at);
            if (!b.empty() && b.back().term == 1) b.back().term = t == 1 ? 0 : t;
            break;
        }
        case 7: {
            Op n = o;
            n.id = gen_event(g);
            b.insert(b.begin() + g.below(b.size() + 1), n);
            if (b.back().term == 1) b.back().term = 0;
            break;
        }
        default:
            if (b.size() > 1) {
                size_t k = g.below(b.size() - 1);
                std::swap(b[k], b[k + 1]);
                if (b.back().term == 1) b.back().term = 0;
            }
    }
    for (auto& x : b) {
        if (x.id == uid("~")) x.id = uid("2+A");
        for (auto& v : x.vals)
            if (v.type == T_FLT && v.f == 0) v.f = 0.0;
    }
    check_pair(g, a, b);
}

FACET(prefixes, 60000, 600000) {
    // one frame continues the other; also empty ones and comments only
    Ops a = gen_plain(g), b = a;
    if (g.chance(1, 10)) a.clear();
    b.resize(g.below(a.size() + 1));
    if (!b.empty() && b.back().term == 1) b.back().term = 0;
    if (g.coin()) std::swap(a, b);
    check_pair(g, a, b);
    g.nontrivial();
}

// many ops, ops of many values, long strings; one edit anywhere
FACET(large, 600, 6000) {
    Ops a = gen_large(g, 8000);
    pbt::Gen bulk = g.bulk();
    auto fix = [](Ops& ops) {
        for (auto& o : ops) {
            if (o.id == uid("~")) o.id = uid("1+A");
            for (auto& v : o.vals)
                if (v.type == T_FLT && v.f == 0) v.f = 0.0;
        }
    };
    fix(a);
    Ops b = a;
    size_t many = 0;
    for (size_t i = 0; i < b.size(); ++i)
        if (b[i].vals.size() > b[many].vals.size()) many = i;
    size_t at = g.coin() ? many : bulk.below(b.size());
    Op& o = b[at];
    switch (g.below(5)) {
        case 0:
            break;
        case 1:
            if (!o.vals.empty()) {
                Val& v = o.vals[g.coin() ? o.vals.size() - 1 : bulk.below(o.vals.size())];
                v = near_val(bulk, v);
            }
            break;
        case 2:
            if (!o.vals.empty()) o.vals.pop_back();
            break;
        case 3:
            o.ref.value ^= 1ULL << bulk.below(60);
            break;
        default:
            b.pop_back();
            if (!b.empty() && b.back().term == 1) b.back().term = 0;
    }
    fix(b);
    TextFrame fx, fy;
    if (g.coin()) {
        fx = TextFrame{lay(bulk, a)};
        fy = TextFrame{lay(bulk, b)};
    } else {
        fx = build(a);
        fy = build(b);
    }
    Status want = kind(a, b);
    g.note(std::to_string(a.size()) + " ops, " + std::to_string(a[many < a.size() ? many : 0].vals.size()) + " values; expected " + want.str());
    Status got = ron::CompareFrames(fx, fy), rev = ron::CompareFrames(fy, fx);
    if (want) {
        g.cls("equal");
        CHECK((bool)got && (bool)rev, "large frames of the same ops differ: " << got.str() << " / " << rev.str());
    } else {
        CHECK(!got && !rev, "different large frames compare as equal; expected " << want.str());
        if (!b.empty()) CHECK(got == want && rev == want, "a difference is reported as " << got.str() << " / " << rev.str() << " instead of " << want.str());
    }
    g.nontrivial();
}
