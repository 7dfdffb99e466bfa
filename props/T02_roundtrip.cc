// FUZZ: yes
#include "lib/bridge.hpp"
#include "lib/refread.hpp"
using namespace model;

PROPERTY("T02",
         "random op sequences (ids of every kind, 0..12 values of every type, chunk terms; "
         "sequential ids and refs are common) built with the frame builder and read back; "
         "non-trivial: at least two ops or a value that needs quoting or escaping")

static void classify(pbt::Gen& g, const Ops& ops) {
    bool str = false, flt = false, uid = false, dflt = false, esc = false;
    for (size_t i = 0; i < ops.size(); ++i) {
        if (i && ops[i].id == ops[i - 1].id.inc()) dflt = true;
        for (auto& v : ops[i].vals) {
            if (v.type == T_STR) {
                str = true;
                for (auto c : v.s)
                    if (c < 32 || c == '\'' || c == '\\' || c > 127) esc = true;
            }
            if (v.type == T_FLT) flt = true;
            if (v.type == T_UUID) uid = true;
        }
    }
    if (str) g.cls("has a string");
    if (esc) g.cls("has an escaped or multibyte string");
    if (flt) g.cls("has a float");
    if (uid) g.cls("has a uuid value");
    if (dflt) g.cls("has a default id");
    if (ops.size() > 8) g.cls("more than 8 ops");
    if (ops.size() > 1 || esc || uid) g.nontrivial();
}

FACET(build_read, 700000, 6000000) {
    Ops ops = gen_ops(g);
    g.note(show(ops));
    classify(g, ops);
    ron::TextFrame f = build(ops);
    g.note("text: " + pbt::esc(f.data()));
    Ops got = must_read(f, "a built frame");
    CHECK(same(got, ops), "a built frame reads back differently: " << diff(got, ops) << "; text ["
                                                                   << pbt::esc(f.data()) << "]");
    CHECK(terms_ok(got, ops), "a built frame has other chunk ends: got\n"
                                  << show(got) << "expected\n" << show(ops));
}

// one builder for frame after frame, released into whatever is at hand
FACET(reused_builder, 120000, 900000) {
    ron::TextFrame::Builder b;
    ron::String text;
    ron::TextFrame frame;
    if (g.coin()) text = gen_text(g);
    if (g.coin()) frame = build(gen_ops(g, 3, 8));
    size_t n = 2 + g.below(3);
    Uid last{};
    for (size_t i = 0; i < n; ++i) {
        Ops ops = g.chance(1, 8) ? Ops{} : gen_ops(g, 3, 8);
        if (!ops.empty() && g.coin()) ops[0].id = last.inc();
        if (!ops.empty() && g.coin()) ops[0].ref = last;
        if (!ops.empty()) last = ops.back().id;
        g.note("frame " + std::to_string(i) + "\n" + show(ops));
        for (auto& o : ops) {
            b.AppendOp(nominal(o));
            if (o.term != 1) b.EndChunk((ron::TERM)o.term);
        }
        ron::TextFrame f;
        switch (g.below(4)) {
            case 0:
                g.cls("released into a string");
                b.Release(text);
                f = ron::TextFrame{text};
                break;
            case 1:
                g.cls("released into a frame");
                b.Release(frame);
                f = frame;
                break;
            case 2:
                g.cls("swapped with a string");
                std::swap(b, text);
                f = ron::TextFrame{text};
                break;
            default:
                f = b.Release();
                break;
        }
        CHECK(b.empty() && b.data().empty(), "a builder is not empty after its frame was taken");
        CHECK(f.empty() == ops.empty(), "a frame of " << ops.size() << " ops is " << (f.empty() ? "" : "not ") << "empty");
        Ops got = must_read(f, "a built frame");
        CHECK(same(got, ops), "frame " << i << " of a builder reads back differently: " << diff(got, ops) << "; text ["
                                       << pbt::esc(f.data()) << "]");
        CHECK(terms_ok(got, ops), "frame " << i << " of a builder has other chunk ends: got\n"
                                           << show(got) << "expected\n" << show(ops));
    }
    g.nontrivial();
}

// many ops, ops of many values, long strings
FACET(large, 2500, 25000) {
    Ops ops = gen_large(g);
    size_t vals = 0, chars = 0;
    for (auto& o : ops) {
        vals = std::max(vals, o.vals.size());
        for (auto& v : o.vals)
            if (v.type == T_STR) chars = std::max(chars, v.s.size());
    }
    if (ops.size() > 255) g.cls("more than 255 ops");
    if (vals > 255) g.cls("more than 255 values");
    if (vals > 65535) g.cls("more than 65535 values");
    if (chars > 65535) g.cls("a string of more than 65535 code points");
    g.note(std::to_string(ops.size()) + " ops, up to " + std::to_string(vals) + " values, strings up to " + std::to_string(chars));
    ron::TextFrame f = build(ops);
    Ops got = must_read(f, "a large frame", 200000);
    CHECK(same(got, ops), "a large frame reads back differently: " << diff(got, ops));
    CHECK(terms_ok(got, ops), "a large frame has other chunk ends");
    g.nontrivial();
}
