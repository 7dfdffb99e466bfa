// FUZZ: yes
#include "lib/bridge.hpp"
#include "lib/refread.hpp"
using namespace model;
using ron::TextFrame;

PROPERTY("T04",
         "frames in random layouts copied by every way there is (raw op copy, AppendAll, AppendFrame, "
         "Reserialize, parsed copy, amended copy under new ids) twice; ops kept, second copy identical "
         "in bytes to the first; non-trivial: two ops, or a value that can be spelled in many ways",
         "strings with the zero code point (forbidden as a value) are not generated")

enum Way { RAW, ALL, FRAME, PARSED, AMENDED, RESERIALIZE, WAYS };
static const char* way_name[] = {"raw copy", "AppendAll", "AppendFrame", "parsed copy", "amended copy", "Reserialize"};

static bool keeps_terms(Way w) { return w == ALL || w == FRAME || w == PARSED || w == AMENDED; }

static TextFrame copy(Way w, const TextFrame& f, pbt::Gen& g) {
    TextFrame::Builder b;
    auto c = f.cursor();
    switch (w) {
        case RAW:
            while (c.Next()) b.AppendOp(c);
            break;
        case ALL:
            if (c.Next()) ron::AppendAll<TextFrame>(b, c);
            break;
        case FRAME:
            ron::AppendFrame(b, f);
            break;
        case PARSED:
        case AMENDED:
            while (c.Next()) {
                ron::Op o = ron::Op::Amend(c.id(), c.ref(), c);
                if (w == AMENDED) {  // a copy of a parsed copy
                    ron::Op p = ron::Op::Amend(c.id(), c.ref(), o);
                    b.AppendOp(p);
                } else
                    b.AppendOp(o);
                if (c.term() != ron::REDUCED) b.EndChunk(c.term());
            }
            break;
        case RESERIALIZE: {
            std::vector<TextFrame::Cursor> in;
            if (!c.Next()) return TextFrame{};
            in.push_back(c);
            std::vector<TextFrame> out;
            ron::Status ok = ron::Reserialize<TextFrame>(out, in);
            CHECK((bool)ok, "Reserialize refuses a well-formed frame: " << ok.str());
            CHECK(out.size() == 1, "Reserialize gives " << out.size() << " frames for one");
            return out[0];
        }
        default:
            break;
    }
    return b.Release();
}

static string gen_source(pbt::Gen& g, const Ops& ops) {
    if (g.chance(1, 4)) return build(ops).data();
    Layout l{&g};
    return write_doc(l, ops, true);
}

FACET(copies, 300000, 3000000) {
    Ops ops = gen_ops(g, 4, 24);
    string s = gen_source(g, ops);
    Way w = (Way)g.below(WAYS);
    g.cls(way_name[w]);
    g.note(show(ops));
    g.note(string(way_name[w]) + " of: " + pbt::esc(s));
    TextFrame f{s};
    TextFrame a = copy(w, f, g);
    g.note("copy: " + pbt::esc(a.data()));
    Ops got = must_read(a, "a copy");
    CHECK(same(got, ops), "a " << way_name[w] << " differs: " << diff(got, ops) << "; source [" << pbt::esc(s)
                               << "] copy [" << pbt::esc(a.data()) << "]");
    if (keeps_terms(w)) {
        Ops src = must_read(f, "a frame");
        for (size_t i = 0; i < src.size(); ++i)
            CHECK(terms_ok(got, ops), "a " << way_name[w] << " has other chunk ends");
    }
    TextFrame b = copy(w, a, g);
    CHECK(b.data() == a.data(), "a copy of a copy (" << way_name[w] << ") drifts: [" << pbt::esc(a.data())
                                                     << "] then [" << pbt::esc(b.data()) << "]");
    // intermediaries of all kinds
    Way w2 = (Way)g.below(WAYS);
    Ops got2 = must_read(copy(w2, a, g), "a copy of a copy");
    CHECK(same(got2, ops), "a " << way_name[w2] << " of a " << way_name[w] << " differs: " << diff(got2, ops));
    size_t rich = 0;
    for (auto& o : ops) rich += o.vals.size();
    if (ops.size() > 1 || rich > 1) g.nontrivial();
}

FACET(amend_ids, 200000, 2000000) {
    // a value moved under a new id and reference, kept in full
    Ops ops = gen_ops(g, 3, 12), want;
    string s = gen_source(g, ops);
    g.note(show(ops) + "text: " + pbt::esc(s));
    TextFrame f{s};
    TextFrame::Builder b;
    auto c = f.cursor();
    Uid prev{};
    while (c.Next()) {
        Op o = ops[want.size()];
        o.id = g.coin() ? prev.inc() : gen_event(g);
        o.ref = g.coin() ? prev : gen_event(g);
        prev = o.id;
        want.push_back(o);
        b.AppendOp(ron::Op::Amend(R(o.id), R(o.ref), c));
        if (c.term() != ron::REDUCED) b.EndChunk(c.term());
    }
    TextFrame a = b.Release();
    g.note("amended: " + pbt::esc(a.data()));
    Ops got = must_read(a, "an amended frame");
    CHECK(same(got, want), "an amended copy differs: " << diff(got, want) << "; source [" << pbt::esc(s) << "] copy ["
                                                       << pbt::esc(a.data()) << "]");
    if (want.size() > 1) g.nontrivial();
}

FACET(merged_sources, 150000, 1500000) {
    // ops of two frames interleaved in one builder
    Ops x = gen_ops(g, 3, 10), y = gen_ops(g, 3, 10), want;
    if (g.coin() && !x.empty()) {
        // y goes on from the middle of x
        Op p = x[g.below(x.size())];
        y[0].id = p.id.inc();
        y[0].ref = p.id;
        if (g.coin()) y[0].vals = p.vals;
    }
    TextFrame fx{gen_source(g, x)}, fy{gen_source(g, y)};
    g.note("x:\n" + show(x) + "y:\n" + show(y));
    auto cx = fx.cursor(), cy = fy.cursor();
    bool ox = (bool)cx.Next(), oy = (bool)cy.Next();
    size_t ix = 0, iy = 0;
    TextFrame::Builder b;
    bool parsed = g.chance(1, 3);
    while (ox || oy) {
        bool fromx = ox && (!oy || g.coin());
        auto& c = fromx ? cx : cy;
        want.push_back(fromx ? x[ix++] : y[iy++]);
        if (parsed)
            b.AppendOp(ron::Op::Amend(c.id(), c.ref(), c));
        else
            b.AppendOp(c);
        want.back().term = 1;
        if (g.chance(1, 6)) {
            want.back().term = g.one_of<int>({0, 2, 3});
            b.EndChunk((ron::TERM)want.back().term);
        }
        (fromx ? ox : oy) = (bool)c.Next();
    }
    CHECK(want.size() == x.size() + y.size(), "a frame of " << x.size() + y.size() << " ops yields " << want.size());
    TextFrame r = b.Release();
    g.note("result: " + pbt::esc(r.data()));
    Ops got = must_read(r, "an interleaved copy");
    CHECK(same(got, want), "an interleaved copy differs: " << diff(got, want) << "; copy [" << pbt::esc(r.data()) << "]");
    if (want.back().term == 1) want.back().term = 0;
    CHECK(terms_ok(got, want), "an interleaved copy has other chunk ends; got\n" << show(got) << "expected\n" << show(want));
    g.nontrivial();
}

FACET(reserialize_many, 60000, 600000) {
    vector<Ops> fr;
    std::vector<TextFrame> frames;
    while (g.more(2) || fr.empty()) {
        fr.push_back(gen_ops(g, 3, 8));
        frames.emplace_back(gen_source(g, fr.back()));
        g.note("frame:\n" + show(fr.back()) + pbt::esc(frames.back().data()));
    }
    auto cs = ron::cursors(frames);
    CHECK(cs.size() == fr.size(), "cursors() gives another number of cursors");
    for (auto& c : cs) c.Next();
    std::vector<TextFrame> out;
    ron::Status ok = ron::Reserialize<TextFrame>(out, cs);
    CHECK((bool)ok, "Reserialize refuses well-formed frames: " << ok.str());
    CHECK(out.size() == fr.size(), "Reserialize gives " << out.size() << " frames for " << fr.size());
    for (size_t i = 0; i < out.size(); ++i) {
        Ops got = must_read(out[i], "a reserialized frame");
        CHECK(same(got, fr[i]), "Reserialize changes frame " << i << ": " << diff(got, fr[i]));
    }
    // a frame that breaks is reported, not cut
    if (g.coin()) {
        size_t k = g.below(frames.size());
        string s = frames[k].data() + "@";
        std::vector<TextFrame> bad = frames;
        bad[k] = TextFrame{s};
        auto bc = ron::cursors(bad);
        for (auto& c : bc) c.Next();
        std::vector<TextFrame> o2;
        CHECK(!ron::Reserialize<TextFrame>(o2, bc), "Reserialize takes a malformed frame for a shorter one: [" << pbt::esc(s) << "]");
    }
    if (fr.size() > 1) g.nontrivial();
}

// many ops, ops of many values, long strings
FACET(large, 1200, 12000) {
    Ops ops = gen_large(g, 20000);
    pbt::Gen bulk = g.bulk();
    string s = gen_source(bulk, ops);
    Way w = (Way)g.below(WAYS);
    g.cls(way_name[w]);
    g.note(std::to_string(ops.size()) + " ops; " + way_name[w] + " of " + std::to_string(s.size()) + " bytes");
    TextFrame f{s};
    TextFrame a = copy(w, f, g);
    Ops got = must_read(a, "a copy", 200000);
    CHECK(same(got, ops), "a " << way_name[w] << " of a large frame differs: " << diff(got, ops));
    if (keeps_terms(w)) CHECK(terms_ok(got, ops), "a " << way_name[w] << " of a large frame has other chunk ends");
    TextFrame b = copy(w, a, g);
    CHECK(b.data() == a.data(), "a copy of a copy (" << way_name[w] << ") of a large frame drifts");
    g.nontrivial();
}
