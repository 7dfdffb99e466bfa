// FUZZ: yes
#include "lib/bridge.hpp"
#include "lib/refread.hpp"
using namespace model;

PROPERTY("T10",
         "streams of 0..6 frames (random ops; by one builder, by several, or in random layouts), each "
         "ended with the frame terminator and joined with random whitespace, then split and read; "
         "non-trivial: at least two frames with ops")

static vector<Ops> gen_frames(pbt::Gen& g) {
    vector<Ops> fr;
    while (g.more(3) && fr.size() < 6) {
        if (g.chance(1, 12)) {
            fr.push_back({});
            continue;
        }
        Ops ops = gen_ops(g, 3, 12);
        if (!fr.empty() && !fr.back().empty() && g.chance(2, 3)) {
            // the frame goes on where the previous one ended
            Op prev = fr.back().back();
            ops[0].id = prev.id.inc();
            if (g.chance(2, 3)) ops[0].ref = prev.id;
            if (g.coin()) ops[0].vals = prev.vals;
        }
        fr.push_back(ops);
    }
    return fr;
}
static void note_frames(pbt::Gen& g, const vector<Ops>& fr) {
    size_t n = 0;
    for (auto& f : fr) {
        g.note("frame:\n" + show(f));
        if (!f.empty()) ++n;
    }
    if (n > 1) g.nontrivial();
    if (n > 3) g.cls("four frames or more");
    if (n != fr.size()) g.cls("has an empty frame");
}
static void check_split(const string& stream, const vector<Ops>& fr) {
    ron::TextFrame f{stream};
    std::vector<ron::TextFrame> parts;
    CHECK((bool)f.Split(parts), "a stream is not split");
    if (fr.empty()) {
        for (auto& p : parts) CHECK(must_read(p, "a piece of an empty stream").empty(), "an op out of nothing");
        return;
    }
    CHECK(parts.size() == fr.size(), "a stream of " << fr.size() << " frames is split into " << parts.size() << "; ["
                                                    << pbt::esc(stream) << "]");
    for (size_t i = 0; i < fr.size(); ++i) {
        Ops got = must_read(parts[i], "a frame of a stream");
        CHECK(same(got, fr[i]), "frame " << i << " of a stream reads differently: " << diff(got, fr[i]) << "; ["
                                         << pbt::esc(stream) << "]");
        CHECK(terms_ok(got, fr[i]), "frame " << i << " of a stream has other chunk ends");
    }
    // reading the stream itself stops at the end of the first frame
    End e;
    Ops first = read_frame(f, e);
    CHECK(same(first, fr[0]), "reading runs past the end of a frame: " << diff(first, fr[0]));
}
static string gap(pbt::Gen& g) {
    string s;
    while (g.more(1) && s.size() < 6) s += " \n\t\r"[g.below(4)];
    return s;
}

FACET(one_builder, 250000, 2500000) {
    auto fr = gen_frames(g);
    note_frames(g, fr);
    ron::TextFrame::Builder b;
    bool last_open = !fr.empty() && !fr.back().empty() && g.chance(1, 4);
    for (size_t i = 0; i < fr.size(); ++i) {
        for (auto& o : fr[i]) {
            b.AppendOp(nominal(o));
            if (o.term != 1 && !(&o == &fr[i].back() && o.term == 0 && g.coin())) b.EndChunk((ron::TERM)o.term);
        }
        if (i + 1 < fr.size() || !last_open) b.EndFrame();
    }
    string stream = b.Release().data();
    g.note("[" + pbt::esc(stream) + "]");
    check_split(stream, fr);
}

FACET(many_builders, 200000, 2000000) {
    auto fr = gen_frames(g);
    note_frames(g, fr);
    string stream;
    // one builder that is released after every frame, or a new one each time
    bool reuse = g.coin();
    ron::TextFrame::Builder shared;
    for (size_t i = 0; i < fr.size(); ++i) {
        ron::TextFrame::Builder fresh;
        auto& b = reuse ? shared : fresh;
        for (auto& o : fr[i]) {
            b.AppendOp(nominal(o));
            if (o.term != 1) b.EndChunk((ron::TERM)o.term);
        }
        bool ended = g.coin();
        if (ended) b.EndFrame();
        ron::TextFrame f = b.Release();
        CHECK(b.empty(), "a builder is not empty after its frame is released");
        Ops got = must_read(f, "a frame that is ended explicitly");
        CHECK(same(got, fr[i]), "a frame reads differently: " << diff(got, fr[i]) << "; [" << pbt::esc(f.data()) << "]");
        stream += f.data();
        if (!ended) stream += ".\n";
        stream += gap(g);
    }
    g.note("[" + pbt::esc(stream) + "]");
    check_split(stream, fr);
}

FACET(layouts, 150000, 1500000) {
    auto fr = gen_frames(g);
    note_frames(g, fr);
    string stream;
    Layout l{&g};
    for (size_t i = 0; i < fr.size(); ++i) {
        string doc = write_doc(l, fr[i], true);
        End e1, e2;
        Ops plain = read_frame(ron::TextFrame{doc}, e1), dotted = read_frame(ron::TextFrame{doc + ".\n"}, e2);
        CHECK(e1 == CLEAN && e2 == CLEAN, "a frame is refused with or without the terminator");
        CHECK(same(plain, dotted), "the terminator changes a frame: " << diff(dotted, plain));
        stream += doc;
        if (i + 1 < fr.size() || fr[i].empty() || g.coin()) {
            stream += ".\n";
            stream += gap(g);
        }
    }
    g.note("[" + pbt::esc(stream) + "]");
    check_split(stream, fr);
}

// many frames, large ones
FACET(large, 600, 6000) {
    vector<Ops> fr;
    size_t n = g.coin() ? gen_large_size(g, 5000) : 1 + g.below(4);
    pbt::Gen bulk = g.bulk();
    for (size_t i = 0; i < n; ++i) {
        if (n > 4)
            fr.push_back(bulk.chance(1, 30) ? Ops{} : gen_ops(bulk, 1, 6));
        else
            fr.push_back(gen_large(g, 5000));
        if (i && !fr[i].empty() && !fr[i - 1].empty() && bulk.coin()) {
            fr[i][0].id = fr[i - 1].back().id.inc();
            fr[i][0].ref = fr[i - 1].back().id;
        }
    }
    if (n > 255) g.cls("more than 255 frames");
    g.nontrivial();
    string stream;
    ron::TextFrame::Builder b;
    bool one = g.coin();
    for (auto& f : fr) {
        if (!one && bulk.coin()) {
            Layout l{&bulk};
            stream += write_doc(l, f, true) + ".\n";
            stream += gap(bulk);
            continue;
        }
        for (auto& o : f) {
            b.AppendOp(nominal(o));
            if (o.term != 1) b.EndChunk((ron::TERM)o.term);
        }
        b.EndFrame();
        if (!one) stream += b.Release().data();
    }
    if (one) stream = b.Release().data();
    g.note(std::to_string(fr.size()) + " frames, " + std::to_string(stream.size()) + " bytes");
    check_split(stream, fr);
}
