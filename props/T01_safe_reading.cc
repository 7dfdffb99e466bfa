// FUZZ: yes
#include "lib/bridge.hpp"
#include "lib/refread.hpp"
#include "ron/hash.hpp"
using namespace model;

PROPERTY("T01",
         "arbitrary texts: frames in random layouts, the same with edits (bytes changed, dropped, "
         "repeated, cut), token soups and raw bytes, each in a buffer of its exact size; every accessor "
         "is called on every op; non-trivial: at least one op is read or the text breaks after 8 bytes")

// the text in a heap buffer of its exact size, so any read beyond it is seen
struct Exact {
    char* b;
    size_t n;
    explicit Exact(const string& s) : b{new char[s.size()]}, n{s.size()} { memcpy(b, s.data(), n); }
    ~Exact() { delete[] b; }
};

static void check_atom(const ron::TextFrame::Cursor& c, ron::fsize_t i, size_t n) {
    ron::Atom raw = c.op()[i];
    ron::Atom a = c.atom(i);
    CHECK(a.type() == raw.type(), "parsing an atom changes its type");
    switch (a.type()) {
        case ron::UUID: {
            ron::Uuid u{a};
            // what was read can be written
            string t = u.str();
            CHECK(t.size() <= 2 + 10 + 1 + 10, "an id with a text of " << t.size() << " chars: " << t);
            (void)u.is_ambiguous();
            break;
        }
        case ron::INT: {
            auto d = c.data(raw);
            CHECK(d.size() >= 1 && d.size() <= 20, "an integer of " << d.size() << " chars");
            break;
        }
        case ron::FLOAT:
            CHECK(c.data(raw).size() <= 24, "a float of " << c.data(raw).size() << " chars");
            CHECK(!std::isnan(a.value.as_float), "a float is not a number");
            break;
        case ron::STRING: {
            size_t cnt = ron::StringSize(a), got = 0;
            CHECK(cnt <= n, "a string of " << cnt << " code points in a frame of " << n << " bytes");
            ron::Atom it = a;
            if (it.value.cp) ++got;
            while (c.NextCodepoint(it) == ron::OK) {
                CHECK(it.value.cp <= 0x1fffff, "a code point of " << it.value.cp);
                ++got;
                CHECK(got <= n + 1, "a string does not end");
            }
            CHECK(got <= cnt, "a string yields " << got << " code points of the declared " << cnt);
            string s8;
            ron::ReadString(s8, c, i);
            std::u16string s16;
            ron::ReadString16(s16, c, (ron::Atom)a);
            (void)ron::GetString(c, i);
            (void)ron::GetChar(c, i);
        }
    }
}

static size_t walk(const ron::Slice& data, size_t n, size_t max) {
    using Cursor = ron::TextFrame::Cursor;
    Cursor c{data};
    CHECK(!c.valid(), "a new cursor has an op already");
    size_t ops = 0;
    ron::TextFrame::Builder b;
    while (ops < max) {
        ron::Status ok = c.Next();
        if (!ok) {
            CHECK(!c.valid(), "the reader reports an op after " << ok.str());
            for (int i = 0; i < 5; ++i) {
                ron::Status again = c.Next();
                CHECK(!again, "the reader yields an op after it reported " << ok.str());
                CHECK(!c.valid(), "the reader reports an op after the end");
            }
            return ops;
        }
        CHECK(c.valid(), "no op after a successful step");
        CHECK(c.op().size() >= 2, "an op without an id or a reference");
        CHECK(c.term() <= 3, "a term of " << (int)c.term());
        CHECK(c.op().size() <= n + 2, "more atoms than bytes");
        (void)c.id().str();
        (void)c.ref().str();
        for (ron::fsize_t i = 2; i < c.op().size(); ++i) check_atom(c, i, n);
        if (ops < 300) {
            (void)ron::SHA2::OpMerkleHash(c, ron::SHA2::ZERO, ron::SHA2{c.ref()});
            (void)ron::HasValue(c, ron::STRING, 2);
            ron::Op o = ron::Op::Amend(c.id(), c.ref(), c);
            CHECK(o.atoms_.size() == c.op().size(), "a parsed copy has other atoms");
            b.AppendOp(c);
            // a copy of the cursor goes its own way
            Cursor d{c};
            CHECK(d.id() == c.id() && d.op().size() == c.op().size(), "a copy of a reader differs");
            (void)d.Next();
        }
        ++ops;
    }
    return ops;
}

FACET(walk_any, 1000000, 8000000) {
    string s = gen_text(g);
    g.note("[" + pbt::esc(s) + "]");
    Exact e{s};
    size_t ops = walk(ron::Slice{e.b, e.n}, e.n, 3000);
    if (ops) g.cls("yields an op");
    if (ops > 100) g.cls("yields over 100 ops");
    if (s.size() > 8 && !ops) g.cls("breaks in the first op");
    if (ops || s.size() > 8) g.nontrivial();
}

FACET(helpers_any, 250000, 2000000) {
    // the helpers that walk whole frames
    string s = gen_text(g), s2 = g.coin() ? gen_mutation(g, s) : gen_text(g);
    g.note("[" + pbt::esc(s) + "] [" + pbt::esc(s2) + "]");
    ron::TextFrame f{s}, f2{s2};
    // a huge repeat count is read for a while only
    auto big = [](const string& t) {
        return ref_read(t, 5000).capped;
    };
    if (big(s) || big(s2)) g.discard();
    ron::CompareFrames(f, f2);
    ron::TextFrame::Builder b;
    ron::AppendFrame(b, f);
    ron::TextFrame r = b.Release();
    auto c = f.cursor();
    size_t n = 0;
    while (c.Next()) {
        while (ron::SkipChain(c)) CHECK(++n < 200000, "skipping chains does not end");
        CHECK(++n < 200000, "skipping chains does not end");
    }
    std::vector<ron::TextFrame> parts;
    f.Split(parts);
    for (auto& p : parts) {
        End end;
        read_frame(p, end, 5000);
    }
    if (s.size() > 8) g.nontrivial();
}

FACET(walk_large, 1500, 15000) {
    // many ops, ops of many values, long strings, whole and cut
    Ops ops = gen_large(g, 20000);
    string s;
    if (g.coin())
        s = build(ops).data();
    else {
        pbt::Gen bulk = g.bulk();
        Layout l{&bulk};
        s = write_doc(l, ops, true);
    }
    if (g.coin()) s = gen_mutation(g, s);
    if (g.chance(1, 4)) s.resize(g.below(s.size() + 1));
    g.note(std::to_string(ops.size()) + " ops in " + std::to_string(s.size()) + " bytes");
    Exact e{s};
    size_t n = walk(ron::Slice{e.b, e.n}, e.n, 100000);
    if (n) g.cls("yields an op");
    if (n > 255) g.cls("yields over 255 ops");
    g.nontrivial();
}
