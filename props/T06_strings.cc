// FUZZ: yes
#include "lib/bridge.hpp"
#include "lib/refread.hpp"
#include <algorithm>
using namespace model;
using ron::TextFrame;

PROPERTY("T06",
         "random code point sequences (every plane, boundary code points, everything that needs an "
         "escape; long runs at times) written by the builder or spelled in a random mix of raw bytes, "
         "backslash and hex escapes, read as UTF-8, UTF-16 and code points; the conversions are swept "
         "over all code points and over random UTF-8/UTF-16; non-trivial: two code points or an escape",
         "code points are Unicode scalar values but zero; lone surrogates (also by hex escapes) are not text")

static U32 text_of(pbt::Gen& g) {
    U32 s;
    if (g.chance(1, 40)) {
        size_t n = 100 + g.below(3000);
        while (s.size() < n) s += gen_cp(g);
        return s;
    }
    while (g.more(6) && s.size() < 100) s += gen_cp(g);
    return s;
}
/** the standard's UTF-16 */
static std::u16string utf16(const U32& s) {
    std::u16string r;
    for (char32_t c : s)
        if (c < 0x10000)
            r += (char16_t)c;
        else {
            r += (char16_t)(0xd7c0 + (c >> 10));
            r += (char16_t)(0xdc00 | (c & 0x3ff));
        }
    return r;
}
static string hex(const std::u16string& s) {
    string r;
    char b[8];
    for (auto c : s) {
        snprintf(b, 8, "%04x ", c);
        r += b;
    }
    return r;
}
static string show32(const U32& s) { return show(Val::S(s)); }

template <class C>
static void check_value(const C& c, ron::fsize_t i, const U32& s) {
    ron::Atom a = c.atom(i);
    CHECK(a.type() == ron::STRING, "a string value has the type " << (int)a.type());
    CHECK(ron::StringSize(a) == s.size(), "a string of " << s.size() << " code points declares " << ron::StringSize(a) << ": " << show32(s));
    U32 cps = read_cps(c, a);
    CHECK(cps == s, "a string reads by code points as " << show32(cps) << " instead of " << show32(s));
    string s8, s8b;
    CHECK(ron::ReadString(s8, c, i) == ron::OK, "ReadString refuses a string " << show32(s));
    CHECK(s8 == utf8(s), "a string reads as [" << pbt::esc(s8) << "] instead of [" << pbt::esc(utf8(s)) << "]");
    CHECK(ron::ReadString(s8b, c, a) == ron::OK && s8b == s8, "ReadString of an atom differs: [" << pbt::esc(s8b) << "]");
    CHECK(ron::GetString(c, i) == s8, "GetString differs: [" << pbt::esc(ron::GetString(c, i)) << "]");
    std::u16string s16;
    CHECK(ron::ReadString16(s16, c, a) == ron::OK, "ReadString16 refuses a string");
    CHECK(s16 == utf16(s), "a string reads in UTF-16 as " << hex(s16) << "instead of " << hex(utf16(s)));
    // from any code point on, the rest
    size_t skip = s.size() > 3 ? 2 : 1, done = 0;
    ron::Atom it = a;
    if (it.value.cp) ++done;
    while (done < skip && c.NextCodepoint(it) == ron::OK) ++done;
    if (done && done <= s.size()) {
        CHECK(it.value.cp == s[done - 1], "code point " << done - 1 << " reads as " << it.value.cp);
        string rest;
        CHECK(ron::ReadString(rest, c, it) == ron::OK && rest == utf8(s.substr(done - 1)), "the rest of a string reads as [" << pbt::esc(rest) << "]");
        std::u16string rest16;
        ron::ReadString16(rest16, c, it);
        CHECK(rest16 == utf16(s.substr(done - 1)), "the rest of a string reads in UTF-16 as " << hex(rest16));
        CHECK(ron::StringSize(it) == s.size() - done + 1, "the rest of a string declares " << ron::StringSize(it) << " code points");
    }
    // the end of a string is stable
    for (size_t k = 0; k < s.size() + 1; ++k) c.NextCodepoint(it);
    CHECK(c.NextCodepoint(it) == ron::ENDOFINPUT, "a string has no end");
    CHECK(it.value.cp == 0, "a code point beyond the end of a string: " << it.value.cp);
}

static vector<U32> gen_strings(pbt::Gen& g) {
    vector<U32> v;
    v.push_back(text_of(g));
    while (g.coin() && v.size() < 4) v.push_back(text_of(g));
    for (auto& s : v) {
        g.note(show32(s));
        if (s.size() > 1) g.nontrivial();
        for (auto c : s) {
            if (c < 32 || c == '\'' || c == '\\') {
                g.cls("needs an escape");
                g.nontrivial();
                break;
            }
        }
        if (s.size() > 60) g.cls("long");
    }
    return v;
}

FACET(written, 250000, 2500000) {
    auto v = gen_strings(g);
    ron::Op op{ron::Uuid{"1+A"}, ron::Uuid{"lww"}};
    for (auto& s : v) {
        op.WriteAtoms(utf8(s));
        if (g.chance(1, 5)) op.WriteAtoms((ron::Integer)7);
    }
    ron::fsize_t i = 2;
    for (auto& s : v) {
        while (op.atom(i).type() != ron::STRING) ++i;
        check_value(op, i++, s);
    }
    TextFrame::Builder b;
    b.AppendOp(op);
    TextFrame f = b.Release();
    g.note("text: " + pbt::esc(f.data()));
    auto c = f.cursor();
    CHECK((bool)c.Next(), "a frame with a string is not read: [" << pbt::esc(f.data()) << "]");
    CHECK(c.op().size() == op.op().size(), "an op has other values: [" << pbt::esc(f.data()) << "]");
    i = 2;
    for (auto& s : v) {
        while (c.atom(i).type() != ron::STRING) ++i;
        check_value(c, i++, s);
    }
    // the text is UTF-8 of what was written, escapes apart
    RefFrame ref = ref_read(f.data());
    CHECK(!ref.error, "a written string breaks the grammar: " << ref.why << " [" << pbt::esc(f.data()) << "]");
}

FACET(spelled, 250000, 1600000) {
    auto v = gen_strings(g);
    Layout l{&g};
    string s = "@1+A :lww";
    for (auto& x : v) s += l.ws(0) + l.quoted(x);
    s += ";";
    g.note("text: " + pbt::esc(s));
    TextFrame f{s};
    auto c = f.cursor();
    CHECK((bool)c.Next(), "a frame with a string is not read");
    CHECK(c.op().size() == v.size() + 2, "an op of " << v.size() << " strings has " << c.op().size() - 2 << " values");
    for (size_t i = 0; i < v.size(); ++i) check_value(c, (ron::fsize_t)i + 2, v[i]);
    ron::Op o = ron::Op::Amend(c.id(), c.ref(), c);
    for (size_t i = 0; i < v.size(); ++i) check_value(o, (ron::fsize_t)i + 2, v[i]);
}

FACET(spread, 150000, 800000) {
    // one character per op, in a spread; also after other values
    U32 s = text_of(g);
    if (s.empty()) s = U"x";
    Layout l{&g};
    bool lead = g.chance(1, 4);
    string t = string("@1+A :lww ") + (lead ? "'lead' " : "") + "(" + l.quoted(s) + ");";
    g.note("text: " + pbt::esc(t));
    if (s.size() > 1) g.nontrivial();
    TextFrame f{t};
    auto c = f.cursor();
    ron::fsize_t at = lead ? 3 : 2;
    for (size_t i = 0; i < s.size(); ++i) {
        CHECK((bool)c.Next(), "a spread of " << s.size() << " ends after " << i);
        CHECK(c.op().size() == at + 1, "an op of a spread has " << c.op().size() - 2 << " values");
        CHECK(ron::GetChar(c, at) == s[i], "char " << i << " of a spread reads as " << ron::GetChar(c, at) << " instead of " << (unsigned)s[i]);
        check_value(c, at, U32(1, s[i]));
        if (lead) check_value(c, 2, U"lead");
    }
    CHECK(c.Next() == ron::Status::ENDOFFRAME, "a spread does not end");
}

// the conversions against the standard

static void check_cp(char32_t c) {
    string s, want = utf8(c);
    ron::utf8append(s, c);
    CHECK(s == want, "U+" << std::hex << (unsigned)c << " is written as [" << pbt::esc(s) << "]");
    auto at = s.cbegin();
    ron::Codepoint cp = ron::utf8read(at, s.cend());
    CHECK(cp == c && at == s.cend(), "U+" << std::hex << (unsigned)c << " is read from UTF-8 as " << cp);
    std::u16string u, w16 = utf16(U32(1, c));
    ron::utf16append(u, c);
    CHECK(u == w16, "U+" << std::hex << (unsigned)c << " is written in UTF-16 as " << hex(u));
    auto at16 = u.cbegin();
    cp = ron::utf16read(at16, u.cend());
    CHECK(cp == c && at16 == u.cend(), "U+" << std::hex << (unsigned)c << " is read from UTF-16 as " << cp);
    ron::Codepoints into;
    CHECK(ron::ParseUtf8(into, want) == ron::OK && into.size() == 1 && into[0] == c, "U+" << std::hex << (unsigned)c << " is not parsed");
    // escaped, it reads back in a frame
    string e;
    ron::utf8esc_append(e, c);
    RefFrame rf = ref_read("'" + e + "';");
    CHECK(!rf.error && rf.ops.size() == 1 && rf.ops[0].vals[0].s == U32(1, c), "U+" << std::hex << (unsigned)c << " is escaped as [" << pbt::esc(e) << "]");
}

FACET(sweep_codepoints, 300, 2200) {
    // every scalar value is visited by case number: 1024 a case
    uint64_t block = g.below(1088);
    g.nontrivial();
    g.key("block " + std::to_string(block));
    g.note("code points from " + std::to_string(block * 1024));
    for (char32_t c = block * 1024; c < (block + 1) * 1024; ++c)
        if (c && (c < 0xd800 || c >= 0xe000)) check_cp(c);
}

EXAMPLE(every_code_point) {
    for (char32_t c = 1; c <= 0x10ffff; ++c)
        if (c < 0xd800 || c >= 0xe000) check_cp(c);
}

EXAMPLE(boundaries) {
    for (char32_t b : {0x1u, 0x7fu, 0x80u, 0x7ffu, 0x800u, 0xd7ffu, 0xe000u, 0xffffu, 0x10000u, 0x103ffu, 0x10400u, 0x10ffffu})
        for (int d = -2; d <= 2; ++d) {
            char32_t c = b + d;
            if (c && c <= 0x10ffff && (c < 0xd800 || c >= 0xe000)) check_cp(c);
        }
}

FACET(sequences, 300000, 800000) {
    U32 s = text_of(g);
    g.note(show32(s));
    if (s.size() > 1) g.nontrivial();
    string a;
    std::u16string b;
    for (auto c : s) {
        ron::utf8append(a, c);
        ron::utf16append(b, c);
    }
    CHECK(a == utf8(s), "UTF-8 of a text is [" << pbt::esc(a) << "]");
    CHECK(b == utf16(s), "UTF-16 of a text is " << hex(b));
    ron::Codepoints into;
    CHECK(ron::ParseUtf8(into, a) == ron::OK, "a valid UTF-8 text is refused");
    CHECK(into == codepoints(s), "a UTF-8 text is parsed differently");
    U32 r;
    for (auto i = a.cbegin(); i != a.cend();) r += (char32_t)ron::utf8read(i, a.cend());
    CHECK(r == s, "a UTF-8 text reads as " << show32(r));
    r.clear();
    for (auto i = b.cbegin(); i != b.cend();) r += (char32_t)ron::utf16read(i, b.cend());
    CHECK(r == s, "a UTF-16 text reads as " << show32(r));
    // a text cut inside a character is refused, not read beyond its end
    if (!a.empty()) {
        string cut = a.substr(0, a.size() - 1);
        bool inside = ((unsigned char)a.back() & 0x80) != 0;
        ron::Codepoints part;
        CHECK((ron::ParseUtf8(part, cut) == ron::OK) == !inside, "a UTF-8 text cut " << (inside ? "inside" : "after") << " a character is " << (inside ? "accepted" : "refused"));
        if (inside) {
            char* heap = new char[cut.size()];
            memcpy(heap, cut.data(), cut.size());
            size_t lead = cut.size() - 1;
            while (((unsigned char)cut[lead] & 0xc0) == 0x80) --lead;
            string tail = cut.substr(lead);
            auto i = tail.cbegin();
            CHECK(ron::utf8read(i, tail.cend()) == ron::CP_ERROR && i == tail.cend(), "a cut character is read");
            delete[] heap;
        }
    }
    // unpaired surrogates are errors
    if (!b.empty()) {
        char16_t hi = 0xd800 + g.below(0x400), lo = 0xdc00 + g.below(0x400);
        std::u16string bad(1, g.coin() ? hi : lo);
        if (bad[0] == hi && g.coin()) bad += (char16_t)('a' + g.below(26));
        auto i = bad.cbegin();
        CHECK(ron::utf16read(i, bad.cend()) == ron::CP_ERROR, "an unpaired surrogate is read");
    }
}

// strings of any length, written or spelled
FACET(large, 1200, 12000) {
    size_t n = gen_large_size(g);
    unsigned style = (unsigned)g.below(3);
    pbt::Gen bulk = g.bulk();
    U32 s;
    while (s.size() < n) s += style == 0 ? U'x' : style == 1 ? (char32_t)(U'a' + bulk.below(26)) : gen_cp(bulk);
    g.note(std::to_string(n) + " code points");
    g.nontrivial();
    if (n > 65535) g.cls("more than 65535 code points");
    string text;
    if (g.coin()) {
        ron::Op op{ron::Uuid{"1+A"}, ron::Uuid{"lww"}};
        op.WriteAtoms(utf8(s));
        check_value(op, 2, s);
        TextFrame::Builder b;
        b.AppendOp(op);
        text = b.Release().data();
    } else {
        Layout l{&bulk};
        text = "@1+A :lww " + l.quoted(s) + ";";
    }
    TextFrame f{text};
    auto c = f.cursor();
    CHECK((bool)c.Next(), "a frame with a long string is not read");
    CHECK(c.op().size() == 3, "an op with a long string has other values");
    check_value(c, 2, s);
}
