// FUZZ: yes
#include "lib/bridge.hpp"
#include "lib/refread.hpp"
#include <algorithm>
#include <unordered_set>
using namespace model;
using ron::TextFrame;
using ron::Uuid;
using ron::Word;

PROPERTY("T08",
         "128-bit ids with every variety and version, words of every length and with zeroes anywhere: "
         "canonical text and back, alone and in a frame in every position; other admissible spellings; "
         "texts that are no id (mutated ids, soups, cuts) against an independent reader; order, arithmetic, "
         "equality and hash on pairs of near ids; non-trivial: a word of two digits or more, or no id")

/** any id the text can hold: 4 flag bits of variety, 2 of version */
static Uid any_id(pbt::Gen& g) {
    Uid u;
    auto word = [&]() -> uint64_t {
        switch (g.below(4)) {
            case 0:
                return gen_word(g);
            case 1:
                return g.u64() & PAY;
            case 2:  // a single digit somewhere
                return ((uint64_t)g.below(64) << (6 * g.below(10))) & PAY;
            default:
                return g.one_of<uint64_t>({0, 1, PAY, PAY - 1, 63ULL << 54, 1ULL << 54, 1ULL << 59});
        }
    };
    u.value = word();
    u.origin = word();
    if (g.coin()) u.value |= (uint64_t)g.below(16) << 60;
    u.origin |= (uint64_t)g.below(4) << 60;
    return u;
}
static string other_spelling(pbt::Gen& g, const Uid& u) {
    string r;
    int var = u.value >> 60, ver = u.origin >> 60;
    if (var || g.coin()) r += string(1, b64()[var]) + "/";
    auto word = [&](uint64_t w) {
        string s = word_text(w);
        size_t room = 10 - s.size();
        return s + string(room ? g.below(room + 1) : 0, '0');
    };
    r += word(u.value & PAY);
    if (ver || (u.origin & PAY) || g.coin()) r += string(1, "$%+-"[ver]) + word(u.origin & PAY);
    return r;
}

FACET(text_and_back, 500000, 5000000) {
    Uid u = any_id(g);
    string t = text(u);
    g.note(t);
    if (t.size() > 2) g.nontrivial();
    Uuid r = R(u);
    CHECK(r.str() == t, "the text of an id is " << r.str() << " instead of " << t);
    CHECK(r.ToString() == t, "ToString differs: " << r.ToString());
    CHECK(M(Uuid{t}) == u, "the id " << t << " reads as " << Uuid{t}.str());
    CHECK(M(Uuid{t.c_str()}) == u, "the id " << t << " reads from chars as " << Uuid{t.c_str()}.str());
    CHECK(r == t && r == t.c_str(), "an id does not equal its text " << t);
    string o = other_spelling(g, u);
    g.note(o);
    CHECK(M(Uuid{o}) == u, "the spelling " << o << " of " << t << " reads as " << Uuid{o}.str());
    CHECK((int)r.version() == (int)(u.origin >> 60), "the version of " << t << " is " << (int)r.version());
    CHECK((int)r.variety() == (int)(u.value >> 60), "the variety of " << t << " is " << (int)r.variety());
    // the words
    CHECK(Word{u.value}.str() == word_text(u.value & PAY), "the text of a word is " << Word{u.value}.str());
    CHECK(Word{word_text(u.value & PAY)}.as_u64 == (u.value & PAY), "a word reads wrong");
    // a different id has a different text
    Uid v = u;
    (g.coin() ? v.value : v.origin) ^= 1ULL << g.below(g.coin() ? 60 : 62);
    v.origin &= (1ULL << 62) - 1;
    if (v != u) CHECK(R(v).str() != t, "two ids have the text " << t);
}

FACET(in_frames, 250000, 2500000) {
    // as an id, a reference and a value, by default and explicit, written or spelled
    Uid id = any_id(g), ref = any_id(g), v1 = any_id(g), v2 = any_id(g);
    Op a{id, ref, {Val::U(v1), Val::U(v2)}, 1};
    Op b{g.coin() ? id.inc() : any_id(g), g.coin() ? id : any_id(g), {Val::U(v2)}, 0};
    if ((b.id.value >> 60) < (id.value >> 60) && b.id.value == 0) b.id = any_id(g);
    Ops ops{a, b};
    g.note(show(ops));
    TextFrame f = build(ops);
    g.note(f.data());
    Ops got = must_read(f, "a frame of ids");
    CHECK(same(got, ops), "ids change in a frame: " << diff(got, ops) << " [" << f.data() << "]");
    Layout l{&g};
    string s = "@" + other_spelling(g, id) + l.ws(1) + ":" + other_spelling(g, ref) + l.ws(0) + ">" + l.ws(0) + other_spelling(g, v1);
    string bare = other_spelling(g, v2);
    s += RefReader::is_int(bare) || RefReader::is_float(bare) ? ">" + bare : l.ws(1) + bare;
    s += ";";
    g.note(s);
    Ops sp = must_read(TextFrame{s}, "a frame of spelled ids");
    a.term = 0;
    CHECK(sp.size() == 1 && sp[0].same(a), "spelled ids change: " << diff(sp, {a}));
    g.nontrivial();
}

FACET(not_an_id, 600000, 6000000) {
    string t;
    switch (g.below(5)) {
        case 0:
            t = gen_mutation(g, text(any_id(g)));
            break;
        case 1: {
            t = other_spelling(g, any_id(g));
            t.resize(g.below(t.size() + 1));
            break;
        }
        case 2: {  // words about the limit
            auto w = [&] {
                string s;
                size_t n = g.one_of<size_t>({0, 1, 9, 10, 11, 12});
                while (n--) s += b64()[g.below(64)];
                return s;
            };
            t = (g.coin() ? string(1, "0123456789ABCDEFGHabcf~"[g.below(23)]) + "/" : "") + w();
            if (g.coin()) t += string(1, "$%+-"[g.below(4)]) + w();
            break;
        }
        case 3: {
            size_t n = g.below(14);
            static const string abc = "$%+-/$%+-/ABCabc0123~_.:@ \x80\xff\n";
            while (n--) t += abc[g.below(abc.size())];
            break;
        }
        default: {
            size_t n = g.below(14);
            while (n--) t += (char)g.below(256);
        }
    }
    t = t.substr(0, t.find('\0'));
    g.note("[" + pbt::esc(t) + "]");
    Uid want;
    bool ok = parse_uid(t, want);
    // in a buffer of its exact size
    char* b = new char[t.size()];
    memcpy(b, t.data(), t.size());
    Uuid u{ron::Slice{(ron::CharRef)b, (ron::fsize_t)t.size()}};
    delete[] b;
    if (t.empty())
        CHECK(u == Uuid::NIL || u == Uuid::FATAL, "an empty text reads as " << u.str());
    else if (ok)
        CHECK(M(u) == want, "the id " << t << " reads as " << u.str());
    else
        CHECK(u == Uuid::FATAL, "[" << pbt::esc(t) << "] is no id but reads as " << u.str());
    CHECK(Uuid{t} == u && Uuid{t.c_str()} == u, "a text reads as different ids");
    g.cls(ok ? "an id" : "no id");
    if (t.size() > 1) g.nontrivial();
}

static int sgn(bool lt, bool eq) { return eq ? 0 : lt ? -1 : 1; }

FACET(order_and_arithmetic, 400000, 4000000) {
    Uid a = any_id(g), b = any_id(g), c = any_id(g);
    switch (g.below(4)) {  // near ids
        case 0:
            b = a;
            break;
        case 1:
            b = a;
            b.origin = any_id(g).origin;
            break;
        case 2:
            b = a;
            b.value = a.value + g.range(-2, 2);
            break;
    }
    if (g.coin()) c.value = b.value;
    g.note(text(a) + " " + text(b) + " " + text(c));
    g.nontrivial();
    Uuid x = R(a), y = R(b), z = R(c);
    bool lt = a.value < b.value || (a.value == b.value && a.origin < b.origin), eq = a == b;
    CHECK((x < y) == lt, text(a) << " < " << text(b) << " is " << (x < y));
    CHECK((x > y) == (!lt && !eq), text(a) << " > " << text(b) << " is " << (x > y));
    CHECK((x == y) == eq, text(a) << " == " << text(b) << " is " << (x == y));
    CHECK((x != y) == !eq, text(a) << " != " << text(b) << " is " << (x != y));
    CHECK((x <= y) == (lt || eq), text(a) << " <= " << text(b) << " is " << (x <= y));
    CHECK((x >= y) == !lt, text(a) << " >= " << text(b) << " is " << (x >= y));
    if (x < y && y < z) CHECK(x < z, "the order is not transitive");
    if (x == y) CHECK(std::hash<Uuid>{}(x) == std::hash<Uuid>{}(y), "equal ids have different hashes");
    CHECK((R(a).str() == R(b).str()) == eq, "texts agree where ids do not");
    CHECK((x == text(b)) == eq, "an id equals the text of another");
    ron::Atom p = x, q = y;
    CHECK((p == q) == eq && (p != q) == !eq, "atoms of ids compare differently");
    // words
    Word v{a.value}, w{b.value};
    CHECK((v < w) == (a.value < b.value) && (v > w) == (a.value > b.value) && (v <= w) == (a.value <= b.value) &&
              (v >= w) == (a.value >= b.value) && (v == w) == (a.value == b.value) && (v != w) == (a.value != b.value),
          "words compare wrong: " << a.value << " " << b.value);
    CHECK(v.flags() == a.value >> 60 && v.payload() == (a.value & PAY), "the flags or payload of a word are wrong");
    CHECK(be64toh(v.be()) == a.value, "the big-endian form of a word is wrong");
    CHECK(v.is_zero() == (a.value == 0), "is_zero is wrong");
    // what letters the text has
    string t = word_text(a.value & PAY);
    bool snake = false, caps = false, digits = true;
    for (char ch : t) {
        snake = snake || ch == '_' || (ch >= 'a' && ch <= 'z');
        caps = caps || ch == '~' || (ch >= 'A' && ch <= 'Z');
        digits = digits && ch >= '0' && ch <= '9';
    }
    CHECK(v.payload() == (a.value & PAY) && (int)v.base64_case() == (snake ? 1 : 0) + (caps ? 2 : 0),
          "the case of the letters of " << t << " is " << (int)v.base64_case());
    CHECK(v.is_all_digits() == digits, t << (digits ? " is not" : " is") << " all digits");
    // arithmetic
    uint64_t n = g.coin() ? g.below(5) : g.u64() >> 8;
    CHECK(M(x.inc(n)) == (Uid{a.value + n, a.origin}), "inc(" << n << ") of " << text(a) << " is " << x.inc(n).str());
    CHECK(M(x.inc()) == (Uid{a.value + 1, a.origin}), "inc() of " << text(a) << " is " << x.inc().str());
    CHECK(M(x.dec()) == (Uid{a.value - 1, a.origin}), "dec() of " << text(a) << " is " << x.dec().str());
    CHECK(x.inc().dec() == x && x.dec().inc() == x, "inc and dec do not cancel");
    CHECK(M(x + n) == (Uid{a.value + n, a.origin}), "+" << n << " of " << text(a) << " is " << (x + n).str());
    Uuid k = x;
    ++k;
    CHECK(k == x.inc(), "++ differs from inc()");
    if (a.value != UINT64_MAX) CHECK(x < x.inc(), "the next id is not greater");
    // event and derived ids
    CHECK(M(x.event()) == (Uid{a.value, (a.origin & PAY) | V_TIME}), "the event of " << text(a) << " is " << x.event().str());
    CHECK(M(x.derived()) == (Uid{a.value, (a.origin & PAY) | V_DERIVED}), "the derived of " << text(a) << " is " << x.derived().str());
    CHECK(M(Uuid::Time(Word{a.value}, Word{b.origin})) == (Uid{a.value, (b.origin & PAY) | V_TIME}), "Time() is wrong");
    CHECK(x.is_error() == (a.origin == PAY), "is_error of " << text(a) << " is " << x.is_error());
    CHECK(x.zero() == (a.value == 0), "zero() of " << text(a) << " is " << x.zero());
}

FACET(sets, 40000, 400000) {
    // sorting and hashing many ids
    vector<Uid> ids;
    vector<Uuid> rs;
    std::unordered_set<Uuid> hs;
    std::set<Uid> ms;
    Uid base = any_id(g);
    while (g.more(20) && ids.size() < 200) {
        Uid u = g.coin() ? any_id(g) : base.inc(g.below(10));
        ids.push_back(u);
        rs.push_back(R(u));
        hs.insert(R(u));
        ms.insert(u);
    }
    std::sort(ids.begin(), ids.end());
    std::sort(rs.begin(), rs.end());
    for (size_t i = 0; i < ids.size(); ++i) CHECK(M(rs[i]) == ids[i], "ids are sorted wrong at " << i);
    CHECK(hs.size() == ms.size(), "a hash set of " << ms.size() << " ids has " << hs.size());
    for (auto& u : ms) CHECK(hs.count(R(u)), "an id is lost in a hash set");
    if (ids.size() > 2) g.nontrivial();
    g.note(std::to_string(ids.size()) + " ids");
}

EXAMPLE(constants) {
    CHECK_EQ(Uuid::NIL.str(), std::string("0"), "NIL");
    CHECK(Uuid{"0"} == Uuid::NIL, "0 is not NIL");
    CHECK(Uuid{} == Uuid::NIL, "the default id is not NIL");
    CHECK(Uuid::NIL != Uuid::FATAL, "NIL is FATAL");
    CHECK(Uuid{"~"} == Uuid::COMMENT, "the comment id has another text");
    CHECK(Uuid{Uuid::NEVER.str()} == Uuid::NEVER, "NEVER has another text");
    CHECK(Uuid{Uuid::FATAL.str()} == Uuid::FATAL, "FATAL has another text");
}
