// FUZZ: yes
#include "lib/rdtlib.hpp"
using namespace model;

PROPERTY("U03",
         "byte strings with any content, cut into slices at any place by every way to make one, consumed, "
         "shortened and cut again; each slice is compared with the plain string of the same bytes, its memory "
         "ends where the bytes end; frames made of a slice against the ops the slice spells; non-trivial: a "
         "non-empty slice that is not the whole of its buffer",
         "a cut is within its slice; an empty cut at the very end of a slice is not asked for");

/** bytes in memory of exactly their size, so that any step out is seen */
struct Mem {
    unsigned char* p;
    size_t n;
    explicit Mem(const string& s) : p{(unsigned char*)malloc(s.size() ? s.size() : 1)}, n{s.size()} {
        memcpy(p, s.data(), n);
    }
    Mem(const Mem&) = delete;
    ~Mem() { free(p); }
};
static string gen_bytes(pbt::Gen& g) {
    string s;
    size_t n = g.chance(1, 10) ? g.below(300) : g.below(30);
    for (size_t i = 0; i < n; ++i) s += g.chance(1, 8) ? (char)0 : g.coin() ? (char)g.below(256) : (char)('a' + g.below(3));
    return s;
}
static void expect(const ron::Slice& x, const string& s, const char* what) {
    CHECK(x.size() == s.size(), what << " has size " << x.size() << ", expected " << s.size());
    CHECK(x.empty() == s.empty(), what << ": empty() is wrong");
    CHECK(x.str() == s, what << " as a string is [" << pbt::esc(x.str()) << "] expected [" << pbt::esc(s) << "]");
    for (size_t i = 0; i < s.size(); ++i) {
        CHECK(x.at(i) == (unsigned char)s[i], what << ": byte " << i << " is " << (int)x.at(i));
        CHECK(x[i] == (unsigned char)s[i], what << ": byte " << i << " is " << (int)x[i]);
    }
    CHECK(string((const char*)x.begin(), (const char*)x.end()) == s, what << ": begin and end are wrong");
}

FACET(views, 1000000, 10000000) {
    string s = gen_bytes(g);
    g.note("[" + pbt::esc(s) + "]");
    Mem m{s};
    string copy = s;
    ron::Slice x;
    string now;
    size_t b = g.below(s.size() + 1), e = b + g.below(s.size() - b + 1);
    switch (g.below(5)) {
        case 0:
            x = ron::Slice{copy};
            now = s;
            break;
        case 1:
            x = ron::Slice{(const char*)m.p, m.n};
            now = s;
            break;
        case 2:
            x = ron::Slice{m.p + b, m.p + e};
            now = s.substr(b, e - b);
            break;
        case 3:
            x = ron::Slice{m.p, ron::Range{(uint32_t)b, (uint32_t)e}};
            now = s.substr(b, e - b);
            break;
        default:
            x = ron::Slice{copy, ron::Range::AtFor((uint32_t)b, (uint32_t)(e - b))};
            now = s.substr(b, e - b);
    }
    expect(x, now, "a new slice");
    size_t n = 0;
    while (g.more(4) && n++ < 12) {
        if (!now.empty() && now.size() < s.size()) g.nontrivial();
        switch (g.below(6)) {
            case 0: {
                size_t k = g.below(now.size() + 1);
                x.Consume((uint32_t)k);
                now = now.substr(k);
                expect(x, now, "a consumed slice");
                break;
            }
            case 1: {
                size_t k = g.below(now.size() + 1);
                x.Resize((uint32_t)k);
                now.resize(k);
                expect(x, now, "a shortened slice");
                break;
            }
            case 2: {
                if (now.empty()) break;
                size_t p = g.below(now.size()), q = p + g.below(now.size() - p + 1);
                ron::Slice y = x.slice(ron::Range{(uint32_t)p, (uint32_t)q});
                string w = now.substr(p, q - p);
                expect(y, w, "a cut");
                ron::Range back = x.range_of(y);
                CHECK(back.begin() == p && back.end() == q, "the place of a cut is " << back.begin() << ".." << back.end() << ", expected " << p << ".." << q);
                ron::Slice head = x.CutOff(y);
                expect(head, now.substr(0, p), "what is before a cut");
                if (g.coin()) {
                    x = y;
                    now = w;
                }
                break;
            }
            case 3: {
                if (now.empty()) break;
                CHECK(*x == (unsigned char)now[0], "the first byte is wrong");
                ++x;
                now = now.substr(1);
                expect(x, now, "a stepped slice");
                break;
            }
            case 4: {
                auto c = x.consumed();
                auto r = x.reset();
                CHECK(c.size() + x.size() == r.size(), "the consumed part and the rest are not the whole");
                CHECK(r.str() == c.str() + now, "the consumed part and the rest are not the whole");
                break;
            }
            default: {
                // sameness by bytes; other memory
                string o = now;
                if (g.coin() && !o.empty()) {
                    if (g.coin())
                        o[g.below(o.size())] ^= 1 << g.below(8);
                    else
                        o.resize(g.below(o.size()));
                }
                Mem mo{o};
                ron::Slice y{(const char*)mo.p, mo.n};
                CHECK((x == y) == (o == now), "slices compare " << (x == y) << ": [" << pbt::esc(now) << "] [" << pbt::esc(o) << "]");
                if (o == now) CHECK(std::hash<ron::Slice>{}(x) == std::hash<ron::Slice>{}(y), "equal slices have different hashes");
                CHECK(x.same(x), "a slice is not the same as itself");
                CHECK(!x.same(y) || mo.p == x.begin(), "slices of different memory are the same");
                if (now.empty()) break;
                // parts of the same memory
                size_t p = g.coin() ? 0 : g.below(now.size()), q = p + g.below(now.size() - p + 1);
                size_t p2 = g.coin() ? p : g.below(now.size()), q2 = g.coin() && q >= p2 ? q : p2 + g.below(now.size() - p2 + 1);
                ron::Slice a = x.slice(ron::Range{(uint32_t)p, (uint32_t)q}), b = x.slice(ron::Range{(uint32_t)p2, (uint32_t)q2});
                bool want = now.substr(p, q - p) == now.substr(p2, q2 - p2);
                CHECK((a == b) == want && (b == a) == want, "cuts " << p << ".." << q << " and " << p2 << ".." << q2 << " of ["
                                                                   << pbt::esc(now) << "] compare " << (a == b));
                CHECK(a.same(b) == (p == p2 && q == q2), "cuts " << p << ".." << q << " and " << p2 << ".." << q2 << ": same() is "
                                                                << a.same(b));
                bool req = p == p2 && q == q2;
                CHECK((a.range() == b.range()) == req && (a.range() != b.range()) == !req, "ranges of cuts compare wrong");
                if (want) CHECK(a.hash() == b.hash(), "equal cuts have different hashes");
            }
        }
    }
}

FACET(frames, 200000, 2000000) {
    Ops ops = gen_ops(g, 4, 12);
    string t = lay(g, ops);
    string pre = gen_bytes(g), post = g.coin() ? gen_bytes(g) : "";
    g.note("[" + pbt::esc(t) + "] at " + std::to_string(pre.size()));
    if (!pre.empty() && !t.empty()) g.nontrivial();
    Mem m{pre + t + post};
    ron::Slice x{m.p, ron::Range{(uint32_t)pre.size(), (uint32_t)(pre.size() + t.size())}};
    ron::TextFrame f{x};
    CHECK(f.data() == t, "a frame made of a slice has the text [" << pbt::esc(f.data()) << "]");
    Ops got = must_read(f, "a frame made of a slice"), want = must_read(ron::TextFrame{t}, "the text");
    CHECK(same(got, want), "a frame made of a slice: " << diff(got, want));
}
