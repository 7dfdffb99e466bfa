// FUZZ: yes
#include "lib/bridge.hpp"
#include "lib/refread.hpp"
using namespace model;

PROPERTY("T03",
         "frames in random layouts (whitespace, default/explicit ids, quoted/bare values, escapes, "
         "spans, spellings) against the ops they were made of; edited frames, token soups and values "
         "about the size limits against an independent reader of the grammar (ops before the error, "
         "then the error); non-trivial: two ops, a span, an escape or a break after the first op",
         "spans are read up to 5000 ops")

static void same_as_ref(pbt::Gen& g, const string& s, const RefFrame& want, size_t cap) {
    End end;
    Ops got = read_frame(ron::TextFrame{s}, end, cap);
    if (want.capped) {
        CHECK(same(got, want.ops), "a frame reads differently: " << diff(got, want.ops));
        return;
    }
    CHECK(same(got, want.ops),
          "a frame reads differently: " << diff(got, want.ops) << (want.error ? "; it must break: " + want.why : string()));
    if (want.error)
        CHECK(end == ERROR, "a malformed frame (" << want.why << ") is read as a shorter well-formed one, "
                                                  << got.size() << " ops");
    else
        CHECK(end == CLEAN, "a well-formed frame is refused after " << got.size() << " ops");
    for (size_t i = 0; i < got.size(); ++i)
        CHECK(got[i].term == want.ops[i].term,
              "op " << i << " has the term " << ";,!?"[got[i].term] << " instead of " << ";,!?"[want.ops[i].term]);
}

FACET(layouts, 400000, 4000000) {
    Ops ops = gen_ops(g, 5, 30);
    Layout l{&g};
    size_t nspans = 0;
    string s = write_doc(l, ops, true, &nspans);
    bool dot = g.chance(1, 8);
    if (dot) s += ".\n";
    g.note(show(ops));
    g.note("text: " + pbt::esc(s));
    End end;
    Ops got = read_frame(ron::TextFrame{s}, end);
    CHECK(end == CLEAN, "a well-formed frame is refused after " << got.size() << " ops of " << ops.size());
    CHECK(same(got, ops), "a frame reads differently: " << diff(got, ops));
    CHECK(terms_ok(got, ops), "a frame reads with other terms");
    // the two independent readers agree
    RefFrame ref = ref_read(s);
    CHECK(!ref.error && same(ref.ops, ops), "the reference reader differs (a defect of the check): " << ref.why);
    if (nspans) g.cls("has a span");
    if (s.find("\\u") != string::npos) g.cls("has a hex escape");
    if (s.find('(') != string::npos && s.find("('") != string::npos) g.cls("has a spread");
    if (dot) g.cls("ends with a dot");
    if (ops.size() > 1 || nspans) g.nontrivial();
}

FACET(broken, 500000, 5000000) {
    string s = gen_text(g);
    g.note("[" + pbt::esc(s) + "]");
    RefFrame want = ref_read(s, 5000);
    if (want.error) g.cls("malformed");
    if (want.error && !want.ops.empty()) g.cls("malformed after some ops");
    if (!want.error && !want.ops.empty()) g.cls("well-formed");
    if (want.capped) g.cls("a huge span");
    if (!want.ops.empty() || s.size() > 8) g.nontrivial();
    same_as_ref(g, s, want, 5000);
}

static string digits(pbt::Gen& g, size_t n) {
    string r;
    for (size_t i = 0; i < n; ++i) r += (char)('0' + g.below(10));
    return r;
}

// every limit, from both sides, in the first or a later op, in any position
FACET(limits, 300000, 3000000) {
    string s;
    if (g.coin()) s += "@1+A :lww 'x',";
    if (g.chance(1, 4)) s += " 1,";
    string v;
    bool spec = g.chance(1, 4);
    if (spec) {
        string id = "@", w;
        auto word = [&] {
            size_t n = g.one_of<size_t>({10, 11, 1, 9, 12, 20, 21, 64});
            string r;
            for (size_t i = 0; i < n; ++i) r += g.coin() ? 'a' + (char)g.below(26) : b64()[g.below(64)];
            return r;
        };
        if (g.chance(1, 4)) id += string(1, "0123456789ABCDEFG"[g.below(17)]) + "/";
        id += word();
        if (g.coin()) id += string(1, "$%+-"[g.below(4)]) + word();
        s += id;
        if (g.coin()) s += string(" :") + word() + (g.coin() ? "+" + word() : "");
    } else
        s += g.chance(1, 2) ? "@2+A :1+A" : "";
    size_t nv = g.below(4);
    for (size_t i = 0; i <= nv; ++i) {
        v += g.one_of<const char*>({" ", "  ", "\n", " "});
        switch (g.weighted({4, 2, 3, 3, 2})) {
            case 0: {  // an integer near a limit
                static const char* k[] = {"9223372036854775807", "9223372036854775808", "-9223372036854775808",
                                          "-9223372036854775809", "+9223372036854775807", "+9223372036854775808",
                                          "9999999999999999999", "1000000000000000000", "10000000000000000000",
                                          "0000000000000000001", "00000000000000000001", "-0000000000000000001",
                                          "-00000000000000000001", "18446744073709551616", "-1", "9300000000000000000"};
                v += g.coin() ? "=" : "";
                v += k[g.below(sizeof k / sizeof *k)];
                break;
            }
            case 1:
                v += (g.coin() ? "=" : "") + string(g.one_of<const char*>({"", "-", "+"})) +
                     digits(g, g.one_of<size_t>({17, 18, 19, 20, 21, 30, 60}));
                break;
            case 2: {  // a float about 24 chars
                string f = g.one_of<const char*>({"", "-", "+"});
                size_t n = g.one_of<size_t>({20, 21, 22, 23, 24, 25, 26, 30, 31, 32, 33, 40, 80});
                size_t fr = 1 + g.below(n - 2);
                f += digits(g, n - fr > f.size() + 1 ? n - fr - f.size() - 1 : 1) + "." + digits(g, fr);
                if (g.chance(1, 3)) f += string(g.coin() ? "e" : "E") + g.one_of<const char*>({"", "-", "+"}) + digits(g, 1 + g.below(3));
                v += (g.coin() ? "^" : "") + f;
                break;
            }
            case 3: {  // a word about 10 chars
                string u;
                size_t n = g.one_of<size_t>({9, 10, 11, 12, 20});
                u += (char)('a' + g.below(26));
                while (u.size() < n) u += b64()[g.below(64)];
                if (g.coin()) {
                    u += "$%+-"[g.below(4)];
                    size_t m = g.one_of<size_t>({1, 9, 10, 11, 12});
                    while (m--) u += b64()[g.below(64)];
                }
                v += (g.coin() ? ">" : "") + u;
                break;
            }
            default:
                v += g.one_of<const char*>({"1", "'str'", "abc", "1.5", "1e5", "1E5", "1e+5", "1e5+A", "12+34", "1e-3"});
        }
    }
    s += v;
    if (g.chance(1, 4)) {
        s += g.one_of<const char*>({" (0)", " (1)", " (3)", "(107374182)", " (1073741829)", "(1073741830)",
                                    " (00000000000002)", " (4294967297)", "(99999999999999999999)", "('')",
                                    " ('a')", " ('ab')", "()", "( 2 )", "( 'xy' )", "('\\u0061b')", "('a)", "(-1)", "(1.5)", "(a)"});
    }
    s += g.pick(string(",;!?,,,;"));
    if (g.coin()) s += "@9+B :8+B 'tail';";
    g.note("[" + pbt::esc(s) + "]");
    RefFrame want = ref_read(s, 3000);
    if (want.error) g.cls("over a limit");
    else g.cls("within the limits");
    g.nontrivial();
    same_as_ref(g, s, want, 3000);
}

FACET(long_frames, 300, 3000) {
    // long strings and many ops
    Ops ops;
    size_t n = 50 + g.below(400);
    Uid id = gen_event(g);
    for (size_t i = 0; i < n; ++i) {
        Op o;
        o.id = g.chance(1, 5) ? gen_event(g) : id.inc();
        o.ref = g.chance(1, 3) ? gen_event(g) : id;
        if (g.chance(1, 30)) {
            U32 s;
            size_t m = g.below(6000);
            char32_t base = gen_cp(g);
            for (size_t k = 0; k < m; ++k) s += g.chance(1, 16) ? gen_cp(g) : base;
            o.vals.push_back(Val::S(s));
        } else if (g.coin()) {
            o.vals.push_back(Val::S(U32(1, gen_cp(g))));
        } else
            while (g.more(3)) o.vals.push_back(gen_val(g));
        id = o.id;
        ops.push_back(o);
    }
    ops.back().term = 0;
    pbt::Gen bulk = g.bulk();
    Layout l{&bulk};
    string s = write_doc(l, ops, true);
    End end;
    Ops got = read_frame(ron::TextFrame{s}, end);
    CHECK(end == CLEAN, "a well-formed long frame is refused after " << got.size() << " ops of " << ops.size());
    CHECK(same(got, ops), "a long frame reads differently: " << diff(got, ops));
    g.note("a frame of " + std::to_string(s.size()) + " bytes, " + std::to_string(n) + " ops");
    g.nontrivial();
}

// many ops, ops of many values, long strings; whole, or broken anywhere
FACET(large, 1200, 12000) {
    Ops ops = gen_large(g, 10000);
    pbt::Gen bulk = g.bulk();
    Layout l{&bulk};
    string s = write_doc(l, ops, true);
    bool whole = g.coin();
    if (!whole) s = gen_mutation(g, s);
    g.note(std::to_string(ops.size()) + " ops, " + std::to_string(s.size()) + " bytes");
    g.nontrivial();
    RefFrame want = ref_read(s, 100000);
    CHECK(!whole || (!want.error && same(want.ops, ops)), "the reference reader differs (a defect of the check): " << want.why);
    if (want.error) g.cls("malformed");
    same_as_ref(g, s, want, 100000);
}
