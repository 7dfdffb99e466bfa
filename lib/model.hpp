// The model side: plain data types, a reference writer for the text coding
// (any of the layouts the grammar admits) and generators. Nothing here uses
// the code under test; the bridge to it is in bridge.hpp.
#ifndef MODEL_HPP
#define MODEL_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "../engine/pbt.hpp"

namespace model {

using pbt::Gen;
using std::string;
using std::vector;
using U32 = std::u32string;

constexpr uint64_t PAY = (1ULL << 60) - 1;
constexpr uint64_t V_NAME = 0, V_HASH = 1ULL << 60, V_TIME = 2ULL << 60, V_DERIVED = 3ULL << 60;

inline const string& b64() {
    static const string s =
        "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~";
    return s;
}
inline int b64val(char c) {
    auto p = b64().find(c);
    return p == string::npos ? -1 : (int)p;
}

struct Uid {
    uint64_t value{0}, origin{0};
    bool operator==(const Uid& b) const { return value == b.value && origin == b.origin; }
    bool operator!=(const Uid& b) const { return !(*this == b); }
    bool operator<(const Uid& b) const {
        return value != b.value ? value < b.value : origin < b.origin;
    }
    Uid inc(uint64_t n = 1) const { return Uid{value + n, origin}; }
    bool is_name() const { return (origin >> 60) == 0; }
    bool is_time() const { return (origin >> 60) == 2; }
};

inline string word_text(uint64_t w, bool strip = true) {
    string s;
    for (int i = 9; i >= 0; --i) s += b64()[(w >> (6 * i)) & 63];
    if (strip)
        while (s.size() > 1 && s.back() == '0') s.pop_back();
    return s;
}
inline uint64_t word_val(const string& s) {
    uint64_t w = 0;
    for (size_t i = 0; i < 10; ++i) w = (w << 6) | (i < s.size() ? b64val(s[i]) : 0);
    return w;
}
/** the canonical text of an id */
inline string text(const Uid& u) {
    string s;
    int var = u.value >> 60;
    if (var) {
        s += b64()[var];
        s += '/';
    }
    s += word_text(u.value & PAY);
    int ver = (u.origin >> 60) & 3;
    if (ver || (u.origin & PAY)) {
        s += "$%+-"[ver];
        s += word_text(u.origin & PAY);
    }
    return s;
}
/** an independent reader of the id syntax */
inline bool parse_uid(const string& s, Uid& u) {
    size_t i = 0;
    u = Uid{};
    uint64_t var = 0;
    if (s.size() > 1 && s[1] == '/') {
        char c = s[0];
        if (c >= '0' && c <= '9')
            var = c - '0';
        else if (c >= 'A' && c <= 'F')
            var = c - 'A' + 10;
        else
            return false;
        i = 2;
    }
    size_t b = i;
    while (i < s.size() && b64val(s[i]) >= 0) ++i;
    if (i == b || i - b > 10) return false;
    u.value = word_val(s.substr(b, i - b)) | var << 60;
    if (i == s.size()) return true;
    auto ver = string("$%+-").find(s[i]);
    if (ver == string::npos) return false;
    b = ++i;
    while (i < s.size() && b64val(s[i]) >= 0) ++i;
    if (i == b || i - b > 10 || i != s.size()) return false;
    u.origin = word_val(s.substr(b, i - b)) | (uint64_t)ver << 60;
    return true;
}
inline Uid uid(const string& s) {
    Uid u;
    if (!parse_uid(s, u)) {
        fprintf(stderr, "bad model id %s\n", s.c_str());
        abort();
    }
    return u;
}

enum Type { T_UUID = 0, T_INT = 1, T_STR = 2, T_FLT = 3 };

inline string utf8(char32_t c) {
    string s;
    if (c < 0x80)
        s += (char)c;
    else if (c < 0x800) {
        s += (char)(0xc0 | c >> 6);
        s += (char)(0x80 | (c & 63));
    } else if (c < 0x10000) {
        s += (char)(0xe0 | c >> 12);
        s += (char)(0x80 | (c >> 6 & 63));
        s += (char)(0x80 | (c & 63));
    } else {
        s += (char)(0xf0 | c >> 18);
        s += (char)(0x80 | (c >> 12 & 63));
        s += (char)(0x80 | (c >> 6 & 63));
        s += (char)(0x80 | (c & 63));
    }
    return s;
}
inline string utf8(const U32& u) {
    string s;
    for (auto c : u) s += utf8(c);
    return s;
}

struct Val {
    Type type{T_INT};
    Uid u;
    int64_t i{0};
    double f{0};
    U32 s;
    static Val I(int64_t i) {
        Val v;
        v.type = T_INT;
        v.i = i;
        return v;
    }
    static Val U(Uid u) {
        Val v;
        v.type = T_UUID;
        v.u = u;
        return v;
    }
    static Val F(double f) {
        Val v;
        v.type = T_FLT;
        v.f = f;
        return v;
    }
    static Val S(const U32& s) {
        Val v;
        v.type = T_STR;
        v.s = s;
        return v;
    }
    static Val S(const char* a) {
        U32 s;
        while (*a) s += (char32_t)(unsigned char)*a++;
        return S(s);
    }
    bool operator==(const Val& b) const {
        if (type != b.type) return false;
        switch (type) {
            case T_UUID:
                return u == b.u;
            case T_INT:
                return i == b.i;
            case T_FLT:
                return memcmp(&f, &b.f, 8) == 0;
            case T_STR:
                return s == b.s;
        }
        return false;
    }
    bool operator!=(const Val& b) const { return !(*this == b); }
};

inline string show(const Val& v) {
    char b[64];
    switch (v.type) {
        case T_UUID:
            return ">" + text(v.u);
        case T_INT:
            return "=" + std::to_string(v.i);
        case T_FLT:
            snprintf(b, 64, "^%.17g", v.f);
            return b;
        case T_STR: {
            string r = "'";
            for (auto c : v.s) {
                if (c >= 32 && c < 127)
                    r += (char)c;
                else {
                    snprintf(b, 64, "<%x>", (unsigned)c);
                    r += b;
                }
            }
            return r + "'";
        }
    }
    return "?";
}

/** TERM: 0 ';' raw, 1 ',' reduced, 2 '!' header, 3 '?' query */
struct Op {
    Uid id, ref;
    vector<Val> vals;
    int term{1};
    bool same(const Op& b) const { return id == b.id && ref == b.ref && vals == b.vals; }
    bool operator==(const Op& b) const { return same(b); }
};
using Ops = vector<Op>;

inline string show(const Op& o) {
    string r = "@" + text(o.id) + " :" + text(o.ref);
    for (auto& v : o.vals) r += " " + show(v);
    r += ";,!?"[o.term];
    return r;
}
inline string show(const Ops& ops, size_t max = 60) {
    string r;
    size_t n = 0;
    for (auto& o : ops) {
        if (n++ == max) {
            r += "... " + std::to_string(ops.size()) + " ops\n";
            break;
        }
        r += show(o) + "\n";
    }
    return r;
}
inline bool same(const Ops& a, const Ops& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (!a[i].same(b[i])) return false;
    return true;
}
/** the first difference between two op sequences */
inline string diff(const Ops& got, const Ops& want) {
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i].same(want[i])) ++i;
    string r = "op " + std::to_string(i) + " of " + std::to_string(got.size()) + "/" +
               std::to_string(want.size()) + ": got ";
    r += i < got.size() ? show(got[i]) : "(end)";
    r += " expected ";
    r += i < want.size() ? show(want[i]) : "(end)";
    return r;
}

/** may `b` extend a span that ends with `a`? (as the text coding defines it) */
inline bool spannable(const Op& a, const Op& b) {
    if (b.ref != a.id || b.id != a.id.inc()) return false;
    if (a.vals.size() != b.vals.size()) return false;
    if (a.vals.empty()) return true;
    for (size_t i = 0; i + 1 < a.vals.size(); ++i)
        if (a.vals[i] != b.vals[i]) return false;
    auto &x = a.vals.back(), &y = b.vals.back();
    if (x == y) return true;
    return x.type == T_STR && y.type == T_STR && x.s.size() == 1 && y.s.size() == 1;
}

// ------------------------------------------------------------ generators ----

inline uint64_t gen_word(Gen& g) {
    switch (g.weighted({4, 3, 3, 2, 2, 1})) {
        case 0: {  // a short readable word
            size_t n = 1 + g.below(4);
            string s;
            for (size_t i = 0; i < n; ++i) s += b64()[10 + g.below(26)];
            return word_val(s);
        }
        case 1:  // a small number (low bits)
            return g.below(40);
        case 2: {  // any base64 word
            size_t n = 1 + g.below(10);
            string s;
            for (size_t i = 0; i < n; ++i) s += b64()[g.below(64)];
            return word_val(s);
        }
        case 3: {  // digits, maybe with an e in it
            string s;
            size_t n = 1 + g.below(6);
            for (size_t i = 0; i < n; ++i) s += (char)('0' + g.below(10));
            if (g.chance(1, 3) && s.size() > 1) s[1 + g.below(s.size() - 1)] = g.coin() ? 'e' : 'E';
            return word_val(s);
        }
        case 4:
            return g.one_of<uint64_t>({0, 1, 63, 64, PAY, PAY - 1, 1ULL << 54, (1ULL << 30) - 1,
                                       1ULL << 30, 1ULL << 59, 63ULL << 54});
        default:
            return g.u64() & PAY;
    }
}

/** any id: all varieties, versions, degenerate ones */
inline Uid gen_uid(Gen& g) {
    Uid u;
    u.value = gen_word(g);
    switch (g.weighted({5, 6, 2, 2})) {
        case 0:
            u.origin = V_TIME | gen_word(g);
            break;
        case 1:
            u.origin = V_NAME;
            break;
        case 2:
            u.origin = V_DERIVED | gen_word(g);
            break;
        default:
            u.origin = (uint64_t)g.below(4) << 60 | (g.coin() ? gen_word(g) : 0);
    }
    if (g.chance(1, 8)) u.value |= (uint64_t)g.below(16) << 60;
    // origin = all payload bits, version 0 marks an error code; it is legal in
    // text, and it is generated rarely
    return u;
}

/** an event id as a clock of one of a few replicas would make it */
inline Uid gen_event(Gen& g) {
    static const char* rep[] = {"A", "B", "orig", "gritzko", "2Zz~"};
    Uid u;
    u.origin = V_TIME | word_val(rep[g.below(5)]);
    switch (g.below(3)) {
        case 0:
            u.value = word_val("1gABC") + g.below(8);
            break;
        case 1:
            u.value = g.below(200) + 1;
            break;
        default:
            u.value = (word_val("1g") + g.below(1ULL << 40)) & PAY;
    }
    return u;
}

inline char32_t gen_cp(Gen& g) {
    switch (g.weighted({8, 4, 2, 2, 2, 1, 1})) {
        case 0:
            return 'a' + g.below(26);
        case 1:
            return g.one_of<char32_t>({'\'', '"', '\\', '/', ' ', '\n', '\r', '\t', '\b', '.', ',',
                                       ';', '(', ')', '@', ':', 'u', 'n', 't', 'b', 'f', '0', '>',
                                       '=', '^', '!', '?'});
        case 2:
            return 0x80 + g.below(0x800 - 0x80);
        case 3: {
            char32_t c = 0x800 + g.below(0x10000 - 0x800);
            return c >= 0xd800 && c < 0xe000 ? c - 0x1000 : c;
        }
        case 4:
            return 0x10000 + g.below(0x100000);
        case 5:
            return 1 + g.below(127);
        default:
            return g.one_of<char32_t>({0x7f, 0x80, 0x7ff, 0x800, 0xd7fe, 0xd7ff, 0xe000, 0xffff,
                                       0xfffe, 0x10000, 0x10ffff, 0x1, 0xc, 0xb, 0x7, 0xfeff,
                                       0x1f600, 0x1fffe, 0xfffd});
    }
}
inline U32 gen_str(Gen& g, unsigned avg = 4) {
    U32 s;
    if (g.chance(1, 60)) {
        size_t n = 30 + g.below(400);
        for (size_t i = 0; i < n; ++i) s += gen_cp(g);
        return s;
    }
    while (g.more(avg) && s.size() < 64) s += gen_cp(g);
    return s;
}
inline int64_t gen_int(Gen& g) {
    switch (g.weighted({5, 2, 3, 2})) {
        case 0:
            return g.range(-20, 20);
        case 1: {
            static const int64_t k[] = {0, 1, -1, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1,
                                        1LL << 53, -(1LL << 53), 999999999999999999LL,
                                        -999999999999999999LL, 1000000000000000000LL,
                                        -1000000000000000000LL, 922337203685477580LL,
                                        922337203685477581LL, -922337203685477581LL, INT32_MAX,
                                        (int64_t)INT32_MAX + 1, INT32_MIN, 1LL << 62, -(1LL << 62)};
            return k[g.below(sizeof k / sizeof *k)];
        }
        case 2: {
            uint64_t v = g.u64();
            v >>= g.below(64);
            return g.coin() ? -(int64_t)(v & INT64_MAX) : (int64_t)(v & INT64_MAX);
        }
        default: {  // any decimal length
            int64_t v = 0;
            size_t n = 1 + g.below(19);
            for (size_t i = 0; i < n; ++i) {
                int d = g.below(10);
                if (v > (INT64_MAX - d) / 10) break;
                v = v * 10 + d;
            }
            return g.coin() ? -v : v;
        }
    }
}
/** any finite double */
inline double gen_float(Gen& g) {
    double d = 0;
    switch (g.weighted({3, 3, 2, 2, 2})) {
        case 0:
            d = (double)g.range(-1000, 1000) / (double)g.one_of<int>({1, 2, 4, 8, 10, 100, 3, 7});
            break;
        case 1: {
            uint64_t b = g.u64();
            memcpy(&d, &b, 8);
            break;
        }
        case 2: {
            static const double k[] = {0.0, -0.0, 1.0, -1.0, 3.0, 1e15, 1e16, 1e17, 1e18, 1e300, -1e300, 5e-324,
                                       2.2250738585072014e-308, 1.7976931348623157e308,
                                       -1.7976931348623157e308, 0.1, 1.0 / 3, 9007199254740993.0, 1e-5,
                                       123456789012345678.0, -2.2250738585072011e-308, -5e-324};
            d = k[g.below(sizeof k / sizeof *k)];
            break;
        }
        case 3: {
            int e = (int)g.range(-300, 300);
            d = (double)g.range(-9999, 9999) * std::pow(10.0, e);
            break;
        }
        default: {
            int64_t i = gen_int(g);
            d = (double)i;
        }
    }
    if (!std::isfinite(d)) d = 1.5;
    return d;
}

inline Val gen_val(Gen& g) {
    switch (g.weighted({4, 4, 3, 3})) {
        case 0:
            return Val::I(gen_int(g));
        case 1:
            return Val::S(gen_str(g));
        case 2:
            return Val::U(gen_uid(g));
        default:
            return Val::F(gen_float(g));
    }
}

/** a sequence of ops where compressible runs, default ids and refs are common */
inline Ops gen_ops(Gen& g, unsigned avg = 5, size_t max = 40) {
    Ops ops;
    Uid last{};
    while (ops.size() < max && (ops.empty() || g.more(avg))) {
        Op o;
        bool run = !ops.empty() && g.chance(2, 5);
        if (run) {
            // continue the previous op: next id, chained; the same value or a
            // sibling of it
            const Op& p = ops.back();
            o.id = p.id.inc();
            o.ref = p.id;
            switch (g.weighted({3, 3, 1, 1})) {
                case 0:
                    o.vals = p.vals;
                    break;
                case 1:
                    o.vals.push_back(Val::S(U32(1, gen_cp(g))));
                    break;
                case 2:
                    o.vals.push_back(gen_val(g));
                    break;
                default:
                    while (g.more(1) && o.vals.size() < 5) o.vals.push_back(gen_val(g));
            }
        } else {
            switch (g.weighted({5, 2, 2, 1})) {
                case 0:
                    o.id = gen_event(g);
                    break;
                case 1:
                    o.id = gen_uid(g);
                    break;
                case 2:
                    o.id = last.inc();
                    break;
                default:
                    o.id = last;
            }
            switch (g.weighted({3, 3, 2, 1, 1})) {
                case 0:
                    o.ref = uid(g.one_of<const char*>({"lww", "rga", "max", "log", "meta", "mx", "0"}));
                    break;
                case 1:
                    o.ref = last;
                    break;
                case 2:
                    o.ref = gen_event(g);
                    break;
                case 3:
                    o.ref = gen_uid(g);
                    break;
                default:
                    o.ref = ops.empty() ? Uid{} : ops[g.below(ops.size())].id;
            }
            switch (g.weighted({2, 3, 2, 1})) {
                case 0:
                    o.vals.push_back(gen_val(g));
                    break;
                case 1:
                    o.vals.push_back(Val::S(U32(1, gen_cp(g))));
                    break;
                case 2:
                    while (g.more(2) && o.vals.size() < 12) o.vals.push_back(gen_val(g));
                    break;
                default:
                    o.vals.push_back(Val::U(uid(g.one_of<const char*>({"rm", "un", "key", "0", "A+B"}))));
            }
        }
        o.term = g.chance(1, 4) ? (int)g.one_of<int>({0, 0, 2, 3}) : 1;
        last = o.id;
        ops.push_back(o);
    }
    if (!ops.empty() && ops.back().term == 1) ops.back().term = 0;
    return ops;
}

// ------------------------------------------------------ reference writer ----

/** sizes about the limits of 8 and 16 bits, and any between */
inline size_t gen_large_size(Gen& g, size_t max = 140000) {
    size_t n = 0;
    switch (g.weighted({4, 3, 2, 2})) {
        case 0:
            n = 250 + g.below(20);
            break;
        case 1:
            n = 300 + g.below(4000);
            break;
        case 2:
            n = 65520 + g.below(40);
            break;
        default:
            n = 4000 + g.below(max);
    }
    return std::min(n, max);
}
/** ops of large sizes: many of them, ops of many values, long strings; what is
 *  in them comes from a generator of its own */
inline Ops gen_large(Gen& g, size_t max = 70000) {
    Ops ops;
    unsigned shape = (unsigned)g.weighted({1, 1, 1, 1});
    size_t n = gen_large_size(g, shape < 2 ? max : 2 * max);
    Gen bulk = g.bulk();
    unsigned style = (unsigned)g.below(4);
    auto str = [&](size_t len) {
        U32 s;
        char32_t one = gen_cp(bulk);
        for (size_t i = 0; i < len; ++i) s.push_back(style == 0 ? one : style == 1 ? U'a' + (char32_t)bulk.below(26) : gen_cp(bulk));
        return s;
    };
    auto val = [&]() {
        switch (style) {
            case 0:
                return Val::I(gen_int(bulk));
            case 1:
                return Val::S(U32(1 + bulk.below(3), gen_cp(bulk)));
            default:
                return gen_val(bulk);
        }
    };
    if (shape == 1) {  // many ops
        Uid at = gen_event(g);
        if (at.value > PAY / 2) at.value = word_val("1gABC");
        for (size_t i = 0; i < n; ++i) {
            Op o;
            o.id = i ? ops.back().id.inc() : at;
            if (i && bulk.chance(1, style == 3 ? 3 : 40)) o.id = gen_event(bulk);
            o.ref = i && !bulk.chance(1, 20) ? ops.back().id : gen_event(bulk);
            if (!bulk.chance(1, 8)) o.vals.push_back(style == 1 ? Val::S(U32(1, gen_cp(bulk))) : val());
            o.term = bulk.chance(1, 30) ? (int)bulk.below(4) : 1;
            ops.push_back(o);
        }
        ops.back().term = 0;
        return ops;
    }
    ops = gen_ops(g, 1, 3);
    size_t at = g.below(ops.size());
    if (shape == 0) {  // many values
        for (size_t i = 0; i < n; ++i) ops[at].vals.push_back(val());
    } else {  // a long string, or a few
        ops[at].vals.push_back(Val::S(str(n)));
        if (shape == 3) {
            ops[at].vals.push_back(val());
            ops[g.below(ops.size())].vals.push_back(Val::S(str(gen_large_size(g))));
        }
    }
    return ops;
}

inline string hex4(unsigned c, bool upper) {
    char b[8];
    snprintf(b, 8, upper ? "\\u%04X" : "\\u%04x", c);
    return b;
}

/** how the text is laid out; every choice is legal */
struct Layout {
    Gen* g{nullptr};
    bool canonical() const { return !g; }
    bool flip(unsigned n, unsigned d) { return g && g->chance(n, d); }
    string ws(unsigned min) {
        if (!g) return string(min, ' ');
        string s;
        while (s.size() < min || (s.size() < 4 && g->chance(1, 6)))
            s += " \n\t\r"[g->weighted({5, 2, 1, 1})];
        return s;
    }
    string cp(char32_t c) {
        // must be escaped: newline, CR, quote, backslash
        switch (c) {
            case '\n':
                return flip(1, 4) ? hex4(c, false) : "\\n";
            case '\r':
                return flip(1, 4) ? hex4(c, false) : "\\r";
            case '\\':
                return flip(1, 4) ? hex4(c, false) : "\\\\";
            case '\'':
                return flip(1, 4) ? hex4(c, true) : "\\'";
            case '\t':
                return flip(1, 2) ? "\t" : "\\t";
            case '\b':
                return flip(1, 2) ? "\b" : "\\b";
            case '"':
                return flip(1, 2) ? "\\\"" : "\"";
            case '/':
                return flip(1, 2) ? "\\/" : "/";
        }
        if (c < 0x10000 && flip(1, 8)) return hex4(c, flip(1, 2));
        return utf8(c);
    }
    string quoted(const U32& s) {
        string r = "'";
        for (auto c : s) r += cp(c);
        return r + "'";
    }
    string integer(int64_t i) {
        string s = std::to_string(i);
        if (i >= 0 && flip(1, 10)) s = "+" + s;
        if (flip(1, 12)) {
            size_t at = s[0] == '-' || s[0] == '+' ? 1 : 0;
            if (s.size() < 12) s.insert(at, string(1 + g->below(3), '0'));
        }
        return s;
    }
    string floating(double f) {
        char b[64];
        snprintf(b, 64, "%.17g", f);
        // shorter forms that read back exactly
        if (flip(1, 2)) {
            for (int p = 1; p < 17; ++p) {
                char c[64];
                snprintf(c, 64, "%.*g", p, f);
                if (strtod(c, nullptr) == f) {
                    strcpy(b, c);
                    break;
                }
            }
        }
        string s = b;
        if (s.find_first_of(".e") == string::npos) s += flip(1, 2) ? "e0" : ".0";
        if (flip(1, 3))
            for (auto& c : s)
                if (c == 'e') c = 'E';
        if (f >= 0 && !std::signbit(f) && flip(1, 12) && s.size() < 24) s = "+" + s;
        return s;
    }
};

/** whether an id's text, unquoted among the values, could be read as a number */
inline bool numeric_looking(const string& t) {
    size_t i = 0;
    auto digits = [&] {
        size_t b = i;
        while (i < t.size() && isdigit((unsigned char)t[i])) ++i;
        return i > b;
    };
    if (!digits()) return false;
    if (i == t.size()) return true;
    if (t[i] == 'e' || t[i] == 'E') {
        ++i;
        if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
        return digits() && i == t.size();
    }
    return false;
}

inline string uuid_layout(Layout& l, const Uid& u) {
    string t = text(u);
    // an explicit NAME version, trailing zeroes and an explicit variety are legal spellings
    if (l.flip(1, 20)) {
        string w = word_text(u.value & PAY, l.flip(1, 2));
        int var = u.value >> 60;
        string r;
        if (var || l.flip(1, 2)) {
            r += b64()[var];
            r += '/';
        }
        r += w;
        int ver = (u.origin >> 60) & 3;
        if (ver || (u.origin & PAY) || l.flip(1, 2)) {
            r += "$%+-"[ver];
            r += word_text(u.origin & PAY, l.flip(1, 2));
        }
        return r;
    }
    return t;
}

/** writes the values of one op; each begins with its own separator */
inline string vals_text(Layout& l, const vector<Val>& vals, bool has_spec) {
    string r;
    constexpr bool unspaced_ok = true;
    bool first = true;
    for (auto& v : vals) {
        // an op without a spec may begin with a bare value right away
        unsigned sep = first && !has_spec && l.flip(1, 2) ? 0 : 1;
        first = false;
        switch (v.type) {
            case T_INT:
                if (l.flip(1, 4))
                    r += l.ws(unspaced_ok ? 0 : 1) + "=" + (l.flip(1, 4) ? l.ws(1) : "") + l.integer(v.i);
                else
                    r += l.ws(sep) + l.integer(v.i);
                break;
            case T_FLT:
                if (l.flip(1, 4))
                    r += l.ws(unspaced_ok ? 0 : 1) + "^" + (l.flip(1, 4) ? l.ws(1) : "") + l.floating(v.f);
                else
                    r += l.ws(sep) + l.floating(v.f);
                break;
            case T_UUID: {
                string t = uuid_layout(l, v.u);
                if (numeric_looking(t) || l.flip(1, 4))
                    r += l.ws(unspaced_ok ? 0 : 1) + ">" + (l.flip(1, 4) ? l.ws(1) : "") + t;
                else
                    r += l.ws(sep) + t;
                break;
            }
            case T_STR:
                r += l.ws(l.canonical() ? 1 : 0) + l.quoted(v.s);
                break;
        }
    }
    return r;
}

/** the text of an op sequence; consecutive compressible ops may be written as
 *  one span. terms: an op's own term. prev: the id before the first op */
inline string write_doc(Layout l, const Ops& ops, bool spans, size_t* nspans = nullptr,
                        Uid prev = Uid{}) {
    string r;
    for (size_t i = 0; i < ops.size();) {
        const Op& o = ops[i];
        r += l.ws(0);
        bool defid = o.id == prev.inc(), defref = o.ref == prev;
        bool wid = !(defid && defref) || l.flip(1, 5);
        bool wref = !defref || (wid && l.flip(1, 4));
        if (wid) {
            r += "@" + uuid_layout(l, o.id);
            if (wref) r += l.ws(l.canonical() ? 1 : 0) + ":" + uuid_layout(l, o.ref);
        }
        size_t n = 1;
        bool spread = false;
        if (spans) {
            while (i + n < ops.size() && spannable(ops[i + n - 1], ops[i + n]) &&
                   ops[i + n - 1].term == 1)
                ++n;
            // the terms inside a span are the span's; only a run up to a chunk
            // end, or inside a chunk, is one span
            if (n > 1 && l.g) n = 1 + l.g->below(n);
            if (n > 1) {
                auto& v = o.vals;
                bool eq = true;
                for (size_t k = 1; k < n; ++k)
                    if (!(ops[i + k].vals == v)) eq = false;
                spread = !eq;
                if (eq && !v.empty() && v.back().type == T_STR && v.back().s.size() == 1 &&
                    l.flip(1, 2))
                    spread = true;
            }
        }
        if (n > 1 && spread) {
            vector<Val> head(o.vals.begin(), o.vals.end() - 1);
            r += vals_text(l, head, wid);
            r += l.ws(l.canonical() ? 1 : 0) + "(" + l.ws(0);
            U32 s;
            for (size_t k = 0; k < n; ++k) s += ops[i + k].vals.back().s;
            r += l.quoted(s) + l.ws(0) + ")";
        } else {
            r += vals_text(l, o.vals, wid);
            if (n > 1 || (spans && l.flip(1, 12))) {
                r += l.ws(l.canonical() ? 1 : 0) + "(" + l.ws(0) + std::to_string(n) + l.ws(0) + ")";
            }
        }
        if (n > 1 && nspans) ++*nspans;
        r += l.ws(0);
        r += ";,!?"[ops[i + n - 1].term];
        if (l.canonical()) r += "\n";
        prev = ops[i + n - 1].id;
        i += n;
    }
    r += l.ws(0);
    return r;
}

}  // namespace model
#endif
