// An independent reader of the text coding (hand-written from the grammar in
// ragel/*.rl), and generators of well-formed, broken and arbitrary texts.
#ifndef REFREAD_HPP
#define REFREAD_HPP
#include "model.hpp"

namespace model {

struct RefFrame {
    Ops ops;             // ops completed before the end or the error
    bool error{false};
    bool capped{false};  // stopped at the cap
    size_t spans{0};
    string why;
};

struct RefReader {
    const string& s;
    size_t max;
    RefFrame f;
    size_t p{0};
    string err;

    RefReader(const string& text, size_t cap) : s{text}, max{cap} {}

    bool eof() const { return p >= s.size(); }
    char c() const { return p < s.size() ? s[p] : 0; }
    static bool is_ws(char c) { return c == ' ' || c == '\r' || c == '\n' || c == '\t'; }
    bool ws() {
        size_t b = p;
        while (!eof() && is_ws(s[p])) ++p;
        return p > b;
    }
    string token() {
        size_t b = p;
        while (!eof() && (b64val(s[p]) >= 0 || strchr("$%+-./", s[p])) && s[p]) ++p;
        return s.substr(b, p - b);
    }
    static bool is_int(const string& t) {
        size_t i = !t.empty() && (t[0] == '-' || t[0] == '+') ? 1 : 0;
        if (i == t.size()) return false;
        for (; i < t.size(); ++i)
            if (t[i] < '0' || t[i] > '9') return false;
        return true;
    }
    static bool is_float(const string& t) {
        size_t i = !t.empty() && (t[0] == '-' || t[0] == '+') ? 1 : 0;
        auto digits = [&] {
            size_t b = i;
            while (i < t.size() && t[i] >= '0' && t[i] <= '9') ++i;
            return i > b;
        };
        if (!digits() || i == t.size()) return false;
        bool frac = false;
        if (t[i] == '.') {
            ++i;
            frac = true;
            if (!digits()) return false;
            if (i == t.size()) return true;
        }
        if (t[i] != 'e' && t[i] != 'E') return false;
        ++i;
        if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
        return digits() && i == t.size();
    }
    bool fail(const string& why) {
        err = why;
        return false;
    }
    bool take_int(const string& t, Val& v) {
        if (!is_int(t)) return fail("no integer: " + t);
        bool neg = t[0] == '-';
        string d = t.substr(t[0] == '-' || t[0] == '+' ? 1 : 0);
        if (d.size() > 19) return fail("an oversized integer");
        if (d.size() == 19 && d > (neg ? "9223372036854775808" : "9223372036854775807"))
            return fail("an integer out of range");
        uint64_t u = 0;
        for (char ch : d) u = u * 10 + (ch - '0');
        v = Val::I((int64_t)(neg ? 0 - u : u));
        return true;
    }
    bool take_float(const string& t, Val& v) {
        if (!is_float(t)) return fail("no float: " + t);
        if (t.size() > 24) return fail("an oversized float");
        v = Val::F(strtod(t.c_str(), nullptr));
        return true;
    }
    bool take_uuid(const string& t, Uid& u) {
        if (!parse_uid(t, u)) return fail("no uuid: " + t);
        return true;
    }
    bool bare(Val& v) {
        string t = token();
        if (is_int(t)) return take_int(t, v);
        if (is_float(t)) return take_float(t, v);
        v = Val::U(Uid{});
        return take_uuid(t, v.u);
    }
    bool str(U32& r) {
        if (c() != '\'' || eof()) return fail("no string");
        ++p;
        for (;;) {
            if (eof()) return fail("an open string");
            unsigned char ch = s[p];
            if (ch == '\'') {
                ++p;
                return true;
            }
            char32_t cp = 0;
            if (ch == '\\') {
                ++p;
                if (eof()) return fail("an open string");
                char e = s[p++];
                switch (e) {
                    case 'n': cp = '\n'; break;
                    case 'r': cp = '\r'; break;
                    case 't': cp = '\t'; break;
                    case 'b': cp = '\b'; break;
                    case '\\': case '\'': case '/': case '"': cp = e; break;
                    case 'u':
                        for (int i = 0; i < 4; ++i, ++p) {
                            char h = c();
                            if (eof() || !isxdigit((unsigned char)h)) return fail("a bad hex escape");
                            cp = cp << 4 | (isdigit((unsigned char)h) ? h - '0' : (h | 32) - 'a' + 10);
                        }
                        break;
                    default:
                        return fail("a bad escape");
                }
            } else if (ch == '\n' || ch == '\r' || ch == 0) {
                return fail("a raw control character in a string");
            } else if (ch < 0x80) {
                cp = ch;
                ++p;
            } else {
                int n = ch >= 0xc0 && ch < 0xe0 ? 1 : ch >= 0xe0 && ch < 0xf0 ? 2 : ch >= 0xf0 && ch < 0xf8 ? 3 : -1;
                if (n < 0) return fail("bad utf-8");
                cp = ch & (n == 1 ? 0x1f : n == 2 ? 0xf : 7);
                ++p;
                while (n--) {
                    if (eof() || ((unsigned char)s[p] & 0xc0) != 0x80) return fail("bad utf-8");
                    cp = cp << 6 | ((unsigned char)s[p++] & 0x3f);
                }
            }
            if (!cp) return fail("a zero code point");
            r += cp;
        }
    }
    /** an op; false on a syntax error */
    bool op(Uid& prev) {
        Op o;
        o.id = prev.inc();
        o.ref = prev;
        bool spaced = false;
        if (c() == '@' && !eof()) {
            ++p;
            if (!take_uuid(token(), o.id)) return false;
            spaced = ws();
            if (!eof() && c() == ':') {
                spaced = false;
                ++p;
                if (!take_uuid(token(), o.ref)) return false;
            }
        } else if (!eof() && (b64val(c()) >= 0 || c() == '-' || c() == '+')) {
            Val v;
            if (!bare(v)) return false;
            o.vals.push_back(v);
        }
        for (;;) {
            bool sp = ws() || spaced;
            spaced = false;
            if (eof()) return fail("no term");
            Val v;
            char ch = c();
            if (ch == '=') {
                ++p;
                ws();
                if (!take_int(token(), v)) return false;
            } else if (ch == '^') {
                ++p;
                ws();
                if (!take_float(token(), v)) return false;
            } else if (ch == '>') {
                ++p;
                ws();
                v = Val::U(Uid{});
                if (!take_uuid(token(), v.u)) return false;
            } else if (ch == '\'') {
                v = Val::S(U32{});
                if (!str(v.s)) return false;
            } else if (sp && (b64val(ch) >= 0 || ch == '-' || ch == '+')) {
                if (!bare(v)) return false;
            } else
                break;
            o.vals.push_back(v);
        }
        uint64_t n = 1;
        U32 spread;
        bool is_spread = false;
        if (c() == '(') {
            ++p;
            ws();
            if (!eof() && isdigit((unsigned char)c())) {
                n = 0;
                while (!eof() && isdigit((unsigned char)c())) {
                    if (n > (1u << 30) / 10) return fail("an oversized span");
                    n = n * 10 + (c() - '0');
                    ++p;
                }
                if (!n) return fail("an empty span");
            } else {
                is_spread = true;
                if (!str(spread)) return false;
                n = spread.size();
                if (!n) return fail("an empty span");
            }
            ws();
            if (eof() || c() != ')') return fail("an open span");
            ++p;
            ws();
            ++f.spans;
        }
        if (eof()) return fail("no term");
        auto t = string(";,!?").find(c());
        if (t == string::npos) return fail("unexpected character");
        ++p;
        o.term = (int)t;
        if (is_spread) o.vals.push_back(Val::S(U32{}));
        for (uint64_t i = 0; i < n; ++i) {
            if (f.ops.size() >= max) {
                f.capped = true;
                return true;
            }
            if (is_spread) o.vals.back().s = U32(1, spread[i]);
            f.ops.push_back(o);
            if (i + 1 < n) f.ops.back().term = 1;  // the term ends the span
            prev = o.id;
            o.ref = o.id;
            o.id = o.id.inc();
        }
        return true;
    }
    RefFrame read() {
        Uid prev{};
        for (;;) {
            ws();
            if (eof()) break;
            if (c() == '.') {
                if (s.compare(p, string::npos, ".\n") != 0) {
                    f.error = true;
                    f.why = "text after the end of the frame";
                }
                break;
            }
            if (!op(prev)) {
                f.error = true;
                f.why = err;
                break;
            }
            if (f.capped) break;
        }
        return f;
    }
};

inline RefFrame ref_read(const string& s, size_t max = 100000) { return RefReader{s, max}.read(); }

/** text made of tokens: often nearly a frame */
inline string gen_soup(Gen& g, unsigned avg = 12) {
    string r;
    while (g.more(avg) && r.size() < 4000) {
        switch (g.weighted({10, 4, 3, 3, 3, 3, 2, 2, 1, 2})) {
            case 0:
                r += g.one_of<const char*>({"@", ":", " ", "=", "^", ">", "'", "(", ")", ",", ";", "!",
                                            "?", ".\n", ".", "\n", "\\", "\\u", "/", "+", "-", "$", "%",
                                            "e", "E", "@A+B", ":C+D", "('ab')", "(3)", "(0)", "('')",
                                            "('\\u0041')", "*", "#", "\t", "\r", "~", "rm", "1.", ".5"});
                break;
            case 1:
                r += text(gen_uid(g));
                break;
            case 2:
                r += std::to_string(gen_int(g));
                break;
            case 3: {
                char b[64];
                snprintf(b, 64, g.coin() ? "%.17g" : "%g", gen_float(g));
                r += b;
                break;
            }
            case 4:
                r += "'" + utf8(gen_str(g, 3)) + "'";
                break;
            case 5: {
                Layout l{&g};
                r += l.quoted(gen_str(g, 3));
                break;
            }
            case 6: {  // digits of any number, often about a limit
                if (g.coin()) r += g.one_of<const char*>({"+", "-"});
                size_t n = g.one_of<size_t>({1, 2, 9, 10, 11, 17, 18, 19, 20, 21, 23, 24, 25, 26, 40});
                for (size_t i = 0; i < n; ++i) r += (char)('0' + g.below(10));
                if (g.chance(1, 4)) r += ".5";
                if (g.chance(1, 4)) r += "e3";
                break;
            }
            case 7: {  // a word of any length
                size_t n = g.one_of<size_t>({1, 2, 9, 10, 11, 12, 20, 21});
                for (size_t i = 0; i < n; ++i) r += b64()[g.below(64)];
                break;
            }
            case 8:
                r += (char)g.below(256);
                break;
            default: {
                Layout l{&g};
                Ops ops = gen_ops(g, 1, 4);
                r += write_doc(l, ops, true);
            }
        }
    }
    return r;
}

/** small edits of a text */
inline string gen_mutation(Gen& g, string s) {
    size_t n = 1 + (g.chance(1, 3) ? g.below(3) : 0);
    while (n--) {
        size_t at = s.empty() ? 0 : g.below(s.size() + 1);
        switch (g.weighted({3, 3, 3, 2, 2, 1})) {
            case 0:
                if (at < s.size()) s.erase(at, 1 + g.below(g.chance(1, 4) ? 8 : 1));
                break;
            case 1:
                s.insert(at, 1, g.pick(string("@:=^>'(),;!?. \n\t\\/+-$%eE0159ABab~_uf\"*#\x80\xc3\xff")));
                break;
            case 2:
                if (at < s.size()) s[at] = g.pick(string("@:=^>'(),;!?. \n\t\\/+-$%eE0159ABab~_uf\"*#\x80\xc3\xff"));
                break;
            case 3:
                s.resize(at);
                break;
            case 4: {  // repeat or move a piece
                if (at < s.size()) {
                    string piece = s.substr(at, 1 + g.below(12));
                    s.insert(g.below(s.size() + 1), piece);
                }
                break;
            }
            default:
                if (at < s.size()) s[at] = (char)(s[at] ^ (1 << g.below(8)));
        }
    }
    return s;
}

/** any text: a frame in any layout, a broken one, a soup, raw bytes */
inline string gen_text(Gen& g) {
    Layout l{&g};
    switch (g.weighted({2, 5, 5, 2})) {
        case 0:
            return write_doc(l, gen_ops(g, 4, 20), true);
        case 1: {
            string s = write_doc(l, gen_ops(g, 3, 12), true);
            if (g.chance(1, 4)) s += ".\n";
            return gen_mutation(g, s);
        }
        case 2:
            return gen_soup(g);
        default: {
            string s;
            while (g.more(20) && s.size() < 500) s += (char)g.below(256);
            return s;
        }
    }
}

}  // namespace model
#endif
