// FUZZ: yes
#include "lib/bridge.hpp"
#include "lib/refread.hpp"
#include <cfloat>
using namespace model;
using ron::TextFrame;

PROPERTY("T07",
         "64-bit integers (every decimal length, powers of two and ten, limits), finite doubles (random "
         "bits, subnormals, exact halves, shortest and longest decimals, whole numbers) written and read; "
         "decimal spellings (signs, leading zeroes, exponents) against strtoll/strtod done independently "
         "and exact rational neighbours; values out of range refused; non-trivial: a number of 3 digits or more",
         "NaN and infinities have no text form and are not written",
         "a float is at most 24 characters, as the parser documents")

static string bits(double d) {
    uint64_t u;
    memcpy(&u, &d, 8);
    char b[64];
    snprintf(b, 64, "%.17g (%016llx)", d, (unsigned long long)u);
    return b;
}
static bool same_bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }

static int64_t any_int(pbt::Gen& g) {
    switch (g.below(3)) {
        case 0:
            return gen_int(g);
        case 1: {
            int64_t p = 1LL << g.below(63);
            p += g.range(-2, 2);
            return g.coin() ? p : -p;
        }
        default: {
            uint64_t p = 1;
            for (size_t n = g.below(19); n; --n) p *= 10;
            int64_t v = (int64_t)p + g.range(-1, 1);
            return g.coin() ? v : -v;
        }
    }
}
static double any_float(pbt::Gen& g) {
    double d;
    switch (g.below(5)) {
        case 0:
            return gen_float(g);
        case 1: {  // any bits
            uint64_t u = g.u64();
            memcpy(&d, &u, 8);
            return std::isfinite(d) ? d : 1.0 / 3;
        }
        case 2:  // a whole number, maybe large
            return (double)any_int(g) * (g.chance(1, 4) ? 1e10 : 1);
        case 3:  // about a power of ten or two
            d = g.coin() ? std::pow(10.0, (int)g.range(-307, 307)) : std::ldexp(1.0, (int)g.range(-1070, 1020));
            for (size_t n = g.below(3); n; --n) d = std::nextafter(d, g.coin() ? DBL_MAX : 0);
            return g.coin() ? d : -d;
        default:  // a short decimal
            return (double)g.range(-99999, 99999) / std::pow(10.0, (int)g.below(8));
    }
}

static TextFrame write(const ron::Op& op) {
    TextFrame::Builder b;
    b.AppendOp(op);
    return b.Release();
}

FACET(integers_written, 900000, 9000000) {
    vector<int64_t> v;
    do v.push_back(any_int(g));
    while (g.coin() && v.size() < 6);
    ron::Op op{ron::Uuid{"1+A"}, ron::Uuid{"lww"}};
    for (auto i : v) {
        op.WriteAtoms((ron::Integer)i);
        g.note(std::to_string(i));
        if (i > 99 || i < -99) g.nontrivial();
    }
    TextFrame f = write(op);
    auto c = f.cursor();
    CHECK((bool)c.Next(), "integers are not read: [" << f.data() << "]");
    CHECK(c.op().size() == v.size() + 2, "other values: [" << f.data() << "]");
    for (size_t i = 0; i < v.size(); ++i) {
        ron::Atom a = c.atom(i + 2);
        CHECK(a.type() == ron::INT, v[i] << " reads as another type: [" << f.data() << "]");
        CHECK(a.value.as_integer == v[i], v[i] << " reads as " << a.value.as_integer);
    }
    CHECK(!c.Next(), "more ops than written");
}

FACET(floats_written, 800000, 3000000) {
    vector<double> v;
    do v.push_back(any_float(g));
    while (g.coin() && v.size() < 6);
    ron::Op op{ron::Uuid{"1+A"}, ron::Uuid{"lww"}};
    for (auto d : v) {
        op.WriteAtoms((ron::Float)d);
        g.note(bits(d));
        if (d != std::floor(d) || std::fabs(d) > 99) g.nontrivial();
        if (d == std::floor(d)) g.cls("a whole float");
        if (std::fabs(d) < DBL_MIN && d != 0) g.cls("subnormal");
    }
    TextFrame f = write(op);
    g.note(f.data());
    auto c = f.cursor();
    CHECK((bool)c.Next(), "floats are not read: [" << f.data() << "]");
    CHECK(c.op().size() == v.size() + 2, "other values: [" << f.data() << "]");
    for (size_t i = 0; i < v.size(); ++i) {
        ron::Atom a = c.atom(i + 2);
        CHECK(a.type() == ron::FLOAT, bits(v[i]) << " reads as another type: [" << f.data() << "]");
        CHECK(same_bits(a.value.as_float, v[i]), bits(v[i]) << " reads as " << bits(a.value.as_float) << ": [" << f.data() << "]");
    }
    // a raw copy and a parsed copy keep the value
    TextFrame::Builder b1, b2;
    b1.AppendOp(c);
    b2.AppendOp(ron::Op::Amend(c.id(), c.ref(), c));
    for (const TextFrame& k : {b1.Release(), b2.Release()}) {
        auto d = k.cursor();
        CHECK((bool)d.Next(), "a copy of floats is not read");
        for (size_t i = 0; i < v.size(); ++i)
            CHECK(same_bits(d.atom(i + 2).value.as_float, v[i]), "a copy of " << bits(v[i]) << " reads as " << bits(d.atom(i + 2).value.as_float));
    }
}

/** an exact decimal reader: is `d` the correctly rounded value of the text?
 *  Compares the text with the midpoints to both neighbours in big integers. */
struct Big {
    vector<uint32_t> w;
    explicit Big(uint64_t v = 0) {
        while (v) {
            w.push_back((uint32_t)v);
            v >>= 32;
        }
    }
    void mul(uint32_t m) {
        uint64_t c = 0;
        for (auto& x : w) {
            c += (uint64_t)x * m;
            x = (uint32_t)c;
            c >>= 32;
        }
        if (c) w.push_back((uint32_t)c);
    }
    void add(uint32_t a) {
        uint64_t c = a;
        for (auto& x : w) {
            if (!c) return;
            c += x;
            x = (uint32_t)c;
            c >>= 32;
        }
        if (c) w.push_back((uint32_t)c);
    }
    void shl(unsigned n) {
        for (; n >= 16; n -= 16) mul(1 << 16);
        if (n) mul(1u << n);
    }
    static int cmp(const Big& a, const Big& b) {
        size_t n = a.w.size(), m = b.w.size();
        while (n && !a.w[n - 1]) --n;
        while (m && !b.w[m - 1]) --m;
        if (n != m) return n < m ? -1 : 1;
        while (n--)
            if (a.w[n] != b.w[n]) return a.w[n] < b.w[n] ? -1 : 1;
        return 0;
    }
};
/** compares digits*10^e10 with m*2^e2 */
static int cmp_dec(const string& digits, int e10, uint64_t m, int e2) {
    Big a(0), b(m);
    a.w = {0};
    for (char c : digits) {
        a.mul(10);
        a.add(c - '0');
    }
    for (int i = 0; i < e10; ++i) a.mul(10);
    for (int i = 0; i < -e10; ++i) b.mul(10);
    if (e2 > 0) b.shl(e2);
    if (e2 < 0) a.shl(-e2);
    return Big::cmp(a, b);
}
static bool correctly_rounded(const string& t, double d) {
    size_t i = 0;
    bool neg = t[0] == '-';
    if (t[0] == '-' || t[0] == '+') ++i;
    string dig;
    int e = 0;
    while (i < t.size() && isdigit(t[i])) dig += t[i++];
    if (i < t.size() && t[i] == '.') {
        ++i;
        while (i < t.size() && isdigit(t[i])) {
            dig += t[i++];
            --e;
        }
    }
    if (i < t.size()) {
        long x = strtol(t.c_str() + i + 1, nullptr, 10);
        if (x > 2000) x = 2000;
        if (x < -2000) x = -2000;
        e += (int)x;
    }
    bool zero = dig.find_first_not_of('0') == string::npos;
    if (std::signbit(d) != neg) return false;
    if (zero) return d == 0;
    uint64_t u;
    memcpy(&u, &d, 8);
    u &= ~(1ULL << 63);
    uint64_t exp = u >> 52, man = u & ((1ULL << 52) - 1);
    if (exp == 2047) {  // overflow: at least the midpoint beyond DBL_MAX
        if (man) return false;
        return cmp_dec(dig, e, (1ULL << 54) - 1, 970) >= 0;
    }
    uint64_t m = exp ? man | 1ULL << 52 : man;
    int e2 = exp ? (int)exp - 1075 : -1074;
    bool even = !(m & 1);
    // the midpoint above: (2m+1) * 2^(e2-1)
    int up = cmp_dec(dig, e, 2 * m + 1, e2 - 1);
    if (up > 0 || (up == 0 && !even)) return false;
    if (m == 0) return true;
    int dn = m == 1ULL << 52 && exp > 1 ? cmp_dec(dig, e, 4 * m - 1, e2 - 2) : cmp_dec(dig, e, 2 * m - 1, e2 - 1);
    return !(dn < 0 || (dn == 0 && !even));
}

FACET(floats_spelled, 600000, 1500000) {
    string t = g.one_of<const char*>({"", "-", "+", ""});
    switch (g.below(4)) {
        case 0: {  // random digits
            size_t n = 1 + g.below(21), point = g.below(n + 1);
            for (size_t i = 0; i < n; ++i) {
                t += (char)('0' + g.below(10));
                if (i + 1 == point && i + 1 < n) t += '.';
            }
            break;
        }
        case 1: {  // the exact or nearly exact decimal of a midpoint
            uint64_t m = (1ULL << 53) + g.below(1ULL << 53);
            t += std::to_string(m | 1);
            if (g.coin()) t.back() = (char)('0' + g.below(10));
            t += g.one_of<const char*>({".0", ".5", ".5001", ".4999", ".000001"});
            break;
        }
        case 2: {
            char b[64];
            snprintf(b, 64, "%.*g", (int)(1 + g.below(20)), std::fabs(any_float(g)));
            t += b;
            break;
        }
        default:
            t += std::to_string(g.below(1000)) + "." + string(g.below(12), '0') + std::to_string(g.below(100000));
    }
    if (t.find_first_of("eE") == string::npos && g.coin()) {
        t += g.coin() ? "e" : "E";
        t += g.one_of<const char*>({"", "-", "+"});
        t += std::to_string(g.coin() ? g.below(30) : g.below(330));
    }
    if (t.find_first_of(".eE") == string::npos) t += ".0";
    bool quoted = g.coin();
    bool over = t.size() > 24;
    string s = string("@1+A :lww") + (quoted ? "^" : " ") + (quoted && g.coin() ? " " : "") + t + ";";
    g.note(s);
    TextFrame f{s};
    auto c = f.cursor();
    bool ok = (bool)c.Next();
    if (over) {
        g.cls("overlong");
        CHECK(!ok, "an overlong float is read: " << s);
        g.nontrivial();
        return;
    }
    CHECK(ok, "a float is refused: " << s);
    CHECK(c.op().size() == 3 && c.atom(2).type() == ron::FLOAT, "a float reads as something else: " << s);
    double d = c.atom(2).value.as_float;
    CHECK(correctly_rounded(t, d), t << " reads as " << bits(d));
    g.nontrivial();
}

FACET(integers_spelled, 800000, 2000000) {
    string sign = g.one_of<const char*>({"", "-", "+", ""});
    string dig;
    bool near = g.coin();
    if (near) {
        // about the limits: +-2^63 and their neighbours, with zeroes in front
        unsigned __int128 lim = (unsigned __int128)1 << 63;
        lim += g.range(-3, 3);
        while (lim) {
            dig = (char)('0' + (int)(lim % 10)) + dig;
            lim /= 10;
        }
    } else {
        size_t n = 1 + g.below(25);
        for (size_t i = 0; i < n; ++i) dig += (char)('0' + g.below(10));
    }
    string t = sign + string(g.chance(1, 4) ? g.below(4) : 0, '0') + dig;
    bool quoted = g.coin();
    string s = string("@1+A :lww") + (quoted ? "=" : " ") + (quoted && g.coin() ? " " : "") + t + (g.chance(1, 3) ? " 'x';" : ";");
    g.note(s);
    g.nontrivial();
    // the reference value
    unsigned __int128 v = 0;
    string body = t.substr(sign.size());
    bool toolong = body.size() > 19;
    for (char ch : body)
        if (v < ((unsigned __int128)1 << 100)) v = v * 10 + (ch - '0');
    unsigned __int128 lim = ((unsigned __int128)1 << 63) - (sign == "-" ? 0 : 1);
    bool fits = v <= lim;
    TextFrame f{s};
    auto c = f.cursor();
    bool ok = (bool)c.Next();
    if (!fits) {
        g.cls("out of range");
        CHECK(!ok, "an integer out of range is read as " << c.atom(2).value.as_integer << ": " << s);
        return;
    }
    if (toolong) {  // zeroes beyond the size limit: refused or exact
        g.cls("in range, over 19 digits");
        if (!ok) return;
    }
    CHECK(ok, "an integer is refused: " << s);
    CHECK(c.atom(2).type() == ron::INT, "an integer reads as something else: " << s);
    int64_t want = sign == "-" ? (int64_t)(0 - (uint64_t)v) : (int64_t)v;
    CHECK(c.atom(2).value.as_integer == want, t << " reads as " << c.atom(2).value.as_integer);
}

FACET(types_kept, 400000, 1500000) {
    // numbers of all types side by side, with ids that look like numbers
    ron::Op op{ron::Uuid{"1+A"}, ron::Uuid{"lww"}};
    vector<Val> v;
    while (g.more(4) && v.size() < 8) {
        switch (g.below(3)) {
            case 0:
                v.push_back(Val::I(any_int(g)));
                break;
            case 1:
                v.push_back(Val::F(any_float(g)));
                break;
            default: {
                string w;
                size_t n = 1 + g.below(9);
                for (size_t i = 0; i < n; ++i) w += (char)('0' + g.below(10));
                if (g.coin()) w[g.below(w.size())] = g.coin() ? 'e' : 'E';
                Uid u{word_val(w), 0};
                if (g.chance(1, 3)) u.origin = word_val(std::to_string(g.below(99))) | g.below(4) << 60;
                v.push_back(Val::U(u));
            }
        }
        g.note(show(v.back()));
    }
    Op m{uid("1+A"), uid("lww"), v, 0};
    TextFrame f = build({m});
    g.note(f.data());
    Ops got = must_read(f, "a frame of numbers");
    CHECK(same(got, {m}), "numbers change: " << diff(got, {m}) << "; [" << f.data() << "]");
    if (v.size() > 1) g.nontrivial();
}
