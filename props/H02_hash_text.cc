// FUZZ: yes
#include "lib/hashlib.hpp"
#include "ron/hash.hpp"
using namespace model;
using ron::SHA2;

PROPERTY("H02",
         "random and special hashes written as hexadecimal and base64 by the code and by the model, in full and "
         "cut to any number of digits; texts with a wrong digit or of a wrong length; pairs of partly known "
         "hashes that differ in any one bit; non-trivial: a cut text, or a pair that shares a prefix");

static string bits(const SHA2& h) { return string(h.bits_.data(), h.bits_.size()); }
static int bit(const string& b, size_t i) { return (unsigned char)b[i / 8] >> (7 - i % 8) & 1; }
static string keep(string b, size_t n) {
    for (size_t i = n; i < b.size() * 8; ++i) b[i / 8] &= ~(char)(1 << (7 - i % 8));
    return b;
}
static const char* HEX = "0123456789abcdef";
/** digits of `width` bits each for the first n bits */
static string digits(const string& b, size_t n, size_t width, const char* abc) {
    string r;
    for (size_t i = 0; i < n; i += width) {
        int d = 0;
        for (size_t k = 0; k < width; ++k) d = d << 1 | (i + k < n ? bit(b, i + k) : 0);
        r += abc[d];
    }
    return r;
}
static string some_hash(pbt::Gen& g) {
    switch (g.below(4)) {
        case 0:
            return string(32, g.coin() ? '\xff' : '\0');
        case 1: {
            string s(32, '\0');
            for (int i = 0; i < 3; ++i) s[g.below(32)] = (char)g.below(256);
            return s;
        }
        default:
            return gen_hash(g);
    }
}
static SHA2 full(const string& b) {
    SHA2 h;
    h.bits_ = b;
    h.known_bits_ = 256;
    return h;
}

FACET(texts, 120000, 1200000) {
    string h = some_hash(g);
    bool base = g.coin();
    size_t width = base ? 6 : 4;
    const char* abc = base ? b64().c_str() : HEX;
    string whole = digits(h, 256, width, abc);
    SHA2 x = full(h);
    string wrote = base ? x.base64() : x.hex();
    g.note(wrote);
    CHECK_EQ(wrote, whole, "the text of a hash");
    size_t n = g.chance(1, 3) ? whole.size() : g.below(whole.size() + 1);
    if (n < whole.size()) g.nontrivial();
    string cut = whole.substr(0, n);
    if (!base && g.chance(1, 3))
        for (auto& c : cut)
            if (g.coin()) c = toupper(c);
    SHA2 p = base ? SHA2::ParseBase64(cut) : SHA2::ParseHex(cut);
    size_t known = std::min<size_t>(256, n * width);
    CHECK_EQ((size_t)p.known_bits(), known, "the known bits of [" << cut << "]");
    CHECK_EQ(hex(bits(p)), hex(keep(h, known)), "the bits of [" << cut << "]");
    CHECK(p.defined() == (n > 0), "defined() of [" << cut << "]");
    // its own texts again, in either alphabet
    string b1 = p.base64(), h1 = p.hex();
    CHECK_EQ(b1, digits(h, known, 6, b64().c_str()), "base64 of the hash read from [" << cut << "]");
    CHECK_EQ(h1, digits(h, known, 4, HEX), "hexadecimal of the hash read from [" << cut << "]");
    if (n) CHECK(p.matches(x) && x.matches(p), "a prefix does not match the hash");
}

FACET(bad_texts, 60000, 600000) {
    string h = some_hash(g);
    bool base = g.coin();
    string s = digits(h, 256, base ? 6 : 4, base ? b64().c_str() : HEX);
    s.resize(1 + g.below(s.size()));
    if (g.chance(1, 4)) {
        s = digits(h, 256, base ? 6 : 4, base ? b64().c_str() : HEX);
        do s += base ? b64()[g.below(64)] : HEX[g.below(16)];
        while (g.coin());
    } else {
        char c;
        do c = (char)g.below(256);
        while (base ? b64().find(c) != string::npos : isxdigit((unsigned char)c) != 0);
        s[g.below(s.size())] = c;
    }
    g.note(string(base ? "base64 " : "hex ") + pbt::esc(s));
    g.nontrivial();
    SHA2 p = base ? SHA2::ParseBase64(s) : SHA2::ParseHex(s);
    CHECK(p.known_bits() == 0 && !p.defined(), "what is no hash reads as one of " << p.known_bits() << " bits");
    CHECK(bits(p) == string(32, '\0'), "an unknown hash has bits");
    if (base) CHECK(!SHA2::valid(ron::Slice{s}), "what is no hash is valid");
}

FACET(valid, 60000, 600000) {
    string h = some_hash(g);
    string s = digits(h, 256, 6, b64().c_str());
    bool want = true;
    switch (g.below(4)) {
        case 0:
            break;
        case 1: {  // the bits that no hash has
            int d = b64val(s.back());
            d |= 1 + (int)g.below(3);
            s.back() = b64()[d];
            want = false;
            break;
        }
        case 2:
            s.resize(g.below(s.size()));
            want = false;
            break;
        default: {
            char c = (char)g.below(256);
            size_t at = g.below(s.size());
            s[at] = c;
            want = b64().find(c) != string::npos && (at < 42 || b64val(c) % 4 == 0);
        }
    }
    g.note(pbt::esc(s));
    if (!want) g.nontrivial();
    CHECK(SHA2::valid(ron::Slice{s}) == want, "[" << pbt::esc(s) << "] is " << (want ? "not " : "") << "valid");
}

FACET(match, 120000, 1200000) {
    string a = some_hash(g), b = a;
    size_t flips = g.below(3);
    for (size_t i = 0; i < flips; ++i) b[g.below(32)] ^= (char)(1 << g.below(8));
    size_t ka = g.chance(1, 3) ? 64 : g.below(65), kb = g.chance(1, 3) ? 43 : g.below(44);
    SHA2 x = SHA2::ParseHex(digits(a, 256, 4, HEX).substr(0, ka));
    SHA2 y = SHA2::ParseBase64(digits(b, 256, 6, b64().c_str()).substr(0, kb));
    if (g.coin()) y = SHA2::ParseHex(digits(b, 256, 4, HEX).substr(0, kb)), kb = kb * 4 / 6;
    size_t known = std::min(x.known_bits(), y.known_bits());
    bool want = keep(a, known) == keep(b, known);
    g.note(x.hex() + " and " + y.hex());
    if (known > 0 && flips) g.nontrivial();
    CHECK(x.matches(y) == want, x.hex() << " and " << y.hex() << (want ? " do not match" : " match"));
    CHECK(y.matches(x) == want, "matching is not symmetric: " << x.hex() << " and " << y.hex());
    CHECK(x.matches(x) && y.matches(y), "a hash does not match itself");
    SHA2 z = full(a), w = full(b);
    CHECK((z == w) == (a == b) && (z != w) == (a != b), "equality of full hashes");
    CHECK(z.matches(w) == (a == b), "full hashes match exactly when they are equal");
}
