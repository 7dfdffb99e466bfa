// The documented hash stream of an op, computed from the model.
#ifndef HASHLIB_HPP
#define HASHLIB_HPP
#include "lib/bridge.hpp"
#include "lib/sha.hpp"
namespace model {
inline string be64(uint64_t v) {
    string r;
    for (int k = 7; k >= 0; --k) r += (char)(v >> (8 * k));
    return r;
}
inline string be_uid(const Uid& u) { return be64(u.value) + be64(u.origin); }

/** id, the hash of the previous op, ref, the hash of the referenced op, then
 *  every value: an id as such; a number as its bits and a type mark; a string
 *  as its length in code points, a type mark, and its UTF-8 text */
inline string op_stream(const Op& o, const string& prev, const string& ref) {
    string r = be_uid(o.id) + prev + be_uid(o.ref) + ref;
    for (auto& v : o.vals) {
        uint64_t bits;
        switch (v.type) {
            case T_UUID:
                r += be_uid(v.u);
                break;
            case T_INT:
                r += be64((uint64_t)v.i) + be64(1ULL << 62);
                break;
            case T_FLT:
                memcpy(&bits, &v.f, 8);
                r += be64(bits) + be64(3ULL << 62);
                break;
            case T_STR:
                r += be64((uint64_t)v.s.size() << 32) + be64(2ULL << 62) + utf8(v.s);
                break;
        }
    }
    return r;
}
inline string op_hash(const Op& o, const string& prev, const string& ref) {
    return sha512_256(op_stream(o, prev, ref));
}
inline string uid_hash(const Uid& u) { return sha512_256(be_uid(u)); }
inline string gen_hash(Gen& g) {
    string s;
    uint64_t v = g.u64();
    for (int i = 0; i < 4; ++i) {
        s += be64(v);
        v = v * 6364136223846793005ULL + 1442695040888963407ULL;
    }
    return s;
}
}  // namespace model
#endif
