// FUZZ: yes
#include "lib/hashlib.hpp"
#include "lib/rdtlib.hpp"
#include "ron/hash.hpp"
using namespace model;
using ron::SHA2;

PROPERTY("H01",
         "ops with values of all types in any layout, spelling and coding (inside spans, built, nominal), with "
         "any previous and referenced hashes, hashed by the code and by an independent SHA-512/256 over the "
         "documented stream; pairs of ops that differ in one thing (also in how text is shared between "
         "values) must hash differently; non-trivial: the op has values",
         "the hash function itself has no collisions");

static SHA2 sha(const string& bits) {
    SHA2 h;
    h.bits_ = bits;
    h.known_bits_ = SHA2::BIT_SIZE;
    return h;
}
static string bits(const SHA2& h) { return string(h.bits_.data(), h.bits_.size()); }

FACET(layouts, 80000, 800000) {
    Ops ops = gen_ops(g, 4, 12);
    string prev = gen_hash(g), ref = gen_hash(g);
    string a = lay(g, ops), b = lay(g, ops);
    g.note(show(ops) + "a [" + pbt::esc(a) + "]\nb [" + pbt::esc(b) + "]");
    for (auto& o : ops)
        if (!o.vals.empty()) g.nontrivial();
    TextFrame fa{a}, fb{b};
    Cursor ca{fa}, cb{fb};
    for (auto& o : ops) {
        CHECK(ca.Next() && cb.Next(), "a frame does not read");
        string want = op_hash(o, prev, ref);
        SHA2 p = sha(prev), r = sha(ref);
        SHA2 ha = SHA2::OpMerkleHash(ca, p, r), hb = SHA2::OpMerkleHash(cb, p, r);
        CHECK(hex(bits(ha)) == hex(want), "the hash of " << show(o) << " is " << hex(bits(ha)) << " expected " << hex(want));
        CHECK(hex(bits(hb)) == hex(want), "the hash of " << show(o) << " in another layout is " << hex(bits(hb)));
        CHECK(ha.known_bits() == 256 && hb.known_bits() == 256, "a computed hash is not fully known");
        // values may be read before the op is hashed
        if (g.chance(1, 3)) {
            (void)read_op(ca);
            SHA2 hc = SHA2::OpMerkleHash(ca, p, r);
            CHECK(hc == ha, "the hash of an op changes as its values are read");
        }
        ron::Op n = nominal(o);
        SHA2 hn = SHA2::OpMerkleHash(n, p, r);
        CHECK(hex(bits(hn)) == hex(want), "the hash of " << show(o) << " in the nominal coding is " << hex(bits(hn)));
        ron::Op am = ron::Op::Amend(R(o.id), R(o.ref), ca);
        SHA2 hm = SHA2::OpMerkleHash(am, p, r);
        CHECK(hex(bits(hm)) == hex(want), "the hash of a copied " << show(o) << " is " << hex(bits(hm)));
    }
}

/** one edit of an op or of its context */
static bool edit(pbt::Gen& g, Op& o, string& prev, string& ref) {
    auto flip = [&](string& s) { s[g.below(32)] ^= (char)(1 << g.below(8)); };
    switch (g.below(8)) {
        case 0:
            flip(prev);
            return true;
        case 1:
            flip(ref);
            return true;
        case 2:
            std::swap(prev, ref);
            return prev != ref;
        case 3: {
            Uid& u = g.coin() ? o.id : o.ref;
            (g.coin() ? u.value : u.origin) ^= 1ULL << g.below(g.coin() ? 8 : 62);
            return true;
        }
        case 4:
            std::swap(o.id, o.ref);
            return o.id != o.ref;
        case 5: {  // the number of values
            if (!o.vals.empty() && g.coin())
                o.vals.erase(o.vals.begin() + g.below(o.vals.size()));
            else
                o.vals.insert(o.vals.begin() + g.below(o.vals.size() + 1), gen_val(g));
            return true;
        }
        case 6: {  // a value
            if (o.vals.empty()) return false;
            Val& v = o.vals[g.below(o.vals.size())];
            Val was = v;
            switch (g.below(3)) {
                case 0:
                    v = gen_val(g);
                    break;
                case 1:  // the same bits as another type
                    if (v.type == T_INT) {
                        double d;
                        memcpy(&d, &v.i, 8);
                        if (!std::isfinite(d)) return false;
                        v = Val::F(d);
                    } else if (v.type == T_UUID)
                        v = Val::I((int64_t)v.u.value);
                    else if (v.type == T_FLT) {
                        int64_t i;
                        memcpy(&i, &v.f, 8);
                        v = Val::I(i);
                    } else
                        v = Val::I((int64_t)v.s.size() << 32);
                    break;
                default:
                    if (v.type == T_STR) {
                        if (v.s.empty() || g.coin())
                            v.s.insert(v.s.begin() + g.below(v.s.size() + 1), gen_cp(g));
                        else
                            v.s[g.below(v.s.size())] = gen_cp(g);
                    } else if (v.type == T_INT)
                        v.i ^= 1LL << g.below(64);
                    else if (v.type == T_FLT)
                        v.f = std::nextafter(v.f, 0.5);
                    else
                        v.u.value ^= 1ULL << g.below(60);
            }
            return was != v;
        }
        default: {  // text moves between values
            for (size_t i = 0; i + 1 < o.vals.size(); ++i) {
                Val &a = o.vals[i], &b = o.vals[i + 1];
                if (a.type == T_STR && b.type == T_STR && a.s.size() + b.s.size() > 0 && a.s != b.s) {
                    if (g.coin()) {
                        std::swap(a, b);
                        return true;
                    }
                    if (!a.s.empty()) {
                        b.s.insert(b.s.begin(), a.s.back());
                        a.s.pop_back();
                        return true;
                    }
                }
            }
            if (!o.vals.empty() && o.vals.back().type == T_STR && o.vals.back().s.size() > 1) {
                Val& v = o.vals.back();
                size_t at = 1 + g.below(v.s.size() - 1);
                Val tail = Val::S(v.s.substr(at));
                v.s.resize(at);
                o.vals.push_back(tail);
                return true;
            }
            return false;
        }
    }
}
FACET(sensitivity, 80000, 800000) {
    Ops ops = gen_ops(g, 1, 3);
    Op a = ops[g.below(ops.size())];
    a.term = 0;
    Op b = a;
    string p = gen_hash(g), r = gen_hash(g), p2 = p, r2 = r;
    if (!edit(g, b, p2, r2)) g.discard();
    g.note(show(a) + "\n" + show(b));
    if (!a.vals.empty()) g.nontrivial();
    string sa = lay(g, {a}), sb = lay(g, {b});
    TextFrame fa{sa}, fb{sb};
    Cursor ca{fa}, cb{fb};
    CHECK(ca.Next() && cb.Next(), "a frame does not read");
    SHA2 ha = SHA2::OpMerkleHash(ca, sha(p), sha(r)), hb = SHA2::OpMerkleHash(cb, sha(p2), sha(r2));
    CHECK(ha != hb, "different ops or histories have one hash: " << show(a) << " and " << show(b));
    CHECK(!ha.matches(hb), "hashes that differ match");
}

FACET(ids_and_pairs, 60000, 600000) {
    Uid u = g.coin() ? gen_uid(g) : gen_event(g);
    g.note(text(u));
    g.nontrivial();
    SHA2 h{R(u)};
    CHECK(hex(bits(h)) == hex(uid_hash(u)), "the hash of id " << text(u) << " is " << hex(bits(h)));
    CHECK(h.known_bits() == 256, "the hash of an id is not fully known");
    string a = gen_hash(g), b = g.chance(1, 5) ? a : gen_hash(g);
    SHA2 m = SHA2::MerklePairHash(sha(a), sha(b));
    CHECK(hex(bits(m)) == hex(sha512_256(a + b)), "the hash of a pair of hashes is " << hex(bits(m)));
    CHECK(m.known_bits() == 256, "the hash of a pair is not fully known");
}

FACET(large, 500, 5000) {
    Ops ops = gen_large(g, 3000);
    string prev = gen_hash(g), ref = gen_hash(g);
    pbt::Gen bulk = g.bulk();
    string a = g.coin() ? lay(bulk, ops) : build(ops).data();
    g.note(std::to_string(ops.size()) + " ops, " + std::to_string(a.size()) + " bytes");
    g.nontrivial();
    TextFrame fa{a};
    Cursor ca{fa};
    SHA2 p = sha(prev), r = sha(ref);
    for (auto& o : ops) {
        CHECK(ca.Next(), "a frame does not read");
        string want = op_hash(o, prev, ref);
        SHA2 ha = SHA2::OpMerkleHash(ca, p, r);
        CHECK(hex(bits(ha)) == hex(want), "the hash of a large op is " << hex(bits(ha)) << " expected " << hex(want));
        if (o.vals.size() > 255) g.cls("more than 255 values");
        if (ops.size() > 300 && bulk.chance(9, 10)) continue;
        ron::Op n = nominal(o);
        CHECK(hex(bits(SHA2::OpMerkleHash(n, p, r))) == hex(want), "the hash of a large op in the nominal coding differs");
    }
}
