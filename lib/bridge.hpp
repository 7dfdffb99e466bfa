// Between the model and the code under test.
#ifndef BRIDGE_HPP
#define BRIDGE_HPP
#include "ron/ron.hpp"
#include "model.hpp"

namespace model {

inline ron::Uuid R(const Uid& u) { return ron::Uuid{ron::Word{u.value}, ron::Word{u.origin}}; }
inline Uid M(const ron::Uuid& u) { return Uid{u.value.as_u64, u.origin.as_u64}; }

/** the code point content of a string atom, as a reader gets it */
template <class Cursor>
U32 read_cps(const Cursor& c, ron::Atom a) {
    U32 s;
    if (a.value.cp != 0) s += (char32_t)a.value.cp;
    while (c.NextCodepoint(a) == ron::OK) {
        s += (char32_t)a.value.cp;
        CHECK(s.size() <= (1u << 22), "a string atom does not end");
    }
    return s;
}

template <class Cursor>
Op read_op(const Cursor& c) {
    Op o;
    o.id = M(c.id());
    o.ref = M(c.ref());
    o.term = c.term();
    for (ron::fsize_t i = 2; i < c.op().size(); ++i) {
        ron::Atom a = c.atom(i);
        Val v;
        switch (a.type()) {
            case ron::INT:
                v = Val::I(a.value.as_integer);
                break;
            case ron::FLOAT:
                v = Val::F(a.value.as_float);
                break;
            case ron::UUID:
                v = Val::U(Uid{a.value.as_u64, a.origin.as_u64});
                break;
            case ron::STRING:
                v = Val::S(read_cps(c, a));
                break;
        }
        o.vals.push_back(v);
    }
    return o;
}

enum End { CLEAN, ERROR, CUT };

/** reads all ops; `end` tells how the reading ended */
inline Ops read_frame(const ron::TextFrame& f, End& end, size_t max = 100000) {
    Ops ops;
    auto c = f.cursor();
    ron::Status ok;
    end = CUT;
    while (ops.size() < max) {
        ok = c.Next();
        if (!ok) {
            end = ok == ron::Status::ENDOFFRAME ? CLEAN : ERROR;
            CHECK(!c.valid(), "the cursor is valid after " << ok.str());
            break;
        }
        CHECK(c.valid(), "the cursor is not valid after a successful step");
        ops.push_back(read_op(c));
    }
    return ops;
}

/** reads a frame that must be well-formed */
inline Ops must_read(const ron::TextFrame& f, const char* what, size_t max = 100000) {
    End e;
    Ops ops = read_frame(f, e, max);
    CHECK(e == CLEAN, what << " does not read to its end: after " << ops.size()
                           << " ops; text [" << pbt::esc(f.data()) << "]");
    return ops;
}

inline ron::Op nominal(const Op& o) {
    ron::Op r{R(o.id), R(o.ref)};
    for (auto& v : o.vals) switch (v.type) {
            case T_INT:
                r.WriteAtoms((ron::Integer)v.i);
                break;
            case T_FLT:
                r.WriteAtoms((ron::Float)v.f);
                break;
            case T_UUID:
                r.WriteAtoms(R(v.u));
                break;
            case T_STR:
                r.WriteAtoms(utf8(v.s));
                break;
        }
    return r;
}

/** builds a frame with the code's own builder, op by op */
inline ron::TextFrame build(const Ops& ops) {
    ron::TextFrame::Builder b;
    for (auto& o : ops) {
        b.AppendOp(nominal(o));
        if (o.term != 1) b.EndChunk((ron::TERM)o.term);
    }
    return b.Release();
}

/** the chunk ends are where they must be */
inline bool terms_ok(const Ops& got, const Ops& want) {
    if (got.size() != want.size()) return false;
    for (size_t i = 0; i < want.size(); ++i)
        if (got[i].term != want[i].term) return false;
    return true;
}

inline ron::Codepoints codepoints(const U32& s) { return ron::Codepoints(s.begin(), s.end()); }

}  // namespace model
#endif
