// Shared by the checks of the data types: pieces of histories and merges.
#ifndef RDTLIB_HPP
#define RDTLIB_HPP
#include <algorithm>
#include <map>
#include "lib/bridge.hpp"
#include "rdt/rdt.hpp"
#include "rdt/lww_obj.hpp"

namespace model {
using ron::FORM;
using ron::Status;
using ron::TextFrame;
using Cursor = TextFrame::Cursor;
using Cursors = TextFrame::Cursors;
using Frames = std::vector<TextFrame>;

/** the text of a piece: as the builder writes it or in a layout of one's own */
inline string lay(Gen& g, const Ops& ops) {
    if (ops.empty()) return g.coin() ? "" : " \n";
    // (a built frame always ends its last chunk)
    if (ops.back().term != 1 && g.chance(2, 5)) return build(ops).data();
    Layout l{g.chance(2, 3) ? &g : nullptr};
    string s = write_doc(l, ops, g.chance(3, 4));
    if (g.chance(1, 8)) s += ".\n";
    return s;
}
inline Ops by_id(Ops ops) {
    std::stable_sort(ops.begin(), ops.end(), [](const Op& a, const Op& b) { return a.id < b.id; });
    return ops;
}
template <class T>
void shuffle(Gen& g, vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.below(i)]);
}

/** the ways to call a merge of a declared type */
enum How { STRINGS, CURSORS, REDUCER, HOWS };
inline Status merge(How how, FORM form, const vector<string>& in, string& out) {
    out.clear();
    switch (how) {
        case STRINGS: {
            ron::Strings s(in.begin(), in.end());
            ron::String ret;
            Status ok = ron::MergeStrings<TextFrame>(ret, form, s);
            out = ret;
            return ok;
        }
        default: {
            Frames f;
            for (auto& s : in) f.emplace_back(s);
            Cursors c;
            for (auto& x : f) {
                c.emplace_back(x);
                if (!c.back().Next()) c.pop_back();
            }
            if (how == CURSORS) {
                TextFrame ret;
                Status ok = ron::MergeCursors<TextFrame>(ret, form, c);
                out = ret.data();
                return ok;
            }
            TextFrame::Builder b;
            Status ok = ron::MergeCursorsInto<TextFrame>(b, form, c);
            out = b.Release().data();
            return ok;
        }
    }
}
/** the type is taken from the inputs */
inline Status merge_frames(const vector<string>& in, string& out) {
    Frames f;
    for (auto& s : in) f.emplace_back(s);
    TextFrame ret;
    Status ok = ron::MergeFrames<TextFrame>(ret, f);
    out = ret.data();
    return ok;
}
inline Ops merged(How how, FORM form, const vector<string>& in, const char* what) {
    string out;
    Status ok = merge(how, form, in, out);
    CHECK(ok, what << " is refused: " << ok.str());
    return must_read(TextFrame{out}, what);
}
inline How any_how(Gen& g) { return (How)g.below(HOWS); }
inline string show_in(const vector<string>& in) {
    string s;
    for (size_t i = 0; i < in.size(); ++i) s += "input " + std::to_string(i) + ": [" + pbt::esc(in[i]) + "]\n";
    return s;
}

/** a pool of distinct ops by a few writers: ids often run, refs often chain */
inline Ops gen_pool(Gen& g, const Uid& form, bool root, size_t max, unsigned avg,
                    const std::function<vector<Val>(Gen&)>& vals) {
    std::map<Uid, Op> pool;
    Uid last = gen_event(g);
    if (root) {
        Op o;
        o.id = last;
        o.ref = form;
        pool[o.id] = o;
    }
    const Uid first = last;
    while (pool.size() < max && (pool.empty() || g.more(avg))) {
        Op o;
        switch (g.weighted({4, 3, 1})) {
            case 0:
                o.id = last.inc(1);
                break;
            case 1:
                o.id = gen_event(g);
                break;
            default:
                o.id = last.inc(1 + g.below(70));
                break;
        }
        if (root && (o.id < first || o.id == first)) continue;
        if (pool.count(o.id)) {
            last = o.id;
            if (avg < 1000 && g.chance(1, 4)) break;
            continue;
        }
        switch (g.weighted({5, 2, 2})) {
            case 0:
                o.ref = last;
                break;
            case 1:
                o.ref = first;
                break;
            default:
                o.ref = gen_event(g);
        }
        o.vals = g.chance(1, 5) && pool.count(last) ? pool[last].vals : vals(g);
        o.term = g.chance(1, 6) ? g.one_of<int>({0, 2, 3}) : 1;
        pool[o.id] = o;
        last = o.id;
    }
    Ops r;
    for (auto& p : pool) r.push_back(p.second);
    return r;
}

/** splits a pool in pieces; every op is in one piece at least, some in many */
inline vector<Ops> gen_pieces(Gen& g, const Ops& pool, size_t maxn = 6) {
    size_t n = 1 + g.below(maxn);
    if (g.chance(1, 40)) n = 20 + g.below(pool.size() > 200 ? 500 : 150);
    vector<Ops> pieces(n);
    unsigned dup = g.below(4);
    size_t at = g.below(n);
    for (auto& o : pool) {
        if (g.chance(1, 2)) at = g.below(n);
        pieces[at].push_back(o);
        if (dup)
            for (size_t k = 0; k < n && k < 8; ++k) {
                size_t p = n <= 8 ? k : g.below(n);
                if (p != at && g.chance(dup, 8) && (pieces[p].empty() || !(pieces[p].back().id == o.id)))
                    pieces[p].push_back(o);
            }
    }
    return pieces;
}
}  // namespace model
#endif
