// USES: rocks
#include "lib/storelib.hpp"
#include "db/mem_store.hpp"
using namespace model;
using Mem = ron::InMemoryStore<TextFrame>;

PROPERTY("M01",
         "histories of single and batched writes, reads, seeks in both directions to present, absent and extreme "
         "keys, steps with and without a look at the value, on an in-memory store over keys of all types; every "
         "read and every value of a scan is compared with the merge of what was written, every position with a "
         "sorted list of keys; the records given out are written to another store, which must hold the same; "
         "non-trivial: some key with two changes was merged by a read or a scan and looked at again",
         "a store is not read or written while a scan of it is under way; changes to an array come in an order "
         "that respects causality");

struct MemModel {
    Model m;
    bool opened{false};
    Ops zero;
    explicit MemModel(const vector<Source>& s) : m{s} {}
};
/** what a read gives: one change is as it was written */
static Ops mem_value(const MemModel& mm, int i) {
    if (i < 0) return mm.zero;
    auto& w = mm.m.written[i];
    auto& s = (*mm.m.src)[i];
    if (w.size() == 1) return s.pieces[w[0]];
    return fold(s, w);
}
struct Place {
    ron::Key key;
    int src;
};
static vector<Place> places(const MemModel& mm) {
    vector<Place> v;
    for (auto& p : model_scan(mm.m)) v.push_back({p.second, p.first});
    return v;
}

static ron::Key near_key(pbt::Gen& g, const vector<Place>& now) {
    switch (g.weighted({4, 5, 2, 1, 1})) {
        case 0:
            if (!now.empty()) return now[g.below(now.size())].key;
        case 1:
            if (!now.empty()) {
                auto k = now[g.below(now.size())].key;
                Uid u = M(k.id());
                int f = k.form();
                switch (g.below(6)) {
                    case 0: u.value = (u.value + 1) & PAY; break;
                    case 1: u.value = (u.value - 1) & PAY; break;
                    case 2: u.origin = ((u.origin + 1) & PAY) | V_TIME; break;
                    case 3: u.origin = ((u.origin - 1) & PAY) | V_TIME; break;
                    case 4: f = (f + 1) & 255; break;
                    default: f = (f - 1) & 255; break;
                }
                return ron::Key{R(u), (FORM)f};
            }
        case 2:
            return ron::Key{R(gen_event(g)), g.pick(rules()).second};
        case 3:
            return ron::Key::ZERO;
        default:
            return ron::Key::END;
    }
}

FACET(history, 100000, 1500000) {
    auto src = gen_sources(g, g.chance(1, 6) ? 16 : 6, 5);
    if (src.empty()) g.discard();
    g.note(show_sources(src));
    Mem st;
    MemModel mm{src};
    if (g.coin()) {
        Uid id = gen_event(g);
        CHECK(st.Open(R(id)), "a store can not be opened");
        mm.opened = mm.m.zero = true;
        Op o;
        o.id = id;
        o.ref = uid("yarn");
        mm.zero = {o};
        g.note("opened");
    }
    auto read = [&](size_t i) {
        TextFrame f{"@1+junk :lww;"};
        Status ok = st.Read(src[i].key(), f);
        CHECK(ok, "a read is refused: " << ok.str());
        expect_key(src[i], must_read(f, "a read"), mem_value(mm, (int)i), "a read");
        if (mm.m.written[i].size() > 1) g.nontrivial();
    };
    auto value = [&](Mem::Iterator& it, const vector<Place>& v, size_t at, const char* what) {
        auto c = it.value();
        Ops got;
        while (c.Next()) got.push_back(read_op(c));
        Ops want = at < v.size() ? mem_value(mm, v[at].src) : Ops{};
        CHECK(same(got, want), what << ": the value at " << it.key().str() << ": " << diff(got, want) << "\ngot\n"
                                    << show(got) << "expected\n" << show(want));
        if (at < v.size() && v[at].src >= 0 && mm.m.written[v[at].src].size() > 1) g.nontrivial();
    };
    size_t n = 0;
    while (g.more(16) && n++ < 60) {
        switch (g.weighted({8, 3, 4, 6, 1})) {
            case 0: {
                size_t i = g.below(src.size());
                int c = next_change(g, mm.m, i);
                string s = lay(g, src[i].pieces[c]);
                g.note("write key " + std::to_string(i) + " [" + pbt::esc(s) + "]");
                Status ok = st.Write(src[i].key(), TextFrame{s});
                CHECK(ok, "a write is refused: " << ok.str());
                mm.m.written[i].push_back(c);
                break;
            }
            case 1: {
                Mem::Records b;
                string t = "batch:";
                do {
                    size_t i = g.below(src.size());
                    int c = next_change(g, mm.m, i);
                    string s = lay(g, src[i].pieces[c]);
                    t += "\n  key " + std::to_string(i) + " [" + pbt::esc(s) + "]";
                    b.emplace_back(src[i].key(), TextFrame{s});
                    mm.m.written[i].push_back(c);
                } while (g.more(3) && b.size() < 12);
                g.note(t);
                Status ok = st.Write(b);
                CHECK(ok, "a batch is refused: " << ok.str());
                break;
            }
            case 2: {
                size_t i = g.below(src.size());
                g.note("read key " + std::to_string(i));
                read(i);
                break;
            }
            case 3: {
                auto v = places(mm);
                Mem::Iterator it{st};
                CHECK(it.key() == ron::Key::END, "a scan that was not positioned is at " << it.key().str());
                size_t at = v.size(), steps = 0;
                // an opened store has a mark at its end
                while (g.more(8) && steps++ < 40) {
                    if (g.chance(1, 3) || steps == 1) {
                        ron::Key k = near_key(g, v);
                        bool prev = g.coin();
                        g.note(string(prev ? "seek back to " : "seek to ") + k.str());
                        Status ok = it.SeekTo(k, prev);
                        CHECK(ok, "a seek is refused: " << ok.str());
                        size_t lo = 0;
                        while (lo < v.size() && model_key_less(v[lo].key, k)) ++lo;
                        bool here = lo < v.size() && !model_key_less(k, v[lo].key);
                        if (here || !prev || (mm.opened && k == ron::Key::END))
                            at = lo;
                        else
                            at = lo > 0 ? lo - 1 : v.size();
                    } else {
                        g.note("next");
                        Status ok = it.Next();
                        if (at < v.size()) {
                            ++at;
                            if (at < v.size()) CHECK(ok, "a step gives " << ok.str());
                        }
                    }
                    ron::Key want = at < v.size() ? v[at].key : ron::Key::END;
                    CHECK(it.key() == want, "a scan is at " << it.key().str() << ", expected " << want.str());
                    if (g.coin()) {
                        g.note("value");
                        value(it, v, at, "a scan");
                        if (g.chance(1, 3)) value(it, v, at, "a scan, once more");
                    }
                }
                if (g.chance(1, 4)) {
                    CHECK(it.Close(), "a scan can not be closed");
                    CHECK(it.key() == ron::Key::END, "a closed scan is at " << it.key().str());
                    value(it, v, v.size(), "a closed scan");
                }
                break;
            }
            default: {
                // the end is no record
                CHECK(!st.Write(ron::Key::END, TextFrame{"@1+A :lww;"}), "a write at the end of keys is accepted");
                Uid u = gen_event(g);
                FORM f = g.pick(rules()).second;
                bool taken = false;
                for (auto& s : src) taken = taken || (s.form == f && key_id(s.id) == key_id(u));
                if (taken || (f == ron::ZERO_RAW_FORM && u.value == 0)) break;
                TextFrame none{"@1+junk :lww;"};
                CHECK(st.Read(ron::Key{R(u), f}, none), "a read of a key never written is refused");
                CHECK(must_read(none, "nothing").empty(), "a key never written has ops: @" << text(u));
            }
        }
    }
    // the records, as they are given out, hold all of it
    g.note("at the end");
    Mem::Records rs;
    bool any = st.Release(rs);
    CHECK(any == (mm.opened || !places(mm).empty()), "the store has records: " << any);
    Mem other;
    for (auto& r : rs) {
        if (r.first == ron::Key::END) {
            CHECK(mm.opened && r.second.empty(), "there is a record at the end of keys");
            continue;
        }
        CHECK(other.Write(r.first, r.second), "a record given out is refused");
    }
    for (size_t i = 0; i < src.size(); ++i) {
        read(i);
        TextFrame f;
        CHECK(other.Read(src[i].key(), f), "a read of the copy is refused");
        Ops got = must_read(f, "the copy");
        expect_key(src[i], got, mem_value(mm, (int)i), "the copy");
    }
    auto v = places(mm);
    Mem::Iterator it{st};
    CHECK(it.SeekTo(ron::Key::ZERO), "a seek is refused");
    for (size_t at = 0; at < v.size(); ++at) {
        CHECK(it.key() == v[at].key, "the last scan: record " << at << " is " << it.key().str() << ", expected " << v[at].key.str());
        value(it, v, at, "the last scan");
        it.Next();
    }
    CHECK(it.key() == ron::Key::END, "the last scan has more records: " << it.key().str());
    CHECK(st.Close(), "a store can not be closed");
    for (size_t i = 0; i < src.size(); ++i) {
        TextFrame f;
        CHECK(st.Read(src[i].key(), f) && f.empty(), "a closed store has records");
    }
}

// pieces of an array that come before what they hang on: reads say so, and lose nothing
FACET(gaps, 40000, 600000) {
    Source s = gen_source(g, ron::RGA_RDT_FORM, 8);
    if (s.pieces.size() < 2) g.discard();
    g.note(show_sources({s}));
    Mem st;
    vector<bool> have(s.tree.ops.size());
    vector<int> left, written;
    for (size_t i = 0; i < s.pieces.size(); ++i) left.push_back((int)i);
    bool failed = false;
    while (!left.empty()) {
        size_t k = g.below(left.size());
        int p = left[k];
        left.erase(left.begin() + k);
        for (int o : s.tparts[p]) have[o] = true;
        written.push_back(p);
        string t = lay(g, s.pieces[p]);
        g.note("write [" + pbt::esc(t) + "]");
        CHECK(st.Write(s.key(), TextFrame{t}), "a write is refused");
        // one subtree, maybe not from the root
        int tops = 0, top = 0;
        for (int o = 0; o < (int)have.size(); ++o)
            if (have[o] && (o == 0 || !have[s.tree.parent[o]])) {
                ++tops;
                top = o;
            }
        bool whole = tops == 1;
        Ops want = written.size() == 1 ? s.pieces[p] : pick_ops(s.tree, dfs(s.tree, top, &have));
        if (g.coin()) {
            g.note("read");
            TextFrame f;
            Status ok = st.Read(s.key(), f);
            if (whole || written.size() == 1) {
                CHECK(ok, "a read of a whole array gives " << ok.str());
                expect_key(s, must_read(f, "a read"), want, "a read");
            } else {
                CHECK(!ok, "a read of an array with a gap gives no error");
                failed = true;
            }
        }
        if (g.chance(1, 3)) {
            g.note("scan");
            Mem::Iterator it{st};
            CHECK(it.SeekTo(ron::Key::ZERO), "a seek is refused");
            CHECK(it.key() == s.key(), "a scan is at " << it.key().str());
            auto c = it.value();
            Ops got;
            while (c.Next()) got.push_back(read_op(c));
            if (whole || written.size() == 1)
                expect_key(s, got, want, "a scan");
            else {
                CHECK(got.empty() || (got.size() == 1 && got[0].ref.origin == PAY), "a scan of an array with a gap has ops: " << show(got));
                failed = true;
            }
            it.Next();
            CHECK(it.key() == ron::Key::END, "a scan is at " << it.key().str());
        }
    }
    if (failed) g.nontrivial();
    TextFrame f;
    Status ok = st.Read(s.key(), f);
    CHECK(ok, "a read of all pieces gives " << ok.str());
    expect_key(s, must_read(f, "the last read"), fold(s, written), "the last read");
}

// long histories, many changes of a key, many keys
FACET(large, 500, 8000) {
    vector<Source> src;
    size_t n = 1 + g.below(3);
    while (src.size() < n) {
        Source s = gen_large_source(g);
        for (auto& t : src)
            if (t.form == s.form && key_id(t.id) == key_id(s.id)) g.discard();
        if (key_id(s.id).value == 0) g.discard();
        src.push_back(s);
        g.note("key @" + text(s.id) + " *" + form_name(s.form) + " of " + std::to_string(s.pieces.size()) + " changes");
        if (s.pieces.size() > 255) g.cls("more than 255 changes of a key");
    }
    pbt::Gen bulk = g.bulk();
    if (g.chance(1, 3)) {  // many small ones
        std::set<Uid> ids;
        for (size_t i = gen_large_size(bulk, 2000); i; --i) {
            Source s;
            s.form = ron::LWW_RDT_FORM;
            s.id = gen_event(bulk);
            if (key_id(s.id).value == 0 || !ids.insert(key_id(s.id)).second) continue;
            bool dup = false;
            for (size_t k = 0; k < n; ++k) dup |= src[k].form == s.form && key_id(src[k].id) == key_id(s.id);
            if (dup) continue;
            Op o;
            o.id = s.id;
            o.ref = uid("lww");
            o.term = 0;
            s.pieces.push_back({o});
            src.push_back(s);
        }
        if (src.size() > 255) g.cls("more than 255 keys");
    }
    Mem st;
    MemModel mm{src};
    auto read = [&](size_t i, const char* what) {
        TextFrame f;
        CHECK(st.Read(src[i].key(), f), what << " is refused");
        expect_key(src[i], must_read(f, what), mem_value(mm, (int)i), what);
    };
    unsigned batches = (unsigned)g.below(3);
    vector<size_t> open;
    for (size_t i = 0; i < src.size(); ++i) open.push_back(i);
    while (!open.empty()) {
        Mem::Records b;
        for (size_t k = batches == 0 ? 1 : batches == 1 ? 1 + bulk.below(10) : 1 + bulk.below(600); k && !open.empty(); --k) {
            size_t at = bulk.below(open.size()), i = open[at];
            int c = mm.m.next[i]++;
            if (c >= (int)src[i].pieces.size()) {
                open.erase(open.begin() + at);
                continue;
            }
            mm.m.written[i].push_back(c);
            auto& p = src[i].pieces[c];
            b.emplace_back(src[i].key(), p.size() < 300 ? TextFrame{lay(bulk, p)} : build(p));
        }
        if (b.size() == 1)
            CHECK(st.Write(b[0].first, b[0].second), "a write is refused");
        else if (!b.empty())
            CHECK(st.Write(b), "a batch is refused");
        if (bulk.chance(1, 60)) read(bulk.below(n), "a read");
    }
    g.nontrivial();
    for (size_t i = 0; i < src.size(); ++i) read(i, "the last read");
    auto v = places(mm);
    Mem::Iterator it{st};
    CHECK(it.SeekTo(ron::Key::ZERO), "a seek is refused");
    for (size_t at = 0; at < v.size(); ++at) {
        CHECK(it.key() == v[at].key, "the last scan: record " << at << " is " << it.key().str() << ", expected " << v[at].key.str());
        auto c = it.value();
        Ops got;
        while (c.Next()) got.push_back(read_op(c));
        CHECK(same(got, mem_value(mm, v[at].src)), "the last scan: record " << at << ": " << diff(got, mem_value(mm, v[at].src)));
        it.Next();
    }
    CHECK(it.key() == ron::Key::END, "the last scan has more records: " << it.key().str());
}
