// USES: rocks
#include "lib/storelib.hpp"
#include "db/mem_store.hpp"
#include "db/joined_store.hpp"
using namespace model;
using Mem = ron::InMemoryStore<TextFrame>;

PROPERTY("M02",
         "the changes of keys of all types divided in any way between a base store (a database or an in-memory "
         "one) and a store of pending changes, some written through the join of the two; reads of every key, "
         "seeks in both directions and walks over the join, against the merge of the base and the pending "
         "changes and the sorted union of their keys; non-trivial: some key has changes in both stores and some "
         "key in one of them only",
         "no store is written to while a scan of the join is under way; changes to an array come in an order "
         "that respects causality, the pending ones in one subtree (see the known finding)");

struct Joint {
    vector<Source> src;
    vector<vector<int>> in[2];  // changes by store and key
    vector<int> next;
    bool zero{false};
    vector<int> all(size_t i) const {
        auto v = in[0][i];
        v.insert(v.end(), in[1][i].begin(), in[1][i].end());
        return v;
    }
    vector<std::pair<ron::Key, int>> places() const {
        vector<std::pair<ron::Key, int>> v;
        if (zero) v.push_back({ron::Key::ZERO, -1});
        for (size_t i = 0; i < src.size(); ++i)
            if (in[0][i].size() + in[1][i].size()) v.push_back({src[i].key(), (int)i});
        std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return model_key_less(a.first, b.first); });
        return v;
    }
};
static void expect(const Joint& j, int i, const Ops& got, const char* what) {
    if (i < 0) {
        CHECK(same(got, zero_rec()), what << " of the first record: " << show(got));
        return;
    }
    auto w = j.all(i);
    // a single change may be as it was written
    if (w.size() == 1 && same(got, j.src[i].pieces[w[0]])) return;
    Ops want = fold(j.src[i], w);
    CHECK(same(got, want), what << " of @" << text(j.src[i].id) << " *" << form_name(j.src[i].form) << ": " << diff(got, want)
                                << "\ngot\n" << show(got) << "expected\n" << show(want));
}

static ron::Key near_key(pbt::Gen& g, const vector<std::pair<ron::Key, int>>& now) {
    switch (g.weighted({4, 5, 2, 1, 1})) {
        case 0:
            if (!now.empty()) return g.pick(now).first;
        case 1:
            if (!now.empty()) {
                auto k = g.pick(now).first;
                Uid u = M(k.id());
                int f = k.form();
                switch (g.below(6)) {
                    case 0: u.value = (u.value + 1) & PAY; break;
                    case 1: u.value = (u.value - 1) & PAY; break;
                    case 2: u.origin = ((u.origin + 1) & PAY) | V_TIME; break;
                    case 3: u.origin = ((u.origin - 1) & PAY) | V_TIME; break;
                    case 4: f = (f + 1) & 255; break;
                    default: f = (f - 1) & 255; break;
                }
                return ron::Key{R(u), (FORM)f};
            }
        case 2:
            return ron::Key{R(gen_event(g)), g.pick(rules()).second};
        case 3:
            return ron::Key::ZERO;
        default:
            return ron::Key::END;
    }
}

/** the pending changes of an array are merged before they meet the base, see KNOWN below */
static bool one_subtree(const Joint& j, size_t i, int c) {
    auto& s = j.src[i];
    if (s.form != ron::RGA_RDT_FORM || j.in[1][i].empty()) return true;
    vector<bool> have(s.tree.ops.size());
    for (int o : s.tparts[c]) have[o] = true;
    for (int w : j.in[1][i])
        for (int o : s.tparts[w]) have[o] = true;
    int tops = 0;
    for (int o = 0; o < (int)have.size(); ++o)
        if (have[o] && (o == 0 || !have[s.tree.parent[o]])) ++tops;
    return tops == 1;
}

template <class Base>
static void run(pbt::Gen& g, Base& base) {
    using Join = ron::JoinedStore<Base, Mem>;
    Joint j;
    j.src = gen_sources(g, g.chance(1, 6) ? 14 : 6, 6);
    if (j.src.empty()) g.discard();
    g.note(show_sources(j.src));
    for (auto& v : j.in) v.resize(j.src.size());
    j.next.resize(j.src.size());
    j.zero = std::is_same<Base, Store>::value;
    Mem mem;
    Join join{base, mem};
    auto change = [&](size_t i) {
        int n = j.next[i];
        if (n >= (int)j.src[i].pieces.size())
            n = (int)g.below(j.src[i].pieces.size());
        else
            ++j.next[i];
        return n;
    };
    auto put = [&](int where, size_t i, int c) {
        string s = lay(g, j.src[i].pieces[c]);
        g.note(string(where == 0 ? "to the base: " : where == 1 ? "pending: " : "through the join: ") + "key " +
               std::to_string(i) + " [" + pbt::esc(s) + "]");
        Status ok = where == 0 ? base.Write(j.src[i].key(), TextFrame{s})
                    : where == 1 ? mem.Write(j.src[i].key(), TextFrame{s})
                                 : join.Write(j.src[i].key(), TextFrame{s});
        CHECK(ok, "a write is refused: " << ok.str());
        if (where < 2)
            j.in[where][i].push_back(c);
        else
            j.in[1][i].push_back(c);
    };
    auto read = [&](size_t i) {
        TextFrame f{"@1+junk :lww;"};
        Status ok = join.Read(j.src[i].key(), f);
        CHECK(ok, "a read is refused: " << ok.str());
        Ops got = must_read(f, "a read");
        if (j.all(i).empty())
            CHECK(got.empty(), "a read of a key never written gives " << show(got));
        else
            expect(j, (int)i, got, "a read");
    };
    auto scan = [&]() {
        auto v = j.places();
        typename Join::Iterator it{join};
        CHECK(it.key() == ron::Key::END, "a scan that was not positioned is at " << it.key().str());
        size_t at = v.size(), steps = 0;
        while (g.more(8) && steps++ < 40) {
            if (g.chance(1, 3) || steps == 1) {
                ron::Key k = near_key(g, v);
                bool prev = g.coin();
                g.note(string(prev ? "seek back to " : "seek to ") + k.str());
                Status ok = it.SeekTo(k, prev);
                CHECK(ok, "a seek is refused: " << ok.str());
                size_t lo = 0;
                while (lo < v.size() && model_key_less(v[lo].first, k)) ++lo;
                bool here = lo < v.size() && !model_key_less(k, v[lo].first);
                at = here || !prev ? lo : lo > 0 ? lo - 1 : v.size();
            } else {
                g.note("next");
                Status ok = it.Next();
                if (at < v.size()) {
                    ++at;
                    if (at < v.size()) CHECK(ok, "a step gives " << ok.str());
                }
            }
            ron::Key want = at < v.size() ? v[at].first : ron::Key::END;
            CHECK(it.key() == want, "a scan is at " << it.key().str() << ", expected " << want.str());
            if (g.coin()) {
                g.note("value");
                auto c = it.value();
                Ops got;
                while (c.Next()) got.push_back(read_op(c));
                if (at < v.size())
                    expect(j, v[at].second, got, "a scan");
                else
                    CHECK(got.empty(), "there is a value at the end");
            }
        }
    };
    // the base first, as a rule
    size_t n = 0;
    int phase = 0;
    while (g.more(14) && n++ < 50) {
        if (g.chance(1, 4)) phase = 1;
        switch (g.weighted({8, 3, 2})) {
            case 0: {
                size_t i = g.below(j.src.size());
                // an array grows causally in what is read: the base is before what is pending
                bool free = j.src[i].form != ron::RGA_RDT_FORM || j.in[1][i].empty();
                int where = phase == 0 || (g.chance(1, 6) && free) ? 0 : 1 + (int)g.below(2);
                int c = change(i);
                if (where && !one_subtree(j, i, c)) break;
                put(where, i, c);
                break;
            }
            case 1: {
                size_t i = g.below(j.src.size());
                g.note("read key " + std::to_string(i));
                read(i);
                break;
            }
            default:
                scan();
        }
    }
    bool both = false, one = false;
    for (size_t i = 0; i < j.src.size(); ++i) {
        bool a = !j.in[0][i].empty(), b = !j.in[1][i].empty();
        both = both || (a && b);
        one = one || a != b;
    }
    if (both && one) g.nontrivial();
    g.note("at the end");
    scan();
    for (size_t i = 0; i < j.src.size(); ++i) read(i);
    auto v = j.places();
    typename Join::Iterator it{join};
    CHECK(it.SeekTo(ron::Key::ZERO), "a seek is refused");
    for (size_t at = 0; at < v.size(); ++at) {
        CHECK(it.key() == v[at].first, "the last scan: record " << at << " is " << it.key().str() << ", expected " << v[at].first.str());
        auto c = it.value();
        Ops got;
        while (c.Next()) got.push_back(read_op(c));
        expect(j, v[at].second, got, "the last scan");
        it.Next();
    }
    CHECK(it.key() == ron::Key::END, "the last scan has more records: " << it.key().str());
    // each part by itself has what it was given
    for (size_t i = 0; i < j.src.size(); ++i)
        for (int w = 0; w < 2; ++w) {
            TextFrame f;
            Status ok = w ? mem.Read(j.src[i].key(), f) : base.Read(j.src[i].key(), f);
            CHECK(ok, "a read of one part is refused: " << ok.str());
            Ops got = must_read(f, "a read of one part");
            auto& in = j.in[w][i];
            if (in.empty())
                CHECK(got.empty(), (w ? "the pending store" : "the base") << " has a key it was not given: " << show(got));
            else if (in.size() > 1 && j.src[i].form == ron::RGA_RDT_FORM && w)
                continue;  // a subtree, as the join has it
            else if (in.size() > 1 || !same(got, j.src[i].pieces[in[0]])) {
                Ops want = fold(j.src[i], in);
                CHECK(same(got, want), (w ? "the pending store" : "the base") << " has other changes of key " << i << ": " << diff(got, want));
            }
        }
}

FACET(two_in_memory, 200000, 3000000) {
    Mem base;
    run(g, base);
}
FACET(over_a_database, 8000, 150000) {
    Dir dir;
    Store base;
    CHECK(base.Create(ron::Uuid::NIL), "a store can not be created");
    run(g, base);
}

// long histories, many changes of a key, many keys
template <class Base>
static void run_large(pbt::Gen& g, Base& base, size_t max) {
    using Join = ron::JoinedStore<Base, Mem>;
    Joint j;
    size_t n = 1 + g.below(2);
    std::set<std::pair<Uid, int>> keys;
    while (j.src.size() < n) {
        Source s = gen_large_source(g);
        if (key_id(s.id).value == 0 || !keys.insert({key_id(s.id), (int)s.form}).second) g.discard();
        g.note("key @" + text(s.id) + " *" + form_name(s.form) + " of " + std::to_string(s.pieces.size()) + " changes");
        if (s.pieces.size() > 255) g.cls("more than 255 changes of a key");
        j.src.push_back(s);
    }
    pbt::Gen bulk = g.bulk();
    if (g.coin()) {  // many small ones
        bool dense = g.coin();
        for (size_t i = gen_large_size(g, max); i; --i) {
            Source s;
            s.form = bulk.chance(1, 4) ? ron::MAX_RDT_FORM : ron::LWW_RDT_FORM;
            s.id = dense ? Uid{((uint64_t)1 << 58) + bulk.below(2 * max), V_TIME | word_val(bulk.coin() ? "A" : "B")} : gen_event(bulk);
            if (key_id(s.id).value == 0 || !keys.insert({key_id(s.id), (int)s.form}).second) continue;
            Op o;
            o.id = s.id;
            o.ref = uid(form_name(s.form));
            o.term = 0;
            s.pieces.push_back({o});
            j.src.push_back(s);
        }
        if (j.src.size() > 255) g.cls("more than 255 keys");
    }
    for (auto& v : j.in) v.resize(j.src.size());
    j.next.resize(j.src.size());
    j.zero = std::is_same<Base, Store>::value;
    Mem mem;
    Join join{base, mem};
    // the base first; an array is pending in one subtree
    unsigned share = (unsigned)g.below(101);
    for (size_t i = 0; i < j.src.size(); ++i) {
        auto& s = j.src[i];
        size_t np = s.pieces.size(), cut = np == 1 ? (bulk.below(100) < share) : share * np / 100;
        bool rga = s.form == ron::RGA_RDT_FORM;
        for (size_t c = 0; c < np; ++c) {
            int where = c < cut ? 0 : rga && !one_subtree(j, i, (int)c) ? -1 : 1;
            if (where < 0) break;  // causality
            auto& p = s.pieces[c];
            TextFrame f = p.size() < 300 ? TextFrame{lay(bulk, p)} : build(p);
            Status ok = where == 0 ? base.Write(s.key(), f) : bulk.coin() ? mem.Write(s.key(), f) : join.Write(s.key(), f);
            CHECK(ok, "a write is refused: " << ok.str());
            j.in[where][i].push_back((int)c);
        }
    }
    bool both = false;
    for (size_t i = 0; i < n; ++i) {
        both = both || (!j.in[0][i].empty() && !j.in[1][i].empty());
        TextFrame f;
        CHECK(join.Read(j.src[i].key(), f), "a read is refused");
        Ops got = must_read(f, "a read");
        if (j.all(i).empty())
            CHECK(got.empty(), "a read of a key never written gives " << show(got));
        else
            expect(j, (int)i, got, "a read");
    }
    if (both || j.src.size() > 100) g.nontrivial();
    auto v = j.places();
    typename Join::Iterator it{join};
    CHECK(it.SeekTo(ron::Key::ZERO), "a seek is refused");
    for (size_t at = 0; at < v.size(); ++at) {
        CHECK(it.key() == v[at].first, "the scan: record " << at << " is " << it.key().str() << ", expected " << v[at].first.str());
        auto c = it.value();
        Ops got;
        while (c.Next()) got.push_back(read_op(c));
        expect(j, v[at].second, got, "the scan");
        (void)it.Next();
    }
    CHECK(it.key() == ron::Key::END, "the scan has more records: " << it.key().str());
    for (int k = 0; k < 100; ++k) {
        ron::Key key = near_key(bulk, v);
        bool prev = bulk.coin();
        CHECK(it.SeekTo(key, prev), "a seek is refused");
        size_t lo = std::lower_bound(v.begin(), v.end(), key, [](auto& e, const ron::Key& x) { return model_key_less(e.first, x); }) - v.begin();
        bool here = lo < v.size() && !model_key_less(key, v[lo].first);
        size_t at = here || !prev ? lo : lo > 0 ? lo - 1 : v.size();
        for (size_t steps = bulk.below(4);; --steps) {
            ron::Key want = at < v.size() ? v[at].first : ron::Key::END;
            CHECK(it.key() == want, "after a seek to " << key.str() << " a scan is at " << it.key().str() << ", expected " << want.str());
            if (!steps || at >= v.size()) break;
            (void)it.Next();
            ++at;
        }
    }
}
FACET(large, 500, 8000) {
    Mem base;
    run_large(g, base, 1000);
}
FACET(large_over_a_database, 60, 1000) {
    Dir dir;
    Store base;
    CHECK(base.Create(ron::Uuid::NIL), "a store can not be created");
    run_large(g, base, 1000);
}

// edits in two places of an array that is in the base
KNOWN(edits_in_two_places) {
    Mem base, mem;
    ron::JoinedStore<Mem, Mem> join{base, mem};
    ron::Key k{ron::Uuid{"1gABC+A"}, ron::RGA_RDT_FORM};
    base.Write(k, TextFrame{"@1gABC+A :rga, @1gABC00001+A :1gABC+A 'a', @1gABC00002+A :1gABC00001+A 'b';"});
    join.Write(k, TextFrame{"@1gABC00003+A :1gABC00002+A 'c';"});
    join.Write(k, TextFrame{"@1gABC00004+A :1gABC00001+A 'd';"});
    TextFrame f;
    Status ok = join.Read(k, f);
    CHECK(ok, "a read gives " << ok.str());
    CHECK(must_read(f, "a read").size() == 5, "a read gives " << f.data());
}
