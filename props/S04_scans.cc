// USES: rocks
#include "lib/storelib.hpp"
using namespace model;

PROPERTY("S04",
         "contents of some tens of keys of all types with many pending changes; seeks in both directions to "
         "present, absent and extreme keys, walks to the end and past it, with writes, flushes and compactions "
         "while the scan is open; against a sorted list of keys and the model of their values; non-trivial: "
         "a walk of three steps or more, or a seek to an absent key between two present ones")

struct Entry {
    ron::Key key;
    Ops val;
};
static bool key_less(const ron::Key& a, const ron::Key& b) { return model_key_less(a, b); }

/** any key, or one near a present key */
static ron::Key gen_key(pbt::Gen& g, const vector<Entry>& now) {
    switch (g.weighted({4, 5, 2, 1, 1})) {
        case 0:
            if (!now.empty()) return now[g.below(now.size())].key;
        case 1:
            if (!now.empty()) {
                auto k = now[g.below(now.size())].key;
                Uid u = M(k.id());
                int f = k.form();
                switch (g.below(6)) {
                    case 0: u.value = (u.value + 1) & PAY; break;
                    case 1: u.value = (u.value - 1) & PAY; break;
                    case 2: u.origin = ((u.origin + 1) & PAY) | V_TIME; break;
                    case 3: u.origin = ((u.origin - 1) & PAY) | V_TIME; break;
                    case 4: f = (f + 1) & 255; break;
                    default: f = (f - 1) & 255; break;
                }
                return ron::Key{R(u), (FORM)f};
            }
        case 2: {
            Uid u = gen_event(g);
            return ron::Key{R(u), g.pick(rules()).second};
        }
        case 3:
            return ron::Key::ZERO;
        default:
            return ron::Key::END;
    }
}

static void expect_at(Store::Iterator& i, const vector<Entry>& snap, size_t at, const char* what) {
    if (at >= snap.size()) {
        CHECK(i.key() == ron::Key::END, what << " must be at the end, not at " << i.key().str());
        auto c = i.value();
        CHECK(!c.Next(), what << ": there is a value at the end");
        return;
    }
    CHECK(i.key() == snap[at].key, what << " is at " << i.key().str() << ", expected " << snap[at].key.str());
    auto c = i.value();
    Ops got;
    while (c.Next()) got.push_back(read_op(c));
    CHECK(same(got, snap[at].val), what << ": the value at " << i.key().str() << ": " << diff(got, snap[at].val));
}

FACET(walks, 3000, 80000) {
    auto src = gen_sources(g, g.chance(1, 5) ? 30 : 8, 4);
    if (src.empty()) g.discard();
    g.note(show_sources(src));
    Dir dir;
    Store st;
    Model m{src};
    CHECK(st.Create(ron::Uuid::NIL), "a store can not be created");
    m.zero = true;
    Store target = st;
    if (g.chance(1, 4)) {
        CHECK(target.Create(R(gen_event(g))), "a branch can not be created");
        g.cls("a branch");
    }
    auto contents = [&]() {
        vector<Entry> v;
        for (auto& p : model_scan(m)) v.push_back({p.second, model_value(m, p.first)});
        return v;
    };
    auto write = [&]() {
        size_t i = g.below(src.size());
        int c = next_change(g, m, i);
        m.written[i].push_back(c);
        string s = lay(g, src[i].pieces[c]);
        g.note("write key " + std::to_string(i) + " [" + pbt::esc(s) + "]");
        Status ok = target.Write(src[i].key(), TextFrame{s});
        CHECK(ok, "a write is refused: " << ok.str());
    };
    // all of the first changes, as a rule
    for (size_t i = 0; i < src.size(); ++i)
        if (g.chance(4, 5)) {
            int c = next_change(g, m, i);
            m.written[i].push_back(c);
            CHECK(target.Write(src[i].key(), TextFrame{lay(g, src[i].pieces[c])}), "a write is refused");
        }
    size_t rounds = 1 + g.below(4);
    for (size_t r = 0; r < rounds; ++r) {
        for (size_t k = g.below(6); k > 0; --k) write();
        if (g.chance(1, 4)) raw_db(st)->Flush(rocksdb::FlushOptions{});
        if (g.chance(1, 6)) raw_db(st)->CompactRange({}, nullptr, nullptr);
        auto snap = contents();
        Store::Iterator i{target};
        CHECK(i.key() == ron::Key::END, "a scan that was not positioned is at " << i.key().str());
        size_t at = snap.size();
        size_t steps = 0, sought = 0;
        bool placed = false;
        while (g.more(10) && steps < 60) {
            ++steps;
            switch (g.weighted({5, 8, 2, 1})) {
                case 0: {
                    ron::Key k = gen_key(g, snap);
                    bool prev = g.coin();
                    g.note(string(prev ? "seek back to " : "seek to ") + k.str());
                    Status ok = i.SeekTo(k, prev);
                    CHECK(ok, "a seek is refused: " << ok.str());
                    size_t lo = 0;  // the first not less than k
                    while (lo < snap.size() && key_less(snap[lo].key, k)) ++lo;
                    bool here = lo < snap.size() && !key_less(k, snap[lo].key);
                    if (here)
                        at = lo;
                    else if (!prev)
                        at = lo;
                    else
                        at = lo > 0 ? lo - 1 : snap.size();
                    if (!here && lo > 0 && lo < snap.size()) g.nontrivial();
                    g.cls(here ? "a seek to a present key" : prev ? "a seek to the lesser key" : "a seek to the greater key");
                    placed = true;
                    sought = 0;
                    expect_at(i, snap, at, prev ? "a seek back" : "a seek");
                    break;
                }
                case 1: {
                    g.note("next");
                    Status ok = i.Next();
                    bool was_end = at >= snap.size();
                    if (!was_end) ++at;
                    if (at >= snap.size())
                        CHECK(ok == Status::ENDOFINPUT, "a step " << (was_end ? "at" : "to") << " the end gives " << ok.str());
                    else
                        CHECK(ok, "a step gives " << ok.str());
                    if (placed && ++sought >= 3) g.nontrivial();
                    expect_at(i, snap, at, "a step");
                    break;
                }
                case 2:
                    // the scan must not see it
                    write();
                    g.cls("a write while a scan is open");
                    if (g.chance(1, 5)) raw_db(st)->Flush(rocksdb::FlushOptions{});
                    if (g.chance(1, 8)) raw_db(st)->CompactRange({}, nullptr, nullptr);
                    expect_at(i, snap, at, "a scan after a write");
                    break;
                default: {
                    // a read of the key the scan is at, if nothing was written since
                    if (at < snap.size()) {
                        auto now = contents();
                        for (auto& e : now)
                            if (e.key == snap[at].key) {
                                Ops got = store_read(target, e.key, "a read");
                                CHECK(same(got, e.val), "a read of " << e.key.str() << ": " << diff(got, e.val));
                            }
                    }
                }
            }
        }
        if (g.coin()) {
            CHECK(i.Close(), "a scan can not be closed");
            CHECK(i.key() == ron::Key::END, "a closed scan is at " << i.key().str());
            CHECK(!i.Next(), "a closed scan steps");
            CHECK(!i.SeekTo(ron::Key::ZERO), "a closed scan seeks");
            auto c = i.value();
            CHECK(!c.Next(), "a closed scan has a value");
        }
    }
    // the whole of it, at last
    expect_scan(target, m, "a full scan");
}

// hundreds of keys and more
FACET(large, 100, 3000) {
    size_t n = gen_large_size(g, 3000);
    pbt::Gen bulk = g.bulk();
    Dir dir;
    Store st;
    CHECK(st.Create(ron::Uuid::NIL), "a store can not be created");
    Store target = st;
    if (g.chance(1, 3)) CHECK(target.Create(R(gen_event(g))), "a branch can not be created");
    auto less = [](const ron::Key& a, const ron::Key& b) { return key_less(a, b); };
    std::map<ron::Key, Ops, decltype(less)> all{less};
    all[ron::Key::ZERO] = zero_rec();
    bool dense = g.coin();
    Store::Records batch;
    for (size_t i = 0; i < n; ++i) {
        Uid u = dense ? Uid{((uint64_t)1 << 58) + bulk.below(2 * n), V_TIME | word_val(bulk.coin() ? "A" : "B")} : gen_event(bulk);
        if (u.value == 0) continue;
        ron::Key k{R(u), bulk.coin() ? ron::LWW_RDT_FORM : bulk.coin() ? ron::LOG_RAW_FORM : ron::ZERO_RAW_FORM};
        if (all.count(k)) continue;
        Op o;
        o.id = gen_event(bulk);
        o.ref = gen_event(bulk);
        o.vals.push_back(Val::I((int64_t)i));
        o.term = 0;
        all[k] = Ops{o};
        batch.emplace_back(k, build(all[k]));
        if (bulk.chance(1, 200)) {
            CHECK(target.Write(batch), "a batch is refused");
            batch.clear();
            if (bulk.chance(1, 3)) CHECK(raw_db(st)->Flush(rocksdb::FlushOptions{}).ok(), "a flush fails");
        }
    }
    if (!batch.empty()) CHECK(target.Write(batch), "a batch is refused");
    vector<Entry> snap;
    for (auto& p : all) snap.push_back({p.first, p.second});
    g.note(std::to_string(snap.size()) + " keys");
    if (snap.size() > 255) g.cls("more than 255 keys");
    g.nontrivial();
    Store::Iterator i{target};
    CHECK(i.SeekTo(ron::Key::ZERO), "a seek is refused");
    for (size_t at = 0; at < snap.size(); ++at) {
        expect_at(i, snap, at, "a step");
        Status ok = i.Next();
        CHECK(ok == (at + 1 < snap.size() ? Status::OK : Status::ENDOFINPUT), "step " << at << " of " << snap.size() << " gives " << ok.str());
    }
    expect_at(i, snap, snap.size(), "the last step");
    for (int k = 0; k < 200; ++k) {
        ron::Key key = gen_key(bulk, snap);
        bool prev = bulk.coin();
        CHECK(i.SeekTo(key, prev), "a seek is refused");
        size_t lo = std::lower_bound(snap.begin(), snap.end(), key, [](const Entry& e, const ron::Key& x) { return key_less(e.key, x); }) - snap.begin();
        bool here = lo < snap.size() && !key_less(key, snap[lo].key);
        size_t at = here || !prev ? lo : lo > 0 ? lo - 1 : snap.size();
        expect_at(i, snap, at, prev ? "a seek back" : "a seek");
        for (size_t steps = bulk.below(4); steps && at < snap.size(); --steps) {
            (void)i.Next();
            expect_at(i, snap, ++at, "a step after a seek");
        }
    }
}
