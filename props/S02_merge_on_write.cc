// USES: rocks
#include "lib/storelib.hpp"
using namespace model;

PROPERTY("S02",
         "histories of writes, batches, reads, scans, flushes, compactions and reopenings over keys of all types "
         "that have a rule; every read is compared with the merge of what was written, by a model of the type's "
         "rule; non-trivial: some key has two changes or more that were spread over a flush, a compaction or a "
         "reopening",
         "changes to an array come in an order that respects causality")

static string name_of(const Source& s) { return "@" + text(s.id) + " *" + form_name(s.form); }

static void history(pbt::Gen& g, size_t maxsrc, size_t maxpieces, unsigned steps) {
    auto src = gen_sources(g, maxsrc, maxpieces);
    if (src.empty()) g.discard();
    g.note(show_sources(src));
    Dir dir;
    Store st;
    Model m{src};
    Status ok = st.Create(ron::Uuid::NIL);
    CHECK(ok, "a store can not be created: " << ok.str());
    m.zero = true;
    vector<unsigned> epoch_of_first(src.size(), UINT32_MAX);
    unsigned epoch = 0;
    bool spread = false;
    auto put = [&](size_t i, int n) {
        m.written[i].push_back(n);
        if (epoch_of_first[i] == UINT32_MAX) epoch_of_first[i] = epoch;
        if (epoch_of_first[i] != epoch && m.written[i].size() > 1) spread = true;
    };
    size_t n = 0;
    while (g.more(steps) && n++ < 4 * steps) {
        switch (g.weighted({10, 4, 4, 2, 2, 1, 2, 1, 1})) {
            case 0: {
                size_t i = g.below(src.size());
                int c = next_change(g, m, i);
                string s = lay(g, src[i].pieces[c]);
                g.note("write " + name_of(src[i]) + " [" + pbt::esc(s) + "]");
                ok = st.Write(src[i].key(), TextFrame{s});
                CHECK(ok, "a write is refused: " << ok.str());
                put(i, c);
                break;
            }
            case 1: {
                Store::Records batch;
                g.note("batch:");
                do {
                    size_t i = g.below(src.size());
                    int c = next_change(g, m, i);
                    string s = lay(g, src[i].pieces[c]);
                    g.note("  " + name_of(src[i]) + " [" + pbt::esc(s) + "]");
                    batch.emplace_back(src[i].key(), TextFrame{s});
                    put(i, c);
                } while (g.more(3) && batch.size() < 16);
                ok = st.Write(batch);
                CHECK(ok, "a batch is refused: " << ok.str());
                break;
            }
            case 2: {
                size_t i = g.below(src.size());
                g.note("read " + name_of(src[i]));
                expect_key(src[i], store_read(st, src[i].key(), "a read"), model_value(m, (int)i), "a read");
                break;
            }
            case 3:
                g.note("flush");
                g.cls("flush");
                CHECK(raw_db(st)->Flush(rocksdb::FlushOptions{}).ok(), "a flush fails");
                ++epoch;
                break;
            case 4: {
                g.note("compact");
                g.cls("compaction");
                rocksdb::CompactRangeOptions o;
                if (g.coin()) o.bottommost_level_compaction = rocksdb::BottommostLevelCompaction::kForce;
                CHECK(raw_db(st)->CompactRange(o, nullptr, nullptr).ok(), "a compaction fails");
                ++epoch;
                break;
            }
            case 5:
                g.note("reopen");
                g.cls("reopening");
                ok = st.Close();
                CHECK(ok, "a store can not be closed: " << ok.str());
                if (g.coin()) {
                    ok = st.Open(ron::Uuid::NIL);
                    CHECK(ok, "a store can not be opened: " << ok.str());
                } else {
                    Branches b;
                    ok = Store::OpenAll(b);
                    CHECK(ok, "a store can not be opened: " << ok.str());
                    CHECK(b.count(ron::Uuid::NIL), "the default branch is not there");
                    st = b[ron::Uuid::NIL];
                }
                ++epoch;
                break;
            case 6:
                g.note("scan");
                expect_scan(st, m, "a scan");
                break;
            case 8: {  // a change with no ops changes nothing
                size_t i = g.below(src.size());
                if (m.written[i].empty()) break;
                string s = g.coin() ? "" : g.coin() ? " " : "\n\n";
                g.note("write of no ops " + name_of(src[i]) + " [" + pbt::esc(s) + "]");
                ok = st.Write(src[i].key(), TextFrame{s});
                CHECK(ok, "a write of no ops is refused: " << ok.str());
                break;
            }
            default: {  // a key that was never written
                Uid u = gen_event(g);
                FORM f = g.pick(rules()).second;
                bool taken = f == ron::ZERO_RAW_FORM && u.value == 0;
                for (auto& s : src) taken = taken || (s.form == f && key_id(s.id) == key_id(u));
                if (taken) break;
                CHECK(store_read(st, ron::Key{R(u), f}, "a read of nothing").empty(),
                      "a key never written has ops: @" << text(u) << " *" << form_name(f));
            }
        }
    }
    if (spread) g.nontrivial();
    g.note("at the end");
    expect_all(st, m, "the last read");
    expect_scan(st, m, "the last scan");
    st.Close();
    ok = st.Open(ron::Uuid::NIL);
    CHECK(ok, "a store can not be opened again: " << ok.str());
    g.note("reopened");
    expect_all(st, m, "a read after reopening");
    expect_scan(st, m, "a scan after reopening");
}

FACET(history, 3000, 80000) { history(g, 5, 6, 24); }
FACET(long_history, 200, 6000) { history(g, 12, 12, 200); }
// one key, many changes: partial merges of everything
FACET(hot_key, 700, 25000) { history(g, 1, 12, 40); }

// long histories and many changes of a key
FACET(large, 80, 2500) {
    vector<Source> src;
    size_t n = 1 + g.below(3);
    while (src.size() < n) {
        Source s = gen_large_source(g);
        for (auto& t : src)
            if (t.form == s.form && key_id(t.id) == key_id(s.id)) g.discard();
        if (key_id(s.id).value == 0) g.discard();
        src.push_back(s);
        g.note("key @" + text(s.id) + " *" + form_name(s.form) + " of " + std::to_string(s.pieces.size()) + " changes");
        if (s.pieces.size() > 255) g.cls("more than 255 changes of a key");
    }
    pbt::Gen bulk = g.bulk();
    Dir dir;
    Store st;
    Model m{src};
    CHECK(st.Create(ron::Uuid::NIL), "a store can not be created");
    m.zero = true;
    unsigned batches = (unsigned)g.below(4), flushes = (unsigned)g.below(3);
    for (;;) {
        vector<size_t> open;
        for (size_t i = 0; i < src.size(); ++i)
            if (m.next[i] < (int)src[i].pieces.size()) open.push_back(i);
        if (open.empty()) break;
        Store::Records batch;
        size_t k = batches == 0 ? 1 : batches == 1 ? 1 + bulk.below(10) : 1 + bulk.below(600);
        while (k--) {
            size_t i = bulk.pick(open);
            if (m.next[i] >= (int)src[i].pieces.size()) continue;
            int c = m.next[i]++;
            m.written[i].push_back(c);
            auto& p = src[i].pieces[c];
            batch.emplace_back(src[i].key(), p.size() < 300 ? TextFrame{lay(bulk, p)} : build(p));
        }
        Status ok = batch.size() == 1 ? st.Write(batch[0].first, batch[0].second) : st.Write(batch);
        CHECK(ok, "a write is refused: " << ok.str());
        if (flushes && bulk.chance(1, flushes == 1 ? 6 : 60)) {
            if (bulk.coin())
                CHECK(raw_db(st)->Flush(rocksdb::FlushOptions{}).ok(), "a flush fails");
            else
                CHECK(raw_db(st)->CompactRange({}, nullptr, nullptr).ok(), "a compaction fails");
        }
        if (bulk.chance(1, 50)) {
            size_t i = bulk.below(src.size());
            expect_key(src[i], store_read(st, src[i].key(), "a read"), model_value(m, (int)i), "a read");
        }
    }
    g.nontrivial();
    expect_all(st, m, "a read of a large record");
    expect_scan(st, m, "a scan of large records");
    CHECK(raw_db(st)->CompactRange({}, nullptr, nullptr).ok(), "a compaction fails");
    expect_all(st, m, "a read of a large record after a compaction");
    st.Close();
    CHECK(st.Open(ron::Uuid::NIL), "a store can not be opened again");
    expect_all(st, m, "a read of a large record after reopening");
    expect_scan(st, m, "a scan of large records after reopening");
}
