// USES: rocks
#include "lib/storelib.hpp"
using namespace model;

PROPERTY("S03",
         "histories of branch creations (ids of all varieties and versions), writes to any branch, drops, "
         "closings, repairs and reopenings, with the same keys in many branches; every branch is compared with a model "
         "of its own after every reopening and at the end; non-trivial: two branches hold different contents "
         "of one key over a reopening or a drop",
         "a branch can not be named after the default one (the id whose text is `default` is not generated)");

static string show_branch(const Uid& u) { return text(u); }

FACET(history, 1500, 40000) {
    auto src = gen_sources(g, 3, 5);
    if (src.empty()) g.discard();
    g.note(show_sources(src));
    Dir dir;
    const Uid NIL{};
    std::map<Uid, Model> models;
    std::map<Uid, Store> stores;
    // a few ids to use, so that they meet; some differ in little
    vector<Uid> ids;
    size_t nids = 1 + g.below(6);
    while (ids.size() < nids) {
        Uid u = g.coin() ? gen_uid(g) : gen_event(g);
        if (!ids.empty() && g.chance(1, 3)) {
            u = g.pick(ids);
            switch (g.below(4)) {
                case 0: u.value ^= 1ULL << 60; break;
                case 1: u.origin ^= 1ULL << 60; break;
                case 2: u.origin ^= 1; break;
                default: u.value ^= 1ULL << (6 * g.below(10)); break;
            }
        }
        if (u == NIL || u == uid("default")) continue;
        ids.push_back(u);
    }
    {
        Store st;
        Status ok = st.Create(ron::Uuid::NIL);
        CHECK(ok, "a store can not be created: " << ok.str());
        stores[NIL] = st;
        models.emplace(NIL, Model{src});
        models.at(NIL).zero = true;
    }
    auto differ = [&]() {
        for (size_t i = 0; i < src.size(); ++i) {
            std::set<vector<int>> s;
            for (auto& m : models)
                if (!m.second.written[i].empty()) s.insert(m.second.written[i]);
            if (s.size() > 1) return true;
        }
        return false;
    };
    auto check_all = [&](const char* what) {
        for (auto& m : models) {
            g.note(string("check ") + show_branch(m.first));
            expect_all(stores[m.first], m.second, what);
            expect_scan(stores[m.first], m.second, what);
        }
    };
    auto reopen = [&]() {
        g.note("reopen");
        g.cls("reopening");
        if (differ()) g.nontrivial();
        bool old = false;
        for (auto& s : stores) {
            Status ok = s.second.Close();
            CHECK(ok, "a branch can not be closed: " << ok.str());
            CHECK(!s.second.open(), "a closed branch is open");
        }
        stores.clear();
        if (g.chance(1, 4)) {
            g.note("repair");
            g.cls("repair");
            Status ok = Store::Repair();
            CHECK(ok, "a repair fails: " << ok.str());
        }
        Branches b;
        if (models.size() == 1 && g.coin()) {
            Store st;
            Status ok = st.Open(ron::Uuid::NIL);
            CHECK(ok, "a store can not be opened: " << ok.str());
            stores[NIL] = st;
            old = true;
        }
        if (!old) {
            if (g.chance(1, 3)) {  // the list has closed stores already
                g.note("into a list of closed stores");
                g.cls("reopened into a used list");
                for (auto& m : models)
                    if (g.coin()) b.emplace(R(m.first), Store{});
                if (g.coin()) b.emplace(R(gen_event(g)), Store{});
            }
            Status ok = Store::OpenAll(b);
            CHECK(ok, "the branches can not be opened: " << ok.str());
            for (auto& m : models) CHECK(b.count(R(m.first)), "branch " << text(m.first) << " is not there after reopening");
            CHECK(b.size() == models.size(), "there are " << b.size() << " branches, expected " << models.size());
            for (auto& m : models) {
                stores[m.first] = b[R(m.first)];
                CHECK(stores[m.first].open(), "branch " << text(m.first) << " is not open after reopening");
            }
        }
        check_all("after reopening");
    };
    size_t n = 0;
    while (g.more(25) && n++ < 100) {
        auto any = models.begin();
        std::advance(any, g.below(models.size()));
        switch (g.weighted({4, 12, 3, 2, 2})) {
            case 0: {
                Uid u = g.pick(ids);
                g.note("create " + text(u) + " from " + text(any->first));
                Store br = stores[any->first];
                Status ok = br.Create(R(u));
                if (models.count(u)) {
                    g.cls("a branch that exists");
                    CHECK(!ok, "branch " << text(u) << " is created twice");
                } else {
                    g.cls("a new branch");
                    CHECK(ok, "branch " << text(u) << " can not be created: " << ok.str());
                    stores[u] = br;
                    models.emplace(u, Model{src});
                    models.at(u).zero = true;
                    expect_scan(br, models.at(u), "a scan of a new branch");
                }
                // the one it was created from still is what it was
                expect_all(stores[any->first], any->second, "after a creation from it");
                break;
            }
            case 1: {
                size_t i = g.below(src.size());
                int c = next_change(g, any->second, i);
                string s = lay(g, src[i].pieces[c]);
                g.note("write to " + text(any->first) + " key " + std::to_string(i) + " [" + pbt::esc(s) + "]");
                any->second.written[i].push_back(c);
                Status ok;
                if (g.coin())
                    ok = stores[any->first].Write(src[i].key(), TextFrame{s});
                else {
                    Store::Records batch;
                    batch.emplace_back(src[i].key(), TextFrame{s});
                    if (g.coin()) {
                        size_t k = g.below(src.size());
                        int d = next_change(g, any->second, k);
                        any->second.written[k].push_back(d);
                        batch.emplace_back(src[k].key(), TextFrame{lay(g, src[k].pieces[d])});
                    }
                    ok = stores[any->first].Write(batch);
                }
                CHECK(ok, "a write to branch " << text(any->first) << " is refused: " << ok.str());
                break;
            }
            case 2: {
                g.note("read " + text(any->first));
                size_t i = g.below(src.size());
                expect_key(src[i], store_read(stores[any->first], src[i].key(), "a read"),
                           model_value(any->second, (int)i), "a read");
                if (g.coin()) expect_scan(stores[any->first], any->second, "a scan");
                break;
            }
            case 3: {
                Uid u = any->first;
                g.note("drop " + text(u));
                Store& st = stores[u];
                Status ok = st.Drop();
                if (u == NIL) {
                    g.cls("a drop of the default branch");
                    CHECK(!ok, "the default branch is dropped");
                    CHECK(st.open(), "a refused drop closes the store");
                    expect_all(st, any->second, "after a refused drop");
                    break;
                }
                g.cls("a drop");
                if (differ()) g.nontrivial();
                CHECK(ok, "branch " << text(u) << " can not be dropped: " << ok.str());
                CHECK(!st.open(), "a dropped branch is open");
                stores.erase(u);
                models.erase(u);
                check_all("after a drop");
                break;
            }
            default:
                reopen();
        }
    }
    check_all("at the end");
    reopen();
}

// dozens of branches, one key in each
FACET(many_branches, 12, 200) {
    size_t n = g.one_of<size_t>({7, 15, 31}) + g.below(3);
    pbt::Gen bulk = g.bulk();
    Dir dir;
    Store st;
    CHECK(st.Create(ron::Uuid::NIL), "a store can not be created");
    ron::Key k{R(gen_event(bulk)), ron::LOG_RAW_FORM};
    std::map<Uid, Ops> want;
    std::map<Uid, Store> stores;
    auto check = [&](const char* what) {
        for (auto& p : want) {
            Ops got = store_read(stores[p.first], k, what);
            CHECK(same(got, p.second), what << ": branch " << text(p.first) << ": " << diff(got, p.second));
        }
    };
    stores[Uid{}] = st;
    want[Uid{}];
    for (size_t i = 0; i < n; ++i) {
        Uid u = bulk.coin() ? gen_event(bulk) : Uid{bulk.coin() ? 0 : bulk.below(3), V_TIME | (word_val("A") + bulk.below(n))};
        if (u == Uid{} || u == uid("default")) continue;
        Store b = st;
        Status ok = b.Create(R(u));
        CHECK(!!ok == !want.count(u), "the creation of branch " << text(u) << " gives " << ok.str());
        if (!ok) continue;
        want[u];
        stores[u] = b;
    }
    g.note(std::to_string(want.size()) + " branches");
    for (int round = 0; round < 2; ++round) {
        for (auto& p : want) {
            if (bulk.chance(1, 5)) continue;
            Op o;
            o.id = gen_event(bulk);
            o.ref = gen_event(bulk);
            o.vals.push_back(Val::I((int64_t)bulk.below(1000000)));
            o.term = 0;
            CHECK(stores[p.first].Write(k, build(Ops{o})), "a write is refused");
            p.second.push_back(o);
        }
        check("a read");
        vector<Uid> gone;
        for (auto& p : want)
            if (p.first != Uid{} && bulk.chance(1, 4)) gone.push_back(p.first);
        for (auto& u : gone) {
            CHECK(stores[u].Drop(), "branch " << text(u) << " can not be dropped");
            stores.erase(u);
            want.erase(u);
        }
        for (auto& p : stores) CHECK(p.second.Close(), "a branch can not be closed");
        stores.clear();
        st = Store{};
        Branches b;
        CHECK(Store::OpenAll(b), "the branches can not be opened");
        CHECK(b.size() == want.size(), "there are " << b.size() << " branches, expected " << want.size());
        for (auto& p : want) {
            CHECK(b.count(R(p.first)), "branch " << text(p.first) << " is not there after reopening");
            stores[p.first] = b[R(p.first)];
        }
        check("after reopening");
    }
    g.nontrivial();
}
