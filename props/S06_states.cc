// USES: rocks
#include "lib/storelib.hpp"
using namespace model;

PROPERTY("S06",
         "sequences of every operation of a store and of a scan on three stores over two databases, in any "
         "state (never opened, open, a branch, closed, after refused requests), with reserved keys in single "
         "writes and in batches at any place; refused requests must be reported and change nothing, accepted "
         "ones are compared with a model; non-trivial: some request was refused and some accepted write came "
         "after it",
         "a scan is not used after the database it was opened on is closed")

struct S {
    Store st;
    int db{-1};   // the database it has open
    Uid branch{};
};
struct DB {
    std::unique_ptr<Dir> dir;
    bool there{false};
    std::map<Uid, Model> branches;
    int users{0};  // how many stores have it open
};

FACET(states, 3000, 80000) {
    auto src = gen_sources(g, 3, 4);
    if (src.empty()) g.discard();
    g.note(show_sources(src));
    const Uid NIL{};
    DB dbs[2];
    for (auto& d : dbs) d.dir.reset(new Dir);
    S ss[3];
    bool refused = false;
    vector<Uid> ids{uid("0+branch"), gen_event(g), uid("name"), uid("default")};
    auto no = [&](Status ok, const char* what) {
        CHECK(!ok, what << " is accepted");
        refused = true;
        g.cls(what);
    };
    size_t n = 0;
    while (g.more(30) && n++ < 150) {
        size_t si = g.below(3), di = g.below(2);
        S& s = ss[si];
        DB& d = dbs[di];
        Model* m = s.db >= 0 && dbs[s.db].branches.count(s.branch) ? &dbs[s.db].branches.at(s.branch) : nullptr;
        string me = "store " + std::to_string(si);
        switch (g.weighted({4, 3, 3, 8, 4, 4, 3, 4, 2})) {
            case 0: {  // Create
                Uid id = g.chance(1, 3) ? NIL : g.pick(ids);
                d.dir->use();
                g.note(me + " creates " + text(id) + " in db " + std::to_string(di));
                if (s.db >= 0) {
                    // a store that is open makes another branch in its own database and moves to it
                    DB& own = dbs[s.db];
                    Status ok = s.st.Create(R(id));
                    if (id != NIL && (own.branches.count(id) || id == uid("default"))) {
                        no(ok, "a branch that exists");
                        break;
                    }
                    CHECK(ok, "a branch can not be created: " << ok.str());
                    if (!own.branches.count(id)) own.branches.emplace(id, Model{src});
                    own.branches.at(id).zero = true;
                    s.branch = id;
                    break;
                }
                bool locked = d.users > 0;
                bool many = d.branches.size() > 1;
                Status ok = s.st.Create(R(id));
                if (locked) {
                    no(ok, "a database that is open already");
                    CHECK(!s.st.open(), "a store is open after a refusal");
                    break;
                }
                if (many) {
                    no(ok, "a database with branches opened without them");
                    CHECK(!s.st.open(), "a store is open after a refusal");
                    break;
                }
                if (id == uid("default")) {
                    no(ok, "the default branch created by name");
                    // the database is there now; the store has nothing to use
                    if (!d.there) {
                        d.there = true;
                        d.branches.emplace(NIL, Model{src});
                    }
                    if (s.st.open()) {
                        TextFrame f;
                        s.st.Read(ron::Key::ZERO, f);
                        s.st.Write(src[0].key(), TextFrame{});
                        Store::Iterator i{s.st};
                        i.SeekTo(ron::Key::ZERO);
                        s.st.Drop();
                        s.st.Close();
                    }
                    break;
                }
                CHECK(ok, "a store can not be created: " << ok.str());
                if (!d.there) {
                    d.there = true;
                    d.branches.emplace(NIL, Model{src});
                }
                if (!d.branches.count(id)) d.branches.emplace(id, Model{src});
                d.branches.at(id).zero = true;
                s.db = (int)di;
                s.branch = id;
                d.users = 1;
                break;
            }
            case 1: {  // Open
                Uid id = g.chance(1, 3) ? g.pick(ids) : NIL;
                d.dir->use();
                g.note(me + " opens " + text(id) + " in db " + std::to_string(di));
                Status ok = s.st.Open(R(id));
                if (s.db >= 0) {
                    no(ok, "a store opened twice");
                    CHECK(ok == Status::BAD_STATE, "a store opened twice gives " << ok.str());
                    break;
                }
                if (id != NIL) {
                    no(ok, "a single branch opened");
                    CHECK(!s.st.open(), "a store is open after a refusal");
                    break;
                }
                if (!d.there || d.users > 0 || d.branches.size() > 1) {
                    no(ok, !d.there ? "a database that is not there" : d.users ? "a database that is open already"
                                                                              : "a database with branches opened without them");
                    CHECK(!s.st.open(), "a store is open after a refusal");
                    break;
                }
                CHECK(ok, "a store can not be opened: " << ok.str());
                s.db = (int)di;
                s.branch = NIL;
                d.users = 1;
                break;
            }
            case 2: {  // Close
                g.note(me + " closes");
                Status ok = s.st.Close();
                if (s.db < 0) {
                    no(ok, "a closed store closed");
                    CHECK(ok == Status::BAD_STATE, "a closed store closed gives " << ok.str());
                } else {
                    CHECK(ok, "a store can not be closed: " << ok.str());
                    --dbs[s.db].users;
                    s.db = -1;
                }
                CHECK(!s.st.open(), "a closed store is open");
                break;
            }
            case 3: {  // Write
                bool end = g.chance(1, 4);
                size_t i = g.below(src.size());
                vector<int> next;
                if (m) next = m->next;
                int c = m ? next_change(g, *m, i) : (int)g.below(src[i].pieces.size());
                TextFrame f{lay(g, src[i].pieces[c])};
                g.note(me + " writes " + (end ? "the end" : std::to_string(i)) + " [" + pbt::esc(f.data()) + "]");
                if (end) {
                    if (m) m->next = next;
                    Status ok = s.st.Write(ron::Key::END, f);
                    if (s.db < 0 || !f.data().empty())
                        no(ok, "a write to the end");
                    if (s.db >= 0 && !f.data().empty()) CHECK(ok == Status::BADARGS, "a write to the end gives " << ok.str());
                    if (m && !ok && g.chance(1, 6)) expect_scan(s.st, *m, "after a refused write");
                    if (ok && m) g.discard();
                } else {
                    Status ok = s.st.Write(src[i].key(), f);
                    if (!m) {
                        no(ok, "a write to a closed store");
                        CHECK(ok == Status::BAD_STATE, "a write to a closed store gives " << ok.str());
                        break;
                    }
                    CHECK(ok, "a write is refused: " << ok.str());
                    m->written[i].push_back(c);
                    if (refused) g.nontrivial();
                }
                break;
            }
            case 4: {  // batch
                Store::Records batch;
                vector<std::pair<size_t, int>> put;
                bool bad = false;
                g.note(me + " writes a batch");
                vector<int> next;
                if (m) next = m->next;
                size_t len = g.below(6);
                for (size_t k = 0; k < len; ++k) {
                    size_t i = g.below(src.size());
                    int c = m ? next_change(g, *m, i) : (int)g.below(src[i].pieces.size());
                    string t = lay(g, src[i].pieces[c]);
                    if (g.chance(1, 8) && !t.empty()) {
                        bad = true;
                        g.note("  end [" + pbt::esc(t) + "]");
                        batch.emplace_back(ron::Key::END, TextFrame{t});
                    } else {
                        g.note("  " + std::to_string(i) + " [" + pbt::esc(t) + "]");
                        batch.emplace_back(src[i].key(), TextFrame{t});
                        put.push_back({i, c});
                    }
                }
                Status ok = s.st.Write(batch);
                if (!m) {
                    no(ok, "a batch to a closed store");
                    break;
                }
                if (bad) {
                    no(ok, "a batch with the end in it");
                    CHECK(ok == Status::BADARGS, "a batch with the end in it gives " << ok.str());
                    m->next = next;
                    expect_scan(s.st, *m, "after a refused batch");
                    break;
                }
                CHECK(ok, "a batch is refused: " << ok.str());
                for (auto& p : put) m->written[p.first].push_back(p.second);
                if (refused && !put.empty()) g.nontrivial();
                break;
            }
            case 5: {  // Read
                size_t i = g.below(src.size());
                bool end = g.chance(1, 4);
                g.note(me + " reads " + (end ? "the end" : std::to_string(i)));
                TextFrame f{"@1+junk :lww;"};
                Status ok = s.st.Read(end ? ron::Key::END : src[i].key(), f);
                if (!m) {
                    no(ok, "a read of a closed store");
                    CHECK(ok == Status::BAD_STATE, "a read of a closed store gives " << ok.str());
                    CHECK(f.empty(), "a read of a closed store leaves [" << pbt::esc(f.data()) << "]");
                    break;
                }
                CHECK(ok, "a read is refused: " << ok.str());
                Ops got = must_read(f, "a read");
                if (end)
                    CHECK(got.empty(), "the end has a record");
                else
                    expect_key(src[i], got, model_value(*m, (int)i), "a read");
                break;
            }
            case 6: {  // Drop
                g.note(me + " drops its branch");
                if (s.db >= 0 && s.branch != NIL) {
                    // only when nobody else is on it
                    bool shared = false;
                    for (auto& o : ss) shared = shared || (&o != &s && o.db == s.db && o.branch == s.branch);
                    if (shared) break;
                }
                Status ok = s.st.Drop();
                if (!m || s.branch == NIL) {
                    no(ok, m ? "a drop of the default branch" : "a drop of a closed store");
                    CHECK(s.st.open() == (m != nullptr), "a refused drop changes the state of the store");
                    if (m) expect_all(s.st, *m, "after a refused drop");
                    break;
                }
                CHECK(ok, "a branch can not be dropped: " << ok.str());
                dbs[s.db].branches.erase(s.branch);
                --dbs[s.db].users;
                s.db = -1;
                CHECK(!s.st.open(), "a dropped branch is open");
                break;
            }
            case 7: {  // scan
                g.note(me + " scans");
                if (m) {
                    expect_scan(s.st, *m, "a scan");
                    break;
                }
                Store::Iterator i{s.st};
                CHECK(i.key() == ron::Key::END, "a scan of a closed store has a key");
                auto c = i.value();
                CHECK(!c.Next(), "a scan of a closed store has a value");
                no(i.Next(), "a step in a closed store");
                no(i.SeekTo(src[0].key(), g.coin()), "a seek in a closed store");
                CHECK(i.key() == ron::Key::END, "a scan of a closed store has a key");
                break;
            }
            default: {  // OpenAll, when all is closed or when it is not
                d.dir->use();
                g.note("open all of db " + std::to_string(di));
                Branches b;
                Status ok = Store::OpenAll(b);
                if (!d.there || d.users > 0) {
                    no(ok, "all branches of a database that is open already or not there");
                    break;
                }
                CHECK(ok, "the branches can not be opened: " << ok.str());
                CHECK(b.size() == d.branches.size(), "there are " << b.size() << " branches, expected " << d.branches.size());
                for (auto& x : d.branches) {
                    CHECK(b.count(R(x.first)), "branch " << text(x.first) << " is not there");
                    expect_scan(b[R(x.first)], x.second, "a scan of an opened branch");
                }
                // some stores stay on it
                for (auto& o : ss)
                    if (o.db < 0 && g.coin()) {
                        auto x = d.branches.begin();
                        std::advance(x, g.below(d.branches.size()));
                        o.st = b[R(x->first)];
                        o.branch = x->first;
                        o.db = (int)di;
                        ++d.users;
                    }
                break;
            }
        }
        for (auto& x : ss) CHECK(x.st.open() == (x.db >= 0), "a store is " << (x.st.open() ? "open" : "closed") << ", expected otherwise");
    }
    for (auto& x : ss) {
        if (x.db >= 0) expect_all(x.st, dbs[x.db].branches.at(x.branch), "the last read");
        x.st.Close();
    }
    for (auto& d : dbs)
        if (d.there) {
            d.dir->use();
            Branches b;
            Status ok = Store::OpenAll(b);
            CHECK(ok, "the branches can not be opened at the end: " << ok.str());
            CHECK(b.size() == d.branches.size(), "there are " << b.size() << " branches, expected " << d.branches.size());
            for (auto& x : d.branches) {
                CHECK(b.count(R(x.first)), "branch " << text(x.first) << " is not there");
                expect_scan(b[R(x.first)], x.second, "the last scan");
            }
        }
}
