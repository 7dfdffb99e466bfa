// USES: rocks
#include "lib/replib.hpp"
using namespace model;

PROPERTY("P06",
         "histories of a replica with one to three branches (created, forked, fed frames of several yarns with "
         "objects of all types, closed and opened); then for every event, and for ids close to events, the record of "
         "the event (its object, its type, a head of its chain, the one before it), the last event of every "
         "yarn, and the state of every object as of every event of its, are compared with the model; non-trivial: "
         "some object has three events or more, of two chains or more",
         "");

template <class S>
static void check_meta(World<S>& w, uint64_t y, bool& rich, pbt::Gen& g, unsigned sparse = 0) {
    const MBranch& b = w.branches[y];
    typename World<S>::Commit c{*w.rep, R(World<S>::store_id(y))};
    string in = "branch " + yarn_text(y) + ": ";
    // the events of every yarn, in order
    std::map<uint64_t, vector<Op>> yarn;
    for (auto& p : b.objs)
        for (auto& o : p.second.log) yarn[o.id.origin].push_back(o);
    for (auto& p : yarn) {
        auto& v = p.second;
        std::sort(v.begin(), v.end(), [](const Op& a, const Op& z) { return a.id < z.id; });
        Uid head;
        for (size_t i = 0; i < v.size(); ++i) {
            if (!i || v[i].ref != v[i - 1].id) head = v[i].id;
            auto chain_of = [&](const Uid& u) { return u.origin == p.first && !(u < head) && !(v[i].id < u) && b.object.count(u); };
            const Uid& ob = b.object.at(v[i].id);
            ron::OpMeta m;
            Status ok = c.FindOpMeta(m, R(v[i].id));
            CHECK(ok, in << "no record of the event " << text(v[i].id) << ": " << ok.str());
            CHECK(M(m.id) == v[i].id, in << "the record of " << text(v[i].id) << " is one of " << text(M(m.id)));
            CHECK(M(m.object) == ob, in << "the object of " << text(v[i].id) << " is " << text(M(m.object)) << ", expected " << text(ob));
            CHECK(uuid2form(m.rdt) == b.objs.at(ob).form, in << "the type of " << text(v[i].id) << " is " << m.rdt.str());
            // its chain: a run of events up to it, each with a reference to the one before
            CHECK(chain_of(M(m.chain_id())), in << "the chain of " << text(v[i].id) << " is " << text(M(m.chain_id())) << ", it begins at " << text(head) << " or later");
            CHECK(m.is_head() == (M(m.chain_id()) == v[i].id), in << text(v[i].id) << (m.is_head() ? " is" : " is not") << " the head of a chain");
            if (!m.is_head()) CHECK((uint64_t)m.prev == v[i - 1].id.value, in << "the event before " << text(v[i].id) << " is another");
            ron::OpMeta h;
            ok = c.FindChainHeadMeta(h, R(v[i].id));
            CHECK(ok && chain_of(M(h.id)) && M(h.object) == ob && h.rdt == m.rdt, in << "the head of the chain of " << text(v[i].id) << " is not found");
            // no event between it and the next
            Uid no = v[i].id;
            no.value += 1 + g.below(2);
            if (i + 1 < v.size() && !(no < v[i + 1].id)) continue;
            ron::OpMeta n;
            ok = c.FindOpMeta(n, R(no));
            CHECK(!ok, in << "there is a record of " << text(no) << ", which never was");
        }
        ron::OpMeta t;
        Status ok = c.FindYarnTipMeta(t, R(v[0].id).origin);
        CHECK(ok && M(t.id) == v.back().id, in << "the last event of yarn " << yarn_text(p.first) << " is " << (ok ? text(M(t.id)) : ok.str())
                                              << ", expected " << text(v.back().id));
        ron::OpMeta n;
        Uid no = v[0].id;
        if (!no.value) continue;
        no.value = g.below(no.value);
        ok = c.FindOpMeta(n, R(no));
        CHECK(!ok, in << "there is a record of " << text(no) << ", which is before its yarn");
    }
    for (auto s : {"Nobody", "0", "zz1"}) {
        uint64_t z = V_TIME | word_val(s);
        if (yarn.count(z)) continue;
        ron::OpMeta t;
        CHECK(!c.FindYarnTipMeta(t, R(Uid{0, z}).origin), in << "a yarn that never was has events: " << yarn_text(z));
    }
    // the versions of the objects
    for (auto& p : b.objs) {
        auto& log = p.second.log;
        std::set<Uid> ids;
        size_t chains = 0;
        MObj o;
        o.form = p.second.form;
        for (size_t i = 0; i < log.size(); ++i) {
            if (!i || log[i].ref != log[i - 1].id || log[i].id.origin != log[i - 1].id.origin) ++chains;
            o.log.push_back(log[i]);
            if (o.form == ron::RGA_RDT_FORM) {
                int up = -1;
                for (size_t k = 0; k < i; ++k)
                    if (log[k].id == log[i].ref) up = (int)k;
                o.tree.ops.push_back(log[i]);
                o.tree.parent.push_back(up);
            }
            if (sparse && i + 1 < log.size() && !g.chance(1, sparse)) continue;
            TextFrame f;
            Status ok = c.GetObjectVersion(f, R(p.first), R(log[i].id));
            CHECK(ok, in << "the object " << text(p.first) << " as of " << text(log[i].id) << " can not be read: " << ok.str());
            Ops got = must_read(f, "a version"), want = o.state();
            CHECK(same(got, want), in << "the object " << text(p.first) << " as of " << text(log[i].id) << ": " << diff(got, want) << "\ngot\n"
                                      << show(got) << "expected\n" << show(want));
        }
        if (log.size() > 2 && chains > 1) rich = true;
    }
}

template <class S>
static void run(pbt::Gen& g) {
    World<S> w{g};
    size_t n = 1 + g.below(2);
    for (size_t i = 0; i < n; ++i) w.create(w.names[i]);
    size_t steps = 0;
    bool rich = false;
    while ((steps < 2 || g.more(10)) && steps++ < 30) {
        uint64_t y = w.names[g.below(n)];
        switch (g.weighted({12, 1, 1})) {
            case 0:
                w.receive(y);
                break;
            case 1: {
                uint64_t z = w.names[2];
                if (!w.branches.count(z)) w.fork(z, y);
                break;
            }
            default:
                w.reopen();
        }
    }
    for (auto& b : w.branches) check_meta(w, b.first, rich, g);
    if (rich) g.nontrivial();
    if (g.coin()) {
        w.reopen();
        for (auto& b : w.branches) check_meta(w, b.first, rich, g);
    }
}

FACET(model_disk, 20000, 400000) {
    FakeDisk disk;
    run<FakeStore>(g);
}
FACET(database, 1000, 20000) {
    Dir dir;
    run<Store>(g);
}

// many yarns and objects, long chains; some of the versions
template <class S>
static void run_large(pbt::Gen& g) {
    World<S> w{g};
    uint64_t y = w.names[0];
    w.create(y);
    size_t n = w.receive_large(y, 900);
    if (g.coin()) {
        w.fork(w.names[1], y);
        if (g.coin()) w.receive_large(y, 300);
    }
    if (g.coin()) w.reopen();
    pbt::Gen bulk = g.bulk();
    bool rich = false;
    for (auto& b : w.branches) check_meta(w, b.first, rich, bulk, (unsigned)(n / 10 + 1));
    if (n > 300) g.nontrivial();
}
FACET(large, 80, 2000) {
    FakeDisk disk;
    run_large<FakeStore>(g);
}
FACET(large_database, 10, 200) {
    Dir dir;
    run_large<Store>(g);
}
