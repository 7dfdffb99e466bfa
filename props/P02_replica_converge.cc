// USES: rocks
#include "lib/replib.hpp"
using namespace model;

PROPERTY("P02",
         "a set of events of several yarns with objects of every type, edited concurrently; two or three branches of "
         "one replica get all of them, each in another order that respects causality, cut in frames in another way, "
         "closed and opened again at times; then the states, texts and logs of all branches are compared with each "
         "other and with the fold of the events; non-trivial: the orders differ and some object has events of two "
         "yarns",
         "each branch gets each event once");

template <class S>
static void run(pbt::Gen& g) {
    using W = World<S>;
    W w{g};
    // the events, in the order they happened
    MBranch all;
    Ops ev;
    auto yarns = yarn_pool();
    Uid at;
    size_t max = g.chance(1, 8) ? 60 : 24;
    while (ev.size() < max && (ev.size() < 3 || g.more(16))) {
        Op o = gen_fit(g, all, yarns, at);
        if (all.misfit(o)) continue;
        o.term = 1;
        all.apply(o);
        ev.push_back(o);
        at = o.id;
    }
    g.note("the events:\n" + show(ev));
    size_t nb = 2 + g.below(2);
    vector<vector<int>> orders;
    for (size_t b = 0; b < nb; ++b) {
        // an order of its own; its name is not among the yarns
        uint64_t y = V_TIME | word_val(string("site") + char('1' + b));
        w.create(y);
        vector<bool> done(ev.size());
        vector<int> order;
        unsigned jump = g.below(9);
        while (order.size() < ev.size()) {
            vector<int> ready;
            std::set<uint64_t> held;
            for (size_t i = 0; i < ev.size(); ++i) {
                if (done[i] || held.count(ev[i].id.origin)) continue;
                held.insert(ev[i].id.origin);  // one yarn, one order
                bool ok = true;
                if (ev[i].ref.is_time())
                    for (size_t k = 0; k < ev.size(); ++k)
                        if (ev[k].id == ev[i].ref) ok = done[k];
                if (ok) ready.push_back((int)i);
            }
            int n = g.chance(jump, 8) ? g.pick(ready) : ready[0];
            done[n] = true;
            order.push_back(n);
        }
        orders.push_back(order);
        Ops frame;
        MBranch& m = w.branches[y];
        for (size_t i = 0; i < order.size(); ++i) {
            frame.push_back(ev[order[i]]);
            m.apply(ev[order[i]]);
            if (i + 1 < order.size() && g.chance(5, 8)) continue;
            frame.back().term = 0;
            string s = lay(g, frame);
            frame.clear();
            g.note("branch " + yarn_text(y) + " gets [" + pbt::esc(s) + "]");
            TextFrame::Builder re;
            Status ok = w.rep->ReceiveFrame(re, TextFrame{s}, W::word(y));
            CHECK(ok, "a frame that fits is refused: " << ok.str());
            if (g.chance(1, 20)) w.reopen();
        }
    }
    bool differ = false, shared = false;
    for (auto& o : orders) differ = differ || o != orders[0];
    for (auto& p : all.objs) {
        std::set<uint64_t> who;
        for (auto& o : p.second.log) who.insert(o.id.origin);
        shared = shared || who.size() > 1;
        // the text, by a query
        for (auto& b : w.branches) {
            Op q;
            q.id = Uid{p.first.value, (p.first.origin & PAY) | V_DERIVED};
            q.ref = uid("txt");
            q.term = 3;
            TextFrame::Builder re;
            Status ok = w.rep->ReceiveFrame(re, TextFrame{lay(g, {q})}, W::word(b.first));
            CHECK(ok, "a query for a text is refused: " << ok.str());
            Ops got = must_read(re.Release(), "a text");
            q.vals = {Val::S(p.second.text())};
            CHECK(same(got, {q}), "branch " << yarn_text(b.first) << ": the text is\n" << show(got) << "expected\n" << show(q));
        }
    }
    if (differ && shared) g.nontrivial();
    // the states, between the branches; then each with the fold
    for (auto& p : all.objs) {
        if (p.second.form == ron::MAX_RDT_FORM) continue;
        Ops first;
        for (auto& b : w.branches) {
            typename W::Commit c{*w.rep, R(W::store_id(b.first))};
            TextFrame f;
            Status ok = c.GetObject(f, R(p.first), R(uid(form_name(p.second.form))));
            CHECK(ok, "an object can not be read: " << ok.str());
            Ops got = must_read(f, "an object");
            if (first.empty())
                first = got;
            else
                CHECK(same(first, got), "the branches disagree on " << text(p.first) << ": " << diff(got, first) << "\none has\n"
                                                                     << show(first) << "another has\n" << show(got));
        }
    }
    w.check_all();
}

FACET(model_disk, 30000, 500000) {
    FakeDisk disk;
    run<FakeStore>(g);
}
FACET(database, 1200, 24000) {
    Dir dir;
    run<Store>(g);
}

// many events, of many yarns, in orders that differ much
template <class S>
static void run_large(pbt::Gen& g) {
    using W = World<S>;
    W w{g};
    MBranch all;
    Ops ev;
    size_t nyarns = g.coin() ? 2 + g.below(4) : gen_large_size(g, 300), total = gen_large_size(g, 1500);
    unsigned chain = (unsigned)g.below(3);
    pbt::Gen bulk = g.bulk();
    vector<uint64_t> yarns;
    for (size_t i = 0; i < nyarns; ++i) yarns.push_back(V_TIME | (word_val("A") + ((uint64_t)i << 30)));
    Uid at;
    for (size_t i = 0; i < total; ++i) {
        Op o;
        if (i < yarns.size()) {
            o.id = Uid{word_val("1gABC"), yarns[i]};
            o.ref = uid("yarn");
        } else if (chain && bulk.chance(chain == 1 ? 9 : 99, chain == 1 ? 10 : 100) && all.object.count(at) && all.tips.at(at.origin) == at &&
                   all.objs.at(all.object.at(at)).form != ron::MAX_RDT_FORM) {
            o.id = at.inc();
            o.ref = at;
            o.vals = {Val::S(U32(1, U'a' + (char32_t)bulk.below(26)))};
        } else
            o = gen_fit(bulk, all, yarns, at);
        if (all.misfit(o)) continue;
        o.term = 1;
        all.apply(o);
        ev.push_back(o);
        at = o.id;
    }
    std::map<Uid, size_t> place;
    std::map<uint64_t, vector<size_t>> yarn;
    for (size_t i = 0; i < ev.size(); ++i) {
        place[ev[i].id] = i;
        yarn[ev[i].id.origin].push_back(i);
    }
    size_t nb = 2;
    vector<vector<size_t>> orders;
    for (size_t b = 0; b < nb; ++b) {
        uint64_t y = V_TIME | word_val(string("site") + char('1' + b));
        w.create(y);
        vector<bool> done(ev.size());
        std::map<uint64_t, size_t> next;
        vector<uint64_t> names;
        for (auto& p : yarn) names.push_back(p.first);
        vector<size_t> order;
        size_t stay = bulk.below(100), frame = g.coin() ? 1500 : 1 + g.below(200), frames = 0;
        uint64_t now = names[0];
        auto ready = [&](uint64_t n) {
            if (next[n] >= yarn[n].size()) return false;
            const Op& o = ev[yarn[n][next[n]]];
            return !o.ref.is_time() || !place.count(o.ref) || done[place[o.ref]];
        };
        while (order.size() < ev.size()) {
            if (!ready(now) || !bulk.chance(stay, 100)) {
                size_t from = bulk.below(names.size());
                for (size_t i = 0; i < names.size(); ++i) {
                    now = names[(from + i) % names.size()];
                    if (ready(now)) break;
                }
            }
            size_t n = yarn[now][next[now]++];
            done[n] = true;
            order.push_back(n);
        }
        orders.push_back(order);
        Ops ops;
        MBranch& m = w.branches[y];
        for (size_t i = 0; i < order.size(); ++i) {
            ops.push_back(ev[order[i]]);
            m.apply(ev[order[i]]);
            if (i + 1 < order.size() && ops.size() < frame) continue;
            ops.back().term = 0;
            string s = ops.size() < 500 ? lay(bulk, ops) : build(ops).data();
            TextFrame::Builder re;
            Status ok = w.rep->ReceiveFrame(re, TextFrame{s}, W::word(y));
            CHECK(ok, "a frame of " << ops.size() << " events that fits is refused: " << ok.str());
            ops.clear();
            ++frames;
        }
        g.note("branch " + yarn_text(y) + " gets " + std::to_string(order.size()) + " events of " + std::to_string(nyarns) + " yarns in " +
               std::to_string(frames) + " frames");
    }
    if (ev.size() > 300 && orders[0] != orders[1]) g.nontrivial();
    if (g.coin()) w.reopen();
    w.check_all();
}
FACET(large, 200, 4000) {
    FakeDisk disk;
    run_large<FakeStore>(g);
}
FACET(large_database, 15, 300) {
    Dir dir;
    run_large<Store>(g);
}
