// USES: rocks
#include "lib/replib.hpp"
using namespace model;

PROPERTY("P03",
         "histories of a replica with up to four branches that are created, forked, dropped, made active, fed "
         "different frames and closed and opened again, in any order, with requests that must be refused (a second "
         "branch of a name, a fork off nothing, a branch that is not there); after each step the list of stores, the "
         "tips, the active one, and at times all contents are compared with the model; non-trivial: two branches or "
         "more took events, and one was forked or dropped, or all were closed and opened",
         "a fork takes a name that is no yarn of the branch it is taken off");

template <class S>
static void run(pbt::Gen& g) {
    World<S> w{g};
    w.bad = 1;
    size_t steps = 0, busy = 0;
    std::set<uint64_t> fed;
    while ((steps < 2 || g.more(16)) && steps++ < 60) {
        uint64_t y = g.pick(w.names);
        if (!w.branches.count(y) && g.chance(1, 2) && !w.branches.empty()) {
            auto i = w.branches.begin();
            std::advance(i, g.below(w.branches.size()));
            y = i->first;
        }
        int had = w.accepted;
        switch (g.weighted({3, 10, 2, 1, 2, 2, 1})) {
            case 0:
                w.create(y);
                break;
            case 1:
                w.receive(y);
                if (w.accepted > had) fed.insert(y);
                break;
            case 2: {
                uint64_t z = g.pick(w.names);
                if (z != y) w.fork(z, y);
                break;
            }
            case 3:
                w.drop(y);
                break;
            case 4:
                if (g.chance(1, 5))
                    w.deactivate();
                else
                    w.activate(y);
                break;
            case 5:
                w.reopen();
                break;
            default:
                w.check_all();
        }
        w.check_stores();
    }
    busy = fed.size();
    w.check_all();
    w.reopen();
    w.check_all();
    if (busy > 1 && (w.forked || w.dropped || w.reopened > 1)) g.nontrivial();
}

FACET(model_disk, 40000, 600000) {
    FakeDisk disk;
    run<FakeStore>(g);
}
FACET(database, 1200, 24000) {
    Dir dir;
    run<Store>(g);
}

// branches with many yarns, objects and events
template <class S>
static void run_large(pbt::Gen& g) {
    World<S> w{g};
    uint64_t a = w.names[0], b = w.names[1], c = w.names[2];
    w.create(a);
    size_t n = w.receive_large(a, 1500);
    if (g.coin()) w.reopen();
    if (g.coin()) {
        w.create(b);
        n += w.receive_large(b, 800);
    }
    w.fork(c, a);
    w.check_stores();
    w.check_all();
    uint64_t more = g.coin() || !w.branches.count(c) ? a : c;
    if (g.coin()) w.receive_large(more, 300);
    if (g.coin()) w.drop(a);
    w.check_stores();
    w.check_all();
    w.reopen();
    w.check_all();
    if (n > 300) g.nontrivial();
}
FACET(large, 150, 3000) {
    FakeDisk disk;
    run_large<FakeStore>(g);
}
FACET(large_database, 15, 300) {
    Dir dir;
    run_large<Store>(g);
}
