// USES: rocks
#include "lib/replib.hpp"
using namespace model;

PROPERTY("P01",
         "histories of a replica: branches are created, frames of events of several yarns are fed to them (chains, "
         "edits of any earlier event, new objects of every type, comments, names, queries in between), some with "
         "an event that does not fit (not after its yarn's tip, an unknown yarn or event, an event of the future, an "
         "unknown type), a malformed end or a full disk; now and then the replica is closed and opened again; "
         "non-trivial: frames were taken and refused",
         "all events are stamped (stamping of local writes is not finished in this version)");

template <class S>
static void run(pbt::Gen& g) {
    World<S> w{g};
    size_t n = 1 + g.below(2);
    for (size_t i = 0; i < n; ++i) w.create(w.names[i]);
    size_t steps = 0;
    while (g.more(10) && steps++ < 40) {
        uint64_t y = w.names[g.below(n)];
        switch (g.weighted({12, 1, 1})) {
            case 0:
                w.receive(y);
                break;
            case 1:
                w.reopen();
                break;
            default:
                w.check(y);
        }
    }
    w.check_all();
    if (w.accepted && w.refused) g.nontrivial();
}

FACET(model_disk, 40000, 400000) {
    FakeDisk disk;
    run<FakeStore>(g);
}
FACET(database, 2000, 20000) {
    Dir dir;
    run<Store>(g);
}

// many yarns and objects, long chains, long frames
template <class S>
static void run_large(pbt::Gen& g) {
    World<S> w{g};
    uint64_t y = w.names[0];
    w.create(y);
    if (w.receive_large(y, 3000) > 300) g.nontrivial();
    w.check_stores();
    w.check_all();
    w.reopen();
    w.check_all();
}
FACET(large, 300, 4000) {
    FakeDisk disk;
    run_large<FakeStore>(g);
}
FACET(large_database, 30, 500) {
    Dir dir;
    run_large<Store>(g);
}
