// USES: rocks
#include "lib/replib.hpp"
using namespace model;

PROPERTY("P04",
         "histories of a replica's clock: timestamps are asked for (for any yarn, or for that of the active branch), "
         "events are seen or received, some of the future, some no event at all; the wall clock moves, stops or jumps "
         "back; branches are created; the replica is closed and opened again; non-trivial: the clock ran ahead of the "
         "wall clock at some time and a timestamp was issued then",
         "no event is within a million ticks of the end of time");

static uint64_t wall() { return M(ron::Uuid::Time(ron::Uuid::HybridTime(fake_time()), ron::ZERO)).value; }

FACET(clock, 400000, 6000000) {
    FakeDisk disk;
    World<FakeStore> w{g};
    uint64_t seen = 0;  // the greatest time issued or seen in this session
    bool ahead = false;
    auto issued = [&](Uid u, uint64_t origin, const char* what) {
        CHECK(u.is_time(), what << " is no event: " << text(u));
        CHECK((u.origin & PAY) == (origin & PAY), what << " is of another origin: " << text(u) << ", not " << word_text(origin & PAY));
        CHECK(u.value > seen, what << " is not later than the last: " << text(u) << " after " << word_text(seen));
        CHECK(u.value < NEVER_W, what << " is never: " << text(u));
        CHECK(u.value >= wall(), what << " is behind the clock: " << text(u));
        if (u.value > wall()) ahead = true;
        seen = u.value;
    };
    size_t steps = 0;
    while (g.more(20) && steps++ < 80) {
        switch (g.weighted({8, 3, 4, 3, 2, 2, 2})) {
            case 0: {
                uint64_t y = g.chance(1, 4) ? 0 : g.pick(w.yarns);
                uint64_t o = y ? y : w.active_known ? w.active.origin : 0;
                if (!y && !w.active_known) break;
                g.note("now of " + (y ? yarn_text(y) : string("the active branch")));
                issued(M(y ? w.rep->Now(World<FakeStore>::word(y)) : w.rep->Now()), o, "a timestamp");
                break;
            }
            case 1: {  // the wall clock
                long d = g.one_of<long>({0, 1, 1, 2, 60, 3600, 86400 * 31, 86400 * 366 * 3, -1, -3600, -86400 * 40, -86400 * 366 * 2});
                if (fake_time() + d > 1300000000 && fake_time() + d < 2600000000) fake_time() += d;
                g.note("the wall clock moves by " + std::to_string(d));
                break;
            }
            case 2: {  // an event is seen
                Uid u{0, g.pick(w.yarns)};
                switch (g.below(4)) {
                    case 0: u.value = seen + g.below(5) - std::min<uint64_t>(seen, 2); break;
                    case 1: u.value = wall() + g.below(1ULL << 34); break;
                    case 2: u.value = seen + g.below(1ULL << 40); break;
                    default: u.value = gen_event(g).value;
                }
                bool event = true;
                switch (g.below(10)) {
                    case 0: u.value = NEVER_W + g.below(3); break;
                    case 1: u.value = g.coin() ? PAY : (u.value & PAY) | 1ULL << 60; break;
                    case 2: u.origin = (u.origin & PAY) | g.one_of<uint64_t>({V_NAME, V_HASH, V_DERIVED}); event = false; break;
                    default: if (u.value > NEVER_W - (1 << 20)) u.value = wall();
                }
                g.note("see " + text(u));
                Status ok = w.rep->See(R(u));
                bool fits = event && u.value < NEVER_W;
                CHECK(bool(ok) == fits, (fits ? "an event is refused: " : "no event, yet it is taken: ") << text(u) << ": " << ok.str());
                if (fits) seen = std::max(seen, u.value);
                break;
            }
            case 3: {  // events are received
                uint64_t y = g.pick(w.names);
                if (!w.branches.count(y)) break;
                Op o;
                uint64_t who = g.pick(w.yarns);
                o.id = Uid{wall() + g.below(1ULL << g.below(42)), who};
                o.ref = uid(w.branches[y].tips.count(who) ? "lww" : "yarn");
                o.term = 0;
                if (o.id.value > NEVER_W - (1 << 20) || w.branches[y].misfit(o)) break;
                w.branches[y].apply(o);
                string s = lay(g, {o});
                g.note("branch " + yarn_text(y) + " gets [" + pbt::esc(s) + "]");
                TextFrame::Builder re;
                Status ok = w.rep->ReceiveFrame(re, TextFrame{s}, World<FakeStore>::word(y));
                CHECK(ok, "an event is refused: " << ok.str());
                seen = std::max(seen, o.id.value);
                break;
            }
            case 4: {
                uint64_t y = g.pick(w.names);
                bool had = w.branches.count(y);
                w.create(y);
                if (had || w.branches[y].tip.value == 0) break;
                issued(w.branches[y].tip, y, "the first event of a branch");
                break;
            }
            case 5:
                w.activate(g.pick(w.names));
                // (writes a record of its own time)
                break;
            default: {
                long t = fake_time();
                w.reopen();
                if (g.coin()) fake_time() = t;  // it was no time at all
                seen = 0;
                for (auto& b : w.branches) seen = std::max(seen, b.second.tip.value);
            }
        }
    }
    if (ahead) g.nontrivial();
}
