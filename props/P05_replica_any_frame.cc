// USES: rocks
#include "lib/replib.hpp"
using namespace model;

PROPERTY("P05",
         "frames of any kind fed to a replica with some history: bytes at random, well-formed frames with bytes "
         "changed, cut or repeated, ops of any id, reference and values (stamped or not, names, hashes, derived ids), "
         "queries of any type; after each frame all of the disk is read: each record still merges, a refused frame "
         "has changed nothing at all, the logs have only grown, the replica can be opened again; non-trivial: a frame "
         "was refused after some of its ops were taken, or one was taken that is no plain frame of events",
         "the disk is a stand-in kept in memory");

using Data = std::map<Uid, std::map<string, vector<string>>>;
static Data dump_disk() {
    Data d;
    for (auto& s : FakeStore::disk())
        for (auto& r : *s.second)
            for (auto& f : r.second) d[s.first][r.first.str()].push_back(f.data());
    return d;
}
/** the content by key; every record must merge */
static std::map<std::pair<Uid, string>, Ops> contents() {
    std::map<std::pair<Uid, string>, Ops> all;
    for (auto& s : FakeStore::disk())
        for (auto& r : *s.second) {
            FakeStore st;
            FakeStore::Branches b;
            FakeStore::OpenAll(b);
            TextFrame f;
            Status ok = b[R(s.first)].Read(r.first, f);
            CHECK(ok, "the record " << r.first.str() << " can not be read: " << ok.str());
            all[{s.first, r.first.str()}] = must_read(f, "a record");
        }
    return all;
}

static Ops any_ops(pbt::Gen& g, World<FakeStore>& w, uint64_t y) {
    Ops ops;
    auto& b = w.branches[y];
    do {
        Op o;
        switch (g.below(5)) {
            case 0:
                o = gen_fit(g, b, w.yarns, w.last[y]);
                break;
            case 1:
                o = gen_misfit(g, b, w.yarns, w.last[y]);
                break;
            default: {
                auto any = [&]() -> Uid {
                    switch (g.below(6)) {
                        case 0: return uid(g.one_of<const char*>({"lww", "rga", "mx", "max", "yarn", "log", "meta", "chain", "txt", "csv", "zero", "span", "vv", "patch", "sha3", "prev", "obj", "name", "~", "0", "1", "2", "error", "map", "op"}));
                        case 1: return gen_event(g);
                        case 2: return gen_uid(g);
                        case 3: {
                            if (b.object.empty()) return Uid{};
                            auto i = b.object.begin();
                            std::advance(i, g.below(b.object.size()));
                            Uid u = i->first;
                            if (g.chance(1, 4)) u.origin = (u.origin & PAY) | g.one_of<uint64_t>({V_NAME, V_HASH, V_DERIVED});
                            return u;
                        }
                        case 4: return Uid{g.below(4), g.coin() ? 0 : V_TIME};
                        default: return w.last[y].inc(g.below(3));
                    }
                };
                o.id = any();
                o.ref = any();
                while (g.coin() && o.vals.size() < 4) o.vals.push_back(gen_val(g));
            }
        }
        o.term = g.weighted({3, 6, 1, 3});
        ops.push_back(o);
    } while (g.more(4) && ops.size() < 12);
    return ops;
}

FACET(any_frame, 60000, 1000000) {
    FakeDisk disk;
    World<FakeStore> w{g};
    uint64_t y = w.names[0];
    w.create(y);
    size_t n = g.below(4);
    for (size_t i = 0; i < n; ++i) w.receive(y, false);
    bool odd = false;
    auto was = contents();
    size_t steps = 0;
    while ((steps < 1 || g.more(4)) && steps++ < 12) {
        Ops ops = any_ops(g, w, y);
        string s;
        if (g.chance(1, 8)) {
            size_t len = g.below(60);
            for (size_t i = 0; i < len; ++i) s += g.chance(2, 3) ? "@:,;!?.'\"\\+-%$ \n~0129aAz=^>()"[g.below(30)] : (char)g.below(256);
        } else {
            s = lay(g, ops);
            while (g.chance(1, 4) && !s.empty()) {
                size_t at = g.below(s.size());
                switch (g.below(4)) {
                    case 0: s[at] = (char)g.below(256); break;
                    case 1: s.erase(at, 1 + g.below(8)); break;
                    case 2: s.insert(at, s.substr(g.below(s.size()), g.below(20))); break;
                    default: s.resize(at);
                }
            }
        }
        g.note("a frame [" + pbt::esc(s) + "]");
        auto before = dump_disk();
        TextFrame::Builder re;
        Status ok = w.rep->ReceiveFrame(re, TextFrame{s}, World<FakeStore>::word(y));
        g.note("it gives " + ok.str());
        auto after = dump_disk();
        if (!ok) {
            CHECK(before == after, "a frame is refused, but leaves a trace: " << ok.str());
            if (ops.size() > 1) odd = true;
        } else {
            must_read(re.Release(), "the answer");
            auto now = contents();
            for (auto& p : was) {
                auto i = now.find(p.first);
                CHECK(i != now.end(), "the record " << p.first.second << " is gone");
                if (p.first.second.compare(0, 5, "*log#")) continue;
                CHECK(i->second.size() >= p.second.size(), "the log " << p.first.second << " has shrunk");
                Ops head(i->second.begin(), i->second.begin() + p.second.size());
                CHECK(same(head, p.second), "the log " << p.first.second << " has changed: " << diff(head, p.second));
            }
            if (before != after) odd = true;
            was = now;
        }
        if (g.chance(1, 6)) {
            g.note("close and open again");
            w.rep->Close();
            w.rep.reset(new World<FakeStore>::Rep{});
            Status o = w.rep->Open();
            CHECK(o, "the replica can not be opened again: " << o.str());
        }
    }
    w.rep->Close();
    w.rep.reset(new World<FakeStore>::Rep{});
    Status o = w.rep->Open();
    CHECK(o, "the replica can not be opened again: " << o.str());
    if (odd) g.nontrivial();
}
