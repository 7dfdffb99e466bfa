// USES: rocks
#include <atomic>
#include <thread>
#include "lib/storelib.hpp"
using namespace model;

PROPERTY("S07",
         "several threads write (changes and batches), read and scan through handles of one store, while another one "
         "flushes, compacts and makes branches; what a read or a scan finds must be the merge of all that was "
         "acknowledged before it started and of some of what was started before it ended, a batch in full or not at "
         "all in a scan; at the end every key is the merge of all; non-trivial: two threads changed one key, or one "
         "read a key that another one changed",
         "keys whose value depends on the order of changes (arrays, logs, plain ones) are changed by one thread each; "
         "each handle, iterator and frame belongs to one thread");
static struct Tries {
    Tries() {
        pbt::Registry::get().tries = 10;
        pbt::Registry::get().max_workers = 4;
    }
} tries;

namespace {
/** one change of one key, to be written */
struct W {
    int src, piece, thread, batch;  // batch: -1 or its number
    string text;
};
struct Step {
    int kind;        // 0 write, 1 batch, 2 read, 3 scan, 4 yield; 5 flush, 6 compact, 7 branch; 8 scans until the writers are done
    vector<int> ws;  // the changes to write
    int src{0};
    bool alt{false};
    Uid id;
};
struct Plan {
    vector<Source> src;
    vector<W> ws;
    vector<vector<int>> of_src;  // the changes of a key in the order of its thread
    size_t batches{0};
    bool ordered(int s) const {
        FORM f = src[s].form;
        return f == ron::ZERO_RAW_FORM || f == ron::LOG_RAW_FORM || f == ron::RGA_RDT_FORM;
    }
};
struct Flags {
    std::unique_ptr<std::atomic<bool>[]> started, acked;
    explicit Flags(size_t n) : started(new std::atomic<bool>[n + 1]), acked(new std::atomic<bool>[n + 1]) {
        for (size_t i = 0; i <= n; ++i) {
            started[i] = false;
            acked[i] = false;
        }
    }
};
using Set = vector<bool>;
Set snap(const std::atomic<bool>* f, size_t n) {
    Set s(n);
    for (size_t i = 0; i < n; ++i) s[i] = f[i];
    return s;
}
Ops fold_some(const Plan& p, int s, const Set& which) {
    vector<int> w;
    for (int i : p.of_src[s])
        if (which[i]) w.push_back(p.ws[i].piece);
    return fold(p.src[s], w);
}
string name_of(const Plan& p, int s) { return "@" + text(p.src[s].id) + " *" + form_name(p.src[s].form); }

/** is the value of a key the merge of all acknowledged changes and some of those started;
 * tells which changes it surely has (1) and has not (-1) */
void judge(const Plan& p, int s, const Ops& got, const Set& acked, const Set& started, const string& what,
           std::map<int, int>* has) {
    const Source& src = p.src[s];
    auto fail = [&](const string& why) {
        CHECK(false, what << " of " << name_of(p, s) << ": " << why << "; got\n" << show(got)
                          << "acknowledged before\n" << show(fold_some(p, s, acked)) << "started\n"
                          << show(fold_some(p, s, started)));
    };
    if (p.ordered(s)) {
        // some prefix of the changes of the thread
        auto& all = p.of_src[s];
        size_t lo = 0, hi = 0;
        for (size_t i = 0; i < all.size(); ++i) {
            if (acked[all[i]]) lo = i + 1;
            if (started[all[i]]) hi = i + 1;
        }
        vector<int> w;
        vector<size_t> may;
        for (size_t n = 0; n <= hi; ++n) {
            if (n) w.push_back(p.ws[all[n - 1]].piece);
            if (n >= lo && same(got, fold(src, w))) may.push_back(n);
        }
        if (may.empty()) fail("it is the value at no moment between");
        if (has)
            for (size_t i = 0; i < all.size(); ++i) {
                if (may.front() > i) (*has)[all[i]] = 1;
                if (may.back() <= i) (*has)[all[i]] = -1;
            }
        return;
    }
    std::map<Uid, int> at;
    for (size_t i = 0; i < got.size(); ++i)
        if (!at.insert({got[i].id, (int)i}).second) fail("an op is there twice");
    // each op is of some change that was started
    for (auto& o : got) {
        bool known = false;
        for (int i : p.of_src[s])
            if (started[i])
                for (auto& x : src.pieces[p.ws[i].piece]) known = known || same({x}, {o});
        if (!known) fail("@" + text(o.id) + " is of no change that was started");
    }
    Ops low = fold_some(p, s, acked);
    auto later = [&](const Op& a, const Op& b) {  // a overrides b
        if (src.form == ron::META_META_FORM) return a.id == b.id && b.ref < a.ref;
        if (src.form == ron::MAX_RDT_FORM && a.ref != uid("max") && b.ref != uid("max"))
            return b.vals[0].i < a.vals[0].i || (b.vals[0].i == a.vals[0].i && b.id < a.id);
        return false;
    };
    for (auto& o : low) {
        bool there = false;
        for (auto& x : got) there = there || same({x}, {o}) || later(x, o);
        if (!there) fail("@" + text(o.id) + " was acknowledged and is not there");
    }
    // in the order the type has it
    Set full(p.ws.size(), true);
    Ops all = fold_some(p, s, full);
    if (src.form == ron::MAX_RDT_FORM) {
        if (got.size() > 2) fail("more than one value");
    } else {
        for (size_t i = 1; i < got.size(); ++i)
            if (!(got[i - 1].id < got[i].id)) fail("the ops are out of order");
    }
    if (!has || src.form == ron::META_META_FORM || src.form == ron::MAX_RDT_FORM) return;
    for (int i : p.of_src[s])
        for (auto& x : src.pieces[p.ws[i].piece]) {
            if (!at.count(x.id)) {
                (*has)[i] = -1;
                continue;
            }
            bool only = true;
            for (int k : p.of_src[s])
                if (k != i)
                    for (auto& y : src.pieces[p.ws[k].piece]) only = only && !(y.id == x.id);
            if (only && !has->count(i)) (*has)[i] = 1;
            if (only && (*has)[i] == -1) fail("a change is there in part");
        }
}

void scan(const Plan& p, const Flags& f, Store& st, const string& what) {
    Set acked = snap(f.acked.get(), p.ws.size());
    Store::Iterator i{st};
    Set started = snap(f.started.get(), p.ws.size());
    Status ok = i.SeekTo(ron::Key::ZERO);
    CHECK(ok, what << ": a scan is refused: " << ok.str());
    vector<bool> met(p.src.size());
    std::map<int, int> has;
    ron::Key last;
    bool zero = false, first = true;
    for (; i.key() != ron::Key::END; ok = i.Next()) {
        ron::Key k = i.key();
        CHECK(ok, what << ": a step of a scan is refused: " << ok.str());
        CHECK(first || model_key_less(last, k), what << ": out of order: " << last.str() << " then " << k.str());
        first = false;
        last = k;
        auto c = i.value();
        Ops got;
        while (c.Next()) got.push_back(read_op(c));
        if (k == ron::Key::ZERO) {
            zero = true;
            continue;
        }
        int s = -1;
        for (size_t n = 0; n < p.src.size(); ++n)
            if (p.src[n].key() == k) s = (int)n;
        CHECK(s >= 0, what << ": a key nobody wrote: " << k.str());
        met[s] = true;
        bool any = false;
        for (int w : p.of_src[s]) any = any || started[w];
        CHECK(any, what << ": a key nobody has started to write: " << k.str());
        judge(p, s, got, acked, started, what, &has);
    }
    CHECK(zero, what << ": the record of the store itself is not there");
    for (size_t s = 0; s < p.src.size(); ++s)
        if (!met[s]) {
            for (int w : p.of_src[s]) {
                CHECK(!acked[w], what << ": " << name_of(p, (int)s) << " was written and is not there");
                has[w] = -1;
            }
        }
    // a batch is there in full or not at all
    for (size_t b = 0; b < p.batches; ++b) {
        int yes = -1, no = -1;
        for (auto& h : has)
            if (p.ws[h.first].batch == (int)b) (h.second > 0 ? yes : no) = h.first;
        CHECK(yes < 0 || no < 0, what << ": a batch is there in part: it has the change of " << name_of(p, p.ws[yes].src)
                                      << " and not of " << name_of(p, p.ws[no].src));
    }
}
}  // namespace

static void run_plan(pbt::Gen& g, const Plan& p, const vector<vector<Step>>& todo, const vector<Step>& chores,
                     const std::set<Uid>& branch_ids) {
    Status ok;
    Dir dir;
    Store st;
    ok = st.Create(ron::Uuid::NIL);
    CHECK(ok, "a store can not be created: " << ok.str());
    Flags f{p.ws.size()};
    std::atomic<size_t> ready{0};
    std::atomic<bool> stop{false};
    size_t threads = todo.size(), all = threads + 1;
    std::atomic<int> writers{0};
    for (auto& t : todo) writers += !t.empty() && t[0].kind < 2;
    vector<string> bad(all);
    vector<std::thread> pool;
    auto act = [&](Store& mine, const Step& step, const string& who) {
        switch (step.kind) {
            case 0: {
                const W& w = p.ws[step.ws[0]];
                f.started[step.ws[0]] = true;
                Status ok = mine.Write(p.src[w.src].key(), TextFrame{w.text});
                CHECK(ok, who << ": a write is refused: " << ok.str());
                f.acked[step.ws[0]] = true;
                break;
            }
            case 1: {
                Store::Records batch;
                for (int i : step.ws) batch.emplace_back(p.src[p.ws[i].src].key(), TextFrame{p.ws[i].text});
                for (int i : step.ws) f.started[i] = true;
                Status ok = mine.Write(batch);
                CHECK(ok, who << ": a batch is refused: " << ok.str());
                for (int i : step.ws) f.acked[i] = true;
                break;
            }
            case 2: {
                Set acked = snap(f.acked.get(), p.ws.size());
                Ops got = store_read(mine, p.src[step.src].key(), who.c_str());
                Set started = snap(f.started.get(), p.ws.size());
                judge(p, step.src, got, acked, started, who + ": a read", nullptr);
                break;
            }
            case 3: scan(p, f, mine, who + ": a scan"); break;
            case 8:
                for (int n = 0; n < 300 && writers && !stop; ++n) scan(p, f, mine, who + ": a scan");
                break;
            case 4: std::this_thread::yield(); break;
            case 5: {
                rocksdb::FlushOptions o;
                o.wait = step.alt;
                auto s = raw_db(mine)->Flush(o);
                CHECK(s.ok() || s.IsTryAgain(), who << ": a flush fails: " << s.ToString());
                break;
            }
            case 6: {
                rocksdb::CompactRangeOptions o;
                if (step.alt) o.bottommost_level_compaction = rocksdb::BottommostLevelCompaction::kForce;
                auto s = raw_db(mine)->CompactRange(o, nullptr, nullptr);
                CHECK(s.ok(), who << ": a compaction fails: " << s.ToString());
                break;
            }
            default: {
                // a branch of its own: what is in it is what was written to it
                Store b = mine;
                Status ok = b.Create(R(step.id));
                CHECK(ok, who << ": a branch can not be made: " << ok.str());
                const Source& src = p.src[step.src];
                vector<int> w;
                for (int i = 0; i < (int)src.pieces.size(); ++i) {
                    w.push_back(i);
                    ok = b.Write(src.key(), build(src.pieces[i]));
                    CHECK(ok, who << ": a write to a branch is refused: " << ok.str());
                    Ops got = store_read(b, src.key(), "a read from a branch");
                    expect_key(src, got, fold(src, w), "a read from a branch of its own");
                }
                b.Close();
            }
        }
    };
    for (size_t t = 0; t < all; ++t)
        pool.emplace_back([&, t] {
            Store mine = st;
            string who = t < threads ? "thread " + std::to_string(t) : string("the thread of chores");
            ++ready;
            while (ready < all) std::this_thread::yield();
            try {
                for (auto& s : t < threads ? todo[t] : chores) {
                    if (stop) break;
                    act(mine, s, who);
                }
            } catch (pbt::Failure& e) {
                bad[t] = e.msg;
                stop = true;
            }
            if (t < threads && !todo[t].empty() && todo[t][0].kind < 2) --writers;
            mine.Close();
        });
    for (auto& t : pool) t.join();
    for (auto& b : bad) CHECK(b.empty(), b);

    g.note("at the end");
    Model m{p.src};
    m.zero = true;
    for (size_t s = 0; s < p.src.size(); ++s)
        for (int w : p.of_src[s]) m.written[s].push_back(p.ws[w].piece);
    expect_all(st, m, "the last read");
    expect_scan(st, m, "the last scan");
    st.Close();
    if (g.chance(1, 4)) {
        Branches b;
        ok = Store::OpenAll(b);
        CHECK(ok, "a store can not be opened again: " << ok.str());
        CHECK(b.size() == 1 + branch_ids.size(),
              "there are " << b.size() << " branches");
        st = b[ron::Uuid::NIL];
        expect_all(st, m, "a read after reopening");
        expect_scan(st, m, "a scan after reopening");
        st.Close();
    }
}


static void concurrent(pbt::Gen& g, size_t maxsrc, size_t maxpieces, unsigned nsteps, bool busy) {
    auto plan = std::make_shared<Plan>();
    Plan& p = *plan;
    p.src = gen_sources(g, maxsrc, maxpieces);
    if (p.src.empty()) g.discard();
    g.note(show_sources(p.src));
    p.of_src.resize(p.src.size());
    size_t threads = 1 + g.below(4);
    vector<int> owner, next(p.src.size());
    for (size_t s = 0; s < p.src.size(); ++s) owner.push_back(p.ordered((int)s) ? (int)g.below(threads) : -1);
    vector<std::set<int>> changes(p.src.size()), reads(p.src.size());
    vector<vector<Step>> todo(threads);
    for (size_t t = 0; t < threads; ++t) {
        auto change = [&](int batch) {
            int s = (int)g.below(p.src.size());
            if (owner[s] >= 0 && owner[s] != (int)t) return -1;
            int c = next[s];
            if (c >= (int)p.src[s].pieces.size()) {
                // again; an order-free key may have it from another thread
                c = (int)g.below(p.src[s].pieces.size());
            } else
                ++next[s];
            W w{s, c, (int)t, batch, lay(g, p.src[s].pieces[c])};
            g.note("  " + name_of(p, s) + " [" + pbt::esc(w.text) + "]");
            p.ws.push_back(w);
            p.of_src[s].push_back((int)p.ws.size() - 1);
            changes[s].insert((int)t);
            return (int)p.ws.size() - 1;
        };
        size_t n = 0;
        while (g.more(nsteps) && n++ < 3 * nsteps) {
            Step step;
            step.kind = (int)g.weighted({8, 4, 4, 3, 1});
            switch (step.kind) {
                case 0: {
                    g.note("thread " + std::to_string(t) + " writes");
                    int w = change(-1);
                    if (w < 0) continue;
                    step.ws = {w};
                    break;
                }
                case 1:
                    g.note("thread " + std::to_string(t) + " writes a batch");
                    do {
                        int w = change((int)p.batches);
                        if (w >= 0) step.ws.push_back(w);
                    } while (g.more(3) && step.ws.size() < 12);
                    if (step.ws.empty()) continue;
                    ++p.batches;
                    break;
                case 2:
                    step.src = (int)g.below(p.src.size());
                    reads[step.src].insert((int)t);
                    g.note("thread " + std::to_string(t) + " reads " + name_of(p, step.src));
                    break;
                case 3: g.note("thread " + std::to_string(t) + " scans"); break;
            }
            todo[t].push_back(step);
        }
    }
    vector<Step> chores;
    size_t n = 0;
    std::set<Uid> branch_ids;
    while (g.more(busy ? 10 : 4) && n++ < 20) {
        Step step;
        step.kind = 5 + (int)g.weighted({4, 4, 1});
        step.alt = g.coin();
        step.id = gen_event(g);
        step.src = (int)g.below(p.src.size());
        if (step.kind == 7 && (step.id == Uid{} || !branch_ids.insert(step.id).second)) continue;
        g.note(step.kind == 5 ? "meanwhile: a flush" : step.kind == 6 ? "meanwhile: a compaction" : "meanwhile: a branch");
        chores.push_back(step);
    }
    for (size_t s = 0; s < p.src.size(); ++s) {
        if (changes[s].size() > 1) g.nontrivial();
        for (int t : reads[s])
            if (changes[s].size() - changes[s].count(t) > 0) g.nontrivial();
    }

    run_plan(g, p, todo, chores, branch_ids);
}

FACET(threads, 2500, 60000) { concurrent(g, 5, 6, 10, false); }
FACET(busy, 400, 12000) { concurrent(g, 4, 12, 40, true); }

// batches of many keys, while others scan
FACET(batches, 1500, 30000) {
    Plan p;
    std::set<Uid> ids;
    size_t writers = 1 + g.below(2), scanners = 1 + g.below(2), keys = 2 + g.below(12), rounds = 2 + g.below(24);
    while (p.src.size() < keys) {
        Source s;
        s.form = g.one_of<FORM>({ron::LOG_RAW_FORM, ron::ZERO_RAW_FORM, ron::LWW_RDT_FORM, ron::YARN_RAW_FORM});
        s.id = gen_event(g);
        if (s.id == Uid{} || !ids.insert(key_id(s.id)).second) continue;
        Uid last = s.id;
        for (size_t n = 0; n < rounds; ++n) {
            Op o;
            o.id = Uid{last.value + 1 + g.below(3), s.id.origin};
            o.ref = last;
            o.vals = {Val::I((int64_t)n)};
            o.term = 0;
            last = o.id;
            s.pieces.push_back({o});
        }
        p.src.push_back(s);
    }
    p.of_src.resize(keys);
    vector<vector<Step>> todo(writers + scanners);
    vector<size_t> owner;
    for (size_t s = 0; s < keys; ++s) owner.push_back(g.below(writers));
    for (size_t t = 0; t < writers; ++t)
        for (size_t n = 0; n < rounds; ++n) {
            Step step;
            step.kind = 1;
            for (size_t s = 0; s < keys; ++s)
                if (owner[s] == t) {
                    p.of_src[s].push_back((int)p.ws.size());
                    step.ws.push_back((int)p.ws.size());
                    p.ws.push_back(W{(int)s, (int)n, (int)t, (int)p.batches, lay(g, p.src[s].pieces[n])});
                }
            if (step.ws.empty()) continue;
            shuffle(g, step.ws);
            ++p.batches;
            todo[t].push_back(step);
        }
    for (size_t t = writers; t < todo.size(); ++t) {
        Step step;
        step.kind = 8;
        todo[t] = {step};
    }
    g.note(show_sources(p.src));
    g.note(std::to_string(writers) + " threads write a change of each key in " + std::to_string(rounds) + " batches, " +
           std::to_string(scanners) + " scan");
    g.nontrivial();
    vector<Step> chores;
    while (g.more(2) && chores.size() < 6) {
        Step step;
        step.kind = 5 + (int)g.below(2);
        step.alt = g.coin();
        chores.push_back(step);
    }
    run_plan(g, p, todo, chores, {});
}
