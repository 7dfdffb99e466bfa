// USES: threads key
#include <atomic>
#include <thread>
#include "db/key.hpp"
#include "lib/hashlib.hpp"
#include "lib/treelib.hpp"
#include "rdt/lww_obj.hpp"
#include "ron/hash.hpp"
using namespace model;

PROPERTY("C01",
         "up to four threads do generated lists of tasks (read, write, compare, merge, split, hash, parse and print "
         "ids, times, hashes and statuses) over frames and a reducer that they share read-only, built with the "
         "thread sanitizer; each result must be what the same task gives alone, and no race may be reported; "
         "non-trivial: two threads did tasks of one kind over the same data",
         "each builder, cursor and result belongs to one thread");
static struct Tries {
    Tries() {
        pbt::Registry::get().tries = 8;
        pbt::Registry::get().max_workers = 4;
    }
} tries;

using Task = std::function<string()>;

static string str_of(Status ok) { return ok.str(); }

FACET(tasks, 20000, 400000) {
    struct Shared {
        vector<Ops> ops;
        vector<TextFrame> frames;
        vector<vector<string>> inputs;
        vector<vector<TextFrame>> iframes;
        vector<FORM> forms;
        ron::MasterRDT<TextFrame> reducer;
        vector<Uid> ids;
        vector<string> texts;
        vector<std::pair<time_t, long>> times;
        TextFrame log;
    };
    static const char* NAMES[] = {"lww", "mx", "yarn", "rga", "max", "log"};
    static const FORM FORMS[] = {ron::LWW_RDT_FORM, ron::MX_RDT_FORM, ron::YARN_RAW_FORM,
                                 ron::RGA_RDT_FORM, ron::MAX_RDT_FORM, ron::LOG_RAW_FORM};
    auto s = std::make_shared<Shared>();
    size_t n = 1 + g.below(3);
    for (size_t i = 0; i < n; ++i) {
        s->ops.push_back(gen_ops(g, 4, 16));
        s->frames.emplace_back(lay(g, s->ops.back()));
        g.note("frame [" + pbt::esc(s->frames.back().data()) + "]");
    }
    n = 1 + g.below(3);
    for (size_t i = 0; i < n; ++i) {
        size_t f = g.below(6);
        vector<string> in;
        if (FORMS[f] == ron::RGA_RDT_FORM) {
            Tree t = gen_tree(g, 20, 6, 2);
            for (auto& p : gen_tree_pieces(g, t)) in.push_back(lay(g, pick_ops(t, p)));
        } else {
            auto vals = [](pbt::Gen& h) {
                vector<Val> v{Val::U(uid(h.one_of<const char*>({"key", "x", "y"})))};
                while (h.more(1) && v.size() < 4) v.push_back(gen_val(h));
                return v;
            };
            Ops pool = gen_pool(g, uid(NAMES[f]), true, 16, 5, vals);
            for (auto& p : gen_pieces(g, pool)) in.push_back(lay(g, p));
        }
        s->forms.push_back(FORMS[f]);
        s->inputs.push_back(in);
        s->iframes.emplace_back();
        for (auto& x : in) s->iframes.back().emplace_back(x);
        g.note(string("merge as ") + NAMES[f] + "\n" + show_in(in));
    }
    do s->ids.push_back(gen_uid(g));
    while (g.more(3) && s->ids.size() < 12);
    do {
        string t = text(gen_uid(g));
        if (g.chance(1, 4)) t += g.one_of<const char*>({"+", "~~~~~~~~~~~", " ", "%A", "/"});
        s->texts.push_back(t);
    } while (g.more(3) && s->texts.size() < 12);
    do s->times.push_back({1262304000 + (time_t)g.below(2800000000UL), (long)g.below(1000000000)});
    while (g.more(3) && s->times.size() < 12);
    {
        Tree t = gen_tree(g, 14, 6, 2);
        s->log = TextFrame{lay(g, t.ops)};
    }

    vector<Task> tasks;
    vector<int> kinds;
    size_t nt = 1 + g.below(4);
    for (size_t i = 0; i < nt; ++i) {
        int kind = (int)g.below(13);
        size_t k = g.below(s->frames.size()), m = g.below(s->inputs.size());
        bool alt = g.coin();
        kinds.push_back(kind);
        switch (kind) {
            case 0:
                g.note("task: read a frame");
                tasks.push_back([s, k] {
                    End e;
                    return show(read_frame(s->frames[k], e));
                });
                break;
            case 1:
                g.note("task: write a frame");
                tasks.push_back([s, k, alt] {
                    if (alt) {
                        TextFrame::Builder b;
                        ron::AppendFrame(b, s->frames[k]);
                        return b.Release().data();
                    }
                    return build(s->ops[k]).data();
                });
                break;
            case 2:
                g.note("task: merge by a shared reducer");
                tasks.push_back([s, m] {
                    TextFrame::Builder b;
                    vector<Cursor> cs;
                    for (auto& f : s->iframes[m]) {
                        cs.emplace_back(f);
                        if (!cs.back().Next()) cs.pop_back();
                    }
                    const auto& shared = s->reducer;
                    Status ok = shared.Merge(b, s->forms[m], cs);
                    return str_of(ok) + b.Release().data();
                });
                break;
            case 3:
                g.note("task: merge frames");
                tasks.push_back([s, m] {
                    TextFrame ret;
                    Status ok = ron::MergeFrames(ret, s->iframes[m]);
                    return str_of(ok) + ret.data();
                });
                break;
            case 4:
                g.note("task: hash the ops of a frame");
                tasks.push_back([s, k] {
                    Cursor c{s->frames[k]};
                    ron::SHA2 h, zero;
                    while (c.Next()) h = ron::SHA2::OpMerkleHash(c, h, zero);
                    return h.hex() + h.base64() + ron::SHA2::ParseHex(h.hex()).base64();
                });
                break;
            case 5:
                g.note("task: ids");
                tasks.push_back([s] {
                    string r;
                    for (auto& u : s->ids) {
                        ron::Uuid id = R(u);
                        r += id.str() + " " + ron::Uuid{id.str()}.str() + (id.is_ambiguous() ? "? " : " ");
                        r += ron::Key{id, ron::LWW_RDT_FORM}.str() + " ";
                    }
                    for (auto& t : s->texts) r += ron::Uuid{t}.str() + " ";
                    return r;
                });
                break;
            case 6:
                g.note("task: times");
                tasks.push_back([s] {
                    string r;
                    for (auto& t : s->times) r += ron::Uuid::HybridTime(t.first, t.second).str() + " ";
                    return r;
                });
                break;
            case 7:
                g.note("task: compare frames");
                tasks.push_back([s, k] {
                    string r;
                    for (auto& f : s->frames) r += str_of(ron::CompareFrames(f, s->frames[k])) + " ";
                    return r;
                });
                break;
            case 8:
                g.note("task: a log into a state");
                tasks.push_back([s] {
                    TextFrame st;
                    Status ok = ron::ObjectLogToState<TextFrame>(st, s->log);
                    vector<bool> tombs;
                    if (ok) ok = ron::ScanRGA<TextFrame>(tombs, st);
                    string r = str_of(ok) + st.data();
                    for (bool t : tombs) r += t ? '1' : '0';
                    return r;
                });
                break;
            case 9:
                g.note("task: an object of a frame");
                tasks.push_back([s, m] {
                    string r;
                    for (auto& f : s->iframes[m]) {
                        ron::LWWObject<TextFrame> o{f};
                        for (auto k : {"key", "x", "y"}) {
                            ron::Uuid u{k};
                            r += o.string(u) + " " + o.uuid(u).str() + " " + std::to_string(o.number(u)) + "\n";
                        }
                    }
                    return r;
                });
                break;
            case 10:
                g.note("task: compact an object");
                tasks.push_back([s, m] {
                    string r;
                    ron::LastWriteWinsRDT<TextFrame> lww;
                    for (auto& f : s->iframes[m]) {
                        TextFrame::Builder b;
                        r += str_of(lww.GC(b, f));
                        r += b.Release().data();
                    }
                    return r;
                });
                break;
            case 11:
                g.note("task: malformed text");
                tasks.push_back([s, k] {
                    string r, t = s->frames[k].data();
                    for (size_t cut = 0; cut < t.size() && cut < 40; cut += 3) {
                        TextFrame f{t.substr(0, cut) + "'\\"};
                        Cursor c{f};
                        Status ok;
                        while ((ok = c.Next())) r += c.id().str();
                        r += str_of(ok);
                    }
                    return r;
                });
                break;
            default:
                g.note("task: statuses");
                tasks.push_back([s] {
                    string r;
                    for (Status st : {Status::OK, Status::NOT_FOUND, Status::BADSYNTAX, Status::CAUSEBREAK})
                        r += st.str() + st.comment("x").str() + (st ? "+" : "-");
                    return r;
                });
        }
    }
    vector<string> want;
    for (auto& t : tasks) want.push_back(t());

    size_t threads = 2 + g.below(3), rounds = 1 + g.below(6);
    vector<vector<size_t>> plan(threads);
    for (auto& p : plan)
        do p.push_back(g.below(tasks.size()));
        while (g.more(2) && p.size() < 8);
    for (size_t a = 0; a < threads; ++a)
        for (size_t b = 0; b < a; ++b)
            for (size_t x : plan[a])
                for (size_t y : plan[b])
                    if (kinds[x] == kinds[y]) g.nontrivial();
    g.note(std::to_string(threads) + " threads, " + std::to_string(rounds) + " rounds");

    std::atomic<size_t> ready{0};
    vector<string> bad(threads);
    vector<std::thread> run;
    for (size_t t = 0; t < threads; ++t)
        run.emplace_back([&, t] {
            ++ready;
            while (ready < threads) std::this_thread::yield();
            for (size_t r = 0; r < rounds && bad[t].empty(); ++r)
                for (size_t x : plan[t]) {
                    string got;
                    try {
                        got = tasks[x]();
                    } catch (pbt::Failure& f) {
                        got = "failed: " + f.msg;
                    }
                    if (got != want[x]) {
                        bad[t] = "task " + std::to_string(x) + " gives [" + pbt::esc(got) + "], alone it gives [" + pbt::esc(want[x]) + "]";
                        break;
                    }
                }
        });
    for (auto& t : run) t.join();
    for (auto& b : bad) CHECK(b.empty(), "in a thread " << b);
}
