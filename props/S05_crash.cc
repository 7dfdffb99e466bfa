// USES: rocks
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <atomic>
#include "lib/storelib.hpp"
using namespace model;

PROPERTY("S05",
         "histories of writes, batches, flushes, branch creations and drops by a process that is killed at a "
         "chosen system call (before it, half way through a write, after it) or at the end without closing, "
         "while creating, opening, writing or recovering; a fresh process then reads all branches; the "
         "contents must be those of all acknowledged requests, with or without the one in flight in full; "
         "non-trivial: the process was killed by the fault with a request in flight or after some request",
         "the machine itself goes on: what was handed over to the system is not lost");

// ------------------------------------------------- faults in system calls ----
static std::atomic<long> fault_in{-1};  // calls left before the fault
static int fault_mode = 0;              // 0 before, 1 half way, 2 after
static void die() {
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) syscall(SYS_pause);
}
/** counts a call; true if this is the one */
static bool hit() {
    if (fault_in.load(std::memory_order_relaxed) < 0) return false;
    return fault_in.fetch_sub(1) == 0;
}
static long ret(long r) {
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
extern "C" {
ssize_t write(int fd, const void* b, size_t n) {
    if (fd > 2 && hit()) {
        if (fault_mode == 1) syscall(SYS_write, fd, b, (n + 1) / 2);
        if (fault_mode == 2) syscall(SYS_write, fd, b, n);
        die();
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t at) {
    if (fd > 2 && hit()) {
        if (fault_mode == 1) syscall(SYS_pwrite64, fd, b, (n + 1) / 2, at);
        if (fault_mode == 2) syscall(SYS_pwrite64, fd, b, n, at);
        die();
    }
    return syscall(SYS_pwrite64, fd, b, n, at);
}
int rename(const char* a, const char* b) {
    bool now = hit();
    if (now && fault_mode != 2) die();
    int r = syscall(SYS_rename, a, b);
    if (now) die();
    return r;
}
int unlink(const char* a) {
    bool now = hit();
    if (now && fault_mode != 2) die();
    int r = syscall(SYS_unlink, a);
    if (now) die();
    return r;
}
int ftruncate(int fd, off_t n) {
    bool now = hit();
    if (now && fault_mode != 2) die();
    int r = syscall(SYS_ftruncate, fd, n);
    if (now) die();
    return r;
}
int fsync(int fd) {
    bool now = hit();
    if (now && fault_mode != 2) die();
    int r = syscall(SYS_fsync, fd);
    if (now) die();
    return r;
}
int fdatasync(int fd) {
    bool now = hit();
    if (now && fault_mode != 2) die();
    int r = syscall(SYS_fdatasync, fd);
    if (now) die();
    return r;
}
}

// ------------------------------------------------------------- processes ----
struct Shared {
    std::atomic<int> opened, started, acked, alt;
    char msg[4000];
};
static Shared* shared() {
    static Shared* s = nullptr;
    if (!s) s = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return s;
}
/** runs in a process of its own; the status it ended with */
static int in_process(const std::function<void()>& fn) {
    Shared* sh = shared();
    sh->msg[0] = 0;
    sh->opened = 0;
    sh->started = sh->acked = -1;
    sh->alt = -1;
    string scr = pbt::scratch();
    pid_t pid = fork();
    if (!pid) {
        signal(SIGPROF, SIG_DFL);
        try {
            fn();
        } catch (const pbt::Failure& f) {
            fault_in = -1;
            snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
        }
        fault_in = -1;
        syscall(SYS_exit_group, 0);
    }
    int st = 0;
    for (int ms = 0;; ++ms) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (ms > 60000) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            FAIL("a process hangs");
        }
        usleep(1000);
    }
    CHECK(!sh->msg[0], sh->msg);
    return st;
}

// --------------------------------------------------------------- histories ----
using State = std::map<Uid, Model>;
struct Req {
    enum { WRITE, BATCH, FLUSH, CREATE, DROP } kind;
    Uid branch;
    vector<std::pair<size_t, int>> puts;
    vector<string> texts;
};
static const Uid NIL{};

static void open_all(std::map<Uid, Store>& stores, bool created) {
    if (!created) {
        Store st;
        Status ok = st.Create(ron::Uuid::NIL);
        CHECK(ok, "a store can not be created: " << ok.str());
        st.Close();
    }
    Branches b;
    Status ok = Store::OpenAll(b);
    CHECK(ok, "a store can not be opened: " << ok.str());
    for (auto& x : b) stores[M(x.first)] = x.second;
}
static void apply(State& s, const vector<Source>& src, const Req& r) {
    switch (r.kind) {
        case Req::CREATE:
            s.emplace(r.branch, Model{src});
            s.at(r.branch).zero = true;
            break;
        case Req::DROP:
            s.erase(r.branch);
            break;
        default:
            for (auto& p : r.puts) s.at(r.branch).written[p.first].push_back(p.second);
    }
}
static string mismatch(std::map<Uid, Store>& stores, const State& s) {
    string names;
    for (auto& x : stores) names += " " + text(x.first);
    if (stores.size() != s.size()) return "branches:" + names;
    for (auto& x : s)
        if (!stores.count(x.first)) return "branches:" + names;
    try {
        for (auto& x : s) {
            expect_scan(stores[x.first], x.second, ("branch " + text(x.first)).c_str());
            expect_all(stores[x.first], x.second, ("branch " + text(x.first)).c_str());
        }
    } catch (const pbt::Failure& f) {
        return f.msg;
    }
    return "";
}

/** plain keys with changes that take some room, so that batches get large */
static void add_fill(pbt::Gen& g, vector<Source>& src) {
    std::set<std::pair<Uid, int>> taken;
    for (auto& s : src) taken.insert({key_id(s.id), (int)s.form});
    size_t n = g.coin() ? 1 + g.below(20) : 20 + g.below(g.chance(1, 6) ? 1500 : 200);
    size_t len = g.coin() ? g.below(20) : g.below(n < 30 ? 40000 : 400);
    uint64_t at = 1000 + g.below(1000), step = 1 + g.below(3);
    for (size_t i = 0; i < n; ++i) {
        Source s;
        s.id = uid("1+fill");
        s.id.value = at += step;
        s.form = ron::LWW_RDT_FORM;
        if (!taken.insert({key_id(s.id), (int)s.form}).second) continue;
        Op c, o;
        c.id = s.id;
        c.ref = uid("lww");
        o.id = s.id;
        ++o.id.value;
        o.ref = s.id;
        o.vals.push_back(Val::U(uid("key")));
        U32 v(len, 'a' + i % 26);
        o.vals.push_back(Val::S(v));
        s.pieces.push_back({c, o});
        src.push_back(s);
    }
}

static void crashes(pbt::Gen& g, unsigned steps, bool large = false) {
    auto src = gen_sources(g, large ? 2 : 4, 6);
    if (src.empty()) g.discard();
    size_t plain = src.size();
    if (large) add_fill(g, src);
    size_t fill = src.size() - plain;
    if (large) g.note(std::to_string(fill) + " more keys");
    g.note(show_sources(src));
    Dir dir;
    State now;
    bool created = false;
    vector<Uid> ids{uid("0+branch"), gen_event(g), uid("name")};
    size_t rounds = 1 + g.below(3);
    for (size_t round = 0; round < rounds; ++round) {
        // the plan of the round
        vector<Req> plan;
        vector<State> states;  // before every request, and after the last
        State s = now;
        if (!created) {
            s.emplace(NIL, Model{src});
            s.at(NIL).zero = true;
        }
        states.push_back(s);
        size_t n = 0;
        while (g.more(steps) && n++ < 3 * steps) {
            Req r;
            auto any = s.begin();
            std::advance(any, g.below(s.size()));
            r.branch = any->first;
            switch (g.weighted({8, 6, 1, 1, 1})) {
                case 0:
                case 1: {
                    r.kind = g.coin() ? Req::WRITE : Req::BATCH;
                    do {
                        size_t i = g.below(plain);
                        int c = next_change(g, any->second, i);
                        r.puts.push_back({i, c});
                        r.texts.push_back(lay(g, src[i].pieces[c]));
                    } while (r.kind == Req::BATCH && g.more(3) && r.puts.size() < 10);
                    if (r.kind == Req::BATCH && fill && g.chance(2, 3)) {
                        size_t b = g.below(fill), e = b + g.below(fill - b) + 1;
                        if (g.coin()) b = 0, e = fill;
                        for (size_t i = plain + b; i < plain + e; ++i) {
                            any->second.next[i] = 1;
                            r.puts.push_back({i, 0});
                            r.texts.push_back(build(src[i].pieces[0]).data());
                        }
                        if (g.coin()) {  // in another order
                            std::rotate(r.puts.begin(), r.puts.begin() + 1, r.puts.end());
                            std::rotate(r.texts.begin(), r.texts.begin() + 1, r.texts.end());
                        }
                    }
                    break;
                }
                case 2:
                    r.kind = Req::FLUSH;
                    break;
                case 3:
                    r.kind = Req::CREATE;
                    r.branch = g.pick(ids);
                    if (s.count(r.branch)) continue;
                    break;
                default:
                    r.kind = Req::DROP;
                    if (r.branch == NIL) continue;
            }
            apply(s, src, r);
            plan.push_back(r);
            states.push_back(s);
            string t = "request " + std::to_string(plan.size() - 1) + ": " +
                       std::vector<string>{"write", "batch", "flush", "create", "drop"}[r.kind] + " " + text(r.branch);
            for (size_t k = 0; k < r.puts.size() && k < 12; ++k)
                t += "\n  key " + std::to_string(r.puts[k].first) + " [" + pbt::esc(r.texts[k]) + "]";
            g.note(t);
        }
        bool at_open = g.chance(1, 4);
        long count = at_open ? g.below(120) : g.below(3 * plan.size() + 4);
        fault_mode = (int)g.below(3);
        g.note(string("killed at call ") + std::to_string(count) + (at_open ? " of the opening" : " of the requests") +
               (fault_mode == 0 ? ", before it" : fault_mode == 1 ? ", half way" : ", after it"));
        int end = (int)g.below(3);
        int st = in_process([&]() {
            Shared* sh = shared();
            if (at_open) fault_in = count;
            std::map<Uid, Store> stores;
            open_all(stores, created);
            sh->opened = 1;
            if (!at_open) fault_in = count;
            for (size_t i = 0; i < plan.size(); ++i) {
                Req& r = plan[i];
                sh->started = (int)i;
                Status ok;
                switch (r.kind) {
                    case Req::WRITE:
                        ok = stores.at(r.branch).Write(src[r.puts[0].first].key(), TextFrame{r.texts[0]});
                        break;
                    case Req::BATCH: {
                        Store::Records b;
                        for (size_t k = 0; k < r.puts.size(); ++k)
                            b.emplace_back(src[r.puts[k].first].key(), TextFrame{r.texts[k]});
                        ok = stores.at(r.branch).Write(b);
                        break;
                    }
                    case Req::FLUSH:
                        raw_db(stores.at(r.branch))->Flush(rocksdb::FlushOptions{});
                        break;
                    case Req::CREATE: {
                        Store b = stores.at(NIL);
                        ok = b.Create(R(r.branch));
                        stores[r.branch] = b;
                        break;
                    }
                    default:
                        ok = stores.at(r.branch).Drop();
                        stores.erase(r.branch);
                }
                CHECK(ok, "request " << i << " is refused: " << ok.str());
                sh->acked = (int)i;
            }
            if (end == 0) die();
            if (end == 1) {
                for (auto& x : stores) x.second.Close();
                stores.clear();
            }
            fault_in = -1;
        });
        Shared* sh = shared();
        bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
        CHECK(killed || (WIFEXITED(st) && WEXITSTATUS(st) == 0), "the process died of its own, status " << st);
        g.cls(!killed ? "no fault" : !sh->opened ? "killed at opening" : sh->acked < sh->started ? "killed in a request"
                                                                                            : "killed after a request");
        if (killed && sh->started >= 0) g.nontrivial();
        // what may be there now
        vector<State> may;
        bool opened = sh->opened;
        if (!opened) {
            may.push_back(created ? now : states[0]);
        } else {
            created = true;
            may.push_back(states[sh->acked + 1]);
            if (sh->started > sh->acked) {
                may.push_back(states[sh->started + 1]);
                Req& r = plan[sh->started];
                if (r.kind == Req::CREATE) {
                    may.push_back(may[1]);
                    may.back().at(r.branch).zero = false;
                }
            }
        }
        // killed again while it recovers
        if (g.chance(1, 3)) {
            long c = g.below(120);
            fault_mode = (int)g.below(3);
            g.note("killed again at call " + std::to_string(c) + " of the recovery");
            g.cls("killed at recovery");
            st = in_process([&]() {
                fault_in = c;
                std::map<Uid, Store> stores;
                open_all(stores, created);
            });
            CHECK((WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) || (WIFEXITED(st) && WEXITSTATUS(st) == 0),
                  "the process died of its own, status " << st);
        }
        st = in_process([&]() {
            std::map<Uid, Store> stores;
            open_all(stores, created);
            string why;
            for (size_t i = 0; i < may.size(); ++i) {
                string m = mismatch(stores, may[i]);
                if (m.empty()) {
                    shared()->alt = (int)i;
                    return;
                }
                why += (i ? "\nnor: " : "") + m;
            }
            FAIL("after the crash the store is not in a state of its history: " << why);
        });
        CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the reading process died, status " << st);
        int alt = shared()->alt;
        CHECK(alt >= 0 && alt < (int)may.size(), "the reading process gave no answer");
        if (alt) g.cls("the request in flight is there");
        now = may[alt];
        created = true;
        // the changes that are not there may come again
        for (auto& x : now) {
            for (size_t i = 0; i < src.size(); ++i) {
                int next = 0;
                for (int w : x.second.written[i]) next = std::max(next, w + 1);
                x.second.next[i] = next;
            }
        }
    }
}

FACET(history, 1500, 40000) { crashes(g, 10); }
FACET(long_history, 100, 3000) { crashes(g, 80); }
FACET(large_batches, 400, 10000) { crashes(g, 3, true); }
