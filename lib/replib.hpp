// Shared by the checks of the replica: a model of branches and of what they
// accept, generated frames, a stand-in for the database.
#ifndef REPLIB_HPP
#define REPLIB_HPP
#include <memory>
#include <unordered_map>
#include "db/replica.cc"
#include "lib/storelib.hpp"

namespace model {

/** the wall clock of the code under test; 0 for the real one */
inline time_t& fake_time() {
    static time_t t = 0;
    return t;
}

/** A store that is kept in memory and outlives the handles to it: what the
 *  replica expects of a database, and nothing else. */
class FakeStore {
   public:
    using Frame = TextFrame;
    using Builder = Frame::Builder;
    using Cursor = Frame::Cursor;
    using Cursors = Frame::Cursors;
    using Record = std::pair<ron::Key, Frame>;
    using Records = vector<Record>;
    using Branches = std::unordered_map<ron::Uuid, FakeStore>;
    using Data = std::map<ron::Key, vector<Frame>>;
    using SharedPtr = std::shared_ptr<void>;
    static std::map<Uid, std::shared_ptr<Data>>& disk() {
        static std::map<Uid, std::shared_ptr<Data>> d;
        return d;
    }
    /** how many more batches the disk takes; -1 for any number */
    static int& room() {
        static int n = -1;
        return n;
    }

   private:
    std::shared_ptr<Data> d_;
    static Status get(const Data& d, ron::Key key, Frame& into) {
        into = Frame{};
        auto i = d.find(key);
        if (i == d.end()) return Status::OK;
        if (i->second.size() == 1) {
            into = i->second[0];
            return Status::OK;
        }
        Cursors in;
        for (auto& f : i->second) {
            in.emplace_back(f);
            if (!in.back().Next()) in.pop_back();
        }
        return ron::MergeCursors<Frame>(into, key.form(), in);
    }

   public:
    ron::Uuid tip;
    FakeStore() {}
    explicit FakeStore(SharedPtr) {}
    SharedPtr db() const { return nullptr; }
    bool open() const { return !!d_; }
    Status Create(ron::Uuid id) {
        if (disk().count(M(id))) return Status::BADARGS.comment("it exists");
        d_ = disk()[M(id)] = std::make_shared<Data>();
        tip = ron::Uuid::NIL;
        return Write(ron::Key::ZERO, ron::OneOp<Frame>(tip, ron::ZERO_FORM_UUID));
    }
    static Status OpenAll(Branches& b) {
        b.clear();
        if (disk().empty()) return Status::DB_FAIL.comment("no database");
        for (auto& p : disk()) {
            FakeStore s;
            s.d_ = p.second;
            b.emplace(R(p.first), s);
        }
        return Status::OK;
    }
    Status Write(ron::Key key, const Frame& change) {
        if (!d_) return Status::BAD_STATE.comment("closed");
        (*d_)[key].push_back(change);
        return Status::OK;
    }
    Status Write(const Records& batch) {
        if (!d_) return Status::BAD_STATE.comment("closed");
        if (room() == 0) return Status::DB_FAIL.comment("the disk is full");
        if (room() > 0) --room();
        for (auto& r : batch) (*d_)[r.first].push_back(r.second);
        return Status::OK;
    }
    Status Read(ron::Key key, Frame& into) {
        into = Frame{};
        if (!d_) return Status::BAD_STATE.comment("closed");
        return get(*d_, key, into);
    }
    Status Drop() {
        if (!d_) return Status::BAD_STATE.comment("closed");
        for (auto i = disk().begin(); i != disk().end(); ++i)
            if (i->second == d_) {
                disk().erase(i);
                break;
            }
        return Close();
    }
    Status Close() {
        d_.reset();
        return Status::OK;
    }
    class Iterator {
        std::shared_ptr<Data> d_;
        Data::iterator i_;
        Frame value_;

       public:
        explicit Iterator(FakeStore& host) : d_{host.d_} {
            if (d_) i_ = d_->end();
        }
        ron::Key key() const { return !d_ || i_ == d_->end() ? ron::Key::END : i_->first; }
        Cursor value() {
            value_ = Frame{};
            if (d_ && i_ != d_->end()) get(*d_, i_->first, value_);
            return Cursor{value_};
        }
        Status Next() {
            if (!d_) return Status::BAD_STATE.comment("closed");
            if (i_ != d_->end()) ++i_;
            return i_ == d_->end() ? Status::ENDOFINPUT : Status::OK;
        }
        Status SeekTo(ron::Key key, bool prev = false) {
            if (!d_) return Status::BAD_STATE.comment("closed");
            i_ = d_->lower_bound(key);
            if (prev && (i_ == d_->end() || i_->first != key)) {
                if (i_ == d_->begin())
                    i_ = d_->end();
                else
                    --i_;
            }
            return Status::OK;
        }
        Status Close() {
            d_.reset();
            return Status::OK;
        }
    };
};

struct FakeDisk {
    FakeDisk() {
        FakeStore::disk().clear();
        FakeStore::room() = -1;
    }
    ~FakeDisk() { FakeStore::disk().clear(); }
};

//  T H E  M O D E L

constexpr uint64_t NEVER_W = 63ULL << 54;

struct MObj {
    FORM form;
    Ops log;
    Tree tree;
    Ops state() const {
        if (form == ron::RGA_RDT_FORM) return pick_ops(tree, dfs(tree, 0));
        Source s;
        s.form = form;
        s.pieces.push_back(log);
        return fold(s, {0});
    }
    U32 text() const {
        U32 t;
        if (form != ron::RGA_RDT_FORM) return t;
        auto h = hidden(tree);
        for (int i : dfs(tree, 0))
            if (!h[i] && !tree.ops[i].vals.empty() && tree.ops[i].vals[0].type == T_STR) t += tree.ops[i].vals[0].s;
        return t;
    }
};

inline FORM form_of(const Uid& name) {
    for (auto& r : rules())
        if (uid(r.first) == name) return r.second;
    return ron::ZERO_RAW_FORM;
}

struct MBranch {
    uint64_t own{0};                // its own yarn
    Uid tip;                        // the last event of that
    std::map<uint64_t, Uid> tips;   // the last event of every yarn
    std::map<Uid, Uid> object;      // of every event
    std::map<Uid, MObj> objs;
    std::map<Uid, Uid> names;

    /** does the event fit the history? why not: for the notes */
    const char* misfit(const Op& o) const {
        if (!o.id.is_time() || !(o.id.origin & PAY)) return "not an event";
        if (o.id.value >= NEVER_W) return "no time of any event";
        if (o.ref.is_time()) {
            if (!(o.ref < o.id)) return "refers to a later event";
        } else if (!o.ref.is_name())
            return "refers to neither an event nor a type";
        else if (form_of(o.ref) == ron::ZERO_RAW_FORM)
            return "an object of no type";
        auto t = tips.find(o.id.origin);
        if (o.ref == uid("yarn")) {
            if (t != tips.end()) return "the yarn has begun already";
            return nullptr;
        }
        if (t == tips.end()) return "a yarn that has not begun";
        if (!(t->second < o.id)) return "not after the last event of its yarn";
        if (o.ref.is_time() && !object.count(o.ref)) return "refers to an unknown event";
        return nullptr;
    }
    void apply(const Op& o) {
        Uid ob = o.id;
        if (o.ref.is_time())
            ob = object[o.ref];
        else
            objs[ob].form = form_of(o.ref);
        object[o.id] = ob;
        MObj& m = objs[ob];
        m.log.push_back(o);
        m.log.back().term = 1;
        if (m.form == ron::RGA_RDT_FORM) {
            int p = -1;
            for (size_t i = 0; i < m.tree.ops.size(); ++i)
                if (m.tree.ops[i].id == o.ref) p = (int)i;
            m.tree.ops.push_back(m.log.back());
            m.tree.parent.push_back(p);
        }
        tips[o.id.origin] = o.id;
        if (o.id.origin == own) tip = o.id;
    }
};

//  G E N E R A T O R S

inline vector<uint64_t> yarn_pool(const vector<uint64_t>& more = {}) {
    vector<uint64_t> v;
    for (auto s : {"A", "B", "C", "gritzko", "2Zz~"}) v.push_back(V_TIME | word_val(s));
    v.insert(v.end(), more.begin(), more.end());
    return v;
}

/** values that fit the type, as a rule */
inline vector<Val> gen_vals(Gen& g, const MBranch& b, const Uid& ref) {
    auto ob = b.object.find(ref);
    FORM f = ob == b.object.end() ? ron::LWW_RDT_FORM : b.objs.at(ob->second).form;
    vector<Val> v;
    if (f == ron::RGA_RDT_FORM) {
        const MObj& m = b.objs.at(ob->second);
        bool pe = false;
        for (auto& o : m.tree.ops)
            if (o.id == ref) pe = o.vals.size() == 1 && o.vals[0].type == T_UUID;
        bool root = ref == ob->second;
        if ((!root && g.chance(1, 5)) || (pe && g.chance(3, 5))) return {Val::U(g.chance(2, 3) ? RM() : UN())};
        switch (g.weighted({10, 1, 1, 1})) {
            case 0: return {Val::S(U32(1, gen_cp(g)))};
            case 1: return {};
            case 2: return {Val::S(gen_str(g)), gen_val(g)};
            default: return {gen_val(g)};
        }
    }
    if (f == ron::MAX_RDT_FORM) return {Val::I((int64_t)g.below(50))};
    v.push_back(g.coin() ? Val::U(uid(g.one_of<const char*>({"key", "x", "y"}))) : Val::I(g.range(0, 5)));
    while (g.more(1) && v.size() < 4) v.push_back(gen_val(g));
    return v;
}

/** an event that fits the branch */
inline Op gen_fit(Gen& g, const MBranch& b, const vector<uint64_t>& yarns, const Uid& last) {
    Op o;
    vector<uint64_t> known;
    for (auto y : yarns)
        if (b.tips.count(y)) known.push_back(y);
    if (known.empty() || g.chance(1, 6)) {
        uint64_t y = g.pick(yarns);
        if (!b.tips.count(y)) {
            Uid u = gen_event(g);
            o.id = Uid{u.value, y};
            o.ref = uid("yarn");
            if (g.chance(1, 4)) o.vals.push_back(gen_val(g));
            return o;
        }
        known.assign(1, y);
    }
    o.id.origin = g.pick(known);
    Uid tip = b.tips.at(o.id.origin);
    if (b.objs.size() < 4 ? g.chance(1, 3) : g.chance(1, 8)) {
        o.ref = uid(g.one_of<const char*>({"lww", "rga", "rga", "mx", "max"}));
        o.id.value = tip.value;
    } else {
        // the last event, one of the same object, any
        switch (g.weighted({5, 3, 3, 1})) {
            case 0:
                if (b.object.count(last)) {
                    o.ref = last;
                    if (g.chance(3, 5)) o.id.origin = last.origin;
                    tip = b.tips.at(o.id.origin);
                    break;
                }
            case 1: {
                auto i = b.objs.begin();
                std::advance(i, g.below(b.objs.size()));
                if (i->second.form == ron::YARN_RAW_FORM && g.chance(3, 4)) {
                    i = b.objs.begin();
                    std::advance(i, g.below(b.objs.size()));
                }
                auto& l = i->second.log;
                o.ref = g.coin() ? l.back().id : g.pick(l).id;
                break;
            }
            case 2: {
                auto i = b.object.begin();
                std::advance(i, g.below(b.object.size()));
                o.ref = i->first;
                break;
            }
            default:
                o.ref = tip;
        }
        o.id.value = std::max(tip.value, o.ref.value);
        o.vals = gen_vals(g, b, o.ref);
    }
    // the same time as the event referred to, of a greater yarn: still later
    bool tie = o.ref.is_time() && o.ref < o.id && tip < o.id && g.chance(1, 2);
    if (!tie) o.id.value += g.chance(2, 3) ? 1 : 1 + g.below(12);
    return o;
}

/** an event that does not */
inline Op gen_misfit(Gen& g, const MBranch& b, const vector<uint64_t>& yarns, const Uid& last) {
    Op o = gen_fit(g, b, yarns, last);
    switch (g.below(10)) {
        case 0:  // not after the tip
            if (b.tips.count(o.id.origin)) o.id.value = b.tips.at(o.id.origin).value;
            break;
        case 1:
            if (b.tips.count(o.id.origin)) o.id.value = g.below(b.tips.at(o.id.origin).value + 1);
            break;
        case 2:  // an unknown yarn
            o.id.origin = V_TIME | word_val(g.one_of<const char*>({"D", "A0000001", "unknown", "0A", "1"}));
            break;
        case 3:  // close to an event that is there
            if (o.ref.is_time()) o.ref.value += g.coin() ? 1 : -1;
            break;
        case 4:
            if (o.ref.is_time()) o.ref.origin = g.pick(yarns);
            break;
        case 5:
            o.ref = gen_event(g);
            break;
        case 6:
            o.ref = g.chance(1, 3) ? o.id : o.id.inc(1 + g.below(3));
            break;
        case 7:
            o.ref = uid(g.one_of<const char*>({"zero", "yarn", "lwx", "none", "0", "rg", "lwwa", "lww$A", "1gABC%A", "1gABC-A"}));
            break;
        case 8:
            o.id.value = g.one_of<uint64_t>({NEVER_W, NEVER_W + 5, PAY, word_val("1gABC") | 1ULL << 60});
            break;
        default:
            o.id.origin = (o.id.origin & PAY) | g.one_of<uint64_t>({V_NAME, V_HASH});
    }
    auto ob = b.object.find(o.ref);
    if (ob != b.object.end() && b.objs.at(ob->second).form == ron::MAX_RDT_FORM) o.vals = {Val::I(7)};
    return o;
}

inline string yarn_text(uint64_t y) { return word_text(y & PAY); }


//  H I S T O R I E S

template <class S>
struct World {
    using Rep = ron::Replica<S>;
    using Commit = typename Rep::Commit;
    Gen& g;
    std::unique_ptr<Rep> rep;
    std::map<uint64_t, MBranch> branches;
    vector<uint64_t> yarns;     // of events
    vector<uint64_t> names;     // of branches
    std::map<uint64_t, Uid> last;  // the last event a branch took
    Uid active, active_rec;
    bool active_known{true};
    // what happened
    int accepted{0}, refused{0}, events{0}, reopened{0}, forked{0}, dropped{0}, answers{0};
    unsigned bad{3};  // of 8 frames have something that does not fit

    static Uid store_id(uint64_t y) { return Uid{NEVER_W, y}; }
    static ron::Word word(uint64_t y) { return ron::Word{y & PAY}; }

    explicit World(Gen& gen) : g{gen} {
        for (auto s : {"test", "alice", "A", "zz"}) names.push_back(V_TIME | word_val(s));
        yarns = yarn_pool({names[0], names[1]});
        fake_time() = 1893456000;
        Status ok = Rep::CreateReplica();
        CHECK(ok, "a replica can not be created: " << ok.str());
        open();
    }
    ~World() {
        rep.reset();
        fake_time() = 0;
    }
    void open() {
        rep.reset(new Rep{});
        Status ok = rep->Open();
        CHECK(ok, "a replica can not be opened: " << ok.str());
        active = active_rec.is_time() && branches.count(active_rec.origin) ? active_rec : Uid{};
        active_known = true;
        check_stores();
    }
    void reopen() {
        g.note("close and open again");
        ++reopened;
        Status ok = rep->Close();
        CHECK(ok, "a close is refused: " << ok.str());
        fake_time() += 86400;
        open();
    }
    void check_stores() {
        ron::Uuids ids{R(uid("1gABC+old"))};
        Status ok = rep->ListStores(ids);
        CHECK(ok, "the stores can not be listed: " << ok.str());
        std::set<Uid> got, want{Uid{}};
        for (auto& u : ids) got.insert(M(u));
        for (auto& b : branches) want.insert(store_id(b.first));
        CHECK(got == want && ids.size() == want.size(), "there are " << ids.size() << " stores, expected " << want.size());
        for (auto& b : branches) {
            CHECK(rep->HasBranch(word(b.first)), "there is no branch " << yarn_text(b.first));
            Uid tip = M(rep->GetBranch(word(b.first)).tip);
            CHECK(tip == b.second.tip, "the tip of branch " << yarn_text(b.first) << " is " << text(tip) << ", expected "
                                                            << text(b.second.tip));
        }
        if (active_known)
            CHECK(M(rep->active_store()) == active, "the active store is " << text(M(rep->active_store())) << ", expected " << text(active));
    }
    void begin(uint64_t y) {
        MBranch b;
        b.own = y;
        begin(y, b);
    }
    /** the first event of its own */
    void begin(uint64_t y, MBranch b) {
        Op o;
        o.id = M(rep->GetBranch(word(y)).tip);
        o.ref = uid("yarn");
        CHECK(o.id.origin == y, "the first event of branch " << yarn_text(y) << " is " << text(o.id));
        b.own = y;
        b.apply(o);
        branches[y] = b;
        last[y] = o.id;
    }
    void create(uint64_t y) {
        bool tr = g.coin();
        g.note(string("create branch ") + yarn_text(y) + (tr ? ", transcendent" : ""));
        Status ok = rep->CreateBranch(word(y), tr);
        if (branches.count(y)) {
            CHECK(!ok, "a second branch of the same name is created");
            return;
        }
        CHECK(ok, "a branch can not be created: " << ok.str());
        begin(y);
        if (tr) CHECK(branches[y].tip.value == 0, "a transcendent branch begins at " << text(branches[y].tip));
    }
    void fork(uint64_t y, uint64_t from) {
        if (branches.count(from) && branches[from].tips.count(y)) return;
        g.note("fork " + yarn_text(y) + " off " + yarn_text(from));
        Status ok = rep->ForkBranch(word(y), word(from));
        if (branches.count(y) || !branches.count(from)) {
            CHECK(!ok, "a fork " << (branches.count(y) ? "over a branch that is there" : "off no branch") << " is not refused");
            return;
        }
        CHECK(ok, "a fork is refused: " << ok.str());
        ++forked;
        begin(y, branches[from]);
        last[y] = last[from];
    }
    void drop(uint64_t y) {
        g.note("drop branch " + yarn_text(y));
        Status ok = rep->DropBranch(word(y));
        if (!branches.count(y)) {
            CHECK(!ok, "a branch that is not there is dropped");
            return;
        }
        CHECK(ok, "a branch can not be dropped: " << ok.str());
        ++dropped;
        branches.erase(y);
        if (active == store_id(y)) active_known = false;
    }
    void activate(uint64_t y) {
        g.note("make branch " + yarn_text(y) + " active");
        Status ok = rep->SetActiveStore(R(store_id(y)));
        if (!branches.count(y)) {
            CHECK(!ok, "a branch that is not there becomes active");
            return;
        }
        CHECK(ok, "a branch can not be made active: " << ok.str());
        active = active_rec = store_id(y);
        active_known = true;
    }
    /** the metadata store is active: no branch is */
    void deactivate() {
        g.note("make no branch active");
        Status ok = rep->SetActiveStore(ron::Uuid::NIL);
        CHECK(ok, "the metadata store can not be made active: " << ok.str());
        active = active_rec = Uid{};
        active_known = true;
    }

    /** an answer by the model; false if the query is to be refused */
    static bool answer(const MBranch& b, const Op& q, Ops& into) {
        if ((q.id.origin >> 60) == 3) {
            Op o;
            o.id = q.id;
            o.ref = uid("txt");
            auto i = b.objs.find(Uid{q.id.value, (q.id.origin & PAY) | V_TIME});
            o.vals.push_back(Val::S(i == b.objs.end() ? U32{} : i->second.text()));
            into.push_back(o);
            return true;
        }
        auto i = b.objs.find(q.id);
        if (q.ref == uid("log")) {
            if (i == b.objs.end()) return false;
            into.insert(into.end(), i->second.log.begin(), i->second.log.end());
            return true;
        }
        if (i == b.objs.end() || i->second.form != form_of(q.ref)) return true;
        Ops s = i->second.state();
        into.insert(into.end(), s.begin(), s.end());
        return true;
    }
    /** a query that the pending events do not get in the way of */
    bool query(const MBranch& b, const Ops& pending, Op& q) {
        if (b.objs.empty()) return false;
        auto i = b.objs.begin();
        std::advance(i, g.below(b.objs.size()));
        q.id = i->first;
        q.term = 3;
        q.vals.clear();
        switch (g.weighted({6, 3, 3, 1})) {
            case 0:
                // (the replica answers no queries for the state of a maximum)
                if (i->second.form == ron::MAX_RDT_FORM) return false;
                q.ref = uid(form_name(i->second.form));
                break;
            case 1:
                q.ref = uid("log");
                return true;
            case 2:
                q.id.origin = (q.id.origin & PAY) | V_DERIVED;
                q.ref = uid("txt");
                break;
            default:
                q.ref = uid(g.one_of<const char*>({"lww", "rga", "mx", "yarn"}));
        }
        if (i->second.form != ron::RGA_RDT_FORM) return true;
        // see the known finding of M02: pending changes of an array are read
        // if they are in one place only
        bool whole = true, touched = false;
        for (auto& o : pending) {
            auto ob = b.object.find(o.id);
            if (ob == b.object.end() || ob->second != i->first) continue;
            if (!touched) whole = o.id == i->first;
            touched = true;
        }
        return !touched || whole;
    }

    void receive(uint64_t y, bool may_fail = true) {
        if (!branches.count(y)) {
            TextFrame::Builder re;
            Status ok = rep->ReceiveFrame(re, TextFrame{"@1+A :yarn;"}, word(y));
            CHECK(!ok, "events of a branch that is not there are taken");
            return;
        }
        MBranch b = branches[y];
        Uid at = last[y];
        Ops ops, pending, want;
        const char* why = nullptr;
        bool spoil = may_fail && g.chance(bad, 8), names_now = false;
        size_t spoil_at = spoil ? g.below(8) : 99;
        while (ops.size() < 14 && (ops.empty() || g.more(6))) {
            Op o;
            o.term = 1;
            if (ops.size() == spoil_at) {
                o = gen_misfit(g, b, yarns, at);
                if (!why) why = b.misfit(o);
            } else
                switch (g.weighted({14, 1, 1, 2})) {
                    case 0:
                        o = gen_fit(g, b, yarns, at);
                        if (!why) why = b.misfit(o);  // (a yarn id may not fit)
                        if (g.chance(1, 6)) o.term = g.one_of<int>({0, 2});
                        break;
                    case 1:
                        o.id = uid("~");
                        if (g.coin()) o.vals.push_back(Val::S(gen_str(g)));
                        ops.push_back(o);
                        continue;
                    case 2:
                        // the value is the tip
                        o.id = uid("name");
                        o.term = 0;
                        if (may_fail && bad && g.chance(1, 12)) {  // what is no name
                            switch (g.below(5)) {
                                case 0: o.vals = {Val::S("dog")}; break;
                                case 1: o.vals = {Val::I(1)}; break;
                                case 2: o.vals = {Val::F(1.5)}; break;
                                case 3: o.vals = {Val::U(uid("1gABC+A"))}; break;
                                default:;
                            }
                            ops.push_back(o);
                            if (!why) why = "a name that is no name";
                            continue;
                        }
                        o.vals.push_back(Val::U(uid(g.one_of<const char*>({"dog", "cat", "x"}))));
                        ops.push_back(o);
                        if (!why) {
                            b.names[o.vals[0].u] = b.tip;
                            names_now = true;
                        }
                        continue;
                    default:
                        if (!query(b, pending, o)) continue;
                        ops.push_back(o);
                        if (!why) {
                            if (!answer(b, o, want)) why = "a log of no object";
                            ++answers;
                        }
                        continue;
                }
            ops.push_back(o);
            if (!why) {
                b.apply(o);
                pending.push_back(o);
                at = o.id;
            }
        }
        if (ops.back().term == 1) ops.back().term = 0;
        string s = lay(g, ops);
        if (spoil && g.chance(1, 4) && s.find(".\n") == string::npos) {
            s += g.one_of<const char*>({"\n@1gABC+A :lww 'x", "\n}", "@1+A$B;\n", " \"", "@zzzzzzzzzzz+A :lww;", "@1+A :lww 99999999999999999999;"});
            if (!why) why = "malformed at its end";
        }
        bool full = false;
        if (std::is_same<S, FakeStore>::value && may_fail && g.chance(1, 12) && (names_now || !pending.empty())) {
            full = true;
            if (!why) why = "the disk is full";
        }
        g.note("branch " + yarn_text(y) + " gets" + (why ? string(", with a fault (") + why + ")" : string()) + " [" + pbt::esc(s) + "]");
        if (full) FakeStore::room() = 0;
        TextFrame::Builder re;
        Status ok = rep->ReceiveFrame(re, TextFrame{s}, word(y));
        FakeStore::room() = -1;
        if (why) {
            CHECK(!ok, "a frame is taken that does not fit: " << why);
            ++refused;
        } else {
            CHECK(ok, "a frame that fits is refused: " << ok.str());
            Ops got = must_read(re.Release(), "the answer");
            CHECK(same(got, want), "another answer: " << diff(got, want) << "\ngot\n" << show(got) << "expected\n" << show(want));
            if (!pending.empty() || names_now) ++accepted;
            events += (int)pending.size();
            branches[y] = b;
            last[y] = at;
        }
        check_stores();
        if (why && g.chance(1, 2)) check(y);
    }

    /** everything there is to read in a branch */
    /** feeds many yarns and objects, long chains, in long frames; the number of events taken */
    size_t receive_large(uint64_t y, size_t max) {
        size_t nyarns = g.coin() ? 5 : gen_large_size(g, max / 5), total = gen_large_size(g, max), frame = g.coin() ? max : 1 + g.below(300);
        unsigned chain = (unsigned)g.below(4);
        Gen bulk = g.bulk();
        vector<uint64_t> yarns;
        for (size_t i = 0; i < nyarns; ++i) yarns.push_back(V_TIME | (word_val("A") + ((uint64_t)i << (bulk.coin() ? 30 : 1))));
        Ops ops;
        MBranch b = branches[y];
        Uid at = last[y];
        size_t taken = 0, frames = 0, longest = 0, run = 0;
        auto flush = [&](bool spoil) {
            if (ops.empty() && !spoil) return;
            const char* why = nullptr;
            if (spoil) {
                Op o = gen_misfit(bulk, b, yarns, at);
                why = b.misfit(o);
                o.term = 0;
                if (!why) return;
                ops.push_back(o);
            }
            ops.back().term = 0;
            string s = ops.size() < 500 ? lay(bulk, ops) : build(ops).data();
            TextFrame::Builder re;
            Status ok = rep->ReceiveFrame(re, TextFrame{s}, word(y));
            ++frames;
            if (why) {
                CHECK(!ok, "a large frame is taken that does not fit: " << why);
                ops.pop_back();
                check_stores();
                return;
            }
            CHECK(ok, "a large frame of " << ops.size() << " events is refused: " << ok.str());
            branches[y] = b;
            last[y] = at;
            ops.clear();
        };
        for (size_t i = 0; i < total; ++i) {
            Op o;
            if (i < yarns.size()) {
                if (b.tips.count(yarns[i])) continue;
                o.id = Uid{gen_event(bulk).value, yarns[i]};
                if (o.id.value >= NEVER_W / 2) o.id.value = word_val("1gABC");
                o.ref = uid("yarn");
            } else if (chain && bulk.chance(chain == 1 ? 9 : chain == 2 ? 99 : 999, chain == 1 ? 10 : chain == 2 ? 100 : 1000) &&
                       b.object.count(at) && b.tips.at(at.origin) == at && b.objs.at(b.object.at(at)).form != ron::MAX_RDT_FORM) {
                o.id = at.inc();
                o.ref = at;
                if (!bulk.chance(1, 4)) o.vals = {Val::S(U32(1, U'a' + (char32_t)bulk.below(26)))};
                else o.vals = gen_vals(bulk, b, at);
            } else
                o = gen_fit(bulk, b, yarns, at);
            if (b.misfit(o)) continue;
            o.term = bulk.chance(1, 20) ? bulk.one_of<int>({0, 2}) : 1;
            run = o.ref == at && o.id == at.inc() ? run + 1 : 1;
            longest = std::max(longest, run);
            b.apply(o);
            ops.push_back(o);
            at = o.id;
            ++taken;
            if (ops.size() >= frame) {
                if (bulk.chance(1, 4)) flush(true);
                flush(false);
            }
        }
        flush(true);
        flush(false);
        g.note(std::to_string(taken) + " events of " + std::to_string(nyarns) + " yarns and " + std::to_string(b.objs.size()) +
               " objects in " + std::to_string(frames) + " frames to " + yarn_text(y));
        if (longest > 255) g.cls("a chain of more than 255 events");
        if (b.objs.size() > 255) g.cls("more than 255 objects");
        return taken;
    }
    void check(uint64_t y) {
        const MBranch& b = branches[y];
        Commit c{*rep, R(store_id(y))};
        for (auto& p : b.objs) {
            TextFrame f;
            Status ok = c.GetObject(f, R(p.first), R(uid(form_name(p.second.form))));
            CHECK(ok, "an object can not be read: " << ok.str());
            Ops got = must_read(f, "an object"), want = p.second.state();
            if (p.second.form == ron::MAX_RDT_FORM) {
                // a single change is there as it came, the largest is yet to be found
                MObj m;
                m.form = ron::MAX_RDT_FORM;
                m.log = got;
                got = m.state();
            }
            CHECK(same(got, want), "branch " << yarn_text(y) << ", the state of " << text(p.first) << ": " << diff(got, want)
                                             << "\ngot\n" << show(got) << "expected\n" << show(want));
            ok = c.GetObjectLog(f, R(p.first));
            CHECK(ok, "a log can not be read: " << ok.str());
            got = must_read(f, "a log");
            want = p.second.log;
            CHECK(same(got, want), "branch " << yarn_text(y) << ", the log of " << text(p.first) << ": " << diff(got, want)
                                             << "\ngot\n" << show(got) << "expected\n" << show(want));
        }
        typename Rep::Names n;
        Status ok = c.ReadNames(n);
        CHECK(ok, "names can not be read: " << ok.str());
        std::map<Uid, Uid> got;
        for (auto& p : n) got[M(p.first)] = M(p.second);
        CHECK(got == b.names, "branch " << yarn_text(y) << " has other names (" << got.size() << ", expected " << b.names.size() << ")");
    }
    void check_all() {
        for (auto& b : branches) check(b.first);
    }
};

}  // namespace model

// time as the code under test sees it
extern "C" time_t time(time_t* t) {
    struct timespec ts;
    if (model::fake_time())
        ts.tv_sec = model::fake_time();
    else
        clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
#endif
