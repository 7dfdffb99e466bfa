#include "lib/hashlib.hpp"
#include "lib/rdtlib.hpp"
#include "ron/opmeta.hpp"
using namespace model;
using ron::OpMeta;
using ron::SHA2;

PROPERTY("H03",
         "several yarns that grow in a common causal order (objects of several types created and changed, chains "
         "within and across yarns), each written in frames cut anywhere and coded in any way; the metadata of "
         "every op against the model's; saved and loaded records, records of other kinds; non-trivial: an op "
         "refers to an op of another yarn or chain",
         "events of a yarn grow; an op refers to an op that was there before");

struct Meta {
    Uid id, rdt, object;
    string hash;
    uint64_t prev{0}, chain{0};
};
struct World {
    Ops ops;
    vector<Meta> metas;          // parallel to ops
    vector<vector<size_t>> yarn;  // indices into ops
    vector<int> refd;            // the op referred to, or -1
    bool crossing{false};
};
static World gen_world(pbt::Gen& g) {
    World w;
    size_t ny = 1 + g.below(3);
    w.yarn.resize(ny);
    static const char* org[] = {"A", "gritzko", "2Zz~"};
    uint64_t now = word_val("1gABC");
    string zero(32, '\0');
    auto add = [&](Op o, size_t y, int ref) {
        Meta m;
        Meta tip;
        tip.hash = zero;
        if (!w.yarn[y].empty()) tip = w.metas[w.yarn[y].back()];
        m.id = o.id;
        m.prev = tip.id.value;
        if (ref < 0) {
            m.rdt = o.ref;
            m.object = o.id;
            m.chain = o.id.value;
            m.hash = op_hash(o, tip.hash, uid_hash(o.ref));
        } else {
            const Meta& r = w.metas[ref];
            m.rdt = r.rdt;
            m.object = r.object;
            m.chain = o.ref == tip.id ? tip.chain : o.id.value;
            if (o.ref != tip.id) w.crossing = true;
            m.hash = op_hash(o, tip.hash, r.hash);
        }
        w.yarn[y].push_back(w.ops.size());
        w.ops.push_back(o);
        w.metas.push_back(m);
        w.refd.push_back(ref);
    };
    for (size_t y = 0; y < ny; ++y) {
        Op o;
        o.id = Uid{now, V_TIME | word_val(org[y])};
        o.ref = uid("yarn");
        now += g.below(2);
        add(o, y, -1);
    }
    size_t last = 0;
    do {
        size_t y = g.chance(2, 3) ? last : g.below(ny);
        last = y;
        now += g.chance(3, 4) ? 1 : 1 + g.below(1000);
        Op o;
        o.id = Uid{now, V_TIME | word_val(org[y])};
        int ref = -1;
        if (g.chance(1, 6)) {
            o.ref = uid(g.one_of<const char*>({"lww", "rga", "mx", "max"}));
        } else {
            ref = g.chance(2, 3) ? (int)w.yarn[y].back() : (int)g.below(w.ops.size());
            o.ref = w.ops[ref].id;
        }
        if (g.chance(2, 3))
            o.vals.push_back(Val::S(U32(1, gen_cp(g))));
        else
            while (g.more(1) && o.vals.size() < 4) o.vals.push_back(gen_val(g));
        add(o, y, ref);
    } while (g.more(12) && w.ops.size() < 40);
    return w;
}

static void check_meta(const OpMeta& m, const Meta& want, const char* what) {
    CHECK(M(m.id) == want.id, what << ": id " << m.id.str() << " expected " << text(want.id));
    CHECK(M(m.rdt) == want.rdt, what << " of " << text(want.id) << ": type " << m.rdt.str() << " expected " << text(want.rdt));
    CHECK(M(m.object) == want.object,
          what << " of " << text(want.id) << ": object " << m.object.str() << " expected " << text(want.object));
    CHECK(m.prev.as_u64 == want.prev, what << " of " << text(want.id) << ": the previous op is " << m.prev.str()
                                           << " expected " << word_text(want.prev));
    CHECK(m.chain.as_u64 == want.chain, what << " of " << text(want.id) << ": the chain is " << m.chain.str()
                                             << " expected " << word_text(want.chain));
    CHECK(m.is_head() == (want.chain == want.id.value), what << " of " << text(want.id) << ": is_head()");
    CHECK(M(m.chain_id()) == (Uid{want.chain, want.id.origin}), what << " of " << text(want.id) << ": chain_id()");
    string h(m.hash.bits_.data(), m.hash.bits_.size());
    CHECK(hex(h) == hex(want.hash), what << " of " << text(want.id) << ": hash " << hex(h) << " expected " << hex(want.hash));
}

FACET(walk, 40000, 400000) {
    World w = gen_world(g);
    g.note(show(w.ops));
    if (w.crossing) g.nontrivial();
    // cut every yarn in frames
    size_t ny = w.yarn.size();
    vector<vector<string>> frames(ny);
    for (size_t y = 0; y < ny; ++y) {
        Ops part;
        for (size_t i : w.yarn[y]) {
            part.push_back(w.ops[i]);
            if (g.chance(1, 5)) {
                part.back().term = 0;
                frames[y].push_back(lay(g, part));
                part.clear();
            }
        }
        if (!part.empty()) {
            part.back().term = 0;
            frames[y].push_back(lay(g, part));
        }
    }
    vector<vector<OpMeta>> got(ny);  // by yarn
    std::map<Uid, OpMeta> all;
    // walk all the yarns in the causal order, each by its own frames
    vector<vector<TextFrame>> tf(ny);
    for (size_t y = 0; y < ny; ++y)
        for (auto& s : frames[y]) tf[y].emplace_back(s);
    vector<std::pair<size_t, std::unique_ptr<Cursor>>> at(ny);
    vector<OpMeta> tip(ny);
    for (size_t i = 0; i < w.ops.size(); ++i) {
        size_t y = 0;
        while (std::find(w.yarn[y].begin(), w.yarn[y].end(), i) == w.yarn[y].end()) ++y;
        auto& a = at[y];
        if (!a.second) a.second.reset(new Cursor{tf[y][a.first]});
        if (!a.second->Next()) {
            ++a.first;
            CHECK(a.first < tf[y].size(), "a yarn has ended before its ops did");
            a.second.reset(new Cursor{tf[y][a.first]});
            CHECK(a.second->Next(), "a frame of a yarn does not read");
        }
        Cursor& c = *a.second;
        bool next = w.yarn[y][0] != i && w.ops[i].ref == w.metas[w.yarn[y][std::find(w.yarn[y].begin(), w.yarn[y].end(), i) -
                                                                            w.yarn[y].begin() - 1]]
                                                               .id;
        if (w.yarn[y][0] != i)
            CHECK(tip[y].is_next(c) == next, "is_next() of " << text(w.ops[i].id) << " after " << tip[y].id.str());
        if (w.refd[i] < 0)
            tip[y] = OpMeta{c, tip[y]};
        else {
            Status ok;
            if (next && g.coin())
                ok = tip[y].Next(c, tip[y]);
            else
                ok = tip[y].Next(c, all.at(w.ops[w.refd[i]].id));
            CHECK(ok, "a step along a yarn is refused: " << ok.str());
        }
        check_meta(tip[y], w.metas[i], "metadata");
        OpMeta copy{tip[y]};
        check_meta(copy, w.metas[i], "copied metadata");
        all.erase(w.ops[i].id);
        all.emplace(w.ops[i].id, tip[y]);
    }
}

FACET(save_load, 40000, 400000) {
    World w = gen_world(g);
    size_t at = g.below(w.ops.size());
    // the metadata by a walk of the first yarns is checked above; save one
    const Meta& m = w.metas[at];
    OpMeta x;
    x.id = R(m.id);
    x.rdt = R(m.rdt);
    x.object = R(m.object);
    x.prev = ron::Word{m.prev};
    x.chain = ron::Word{m.chain};
    x.hash.bits_ = m.hash;
    x.hash.known_bits_ = 256;
    TextFrame::Builder b;
    x.Save(b);
    TextFrame f = b.Release();
    g.note(f.data());
    if (w.crossing) g.nontrivial();
    Ops ops = must_read(f, "a saved record");
    CHECK(ops.size() == 1, "a saved record is not one op: " << show(ops));
    CHECK(ops[0].id == m.id && ops[0].ref == uid("meta"), "a saved record is " << show(ops));
    string s = g.coin() ? f.data() : lay(g, ops);
    TextFrame again{s};
    Cursor c{again};
    CHECK(c.Next(), "a saved record does not read");
    OpMeta y;
    Status ok = y.Load(c);
    CHECK(ok, "a saved record does not load: " << ok.str());
    CHECK(M(y.id) == m.id && M(y.object) == m.object && M(y.rdt) == m.rdt,
          "a saved record loads as " << y.id.str() << " " << y.object.str() << " " << y.rdt.str());
    // the hash is there in full
    CHECK(ops[0].vals.size() == 3 && ops[0].vals[2].type == T_STR, "a saved record has other fields: " << show(ops));
    SHA2 h = SHA2::ParseBase64(utf8(ops[0].vals[2].s));
    CHECK(h == x.hash && h.known_bits() == 256, "a saved record has another hash: " << show(ops));
}

FACET(other_records, 60000, 600000) {
    Op o;
    o.id = g.coin() ? gen_event(g) : gen_uid(g);
    o.ref = g.chance(1, 3) ? uid("meta") : g.coin() ? uid(g.one_of<const char*>({"lww", "sha3", "obj", "prev", "met", "meta-A"})) : gen_uid(g);
    while (g.more(2) && o.vals.size() < 5) o.vals.push_back(g.coin() ? Val::U(gen_uid(g)) : gen_val(g));
    o.term = 0;
    bool want = o.ref == uid("meta") && o.vals.size() >= 2 && o.vals[0].type == T_UUID && o.vals[1].type == T_UUID;
    string s = lay(g, {o});
    g.note(s);
    if (!want) g.nontrivial();
    TextFrame f{s};
    Cursor c{f};
    CHECK(c.Next(), "a record does not read");
    OpMeta y;
    Status ok = y.Load(c);
    CHECK((bool)ok == want, "a record " << show(o) << (want ? " is refused: " : " is taken for metadata: ") << ok.str());
    if (want) CHECK(M(y.object) == o.vals[0].u && M(y.rdt) == o.vals[1].u, "a record loads with other ids");
    // checks of other kinds of records
    bool known = o.ref == uid("meta") || o.ref == uid("prev") || o.ref == uid("obj") || o.ref == uid("sha3");
    ok = y.Check(c);
    CHECK((bool)ok == known, "a check record of type " << text(o.ref) << (known ? " is refused" : " is accepted"));
    // which op is next, which one is a check
    OpMeta z;
    Uid zid = g.coin() ? o.ref : gen_event(g);
    if (g.chance(1, 3)) zid.origin = o.id.origin;
    z.id = R(zid);
    bool next = o.id.is_time() && o.id.origin == zid.origin && zid < o.id && o.ref == zid;
    CHECK(z.is_next(c) == next, "is_next() of " << show(o) << " after " << text(zid));
    CHECK(z.is_check(c) == (o.id.is_name() && o.ref == zid), "is_check() of " << show(o) << " after " << text(zid));
}
