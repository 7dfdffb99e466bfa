// Shared by the checks of the store: keys with their own history of changes
// and a model of what a key holds; scratch stores.
#ifndef STORELIB_HPP
#define STORELIB_HPP
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <rocksdb/db.h>
#include <sys/stat.h>
#include <unistd.h>
#include "db/rocks_store.hpp"
#include "lib/treelib.hpp"

// preallocation of log files zeroes whole pages of a memory file system, which
// is most of the time a case takes; the database does without it
extern "C" int fallocate(int, int, off_t, off_t) {
    errno = EOPNOTSUPP;
    return -1;
}

namespace model {

using Store = ron::RocksDBStore<TextFrame>;
using Branches = Store::Branches;

inline void rm_tree(const string& path) {
    // only below the scratch directory of this process
    if (path.compare(0, pbt::scratch().size(), pbt::scratch())) return;
    struct stat st;
    if (lstat(path.c_str(), &st)) return;
    if (S_ISDIR(st.st_mode)) {
        if (DIR* d = opendir(path.c_str())) {
            while (dirent* e = readdir(d)) {
                string n = e->d_name;
                if (n != "." && n != "..") rm_tree(path + "/" + n);
            }
            closedir(d);
        }
        rmdir(path.c_str());
    } else
        unlink(path.c_str());
}

/** a directory for one database; the store under test is pointed at it */
struct Dir {
    string path;
    Dir() {
        static int n = 0;
        path = pbt::scratch() + "/db" + std::to_string(++n);
        use();
    }
    void use() const { ron::ROCKSDB_STORE_DIR = path; }
    ~Dir() { rm_tree(path); }
};

/** a key and the changes that may be written to it, in their order */
struct Source {
    Uid id;
    FORM form;
    vector<Ops> pieces;
    Tree tree;                   // RGA
    vector<vector<int>> tparts;  // RGA
    ron::Key key() const { return ron::Key{R(id), form}; }
};
inline const vector<std::pair<const char*, FORM>>& rules() {
    static const vector<std::pair<const char*, FORM>> r = {
        {"zero", ron::ZERO_RAW_FORM}, {"yarn", ron::YARN_RAW_FORM}, {"log", ron::LOG_RAW_FORM},
        {"meta", ron::META_META_FORM}, {"lww", ron::LWW_RDT_FORM},  {"rga", ron::RGA_RDT_FORM},
        {"mx", ron::MX_RDT_FORM},      {"max", ron::MAX_RDT_FORM}};
    return r;
}
inline string form_name(FORM f) {
    for (auto& r : rules())
        if (r.second == f) return r.first;
    return "?";
}
/** the key id as a key keeps it */
inline Uid key_id(const Uid& u) { return Uid{u.value & PAY, (u.origin & PAY) | V_TIME}; }

inline void end_pieces(vector<Ops>& pieces) {
    for (auto& p : pieces)
        if (!p.empty() && p.back().term == 1) p.back().term = 0;
}
inline Source gen_source(Gen& g, FORM form, size_t maxpieces) {
    Source s;
    s.form = form;
    auto vals = [](Gen& h) {
        vector<Val> v{h.coin() ? Val::U(uid(h.one_of<const char*>({"key", "x", "y"}))) : Val::I(h.range(0, 5))};
        while (h.more(1) && v.size() < 4) v.push_back(gen_val(h));
        return v;
    };
    Uid name = uid(form_name(form));
    switch (form) {
        case ron::RGA_RDT_FORM: {
            s.tree = gen_tree(g, 24, 8, 2);
            s.tparts = gen_tree_pieces(g, s.tree);
            // in an order that respects causality
            vector<vector<int>> order;
            vector<bool> have(s.tree.ops.size()), done(s.tparts.size());
            for (size_t n = 0; n < s.tparts.size(); ++n)
                for (size_t i = 0; i < s.tparts.size(); ++i) {
                    auto& p = s.tparts[i];
                    if (done[i] || !(p[0] == 0 || have[s.tree.parent[p[0]]])) continue;
                    done[i] = true;
                    for (int o : p) have[o] = true;
                    order.push_back(p);
                    if (g.coin()) break;
                }
            s.tparts = order;
            if (s.tparts.size() > maxpieces) s.tparts.resize(maxpieces);
            for (auto& p : s.tparts) s.pieces.push_back(pick_ops(s.tree, p));
            s.id = s.tree.ops[0].id;
            break;
        }
        case ron::LOG_RAW_FORM:
        case ron::ZERO_RAW_FORM: {
            s.id = gen_event(g);
            do {
                Ops o = gen_ops(g, 2, 6);
                for (auto& x : o)
                    if (x.ref.is_name()) x.ref = gen_event(g);
                s.pieces.push_back(o);
            } while (s.pieces.size() < maxpieces && g.more(3));
            break;
        }
        case ron::META_META_FORM: {
            s.id = gen_event(g);
            std::map<std::pair<Uid, Uid>, Op> pool;
            vector<Uid> keys, refs;
            do keys.push_back(gen_event(g));
            while (g.more(2) && keys.size() < 6);
            do refs.push_back(gen_event(g));
            while (g.more(2) && refs.size() < 6);
            s.pieces.resize(1 + g.below(maxpieces));
            do {
                Op o;
                o.id = g.pick(keys);
                o.ref = g.pick(refs);
                if (pool.count({o.id, o.ref})) continue;
                o.vals = vals(g);
                pool[{o.id, o.ref}] = o;
            } while (g.more(8) && pool.size() < 20);
            for (auto& p : pool) {
                s.pieces[g.below(s.pieces.size())].push_back(p.second);
            }
            for (auto& p : s.pieces)
                std::stable_sort(p.begin(), p.end(), [](const Op& a, const Op& b) {
                    return a.id == b.id ? b.ref < a.ref : a.id < b.id;
                });
            break;
        }
        default: {
            Ops pool = gen_pool(g, name, true, 16, 5, vals);
            if (form == ron::MAX_RDT_FORM)
                for (size_t i = 1; i < pool.size(); ++i) pool[i].vals = {Val::I((int64_t)g.below(50))};
            s.id = pool[0].id;
            s.pieces = gen_pieces(g, pool, maxpieces);
            if (s.pieces.size() > maxpieces) s.pieces.resize(maxpieces);
            break;
        }
    }
    if (form != ron::LOG_RAW_FORM && form != ron::ZERO_RAW_FORM)
        s.pieces.erase(std::remove_if(s.pieces.begin(), s.pieces.end(), [](const Ops& o) { return o.empty(); }),
                       s.pieces.end());
    end_pieces(s.pieces);
    return s;
}

/** a key with a long history or many changes */
inline Source gen_large_source(Gen& g) {
    Source s;
    s.form = g.pick(rules()).second;
    if (s.form == ron::META_META_FORM) s.form = ron::LWW_RDT_FORM;
    size_t n = gen_large_size(g, 4000), np = g.coin() ? 6 : 300;
    Gen bulk = g.bulk();
    switch (s.form) {
        case ron::RGA_RDT_FORM:
            s.tree = gen_large_tree(bulk, n);
            s.tparts = gen_large_pieces(bulk, s.tree);
            for (auto& p : s.tparts) s.pieces.push_back(pick_ops(s.tree, p));
            s.id = s.tree.ops[0].id;
            break;
        case ron::LOG_RAW_FORM:
        case ron::ZERO_RAW_FORM:
            s.id = gen_event(g);
            for (size_t i = 0; i < n / 3 && i < 700; ++i) {
                Ops o = gen_ops(bulk, 2, 6);
                for (auto& x : o)
                    if (x.ref.is_name()) x.ref = gen_event(bulk);
                s.pieces.push_back(o);
            }
            break;
        default: {
            Ops pool = gen_pool(bulk, uid(form_name(s.form)), true, n, 1000000, [](Gen& h) {
                vector<Val> v{h.coin() ? Val::U(uid(h.one_of<const char*>({"key", "x", "y"}))) : Val::I(h.range(0, 5))};
                while (h.more(1) && v.size() < 4) v.push_back(gen_val(h));
                return v;
            });
            if (s.form == ron::MAX_RDT_FORM)
                for (size_t i = 1; i < pool.size(); ++i) pool[i].vals = {Val::I((int64_t)bulk.below(5000))};
            s.id = pool[0].id;
            s.pieces = gen_pieces(bulk, pool, np);
            s.pieces.erase(std::remove_if(s.pieces.begin(), s.pieces.end(), [](const Ops& o) { return o.empty(); }), s.pieces.end());
        }
    }
    end_pieces(s.pieces);
    return s;
}

/** what a key holds after the changes with the indices given */
inline Ops fold(const Source& s, const vector<int>& written) {
    Ops r;
    switch (s.form) {
        case ron::ZERO_RAW_FORM:
            for (int w : written)
                if (!s.pieces[w].empty()) r = s.pieces[w];
            return r;
        case ron::LOG_RAW_FORM:
            for (int w : written) r.insert(r.end(), s.pieces[w].begin(), s.pieces[w].end());
            return r;
        case ron::META_META_FORM: {
            std::map<Uid, Op> m;
            for (int w : written)
                for (auto& o : s.pieces[w]) {
                    auto i = m.find(o.id);
                    if (i == m.end() || i->second.ref < o.ref) m[o.id] = o;
                }
            for (auto& p : m) r.push_back(p.second);
            return r;
        }
        case ron::RGA_RDT_FORM: {
            if (written.empty()) return r;
            vector<bool> have(s.tree.ops.size());
            for (int w : written)
                for (int o : s.tparts[w]) have[o] = true;
            return pick_ops(s.tree, dfs(s.tree, 0, &have));
        }
        case ron::MAX_RDT_FORM: {
            const Op *head = nullptr, *best = nullptr;
            for (int w : written)
                for (auto& o : s.pieces[w]) {
                    if (o.ref == uid("max"))
                        head = &o;
                    else if (!best || best->vals[0].i < o.vals[0].i ||
                             (best->vals[0].i == o.vals[0].i && best->id < o.id))
                        best = &o;
                }
            if (head) r.push_back(*head);
            if (best) r.push_back(*best);
            return r;
        }
        default: {
            std::map<Uid, Op> m;
            for (int w : written)
                for (auto& o : s.pieces[w]) m[o.id] = o;
            for (auto& p : m) r.push_back(p.second);
            return r;
        }
    }
}

/** a set of sources with distinct keys */
inline vector<Source> gen_sources(Gen& g, size_t maxn, size_t maxpieces) {
    vector<Source> v;
    std::set<std::pair<Uid, int>> taken;
    size_t n = 1 + g.below(maxn);
    while (v.size() < n) {
        Source s = gen_source(g, g.pick(rules()).second, maxpieces);
        if (s.pieces.empty()) continue;
        if (!v.empty() && g.chance(1, 4) && s.form != v.back().form) s.id = v.back().id;  // same id, another type
        // the record of the store itself
        if ((s.id.value == 0 && (s.id.origin & PAY) == 0) || !taken.insert({key_id(s.id), (int)s.form}).second) {
            if (g.chance(1, 3)) break;
            continue;
        }
        v.push_back(s);
    }
    return v;
}

/** the model of one branch */
struct Model {
    const vector<Source>* src;
    vector<vector<int>> written;  // by source
    vector<int> next;             // the next change, by source
    bool zero{false};             // has the record of the store itself
    explicit Model(const vector<Source>& s) : src{&s}, written(s.size()), next(s.size()) {}
    bool operator==(const Model& b) const { return written == b.written && zero == b.zero; }
};
inline Ops zero_rec() {
    Op o;
    o.ref = uid("zero");
    o.term = 0;
    return {o};
}

/** a change in some layout; the first is never laid out by the builder only */
inline int next_change(Gen& g, Model& m, size_t src) {
    int n = m.next[src];
    auto& s = (*m.src)[src];
    if (n >= (int)s.pieces.size()) {
        // a repeat; a log has its ops again
        n = (int)g.below(s.pieces.size());
    } else if (g.chance(1, 8) && n > 0)
        n = (int)g.below(n);
    else
        ++m.next[src];
    return n;
}

inline Ops store_read(Store& st, const ron::Key& key, const char* what) {
    TextFrame f{"@1+junk :lww;"};
    Status ok = st.Read(key, f);
    CHECK(ok, what << ": a read is refused: " << ok.str());
    return must_read(f, what);
}
inline void expect_key(const Source& s, const Ops& got, const Ops& want, const char* what) {
    CHECK(same(got, want), what << " of @" << text(s.id) << " *" << form_name(s.form) << ": " << diff(got, want)
                                << "\ngot\n" << show(got) << "expected\n" << show(want));
    if (s.form == ron::LOG_RAW_FORM || s.form == ron::ZERO_RAW_FORM)
        CHECK(terms_ok(got, want), what << " of @" << text(s.id) << " *" << form_name(s.form)
                                        << ", other chunk ends: got\n" << show(got) << "expected\n" << show(want));
}

/** all records of a branch in key order: (form, origin, value) */
using Rec = std::pair<ron::Key, Ops>;
inline bool model_key_less(const ron::Key& a, const ron::Key& b) {
    if (a.form() != b.form()) return a.form() < b.form();
    Uid x = M(a.id()), y = M(b.id());
    return x.origin != y.origin ? x.origin < y.origin : x.value < y.value;
}
inline vector<std::pair<int, ron::Key>> model_scan(const Model& m) {
    vector<std::pair<int, ron::Key>> v;
    if (m.zero) v.push_back({-1, ron::Key::ZERO});
    for (size_t i = 0; i < m.src->size(); ++i)
        if (!m.written[i].empty()) v.push_back({(int)i, (*m.src)[i].key()});
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return model_key_less(a.second, b.second); });
    return v;
}
inline Ops model_value(const Model& m, int src) { return src < 0 ? zero_rec() : fold((*m.src)[src], m.written[src]); }

/** every key of the branch and no other */
inline void expect_scan(Store& st, const Model& m, const char* what) {
    auto want = model_scan(m);
    Store::Iterator i{st};
    Status ok = i.SeekTo(ron::Key::ZERO);
    CHECK(ok, what << ": a scan is refused: " << ok.str());
    for (size_t n = 0; n < want.size(); ++n) {
        CHECK(i.key() != ron::Key::END, what << ": the scan ends after " << n << " records of " << want.size());
        CHECK(i.key() == want[n].second, what << ": record " << n << " has key " << i.key().str() << ", expected "
                                              << want[n].second.str());
        auto c = i.value();
        Ops got;
        while (c.Next()) got.push_back(read_op(c));
        Source z;
        z.id = Uid{};
        z.form = ron::ZERO_RAW_FORM;
        expect_key(want[n].first < 0 ? z : (*m.src)[want[n].first], got, model_value(m, want[n].first), what);
        ok = i.Next();
        if (n + 1 < want.size())
            CHECK(ok, what << ": a step of a scan gives " << ok.str());
        else
            CHECK(ok == Status::ENDOFINPUT, what << ": the scan goes on after the last record: " << i.key().str());
    }
    CHECK(i.key() == ron::Key::END, what << ": there are more records than expected: " << i.key().str());
}
inline void expect_all(Store& st, const Model& m, const char* what) {
    for (size_t i = 0; i < m.src->size(); ++i)
        expect_key((*m.src)[i], store_read(st, (*m.src)[i].key(), what), model_value(m, (int)i), what);
}
inline string show_sources(const vector<Source>& v) {
    string s;
    for (size_t i = 0; i < v.size(); ++i) {
        s += "key " + std::to_string(i) + ": @" + text(v[i].id) + " *" + form_name(v[i].form) + "\n";
        for (size_t k = 0; k < v[i].pieces.size() && k < 12; ++k) {
            s += " change " + std::to_string(k) + ":\n" + show(v[i].pieces[k], 10);
        }
    }
    return s;
}
inline rocksdb::DB* raw_db(Store& st) { return static_cast<rocksdb::DB*>(st.db().get()); }

}  // namespace model
#endif
