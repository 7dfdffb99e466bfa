// FUZZ: yes
#include "lib/bridge.hpp"
#include "lib/refread.hpp"
#include "rdt/rdt.hpp"
using namespace model;
using ron::TextFrame;
using Cursor = TextFrame::Cursor;

PROPERTY("T05",
         "chained runs of ops (equal ids, single chars, bare repeats; near misses of each; chunk ends "
         "anywhere), compressed by the builder or written as spans, against the same ops written one by "
         "one: reading, skipping chains, copying from any op on, continuing from another source, taking "
         "a log's state at any op; non-trivial: the text has a span")

/** ops in runs, most of them compressible */
static Ops gen_runs(pbt::Gen& g, size_t max = 40) {
    Ops ops;
    do {
        Op o;
        if (ops.empty() || g.chance(2, 3)) {
            o.id = gen_event(g);
            o.ref = g.coin() ? gen_event(g) : uid(g.one_of<const char*>({"lww", "rga", "log", "0"}));
        } else {
            o.id = ops.back().id.inc(1 + g.below(3));
            o.ref = g.coin() ? ops.back().id : gen_event(g);
        }
        int kind = g.weighted({6, 5, 2, 1, 1, 1});
        auto val = [&]() -> vector<Val> {
            switch (kind) {
                case 0:
                    return {Val::S(U32(1, gen_cp(g)))};
                case 1:
                    return {Val::U(uid(g.one_of<const char*>({"rm", "rm", "un", "0", "A+B", "123", "1E5"})))};
                case 2:
                    return {};
                case 3:
                    return {Val::I(gen_int(g))};
                case 4:
                    return {Val::S(gen_str(g, 2))};
                default: {
                    vector<Val> v;
                    while (g.more(2) && v.size() < 4) v.push_back(gen_val(g));
                    return v;
                }
            }
        };
        o.vals = val();
        o.term = g.chance(1, 12) ? g.one_of<int>({0, 2, 3}) : 1;
        ops.push_back(o);
        while (g.more(5) && ops.size() < max) {
            Op n;
            n.id = ops.back().id.inc();
            n.ref = ops.back().id;
            if (g.chance(1, 10)) kind = g.below(6);
            n.vals = kind == 0 || g.chance(1, 8) ? val() : ops.back().vals;
            n.term = g.chance(1, 12) ? g.one_of<int>({0, 2, 3}) : 1;
            if (g.chance(1, 25)) n.id = n.id.inc();        // a gap
            if (g.chance(1, 25)) n.ref = gen_event(g);     // another ref
            ops.push_back(n);
        }
    } while (ops.size() < max && g.more(2));
    if (ops.back().term == 1) ops.back().term = 0;
    return ops;
}

/** written out in full: no spans, nothing by default */
static string plain(const Ops& ops) {
    string s;
    for (auto& o : ops) {
        Layout l;
        s += "@" + text(o.id) + " :" + text(o.ref) + vals_text(l, o.vals, true) + ";,!?"[o.term] + "\n";
    }
    return s;
}
static bool has_span(const string& s) { return s.find('(') != string::npos; }

static string gen_compressed(pbt::Gen& g, const Ops& ops) {
    string s;
    if (g.coin())
        s = build(ops).data();
    else {
        Layout l{g.coin() ? &g : nullptr};
        s = write_doc(l, ops, true);
    }
    g.note(show(ops) + "text: " + pbt::esc(s));
    if (has_span(s)) g.nontrivial();
    return s;
}

FACET(read, 200000, 2000000) {
    Ops ops = gen_runs(g);
    string s = gen_compressed(g, ops);
    Ops got = must_read(TextFrame{s}, "a frame with spans");
    CHECK(same(got, ops), "a span reads differently: " << diff(got, ops));
    CHECK(terms_ok(got, ops), "a span has other chunk ends: got\n" << show(got) << "expected\n" << show(ops));
    // runs that can be one span are: a built frame is no longer than that
    string b = build(ops).data();
    Ops again = must_read(TextFrame{b}, "a built frame");
    CHECK(same(again, ops) && terms_ok(again, ops), "a built run differs: " << diff(again, ops) << "; [" << pbt::esc(b) << "]");
}

static vector<Uid> skips(const string& s, ron::Status& last) {
    TextFrame f{s};
    auto c = f.cursor();
    vector<Uid> at;
    last = c.Next();
    while (last) {
        at.push_back(M(c.id()));
        last = ron::SkipChain(c);
        CHECK(at.size() < 10000, "skipping chains does not end");
    }
    return at;
}

FACET(skip_chain, 120000, 1200000) {
    Ops ops = gen_runs(g);
    string s = gen_compressed(g, ops);
    vector<Uid> want;
    for (size_t i = 0; i < ops.size(); ++i)
        if (!i || ops[i].ref != ops[i - 1].id) want.push_back(ops[i].id);
    for (int k = 0; k < 2; ++k) {
        ron::Status last;
        vector<Uid> got = skips(k ? plain(ops) : s, last);
        CHECK(last == ron::Status::ENDOFFRAME, "skipping the last chain gives " << last.str());
        CHECK(got.size() == want.size(), "skipping chains finds " << got.size() << " chains of " << want.size());
        for (size_t i = 0; i < got.size(); ++i)
            CHECK(got[i] == want[i], "chain " << i << " starts at " << text(got[i]) << " instead of " << text(want[i]));
    }
}

FACET(copy_from_any_op, 150000, 1500000) {
    Ops ops = gen_runs(g);
    string s = gen_compressed(g, ops);
    TextFrame f{s};
    size_t from = g.below(ops.size()), n = 1 + g.below(ops.size() - from);
    g.note("copy from op " + std::to_string(from) + ", " + std::to_string(n) + " ops");
    if (from) g.cls("starts inside");
    auto c = f.cursor();
    for (size_t i = 0; i <= from; ++i) CHECK((bool)c.Next(), "op " << i << " is not read");
    Ops want(ops.begin() + from, ops.begin() + from + n);
    TextFrame::Builder b;
    int how = (int)g.below(3);
    if (how == 2) {  // all the rest
        want.assign(ops.begin() + from, ops.end());
        Cursor mid = c;
        ron::AppendAll<TextFrame>(b, mid);
    } else {
        for (size_t i = 0; i < n; ++i) {
            Cursor mid = c;
            if (how == 0) b.AppendOp(g.coin() ? mid : c);
            else b.AppendOp(ron::Op::Amend(mid.id(), mid.ref(), mid));
            if (c.term() != ron::REDUCED) b.EndChunk(c.term());
            if (i + 1 < n) CHECK((bool)c.Next(), "op " << from + i + 1 << " is not read");
        }
        if (want.back().term == 1) want.back().term = 0;
    }
    TextFrame r = b.Release();
    g.note("copy: " + pbt::esc(r.data()));
    Ops got = must_read(r, "a part of a span");
    CHECK(same(got, want), "a part of a span is copied wrong: " << diff(got, want) << "; copy [" << pbt::esc(r.data()) << "]");
    CHECK(terms_ok(got, want), "a part of a span has other chunk ends");
}

FACET(continue_from_another, 150000, 1500000) {
    // one run cut into pieces held by different frames, in different layouts
    Ops ops = gen_runs(g);
    TextFrame::Builder b;
    string note;
    bool any = false, respelled = false;
    for (size_t i = 0; i < ops.size();) {
        size_t n = 1 + g.below(ops.size() - i);
        Ops piece(ops.begin() + i, ops.begin() + i + n);
        Ops held = piece;
        size_t lead = 0;
        if (i && g.coin()) {  // the frame holds earlier ops as well
            lead = 1 + g.below(i);
            held.assign(ops.begin() + (i - lead), ops.begin() + i + n);
        }
        if (held.back().term == 1) held.back().term = 0;
        Layout l{g.coin() ? &g : nullptr};
        bool own = g.coin();
        string s = own ? build(held).data() : write_doc(l, held, true);
        if (has_span(s)) any = true;
        note += "piece: " + pbt::esc(s) + "\n";
        TextFrame f{s};
        auto c = f.cursor();
        for (size_t k = 0; k < lead; ++k) c.Next();
        int how = (int)g.below(3);
        if (!own && how == 0) respelled = true;
        for (size_t k = 0; k < n; ++k) {
            CHECK((bool)c.Next(), "a piece ends early: " << pbt::esc(s));
            if (how == 0)
                b.AppendOp(c);
            else if (how == 1)
                b.AppendOp(ron::Op::Amend(c.id(), c.ref(), c));
            else
                b.AppendOp(nominal(piece[k]));
            if (piece[k].term != 1) b.EndChunk((ron::TERM)piece[k].term);
        }
        i += n;
    }
    TextFrame r = b.Release();
    g.note(show(ops) + note + "result: " + pbt::esc(r.data()));
    Ops got = must_read(r, "a continued span");
    CHECK(same(got, ops), "a span that is continued from another source differs: " << diff(got, ops) << "; [" << pbt::esc(r.data()) << "]");
    CHECK(terms_ok(got, ops), "a continued span has other chunk ends: got\n" << show(got) << "expected\n" << show(ops));
    // the coding of a run does not depend on where its ops came from
    if (!respelled) CHECK(r.data() == build(ops).data(), "the same run is coded in two ways: [" << pbt::esc(r.data()) << "] and [" << pbt::esc(build(ops).data()) << "]");
    if (any || has_span(r.data())) g.nontrivial();
}

FACET(state_at_any_op, 100000, 1000000) {
    // a log with compressed runs, cut at any op: as the log in full, cut
    Ops ops = gen_runs(g, 24);
    std::set<Uid> ids;
    Ops uniq;
    for (auto& o : ops)
        if (ids.insert(o.id).second) uniq.push_back(o);
    ops = uniq;
    ops[0].ref = uid(g.one_of<const char*>({"log", "log", "lww", "mx"}));
    ops.back().term = 0;
    string s = gen_compressed(g, ops), p = plain(ops);
    size_t at = g.below(ops.size());
    g.note("cut after op " + std::to_string(at));
    TextFrame a, b;
    ron::Status oka = ron::ObjectLogToState<TextFrame>(a, TextFrame{s}, R(ops[at].id));
    ron::Status okb = ron::ObjectLogToState<TextFrame>(b, TextFrame{p}, R(ops[at].id));
    CHECK(oka == okb, "the state of a compressed log is " << oka.str() << ", of the same log in full " << okb.str());
    if (!oka) {
        g.cls("no state");
        return;
    }
    Ops ga = must_read(a, "a state"), gb = must_read(b, "a state");
    CHECK(same(ga, gb), "the state of a compressed log differs: " << diff(ga, gb));
    CHECK(terms_ok(ga, gb), "the state of a compressed log has other chunk ends");
    CHECK(ga.size() == at + 1, "the state as of op " << at << " has " << ga.size() << " ops");
    Ops all = must_read(TextFrame{s}, "a log");
    CHECK(all.size() == ops.size(), "a log loses ops");
}

FACET(huge, 2500, 25000) {
    // a repeat count of any size; the first ops, and exact ends for the smaller
    uint64_t n = g.one_of<uint64_t>({2, 100, 1000, 65535, 65536, 65537, 100000, 1000000, 107374182, 1073741829});
    if (g.coin()) n = 1 + g.below(3000);
    Op o;
    o.id = gen_event(g);
    o.id.value &= ~((1ULL << 31) - 1);
    o.ref = gen_event(g);
    if (g.coin()) o.vals.push_back(gen_val(g));
    if (g.chance(1, 4)) o.vals.push_back(gen_val(g));
    Layout l;
    string s = "@" + text(o.id) + " :" + text(o.ref) + vals_text(l, o.vals, true) + " (" + std::to_string(n) + ");";
    bool tail = g.coin();
    if (tail) s += " 'tail';";
    g.note("[" + pbt::esc(s) + "]");
    g.nontrivial();
    TextFrame f{s};
    auto c = f.cursor();
    size_t lim = n > 70000 ? 2000 : n;
    for (size_t i = 0; i < lim; ++i) {
        CHECK((bool)c.Next(), "a span of " << n << " ops ends after " << i);
        CHECK(M(c.id()) == o.id.inc(i), "op " << i << " of a span has the id " << c.id().str());
        CHECK(M(c.ref()) == (i ? o.id.inc(i - 1) : o.ref), "op " << i << " of a span refers to " << c.ref().str());
        if (i < 5 || i + 5 > lim) {
            Op got = read_op(c);
            CHECK(got.vals == o.vals, "op " << i << " of a span reads " << show(got));
            CHECK(c.term() == (i + 1 == n ? ron::RAW : ron::REDUCED), "op " << i << " of " << n << " in a span has the term " << (int)c.term());
        }
    }
    if (lim < n) return;
    if (tail) {
        CHECK((bool)c.Next(), "the op after a span is not read");
        CHECK(M(c.id()) == o.id.inc(n), "the op after a span has the id " << c.id().str());
        CHECK(M(c.ref()) == o.id.inc(n - 1), "the op after a span refers to " << c.ref().str());
        CHECK(ron::GetString(c) == "tail", "the op after a span lost its value");
    }
    CHECK(c.Next() == ron::Status::ENDOFFRAME, "a span does not end");
}

FACET(huge_built, 600, 6000) {
    // a run of any length, built op by op; some of it may come from a cursor
    uint64_t n = g.one_of<uint64_t>({9, 10, 99, 100, 255, 256, 999, 1000, 4095, 4096, 9999, 10000});
    if (g.chance(1, 4)) n = 1 + g.below(20000);
    if (g.chance(1, 12)) n = g.one_of<uint64_t>({32767, 32768, 65535, 65536, 65537, 99999, 100000, 131072});
    Op o;
    o.id = gen_event(g);
    o.id.value &= ~((1ULL << 31) - 1);
    if (g.coin()) o.id.value |= g.below(1 << 30);
    o.ref = gen_event(g);
    bool text_run = g.chance(1, 3);
    if (text_run) o.vals.push_back(Val::S(U32(1, gen_cp(g))));
    else if (g.chance(7, 8)) o.vals.push_back(Val::U(uid(g.one_of<const char*>({"rm", "un", "A+B", "123"}))));
    uint64_t tail = g.coin() ? g.below(3) : 0;
    g.note(std::to_string(n) + " ops from " + show(o));
    auto nth = [&](uint64_t i) {
        Op x = o;
        x.id = o.id.inc(i);
        if (i) x.ref = o.id.inc(i - 1);
        if (text_run) x.vals[0].s[0] = i % 97 ? 'a' + i % 26 : o.vals[0].s[0];
        return x;
    };
    TextFrame::Builder b;
    for (uint64_t i = 0; i < n; ++i) b.AppendOp(nominal(nth(i)));
    for (uint64_t i = 0; i < tail; ++i) {
        Op x = nth(n + i);
        x.vals = {Val::I((int64_t)i)};
        b.AppendOp(nominal(x));
    }
    TextFrame f = b.Release();
    if (has_span(f.data())) g.nontrivial();
    if (g.coin()) {  // once more, from what is read
        g.cls("copied");
        TextFrame::Builder again;
        ron::AppendFrame<TextFrame>(again, f);
        TextFrame r = again.Release();
        CHECK(r.data() == f.data(), "a copy of a long run is coded in another way");
    }
    auto c = f.cursor();
    for (uint64_t i = 0; i < n + tail; ++i) {
        CHECK((bool)c.Next(), "a run of " << n << " ops and " << tail << " more ends after " << i);
        Op x = nth(i);
        CHECK(M(c.id()) == x.id, "op " << i << " of a run has the id " << c.id().str() << ", expected " << text(x.id));
        CHECK(M(c.ref()) == x.ref, "op " << i << " of a run refers to " << c.ref().str());
        if (i >= n) x.vals = {Val::I((int64_t)(i - n))};
        Op got = read_op(c);
        CHECK(got.vals == x.vals, "op " << i << " of " << n << " in a run reads " << show(got) << ", written " << show(x));
        CHECK(c.term() == (i + 1 == n + tail ? ron::RAW : ron::REDUCED), "op " << i << " of a run has the term " << (int)c.term());
    }
    CHECK(c.Next() == ron::Status::ENDOFFRAME, "a run does not end");
}
