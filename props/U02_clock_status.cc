// FUZZ: yes
#include "lib/bridge.hpp"
using namespace model;

PROPERTY("U02",
         "pairs of moments from 2010 to 2100 (month and year ends, leap days, fractions of a second), in several time zones, against the "
         "calendar encoding computed independently, ordered as the moments are; every status against the table "
         "of codes, with generated comments and codes read back from text; non-trivial: two different moments, "
         "or a status with a comment",
         "the system clock is not set back during the check");

/** days since 1970 of a date, by counting */
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static const int MDAYS[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static int mdays(int y, int m) { return MDAYS[m] + (m == 1 && leap(y)); }
struct Moment {
    int y, mon, d, h, mi, s;
    long ns;
    int64_t secs() const {
        int64_t days = 0;
        for (int k = 1970; k < y; ++k) days += leap(k) ? 366 : 365;
        for (int k = 0; k < mon; ++k) days += mdays(y, k);
        days += d;
        return ((days * 24 + h) * 60 + mi) * 60 + s;
    }
    uint64_t code() const {
        uint64_t r = (uint64_t)(y - 2010) * 12 + mon;
        r = r << 6 | (uint64_t)d;
        r = r << 6 | (uint64_t)h;
        r = r << 6 | (uint64_t)mi;
        r = r << 6 | (uint64_t)s;
        return r << 24 | (uint64_t)(ns / 100);
    }
    string str() const {
        char b[80];
        snprintf(b, 80, "%d-%02d-%02d %02d:%02d:%02d.%09ld", y, mon + 1, d + 1, h, mi, s, ns);
        return b;
    }
};
static Moment gen_moment(pbt::Gen& g) {
    Moment m;
    m.y = 2010 + (int)g.below(91);
    m.mon = (int)g.below(12);
    int dm = mdays(m.y, m.mon);
    m.d = g.chance(1, 3) ? g.one_of<int>({0, dm - 1}) : (int)g.below(dm);
    m.h = g.chance(1, 3) ? g.one_of<int>({0, 23}) : (int)g.below(24);
    m.mi = g.chance(1, 3) ? g.one_of<int>({0, 59}) : (int)g.below(60);
    m.s = g.chance(1, 3) ? g.one_of<int>({0, 59}) : (int)g.below(60);
    m.ns = g.chance(1, 3) ? g.one_of<long>({0, 1, 99, 100, 101, 999999999, 999999900}) : (long)g.below(1000000000);
    return m;
}

/** the place of the process must not matter */
static const char* const ZONES[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "XXX-14", "YYY12",
                                    "NPT-5:45", "<-03>3<-02>,M10.3.0/0,M2.3.0/0"};
static void be_in(const char* zone) {
    static const char* now = nullptr;
    if (now == zone) return;
    setenv("TZ", now = zone, 1);
    tzset();
}

FACET(clock, 1000000, 10000000) {
    Moment a = gen_moment(g), b = gen_moment(g);
    switch (g.below(4)) {
        case 0:
            b = a;
            b.ns = gen_moment(g).ns;
            break;
        case 1:
            b = a;
            b.s = gen_moment(g).s;
            b.ns = gen_moment(g).ns;
            break;
        case 2:
            b.y = a.y;
            b.d = std::min(b.d, mdays(b.y, b.mon) - 1);
            break;
        default:
            break;
    }
    const char* zone = ZONES[g.below(sizeof ZONES / sizeof *ZONES)];
    be_in(zone);
    g.note(a.str() + " and " + b.str() + ", in zone " + zone);
    uint64_t x = ron::Uuid::HybridTime((time_t)a.secs(), a.ns).as_u64;
    uint64_t y = ron::Uuid::HybridTime((time_t)b.secs(), b.ns).as_u64;
    CHECK(x <= PAY, "the clock value does not fit in an id");
    CHECK(x == a.code(), "the clock value of " << a.str() << " is " << word_text(x, false) << ", expected " << word_text(a.code(), false));
    CHECK(y == b.code(), "the clock value of " << b.str() << " is " << word_text(y, false) << ", expected " << word_text(b.code(), false));
    auto when = [](const Moment& m) { return std::make_pair(m.secs(), m.ns / 100); };
    CHECK((when(a) < when(b)) == (x < y), "moments and clock values are ordered differently");
    if (when(a) != when(b)) g.nontrivial();
}

FACET(now, 20000, 100000) {
    // the present, read again and again
    const char* zone = ZONES[g.below(sizeof ZONES / sizeof *ZONES)];
    be_in(zone);
    g.note(zone);
    time_t t0 = time(nullptr);
    uint64_t last = 0;
    size_t n = 1 + g.below(50);
    for (size_t i = 0; i < n; ++i) {
        uint64_t w = ron::Uuid::Now().as_u64;
        CHECK(w >= last, "the clock goes back");
        last = w;
    }
    time_t t1 = time(nullptr);
    CHECK(last >= ron::Uuid::HybridTime(t0 - 1).as_u64 && last <= ron::Uuid::HybridTime(t1 + 1).as_u64,
          "the present is not between the moments before and after");
    // and told to be the present, in universal time
    struct tm tm;
    gmtime_r(&t0, &tm);
    auto months = [](const struct tm& t) { return (uint64_t)(t.tm_year - 110) * 12 + t.tm_mon; };
    struct tm tm1;
    gmtime_r(&t1, &tm1);
    auto hour = [&](const struct tm& t) { return (months(t) << 6 | (uint64_t)(t.tm_mday - 1)) << 6 | (uint64_t)t.tm_hour; };
    CHECK((last >> 36) >= hour(tm) && (last >> 36) <= hour(tm1), "the present is not the hour of universal time");
    CHECK((last & ((1 << 24) - 1)) < 10000000, "the fraction of a second is a second or more");
    g.nontrivial();
}

struct Named {
    const char* text;
    const ron::Status* st;
};
static const vector<Named>& named() {
    using S = ron::Status;
    static const vector<Named> v = {
        {"ENDOFFRAME", &S::ENDOFFRAME}, {"ENDOFINPUT", &S::ENDOFINPUT}, {"NOTIMPLTED", &S::NOT_IMPLEMENTED},
        {"NotFound", &S::NOT_FOUND},    {"BAD_STATE", &S::BAD_STATE},   {"BADARGS", &S::BADARGS},
        {"BADSYNTAX", &S::BADSYNTAX},   {"DB_FAIL", &S::DB_FAIL},       {"IOFAIL", &S::IOFAIL},
        {"BADFRAME", &S::BADFRAME},     {"BADID", &S::BADID},           {"BADREF", &S::BADREF},
        {"BADVALUE", &S::BADVALUE},     {"NOTYPE", &S::NOTYPE},         {"NOTOPEN", &S::NOTOPEN},
        {"CHAINBREAK", &S::CHAINBREAK}, {"HASHBREAK", &S::HASHBREAK},   {"TREEBREAK", &S::TREEBREAK},
        {"CAUSEBREAK", &S::CAUSEBREAK}, {"TREEGAP", &S::TREEGAP},       {"YARNGAP", &S::YARNGAP},
        {"REPEAT", &S::REPEAT},         {"REORDER", &S::REORDER},       {"CONFLICT", &S::CONFLICT}};
    return v;
}

FACET(statuses, 300000, 1500000) {
    auto& v = named();
    size_t i = g.below(v.size() + 1), j = g.below(v.size() + 1);
    const ron::Status& a = i ? *v[i - 1].st : ron::Status::OK;
    const ron::Status& b = j ? *v[j - 1].st : ron::Status::OK;
    string name = i ? v[i - 1].text : "0";
    g.note(name);
    CHECK((bool)a == (i == 0), name << " is " << (i == 0 ? "an error" : "no error"));
    CHECK((a == b) == (i == j), name << " and status " << j << " compare wrong");
    CHECK((a != b) == (i != j), name << " and status " << j << " compare wrong");
    Uid code = i ? Uid{word_val(name), PAY} : Uid{};
    CHECK(M(a.code()) == code, "the code of " << name << " is " << text(M(a.code())));
    CHECK(ron::Uuid{a.code().str()} == a.code(), "the code of " << name << " does not read back");
    CHECK(a.str() == name + "\t", "the text of " << name << " is [" << pbt::esc(a.str()) << "]");
    string comment = utf8(gen_str(g, 10));
    ron::Status c = a.comment(comment);
    CHECK(c == a && c.code() == a.code() && (bool)c == (bool)a, "a comment changes the code of " << name);
    CHECK(c.comment() == comment, "the comment is [" << pbt::esc(c.comment()) << "] expected [" << pbt::esc(comment) << "]");
    CHECK(c.str() == name + "\t" + comment, "the text with a comment is [" << pbt::esc(c.str()) << "]");
    CHECK(a.comment().empty(), "a comment sticks to the status itself");
    if (!comment.empty()) g.nontrivial();
    // through an op, as it is sent
    Op o;
    o.id = gen_event(g);
    o.ref = code;
    o.vals.push_back(Val::S(gen_str(g, 4)));
    auto f = build({o});
    auto cur = f.cursor();
    CHECK(cur.Next(), "an op with a status does not read");
    CHECK(ron::Status{cur.ref()} == a, "a status sent as a reference reads as " << ron::Status{cur.ref()}.str());
    CHECK((bool)ron::Status{cur.ref()} == (bool)a, "a status sent as a reference changes its meaning");
    // any other id is no error, unless its origin says so
    Uid u = gen_uid(g);
    CHECK((bool)ron::Status{R(u)} == (u.origin != PAY), "the status of id " << text(u) << " is " << (bool)ron::Status{R(u)});
    // two are the same just if their ids are, comments aside
    Uid x = g.coin() ? u : code, y = x;
    switch (g.below(5)) {
        case 0: y.origin = g.one_of<uint64_t>({0, PAY, u.origin, gen_uid(g).origin}); break;
        case 1: y.value = g.coin() ? u.value : gen_uid(g).value; break;
        case 2: y = u; break;
        case 3: y = gen_uid(g); break;
        default: break;
    }
    ron::Status p = g.coin() ? ron::Status{R(x), comment} : ron::Status{R(x)}, q{R(y)};
    CHECK(M(p.code()) == x && M(ron::Uuid(p)) == x, "the status of id " << text(x) << " is " << text(M(p.code())));
    CHECK((p == q) == (x == y), "statuses " << text(x) << " and " << text(y) << " compare " << (p == q ? "equal" : "different"));
    CHECK((p != q) == !(x == y), "statuses " << text(x) << " and " << text(y) << " compare wrong");
}
