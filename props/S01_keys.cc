// USES: key
// FUZZ: yes
#include "db/const.hpp"
#include "db/key.hpp"
#include "lib/bridge.hpp"
using namespace model;

PROPERTY("S01",
         "pairs of (event id, type code) that are equal, close or unrelated, as keys: parts given back, order of "
         "keys and of stored bytes against the order of (type, yarn, time), all type codes; the tables of type "
         "and map names against the names themselves, near misses included; non-trivial: two different pairs, or "
         "a name next to a known one",
         "an id is kept by its time and yarn; its version and variety are not part of a key");

static const char* NAMES[] = {"zero", "yarn", "log", "tail", "patch", "span", "chain", "graph", "meta", "prev",
                              "obj",  "sha3", "vv",  "lww",  "rga",   "mx",   "json",  "csv",   "txt",  "max"};
static const char* MAPS[] = {"chain", "meta", "op", "yarn", "sha2", "prev", "head", "obj", "csv", "txt", "json"};

struct K {
    Uid id;
    int form;
    string str() const { return "@" + text(id) + " type " + std::to_string(form); }
};
static K gen_k(pbt::Gen& g) {
    K k;
    k.id = g.coin() ? gen_event(g) : gen_uid(g);
    k.form = g.chance(1, 3) ? (int)g.below(256) : (int)g.below(20);
    return k;
}
static Uid kept(const Uid& u) { return Uid{u.value & PAY, (u.origin & PAY) | V_TIME}; }
static int cmp(const K& a, const K& b) {
    if (a.form != b.form) return a.form < b.form ? -1 : 1;
    Uid x = kept(a.id), y = kept(b.id);
    if (x.origin != y.origin) return x.origin < y.origin ? -1 : 1;
    return x.value == y.value ? 0 : x.value < y.value ? -1 : 1;
}

FACET(keys, 2000000, 20000000) {
    K a = gen_k(g), b = gen_k(g);
    switch (g.below(6)) {
        case 0:
            b.id = a.id;
            break;
        case 1:
            b.form = a.form;
            b.id.origin = a.id.origin;
            break;
        case 2:
            b = a;
            b.id.value ^= 1ULL << g.below(60);
            break;
        case 3:
            b = a;
            b.id.origin ^= 1ULL << g.below(60);
            break;
        case 4:
            b = a;
            b.form ^= 1 << g.below(8);
            break;
        default:
            break;
    }
    g.note(a.str() + " and " + b.str());
    int c = cmp(a, b);
    if (c) g.nontrivial();
    ron::Key x{R(a.id), (ron::FORM)a.form}, y{R(b.id), (ron::FORM)b.form};
    CHECK(x.form() == a.form, "the type of " << a.str() << " comes back as " << (int)x.form());
    CHECK(M(x.id()) == kept(a.id), "the id of " << a.str() << " comes back as " << text(M(x.id())));
    for (int flags = 0; flags < 4; ++flags) {
        Uid want = kept(a.id);
        want.origin = (want.origin & PAY) | (uint64_t)flags << 60;
        CHECK(M(x.id((enum ron::UUID)flags)) == want, "the id of version " << flags << " comes back as " << text(M(x.id((enum ron::UUID)flags))));
    }
    CHECK((x == y) == (c == 0), "keys are equal: " << (x == y));
    CHECK((x != y) == (c != 0), "keys are not equal: " << (x != y));
    CHECK((x < y) == (c < 0), "keys are ordered otherwise than their parts");
    CHECK((x > y) == (c > 0), "keys are ordered otherwise than their parts");
    auto bx = x.be(), by = y.be();
    static_assert(sizeof bx == ron::Key::SIZE && sizeof bx == 16, "a key takes 16 bytes");
    int m = memcmp(&bx, &by, sizeof bx);
    CHECK((m < 0) == (c < 0) && (m > 0) == (c > 0), "stored bytes are ordered otherwise than the keys");
    // the stored bytes anywhere in memory
    char buf[32];
    memcpy(buf + 8, &bx, sizeof bx);
    ron::Key z = ron::Key::be(ron::Slice{buf + 8, sizeof bx});
    CHECK(z == x && z.form() == x.form() && z.id() == x.id(), "a stored key reads as another one");
    CHECK(!(ron::Key::END < x), "a key is past the end of keys");
    CHECK(!(x < ron::Key::ZERO), "a key is before the zero key");
    // by the name of the type
    if (a.form < 20) {
        ron::Key n{R(a.id), R(uid(NAMES[a.form]))};
        CHECK(n == x, "a key made with the name of the type is another one");
        CHECK(x.str() == "*" + string(NAMES[a.form]) + "#" + text(kept(a.id)), "the text of a key is " << x.str());
    }
}

static Uid near_name(pbt::Gen& g, const char* const* names, size_t n) {
    Uid u = uid(names[g.below(n)]);
    switch (g.below(6)) {
        case 0: u.value ^= 1ULL << g.below(64); break;
        case 1: u.origin ^= 1ULL << g.below(62); break;
        case 2: u.value += 1; break;
        case 3: u.origin = g.one_of<uint64_t>({V_HASH, V_TIME, V_DERIVED, PAY}); break;
        case 4: return gen_uid(g);
        default: break;
    }
    return u;
}
FACET(names, 500000, 2000000) {
    size_t i = g.below(20);
    ron::FORM f = (ron::FORM)i;
    CHECK(M(ron::form2uuid(f)) == uid(NAMES[i]), "type " << i << " is named " << text(M(ron::form2uuid(f))) << ", expected " << NAMES[i]);
    CHECK(ron::uuid2form(R(uid(NAMES[i]))) == f, NAMES[i] << " is type " << (int)ron::uuid2form(R(uid(NAMES[i]))) << ", expected " << i);
    int any = (int)g.below(256);
    if (any >= 20) CHECK(ron::form2uuid((ron::FORM)any) == ron::Uuid::FATAL, "unknown type " << any << " has a name: " << ron::form2uuid((ron::FORM)any).str());
    Uid u = near_name(g, NAMES, 20);
    g.note(text(u));
    int want = 0;
    bool known = false;
    for (int k = 0; k < 20; ++k)
        if (u == uid(NAMES[k])) {
            want = k;
            known = true;
        }
    if (!known) g.nontrivial();
    if (u != M(ron::Uuid::FATAL))
        CHECK(ron::uuid2form(R(u)) == want, text(u) << " is type " << (int)ron::uuid2form(R(u)) << ", expected " << want);
    else
        CHECK(ron::uuid2form(R(u)) == ron::ERROR_NO_FORM, "the error id is a type");
    // maps
    size_t m = g.below(11);
    CHECK(M(ron::map2uuid((ron::MAP)m)) == uid(MAPS[m]), "map " << m << " is named " << text(M(ron::map2uuid((ron::MAP)m))));
    Uid v = near_name(g, MAPS, 11);
    size_t wm = ron::MAP_COUNT;
    for (size_t k = 0; k < 11; ++k)
        if (v == uid(MAPS[k])) wm = k;
    CHECK(ron::uuid2map(R(v)) == wm, text(v) << " is map " << (int)ron::uuid2map(R(v)) << ", expected " << wm);
    CHECK(ron::map2uuid(ron::MAP_COUNT) == ron::Uuid::FATAL, "there is a map past the last one");
}
