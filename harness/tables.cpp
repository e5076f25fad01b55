// Replays behaviours of spec/NumberTable.tla, WorkPool.tla, ResultCache.tla and NodeStore.tla on the real tables.
//   tables --progress F --fresh 1 --table NAME PROGRAM
#include "common.hpp"

#include <limits>

static std::size_t steps = 0, hitsSeen = 0;
static std::string T_;

struct Machine {
    virtual ~Machine()             = default;
    virtual void begin(const Op&)  = 0;
    virtual void step(const Op& o) = 0;
};
[[noreturn]] static void bad(const Op& o) {
    fprintf(stderr, "unknown operation %s\n", o.k.c_str());
    exit(9);
}

// ---------------------------------------------------------------- numbers
template<std::size_t NB, std::size_t ALLOC>
static double baseOf(int b, std::size_t mask) {
    const auto m = static_cast<double>(mask);
    switch (b) {
        case 0: return 0.;
        case 1: return 1.;
        case 2: return dd::SQRT2_2;
        case 3: return 0.5;
        case 4: return (3. + 0.5) / m;                     // exactly between two buckets
        case 5: return (std::floor(m / 3) + 0.5) / m;      // another border
        case 6: return (std::floor(m * 0.9) + 0.5) / m;    // and another
        case 7: return (5.) / m;                           // the middle of a bucket
        case 8: return (m - 0.5) / m;                      // the border of the last bucket
        case 9: return 1.25;                               // above one: the last bucket
        case 10: return 5.5;
        case 11: return 0.3;
        default: return 100.;
    }
}
template<class Table, std::size_t MASK>
struct Numbers: Machine {
    using E = typename Table::Entry;
    std::unique_ptr<Table>               t;
    std::map<std::pair<int, int>, E*>    at;
    double                               unit = 0;
    static double value(int b, int o, double unit) { return baseOf<1, 1>(b, MASK) + o * unit; }
    std::map<std::pair<int, int>, bool>  dummy;
    void begin(const Op& o) override {
        at.clear();
        t    = std::make_unique<Table>();
        unit = Table::tolerance() / o.n;
        at[{3, 0}] = t->lookup(0.5);
        count(1, "a new table");
    }
    void count(int n, const std::string& what) {
        if (t->getCount() != static_cast<std::size_t>(n)) { fail("count", what + ": " + std::to_string(t->getCount()) + " numbers are stored instead of " + std::to_string(n)); }
    }
    void step(const Op& o) override {
        const auto room = t->getAllocations(), used = t->getCount();
        step2(o);
        if (t->getAllocations() > room && std::max(used, t->getCount()) + 2 < room) { fail("memory", o.k + ": new memory is allocated while most of the " + std::to_string(room) + " entries are not in use"); }
    }
    void step2(const Op& o) {
        const int  b = o.p.empty() ? 0 : o.p[0], f = o.p.empty() ? 0 : o.p[1];
        const auto x = value(b, f, unit);
        const auto what = o.k + " " + S(x) + " (base " + std::to_string(b) + ", offset " + std::to_string(f) + ")";
        if (o.k == "look") {
            auto* e = t->lookup(x);
            answer(e, x, o, what);
        } else if (o.k == "ref" || o.k == "unref") {
            auto* e = at.at({b, f});
            auto* s = o.a ? E::getNegativePointer(e) : e;
            if (o.k == "ref") { Table::incRef(s); } else { Table::decRef(s); }
            const auto want = o.n >= 1000000 ? std::numeric_limits<dd::RefCount>::max() : static_cast<dd::RefCount>(o.n);
            if (e->refCount != want) { fail("refcount", what + ": count " + std::to_string(e->refCount) + " instead of " + std::to_string(want)); }
            if (E::ref(E::getNegativePointer(e)) != want || E::ref(e) != want) { fail("refcount", what + ": the count read through the negated number differs"); }
        } else if (o.k == "badunref") {
            auto* e = at.at({b, f});
            bool  thrown = false;
            try {
                Table::decRef(o.a ? E::getNegativePointer(e) : e);
            } catch (const std::runtime_error&) { thrown = true; }
            if (!thrown) { fail("refcount", what + ": releasing a number that is not referenced is not reported"); }
            if (e->refCount != 0) { fail("refcount", what + ": the failed release changed the count"); }
        } else if (o.k == "sat") {
            auto* e     = at.at({b, f});
            e->refCount = std::numeric_limits<dd::RefCount>::max() - 1;
            Table::incRef(e);
            Table::incRef(e);
            Table::decRef(e);
            Table::decRef(e);
            if (e->refCount != std::numeric_limits<dd::RefCount>::max()) { fail("refcount", what + ": a saturated count does not stick"); }
        } else if (o.k == "reffixed") {
            E* e = b == 0 ? &Table::zero : b == 1 ? &Table::one : &Table::sqrt2_2;
            const auto before = e->refCount;
            Table::incRef(e);
            Table::incRef(E::getNegativePointer(e));
            Table::decRef(e);
            Table::decRef(e);
            Table::decRef(e);
            if (e->refCount != before) { fail("refcount", what + ": the count of a fixed number changed"); }
        } else if (o.k == "gc") {
            const auto n = t->garbageCollect(true);
            if (n != static_cast<std::size_t>(o.z)) { fail("collect", "collection of " + std::to_string(o.z) + " numbers reports " + std::to_string(n)); }
            gone(o);
            count(o.n, "after a collection");
        } else if (o.k == "agc") {
            const auto n = t->garbageCollect(false);
            if (n != 0 && n != static_cast<std::size_t>(o.z)) { fail("collect", "collection of " + std::to_string(o.z) + " numbers reports " + std::to_string(n)); }
            const auto m = t->garbageCollect(true);
            if (n + m != static_cast<std::size_t>(o.z)) { fail("collect", "collections of " + std::to_string(o.z) + " numbers report " + std::to_string(n) + " and " + std::to_string(m)); }
            gone(o);
            count(o.n, "after a collection");
        } else if (o.k == "clear") {
            t->clear();
            at.clear();
            count(1, "after clearing");
            at[{3, 0}] = t->lookup(0.5);
            if (at[{3, 0}]->refCount == 0) { fail("refcount", "1/2 is not referenced after clearing"); }
            count(1, "after clearing");
        } else {
            bad(o);
        }
    }
    void gone(const Op& o) {
        for (std::size_t i = 0; i + 1 < o.q.size(); i += 2) { at.erase({o.q[i], o.q[i + 1]}); }
        for (auto& [key, e]: at) {
            if (e->value != value(key.first, key.second, unit)) { fail("collect", "a stored number changed to " + S(e->value)); }
        }
    }
    void answer(E* e, double x, const Op& o, const std::string& what) {
        if (e == nullptr) { fail("lookup", what + ": no answer"); }
        if (E::isNegativePointer(e)) { fail("lookup", what + ": negative answer"); }
        bool ok = false;
        for (std::size_t i = 0; i + 1 < o.q.size() && !ok; i += 2) {
            const int cb = o.q[i], cf = o.q[i + 1];
            if (cf == 0 && cb < 3) {
                ok = e == (cb == 0 ? &Table::zero : cb == 1 ? &Table::one : &Table::sqrt2_2);
            } else if (o.z == 1) {
                ok = e->value == x;
                for (auto& [key, a]: at) {
                    if (a == e) { fail("lookup", what + ": the place of another stored number was given away"); }
                }
                if (e == &Table::zero || e == &Table::one || e == &Table::sqrt2_2) { ok = false; }
                if (ok) {
                    if (e->refCount != 0) { fail("refcount", what + ": a new number has count " + std::to_string(e->refCount)); }
                    at[{cb, cf}] = e;
                }
            } else {
                ok = at.at({cb, cf}) == e && e->value == value(cb, cf, unit);
            }
        }
        if (!ok) { fail("lookup", what + " gives " + S(e->value) + (o.z == 1 ? " although nothing that near is stored" : " which is not the stored number")); }
        count(o.n, "after " + what);
    }
};
// the same through ComplexNumbers, with signs, as real or as imaginary part
struct ComplexNums: Machine {
    using Table = dd::ComplexTable<>;
    using E     = Table::Entry;
    static constexpr std::size_t MASK = Table::MASK;
    std::unique_ptr<dd::ComplexNumbers> cn;
    std::map<std::pair<int, int>, E*>   at;
    double                              unit = 0;
    void begin(const Op& o) override {
        at.clear();
        cn   = std::make_unique<dd::ComplexNumbers>();
        unit = Table::tolerance() / o.n;
        at[{3, 0}] = cn->lookup(0.5, 0.).r;
        if (E::ref(at[{3, 0}]) != 1) { fail("refcount", "1/2 is not referenced in a new table"); }
    }
    void step(const Op& o) override {
        const int  b = o.p.empty() ? 0 : o.p[0], f = o.p.empty() ? 0 : o.p[1];
        const auto ax = baseOf<1, 1>(b, MASK) + f * unit;
        const auto x = o.a ? -ax : ax;
        const auto what = o.k + " " + S(x) + " (base " + std::to_string(b) + ", offset " + std::to_string(f) + ")" + (o.b ? " imaginary" : " real");
        if (o.k == "look") {
            const auto c = o.b ? cn->lookup(0., x) : cn->lookup(x, 0.);
            auto*      e = o.b ? c.i : c.r;
            if ((o.b ? c.r : c.i) != &Table::zero) { fail("lookup", what + ": the other part is not the number zero"); }
            const auto other = o.b ? cn->lookup(0., -x) : cn->lookup(-x, 0.);
            auto*      m     = o.b ? other.i : other.r;
            const auto third = o.b ? cn->lookup(std::complex<double>(0., x)) : cn->lookup(dd::ComplexValue{x, 0.});
            if (third != c) { fail("lookup", what + ": the overloads disagree"); }
            if (m != E::flipPointerSign(e)) { fail("lookup", what + ": looking up the negated number gives " + S(E::val(m)) + ", the number itself " + S(E::val(e))); }
            const bool neg = E::isNegativePointer(e);
            auto*      p   = E::getAlignedPointer(e);
            if (p == &Table::zero ? neg : neg != (o.a != 0)) { fail("lookup", what + ": wrong sign " + S(E::val(e))); }
            bool ok = false;
            for (std::size_t i = 0; i + 1 < o.q.size() && !ok; i += 2) {
                const int cb = o.q[i], cf = o.q[i + 1];
                if (cf == 0 && cb < 3) {
                    ok = p == (cb == 0 ? &Table::zero : cb == 1 ? &Table::one : &Table::sqrt2_2);
                } else if (o.z == 1) {
                    ok = p->value == ax && p != &Table::zero && p != &Table::one && p != &Table::sqrt2_2;
                    if (ok) { at[{cb, cf}] = p; }
                } else {
                    ok = at.at({cb, cf}) == p;
                }
            }
            if (!ok) { fail("lookup", what + " gives " + S(E::val(e)) + (o.z == 1 ? " although nothing that near is stored" : " which is not the stored number")); }
            if (cn->complexTable.getCount() != static_cast<std::size_t>(o.n)) { fail("count", what + ": " + std::to_string(cn->complexTable.getCount()) + " numbers instead of " + std::to_string(o.n)); }
        } else if (o.k == "ref" || o.k == "unref" || o.k == "badunref") {
            auto*            e = o.a ? E::getNegativePointer(at.at({b, f})) : at.at({b, f});
            const dd::Complex c{e, &Table::one}, d{&Table::sqrt2_2, e};
            const auto&      y      = o.k == "badunref" || f % 2 ? c : d;
            bool             thrown = false;
            try {
                if (o.k == "ref") { dd::ComplexNumbers::incRef(y); } else { dd::ComplexNumbers::decRef(y); }
            } catch (const std::runtime_error&) { thrown = true; }
            const auto want = o.k == "badunref" ? 0 : o.n >= 1000000 ? std::numeric_limits<dd::RefCount>::max() : static_cast<dd::RefCount>(o.n);
            if (thrown != (o.k == "badunref")) { fail("refcount", what + (thrown ? ": unexpected error" : ": releasing a number that is not referenced is not reported")); }
            if (E::ref(e) != want) { fail("refcount", what + ": count " + std::to_string(E::ref(e)) + " instead of " + std::to_string(want)); }
        } else if (o.k == "sat") {
            at.at({b, f})->refCount = std::numeric_limits<dd::RefCount>::max();
        } else if (o.k == "reffixed") {
            return;
        } else if (o.k == "gc" || o.k == "agc") {
            auto n = o.k == "agc" ? cn->garbageCollect(false) : 0;
            n += cn->garbageCollect(true);
            if (n != static_cast<std::size_t>(o.z)) { fail("collect", "collection of " + std::to_string(o.z) + " numbers reports " + std::to_string(n)); }
            for (std::size_t i = 0; i + 1 < o.q.size(); i += 2) { at.erase({o.q[i], o.q[i + 1]}); }
            for (auto& [key, e]: at) {
                if (e->value != baseOf<1, 1>(key.first, MASK) + key.second * unit) { fail("collect", "a stored number changed to " + S(e->value)); }
            }
        } else if (o.k == "clear") {
            cn->clear();
            at.clear();
            if (cn->complexTable.getCount() != 1) { fail("count", "after clearing " + std::to_string(cn->complexTable.getCount()) + " numbers are stored instead of 1"); }
            at[{3, 0}] = cn->lookup(0.5, 0.).r;
            if (E::ref(at[{3, 0}]) == 0) { fail("refcount", "1/2 is not referenced after clearing"); }
        } else {
            bad(o);
        }
    }
};

// ---------------------------------------------------------------- working numbers
template<class Cache>
struct Pool: Machine {
    std::unique_ptr<Cache>                 t;
    std::map<int, std::pair<dd::Complex, int>> held;
    void begin(const Op&) override {
        held.clear();
        t = std::make_unique<Cache>();
    }
    static void put(dd::Complex& c, int v) {
        c.r->value = v + 0.25;
        c.i->value = -v - 0.5;
    }
    void step(const Op& o) override {
        const auto room = t->getAllocations(), used = t->getCount();
        step2(o);
        if (t->getAllocations() > room && used < room) { fail("pool", o.k + ": new memory is allocated while " + std::to_string(room - used) + " of " + std::to_string(room) + " entries are not in use"); }
    }
    void step2(const Op& o) {
        if (o.k == "get") {
            auto c = t->getCachedComplex();
            check(c, "a number handed out");
            put(c, o.b);
            held[o.a] = {c, o.b};
        } else if (o.k == "temp") {
            auto c = t->getTemporaryComplex();
            check(c, "a temporary number");
            put(c, o.b);
        } else if (o.k == "put") {
            t->returnToCache(held.at(o.a).first);
            held.erase(o.a);
        } else if (o.k == "write") {
            put(held.at(o.a).first, o.b);
            held.at(o.a).second = o.b;
        } else if (o.k == "clear") {
            held.clear();
            t->clear();
        } else {
            bad(o);
        }
        if (t->getCount() != 2 * static_cast<std::size_t>(o.n)) { fail("pool", o.k + ": count " + std::to_string(t->getCount()) + " with " + std::to_string(o.n) + " numbers in use"); }
        for (auto& [i, h]: held) {
            if (dd::CTEntry::val(h.first.r) != h.second + 0.25 || dd::CTEntry::val(h.first.i) != -h.second - 0.5) { fail("pool", o.k + ": a number in use was overwritten"); }
        }
    }
    void check(const dd::Complex& c, const std::string& what) {
        if (c.r == c.i) { fail("pool", what + ": both parts share their memory"); }
        if (c.r == nullptr || c.i == nullptr || dd::CTEntry::isNegativePointer(c.r) || dd::CTEntry::isNegativePointer(c.i)) { fail("pool", what + ": not a plain number"); }
        for (auto& [i, h]: held) {
            for (auto* x: {h.first.r, h.first.i}) {
                if (x == c.r || x == c.i) { fail("pool", what + " shares its memory with one that is in use"); }
            }
        }
        if (c.r->refCount != 0 || c.i->refCount != 0) { fail("pool", what + " has a reference count"); }
    }
};
// the interface the operations use
struct Nums {
    dd::ComplexNumbers cn;
    dd::Complex        getCachedComplex() { return cn.getCached(); }
    dd::Complex        getTemporaryComplex() { return cn.getTemporary(); }
    void               returnToCache(dd::Complex& c) { cn.returnToCache(c); }
    void               clear() { cn.clear(); }
    std::size_t        getCount() const { return cn.cacheCount(); }
    std::size_t        getAllocations() const { return cn.complexCache.getAllocations(); }
};

// ---------------------------------------------------------------- result tables
// operands: two nodes x different weights each
struct Operands {
    dd::ComplexNumbers cn;
    std::vector<dd::vNode> vn{8};
    std::vector<dd::mNode> mn{8};
    std::vector<dd::dNode> dn{8};
    std::vector<dd::Complex> w;
    Operands() {
        w = {cn.lookup(0.25, 0.), cn.lookup(0., 0.25), cn.lookup(-0.25, 0.), cn.lookup(0.25, 1e-9), cn.lookup(0.25 + 1e-9, 0.), cn.lookup(0.25, 0.25), cn.lookup(0., -0.25), cn.lookup(0.25, -0.25)};
    }
    template<class E>
    auto& nodes();
    template<class E>
    E get(int i) {
        E e{};
        set(e, i);
        return e;
    }
    void set(dd::vEdge& e, int i) { e = {&vn[static_cast<std::size_t>(i % 2)], w[static_cast<std::size_t>(i / 2)]}; }
    void set(dd::mEdge& e, int i) { e = {&mn[static_cast<std::size_t>(i % 2)], w[static_cast<std::size_t>(i / 2)]}; }
    void set(dd::dEdge& e, int i) { e = {&dn[static_cast<std::size_t>(i % 2)], w[static_cast<std::size_t>(i / 2)]}; }
    void set(dd::vCachedEdge& e, int i) { e = {&vn[static_cast<std::size_t>(i % 2)], w[static_cast<std::size_t>(i / 2)]}; }
    void set(dd::mCachedEdge& e, int i) { e = {&mn[static_cast<std::size_t>(i % 2)], w[static_cast<std::size_t>(i / 2)]}; }
    void set(dd::dCachedEdge& e, int i) { e = {&dn[static_cast<std::size_t>(i % 2)], w[static_cast<std::size_t>(i / 2)]}; }
};
template<class R>
static bool equal(const R& a, const R& b) { return a.p == b.p && a.w == b.w; }
template<class R>
static void verdict(const Op& o, const R& got, const R* want) {
    if (got.p == nullptr) { return; }
    ++hitsSeen;
    if (want == nullptr) { fail("cache", "lookup of a key that was not stored gives a result; key " + S(o.p)); }
    if (!equal(got, *want)) { fail("cache", "lookup gives another result than the one stored last under this key " + S(o.p)); }
}
static bool exact(const dd::ComplexValue& a, const dd::ComplexValue& b) { return a.r == b.r && a.i == b.i; }
template<>
bool equal(const dd::vCachedEdge& a, const dd::vCachedEdge& b) { return a.p == b.p && exact(a.w, b.w); }
template<>
bool equal(const dd::mCachedEdge& a, const dd::mCachedEdge& b) { return a.p == b.p && exact(a.w, b.w); }
template<>
bool equal(const dd::dCachedEdge& a, const dd::dCachedEdge& b) { return a.p == b.p && exact(a.w, b.w); }

template<class L, class R, class X, std::size_t NB>
struct Binary: Machine, Operands {
    std::unique_ptr<dd::ComputeTable<L, R, X, NB>> t;
    void begin(const Op&) override { t = std::make_unique<dd::ComputeTable<L, R, X, NB>>(); }
    void step(const Op& o) override {
        if (o.k == "ins") {
            t->insert(get<L>(o.p[0]), get<R>(o.p[1]), get<X>(o.a));
        } else if (o.k == "look") {
            const auto want = get<X>(o.a);
            verdict(o, t->lookup(get<L>(o.p[0]), get<R>(o.p[1])), o.a == 0 ? nullptr : &want);
        } else if (o.k == "clear") {
            t->clear();
        } else {
            bad(o);
        }
    }
};
// density matrices: the same node, interpreted differently (flags), and two kinds of results
template<std::size_t NB>
struct Density: Machine, Operands {
    using Table = dd::ComputeTable<dd::dEdge, dd::dEdge, dd::dCachedEdge, NB>;
    std::unique_ptr<Table> t;
    std::vector<dd::dNode> res{32};
    void begin(const Op&) override { t = std::make_unique<Table>(); }
    dd::dCachedEdge result(int v, int u) {
        auto* p  = &res[static_cast<std::size_t>(2 * v + u)];
        p->flags = 0;
        p->setDensityMatrixNodeFlag(u != 0);
        return {p, w[static_cast<std::size_t>(v % 8)]};
    }
    void step(const Op& o) override {
        if (o.k == "clear") {
            t->clear();
            return;
        }
        auto l = get<dd::dEdge>(o.p[0]), r = get<dd::dEdge>(o.p[2]);
        l.p = &dn[static_cast<std::size_t>(o.p[0])];
        r.p = &dn[static_cast<std::size_t>(4 + o.p[2])];
        l.p->flags = static_cast<std::uint8_t>(o.p[1]);
        r.p->flags = static_cast<std::uint8_t>(o.p[3]);
        if (o.k == "ins") {
            t->insert(l, r, result(o.a, o.p[4]));
        } else if (o.k == "look") {
            const auto want = result(o.a, o.p[4]);
            verdict(o, t->lookup(l, r, o.p[4] != 0), o.a == 0 ? nullptr : &want);
        } else {
            bad(o);
        }
        l.p->flags = r.p->flags = 0;
    }
};
template<class E, class X, std::size_t NB>
struct Unary: Machine, Operands {
    std::unique_ptr<dd::UnaryComputeTable<E, X, NB>> t;
    void begin(const Op&) override { t = std::make_unique<dd::UnaryComputeTable<E, X, NB>>(); }
    void step(const Op& o) override {
        if (o.k == "ins") {
            t->insert(get<E>(o.p[0]), get<X>(o.a));
        } else if (o.k == "look") {
            const auto want = get<X>(o.a);
            verdict(o, t->lookup(get<E>(o.p[0])), o.a == 0 ? nullptr : &want);
        } else if (o.k == "clear") {
            t->clear();
        } else {
            bad(o);
        }
    }
};
template<std::size_t NB>
struct Toffoli: Machine, Operands {
    std::unique_ptr<dd::ToffoliTable<dd::mEdge, NB>> t;
    void begin(const Op&) override { t = std::make_unique<dd::ToffoliTable<dd::mEdge, NB>>(); }
    void step(const Op& o) override {
        if (o.k == "clear") {
            t->clear();
            return;
        }
        dd::Controls c;
        for (int i = 0; i < 4; ++i) {
            const int d = o.p[static_cast<std::size_t>(2 + i)];
            if (d != 0) { c.insert(dd::Control{static_cast<dd::Qubit>(5 + i), d == 1 ? dd::Control::Type::pos : dd::Control::Type::neg}); }
        }
        const auto n  = static_cast<dd::QubitCount>(o.p[0] + 6);
        const auto tg = static_cast<dd::Qubit>(o.p[1]);
        if (o.k == "ins") {
            t->insert(n, c, tg, get<dd::mEdge>(o.a));
        } else if (o.k == "look") {
            const auto want = get<dd::mEdge>(o.a);
            verdict(o, t->lookup(n, c, tg), o.a == 0 ? nullptr : &want);
        } else {
            bad(o);
        }
    }
};
struct Stochastic: Machine, Operands {
    using Table = dd::StochasticNoiseOperationTable<dd::mEdge, 9>;
    std::unique_ptr<Table> t;
    std::size_t            nq = 5;
    void begin(const Op&) override {
        nq = 5;
        t  = std::make_unique<Table>(nq);
    }
    void step(const Op& o) override {
        if (o.k == "ins") {
            t->insert(static_cast<std::uint8_t>(o.p[0]), static_cast<dd::Qubit>(o.p[1]), get<dd::mEdge>(o.a));
        } else if (o.k == "look") {
            const auto want = get<dd::mEdge>(o.a);
            verdict(o, t->lookup(static_cast<std::uint8_t>(o.p[0]), static_cast<dd::Qubit>(o.p[1])), o.a == 0 ? nullptr : &want);
        } else if (o.k == "clear") {
            t->clear();
        } else if (o.k == "grow") {
            t->resize(++nq);
            if (t->lookup(1, static_cast<dd::Qubit>(nq - 1)).p != nullptr) { fail("cache", "a new row is not empty"); }
        } else {
            bad(o);
        }
    }
};
template<std::size_t NB>
struct DNoise: Machine, Operands {
    std::unique_ptr<dd::DensityNoiseTable<dd::dEdge, dd::dEdge, NB>> t;
    void begin(const Op&) override { t = std::make_unique<dd::DensityNoiseTable<dd::dEdge, dd::dEdge, NB>>(); }
    void step(const Op& o) override {
        if (o.k == "clear") {
            t->clear();
            return;
        }
        std::vector<dd::Qubit> q(o.p.begin() + 1, o.p.end());
        if (o.k == "ins") {
            t->insert(get<dd::dEdge>(o.p[0]), get<dd::dEdge>(o.a), q);
        } else if (o.k == "look") {
            const auto want = get<dd::dEdge>(o.a);
            verdict(o, t->lookup(get<dd::dEdge>(o.p[0]), q), o.a == 0 ? nullptr : &want);
        } else {
            bad(o);
        }
    }
};

// ---------------------------------------------------------------- nodes
template<class Node, std::size_t NB, std::size_t ALLOC, std::size_t LIMIT>
struct Nodes: Machine {
    using Table = dd::UniqueTable<Node, NB, ALLOC, 2, LIMIT>;
    using E     = dd::Edge<Node>;
    dd::ComplexNumbers                         cn;
    std::unique_ptr<Table>                     t;
    std::map<int, Node*>                       at;
    std::map<int, std::pair<int, std::array<E, std::tuple_size_v<decltype(Node::e)>>>> made; // as requested
    std::vector<dd::Complex>                   w{dd::Complex::zero, dd::Complex::one, cn.lookup(0.25, -0.75), cn.lookup(-0.25, 0.75), cn.lookup(0.75, 0.25)};
    int                                        nq = 0, levels = 0;
    void begin(const Op& o) override {
        at.clear();
        made.clear();
        nq     = o.n;
        levels = o.p[0];
        t      = std::make_unique<Table>(static_cast<std::size_t>(nq));
    }
    Node* terminal() { return E::zero.p; }
    void step(const Op& o) override {
        const auto room = t->getAllocations(), used = t->getNodeCount();
        step2(o);
        if (t->getAllocations() > room && std::max(used, t->getNodeCount()) + 2 < room) { fail("memory", o.k + ": new memory is allocated while most of the " + std::to_string(room) + " entries are not in use"); }
    }
    void step2(const Op& o) {
        if (o.k == "node") {
            const std::size_t K = std::tuple_size_v<decltype(Node::e)>;
            auto*             p = t->getNode();
            for (auto& [i, q]: at) {
                if (q == p) { fail("store", "a stored node was given away as a new one"); }
            }
            p->v = static_cast<dd::Qubit>(o.d);
            if constexpr (!std::is_same_v<Node, dd::vNode>) { p->flags = 0; }
            for (std::size_t j = 0; j < K; ++j) {
                const int s = o.p[j], x = o.p[K + j];
                p->e[j] = {s == 0 ? terminal() : at.at(s), w[static_cast<std::size_t>(x)]};
            }
            const auto e = t->lookup(E{p, w[3]}, o.b != 0);
            if (e.w != w[3]) { fail("store", "looking up a node changed the weight of its edge"); }
            if (o.z == 0) {
                if (e.p != at.at(o.a)) { fail("unique", "an existing node was not found"); }
                if (o.b != 0) { t->returnNode(p); }
            } else {
                if (e.p != p) { fail("unique", "a new node was taken for an existing one"); }
                if (p->ref != 0) { fail("refs", "a new node has count " + std::to_string(p->ref)); }
                at[o.a]   = p;
                made[o.a] = {o.d, p->e};
            }
        } else if (o.k == "ref") {
            t->incRef(E{at.at(o.a), dd::Complex::one});
        } else if (o.k == "unref") {
            t->decRef(E{at.at(o.a), dd::Complex::one});
        } else if (o.k == "badunref") {
            bool thrown = false;
            try {
                t->decRef(E{at.at(o.a), dd::Complex::one});
            } catch (const std::runtime_error&) { thrown = true; }
            if (!thrown) { fail("refs", "releasing a node that is not referenced is not reported"); }
        } else if (o.k == "sat") {
            E e{at.at(o.a), dd::Complex::one};
            if (e.p->ref == 0) { t->incRef(e); }
            e.p->ref = std::numeric_limits<dd::RefCount>::max() - 1;
            t->incRef(e);
            t->incRef(e);
            t->decRef(e);
            t->decRef(e);
        } else if (o.k == "gc" || o.k == "agc") {
            std::size_t n = 0;
            if (o.k == "agc") {
                n = t->garbageCollect(false);
                if (n != 0 && n != static_cast<std::size_t>(o.z)) { fail("collect", "collection of " + std::to_string(o.z) + " nodes reports " + std::to_string(n)); }
            }
            n += t->garbageCollect(true);
            if (n != static_cast<std::size_t>(o.z)) { fail("collect", "collection of " + std::to_string(o.z) + " nodes reports " + std::to_string(n)); }
            std::set<int> stay;
            for (std::size_t i = 0; i < o.q.size(); i += 2) { stay.insert(o.q[i]); }
            for (auto it = at.begin(); it != at.end();) { it = stay.count(it->first) ? std::next(it) : at.erase(it); }
        } else if (o.k == "clear") {
            t->clear();
            at.clear();
        } else if (o.k == "grow") {
            t->resize(static_cast<std::size_t>(o.a));
            nq = o.a;
        } else {
            bad(o);
        }
        if (t->getNodeCount() != static_cast<std::size_t>(o.n)) { fail("count", o.k + ": " + std::to_string(t->getNodeCount()) + " nodes instead of " + std::to_string(o.n)); }
        std::size_t total = 0;
        for (int l = 0; l < nq; ++l) {
            const auto a = t->getActiveNodeCount(static_cast<dd::Qubit>(l));
            if (a != static_cast<std::size_t>(o.c[static_cast<std::size_t>(l)])) { fail("active", o.k + ": " + std::to_string(a) + " active nodes on level " + std::to_string(l) + " instead of " + std::to_string(o.c[static_cast<std::size_t>(l)])); }
            total += a;
        }
        if (t->getActiveNodeCount() != total) { fail("active", o.k + ": total number of active nodes " + std::to_string(t->getActiveNodeCount()) + " instead of " + std::to_string(total)); }
        for (std::size_t i = 0; i < o.q.size(); i += 2) {
            auto*      p    = at.at(o.q[i]);
            const auto want = o.q[i + 1] >= 1000000 ? std::numeric_limits<dd::RefCount>::max() : static_cast<dd::RefCount>(o.q[i + 1]);
            if (p->ref != want) { fail("refs", o.k + ": node " + std::to_string(o.q[i]) + " has count " + std::to_string(p->ref) + " instead of " + std::to_string(want)); }
            const auto& m = made.at(o.q[i]);
            if (p->v != m.first || !(p->e == m.second)) { fail("store", o.k + ": a stored node changed"); }
        }
    }
};

static std::unique_ptr<Machine> make(const std::string& s) {
    if (s == "number") { return std::make_unique<Numbers<dd::ComplexTable<>, 65536>>(); }
    if (s == "number-small") { return std::make_unique<Numbers<dd::ComplexTable<17, 2, 2, 3>, 16>>(); }
    if (s == "number-129") { return std::make_unique<Numbers<dd::ComplexTable<129, 3, 2, 5>, 128>>(); }
    if (s == "complex") { return std::make_unique<ComplexNums>(); }
    if (s == "pool") { return std::make_unique<Pool<dd::ComplexCache<2, 1>>>(); }
    if (s == "pool-4") { return std::make_unique<Pool<dd::ComplexCache<4, 2>>>(); }
    if (s == "pool-default") { return std::make_unique<Pool<dd::ComplexCache<>>>(); }
    if (s == "pool-numbers") { return std::make_unique<Pool<Nums>>(); }
    if (s == "vadd") { return std::make_unique<Binary<dd::vCachedEdge, dd::vCachedEdge, dd::vCachedEdge, 1>>(); }
    if (s == "madd") { return std::make_unique<Binary<dd::mCachedEdge, dd::mCachedEdge, dd::mCachedEdge, 4>>(); }
    if (s == "mv") { return std::make_unique<Binary<dd::mEdge, dd::vEdge, dd::vCachedEdge, 2>>(); }
    if (s == "mm") { return std::make_unique<Binary<dd::mEdge, dd::mEdge, dd::mCachedEdge, 1>>(); }
    if (s == "vv") { return std::make_unique<Binary<dd::vEdge, dd::vEdge, dd::vCachedEdge, 1024>>(); }
    if (s == "dens") { return std::make_unique<Density<1>>(); }
    if (s == "dens-4") { return std::make_unique<Density<4>>(); }
    if (s == "unary") { return std::make_unique<Unary<dd::mEdge, dd::mEdge, 1>>(); }
    if (s == "unary-8") { return std::make_unique<Unary<dd::vEdge, dd::vEdge, 8>>(); }
    if (s == "toffoli") { return std::make_unique<Toffoli<1>>(); }
    if (s == "toffoli-2048") { return std::make_unique<Toffoli<2048>>(); }
    if (s == "stochastic") { return std::make_unique<Stochastic>(); }
    if (s == "dnoise") { return std::make_unique<DNoise<1>>(); }
    if (s == "dnoise-16") { return std::make_unique<DNoise<16>>(); }
    if (s == "vnodes") { return std::make_unique<Nodes<dd::vNode, 1, 2, 3>>(); }
    if (s == "vnodes-8") { return std::make_unique<Nodes<dd::vNode, 8, 3, 5>>(); }
    if (s == "mnodes") { return std::make_unique<Nodes<dd::mNode, 1, 2, 3>>(); }
    if (s == "mnodes-8") { return std::make_unique<Nodes<dd::mNode, 8, 3, 5>>(); }
    if (s == "dnodes") { return std::make_unique<Nodes<dd::dNode, 2, 2, 4>>(); }
    fprintf(stderr, "unknown table %s\n", s.c_str());
    exit(9);
}

int main(int argc, char** argv) {
    noAslr(argv);
    std::string prog, file;
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        if (a == "--progress") { prog = argv[++i]; }
        else if (a == "--fresh") { ++i; }
        else if (a == "--table") { T_ = argv[++i]; }
        else { file = a; }
    }
    std::ifstream in(file);
    if (!in) { return 9; }
    std::clog.setstate(std::ios::failbit);
    Progress pr(prog);
    auto     m   = make(T_);
    long     beh = -1, st = 0;
    Op       o;
    try {
        while (true) {
            Op p;
            if (!readOp(in, p)) { break; }
            o = p;
            if (o.k == "begin") {
                ++beh;
                st = 0;
                m->begin(o);
                continue;
            }
            ++st;
            pr.at(beh, st, o.k.c_str());
            ++steps;
            m->step(o);
        }
    } catch (const Fail& f) {
        printf("FAIL %ld %ld %s %s [%s]\n", beh, st, f.family.c_str(), f.detail.c_str(), T_.c_str());
        return 3;
    } catch (const std::exception& x) {
        printf("FAIL %ld %ld exception %s [%s, %s]\n", beh, st, x.what(), o.k.c_str(), T_.c_str());
        return 3;
    }
    printf("OK table_steps=%zu cache_hits=%zu\n", steps, hitsSeen);
    return 0;
}
