// Replays behaviours of spec/Wide.tla (up to 128 qubits) on the real package.
// Same input format as replay.cpp; "m": coefficients of the terms, "r": the distinct factors, "q": the factor of each
// term and qubit.
#include "books.hpp"
#include "common.hpp"
#include "graph.hpp"
#include "setup.hpp"

struct Opts {
    std::set<std::string> fam;
    bool                  hold = true, gcevery = false, twice = false;
    long                  fresh = 1;
    std::string           progress, program;
    bool                  has(const char* f) const { return fam.count(f) != 0; }
};
static Opts opt;
#ifndef CFG
#define CFG ScanConfig
#endif

template<class Config>
struct Machine {
    using P = dd::Package<Config>;
    template<class E>
    struct Slot { E e; Terms x; };
    std::unique_ptr<P>           dd, other;
    std::vector<Slot<dd::vEdge>> vs;
    std::vector<Slot<dd::mEdge>> ms;
    std::mt19937_64              mt{1};
    Progress                     progress{opt.progress};
    long                         opsRun = 0, comparisons = 0, gcRuns = 0, widest = 0;

    Slot<dd::vEdge>& V(int i) { return vs.at(static_cast<std::size_t>(i - 1)); }
    Slot<dd::mEdge>& M(int i) { return ms.at(static_cast<std::size_t>(i - 1)); }

    static Terms termsOf(const Op& o, int arity) {
        Terms t;
        t.n     = o.n;
        t.arity = arity;
        t.c     = o.m;
        std::size_t k = 0;
        for (std::size_t i = 0; i < t.c.size(); ++i) {
            t.f.emplace_back();
            for (int q = 0; q < t.n; ++q, ++k) {
                const auto b = static_cast<std::size_t>(o.q.at(k) * arity);
                t.f.back().emplace_back(o.r.begin() + static_cast<long>(b), o.r.begin() + static_cast<long>(b) + arity);
            }
        }
        return t;
    }
    static Terms ket(const std::vector<int>& b) {
        Terms t;
        t.n = static_cast<int>(b.size());
        t.c = {1.};
        t.f.emplace_back();
        for (auto x: b) { t.f.back().push_back(x == 0 ? std::vector<cplx>{1., 0.} : std::vector<cplx>{0., 1.}); }
        return t;
    }
    static Terms ident(int n) {
        Terms t;
        t.n     = n;
        t.arity = 4;
        t.c     = {1.};
        t.f.emplace_back(static_cast<std::size_t>(n), std::vector<cplx>{1., 0., 0., 1.});
        return t;
    }
    // the diagram of a sum of terms, bottom-up, terms in the given order
    template<class E>
    E build(P& p, const Terms& t, bool backwards = false) {
        constexpr std::size_t A = std::tuple_size_v<decltype(E::zero.p->e)>;
        E                     sum = E::zero;
        bool                  first = true;
        for (std::size_t k = 0; k < t.c.size(); ++k) {
            const auto i = backwards ? t.c.size() - 1 - k : k;
            E          e = E::one;
            for (int q = 0; q < t.n; ++q) {
                std::array<E, A> c;
                for (std::size_t j = 0; j < A; ++j) {
                    const auto w = t.f[i][static_cast<std::size_t>(q)][j] * val(e.w);
                    c[j]         = w == 0. ? E::zero : E{e.p, p.cn.lookup(w.real(), w.imag())};
                }
                e = p.makeDDNode(static_cast<dd::Qubit>(q), c);
            }
            const auto w = t.c[i] * val(e.w);
            e.w          = p.cn.lookup(w.real(), w.imag());
            if (e.w == dd::Complex::zero) { e = E::zero; }
            sum   = first ? e : p.add(sum, e);
            first = false;
        }
        return sum;
    }

    // ---- checks ----
    template<class E>
    void check(const E& e, const Terms& t, const std::string& what) {
        ++comparisons;
        const auto g = Graph::fromEdge(e);
        if (opt.has("value") || (opt.has("scalar") && what == "wptrace")) { g.equals(t, "value", what); }
        if (opt.has("size")) {
            const auto got = dd->size(e);
            if (got != g.nodes.size() + 1) { fail("size", what + ": size " + std::to_string(got) + " instead of " + std::to_string(g.nodes.size() + 1)); }
        }
        if (opt.has("canon")) { canonical(*dd, e, t, "canon", what); }
        if (opt.has("nf")) {
            std::set<const void*> seen;
            if constexpr (std::is_same_v<E, dd::vEdge>) { nfV(e, t.n - 1, seen); } else {
                std::map<std::pair<const void*, const void*>, std::optional<cplx>> memo;
                nfM(e, t.n - 1, seen, memo);
            }
        }
    }
    template<class E>
    void canonical(P& p, const E& e, const Terms& t, const char* fam, const std::string& what) {
        for (int b = 0; b < (t.c.size() > 1 ? 2 : 1); ++b) {
            const auto f   = build<E>(p, t, b != 0);
            const bool big = std::abs(val(e.w)) > 4.; // large numbers differ by more than the tolerance after different roundings
            if (f.p != e.p || (big ? std::abs(val(e.w) - val(f.w)) > 1e-9 * std::abs(val(e.w)) : e.w != f.w)) {
                fail(fam, what + ": not the edge of the function built qubit by qubit (weights " + S(val(e.w)) + ", " + S(val(f.w)) + (e.p == f.p ? ", same node)" : ", other node)"));
            }
        }
    }
    void nfWeight(const dd::Complex& w) {
        for (auto* x: {w.r, w.i}) {
            const auto* a = dd::CTEntry::getAlignedPointer(x);
            if (a == &dd::ComplexTable<>::zero && dd::CTEntry::isNegativePointer(x)) { fail("nf", "negative zero"); }
            if (a->value < 0) { fail("nf", "stored number is negative"); }
        }
    }
    static constexpr double EPS = 1e-11;
    template<class E>
    void nfEdge(const E& c, int level) {
        if (std::abs(val(c.w)) <= dd::ComplexTable<>::tolerance() && !(c.isTerminal() && c.w == dd::Complex::zero)) { fail("nf", "zero-weight successor is not the zero edge"); }
        if (c.w != dd::Complex::zero && c.isTerminal() && level != 0) { fail("nf", "successor skips levels"); }
    }
    void nfV(const dd::vEdge& e, int level, std::set<const void*>& seen) {
        nfWeight(e.w);
        if (e.isTerminal()) { return; }
        if (e.p->v != level) { fail("nf", "vector node of level " + std::to_string(e.p->v) + " where " + std::to_string(level) + " belongs"); }
        if (!seen.insert(e.p).second) { return; }
        double sum = 0, mag[2];
        for (int i = 0; i < 2; ++i) {
            const auto& c = e.p->e[static_cast<std::size_t>(i)];
            mag[i]        = std::norm(val(c.w));
            sum += mag[i];
            nfEdge(c, level);
            nfV(c, level - 1, seen);
        }
        if (std::abs(sum - 1.) > EPS) { fail("nf", "vector node: squared magnitudes sum to " + S(sum)); }
        const auto w = val(e.p->e[mag[0] + dd::ComplexTable<>::tolerance() >= mag[1] ? 0 : 1].w);
        if (std::abs(w.imag()) > EPS || w.real() <= 0) { fail("nf", "vector node: leading largest weight " + S(w) + " is not real and positive"); }
    }
    using Ratios = std::map<std::pair<const void*, const void*>, std::optional<cplx>>;
    // r with a = r * transpose(b), if there is one
    static std::optional<cplx> transposed(const dd::mNode* a, const dd::mNode* b, bool aTerm, bool bTerm, Ratios& memo) {
        if (aTerm || bTerm) { return aTerm && bTerm ? std::optional<cplx>(1.) : std::nullopt; }
        const auto k  = std::make_pair(static_cast<const void*>(a), static_cast<const void*>(b));
        auto       it = memo.find(k);
        if (it != memo.end()) { return it->second; }
        std::optional<cplx> r;
        bool                ok = true;
        for (std::size_t i = 0; i < 4 && ok; ++i) {
            const auto& x = a->e[i];
            const auto& y = b->e[i == 1 ? 2 : i == 2 ? 1 : i];
            if (zeroW(x.w) != zeroW(y.w)) { ok = false; break; }
            if (zeroW(x.w)) { continue; }
            const auto s = transposed(x.p, y.p, x.isTerminal(), y.isTerminal(), memo);
            if (!s) { ok = false; break; }
            const auto q = *s * val(x.w) / val(y.w);
            if (r && std::abs(*r - q) > 1e-9) { ok = false; }
            r = q;
        }
        if (!ok) { r.reset(); }
        memo[k] = r;
        return r;
    }
    bool identity(const dd::mEdge& e, int level) {
        for (auto x = e; level >= 0; --level, x = x.p->e[0]) {
            if (x.isTerminal() || x.p->e[1].w != dd::Complex::zero || x.p->e[2].w != dd::Complex::zero) { return false; }
            if (!same(x.p->e[0], x.p->e[3]) || x.p->e[0].w != dd::Complex::one) { return false; }
        }
        return true;
    }
    void nfM(const dd::mEdge& e, int level, std::set<const void*>& seen, Ratios& memo) {
        nfWeight(e.w);
        if (e.isTerminal()) { return; }
        if (e.p->v != level) { fail("nf", "operator node of level " + std::to_string(e.p->v) + " where " + std::to_string(level) + " belongs"); }
        if (!seen.insert(e.p).second) { return; }
        double max = 0;
        for (const auto& c: e.p->e) {
            max = std::max(max, std::norm(val(c.w)));
            nfEdge(c, level);
            nfM(c, level - 1, seen, memo);
        }
        if (std::abs(max - 1.) > EPS) { fail("nf", "operator node: largest magnitude is " + S(max)); }
        for (const auto& c: e.p->e) {
            if (std::norm(val(c.w)) > max - dd::ComplexTable<>::tolerance() * 4) {
                if (c.w != dd::Complex::one) { fail("nf", "operator node: leading largest weight is " + S(val(c.w)) + " instead of one"); }
                break;
            }
        }
        const auto r    = transposed(e.p, e.p, false, false, memo);
        const bool symm = r && std::abs(*r - 1.) < 1e-9, id = identity({e.p, dd::Complex::one}, level);
        if (e.p->isSymmetric() != symm) { fail("nf", std::string("operator node of level ") + std::to_string(level) + " is " + (symm ? "" : "not ") + "symmetric but marked otherwise"); }
        if (e.p->isIdentity() != id) { fail("nf", std::string("operator node of level ") + std::to_string(level) + " is " + (id ? "" : "not ") + "the identity but marked otherwise"); }
    }
    void checkSlots() {
        if (opt.has("operands")) {
            for (auto& s: vs) { Graph::fromEdge(s.e).equals(s.x, "operands", "a held vector changed"); }
            for (auto& s: ms) { Graph::fromEdge(s.e).equals(s.x, "operands", "a held operator changed"); }
        }
        if (opt.has("unique")) {
            uniqueNodes(dd->vUniqueTable, "vectors");
            uniqueNodes(dd->mUniqueTable, "operators");
        }
        if (opt.has("refs") && opt.hold) {
            std::map<const void*, std::size_t> vn, mn, num;
            for (auto& s: vs) { addRef(s.e, vn, num); }
            for (auto& s: ms) { addRef(s.e, mn, num); }
            countNodes(dd->vUniqueTable, vn, num);
            countNodes(dd->mUniqueTable, mn, num);
            compareRefs(dd->vUniqueTable, vn, "vectors");
            compareRefs(dd->mUniqueTable, mn, "operators");
            compareNumbers(dd->cn.complexTable, num);
        }
        if (opt.has("alive") && opt.hold && opt.gcevery) {
            std::size_t dead = 0;
            for (const auto& t: dd->vUniqueTable.getTables()) { for (auto* p: t) { for (; p != nullptr; p = p->next) { dead += p->ref == 0 ? 1 : 0; } } }
            for (const auto& t: dd->mUniqueTable.getTables()) { for (auto* p: t) { for (; p != nullptr; p = p->next) { dead += p->ref == 0 ? 1 : 0; } } }
            if (dead != 0) { fail("alive", std::to_string(dead) + " unreferenced nodes survived a forced collection"); }
        }
    }
    void collect(bool forced) {
        ++gcRuns;
        auto       counts = [&] { return std::array<std::size_t, 4>{dd->vUniqueTable.getNodeCount(), dd->mUniqueTable.getNodeCount(), dd->dUniqueTable.getNodeCount(), dd->cn.complexTable.getCount()}; };
        const auto before = counts();
        const bool said   = dd->garbageCollect(forced);
        if (opt.has("report") && said != (before != counts())) { fail("report", std::string("a collection says it collected ") + (said ? "something" : "nothing")); }
    }

    // ---- slots ----
    template<class E>
    void assign(Slot<E>& s, const E& e, const Terms& t, bool owned = false) {
        if (opt.hold && !owned) { dd->incRef(e); dd->decRef(s.e); }
        if (!opt.hold && owned) { dd->decRef(e); }
        s = {e, t};
    }
    void releaseAll() {
        if (dd && opt.hold) {
            for (auto& s: vs) { dd->decRef(s.e); }
            for (auto& s: ms) { dd->decRef(s.e); }
        }
        vs.clear();
        ms.clear();
    }
    // after growth every level of every table is there
    void grown(int from, int to) {
        if (static_cast<int>(dd->qubits()) != to) { fail("grown", "the package reports " + std::to_string(dd->qubits()) + " qubits after growing to " + std::to_string(to)); }
        for (int q: {0, from - 1, from, (from + to) / 2, to - 1}) {
            const auto l = static_cast<dd::Qubit>(q);
            const auto v = dd->makeZeroState(static_cast<dd::QubitCount>(q + 1));
            const auto m = dd->makeIdent(static_cast<dd::QubitCount>(q + 1));
            const auto d = dd->makeZeroDensityOperator(static_cast<dd::QubitCount>(q + 1));
            dd->incRef(v); dd->incRef(m); dd->incRef(d);
            if (dd->vUniqueTable.getActiveNodeCount(l) != 1 || dd->mUniqueTable.getActiveNodeCount(l) != 1 || dd->dUniqueTable.getActiveNodeCount(l) != 1) { fail("grown", "wrong number of active nodes on level " + std::to_string(q)); }
            dd->decRef(v); dd->decRef(m); dd->decRef(d);
            dd->stochasticNoiseOperationCache.insert(0, l, m);
            if (!same(dd->stochasticNoiseOperationCache.lookup(0, l), m)) { fail("grown", "a remembered operation for qubit " + std::to_string(q) + " is not found"); }
            if (!same(dd->makeIdent(static_cast<dd::QubitCount>(q + 1)), m)) { fail("grown", "the identity is not found again"); }
            const auto g = dd->makeGateDD(dd::Xmat, static_cast<dd::QubitCount>(q + 1), l);
            Terms      t = ket(std::vector<int>(static_cast<std::size_t>(q) + 1, 0));
            t.f[0][static_cast<std::size_t>(q)] = {0., 1.};
            Graph::fromEdge(dd->multiply(g, v)).equals(t, "grown", "a flip of the highest qubit");
        }
        dd->clearComputeTables();
    }
    void begin(const Op& o) {
        const auto wmax = static_cast<std::size_t>(o.p.at(3));
        releaseAll();
        if (!dd || opt.fresh == 1) {
            dd.reset();
            other.reset();
            dd    = std::make_unique<P>(opt.fresh == 1 ? static_cast<std::size_t>(o.p.at(4)) : wmax);
            other = std::make_unique<P>(wmax);
            if (opt.fresh == 1 && dd->qubits() != wmax) {
                // a diagram from before the growth stays what it is
                const auto n = static_cast<dd::QubitCount>(o.n);
                const auto e = dd->makeZeroState(n);
                const auto m = dd->makeIdent(n);
                dd->incRef(e);
                dd->incRef(m);
                dd->resize(wmax);
                if (!same(e, dd->makeZeroState(n)) || !same(m, dd->makeIdent(n))) { fail("operands", "a diagram built before the package grew is not found again"); }
                dd->decRef(e);
                dd->decRef(m);
                if (opt.has("grown")) { grown(o.n, static_cast<int>(wmax)); }
            }
        }
        for (int i = 0; i < o.p.at(1); ++i) {
            vs.push_back({dd->makeZeroState(static_cast<dd::QubitCount>(o.n)), ket(std::vector<int>(static_cast<std::size_t>(o.n), 0))});
            if (opt.hold) { dd->incRef(vs.back().e); }
        }
        for (int i = 0; i < o.p.at(2); ++i) {
            ms.push_back({dd->makeIdent(static_cast<dd::QubitCount>(o.n)), ident(o.n)});
            if (opt.hold) { dd->incRef(ms.back().e); }
        }
    }

    // ---- operations ----
    template<class E>
    E stored(const Slot<E>& s, bool bin) {
        using Node = std::remove_pointer_t<decltype(s.e.p)>;
        std::stringstream ss;
        dd::serialize(s.e, ss, bin);
        const auto text = ss.str();
        if (!bin && opt.has("file")) { Graph::fromText(text, s.x.arity).equals(s.x, "file", "serialized diagram"); }
        const auto res = dd->template deserialize<Node>(ss, bin);
        if (opt.has("roundtrip")) {
            if (!same(res, s.e)) { fail("roundtrip", "reading a diagram back into the same package gives another edge"); }
            std::stringstream s2(text);
            const auto        e2 = other->template deserialize<Node>(s2, bin);
            Graph::fromEdge(e2).equals(s.x, "roundtrip", "diagram read into another package");
            canonical(*other, e2, s.x, "roundtrip", "diagram read into another package");
        }
        return res;
    }
    template<class E>
    E transferred(const Slot<E>& s) {
        auto       arg = s.e;
        const auto f   = other->transfer(arg);
        if (opt.has("transfer")) {
            if (!same(arg, s.e)) { fail("transfer", "transferring a diagram changed the edge"); }
            Graph::fromEdge(f).equals(s.x, "transfer", "transferred diagram");
            canonical(*other, f, s.x, "transfer", "transferred diagram");
        }
        auto       back = f;
        const auto res  = dd->transfer(back);
        if (opt.has("transfer") && !same(res, s.e)) { fail("transfer", "transferring a diagram back gives another edge"); }
        return res;
    }
    bool vecOp(const Op& o, dd::vEdge& res) {
        const auto& k = o.k;
        const auto  n = static_cast<dd::QubitCount>(o.n);
        if (k == "wbasis") { res = dd->makeBasisState(n, boolsOf(o.p));
        } else if (k == "wzero") { res = dd->makeZeroState(n);
        } else if (k == "wstate") { res = dd->makeBasisState(n, statesOf(o.p));
        } else if (k == "wvec") { res = build<dd::vEdge>(*dd, termsOf(o, 2));
        } else if (k == "wvadd") { res = dd->add(V(o.a).e, V(o.b).e);
        } else if (k == "wmv") { res = dd->multiply(M(o.a).e, V(o.b).e);
        } else if (k == "wvkron") { res = dd->kronecker(V(o.a).e, V(o.b).e);
        } else if (k == "wvdel") { res = dd->deleteEdge(V(o.a).e, static_cast<dd::Qubit>(o.p.at(0)), static_cast<std::size_t>(o.p.at(1)));
        } else if (k == "wvser") { res = stored(V(o.a), o.p.at(0) != 0);
        } else if (k == "wvtran") { res = transferred(V(o.a));
        } else { return false; }
        return true;
    }
    bool matOp(const Op& o, dd::mEdge& res) {
        const auto& k = o.k;
        const auto  n = static_cast<dd::QubitCount>(o.n);
        if (k == "wid") { res = dd->makeIdent(n);
        } else if (k == "wmat") { res = build<dd::mEdge>(*dd, termsOf(o, 4));
        } else if (k == "wgate") { res = dd->makeGateDD(gateOf(o.g), n, controlsOf(o.c), static_cast<dd::Qubit>(o.p.at(0)));
        } else if (k == "wmadd") { res = dd->add(M(o.a).e, M(o.b).e);
        } else if (k == "wmm") { res = dd->multiply(M(o.a).e, M(o.b).e);
        } else if (k == "wmkron") { res = dd->kronecker(M(o.a).e, M(o.b).e);
        } else if (k == "wext") { res = dd->extend(M(o.a).e, static_cast<dd::Qubit>(o.p.at(0)), static_cast<dd::Qubit>(o.p.at(1)));
        } else if (k == "wtrans") { res = dd->transpose(M(o.a).e);
        } else if (k == "wadj") { res = dd->conjugateTranspose(M(o.a).e);
        } else if (k == "wptrace") { res = dd->partialTrace(M(o.a).e, boolsOf(o.p));
        } else if (k == "wmdel") { res = dd->deleteEdge(M(o.a).e, static_cast<dd::Qubit>(o.p.at(0)), static_cast<std::size_t>(o.p.at(1)));
        } else if (k == "wmser") { res = stored(M(o.a), o.p.at(0) != 0);
        } else if (k == "wmtran") { res = transferred(M(o.a));
        } else { return false; }
        return true;
    }
    static std::vector<int> pathOf(const std::string& str) { // highest qubit first
        std::vector<int> p;
        for (auto it = str.rbegin(); it != str.rend(); ++it) { p.push_back(*it - '0'); }
        return p;
    }
    static void outcome(const Terms& t, const std::string& str) {
        if (static_cast<int>(str.size()) != t.n || str.find_first_not_of("01") != std::string::npos) { fail("measure", "measured string " + str + " for " + std::to_string(t.n) + " qubits"); }
        if (std::norm(t.at(pathOf(str))) < 1e-12) { fail("measure", "outcome " + str + " of probability zero was returned"); }
    }
    bool owningV(const Op& o, dd::vEdge& res) {
        if (o.k != "wmeas" && o.k != "wmeasall") { return false; }
        auto& s = V(o.a);
        if (!opt.hold) { dd->incRef(s.e); }
        if (o.k == "wmeas") {
            const double p[2] = {o.p.at(1) == 0 ? o.s.at(0).real() : 1. - o.s.at(0).real(), o.p.at(1) == 0 ? 1. - o.s.at(0).real() : o.s.at(0).real()};
            for (int tries = 0; tries < 20000; ++tries) {
                auto arg = s.e;
                dd->incRef(s.e);
                const int r = dd->measureOneCollapsing(arg, static_cast<dd::Qubit>(o.p.at(0)), tries % 2 == 0, mt) - '0';
                if (r != 0 && r != 1) { fail("measure", "outcome is neither 0 nor 1"); }
                if (p[r] < 1e-12) { fail("measure", "an outcome of probability zero was returned"); }
                if (r == o.p.at(1)) {
                    dd->decRef(s.e);
                    res = arg;
                    if (opt.has("measure")) { Graph::fromEdge(res).equals(termsOf(o, 2), "measure", "state after a measurement"); }
                    return true;
                }
                dd->decRef(arg);
            }
            fail("measure", "an outcome of non-zero probability never occurs");
        }
        std::string want;
        for (auto it = o.p.rbegin(); it != o.p.rend(); ++it) { want += *it != 0 ? '1' : '0'; }
        for (int tries = 0; tries < 40000; ++tries) {
            auto arg = s.e;
            if (tries % 2 == 0) {
                const auto str = dd->measureAll(arg, false, mt);
                if (!same(arg, s.e)) { fail("measure", "measuring without collapse changed the state"); }
                outcome(s.x, str);
                continue;
            }
            dd->incRef(s.e);
            const auto str = dd->measureAll(arg, true, mt);
            outcome(s.x, str);
            if (tries < 10 || str == want) { Graph::fromEdge(arg).equals(ket(pathOf(str)), "measure", "state after measuring everything"); }
            if (str == want) {
                dd->decRef(s.e);
                res = arg;
                return true;
            }
            dd->decRef(arg);
        }
        fail("measure", "an outcome of non-zero probability never occurs");
    }
    bool owningM(const Op& o, dd::mEdge& res) {
        if (o.k == "wanc" || o.k == "wgarb") {
            auto& s = M(o.a);
            if (!opt.hold) { dd->incRef(s.e); }
            auto arg = s.e;
            res      = o.k == "wanc" ? dd->reduceAncillae(arg, boolsOf(o.p), o.b != 0) : dd->reduceGarbage(arg, boolsOf(o.p), o.b != 0);
        } else if (o.k == "winit") {
            res = dd->createInitialMatrix(static_cast<dd::QubitCount>(o.n), boolsOf(o.p));
            if (opt.hold) { dd->decRef(M(o.d).e); }
        } else { return false; }
        return true;
    }
    bool scalarOp(const Op& o) {
        const auto& k = o.k;
        const bool  c = opt.has("scalar");
        if (k == "winner") {
            const auto r = dd->innerProduct(V(o.a).e, V(o.b).e);
            if (c) { compare1("scalar", "inner product", {r.r, r.i}, o.s.at(0), 1e-9 * (1. + std::abs(o.s.at(0)))); }
        } else if (k == "wfid") {
            const auto r = dd->fidelity(V(o.a).e, V(o.b).e);
            if (c) { compare1("scalar", "fidelity", r, o.s.at(0), 1e-8 * (1. + std::abs(o.s.at(0)))); }
        } else if (k == "wfidm") {
            dd::ProbabilityVector pv;
            double                want = 0;
            const auto            n    = static_cast<std::size_t>(o.n);
            for (std::size_t j = 0; j < o.q.size(); ++j) {
                std::size_t key = 0;
                for (std::size_t q = 0; q < n; ++q) { key |= static_cast<std::size_t>(o.c.at(j * n + q)) << q; }
                const double q = o.q[j] / 4.;
                if (!pv.emplace(key, q * q).second) { continue; }
                want += q * std::sqrt(o.m2[j].real());
            }
            const auto r = dd->fidelityOfMeasurementOutcomes(V(o.a).e, pv);
            if (c) { compare1("scalar", "fidelity of measurement outcomes", r, want, 1e-9 * (1. + want)); }
        } else if (k == "wtrace") {
            const auto r = dd->trace(M(o.a).e);
            if (c) { compare1("scalar", "trace", {r.r, r.i}, o.s.at(0), 1e-9 * (1. + std::abs(o.s.at(0)))); }
        } else if (k == "wisid") {
            const bool r = dd->isCloseToIdentity(M(o.a).e);
            if (c && r != (o.t != 0)) { fail("scalar", std::string("identity test answers ") + (r ? "true" : "false")); }
        } else if (k == "wprobs") {
            for (int m = 0; m < 2; ++m) {
                const auto [p0, p1] = dd->determineMeasurementProbabilities(V(o.a).e, static_cast<dd::Qubit>(o.p.at(0)), m != 0);
                if (opt.has("measure")) {
                    compare1("measure", "probability of 0", p0, o.s.at(0));
                    compare1("measure", "probability of 1", p1, o.s2.at(0));
                }
            }
        } else if (k == "wread" || k == "wmread") {
            const auto n = static_cast<std::size_t>(o.n);
            for (std::size_t j = 0; j < o.e.size(); ++j) {
                std::string path;
                std::size_t r = 0, cc = 0;
                for (std::size_t q = 0; q < n; ++q) {
                    const auto x = static_cast<std::size_t>(o.c.at(j * n + q));
                    path += static_cast<char>('0' + x);
                    if (q < 64) {
                        r |= (k == "wread" ? x : x / 2) << q;
                        cc |= (k == "wread" ? 0 : x % 2) << q;
                    }
                }
                const double tol = 1e-12 * (1. + std::abs(o.e[j]));
                const auto   got = k == "wread" ? dd->getValueByPath(V(o.a).e, path) : dd->getValueByPath(M(o.a).e, path);
                if (opt.has("read")) { compare1("read", "getValueByPath(" + path + ")", {got.r, got.i}, o.e[j], tol); }
                if (n <= 64) {
                    const auto g2 = k == "wread" ? dd->getValueByPath(V(o.a).e, r) : dd->getValueByPath(M(o.a).e, r, cc);
                    if (opt.has("read")) { compare1("read", "getValueByPath(" + std::to_string(r) + ", " + std::to_string(cc) + ")", {g2.r, g2.i}, o.e[j], tol); }
                }
            }
        } else { return false; }
        return true;
    }
    // a new density matrix, two operators, in both storage modes
    void density(const Op& o) {
        const auto        t   = termsOf(o, 2);
        const std::size_t dim = std::size_t{1} << o.n;
        std::vector<cplx> psi(dim);
        double            most = 0;
        for (std::size_t i = 0; i < dim; ++i) {
            for (std::size_t j = 0; j < t.c.size(); ++j) {
                cplx x = t.c[j];
                for (int q = 0; q < o.n; ++q) { x *= t.f[j][static_cast<std::size_t>(q)][(i >> q) & 1]; }
                psi[i] += x;
            }
            most = std::max(most, std::norm(psi[i]));
        }
        const double tol = 1e-8 * (1. + most);
        for (const bool half: {false, true}) {
            auto d = dd->makeZeroDensityOperator(static_cast<dd::QubitCount>(o.n));
            dd->incRef(d);
            for (const auto s: {o.a, o.b}) { dd->applyOperationToDensity(d, M(s).e, half); }
            const auto was = d;
            const auto m   = dd->getDensityMatrix(d);
            if (m.size() != dim) { fail("density", "density matrix has " + std::to_string(m.size()) + " rows"); }
            for (std::size_t r = 0; r < dim; ++r) {
                for (std::size_t c = 0; c < dim; ++c) { compare1("density", "density matrix of " + std::to_string(o.n) + " qubits at " + std::to_string(r) + ", " + std::to_string(c), m[r].at(c), psi[r] * std::conj(psi[c]), tol); }
            }
            const auto  pv  = dd->getProbVectorFromDensityMatrix(d, 1e-6);
            std::size_t hit = 0;
            for (std::size_t i = 0; i < dim; ++i) {
                std::string key;
                for (int q = 0; q < o.n; ++q) { key += ((i >> q) & 1) != 0 ? '1' : '0'; }
                const auto it = pv.find(key);
                hit += it != pv.end() ? 1 : 0;
                if (std::norm(psi[i]) > 1e-3 || it != pv.end()) { compare1("density", "probability of " + key, it == pv.end() ? 0. : it->second, std::norm(psi[i]), std::max(tol, 2e-3 * (it == pv.end() ? 1 : 0))); }
            }
            if (hit != pv.size()) { fail("density", "an outcome that does not exist"); }
            if (d.p != was.p || d.w != was.w) { fail("density", "reading changed the edge of the density matrix"); }
            comparisons += 2;
            dd::dEdge::alignDensityEdge(d);
            dd->decRef(d);
        }
    }
    void step(const Op& o) {
        ++opsRun;
        widest            = std::max<long>(widest, o.n);
        const auto before = dd->cn.cacheCount();
        dd::vEdge  v{};
        dd::mEdge  m{};
        if (vecOp(o, v)) {
            const auto t = termsOf(o, 2);
            check(v, t, o.k);
            if (opt.twice) {
                dd::vEdge w{};
                vecOp(o, w);
                if (!same(v, w)) { fail("repeat", "the same operation again gives another edge"); }
            }
            assign(V(o.d), v, t);
        } else if (matOp(o, m)) {
            const auto t = termsOf(o, 4);
            check(m, t, o.k);
            if (opt.twice) {
                dd::mEdge w{};
                matOp(o, w);
                if (!same(m, w)) { fail("repeat", "the same operation again gives another edge"); }
            }
            assign(M(o.d), m, t);
        } else if (owningV(o, v)) {
            const auto t = termsOf(o, 2);
            assign(V(o.d), v, t, true);
            check(v, t, o.k);
        } else if (owningM(o, m)) {
            const auto t = termsOf(o, 4);
            assign(M(o.d), m, t, true);
            check(m, t, o.k);
        } else if (o.k == "wexpv") {
            const auto t = termsOf(o, 4);
            m            = build<dd::mEdge>(*dd, t);
            assign(M(o.d), m, t);
            check(m, t, o.k);
            if (!opt.hold) { dd->incRef(m); dd->incRef(V(o.b).e); } // expectationValue() collects garbage
            const auto r = dd->expectationValue(m, V(o.b).e);
            if (opt.has("scalar")) { compare1("scalar", "expectation value", r, o.s.at(0), 1e-9 * (1. + std::abs(o.s.at(0)))); }
            if (!opt.hold) { dd->decRef(m); dd->decRef(V(o.b).e); }
        } else if (scalarOp(o)) {
            if (opt.twice) { scalarOp(o); }
        } else if (o.k == "wdens") {
            density(o);
        } else if (o.k == "gc") {
            if (opt.hold) { collect(o.p.at(0) != 0); }
        } else if (o.k == "nop") {
        } else {
            fprintf(stderr, "unknown operation %s\n", o.k.c_str());
            exit(9);
        }
        if (opt.has("balance") && dd->cn.cacheCount() != before) {
            fail("balance", "working numbers in use: " + std::to_string(before) + " before, " + std::to_string(dd->cn.cacheCount()) + " after");
        }
        if (opt.gcevery && opt.hold) { collect(true); }
        checkSlots();
    }
    int run(std::istream& is) {
        Op   o;
        long beh = -1, st = 0;
        while (readOp(is, o)) {
            if (o.k == "begin") { ++beh; st = 0; } else { ++st; }
            progress.at(beh, st, o.k.c_str());
            try {
                if (o.k == "begin") { begin(o); } else { step(o); }
            } catch (const Fail& f) {
                printf("FAIL %ld %ld %s %s %s\n", beh, st, o.k.c_str(), f.family.c_str(), f.detail.c_str());
                return 3;
            } catch (const std::exception& ex) {
                printf("FAIL %ld %ld %s exception %s\n", beh, st, o.k.c_str(), ex.what());
                return 3;
            }
        }
        progress.at(beh, st, "end");
        printf("OK behaviours=%ld wideops=%ld comparisons=%ld gc=%ld\n", beh + 1, opsRun, comparisons, gcRuns);
        return 0;
    }
};

int main(int argc, char** argv) {
    noAslr(argv);
    for (int i = 1; i < argc; ++i) {
        const std::string a   = argv[i];
        auto              arg = [&] { return std::string(argv[++i]); };
        if (a == "--check") {
            std::istringstream is(arg());
            std::string        f;
            while (std::getline(is, f, ',')) { opt.fam.insert(f); }
        } else if (a == "--nohold") { opt.hold = false;
        } else if (a == "--gc") { opt.gcevery = true;
        } else if (a == "--twice") { opt.twice = true;
        } else if (a == "--fresh") { opt.fresh = std::stol(arg());
        } else if (a == "--progress") { opt.progress = arg();
        } else { opt.program = a; }
    }
    std::ifstream is(opt.program);
    if (!is) { fprintf(stderr, "no program\n"); return 9; }
    std::clog.setstate(std::ios::failbit);
    std::cerr.setstate(std::ios::failbit);
    Machine<CFG> m;
    const int    r = m.run(is);
    fflush(stdout);
    _exit(r);
}
