// Replays behaviours of spec/DDPackage.tla on the real package.
//
// Input (one operation per line, fields in fixed order, arrays preceded by their length):
//   kind d a b n z t gi | p c q (integers) | g r e s s2 m2 v m (complex)
// Output: "FAIL <behaviour> <step> <op> <family> <detail>" (exit 3) or "OK <behaviours> <ops> ..." (exit 0).
#include "common.hpp"
#include "books.hpp"
#include "dot.hpp"
#include "graph.hpp"
#include "setup.hpp"

#include <cstring>

struct Opts {
    std::set<std::string> fam;
    bool                  hold = true, gcevery = false, clearevery = false, twice = false, recycle = false, half = false, rescale = false, remember = false;
    long                  fresh = 1; // behaviours per package
    std::string           progress, program;
    bool                  has(const char* f) const { return fam.count(f) != 0; }
};
static Opts opt;

// compiled once per configuration: -DCFG=... (dd::DDPackageConfig: the default one)
#ifndef CFG
#define CFG dd::DDPackageConfig
#endif
static constexpr bool SCAN = CFG_SCAN; // unique tables small enough to look at every bucket after every operation

// what a serialized text file denotes, read independently of the package
static std::vector<cplx> parseSerialized(const std::string& text, int n, int arity) { return Graph::fromText(text, arity).expand(n); }

template<class Config>
struct Machine {
    using P = dd::Package<Config>;
    struct VSlot { dd::vEdge e; int n; std::vector<cplx> x; };
    struct MSlot { dd::mEdge e; int n; std::vector<cplx> x; };
    std::unique_ptr<P>                  dd, other;
    std::vector<VSlot>                  vs;
    std::vector<MSlot>                  ms;
    std::vector<VSlot>                  xv;
    std::vector<MSlot>                  xm;
    dd::dEdge                           den{}, kept{};
    int                                 dn = 0, kn = 0;
    std::vector<cplx>                   dx;
    int                                 nmax = 0;
    std::mt19937_64                     mt{1};
    Progress                            progress{opt.progress};
    long                                nodesSeen = 0, comparisons = 0, opsRun = 0, gcRuns = 0;

    // ---- diagrams made from explicit values ----
    dd::vEdge mkV(P& p, const std::vector<cplx>& x) { return p.makeStateFromVector(toCVec(x)); }
    dd::mEdge mkM(P& p, const std::vector<cplx>& x, int n) { return p.makeDDFromMatrix(toCMat(x, n)); }

    void begin(const Op& o) {
        nmax = o.p.at(3);
        if (!dd || opt.fresh == 1) {
            releaseAll();
            dd.reset();
            other.reset();
            dd    = std::make_unique<P>(static_cast<std::size_t>(opt.fresh == 1 ? o.p.at(4) : nmax));
            other = std::make_unique<P>(static_cast<std::size_t>(nmax));
        } else {
            releaseAll();
        }
        initial(o);
    }
    void initial(const Op& o) {
        const int n = o.n, wm = o.p.at(0);
        for (int i = 0; i < o.p.at(1); ++i) {
            std::vector<cplx> x(std::size_t{1} << n);
            x[0] = 1.;
            vs.push_back({dd->makeZeroState(static_cast<dd::QubitCount>(n)), n, x});
            if (opt.hold) { dd->incRef(vs.back().e); }
        }
        for (int i = 0; i < o.p.at(2); ++i) {
            const auto        N = std::size_t{1} << wm;
            std::vector<cplx> x(N * N);
            for (std::size_t j = 0; j < N; ++j) { x[j * N + j] = 1.; }
            ms.push_back({dd->makeIdent(static_cast<dd::QubitCount>(wm)), wm, x});
            if (opt.hold) { dd->incRef(ms.back().e); }
        }
        if (opt.has("density")) {
            den = dd->makeZeroDensityOperator(static_cast<dd::QubitCount>(n));
            dd->incRef(den);
            dn = n;
            dx.assign(std::size_t{1} << (2 * n), 0.);
            dx[0] = 1.;
        }
    }
    void releaseAll() {
        if (dd && opt.hold) {
            for (auto& s: vs) { dd->decRef(s.e); }
            for (auto& s: ms) { dd->decRef(s.e); }
            for (auto& s: xv) { dd->decRef(s.e); }
            for (auto& s: xm) { dd->decRef(s.e); }
        }
        if (dd && dn != 0) {
            dd::dEdge::alignDensityEdge(den);
            dd->decRef(den);
        }
        dn = 0;
        dropKept();
        vs.clear(); ms.clear(); xv.clear(); xm.clear();
    }
    void dropKept() {
        if (dd && kn != 0) {
            dd::dEdge::alignDensityEdge(kept);
            dd->decRef(kept);
        }
        kn = 0;
    }

    // ---- checks ----
    void checkV(const dd::vEdge& e, int n, const std::vector<cplx>& x, int z, const std::string& what) {
        if (opt.has("value")) { compare("value", what, vread(e, n), x); ++comparisons; }
        if (opt.has("size") && z > 0) {
            const auto got = dd->size(e);
            if (static_cast<int>(got) != z) { fail("size", what + ": size " + std::to_string(got) + " instead of " + std::to_string(z)); }
        }
        if (opt.has("canon")) {
            const auto f = mkV(*dd, x);
            if (!same(f, e)) { fail("canon", what + ": not the edge built from the explicit vector (weights " + S(val(e.w)) + ", " + S(val(f.w)) + (e.p == f.p ? ", same node)" : ", other node)")); }
            ++comparisons;
        }
        if (opt.has("nf")) { std::set<const void*> seen; nfV(e, n - 1, seen); }
    }
    void checkM(const dd::mEdge& e, int n, const std::vector<cplx>& x, int z, const std::string& what) {
        if (opt.has("value") || (opt.has("scalar") && what.compare(0, 6, "ptrace") == 0)) { compare("value", what, n == 0 ? std::vector<cplx>{val(e.w)} : mread(e, n), x); ++comparisons; }
        if (opt.has("size") && z > 0) {
            const auto got = dd->size(e);
            if (static_cast<int>(got) != z) { fail("size", what + ": size " + std::to_string(got) + " instead of " + std::to_string(z)); }
        }
        if (opt.has("canon")) {
            const auto f = mkM(*dd, x, n);
            if (!same(f, e)) { fail("canon", what + ": not the edge built from the explicit matrix (weights " + S(val(e.w)) + ", " + S(val(f.w)) + (e.p == f.p ? ", same node)" : ", other node)")); }
            ++comparisons;
        }
        if (opt.has("nf")) { std::set<const void*> seen; nfM(e, n - 1, seen); }
    }
    static constexpr double EPS = 1e-11;
    void nfWeight(const dd::Complex& w, const char* what) {
        // every weight of a stored node is a stored number
        for (auto* x: {w.r, w.i}) {
            const auto* a = dd::CTEntry::getAlignedPointer(x);
            if (a == &dd::ComplexTable<>::zero && dd::CTEntry::isNegativePointer(x)) { fail("nf", std::string(what) + ": negative zero"); }
            if (a->value < 0) { fail("nf", std::string(what) + ": stored number is negative"); }
        }
    }
    void nfV(const dd::vEdge& e, int level, std::set<const void*>& seen) {
        nfWeight(e.w, "weight");
        if (e.isTerminal()) { return; }
        if (e.p->v != level) { fail("nf", "vector node of level " + std::to_string(e.p->v) + " where " + std::to_string(level) + " belongs"); }
        if (!seen.insert(e.p).second) { return; }
        ++nodesSeen;
        double sum = 0, mag[2];
        for (int i = 0; i < 2; ++i) {
            const auto& c = e.p->e[static_cast<std::size_t>(i)];
            mag[i]        = std::norm(val(c.w));
            sum += mag[i];
            if (std::abs(val(c.w)) <= dd::ComplexTable<>::tolerance() && !(c.isTerminal() && c.w == dd::Complex::zero)) { fail("nf", "vector node: zero-weight successor is not the zero edge"); }
            if (c.w != dd::Complex::zero && c.isTerminal() && level != 0) { fail("nf", "vector node: successor skips levels"); }
            nfV(c, level - 1, seen);
        }
        if (std::abs(sum - 1.) > EPS) { fail("nf", "vector node: squared magnitudes sum to " + S(sum)); }
        const int  lead = mag[0] + dd::ComplexTable<>::tolerance() >= mag[1] ? 0 : 1;
        const auto w    = val(e.p->e[static_cast<std::size_t>(lead)].w);
        if (std::abs(w.imag()) > EPS || w.real() <= 0) { fail("nf", "vector node: leading largest weight " + S(w) + " is not real and positive"); }
    }
    void nfM(const dd::mEdge& e, int level, std::set<const void*>& seen) {
        nfWeight(e.w, "weight");
        if (e.isTerminal()) { return; }
        if (e.p->v != level) { fail("nf", "operator node of level " + std::to_string(e.p->v) + " where " + std::to_string(level) + " belongs"); }
        if (!seen.insert(e.p).second) { return; }
        ++nodesSeen;
        double max = 0;
        for (const auto& c: e.p->e) {
            const auto m = std::norm(val(c.w));
            max          = std::max(max, m);
            if (std::abs(val(c.w)) <= dd::ComplexTable<>::tolerance() && !(c.isTerminal() && c.w == dd::Complex::zero)) { fail("nf", "operator node: zero-weight successor is not the zero edge"); }
            if (c.w != dd::Complex::zero && c.isTerminal() && level != 0) { fail("nf", "operator node: successor skips levels"); }
            nfM(c, level - 1, seen);
        }
        if (std::abs(max - 1.) > EPS) { fail("nf", "operator node: largest magnitude is " + S(max)); }
        for (const auto& c: e.p->e) {
            if (std::norm(val(c.w)) > max - dd::ComplexTable<>::tolerance() * 4) {
                if (c.w != dd::Complex::one) { fail("nf", "operator node: leading largest weight is " + S(val(c.w)) + " instead of one"); }
                break;
            }
        }
        // marks
        const auto n    = level + 1;
        const auto N    = std::size_t{1} << n;
        const auto x    = mread(dd::mEdge{e.p, dd::Complex::one}, n);
        bool       symm = true, id = true;
        for (std::size_t r = 0; r < N; ++r) {
            for (std::size_t c = 0; c < N; ++c) {
                if (std::abs(x[r * N + c] - x[c * N + r]) > 1e-9) { symm = false; }
                if (std::abs(x[r * N + c] - (r == c ? 1. : 0.)) > 1e-9) { id = false; }
            }
        }
        if (e.p->isSymmetric() != symm) { fail("nf", std::string("operator node is ") + (symm ? "" : "not ") + "symmetric but marked otherwise"); }
        if (e.p->isIdentity() != id) { fail("nf", std::string("operator node is ") + (id ? "" : "not ") + "the identity but marked otherwise"); }
    }
    void checkSlots() {
        if (opt.has("operands")) {
            for (auto& s: vs) { compare("operands", "a diagram held in a vector slot changed", vread(s.e, s.n), s.x); }
            for (auto& s: ms) { compare("operands", "a diagram held in an operator slot changed", s.n == 0 ? std::vector<cplx>{val(s.e.w)} : mread(s.e, s.n), s.x); }
            for (auto& s: xv) { compare("operands", "a vector diagram with an extra reference changed", vread(s.e, s.n), s.x); }
            for (auto& s: xm) { compare("operands", "an operator diagram with an extra reference changed", s.n == 0 ? std::vector<cplx>{val(s.e.w)} : mread(s.e, s.n), s.x); }
        }
        if (opt.has("operands") && dn != 0) {
            dcheck("operands");
        }
        if (opt.has("unique") && SCAN) {
            nodesSeen += uniqueNodes(dd->vUniqueTable, "vectors");
            nodesSeen += uniqueNodes(dd->mUniqueTable, "operators");
            if (opt.has("dunique")) { nodesSeen += uniqueNodes(dd->dUniqueTable, "density matrices"); }
        }
        if (opt.has("refs")) { refs(); }
        if (opt.has("alive")) { alive(); }
    }
    // a collection reports whether it removed something
    void collect(bool forced) {
        ++gcRuns;
        auto       counts = [&] { return std::array<std::size_t, 4>{dd->vUniqueTable.getNodeCount(), dd->mUniqueTable.getNodeCount(), dd->dUniqueTable.getNodeCount(), dd->cn.complexTable.getCount()}; };
        const auto before = counts();
        const bool said   = dd->garbageCollect(forced);
        const auto after  = counts();
        if (opt.has("report") && said != (before != after)) {
            static const char* names[] = {"vector nodes", "operator nodes", "density nodes", "numbers"};
            std::string        d;
            for (std::size_t i = 0; i < 4; ++i) { d += std::string(i ? ", " : "") + std::to_string(before[i]) + " -> " + std::to_string(after[i]) + " " + names[i]; }
            fail("report", std::string("a collection says it collected ") + (said ? "something: " : "nothing: ") + d);
        }
        if (opt.has("report") && forced) {
            if (dd->garbageCollect(true)) { fail("report", "a second collection in a row collected something"); }
        }
    }
    // numbers nobody holds, until the package wants to collect; such a collection removes the dead nodes as well
    void fill(bool explicitly) {
        for (long i = 0; !dd->cn.complexTable.possiblyNeedsCollection(); ++i) {
            if (i > 3000000) { fail("alive", "the number table never asks for a collection"); }
            const double x = static_cast<double>(filled++ % 400000);
            (void)dd->cn.lookup(1.3e-6 * x + 0.00131, 0.7 + 1e-9 * x);
        }
        if (!explicitly) { return; }
        if (!dd->garbageCollect(false) && opt.has("report")) { fail("report", "a collection of unused numbers was not reported"); }
        ++gcRuns;
        alive(true);
    }
    long filled = 0;
    // after a forced collection: exactly what live diagrams reach is stored
    void alive(bool now = false) {
        if (!opt.hold || (!opt.gcevery && !now)) { return; }
        if (now && !opt.has("alive")) { return; }
        std::size_t dead = 0;
        for (const auto& t: dd->vUniqueTable.getTables()) { for (auto* p: t) { for (; p != nullptr; p = p->next) { dead += p->ref == 0 ? 1 : 0; } } }
        for (const auto& t: dd->mUniqueTable.getTables()) { for (auto* p: t) { for (; p != nullptr; p = p->next) { dead += p->ref == 0 ? 1 : 0; } } }
        for (const auto& t: dd->dUniqueTable.getTables()) { for (auto* p: t) { for (; p != nullptr; p = p->next) { dead += p->ref == 0 ? 1 : 0; } } }
        if (dead != 0) { fail("alive", std::to_string(dead) + " unreferenced nodes survived a forced collection"); }
    }
    void refs() {
        if (!opt.hold) { return; }
        std::map<const void*, std::size_t> vn, mn, num;
        for (auto& s: vs) { addRef(s.e, vn, num); }
        for (auto& s: xv) { addRef(s.e, vn, num); }
        for (auto& s: ms) { addRef(s.e, mn, num); }
        for (auto& s: xm) { addRef(s.e, mn, num); }
        countNodes(dd->vUniqueTable, vn, num);
        countNodes(dd->mUniqueTable, mn, num);
        compareRefs(dd->vUniqueTable, vn, "vectors");
        compareRefs(dd->mUniqueTable, mn, "operators");
        std::map<const void*, std::size_t> dnodes;
        for (auto e: {dn != 0 ? den : dd::dEdge::zero, kn != 0 ? kept : dd::dEdge::zero}) {
            dd::dEdge::alignDensityEdge(e);
            addRef(e, dnodes, num);
        }
        countNodes(dd->dUniqueTable, dnodes, num);
        compareRefs(dd->dUniqueTable, dnodes, "density matrices");
        compareNumbers(dd->cn.complexTable, num);
    }

    void assignV(int d, const dd::vEdge& e, int n, const std::vector<cplx>& x, bool owned = false) {
        auto& s = vs.at(static_cast<std::size_t>(d - 1));
        if (opt.hold && !owned) { dd->incRef(e); }
        if (opt.hold && !owned) { dd->decRef(s.e); }
        if (!opt.hold && owned) { dd->decRef(e); }
        s = {e, n, x};
    }
    void assignM(int d, const dd::mEdge& e, int n, const std::vector<cplx>& x, bool owned = false) {
        auto& s = ms.at(static_cast<std::size_t>(d - 1));
        if (opt.hold && !owned) { dd->incRef(e); }
        if (opt.hold && !owned) { dd->decRef(s.e); }
        if (!opt.hold && owned) { dd->decRef(e); }
        s = {e, n, x};
    }
    VSlot& V(int i) { return vs.at(static_cast<std::size_t>(i - 1)); }
    MSlot& M(int i) { return ms.at(static_cast<std::size_t>(i - 1)); }

    // unreferenced junk on recycled memory
    void junk(int n) {
        for (int k = 0; k < 3; ++k) {
            std::vector<cplx> x(std::size_t{1} << n), y(std::size_t{1} << (2 * std::min(n, 3)));
            std::uniform_int_distribution<int> u(-5, 5);
            for (auto& c: x) { c = {u(mt) * 0.173, u(mt) * 0.291}; }
            for (auto& c: y) { c = {u(mt) * 0.137, u(mt) * 0.219}; }
            (void)mkV(*dd, x);
            (void)mkM(*dd, y, std::min(n, 3));
        }
    }

    // comparison tolerance relative to the largest value
    static double eps(const std::vector<cplx>& x) {
        double m = 1.;
        for (const auto& c: x) { m = std::max(m, std::abs(c)); }
        return 1e-9 * m;
    }
    // every number and node of the diagram is one the package itself stores
    template<class E>
    void owned(P& p, const E& root, const char* fam) {
        std::set<const void*> nums, nodes;
        for (auto* x: p.cn.complexTable.getTable()) { for (; x != nullptr; x = x->next) { nums.insert(x); } }
        nums.insert(&dd::ComplexTable<>::zero);
        nums.insert(&dd::ComplexTable<>::sqrt2_2);
        nums.insert(&dd::ComplexTable<>::one);
        auto stored = [&](auto& ut) { for (const auto& t: ut.getTables()) { for (auto* x: t) { for (; x != nullptr; x = x->next) { nodes.insert(x); } } } };
        if (SCAN) { if constexpr (std::is_same_v<E, dd::vEdge>) { stored(p.vUniqueTable); } else if constexpr (std::is_same_v<E, dd::dEdge>) { stored(p.dUniqueTable); } else { stored(p.mUniqueTable); } }
        std::set<const void*>         seen;
        std::function<void(const E&)> rec = [&](const E& e) {
            for (auto* x: {e.w.r, e.w.i}) { if (nums.count(dd::CTEntry::getAlignedPointer(x)) == 0) { fail(fam, "a weight of the result is not a number of its package"); } }
            if (e.isTerminal()) { return; }
            if (SCAN && nodes.count(e.p) == 0) { fail(fam, "a node of the result is not stored in its package"); }
            if (!seen.insert(e.p).second) { return; }
            for (const auto& c: e.p->e) { rec(c); }
        };
        rec(root);
    }
    dd::vEdge anyV(P& p, const std::vector<cplx>& x, int n) { return n == 0 ? dd::vEdge::terminal(p.cn.lookup(x.at(0).real(), x.at(0).imag())) : mkV(p, x); }
    dd::mEdge anyM(P& p, const std::vector<cplx>& x, int n) { return n == 0 ? dd::mEdge::terminal(p.cn.lookup(x.at(0).real(), x.at(0).imag())) : mkM(p, x, n); }
    static std::vector<cplx> readM0(const dd::mEdge& e, int n) { return n == 0 ? std::vector<cplx>{val(e.w)} : mread(e, n); }
    static std::vector<cplx> readV0(const dd::vEdge& e, int n) { return n == 0 ? std::vector<cplx>{val(e.w)} : vread(e, n); }
    dd::vEdge storedV(const dd::vEdge& e, int n, const std::vector<cplx>& x, bool bin) {
        std::stringstream ss;
        dd::serialize(e, ss, bin);
        const auto text = ss.str();
        if (!bin && opt.has("file")) { compare("file", "serialized vector", parseSerialized(text, n, 2), x, eps(x)); }
        const auto res = dd->template deserialize<dd::vNode>(ss, bin);
        if (opt.has("roundtrip")) {
            if (!same(res, e)) { fail("roundtrip", "reading a vector back into the same package gives another edge"); }
            std::stringstream s2(text);
            const auto        e2 = other->template deserialize<dd::vNode>(s2, bin);
            compare("roundtrip", "vector read into another package", readV0(e2, n), x, eps(x));
            if (!same(e2, anyV(*other, x, n))) { fail("roundtrip", "vector read into another package is not its canonical edge"); }
            owned(*other, e2, "roundtrip");
        }
        return res;
    }
    dd::vEdge transferredV(const dd::vEdge& e, int n, const std::vector<cplx>& x) {
        auto       arg = e;
        const auto f   = other->transfer(arg);
        if (!same(arg, e)) { fail("transfer", "transferring a vector changed the edge"); }
        compare("transfer", "transferred vector", readV0(f, n), x, eps(x));
        if (!same(f, anyV(*other, x, n))) { fail("transfer", "transferred vector is not the canonical edge of the target package"); }
        owned(*other, f, "transfer");
        auto       back = f;
        const auto res  = dd->transfer(back);
        if (!same(res, e)) { fail("transfer", "transferring a vector back gives another edge"); }
        return res;
    }
    dd::mEdge storedM(const dd::mEdge& e, int n, const std::vector<cplx>& x, bool bin) {
        std::stringstream ss;
        dd::serialize(e, ss, bin);
        const auto text = ss.str();
        if (!bin && opt.has("file")) { compare("file", "serialized operator", parseSerialized(text, n, 4), x, eps(x)); }
        const auto res = dd->template deserialize<dd::mNode>(ss, bin);
        if (opt.has("roundtrip")) {
            if (!same(res, e)) { fail("roundtrip", "reading a operator back into the same package gives another edge"); }
            std::stringstream s2(text);
            const auto        e2 = other->template deserialize<dd::mNode>(s2, bin);
            compare("roundtrip", "operator read into another package", readM0(e2, n), x, eps(x));
            if (!same(e2, anyM(*other, x, n))) { fail("roundtrip", "operator read into another package is not its canonical edge"); }
            owned(*other, e2, "roundtrip");
        }
        return res;
    }
    dd::mEdge transferredM(const dd::mEdge& e, int n, const std::vector<cplx>& x) {
        auto       arg = e;
        const auto f   = other->transfer(arg);
        if (!same(arg, e)) { fail("transfer", "transferring a operator changed the edge"); }
        compare("transfer", "transferred operator", readM0(f, n), x, eps(x));
        if (!same(f, anyM(*other, x, n))) { fail("transfer", "transferred operator is not the canonical edge of the target package"); }
        owned(*other, f, "transfer");
        auto       back = f;
        const auto res  = dd->transfer(back);
        if (!same(res, e)) { fail("transfer", "transferring a operator back gives another edge"); }
        return res;
    }
    // ---- operations giving vectors / operators ----
    bool vecOp(const Op& o, dd::vEdge& res) {
        const auto& k = o.k;
        const auto  n = static_cast<dd::QubitCount>(o.n);
        if (k == "vbasis") {
            std::vector<bool> b;
            for (int i = 0; i < o.n; ++i) { b.push_back(((o.p.at(0) >> i) & 1) != 0); }
            res = dd->makeBasisState(n, b);
        } else if (k == "vzero") { res = dd->makeZeroState(n);
        } else if (k == "vstate") { res = dd->makeBasisState(n, statesOf(o.p));
        } else if (k == "vvec") { res = mkV(*dd, o.r);
        } else if (k == "vadd") { res = dd->add(V(o.a).e, V(o.b).e);
        } else if (k == "mv") { res = dd->multiply(M(o.a).e, V(o.b).e);
        } else if (k == "vkron") { res = dd->kronecker(V(o.a).e, V(o.b).e);
        } else if (k == "vkrons") {
            const int  nb = V(o.b).n, na = static_cast<int>(o.p.size());
            const auto x = dd->makeBasisState(static_cast<dd::QubitCount>(na), statesOf(o.p, nb), static_cast<std::size_t>(nb));
            const int  most = *std::max_element(o.p.begin(), o.p.end());
            if (most <= 1 && opt.has("value")) { // the same state from the other two constructors
                std::vector<bool> bits(static_cast<std::size_t>(nb), true);
                for (const int b: o.p) { bits.push_back(b != 0); }
                if (!same(x, dd->makeBasisState(static_cast<dd::QubitCount>(na), bits, static_cast<std::size_t>(nb)))) { fail("value", "a basis state from qubit " + std::to_string(nb) + " on differs between the two constructors"); }
                if (most == 0 && !same(x, dd->makeZeroState(static_cast<dd::QubitCount>(na), static_cast<std::size_t>(nb)))) { fail("value", "the zero state from qubit " + std::to_string(nb) + " on is not the basis state 0..0"); }
            }
            res          = dd->kronecker(x, V(o.b).e, false);
        } else if (k == "vdel") { res = dd->deleteEdge(V(o.a).e, static_cast<dd::Qubit>(o.p.at(0)), static_cast<std::size_t>(o.p.at(1)));
        } else if (k == "vser") {
            res = storedV(V(o.a).e, V(o.a).n, V(o.a).x, o.p.at(0) != 0);
        } else if (k == "vtransfer") {
            res = transferredV(V(o.a).e, o.n, o.r);
        } else { return false; }
        return true;
    }
    bool matOp(const Op& o, dd::mEdge& res) {
        const auto& k = o.k;
        const auto  n = static_cast<dd::QubitCount>(o.n);
        if (k == "mmat") { res = mkM(*dd, o.r, o.n);
        } else if (k == "mid") { res = dd->makeIdent(n);
        } else if (k == "mgate") { res = dd->makeGateDD(gateOf(o.g), n, controlsOf(o.c), static_cast<dd::Qubit>(o.p.at(0)));
        } else if (k == "madd") { res = dd->add(M(o.a).e, M(o.b).e);
        } else if (k == "mm") { res = dd->multiply(M(o.a).e, M(o.b).e);
        } else if (k == "mkron") { res = dd->kronecker(M(o.a).e, M(o.b).e);
        } else if (k == "mkrons") {
            const int  nb = M(o.b).n, na = static_cast<int>(o.c.size());
            const auto x = dd->makeGateDD(gateOf(o.g), static_cast<dd::QubitCount>(na), controlsOf(o.c, nb), static_cast<dd::Qubit>(o.p.at(0) + nb), static_cast<std::size_t>(nb));
            res          = dd->kronecker(x, M(o.b).e, false);
        } else if (k == "mext") { res = dd->extend(M(o.a).e, static_cast<dd::Qubit>(o.p.at(0)), static_cast<dd::Qubit>(o.p.at(1)));
        } else if (k == "mtrans") { res = dd->transpose(M(o.a).e);
        } else if (k == "madj") { res = dd->conjugateTranspose(M(o.a).e);
        } else if (k == "ptrace") { res = dd->partialTrace(M(o.a).e, boolsOf(o.p));
        } else if (k == "mdel") { res = dd->deleteEdge(M(o.a).e, static_cast<dd::Qubit>(o.p.at(0)), static_cast<std::size_t>(o.p.at(1)));
        } else if (k == "mser") {
            res = storedM(M(o.a).e, M(o.a).n, M(o.a).x, o.p.at(0) != 0);
        } else if (k == "mtransfer") {
            res = transferredM(M(o.a).e, o.n, o.r);
        } else { return false; }
        return true;
    }
    // operations that hand over the references of their argument
    bool owningV(const Op& o, dd::vEdge& res) {
        if (o.k != "vgarb" && o.k != "meas" && o.k != "measall") { return false; }
        auto& s = V(o.a);
        if (o.k == "vgarb") {
            if (!opt.hold) { dd->incRef(s.e); }
            auto arg = s.e;
            res      = dd->reduceGarbage(arg, boolsOf(o.p));
        } else if (o.k == "meas") {
            if (!opt.hold) { dd->incRef(s.e); }
            res = measure(s, o.p.at(0), o.p.at(1));
        } else if (o.k == "measall") {
            if (!opt.hold) { dd->incRef(s.e); }
            for (int tries = 0;; ++tries) {
                if (tries > 20000) { fail("measure", "an outcome of non-zero probability never occurs"); }
                auto       arg = s.e;
                const auto str = dd->measureAll(arg, false, mt);
                checkOutcome(s, str);
                if (str != bits(o.p.at(0), s.n)) { continue; }
                // the same outcome again, this time with collapse
                for (;; ++tries) {
                    if (tries > 40000) { fail("measure", "an outcome of non-zero probability never occurs"); }
                    dd->incRef(s.e);
                    arg             = s.e;
                    const auto str2 = dd->measureAll(arg, true, mt);
                    checkOutcome(s, str2);
                    std::vector<cplx> want(s.x.size());
                    want[value(str2)] = 1.;
                    compare("measure", "state after measuring everything", vread(arg, s.n), want);
                    if (str2 == str) { dd->decRef(s.e); break; }
                    dd->decRef(arg);
                }
                res = arg;
                break;
            }
        } else { return false; }
        return true;
    }
    static std::string bits(int b, int n) {
        std::string r;
        for (int i = n - 1; i >= 0; --i) { r += ((b >> i) & 1) != 0 ? '1' : '0'; }
        return r;
    }
    static std::size_t value(const std::string& s) {
        std::size_t v = 0;
        for (char ch: s) { v = 2 * v + (ch == '1' ? 1 : 0); }
        return v;
    }
    static void checkOutcome(const VSlot& s, const std::string& str) {
        if (static_cast<int>(str.size()) != s.n || str.find_first_not_of("01") != std::string::npos) { fail("measure", "measured string " + str + " for " + std::to_string(s.n) + " qubits"); }
        if (std::norm(s.x[value(str)]) < 1e-12) { fail("measure", "outcome " + str + " of probability zero was returned"); }
    }
    // measure qubit q until the outcome is out; the state must be handed over each time
    dd::vEdge measure(VSlot& s, int q, int out) {
        double p[2] = {0, 0};
        for (std::size_t i = 0; i < s.x.size(); ++i) { p[(i >> q) & 1] += std::norm(s.x[i]); }
        for (int tries = 0; tries < 20000; ++tries) {
            auto arg = s.e;
            dd->incRef(s.e); // the copy
            const char        c = dd->measureOneCollapsing(arg, static_cast<dd::Qubit>(q), tries % 2 == 0, mt);
            std::vector<cplx> want(s.x.size());
            const int         r = c - '0';
            if (r != 0 && r != 1) { fail("measure", "outcome is neither 0 nor 1"); }
            if (p[r] < 1e-12) { fail("measure", "an outcome of probability zero was returned"); }
            for (std::size_t i = 0; i < s.x.size(); ++i) { if (static_cast<int>((i >> q) & 1) == r) { want[i] = s.x[i] / std::sqrt(p[r]); } }
            compare("measure", "state after measuring qubit " + std::to_string(q) + " with outcome " + c, vread(arg, s.n), want);
            if (r == out) {
                dd->decRef(s.e);
                return arg;
            }
            dd->decRef(arg);
        }
        fail("measure", "an outcome of non-zero probability never occurs");
    }
    bool owningM(const Op& o, dd::mEdge& res) {
        if (o.k == "manc" || o.k == "mgarb") {
            auto& s = M(o.a);
            if (!opt.hold) { dd->incRef(s.e); }
            auto arg = s.e;
            res      = o.k == "manc" ? dd->reduceAncillae(arg, boolsOf(o.p), o.t != 0) : dd->reduceGarbage(arg, boolsOf(o.p), o.t != 0);
        } else if (o.k == "minit") {
            auto&      s = M(o.d);
            res          = dd->createInitialMatrix(static_cast<dd::QubitCount>(o.n), boolsOf(o.p));
            if (opt.hold) { dd->decRef(s.e); }
        } else { return false; }
        return true;
    }

    // ---- operations giving numbers ----
    bool scalarOp(const Op& o) {
        const auto& k = o.k;
        const bool  c = opt.has("scalar");
        if (k == "inner") {
            const auto r = dd->innerProduct(V(o.a).e, V(o.b).e);
            if (c) { compare1("scalar", "inner product", {r.r, r.i}, o.s.at(0)); }
        } else if (k == "fid") {
            const auto r = dd->fidelity(V(o.a).e, V(o.b).e);
            if (c) { compare1("scalar", "fidelity", r, o.s.at(0), 1e-8); }
        } else if (k == "fidm") {
            dd::ProbabilityVector pv;
            double                want = 0;
            for (std::size_t i = 0; i < o.q.size(); ++i) {
                const double q = o.q[i] / 4.;
                if (o.q[i] != 0) { pv[i] = q * q; }
                want += q * std::sqrt(o.m2[i].real());
            }
            const auto r = dd->fidelityOfMeasurementOutcomes(V(o.a).e, pv);
            if (c) { compare1("scalar", "fidelity of measurement outcomes", r, want); }
        } else if (k == "trace") {
            const auto r = dd->trace(M(o.a).e);
            if (c) { compare1("scalar", "trace", {r.r, r.i}, o.s.at(0)); }
        } else if (k == "isid") {
            const bool r = dd->isCloseToIdentity(o.r.empty() ? M(o.a).e : mkM(*dd, o.r, o.n));
            if (c && r != (o.t != 0)) { fail("scalar", std::string("identity test answers ") + (r ? "true" : "false")); }
        } else if (k == "probs") {
            for (int m = 0; m < 2; ++m) {
                const auto [p0, p1] = dd->determineMeasurementProbabilities(V(o.a).e, static_cast<dd::Qubit>(o.p.at(0)), m != 0);
                if (opt.has("measure")) {
                    compare1("measure", "probability of 0", p0, o.s.at(0));
                    compare1("measure", "probability of 1", p1, o.s2.at(0));
                }
            }
        } else if (k == "measx") {
            auto& s = V(o.a);
            if (!opt.hold) { dd->incRef(s.e); }
            dd->incRef(s.e);
            const auto e = measure(s, o.p.at(0), o.p.at(1)); // takes over one reference
            dd->decRef(e);
            if (!opt.hold) { dd->decRef(s.e); }
        } else if (k == "measstat") {
            auto&            s = V(o.a);
            const int        N = 600;
            std::vector<int> hist(s.x.size());
            for (int i = 0; i < N; ++i) {
                auto       arg = s.e;
                const auto str = dd->measureAll(arg, false, mt);
                checkOutcome(s, str);
                if (!same(arg, s.e)) { fail("measure", "measuring without collapse changed the state"); }
                hist[value(str)]++;
            }
            std::vector<double> one(static_cast<std::size_t>(s.n));
            for (std::size_t i = 0; i < hist.size(); ++i) {
                const double p  = o.m2[i].real();
                const double sd = std::sqrt(N * p * (1 - p)) + 1e-9;
                if (std::abs(hist[i] - N * p) > 6.5 * sd + 3) { fail("measure", "outcome " + bits(static_cast<int>(i), s.n) + " occurred " + std::to_string(hist[i]) + " times in " + std::to_string(N) + ", probability " + S(p)); }
            }
            // single-qubit frequencies, collapsing copies
            for (int q = 0; q < s.n; ++q) {
                double p1 = 0;
                for (std::size_t i = 0; i < s.x.size(); ++i) { if (((i >> q) & 1) != 0) { p1 += std::norm(s.x[i]); } }
                int       ones = 0;
                const int K    = 300;
                for (int i = 0; i < K; ++i) {
                    auto arg = s.e;
                    dd->incRef(arg);
                    ones += dd->measureOneCollapsing(arg, static_cast<dd::Qubit>(q), true, mt) == '1' ? 1 : 0;
                    dd->decRef(arg);
                }
                const double sd = std::sqrt(K * p1 * (1 - p1)) + 1e-9;
                if (std::abs(ones - K * p1) > 6.5 * sd + 3) { fail("measure", "qubit " + std::to_string(q) + " was one " + std::to_string(ones) + " times in " + std::to_string(K) + ", probability " + S(p1)); }
            }
        } else if (k == "vexport") {
            if (opt.has("export")) { comparisons += dot::all(V(o.a).e, o.n, 2, o.e, o.z, opsRun); }
        } else if (k == "mexport") {
            if (opt.has("export")) { comparisons += dot::all(M(o.a).e, o.n, 4, o.e, o.z, opsRun); }
        } else if (k == "vexpo") {
            if (opt.has("export")) { comparisons += dot::all(anyV(*dd, o.r, o.n), o.n, 2, o.r, 0, opsRun); }
        } else if (k == "mexpo") {
            if (opt.has("export")) { comparisons += dot::all(anyM(*dd, o.r, o.n), o.n, 4, o.r, 0, opsRun); }
        } else if (k == "vread") { readV(V(o.a), o.e);
        } else if (k == "mread") { readM(M(o.a), o.e);
        } else { return false; }
        return true;
    }
    // diagrams without levels
    void scalars(const Op& o) {
        const auto mk = [&](const cplx& z, auto zero) {
            using Edge = decltype(zero);
            const auto w = dd->cn.lookup(z.real(), z.imag());
            return w == dd::Complex::zero ? Edge::zero : Edge::terminal(w);
        };
        const auto va = mk(o.r.at(0), dd::vEdge::zero), vb = mk(o.r.at(1), dd::vEdge::zero);
        const auto ma = mk(o.r.at(0), dd::mEdge::zero), mb = mk(o.r.at(1), dd::mEdge::zero);
        const auto is = [&](const char* fam, const char* what, const auto& e, const cplx& want) {
            if (!e.isTerminal()) { fail(fam, std::string(what) + " of numbers has a level"); }
            compare1(fam, what, cplx(dd::CTEntry::val(e.w.r), dd::CTEntry::val(e.w.i)), want);
        };
        const auto val = [&](const char* what, const dd::ComplexValue& c, const cplx& want) { compare1("read", what, cplx(c.r, c.i), want); };
        val("number by path", dd->getValueByPath(va, ""), o.r[0]);
        val("number by path", dd->getValueByPath(ma, "01"), o.r[0]);
        val("number by index", dd->getValueByPath(va, 0), o.r[0]);
        val("number by index", dd->getValueByPath(ma, 0, 0), o.r[0]);
        is("value", "sum", dd->add(va, vb), o.e.at(0));
        is("value", "sum", dd->add(ma, mb), o.e.at(0));
        is("value", "product", dd->multiply(ma, vb), o.e.at(1));
        is("value", "product", dd->multiply(ma, mb), o.e.at(1));
        is("value", "Kronecker product", dd->kronecker(va, vb), o.e.at(1));
        is("value", "Kronecker product", dd->kronecker(ma, mb), o.e.at(1));
        is("value", "transpose", dd->transpose(ma), o.r[0]);
        is("value", "adjoint", dd->conjugateTranspose(ma), o.e.at(3));
        is("value", "state of no amplitudes", dd->makeStateFromVector({}), 1.);
        is("value", "operator of no entries", dd->makeDDFromMatrix({}), 1.);
        if (opt.has("scalar")) {
            const auto in = dd->innerProduct(va, vb);
            compare1("scalar", "inner product of numbers", cplx(in.r, in.i), o.e.at(2));
            const auto tr = dd->trace(ma);
            compare1("scalar", "trace of a number", cplx(tr.r, tr.i), o.r[0]);
        }
    }
    static std::string captured(const std::function<void()>& f) {
        std::ostringstream os;
        auto*              old = std::cout.rdbuf(os.rdbuf());
        try { f(); } catch (...) { std::cout.rdbuf(old); throw; }
        std::cout.rdbuf(old);
        return os.str();
    }
    static std::string squeezed(const std::string& s) {
        std::string r;
        for (char ch: s) { if (ch != ' ') { r += ch; } }
        return r;
    }
    void readV(const VSlot& s, const std::vector<cplx>& e) {
        const auto   n   = s.n;
        const double tol = eps(e) * 1e-3;
        if (s.e.isTerminal()) { return; } // nothing to read: the zero vector has no levels
        compare("read", "getVector", dd->getVector(s.e), e, tol);
        for (std::size_t i = 0; i < e.size(); ++i) {
            const auto a = dd->getValueByPath(s.e, i);
            compare1("read", "getValueByPath(index " + std::to_string(i) + ")", {a.r, a.i}, e[i], tol);
            std::string path;
            for (int q = 0; q < n; ++q) { path += ((i >> q) & 1) != 0 ? '1' : '0'; }
            const auto b = dd->getValueByPath(s.e, path);
            compare1("read", "getValueByPath(" + path + ")", {b.r, b.i}, e[i], tol);
            const auto b2 = dd->getValueByPath(s.e, path + "10"); // superfluous characters are ignored
            compare1("read", "getValueByPath(" + path + "10)", {b2.r, b2.i}, e[i], tol);
        }
        const auto        nq = static_cast<dd::QubitCount>(n);
        std::vector<cplx> arr(e.size());
        dd->exportAmplitudes(s.e, arr, nq);
        compare("read", "exportAmplitudes(array)", arr, e, tol);
        std::vector<cplx> accum(e.size());
        for (std::size_t i = 0; i < e.size(); ++i) { accum[i] = cplx(0.25 * static_cast<double>(i), -1.); }
        auto want = accum;
        for (std::size_t i = 0; i < e.size(); ++i) { want[i] += e[i]; }
        dd->addAmplitudes(s.e, accum, nq);
        compare("read", "addAmplitudes", accum, want, tol);
        std::stringstream bs;
        dd->exportAmplitudes(s.e, bs, nq, true);
        std::vector<cplx> bin;
        double            re = 0, im = 0;
        while (bs.read(reinterpret_cast<char*>(&re), sizeof re) && bs.read(reinterpret_cast<char*>(&im), sizeof im)) { bin.emplace_back(re, im); }
        compare("read", "exportAmplitudes(binary)", bin, e, tol);
        std::stringstream ts;
        dd->exportAmplitudes(s.e, ts, nq, false);
        compare("read", "exportAmplitudes(text)", parseLines(ts), e, tol);
        // printing: one line per basis state, most significant qubit first, three digits
        std::istringstream ps(captured([&] { dd->printVector(s.e); }));
        std::string        line;
        for (std::size_t i = 0; i < e.size(); ++i) {
            if (!std::getline(ps, line)) { fail("read", "printVector: line missing"); }
            if (line.substr(0, static_cast<std::size_t>(n)) != bits(static_cast<int>(i), n)) { fail("read", "printVector: wrong label " + line); }
            compare1("read", "printVector line " + std::to_string(i), number(squeezed(line.substr(line.find(':') + 1))), e[i], 6e-3 * std::abs(e[i]) + tol);
        }
    }
    void readM(const MSlot& s, const std::vector<cplx>& e) {
        const auto   n   = s.n;
        const double tol = eps(e) * 1e-3;
        const auto  N = std::size_t{1} << n;
        if (s.e.isTerminal()) { return; }
        const auto m = dd->getMatrix(s.e);
        if (m.size() != N) { fail("read", "getMatrix: wrong dimension"); }
        std::vector<cplx> flat;
        for (const auto& row: m) { flat.insert(flat.end(), row.begin(), row.end()); }
        compare("read", "getMatrix", flat, e, tol);
        for (std::size_t r = 0; r < N; ++r) {
            for (std::size_t c = 0; c < N; ++c) {
                const auto a = dd->getValueByPath(s.e, r, c);
                compare1("read", "getValueByPath(" + std::to_string(r) + "," + std::to_string(c) + ")", {a.r, a.i}, e[r * N + c], tol);
                std::string path;
                for (int q = 0; q < n; ++q) { path += static_cast<char>('0' + 2 * ((r >> q) & 1) + ((c >> q) & 1)); }
                const auto b = dd->getValueByPath(s.e, path);
                compare1("read", "getValueByPath(" + path + ")", {b.r, b.i}, e[r * N + c], tol);
            }
        }
        std::istringstream ps(captured([&] { dd->printMatrix(s.e); }));
        std::string        line, tok;
        for (std::size_t r = 0; r < N; ++r) {
            if (!std::getline(ps, line)) { fail("read", "printMatrix: line missing"); }
            std::istringstream ls(line);
            for (std::size_t c = 0; c < N; ++c) {
                if (!(ls >> tok)) { fail("read", "printMatrix: entry missing"); }
                compare1("read", "printMatrix entry", number(tok), e[r * N + c], 6e-3 * std::abs(e[r * N + c]) + tol);
            }
        }
    }
    static cplx number(std::string t) {
        if (t.empty()) { fail("read", "empty number"); }
        if (t.back() != 'i') { return {strtod(t.c_str(), nullptr), 0.}; }
        t.pop_back();
        std::size_t pos = 0;
        for (std::size_t i = 1; i < t.size(); ++i) {
            if ((t[i] == '+' || t[i] == '-') && t[i - 1] != 'e' && t[i - 1] != 'E') { pos = i; }
        }
        auto im = [](const std::string& s) { return s.empty() || s == "+" ? 1. : s == "-" ? -1. : strtod(s.c_str(), nullptr); };
        return {pos == 0 ? 0. : strtod(t.substr(0, pos).c_str(), nullptr), im(t.substr(pos))};
    }
    static std::vector<cplx> parseLines(std::istream& is) {
        std::vector<cplx> r;
        std::string       line;
        while (std::getline(is, line)) { r.push_back(number(squeezed(line))); }
        return r;
    }

    // ---- density matrices ----
    void dcheck(const char* fam = "density") {
        const auto before = den;
        const auto m      = dd->getDensityMatrix(den);
        if (den.p != before.p || den.w != before.w) { fail(fam, "reading a density matrix changed its edge"); }
        std::vector<cplx> flat;
        for (const auto& row: m) { flat.insert(flat.end(), row.begin(), row.end()); }
        compare(fam, "density matrix", flat, dx);
        ++comparisons;
    }
    bool densOp(const Op& o) {
        const auto& k = o.k;
        if (k == "dinit") {
            if (dn != 0) {
                dd::dEdge::alignDensityEdge(den);
                dd->decRef(den);
            }
            den = dd->makeZeroDensityOperator(static_cast<dd::QubitCount>(o.n));
            dd->incRef(den);
            dn = o.n;
            dx = o.r;
        } else if (k == "dapply" || k == "dapplym") {
            if (dn == 0) { return true; }
            const auto g = k == "dapply" ? dd->makeGateDD(gateOf(o.g), static_cast<dd::QubitCount>(o.n), controlsOf(o.c), static_cast<dd::Qubit>(o.p.at(0))) : M(o.a).e;
            if (opt.rescale) { rescaledD(o, g); }
            dd->applyOperationToDensity(den, g, opt.half);
            dx = o.r;
            if (opt.remember) { rememberD(); }
        } else if (k == "dkeep") {
            dropKept();
            if (dn == 0) { return true; }
            kept = den;
            auto copy = kept;
            dd::dEdge::alignDensityEdge(copy);
            dd->incRef(copy);
            kn = dn;
        } else if (k == "dadd") {
            if (opt.half) { fprintf(stderr, "sums are specified for complete density matrices only\n"); exit(9); }
            const auto sum = dd->add(den, kept);
            dd->incRef(sum);
            dd->decRef(den);
            den = sum;
            dx  = o.r;
        } else if (k == "dprobs") {
            if (dn == 0) { return true; }
            const auto   same = den;
            const double thr  = 1e-6;
            const auto   pv   = dd->getProbVectorFromDensityMatrix(den, thr);
            if (den.p != same.p || den.w != same.w) { fail("density", "reading probabilities changed the edge of the density matrix"); }
            double       sum = 0, all = 0;
            for (std::size_t i = 0; i < o.m2.size(); ++i) {
                std::string key;
                for (int q = 0; q < dn; ++q) { key += ((i >> q) & 1) != 0 ? "1" : "0"; } // qubit 0 first
                const auto   it  = pv.find(key);
                const double got = it == pv.end() ? 0. : it->second;
                const double p   = o.m2[i].real();
                all += p;
                sum += got;
                if (p > 1e-3) { compare1("density", "probability of " + key, got, p); }
                else if (!(std::abs(got - p) <= 2e-3)) { fail("density", "probability of " + key + " is " + S(got) + " instead of " + S(p)); }
            }
            if (pv.size() > o.m2.size()) { fail("density", "too many outcomes"); }
        } else { return false; }
        if (opt.has("density")) { dcheck(); }
        return true;
    }

    // ---- requests on and beyond the boundary of what is supported ----
    using Snapshot = std::map<const void*, std::size_t>;
    Snapshot snapshot() {
        Snapshot s;
        auto     nodes = [&](auto& ut) {
            for (const auto& t: ut.getTables()) { for (auto* p: t) { for (; p != nullptr; p = p->next) { if (p->ref > 0) { s[p] = p->ref; } } } }
        };
        if (SCAN) {
            nodes(dd->vUniqueTable);
            nodes(dd->mUniqueTable);
            nodes(dd->dUniqueTable);
        }
        for (auto* p: dd->cn.complexTable.getTable()) { for (; p != nullptr; p = p->next) { if (p->refCount > 0) { s[p] = p->refCount; } } }
        s[nullptr] = dd->cn.cacheCount();
        s[&dd->vUniqueTable] = dd->vUniqueTable.getActiveNodeCount();
        s[&dd->mUniqueTable] = dd->mUniqueTable.getActiveNodeCount();
        s[&dd->dUniqueTable] = dd->dUniqueTable.getActiveNodeCount();
        s[&dd]               = dd->qubits();
        return s;
    }
    static int verdictOf(const std::function<void()>& f, std::string& what) {
        try {
            f();
            return 0;
        } catch (const Fail&) { throw;
        } catch (const std::invalid_argument& e) { what = e.what(); return 1;
        } catch (const std::runtime_error& e) { what = e.what(); return 2;
        } catch (const std::exception& e) { what = e.what(); return 3; }
    }
    template<class P2>
    std::function<void()> fileRequest(P2& p, const std::string& text, bool bin, bool vec, int n, const std::vector<cplx>& x) {
        return [=, &p] {
            std::stringstream ss(text);
            if (vec) { compare("request", "vector read from a file", vread(p.template deserialize<dd::vNode>(ss, bin), n), x); }
            else { compare("request", "operator read from a file", mread(p.template deserialize<dd::mNode>(ss, bin), n), x); }
        };
    }
    static std::string edited(std::string text, const std::string& e, bool last) {
        std::vector<std::string> l;
        std::istringstream       is(text);
        for (std::string line; std::getline(is, line);) { l.push_back(line); }
        auto& nd = last ? l.back() : l.at(2);
        if (e == "comment") { nd += last ? "# a remark" : "  # a remark (1 2)";
        } else if (e == "blank lines") { l.insert(l.begin() + 2, ""); l.emplace_back("");
        } else if (e == "trailing spaces") { nd += "   ";
        } else if (e == "version 0") { l[0] = "0";
        } else if (e == "version 2") { l[0] = "2";
        } else if (e == "version 11") { l[0] = "11";
        } else if (e == "version not a number") { l[0] = "one";
        } else if (e == "empty") { l.clear();
        } else if (e == "root weight is a word") { l[1] = "one";
        } else if (e == "root weight with junk") { l[1] += "x";
        } else if (e == "edge missing") { nd = nd.substr(0, nd.rfind('(') - 1);
        } else if (e == "edge too many") { nd += " ()";
        } else if (e == "index is a word") { nd = "x" + nd.substr(1);
        } else if (e == "junk after the line") { nd += " 7";
        } else if (e == "junk before the line") { nd = "% " + nd;
        } else if (e == "weight is a word") { nd.insert(nd.rfind(')'), nd[nd.rfind(')') - 1] == '(' ? "0 w" : "w");
        } else if (e == "parenthesis missing") { nd = nd.substr(0, nd.rfind(')'));
        } else if (e == "level missing") { nd = nd.substr(nd.find(' ') + 1);
        } else if (e == "extra junk line") { l.insert(last ? l.end() : l.begin() + 2, "something else");
        } else if (e != "none") { fprintf(stderr, "unknown edit %s\n", e.c_str()); exit(9); }
        std::string r;
        for (auto& x: l) { r += x + "\n"; }
        return r;
    }
    // the functions built by a request; returns what the request does
    std::function<void()> request(const Op& o) {
        const auto& k     = o.k;
        const auto  n     = static_cast<dd::QubitCount>(o.n);
        const auto  start = static_cast<std::size_t>(o.b);
        auto&       p     = *dd;
        auto        vec   = [=](const dd::vEdge& e) { if (!o.r.empty() && o.n <= 6) { compare("request", k, vread(e, o.n, o.b), o.r); } };
        auto        mat   = [=](const dd::mEdge& e) { if (!o.r.empty()) { compare("request", k, mread(e, o.n, o.b), o.r); } };
        if (k == "rqzero") { return [=, &p] { vec(p.makeZeroState(n, start)); }; }
        if (k == "rqdens") {
            return [=, &p] {
                auto e = p.makeZeroDensityOperator(n);
                if (o.r.empty()) { return; }
                std::vector<cplx> flat;
                for (const auto& row: p.getDensityMatrix(e)) { flat.insert(flat.end(), row.begin(), row.end()); }
                compare("request", k, flat, o.r);
            };
        }
        if (k == "rqbits") { return [=, &p] { vec(p.makeBasisState(n, boolsOf(o.p), start)); }; }
        if (k == "rqstate") { return [=, &p] { vec(p.makeBasisState(n, statesOf(o.p), start)); }; }
        if (k == "rqgate") {
            return [=, &p] {
                const auto target = static_cast<dd::Qubit>(o.p.at(0) + o.b);
                const auto ctl    = controlsOf(o.c, o.b);
                if (ctl.empty()) { mat(p.makeGateDD(gateOf(o.g), n, target, start)); }
                else if (ctl.size() == 1) { mat(p.makeGateDD(gateOf(o.g), n, *ctl.begin(), target, start)); }
                mat(p.makeGateDD(gateOf(o.g), n, ctl, target, start));
            };
        }
        if (k == "rqgate2") {
            return [=, &p] {
                dd::TwoQubitGateMatrix m{};
                m.at(0).at(0) = m.at(1).at(2) = m.at(2).at(1) = m.at(3).at(3) = {1., 0.};
                mat(p.makeTwoQubitGateDD(m, n, static_cast<dd::Qubit>(o.p.at(0) + o.b), static_cast<dd::Qubit>(o.p.at(1) + o.b), start));
            };
        }
        if (k == "rqvec") {
            return [=, &p] {
                const auto e = p.makeStateFromVector(toCVec(o.v));
                if (!o.r.empty()) { compare("request", k, vread(e, o.n), o.r); }
            };
        }
        if (k == "rqmat") {
            return [=, &p] {
                dd::CMat    m;
                std::size_t i = 0;
                for (auto len: o.q) {
                    m.emplace_back();
                    for (int j = 0; j < len; ++j) { m.back().push_back(o.m.at(i++ % o.m.size())); }
                }
                const auto e = p.makeDDFromMatrix(m);
                if (!o.r.empty()) { compare("request", k, o.n == 0 ? std::vector<cplx>{val(e.w)} : mread(e, o.n), o.r); }
            };
        }
        if (k == "rqresize") { return [=, &p] { p.resize(static_cast<std::size_t>(o.n)); }; }
        if (k == "rqnew") {
            return [=] {
                P    q(static_cast<std::size_t>(o.n));
                auto check = [&] {
                    if (static_cast<int>(q.qubits()) != o.n) { fail("request", "a package of " + std::to_string(o.n) + " qubits reports " + std::to_string(q.qubits())); }
                    const auto e = q.makeZeroState(n);
                    if (static_cast<int>(q.size(e)) != o.n + 1) { fail("request", "zero state of wrong size"); }
                    q.incRef(e);
                    const auto x = q.makeGateDD(dd::Xmat, n, static_cast<dd::Qubit>(o.n - 1));
                    const auto f = q.multiply(x, e);
                    const auto amp = q.getValueByPath(f, std::string(static_cast<std::size_t>(o.n - 1), '0') + "1");
                    if (std::abs(cplx(amp.r, amp.i) - 1.) > 1e-9) { fail("request", "wrong state on the highest qubit"); }
                    q.garbageCollect(true);
                    q.decRef(e);
                };
                check();
                std::string what;
                if (o.n < 128) {
                    if (verdictOf([&] { q.makeZeroState(static_cast<dd::QubitCount>(o.n + 1)); }, what) != 2) { fail("request", "a state larger than the package was accepted"); }
                }
                if (verdictOf([&] { q.resize(129); }, what) != 1) { fail("request", "growth beyond the limit was accepted"); }
                check();
                q.resize(128);
                if (q.qubits() != 128) { fail("request", "growth to the limit did not happen"); }
                if (q.size(q.makeZeroState(128)) != 129) { fail("request", "zero state of wrong size after growth to the limit"); }
            };
        }
        if (k == "rqdprob") {
            return [=] {
                P    q(128);
                auto e = q.makeZeroDensityOperator(n);
                (void)q.getProbVectorFromDensityMatrix(e, 0.1);
            };
        }
        if (k == "rqmeasall") {
            return [=, &p] {
                auto arg = o.a == 0 ? dd::vEdge::zero : V(o.a).e;
                if (o.a == 0 || o.t != 0) {
                    (void)p.measureAll(arg, opsRun % 2 == 0, mt);
                    return;
                }
                checkOutcome(V(o.a), p.measureAll(arg, false, mt));
            };
        }
        if (k == "rqmeasone") {
            const auto e = mkV(*dd, o.r);
            if (o.t == 0) { return [] {}; } // valid measurements are replayed by "meas"
            return [=, &p] {
                p.incRef(e);
                auto        arg = e;
                std::string what;
                const int   v = verdictOf([&] { (void)p.measureOneCollapsing(arg, static_cast<dd::Qubit>(o.p.at(0)), opsRun % 2 == 0, mt); }, what);
                if (v != 0 && !same(arg, e)) { fail("request", "a rejected measurement changed the state"); }
                p.decRef(e);
                if (v == 1) { throw std::invalid_argument(what); }
                if (v == 2) { throw std::runtime_error(what); }
                if (v == 3) { throw std::logic_error(what); }
            };
        }
        if (k == "rqexpv") { return [=, &p] { (void)p.expectationValue(M(o.a).e, V(o.b).e); }; }
        if (k == "rqrelease") {
            return [=] {
                P          q(static_cast<std::size_t>(nmax));
                const auto e = q.makeZeroState(n);
                for (int i = 0; i < o.p.at(0); ++i) { q.incRef(e); }
                for (int i = 0; i < o.p.at(0); ++i) { q.decRef(e); }
                std::string what;
                const int   v = verdictOf([&] { q.decRef(e); }, what);
                if (q.vUniqueTable.getActiveNodeCount() != 0 || e.p->ref != 0) { fail("request", "an unbalanced release changed a count"); }
                q.incRef(e);
                if (q.vUniqueTable.getActiveNodeCount() != static_cast<std::size_t>(o.n)) { fail("request", "wrong active node count after an unbalanced release"); }
                q.garbageCollect(true);
                if (q.size(e) != static_cast<std::size_t>(o.n) + 1) { fail("request", "diagram lost after an unbalanced release"); }
                if (v == 1) { throw std::invalid_argument(what); }
                if (v == 2) { throw std::runtime_error(what); }
                if (v == 3) { throw std::logic_error(what); }
            };
        }
        if (k == "rqcons") {
            return [=] {
                P    q(static_cast<std::size_t>(nmax));
                auto check = [&](const auto& e) {
                    if (q.isLocallyConsistent(e)) { fail("consistent", "an unreferenced diagram is called consistent"); }
                    q.incRef(e);
                    if (!q.isLocallyConsistent(e)) { fail("consistent", "a referenced diagram is called inconsistent"); }
                    std::string what;
                    if (verdictOf([&] { if (!q.isGloballyConsistent(e)) { throw std::runtime_error("false"); } }, what) != 0) { fail("consistent", "a diagram with exact counts is called inconsistent: " + what); }
                    q.garbageCollect(true);
                    if (!q.isLocallyConsistent(e)) { fail("consistent", "a referenced diagram is called inconsistent after a collection"); }
                    // one wrong count at a time: a number's, then a node's
                    std::map<dd::CTEntry*, std::size_t>                         occ;
                    std::map<std::remove_const_t<decltype(e.p)>, std::size_t>   nodes;
                    std::function<void(const std::decay_t<decltype(e)>&)> walk = [&](const std::decay_t<decltype(e)>& x) {
                        for (auto* w: {x.w.r, x.w.i}) { occ[dd::CTEntry::getAlignedPointer(w)]++; }
                        if (x.isTerminal() || nodes[x.p]++ > 0) { return; }
                        for (const auto& y: x.p->e) { walk(y); }
                    };
                    walk(e);
                    const auto refused = [&](const std::string& which, bool gone) {
                        if (verdictOf([&] { (void)q.isGloballyConsistent(e); }, what) != 2) { fail("consistent", "a wrong count of a " + which + " is not noticed"); }
                        if (gone && q.isLocallyConsistent(e)) { fail("consistent", "a count of zero of a " + which + " is not noticed"); }
                    };
                    for (auto& [w, k]: occ) {
                        if (w == dd::Complex::one.r || w == dd::Complex::zero.r || w == &dd::ComplexTable<>::sqrt2_2) { continue; }
                        const auto old = w->refCount;
                        w->refCount    = static_cast<std::decay_t<decltype(old)>>(k - 1);
                        refused("number", k == 1);
                        w->refCount = old;
                    }
                    for (auto& [x, k]: nodes) {
                        const auto old = x->ref;
                        x->ref         = static_cast<std::decay_t<decltype(old)>>(k + 1);
                        refused("node", false);
                        x->ref = static_cast<std::decay_t<decltype(old)>>(k - 1);
                        refused("node", k == 1);
                        x->ref = old;
                    }
                    q.incRef(e);
                    if (verdictOf([&] { (void)q.isGloballyConsistent(e); }, what) != 2) { fail("consistent", "a diagram with a second reference is called globally consistent"); }
                    q.decRef(e);
                    if (verdictOf([&] { (void)q.isGloballyConsistent(e); }, what) != 0) { fail("consistent", "a diagram with exact counts is called inconsistent after a release: " + what); }
                };
                if (o.p.at(0) == 0) { check(mkV(q, o.r)); } else { check(mkM(q, o.r, o.n)); }
            };
        }
        if (k == "rqfile") {
            static const char* edits[] = {"", "none", "comment", "blank lines", "trailing spaces", "version 0", "version 2", "version 11", "version not a number", "empty", "root weight is a word", "root weight with junk", "edge missing", "edge too many", "index is a word", "junk after the line", "junk before the line", "weight is a word", "parenthesis missing", "level missing", "extra junk line", "binary none", "binary version", "binary version high byte", "binary empty", "binary as text", "text as binary"};
            const std::string  e       = edits[o.p.at(1)];
            const bool         v = o.p.at(0) == 0, bin = e.compare(0, 6, "binary") == 0;
            std::stringstream  ss;
            if (v) { dd::serialize(V(o.a).e, ss, bin); } else { dd::serialize(M(o.a).e, ss, bin); }
            auto text = ss.str();
            if (e == "binary none" || e == "binary as text" || e == "text as binary") {
            } else if (e == "binary version") { text[0] = static_cast<char>(text[0] + 1);
            } else if (e == "binary version high byte") { text[sizeof(dd::SERIALIZATION_VERSION) - 1] = static_cast<char>(text[sizeof(dd::SERIALIZATION_VERSION) - 1] ^ 1);
            } else if (e == "binary empty") { text.clear();
            } else { text = edited(text, e, o.p.at(2) != 0); }
            return fileRequest(opsRun % 2 == 0 ? *dd : *other, text, (bin && e != "binary as text") || e == "text as binary", v, o.n, o.r);
        }
        if (k == "rqpath") {
            const bool v = o.p.at(0) == 0, bin = o.p.at(1) != 0;
            const int  j = o.p.at(2);
            const auto base = opt.progress + ".dir";
            return [=, &p] {
                if (j == 0) { // nothing to read
                    if (v) { (void)p.template deserialize<dd::vNode>(base + "/missing", bin); } else { (void)p.template deserialize<dd::mNode>(base + "/missing", bin); }
                } else if (j == 1) { // the directory does not exist
                    if (v) { dd::serialize(V(o.a).e, base + "/none", bin); } else { dd::serialize(M(o.a).e, base + "/none", bin); }
                } else {
                    const auto f = opt.progress + ".dd";
                    if (v) {
                        dd::serialize(V(o.a).e, f, bin);
                        const auto e = p.template deserialize<dd::vNode>(f, bin);
                        unlink(f.c_str());
                        compare("request", "vector written to and read from a file", vread(e, o.n), o.r);
                    } else {
                        dd::serialize(M(o.a).e, f, bin);
                        const auto e = p.template deserialize<dd::mNode>(f, bin);
                        unlink(f.c_str());
                        compare("request", "operator written to and read from a file", mread(e, o.n), o.r);
                    }
                }
            };
        }
        fprintf(stderr, "unknown request %s\n", k.c_str());
        exit(9);
    }
    void doRequest(const Op& o) {
        const auto  before = snapshot();
        const auto  f      = request(o);
        std::string what;
        const int   v = verdictOf(f, what);
        static const char* names[] = {"acceptance", "an invalid-argument error", "a runtime error", "an error"};
        if (o.t == 3 ? v == 0 : v != o.t) { fail("request", std::string(names[o.t]) + " was expected, " + names[v] + " came (" + what + ")"); }
        if (snapshot() != before) { fail("request", "the request changed what is referenced, or the working numbers"); }
        for (auto& s: vs) { compare("request", "a held vector changed by a request", vread(s.e, s.n), s.x); }
        for (auto& s: ms) { compare("request", "a held operator changed by a request", s.n == 0 ? std::vector<cplx>{val(s.e.w)} : mread(s.e, s.n), s.x); }
    }

    // the same operation with an operand scaled by ever new factors, while a collection of numbers (and nothing else)
    // happens in between: nothing remembered from before may be returned
    template<class S, class F>
    void rescaled(S& s, const Op& o, F&& again) {
        if (!opt.hold || zeroW(s.e.w)) { return; }
        const auto was = s.e;
        dd->garbageCollect(true);
        dd->garbageCollect(true);
        for (int i = 0; i < 6; ++i) {
            const double f = (i % 2 == 0 ? 1. : -1.) * (1. + static_cast<double>((opsRun * 7 + i * 3) % 61)) / 64.;
            s.e.w          = dd->cn.lookup(val(was.w).real() * f, val(was.w).imag() * f);
            again(f, o);
            s.e = was;
            dd->garbageCollect(true);
        }
    }
    static Op times(const Op& o, double f) {
        auto q = o;
        for (auto& x: q.r) { x *= f; }
        for (auto& x: q.s) { x *= f; }
        return q;
    }
    void rescaledV(const Op& o, const dd::vEdge& res) {
        dd->incRef(res);
        auto again = [&](double f, const Op& q) {
            if (q.k == "vadd" && q.a != q.b) { return; }
            dd::vEdge r{};
            vecOp(q, r);
            auto want = q.r;
            for (auto& x: want) { x *= f; }
            compare("value", q.k + " with an operand scaled by " + S(f), readV0(r, q.n), want, eps(want));
        };
        if (o.k == "mv" || (o.k == "vadd" && o.a == o.b) || o.k == "vkrons") { rescaled(V(o.b), o, again);
        } else if (o.k == "vkron" && o.a != o.b) { rescaled(V(opsRun % 2 == 0 ? o.a : o.b), o, again);
        } else if (o.k == "vdel") { rescaled(V(o.a), o, again); }
        dd->decRef(res);
    }
    void rescaledM(const Op& o, const dd::mEdge& res) {
        dd->incRef(res);
        auto again = [&](double f, const Op& q) {
            dd::mEdge r{};
            matOp(q, r);
            auto want = q.r;
            for (auto& x: want) { x *= f; }
            compare("value", q.k + " with an operand scaled by " + S(f), readM0(r, q.n), want, eps(want));
        };
        if (o.k == "mkrons" || (o.k == "madd" && o.a == o.b)) { rescaled(M(o.b), o, again);
        } else if ((o.k == "mkron" || o.k == "mm") && o.a != o.b) { rescaled(M(opsRun % 2 == 0 ? o.a : o.b), o, again);
        } else if (o.k == "mext" || o.k == "mtrans" || o.k == "madj" || o.k == "mdel" || o.k == "ptrace") { rescaled(M(o.a), o, again); }
        dd->decRef(res);
    }
    void rescaledS(const Op& o) {
        if (o.k == "inner" && o.a != o.b) {
            rescaled(V(opsRun % 2 == 0 ? o.a : o.b), o, [&](double f, const Op& q) { scalarOp(times(q, f)); });
        } else if (o.k == "trace") {
            rescaled(M(o.a), o, [&](double f, const Op& q) { scalarOp(times(q, f)); });
        }
    }
    // what the operations of clients remember: found again as long as nothing was collected, and never once it is gone
    void remember(const dd::mEdge& e, const Op& o) {
        const auto q = static_cast<dd::QubitCount>(o.n);
        dd::Controls c{dd::Control{static_cast<dd::Qubit>(opsRun % 3)}};
        dd->toffoliTable.insert(q, c, static_cast<dd::Qubit>(opsRun % 2), e);
        dd->stochasticNoiseOperationCache.insert(static_cast<std::uint_fast8_t>(opsRun % CFG::STOCHASTIC_CACHE_OPS), static_cast<dd::Qubit>(opsRun % dd->qubits()), e);
        dd->garbageCollect(true);
        recall();
    }
    void rememberD() {
        const double             x = 0.1 + 1e-4 * static_cast<double>(opsRun % 3000);
        const std::vector<dd::Qubit> used{0};
        auto                     w = [&](double y) { return dd::dEdge::terminal(dd->cn.lookup(y, 0.)); };
        for (int i = 0; i < 2; ++i) {
            dd::dEdge key = den;
            dd::dEdge e   = den;
            if (i == 0) {
                const std::array<dd::dEdge, 4> parts{w(x), dd::dEdge::zero, dd::dEdge::zero, w(1. - x)};
                e = dd->makeDDNode(0, parts);
            }
            dd::dEdge::alignDensityEdge(key);
            dd::dEdge::alignDensityEdge(e);
            if (i != 0) { e.w = dd->cn.lookup(x, x / 3.); }
            dd->densityNoise.insert(key, e, used);
            dd->garbageCollect(true);
            const auto r = dd->densityNoise.lookup(key, used);
            if (r.p != nullptr) { owned(*dd, r, "value"); }
        }
    }
    void rescaledD(const Op& o, const dd::mEdge& g) {
        if (!opt.hold) { return; }
        const bool half = opt.half;
        dd->incRef(g);
        auto first = den;
        { auto al = den; dd::dEdge::alignDensityEdge(al); dd->incRef(al); }
        dd->applyOperationToDensity(first, g, half);    // held: so its nodes stay
        dd->garbageCollect(true);
        dd->garbageCollect(true);
        for (int i = 0; i < 6; ++i) {
            const double f = (1. + static_cast<double>((opsRun * 7 + i * 3) % 61)) / 64.;
            auto e         = den;
            e.w            = dd->cn.lookup(val(den.w).real() * f, val(den.w).imag() * f);
            { auto al = e; dd::dEdge::alignDensityEdge(al); dd->incRef(al); }
            dd->applyOperationToDensity(e, g, half);
            auto want = o.r;
            for (auto& x: want) { x *= f; }
            std::vector<cplx> flat;
            for (const auto& row: dd->getDensityMatrix(e)) { flat.insert(flat.end(), row.begin(), row.end()); }
            compare("density", "operation on a scaled density matrix", flat, want, eps(want));
            dd::dEdge::alignDensityEdge(e);
            dd->decRef(e);
            dd->garbageCollect(true);
        }
        dd::dEdge::alignDensityEdge(first);
        dd->decRef(first);
        dd->decRef(g);
    }
    void recall() {
        for (int q = 1; q <= static_cast<int>(dd->qubits()); ++q) {
            for (int a = 0; a < 3; ++a) {
                for (int b = 0; b < 2; ++b) {
                    const auto e = dd->toffoliTable.lookup(static_cast<dd::QubitCount>(q), dd::Controls{dd::Control{static_cast<dd::Qubit>(a)}}, static_cast<dd::Qubit>(b));
                    if (e.p != nullptr) { owned(*dd, e, "value"); }
                }
                if (static_cast<std::size_t>(a) >= CFG::STOCHASTIC_CACHE_OPS) { continue; }
                const auto e = dd->stochasticNoiseOperationCache.lookup(static_cast<std::uint_fast8_t>(a), static_cast<dd::Qubit>(q - 1));
                if (e.p != nullptr) { owned(*dd, e, "value"); }
            }
        }
    }

    void step(const Op& o) {
        ++opsRun;
        auto before = dd->cn.cacheCount();
        dd::vEdge  v{};
        dd::mEdge  m{};
        if (vecOp(o, v)) {
            checkV(v, o.n, o.r, o.z, o.k);
            if (opt.twice) {
                dd::vEdge w{};
                vecOp(o, w);
                if (!same(v, w)) { fail("repeat", "the same operation again gives another edge"); }
                checkV(w, o.n, o.r, o.z, o.k + " again");
            }
            if (opt.recycle) {
                dd->garbageCollect(true);
                junk(o.n);
                vecOp(o, v);
                checkV(v, o.n, o.r, o.z, o.k + " after memory was reused");
            }
            if (opt.rescale) { rescaledV(o, v); }
            assignV(o.d, v, o.n, o.r);
        } else if (matOp(o, m)) {
            checkM(m, o.n, o.r, o.z, o.k);
            if (opt.twice) {
                dd::mEdge w{};
                matOp(o, w);
                if (!same(m, w)) { fail("repeat", "the same operation again gives another edge"); }
                checkM(w, o.n, o.r, o.z, o.k + " again");
            }
            if (opt.recycle) {
                dd->garbageCollect(true);
                junk(o.n);
                matOp(o, m);
                checkM(m, o.n, o.r, o.z, o.k + " after memory was reused");
            }
            if (opt.rescale) { rescaledM(o, m); }
            assignM(o.d, m, o.n, o.r);
            if (opt.remember && opt.hold) { remember(m, o); }
        } else if (owningV(o, v)) {
            assignV(o.d, v, o.n, o.r, true);
            checkV(v, o.n, o.r, o.z, o.k);
        } else if (owningM(o, m)) {
            assignM(o.d, m, o.n, o.r, true);
            checkM(m, o.n, o.r, o.z, o.k);
        } else if (o.k == "expv") {
            // the observable (made Hermitian) is stored, then the expectation value taken
            m = mkM(*dd, o.r, o.n);
            assignM(o.d, m, o.n, o.r);
            checkM(m, o.n, o.r, o.z, o.k);
            if (!m.isTerminal() && !V(o.b).e.isTerminal()) {
                const bool ref = !opt.hold; // expectationValue() collects garbage
                if (ref) { dd->incRef(m); dd->incRef(V(o.b).e); }
                const auto r = dd->expectationValue(m, V(o.b).e);
                if (opt.has("scalar")) { compare1("scalar", "expectation value", r, o.s.at(0)); }
                if (ref) { dd->decRef(m); dd->decRef(V(o.b).e); }
            }
        } else if (scalarOp(o)) {
            if (opt.twice) { scalarOp(o); }
            if (opt.rescale) { rescaledS(o); }
            if (opt.recycle && o.k != "measx" && o.k != "measstat") {
                dd->garbageCollect(true);
                junk(nmax);
                scalarOp(o);
            }
        } else if (densOp(o)) {
        } else if (o.k == "vsero") {
            const auto e = anyV(*dd, o.r, o.n);
            compare("value", "vector with uneven entries", readV0(e, o.n), o.r, eps(o.r));
            (void)storedV(e, o.n, o.r, o.p.at(0) != 0);
        } else if (o.k == "msero") {
            const auto e = anyM(*dd, o.r, o.n);
            compare("value", "operator with uneven entries", readM0(e, o.n), o.r, eps(o.r));
            (void)storedM(e, o.n, o.r, o.p.at(0) != 0);
        } else if (o.k == "vprop") {
            const auto a = anyV(*dd, o.r, o.n), b = anyV(*dd, o.e, o.n);
            if (a.p != b.p) { fail("canon", "a diagram and a multiple of it are different nodes"); }
            if (opt.has("nf")) { std::set<const void*> seen; nfV(b, o.n - 1, seen); }
            compare("value", "multiple of a diagram", readV0(b, o.n), o.e, eps(o.e));
        } else if (o.k == "vuneven") {
            const auto a = anyV(*dd, o.r, o.n);
            if (opt.has("nf")) { std::set<const void*> seen; nfV(a, o.n - 1, seen); }
            if (const auto b = anyV(*dd, o.r, o.n); !same(a, b) && !between(a, b)) { fail("canon", "building the same diagram again gives another edge"); }
            compare("value", "diagram with uneven entries", readV0(a, o.n), o.r, eps(o.r));
            if (opt.has("read") && o.n > 0) { readV({a, o.n, o.r}, o.r); }
        } else if (o.k == "mprop") {
            const auto a = anyM(*dd, o.r, o.n), b = anyM(*dd, o.e, o.n);
            if (a.p != b.p) { fail("canon", "a diagram and a multiple of it are different nodes"); }
            if (opt.has("nf")) { std::set<const void*> seen; nfM(b, o.n - 1, seen); }
            compare("value", "multiple of a diagram", readM0(b, o.n), o.e, eps(o.e));
        } else if (o.k == "muneven") {
            const auto a = anyM(*dd, o.r, o.n);
            if (opt.has("nf")) { std::set<const void*> seen; nfM(a, o.n - 1, seen); }
            if (const auto b = anyM(*dd, o.r, o.n); !same(a, b) && !between(a, b)) { fail("canon", "building the same diagram again gives another edge"); }
            compare("value", "diagram with uneven entries", readM0(a, o.n), o.r, eps(o.r));
            if (opt.has("read") && o.n > 0) { readM({a, o.n, o.r}, o.r); }
        } else if (o.k == "scal") { scalars(o);
        } else if (o.k == "vtrano") { (void)transferredV(anyV(*dd, o.r, o.n), o.n, o.r);
        } else if (o.k == "mtrano") { (void)transferredM(anyM(*dd, o.r, o.n), o.n, o.r);
        } else if (o.k == "gc") {
            if (opt.hold) { collect(o.p.at(0) != 0); }
        } else if (o.k == "fill") {
            if (opt.hold) { fill(o.p.at(0) != 0); }
        } else if (o.k == "clear") { dd->clearComputeTables();
        } else if (o.k == "churn") {
            const auto e = mkV(*dd, o.v);
            if (opt.has("value")) { compare("value", "churned vector", vread(e, o.n), o.v); }
            const int mn = static_cast<int>(std::log2(static_cast<double>(o.m.size())) / 2 + 0.5);
            const auto f = mkM(*dd, o.m, mn);
            if (opt.has("value")) { compare("value", "churned operator", mread(f, mn), o.m); }
        } else if (o.k == "xref") {
            if (opt.hold) {
                for (int i = 0; i < o.p.at(2); ++i) {
                    if (o.p.at(0) == 0) { dd->incRef(V(o.p.at(1)).e); xv.push_back(V(o.p.at(1))); }
                    else { dd->incRef(M(o.p.at(1)).e); xm.push_back(M(o.p.at(1))); }
                }
            }
        } else if (o.k == "unxref") {
            if (opt.hold) {
                for (auto& s: xv) { dd->decRef(s.e); }
                for (auto& s: xm) { dd->decRef(s.e); }
                xv.clear();
                xm.clear();
            }
        } else if (o.k == "active") {
            if (opt.hold && opt.has("active") && xv.empty() && xm.empty()) {
                for (std::size_t l = 0; l < o.p.size(); ++l) {
                    const auto got = dd->vUniqueTable.getActiveNodeCount(static_cast<dd::Qubit>(l));
                    if (static_cast<int>(got) != o.p[l]) { fail("active", "active vector nodes of level " + std::to_string(l) + ": " + std::to_string(got) + " instead of " + std::to_string(o.p[l])); }
                }
                for (std::size_t l = 0; l < o.q.size(); ++l) {
                    const auto got = dd->mUniqueTable.getActiveNodeCount(static_cast<dd::Qubit>(l));
                    if (static_cast<int>(got) != o.q[l]) { fail("active", "active operator nodes of level " + std::to_string(l) + ": " + std::to_string(got) + " instead of " + std::to_string(o.q[l])); }
                }
            }
        } else if (o.k == "reset") {
            vs.clear(); ms.clear(); xv.clear(); xm.clear();
            dn = kn = 0;
            dd->reset();
            if (opt.has("reset")) {
                if (dd->vUniqueTable.getNodeCount() != 0 || dd->mUniqueTable.getNodeCount() != 0 || dd->dUniqueTable.getNodeCount() != 0) { fail("reset", "nodes are still counted after a reset"); }
                if (dd->vUniqueTable.getActiveNodeCount() != 0 || dd->mUniqueTable.getActiveNodeCount() != 0 || dd->dUniqueTable.getActiveNodeCount() != 0) { fail("reset", "active nodes are still counted after a reset"); }
                for (int l = 0; l < static_cast<int>(dd->qubits()); ++l) {
                    if (dd->vUniqueTable.getActiveNodeCount(static_cast<dd::Qubit>(l)) != 0 || dd->mUniqueTable.getActiveNodeCount(static_cast<dd::Qubit>(l)) != 0) { fail("reset", "active nodes of a level are still counted after a reset"); }
                }
                if (dd->cn.cacheCount() != 0) { fail("reset", "working numbers are still counted after a reset"); }
            }
            initial(o);
        } else if (o.k == "resize") {
            dd->resize(static_cast<std::size_t>(o.n));
            if (opt.has("reset") && static_cast<int>(dd->qubits()) != o.n) { fail("reset", "the package reports the wrong number of qubits after growing"); }
        } else if (o.k.compare(0, 2, "rq") == 0) { doRequest(o);
        } else if (o.k == "nop") {
        } else {
            fprintf(stderr, "unknown operation %s\n", o.k.c_str());
            exit(9);
        }
        if (o.k == "reset") { before = dd->cn.cacheCount(); }
        if (opt.has("balance") && dd->cn.cacheCount() != before) {
            fail("balance", "working numbers in use: " + std::to_string(before) + " before, " + std::to_string(dd->cn.cacheCount()) + " after");
        }
        if (opt.clearevery) { dd->clearComputeTables(); }
        if (opt.gcevery && opt.hold) { collect(true); }
        checkSlots();
    }

    int run(std::istream& is) {
        Op   o;
        long beh = -1, st = 0;
        while (readOp(is, o)) {
            if (o.k == "begin") {
                ++beh;
                st = 0;
            } else {
                ++st;
            }
            progress.at(beh, st, o.k.c_str());
            try {
                if (o.k == "begin") { begin(o); } else { step(o); }
            } catch (const Fail& f) {
                printf("FAIL %ld %ld %s %s %s\n", beh, st, o.k.c_str(), f.family.c_str(), f.detail.c_str());
                return 3;
            } catch (const std::exception& ex) {
                printf("FAIL %ld %ld %s exception %s\n", beh, st, o.k.c_str(), ex.what());
                return 3;
            }
        }
        progress.at(beh, st, "end");
        printf("OK behaviours=%ld ops=%ld comparisons=%ld nodes=%ld gc=%ld\n", beh + 1, opsRun, comparisons, nodesSeen, gcRuns);
        return 0;
    }
};

int main(int argc, char** argv) {
    noAslr(argv);
    for (int i = 1; i < argc; ++i) {
        const std::string a   = argv[i];
        auto              arg = [&] { return std::string(argv[++i]); };
        if (a == "--check") {
            std::istringstream is(arg());
            std::string        f;
            while (std::getline(is, f, ',')) { opt.fam.insert(f); }
        } else if (a == "--nohold") { opt.hold = false;
        } else if (a == "--gc") { opt.gcevery = true;
        } else if (a == "--clear") { opt.clearevery = true;
        } else if (a == "--twice") { opt.twice = true;
        } else if (a == "--recycle") { opt.recycle = true;
        } else if (a == "--half") { opt.half = true;
        } else if (a == "--rescale") { opt.rescale = true;
        } else if (a == "--remember") { opt.remember = true;
        } else if (a == "--fresh") { opt.fresh = std::stol(arg());
        } else if (a == "--progress") { opt.progress = arg();
        } else { opt.program = a; }
    }
    std::ifstream is(opt.program);
    if (!is) { fprintf(stderr, "no program\n"); return 9; }
    // warnings of the package are not of interest
    std::clog.setstate(std::ios::failbit);
    std::cerr.setstate(std::ios::failbit);
    Machine<CFG> m;
    const int    r = m.run(is);
    fflush(stdout);
    _exit(r);
}
