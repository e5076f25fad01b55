// Replays behaviours of spec/NodeRequests.tla: nodes with weights of very different magnitude.
#include "books.hpp"
#include "setup.hpp"

struct Opts {
    std::set<std::string> fam;
    bool                  gc = false, twice = false;
    std::string           progress, program, table = "vector";
    bool                  has(const char* f) const { return fam.count(f) != 0; }
};
static Opts opt;
#ifndef CFG
#define CFG ScanConfig
#endif

// entries in path order, read independently of the package
template<class E>
void pathRead(const E& e, int level, std::size_t at, std::size_t width, cplx amp, std::vector<cplx>& out) {
    if (zeroW(e.w)) {
        if (!e.isTerminal()) { fail("structure", "zero-weight edge to a non-terminal node"); }
        return;
    }
    amp *= val(e.w);
    if (level < 0) {
        if (!e.isTerminal()) { fail("structure", "node below the lowest level"); }
        out.at(at) = amp;
        return;
    }
    if (e.isTerminal()) { fail("structure", "non-zero terminal above the lowest level"); }
    if (e.p->v != level) { fail("structure", "node of level " + std::to_string(e.p->v) + " where " + std::to_string(level) + " belongs"); }
    const auto w = width / e.p->e.size();
    for (std::size_t i = 0; i < e.p->e.size(); ++i) { pathRead(e.p->e[i], level - 1, at + i * w, w, amp, out); }
}
template<class E>
std::vector<cplx> pathRead(const E& e, int n, std::size_t arity) {
    std::size_t w = 1;
    for (int i = 0; i < n; ++i) { w *= arity; }
    std::vector<cplx> out(w);
    pathRead(e, n - 1, 0, w, 1., out);
    return out;
}
static double eps(const std::vector<cplx>& x) {
    double m = 0;
    for (auto& c: x) { m = std::max(m, std::abs(c)); }
    return 1e-11 * (m + 1e-3);
}

template<class Node>
struct Machine {
    using E                        = dd::Edge<Node>;
    using P                        = dd::Package<CFG>;
    static constexpr std::size_t A = std::tuple_size_v<decltype(Node::e)>;
    struct Slot { E e; int n; std::vector<cplx> x; };
    struct OpSlot { dd::mEdge e; int n; };
    std::unique_ptr<P>  dd;
    std::vector<Slot>   pool;
    std::vector<OpSlot> ops;
    Progress            progress{opt.progress};
    long                comparisons = 0, nodes = 0, done = 0, vanished = 0;
    int                 levels = 0, toggle = 0;

    E scaled(const E& e, cplx w) {
        E r = e;
        r.w = dd->cn.lookup(dd::ComplexValue{(val(e.w) * w).real(), (val(e.w) * w).imag()});
        return r;
    }
    dd::mEdge scaledOp(const dd::mEdge& e, cplx w) {
        auto r = e;
        r.w    = dd->cn.lookup(dd::ComplexValue{(val(e.w) * w).real(), (val(e.w) * w).imag()});
        return r;
    }
    E build(const std::vector<cplx>& x, int n, std::size_t at = 0, std::size_t w = 0) {
        if (w == 0) { w = x.size(); }
        if (n == 0) { return x[at] == cplx(0.) ? E::zero : E::terminal(dd->cn.lookup(dd::ComplexValue{x[at].real(), x[at].imag()})); }
        std::array<E, A> s{};
        for (std::size_t i = 0; i < A; ++i) { s[i] = build(x, n - 1, at + i * (w / A), w / A); }
        return dd->template makeDDNode<Node>(static_cast<dd::Qubit>(n - 1), s);
    }
    dd::mEdge buildOp(const std::vector<cplx>& x, int n, std::size_t at = 0, std::size_t w = 0) {
        if (w == 0) { w = x.size(); }
        if (n == 0) { return x[at] == cplx(0.) ? dd::mEdge::zero : dd::mEdge::terminal(dd->cn.lookup(dd::ComplexValue{x[at].real(), x[at].imag()})); }
        std::array<dd::mEdge, 4> s{};
        for (std::size_t i = 0; i < 4; ++i) { s[i] = buildOp(x, n - 1, at + i * (w / 4), w / 4); }
        return dd->template makeDDNode<dd::mNode>(static_cast<dd::Qubit>(n - 1), s);
    }
    void nf(const E& e, int level, std::set<const void*>& seen) {
        if (e.isTerminal() || !seen.insert(e.p).second) { return; }
        ++nodes;
        double sum = 0, max = 0;
        for (const auto& c: e.p->e) {
            const auto m = std::norm(val(c.w));
            sum += m;
            max = std::max(max, m);
            if (std::sqrt(m) <= dd::ComplexTable<>::tolerance() && !(c.isTerminal() && c.w == dd::Complex::zero)) { fail("nf", "a successor of weight zero is not the zero edge"); }
            if (c.w != dd::Complex::zero && c.isTerminal() != (level == 0)) { fail("nf", "a successor skips levels"); }
            nf(c, level - 1, seen);
        }
        for (const auto& c: e.p->e) {
            if (std::norm(val(c.w)) <= max - dd::ComplexTable<>::tolerance() * 4) { continue; }
            if (A == 2 ? std::abs(val(c.w).imag()) > 1e-11 || val(c.w).real() <= 0 : c.w != dd::Complex::one) { fail("nf", "leading largest weight is " + S(val(c.w))); }
            break;
        }
        if (std::abs((A == 2 ? sum : max) - 1.) > 1e-11) { fail("nf", "the weights of a node are not normalized: " + S(A == 2 ? sum : max)); }
        if constexpr (std::is_same_v<Node, dd::mNode>) {
            const auto x    = mread(dd::mEdge{e.p, dd::Complex::one}, level + 1);
            const auto N    = std::size_t{1} << (level + 1);
            bool       symm = true, id = true;
            for (std::size_t r = 0; r < N; ++r) {
                for (std::size_t c = 0; c < N; ++c) {
                    symm = symm && std::abs(x[r * N + c] - x[c * N + r]) <= 1e-12;
                    id   = id && std::abs(x[r * N + c] - (r == c ? 1. : 0.)) <= 1e-12;
                }
            }
            if (e.p->isSymmetric() != symm) { fail("nf", symm ? "symmetric node not marked" : "node marked symmetric that is not"); }
            if (e.p->isIdentity() != id) { fail("nf", id ? "identity node not marked" : "node marked identity that is not"); }
        }
    }
    void check(const E& e, int n, const std::vector<cplx>& x, const char* what) {
        bool zero = true;
        for (auto& c: x) { zero = zero && c == cplx(0.); }
        if (zero) {
            ++vanished;
            if (opt.has("value") && !(e.isTerminal() && e.w == dd::Complex::zero)) { fail("value", std::string(what) + ": a result that vanishes is not the zero edge"); }
            return;
        }
        if (opt.has("value")) { compare("value", what, pathRead(e, n, A), x, eps(x)); ++comparisons; }
        if (opt.has("nf")) { std::set<const void*> seen; nf(e, n - 1, seen); }
        if (opt.has("canon")) {
            const auto f = build(x, n);
            if (!same(e, f)) { fail("canon", std::string(what) + ": not the edge built from the explicit entries (weights " + S(val(e.w)) + ", " + S(val(f.w)) + (e.p == f.p ? ", same node)" : ", other node)")); }
            for (auto& s: pool) {
                if (s.n == n && s.x == x && !same(s.e, e)) { fail("canon", std::string(what) + ": equal to another diagram, but not the same edge"); }
            }
            ++comparisons;
        }
    }
    void put(std::size_t d, const E& e, int n, const std::vector<cplx>& x) {
        if (std::all_of(x.begin(), x.end(), [](cplx c) { return c == cplx(0.); })) { return; }
        dd->incRef(e);
        dd->decRef(pool.at(d).e);
        pool.at(d) = {e, n, x};
    }
    void release() {
        if (!dd) { return; }
        for (auto& s: pool) { dd->decRef(s.e); }
        for (auto& s: ops) { dd->decRef(s.e); }
        pool.clear(); ops.clear();
    }
    void begin(const Op& o) {
        release();
        levels = o.n;
        if (!dd) { dd = std::make_unique<P>(static_cast<std::size_t>(levels)); }
        for (int s = 0; s < o.p.at(1); ++s) {
            const int   n = s % levels + 1;
            std::size_t w = 1, v = 1;
            for (int i = 0; i < n; ++i) { w *= A; v *= 4; }
            std::vector<cplx> x(w);
            x[0] = 1.;
            pool.push_back({build(x, n), n, x});
            dd->incRef(pool.back().e);
            ops.push_back({dd->makeIdent(static_cast<dd::QubitCount>(n)), n});
            dd->incRef(ops.back().e);
        }
    }
    E doIt(const Op& o) {
        if (o.k == "node") {
            std::array<E, A> s{};
            for (std::size_t i = 0; i < A; ++i) {
                const auto w = o.g.at(i);
                if (o.n == 1) {
                    s[i] = w == cplx(0.) ? E::zero : E::terminal(dd->cn.lookup(dd::ComplexValue{w.real(), w.imag()}));
                } else {
                    const auto& c = pool.at(static_cast<std::size_t>(o.c.at(i) - 1)).e;
                    s[i]          = w != cplx(0.) ? scaled(c, w) : (++toggle % 2) != 0 ? E{c.p, dd::Complex::zero} : E::zero;
                }
            }
            return dd->template makeDDNode<Node>(static_cast<dd::Qubit>(o.n - 1), s);
        }
        const auto b = pool.at(static_cast<std::size_t>(o.b - 1)).e;
        if constexpr (!std::is_same_v<Node, dd::dNode>) {
            if (o.k == "mul") { return dd->multiply(scaledOp(ops.at(static_cast<std::size_t>(o.a - 1)).e, o.g.at(0)), scaled(b, o.g.at(1))); }
            if (o.k == "kron") { return dd->kronecker(scaled(pool.at(static_cast<std::size_t>(o.a - 1)).e, o.g.at(0)), scaled(b, o.g.at(1))); }
        }
        if (o.k == "add") { return dd->add(scaled(pool.at(static_cast<std::size_t>(o.a - 1)).e, o.g.at(0)), scaled(b, o.g.at(1))); }
        fprintf(stderr, "unknown operation %s\n", o.k.c_str());
        exit(9);
    }
    void step(const Op& o) {
        ++done;
        if (o.k == "nop") { return; }
        if (o.k == "gc") { dd->garbageCollect(true); return; }
        const auto d = static_cast<std::size_t>(o.d - 1);
        if (o.k == "op") {
            const auto e = buildOp(o.r, o.n);
            dd->incRef(e);
            dd->decRef(ops.at(d).e);
            ops.at(d) = {e, o.n};
            return;
        }
        if (std::is_same_v<Node, dd::dNode> && (o.k == "mul" || o.k == "kron")) { // not offered for this kind: built instead
            const auto e = build(o.r, o.n);
            check(e, o.n, o.r, "explicit");
            put(d, e, o.n, o.r);
            return;
        }
        const auto before = dd->cn.cacheCount();
        for (int t = 0; t < (opt.twice ? 2 : 1); ++t) {
            const auto e = doIt(o);
            if (opt.has("balance") && dd->cn.cacheCount() != before) {
                fail("balance", "working numbers in use: " + std::to_string(before) + " before, " + std::to_string(dd->cn.cacheCount()) + " after");
            }
            check(e, o.n, o.r, o.k.c_str());
            if (t != 0 || !opt.twice) { put(d, e, o.n, o.r); }
        }
        for (auto& s: pool) {
            if (opt.has("value")) { compare("operands", "a held diagram", pathRead(s.e, s.n, A), s.x, eps(s.x)); }
        }
        if (opt.has("unique")) { uniqueNodes(dd->template getUniqueTable<Node>(), "nodes"); }
        if (opt.gc) { dd->garbageCollect(true); }
    }
    int run(std::istream& is) {
        Op   o;
        long beh = -1, st = 0;
        while (readOp(is, o)) {
            if (o.k == "begin") { ++beh; st = 0; } else { ++st; }
            progress.at(beh, st, o.k.c_str());
            try {
                if (o.k == "begin") { begin(o); } else { step(o); }
            } catch (const Fail& f) {
                printf("FAIL %ld %ld %s %s %s\n", beh, st, o.k.c_str(), f.family.c_str(), f.detail.c_str());
                return 3;
            } catch (const std::exception& ex) {
                printf("FAIL %ld %ld %s exception %s\n", beh, st, o.k.c_str(), ex.what());
                return 3;
            }
        }
        printf("OK behaviours=%ld ops=%ld comparisons=%ld nodes=%ld vanished=%ld\n", beh + 1, done, comparisons, nodes, vanished);
        return 0;
    }
};

int main(int argc, char** argv) {
    noAslr(argv);
    for (int i = 1; i < argc; ++i) {
        const std::string a   = argv[i];
        auto              arg = [&] { return std::string(argv[++i]); };
        if (a == "--check") {
            std::istringstream is(arg());
            std::string        f;
            while (std::getline(is, f, ',')) { opt.fam.insert(f); }
        } else if (a == "--gc") { opt.gc = true;
        } else if (a == "--twice") { opt.twice = true;
        } else if (a == "--table") { opt.table = arg();
        } else if (a == "--fresh") { arg();
        } else if (a == "--progress") { opt.progress = arg();
        } else { opt.program = a; }
    }
    std::ifstream is(opt.program);
    if (!is) { fprintf(stderr, "no program\n"); return 9; }
    int r = 0;
    if (opt.table == "vector") { r = Machine<dd::vNode>().run(is); } else if (opt.table == "matrix") { r = Machine<dd::mNode>().run(is); } else { r = Machine<dd::dNode>().run(is); }
    fflush(stdout);
    _exit(r);
}
