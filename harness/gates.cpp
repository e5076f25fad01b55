// Gate diagrams against the tables of spec/Gates.tla.
//   gates --progress F --what one|two|named|path --seed S --random K --named NAMES RECORDS
// RECORDS: lines  table n start |p| p.. |c| c.. |q| q..   /  path ...  /  named NAME |w| (|terms| (re im e1 e2 e3)..)..
#include "common.hpp"
#include "dd/GateMatrixDefinitions.hpp"

#include <random>

struct Cfg: public dd::DDPackageConfig {
    static constexpr std::size_t utVecNbucket = 64U, utMatNbucket = 256U, utMatInitialAllocationSize = 64U, ctVecAddNbucket = 64U;
    static constexpr std::size_t utVecInitialAllocationSize = 16U;
};
using Pkg = dd::Package<Cfg>;
using M1  = std::array<dd::ComplexValue, 4>;
using M2  = std::array<std::array<dd::ComplexValue, 4>, 4>;

struct Rec {
    std::string      kind, name;
    int              n = 0, a = 0;
    std::vector<int> p, c, q;
    struct Term {
        cplx w;
        int  e[3];
    };
    std::vector<std::vector<Term>> w;
    std::vector<cplx>              eval(const double* x) const {
        std::vector<cplx> r;
        for (auto& t: w) {
            cplx s = 0;
            for (auto& y: t) { s += y.w * std::polar(1., (y.e[0] * x[0] + y.e[1] * x[1] + y.e[2] * x[2]) / 2.); }
            r.push_back(s);
        }
        return r;
    }
};

static std::mt19937_64            rng;
static std::map<std::string, Rec> named;
static std::size_t                cases = 0, mats = 0;

static double uni(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
static const std::vector<double>& corners() {
    static const std::vector<double> v = {0., dd::PI, -dd::PI, dd::PI_2, -dd::PI_2, dd::PI_4, -dd::PI_4, 2 * dd::PI, -2 * dd::PI, 3 * dd::PI, 4 * dd::PI, dd::PI / 3, 3 * dd::PI_2, 1e-3, 1., -2.5, 17.25};
    return v;
}
static double angle() { return rng() % 3 == 0 ? uni(-13, 13) : corners()[rng() % corners().size()]; }

static std::vector<cplx> flat(const M1& m) {
    std::vector<cplx> r;
    for (auto& x: m) { r.emplace_back(x.r, x.i); }
    return r;
}
static std::vector<cplx> flat(const M2& m) {
    std::vector<cplx> r;
    for (auto& y: m) {
        for (auto& x: y) { r.emplace_back(x.r, x.i); }
    }
    return r;
}
static dd::ComplexValue rentry() {
    switch (rng() % 8) {
        case 0: return {0., 0.};
        case 1: return {1., 0.};
        case 2: return {0., rng() % 2 ? 1. : -1.};
        case 3: return {rng() % 2 ? dd::SQRT2_2 : -dd::SQRT2_2, 0.};
        case 4: return {uni(-1, 1), 0.};
        case 5: return {0., uni(-1, 1)};
        case 6: return {-0.5, rng() % 2 ? 0.5 : -0.5};
        default: return {uni(-1, 1), uni(-1, 1)};
    }
}
static M1 random1() {
    M1 m;
    for (auto& x: m) { x = rentry(); }
    return m;
}
static M2 random2() {
    M2        m;
    const bool sparse = rng() % 2;
    for (auto& y: m) {
        for (auto& x: y) { x = sparse && rng() % 2 ? dd::ComplexValue{0., 0.} : rentry(); }
    }
    return m;
}

// the package's named matrices
static bool single(const std::string& s, const double* x, M1& m) {
    static const std::map<std::string, M1> fixed = {{"I", dd::Imat}, {"H", dd::Hmat}, {"X", dd::Xmat}, {"Y", dd::Ymat}, {"Z", dd::Zmat}, {"S", dd::Smat}, {"Sdag", dd::Sdagmat}, {"T", dd::Tmat}, {"Tdag", dd::Tdagmat}, {"SX", dd::SXmat}, {"SXdag", dd::SXdagmat}, {"V", dd::Vmat}, {"Vdag", dd::Vdagmat}};
    if (auto it = fixed.find(s); it != fixed.end()) {
        m = it->second;
    } else if (s == "U3") {
        m = dd::U3mat(x[1], x[2], x[0]);
    } else if (s == "U2") {
        m = dd::U2mat(x[1], x[2]);
    } else if (s == "Phase") {
        m = dd::Phasemat(x[0]);
    } else if (s == "RX") {
        m = dd::RXmat(x[0]);
    } else if (s == "RY") {
        m = dd::RYmat(x[0]);
    } else if (s == "RZ") {
        m = dd::RZmat(x[0]);
    } else {
        return false;
    }
    return true;
}
static bool twofold(const std::string& s, const double* x, M2& m) {
    static const std::map<std::string, M2> fixed = {{"CX", dd::CXmat}, {"CZ", dd::CZmat}, {"SWAP", dd::SWAPmat}, {"iSWAP", dd::iSWAPmat}, {"iSWAPinv", dd::iSWAPinvmat}, {"ECR", dd::ECRmat}, {"DCX", dd::DCXmat}};
    if (auto it = fixed.find(s); it != fixed.end()) {
        m = it->second;
    } else if (s == "RXX") {
        m = dd::RXXmat(x[0]);
    } else if (s == "RYY") {
        m = dd::RYYmat(x[0]);
    } else if (s == "RZZ") {
        m = dd::RZZmat(x[0]);
    } else if (s == "RZX") {
        m = dd::RZXmat(x[0]);
    } else if (s == "XXMinusYY") {
        m = dd::XXMinusYYmat(x[0], x[1]);
    } else if (s == "XXPlusYY") {
        m = dd::XXPlusYYmat(x[0], x[1]);
    } else {
        return false;
    }
    return true;
}
static const std::vector<std::string> NAMES2 = {"SWAP", "iSWAP", "iSWAPinv", "DCX", "ECR", "Peres", "Peresdag", "RXX", "RYY", "RZZ", "RZX", "XXMinusYY", "XXPlusYY"};

static bool plain(Pkg& d, const std::string& s, int n, int t0, int t1, const double* x, int st, dd::mEdge& e) {
    if (s == "SWAP") { e = d.makeSWAPDD(n, t0, t1, st); }
    else if (s == "iSWAP") { e = d.makeiSWAPDD(n, t0, t1, st); }
    else if (s == "iSWAPinv") { e = d.makeiSWAPinvDD(n, t0, t1, st); }
    else if (s == "DCX") { e = d.makeDCXDD(n, t0, t1, st); }
    else if (s == "ECR") { e = d.makeECRDD(n, t0, t1, st); }
    else if (s == "RXX") { e = d.makeRXXDD(n, t0, t1, x[0], st); }
    else if (s == "RYY") { e = d.makeRYYDD(n, t0, t1, x[0], st); }
    else if (s == "RZZ") { e = d.makeRZZDD(n, t0, t1, x[0], st); }
    else if (s == "RZX") { e = d.makeRZXDD(n, t0, t1, x[0], st); }
    else if (s == "XXMinusYY") { e = d.makeXXMinusYYDD(n, t0, t1, x[0], x[1], st); }
    else if (s == "XXPlusYY") { e = d.makeXXPlusYYDD(n, t0, t1, x[0], x[1], st); }
    else { return false; }
    return true;
}
static dd::mEdge controlled(Pkg& d, const std::string& s, int n, const dd::Controls& c, int t0, int t1, const double* x, int st) {
    if (s == "SWAP") { return d.makeSWAPDD(n, c, t0, t1, st); }
    if (s == "iSWAP") { return d.makeiSWAPDD(n, c, t0, t1, st); }
    if (s == "iSWAPinv") { return d.makeiSWAPinvDD(n, c, t0, t1, st); }
    if (s == "DCX") { return d.makeDCXDD(n, c, t0, t1, st); }
    if (s == "ECR") { return d.makeECRDD(n, c, t0, t1, st); }
    if (s == "Peres") { return d.makePeresDD(n, c, t0, t1, st); }
    if (s == "Peresdag") { return d.makePeresdagDD(n, c, t0, t1, st); }
    if (s == "RXX") { return d.makeRXXDD(n, c, t0, t1, x[0], st); }
    if (s == "RYY") { return d.makeRYYDD(n, c, t0, t1, x[0], st); }
    if (s == "RZZ") { return d.makeRZZDD(n, c, t0, t1, x[0], st); }
    if (s == "RZX") { return d.makeRZXDD(n, c, t0, t1, x[0], st); }
    if (s == "XXMinusYY") { return d.makeXXMinusYYDD(n, c, t0, t1, x[0], x[1], st); }
    if (s == "XXPlusYY") { return d.makeXXPlusYYDD(n, c, t0, t1, x[0], x[1], st); }
    fprintf(stderr, "unknown gate %s\n", s.c_str());
    exit(9);
}

// checks an operator against the table of a record
static void judge(Pkg& d, const Rec& r, const dd::mEdge& e, const std::vector<cplx>& m, const std::string& what) {
    ++cases;
    auto sym = [&](int q) { return q == 0 ? cplx{0.} : q == 1 ? cplx{1.} : m.at(static_cast<std::size_t>(q - 2)); };
    if (r.kind == "table") {
        std::vector<cplx> want;
        for (auto q: r.q) { want.push_back(sym(q)); }
        try {
            compare("gate", what, mread(e, r.n, r.a), want);
        } catch (const Fail& f) {
            if (f.family == "structure") { fail("structure", what + ": " + f.detail); }
            throw;
        }
        return;
    }
    if (e.p->v != r.n + r.a - 1) { fail("gate", what + ": top level " + std::to_string(e.p->v) + " instead of " + std::to_string(r.n + r.a - 1)); }
    const auto stride = static_cast<std::size_t>(r.n) + 1U;
    for (std::size_t i = 0; i + stride <= r.q.size(); i += stride) {
        std::string path(static_cast<std::size_t>(r.a + r.n), '0');
        dd::mEdge   f   = e;
        cplx        amp = val(f.w);
        for (int q = r.n - 1; q >= 0; --q) {
            const auto dgt                          = r.q[i + static_cast<std::size_t>(q)];
            path[static_cast<std::size_t>(r.a + q)] = static_cast<char>('0' + dgt);
            if (zeroW(f.w)) { break; }
            if (f.isTerminal() || f.p->v != q + r.a) { fail("structure", what + ": level " + std::to_string(q + r.a) + " is missing"); }
            f = f.p->e[static_cast<std::size_t>(dgt)];
            amp *= val(f.w);
        }
        for (int q = r.n - 1; q >= 0; --q) { path[static_cast<std::size_t>(r.a + q)] = static_cast<char>('0' + r.q[i + static_cast<std::size_t>(q)]); }
        if (!zeroW(f.w) && !f.isTerminal()) { fail("structure", what + ": levels below the start"); }
        const auto want = sym(r.q[i + stride - 1]);
        compare1("gate", what + ": entry " + path, amp, want);
        const auto v = d.getValueByPath(e, path);
        compare1("gate", what + ": getValueByPath " + path, {v.r, v.i}, want);
    }
}
static std::string describe(const Rec& r, const std::string& gate, const std::vector<cplx>& m) {
    std::string s = gate + " n=" + std::to_string(r.n) + " start=" + std::to_string(r.a) + " targets (from start) " + S(r.p) + " controls " + S(r.c) + " matrix";
    for (auto& x: m) { s += " " + S(x); }
    return s;
}
static dd::Controls controlsOf(const Rec& r) {
    dd::Controls c;
    for (std::size_t i = 0; i < r.c.size(); ++i) {
        if (r.c[i] != 0) { c.insert(dd::Control{static_cast<dd::Qubit>(static_cast<int>(i) + r.a), r.c[i] == 1 ? dd::Control::Type::pos : dd::Control::Type::neg}); }
    }
    return c;
}

static void one(Pkg& d, const Rec& r, int random) {
    const auto      c = controlsOf(r);
    const auto      t = static_cast<dd::Qubit>(r.p[0] + r.a);
    std::vector<std::pair<std::string, M1>> ms;
    for (auto* s: {"I", "H", "X", "Y", "Z", "S", "Sdag", "T", "Tdag", "SX", "SXdag", "V", "Vdag", "U3", "U2", "Phase", "RX", "RY", "RZ"}) {
        double x[3] = {angle(), angle(), angle()};
        M1     m;
        single(s, x, m);
        ms.emplace_back(s, m);
    }
    if (r.kind == "path") {
        std::shuffle(ms.begin(), ms.end(), rng);
        ms.resize(3);
    }
    ms.emplace_back("zero", M1{});
    for (int i = 0; i < random; ++i) { ms.emplace_back("random", random1()); }
    for (int i = 0; i < 4; ++i) {     // a single non-zero entry
        M1 m{};
        m[static_cast<std::size_t>(i)] = {uni(-1, 1), uni(-1, 1)};
        ms.emplace_back("single entry", m);
    }
    for (auto& [s, m]: ms) {
        ++mats;
        const auto w    = flat(m);
        const auto what = "makeGateDD " + describe(r, s, w);
        if (r.kind == "path") {     // the zero operator and a single entry have no diagram of full height on every path
            bool z = true;
            for (auto& y: w) { z = z && y == 0.; }
            if (z && c.empty()) { continue; }
        }
        judge(d, r, d.makeGateDD(m, static_cast<dd::QubitCount>(r.n), c, t, static_cast<std::size_t>(r.a)), w, what);
        if (c.empty()) { judge(d, r, d.makeGateDD(m, static_cast<dd::QubitCount>(r.n), t, static_cast<std::size_t>(r.a)), w, what + " (no controls)"); }
        if (c.size() == 1) { judge(d, r, d.makeGateDD(m, static_cast<dd::QubitCount>(r.n), *c.begin(), t, static_cast<std::size_t>(r.a)), w, what + " (one control)"); }
    }
}
static void two(Pkg& d, const Rec& r, int random) {
    const auto c  = controlsOf(r);
    const auto t0 = r.p[0] + r.a, t1 = r.p[1] + r.a;
    if (c.empty()) {
        for (int i = 0; i < random + 16; ++i) {
            M2 m{};
            if (i < 16) {
                m[static_cast<std::size_t>(i / 4)][static_cast<std::size_t>(i % 4)] = {uni(-1, 1), uni(-1, 1)};
            } else {
                m = random2();
            }
            ++mats;
            const auto w = flat(m);
            if (r.kind == "path" && std::all_of(w.begin(), w.end(), [](cplx y) { return y == 0.; })) { continue; }
            judge(d, r, d.makeTwoQubitGateDD(m, static_cast<dd::QubitCount>(r.n), static_cast<dd::Qubit>(t0), static_cast<dd::Qubit>(t1), static_cast<std::size_t>(r.a)), w, "makeTwoQubitGateDD " + describe(r, "random", w));
        }
        for (auto* s: {"CX", "CZ"}) {
            M2     m;
            double x[3] = {0, 0, 0};
            twofold(s, x, m);
            judge(d, r, d.makeTwoQubitGateDD(m, static_cast<dd::QubitCount>(r.n), static_cast<dd::Qubit>(t0), static_cast<dd::Qubit>(t1), static_cast<std::size_t>(r.a)), named.at(s).eval(x), std::string("makeTwoQubitGateDD ") + describe(r, s, {}));
        }
    }
    for (auto& s: NAMES2) {
        const int reps = s[0] == 'R' || s[0] == 'X' ? (random + 3) / 4 : 1;
        for (int i = 0; i < reps; ++i) {
            double     x[3] = {angle(), angle(), 0};
            const auto w    = named.at(s).eval(x);
            const auto what = "make" + s + "DD(" + S(x[0]) + "," + S(x[1]) + ") " + describe(r, s, {});
            if (c.empty()) {
                dd::mEdge e;
                if (plain(d, s, r.n, t0, t1, x, r.a, e)) { judge(d, r, e, w, what + " plain"); }
            }
            judge(d, r, controlled(d, s, r.n, c, t0, t1, x, r.a), w, what + " with a set of controls");
        }
    }
}
static void names(const Rec& r) {
    for (int i = 0; i < 400; ++i) {
        double x[3];
        for (int j = 0; j < 3; ++j) { x[j] = i < static_cast<int>(corners().size()) && j == 0 ? corners()[static_cast<std::size_t>(i)] : angle(); }
        if (r.name.substr(0, 2) == "XX" && i % 5 == 0) { x[1] = 0; }
        const auto  want = r.eval(x);
        M1          m1;
        M2          m2;
        std::vector<cplx> got;
        if (single(r.name, x, m1)) { got = flat(m1); } else if (twofold(r.name, x, m2)) { got = flat(m2); } else { return; }
        ++cases;
        compare("matrix", r.name + "mat(" + S(x[0]) + "," + S(x[1]) + "," + S(x[2]) + ")", got, want, 1e-12);
        if (r.name.substr(0, 2) == "XX" && x[1] == 0) {
            compare("matrix", r.name + "mat default angle", flat(r.name == "XXPlusYY" ? dd::XXPlusYYmat(x[0]) : dd::XXMinusYYmat(x[0])), want, 1e-12);
        }
    }
}

int main(int argc, char** argv) {
    noAslr(argv);
    std::string prog, nm, what, recs;
    int         seed = 1, random = 4;
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        if (a == "--progress") { prog = argv[++i]; }
        else if (a == "--named") { nm = argv[++i]; }
        else if (a == "--what") { what = argv[++i]; }
        else if (a == "--seed") { seed = atoi(argv[++i]); }
        else if (a == "--random") { random = atoi(argv[++i]); }
        else { recs = a; }
    }
    rng.seed(static_cast<unsigned>(seed));
    Progress pr(prog);
    auto     read = [](const std::string& f) {
        std::vector<Rec> out;
        std::ifstream    in(f);
        if (!in) { exit(9); }
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream is(line);
            Rec                r;
            is >> r.kind;
            if (r.kind == "named") {
                std::size_t k = 0;
                is >> r.name >> k;
                r.w.resize(k);
                for (auto& e: r.w) {
                    std::size_t t = 0;
                    is >> t;
                    e.resize(t);
                    for (auto& y: e) {
                        double re = 0, im = 0;
                        is >> re >> im >> y.e[0] >> y.e[1] >> y.e[2];
                        y.w = {re, im};
                    }
                }
            } else {
                is >> r.n >> r.a;
                for (auto* v: {&r.p, &r.c, &r.q}) {
                    std::size_t k = 0;
                    is >> k;
                    v->resize(k);
                    for (auto& x: *v) { is >> x; }
                }
            }
            if (!is) { fprintf(stderr, "bad record\n"); exit(9); }
            out.push_back(r);
        }
        return out;
    };
    for (auto& r: read(nm)) { named[r.name] = r; }
    long        i = 0;
    std::string at;
    try {
        if (what == "named") {
            for (auto& [s, r]: named) {
                pr.at(i++, 0, s.c_str());
                names(r);
            }
        } else {
            std::map<int, std::unique_ptr<Pkg>> ds;
            for (auto& r: read(recs)) {
                pr.at(i++, 0, r.kind.c_str());
                auto& d = ds[r.n + r.a];
                if (!d || i % 16 == 0) { d = std::make_unique<Pkg>(static_cast<std::size_t>(r.n + r.a)); }
                if (r.p.size() == 1) {
                    if (what == "one" || what == "path1") { one(*d, r, random); }
                } else {
                    if (what == "two" || what == "path2") { two(*d, r, random); }
                }
                d->garbageCollect(i % 4 == 0);
                if (r.kind == "path") { d.reset(); }
            }
        }
    } catch (const Fail& f) {
        printf("FAIL %ld 0 %s %s\n", i - 1, f.family.c_str(), f.detail.c_str());
        return 3;
    } catch (const std::exception& x) {
        printf("FAIL %ld 0 exception %s\n", i - 1, x.what());
        return 3;
    }
    printf("OK gate_diagrams=%zu matrices=%zu\n", cases, mats);
    return 0;
}
