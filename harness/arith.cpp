// Replays behaviours of spec/Arith.tla on the package's complex numbers and checks the printed forms enumerated by
// spec/Printing.tla.   arith --progress F --fresh 1 PROGRAM
#include "common.hpp"
#include "numtext.hpp"

#include <limits>

using CN = dd::ComplexNumbers;
using CV = dd::ComplexValue;
static std::size_t           steps = 0, shown = 0;
static constexpr const char* NAMES[] = {"", "-", "conj ", "-conj "};

// numbers that are recognised are printed exactly, all others to the stream's precision
static bool plain(const std::string& t) { return t.find_first_of(".e") == std::string::npos || t.find(numtext::EE) != std::string::npos; }
static void close(const char* what, const std::string& text, cplx got, cplx want, bool exact) {
    const double relr = exact ? 1e-15 : 6e-6;
    for (int part = 0; part < 2; ++part) {
        const double g = part == 0 ? got.real() : got.imag(), w = part == 0 ? want.real() : want.imag();
        if (!(std::abs(g - w) <= relr * std::abs(want) + 2e-12 + (exact ? 0 : 6e-6 * std::abs(w)))) { fail("print", std::string(what) + " prints " + S(want) + " as " + text); }
    }
}
static cplx read(const char* what, const std::string& t, bool polar) {
    try {
        return polar ? numtext::polar(t) : numtext::cartesian(t);
    } catch (const std::exception& ex) { fail("print", std::string(what) + " prints '" + t + "': " + ex.what()); }
}
static cplx readPlain(const std::string& s) { // re, im, re+imi with decimal numbers only
    std::string t = s;
    if (t.empty()) { fail("print", "empty text"); }
    const bool imag = t.back() == 'i';
    if (imag) { t.pop_back(); }
    std::size_t pos = 0;
    for (std::size_t i = 1; i < t.size(); ++i) { if ((t[i] == '+' || t[i] == '-') && t[i - 1] != 'e' && t[i - 1] != 'E') { pos = i; } }
    char* e = nullptr;
    if (!imag) {
        const double v = strtod(t.c_str(), &e);
        if (*e != 0) { fail("print", "unformatted text " + s); }
        return v;
    }
    const double im = strtod(t.c_str() + pos, &e);
    if (*e != 0) { fail("print", "unformatted text " + s); }
    return {pos == 0 ? 0. : strtod(t.substr(0, pos).c_str(), nullptr), im};
}
// everything that prints a number; `exact': every part is a recognised form
static void show(cplx x, bool exact) {
    const double tol = dd::ComplexTable<>::tolerance();
    ++shown;
    const auto f = CV::toString(x.real(), x.imag());
    close("toString", f, read("toString", f, false), x, exact || plain(f));
    if (exact && !plain(f)) { fail("print", "the recognisable number " + S(x) + " is printed as " + f); }
    std::ostringstream os;
    os << CV{x.real(), x.imag()};
    if (os.str() != f) { fail("print", "stream output " + os.str() + " differs from " + f); }
    for (int prec: {17, 16, 6, 4, 3}) {
        const auto   u = CV::toString(x.real(), x.imag(), false, prec);
        const auto   v = u == "0" ? cplx(0.) : readPlain(u);
        const double e = prec == 17 ? 0. : 0.6 * std::pow(10., 1 - prec);
        const cplx   w{std::abs(x.real()) <= tol ? 0. : x.real(), std::abs(x.imag()) <= tol ? 0. : x.imag()};
        if (!(std::abs(v.real() - w.real()) <= e * std::abs(w.real()) && std::abs(v.imag() - w.imag()) <= e * std::abs(w.imag()))) {
            fail("print", S(x) + " is printed with " + std::to_string(prec) + " digits as " + u);
        }
        if (prec != 17) { continue; }
        // as the package reads it back: real and imaginary parts as separate strings
        std::ostringstream re, im;
        re.precision(17);
        im.precision(17);
        re << w.real();
        im << std::showpos << w.imag() << "i";
        CV c{};
        c.fromString(re.str(), im.str());
        if (c.r != w.real() || c.i != w.imag()) { fail("print", "reading '" + re.str() + "', '" + im.str() + "' gives " + S(cplx(c.r, c.i))); }
        c.fromString(re.str(), "");
        if (c.r != w.real() || c.i != 0.) { fail("print", "reading '" + re.str() + "' gives " + S(cplx(c.r, c.i))); }
        c.fromString("", " " + im.str() + " ");
        if (c.r != 0. || c.i != w.imag()) { fail("print", "reading '" + im.str() + "' gives " + S(cplx(c.r, c.i))); }
    }
    CV c{};
    c.fromString("", "+i");
    if (c.r != 0. || c.i != 1.) { fail("print", "reading '+i'"); }
    c.fromString("0.25", "-i");
    if (c.r != 0.25 || c.i != -1.) { fail("print", "reading '0.25', '-i'"); }
    std::stringstream bs;
    CV{x.real(), x.imag()}.writeBinary(bs);
    if (bs.str().size() != 16) { fail("print", "binary form has the wrong length"); }
    c.readBinary(bs);
    if (c.r != x.real() || c.i != x.imag()) { fail("print", "binary form of " + S(x) + " reads back as " + S(cplx(c.r, c.i))); }
}

struct Reg {
    dd::Complex c{};
    bool        table = true;
};
struct Machine {
    std::unique_ptr<CN>                          cn;
    std::vector<Reg>                             reg;
    std::vector<std::pair<cplx, dd::Complex>>    seen;
    bool                                         tainted = false;
    std::size_t                                  held    = 0;

    void begin(const Op& o) {
        reg.clear();
        seen.clear();
        tainted = false;
        held    = 0;
        cn      = std::make_unique<CN>();
        reg.assign(static_cast<std::size_t>(o.n), {dd::Complex::zero, true});
    }
    static dd::Complex marked(dd::Complex c, int m) {
        if ((m & 1) != 0) { c = CN::neg(c); }
        if ((m & 2) != 0) { c = CN::conj(c); }
        return c;
    }
    dd::Complex arg(const Op& o, int i) { return marked(reg.at(static_cast<std::size_t>((i == 0 ? o.a : o.b) - 1)).c, o.p.at(static_cast<std::size_t>(i))); }
    std::string text(const Op& o) {
        std::string s = o.k;
        if (o.a > 0 && !o.p.empty()) { s += std::string("(") + NAMES[o.p[0]] + S(val(reg[static_cast<std::size_t>(o.a - 1)].c)); }
        if (o.b > 0 && o.p.size() > 1) { s += std::string(", ") + NAMES[o.p[1]] + S(val(reg[static_cast<std::size_t>(o.b - 1)].c)) + (o.d == o.a ? ", over the first" : o.d == o.b ? ", over the second" : ""); }
        return s + ")";
    }
    void drop(Reg& r) {
        if (!r.table) { cn->returnToCache(r.c); --held; }
        r = {dd::Complex::zero, true};
    }
    void check(const Reg& r, const Op& o, const std::string& what) {
        compare1("arith", what, val(r.c), o.s.at(0));
        if (r.table) {
            for (auto* e: {r.c.r, r.c.i}) {
                if (dd::CTEntry::getAlignedPointer(e)->value < 0) { fail("arith", what + ": a stored number is negative"); }
                if (dd::CTEntry::getAlignedPointer(e) == &dd::ComplexTable<>::zero && dd::CTEntry::isNegativePointer(e)) { fail("arith", what + ": negative zero"); }
            }
        }
    }
    void canonical(const Reg& r, cplx x, const std::string& what) {
        if (tainted) { return; }
        for (auto& [y, c]: seen) {
            if (std::abs(x - y) < 1e-9) {
                if (c != r.c) { fail("arith", what + ": the same number has two representations in the table"); }
                return;
            }
        }
        seen.emplace_back(x, r.c);
    }
    void step(const Op& o) {
        const auto what = text(o);
        auto       dst  = [&]() -> Reg& { return reg.at(static_cast<std::size_t>(o.d - 1)); };
        const auto& k   = o.k;
        if (k == "look") {
            const cplx x = o.s[0];
            drop(dst());
            dd::Complex c{};
            if (o.a == 0) { c = cn->lookup(x.real(), x.imag());
            } else if (o.a == 1) { c = cn->lookup(x);
            } else if (o.a == 2) { c = cn->lookup(CV{x.real(), x.imag()});
            } else {
                auto t = cn->getCached(x.real(), x.imag());
                c      = cn->lookup(t);
                cn->returnToCache(t);
            }
            dst() = {c, true};
            check(dst(), o, what);
            canonical(dst(), x, what);
        } else if (k == "work") {
            const cplx x = o.s[0];
            drop(dst());
            dd::Complex c{};
            if (o.a == 0) { c = cn->getCached(x.real(), x.imag());
            } else if (o.a == 1) { c = cn->getCached(x);
            } else if (o.a == 2) { c = cn->getCached(CV{x.real(), x.imag()});
            } else {
                c = cn->getCached();
                auto t = cn->getTemporary(x.real(), x.imag());
                c.setVal(t);
            }
            ++held;
            dst() = {c, false};
            check(dst(), o, what);
        } else if (k == "store") {
            const auto a = arg(o, 0);
            if (std::abs(val(a) - o.s[0]) > 2e-14) { tainted = true; }
            const auto c = cn->lookup(a);
            if (o.d != o.a || !reg[static_cast<std::size_t>(o.a - 1)].table) { drop(dst()); }
            dst() = {c, true};
            check(dst(), o, what);
            canonical(dst(), o.s[0], what);
        } else if (k == "mark") {
            const auto c = arg(o, 0);
            drop(dst());
            dst() = {c, true};
            check(dst(), o, what);
            canonical(dst(), o.s[0], what);
        } else if (k == "add" || k == "sub" || k == "mul" || k == "div") {
            auto r = dst().c;
            const auto a = arg(o, 0), b = arg(o, 1);
            apply(k, r, a, b);
            check(dst(), o, what);
        } else if (k == "addn" || k == "subn" || k == "muln" || k == "divn") {
            const auto a = arg(o, 0), b = arg(o, 1);
            const auto c = k == "addn" ? cn->addCached(a, b) : k == "subn" ? cn->subCached(a, b) : k == "muln" ? cn->mulCached(a, b) : cn->divCached(a, b);
            ++held;
            drop(dst());
            dst() = {c, false};
            check(dst(), o, what);
        } else if (k == "divx" || k == "divnx") {
            const auto a = arg(o, 0), b = arg(o, 1);
            const cplx want = o.s[0] / o.s2[0].real();
            if (k == "divnx") {
                auto c = cn->divCached(a, b);
                compare1("arith", what, val(c), want);
                cn->returnToCache(c);
            } else {
                auto c = cn->getCached();
                CN::div(c, a, b);
                compare1("arith", what, val(c), want);
                cn->returnToCache(c);
            }
        } else if (k == "query") { query(o, what);
        } else if (k == "show") {
            const auto a = arg(o, 0);
            show(val(a), false);
            const auto c = CV{val(a).real(), val(a).imag()};
            std::ostringstream os, vs;
            os << a;
            vs << c;
            if (os.str() != vs.str() || a.toString() != vs.str() || a.toString(false, 16) != CV::toString(c.r, c.i, false, 16)) { fail("print", what + ": " + os.str() + " and " + vs.str()); }
            std::stringstream bs;
            a.writeBinary(bs);
            CV back{};
            back.readBinary(bs);
            if (back.r != c.r || back.i != c.i) { fail("print", what + ": binary form reads back as " + S(cplx(back.r, back.i))); }
            const auto p = dd::conditionalFormat(a, true);
            close("conditionalFormat", p, read("conditionalFormat", p, true), o.s[0], false);
            if (dd::conditionalFormat(a, false) != a.toString()) { fail("print", what + ": the non-polar form is not the Cartesian one"); }
        } else if (k == "value") {
            const auto a = arg(o, 0), b = arg(o, 1);
            CV         x{val(a).real(), val(a).imag()}, y{val(b).real(), val(b).imag()};
            const auto z = x + y;
            compare1("arith", what + ": sum of values", {z.r, z.i}, o.s[0]);
            if ((x == y) == (x != y)) { fail("arith", what + ": == and != agree"); }
            if ((x == y) && o.q[2] == 0) { fail("arith", what + ": different values compare equal"); }
            if (x.approximatelyEquals(y) != (o.q[2] != 0)) { fail("arith", what + ": approximate comparison of values"); }
            if (x.approximatelyZero() != (o.q[0] != 0) || x.approximatelyOne() != (o.q[1] != 0)) { fail("arith", what + ": approximate predicate of a value"); }
            x += y;
            compare1("arith", what + ": accumulated value", {x.r, x.i}, o.s[0]);
        } else if (k == "temp") {
            const cplx x = o.s[0];
            const auto t = o.a == 0 ? cn->getTemporary(x.real(), x.imag()) : cn->getTemporary(CV{x.real(), x.imag()});
            compare1("arith", what, val(t), x, 0.);
        } else if (k == "free") {
            drop(dst());
        } else {
            fprintf(stderr, "unknown operation %s\n", k.c_str());
            exit(9);
        }
        // no other register was touched (their values are known to the next operation that reads them), nothing leaks
        if (cn->cacheCount() != 2 * held) { fail("arith", what + ": " + std::to_string(cn->cacheCount()) + " working numbers in use instead of " + std::to_string(2 * held)); }
    }
    static void apply(const std::string& k, dd::Complex& r, const dd::Complex& a, const dd::Complex& b) {
        if (k == "add") { CN::add(r, a, b);
        } else if (k == "sub") { CN::sub(r, a, b);
        } else if (k == "mul") { CN::mul(r, a, b);
        } else { CN::div(r, a, b); }
    }
    void query(const Op& o, const std::string& what) {
        using E      = dd::CTEntry;
        const auto a = arg(o, 0), b = arg(o, 1);
        const cplx x = o.s[0];
        compare1("arith", what + ": value", val(a), x);
        compare1("arith", what + ": squared magnitude", CN::mag2(a), o.s2[0].real());
        compare1("arith", what + ": magnitude", CN::mag(a), std::sqrt(o.s2[0].real()));
        if (o.q[0] == 0) {
            const double d = std::remainder(CN::arg(a) - std::arg(x), 2 * std::acos(-1.));
            if (!(std::abs(d) < 1e-9)) { fail("arith", what + ": phase " + S(CN::arg(a)) + " instead of " + S(std::arg(x))); }
        }
        const bool zero = o.q[0] != 0, one = o.q[1] != 0, eq = o.q[2] != 0, ta = o.q[3] != 0, tb = o.q[4] != 0;
        if (a.approximatelyZero() != zero) { fail("arith", what + ": approximatelyZero"); }
        if (a.approximatelyOne() != one) { fail("arith", what + ": approximatelyOne"); }
        if (a.approximatelyEquals(b) != eq || b.approximatelyEquals(a) != eq) { fail("arith", what + ": approximatelyEquals"); }
        if (ta && (a.exactlyZero() != zero || a.exactlyOne() != one)) { fail("arith", what + ": exactlyZero or exactlyOne"); }
        if (ta && ((a == dd::Complex::zero) != zero || (a == dd::Complex::one) != one)) { fail("arith", what + ": comparison with zero or one"); }
        if (ta && tb && !tainted && (a == b) != eq) { fail("arith", what + ": == answers " + (a == b ? "true" : "false")); }
        if ((a == b) == (a != b)) { fail("arith", what + ": == and != agree"); }
        if (ta && tb && a == b && std::hash<dd::Complex>{}(a) != std::hash<dd::Complex>{}(b)) { fail("arith", what + ": equal numbers hash differently"); }
        if (ta) {
            if (E::approximatelyZero(a.r) != (std::abs(x.real()) < 1e-12) || E::approximatelyOne(a.r) != (std::abs(x.real() - 1) < 1e-12) || E::approximatelyEquals(a.r, a.i) != (std::abs(x.real() - x.imag()) < 1e-12)) { fail("arith", what + ": predicates of the parts"); }
            const auto n = CN::neg(a), c = CN::conj(a);
            if (CN::neg(n) != a || CN::conj(c) != a) { fail("arith", what + ": negating or conjugating twice gives another number"); }
            compare1("arith", what + ": negation", val(n), -x);
            compare1("arith", what + ": conjugation", val(c), std::conj(x));
        }
    }
    // a printed form: parts <<form, numerator, denominator>>, form -1 is zero
    static double part(const Op& o, std::size_t i) {
        const int    f = o.p.at(i);
        const double q = static_cast<double>(o.p.at(i + 1)) / o.p.at(i + 2);
        return f == -1 ? 0. : f == 0 ? q : f == 1 ? q * std::sqrt(0.5) : q * std::acos(-1.);
    }
    static void print(const Op& o) {
        const cplx x{part(o, 0), part(o, 3)};
        show(x, true);
        // a number next to a recognised one, but further away than the tolerance, is not printed as that one
        const bool real = o.p[0] != -1;
        const int  f = o.p[real ? 0 : 3], d = o.p[real ? 2 : 5];
        if (o.p[0] == -1 || o.p[3] == -1) {
            for (const double delta: {1e-9, -1e-9}) {
                const double v = (real ? x.real() : x.imag()) + delta;
                const auto   t = real ? CV::toString(v, 0.) : CV::toString(0., v);
                close("toString", t, read("toString", t, false), real ? cplx(v, 0.) : cplx(0., v), false);
                if ((f > 0 || d > 1) && t.find_first_of("/") != std::string::npos) { fail("print", S(v) + " is printed as " + t); }
                if (f > 0 && (t.find(numtext::PIS) != std::string::npos || t.find(numtext::ROOT) != std::string::npos)) { fail("print", S(v) + " is printed as " + t); }
            }
        }
        // polar forms: magnitude and phase
        static CN cn;
        auto      c = cn.getCached(x.real(), x.imag());
        const auto p = dd::conditionalFormat(c);
        close("conditionalFormat", p, read("conditionalFormat", p, true), x, false);
        if (o.p[0] != -1 && o.p[3] == -1 && !plain(p)) { fail("print", "the recognisable number " + S(x) + " is printed as " + p); }
        // the unit number with a recognised phase
        const double phase = std::remainder(x.real() * std::acos(-1.), 2 * std::acos(-1.));
        auto         u     = cn.getCached(std::cos(phase), std::sin(phase));
        const auto   t     = dd::conditionalFormat(u);
        close("conditionalFormat", t, read("conditionalFormat", t, true), std::polar(1., phase), false);
        cn.returnToCache(u);
        cn.returnToCache(c);
        // fractions
        for (const double v: {x.real(), x.imag()}) {
            const auto [num, den] = CV::getLowestFraction(std::abs(v));
            if (den == 0 || den > 1024) { fail("print", "the fraction " + std::to_string(num) + "/" + std::to_string(den)); }
        }
        if (o.p[0] == 0) {
            const auto [num, den] = CV::getLowestFraction(std::abs(x.real()));
            if (num != static_cast<std::uint64_t>(std::abs(o.p[1])) || den != static_cast<std::uint64_t>(o.p[2])) { fail("print", "the fraction of " + S(x.real()) + " is " + std::to_string(num) + "/" + std::to_string(den)); }
        }
    }
};

int main(int argc, char** argv) {
    noAslr(argv);
    std::string prog, file;
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        if (a == "--progress") { prog = argv[++i]; }
        else if (a == "--fresh") { ++i; }
        else { file = a; }
    }
    std::ifstream in(file);
    if (!in) { return 9; }
    Progress pr(prog);
    Machine  m;
    long     beh = -1, st = 0;
    Op       o;
    try {
        while (true) {
            Op p;
            if (!readOp(in, p)) { break; }
            o = p;
            if (o.k == "begin" || o.k == "print") {
                ++beh;
                st = 0;
            } else {
                ++st;
            }
            pr.at(beh, st, o.k.c_str());
            ++steps;
            if (o.k == "begin") { m.begin(o); } else if (o.k == "print") { Machine::print(o); } else { m.step(o); }
        }
        if (file.find("Print1") != std::string::npos) {
            // large and odd numbers come to an end
            for (const double x: {1e12, 1e12 + 0.25, 123456789.5, 1e15, 1e18, 1e100, 1e300, 1e-6, 1e-11, 1e7 / 3.}) {
                pr.at(beh, st, "large");
                show({x, 0.}, false);
                show({-x, x}, false);
            }
        }
    } catch (const Fail& f) {
        printf("FAIL %ld %ld %s %s\n", beh, st, f.family.c_str(), f.detail.c_str());
        return 3;
    } catch (const std::exception& x) {
        printf("FAIL %ld %ld exception %s\n", beh, st, x.what());
        return 3;
    }
    printf("OK number_steps=%zu printed=%zu\n", steps, shown);
    return 0;
}
