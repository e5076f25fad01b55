// Independent reading of the package's printed numbers ("3π/7", "-1/(5√2)", "1/2(1-i)", "1/√2 ℯ(-iπ/4)", "0.25-0.1i").
#pragma once
#include <cmath>
#include <complex>
#include <stdexcept>
#include <string>

namespace numtext {
    struct Bad: std::runtime_error { using std::runtime_error::runtime_error; };
    inline const std::string PIS = "\xcf\x80", ROOT = "\xe2\x88\x9a", EE = "\xe2\x84\xaf", HALF = "\xc2\xbd";
    inline bool              eat(const std::string& s, std::size_t& p, const std::string& t) {
        if (s.compare(p, t.size(), t) == 0) { p += t.size(); return true; }
        return false;
    }
    // product of factors; juxtaposition multiplies, "/" divides by the next factor
    inline double factor(const std::string& s, std::size_t& p);
    inline double product(const std::string& s, std::size_t& p) {
        double v   = 1.;
        bool   any = false;
        while (p < s.size() && s[p] != ')') {
            if (s[p] == '/') { ++p; v /= factor(s, p); any = true; continue; }
            if (s[p] == ' ') { ++p; continue; }
            v *= factor(s, p);
            any = true;
        }
        if (!any) { throw Bad("no number in '" + s + "'"); }
        return v;
    }
    inline double factor(const std::string& s, std::size_t& p) {
        if (eat(s, p, PIS)) { return std::acos(-1.); }
        if (eat(s, p, ROOT)) { return eat(s, p, HALF) ? std::sqrt(0.5) : std::sqrt(factor(s, p)); }
        if (eat(s, p, "(")) {
            const double v = product(s, p);
            if (!eat(s, p, ")")) { throw Bad("bracket in '" + s + "'"); }
            return v;
        }
        if (p < s.size() && (isdigit(static_cast<unsigned char>(s[p])) || s[p] == '.')) {
            char*        e = nullptr;
            const double v = strtod(s.c_str() + p, &e);
            p              = static_cast<std::size_t>(e - s.c_str());
            return v;
        }
        throw Bad("unreadable number '" + s + "'");
    }
    // a signed real number; an empty one (or one that starts with "/") has the factor one
    inline double real(std::string s, bool unit = false) {
        double sign = 1.;
        if (!s.empty() && (s[0] == '+' || s[0] == '-')) { sign = s[0] == '-' ? -1. : 1.; s = s.substr(1); }
        if (unit && s.empty()) { return sign; }
        std::size_t  p = 0;
        const double v = product(unit && s[0] == '/' ? "1" + s : s, p);
        if (p != s.size() + (unit && s[0] == '/' ? 1U : 0U)) { throw Bad("rest in '" + s + "'"); }
        return sign * v;
    }
    // Cartesian form
    inline std::complex<double> cartesian(std::string s) {
        std::string t;
        for (char c: s) { if (c != ' ') { t += c; } }
        s = t;
        if (s.empty()) { throw Bad("empty number"); }
        for (int k = 0; k < 2; ++k) {
            const std::string suffix = k == 0 ? "(1+i)" : "(1-i)";
            if (s.size() >= 5 && s.compare(s.size() - 5, 5, suffix) == 0) { return real(s.substr(0, s.size() - 5), true) * std::complex<double>(1., k == 0 ? 1. : -1.); }
        }
        const auto im = s.find('i');
        if (im == std::string::npos) { return real(s); }
        if (s.find('i', im + 1) != std::string::npos) { throw Bad("two imaginary units in '" + s + "'"); }
        std::size_t pos = 0;
        for (std::size_t i = 1; i < s.size(); ++i) { if ((s[i] == '+' || s[i] == '-') && s[i - 1] != 'e' && s[i - 1] != 'E') { pos = i; } }
        if (pos > im) { throw Bad("imaginary part first in '" + s + "'"); }
        std::string imag = s.substr(pos);
        imag.erase(imag.find('i'), 1);
        return {pos == 0 ? 0. : real(s.substr(0, pos)), real(imag, true)};
    }
    // polar form: magnitude and phase
    inline std::complex<double> polar(std::string s) {
        if (s == "i") { return {0., 1.}; }
        if (s == "-i") { return {0., -1.}; }
        const auto e = s.find(EE);
        if (e == std::string::npos) { return real(s); }
        std::string mag = s.substr(0, e), ph = s.substr(e + EE.size());
        while (!mag.empty() && mag.back() == ' ') { mag.pop_back(); }
        if (ph.size() < 3 || ph[0] != '(' || ph.back() != ')') { throw Bad("phase in '" + s + "'"); }
        ph        = ph.substr(1, ph.size() - 2);
        double sg = 1.;
        if (ph[0] == '-') { sg = -1.; ph = ph.substr(1); }
        std::size_t p = 0;
        if (!eat(ph, p, "i" + PIS)) { throw Bad("phase in '" + s + "'"); }
        ph = ph.substr(p);
        while (!ph.empty() && ph[0] == ' ') { ph = ph.substr(1); }
        const double f = sg * real(ph, true) * std::acos(-1.);
        return (mag.empty() ? 1. : real(mag)) * std::complex<double>(std::cos(f), std::sin(f));
    }
} // namespace numtext
