// Shared helpers of the replay harnesses. Uses only the public interface of the package.
#pragma once
#include "dd/Export.hpp"
#include "dd/Package.hpp"

#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

using cplx = std::complex<double>;

struct Fail {
    std::string family;
    std::string detail;
};
[[noreturn]] inline void fail(const std::string& family, const std::string& detail) { throw Fail{family, detail}; }
inline std::string       S(cplx c) {
    char b[80];
    snprintf(b, sizeof b, "%.17g%+.17gi", c.real(), c.imag());
    return b;
}
inline std::string S(double c) {
    char b[40];
    snprintf(b, sizeof b, "%.17g", c);
    return b;
}
template<class T>
std::string S(const std::vector<T>& v) {
    std::string s = "[";
    for (auto& x: v) { s += std::to_string(x) + " "; }
    return s + "]";
}

// address space randomisation off: a replay is the same every time
inline void noAslr(char** argv) {
    if (getenv("VERIF_NOASLR") == nullptr) {
        setenv("VERIF_NOASLR", "1", 1);
        const auto p = personality(0xffffffff);
        if (p != -1 && personality(static_cast<unsigned long>(p) | ADDR_NO_RANDOMIZE) != -1) {
            execv("/proc/self/exe", argv);
        }
    }
}

// where the replay is, readable after a crash
struct Progress {
    char* mem = nullptr;
    explicit Progress(const std::string& path) {
        if (path.empty()) { return; }
        int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, 4096) != 0) { exit(9); }
        mem = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
    }
    void at(long beh, long step, const char* what) {
        if (mem) { snprintf(mem, 4096, "behaviour %ld step %ld op %s\n", beh, step, what); }
    }
};

inline cplx val(const dd::Complex& c) { return {dd::CTEntry::val(c.r), dd::CTEntry::val(c.i)}; }
inline bool zeroW(const dd::Complex& c) { return dd::CTEntry::val(c.r) == 0. && dd::CTEntry::val(c.i) == 0.; }

// The harness' own reading of a diagram over the qubits start .. start+n-1
// (independent of the package's read-out routines; checks the level structure on the way).
inline void vreadRec(const dd::vEdge& e, int level, int start, std::size_t i, cplx amp, std::vector<cplx>& out) {
    if (zeroW(e.w)) {
        if (!e.isTerminal()) { fail("structure", "zero-weight edge to a non-terminal node"); }
        return;
    }
    amp *= val(e.w);
    if (level < start) {
        if (!e.isTerminal()) { fail("structure", "node below the lowest level"); }
        out.at(i) = amp;
        return;
    }
    if (e.isTerminal()) { fail("structure", "non-zero terminal above the lowest level"); }
    if (e.p->v != level) { fail("structure", "node of level " + std::to_string(e.p->v) + " where " + std::to_string(level) + " belongs"); }
    vreadRec(e.p->e[0], level - 1, start, i, amp, out);
    vreadRec(e.p->e[1], level - 1, start, i | (std::size_t{1} << (level - start)), amp, out);
}
inline std::vector<cplx> vread(const dd::vEdge& e, int n, int start = 0) {
    std::vector<cplx> out(std::size_t{1} << n);
    vreadRec(e, n - 1 + start, start, 0, 1., out);
    return out;
}
template<class Edge>
inline void mreadRec(const Edge& e, int level, int start, std::size_t r, std::size_t c, cplx amp, std::vector<cplx>& out, std::size_t N) {
    if (zeroW(e.w)) {
        if (!e.isTerminal()) { fail("structure", "zero-weight edge to a non-terminal node"); }
        return;
    }
    amp *= val(e.w);
    if (level < start) {
        if (!e.isTerminal()) { fail("structure", "node below the lowest level"); }
        out.at(r * N + c) = amp;
        return;
    }
    if (e.isTerminal()) { fail("structure", "non-zero terminal above the lowest level"); }
    if (e.p->v != level) { fail("structure", "node of level " + std::to_string(e.p->v) + " where " + std::to_string(level) + " belongs"); }
    const auto b = std::size_t{1} << (level - start);
    mreadRec(e.p->e[0], level - 1, start, r, c, amp, out, N);
    mreadRec(e.p->e[1], level - 1, start, r, c | b, amp, out, N);
    mreadRec(e.p->e[2], level - 1, start, r | b, c, amp, out, N);
    mreadRec(e.p->e[3], level - 1, start, r | b, c | b, amp, out, N);
}
inline std::vector<cplx> mread(const dd::mEdge& e, int n, int start = 0) {
    const auto        N = std::size_t{1} << n;
    std::vector<cplx> out(N * N);
    mreadRec(e, n - 1 + start, start, 0, 0, 1., out, N);
    return out;
}
inline void compare(const char* family, const std::string& what, const std::vector<cplx>& got, const std::vector<cplx>& want, double eps = 1e-9) {
    if (got.size() != want.size()) { fail(family, what + ": length " + std::to_string(got.size()) + " instead of " + std::to_string(want.size())); }
    for (std::size_t i = 0; i < got.size(); ++i) {
        if (!(std::abs(got[i] - want[i]) <= eps)) {
            fail(family, what + ": entry " + std::to_string(i) + " is " + S(got[i]) + " instead of " + S(want[i]));
        }
    }
}
inline void compare1(const char* family, const std::string& what, cplx got, cplx want, double eps = 1e-9) {
    if (!(std::abs(got - want) <= eps)) { fail(family, what + " is " + S(got) + " instead of " + S(want)); }
}
template<class Edge>
bool same(const Edge& a, const Edge& b) { return a.p == b.p && a.w == b.w; }

/// Two diagrams of one function may differ legitimately where a computed number lies within the tolerance of two
/// stored numbers that are further apart than the tolerance: either may stand for it.  Stored numbers closer to each
/// other than the tolerance are no excuse, they have to be one.
template<class Edge>
bool between(const Edge& a, const Edge& b) {
    if (a.p == b.p) {
        const auto x = a.w, y = b.w;
        const auto d = std::max(std::abs(dd::CTEntry::val(x.r) - dd::CTEntry::val(y.r)), std::abs(dd::CTEntry::val(x.i) - dd::CTEntry::val(y.i)));
        const auto tol = dd::ComplexTable<>::tolerance();
        return d > tol && d <= 2.001 * tol;
    }
    if (a.isTerminal() || b.isTerminal() || a.p->v != b.p->v) { return false; }
    for (std::size_t i = 0; i < a.p->e.size(); ++i) {
        if (between(a.p->e[i], b.p->e[i])) { return true; }
    }
    return false;
}

inline dd::CVec toCVec(const std::vector<cplx>& x) { return dd::CVec(x.begin(), x.end()); }
inline dd::CMat toCMat(const std::vector<cplx>& x, int n) {
    const auto N = std::size_t{1} << n;
    dd::CMat   m(N, dd::CVec(N));
    for (std::size_t r = 0; r < N; ++r) {
        for (std::size_t c = 0; c < N; ++c) { m[r][c] = x[r * N + c]; }
    }
    return m;
}

// one operation of a behaviour (see op_line in tools/vlib.py)
struct Op {
    std::string                                                            k;
    int                                                                    d{}, a{}, b{}, n{}, z{}, t{}, gi{};
    std::vector<int>                                                       p, c, q;
    std::vector<cplx>                                                      g, r, e, s, s2, m2, v, m;
};

inline std::vector<int> ints(std::istream& is) {
    std::size_t n = 0;
    is >> n;
    std::vector<int> v(n);
    for (auto& x: v) { is >> x; }
    return v;
}
inline std::vector<cplx> cplxs(std::istream& is) {
    std::size_t n = 0;
    is >> n;
    std::vector<cplx> v(n);
    std::string       re, im;
    for (auto& x: v) {
        is >> re >> im;
        x = {strtod(re.c_str(), nullptr), strtod(im.c_str(), nullptr)};
    }
    return v;
}
inline bool readOp(std::istream& is, Op& o) {
    if (!(is >> o.k)) { return false; }
    is >> o.d >> o.a >> o.b >> o.n >> o.z >> o.t >> o.gi;
    o.p = ints(is); o.c = ints(is); o.q = ints(is);
    o.g = cplxs(is); o.r = cplxs(is); o.e = cplxs(is); o.s = cplxs(is); o.s2 = cplxs(is); o.m2 = cplxs(is); o.v = cplxs(is); o.m = cplxs(is);
    if (!is) { fprintf(stderr, "bad program\n"); exit(9); }
    return true;
}

