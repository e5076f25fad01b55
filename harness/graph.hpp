// A diagram as a plain graph: taken from an edge, or read from the text format. Functions are compared with it by
// descending through both at once, so the width does not matter.
#pragma once
#include "common.hpp"

#include <cmath>
#include <optional>

// a sum of product terms (spec/Wide.tla): coefficient times, per qubit, the entry a factor selects
struct Terms {
    int                                          n = 0, arity = 2;
    std::vector<cplx>                            c;
    std::vector<std::vector<std::vector<cplx>>>  f; // term, qubit, entry
    cplx at(const std::vector<int>& path) const {
        cplx r = 0.;
        for (std::size_t i = 0; i < c.size(); ++i) {
            cplx x = c[i];
            for (int q = 0; q < n && x != 0.; ++q) { x *= f[i][static_cast<std::size_t>(q)][static_cast<std::size_t>(path[static_cast<std::size_t>(q)])]; }
            r += x;
        }
        return r;
    }
};

struct Graph {
    struct Nd { int v; std::vector<std::pair<long, cplx>> e; }; // -1: terminal, -2: zero edge
    cplx               w{};
    long               root = -2;
    int                arity = 2;
    std::map<long, Nd> nodes;

    template<class Edge>
    static Graph fromEdge(const Edge& e) {
        Graph                       g;
        std::map<const void*, long> ids;
        g.arity = static_cast<int>(std::tuple_size_v<decltype(e.p->e)>);
        std::function<long(const Edge&)> id = [&](const Edge& x) -> long {
            if (zeroW(x.w)) {
                if (!x.isTerminal()) { fail("structure", "zero-weight edge to a non-terminal node"); }
                return -2;
            }
            if (x.isTerminal()) { return -1; }
            auto it = ids.find(x.p);
            if (it != ids.end()) { return it->second; }
            const long me = static_cast<long>(ids.size());
            ids[x.p]      = me;
            Nd nd;
            nd.v = x.p->v;
            for (const auto& c: x.p->e) { const auto to = id(c); nd.e.emplace_back(to, val(c.w)); }
            g.nodes[me] = nd;
            return me;
        };
        g.w    = val(e.w);
        g.root = id(e);
        return g;
    }
    static cplx weight(const std::string& w) {
        std::string t;
        for (char ch: w) { if (ch != ' ') { t += ch; } }
        if (t.empty()) { return 1.; }
        if (t.back() != 'i') { return {strtod(t.c_str(), nullptr), 0.}; }
        t.pop_back();
        // split at the sign that starts the imaginary part
        std::size_t pos = 0;
        for (std::size_t i = 1; i < t.size(); ++i) {
            if ((t[i] == '+' || t[i] == '-') && t[i - 1] != 'e' && t[i - 1] != 'E') { pos = i; }
        }
        auto im = [](const std::string& s) { return s.empty() || s == "+" ? 1. : s == "-" ? -1. : strtod(s.c_str(), nullptr); };
        return {pos == 0 ? 0. : strtod(t.substr(0, pos).c_str(), nullptr), im(t.substr(pos))};
    }
    static Graph fromText(const std::string& text, int arity) {
        Graph              g;
        std::istringstream is(text);
        std::string        line;
        if (!std::getline(is, line) || std::stoi(line) != 1) { fail("file", "no version line"); }
        g.arity = arity;
        std::getline(is, line);
        g.w    = weight(line);
        g.root = -1;
        while (std::getline(is, line)) {
            if (line.empty()) { continue; }
            std::istringstream ls(line);
            long               idx = 0;
            Nd                 nd{};
            ls >> idx >> nd.v;
            std::string rest;
            std::getline(ls, rest);
            std::size_t pos = 0;
            for (int i = 0; i < arity; ++i) {
                const auto o = rest.find('(', pos), c = rest.find(')', pos);
                if (o == std::string::npos || c == std::string::npos) { fail("file", "malformed line: " + line); }
                const auto body = rest.substr(o + 1, c - o - 1);
                pos             = c + 1;
                if (body.empty()) { nd.e.emplace_back(-2, 0.); continue; }
                const auto sp = body.find(' ');
                nd.e.emplace_back(std::stol(body.substr(0, sp)), sp == std::string::npos ? cplx(1.) : weight(body.substr(sp + 1)));
            }
            if (g.nodes.count(idx)) { fail("file", "node listed twice"); }
            g.nodes[idx] = nd;
            g.root       = idx;
        }
        if (g.root == -1 && g.w == 0.) { g.root = -2; }
        return g;
    }
    const Nd& node(long id, int level, const char* fam) const {
        auto it = nodes.find(id);
        if (it == nodes.end()) { fail(fam, "reference to a node that is not there"); }
        if (it->second.v != level) { fail(fam, "node of level " + std::to_string(it->second.v) + " where " + std::to_string(level) + " belongs"); }
        return it->second;
    }
    // all values
    std::vector<cplx> expand(int n) const {
        const std::size_t N = std::size_t{1} << n;
        std::vector<cplx> out(arity == 2 ? N : N * N);
        std::function<void(long, int, std::size_t, std::size_t, cplx)> rec = [&](long id, int level, std::size_t r, std::size_t c, cplx amp) {
            if (amp == 0. || id == -2) { return; }
            if (id == -1) {
                if (level != -1) { fail("file", "terminal too early"); }
                out[arity == 2 ? r : r * N + c] = amp;
                return;
            }
            const auto& nd = node(id, level, "file");
            for (int i = 0; i < arity; ++i) {
                const auto& [to, x] = nd.e[static_cast<std::size_t>(i)];
                const auto bit = std::size_t{1} << level;
                rec(to, level - 1, r | ((arity == 2 ? i : i / 2) != 0 ? bit : 0), c | (arity == 4 && i % 2 != 0 ? bit : 0), amp * x);
            }
        };
        rec(root, n - 1, 0, 0, w);
        return out;
    }
    // the diagram denotes exactly the sum of terms
    void equals(const Terms& t, const char* fam, const std::string& what) const {
        using Key = std::vector<long long>;
        std::set<Key> seen, zeros;
        auto key = [](long id, int q, const std::vector<cplx>& a) {
            Key k{id, q};
            for (auto& x: a) { k.push_back(std::llround(x.real() * 1e8)); k.push_back(std::llround(x.imag() * 1e8)); }
            return k;
        };
        auto biggest = [](const std::vector<cplx>& a) { double m = 0; for (auto& x: a) { m = std::max(m, std::abs(x)); } return m; };
        auto down = [&](const std::vector<cplx>& a, int q, int i) {
            auto b = a;
            for (std::size_t k = 0; k < b.size(); ++k) { b[k] *= t.f[k][static_cast<std::size_t>(q)][static_cast<std::size_t>(i)]; }
            return b;
        };
        // the sum of a-weighted terms over qubits 0..q is zero everywhere (relative to a's original scale)
        std::function<bool(std::vector<cplx>, int, double)> isZero = [&](std::vector<cplx> a, int q, double scale) -> bool {
            const auto m = biggest(a);
            if (m <= 1e-11 * scale) { return true; }
            if (q < 0) {
                cplx s = 0.;
                for (auto& x: a) { s += x; }
                return std::abs(s) <= 1e-10 * (scale + m);
            }
            for (auto& x: a) { x /= m; }
            scale /= m;
            if (!zeros.insert(key(-2, q, a)).second) { return true; }
            for (int i = 0; i < t.arity; ++i) { if (!isZero(down(a, q, i), q - 1, scale)) { return false; } }
            return true;
        };
        std::function<void(long, int, const std::vector<cplx>&, const std::string&)> rec = [&](long id, int q, const std::vector<cplx>& a, const std::string& path) {
            if (q < 0) {
                if (id != -1) { fail(fam, what + ": no terminal at the end of path " + path); }
                cplx s = 0.;
                for (auto& x: a) { s += x; }
                if (!(std::abs(s - 1.) <= 1e-8 * (1. + biggest(a)))) { fail(fam, what + ": relative value " + S(s) + " instead of 1 on path (highest qubit first) " + path); }
                return;
            }
            if (!seen.insert(key(id, q, a)).second) { return; }
            const auto& nd = node(id, q, fam);
            for (int i = 0; i < t.arity; ++i) {
                const auto& [to, x] = nd.e[static_cast<std::size_t>(i)];
                auto        b       = down(a, q, i);
                if (to == -2) {
                    if (!isZero(b, q - 1, std::max(1., biggest(a)))) { fail(fam, what + ": zero where path " + path + std::to_string(i) + ".. is not zero"); }
                    continue;
                }
                for (auto& y: b) { y /= x; }
                rec(to, q - 1, b, path + std::to_string(i));
            }
        };
        if (root == -2) {
            if (!isZero(t.c, t.n - 1, std::max(1., biggest(t.c)))) { fail(fam, what + ": is zero"); }
            return;
        }
        auto a = t.c;
        for (auto& x: a) { x /= w; }
        rec(root, t.n - 1, a, "");
    }
};
