// Reads an exported graph back: what diagram does the text show?
#pragma once
#include "common.hpp"
#include "numtext.hpp"

namespace dot {
    struct DEdge {
        bool        root = false;
        std::string from, to, tooltip, label, color;
        int         port     = -1;
        bool        dashed   = false;
        double      penwidth = -1;
    };
    struct DNode {
        std::string                         tooltip;
        std::map<int, std::pair<bool, std::string>> ports; // zero stub?, tooltip
    };
    struct Graph {
        std::map<std::string, DNode> nodes;
        std::vector<DEdge>           edges;
    };
    inline std::string attr(const std::string& s, const std::string& name) {
        const auto k = name + "=\"";
        auto       p = s.find(k);
        while (p != std::string::npos && p != 0 && (isalnum(static_cast<unsigned char>(s[p - 1])))) { p = s.find(k, p + 1); }
        if (p == std::string::npos) { return "\x01"; }
        const auto b = p + k.size();
        return s.substr(b, s.find('"', b) - b);
    }
    inline Graph parse(const std::string& text) {
        Graph              g;
        std::istringstream is(text);
        std::string        line;
        bool               open = false, closed = false, terminal = false, root = false;
        int                roots = 0;
        while (std::getline(is, line)) {
            if (line.empty()) { continue; }
            if (closed) { fail("export", "text after the end of the graph: " + line); }
            if (line.rfind("digraph", 0) == 0) { open = true; continue; }
            if (!open) { fail("export", "text before the graph: " + line); }
            if (line == "}") { closed = true; continue; }
            if (line.rfind("root [", 0) == 0) { root = true; continue; }
            if (line.rfind("t [", 0) == 0) { terminal = true; continue; }
            std::size_t p = 0;
            while (p < line.size() && isalnum(static_cast<unsigned char>(line[p]))) { ++p; }
            const auto id = line.substr(0, p);
            if (id.empty()) { fail("export", "unreadable line " + line); }
            if (line[p] == '[') { // a node
                DNode n;
                std::size_t q = p;
                while ((q = line.find("port=\"", q)) != std::string::npos) {
                    const auto start = line.rfind("<td", q), end = line.find("</td>", q), gt = line.find('>', q);
                    // the tooltip may not contain a '>' (numbers never do)
                    const auto tag  = line.substr(start, gt - start);
                    const auto body = line.substr(gt + 1, end - gt - 1);
                    const int  no   = std::stoi(attr(tag, "port"));
                    if (body.find("&nbsp;0") == std::string::npos) { fail("export", "port without a stub in " + line); }
                    if (!n.ports.emplace(no, std::make_pair(body.find("white") == std::string::npos, attr(tag, "tooltip"))).second) { fail("export", "port listed twice in " + line); }
                    q = end;
                }
                const auto tail = line.rfind(">>,");
                n.tooltip       = tail == std::string::npos ? "" : attr(line.substr(tail), "tooltip");
                if (!g.nodes.emplace(id, n).second) { fail("export", "node " + id + " is defined twice"); }
                continue;
            }
            DEdge e;
            const auto arrow = line.find("->"), br = line.find('[', arrow == std::string::npos ? 0 : arrow);
            if (arrow == std::string::npos || br == std::string::npos || line.back() != ']') { fail("export", "unreadable line " + line); }
            e.from = id;
            e.to   = line.substr(arrow + 2, br - arrow - 2);
            e.root = id == "root";
            if (e.root) {
                ++roots;
            } else {
                if (line[p] != ':') { fail("export", "edge without a port: " + line); }
                e.port = std::stoi(line.substr(p + 1));
            }
            const auto rest = line.substr(br);
            const auto lab  = rest.find("label=<");
            const auto head = rest.substr(0, lab);
            e.penwidth      = strtod(attr(head, "penwidth").c_str(), nullptr);
            e.tooltip       = attr(head, "tooltip");
            e.color         = attr(head, "color");
            e.dashed        = head.find("style=dashed") != std::string::npos;
            e.label         = "\x01";
            if (lab != std::string::npos) {
                const auto a = rest.find("&nbsp;", lab), b = rest.find("</font>", lab);
                if (a == std::string::npos || b == std::string::npos) { fail("export", "unreadable label: " + line); }
                e.label = rest.substr(a + 6, b - a - 6);
            }
            g.edges.push_back(e);
        }
        if (!closed || !terminal || !root) { fail("export", "the graph is incomplete"); }
        if (roots != 1) { fail("export", std::to_string(roots) + " root edges"); }
        return g;
    }
    inline cplx memoryLabel(const std::string& s) {
        // "[0]", "[1]" or "[<re> <im>]", each of them 0, 1, the sign for sqrt(1/2) or the address of a stored number
        if (s.size() < 3 || s.front() != '[' || s.back() != ']') { fail("export", "label " + s); }
        const auto b = s.substr(1, s.size() - 2);
        if (b == "0") { return 0.; }
        if (b == "1") { return 1.; }
        const auto sp = b.find(' ');
        if (sp == std::string::npos) { fail("export", "label " + s); }
        auto one = [](const std::string& t) -> double {
            if (t == "0") { return 0.; }
            if (t == "1") { return 1.; }
            if (t == numtext::ROOT + numtext::HALF) { return std::sqrt(0.5); }
            return dd::CTEntry::val(reinterpret_cast<dd::CTEntry*>(strtoull(t.c_str(), nullptr, 16)));
        };
        return {one(b.substr(0, sp)), one(b.substr(sp + 1))};
    }
    struct Style { bool colored, labels, classic, memory, polar; };

    // checks the text against the function x over n qubits; z: the size of its canonical diagram (0: not checked)
    inline void check(const std::string& text, const Style& st, int n, int arity, const std::vector<cplx>& x, int z) {
        const auto  g    = parse(text);
        const auto  what = std::string(st.memory ? "memory" : st.colored ? "coloured" : "plain") + (st.classic ? " classic" : "") + (st.labels ? " labelled" : "") + (st.polar ? " polar" : "") + " graph: ";
        auto        bad  = [&](const std::string& m) { fail("export", what + m); };
        if (z > 0 && static_cast<int>(g.nodes.size()) != z - 1) { bad(std::to_string(g.nodes.size()) + " nodes instead of " + std::to_string(z - 1)); }
        auto weight = [&](const std::string& t) -> cplx {
            try {
                return st.memory || !st.polar ? numtext::cartesian(t) : numtext::polar(t);
            } catch (const std::exception& ex) { bad("weight '" + t + "': " + ex.what()); }
            return 0.;
        };
        const double rel = st.memory ? 1.5e-3 : 2e-5; // printed precision of one weight
        std::map<std::pair<std::string, int>, const DEdge*> out;
        const DEdge*                                        root = nullptr;
        std::map<std::string, int>                          reached;
        for (const auto& e: g.edges) {
            const auto w = weight(e.tooltip);
            if (e.root) { root = &e; }
            else {
                const auto it = g.nodes.find(e.from);
                if (it == g.nodes.end()) { bad("an edge leaves the undefined node " + e.from); }
                if (!out.emplace(std::make_pair(e.from, e.port), &e).second) { bad("two edges for branch " + std::to_string(e.port) + " of node " + e.from); }
                const auto port = it->second.ports.find(e.port);
                if (port == it->second.ports.end()) {
                    if (!(st.classic && !st.memory)) { bad("no port " + std::to_string(e.port)); }
                } else {
                    if (port->second.first) { bad("a successor is marked as zero but has an edge"); }
                    if (port->second.second != e.tooltip) { bad("the weight of an edge (" + e.tooltip + ") differs from that of its port (" + port->second.second + ")"); }
                }
            }
            if (e.to != "t" && g.nodes.find(e.to) == g.nodes.end()) { bad("an edge leads to the undefined node " + e.to); }
            const double mag = std::abs(w);
            if (std::abs(e.penwidth - 3. * std::max(mag, 0.1)) > 3. * rel * std::max(mag, 1.) + 2e-5 * e.penwidth) { bad("weight " + e.tooltip + " is drawn with width " + S(e.penwidth)); }
            if (st.colored || st.memory) {
                if (mag > 0) {
                    double hue = std::arg(w) / (2 * std::acos(-1.));
                    hue -= std::floor(hue);
                    const double shown = strtod(e.color.c_str(), nullptr);
                    double       d     = std::abs(hue - shown);
                    d                  = std::min(d, std::abs(1. - d));
                    if (!(d < 1.5e-3) || shown < -1e-9 || shown > 1.) { bad("weight " + e.tooltip + " has colour " + e.color); }
                }
            } else if (e.dashed != (std::abs(w - 1.) > 1e-12) && (z > 0 || !(std::abs(w - 1.) < rel))) { bad("weight " + e.tooltip + " is drawn " + (e.dashed ? "dashed" : "solid")); }
            if (st.labels) {
                if (e.label == "\x01") { bad("an edge has no label"); }
                if (st.memory) {
                    const auto v = memoryLabel(e.label);
                    if (std::abs(v - w) > rel * (1e-9 + std::abs(v))) { bad("label of weight " + e.tooltip + " points to " + S(v)); }
                } else if (e.label != e.tooltip) { bad("label " + e.label + " of weight " + e.tooltip); }
            } else if (e.label != "\x01") { bad("an edge has a label"); }
            reached[e.to]++;
        }
        for (const auto& [id, nd]: g.nodes) {
            if (reached.count(id) == 0) { bad("node " + id + " is not reached"); }
            if (static_cast<int>(nd.ports.size()) != arity) { bad("node with " + std::to_string(nd.ports.size()) + " ports"); }
            for (const auto& [no, port]: nd.ports) {
                if (!port.first && out.count({id, no}) == 0) { bad("branch " + std::to_string(no) + " of node " + id + " has no edge"); }
                if (no < 0 || no >= arity) { bad("port number"); }
            }
        }
        // the function shown
        const auto        N = std::size_t{1} << n;
        std::vector<cplx> got(arity == 2 ? N : N * N);
        std::vector<double> tol(got.size(), 1e-9);
        std::function<void(const DEdge*, int, std::size_t, std::size_t, cplx)> rec = [&](const DEdge* e, int level, std::size_t r, std::size_t c, cplx amp) {
            amp *= weight(e->tooltip);
            if (e->to == "t") {
                if (level != -1 && std::abs(amp) > 0) { bad("an edge to the terminal on level " + std::to_string(level)); }
                if (level == -1) {
                    got[arity == 2 ? r : r * N + c] = amp;
                    tol[arity == 2 ? r : r * N + c] = 1e-9 + rel * (n + 2) * std::abs(amp);
                }
                return;
            }
            if (level < 0) { bad("nodes below the lowest level"); }
            const auto& nd = g.nodes.at(e->to);
            if (!st.memory && nd.tooltip != "q" + std::to_string(level)) { bad("node " + nd.tooltip + " where q" + std::to_string(level) + " belongs"); }
            for (int i = 0; i < arity; ++i) {
                const auto it = out.find({e->to, i});
                if (it == out.end()) { continue; }
                const auto bit = std::size_t{1} << level;
                rec(it->second, level - 1, r | ((arity == 2 ? i : i / 2) != 0 ? bit : 0), c | (arity == 4 && i % 2 != 0 ? bit : 0), amp);
            }
        };
        rec(root, n - 1, 0, 0, 1.);
        for (std::size_t i = 0; i < got.size(); ++i) {
            if (!(std::abs(got[i] - x[i]) <= tol[i] * 2)) { bad("entry " + std::to_string(i) + " is shown as " + S(got[i]) + " instead of " + S(x[i])); }
        }
    }

    template<class Edge>
    void collect(const Edge& e, std::set<const void*>& seen, std::vector<cplx>& ws) {
        if (e.isTerminal() || !seen.insert(e.p).second) { return; }
        for (const auto& c: e.p->e) {
            if (zeroW(c.w)) { continue; }
            ws.push_back(val(c.w));
            collect(c, seen, ws);
        }
    }
    // the listing of edge weights: the root's and that of every non-zero successor of every node, each once
    template<class Edge>
    void weights(const Edge& e) {
        std::ostringstream os;
        dd::exportEdgeWeights(e, os);
        std::vector<cplx>     want{val(e.w)};
        std::set<const void*> seen;
        collect(e, seen, want);
        std::istringstream is(os.str());
        std::string        line;
        std::vector<cplx>  got;
        while (std::getline(is, line)) {
            if (line.find('i') != line.size() - 1) { fail("export", "edge weight " + line); }
            char*        end = nullptr;
            const double r   = strtod(line.c_str(), &end);
            const double i   = strtod(end, &end);
            got.emplace_back(r, i);
        }
        if (got.size() != want.size()) { fail("export", std::to_string(got.size()) + " edge weights are listed, the diagram has " + std::to_string(want.size())); }
        if (std::abs(got[0] - want[0]) > 1e-5 * (1 + std::abs(want[0]))) { fail("export", "the first edge weight listed is not that of the root"); }
        auto texts = [](const std::vector<cplx>& v) {
            std::multiset<std::string> t;
            for (const auto& w: v) {
                char b[80];
                snprintf(b, sizeof b, "%.6g %.6g", w.real() == 0. ? 0. : w.real(), w.imag() == 0. ? 0. : w.imag());
                t.insert(b);
            }
            return t;
        };
        const auto a = texts(got), b = texts(want);
        for (const auto& w: b) { if (a.count(w) != b.count(w)) { fail("export", "edge weight " + w + " is listed " + std::to_string(a.count(w)) + " times instead of " + std::to_string(b.count(w)) + " times"); } }
    }

    template<class Edge>
    long all(const Edge& e, int n, int arity, const std::vector<cplx>& x, int z, long turn) {
        long k = 0;
        for (int i = 0; i < 32; ++i) {
            const Style        st{(i & 1) != 0, (i & 2) != 0, (i & 4) != 0, (i & 8) != 0, (i & 16) != 0};
            if (n > 10 && i != 1 && i != 10 && i != 20) { continue; }     // very large diagrams: three styles
            if (st.memory && (st.colored || st.classic || st.polar)) { continue; } // no effect, tried below
            std::ostringstream os;
            dd::toDot(e, os, st.colored, st.labels, st.classic, st.memory, st.polar);
            check(os.str(), st, n, arity, x, z);
            ++k;
            if ((turn + i) % 11 == 0) {
                const std::string f = "export." + std::to_string(getpid()) + ".dot";
                dd::export2Dot(e, f, st.colored, st.labels, st.classic, st.memory, false, st.polar);
                std::ifstream     in(f);
                std::stringstream all;
                all << in.rdbuf();
                in.close();
                unlink(f.c_str());
                if (all.str() != os.str()) { fail("export", "the exported file differs from the exported text"); }
            }
        }
        if (n <= 10) {
            const Style        st{true, turn % 2 == 0, true, true, true};
            std::ostringstream os;
            dd::toDot(e, os, true, turn % 2 == 0, true, true, true);
            check(os.str(), st, n, arity, x, z);
        }
        weights(e);
        return k + 2;
    }
} // namespace dot
