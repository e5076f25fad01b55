// Reference counts and unique tables, recomputed from what is stored and held. Uses only the public interface.
#pragma once
#include "common.hpp"

// every stored node once
template<class UT>
inline long uniqueNodes(UT& ut, const char* what) {
    const auto& tables = ut.getTables();
    std::size_t total  = 0;
    for (std::size_t l = 0; l < tables.size(); ++l) {
        std::set<std::vector<std::uintptr_t>> seen;
        for (auto* p: tables[l]) {
            for (; p != nullptr; p = p->next) {
                ++total;
                if (static_cast<std::size_t>(p->v) != l) { fail("unique", std::string(what) + ": node of level " + std::to_string(p->v) + " stored at level " + std::to_string(l)); }
                std::vector<std::uintptr_t> key;
                for (const auto& e: p->e) {
                    key.push_back(reinterpret_cast<std::uintptr_t>(e.p));
                    key.push_back(reinterpret_cast<std::uintptr_t>(e.w.r));
                    key.push_back(reinterpret_cast<std::uintptr_t>(e.w.i));
                }
                if constexpr (std::is_same_v<std::decay_t<decltype(*p)>, dd::dNode>) { key.push_back(p->flags); }
                if (!seen.insert(key).second) { fail("unique", std::string(what) + ": two stored nodes of level " + std::to_string(l) + " have identical successors"); }
            }
        }
    }
    if (total != ut.getNodeCount()) { fail("unique", std::string(what) + ": node count " + std::to_string(ut.getNodeCount()) + " but " + std::to_string(total) + " nodes are stored"); }
    return static_cast<long>(total);
}
// recompute every reference count from the held diagrams
template<class E>
void addRef(const E& e, std::map<const void*, std::size_t>& nodes, std::map<const void*, std::size_t>& nums) {
    if (e.w != dd::Complex::zero && e.w != dd::Complex::one) {
        nums[dd::CTEntry::getAlignedPointer(e.w.r)]++;
        nums[dd::CTEntry::getAlignedPointer(e.w.i)]++;
    }
    if (!e.isTerminal()) { nodes[e.p]++; }
}
template<class UT>
void countNodes(UT& ut, std::map<const void*, std::size_t>& nodes, std::map<const void*, std::size_t>& nums) {
    for (const auto& t: ut.getTables()) {
        for (auto* p: t) {
            for (; p != nullptr; p = p->next) {
                if (p->ref == 0) { continue; }
                for (const auto& e: p->e) { addRef(e, nodes, nums); }
            }
        }
    }
}
template<class UT>
void compareRefs(UT& ut, std::map<const void*, std::size_t>& nodes, const char* what) {
    std::size_t                        active = 0;
    std::size_t                        l = 0;
    for (const auto& t: ut.getTables()) {
        std::size_t here = 0;
        for (auto* p: t) {
            for (; p != nullptr; p = p->next) {
                const auto it   = nodes.find(p);
                const auto want = it == nodes.end() ? 0 : it->second;
                if (p->ref != want) { fail("refs", std::string(what) + ": a node of level " + std::to_string(p->v) + " has count " + std::to_string(p->ref) + " instead of " + std::to_string(want)); }
                here += p->ref > 0 ? 1 : 0;
            }
        }
        if (ut.getActiveNodeCount(static_cast<dd::Qubit>(l)) != here) { fail("refs", std::string(what) + ": active node count of level " + std::to_string(l) + " is " + std::to_string(ut.getActiveNodeCount(static_cast<dd::Qubit>(l))) + " instead of " + std::to_string(here)); }
        active += here;
        ++l;
    }
    if (ut.getActiveNodeCount() != active) { fail("refs", std::string(what) + ": active node count " + std::to_string(ut.getActiveNodeCount()) + " instead of " + std::to_string(active)); }
}
template<class CT>
void compareNumbers(CT& table, std::map<const void*, std::size_t>& num) {
    for (auto* p: table.getTable()) {
        for (; p != nullptr; p = p->next) {
            const auto it   = num.find(p);
            auto       want = it == num.end() ? 0 : it->second;
            if (p->value == 0.5) { ++want; } // predefined, holds one reference of its own
            if (p->refCount != want) { fail("refs", "number " + S(p->value) + " has count " + std::to_string(p->refCount) + " instead of " + std::to_string(want)); }
        }
    }
}
