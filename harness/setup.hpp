// Options, configurations and argument conversions of the replay harnesses.
#pragma once
#include "common.hpp"

// configurations: the caches and unique tables so small that everything collides
struct DensConfig: public dd::DDPackageConfig {
    static constexpr std::size_t UT_DM_NBUCKET                 = 4096U;
    static constexpr std::size_t UT_DM_INITIAL_ALLOCATION_SIZE = 1024U;
    static constexpr std::size_t CT_DM_DM_MULT_NBUCKET         = 4096U;
    static constexpr std::size_t CT_DM_ADD_NBUCKET             = 4096U;
    static constexpr std::size_t CT_DM_NOISE_NBUCKET           = 1024U;
    static constexpr std::size_t UT_VEC_NBUCKET                = 512U;
    static constexpr std::size_t UT_MAT_NBUCKET                = 512U;
};
struct TinyConfig: public dd::DDPackageConfig {
    static constexpr std::size_t UT_VEC_NBUCKET                 = 4U;
    static constexpr std::size_t UT_VEC_INITIAL_ALLOCATION_SIZE = 4U;
    static constexpr std::size_t UT_MAT_NBUCKET                 = 4U;
    static constexpr std::size_t UT_MAT_INITIAL_ALLOCATION_SIZE = 4U;
    static constexpr std::size_t CT_VEC_ADD_NBUCKET             = 2U;
    static constexpr std::size_t CT_MAT_ADD_NBUCKET             = 2U;
    static constexpr std::size_t CT_MAT_TRANS_NBUCKET           = 2U;
    static constexpr std::size_t CT_MAT_CONJ_TRANS_NBUCKET      = 2U;
    static constexpr std::size_t CT_MAT_VEC_MULT_NBUCKET        = 2U;
    static constexpr std::size_t CT_MAT_MAT_MULT_NBUCKET        = 2U;
    static constexpr std::size_t CT_VEC_KRON_NBUCKET            = 2U;
    static constexpr std::size_t CT_MAT_KRON_NBUCKET            = 2U;
    static constexpr std::size_t CT_VEC_INNER_PROD_NBUCKET      = 2U;
    static constexpr std::size_t CT_DM_NOISE_NBUCKET            = 2U;
    static constexpr std::size_t UT_DM_NBUCKET                  = 2U;
    static constexpr std::size_t UT_DM_INITIAL_ALLOCATION_SIZE  = 2U;
    static constexpr std::size_t CT_DM_DM_MULT_NBUCKET          = 2U;
    static constexpr std::size_t CT_DM_ADD_NBUCKET              = 2U;
};
// tables large enough that nothing is evicted, node storage scanned cheaply
struct ScanConfig: public dd::DDPackageConfig {
    static constexpr std::size_t UT_VEC_NBUCKET = 64U;
    static constexpr std::size_t UT_MAT_NBUCKET = 64U;
    static constexpr std::size_t UT_DM_NBUCKET  = 64U;
    static constexpr std::size_t CT_DM_DM_MULT_NBUCKET = 1024U;
    static constexpr std::size_t CT_DM_ADD_NBUCKET     = 1024U;
};

static dd::Controls controlsOf(const std::vector<int>& c, int shift = 0) {
    dd::Controls r;
    for (std::size_t i = 0; i < c.size(); ++i) {
        if (c[i] == 1) { r.insert(dd::Control{static_cast<dd::Qubit>(static_cast<int>(i) + shift), dd::Control::Type::pos}); }
        if (c[i] == 2) { r.insert(dd::Control{static_cast<dd::Qubit>(static_cast<int>(i) + shift), dd::Control::Type::neg}); }
    }
    return r;
}
static dd::GateMatrix gateOf(const std::vector<cplx>& g) {
    dd::GateMatrix m{};
    for (std::size_t i = 0; i < 4; ++i) { m.at(i) = {g.at(i).real(), g.at(i).imag()}; }
    return m;
}
static std::vector<bool> boolsOf(const std::vector<int>& p) {
    std::vector<bool> b;
    for (auto x: p) { b.push_back(x != 0); }
    return b;
}
static std::vector<dd::BasisStates> statesOf(const std::vector<int>& p, int pad = 0) {
    static const dd::BasisStates t[] = {dd::BasisStates::zero, dd::BasisStates::one, dd::BasisStates::plus, dd::BasisStates::minus, dd::BasisStates::right, dd::BasisStates::left};
    std::vector<dd::BasisStates> r(static_cast<std::size_t>(pad), dd::BasisStates::zero);
    for (auto x: p) { r.push_back(t[x]); }
    return r;
}

