// A fingerprint of everything a phase, kinetics or transport object reports at its state.
#pragma once
#include "phases.h"

namespace vh {

typedef std::map<string, vector<double>> Print;

struct Fp {
    Print& out;
    size_t n;
    void s(const string& k, const std::function<double()>& f) {
        try { out[k] = {f()}; } catch (NotImplementedError&) {}
        catch (CanteraError&) { out[k] = {-9.87654e300}; }
    }
    void v(const string& k, const std::function<void(double*)>& f) { vn(k, n, f); }
    void vn(const string& k, size_t m, const std::function<void(double*)>& f) {
        vector<double> x(m, 0.0);
        try { f(x.data()); out[k] = x; } catch (NotImplementedError&) {}
        catch (CanteraError&) { out[k] = {-9.87654e300}; }
    }
};

// One thermodynamic quantity by number; returns false past the end
inline bool thermoQuantity(ThermoPhase& p, size_t q, Print& out, string* name = nullptr) {
    Fp f{out, p.nSpecies()};
    typedef ThermoPhase TP;
#define S1(nm) case __COUNTER__ - base: if (name) *name = #nm; f.s(#nm, [&] { return p.nm(); }); return true;
#define V1(nm) case __COUNTER__ - base: if (name) *name = #nm; f.v(#nm, [&](double* x) { p.nm(x); }); return true;
    constexpr int base = __COUNTER__ + 1;
    switch (int(q)) {
        S1(enthalpy_mole) S1(intEnergy_mole) S1(entropy_mole) S1(gibbs_mole) S1(cp_mole) S1(cv_mole)
        S1(temperature) S1(pressure) S1(density) S1(molarDensity) S1(meanMolecularWeight)
        S1(isothermalCompressibility) S1(thermalExpansionCoeff) S1(soundSpeed) S1(enthalpy_mass)
        S1(entropy_mass) S1(cp_mass) S1(cv_mass) S1(gibbs_mass) S1(intEnergy_mass)
        S1(refPressure) S1(electronTemperature) S1(electricPotential)
        V1(getMoleFractions) V1(getMassFractions) V1(getConcentrations)
        V1(getChemPotentials) V1(getPartialMolarEnthalpies) V1(getPartialMolarEntropies)
        V1(getPartialMolarIntEnergies) V1(getPartialMolarCp) V1(getPartialMolarVolumes)
        V1(getStandardChemPotentials) V1(getEnthalpy_RT) V1(getEntropy_R) V1(getGibbs_RT)
        V1(getIntEnergy_RT) V1(getCp_R) V1(getStandardVolumes) V1(getEnthalpy_RT_ref)
        V1(getEntropy_R_ref) V1(getGibbs_RT_ref) V1(getGibbs_ref) V1(getIntEnergy_RT_ref)
        V1(getCp_R_ref) V1(getStandardVolumes_ref) V1(getActivities) V1(getActivityCoefficients)
        V1(getLnActivityCoefficients) V1(getActivityConcentrations) V1(getElectrochemPotentials)
        V1(getdlnActCoeffdlnX_diag) V1(getdlnActCoeffdlnN_diag)
    default: return false;
    }
#undef S1
#undef V1
}

inline Print thermoPrint(ThermoPhase& p) {
    Print out;
    for (size_t q = 0; thermoQuantity(p, q, out); q++) {}
    return out;
}

// Absolute floor below which a quantity is round-off of its parts
inline double floorOf(const string& k, double T) {
    auto has = [&](const char* c) { return k.find(c) != string::npos; };
    if (has("_R") || has("Act")) return 1e-9;
    if (has("ntrop") || has("cp_") || has("cv_") || has("Cp")) return 1e-9 * GasConstant;
    if (has("nthalp") || has("gibbs") || has("Gibbs") || has("Pot") || has("nergy") || has("Energ")) return 1e-9 * GasConstant * T;
    if (has("Volume")) return 1e-13;
    return 1e-14;
}

// Compares two prints; relative to the largest magnitude in each vector and a floor per kind
inline void comparePrints(Run& r, const Print& a, const Print& b, double rtol, const string& key,
                          const std::function<double(const string&)>& floor = nullptr,
                          const std::function<bool(const string&)>& skip = nullptr) {
    for (auto& [k, va] : a) {
        if (skip && skip(k)) continue;
        auto it = b.find(k);
        if (it == b.end()) { r.check(key + ":" + k, false, "implemented in one object only"); continue; }
        auto& vb = it->second;
        if (!r.check(key + "-size", va.size() == vb.size(), k + " sizes differ")) continue;
        double fl = floor ? floor(k) : 0;
        for (size_t i = 0; i < va.size(); i++) {
            if (std::isnan(va[i]) && std::isnan(vb[i])) continue;
            r.near(key + ":" + k, va[i], vb[i], rtol, fl, cat(k, "[", i, "]"));
        }
    }
}

} // namespace vh
