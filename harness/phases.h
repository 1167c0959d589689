// Catalogue of phase models with the ranges in which they are exercised, and random states.
#pragma once
#include "ct.h"
#include "cantera/thermo/MolalityVPSSTP.h"
#include "cantera/thermo/PlasmaPhase.h"

namespace vh {

enum Comp { FIXED, GAS, MOLALITY, COVERAGE, SOLN, BINTAB, COMPOUND, PURE };

struct PhaseSpec {
    string name, file, phase;
    double Tmin, Tmax, Pmin, Pmax;
    Comp comp;
    double xlo = 0, xhi = 1;   // BINTAB: mole fraction range of the first species
};

inline const vector<PhaseSpec>& catalogue() {
    static const vector<PhaseSpec> c = {
        {"ig-h2o2", "h2o2.yaml", "ohmech", 250, 3000, 1e2, 1e8, GAS},
        {"ig-gri30", "gri30.yaml", "gri30", 300, 3000, 1e2, 1e8, GAS},
        {"ig-air9", "airNASA9.yaml", "airNASA9", 250, 15000, 1e2, 1e7, GAS},
        {"ig-ion", "gri30_ion.yaml", "gas", 300, 3000, 1e3, 1e7, GAS},
        {"rk-co2", "co2_RK_example.yaml", "carbondioxide", 250, 1500, 1e3, 5e7, GAS},
        {"rk-crit", "thermo-models.yaml", "CO2-RK-params", 250, 1500, 1e3, 5e7, GAS},
        {"rk-tm", "thermo-models.yaml", "CO2-RK", 250, 1500, 1e3, 5e7, GAS},
        {"rk-h2o2", "h2o2.yaml", "ohmech-RK", 300, 2500, 1e3, 5e7, GAS},
        {"pr-co2", "co2_PR_example.yaml", "CO2-PR", 250, 1500, 1e3, 5e7, GAS},
        {"pr-crit", "thermo-models.yaml", "CO2-PR-params", 250, 1500, 1e3, 5e7, GAS},
        {"pr-tm", "thermo-models.yaml", "CO2-PR", 250, 1500, 1e3, 5e7, GAS},
        {"molal-aq", "thermo-models.yaml", "ideal-molal-aqueous", 280, 500, 1e4, 1e7, MOLALITY},
        {"issp1", "thermo-models.yaml", "IdealSolidSolnPhase", 280, 900, 1e4, 1e8, SOLN},
        {"issp2", "thermo-models.yaml", "IdealSolidSolnPhase2", 280, 900, 1e4, 1e8, SOLN},
        {"bintab-anode", "BinarySolutionTabulatedThermo.yaml", "anode", 280, 400, 1e4, 1e7, BINTAB, 0.01, 0.78},
        {"bintab-cath", "lithium_ion_battery.yaml", "cathode", 280, 400, 1e4, 1e7, BINTAB, 0.47, 0.97},
        {"bintab-small", "thermo-models.yaml", "graphite-anode", 280, 400, 1e4, 1e7, BINTAB, 0.01, 0.72},
        {"electrolyte-ic", "lithium_ion_battery.yaml", "electrolyte", 280, 400, 1e4, 1e7, SOLN},
        {"electron-cloud", "thermo-models.yaml", "Metal", 250, 1500, 1e4, 1e7, FIXED},
        {"dh-dilute", "debye-huckel-all.yaml", "debye-huckel-dilute", 299, 332, 1e5, 1e7, MOLALITY},
        {"dh-Bdotak", "debye-huckel-all.yaml", "debye-huckel-B-dot-ak", 299, 332, 1e5, 1e7, MOLALITY},
        {"dh-Bdota", "debye-huckel-all.yaml", "debye-huckel-B-dot-a", 299, 332, 1e5, 1e7, MOLALITY},
        {"dh-pitzer", "debye-huckel-all.yaml", "debye-huckel-pitzer-beta_ij", 299, 332, 1e5, 1e7, MOLALITY},
        {"dh-beta", "debye-huckel-all.yaml", "debye-huckel-beta_ij", 299, 332, 1e5, 1e7, MOLALITY},
        {"dh-dilute-w", "debye-huckel-all.yaml", "debye-huckel-dilute-IAPWS", 299, 332, 1e5, 1e7, MOLALITY},
        {"dh-Bdotak-w", "debye-huckel-all.yaml", "debye-huckel-B-dot-ak-IAPWS", 299, 332, 1e5, 1e7, MOLALITY},
        {"dh-beta-w", "debye-huckel-all.yaml", "debye-huckel-beta_ij-IAPWS", 299, 332, 1e5, 1e7, MOLALITY},
        {"dh-pitzer-w", "debye-huckel-all.yaml", "debye-huckel-pitzer-beta_ij-IAPWS", 299, 332, 1e5, 1e7, MOLALITY},
        {"hmw", "HMW_NaCl.yaml", "NaCl_electrolyte_complex_shomate", 280, 420, 1e6, 1e7, MOLALITY},
        {"hmw-tm", "thermo-models.yaml", "HMW-NaCl-electrolyte", 280, 420, 1e6, 1e7, MOLALITY},
        {"hmw-hkft", "thermo-models.yaml", "HMW-NaCl-HKFT", 280, 420, 1e6, 1e7, MOLALITY},
        {"hmw-bogus", "thermo-models.yaml", "HMW-bogus", 299, 332, 1e6, 1e7, MOLALITY},
        {"vpss-simple", "IdealSolidSolnPhaseExample.yaml", "VpssSolidSolutionExample", 250, 900, 1e4, 1e7, SOLN},
        {"vpss-hkft", "pdss_hkft.yaml", "vpss_soln_pdss_hkft_phase", 280, 420, 1e6, 1e7, SOLN},
        {"vpss-liq", "thermo-models.yaml", "IdealSolnGas-liquid", 350, 1500, 1e4, 1e7, FIXED},
        {"margules", "LiKCl_liquid.yaml", "MoltenSalt_electrolyte", 720, 1500, 1e4, 1e7, SOLN},
        {"margules-tm", "thermo-models.yaml", "molten-salt-Margules", 720, 1500, 1e4, 1e7, SOLN},
        {"rks-lic6", "thermo-models.yaml", "Redlich-Kister-LiC6", 250, 600, 1e4, 1e7, SOLN},
        {"rks-complex", "thermo-models.yaml", "Redlich-Kister-complex", 720, 1050, 1e4, 1e7, SOLN},
        {"lattice", "thermo-models.yaml", "Li7Si3-interstitial", 400, 1200, 1e4, 1e7, SOLN},
        {"lattice-sofc", "sofc.yaml", "oxide_bulk", 600, 1400, 1e4, 1e7, SOLN},
        {"compound", "thermo-models.yaml", "Li7Si3_and_interstitials", 400, 1200, 1e4, 1e7, COMPOUND},
        {"stoich-KCl", "thermo-models.yaml", "KCl(s)", 300, 1000, 1e4, 1e8, FIXED},
        {"stoich-NaCl", "thermo-models.yaml", "NaCl(s)", 300, 1000, 1e4, 1e8, FIXED},
        {"stoich-graphite", "graphite.yaml", "graphite", 250, 2000, 1e4, 1e8, FIXED},
        {"surf-pt", "surface-phases.yaml", "Pt-surf", 250, 1500, 1e4, 1e7, COVERAGE},
        {"surf-multi", "surface-phases.yaml", "Pt-multi-sites", 250, 1500, 1e4, 1e7, COVERAGE},
        {"surf-ptc", "ptcombust.yaml", "Pt_surf", 300, 1500, 1e4, 1e7, COVERAGE},
        {"edge", "surface-phases.yaml", "TPB", 300, 1500, 1e4, 1e7, FIXED},
        {"covdep", "copt_covdepsurf_example.yaml", "covdep", 300, 1200, 1e4, 1e7, COVERAGE},
        {"water-iapws", "liquidvapor.yaml", "liquid-water-IAPWS95", 275, 600, 2e7, 1e8, FIXED},
        {"plasma-iso", "oxygen-plasma.yaml", "isotropic-electron-energy-plasma", 300, 3000, 1e3, 1e6, GAS},
        {"pf-water", "liquidvapor.yaml", "water", 300, 1200, 1e3, 5e7, PURE},
        {"pf-nitrogen", "liquidvapor.yaml", "nitrogen", 80, 1200, 1e3, 5e7, PURE},
        {"pf-methane", "liquidvapor.yaml", "methane", 100, 600, 1e3, 5e7, PURE},
        {"pf-hydrogen", "liquidvapor.yaml", "hydrogen", 20, 900, 1e3, 5e7, PURE},
        {"pf-oxygen", "liquidvapor.yaml", "oxygen", 70, 1000, 1e3, 5e7, PURE},
        {"pf-co2", "liquidvapor.yaml", "carbon-dioxide", 230, 1200, 1e3, 5e7, PURE},
        {"pf-heptane", "liquidvapor.yaml", "heptane", 200, 700, 1e3, 2e7, PURE},
        {"pf-hfc134a", "liquidvapor.yaml", "HFC-134a", 200, 450, 1e3, 4e7, PURE},
    };
    return c;
}

inline const PhaseSpec& spec(const string& name) {
    for (auto& s : catalogue()) if (s.name == name) return s;
    fprintf(stderr, "no phase spec %s\n", name.c_str());
    exit(3);
}

// A random composition vector (mole-fraction like): dense, sparse, dominated or with traces
inline vector<double> randomX(Rng& g, size_t n, bool allowZero = true) {
    vector<double> x(n, 0.0);
    int mode = int(g.i(0, 5));
    if (n == 1) return {1.0};
    if (mode == 0) {
        for (auto& v : x) v = -std::log(1 - g.u());
    } else if (mode == 1) {
        for (auto& v : x) v = g.logu(1e-8, 1);
    } else if (mode == 2) {          // sparse
        size_t m = 1 + g.idx(std::min<size_t>(n, 6));
        for (size_t k = 0; k < m; k++) x[g.idx(n)] += g.uni(0.01, 1);
    } else if (mode == 3) {          // dominated by one
        for (auto& v : x) v = g.logu(1e-12, 1e-4);
        x[g.idx(n)] = 1;
    } else if (mode == 4) {          // pure
        x[g.idx(n)] = 1;
    } else {
        for (auto& v : x) v = g.p(0.3) ? 0.0 : g.u();
    }
    if (!allowZero) for (auto& v : x) v = std::max(v, 1e-10);
    double s = std::accumulate(x.begin(), x.end(), 0.0);
    if (s <= 0) { x[g.idx(n)] = 1; s = 1; }
    for (auto& v : x) v /= s;
    return x;
}

// Sets a random composition valid for the phase
inline void randomComposition(const PhaseSpec& s, ThermoPhase& ph, Rng& g) {
    size_t n = ph.nSpecies();
    switch (s.comp) {
    case FIXED: case PURE: break;
    case GAS: {
        auto x = randomX(g, n);
        ph.setMoleFractions(x.data());
        break;
    }
    case SOLN: {
        auto x = randomX(g, n, g.p(0.3));
        // strictly interior most of the time; solvent-like first species never absent
        if (s.name == "vpss-hkft") {
            for (size_t k = 1; k < n; k++) x[k] *= 0.3;
            x[0] += 0.5;
        }
        ph.setMoleFractions(x.data());
        break;
    }
    case BINTAB: {
        double x = g.uni(s.xlo, s.xhi);
        double xx[2] = {x, 1 - x};
        ph.setMoleFractions(xx);
        break;
    }
    case COVERAGE: {
        auto x = randomX(g, n);
        dynamic_cast<SurfPhase&>(ph).setCoverages(x.data());
        break;
    }
    case MOLALITY: {
        // random solute amounts, charge balanced through one dominant cation/anion pair
        vector<double> m(n, 0.0);
        double charge = 0;
        for (size_t k = 1; k < n; k++) {
            m[k] = g.logu(1e-7, g.p(0.5) ? 3.0 : 0.1);
            if (g.p(0.1)) m[k] = 1e-12;
        }
        for (size_t k = 1; k < n; k++) charge += m[k] * ph.charge(k);
        if (charge != 0) {
            for (size_t k = 1; k < n; k++) {
                if (ph.charge(k) * charge < 0) { m[k] += -charge / ph.charge(k); break; }
            }
        }
        m[0] = 1000.0 / ph.molecularWeight(0);
        dynamic_cast<MolalityVPSSTP&>(ph).setMolalities(m.data());
        break;
    }
    case COMPOUND: {
        double f = g.uni(0.02, 0.98);
        ph.setMoleFractionsByName(cat("Li7Si3(s):1.0, Li(i):", f, ", V(i):", 1 - f));
        break;
    }
    }
}

inline bool isPure(const PhaseSpec& s) { return s.comp == PURE; }

inline void randomTP(const PhaseSpec& s, Rng& g, double& T, double& P) {
    int m = int(g.i(0, 9));
    T = g.uni(s.Tmin, s.Tmax);
    P = g.logu(s.Pmin, s.Pmax);
    if (m == 0) T = s.Tmin;
    if (m == 1) T = s.Tmax;
    if (m == 2) P = 101325 > s.Pmin && 101325 < s.Pmax ? 101325 : s.Pmin;
}

} // namespace vh
