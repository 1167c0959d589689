// Catalogue of mechanisms (bulk and interface), random states for them, and fingerprints of
// kinetics and transport objects.
#pragma once
#include "fprint.h"
#include "cantera/thermo/SurfPhase.h"
#include "cantera/thermo/PlasmaPhase.h"
#include "cantera/kinetics/InterfaceKinetics.h"
#include "cantera/kinetics/ReactionRate.h"

namespace vh {

struct MechSpec {
    string name, file, phase;
    bool iface = false;
    double Tmin = 400, Tmax = 2500, Pmin = 1e3, Pmax = 1e7;
    string transport = "";   // default transport of the file when empty
    bool big = false;
};

inline const vector<MechSpec>& mechs() {
    static const vector<MechSpec> c = {
        {"ohmech", "h2o2.yaml", "ohmech"},
        {"ohmech-rk", "h2o2.yaml", "ohmech-RK", false, 500, 2500, 1e3, 1e7, "none"},
        {"kfs", "kineticsfromscratch.yaml", "ohmech"},
        {"jac", "jacobian-tests.yaml", "ohmech"},
        {"pdep", "pdep-test.yaml", "gas"},
        {"lb-base", "linearBurke-test.yaml", "baseline_mechanism"},
        {"lb", "linearBurke-test.yaml", "linear-Burke_mechanism"},
        {"lb-complex", "linearBurke-test.yaml", "linear-Burke-complex"},
        {"bm", "blowers-masel.yaml", "gas"},
        {"expl3b", "explicit-third-bodies.yaml", "gas"},
        {"sri", "sri-falloff.yaml", ""},
        {"tsang", "tsang-falloff.yaml", ""},
        {"chemact", "chemically-activated-reaction.yaml", ""},
        {"orders", "reaction-orders.yaml", "gas"},
        {"frac", "frac.yaml", "gas"},
        {"noxneg", "noxNeg.yaml", ""},
        {"negorder", "negative-order.yaml", ""},
        {"nonreac", "nonreactant-order.yaml", ""},
        {"et", "ET_test.yaml", "gas"},
        {"plasma", "oxygen-plasma.yaml", "isotropic-electron-energy-plasma", false, 300, 3000, 1e2, 1e6, "none"},
        {"plasma-disc", "oxygen-plasma.yaml", "discretized-electron-energy-plasma", false, 300, 3000, 1e2, 1e6, "none"},
        {"gri30", "gri30.yaml", "gri30", false, 400, 2500, 1e3, 1e7, "", true},
        {"gri30-ion", "gri30_ion.yaml", "gas", false, 400, 2500, 1e3, 1e7, "", true},
        {"air9", "airNASA9.yaml", "airNASA9", false, 400, 6000, 1e3, 1e7},
        {"ptc", "ptcombust.yaml", "Pt_surf", true, 400, 1600},
        {"ptc-mw", "ptcombust-motzwise.yaml", "Pt_surf", true, 400, 1600},
        {"kfs-surf", "kineticsfromscratch.yaml", "Pt_surf", true, 400, 1600},
        {"pt-surf", "surface-phases.yaml", "Pt-surf", true, 400, 1600},
        {"pt-multi", "surface-phases.yaml", "Pt-multi-sites", true, 400, 1600},
        {"anode-surf", "surface-phases.yaml", "anode-surface", true, 400, 1000},
        {"bm-surf", "blowers-masel.yaml", "Pt_surf", true, 400, 1600},
        {"bm-mw", "blowers-masel.yaml", "Pt_motz_wise", true, 400, 1600},
        {"sofc-metal", "sofc.yaml", "metal_surface", true, 600, 1400},
        {"sofc-oxide", "sofc.yaml", "oxide_surface", true, 600, 1400},
        {"sofc-tpb", "sofc.yaml", "tpb", true, 600, 1400},
        {"lib-anode", "lithium_ion_battery.yaml", "edge_anode_electrolyte", true, 290, 380},
        {"lib-cathode", "lithium_ion_battery.yaml", "edge_cathode_electrolyte", true, 290, 380},
        {"haca", "haca2.yaml", "soot_interface", true, 500, 2500},
        {"stick", "sticking_coeff_check.yaml", "Pt_surf", true, 400, 1600},
        {"covdep", "copt_covdepsurf_example.yaml", "covdep", true, 350, 900},
        {"simple-surf", "ptcombust-simple.yaml", "Pt_surf", true, 400, 1600},
        {"mpox", "methane_pox_on_pt.yaml", "Pt_surf", true, 500, 1600},
        {"diamond", "diamond.yaml", "diamond_100", true, 800, 1600},
        {"tm-unity", "transport_models_test.yaml", "UnityLewis", false, 300, 3000},
        {"tm-mix", "transport_models_test.yaml", "CK_Mix", false, 300, 3000},
        {"tm-multi", "transport_models_test.yaml", "CK_Multi", false, 300, 3000},
    };
    return c;
}

inline const MechSpec& mech(const string& name) {
    for (auto& s : mechs()) if (s.name == name) return s;
    fprintf(stderr, "no mech spec %s\n", name.c_str());
    exit(3);
}

inline string findData(const string& f) {
    for (string d : {repoDir() + "/data/", repoDir() + "/test/data/", string(getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif") + "/data/"})
        if (access((d + f).c_str(), R_OK) == 0) return d + f;
    return f;
}

// A fresh object of the mechanism, built from the (cached) parsed file
inline shared_ptr<Solution> freshMech(const MechSpec& m, const string& transport = "-") {
    static thread_local std::map<string, AnyMap> roots;
    string path = findData(m.file);
    auto it = roots.find(path);
    if (it == roots.end()) it = roots.emplace(path, AnyMap::fromYamlFile(path)).first;
    AnyMap& root = it->second;
    AnyMap& node = m.phase.empty() ? root["phases"].getMapWhere("name", "") : root["phases"].getMapWhere("name", m.phase);
    if (m.iface) return newSolution(node, root, "default");
    string tr = transport != "-" ? transport : m.transport;
    return newSolution(node, root, tr == "" ? "default" : tr);
}

// Random composition and state of a phase by its model
inline void randomBulk(ThermoPhase& p, Rng& g) {
    string t = p.type();
    size_t n = p.nSpecies();
    if (auto* s = dynamic_cast<SurfPhase*>(&p)) {
        auto x = randomX(g, n);
        s->setCoverages(x.data());
    } else if (t == "binary-solution-tabulated") {
        double lo = p.name() == "cathode" ? 0.5 : 0.02, hi = p.name() == "cathode" ? 0.95 : 0.75;
        double x = g.uni(lo, hi), xx[2] = {x, 1 - x};
        p.setMoleFractions(xx);
    } else if (n > 1 && (t == "lattice" || t == "ideal-condensed")) {
        auto x = randomX(g, n, false);
        for (auto& v : x) v = std::max(v, 1e-3);
        p.setMoleFractions(x.data());
    } else if (n > 1) {
        auto x = randomX(g, n);
        p.setMoleFractions(x.data());
    }
}

inline void randomMechState(const MechSpec& m, Solution& s, Rng& g, double potential = 0.5) {
    double T = g.uni(m.Tmin, m.Tmax), P = g.logu(m.Pmin, m.Pmax);
    if (g.p(0.1)) T = g.p(0.5) ? m.Tmin : m.Tmax;
    if (g.p(0.2)) P = OneAtm;
    auto& th = *s.thermo();
    if (m.iface) {
        auto& kin = *s.kinetics();
        for (size_t n = 0; n < kin.nPhases(); n++) {
            auto& p = kin.thermo(n);
            randomBulk(p, g);
            p.setState_TP(T, p.nDim() == 3 && p.isCompressible() ? P : OneAtm);
            if (potential > 0) p.setElectricPotential(g.p(0.3) ? 0 : g.uni(-potential, potential));
        }
    } else {
        randomBulk(th, g);
        th.setState_TP(T, P);
        if (auto* pl = dynamic_cast<PlasmaPhase*>(&th)) {
            if (pl->electronEnergyDistributionType() == "isotropic") pl->setMeanElectronEnergy(g.uni(0.2, 8));
        }
    }
}

// every phase participating in the kinetics, the solution's own phase first
inline vector<ThermoPhase*> phasesOf(Solution& s) {
    vector<ThermoPhase*> out;
    if (s.kinetics()->nPhases()) for (size_t n = 0; n < s.kinetics()->nPhases(); n++) out.push_back(&s.kinetics()->thermo(n));
    else out.push_back(s.thermo().get());
    return out;
}

struct MechState { vector<vector<double>> st; vector<double> phi; double meanE = 0; };
inline MechState saveMech(Solution& s) {
    MechState m;
    for (auto* p : phasesOf(s)) {
        vector<double> v(p->stateSize());
        p->saveState(v);
        m.st.push_back(v);
        m.phi.push_back(p->electricPotential());
        if (auto* pl = dynamic_cast<PlasmaPhase*>(p)) m.meanE = pl->meanElectronEnergy();
    }
    return m;
}
inline void restoreMech(Solution& s, const MechState& m) {
    size_t i = 0;
    for (auto* p : phasesOf(s)) {
        p->restoreState(m.st[i]);
        if (p->electricPotential() != m.phi[i]) p->setElectricPotential(m.phi[i]);
        if (auto* pl = dynamic_cast<PlasmaPhase*>(p)) {
            if (pl->electronEnergyDistributionType() == "isotropic") pl->setMeanElectronEnergy(m.meanE);
        }
        i++;
    }
}

inline vector<double> dense(const Eigen::SparseMatrix<double>& m) {
    vector<double> out(m.rows() * m.cols(), 0.0);
    for (int k = 0; k < m.outerSize(); k++)
        for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it) out[it.row() + it.col() * m.rows()] += it.value();
    return out;
}

// One kinetics quantity by number; returns false past the end
inline bool kinQuantity(Kinetics& k, size_t q, Print& out, string* name = nullptr, bool derivs = true) {
    Fp f{out, k.nReactions()};
    size_t ns = k.nTotalSpecies(), nr = k.nReactions();
#define R1(nm) case __COUNTER__ - base: if (name) *name = #nm; f.vn(#nm, nr, [&](double* x) { k.nm(x); }); return true;
#define W1(nm) case __COUNTER__ - base: if (name) *name = #nm; f.vn(#nm, ns, [&](double* x) { k.nm(x); }); return true;
#define M1(nm) case __COUNTER__ - base: if (name) *name = #nm; if (!derivs) return true; \
        try { out[#nm] = dense(k.nm()); } catch (NotImplementedError&) {} catch (CanteraError&) { out[#nm] = {-9.87654e300}; } return true;
#define D1(nm) case __COUNTER__ - base: if (name) *name = #nm; if (derivs) f.vn(#nm, nr, [&](double* x) { k.nm(x); }); return true;
#define DW(nm) case __COUNTER__ - base: if (name) *name = #nm; if (derivs) f.vn(#nm, ns, [&](double* x) { k.nm(x); }); return true;
    constexpr int base = __COUNTER__ + 1;
    switch (int(q)) {
        R1(getFwdRateConstants) R1(getRevRateConstants) R1(getFwdRatesOfProgress) R1(getRevRatesOfProgress)
        R1(getNetRatesOfProgress) R1(getEquilibriumConstants) R1(getDeltaGibbs) R1(getDeltaElectrochemPotentials)
        R1(getDeltaEnthalpy) R1(getDeltaEntropy) R1(getDeltaSSGibbs) R1(getDeltaSSEnthalpy) R1(getDeltaSSEntropy)
        R1(getThirdBodyConcentrations)
        W1(getCreationRates) W1(getDestructionRates) W1(getNetProductionRates) W1(getActivityConcentrations)
        D1(getFwdRateConstants_ddT) D1(getFwdRateConstants_ddP) D1(getFwdRateConstants_ddC)
        D1(getFwdRatesOfProgress_ddT) D1(getFwdRatesOfProgress_ddP) D1(getFwdRatesOfProgress_ddC)
        D1(getRevRatesOfProgress_ddT) D1(getRevRatesOfProgress_ddP) D1(getRevRatesOfProgress_ddC)
        D1(getNetRatesOfProgress_ddT) D1(getNetRatesOfProgress_ddP) D1(getNetRatesOfProgress_ddC)
        DW(getCreationRates_ddT) DW(getDestructionRates_ddT) DW(getNetProductionRates_ddT)
        DW(getCreationRates_ddP) DW(getDestructionRates_ddP) DW(getNetProductionRates_ddP)
        DW(getCreationRates_ddC) DW(getDestructionRates_ddC) DW(getNetProductionRates_ddC)
        M1(fwdRatesOfProgress_ddX) M1(revRatesOfProgress_ddX) M1(netRatesOfProgress_ddX)
        M1(fwdRatesOfProgress_ddCi) M1(revRatesOfProgress_ddCi) M1(netRatesOfProgress_ddCi)
        M1(netProductionRates_ddX) M1(netProductionRates_ddCi)
    default: return false;
    }
#undef R1
#undef W1
#undef M1
#undef D1
#undef DW
}

inline bool tranQuantity(Transport& t, ThermoPhase& th, size_t q, Print& out, string* name = nullptr) {
    size_t n = th.nSpecies();
    Fp f{out, n};
#define S1(nm) case __COUNTER__ - base: if (name) *name = #nm; f.s(#nm, [&] { return t.nm(); }); return true;
#define V1(nm) case __COUNTER__ - base: if (name) *name = #nm; f.v(#nm, [&](double* x) { t.nm(x); }); return true;
#define Q1(nm) case __COUNTER__ - base: if (name) *name = #nm; f.vn(#nm, n * n, [&](double* x) { t.nm(n, x); }); return true;
    constexpr int base = __COUNTER__ + 1;
    switch (int(q)) {
        S1(viscosity) S1(thermalConductivity) S1(electricalConductivity) S1(bulkViscosity)
        V1(getSpeciesViscosities) V1(getMobilities) V1(getThermalDiffCoeffs) V1(getMixDiffCoeffs)
        V1(getMixDiffCoeffsMole) V1(getMixDiffCoeffsMass) Q1(getBinaryDiffCoeffs) Q1(getMultiDiffCoeffs)
    default: return false;
    }
#undef S1
#undef V1
#undef Q1
}

inline Print kinPrint(Kinetics& k, bool derivs = true) {
    Print out;
    for (size_t q = 0; kinQuantity(k, q, out, nullptr, derivs); q++) {}
    return out;
}
inline Print tranPrint(Transport& t, ThermoPhase& th) {
    Print out;
    for (size_t q = 0; tranQuantity(t, th, q, out); q++) {}
    return out;
}
// a whole solution
inline Print mechPrint(Solution& s, bool derivs = true) {
    Print out;
    size_t i = 0;
    for (auto* p : phasesOf(s)) {
        for (auto& [k, v] : thermoPrint(*p)) out["p" + std::to_string(i) + "." + k] = v;
        i++;
    }
    for (auto& [k, v] : kinPrint(*s.kinetics(), derivs)) out["k." + k] = v;
    if (s.transport()) for (auto& [k, v] : tranPrint(*s.transport(), *s.thermo())) out["t." + k] = v;
    return out;
}

inline bool startsWith(const string& s, const char* p) { return s.rfind(p, 0) == 0; }

// compare quantity q of the used object with the fresh object's value
inline void comparePart(Run& r, const string& key, const string& nm, const vector<double>& va, const vector<double>& vb,
                    const Print& ref, const string& pre, double T, double rtol) {
    if (!r.check(key + ":" + nm + "-size", va.size() == vb.size(), cat(va.size(), " vs ", vb.size()))) return;
    double mx = 0;
    auto widen = [&](const string& k) {
        auto it = ref.find(pre + k);
        if (it != ref.end()) for (double x : it->second) if (std::isfinite(x)) mx = std::max(mx, std::fabs(x));
    };
    for (double x : vb) if (std::isfinite(x)) mx = std::max(mx, std::fabs(x));
    double fl = pre == "k." ? 0 : floorOf(nm, T);
    if (pre == "k.") {
        // differences of large opposite parts
        string suf = nm.find('_') != string::npos ? nm.substr(nm.find('_')) : "";
        if (nm.find("Net") != string::npos || nm.find("net") == 0) {
            bool g = startsWith(nm, "get");
            bool prod = nm.find("Prod") != string::npos;
            if (prod) { widen("getCreationRates" + suf); widen("getDestructionRates" + suf);  }
            widen((g ? "getFwdRatesOfProgress" : "fwdRatesOfProgress") + suf);
            widen((g ? "getRevRatesOfProgress" : "revRatesOfProgress") + suf);
        }
        if (startsWith(nm, "getDelta")) fl = 1e-8 * GasConstant * (nm.find("Entropy") != string::npos ? 1.0 : T) * 10;
    }
    // numerical derivatives carry the noise of a difference
    bool diff = pre == "k." && nm.find("_dd") != string::npos;
    if (diff) rtol = 1e-4;
    double atol = (diff ? 1 : 1e-2) * rtol * mx + fl;
    for (size_t k = 0; k < va.size(); k++) {
        if (std::isnan(va[k]) && std::isnan(vb[k])) continue;
        if (nm == "t.getBinaryDiffCoeffs" && k % (size_t(std::sqrt(double(va.size()))) + 1) == 0) {
            if (!r.near(key + ":binary-diagonal", va[k], vb[k], rtol, atol, cat(nm, "[", k, "]"))) break;
            continue;
        }
        if (!r.near(key + ":" + nm, va[k], vb[k], rtol, atol, cat(nm, "[", k, "]"))) break;
    }
}

} // namespace vh
