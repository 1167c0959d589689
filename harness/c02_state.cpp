// C02: setting a state by any property pair yields exactly that state.
#include "fprint.h"
using namespace vh;

static std::map<string, shared_ptr<ThermoPhase>> cacheA, cacheB;

struct St { double T, P, D, H, U, S, V, Q; vector<double> X, Y; };

static St readState(ThermoPhase& p) {
    St s;
    s.T = p.temperature(); s.P = p.pressure(); s.D = p.density();
    auto get = [&](const std::function<double()>& f) { try { return f(); } catch (CanteraError&) { return std::nan(""); } };
    s.H = get([&] { return p.enthalpy_mass(); }); s.U = get([&] { return p.intEnergy_mass(); });
    s.S = get([&] { return p.entropy_mass(); }); s.V = 1 / s.D;
    s.Q = get([&] { return p.vaporFraction(); });
    s.X.resize(p.nSpecies()); s.Y.resize(p.nSpecies());
    p.getMoleFractions(s.X.data()); p.getMassFractions(s.Y.data());
    return s;
}

static bool randomState(const PhaseSpec& s, ThermoPhase& p, Rng& g) {
    double T, P;
    for (int t = 0; t < 8; t++) {
        randomTP(s, g, T, P);
        randomComposition(s, p, g);
        try { p.setState_TP(T, P); return true; } catch (CanteraError&) {}
    }
    return false;
}

static void one(Run& r, size_t i, Rng& g) {
    auto& cats = catalogue();
    const PhaseSpec& s = cats[i % cats.size()];
    if (!cacheA[s.name]) { cacheA[s.name] = newThermo(s.file, s.phase); cacheB[s.name] = newThermo(s.file, s.phase); }
    ThermoPhase &a = *cacheA[s.name], &b = *cacheB[s.name];
    string K = "@" + s.name;
    r.describe(s.name);
    if (!randomState(s, a, g)) { r.count("no-target-state"); return; }
    bool pure = isPure(s);
    if (pure && g.p(0.25)) {
        // a two-phase target
        double T = g.uni(s.Tmin, std::min(s.Tmax, a.critTemperature() * 0.98));
        try { a.setState_Tsat(T, g.p(0.2) ? double(g.i(0, 1)) : g.u()); } catch (CanteraError&) { r.count("no-target-state"); return; }
    }
    St t = readState(a);
    Print fa = thermoPrint(a);
    if (!randomState(s, b, g)) { r.count("no-start-state"); return; }
    double T0 = b.temperature(), P0 = b.pressure();
    string where = cat(s.name, " target T=", t.T, " P=", t.P, " D=", t.D, " from T=", T0, " P=", P0, " X=", t.X.size() <= 8 ? vec(t.X) : "..");
    r.describe(where);
    r.state(hashv({t.T, t.P, T0, P0, double(i % cats.size())}, hashv(t.X)));
    if (i < 2) r.sample(where);

    // ---- save and restore into another instance ----
    vector<double> sv(a.stateSize());
    a.saveState(sv);
    Print fb;
    if (g.p(0.5)) {
        b.restoreState(sv);
        fb = thermoPrint(b);
        // differences near the end members of a lattice amplify the last digit of X
        comparePrints(r, fb, fa, pure ? 1e-6 : s.name.find("lattice") == 0 ? 1e-4 : 1e-9, "restore" + K, [&](const string& k) { return floorOf(k, t.T); },
                      [&](const string& k) { return pure && (k == "cp_mole" || k == "cp_mass" || k == "cv_mole" || k == "cv_mass" || k == "soundSpeed" || k == "isothermalCompressibility" || k == "thermalExpansionCoeff" || k == "getPartialMolarCp" || k == "getCp_R" || k == "internalPressure"); });
        if (!pure) {
            vector<double> s2(b.stateSize());
            b.saveState(s2);
            double d = 0;
            for (size_t k = 0; k < sv.size(); k++) d = std::max(d, std::fabs(s2[k] - sv[k]) / (std::fabs(sv[k]) + 1e-3));
            r.check("restore-identical" + K, d < 1e-13, "saved state differs after restore " + vec(s2) + " vs " + vec(sv));
        }
        return;
    }
    if (s.name == "hmw-bogus") return;  // its parameters leave H and S without a unique temperature
    // ---- set by a property pair ----
    static const vector<string> pairs = {"TP", "TD", "HP", "UV", "SP", "SV", "ST", "TV", "PV", "UP", "VH", "TH", "SH", "DP", "TQ", "PQ", "TPQ"};
    string pair = g.p(0.6) ? pairs[g.idx(6)] : pairs[g.idx(pairs.size())];
    auto val = [&](char c) { switch (c) { case 'T': return t.T; case 'P': return t.P; case 'D': return t.D; case 'H': return t.H;
        case 'U': return t.U; case 'S': return t.S; case 'V': return t.V; default: return t.Q; } };
    for (char c : pair) if (std::isnan(val(c))) { r.count("target-not-available"); return; }
    // composition of the target, unless it is fixed
    int how = int(g.i(0, 4));
    bool comp = s.comp != FIXED && s.comp != PURE && s.comp != COMPOUND;
    bool viaMap = g.p(0.3);
    double tol = g.p(0.5) ? 1e-9 : g.logu(1e-12, 1e-7);
    bool bad = g.p(0.12) && s.name.find("hmw") != 0;         // an unsatisfiable or nonsensical request
    double f1 = 1, f2 = 1;
    if (bad) {
        static const vector<double> fs = {-1, 0, 1e4, -1e4, std::nan(""), 30, 0.03, 3};
        (g.p(0.5) ? f1 : f2) = fs[g.idx(fs.size())];
    }
    double v1 = val(pair[0]) * f1, v2 = val(pair[1]) * f2;
    if (pair == "TPQ") f1 = f2 = 1, v1 = t.T, v2 = t.P, bad = false;
    if (bad) K = "-bad" + K;
    where += cat(" pair ", pair, "=", v1, ",", v2, viaMap ? " map" : "", " tol=", tol, bad ? " bad" : "");
    r.describe(where);
    try {
        if (viaMap) {
            AnyMap m;
            if (comp) {
                Composition c;
                for (size_t k = 0; k < t.X.size(); k++) c[b.speciesName(k)] = how % 2 ? t.X[k] : t.Y[k];
                m[how % 2 ? "X" : "Y"] = c;
            }
            for (size_t j = 0; j < pair.size(); j++) m[string(1, pair[j])] = j == 0 ? v1 : j == 1 ? v2 : t.Q;
            b.setState(m);
        } else {
            if (comp) {
                if (how == 0) b.setMoleFractions(t.X.data());
                else if (how == 1) b.setMassFractions(t.Y.data());
                else if (how == 2) b.setState_TPX(b.temperature(), b.pressure(), t.X.data());
                else if (how == 3) b.setState_TPY(b.temperature(), b.pressure(), t.Y.data());
                else { string str; for (size_t k = 0; k < t.X.size(); k++) str += cat(k ? ", " : "", b.speciesName(k), ":", t.X[k]); b.setMoleFractionsByName(str); }
            }
            if (pair == "TP") b.setState_TP(v1, v2);
            else if (pair == "TD") b.setState_TD(v1, v2);
            else if (pair == "HP") b.setState_HP(v1, v2, tol);
            else if (pair == "UV") b.setState_UV(v1, v2, tol);
            else if (pair == "SP") b.setState_SP(v1, v2, tol);
            else if (pair == "SV") b.setState_SV(v1, v2, tol);
            else if (pair == "ST") b.setState_ST(v1, v2, tol);
            else if (pair == "TV") b.setState_TV(v1, v2, tol);
            else if (pair == "PV") b.setState_PV(v1, v2, tol);
            else if (pair == "UP") b.setState_UP(v1, v2, tol);
            else if (pair == "VH") b.setState_VH(v1, v2, tol);
            else if (pair == "TH") b.setState_TH(v1, v2, tol);
            else if (pair == "SH") b.setState_SH(v1, v2, tol);
            else if (pair == "DP") b.setState_DP(v1, v2);
            else if (pair == "TQ") b.setState_Tsat(v1, v2);
            else if (pair == "PQ") b.setState_Psat(v1, v2);
            else if (pair == "TPQ") b.setState_TPQ(t.T, t.P, t.Q);
        }
    } catch (NotImplementedError&) {
        r.count("pair-not-supported");
        return;
    } catch (CanteraError& e) {
        r.count(bad ? "bad-request-refused" : "satisfiable-refused");
        // a request for a state that exists is not refused by the ideal phases
        static const std::set<string> ideal = {"ideal-gas", "ideal-condensed", "fixed-stoichiometry"};
        if (!bad && ideal.count(b.type()) && (pair == "TP" || pair == "TD" || pair == "HP" || pair == "UV" || pair == "SP" || pair == "SV" || pair == "DP")
            && !(pair == "TD" && !b.isCompressible()) && b.isCompressible() >= (pair == "UV" || pair == "SV" || pair == "DP")
            && s.name != "electrolyte-ic"  // its heat capacities are zero
            && t.T >= b.minTemp() && t.T <= b.maxTemp())
            r.violation("satisfiable-refused-" + pair + K, e.what());
        // the object is still usable
        cacheB[s.name].reset(); cacheA[s.name].reset();
        return;
    }
    r.count("pair-set-" + pair);
    if (bad) { r.count("bad-request-accepted"); }
    struct Forget { bool on; string n; ~Forget() { if (on) { cacheA[n].reset(); cacheB[n].reset(); } } } forget{bad, s.name};
    St q = readState(b);
    auto scale = [&](char c) {
        double cp = 0;
        try { cp = std::min(std::fabs(b.cp_mass()), 1e5); } catch (CanteraError&) {}
        double e = std::max(GasConstant / b.meanMolecularWeight(), cp) ;
        return c == 'H' || c == 'U' ? e * t.T : c == 'S' ? e : 0.0;
    };
    auto got = [&](char c) { switch (c) { case 'T': return q.T; case 'P': return q.P; case 'D': return q.D; case 'H': return q.H;
        case 'U': return q.U; case 'S': return q.S; case 'V': return q.V; default: return q.Q; } };
    // At a fixed pressure the enthalpy of a cubic equation of state jumps where its liquid
    // or vapor root disappears; a target inside the jump belongs to no state of that branch
    if ((b.type() == "Redlich-Kwong" || b.type() == "Peng-Robinson") && (pair == "HP" || pair == "SP" || pair == "UV" || pair == "SV") && !bad) {
        bool v = pair[1] == 'V';
        auto at = [&](double T) {
            v ? b.setState_TD(T, 1 / v2) : b.setState_TP(T, v2);
            return pair[0] == 'H' ? b.enthalpy_mass() : pair[0] == 'S' ? b.entropy_mass() : b.intEnergy_mass();
        };
        vector<double> back(b.stateSize());
        b.saveState(back);
        double lo = at(q.T * (1 - 1e-4)), hi = at(q.T * (1 + 1e-4));
        if ((lo - v1) * (hi - v1) < 0 && std::fabs(hi - lo) > 0.05 * GasConstant / b.meanMolecularWeight() * (pair[0] == 'S' ? 1 : q.T)) K = "-jump" + K;
        else if (std::fabs(q.T / t.T - 1) > 1e-3) K = "-astray" + K;
        b.restoreState(back);
    }
    for (size_t j = 0; j < pair.size(); j++) {
        char c = pair[j];
        double want = j == 0 ? v1 : j == 1 ? v2 : t.Q;
        double rt = c == 'T' || c == 'P' || c == 'D' || c == 'V' ? 1e-8 : 1e-6;
        if (pure) rt = c == 'P' ? 1e-4 : 1e-5;
        if (c == 'Q') r.near("set-" + pair + "-Q" + K, got(c), want, 0, 1e-6);
        else {
            double at = 0;
            // density sets the pressure of stiff liquids only to its own precision
            if (pure && c == 'P') at = 5e-7 * std::max(1e5, 1 / std::max(1e-14, b.isothermalCompressibility()));
            bool ok = std::isnan(want) ? r.check("set-" + pair + "-nan" + K, std::isnan(got(c)), "a request with NaN was accepted and left another state")
                                       : r.near("set-" + pair + "-" + c + K, got(c), want, rt, at, "", scale(c));
            if (!ok) break;
        }
    }
    if (comp) {
        for (size_t k = 0; k < t.X.size(); k++)
            if (!r.near("set-composition" + K, q.X[k], t.X[k], 1e-10, 1e-13, cat("k=", k, " how=", how))) break;
    }
    // the property functions at the new state follow the state that was reached
    if (!bad && !pure && pair == "TP" ) {
        Print fb2 = thermoPrint(b);
        bool eos = b.type() == "Redlich-Kwong" || b.type() == "Peng-Robinson";
        if (std::fabs(q.D / t.D - 1) < 1e-7)
            comparePrints(r, fb2, fa, eos ? 1e-5 : s.name.find("lattice") == 0 ? 1e-4 : 1e-8, "same-state" + K, [&](const string& k) { return 10 * floorOf(k, t.T); });
    }
}

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    return drive(r, one);
}
