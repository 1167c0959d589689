// C04: composition bookkeeping is exact and conserves mass.
//
// Compositions are given in every way the library offers to phases of every model and to
// generated phases with random formulas; all composition getters are compared with values
// computed here from the intended composition. Fuel/oxidizer mixing helpers are compared
// with their definitions (elements conserved, oxygen balance) for random fuel and
// oxidizer definitions in both bases.
#include "ct.h"
#include "phases.h"
#include "cantera/thermo/MolalityVPSSTP.h"
using namespace vh;

struct Ref {
    vector<double> X, Y;
    double mmw;
};
static Ref fromX(const ThermoPhase& ph, vector<double> x) {
    Ref r;
    double s = 0, m = 0;
    for (auto& v : x) { if (v < 0) v = 0; s += v; }
    for (size_t k = 0; k < x.size(); k++) { x[k] /= s; m += x[k] * ph.molecularWeight(k); }
    r.X = x; r.mmw = m; r.Y.resize(x.size());
    for (size_t k = 0; k < x.size(); k++) r.Y[k] = x[k] * ph.molecularWeight(k) / m;
    return r;
}
static Ref fromY(const ThermoPhase& ph, vector<double> y) {
    for (size_t k = 0; k < y.size(); k++) y[k] = std::max(y[k], 0.0) / ph.molecularWeight(k);
    return fromX(ph, y);
}

static const double TOL = 1e-12;

static void monitor(Run& r, const string& how, const string& name, ThermoPhase& ph, const Ref& ref) {
    size_t n = ph.nSpecies();
    string at = how + "@" + name;
    vector<double> x(n), y(n), c(n);
    ph.getMoleFractions(x.data()); ph.getMassFractions(y.data()); ph.getConcentrations(c.data());
    double sx = 0, sy = 0, sc = 0, rho = ph.density(), md = ph.molarDensity();
    Composition cx = ph.getMoleFractionsByName(), cy = ph.getMassFractionsByName();
    for (size_t k = 0; k < n; k++) {
        r.near("X-" + at, x[k], ref.X[k], TOL, 1e-300, ph.speciesName(k));
        r.near("Y-" + at, y[k], ref.Y[k], TOL, 1e-300, ph.speciesName(k));
        r.near("c-" + at, c[k], rho * ref.Y[k] / ph.molecularWeight(k), TOL, 1e-300);
        r.near("x1-" + at, ph.moleFraction(k), x[k], 1e-15);
        r.near("y1-" + at, ph.massFraction(k), y[k], 1e-15);
        r.near("c1-" + at, ph.concentration(k), c[k], 1e-15);
        r.near("xn-" + at, ph.moleFraction(ph.speciesName(k)), x[k], 1e-15);
        r.near("yn-" + at, ph.massFraction(ph.speciesName(k)), y[k], 1e-15);
        auto it = cx.find(ph.speciesName(k));
        r.near("xmap-" + at, it == cx.end() ? 0.0 : it->second, x[k], 1e-15);
        it = cy.find(ph.speciesName(k));
        r.near("ymap-" + at, it == cy.end() ? 0.0 : it->second, y[k], 1e-15);
        sx += x[k]; sy += y[k]; sc += c[k];
    }
    r.near("sumX-" + at, sx, 1, 1e-12);
    r.near("sumY-" + at, sy, 1, 1e-12);
    r.near("sumC-" + at, sc, md, 1e-12);
    r.near("mmw-" + at, ph.meanMolecularWeight(), ref.mmw, TOL);
    r.near("molar-density-" + at, md, rho / ref.mmw, TOL);
    if (ph.nDim() == 3) r.near("molar-volume-" + at, ph.molarVolume(), 1 / md, TOL);
    // elements
    double tot = 0, mtot = 0, zs = 0, q = 0, qs = 0;
    vector<double> e(ph.nElements()), es(ph.nElements());
    for (size_t m = 0; m < ph.nElements(); m++) {
        for (size_t k = 0; k < n; k++) { e[m] += ph.nAtoms(k, m) * ref.X[k]; es[m] += std::fabs(ph.nAtoms(k, m)) * ref.X[k]; }
        tot += e[m];
    }
    double est = std::accumulate(es.begin(), es.end(), 0.0);
    for (size_t m = 0; m < ph.nElements(); m++) {
        double z = ph.elementalMassFraction(m);
        r.near("Zmass-" + at, z, e[m] * ph.atomicWeight(m) / ref.mmw, TOL, TOL * es[m] * ph.atomicWeight(m) / ref.mmw + 1e-300, ph.elementName(m));
        zs += z;
        if (std::fabs(tot) > 1e-3 * est) {
            r.near("Zmole-" + at, ph.elementalMoleFraction(m), e[m] / tot, TOL, 10 * TOL * est / std::fabs(tot), ph.elementName(m));
            mtot += ph.elementalMoleFraction(m);
        }
    }
    bool massive = true;
    for (size_t k = 0; k < n; k++) {
        double w = 0;
        for (size_t m = 0; m < ph.nElements(); m++) w += ph.nAtoms(k, m) * ph.atomicWeight(m);
        if (std::fabs(w - ph.molecularWeight(k)) > 1e-9 * w) massive = false; // vacancies have a nominal mass
    }
    if (massive) r.near("sumZ-" + at, zs, 1, 1e-11);
    for (size_t k = 0; k < n; k++) { q += ref.X[k] * ph.charge(k); qs += ref.X[k] * std::fabs(ph.charge(k)); }
    r.near("charge-density-" + at, ph.chargeDensity(), q * Faraday * md, 1e-11, 1e-11 * qs * Faraday * md);
    // averages
    vector<double> Q(n);
    double avg = 0, as = 0, xl = 0;
    for (size_t k = 0; k < n; k++) { Q[k] = std::cos(double(k) + 1) * 10; avg += Q[k] * ref.X[k]; as += std::fabs(Q[k] * ref.X[k]); if (ref.X[k] > 0) xl += ref.X[k] * std::log(ref.X[k]); }
    r.near("mean-" + at, ph.mean_X(Q), avg, 0, TOL * as);
    r.near("xlogx-" + at, ph.sum_xlogx(), xl, 1e-10, 1e-10);
    r.near("max-x-" + at, double(n), double(x.size()), 0);
}

// a phase with random formulas
static shared_ptr<ThermoPhase> randomPhase(Rng& g, string& desc) {
    static const vector<string> els{"H", "C", "O", "N", "S", "Ar", "E"};
    std::ostringstream o;
    size_t n = g.i(2, 14);
    o << "phases:\n- name: p\n  thermo: ideal-gas\n  elements: [";
    vector<string> el = els;
    g.shuffle(el);
    for (size_t i = 0; i < el.size(); i++) o << (i ? ", " : "") << el[i];
    o << "]\n  species: [";
    for (size_t k = 0; k < n; k++) o << (k ? ", " : "") << "s" << k;
    o << "]\nspecies:\n";
    for (size_t k = 0; k < n; k++) {
        o << "- {name: s" << k << ", composition: {";
        bool any = false;
        if (g.p(0.2)) o << "O: " << g.i(1, 3);
        else {
            for (auto e : {"H", "C", "O", "N", "S", "Ar"}) if (g.p(0.3)) { o << (any ? ", " : "") << e << ": " << (g.p(0.1) ? g.uni(0.1, 3) : double(g.i(1, 9))); any = true; }
            if (!any) o << "N: 2";
            if (g.p(0.1)) o << ", E: " << g.pick({1, -1, -2});
        }
        o << "}, thermo: {model: constant-cp}}\n";
    }
    desc = o.str();
    AnyMap root = AnyMap::fromYamlString(o.str());
    return newThermo(root["phases"].getMapWhere("name", "p"), root);
}

static string compString(Rng& g, const Composition& c) {
    string s;
    vector<std::pair<string, double>> v(c.begin(), c.end());
    g.shuffle(v);
    string sep = g.pick({",", ", ", "; ", " ", "\n", " , "}), col = g.pick({":", ": ", ":"});
    for (auto& [k, x] : v) {
        char b[40]; snprintf(b, 40, g.p(0.5) ? "%.17g" : "%.16E", x);
        s += (s.empty() ? "" : sep) + k + col + b;
    }
    return s;
}

static void compositions(Run& r, Rng& g, ThermoPhase& ph, const string& name, Comp kind) {
    size_t n = ph.nSpecies();
    bool any = kind == GAS || kind == SOLN;
    bool gas = kind == GAS;
    vector<double> x0(n);
    ph.getMoleFractions(x0.data());
    double s0T = ph.temperature(), s0P = ph.pressure();
    for (int rep = 0; rep < 3; rep++) {
        vector<double> x = randomX(g, n);
        if (name.substr(0, 9) == "vpss-hkft") x[0] += 1;
        double f = g.logu(1e-6, 1e6);
        for (auto& v : x) v *= f;
        if (g.p(0.2) && n > 2) { size_t k = g.idx(n); if (x[k] < 0.5 * std::accumulate(x.begin(), x.end(), 0.0)) x[k] = -g.u(); }
        Ref rx = fromX(ph, x), ry = fromY(ph, x);
        double T = ph.temperature(), rho = ph.density();
        if (any) {
            ph.setMoleFractions(x.data()); monitor(r, "set-X", name, ph, rx);
            r.near("T-kept@" + name, ph.temperature(), T, 0);
            if (gas) r.near("rho-kept@" + name, ph.density(), rho, 0);
            ph.setMassFractions(x.data()); monitor(r, "set-Y", name, ph, ry);
            vector<double> xn = rx.X;
            ph.setMoleFractions_NoNorm(xn.data()); monitor(r, "set-X-nonorm", name, ph, rx);
            ph.setMassFractions_NoNorm(ry.Y.data()); monitor(r, "set-Y-nonorm", name, ph, ry);
            Composition cm; string cs;
            for (size_t k = 0; k < n; k++) if (x[k] > 0 || g.p(0.1)) cm[ph.speciesName(k)] = std::max(x[k], 0.0);
            ph.setMoleFractionsByName(cm); monitor(r, "set-X-map", name, ph, rx);
            ph.setMassFractionsByName(cm); monitor(r, "set-Y-map", name, ph, ry);
            cs = compString(g, cm);
            ph.setMoleFractionsByName(cs); monitor(r, "set-X-string", name, ph, rx);
            ph.setMassFractionsByName(cs); monitor(r, "set-Y-string", name, ph, ry);
            if (gas) {
                double Tn = ph.temperature(), pn = ph.pressure();
                bool ideal = name.substr(0, 2) == "ig" || name == "generated";
                if (!ideal) {
                    // real fluids may have no state at this T and P
                    try { ph.setState_TPX(Tn, pn, cs); ph.setState_TPY(Tn, pn, cm); } catch (CanteraError&) { r.count("refused-state"); ph.setState_TPX(s0T, s0P, x0.data()); continue; }
                }
                ph.setState_TPX(Tn, pn, cs); monitor(r, "set-TPX-string", name, ph, rx);
                ph.setState_TPY(Tn, pn, cm); monitor(r, "set-TPY-map", name, ph, ry);
                ph.setState_TPX(Tn, pn, x.data()); monitor(r, "set-TPX", name, ph, rx);
                vector<double> c(n);
                double ct = g.logu(1e-4, 1);
                for (size_t k = 0; k < n; k++) c[k] = x[k] / f * ct;
                auto conc = [&](const string& how, const vector<double>& cc) {
                    double want = 0;
                    vector<double> got(n);
                    for (size_t k = 0; k < n; k++) want += cc[k] * ph.molecularWeight(k);
                    r.near("rho-from-" + how + "@" + name, ph.density(), want, TOL);
                    ph.getConcentrations(got.data());
                    for (size_t k = 0; k < n; k++) r.near("c-from-" + how + "@" + name, got[k], cc[k], TOL, 1e-300);
                };
                vector<double> cp = c;
                for (auto& v : cp) v = std::max(v, 0.0);
                ph.setConcentrations(c.data()); monitor(r, "set-C", name, ph, rx); conc("set-C", cp);
                ph.setConcentrationsNoNorm(cp.data()); monitor(r, "set-C-nonorm", name, ph, rx); conc("set-C-nonorm", cp);
                ph.setState_TPX(s0T, s0P, x0.data());
            }
            r.state(cat(name, vh::hashv(rx.X) % 100000));
        } else if (kind == MOLALITY) {
            auto& mp = dynamic_cast<MolalityVPSSTP&>(ph);
            vector<double> m(n), got(n);
            double sol = 0;
            for (size_t k = 1; k < n; k++) { m[k] = g.p(0.2) ? 0 : g.logu(1e-10, 3); sol += m[k]; }
            m[0] = 1000 / ph.molecularWeight(0) * g.uni(0.2, 3); // ignored: the solvent's is fixed
            auto want = [&]() {
                vector<double> xx(n);
                for (size_t k = 1; k < n; k++) xx[k] = m[k];
                xx[0] = 1000 / ph.molecularWeight(0);
                return fromX(ph, xx);
            };
            Ref w = want();
            int how = g.i(0, 2);
            if (how == 0) mp.setMolalities(m.data());
            else {
                // by name the solvent mole fraction follows from the molalities after
                // charges are balanced by the library: start from a neutral set
                double q = 0;
                for (size_t k = 1; k < n; k++) q += m[k] * ph.charge(k);
                if (q != 0) {
                    bool fixed = false;
                    for (size_t k = 1; k < n && !fixed; k++) if (ph.charge(k) * q < 0) { m[k] -= q / ph.charge(k); fixed = true; }
                    if (!fixed) continue;
                    q = 0; double a = 0;
                    for (size_t k = 1; k < n; k++) { q += m[k] * ph.charge(k); a += m[k] * std::fabs(ph.charge(k)); }
                }
                w = want();
                Composition cm;
                for (size_t k = 1; k < n; k++) if (m[k] > 0) cm[ph.speciesName(k)] = m[k];
                if (cm.empty()) continue;
                vector<double> pure(n); // species not named keep their amounts
                pure[0] = 1;
                mp.setMoleFractions(pure.data());
                if (how == 1) mp.setMolalitiesByName(cm);
                else mp.setMolalitiesByName(compString(g, cm));
                // the charge balance may move the last digits
                vector<double> x2(n);
                ph.getMoleFractions(x2.data());
                for (size_t k = 0; k < n; k++) r.near("molal-by-name@" + name, x2[k], w.X[k], 1e-9, 1e-14);
                w = fromX(ph, x2);
            }
            monitor(r, how == 0 ? "set-molalities" : "molalities-by-name", name, ph, w);
            mp.getMolalities(got.data());
            for (size_t k = 1; k < n; k++) r.near("molality@" + name, got[k], how ? w.X[k] / w.X[0] * 1000 / ph.molecularWeight(0) : m[k], 1e-11, 1e-300);
            r.near("solvent-molality@" + name, got[0], 1000 / ph.molecularWeight(0), 1e-12);
        } else {
            PhaseSpec s{};
            if (kind != FIXED && kind != PURE) { s = spec(name); randomComposition(s, ph, g); }
            vector<double> xx(n);
            ph.getMoleFractions(xx.data());
            monitor(r, "getters", name, ph, fromX(ph, xx));
        }
    }
    if (any) {
        // refused: unknown and repeated names
        vector<double> before(n), after(n);
        ph.getMassFractions(before.data());
        auto refused = [&](const string& k, const string& s) {
            bool threw = false;
            try { ph.setMoleFractionsByName(s); } catch (CanteraError&) { threw = true; }
            r.check(k + "@" + name, threw, s);
            ph.getMassFractions(after.data());
            r.check(k + "-unchanged@" + name, before == after, s);
        };
        refused("unknown-name", ph.speciesName(0) + ":1, nobody:0.5");
        refused("repeated-name", ph.speciesName(0) + ":1, " + ph.speciesName(0) + ":0.5");
        refused("bad-number", ph.speciesName(0) + ":1x");
        refused("missing-number", ph.speciesName(0));
    }
}

// ---- fuel and oxidizer -------------------------------------------------------------

struct Mix { vector<double> y, Z; double need; };  // mass fractions, element kmol/kg, O2 required minus present (kmol/kg)
static Mix mixOf(const ThermoPhase& ph, const vector<double>& v, bool molar) {
    Mix m;
    m.y = (molar ? fromX(ph, v) : fromY(ph, v)).Y;
    m.Z.assign(ph.nElements(), 0);
    m.need = 0;
    for (size_t k = 0; k < v.size(); k++) for (size_t e = 0; e < ph.nElements(); e++) m.Z[e] += m.y[k] * ph.nAtoms(k, e) / ph.molecularWeight(k);
    for (size_t e = 0; e < ph.nElements(); e++) {
        string n = ph.elementName(e);
        m.need += m.Z[e] * (n == "C" || n == "S" ? 1 : n == "H" ? 0.25 : n == "O" ? -0.5 : 0);
    }
    return m;
}

static void mixing(Run& r, Rng& g, ThermoPhase& ph, const string& name) {
    size_t n = ph.nSpecies();
    if (ph.elementIndex("O") == npos) return;
    for (int rep = 0; rep < 4; rep++) {
        bool molar = g.p(0.5);
        ThermoBasis basis = molar ? ThermoBasis::molar : ThermoBasis::mass;
        auto need1 = [&](size_t k) { vector<double> v(n); v[k] = 1; return mixOf(ph, v, true).need; };
        vector<double> f(n), o(n);
        for (int t = 0, m = g.i(1, 4); t < m; t++) {
            // mostly sensible fuels and oxidizers
            for (int tr = 0; tr < 20; tr++) { size_t k = g.idx(n); if (need1(k) >= 0 || g.p(0.02)) { f[k] += g.uni(0.01, 1); break; } }
            for (int tr = 0; tr < 60; tr++) { size_t k = g.idx(n); if (need1(k) < 0 || (need1(k) == 0 && tr < 10 && t) || g.p(0.02)) { o[k] += g.uni(0.01, 1); break; } }
        }
        double ff = g.logu(1e-3, 1e3), fo = g.logu(1e-3, 1e3);
        for (auto& v : f) v *= ff;
        for (auto& v : o) v *= fo;
        if (std::accumulate(f.begin(), f.end(), 0.0) <= 0 || std::accumulate(o.begin(), o.end(), 0.0) <= 0) continue;
        Mix F = mixOf(ph, f, molar), O = mixOf(ph, o, molar);
        Composition cf, co;
        for (size_t k = 0; k < n; k++) { if (f[k] > 0) cf[ph.speciesName(k)] = f[k]; if (o[k] > 0) co[ph.speciesName(k)] = o[k]; }
        string sf = compString(g, cf), so = compString(g, co);
        int form = g.i(0, 2);
        double T = ph.temperature(), P = ph.pressure();
        bool bad = F.need < 0 || O.need > 0;
        double scaleN = 0;
        for (size_t e = 0; e < ph.nElements(); e++) scaleN = std::max({scaleN, std::fabs(F.Z[e]), std::fabs(O.Z[e])});
        if (std::fabs(F.need) < 1e-9 * scaleN || std::fabs(O.need) < 1e-9 * scaleN) { r.count("degenerate-mixture"); continue; }
        string ctx = cat(molar ? "molar" : "mass", " fuel {", sf, "} oxidizer {", so, "} form ", form);
        // mixture fraction: plain mass mixing
        double Z = g.p(0.1) ? 0 : g.p(0.1) ? 1 : g.u();
        if (form == 0) ph.setMixtureFraction(Z, f.data(), o.data(), basis);
        else if (form == 1) ph.setMixtureFraction(Z, cf, co, basis);
        else ph.setMixtureFraction(Z, sf, so, basis);
        vector<double> y(n);
        for (size_t k = 0; k < n; k++) y[k] = Z * F.y[k] + (1 - Z) * O.y[k];
        Ref w = fromY(ph, y);
        monitor(r, "set-Z", name, ph, w);
        for (size_t e = 0; e < ph.nElements(); e++) {
            double want = (Z * F.Z[e] + (1 - Z) * O.Z[e]) * ph.atomicWeight(e);
            r.near("Z-elements@" + name, ph.elementalMassFraction(e), want, 1e-11, 1e-14, ctx);
        }
        r.near("Z-T-kept@" + name, ph.temperature(), T, 1e-14);
        r.near("Z-P-kept@" + name, ph.pressure(), P, 1e-8);
        auto getZ = [&](const string& el) {
            int fm = g.i(0, 2);
            if (fm == 0) return ph.mixtureFraction(f.data(), o.data(), basis, el);
            if (fm == 1) return ph.mixtureFraction(cf, co, basis, el);
            return ph.mixtureFraction(sf, so, basis, el);
        };
        auto getPhi = [&]() {
            int fm = g.i(0, 2);
            if (fm == 0) return ph.equivalenceRatio(f.data(), o.data(), basis);
            if (fm == 1) return ph.equivalenceRatio(cf, co, basis);
            return ph.equivalenceRatio(sf, so, basis);
        };
        auto getAFR = [&]() {
            int fm = g.i(0, 2);
            if (fm == 0) return ph.stoichAirFuelRatio(f.data(), o.data(), basis);
            if (fm == 1) return ph.stoichAirFuelRatio(cf, co, basis);
            return ph.stoichAirFuelRatio(sf, so, basis);
        };
        for (size_t e = 0; e < ph.nElements(); e++) {
            double d = F.Z[e] - O.Z[e], sc = std::max(std::fabs(F.Z[e]), std::fabs(O.Z[e]));
            if (std::fabs(d) < 1e-6 * scaleN) continue;
            r.near("Z-by-element@" + name, getZ(ph.elementName(e)), Z, 1e-10, 1e-12 * sc / std::fabs(d), ctx + " " + ph.elementName(e));
        }
        if (bad) {
            bool t1 = false, t2 = false;
            try { getAFR(); } catch (CanteraError&) { t1 = true; }
            try { getZ("Bilger"); } catch (CanteraError&) { t2 = true; }
            r.check("swapped-refused@" + name, t1 && t2, ctx);
            continue;
        }
        double cond = scaleN / std::max(F.need - O.need, 1e-300);
        r.near("Z-Bilger@" + name, getZ("Bilger"), Z, 1e-10, 1e-12 * cond, ctx);
        if (F.need <= 0) continue;
        double afr = F.need / -O.need, tolA = 1e-11 + 1e-13 * scaleN / std::fabs(O.need) + 1e-13 * scaleN / F.need;
        r.near("AFR@" + name, getAFR(), afr, tolA, 0, ctx);
        // oxygen balance at the stoichiometric mixture
        double phi = g.p(0.1) ? 0 : g.p(0.2) ? 1 : g.logu(0.01, 50);
        T = ph.temperature(); P = ph.pressure();
        int fs = g.i(0, 2);
        if (fs == 0) ph.setEquivalenceRatio(phi, f.data(), o.data(), basis);
        else if (fs == 1) ph.setEquivalenceRatio(phi, cf, co, basis);
        else ph.setEquivalenceRatio(phi, sf, so, basis);
        for (size_t k = 0; k < n; k++) y[k] = phi * F.y[k] + afr * O.y[k];
        w = fromY(ph, y);
        vector<double> yg(n);
        ph.getMassFractions(yg.data());
        for (size_t k = 0; k < n; k++) r.near("phi-composition@" + name, yg[k], w.Y[k], 10 * tolA, 1e-300, ctx);
        monitor(r, "set-phi", name, ph, fromY(ph, yg));
        r.near("phi-T-kept@" + name, ph.temperature(), T, 1e-14);
        r.near("phi-P-kept@" + name, ph.pressure(), P, 1e-8);
        double z = phi / (phi + afr);
        double eZ = 1e-12 * cond / std::max(z * (1 - z), 1e-300);
        if (phi > 0) r.near("phi-reported@" + name, getPhi(), phi, 1e-9 + eZ + tolA, 0, ctx);
        else r.near("phi-zero@" + name, getPhi(), 0, 0, 1e-9 * afr * cond, ctx);
        if (phi == 1) {
            Mix S = mixOf(ph, w.Y, false);
            r.near("stoichiometric-balance@" + name, S.need, 0, 0, 1e-11 * scaleN, ctx);
        }
        double req = 0, pres = 0;
        for (size_t e = 0; e < ph.nElements(); e++) {
            double ze = z * F.Z[e] + (1 - z) * O.Z[e];
            string en = ph.elementName(e);
            if (en == "C" || en == "S") req += ze;
            if (en == "H") req += ze / 4;
            if (en == "O") pres += ze / 2;
        }
        if (pres > 1e-9 * scaleN) r.near("phi-elemental@" + name, ph.equivalenceRatio(), req / pres, 1e-9 + eZ * 0 + tolA, 1e-12 * scaleN / pres, ctx);
        r.state(cat("phi", name, int(std::log(phi + 1e-3) * 20), int(afr * 20)));
    }
}

static std::map<string, shared_ptr<ThermoPhase>>& cache() { static std::map<string, shared_ptr<ThermoPhase>> c; return c; }

static void one(Run& r, size_t i, Rng& g) {
    if (g.p(0.45)) {
        string d;
        auto ph = randomPhase(g, d);
        r.describe("generated " + d.substr(0, 3000));
        ph->setState_TP(g.uni(250, 2500), g.logu(1e3, 1e7));
        compositions(r, g, *ph, "generated", GAS);
        mixing(r, g, *ph, "generated");
        return;
    }
    const PhaseSpec& s = g.p(0.3) ? spec(g.pick({"ig-gri30", "ig-h2o2", "ig-ion"})) : catalogue()[g.idx(catalogue().size())];
    r.describe(s.name);
    auto& ph = cache()[s.name];
    if (!ph) ph = newThermo(s.file, s.phase);
    double T, P;
    randomTP(s, g, T, P);
    randomComposition(s, *ph, g);
    if (s.comp != PURE) ph->setState_TP(T, P);
    Comp kind = s.comp;
    // sublattice models constrain their compositions
    if (s.name == "compound") { r.count("compound-lattice-skipped"); return; } // no concentrations
    if (s.name == "lattice" || s.name == "lattice-sofc" || s.name == "compound") kind = FIXED;
    compositions(r, g, *ph, s.name, kind);
    if (s.comp == GAS && s.name.substr(0, 2) == "ig") mixing(r, g, *ph, s.name);
}

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    return drive(r, one);
}
