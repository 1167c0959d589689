// C18: single-phase chemical equilibrium of gases. Conservation, held properties, element
// potentials, second law, agreement of the solvers and independence of the starting composition.
#include "vh.h"
#include "ct.h"
#include "cantera/base/Solution.h"
#include <Eigen/Dense>
using namespace vh;
typedef vector<double> V;

static const vector<string> gri{"H2", "H", "O", "O2", "OH", "H2O", "HO2", "H2O2", "C", "CH", "CH2", "CH3", "CH4", "CO", "CO2", "HCO", "CH2O", "CH3OH", "C2H2", "C2H4", "C2H6", "N", "NH3", "NO", "NO2", "N2O", "HCN", "N2", "AR", "C3H8", "NH", "NH2", "HNO", "CN", "HNCO"};
static shared_ptr<Solution> make(Rng& g, string& name) {
    static std::map<string, shared_ptr<Solution>> cache;
    int k = g.i(0, 9);
    if (k < 3) { static const char* f[] = {"h2o2.yaml", "gri30.yaml", "air.yaml"}; name = f[k]; auto& s = cache[name]; if (!s) s = newSolution(name, "", "none"); return s; }
    vector<string> sp = gri;
    g.shuffle(sp);
    sp.resize(g.i(2, 14));
    string s = "phases:\n- name: gas\n  thermo: ideal-gas\n  elements: [O, H, C, N, Ar]\n  species:\n  - gri30.yaml/species: [";
    if (g.p(0.4)) s.replace(s.find("  elements: [O, H, C, N, Ar]\n"), 29, "  elements: [C, Ar, O, N, H]\n");
    for (size_t i = 0; i < sp.size(); i++) s += (i ? ", " : "") + ("'" + sp[i] + "'");
    s += "]\n";
    AnyMap root = AnyMap::fromYamlString(s);
    name = "subset";
    for (auto& q : sp) name += " " + q;
    return newSolution(root["phases"].asVector<AnyMap>()[0], root);
}
struct S { double T, P, v, u, h, s, g, a; };
static S now(ThermoPhase& t) { S s{t.temperature(), t.pressure(), 1 / t.density(), t.intEnergy_mass(), t.enthalpy_mass(), t.entropy_mass(), t.gibbs_mass(), 0}; s.a = s.u - s.T * s.s; return s; }
static double held(const S& s, char c) { return c == 'T' ? s.T : c == 'P' ? s.P : c == 'V' ? s.v : c == 'U' ? s.u : c == 'H' ? s.h : s.s; }
static V elems(ThermoPhase& t) { // kmol of element per kg
    V e(t.nElements(), 0.0), Y(t.nSpecies());
    t.getMassFractions(Y.data());
    for (size_t k = 0; k < Y.size(); k++) for (size_t m = 0; m < e.size(); m++) e[m] += t.nAtoms(k, m) * Y[k] / t.molecularWeight(k);
    return e;
}

static void one(Run& r, Rng& g) {
    string name;
    auto sol = make(g, name);
    auto& t = *sol->thermo();
    size_t n = t.nSpecies(), ne = t.nElements();
    r.describe(name);
    static const vector<string> pairs{"TP", "TV", "HP", "UV", "SP", "SV", "PT", "VT", "PH", "VU", "PS", "VS"};
    string XY = g.p(0.85) ? pairs[g.i(0, 5)] : g.pick(pairs);
    V X(n);
    int mode = g.i(0, 3);
    for (auto& x : X) x = mode == 0 ? g.u() : mode == 1 ? g.logu(1e-8, 1) : g.p(0.4) ? g.u() : 0;
    if (mode == 3) { std::fill(X.begin(), X.end(), 0.0); for (int j = 0; j < 3; j++) X[g.i(0, int(n) - 1)] += g.u(); }
    double s0 = 0;
    for (double x : X) s0 += x;
    if (s0 <= 0) X[0] = 1;
    bool tp = XY.find('T') != string::npos;
    double T0 = tp ? g.uni(400, 3300) : g.uni(300, 2500), P0 = g.logu(1e3, 1e7);
    t.setState_TPX(T0, P0, X.data());
    S b = now(t);
    V e0 = elems(t), x0(n), st(t.stateSize());
    t.getMoleFractions(x0.data());
    t.saveState(st);
    double scale = 0;
    for (double q : e0) scale = std::max(scale, q);
    // starting compositions whose species span fewer element combinations than all the species do
    auto rank = [&](bool present) {
        vector<size_t> ks;
        for (size_t k = 0; k < n; k++) {
            bool absent = false;
            for (size_t m = 0; m < ne; m++) if (t.nAtoms(k, m) && e0[m] <= 1e-12 * scale) absent = true;
            if (!absent && (!present || x0[k] > 0)) ks.push_back(k);
        }
        Eigen::MatrixXd N(ne, ks.size());
        for (size_t i = 0; i < ks.size(); i++) for (size_t m = 0; m < ne; m++) N(m, i) = t.nAtoms(ks[i], m);
        return int(ks.empty() ? 0 : Eigen::FullPivLU<Eigen::MatrixXd>(N).rank());
    };
    string deg = rank(true) < rank(false) ? "-degenerate" : "";
    if (!deg.empty()) r.count("degenerate-start");
    // species among which no reaction is possible
    size_t nIncluded = 0;
    for (size_t k = 0; k < n; k++) {
        bool absent = false;
        for (size_t m = 0; m < ne; m++) if (t.nAtoms(k, m) && e0[m] <= 1e-12 * scale) absent = true;
        nIncluded += !absent;
    }
    size_t nAbundant = 0;
    for (double q : e0) nAbundant += q > 1e-12 * scale;
    string inert = nIncluded <= size_t(rank(false)) ? "-no-reaction" : rank(false) < int(nAbundant) ? "-dependent-elements" : "";
    if (!inert.empty()) r.count("no-reaction-possible");
    static const vector<string> solvers{"element_potential", "gibbs", "vcs", "auto"};
    struct R { string sv; V X; S s; };
    vector<R> done;
    string d0 = cat(XY, " T ", T0, " P ", P0);
    double Rg = GasConstant / t.meanMolecularWeight();
    for (auto& sv : solvers) {
        t.restoreState(st);
        double rtol = g.p(0.7) ? 1e-9 : g.logu(1e-11, 1e-8);
        string at = cat("@", sv, sv == "vcs" ? deg : sv == "gibbs" ? "" : inert.empty() && sv == "auto" ? deg : inert, ":", XY.find_first_of("TPVHUS") == 0 && std::find(pairs.begin(), pairs.begin() + 6, XY) != pairs.begin() + 6 ? XY : string(1, XY[1]) + XY[0]);
        string d = cat(d0, " ", name);
        try { t.equilibrate(XY, sv, rtol, g.p(0.8) ? 1000 : 5000, g.p(0.8) ? 100 : 300, sv == "element_potential" && g.p(0.3) ? (g.p(0.5) ? -1 : 1) : 0); }
        catch (CanteraError& err) { r.count("failed-" + sv); r.near("failure-reported" + at, 0, 0, 0); continue; }
        r.count("converged-" + sv);
        S f = now(t);
        V x(n), mu(n);
        t.getMoleFractions(x.data());
        bool fin = std::isfinite(f.T) && f.T > 0;
        for (double q : x) fin = fin && std::isfinite(q) && q >= -1e-14;
        r.check("finite" + at, fin, d);
        if (!fin) continue;
        // elements
        V e1 = elems(t);
        for (size_t m = 0; m < ne; m++) r.near("elements" + at, e1[m], e0[m], 2e-7, 2e-7 * scale, cat(d, " ", t.elementName(m)));
        // held properties
        for (char c : XY) {
            double tol = c == 'H' || c == 'U' ? 2e-6 * Rg * std::max(1000.0, b.T) + 1e-7 * std::fabs(held(b, c)) : c == 'S' ? 4e-6 * Rg + 1e-7 * std::fabs(b.s) : 1e-8 * std::fabs(held(b, c));
            r.near("held" + at, held(f, c), held(b, c), 0, tol, cat(d, " ", c));
        }
        // second law
        double fs = 1e-7 * Rg * std::max(f.T, b.T);
        string k2(XY);
        std::sort(k2.begin(), k2.end());
        if (k2 == "PT") r.check("gibbs-decreases" + at, f.g <= b.g + fs + 1e-9 * std::fabs(b.g), cat(d, " ", b.g, " ", f.g));
        if (k2 == "TV") r.check("helmholtz-decreases" + at, f.a <= b.a + fs + 1e-9 * std::fabs(b.a), cat(d, " ", b.a, " ", f.a));
        if (k2 == "HP" || k2 == "UV") r.check("entropy-increases" + at, f.s >= b.s - 1e-5 * Rg - 1e-7 * std::fabs(b.s), cat(d, " ", b.s, " ", f.s));
        if (k2 == "PS") r.check("enthalpy-decreases" + at, f.h <= b.h + 1e-6 * Rg * std::max(f.T, b.T) + 1e-8 * std::fabs(b.h), cat(d, " ", b.h, " ", f.h));
        if (k2 == "SV") r.check("energy-decreases" + at, f.u <= b.u + 1e-6 * Rg * std::max(f.T, b.T) + 1e-8 * std::fabs(b.u), cat(d, " ", b.u, " ", f.u));
        // element potentials: weighted least squares over the major species, then all the others
        t.getChemPotentials(mu.data());
        double RT = GasConstant * f.T;
        vector<size_t> have;
        for (size_t m = 0; m < ne; m++) if (e0[m] > 1e-12 * scale) have.push_back(m);
        vector<size_t> sp;
        for (size_t k = 0; k < n; k++) {
            bool absent = false;
            for (size_t m = 0; m < ne; m++) if (t.nAtoms(k, m) && e0[m] <= 1e-12 * scale) absent = true;
            if (!absent && x[k] > 1e-13) sp.push_back(k);
        }
        Eigen::MatrixXd A(sp.size(), have.size());
        Eigen::VectorXd y(sp.size());
        for (size_t i = 0; i < sp.size(); i++) {
            double w = std::sqrt(x[sp[i]]);
            for (size_t j = 0; j < have.size(); j++) A(i, j) = w * t.nAtoms(sp[i], have[j]);
            y(i) = w * mu[sp[i]] / RT;
        }
        Eigen::VectorXd lam = A.completeOrthogonalDecomposition().solve(y);
        for (size_t i = 0; i < sp.size(); i++) {
            double q = 0, mag = std::fabs(mu[sp[i]] / RT);
            for (size_t j = 0; j < have.size(); j++) { q += t.nAtoms(sp[i], have[j]) * lam(j); mag += t.nAtoms(sp[i], have[j]) * std::fabs(lam(j)); }
            double xx = x[sp[i]];
            double tol = xx > 1e-4 ? 1e-6 : xx > 1e-8 ? 1e-4 : 2e-2;
            r.near(cat(xx > 1e-4 ? "potential-major" : xx > 1e-8 ? "potential-minor" : "potential-trace", at), mu[sp[i]] / RT, q, 0, tol + 1e-9 * mag, cat(d, " ", t.speciesName(sp[i]), " X ", xx, " T ", f.T));
        }
        // no stoichiometrically allowed change lowers the Gibbs energy at this T and P
        if (n > have.size() && sp.size() > 1) {
            Eigen::MatrixXd N(ne, sp.size());
            for (size_t i = 0; i < sp.size(); i++) for (size_t m = 0; m < ne; m++) N(m, i) = t.nAtoms(sp[i], m);
            Eigen::FullPivLU<Eigen::MatrixXd> lu(N);
            Eigen::MatrixXd K = lu.kernel();
            if (lu.dimensionOfKernel() > 0) for (int trial = 0; trial < 4; trial++) {
                Eigen::VectorXd nu = Eigen::VectorXd::Zero(sp.size());
                if (trial == 0) nu = K.col(g.i(0, int(K.cols()) - 1)); else for (int c = 0; c < K.cols(); c++) nu += g.uni(-1, 1) * K.col(c);
                double step = 1e300;
                for (size_t i = 0; i < sp.size(); i++) if (nu(i)) step = std::min(step, x[sp[i]] / std::fabs(nu(i)));
                step *= g.uni(0.05, 0.5);
                for (int sg = -1; sg <= 1; sg += 2) {
                    double G0 = 0, G1 = 0, dn = 0, mag = 0;
                    for (size_t i = 0; i < sp.size(); i++) dn += sg * step * nu(i);
                    for (size_t k = 0; k < n; k++) if (x[k] > 0) {
                        size_t i = std::find(sp.begin(), sp.end(), k) - sp.begin();
                        double nn = x[k] + (i < sp.size() ? sg * step * nu(i) : 0), m0 = mu[k] / RT, m1 = m0 + std::log(nn / x[k] / (1 + dn));
                        G0 += x[k] * m0; G1 += nn * m1; mag += std::fabs(nn * m1);
                    }
                    r.check("no-better-composition" + at, G1 >= G0 - 1e-7 * step * nu.cwiseAbs().sum() - 3e-15 * mag, cat(d, " dG ", G1 - G0, " step ", step));
                }
            }
        }
        done.push_back({sv, x, f});
        // equilibrating again changes nothing
        if (g.p(0.3)) {
            try {
                t.equilibrate(XY, sv);
                V x2(n);
                t.getMoleFractions(x2.data());
                for (size_t k = 0; k < n; k++) r.near("idempotent" + at, x2[k], x[k], 2e-5, 1e-7, cat(d, " ", t.speciesName(k)));
                r.near("idempotent-T" + at, t.temperature(), f.T, 1e-6, 0, d);
            } catch (CanteraError&) { r.count("second-failed-" + sv); }
        }
    }
    // agreement
    for (size_t i = 1; i < done.size(); i++) {
        auto &a = done[0], &c = done[i];
        bool stuck = false; // species that one of the solvers left at exactly nothing
        for (size_t k = 0; k < n; k++) stuck = stuck || (c.X[k] == 0 && a.X[k] > 1e-12) || (a.X[k] == 0 && c.X[k] > 1e-12);
        string at = cat("@", a.sv, "-", c.sv, stuck && (a.sv == "vcs" || c.sv == "vcs" || c.sv == "auto") ? deg : "", inert);
        r.near("same-T" + at, c.s.T, a.s.T, 1e-5, 0, cat(d0, " ", name));
        for (size_t k = 0; k < n; k++) r.near("same-X" + at, c.X[k], a.X[k], 2e-4, 2e-6, cat(d0, " ", name, " ", t.speciesName(k)));
    }
    // from another composition of the same elements, temperature and pressure
    if (!done.empty() && (XY == "TP" || XY == "PT")) {
        V mixed(n), Y0(n), Yf(n);
        t.restoreState(st);
        t.getMassFractions(Y0.data());
        t.setState_TPX(T0, P0, done[0].X.data());
        t.getMassFractions(Yf.data());
        double f = g.u();
        for (size_t k = 0; k < n; k++) mixed[k] = f * Y0[k] + (1 - f) * Yf[k];
        t.setState_TPY(T0, P0, mixed.data());
        string sv = g.pick(solvers);
        try {
            t.equilibrate(XY, sv);
            V x2(n);
            t.getMoleFractions(x2.data());
            for (size_t k = 0; k < n; k++) r.near("same-from-elsewhere@" + sv + inert, x2[k], done[0].X[k], 2e-4, 2e-6, cat(d0, " ", name, " ", t.speciesName(k)));
        } catch (CanteraError&) { r.count("elsewhere-failed"); }
    }
    if (!done.empty()) r.state(vh::hashv(done[0].X));
    // bad requests are refused
    if (g.p(0.1)) {
        t.restoreState(st);
        for (auto q : {"XX", "TH", "T", ""}) { bool threw = false; try { t.equilibrate(q, "element_potential"); } catch (CanteraError&) { threw = true; } r.check("bad-pair-refused", threw, q); }
        bool threw = false;
        try { t.equilibrate("TP", "no-such-solver"); } catch (CanteraError&) { threw = true; }
        r.check("bad-solver-refused", threw);
    }
}
int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    suppress_thermo_warnings();
    return drive(r, [](Run& r, size_t, Rng& g) { one(r, g); });
}
