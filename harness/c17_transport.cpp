// C17: transport properties. Mixing rules, species coefficients and fluxes recomputed from the
// definitions; Stefan-Maxwell equations; symmetry; scaling with pressure; species order; history.
#include "vh.h"
#include "ct.h"
#include "cantera/transport/Transport.h"
#include "cantera/transport/TransportData.h"
#include "cantera/transport/TransportFactory.h"
#include "cantera/transport/DustyGasTransport.h"
#include "cantera/base/Solution.h"
using namespace vh;
typedef vector<double> V;

static const vector<string> gri{"H2", "H", "O", "O2", "OH", "H2O", "HO2", "H2O2", "C", "CH", "CH2", "CH3", "CH4", "CO", "CO2", "HCO", "CH2O", "CH3OH", "C2H2", "C2H4", "C2H6", "N", "NH3", "NO", "NO2", "N2O", "HCN", "N2", "AR", "C3H8"};
static string text(const vector<string>& sp, const string& model) {
    string s = "phases:\n- name: gas\n  thermo: ideal-gas\n  elements: [O, H, C, N, Ar]\n  species:\n  - gri30.yaml/species: [";
    for (size_t i = 0; i < sp.size(); i++) s += (i ? ", " : "") + ("'" + sp[i] + "'");
    return s + "]\n  transport: " + model + "\n";
}
static shared_ptr<Solution> make(const vector<string>& sp, const string& model) {
    AnyMap root = AnyMap::fromYamlString(text(sp, model));
    return newSolution(root["phases"].asVector<AnyMap>()[0], root);
}
static double om11(double t, double d2) { return 1.06036 / std::pow(t, 0.1561) + 0.193 * std::exp(-0.47635 * t) + 1.03587 * std::exp(-1.52996 * t) + 1.76474 * std::exp(-3.89411 * t) + 0.19 * d2 / t; }
static double om22(double t, double d2) { return 1.16145 * std::pow(t, -0.14874) + 0.52487 * std::exp(-0.7732 * t) + 2.16178 * std::exp(-2.43787 * t) + 0.2 * d2 / t; }
static double sum(const V& a) { double s = 0; for (double x : a) s += x; return s; }
static double amax(const V& a) { double s = 0; for (double x : a) s = std::max(s, std::fabs(x)); return s; }

struct All { double mu, lam; V sv, mix, mole, mass, bin, mob, td; };
static All eval(Transport& t, size_t n, bool unity = false) {
    All a;
    a.mu = t.viscosity(); a.lam = t.thermalConductivity();
    a.sv.resize(n); t.getSpeciesViscosities(a.sv.data());
    a.bin.resize(n * n); t.getBinaryDiffCoeffs(n, a.bin.data());
    a.mix.resize(n); t.getMixDiffCoeffs(a.mix.data());
    if (!unity) { a.mole.resize(n); t.getMixDiffCoeffsMole(a.mole.data()); }
    a.mass.resize(n); t.getMixDiffCoeffsMass(a.mass.data());
    return a;
}
static void randX(Rng& g, V& X) {
    int mode = g.i(0, 4);
    for (auto& x : X) x = mode == 0 ? g.u() : mode == 1 ? g.logu(1e-6, 1) : mode == 2 ? (g.p(0.5) ? 0 : g.u()) : mode == 3 ? 1 : g.logu(1e-3, 1);
    if (sum(X) <= 0) X[g.i(0, int(X.size()) - 1)] = 1;
    if (mode == 3) { size_t k = g.i(0, int(X.size()) - 1); for (auto& x : X) x = 1e-3 * g.u(); X[k] = 1; }
    double s = sum(X);
    for (auto& x : X) x /= s;
}

static void ideal(Run& r, Rng& g) {
    static const vector<string> models{"mixture-averaged", "multicomponent", "mixture-averaged-CK", "multicomponent-CK", "unity-Lewis-number"};
    string model = g.pick(models);
    bool multi = model.find("multi") == 0, unity = model[0] == 'u', ck = model.find("CK") != string::npos;
    vector<string> sp = gri;
    g.shuffle(sp);
    sp.resize(g.i(1, 100) <= 8 ? 1 : g.i(2, 7));
    size_t n = sp.size();
    r.describe(cat(model, " ", n, " ", sp[0]));
    string at = "@" + model;
    auto sol = make(sp, model);
    auto& th = *sol->thermo();
    auto& tr = *sol->transport();
    r.check("model-name" + at, tr.transportModel() == model && tr.CKMode() == ck);
    const V mw = th.molecularWeights();
    vector<string> sh = sp;
    g.shuffle(sh);
    auto sol2 = make(sh, model);
    int ns = g.i(2, 4);
    double T = 0, P = 0, Tprev = 500;
    V X(n);
    for (int s = 0; s < ns; s++) {
        // change one or several of temperature, pressure and composition
        double Told = T;
        if (!s || g.p(0.6)) T = s > 1 && g.p(0.4) ? Tprev : g.uni(310, 3000);
        Tprev = Told;
        if (!s || g.p(0.6)) P = g.logu(1e2, 1e7);
        if (!s || g.p(0.6)) randX(g, X);
        th.setState_TPX(T, P, X.data());
        V xs(n), y(n);
        th.getMoleFractions(xs.data()); th.getMassFractions(y.data());
        string d = cat("T ", T, " P ", P, " X0 ", xs[0]);
        double W = th.meanMolecularWeight(), rho = th.density();
        // fluxes first, so that nothing has refreshed the object
        bool fluxFirst = g.p(0.5) && n > 1;
        V gx(n), gT{g.p(0.5) ? 0.0 : g.uni(-1e3, 1e3)}, J(n);
        for (auto& q : gx) q = g.uni(-1, 1);
        { double m = sum(gx) / n; for (auto& q : gx) q -= m; }
        if (fluxFirst && !unity) { tr.getSpeciesFluxes(1, gT.data(), n, gx.data(), n, J.data()); }
        All a = eval(tr, n, unity);
        r.check("positive" + at, a.mu > 0 && a.lam > 0 && std::isfinite(a.mu) && std::isfinite(a.lam), cat(d, " ", a.mu, " ", a.lam));
        V x = xs; // floored, as documented
        for (auto& q : x) q = std::max(q, 1e-20);
        for (size_t k = 0; k < n; k++) {
            r.check("positive-species" + at, a.sv[k] > 0 && std::isfinite(a.sv[k]), d);
            r.check("positive-mix-diff" + at, a.mix[k] > 0 && std::isfinite(a.mix[k]), cat(d, " ", sp[k], " ", a.mix[k]));
        }
        { // a fresh object gives the same
            auto fr = newTransport(sol->thermo(), model);
            double fl = fr->thermalConductivity();
            r.near("fresh-conductivity" + at, a.lam, fl, 1e-11, 0, d);
            r.near("fresh-viscosity" + at, a.mu, fr->viscosity(), 1e-11, 0, d);
            V q(n), w(n);
            fr->getMixDiffCoeffs(q.data());
            for (size_t k = 0; k < n; k++) r.near("fresh-mix-diff" + at, a.mix[k], q[k], 1e-11, 0, d);
            if (!unity) { tr.getThermalDiffCoeffs(w.data()); fr->getThermalDiffCoeffs(q.data()); for (size_t k = 0; k < n; k++) r.near("fresh-thermal-diff" + at, w[k], q[k], 1e-9, 1e-11 * amax(q), d); }
            // as long as only other things were asked at the temperature in between
            if (n > 1 && g.p(0.5)) { th.setState_TPX(T * g.uni(0.8, 1.2), P, X.data()); V b2(n * n); tr.getBinaryDiffCoeffs(n, b2.data()); if (g.p(0.5)) tr.viscosity();
                th.setState_TPX(T, P, X.data()); r.near("returned-conductivity" + at, tr.thermalConductivity(), fl, 1e-11, 0, d); }
        }
        // Wilke
        double mu = 0;
        for (size_t k = 0; k < n; k++) {
            double den = 0;
            for (size_t j = 0; j < n; j++) den += x[j] * std::pow(1 + std::sqrt(a.sv[k] / a.sv[j] * std::sqrt(mw[j] / mw[k])), 2) / std::sqrt(8 * (1 + mw[k] / mw[j]));
            mu += x[k] * a.sv[k] / den;
        }
        r.near("wilke" + at, a.mu, mu, 1e-10, 0, d);
        // binary coefficients
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
            double D = a.bin[n * j + i];
            r.check("binary-positive" + at, D > 0 && std::isfinite(D), d);
            r.near("binary-symmetric" + at, D, a.bin[n * i + j], 1e-12, 0, d);
        }
        // mixture-averaged coefficients
        if (!unity) for (size_t k = 0; k < n; k++) {
            if (n == 1) { r.near("mix-diff-single" + at, a.mix[k], a.bin[0], 1e-12, 0); r.near("mix-diff-single" + at, a.mole[k], a.bin[0], 1e-12, 0); r.near("mix-diff-single" + at, a.mass[k], a.bin[0], 1e-12, 0); continue; }
            double s1 = 0, s2 = 0, ym = 0, xm = 0;
            for (size_t j = 0; j < n; j++) if (j != k) { s1 += x[j] / a.bin[n * j + k]; s2 += x[j] * mw[j] / a.bin[n * j + k]; ym += x[j] * mw[j]; xm += x[j]; }
            // differences 1-X and W-X*M lose digits near a pure species
            r.near("mix-diff" + at, a.mix[k], ym / (W * s1), 1e-10, 0, d + sp[k]);
            r.near("mix-diff-mole" + at, a.mole[k], xm / s1, 1e-10, 0, d + sp[k]);
            r.near("mix-diff-mass" + at, a.mass[k], 1 / (s1 + s2 * x[k] / ym), 1e-10, 0, d + sp[k]);
        } else for (size_t k = 0; k < n; k++) {
            r.near("unity-lewis" + at, a.mix[k], a.lam / (rho * th.cp_mass()), 1e-12, 0, d);
            r.near("unity-lewis-mass" + at, a.mass[k], a.lam / (rho * th.cp_mass()), 1e-12, 0, d);
        }
        // conductivity
        if (!multi) {
            double s1 = 0, s2 = 0;
            for (size_t k = 0; k < n; k++) {
                V c(5, 0.0); tr.getConductivityPolynomial(k, c.data());
                double l = std::log(T), lam = ck ? std::exp(c[0] + l * (c[1] + l * (c[2] + l * c[3]))) : std::sqrt(T) * (c[0] + l * (c[1] + l * (c[2] + l * (c[3] + l * c[4]))));
                s1 += x[k] * lam; s2 += x[k] / lam;
                r.check("positive-conductivity" + at, lam > 0, d);
            }
            r.near("conductivity-rule" + at, a.lam, 0.5 * (s1 + 1 / s2), 1e-9, 0, d);
        }
        for (size_t k = 0; k < n; k++) {
            V c(5, 0.0); tr.getViscosityPolynomial(k, c.data());
            double l = std::log(T), q = ck ? std::exp(c[0] + l * (c[1] + l * (c[2] + l * c[3]))) : std::pow(std::pow(T, 0.25) * (c[0] + l * (c[1] + l * (c[2] + l * (c[3] + l * c[4])))), 2);
            r.near("species-viscosity-fit" + at, a.sv[k], q, 1e-9, 0, d);
            // Chapman-Enskog with Neufeld's collision integral
            auto tk = std::dynamic_pointer_cast<GasTransportData>(th.species(k)->transport);
            double m = mw[k] / Avogadro, d2 = 0.5 * std::pow(tk->dipole, 2) / (4 * Pi * epsilon_0 * tk->well_depth * std::pow(tk->diameter, 3));
            double ce = 5.0 / 16 * std::sqrt(Pi * m * Boltzmann * T) / (Pi * tk->diameter * tk->diameter * om22(Boltzmann * T / tk->well_depth, d2 * d2));
            r.near("chapman-enskog-viscosity" + at, a.sv[k], ce, d2 > 0.01 ? 0.08 : 0.03, 0, d + sp[k]);
            for (size_t j = 0; j <= k; j++) {
                auto tj = std::dynamic_pointer_cast<GasTransportData>(th.species(j)->transport);
                double eps = std::sqrt(tk->well_depth * tj->well_depth), sg = 0.5 * (tk->diameter + tj->diameter), red = mw[k] * mw[j] / (mw[k] + mw[j]) / Avogadro;
                bool pk = tk->dipole > 0, pj = tj->dipole > 0;
                if (pk != pj) {
                    auto& p = pk ? *tk : *tj; auto& q2 = pk ? *tj : *tk;
                    double al = q2.polarizability / std::pow(q2.diameter, 3), mu2 = p.dipole * p.dipole / (4 * Pi * epsilon_0 * std::pow(p.diameter, 3) * p.well_depth);
                    double xi = 1 + 0.25 * al * mu2 * std::sqrt(p.well_depth / q2.well_depth);
                    eps *= xi * xi; sg *= std::pow(xi, -1.0 / 6);
                }
                double dd = 0.5 * tk->dipole * tj->dipole / (4 * Pi * epsilon_0 * eps * sg * sg * sg);
                double D = 3.0 / 16 * std::sqrt(2 * Pi / red) * std::pow(Boltzmann * T, 1.5) / (Pi * sg * sg * om11(Boltzmann * T / eps, dd * dd)) / P;
                r.near("chapman-enskog-diffusion" + at, a.bin[n * j + k], D, dd > 0.01 ? 0.1 : 0.06, 0, d + sp[k] + " " + sp[j]);
                if (multi && j == k) continue; // overwritten by another estimate of self diffusion (known finding of C03)
                V b(5, 0.0); tr.getBinDiffusivityPolynomial(k, j, b.data());
                double fit = ck ? std::exp(b[0] + l * (b[1] + l * (b[2] + l * b[3]))) : std::pow(T, 1.5) * (b[0] + l * (b[1] + l * (b[2] + l * (b[3] + l * b[4]))));
                r.near("binary-fit" + at, a.bin[n * j + k], fit / P, 1e-9, 0, d);
            }
        }
        if (!unity) { // mobilities
            V mob(n);
            bool has = true;
            try { tr.getMobilities(mob.data()); } catch (NotImplementedError&) { has = false; }
            if (has) for (size_t k = 0; k < n; k++) r.near("mobility" + at, mob[k], a.mix[k] * ElectronCharge / (Boltzmann * T), 1e-10, 0, d);
        }
        // fluxes
        if (n > 1 && !unity) {
            V J2(n), J3(n), z(n, 0.0);
            double zT = 0;
            if (!fluxFirst) tr.getSpeciesFluxes(1, gT.data(), n, gx.data(), n, J.data());
            double sc = 0;
            for (size_t k = 0; k < n; k++) sc = std::max(sc, rho * mw[k] / W * amax(a.mix) * amax(gx));
            tr.getSpeciesFluxes(1, gT.data(), n, gx.data(), n, J2.data());
            for (size_t k = 0; k < n; k++) r.near("flux-first-or-last" + at, J[k], J2[k], 1e-10, 1e-12 * sc, cat(d, " first ", fluxFirst));
            r.near("flux-sum" + at, sum(J2), 0, 0, 1e-8 * (sc + amax(J2)), d);
            tr.getSpeciesFluxes(1, &zT, n, z.data(), n, J3.data());
            for (size_t k = 0; k < n; k++) r.near("no-gradient-no-flux" + at, J3[k], 0, 0, 1e-14 * sc);
            V Jx(n);
            tr.getSpeciesFluxes(1, &zT, n, gx.data(), n, Jx.data());
            // two directions at once are two separate problems
            V G2(2 * n), F2(2 * n), T2{gT[0], g.p(0.5) ? 0.0 : g.uni(-100, 100)};
            for (size_t k = 0; k < n; k++) { G2[k] = gx[k]; G2[n + k] = gx[(k + 1) % n]; }
            tr.getSpeciesFluxes(2, T2.data(), n, G2.data(), n, F2.data());
            V Jb(n);
            tr.getSpeciesFluxes(1, &T2[1], n, G2.data() + n, n, Jb.data());
            bool positive = true;
            for (double q : xs) positive = positive && q > 1e-10;
            if (positive) for (size_t k = 0; k < n; k++) {
                r.near("flux-directions" + at, F2[k], J2[k], 1e-6, 1e-8 * sc, d);
                r.near("flux-directions" + at, F2[n + k], Jb[k], 1e-6, 1e-8 * sc, d);
            }
            if (!multi) {
                double s0 = 0;
                V w(n);
                for (size_t k = 0; k < n; k++) { w[k] = -rho / W * mw[k] * a.mix[k] * gx[k]; s0 += w[k]; }
                for (size_t k = 0; k < n; k++) r.near("mix-flux" + at, J2[k], w[k] - y[k] * s0, 1e-9, 1e-12 * sc, d);
            } else {
                V dt(n);
                tr.getThermalDiffCoeffs(dt.data());
                r.near("thermal-diffusion-sum" + at, sum(dt), 0, 0, 1e-8 * amax(dt) + 1e-20, d);
                for (size_t k = 0; k < n; k++) r.near("soret-flux" + at, J2[k] - Jx[k], -dt[k] * gT[0] / T, 1e-6, 1e-9 * sc + 1e-12 * amax(dt) * std::fabs(gT[0] / T), d);
                if (positive) {
                    // Stefan-Maxwell
                    for (size_t k = 0; k < n; k++) {
                        double s0 = 0, m0 = std::fabs(gx[k]);
                        for (size_t j = 0; j < n; j++) if (j != k) { double q = xs[k] * xs[j] / a.bin[n * j + k]; double vj = Jx[j] / (rho * y[j]), vk = Jx[k] / (rho * y[k]); s0 += q * (vj - vk); m0 += q * (std::fabs(vj) + std::fabs(vk)); }
                        r.near("stefan-maxwell" + at, s0, gx[k], 0, 1e-8 * m0, cat(d, " ", sp[k]));
                    }
                    V M(n * n);
                    tr.getMultiDiffCoeffs(n, M.data());
                    for (size_t k = 0; k < n; k++) {
                        double f = 0, m0 = 0;
                        for (size_t j = 0; j < n; j++) { double q = rho / (W * W) * mw[k] * mw[j] * M[n * j + k] * gx[j]; f += q; m0 += std::fabs(q); }
                        r.near("multi-diff-flux" + at, f, Jx[k], 1e-6, 1e-7 * m0 + 1e-9 * sc, cat(d, " ", sp[k]));
                        r.near("multi-diff-diagonal" + at, M[n * k + k], 0, 0, 0);
                    }
                    // the inverse overwrote the matrix: the conductivity is solved again
                    r.near("conductivity-after-multi" + at, tr.thermalConductivity(), a.lam, 1e-9, 0, d);
                    if (n == 2) { r.near("binary-limit" + at, M[n * 1 + 0], a.bin[1], 1e-6, 0, d); r.near("binary-limit" + at, M[n * 0 + 1], a.bin[1], 1e-6, 0, d); }
                }
                // between two states
                V s1, s2, X2(n), F(n), Xm(n), gm(n), Fm(n);
                randX(g, X2);
                double Tb = g.p(0.5) ? T : T * g.uni(0.9, 1.1), Pb = P, del = g.logu(1e-4, 1e-1);
                size_t ss = n + 2;
                s1.resize(ss); s2.resize(ss);
                th.saveState(ss, s1.data());
                th.setState_TPX(Tb, Pb, X2.data());
                th.saveState(ss, s2.data());
                tr.getMassFluxes(s1.data(), s2.data(), del, F.data());
                for (size_t k = 0; k < n; k++) { Xm[k] = 0.5 * (xs[k] + X2[k]); gm[k] = (X2[k] - xs[k]) / del; }
                th.setState_TPX(0.5 * (T + Tb), P, Xm.data());
                double gTm = (Tb - T) / del;
                auto fresh = newTransport(sol->thermo(), model);
                fresh->getSpeciesFluxes(1, &gTm, n, gm.data(), n, Fm.data());
                double sc2 = amax(Fm);
                bool pos = true;
                for (double q : Xm) pos = pos && q > 1e-9;
                r.near("mass-flux-sum" + at, sum(F), 0, 0, 1e-12 * rho * amax(a.mix) / del + 1e-7 * sc2 + 1e-9 * amax(gm) * sc, d);
                if (pos) for (size_t k = 0; k < n; k++) r.near("mass-flux-between-states" + at, F[k], Fm[k], 1e-5, 1e-6 * sc2, cat(d, " ", Tb));
                tr.getMolarFluxes(s1.data(), s2.data(), del, Fm.data());
                for (size_t k = 0; k < n; k++) r.near("molar-flux" + at, Fm[k] * mw[k], F[k], 1e-9, 1e-12 * sc2);
                th.setState_TPX(T, P, X.data());
            }
        }
        // pressure scaling, composition independence of the binary coefficients
        double P2 = P * g.logu(1e-2, 1e2);
        th.setState_TPX(T, P2, X.data());
        All b = eval(tr, n, unity);
        r.near("viscosity-pressure" + at, b.mu, a.mu, 1e-10, 0, d);
        r.near("conductivity-pressure" + at, b.lam, a.lam, 1e-8, 0, d);
        for (size_t k = 0; k < n * n; k++) r.near("binary-pressure" + at, b.bin[k] * P2, a.bin[k] * P, 1e-10, 0, d);
        for (size_t k = 0; k < n; k++) r.near("mix-pressure" + at, b.mix[k] * P2, a.mix[k] * P, 1e-8, 0, d);
        V Xo(n);
        randX(g, Xo);
        th.setState_TPX(T, P, Xo.data());
        b.bin.assign(n * n, 0); tr.getBinaryDiffCoeffs(n, b.bin.data());
        for (size_t k = 0; k < n * n; k++) r.near("binary-composition" + at, b.bin[k], a.bin[k], 1e-12, 0, d);
        // the other order of species
        auto& t2 = *sol2->thermo();
        V Y2(n);
        for (size_t k = 0; k < n; k++) Y2[k] = xs[th.speciesIndex(sh[k])];
        t2.setState_TPX(T, P, Y2.data());
        All c = eval(*sol2->transport(), n, unity);
        r.near("order-viscosity" + at, c.mu, a.mu, 1e-7, 0, d);
        r.near("order-conductivity" + at, c.lam, a.lam, 1e-6, 0, d);
        for (size_t k = 0; k < n; k++) {
            size_t q = th.speciesIndex(sh[k]);
            r.near("order-species-viscosity" + at, c.sv[k], a.sv[q], 1e-7, 0, d);
            if (xs[q] < 0.999) r.near("order-mix-diff" + at, c.mix[k], a.mix[q], 1e-6, 0, d);
            for (size_t j = 0; j < n; j++) r.near("order-binary" + at, c.bin[n * j + k], a.bin[n * th.speciesIndex(sh[j]) + q], 1e-6, 0, d);
        }
        // pure limit
        size_t k = g.i(0, int(n) - 1);
        V p1(n, 0.0);
        p1[k] = 1;
        th.setState_TPX(T, P, p1.data());
        r.near("pure-viscosity" + at, tr.viscosity(), a.sv[k], 1e-9, 0, d + sp[k]);
        double lp = tr.thermalConductivity();
        r.check("pure-conductivity-positive" + at, lp > 0 && std::isfinite(lp), d);
        p1[k] = 1 - 1e-7; for (size_t j = 0; j < n; j++) if (j != k && n > 1) p1[j] = 1e-7 / (n - 1);
        th.setState_TPX(T, P, p1.data());
        r.near("pure-limit-viscosity" + at, tr.viscosity(), a.sv[k], 1e-4, 0, d);
        r.near("pure-limit-conductivity" + at, tr.thermalConductivity(), lp, 1e-4, 0, d);
        if (n > 1) {
            auto one = make({sp[k]}, model);
            one->thermo()->setState_TP(T, P);
            r.near("alone-viscosity" + at, one->transport()->viscosity(), a.sv[k], ck ? 6e-2 : 1.5e-2, 0, d);
            r.near("alone-conductivity" + at, one->transport()->thermalConductivity(), lp, ck ? 1e-1 : 3e-2, 0, d + sp[k]);
        }
        r.state(vh::hashv(V{a.mu, a.lam, T, P}));
    }
    // replacing a fit by itself changes nothing, by a multiple of itself scales the value
    if (!unity && !ck && g.p(0.5)) {
        th.setState_TPX(T, P, X.data());
        All a = eval(tr, n);
        size_t k = g.i(0, int(n) - 1), j = g.i(0, int(n) - 1);
        V c(5);
        tr.getViscosityPolynomial(k, c.data()); tr.setViscosityPolynomial(k, c.data());
        tr.getConductivityPolynomial(k, c.data()); tr.setConductivityPolynomial(k, c.data());
        tr.getBinDiffusivityPolynomial(k, j, c.data()); tr.setBinDiffusivityPolynomial(k, j, c.data());
        All b = eval(tr, n);
        r.near("same-polynomial" + at, b.mu, a.mu, 1e-13, 0); r.near("same-polynomial" + at, b.lam, a.lam, 1e-9, 0);
        for (size_t q = 0; q < n * n; q++) if (!multi || q % (n + 1)) r.near("same-polynomial" + at, b.bin[q], a.bin[q], 1e-13, 0);
        double f = g.logu(0.5, 2);
        tr.getViscosityPolynomial(k, c.data()); for (auto& q : c) q *= std::sqrt(f); tr.setViscosityPolynomial(k, c.data());
        tr.getBinDiffusivityPolynomial(k, j, c.data()); for (auto& q : c) q *= f; tr.setBinDiffusivityPolynomial(k, j, c.data());
        b = eval(tr, n);
        for (size_t q = 0; q < n; q++) {
            r.near("scaled-viscosity" + at, b.sv[q], a.sv[q] * (q == k ? f : 1), 1e-12, 0);
            for (size_t p = 0; p < n; p++) if (!multi || p != q) r.near("scaled-diffusion" + at, b.bin[n * p + q], a.bin[n * p + q] * ((p == k && q == j) || (p == j && q == k) ? f : 1), 1e-12, 0);
        }
    }
}

static void dusty(Run& r, Rng& g) {
    vector<string> sp = gri;
    g.shuffle(sp);
    sp.resize(g.i(2, 5));
    size_t n = sp.size();
    r.describe(cat("DustyGas ", n));
    string at = "@DustyGas";
    auto sol = make(sp, "mixture-averaged");
    auto& th = *sol->thermo();
    auto t = newTransport(sol->thermo(), "DustyGas");
    auto& dg = dynamic_cast<DustyGasTransport&>(*t);
    auto gas = newTransport(sol->thermo(), "multicomponent");
    double por = 0, tor = 0, rp = 0, dp = 0, perm = -1;
    const V mw = th.molecularWeights();
    for (int s = 0; s < 3; s++) {
        if (!s || g.p(0.5)) { por = g.uni(0.1, 0.8); dg.setPorosity(por); }
        if (!s || g.p(0.5)) { tor = g.uni(1, 5); dg.setTortuosity(tor); }
        if (!s || g.p(0.5)) { rp = g.logu(1e-8, 1e-5); dg.setMeanPoreRadius(rp); }
        if (!s || g.p(0.5)) { dp = g.logu(1e-7, 1e-4); dg.setMeanParticleDiameter(dp); }
        if (g.p(0.4)) { perm = g.logu(1e-18, 1e-12); dg.setPermeability(perm); }
        V X1(n), X2(n);
        randX(g, X1); randX(g, X2);
        for (auto& q : X1) q = std::max(q, 1e-8);
        double T1 = g.uni(300, 1500), T2 = g.p(0.5) ? T1 : T1 * g.uni(0.9, 1.1), P1 = g.logu(1e4, 1e6), P2 = g.p(0.3) ? P1 : P1 * g.uni(0.7, 1.4), del = g.logu(1e-5, 1e-2);
        V s1(n + 2), s2(n + 2), F(n);
        th.setState_TPX(T1, P1, X1.data()); th.saveState(n + 2, s1.data());
        th.setState_TPX(T2, P2, X2.data()); th.saveState(n + 2, s2.data());
        dg.getMolarFluxes(s1.data(), s2.data(), del, F.data());
        V c1(n), c2(n), cb(n);
        for (size_t k = 0; k < n; k++) { c1[k] = s1[1] * s1[2 + k] / mw[k]; c2[k] = s2[1] * s2[2 + k] / mw[k]; cb[k] = 0.5 * (c1[k] + c2[k]); }
        double p1 = sum(c1) * GasConstant * T1, p2 = sum(c2) * GasConstant * T2;
        r.near("dusty-pressure" + at, p1, P1, 1e-10, 0);
        th.setState_TPX(0.5 * (T1 + T2), 0.5 * (p1 + p2), cb.data());
        V x(n), D(n * n);
        th.getMoleFractions(x.data());
        gas->getBinaryDiffCoeffs(n, D.data());
        double mu = gas->viscosity();
        double B = perm > 0 ? perm : por * por * por * dp * dp / (72 * tor * (1 - por) * (1 - por));
        string d = cat("por ", por, " tor ", tor, " rp ", rp, " T ", T1, " ", T2, " P ", P1, " ", P2);
        for (size_t k = 0; k < n; k++) {
            double DK = 2.0 / 3 * rp * por / tor * std::sqrt(8 * GasConstant * 0.5 * (T1 + T2) / (Pi * mw[k]));
            // N_k/DK + sum_j (x_j N_k - x_k N_j)/De = -grad c_k - c_k/DK B/mu grad p
            double lhs = F[k] / DK, mag = std::fabs(lhs);
            for (size_t j = 0; j < n; j++) if (j != k) { double De = D[n * j + k] * por / tor; lhs += (x[j] * F[k] - x[k] * F[j]) / De; mag += (std::fabs(x[j] * F[k]) + std::fabs(x[k] * F[j])) / De; }
            double a = -(c2[k] - c1[k]) / del, b = -cb[k] / DK * B / mu * (p2 - p1) / del;
            r.near("dusty-gas" + at, lhs, a + b, 0, 1e-8 * (mag + std::fabs(a) + std::fabs(b)), cat(d, " ", sp[k]));
        }
        V M(n * n);
        dg.getMultiDiffCoeffs(n, M.data());
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
            double q = 0, mag = 0;
            for (size_t k = 0; k < n; k++) {
                double H;
                if (i == k) { H = 1 / (2.0 / 3 * rp * por / tor * std::sqrt(8 * GasConstant * th.temperature() / (Pi * mw[k]))); for (size_t l = 0; l < n; l++) if (l != k) H += x[l] / (D[n * l + k] * por / tor); }
                else H = -x[i] / (D[n * k + i] * por / tor);
                q += H * M[n * j + k]; mag += std::fabs(H * M[n * j + k]);
            }
            r.near("dusty-inverse" + at, q, i == j, 0, 1e-9 * (mag + 1), d);
        }
        dg.getMolarFluxes(s1.data(), s1.data(), del, F.data());
        r.near("dusty-no-gradient" + at, amax(F), 0, 0, 0);
        r.state(vh::hashv(V{por, tor, rp, T1, P1}));
    }
}

static void ion(Run& r, Rng& g) {
    r.describe("ionized-gas");
    string at = "@ionized-gas";
    static shared_ptr<Solution> sol;
    if (!sol) sol = newSolution("gri30_ion.yaml", "gas", "ionized-gas");
    auto& th = *sol->thermo();
    auto& tr = *sol->transport();
    size_t n = th.nSpecies();
    V X(n);
    randX(g, X);
    vector<size_t> ions;
    size_t e = npos;
    for (size_t k = 0; k < n; k++) if (th.charge(k)) { if (th.speciesName(k) == "E") e = k; else ions.push_back(k); X[k] = g.p(0.3) ? 0 : g.logu(1e-12, 1e-6); }
    double T = g.uni(300, 3000), P = g.logu(1e3, 1e6);
    th.setState_TPX(T, P, X.data());
    V x(n), D(n), mob(n), bin(n * n), D2(n);
    th.getMoleFractions(x.data());
    double mu = tr.viscosity(), lam = tr.thermalConductivity();
    tr.getMixDiffCoeffs(D.data()); tr.getMobilities(mob.data()); tr.getBinaryDiffCoeffs(n, bin.data());
    r.check("positive" + at, mu > 0 && lam > 0 && std::isfinite(mu) && std::isfinite(lam));
    for (size_t k = 0; k < n; k++) {
        r.check("positive-mix-diff" + at, D[k] > 0 && std::isfinite(D[k]), th.speciesName(k));
        for (size_t j = 0; j < k; j++) if (j != e && k != e) r.near("binary-symmetric" + at, bin[n * j + k], bin[n * k + j], 1e-12, 0);
    }
    double sig = 0, kT = Boltzmann * T;
    for (size_t k : ions) {
        double s = 0;
        for (size_t j = 0; j < n; j++) if (!th.charge(j)) s += std::max(x[j], 1e-20) / bin[n * j + k];
        r.near("ion-mobility" + at, mob[k], ElectronCharge / kT / s, 1e-9, 0, th.speciesName(k));
        sig += std::max(x[k], 1e-20) * P / kT * std::fabs(th.charge(k)) * ElectronCharge * mob[k];
    }
    r.near("electron-mobility" + at, mob[e], 0.4, 1e-12, 0);
    sig += std::max(x[e], 1e-20) * P / kT * ElectronCharge * mob[e];
    r.near("electrical-conductivity" + at, tr.electricalConductivity(), sig, 1e-9, 0);
    double P2 = P * g.logu(0.01, 100);
    th.setState_TPX(T, P2, X.data());
    tr.getMixDiffCoeffs(D2.data());
    for (size_t k = 0; k < n; k++) if (k != e) r.near("mix-pressure" + at, D2[k] * P2, D[k] * P, 1e-9, 0, th.speciesName(k));
    r.near("viscosity-pressure" + at, tr.viscosity(), mu, 1e-10, 0);
    r.state(vh::hashv(V{T, P, mu}));
}

static void high(Run& r, Rng& g) {
    static const vector<string> models{"high-pressure", "high-pressure-Chung"};
    string model = g.pick(models);
    r.describe(model);
    string at = "@" + model;
    vector<string> all{"CH4", "CO2", "N2", "O2", "H2", "C2H6", "C3H8", "CO", "C2H4", "C2H2", "CH2O"};
    g.shuffle(all);
    all.resize(g.i(1, 4));
    size_t n = all.size();
    AnyMap root = AnyMap::fromYamlString(text(all, model));
    AnyMap& ph = root["phases"].asVector<AnyMap>()[0];
    ph["thermo"] = g.p(0.5) ? "Peng-Robinson" : "Redlich-Kwong";
    auto sol = newSolution(ph, root);
    auto low = make(all, "multicomponent");
    auto& th = *sol->thermo();
    auto& tr = *sol->transport();
    V X(n);
    randX(g, X);
    for (auto& q : X) q = std::max(q, 1e-6);
    double T = g.uni(350, 1200), P = g.p(0.4) ? g.logu(1e2, 1e4) : g.logu(1e4, 3e7);
    th.setState_TPX(T, P, X.data());
    low->thermo()->setState_TPX(T, P, X.data());
    string d = cat("T ", T, " P ", P, " ", all[0], " n ", n);
    double mu, lam;
    try { mu = tr.viscosity(); } catch (CanteraError& e) {
        // the Lucas model is not meant for liquids and says so
        r.check("only-lucas-range-refused" + at, string(e.what()).find("Lucas") != string::npos, d + e.what());
        return;
    }
    lam = tr.thermalConductivity();
    r.check("positive" + at, mu > 0 && lam > 0 && std::isfinite(mu) && std::isfinite(lam), cat(d, " ", mu, " ", lam));
    r.near("repeatable" + at, tr.viscosity(), mu, 1e-13, 0, d);
    r.near("repeatable" + at, tr.thermalConductivity(), lam, 1e-13, 0, d);
    V b(n * n), bl(n * n), D(n), Dm(n), Dl(n);
    tr.getBinaryDiffCoeffs(n, b.data());
    low->transport()->getBinaryDiffCoeffs(n, bl.data());
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
        r.check("binary-positive" + at, b[n * j + i] > 0 && std::isfinite(b[n * j + i]), d);
        r.near("binary-symmetric" + at, b[n * j + i], b[n * i + j], 1e-10, 0, d);
        if (P < 1e4) r.near("dilute-binary" + at, b[n * j + i], bl[n * j + i], 0.06, 0, cat(d, " ", all[i], " ", all[j]));
    }
    tr.getMixDiffCoeffs(D.data()); tr.getMixDiffCoeffsMole(Dm.data());
    for (size_t k = 0; k < n; k++) r.check("positive-mix-diff" + at, D[k] > 0 && Dm[k] > 0 && std::isfinite(D[k]) && std::isfinite(Dm[k]), d);
    if (P < 1e4) {
        r.near("dilute-viscosity" + at, mu, low->transport()->viscosity(), 0.35, 0, d);
        r.near("dilute-conductivity" + at, lam, low->transport()->thermalConductivity(), 0.5, 0, d);
    }
    r.state(vh::hashv(V{T, P, mu}));
}

static void water(Run& r, Rng& g) {
    r.describe("water");
    string at = "@water";
    static shared_ptr<Solution> sol;
    if (!sol) sol = newSolution("liquidvapor.yaml", "liquid-water-IAPWS95", "water");
    auto& th = *sol->thermo();
    auto& tr = *sol->transport();
    double T = g.uni(275, 600), P = g.logu(1.3e7, 1e8);
    th.setState_TP(T, P);
    double mu = tr.viscosity(), lam = tr.thermalConductivity();
    r.check("positive" + at, mu > 0 && lam > 0 && std::isfinite(mu) && std::isfinite(lam));
    // Vogel equation for liquid water at low pressure, and tabulated conductivities
    if (T < 370 && P < 3e7) r.near("liquid-viscosity" + at, mu, 1e-3 * std::exp(-3.7188 + 578.919 / (T - 137.546)), 0.06, 0, cat(T, " ", P));
    if (T < 370 && P < 3e7) r.near("liquid-conductivity" + at, lam, -0.5752 + 6.397e-3 * T - 8.151e-6 * T * T, 0.04, 0, cat(T, " ", P));
    double T2 = g.uni(275, 600);
    th.setState_TP(T2, P); tr.viscosity(); tr.thermalConductivity();
    th.setState_TP(T, P);
    r.near("history" + at, tr.viscosity(), mu, 1e-8, 0); r.near("history" + at, tr.thermalConductivity(), lam, 1e-6, 0);
    r.state(vh::hashv(V{T, P, mu}));
}

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    suppress_thermo_warnings();
    return drive(r, [](Run& r, size_t, Rng& g) {
        int k = g.i(0, 99);
        if (k < 70) ideal(r, g); else if (k < 80) dusty(r, g); else if (k < 88) ion(r, g); else if (k < 96) high(r, g); else water(r, g);
    });
}
