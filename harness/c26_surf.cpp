// C26: surface coverages. Advancing in time is compared with an independent stiff integration of
// the coverage equations and with itself over split intervals; the pseudo-steady state must have
// no net production of any surface species; coverages stay a distribution; the bulk phases,
// temperature and elements on closed surfaces stay as they were.
#include "ct.h"
#include "mechs.h"
#include "gen.h"
#include "cantera/kinetics/InterfaceKinetics.h"
#include "cantera/kinetics/ImplicitSurfChem.h"
#include <Eigen/Dense>
using namespace vh;
typedef vector<double> V;
typedef Eigen::VectorXd E;

struct Sys {
    vector<InterfaceKinetics*> k;
    vector<SurfPhase*> s;
    size_t n() const { size_t m = 0; for (auto* p : s) m += p->nSpecies(); return m; }
    E get() const { E y(n()); size_t l = 0; for (auto* p : s) { p->getCoverages(y.data() + l); l += p->nSpecies(); } return y; }
    void set(const E& y) const { size_t l = 0; for (auto* p : s) { p->setCoverages(y.data() + l); l += p->nSpecies(); } }
    // rate of change of the coverages, for every species from its own production rate
    E f(const E& y, E* gross = nullptr) const {
        set(y);
        E d(y.size());
        if (gross) gross->resize(y.size());
        size_t l = 0;
        for (size_t i = 0; i < s.size(); i++) {
            V w(k[i]->nTotalSpecies()), c(w.size()), q(w.size());
            k[i]->getNetProductionRates(w.data());
            k[i]->getCreationRates(c.data());
            k[i]->getDestructionRates(q.data());
            for (size_t j = 0; j < s[i]->nSpecies(); j++) {
                d(l + j) = w[j] * s[i]->size(j) / s[i]->siteDensity();
                if (gross) (*gross)(l + j) = (c[j] + q[j]) * s[i]->size(j) / s[i]->siteDensity();
            }
            l += s[i]->nSpecies();
        }
        return d;
    }
};
// Rosenbrock method of order 4 (L-stable, Hairer and Wanner), numerical Jacobian
static bool ros4x(const Sys& S, E y, double te, double rtol, double atol, E& out, int maxStep = 4000) {
    const double gm = 0.57282062500, a21 = 2.0, a31 = 1.867943637803922, a32 = 0.2344449711399156, c21 = -7.137615036412310, c31 = 2.580708087951457, c32 = 0.6515950076447975, c41 = -2.137148994382534, c42 = -0.3214669691237626, c43 = -0.6949742501781779;
    const double m1 = 2.255570073418735, m2 = 0.2870493262186792, m3 = 0.4353179431840180, m4 = 1.093502252409163, e1 = -0.2815431932141155, e2 = -0.07276199124934920, e3 = -0.1082196201495311, e4 = -1.093502252409163;
    size_t n = y.size();
    double t = 0;
    E f0 = S.f(y);
    double h = std::min(te, 1e-4 / (1e-3 / te + f0.cwiseAbs().maxCoeff()));
    for (int step = 0; t < te && step < maxStep; step++) {
        h = std::min(h, te - t);
        f0 = S.f(y);
        Eigen::MatrixXd J(n, n);
        for (size_t j = 0; j < n; j++) {
            double d = 1e-7 * std::max(1e-3, std::fabs(y(j)));
            E yp = y; yp(j) += d;
            // the evaluation normalizes each surface: stay on the constraint by differencing the normalized law
            J.col(j) = (S.f(yp) - f0) / d;
        }
        while (true) {
            Eigen::PartialPivLU<Eigen::MatrixXd> lu(Eigen::MatrixXd::Identity(n, n) / (gm * h) - J);
            E k1 = lu.solve(f0);
            E k2 = lu.solve(S.f(y + a21 * k1) + c21 / h * k1);
            E f3 = S.f(y + a31 * k1 + a32 * k2);
            E k3 = lu.solve(f3 + (c31 * k1 + c32 * k2) / h);
            E k4 = lu.solve(f3 + (c41 * k1 + c42 * k2 + c43 * k3) / h);
            E yn = y + m1 * k1 + m2 * k2 + m3 * k3 + m4 * k4;
            E er = e1 * k1 + e2 * k2 + e3 * k3 + e4 * k4;
            double err = 0;
            for (size_t j = 0; j < n; j++) err = std::max(err, std::fabs(er(j)) / (atol + rtol * std::max(std::fabs(y(j)), std::fabs(yn(j)))));
            if (!std::isfinite(err)) err = 1e6;
            double fac = std::min(5.0, std::max(0.1, 0.9 * std::pow(std::max(err, 1e-10), -0.25)));
            if (err <= 1) { t += h; y = yn; h *= fac; break; }
            h *= fac;
            if (++step > maxStep || h < 1e-30) return false;
        }
    }
    out = y;
    return t >= te * (1 - 1e-12);
}

static bool ros4(const Sys& S, E y, double te, double rtol, double atol, E& out) {
    try { return ros4x(S, y, te, rtol, atol, out); } catch (CanteraError&) { return false; }
}

static void one(Run& r, Rng& g) {
    vector<shared_ptr<Solution>> keep;
    Sys S;
    string name;
    bool multi = false;
    if (g.p(0.5)) {
        static const char* ms[] = {"ptc", "ptc-mw", "kfs-surf", "pt-surf", "bm-surf", "bm-mw", "stick", "simple-surf", "mpox", "diamond", "covdep", "haca", "pt-multi"};
        name = ms[g.i(0, 12)];
        auto& m = mech(name);
        auto s = freshMech(m, "none");
        randomMechState(m, *s, g, 0);
        keep.push_back(s);
        S.k.push_back(dynamic_cast<InterfaceKinetics*>(s->kinetics().get()));
    } else {
        int n = g.p(0.25) ? 2 : 1;
        auto m = randomMechanism(g, 0, g.i(1, 6));
        name = n == 2 ? "random-two" : "random";
        AnyMap root = AnyMap::fromYamlString(m.yaml);
        auto gas = phaseFrom(root, "gas");
        V X(gas->thermo()->nSpecies());
        for (auto& x : X) x = g.logu(1e-6, 1);
        gas->thermo()->setState_TPX(g.uni(500, 1500), g.logu(1e2, 1e6), X.data());
        keep.push_back(gas);
        for (int i = 0; i < n; i++) {
            if (i) root = AnyMap::fromYamlString(m.yaml);
            auto s = phaseFrom(root, "surf", {gas});
            if (i) dynamic_cast<SurfPhase&>(*s->thermo()).setSiteDensity(g.logu(5e-9, 1e-7));
            s->thermo()->setState_TP(gas->thermo()->temperature(), gas->thermo()->pressure());
            keep.push_back(s);
            S.k.push_back(dynamic_cast<InterfaceKinetics*>(s->kinetics().get()));
        }
    }
    for (auto* k : S.k) S.s.push_back(dynamic_cast<SurfPhase*>(&k->thermo(0)));
    r.describe(name);
    for (auto* s : S.s) for (size_t k = 0; k < s->nSpecies(); k++) if (s->size(k) != 1) multi = true;
    string at = "@" + name + (multi ? "-multisite" : "");
    size_t n = S.n();
    // coverages set and read back
    E y0(n);
    int mode = g.i(0, 2);
    size_t l = 0;
    for (auto* s : S.s) {
        V c(s->nSpecies());
        double sum = 0;
        for (auto& x : c) { x = mode == 0 ? g.u() : mode == 1 ? g.logu(1e-9, 1) : g.p(0.3) ? g.u() : 0; sum += x; }
        if (sum == 0) { c[0] = 1; sum = 1; }
        bool byName = g.p(0.3);
        if (byName) { Composition m; for (size_t k = 0; k < c.size(); k++) if (c[k]) m[s->speciesName(k)] = c[k]; s->setCoveragesByName(m); }
        else s->setCoverages(c.data());
        V b(c.size()), X(c.size()), cc(c.size());
        s->getCoverages(b.data());
        s->getMoleFractions(X.data());
        s->getConcentrations(cc.data());
        double sx = 0, sc = 0;
        for (size_t k = 0; k < c.size(); k++) { r.near("coverages-read-back" + at, b[k], c[k] / sum, 1e-12, 1e-15, s->speciesName(k)); y0(l + k) = b[k]; sx += X[k]; sc += b[k]; }
        r.near("sum-X" + at, sx, 1, 1e-12);
        r.near("sum-coverages" + at, sc, 1, 1e-12);
        for (size_t k = 0; k < c.size(); k++) for (size_t j = 0; j < c.size(); j++) if (c[k] > 1e-3 && c[j] > 1e-3) r.near("coverage-ratio" + at, X[k] * s->size(k) / (X[j] * s->size(j)), c[k] / c[j], 1e-9, 0, "amount times sites is proportional to coverage");
        if (g.p(0.1)) { V z(c.size(), 0.0); bool th = false; try { s->setCoverages(z.data()); } catch (CanteraError&) { th = true; } r.check("zero-coverages-refused" + at, th); s->setCoverages(b.data()); }
        l += c.size();
    }
    // state of everything else
    vector<ThermoPhase*> bulk;
    for (auto* k : S.k) for (size_t p = 1; p < k->nPhases(); p++) if (std::find(bulk.begin(), bulk.end(), &k->thermo(p)) == bulk.end()) bulk.push_back(&k->thermo(p));
    double Tc = S.s[0]->temperature(), Pc = bulk.empty() ? 1e5 : bulk[0]->pressure();
    for (auto* b : bulk) if (!dynamic_cast<SurfPhase*>(b)) b->setState_TP(Tc, Pc);
    for (auto* s : S.s) s->setState_TP(Tc, Pc);
    vector<V> bs;
    for (auto* b : bulk) { V s(b->stateSize()); b->saveState(s); bs.push_back(s); }
    V T0;
    for (auto* s : S.s) T0.push_back(s->temperature());
    auto others = [&](const string& key) {
        for (size_t i = 0; i < bulk.size(); i++) { V s(bulk[i]->stateSize()); bulk[i]->saveState(s); for (size_t j = 0; j < s.size(); j++) r.near("bulk-unchanged" + at, s[j], bs[i][j], 1e-9, 1e-13, cat(key, " ", bulk[i]->name(), " ", j)); }
        for (size_t i = 0; i < S.s.size(); i++) r.near("surface-T-unchanged" + at, S.s[i]->temperature(), T0[i], 1e-12);
    };
    auto distribution = [&](const E& y, const string& key) {
        size_t l = 0;
        for (auto* s : S.s) {
            double sum = 0, mn = 0;
            for (size_t k = 0; k < s->nSpecies(); k++) { sum += y(l + k); mn = std::min(mn, y(l + k)); }
            r.near("distribution-sum" + at, sum, 1, 1e-10, 0, key);
            r.check("distribution-sign" + at, mn > -1e-10 && std::isfinite(sum), cat(key, " ", mn));
            l += s->nSpecies();
        }
    };
    // rates with powers of a coverage or fractional orders have no unique solution near zero coverage
    bool singular = false;
    for (auto* k : S.k) for (size_t i = 0; i < k->nReactions(); i++) {
        AnyMap p = k->reaction(i)->parameters();
        if (p.hasKey("orders")) singular = true;
        if (p.hasKey("coverage-dependencies")) for (auto& [sp, v] : p["coverage-dependencies"].as<AnyMap>()) if (v.is<AnyMap>() && v.as<AnyMap>().getDouble("m", 0) != 0) singular = true;
    }
    E gr, f0 = S.f(y0, &gr);
    S.set(y0);
    double fast = gr.maxCoeff();
    if (!(fast > 0) || !std::isfinite(fast)) { r.count("no-rates"); return; }
    double te = g.logu(1e-3, 1e4) / fast * (g.p(0.3) ? 1e4 : 1);
    string d = cat(name, " T ", T0[0], " t ", te);
    auto advance = [&](double t) {
        if (S.k.size() == 1) S.k[0]->advanceCoverages(t, 1e-9, 1e-14);
        else { vector<InterfaceKinetics*> v = S.k; ImplicitSurfChem c(v, 1e-9, 1e-14, 0, 20000, 7); c.integrate(0, t); }
    };
    E y1;
    try { advance(te); } catch (CanteraError& e) { r.count("advance-failed"); return; }
    y1 = S.get();
    others("advance");
    distribution(y1, d);
    E ref, ref2;
    double unc = 1;
    bool ok = !singular && ros4(S, y0, te, 1e-7, 1e-12, ref);
    // again with other tolerances from a slightly different start, to know how well the result is determined
    E yp = y0;
    for (size_t k = 0; k < n; k++) yp(k) += 1e-9 * g.u();
    if (ok) ok = ros4(S, yp, te, 1e-6, 1e-11, ref2);
    if (ok) {
        unc = (ref - ref2).cwiseAbs().maxCoeff();
        if (unc < 1e-4) for (size_t k = 0; k < n; k++) r.near("advance-law" + at, y1(k), ref(k), 5e-4, 2e-6 + 20 * unc, cat(d, " species ", k, " from ", y0(k)));
        else r.count("reference-uncertain");
    } else r.count(singular ? "singular-law" : "no-reference");
    // in two parts
    S.set(y0);
    if (!singular) try {
        double p = g.uni(0.05, 0.95);
        S.set(y0);
        advance(p * te);
        advance((1 - p) * te);
        E y2 = S.get();
        for (size_t k = 0; k < n; k++) r.near("advance-in-parts" + at, y2(k), y1(k), 2e-4, 1e-5 + 20 * unc, cat(d, " species ", k));
    } catch (CanteraError&) { r.count("advance-failed"); }
    r.state(hashv(V(y1.data(), y1.data() + n)));
    // elements on surfaces without exchange with a bulk phase
    bool closed = true;
    for (auto* k : S.k) for (size_t i = 0; i < k->nReactions(); i++) for (size_t j = S.s[0]->nSpecies(); j < k->nTotalSpecies(); j++) if (k->reactantStoichCoeff(j, i) || k->productStoichCoeff(j, i)) closed = false;
    if (closed) for (auto* s : S.s) for (size_t m = 0; m < s->nElements(); m++) {
        double a = 0, b = 0;
        l = 0;
        for (size_t k = 0; k < s->nSpecies(); k++) { a += s->nAtoms(k, m) * y0(k) / s->size(k); b += s->nAtoms(k, m) * y1(k) / s->size(k); }
        if (S.s.size() == 1) r.near("closed-elements" + at, b, a, 1e-6, 1e-9, d + s->elementName(m));
    }
    // pseudo-steady state
    for (int from = 0; from < 2; from++) {
        S.set(from ? y1 : y0);
        try {
            if (S.k.size() == 1) S.k[0]->solvePseudoSteadyStateProblem();
            else { vector<InterfaceKinetics*> v = S.k; ImplicitSurfChem c(v); c.initialize(); c.solvePseudoSteadyStateProblem(); }
        } catch (CanteraError&) { r.count("steady-failed"); continue; }
        E ys = S.get();
        others("steady");
        distribution(ys, "steady");
        E gross, net = S.f(ys, &gross);
        double mx = gross.maxCoeff();
        if (!(mx > 1e-12)) { r.count("steady-dead"); continue; }
        for (size_t k = 0; k < n; k++) r.near("steady-net" + at, net(k), 0, 0, 2e-5 * gross(k) + 1e-7 * mx, cat(d, " species ", k, " coverage ", ys(k), " gross ", gross(k), " from ", from));
        // it does not move in time
        S.set(ys);
        if (!singular) try {
            advance(g.logu(1e-2, 1e2) / std::max(mx, 1e-200));
            E ya = S.get();
            for (size_t k = 0; k < n; k++) r.near("steady-stays" + at, ya(k), ys(k), 1e-2, 1e-4, cat(d, " species ", k));
        } catch (CanteraError&) { r.count("advance-failed"); }
    }
}
int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    return drive(r, [](Run& r, size_t, Rng& g) { one(r, g); });
}
