// C07 stoichiometric bookkeeping and conservation, C08 detailed balance, C10 derivatives of rates.
#include "gen.h"
#include "cantera/kinetics/Reaction.h"
using namespace vh;

struct Rx {
    vector<std::pair<size_t, double>> r, p, ford;   // (species, coefficient), forward orders
    std::map<size_t, double> nu;
    bool rev = false, customOrders = false, massActionM = false, hasM = false;
    double defEff = 1;
    vector<double> eff;
    bool coverage = false;
    string type;
};

struct Mech {
    const MechSpec* spec = nullptr;
    shared_ptr<Solution> s;
    Kinetics* kin = nullptr;
    vector<ThermoPhase*> ph;
    vector<Rx> rx;
    vector<size_t> off;
    size_t ns = 0, nr = 0;
    std::set<string> elements;
    std::map<string, vector<double>> atoms;
    vector<double> mw, charge;
};

static Mech genMech;   // set by generate
static MechSpec genSpec;

static Mech& load(const MechSpec& m) {
    static std::map<string, Mech> cache;
    Mech& M = m.name == "generated" ? genMech : cache[m.name];
    if (M.kin) return M;
    M.spec = &m;
    if (!M.s) M.s = freshMech(m);
    M.kin = M.s->kinetics().get();
    M.ph = phasesOf(*M.s);
    M.ns = M.kin->nTotalSpecies();
    M.nr = M.kin->nReactions();
    for (auto* p : M.ph) {
        M.off.push_back(M.mw.size());
        for (size_t k = 0; k < p->nSpecies(); k++) {
            M.mw.push_back(p->molecularWeight(k));
            M.charge.push_back(p->charge(k));
            for (auto& [e, n] : p->species(k)->composition) {
                auto& v = M.atoms[e];
                v.resize(M.ns, 0.0);
                v[M.mw.size() - 1] += n;
            }
        }
    }
    for (size_t i = 0; i < M.nr; i++) {
        auto rn = M.kin->reaction(i);
        Rx x;
        auto ix = [&](const string& nm) { return M.kin->kineticsSpeciesIndex(nm); };
        for (auto& [nm, c] : rn->reactants) { x.r.push_back({ix(nm), c}); x.nu[ix(nm)] -= c; }
        for (auto& [nm, c] : rn->products) { x.p.push_back({ix(nm), c}); x.nu[ix(nm)] += c; }
        std::map<size_t, double> ord;
        for (auto& [k, c] : x.r) ord[k] = c;
        for (auto& [nm, c] : rn->orders) { ord[ix(nm)] = c; x.customOrders = true; }
        for (auto& [k, c] : ord) if (c != 0) x.ford.push_back({k, c});
        x.rev = rn->reversible;
        x.type = rn->rate()->type();
        if (auto tb = rn->thirdBody()) {
            x.hasM = true;
            x.massActionM = tb->mass_action;
            x.eff.assign(M.ns, tb->default_efficiency);
            for (auto& [nm, e] : tb->efficiencies) if (M.ph[0]->speciesIndex(nm) != npos) x.eff[ix(nm)] = e;
        }
        x.coverage = rn->rate()->parameters().hasKey("coverage-dependencies");
        M.rx.push_back(x);
    }
    return M;
}

// a mechanism made up for this case
static string genText;
static const MechSpec& generate(Rng& g, bool surf, const string& forced = "") {
    GMech m = randomMechanism(g, int(g.i(3, 10)), surf ? int(g.i(3, 8)) : 0, forced);
    genText = m.yaml;
    AnyMap root = AnyMap::fromYamlString(m.yaml);
    genMech = Mech();
    auto gas = phaseFrom(root, "gas");
    genMech.s = surf ? phaseFrom(root, "surf", {gas}) : gas;
    genSpec = {"generated", "", surf ? "surf" : "gas", surf, 400, 1800, 1e3, 1e7};
    return genSpec;
}

static const MechSpec& choose(size_t i, Rng& g, bool bulkOnly) {
    if (i % 3 == 2) return generate(g, !bulkOnly && (i / 3) % 2);
    i -= i / 3;
    vector<const MechSpec*> c;
    for (auto& m : mechs()) if (!(bulkOnly && m.iface) && m.name != "air9") c.push_back(&m);
    const MechSpec* m = c[i % c.size()];
    if (m->big && !g.p(0.5)) m = c[g.idx(14)];
    return *m;
}

// ---------------------------------------------------------------- C07
static void bookkeeping(Run& r, size_t i, Rng& g) {
    const MechSpec& ms = choose(i, g, false);
    r.describe(ms.name);
    Mech& M = load(ms);
    string K = "@" + ms.name;
    randomMechState(ms, *M.s, g);
    auto& kin = *M.kin;
    string where = cat(ms.name, " T=", M.ph[0]->temperature(), " P=", M.ph[0]->pressure());
    r.describe(ms.name == "generated" ? where + "\n" + genText : where);
    if (i < 2) r.sample(where);
    r.state(hashv({M.ph[0]->temperature(), M.ph[0]->pressure(), double(i % mechs().size())}));
    size_t ns = M.ns, nr = M.nr;
    vector<double> f(nr), b(nr), n(nr), kf(nr), kr(nr), cr(ns), de(ns), wd(ns), ac(ns);
    kin.getFwdRatesOfProgress(f.data());
    kin.getRevRatesOfProgress(b.data());
    kin.getNetRatesOfProgress(n.data());
    kin.getFwdRateConstants(kf.data());
    kin.getRevRateConstants(kr.data());
    kin.getCreationRates(cr.data());
    kin.getDestructionRates(de.data());
    kin.getNetProductionRates(wd.data());
    // activity concentrations straight from the phases
    for (size_t q = 0; q < M.ph.size(); q++) M.ph[q]->getActivityConcentrations(&ac[M.off[q]]);
    vector<double> c2(ns);
    if (ms.iface) {
        kin.getActivityConcentrations(c2.data());
        for (size_t k = 0; k < ns; k++) r.near("activity-concentrations" + K, c2[k], ac[k], 1e-12);
    }
    vector<double> ecr(ns, 0), ede(ns, 0), gross(ns, 0);
    vector<double> X(M.ph[0]->nSpecies()), conc(ns, 0);
    for (size_t q = 0; q < M.ph.size(); q++) M.ph[q]->getConcentrations(&conc[M.off[q]]);
    vector<double> cm;
    bool haveM = false;
    if (!ms.iface) { cm.resize(nr); try { kin.getThirdBodyConcentrations(cm.data()); haveM = true; } catch (CanteraError&) {} }
    for (size_t j = 0; j < nr; j++) {
        auto& x = M.rx[j];
        string at = cat("reaction ", j, " ", kin.reaction(j)->equation());
        if (!std::isfinite(f[j]) || !std::isfinite(b[j])) { r.count("nonfinite-rop"); continue; }
        r.near("net=fwd-rev" + K, n[j], f[j] - b[j], 1e-13, 0, at, std::max(std::fabs(f[j]), std::fabs(b[j])));
        if (!x.rev) r.check("irreversible" + K, b[j] == 0 && kr[j] == 0, at);
        for (auto& [k, c] : x.r) { ede[k] += c * f[j]; ecr[k] += c * b[j]; gross[k] += c * (std::fabs(f[j]) + std::fabs(b[j])); }
        for (auto& [k, c] : x.p) { ecr[k] += c * f[j]; ede[k] += c * b[j]; gross[k] += c * (std::fabs(f[j]) + std::fabs(b[j])); }
        double Mc = 1;
        if (x.hasM) {
            double m = 0;
            for (size_t k = 0; k < ns; k++) m += x.eff[k] * conc[k];
            if (haveM && M.ph[0]->isIdeal()) r.near("third-body" + K, cm[j], m, 1e-12, 1e-13 * M.ph[0]->molarDensity() * (1 + *std::max_element(x.eff.begin(), x.eff.end())), at);
            if (haveM && x.massActionM) Mc = cm[j];
            else if (x.massActionM) Mc = m;
        }
        double want = kf[j] * Mc, wantr = kr[j] * Mc;
        for (auto& [k, o] : x.ford) want *= std::pow(ac[k], o);
        for (auto& [k, c] : x.p) wantr *= std::pow(ac[k], c);
        if (std::isfinite(want)) r.near("mass-action" + K, f[j], want, 1e-10, 1e-300, at);
        if (std::isfinite(wantr) && std::isfinite(kr[j]) && std::fabs(kr[j]) < 1e290 && std::fabs(kr[j]) > 1e-290) r.near("mass-action-rev" + K, b[j], wantr, 1e-9, 1e-300, at);
        for (auto& [e, a] : M.atoms) {
            double s = 0, sa = 0;
            for (auto& [k, v] : x.nu) { s += v * a[k]; sa += std::fabs(v * a[k]); }
            r.near("element-balance" + K, s, 0, 0, 1e-4 * sa, at + " " + e);
        }
        double q = 0;
        for (auto& [k, v] : x.nu) q += v * M.charge[k];
        r.near("charge-balance" + K, q, 0, 0, 1e-4, at);
        double m = 0, sm = 0;
        for (auto& [k, v] : x.nu) { m += v * M.mw[k]; sm += std::fabs(v * M.mw[k]); }
        r.near("mass-balance" + K, m, 0, 0, 1e-4 * sm, at);
        // stoichiometric coefficients reported
        size_t k = g.idx(ns);
        double rc = 0, pc = 0;
        for (auto& [kk, c] : x.r) if (kk == k) rc += c;
        for (auto& [kk, c] : x.p) if (kk == k) pc += c;
        r.near("stoich" + K, kin.reactantStoichCoeff(k, j), rc, 0, 1e-14, at);
        r.near("stoich" + K, kin.productStoichCoeff(k, j), pc, 0, 1e-14, at);
    }
    for (size_t k = 0; k < ns; k++) {
        if (!std::isfinite(ecr[k]) || !std::isfinite(ede[k])) continue;
        r.near("creation" + K, cr[k], ecr[k], 1e-11, 0, cat("species ", k), gross[k]);
        r.near("destruction" + K, de[k], ede[k], 1e-11, 0, cat("species ", k), gross[k]);
        r.near("production" + K, wd[k], ecr[k] - ede[k], 1e-11, 0, cat("species ", k), gross[k]);
    }
    for (auto& [e, a] : M.atoms) {
        double s = 0, sa = 0;
        for (size_t k = 0; k < ns; k++) { s += a[k] * wd[k]; sa += std::fabs(a[k]) * gross[k]; }
        if (std::isfinite(s)) r.near("element-conservation" + K, s, 0, 0, (ms.name == "frac" ? 1e-4 : 1e-9) * sa, e);
    }
    double s = 0, sa = 0, sq = 0, sqa = 0;
    for (size_t k = 0; k < ns; k++) { s += M.mw[k] * wd[k]; sa += M.mw[k] * gross[k]; sq += M.charge[k] * wd[k]; sqa += std::fabs(M.charge[k]) * gross[k]; }
    if (std::isfinite(s)) {
        r.near("mass-conservation" + K, s, 0, 0, 1e-6 * sa);
        r.near("charge-conservation" + K, sq, 0, 0, 1e-9 * sqa);
    }
    // reaction deltas of species properties
    struct D { const char* nm; std::function<void(ThermoPhase&, double*)> p; std::function<void(double*)> d; };
    vector<D> ds = {
        {"delta-gibbs", [](ThermoPhase& p, double* x) { p.getChemPotentials(x); }, [&](double* x) { kin.getDeltaGibbs(x); }},
        {"delta-electrochem", [](ThermoPhase& p, double* x) { p.getElectrochemPotentials(x); }, [&](double* x) { kin.getDeltaElectrochemPotentials(x); }},
        {"delta-enthalpy", [](ThermoPhase& p, double* x) { p.getPartialMolarEnthalpies(x); }, [&](double* x) { kin.getDeltaEnthalpy(x); }},
        {"delta-entropy", [](ThermoPhase& p, double* x) { p.getPartialMolarEntropies(x); }, [&](double* x) { kin.getDeltaEntropy(x); }},
        {"delta-ss-gibbs", [](ThermoPhase& p, double* x) { p.getStandardChemPotentials(x); }, [&](double* x) { kin.getDeltaSSGibbs(x); }},
        {"delta-ss-enthalpy", [](ThermoPhase& p, double* x) { p.getEnthalpy_RT(x); for (size_t k = 0; k < p.nSpecies(); k++) x[k] *= p.RT(); }, [&](double* x) { kin.getDeltaSSEnthalpy(x); }},
        {"delta-ss-entropy", [](ThermoPhase& p, double* x) { p.getEntropy_R(x); for (size_t k = 0; k < p.nSpecies(); k++) x[k] *= GasConstant; }, [&](double* x) { kin.getDeltaSSEntropy(x); }},
        {"delta-any", nullptr, nullptr},
    };
    for (auto& d : ds) {
        vector<double> p(ns), got(nr);
        try {
            if (d.p) { for (size_t q = 0; q < M.ph.size(); q++) d.p(*M.ph[q], &p[M.off[q]]); d.d(got.data()); }
            else { for (auto& v : p) v = g.uni(-1, 1); kin.getReactionDelta(p.data(), got.data()); }
        } catch (NotImplementedError&) { r.count("not-implemented"); continue; }
        for (size_t j = 0; j < nr; j++) {
            double w = 0, ab = 0;
            for (auto& [k, c] : M.rx[j].r) { w -= c * p[k]; ab += std::fabs(c * p[k]); }
            for (auto& [k, c] : M.rx[j].p) { w += c * p[k]; ab += std::fabs(c * p[k]); }
            r.near(d.nm + K, got[j], w, 1e-12, 0, cat("reaction ", j), ab);
        }
    }
    // multipliers
    if (nr) {
        size_t j = g.idx(nr);
        double fac = g.pick({0.0, 0.5, 3.0, 1e-3, 1e4});
        kin.setMultiplier(j, fac);
        vector<double> f2(nr), b2(nr), n2(nr), k2(nr);
        kin.getFwdRatesOfProgress(f2.data());
        kin.getRevRatesOfProgress(b2.data());
        kin.getNetRatesOfProgress(n2.data());
        kin.getFwdRateConstants(k2.data());
        for (size_t q = 0; q < nr; q++) {
            if (!std::isfinite(f[q]) || !std::isfinite(b[q])) continue;
            double ff = q == j ? fac : 1;
            r.near("multiplier-fwd" + K, f2[q], ff * f[q], 1e-13, 1e-300, cat("reaction ", q));
            r.near("multiplier-rev" + K, b2[q], ff * b[q], 1e-13, 1e-300, cat("reaction ", q));
            r.near("multiplier-net" + K, n2[q], ff * n[q], 1e-12, 1e-300, cat("reaction ", q), ff * (std::fabs(f[q]) + std::fabs(b[q])));
            if (std::isfinite(kf[q])) r.near("multiplier-k" + K, k2[q], ff * kf[q], 1e-13, 1e-300, cat("reaction ", q));
        }
        r.check("multiplier-read" + K, kin.multiplier(j) == fac, "");
        kin.setMultiplier(j, 1);
        kin.getFwdRatesOfProgress(f2.data());
        for (size_t q = 0; q < nr; q++) r.check("multiplier-reset" + K, f2[q] == f[q] || (std::isnan(f2[q]) && std::isnan(f[q])), cat("reaction ", q, " ", f2[q], " vs ", f[q]));
    }
}

// ---------------------------------------------------------------- C08
static void balance(Run& r, size_t i, Rng& g) {
    const MechSpec& ms = choose(i, g, false);
    r.describe(ms.name);
    Mech& M = load(ms);
    string K = "@" + ms.name;
    randomMechState(ms, *M.s, g);
    auto& kin = *M.kin;
    size_t ns = M.ns, nr = M.nr;
    bool equil = !ms.iface && g.p(0.15) && ms.name != "ohmech-rk" && ms.name.find("plasma") != 0;
    if (equil) {
        try { M.ph[0]->equilibrate("TP", "auto", 1e-11); } catch (CanteraError&) { r.count("equil-failed"); equil = false; randomMechState(ms, *M.s, g); }
    }
    double T = M.ph[0]->temperature(), RT = GasConstant * T;
    string where = cat(ms.name, equil ? " equilibrium" : "", " T=", T, " P=", M.ph[0]->pressure());
    r.describe(ms.name == "generated" ? where + "\n" + genText : where);
    if (i < 2) r.sample(where);
    r.state(hashv({T, M.ph[0]->pressure(), double(i % mechs().size())}));
    vector<double> f(nr), b(nr), kf(nr), kr(nr), kc(nr), mu0(ns), mu(ns), c0(ns), krev(nr);
    kin.getFwdRatesOfProgress(f.data());
    kin.getRevRatesOfProgress(b.data());
    kin.getFwdRateConstants(kf.data());
    kin.getRevRateConstants(kr.data());
    kin.getRevRateConstants(krev.data(), true);
    kin.getEquilibriumConstants(kc.data());
    for (size_t q = 0; q < M.ph.size(); q++) {
        auto& p = *M.ph[q];
        double* u0 = &mu0[M.off[q]];
        p.getStandardChemPotentials(u0);
        if (ms.iface) p.getElectrochemPotentials(&mu[M.off[q]]); else p.getChemPotentials(&mu[M.off[q]]);
        for (size_t k = 0; k < p.nSpecies(); k++) {
            if (ms.iface) u0[k] += Faraday * p.charge(k) * p.electricPotential();
            c0[M.off[q] + k] = p.standardConcentration(k);
        }
    }
    for (size_t j = 0; j < nr; j++) {
        auto& x = M.rx[j];
        string at = cat("reaction ", j, " ", kin.reaction(j)->equation());
        double dg = 0, lc = 0, dm = 0, sg = 0;
        bool zero = false;
        for (auto& [k, v] : x.nu) { dg += v * mu0[k]; lc += v * std::log(c0[k]); dm += v * mu[k]; if (!std::isfinite(mu[k])) zero = true; else sg += std::fabs(v * mu[k]); }
        double lk = -dg / RT + lc;
        double tol = 1e-9 + 1e-13 * sg / RT;
        if (std::fabs(lk) < 600) r.near("Kc" + K, std::log(kc[j]), lk, 0, tol * 10, at);
        if (!x.rev) { if (kf[j] != 0 && std::fabs(lk) < 300 && std::isfinite(krev[j]) && krev[j] != 0 && std::fabs(kf[j]) > 1e-200)
                r.near("kr-irreversible" + K, std::log(std::fabs(krev[j])), std::log(std::fabs(kf[j])) - lk, 0, tol * 10, at);
            continue; }
        if (kf[j] == 0 || !std::isfinite(kf[j]) || !std::isfinite(kr[j])) continue;
        if (std::fabs(lk) < 500 && std::fabs(kr[j]) > 1e-290 && std::fabs(kr[j]) < 1e290 && std::fabs(kf[j]) > 1e-290)
            r.near("kf/kr" + K, std::log(std::fabs(kf[j] / kr[j])), lk, 0, tol * 10, at);
        // the ratio of the rates is the exponential of the affinity
        if (!x.customOrders && !zero && f[j] != 0 && b[j] != 0 && std::fabs(f[j]) > 1e-250 && std::fabs(b[j]) > 1e-250) {
            double lr = std::log(std::fabs(f[j] / b[j]));
            if (std::fabs(lr) < 500 && std::fabs(lk) < 500) r.near("affinity" + K, lr, -dm / RT, 0, tol * 10 + 1e-8, at);
            r.check("same-sign" + K, (f[j] > 0) == (b[j] > 0), at);
            if (equil && std::fabs(lk) < 500) {
                // traces are resolved to the solver's absolute accuracy only
                bool trace = false;
                for (auto& [k, v] : x.nu) if (M.ph[0]->moleFraction(k) < 1e-14) trace = true;
                if (!trace) r.near("no-net-rate-at-equilibrium" + K, f[j], b[j], 1e-4, 0, at);
            }
        }
    }
}

// ---------------------------------------------------------------- C10
struct Rates { vector<double> kf, f, b, n, cr, de, w; };
static Rates rates(Mech& M) {
    Rates q;
    q.kf.resize(M.nr); q.f.resize(M.nr); q.b.resize(M.nr); q.n.resize(M.nr); q.cr.resize(M.ns); q.de.resize(M.ns); q.w.resize(M.ns);
    M.kin->getFwdRateConstants(q.kf.data());
    M.kin->getFwdRatesOfProgress(q.f.data());
    M.kin->getRevRatesOfProgress(q.b.data());
    M.kin->getNetRatesOfProgress(q.n.data());
    M.kin->getCreationRates(q.cr.data());
    M.kin->getDestructionRates(q.de.data());
    M.kin->getNetProductionRates(q.w.data());
    return q;
}
static void derivatives(Run& r, size_t i, Rng& g) {
    vector<const MechSpec*> c;
    for (auto& m : mechs()) if (!m.iface && m.name != "air9" && m.name != "ohmech-rk" && m.name != "plasma" && m.name != "plasma-disc") c.push_back(&m);
    const MechSpec* mp = c[i % c.size()];
    if (mp->big && !g.p(0.3)) mp = c[g.idx(14)];
    static const vector<string> kinds = {"elementary", "three-body", "explicit-collider", "falloff", "chemically-activated", "plog", "Chebyshev"};
    const MechSpec& ms = i % 3 == 2 ? generate(g, false, g.pick(kinds)) : *mp;
    r.describe(ms.name);
    Mech& M = load(ms);
    string K = "@" + ms.name;
    auto& kin = *M.kin;
    auto& th = *M.ph[0];
    size_t ns = M.ns, nr = M.nr;
    double T = g.uni(600, 2400), P = g.logu(1e4, 3e6);
    vector<double> X(ns);
    double s = 0;
    for (auto& v : X) s += v = g.logu(1e-3, 1);
    for (auto& v : X) v /= s;
    th.setState_TPX(T, P, X.data());
    X.assign(ns, 0); th.getMoleFractions(X.data());
    double C = th.molarDensity();
    string where = cat(ms.name, " T=", T, " P=", P, " X=", vec(X).substr(0, 200));
    r.describe(ms.name == "generated" ? where + "\n" + genText : where);
    if (i < 2) r.sample(where);
    r.state(hashv({T, P, X[0], double(i % c.size())}));
    AnyMap set;
    set["skip-third-bodies"] = false; set["skip-falloff"] = false; set["rtol-delta"] = 1e-8;
    kin.setDerivativeSettings(set);
    typedef vector<double> V;
    struct Der { V T, P, C; };
    auto get = [&](size_t n, auto ft, auto fp, auto fc) { Der d{V(n), V(n), V(n)}; (kin.*ft)(d.T.data()); (kin.*fp)(d.P.data()); (kin.*fc)(d.C.data()); return d; };
    typedef Kinetics KN;
    struct Q { string nm; V Rates::*v; Der d; };
    vector<Q> qs;
    qs.push_back({"kf", &Rates::kf, get(nr, &KN::getFwdRateConstants_ddT, &KN::getFwdRateConstants_ddP, &KN::getFwdRateConstants_ddC)});
    qs.push_back({"fwd", &Rates::f, get(nr, &KN::getFwdRatesOfProgress_ddT, &KN::getFwdRatesOfProgress_ddP, &KN::getFwdRatesOfProgress_ddC)});
    qs.push_back({"rev", &Rates::b, get(nr, &KN::getRevRatesOfProgress_ddT, &KN::getRevRatesOfProgress_ddP, &KN::getRevRatesOfProgress_ddC)});
    qs.push_back({"net", &Rates::n, get(nr, &KN::getNetRatesOfProgress_ddT, &KN::getNetRatesOfProgress_ddP, &KN::getNetRatesOfProgress_ddC)});
    qs.push_back({"creation", &Rates::cr, get(ns, &KN::getCreationRates_ddT, &KN::getCreationRates_ddP, &KN::getCreationRates_ddC)});
    qs.push_back({"destruction", &Rates::de, get(ns, &KN::getDestructionRates_ddT, &KN::getDestructionRates_ddP, &KN::getDestructionRates_ddC)});
    qs.push_back({"production", &Rates::w, get(ns, &KN::getNetProductionRates_ddT, &KN::getNetProductionRates_ddP, &KN::getNetProductionRates_ddC)});
    Rates base = rates(M);
    // scale of the terms a net quantity is the difference of
    V gr(nr), gs(ns);
    for (size_t j = 0; j < nr; j++) {
        gr[j] = std::fabs(base.f[j]) + std::fabs(base.b[j]);
        for (auto& [k, cc] : M.rx[j].r) gs[k] += std::fabs(cc) * gr[j];
        for (auto& [k, cc] : M.rx[j].p) gs[k] += std::fabs(cc) * gr[j];
    }
    auto special = [&](size_t j) { return M.rx[j].type == "linear-Burke" || M.rx[j].type.find("plasma") != string::npos || M.rx[j].type == "Blowers-Masel"; };
    vector<char> tainted(ns, 0);
    for (size_t j = 0; j < nr; j++) if (special(j)) for (auto& [k, v] : M.rx[j].nu) tainted[k] = 1;
    // central difference along a path, with an error estimate from two steps
    auto fd = [&](const std::function<void(double)>& at, double h, V Rates::*v, const vector<Rates>& c1, const vector<Rates>& c2, size_t j, double& err, double sc) {
        double d1 = ((c1[1].*v)[j] - (c1[0].*v)[j]) / (2 * h), d2 = ((c2[1].*v)[j] - (c2[0].*v)[j]) / h;
        err = 2 * std::fabs(d1 - d2) + 1e-12 * sc / h;
        return (4 * d2 - d1) / 3;
    };
    auto path = [&](const string& nm, const std::function<void(double)>& at, double h, const std::function<double(const Q&, size_t)>& want, double unit) {
        vector<Rates> c1, c2;
        for (double sg : {-1., 1.}) { at(sg * h); c1.push_back(rates(M)); }
        for (double sg : {-.5, .5}) { at(sg * h); c2.push_back(rates(M)); }
        at(0);
        for (auto& q : qs) {
            size_t n = (base.*q.v).size();
            if (q.nm == "kf" && nm[0] == 'c') continue;
            for (size_t j = 0; j < n; j++) {
                if (n == nr && q.nm != "creation" && q.nm != "destruction" && q.nm != "production" ? special(j) : q.nm[0] == 'c' || q.nm[0] == 'd' || q.nm[0] == 'p' ? tainted[j] : 0) continue;
                bool sp = q.nm[0] == 'c' || q.nm[0] == 'd' || q.nm[0] == 'p';
                double sc = q.nm == "kf" ? std::fabs(base.kf[j]) : sp ? gs[j] : gr[j];
                if (!(sc > 1e-250) || !std::isfinite(sc)) continue;
                double err, d = fd(at, h, q.v, c1, c2, j, err, sc);
                if (!(err < 1e-3 * sc / unit)) { r.count("difference-too-rough"); continue; }
                r.near(nm + "-" + q.nm + K, want(q, j), d, 0, err + 1e-4 * sc / unit + 3e-7 * std::pow(std::fabs(d) * unit / sc + 1, 2) * sc / unit,
                       sp ? "species " + kin.kineticsSpeciesName(j) : "reaction " + kin.reaction(j)->equation());
            }
        }
    };
    path("T-at-constant-P", [&](double e) { th.setState_TPX(T + e, P, X.data()); }, T * 1e-4,
         [&](const Q& q, size_t j) { return q.d.T[j] - q.d.C[j] * C / T; }, T);
    path("T-at-constant-density", [&](double e) { th.setState_TPX(T + e, P * (T + e) / T, X.data()); }, T * 1e-4,
         [&](const Q& q, size_t j) { return q.d.T[j] + q.d.P[j] * P / T; }, T);
    path("P-at-constant-T", [&](double e) { th.setState_TPX(T, P + e, X.data()); }, P * 1e-4,
         [&](const Q& q, size_t j) { return q.d.P[j] + q.d.C[j] * C / P; }, P);
    // composition: directions that leave the sum unchanged
    for (int rep = 0; rep < 2; rep++) {
        V dir(ns, 0.0);
        if (rep == 0 && ns > 1) { size_t a = g.idx(ns), b = g.idx(ns); if (a == b) b = (a + 1) % ns; dir[a] = X[a] < X[b] ? X[a] : X[b]; dir[b] = -dir[a]; }
        else { double sm = 0; for (size_t k = 0; k < ns; k++) { dir[k] = X[k] * g.uni(-1, 1); sm += dir[k]; } for (size_t k = 0; k < ns; k++) dir[k] -= X[k] * sm; }
        bool ci = g.p(0.5);
        typedef Eigen::SparseMatrix<double> SM;
        vector<std::pair<string, SM>> mats;
        if (ci) { mats = {{"fwd", kin.fwdRatesOfProgress_ddCi()}, {"rev", kin.revRatesOfProgress_ddCi()}, {"net", kin.netRatesOfProgress_ddCi()},
                          {"creation", kin.creationRates_ddCi()}, {"destruction", kin.destructionRates_ddCi()}, {"production", kin.netProductionRates_ddCi()}}; }
        else { mats = {{"fwd", kin.fwdRatesOfProgress_ddX()}, {"rev", kin.revRatesOfProgress_ddX()}, {"net", kin.netRatesOfProgress_ddX()},
                       {"creation", kin.creationRates_ddX()}, {"destruction", kin.destructionRates_ddX()}, {"production", kin.netProductionRates_ddX()}}; }
        double h = 1e-4;
        auto at = [&](double e) { V x(X); for (size_t k = 0; k < ns; k++) x[k] += e * dir[k]; th.setState_TPX(T, P, x.data()); };
        path(ci ? "composition-Ci" : "composition-X", at, h, [&](const Q& q, size_t j) {
            for (auto& [nm, m] : mats) if (nm == q.nm) {
                double d = 0;
                for (size_t k = 0; k < ns; k++) if (dir[k] != 0) d += m.coeff(j, k) * dir[k] * (ci ? C : 1.0);
                return d;
            }
            return 0.0 / 0.0;
        }, 1.0);
    }
}

// derivatives of interface rates with respect to concentrations
static void interfaceDerivatives(Run& r, size_t i, Rng& g) {
    vector<const MechSpec*> c;
    for (auto& m : mechs()) if (m.iface) c.push_back(&m);
    const MechSpec& ms = i % 3 == 2 ? generate(g, true) : *c[i % c.size()];
    r.describe(ms.name);
    Mech& M = load(ms);
    string K = "@" + ms.name;
    auto& kin = *M.kin;
    randomMechState(ms, *M.s, g);
    size_t ns = M.ns, nr = M.nr;
    for (auto* p : M.ph) {
        if (p->nSpecies() < 2 || p->type() == "binary-solution-tabulated") continue;
        vector<double> x(p->nSpecies());
        for (auto& v : x) v = g.logu(1e-2, 1);
        double T = p->temperature(), P = p->pressure();
        p->setMoleFractions(x.data());
        p->setState_TP(T, P);
    }
    AnyMap set;
    set["skip-coverage-dependence"] = true; set["skip-electrochemistry"] = true; set["rtol-delta"] = 1e-8;
    kin.setDerivativeSettings(set);
    Eigen::SparseMatrix<double> F, B, N, W;
    try { F = kin.fwdRatesOfProgress_ddCi(); B = kin.revRatesOfProgress_ddCi(); N = kin.netRatesOfProgress_ddCi(); W = kin.netProductionRates_ddCi(); }
    catch (CanteraError&) { r.count("refused"); return; }
    string where = cat(ms.name, " T=", M.ph[0]->temperature());
    r.describe(where);
    r.state(hashv({M.ph[0]->temperature(), double(i % c.size())}));
    vector<double> f(nr), b(nr), ac(ns), wd(ns, 0.0);
    kin.getFwdRatesOfProgress(f.data());
    kin.getRevRatesOfProgress(b.data());
    kin.getActivityConcentrations(ac.data());
    // mass action gives order * rate / concentration for ideal phases
    auto ideal = [&](size_t k) { auto& p = kin.speciesPhase(k); return p.type() == "ideal-gas" || p.type() == "ideal-surface" || p.type() == "edge"; };
    for (size_t j = 0; j < nr; j++) {
        auto& x = M.rx[j];
        string at = "reaction " + kin.reaction(j)->equation();
        std::map<size_t, double> fo, bo;
        for (auto& [k, o] : x.ford) fo[k] += o;
        if (x.rev) for (auto& [k, o] : x.p) bo[k] += o;
        for (size_t k = 0; k < ns; k++) {
            if (!ideal(k) || ac[k] <= 0) continue;
            // surface activity concentrations are the concentrations
            double wf = fo.count(k) ? fo[k] * f[j] / ac[k] : 0, wb = bo.count(k) ? bo[k] * b[j] / ac[k] : 0;
            if (!std::isfinite(wf) || !std::isfinite(wb)) continue;
            r.near("interface-Ci-fwd" + K, F.coeff(j, k), wf, 1e-6, 1e-300, at);
            r.near("interface-Ci-rev" + K, B.coeff(j, k), wb, 1e-6, 1e-300, at);
            r.near("interface-Ci-net" + K, N.coeff(j, k), wf - wb, 1e-6, 1e-300, at, std::fabs(wf) + std::fabs(wb));
        }
    }
    for (int rep = 0; rep < 20; rep++) {
        size_t a = g.idx(ns), k = g.idx(ns);
        double w = 0, ab = 0;
        for (size_t j = 0; j < nr; j++) { auto it = M.rx[j].nu.find(a); if (it != M.rx[j].nu.end()) { w += it->second * N.coeff(j, k); ab += std::fabs(it->second) * (std::fabs(F.coeff(j, k)) + std::fabs(B.coeff(j, k))); } }
        if (std::isfinite(w)) r.near("interface-Ci-production" + K, W.coeff(a, k), w, 1e-9, 0, "", ab);
    }
}

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    return drive(r, [&](Run& r, size_t i, Rng& g) {
        if (r.prop == "C08") balance(r, i, g);
        else if (r.prop == "C10") i % 5 == 4 ? interfaceDerivatives(r, i / 5, g) : derivatives(r, i - i / 5, g);
        else bookkeeping(r, i, g);
    });
}
