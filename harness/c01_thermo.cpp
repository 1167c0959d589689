// C01: thermodynamic identities of every phase model at random states.
#include "phases.h"
using namespace vh;

struct Getter {
    ThermoPhase& p;
    size_t n;
    explicit Getter(ThermoPhase& ph) : p(ph), n(ph.nSpecies()) {}
    // scalar or nothing when the model does not implement it
    static bool s(const std::function<double()>& f, double& out) {
        try { out = f(); return true; } catch (NotImplementedError&) { return false; }
    }
    bool v(const std::function<void(double*)>& f, vector<double>& out) const {
        out.assign(n, 0.0);
        try { f(out.data()); return true; } catch (NotImplementedError&) { return false; }
    }
};

struct FD { double val, err; bool ok; };

// central differences at two steps with an error estimate; f may throw
static FD diff(const std::function<double(double)>& f, double x, double h) {
    double a = f(x + h), b = f(x - h), c = f(x + h / 2), d = f(x - h / 2);
    double d1 = (a - b) / (2 * h), d2 = (c - d) / h;
    double noise = 4e-15 * (std::fabs(a) + std::fabs(b) + std::fabs(c) + std::fabs(d)) / h;
    double r = (4 * d2 - d1) / 3;
    return {r, std::fabs(d1 - d2) + noise, std::isfinite(r)};
}

static std::map<string, shared_ptr<ThermoPhase>> cache;

static void one(Run& r, size_t i, Rng& g) {
    auto& cats = catalogue();
    const PhaseSpec& s = cats[i % cats.size()];
    if (!cache[s.name]) cache[s.name] = newThermo(s.file, s.phase);
    ThermoPhase& p = *cache[s.name];
    Getter G(p);
    size_t n = p.nSpecies();
    string K = "@" + s.name;   // key suffix
    double T, P;
    bool plasma = p.type() == "plasma";
    bool surf = s.comp == COVERAGE || s.name == "edge";
    string compStr;
    for (int tries = 0;; tries++) {
        randomTP(s, g, T, P);
        randomComposition(s, p, g);
        try {
            p.setState_TP(T, P);
            break;
        } catch (CanteraError& e) {
            r.count("state-rejected");
            if (tries > 20 && s.comp == PURE) return;
            if (tries > 20) { r.violation("no-state" + K, e.what()); return; }
        }
    }
    vector<double> X(n);
    p.getMoleFractions(X.data());
    r.describe(cat(s.name, " T=", T, " P=", P, " X=", n <= 12 ? vec(X) : cat("seeded(", n, ")")));
    T = p.temperature();
    P = p.pressure();
    r.state(hashv({T, P, double(i % cats.size())}, hashv(X)));
    if (i < 3) r.sample(r.desc);
    auto saved = vector<double>(p.stateSize());
    p.saveState(saved);
    auto back = [&] { p.restoreState(saved); };
    size_t ke = plasma ? dynamic_cast<PlasmaPhase&>(p).electronSpeciesIndex() : npos;
    double RT = GasConstant * T;

    double h, u, v, sm, gm, cp, cv;
    bool bh = G.s([&] { return p.enthalpy_mole(); }, h), bu = G.s([&] { return p.intEnergy_mole(); }, u),
         bs = G.s([&] { return p.entropy_mole(); }, sm), bg = G.s([&] { return p.gibbs_mole(); }, gm),
         bcp = G.s([&] { return p.cp_mole(); }, cp), bcv = G.s([&] { return p.cv_mole(); }, cv);
    v = p.molarVolume();
    double E = std::max({bh ? std::fabs(h) : 0, bs ? std::fabs(T * sm) : 0, RT, std::fabs(P * v)});
    // surface phases hold no volume: their density is per unit area or length
    if (!surf) r.near("molar-volume" + K, v, p.meanMolecularWeight() / p.density(), 1e-12);
    if (bh && bu) r.near("h=u+Pv" + K, h, u + P * v, 1e-10, 0, "", E);
    if (bh && bs && bg) r.near("g=h-Ts" + K, gm, h - T * sm, 1e-10, 0, "", E);
    double W = p.meanMolecularWeight(), tmp;
    if (bh && G.s([&] { return p.enthalpy_mass(); }, tmp)) r.near("mass-h" + K, tmp * W, h, 1e-12);
    if (bu && G.s([&] { return p.intEnergy_mass(); }, tmp)) r.near("mass-u" + K, tmp * W, u, 1e-12);
    if (bs && G.s([&] { return p.entropy_mass(); }, tmp)) r.near("mass-s" + K, tmp * W, sm, 1e-12);
    if (bg && G.s([&] { return p.gibbs_mass(); }, tmp)) r.near("mass-g" + K, tmp * W, gm, 1e-12);
    if (bcp && G.s([&] { return p.cp_mass(); }, tmp) && std::isfinite(cp)) r.near("mass-cp" + K, tmp * W, cp, 1e-12);
    if (bcv && G.s([&] { return p.cv_mass(); }, tmp)) r.near("mass-cv" + K, tmp * W, cv, 1e-12);

    // ---- partial molar properties ----
    vector<double> hk, uk, sk, gk, vk, cpk;
    bool ph_ = G.v([&](double* x) { p.getPartialMolarEnthalpies(x); }, hk);
    bool pu = G.v([&](double* x) { p.getPartialMolarIntEnergies(x); }, uk);
    bool ps = G.v([&](double* x) { p.getPartialMolarEntropies(x); }, sk);
    bool pg = G.v([&](double* x) { p.getChemPotentials(x); }, gk);
    bool pv = G.v([&](double* x) { p.getPartialMolarVolumes(x); }, vk);
    bool pc = G.v([&](double* x) { p.getPartialMolarCp(x); }, cpk);
    auto sum = [&](const vector<double>& a) { double t = 0; for (size_t k = 0; k < n; k++) t += a[k] * X[k]; return t; };
    auto asum = [&](const vector<double>& a) { double t = 0; for (size_t k = 0; k < n; k++) t += std::fabs(a[k] * X[k]); return t; };
    // terms X*log(X) are evaluated with X floored at a tiny value
    double tiny = RT * 1e-15;
    if (ph_ && bh) r.near("h=sum" + K, h, sum(hk), 1e-10, tiny, "", asum(hk) + P * v);
    if (pu && bu) r.near("u=sum" + K, u, sum(uk), 1e-10, tiny, "", asum(uk) + P * v);
    if (ps && bs) r.near("s=sum" + K, sm, sum(sk), 1e-9, 0, "", asum(sk) + GasConstant);
    if (pg && bg) r.near("g=sum" + K, gm, sum(gk), 1e-10, tiny, "", asum(gk) + P * v);
    if (pv) r.near("v=sum" + K, v, sum(vk), 1e-10, 0, "", asum(vk));
    if (pc && bcp && std::isfinite(cp)) r.near("cp=sum" + K, cp, sum(cpk), 1e-9, 0, "", asum(cpk));
    for (size_t k = 0; k < n; k++) {
        if (k == ke) continue;
        if (ph_ && pu && pv) r.near("hk=uk+Pvk" + K, hk[k], uk[k] + P * vk[k], 1e-10, 0, cat("k=", k), E);
        if (pg && ph_ && ps) r.near("gk=hk-Tsk" + K, gk[k], hk[k] - T * sk[k], 1e-10, 0, cat("k=", k), std::max(E, std::fabs(hk[k])));
    }

    // ---- activities ----
    vector<double> mu0, a, ac, lac, cc;
    bool bm0 = G.v([&](double* x) { p.getStandardChemPotentials(x); }, mu0);
    bool ba = G.v([&](double* x) { p.getActivities(x); }, a);
    bool bac = G.v([&](double* x) { p.getActivityCoefficients(x); }, ac);
    bool bla = G.v([&](double* x) { p.getLnActivityCoefficients(x); }, lac);
    bool bcc = G.v([&](double* x) { p.getActivityConcentrations(x); }, cc);
    vector<double> molal;
    if (s.comp == MOLALITY) {
        molal.resize(n);
        dynamic_cast<MolalityVPSSTP&>(p).getMolalities(molal.data());
    }
    for (size_t k = 0; k < n; k++) {
        double Tk = k == ke ? p.electronTemperature() : T;
        if (pg && bm0 && ba && a[k] > 1e-250 && X[k] > 1e-14)
            r.near("mu=mu0+RTlna" + K, (gk[k] - mu0[k]) / (GasConstant * Tk), std::log(a[k]), 1e-9, 1e-10 * std::max(1.0, std::fabs(gk[k]) / RT), cat("k=", k));
        if (bac && ba && s.comp != MOLALITY) r.near("a=gamma*X" + K, a[k], ac[k] * X[k], 1e-10, 1e-18, cat("k=", k));
        if (bac && ba && s.comp == MOLALITY) {
            vector<double> mac(n);
            dynamic_cast<MolalityVPSSTP&>(p).getMolalityActivityCoefficients(mac.data());
            if (k != 0) r.near("a=gamma*m" + K, a[k], mac[k] * molal[k], 1e-9, 1e-18, cat("k=", k));
        }
        if (bac && bla && ac[k] > 0) r.near("lngamma" + K, lac[k], std::log(ac[k]), 1e-9, 1e-10, cat("k=", k));
        if (ba && bcc) r.near("C=a*C0" + K, cc[k], a[k] * p.standardConcentration(k), 1e-9, 0, cat("k=", k));
        double lsc;
        if (G.s([&] { return p.logStandardConc(k); }, lsc)) r.near("logC0" + K, lsc, std::log(p.standardConcentration(k)), 1e-10, 1e-10);
    }

    // ---- standard and reference states ----
    vector<double> h0, s0, g0, u0, cp0, v0, hr, sr, gr, grd, ur, cpr, vr;
    bool b1 = G.v([&](double* x) { p.getEnthalpy_RT(x); }, h0), b2 = G.v([&](double* x) { p.getEntropy_R(x); }, s0),
         b3 = G.v([&](double* x) { p.getGibbs_RT(x); }, g0), b4 = G.v([&](double* x) { p.getIntEnergy_RT(x); }, u0),
         b5 = G.v([&](double* x) { p.getCp_R(x); }, cp0), b6 = G.v([&](double* x) { p.getStandardVolumes(x); }, v0);
    bool c1 = G.v([&](double* x) { p.getEnthalpy_RT_ref(x); }, hr), c2 = G.v([&](double* x) { p.getEntropy_R_ref(x); }, sr),
         c3 = G.v([&](double* x) { p.getGibbs_RT_ref(x); }, gr), c4 = G.v([&](double* x) { p.getGibbs_ref(x); }, grd),
         c5 = G.v([&](double* x) { p.getIntEnergy_RT_ref(x); }, ur), c6 = G.v([&](double* x) { p.getStandardVolumes_ref(x); }, vr);
    G.v([&](double* x) { p.getCp_R_ref(x); }, cpr);
    for (size_t k = 0; k < n; k++) {
        if (k == ke) continue;
        double z = 1 + (b1 ? std::fabs(h0[k]) : 0);
        if (b1 && b4 && b6) r.near("h0=u0+Pv0" + K, h0[k], u0[k] + P * v0[k] / RT, 1e-11, 0, cat("k=", k), z);
        if (b1 && b2 && b3) r.near("g0=h0-Ts0" + K, g0[k], h0[k] - s0[k], 1e-11, 0, cat("k=", k), z);
        if (b3 && bm0) r.near("mu0=g0" + K, mu0[k], g0[k] * RT, 1e-11, 0, cat("k=", k), RT * z);
        if (c1 && c2 && c3) r.near("gref=href-Tsref" + K, gr[k], hr[k] - sr[k], 1e-11, 0, cat("k=", k), z);
        if (c3 && c4) r.near("gref-dim" + K, grd[k], gr[k] * RT, 1e-11, 0, cat("k=", k), RT);
        if (c1 && c5 && c6) r.near("href=uref+Pvref" + K, hr[k], ur[k] + p.refPressure() * vr[k] / RT, 1e-11, 0, cat("k=", k), z);
    }

    // ---- derivative identities ----
    // two-phase or saturated states of pure fluids are the subject of C05
    if (isPure(s)) {
        double ps = 0;
        if (T < p.critTemperature()) {
            try { ps = p.satPressure(T); } catch (CanteraError&) { ps = 0; }
            back();
            if (std::fabs(P / ps - 1) < 0.02) { r.count("near-saturation"); return; }
        }
        if (std::fabs(T / p.critTemperature() - 1) < 0.05 && std::fabs(P / p.critPressure() - 1) < 0.3) { r.count("near-critical"); return; }
    }
    if (p.type() == "Redlich-Kwong" || p.type() == "Peng-Robinson") {
        // keep away from the spinodal where derivatives diverge or the phase switches
        double rho0 = p.density();
        bool smooth = true;
        for (double f : {0.995, 1.005}) {
            p.setState_TP(T, P * f);
            if (std::fabs(p.density() / rho0 - 1) > 0.05) smooth = false;
            p.setState_TP(T * (2 - f), P);
            if (std::fabs(p.density() / rho0 - 1) > 0.2) smooth = false;
        }
        back();
        if (!smooth) { r.count("near-spinodal"); return; }
    }
    double rt = 1e-6, dT = 2e-4 * T, dP = 2e-3 * P;
    if (T - dT < s.Tmin * 0.9) return;
    if (isPure(s)) rt = 2e-5;
    if (s.name == "water-iapws" || s.comp == MOLALITY || s.name == "vpss-hkft") rt = 1e-5;
    auto ident = [&](const string& key, const std::function<double()>& val, const std::function<FD()>& fd, double scale, double rtol) {
        double x;
        FD d;
        try {
            back();
            x = val();
            d = fd();
        } catch (NotImplementedError&) {
            back();
            return;
        } catch (CanteraError& e) {
            back();
            r.count("derivative-not-evaluated");
            return;
        }
        back();
        if (!d.ok || !std::isfinite(x)) { r.count("derivative-nonfinite"); return; }
        double m = std::max(std::fabs(x), std::fabs(d.val));
        if (d.err > 1e-2 * std::max(m, scale)) { r.count("derivative-imprecise"); return; }
        r.near(key + K, x, d.val, rtol, 30 * d.err, cat("fd err ", d.err), scale);
    };
    auto atT = [&](const std::function<double()>& f) { return [&, f](double t) { p.setState_TP(t, P); return f(); }; };
    auto atP = [&](const std::function<double()>& f) { return [&, f](double q) { p.setState_TP(T, q); return f(); }; };
    auto H = [&] { return p.enthalpy_mole(); };
    auto S = [&] { return p.entropy_mole(); };
    auto U = [&] { return p.intEnergy_mole(); };
    auto V = [&] { return p.molarVolume(); };
    auto Gm = [&] { return p.gibbs_mole(); };
    double R = GasConstant;
    if (!plasma) {
        ident("cp=dh/dT", [&] { return p.cp_mole(); }, [&] { return diff(atT(H), T, dT); }, R, rt);
        ident("cp=Tds/dT", [&] { return p.cp_mole() / T; }, [&] { return diff(atT(S), T, dT); }, R / T, rt);
        ident("s=-dg/dT", [&] { return -p.entropy_mole(); }, [&] { return diff(atT(Gm), T, dT); }, R, rt * 10);
    }
    // the electron cloud model has no equation of state (its properties are constants)
    if (!surf && s.name != "electron-cloud") {
        ident("v=dg/dP", [&] { return p.molarVolume(); }, [&] { return diff(atP(Gm), P, std::max(dP, p.isCompressible() ? 0.0 : 1e4)); }, v, rt * 10);
        ident("dh/dP=v-Tdv/dT", [&] { auto d = diff(atT(V), T, dT); back(); return p.molarVolume() - T * d.val; },
              [&] { return diff(atP(H), P, std::max(dP, p.isCompressible() ? 0.0 : 1e5)); }, v, rt * 50);
        if (!plasma) ident("maxwell-ds/dP", [&] { return -diff(atT(V), T, dT).val; }, [&] { return diff(atP(S), P, std::max(dP, p.isCompressible() ? 0.0 : 1e5)); }, v / T, rt * 100);
        ident("kappaT", [&] { return p.isothermalCompressibility(); },
              [&] { auto d = diff(atP(V), P, dP); return FD{-d.val / v, d.err / v, d.ok}; }, p.isCompressible() ? 1 / P * 1e-3 : 1e-12, rt * 5);
        ident("alphaV", [&] { return p.thermalExpansionCoeff(); },
              [&] { auto d = diff(atT(V), T, dT); return FD{d.val / v, d.err / v, d.ok}; }, 1e-5 / T, rt * 5);
    }
    if (p.isCompressible() && !plasma && !surf) {
        double rho = p.density();
        auto onePhase = [&] {
            // the path of the difference must not enter the two-phase region
            if (isPure(s) && p.vaporFraction() > 0 && p.vaporFraction() < 1) throw CanteraError("two-phase", "");
        };
        auto atTD = [&](const std::function<double()>& f) { return [&, f](double t) { p.setState_TD(t, rho); onePhase(); return f(); }; };
        ident("cv=du/dT", [&] { return p.cv_mole(); }, [&] { return diff(atTD(U), T, dT); }, R, rt);
        ident("cv=Tds/dT", [&] { return p.cv_mole() / T; }, [&] { return diff(atTD(S), T, dT); }, R / T, rt);
        ident("ds/dv=dP/dT", [&] { return diff(atTD([&] { return p.pressure(); }), T, dT).val; },
              [&] { return diff([&](double vv) { p.setState_TD(T, W / vv); onePhase(); return p.entropy_mole(); }, v, 2e-4 * v); }, P / T, rt * 50);
        // a^2 = (cp/cv) / (rho kappaT)
        double c, kt;
        back();
        if (bcp && bcv && Getter::s([&] { return p.soundSpeed(); }, c) && Getter::s([&] { return p.isothermalCompressibility(); }, kt)
            && std::isfinite(cp) && kt > 0 && cv > 0) {
            r.near("sound-speed" + K, c, std::sqrt(cp / cv / (rho * kt)), 1e-7);
        }
        back();
        double alpha;
        if (bcp && bcv && Getter::s([&] { return p.thermalExpansionCoeff(); }, alpha) && Getter::s([&] { return p.isothermalCompressibility(); }, kt) && std::isfinite(cp) && kt > 0)
            // tpx evaluates these by finite differences
            r.near("cp-cv" + K, cp - cv, T * v * alpha * alpha / kt, isPure(s) ? 2e-3 : 1e-7, 0, "", cp);
    }
    // standard-state heat capacities against their enthalpies, for every species
    back();
    if (b1 && b5 && !plasma) {
        vector<double> hp(n), hm(n), hp2(n), hm2(n), sp(n), sm_(n), sp2(n), sm2(n);
        auto get = [&](double t, vector<double>& hh, vector<double>& ss) {
            p.setState_TP(t, P);
            p.getEnthalpy_RT(hh.data());
            for (auto& q : hh) q *= t;
            if (b2) p.getEntropy_R(ss.data());
        };
        try {
            get(T + dT, hp, sp); get(T - dT, hm, sm_); get(T + dT / 2, hp2, sp2); get(T - dT / 2, hm2, sm2);
            for (size_t k = 0; k < n; k++) {
                double d1 = (hp[k] - hm[k]) / (2 * dT), d2 = (hp2[k] - hm2[k]) / dT;
                double err = std::fabs(d1 - d2) + 4e-15 * 4 * std::fabs(hp[k]) / dT;
                if (err < 1e-2 * std::max(1.0, std::fabs(cp0[k])))
                    r.near("cp0=dh0/dT" + K, cp0[k], (4 * d2 - d1) / 3, rt, 30 * err, cat("k=", k), 1);
                if (b2) {
                    double e1 = (sp[k] - sm_[k]) / (2 * dT), e2 = (sp2[k] - sm2[k]) / dT;
                    double er = std::fabs(e1 - e2) + 4e-15 * 4 * std::fabs(sp[k]) / dT;
                    if (er * T < 1e-2 * std::max(1.0, std::fabs(cp0[k])))
                        r.near("cp0=Tds0/dT" + K, cp0[k], T * (4 * e2 - e1) / 3, rt, 30 * er * T, cat("k=", k), 1);
                }
            }
        } catch (CanteraError&) {
            r.count("derivative-not-evaluated");
        }
        back();
    }
    // ---- composition derivatives: Gibbs-Duhem and mu = d(nG)/dn ----
    // Models whose activity coefficients or standard states are prescribed functions of
    // composition, not derived from one excess function, do not satisfy Gibbs-Duhem by
    // design: tabulated binary solutions, coverage-dependent surface species, the B-dot
    // term with species-specific ion sizes, and coefficients clipped by "cropping".
    bool empirical = s.comp == BINTAB || p.type() == "coverage-dependent-surface" || s.name.find("dh-Bdotak") == 0 || s.name == "hmw-bogus";
    if (n > 1 && pg && bg && !empirical && (s.comp == GAS || s.comp == SOLN || s.comp == MOLALITY || s.comp == BINTAB || s.comp == COVERAGE) && !plasma) {
        // move moles between two species that are both present
        vector<size_t> pres;
        for (size_t k = 0; k < n; k++) if (X[k] > 1e-4) pres.push_back(k);
        if (pres.size() >= 2) {
            size_t i1 = pres[g.idx(pres.size())], i2 = pres[g.idx(pres.size())];
            if (i1 != i2) {
                double e = 1e-3 * std::min(X[i1], X[i2]);
                auto at = [&](const std::function<double()>& f) {
                    return [&, f](double z) {
                        vector<double> y = X;
                        y[i1] += z;
                        y[i2] -= z;
                        // extensive change at constant total moles
                        p.setMoleFractions(y.data());
                        p.setState_TP(T, P);
                        return f();
                    };
                };
                auto back2 = [&] { p.setMoleFractions(X.data()); back(); };
                ident("mu-diff=dG/dn", [&] { return gk[i1] - gk[i2]; },
                      [&] { auto d = diff(at(Gm), 0.0, e); d.err += 1e-14 * E / e; back2(); return d; }, RT, rt);
                if (ph_ && bh) ident("hk-diff=dH/dn", [&] { return hk[i1] - hk[i2]; },
                      [&] { auto d = diff(at(H), 0.0, e); d.err += 1e-14 * E / e; back2(); return d; }, RT, rt);
                if (pv) ident("vk-diff=dV/dn", [&] { return vk[i1] - vk[i2]; },
                      [&] { auto d = diff(at(V), 0.0, e); d.err += 1e-14 * v / e; back2(); return d; }, v, rt);
            }
        }
    }
    back();
}

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    return drive(r, [](Run& rr, size_t i, Rng& g) {
        try {
            one(rr, i, g);
        } catch (CanteraError& e) {
            // equations of state without a solution at the state asked for say so
            const PhaseSpec& s = catalogue()[i % catalogue().size()];
            if (!isPure(s) && s.name != "water-iapws") throw;
            rr.count("state-not-solvable");
            cache.erase(s.name);
        }
    });
}
