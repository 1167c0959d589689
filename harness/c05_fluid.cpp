// C05: pure fluids with a liquid and a vapor phase. Saturation conditions, Clapeyron, two-phase
// mixing, inverse functions, stability, every property pair, phase labels, normal boiling points.
#include "vh.h"
#include "ct.h"
#include "cantera/thermo/PureFluidPhase.h"
using namespace vh;

struct F { const char* name; double Tmin, Tmax, Tnb, Pmax; };
static const F fluids[] = {{"water", 274, 1200, 373.124, 8e7}, {"nitrogen", 65, 1200, 77.355, 8e7}, {"methane", 92, 600, 111.667, 8e7},
    {"hydrogen", 15, 900, 20.28, 5e7}, {"oxygen", 58, 1000, 90.19, 8e7}, {"carbon-dioxide", 218, 1200, 0, 8e7},
    {"heptane", 260, 700, 371.53, 3e7}, {"HFC-134a", 172, 450, 247.076, 5e7}};

static shared_ptr<ThermoPhase> get(size_t i) {
    static shared_ptr<ThermoPhase> p[8];
    if (!p[i]) p[i] = newThermo("liquidvapor.yaml", fluids[i].name);
    return p[i];
}
struct S { double T, P, h, u, s, v, g, x; };
static S now(ThermoPhase& t) { return {t.temperature(), t.pressure(), t.enthalpy_mass(), t.intEnergy_mass(), t.entropy_mass(), 1 / t.density(), t.gibbs_mass(), t.vaporFraction()}; }

static void one(Run& r, Rng& g, size_t) {
    size_t fi = g.i(0, 7);
    const F& f = fluids[fi];
    auto tp = get(fi);
    ThermoPhase& t = *tp;
    string at = cat("@", f.name);
    double Tc = t.critTemperature(), Pc = t.critPressure(), Tlo = std::max(f.Tmin, t.minTemp()), Thi = std::min(f.Tmax, t.maxTemp());
    r.describe(cat(f.name));
    double R = GasConstant / t.meanMolecularWeight();
    r.near("critical-Z" + at, Pc / (t.critDensity() * R * Tc), 0.275, 0, 0.06);
    int mode = g.i(0, 3);
    if (mode == 0) { // saturation
        double T = g.uni(Tlo, Tc * (g.p(0.2) ? 0.9995 : 0.985));
        if (fi == 7 && T > 374.1) return;
        double Ps = t.satPressure(T);
        string d = cat("T ", T);
        bool nearc = T > 0.96 * Tc;
        t.setState_Tsat(T, 0);
        S l = now(t);
        t.setState_Tsat(T, 1);
        S w = now(t);
        r.near("sat-P" + at, l.P, Ps, 1e-9, 0, d);
        r.near("sat-P" + at, w.P, Ps, 1e-9, 0, d);
        r.near("sat-T" + at, l.T, T, 0, 0, d);
        r.check("sat-density-order" + at, l.v < w.v, d);
        // Gibbs energies: within the convergence tolerance of 0.001 J/kg
        r.near("equal-gibbs" + at, w.g, l.g, 0, 0.003 + 4e-15 * (std::fabs(l.h) + T * std::fabs(l.s)) + 1e-6 * Ps * (nearc ? w.v : l.v) + 3e-7 * R * T, d);
        // pressure of each phase from the equation of state, just outside the dome
        for (int k = 0; k < 2; k++) {
            double rho = 1 / (k ? w.v : l.v), e = 1e-7 * (k ? -1 : 1);
            t.setState_TD(T, rho * (1 + e)); double p1 = t.pressure();
            t.setState_TD(T, rho * (1 + 2 * e)); double p2 = t.pressure();
            r.near("eos-P" + at, 2 * p1 - p2, Ps, 3e-6, 1e-6 * std::fabs(p2 - p1) + 1e-9 * rho * R * T, cat(k, " ", d));
        }
        // Clausius-Clapeyron
        double dT = 1e-3 * T;
        if (T - dT > Tlo && T + dT < 0.99 * Tc) {
            double pa = t.satPressure(T - dT), pb = t.satPressure(T + dT), pa2 = t.satPressure(T - dT / 2), pb2 = t.satPressure(T + dT / 2);
            double D1 = (pb - pa) / (2 * dT), D2 = (pb2 - pa2) / dT, D = (4 * D2 - D1) / 3;
            r.near("clapeyron" + at, D * T * (w.v - l.v), w.h - l.h, 3e-4, 0, d);
        }
        r.near("latent" + at, T * (w.s - l.s), w.h - l.h, 1e-7, 0.01, d);
        r.check("latent-positive" + at, w.h > l.h && w.s > l.s, d);
        // inverse
        // the saturation temperature is solved to 1e-6 of the pressure
        double Tb = T;
        try { Tb = t.satTemperature(Ps); r.check("satT-accepted" + at, true); } catch (CanteraError& e) { r.check("satT-accepted" + at, false, cat(d, " ", e.what())); }
        if (T < 0.98 * Tc) r.near("sat-inverse" + at, t.satPressure(Tb), Ps, 3e-6, 0, d);
        if (T < 0.98 * Tc) r.near("sat-inverse-T" + at, Tb, T, 2e-6, 0, d);
        double T2 = g.uni(Tlo, 0.999 * Tc);
        double P2 = t.satPressure(T2);
        r.check("sat-increasing" + at, (P2 - Ps) * (T2 - T) >= 0, d);
        // mixtures
        double x = g.p(0.1) ? 0 : g.p(0.1) ? 1 : g.u();
        if (g.p(0.5)) t.setState_Tsat(T, x);
        else { if (T > 0.98 * Tc) return;
            try { t.setState_Psat(Ps, x); } catch (CanteraError& e) { r.check("psat-accepted" + at, false, cat(d, " ", e.what())); return; }
            r.check("psat-accepted" + at, true);
            r.near("psat-T" + at, t.temperature(), T, 2e-6, 0, d); r.near("psat-P" + at, t.pressure(), Ps, 3e-6, 0, d);
            T = t.temperature(); t.setState_Tsat(T, 0); l = now(t); t.setState_Tsat(T, 1); w = now(t); t.setState_Tsat(T, x); }
        S m = now(t);
        d = cat(d, " x ", x);
        auto mix = [&](double S::*q) { return (1 - x) * l.*q + x * w.*q; };
        auto tol = [&](double S::*q) { return 1e-11 * (std::fabs(l.*q) + std::fabs(w.*q)); };
        r.near("mixture-v" + at, m.v, mix(&S::v), 0, tol(&S::v), d);
        r.near("mixture-h" + at, m.h, mix(&S::h), 0, 10 * tol(&S::h) + 1e-9 * (w.h - l.h), d);
        r.near("mixture-u" + at, m.u, mix(&S::u), 0, 10 * tol(&S::u) + 1e-9 * (w.h - l.h), d);
        r.near("mixture-s" + at, m.s, mix(&S::s), 0, 10 * tol(&S::s) + 1e-9 * (w.s - l.s), d);
        r.near("mixture-g" + at, m.g, l.g, 0, 0.005 + 1e-6 * R * T + 1e-13 * (std::fabs(l.h) + T * std::fabs(l.s)), d);
        r.near("mixture-x" + at, m.x, x, 0, 1e-9 * w.v / (w.v - l.v) , d);
        r.near("mixture-P" + at, m.P, l.P, 1e-12, 0, d);
        if (x > 1e-6 && x < 1 - 1e-6 && w.v > 1.001 * l.v) {
            r.check("mixture-label" + at, t.phaseOfMatter() == "liquid-gas-mix", d + t.phaseOfMatter());
            r.check("mixture-cp" + at, std::isinf(t.cp_mass()) && std::isinf(t.thermalExpansionCoeff()) && std::isinf(t.isothermalCompressibility()), d);
            t.setState_TPQ(T, t.satPressure(T), x);
            r.near("TPQ" + at, t.vaporFraction(), x, 0, 1e-9, d);
            t.setState_Tsat(T, x);
            // T, v determine the mixture; lever rule for the others
            struct { const char* n; double a, b; } pr[] = {{"TV", m.T, m.v}, {"UV", m.u, m.v}, {"HP", m.h, m.P}, {"SP", m.s, m.P}, {"PV", m.P, m.v}, {"UP", m.u, m.P}, {"ST", m.s, m.T}, {"SV", m.s, m.v}};
            auto& q = pr[g.i(0, 7)];
            string n = q.n;
            bool elsewhere = g.p(0.5);
            if (elsewhere) t.setState_TP(g.uni(Tlo, Thi), g.logu(1e4, f.Pmax / 4)); // any state may come before
            try {
                if (n == "TV") t.setState_TV(q.a, q.b); else if (n == "UV") t.setState_UV(q.a, q.b); else if (n == "HP") t.setState_HP(q.a, q.b); else if (n == "SP") t.setState_SP(q.a, q.b);
                else if (n == "PV") t.setState_PV(q.a, q.b); else if (n == "UP") t.setState_UP(q.a, q.b); else if (n == "ST") t.setState_ST(q.a, q.b); else t.setState_SV(q.a, q.b);
            } catch (CanteraError& e) { r.count("pair-refused-in-dome"); r.check(cat("lever-", fi == 6 ? string("pair") : n, at), n == "UV" || n == "SV" || T > 0.98 * Tc, d + e.what()); return; }
            S b = now(t);
            // Tsat of the given pressure is good to 1e-6
            if (T < 0.97 * Tc) {
                r.near(cat("dome-pair-", n, "-T", at), b.T, m.T, 3e-6, 0, d);
                r.near(cat("dome-pair-", n, "-x", at), b.x, m.x, 0, 1e-4, d);
                r.near(cat("dome-pair-", n, "-h", at), b.h, m.h, 0, 1e-5 * (w.h - l.h) + 2e-5 * R * T * 10, d);
            }
        }
        r.state(vh::hashv(vector<double>{double(fi), T, x}));
        return;
    }
    // a single-phase state
    double T = g.uni(Tlo, Thi), P;
    if (g.p(0.3)) T = g.uni(Tlo, Tc);
    if (g.p(0.2)) T = Tc * g.uni(0.95, 1.2);
    bool sub = T < Tc;
    double Ps = sub ? t.satPressure(T) : 0;
    P = g.logu(1e3, f.Pmax);
    if (sub && g.p(0.3)) P = Ps * (g.p(0.5) ? g.uni(1.001, 1.5) : g.uni(0.5, 0.999));
    if (g.p(0.1)) P = Pc * g.uni(0.8, 1.3);
    // HFC134a::Psat stops at 374.18 K, the reported critical temperature is 374.21 K
    if (fi == 7 && std::fabs(T - 374.2) < 0.1) return;
    // heptane: (T, P) is not found (an error is reported) in the last 0.7 K below the critical point
    if (fi == 6 && std::fabs(T - 537.4) < 2) return;
    if (P > f.Pmax || (sub && std::fabs(P / Ps - 1) < 1e-4)) return;
    string d = cat("T ", T, " P ", P);
    // states reached from another state
    if (g.p(0.7)) try { t.setState_TP(g.uni(Tlo, Thi), g.logu(1e3, f.Pmax)); } catch (CanteraError&) {}
    t.setState_TP(T, P);
    S a = now(t);
    r.near("TP-P" + at, a.P, P, 1e-6, 0, d);
    r.near("TP-T" + at, a.T, T, 1e-9, 0, d);
    string ph = t.phaseOfMatter();
    string want = T >= Tc || a.P >= Pc ? "supercritical" : a.P < Ps ? "gas" : "liquid";
    if (std::fabs(P / Pc - 1) > 1e-5) r.check("label" + at, ph == want, cat(d, " ", ph, " ", want));
    if (sub) r.check("single-phase-x" + at, a.x == (P < Ps ? 1 : 0), cat(d, " ", a.x));
    r.near("h-u-Pv" + at, a.h, a.u + a.P * a.v, 1e-12, 1e-9 * a.P * a.v + 1e-11 * std::fabs(a.u), d);
    r.near("g-h-Ts" + at, a.g, a.h - a.T * a.s, 1e-12, 1e-12 * (std::fabs(a.h) + a.T * std::fabs(a.s)), d);
    bool nearcrit = std::fabs(T / Tc - 1) < 0.06 && P > 0.6 * Pc && P < 2 * Pc;
    if (mode == 1) { // stability and Maxwell relations from (T, v)
        double e = 1e-4, rho = 1 / a.v;
        double edge = sub ? 0.003 : 0;
        if (sub) {
            t.setState_Tsat(T, 0); double rl = t.density();
            t.setState_Tsat(T, 1); double rv = t.density();
            if (std::fabs(rho / rl - 1) < edge || std::fabs(rho / rv - 1) < edge) return;
        }
        auto st = [&](double TT, double rr) { t.setState_TD(TT, rr); return now(t); };
        S p = st(T, rho * (1 + e)), m = st(T, rho * (1 - e)), p2 = st(T, rho * (1 + e / 2)), m2 = st(T, rho * (1 - e / 2));
        auto D = [&](double S::*q) { return (4 * (p2.*q - m2.*q) / e - (p.*q - m.*q) / (2 * e)) / 3; }; // d/d ln rho
        double dPdr = D(&S::P);
        if (dPdr <= 1e-4 * rho * R * T && nearcrit) return;
        r.check("stable" + at, dPdr > 0, d);
        double rtr = rho * R * T;
        // f = u - T s: df/dlnrho = P/rho
        r.near("helmholtz-P" + at, D(&S::u) - T * D(&S::s), a.P * a.v, 2e-4, 1e-6 * R * T + 1e-9 * std::fabs(a.u) / e, d);
        // (T derivatives)
        double et = 1e-4 * T;
        if (T - et > Tlo && T + et < Thi && !(sub && (std::fabs(T - Tc) < 3 * et || std::fabs(P / Ps - 1) < 0.05))) {
            S q = st(T + et, rho), w = st(T - et, rho);
            double dPdT = (q.P - w.P) / (2 * et), dudT = (q.u - w.u) / (2 * et), dsdT = (q.s - w.s) / (2 * et);
            r.near("maxwell" + at, -D(&S::s) * rho, dPdT, 1e-3, 1e-3 * rho * R, d);
            t.setState_TD(T, rho);
            double cv = t.cv_mass(), cp = t.cp_mass();
            r.near("du-Tds" + at, dudT, T * dsdT, 1e-4, 1e-4 * R, d);
            if (!nearcrit) {
                r.near("cv" + at, cv, dudT, 1e-2, 2e-2 * R, d);
                double be = dPdT / dPdr, kap = 1 / dPdr;
                r.near("cp-cv" + at, cp - cv, T * be * be / kap * a.v, 0.02, 0.03 * R, d);
                r.near("expansion" + at, t.thermalExpansionCoeff(), be, 0.01, 0.002 / T, d);
                r.near("compressibility" + at, t.isothermalCompressibility(), kap, 0.01, 1e-13, d);
                r.check("cp-above-cv" + at, cp > cv - 0.02 * R && cv > 0, d);
            }
            t.setState_TD(T, rho);
            r.near("derivatives-keep-state" + at, t.pressure(), a.P, 1e-9, 1e-10 * rtr, d);
        }
        // density increases with pressure at fixed temperature, across the dome too
        t.setState_TP(T, P);
        double r1 = t.density(), P2 = std::min(f.Pmax, P * g.logu(1.0001, 100));
        if (P2 > P && !(sub && std::fabs(P2 / Ps - 1) < 1e-4)) { t.setState_TP(T, P2); r.check("density-increases" + at, t.density() > r1 * (1 - 1e-6), cat(d, " P2 ", P2, " ", r1, " ", t.density())); }
        r.state(vh::hashv(vector<double>{double(fi), T, P}));
    } else if (mode == 2) { // pairs
        struct { const char* n; double x, y; } pr[] = {{"HP", a.h, a.P}, {"SP", a.s, a.P}, {"UV", a.u, a.v}, {"SV", a.s, a.v}, {"ST", a.s, a.T}, {"TV", a.T, a.v}, {"PV", a.P, a.v}, {"UP", a.u, a.P}, {"VH", a.v, a.h}, {"TH", a.T, a.h}, {"SH", a.s, a.h}, {"DP", 1 / a.v, a.P}};
        int k = g.i(0, 11);
        string n = pr[k].n;
        double x = pr[k].x, y = pr[k].y;
        int from = g.i(0, 2);
        if (from == 1) try { t.setState_TP(g.uni(Tlo, Thi), g.logu(1e3, f.Pmax)); } catch (CanteraError&) {}
        if (from == 2) { // a nearby state of the same phase
            try { t.setState_TP(clip(T * g.uni(0.99, 1.01), Tlo, Thi), P); } catch (CanteraError&) {}
        }
        S b4 = now(t);
        try {
            switch (k) {
            case 0: t.setState_HP(x, y); break; case 1: t.setState_SP(x, y); break; case 2: t.setState_UV(x, y); break; case 3: t.setState_SV(x, y); break;
            case 4: t.setState_ST(x, y); break; case 5: t.setState_TV(x, y); break; case 6: t.setState_PV(x, y); break; case 7: t.setState_UP(x, y); break;
            case 8: t.setState_VH(x, y); break; case 9: t.setState_TH(x, y); break; case 10: t.setState_SH(x, y); break; default: t.setState_DP(x, y);
            }
        } catch (CanteraError& e) {
            r.count(cat("pair-refused-", n, "-", from));
            S af = now(t);
            r.check("refused-unchanged" + at, af.T == b4.T && af.v == b4.v, cat(n, " ", d));
            r.check("pair-from-itself" + at, from != 0, cat(n, " ", d));
            return;
        }
        r.count(cat("pair-reached-", n, "-", from));
        S b = now(t);
        auto held = [&](char c, double v) {
            double scale = R * T;
            double got = c == 'H' ? b.h : c == 'S' ? b.s : c == 'U' ? b.u : c == 'V' ? b.v : c == 'T' ? b.T : c == 'D' ? 1 / b.v : b.P;
            double tol = c == 'H' || c == 'U' ? 1e-3 + 1e-7 * std::fabs(v) : c == 'S' ? 1e-6 + 1e-7 * std::fabs(v) : c == 'T' ? 2e-3 : c == 'P' ? 1e-6 * v : c == 'V' ? 2e-8 + 1e-7 * v : 1e-7 * v + 2e-8 * v * v;
            (void)scale;
            r.near(cat("pair-", n, "-", string(1, c), at), got, v, 0, tol, cat(d, " from ", from));
        };
        held(n[0], x);
        held(n[1], y);
        // pairs that determine the state: pressure or density at fixed energy/entropy, T with v
        if (!nearcrit && n != "TH" && n != "SH" && n != "ST" && n != "VH" && n != "PV" && n != "DP" && n != "UP") {
            double cp = std::max(R, t.cp_mass());
            if (std::isfinite(cp)) r.near(cat("pair-", n, "-same-T", at), b.T, a.T, 1e-4, 0, cat(d, " from ", from));
            else r.check(cat("pair-", n, "-same-T", at), std::fabs(b.T / a.T - 1) < 1e-3, d);
        }
        r.state(vh::hashv(vector<double>{double(fi), T, P, double(k)}));
    } else { // limits
        if (f.Tnb > 0 && fi != 6) { r.near("normal-boiling" + at, t.satTemperature(101325), f.Tnb, 4e-3, 0); }
        // ideal-gas limit
        double Pl = g.logu(1e-2, 10), Tl = g.uni(std::max(Tlo, 0.7 * Tc), Thi);
        if (fi == 6 && std::fabs(Tl - 537.4) < 2) return;
        t.setState_TP(Tl, Pl);
        r.near("ideal-limit" + at, Pl / (t.density() * R * Tl), 1, 1e-3, 0, cat(Tl, " ", Pl));
        double h1 = t.enthalpy_mass(), s1 = t.entropy_mass();
        t.setState_TP(Tl, Pl / 10);
        r.near("ideal-h" + at, t.enthalpy_mass(), h1, 1e-9, 2e-5 * R * Tl + 1e-3);
        r.near("ideal-s" + at, t.entropy_mass() - s1, R * std::log(10.0), 1e-3, 1e-6);
        // reference-state values: those of the ideal gas at the same temperature
        t.setState_TP(T, P);
        a = now(t);
        double hr, gr, sr, cr; 
        t.getEnthalpy_RT_ref(&hr); t.getGibbs_RT_ref(&gr); t.getEntropy_R_ref(&sr); 
        S b = now(t);
        r.near("ref-keeps-state" + at, b.T, a.T, 0, 0, d); r.near("ref-keeps-state" + at, b.v, a.v, 1e-14, 0, d);
        r.near("ref-g" + at, gr, hr - sr, 1e-10, 1e-9 * (std::fabs(hr) + std::fabs(sr)), d);
        double rg[1]; t.getGibbs_ref(rg); r.near("ref-gibbs" + at, rg[0], gr * GasConstant * t.temperature(), 1e-12, 0);
        (void)cr;
        // errors
        S c0 = now(t);
        for (int k = 0; k < 5; k++) {
            bool threw = false;
            try {
                if (k == 0) t.setState_Tsat(Tc * g.uni(1.001, 1.5), g.u());
                else if (k == 1) t.setState_Psat(Pc * g.uni(1.001, 3), g.u());
                else if (k == 2) t.setState_Tsat(g.uni(Tlo, Tc), g.p(0.5) ? -g.uni(0.001, 2) : g.uni(1.001, 3));
                else if (k == 3) t.setState_TP(t.maxTemp() * g.uni(1.01, 2), P);
                else t.satPressure(Tc * g.uni(1.01, 1.5));
            } catch (CanteraError&) { threw = true; }
            r.check(cat("refused-", k, at), threw, d);
            if (k < 4) { S c = now(t); r.check(cat("refused-unchanged-", k, at), c.T == c0.T && c.v == c0.v, d); }
            t.setState_TV(c0.T, c0.v);
        }
        r.state(vh::hashv(vector<double>{double(fi), Tl, Pl}));
    }
}
int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    suppress_thermo_warnings();
    return drive(r, [](Run& r, size_t i, Rng& g) {
        try { one(r, g, i); }
        catch (CanteraError& e) {
            string w = e.what();
            auto q = w.find("No convergence. T = ");
            if (q != string::npos) { // an error close to the critical temperature is tolerated
                double T = std::atof(w.c_str() + q + 20);
                for (double Tc : {537.68, 374.21}) if (std::fabs(T / Tc - 1) < 0.01) { r.count("near-critical-refused"); return; }
            }
            // between the end of the R-134a correlation and the reported critical point
            if (string(e.what()).find("HFC134a::Psat") == string::npos || string(e.what()).find("T = 374.") == string::npos) throw;
            r.count("R134a-critical-gap");
        }
    });
}
